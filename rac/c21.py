from rac.gen import *
from defdap import ebsd, hrdic


class Obj:
    pass


def brute(shape, pts):
    out = np.full(shape, 1000.)
    for y in range(shape[0]):
        for x in range(shape[1]):
            for px, py in pts:
                out[y, x] = min(out[y, x], ((x - px - .5) ** 2 + (y - py - .5) ** 2) ** .5)
    return out


def calc(rng, i, log):
    """boundary points in any order, any batch size"""
    h, w = (int(v) for v in rng.integers(1, 9, 2))
    if i % 20 == 17:
        h, w = (2, int(rng.integers(100, 400)))[::1 if rng.integers(2) else -1]
    n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 30]))
    k = int(rng.choice([1, 2, 3, 4, max(n - 1, 1), max(n, 1), n + 1, 500]))
    far = rng.uniform() < .1
    pts = [(int(x) + (3000 if far else 0), int(y)) for x, y in zip(rng.integers(0, w, n), rng.integers(0, h, n))]
    log['points'], log['trials'], log['shape'] = pts, k, (h, w)
    cls = (ebsd, hrdic)[int(rng.integers(2))].Map
    m = cls.__new__(cls)
    m.shape = (h, w)
    m.data = Obj()
    m.data.grain_boundaries = Obj()
    m.data.grain_boundaries.points = pts
    r = quiet(lambda: m.calc_proxigram(num_trials=k)) if i % 4 else quiet(lambda: m.calc_proxigram())
    close(r, brute((h, w), pts), 'proximity')
    assert m.data.grain_boundaries.points == pts


def orientation_map(rng, i, log):
    h, w = (int(v) for v in rng.integers(2, 10, 2))
    m, phase, euler, labels = random_ebsd(rng, h, w, nphase=int(rng.integers(1, 3)), spread=float(rng.choice([0, 3, 20])))
    log['euler'] = euler
    quiet(lambda: m.data.generate('grain_boundaries', misori_tol=float(rng.choice([2, 10, 30]))))
    got = quiet(lambda: m.data.proxigram)
    im = m.data.grain_boundaries.image
    close(got, brute((h, w), [(x, y) for y, x in zip(*np.nonzero(im))]), 'proximity')
    close(quiet(lambda: m.proxigram), got, 'the same through the attribute of the map')


def many(rng, i, log):
    """more points than fit into one batch"""
    m = ebsd.Map.__new__(ebsd.Map)
    h, w = int(rng.integers(20, 30)), int(rng.integers(26, 40))
    m.shape = (h, w)
    ix, iy = rng.uniform(size=(2, h, w)) < .7
    m.data = Obj()
    m.data.grain_boundaries = b = ebsd.BoundarySet.from_image(m, ix, iy)
    log['image'] = b.image
    assert b.image.sum() > 10
    got = quiet(lambda: m.calc_proxigram())
    d = np.full((h, w), 1000.)
    y, x = np.indices((h, w))
    for by, bx in zip(*np.nonzero(ix | iy)):
        d = np.minimum(d, np.hypot(y - by - .5, x - bx - .5))
    close(got, d, 'proximity')


CASES = {'calc': (calc, 200), 'orientation_map': (orientation_map, 40), 'many': (many, 6)}
