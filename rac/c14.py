from rac.gen import *
from defdap import ebsd
from defdap._accelerated import flood_fill


def regions(idx, bx, by):
    """connected regions of the indexed pixels, as a label image (independent of the code under test)"""
    h, w = idx.shape
    par = {(y, x): (y, x) for y in range(h) for x in range(w)}

    def root(p):
        while par[p] != p:
            par[p] = par[par[p]]
            p = par[p]
        return p
    for y in range(h):
        for x in range(w):
            if x + 1 < w and not bx[y, x]:
                par[root((y, x))] = root((y, x + 1))
            if y + 1 < h and not by[y, x]:
                par[root((y, x))] = root((y + 1, x))
    out = {}
    for y in range(h):
        for x in range(w):
            if idx[y, x]:
                out.setdefault(root((y, x)), set()).add((x, y))
    return list(out.values())


def check(m, bx, by, phase, mins, im):
    idx = phase != 0
    regs = regions(idx, bx, by)
    big = [r for r in regs if len(r) >= mins]
    h, w = phase.shape
    assert im.shape == (h, w), 'shape of the grain image'
    gr = list(m)
    assert len(gr) == len(big) == len(m), f'{len(gr)} grains instead of {len(big)}'
    seen = set()
    for k, g in enumerate(gr):
        pts = [(int(x), int(y)) for x, y in g.data.point]
        s = set(pts)
        assert len(s) == len(pts) == len(g), 'points listed once'
        assert s in big, 'a grain is a connected region'
        assert not s & seen, 'grains overlap'
        seen |= s
        assert {(int(x), int(y)) for y, x in zip(*np.nonzero(im == k + 1))} == s, 'image and points of a grain'
        assert g.grain_id == k, 'number of the grain'
        ph = {int(phase[y, x]) for x, y in pts}
        assert len(ph) == 1 and g.phase_id == ph.pop() - 1 and g.phase is m.phases[g.phase_id], 'phase of the grain'
        assert g.ebsd_map is m
    small = set().union(*[r for r in regs if len(r) < mins])
    for y in range(h):
        for x in range(w):
            e = 0 if not idx[y, x] else -2 if (x, y) in small else None
            v = int(im[y, x])
            assert (v == e) if e is not None else 1 <= v <= len(gr), f'label {v} of pixel {(x, y)}'


def setb(m, bx, by):
    m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, bx, by)


def sizes(rng):
    k = rng.integers(4)
    return [(1, int(rng.integers(1, 12))), (int(rng.integers(1, 12)), 1), (int(rng.integers(1, 4)), int(rng.integers(1, 4))),
            (int(rng.integers(2, 11)), int(rng.integers(2, 11)))][k]


def random_boundaries(rng, i, log):
    """arbitrary boundary images that separate the phases, several rounds on one map"""
    h, w = sizes(rng)
    m, phase, euler, lab = random_ebsd(rng, h, w)
    if rng.integers(12) == 0:
        phase[:] = 0
        m = ebsd_map(phase, euler, phases()[:1])
    log['phase'] = phase
    for r in range(2):
        d = rng.choice([0, .1, .4, .7, 1])
        bx, by = rng.uniform(size=(h, w)) < d, rng.uniform(size=(h, w)) < d
        bx[:, :-1] |= phase[:, :-1] != phase[:, 1:]
        by[:-1] |= phase[:-1] != phase[1:]
        if rng.integers(2):
            # what lies past the end of the map does not matter
            bx[:, -1] = rng.integers(2)
            by[-1] = rng.integers(2)
        mins = int(rng.choice([0, 1, 2, 3, 5, 10, 200]))
        log[f'bx{r}'], log[f'by{r}'], log[f'min{r}'] = bx, by, mins
        setb(m, bx, by)
        if mins == 10 and r == 0:
            im = quiet(lambda: m.data.grains)       # found when they are asked for
        else:
            quiet(m.data.generate, 'grains', min_grain_size=mins)
            im = m.data.grains
        check(m, bx, by, phase, mins, np.asarray(im))


def detected(rng, i, log):
    """boundaries as detected"""
    m, phase, euler, lab = random_ebsd(rng)
    tol, mins = float(rng.choice([1., 5., 10.])), int(rng.choice([0, 1, 3, 10]))
    log['phase'], log['labels'], log['min'] = phase, lab, mins
    quiet(m.data.generate, 'grain_boundaries', misori_tol=tol)
    quiet(m.data.generate, 'grains', min_grain_size=mins)
    b = m.data.grain_boundaries
    im = np.asarray(m.data.grains)
    check(m, np.array(b.image_x), np.array(b.image_y), phase, mins, im)


def large(rng, i, log):
    """maps with more regions than the progress report counts"""
    import defdap
    old = defdap.defaults['find_grain_report_freq']
    h, w = (int(v) for v in rng.integers(20, 45, 2))
    phase = np.ones((h, w), int)
    phase[rng.uniform(size=(h, w)) < .1] = 0
    m = ebsd_map(phase, np.zeros((3, h, w)), phases()[:1])
    d = rng.choice([.3, .55, .8])
    bx, by = rng.uniform(size=(h, w)) < d, rng.uniform(size=(h, w)) < d
    bx[:, :-1] |= phase[:, :-1] != phase[:, 1:]
    by[:-1] |= phase[:-1] != phase[1:]
    log['seed'] = (h, w, float(d))
    setb(m, bx, by)
    mins = int(rng.choice([1, 2, 10]))
    try:
        defdap.defaults['find_grain_report_freq'] = int(rng.choice([1, 3, 100]))
        quiet(m.data.generate, 'grains', min_grain_size=mins)
    finally:
        defdap.defaults['find_grain_report_freq'] = old
    check(m, bx, by, phase, mins, np.asarray(m.data.grains))


def fill(rng, i, log):
    """one fill in a partly filled map, buffer exactly large enough"""
    h, w = sizes(rng)
    d = rng.choice([.2, .5, .8])
    bx, by = rng.uniform(size=(h, w)) < d, rng.uniform(size=(h, w)) < d
    log['bx'], log['by'] = bx, by
    regs = regions(np.ones((h, w), bool), bx, by)
    rng.shuffle(regs)
    G, P = np.zeros((h, w), int), np.ones((h, w), bool)
    buf = np.zeros((h * w, 2), np.intp)
    done = []
    for k, r in enumerate(regs):
        pts = sorted(r)
        seed = pts[rng.integers(len(pts))]
        g0, p0 = G.copy(), P.copy()
        out = flood_fill(seed, k + 1, P, G, bx, by, buf)
        assert [tuple(int(v) for v in p) for p in out][0] == seed
        assert sorted(tuple(int(v) for v in p) for p in out) == pts, 'region'
        e = g0.copy()
        for x, y in pts:
            e[y, x] = k + 1
            p0[y, x] = False
        assert np.array_equal(G, e) and np.array_equal(P, p0), 'image'
        done.append((out, pts))
        buf = buf[len(out):]
        if rng.integers(3) == 0:
            for x, y in pts:
                G[y, x] = -2
    for out, pts in done:
        assert sorted(tuple(int(v) for v in p) for p in out) == pts, 'points change later'


CASES = {'random boundaries': (random_boundaries, 250), 'detected': (detected, 60), 'large': (large, 12), 'fill': (fill, 200)}
