from rac.gen import *
from defdap.quat import Quat

_S = {}


def syms(g):
    """operators of the class, made here: generated from two rotations"""
    if g not in _S:
        def rot(ax, an):
            ax = np.array(ax, float) / np.linalg.norm(ax)
            return np.concatenate([[np.cos(an / 2)], -np.sin(an / 2) * ax])
        gen = [rot((0, 0, 1), np.pi / 2), rot((1, 1, 1), 2 * np.pi / 3)] if g == 'cubic' else [rot((0, 0, 1), np.pi / 3), rot((1, 0, 0), np.pi)]
        out = [np.array([1., 0, 0, 0])]
        k = 0
        while k < len(out):
            for s in gen:
                p = qmul(s, out[k])
                if not any(abs(abs(p @ o) - 1) < 1e-9 for o in out):
                    out.append(p)
            k += 1
        _S[g] = out
    return _S[g]


def mis(p, q, g):
    return 2 * np.arccos(min(1, max(abs(p @ qmul(s, q)) for s in syms(g))))


def expected(m, q, g, tol):
    """images, and where the tolerance is too close to call"""
    h, w = m.shape
    ph = np.asarray(m.data.phase)
    out = {}
    for mode, dy, dx in (('x', 0, 1), ('y', 1, 0)):
        e, p, amb = (np.zeros((h, w), bool) for _ in range(3))
        for y in range(h - dy):
            for x in range(w - dx):
                a = mis(q[y, x], q[y + dy, x + dx], g)
                p[y, x] = ph[y, x] != ph[y + dy, x + dx]
                e[y, x] = p[y, x] or a > tol
                amb[y, x] = not p[y, x] and abs(a - tol) < 1e-6 + (1e-7 / max(a, 1e-9) if a < 1e-3 else 0)
        out[mode] = (e, p, amb)
    return out


def check(m, q, g, tol, what):
    gb, pb = m.data.grain_boundaries, m.data.phase_boundaries
    ex = expected(m, q, g, tol * np.pi / 180)
    for mode in 'xy':
        e, p, amb = ex[mode]
        a, b = getattr(gb, f'image_{mode}'), getattr(pb, f'image_{mode}')
        assert a.shape == b.shape == m.shape
        assert np.array_equal(a[~amb], e[~amb]), f'{what}: grain boundaries along {mode}'
        assert np.array_equal(b, p), f'{what}: phase boundaries along {mode}'
        assert not (b & ~a).any(), f'{what}: phase boundaries are boundaries'


def boundaries(rng, i, log):
    size = {}
    if i % 20 == 13:
        size = dict(h=int(rng.integers(1, 4)), w=int(rng.integers(60, 100)))
        if rng.integers(2):
            size = dict(h=size['w'], w=size['h'])
    m, phase, euler, lab = random_ebsd(rng, **size, spread=float(rng.choice([0, .01, .1])))
    prim = int(rng.integers(len(m.phases)))
    m.primary_phase_id = prim
    g = m.primary_phase.crystal_structure.name
    tol = float(rng.choice([0.5, 2, 5, 10, 15, 40, 62.7]))
    log.update(phase=phase, euler=euler, tol=tol, crystal=g)
    q = np.empty(m.shape + (4,))
    ori = m.data.orientation
    for idx in np.ndindex(m.shape):
        q[idx] = ori[idx].quat_coef
    flip = None
    if tol == 10 and rng.integers(2):
        m.data.grain_boundaries
    else:
        quiet(m.data.generate, 'grain_boundaries', misori_tol=tol)
    check(m, q, g, tol, 'map')
    # replaced by the other quaternion or by an equivalent: the same boundaries
    new = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(m.shape):
        s = syms(g)[rng.integers(len(syms(g)))]
        p = qmul(s, q[idx]) * rng.choice([-1, 1])
        new[idx] = Quat(p, allow_southern=True)
    m.data.orientation = new
    quiet(m.data.generate, 'phase_boundaries', misori_tol=tol)
    check(m, q, g, tol, 'equivalent orientations')


def identical(rng, i, log):
    """no boundary between points of the same orientation, even without any tolerance"""
    h, w = (int(v) for v in rng.integers(1, 6, 2))
    m, phase, euler, lab = random_ebsd(rng, h, w)
    q = Quat(*[(1, 0, 0, 0), (.5, .5, .5, .5), (0, 0, 0, 1), (.5, -.5, .5, -.5)][i % 4])
    new = np.empty((h, w), dtype=object)
    for idx in np.ndindex(h, w):
        new[idx] = q
    m.data.orientation = new
    log['phase'], log['orientation'] = phase, q.quat_coef
    quiet(m.data.generate, 'grain_boundaries', misori_tol=0)
    ph = np.asarray(m.data.phase)
    g = m.data.grain_boundaries
    assert g.points_x == {(x, y) for y in range(h) for x in range(w - 1) if ph[y, x] != ph[y, x + 1]}, 'only phase boundaries'
    assert g.points_y == {(x, y) for y in range(h - 1) for x in range(w) if ph[y, x] != ph[y + 1, x]}, 'only phase boundaries'


CASES = {'identical': (identical, 12), 'boundaries': (boundaries, 80)}
