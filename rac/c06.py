from math import gcd
from rac.gen import *
from defdap import defaults
from defdap.crystal import crystalStructures, SlipSystem
from defdap import crystal_utils as U


def cell(rng):
    """a, b, c, alpha, beta, gamma of a possible cell"""
    k = rng.integers(5)
    a, b, c = rng.uniform(0.5, 9, 3)
    d = np.pi / 180
    if k == 0:
        return a, a, a, 90 * d, 90 * d, 90 * d
    if k == 1:
        return a, a, c, 90 * d, 90 * d, 120 * d
    if k == 2:
        return a, b, c, 90 * d, rng.uniform(60, 120) * d, 90 * d
    while True:
        t = rng.uniform(40, 140, 3) * d
        x, y, z = np.cos(t)
        if 1 + 2 * x * y * z - x * x - y * y - z * z > 0.02:
            return (a, b, c, *t)


def matrices(rng, i, log):
    p = cell(rng)
    conv = [None, 'hkl', 'tsl', 'HKL', 'TSL', 'oi'][rng.integers(6)]
    log.update(cell=p, convention=conv)
    L = U.create_l_matrix(*p) if conv is None and rng.integers(2) else U.create_l_matrix(*p, convention=conv)
    G = L.T @ L
    a, b, c, x, y, z = p
    close(np.sqrt(np.diag(G)), [a, b, c], 'lengths of the lattice vectors', 1e-8)
    close([G[1, 2] / b / c, G[0, 2] / a / c, G[0, 1] / a / b], np.cos([x, y, z]), 'angles of the lattice vectors', 1e-8)
    assert np.linalg.det(L) > 0, 'left-handed lattice'
    e = (conv or defaults['crystal_ortho_conv']).lower()
    if e == 'tsl':
        close(L[1:, 0], [0, 0], 'first vector along x')
    else:
        close(L[[0, 2], 1], [0, 0], 'second vector along y')
    L0 = L.copy()
    Q = U.create_q_matrix(L)
    assert (L == L0).all(), 'lattice matrix changed'
    close(L.T @ Q, np.eye(3), 'reciprocal basis', 1e-8)
    h, u = rng.integers(-5, 6, 3), rng.integers(-5, 6, 3)
    close((Q @ h) @ (L @ u), h @ u, 'plane and direction', 1e-7)
    try:
        U.create_l_matrix(*p, convention='abc')
    except ValueError:
        pass
    else:
        raise AssertionError('unknown convention accepted')


def num(rng, big=False):
    k = rng.integers(4)
    hi = [3, 12, 200, 30000][k] if big else [2, 4, 12, 200][k]
    return int(rng.integers(-hi, hi + 1))


def as_kind(rng, v):
    k = rng.integers(4)
    return [tuple(v), list(v), np.array(v), np.array(v, dtype=float)][k]


def convert(rng, i, log):
    h, k, l = [num(rng, True) for _ in range(3)]
    log.update(m=(h, k, l))
    p = as_kind(rng, (h, k, l))
    p0 = tuple(p)
    b = U.convert_idc('m', plane=p)
    assert isinstance(b, tuple) and tuple(int(x) for x in b) == (h, k, -h - k, l), f'plane {b}'
    assert tuple(p) == p0, 'input changed'
    m = U.convert_idc('mb', plane=b)
    assert tuple(int(x) for x in m) == (h, k, l), f'plane and back: {m}'
    m = U.convert_idc('mb', plane=as_kind(rng, (h, k, -h - k, l)))
    assert tuple(int(x) for x in m) == (h, k, l), f'plane from four indices: {m}'
    # directions
    u, v, w = h, k, l
    d = as_kind(rng, (u, v, w))
    b = U.convert_idc('m', dir=d)
    close(b, np.array([2 * u - v, 2 * v - u, -u - v, 3 * w]) / 3, 'direction')
    if not any(x % 3 for x in (2 * u - v, 2 * v - u, u + v)):
        assert all(float(x) == int(x) for x in b)
    assert tuple(d) == (u, v, w), 'input changed'
    close(U.convert_idc('mb', dir=b), (u, v, w), 'direction and back')
    f = as_kind(rng, (u, v, -u - v, w))
    f0 = tuple(f)
    m = U.convert_idc('mb', dir=f)
    assert tuple(int(x) for x in m) == (2 * u + v, u + 2 * v, w), f'direction from four indices: {m}'
    assert tuple(f) == f0, 'input changed'
    close(U.convert_idc('M' if rng.integers(2) else 'm', dir=m), (u, v, -u - v, w), 'four-index direction and back')
    # the same direction and plane in space
    c = float(rng.choice([1.5, 1.587, 1.633, 1.8]))
    n3, n4 = U.project_to_orth(c, plane=(h, k, l), in_type='m'), U.project_to_orth(c, plane=(h, k, -h - k, l))
    close(n3, n4, 'plane in space')
    d3, d4 = U.project_to_orth(c, dir=m, in_type='m'), U.project_to_orth(c, dir=(u, v, -u - v, w))
    close(d3, d4, 'direction in space')
    close(n4 @ d4, h * m[0] + k * m[1] + l * m[2], 'plane and direction meet as their indices', 1e-7)
    # a1, a2, a3 setting
    L = U.create_l_matrix(1, 1, c, np.pi / 2, np.pi / 2, 2 * np.pi / 3)
    a1, a2, cc = L.T
    close(d4, u * a1 + v * a2 + (-u - v) * (-a1 - a2) + w * cc, 'four-index direction is u a1 + v a2 + t a3 + w c', 1e-7)


def wrong(rng, i, log):
    bad = [lambda: U.convert_idc('m'), lambda: U.convert_idc('m', dir=(1, 0, 0), plane=(1, 0, 0)),
           lambda: U.convert_idc('m', dir=(1, 0, 0, 0)), lambda: U.convert_idc('mb', dir=(1, 0, 0)),
           lambda: U.convert_idc('m', plane=(1, 0, -1, 0)), lambda: U.convert_idc('mb', plane=(1, 0, 0)),
           lambda: U.convert_idc('x', plane=(1, 0, 0)), lambda: U.safe_int_cast((1.2, 0)), lambda: U.safe_int_cast((0.5, 0)),
           lambda: U.safe_int_cast((1, 2.002)), lambda: U.str_idx(1.5), lambda: U.project_to_orth(1.6),
           lambda: U.project_to_orth(1.6, dir=(1, 0, 0)), lambda: U.project_to_orth(1.6, plane=(1, 0, 0), in_type='x')]
    for k, f in enumerate(bad):
        try:
            r = f()
        except ValueError:
            continue
        raise AssertionError(f'wrong input {k} accepted: {r}')


def reduce_(rng, i, log):
    n = int(rng.integers(2, 5))
    f = int(rng.choice([1, 1, 2, 3, 7, 60, 500]))
    v = [num(rng, True) * f for _ in range(n)]
    if rng.integers(3) == 0:
        v[rng.integers(n)] = 0
    log.update(v=v)
    p = [tuple(v), np.array(v), tuple(np.array(v))][rng.integers(3)]
    if any(v):
        g = gcd(*v)
        r = U.reduce_idc(p)
        assert isinstance(r, tuple) and tuple(int(x) for x in r) == tuple(x // g for x in v), f'reduced {r}'
        q = U.pos_idc(p)
        first = [x for x in v if x][0]
        s = 1 if first > 0 else -1
        assert isinstance(q, tuple) and tuple(int(x) for x in q) == tuple(s * x for x in v), f'positive {q}'
        q2 = U.pos_idc(tuple(-x for x in v))
        assert tuple(map(int, q)) == tuple(map(int, q2)), 'opposite indices differ'
        if n == 3:
            w = np.array(v) + rng.uniform(-9e-4, 9e-4, n)
            c = U.safe_int_cast(w)
            assert tuple(int(x) for x in c) == tuple(v), f'cast {c}'
            assert all(float(x) == int(x) for x in c)


def text(rng, i, log):
    n = int(rng.integers(2, 5))
    v = [num(rng, True) for _ in range(n)]
    log.update(v=v)
    kind = ['unicode', 'tex'][rng.integers(2)]
    t = U.idc_to_string(v, '()', kind)
    over = (lambda s: s + '\u0305') if kind == 'unicode' else (lambda s: r'$\bar{' + s + r'}$')
    assert t == '(' + ''.join(str(x) if x >= 0 else over(str(-x)) for x in v) + ')', f'label {t}'
    assert U.idc_to_string(v, str_type=kind) == t[1:-1]


def family(rng, i, log):
    """equivalent indices are the images under the symmetry operators"""
    hexa = bool(rng.integers(2))
    key = 'plane' if rng.integers(2) else 'dir'
    h, k, l = [int(x) for x in rng.integers(-3, 4, 3)]
    if not (h or k or l):
        h = 1
    g = gcd(h, k, l)
    h, k, l = h // g, k // g, l // g
    c = float(rng.choice([1.5, 1.587, 1.633, 1.8]))
    log.update(hexa=hexa, key=key, idc=(h, k, l), c=c)
    cs = crystalStructures['hexagonal' if hexa else 'cubic']
    S = [s.rot_matrix() if False else np.array([s.transform_vector(e) for e in np.eye(3)]).T for s in cs.symmetries]
    if not hexa:
        out = U.equavlent_indicies('cubic', cs.symmetries, **{key: (h, k, l)})
        vec = [np.array(o, float) for o in out]
        ref = [s @ np.array([h, k, l], float) for s in S]
    else:
        mb = (h, k, -h - k, l)
        if rng.integers(2):
            out = U.equavlent_indicies('hexagonal', cs.symmetries, c_over_a=c, **{key: mb})
            v = U.project_to_orth(c, **{key: mb})
        else:
            out = U.equavlent_indicies('hexagonal', cs.symmetries, c_over_a=c, in_type='m', **{key: (h, k, l)})
            v = U.project_to_orth(c, in_type='m', **{key: (h, k, l)})
        vec = [U.project_to_orth(c, **{key: tuple(int(x) for x in o)}) for o in out]
        ref = [s @ v for s in S]
    assert len(out) == len(S)
    for o, a, b in zip(out, vec, ref):
        assert all(float(x) == int(x) for x in o)
        assert o[-1] >= 0, f'{o} points down'
        a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
        assert min(np.abs(a - b).max(), np.abs(a + b).max()) < 1e-6, f'{o} is not the image of the indices'
        if hexa:
            assert o[0] + o[1] + o[2] == 0, f'{o} are no Miller-Bravais indices'


CASES = {'matrices': (matrices, 120), 'convert': (convert, 150), 'wrong': (wrong, 1), 'reduce': (reduce_, 200), 'text': (text, 60),
         'family': (family, 120)}
