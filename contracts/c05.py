"""C05: directions of inverse pole figures and their colours."""
from pydv.contract import *
from pydv.rt import DvList
from pydv.seqs import SSeq

LEVEL = 'proof'
NOTE = '''Any number of orientations, any sample direction, both crystal classes and triangle conventions; floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; the sector is exact up to the tolerance the code uses to catch its edges',
    'the azimuth range [lo, hi] is the half-plane condition on the Cartesian components (definition of atan2)',
    'colours: the angles to the sides of the sector that are divided by are assumed not to be zero',
    'that colours are pure at the corners and follow the sector is checked on the running code only',
]
TARGETS = {}
target = register(TARGETS)
SIZE = {'cubic': 24, 'hexagonal': 12}
REC = {}


class Searched(Exception):
    """the search has its poles"""


def polar(x, y, z):
    """contract of polar_angles as far as its callers rely on it"""
    REC['xyz'] = (np.copy(x), np.copy(y), np.copy(z))
    a, b = arr(x.shape, 'alpha'), arr(x.shape, 'beta')
    REC['ab'] = (a, b)
    return a, b


def setup(g, m=None):
    Q = S().quat.Quat
    n = dims('n')
    m = m or SIZE[g]
    t = arr((m, 4, n), 'table')

    def eqvs(quats, sym_group, dtype=float):
        REC['sym'] = sym_group
        return np.copy(t)
    Q.calc_sym_eqvs = staticmethod(eqvs)
    Q.polar_angles = staticmethod(polar)
    quats = arr((n,), 'quats')
    d = vec('d', 3)
    return Q, n, t, quats, d


def rotated(q, d):
    """M(q) d"""
    w, x, y, z = q
    return [(w * w + x * x - y * y - z * z) * d[0] + 2 * (x * y - w * z) * d[1] + 2 * (x * z + w * y) * d[2],
            2 * (x * y + w * z) * d[0] + (w * w - x * x + y * y - z * z) * d[1] + 2 * (y * z - w * x) * d[2],
            2 * (x * z - w * y) * d[0] + 2 * (y * z + w * x) * d[1] + (w * w - x * x - y * y + z * z) * d[2]]


def poles(ctx, g):
    """the directions whose angles are searched are the equivalents of the
    sample direction, in the northern hemisphere"""
    Q, n, t, quats, d = setup(g, dims('m'))

    def polar_only(x, y, z):
        polar(x, y, z)
        raise Searched
    Q.polar_angles = staticmethod(polar_only)
    try:
        Q.calc_fund_dirs(quats, np.array(d), g)
        ctx.prove('the angles of the poles are searched', False)
    except Searched:
        pass
    ctx.prove('equivalents of the right class', REC['sym'] == g)
    xyz = REC['xyz']
    i, k = generic_index((t.shape[0], n), 'g')
    r = rotated([SReal.of(t.get((i, j, k))) for j in range(4)], d)
    v = [SReal.of(c.get((i, k))) for c in xyz]
    for a in range(3):
        for b in range(a):
            ctx.prove_eq(f'a pole is along the transformed direction [{a},{b}]', v[a] * r[b], v[b] * r[a])
    ctx.prove_eq('a pole is a unit vector', v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1)
    ctx.prove('a pole is in the northern hemisphere', v[2] >= -1e-6)


@target('poles_cubic', timeout=40, def_mode='assume')
def t1(ctx):
    poles(ctx, 'cubic')


@target('poles_hexagonal', timeout=40, def_mode='assume')
def t2(ctx):
    poles(ctx, 'hexagonal')


def chosen(ctx, g, tri):
    m = SIZE[g]
    Q, n, t, quats, d = setup(g)
    kw = {} if tri is None else {'triangle': tri}
    al, be = Q.calc_fund_dirs(quats, np.array(d), g, **kw)
    ctx.prove('one direction per orientation', len(al.shape) == 1 and mk(al.shape[0] == n) is True)
    k, = generic_index((n,), 'g')
    a, b = REC['ab']
    pi = T.pi()
    lo, hi = {'cubic': (pi / 2, 3 * pi / 4), 'up': (pi / 2, 2 * pi / 3), 'down': (pi / 3, pi / 2)}['cubic' if g == 'cubic' else tri or 'up']
    av = [SReal.of(a.get((i, k))) for i in range(m)]
    bv = [SReal.of(b.get((i, k))) for i in range(m)]
    eps = SReal.of(1) / 1000000

    def inside(i, e):
        s = T.ssin(av[i])
        return and_(mk((lo - bv[i]) * s <= e), mk((bv[i] - hi) * s <= e))
    x, y = SReal.of(al.get((k,))), SReal.of(be.get((k,)))
    # poles strictly inside are found whatever the tolerance
    opts = [and_(mk(x == av[i]), mk(y == bv[i]), inside(i, eps)) for i in range(m)]
    for i in range(m):
        if g == 'cubic':
            ctx.prove(f'one of the poles in the azimuth range is returned [{i}]', implies(inside(i, 0), or_(*opts)))
            ctx.prove(f'the one of least inclination [{i}]', implies(inside(i, 0), mk(x <= av[i])))
        else:
            ctx.prove(f'one of the poles in the azimuth range is returned [{i}]', implies(inside(i, 0), or_(*opts[:i + 1])))


@target('chosen_cubic', timeout=60, def_mode='assume')
def t3(ctx):
    chosen(ctx, 'cubic', None)


@target('chosen_up', timeout=60, def_mode='assume')
def t4(ctx):
    chosen(ctx, 'hexagonal', 'up')


@target('chosen_down', timeout=60, def_mode='assume')
def t5(ctx):
    chosen(ctx, 'hexagonal', 'down')


@target('chosen_default', timeout=60, def_mode='assume')
def t6(ctx):
    chosen(ctx, 'hexagonal', None)


@target('polar', timeout=40, def_mode='assume')
def t7(ctx):
    Q = S().quat.Quat
    n = dims('n')
    v = [arr((n,), c) for c in 'xyz']
    a, b = Q.polar_angles(*v)
    k, = generic_index((n,), 'g')
    x, y, z = [SReal.of(c.get((k,))) for c in v]
    al, be = SReal.of(a.get((k,))), SReal.of(b.get((k,)))
    r = T.ssqrt(x * x + y * y + z * z)
    ctx.fact(r > 0)
    ctx.prove_eq('inclination', T.scos(al) * r, z)
    ctx.prove('inclination in [0, pi]', and_(al >= 0, al <= T.pi()))
    ctx.prove('azimuth in (-pi, pi]', and_(be > -T.pi(), be <= T.pi()))
    h = T.ssqrt(x * x + y * y)
    ctx.prove_eq('azimuth: x', T.scos(be) * h, x)
    ctx.prove_eq('azimuth: y', T.ssin(be) * h, y)


def lin(v):
    return [SReal.of(c) for c in v]


def sector(g, tri, v):
    x, y, z = v
    s3 = T.ssqrt(3)
    if g == 'cubic':
        return and_(x <= 0, y >= -x, z >= y)
    if tri == 'up':
        return and_(z >= 0, x <= 0, y >= 0, y >= -s3 * x)
    return and_(z >= 0, x >= 0, y >= 0, y >= s3 * x)


def azimuth(g, tri, v):
    """lo <= atan2(y, x) <= hi"""
    x, y, z = v
    s3 = T.ssqrt(3)
    if g == 'cubic':
        return and_(x <= 0, y >= -x)
    if tri == 'up':
        return and_(x <= 0, y >= -s3 * x)
    return and_(x >= 0, y >= s3 * x)


def complete(ctx, g, tri):
    """every direction has an equivalent in the sector; the pole the search
    picks is in the sector; the equivalent in the sector is unique"""
    v = vec('v', 3)
    Q = S().quat.Quat
    if tri is not None:
        s3 = T.ssqrt(3)
        ctx.fact(and_(s3 * s3 == 3, s3 > 0))
    cand = []
    for s in Q.sym_eqv(g):
        r = [SReal.of(c) for c in rotated([SReal.of(s[j]) for j in range(4)], v)]
        cand.append(r)
    both = cand + [[-c for c in r] for r in cand]
    ctx.prove('every direction has an equivalent in the sector', or_(*[sector(g, tri, r) for r in both]))
    if g == 'cubic':
        # for v itself in range, north: if nothing in range is higher, it is in the sector
        hyp = and_(v[2] >= 0, azimuth(g, tri, v), *[implies(and_(r[2] >= 0, azimuth(g, tri, r)), mk(r[2] <= v[2])) for r in both])
    else:
        hyp = and_(v[2] >= 0, azimuth(g, tri, v))
    ctx.prove('the pole picked is in the sector', implies(hyp, sector(g, tri, v)))
    for i, r in enumerate(both):
        ctx.prove(f'the sector holds one of each set of equivalents [{i}]',
                  implies(and_(sector(g, tri, v), sector(g, tri, r)), and_(*[mk(a == b) for a, b in zip(r, v)])))


@target('sector_cubic', timeout=60)
def t8(ctx):
    complete(ctx, 'cubic', None)


@target('sector_up', timeout=60)
def t9(ctx):
    complete(ctx, 'hexagonal', 'up')


@target('sector_down', timeout=60)
def t10(ctx):
    complete(ctx, 'hexagonal', 'down')


def colour(ctx, g):
    Q = S().quat.Quat
    n = dims('n')
    a, b = arr((n,), 'alpha'), arr((n,), 'beta')

    def fund(quats, direction, sym_group, dtype=float, triangle=None):
        REC['call'] = (quats, direction, sym_group, triangle)
        return a, b
    Q.calc_fund_dirs = staticmethod(fund)
    quats, d = arr((n,), 'quats'), np.array(vec('d', 3))
    cnt = [0]

    def arccos(x, **kw):
        cnt[0] += 1
        name = f'angle{cnt[0]}'

        def base(idx):
            v = rapp(name, idx)
            CTX().fact(and_(v >= 0, v <= T.pi()))
            return v
        return SArr.fn(tuple(x.shape), base, 'f')
    np.arccos = arccos
    rgb = Q.calc_ipf_colours(quats, d, g)
    c = REC['call']
    ctx.prove('the fundamental direction of these orientations', c[0] is quats and c[1] is d and c[2] == g and c[3] == 'up')
    k, = generic_index((n,), 'g')
    ctx.prove('three channels per orientation', rgb.shape[0] == 3 and mk(rgb.shape[1] == n) is True)
    v = [SReal.of(rgb.get((i, k))) for i in range(3)]
    for i in range(3):
        ctx.prove(f'channel {i} is not negative', v[i] >= 0)
        ctx.prove(f'channel {i} at most 1', v[i] <= 1)
    ctx.prove('the largest channel is 1', or_(*[mk(x == 1) for x in v]))


@target('colour_cubic', timeout=60, def_mode='assume')
def t11(ctx):
    colour(ctx, 'cubic')


@target('colour_hexagonal', timeout=60, def_mode='assume')
def t12(ctx):
    colour(ctx, 'hexagonal')
