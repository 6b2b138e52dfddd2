"""C06: lattice bases and Miller indices."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''All cells, all integer (and, for planes, real) indices; floats treated as exact reals. Equivalent indices: cubic proved for all
integer indices (three operators), hexagonal checked on the running code.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'entries of the direct lattice matrix below 1e-10 are set to zero by the code: the lattice relations are proved for the entries before that (a cell in ordinary units has none but exact zeros)',
    'numpy.gcd.reduce returns the greatest common divisor',
]
TARGETS = {}
target = register(TARGETS)


def lattice(ctx, conv, first):
    U = S().crystal_utils
    a, b, c, al, be, ga = [rvar(x) for x in ('a', 'b', 'c', 'alpha', 'beta', 'gamma')]
    for x in (a, b, c, T.ssin(ga)):
        ctx.fact(x > 0)
    ca, cb, cg = T.scos(al), T.scos(be), T.scos(ga)
    V = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    ctx.fact(V > 0)
    L = U.create_l_matrix(a, b, c, al, be, ga, convention=conv)
    sg = T.ssin(ga)
    z = SReal.const(0)
    cz = c * T.ssqrt(V) / sg
    if first:
        E = [[a, b * cg, c * cb], [z, b * sg, c * (ca - cb * cg) / sg], [z, z, cz]]
    else:
        E = [[a * sg, z, c * (cb - ca * cg) / sg], [a * cg, b, c * ca], [z, z, cz]]
    for i in range(3):
        for j in range(3):
            x, e = SReal.of(L[i, j]), E[i][j]
            ctx.prove(f'entry [{i},{j}] of the lattice matrix, or zero if it is tiny',
                      or_(mk(x == e), and_(mk(x == 0), T.sabs(e) < SReal.of(1) / 10 ** 9)))
    dot = lambda p, q: sum((E[k][p] * E[k][q] for k in range(3)), z)
    for k, (n, x) in enumerate(zip('abc', (a, b, c))):
        ctx.prove_eq(f'length of {n}', dot(k, k), x * x)
    ctx.prove_eq('angle alpha', dot(1, 2), b * c * ca)
    ctx.prove_eq('angle beta', dot(0, 2), a * c * cb)
    ctx.prove_eq('angle gamma', dot(0, 1), a * b * cg)


@target('lattice_tsl', timeout=40)
def t1(ctx):
    lattice(ctx, 'tsl', True)


@target('lattice_hkl', timeout=40)
def t2(ctx):
    lattice(ctx, 'hkl', False)


@target('lattice_oi', timeout=40)
def t3(ctx):
    lattice(ctx, 'OI', False)


@target('reciprocal', timeout=60)
def t4(ctx):
    U = S().crystal_utils
    L = np.array([vec('r0'), vec('r1'), vec('r2')])
    m = [[L[i, j] for j in range(3)] for i in range(3)]
    det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
           + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    ctx.fact(det > 0)
    Q = U.create_q_matrix(L)
    for i in range(3):
        for j in range(3):
            s = sum((m[k][i] * Q[k, j] for k in range(3)), SReal.const(0))
            ctx.prove_eq(f'direct {i} and reciprocal {j}', s, 1 if i == j else 0)
            same(ctx, f'lattice matrix unchanged [{i},{j}]', L[i, j], m[i][j])
    h, u = vec('h'), vec('u')
    n = [sum((Q[i, j] * h[j] for j in range(3)), SReal.const(0)) for i in range(3)]
    d = [sum((m[i][j] * u[j] for j in range(3)), SReal.const(0)) for i in range(3)]
    ctx.prove_eq('plane normal and direction multiply as their indices',
                 sum((x * y for x, y in zip(n, d)), SReal.const(0)), sum((x * y for x, y in zip(h, u)), SReal.const(0)))


def ints(*names):
    return tuple(ivar(n) for n in names)


@target('convert_plane')
def t5(ctx):
    U = S().crystal_utils
    h, k, l = ints('h', 'k', 'l')
    b = U.convert_idc('m', plane=(h, k, l))
    ctx.prove('four indices', len(b) == 4)
    for n, x, y in zip('hkil', b, (h, k, -h - k, l)):
        ctx.prove(f'four-index plane: {n}', mk(x == y))
    m = U.convert_idc('mb', plane=b)
    ctx.prove('three indices', len(m) == 3)
    for n, x, y in zip('hkl', m, (h, k, l)):
        ctx.prove(f'plane to four indices and back: {n}', mk(x == y))
    b2 = U.convert_idc('m', plane=U.convert_idc('mb', plane=(h, k, -h - k, l)))
    for n, x, y in zip('hkil', b2, (h, k, -h - k, l)):
        ctx.prove(f'plane to three indices and back: {n}', mk(x == y))
    x, y, z = vec('x')
    b = U.convert_idc('m', plane=(x, y, z))
    for n, p, q in zip('hkil', b, (x, y, -x - y, z)):
        ctx.prove_eq(f'four-index plane of real indices: {n}', p, q)


@target('convert_direction', timeout=40)
def t6(ctx):
    U = S().crystal_utils
    u, v, w = ints('u', 'v', 'w')
    b = U.convert_idc('m', dir=(u, v, w))
    ctx.prove('four indices', len(b) == 4)
    for n, x, y in zip('uvtw', b, (2 * u - v, 2 * v - u, -u - v, 3 * w)):
        ctx.prove_eq(f'four-index direction: {n}', 3 * SReal.of(x), y.to_real())
    m = U.convert_idc('mb', dir=b)
    ctx.prove('three indices', len(m) == 3)
    for n, x, y in zip('uvw', m, (u, v, w)):
        ctx.prove_eq(f'direction to four indices and back: {n}', SReal.of(x), y.to_real())


@target('convert_direction_back', timeout=40)
def t7(ctx):
    U = S().crystal_utils
    u, v, w = ints('u', 'v', 'w')
    m = U.convert_idc('mb', dir=(u, v, -u - v, w))
    for n, x, y in zip('uvw', m, (2 * u + v, u + 2 * v, w)):
        ctx.prove(f'three-index direction: {n}', mk(x == y))
    b = U.convert_idc('m', dir=m)
    for n, x, y in zip('uvtw', b, (u, v, -u - v, w)):
        ctx.prove_eq(f'direction to three indices and back: {n}', SReal.of(x), y.to_real())
        ctx.prove(f'direction of integers is given as integers: {n}', isinstance(x, (int, SInt)))


@target('refused')
def t8(ctx):
    U = S().crystal_utils
    a = ints('a0', 'a1', 'a2', 'a3')
    for n, f in (('neither', lambda: U.convert_idc('m')),
                 ('both', lambda: U.convert_idc('m', dir=a[:3], plane=a[:3])),
                 ('four for three (plane)', lambda: U.convert_idc('m', plane=a)),
                 ('four for three (direction)', lambda: U.convert_idc('m', dir=a)),
                 ('three for four (plane)', lambda: U.convert_idc('mb', plane=a[:3])),
                 ('three for four (direction)', lambda: U.convert_idc('mb', dir=a[:3])),
                 ('unknown kind', lambda: U.convert_idc('x', plane=a[:3])),
                 ('unknown convention', lambda: U.create_l_matrix(1, 1, 1, 1, 1, 1, convention='x'))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.prove('refused: ' + n, ok)


@target('positive', timeout=30)
def t9(ctx):
    U = S().crystal_utils
    for n in (3, 4):
        v = ints(*[f'v{n}{k}' for k in range(n)])
        ctx.fact(or_(*[mk(x != 0) for x in v]))
        p = U.pos_idc(v)
        q = U.pos_idc(tuple(-x for x in v))
        ctx.prove(f'{n} indices', len(p) == n and len(q) == n)
        ctx.prove(f'all or no signs change ({n})', or_(and_(*[mk(x == y) for x, y in zip(p, v)]), and_(*[mk(x == -y) for x, y in zip(p, v)])))
        lead = False
        for k in reversed(range(n)):
            lead = or_(mk(p[k] > 0), and_(mk(p[k] == 0), lead))
        ctx.prove(f'first index that is not zero is positive ({n})', lead)
        ctx.prove(f'opposite indices become the same ({n})', and_(*[mk(x == y) for x, y in zip(p, q)]))


@target('reduce', timeout=30)
def t10(ctx):
    U = S().crystal_utils
    for n in (3, 4):
        v = ints(*[f'v{n}{k}' for k in range(n)])
        ctx.fact(or_(*[mk(x != 0) for x in v]))
        rec = []
        old = np.gcd.reduce

        def red(x):
            xs = [x[k] for k in range(len(x))]
            g = old(x)
            rec.append((xs, g))
            return g
        np.gcd.reduce = staticmethod(red)
        r = U.reduce_idc(v)
        np.gcd.reduce = staticmethod(old)
        ctx.prove(f'common divisor of the indices ({n})', len(rec) == 1 and len(rec[0][0]) == n and all(mk(x == y) is True for x, y in zip(rec[0][0], v)))
        g = rec[0][1]
        ctx.prove(f'{n} indices', len(r) == n)
        for k in range(n):
            ctx.prove(f'divided by the greatest common divisor [{n},{k}]', mk(r[k] * g == v[k]))


def cast(ctx, n):
    U = S().crystal_utils
    v = vec('v', n)
    try:
        r = U.safe_int_cast(tuple(v))
        ok = True
    except ValueError:
        ok = False
    k = [ivar(f'k{j}') for j in range(n)]
    near = and_(*[and_((x - y.to_real()) * 1000 <= 1, (y.to_real() - x) * 1000 <= 1) for x, y in zip(v, k)])
    if ok:
        ctx.prove('as many integers', len(r) == n and all(isinstance(x, (int, SInt)) for x in r))
        for j in range(n):
            ctx.prove(f'within the tolerance [{j}]', T.sabs(v[j] - SReal.of(r[j])) * 1000 <= 1)
            ctx.prove(f'the nearest integer [{j}]', implies(near, mk(r[j] == k[j])))
    elif n == 1:
        ctx.prove('refused only when not near an integer', not_(near))


@target('cast', timeout=30)
def t11(ctx):
    cast(ctx, 3)


@target('cast_refused', timeout=30)
def t14(ctx):
    cast(ctx, 1)


def equivalent(ctx, key, i):
    U = S().crystal_utils
    h, k, l = ints('h', 'k', 'l')
    s = list(S().crystal.crystalStructures['cubic'].symmetries)[i]
    out = U.equavlent_indicies('cubic', [s], **{key: (h, k, l)})
    ctx.prove(f'one {key} per operator', len(out) == 1)
    v = s.transform_vector(np.array([h.to_real(), k.to_real(), l.to_real()]))
    o = out[0]
    ctx.prove(f'{key} {i}: last index not negative', mk(o[2] >= 0))
    ctx.prove(f'{key} {i} is the image under the operator',
              or_(and_(*[mk(SReal.of(o[j]) == v[j]) for j in range(3)]), and_(*[mk(SReal.of(o[j]) == -v[j]) for j in range(3)])))


def equivalent_of(ctx, key, lo, n=6):
    """one path for each of the operators lo..lo+n-1"""
    which = ivar('which')
    for i in range(lo, lo + n - 1):
        if bool(which == i):
            return equivalent(ctx, key, i)
    return equivalent(ctx, key, lo + n - 1)


@target('equivalent_cubic_plane_1', timeout=30)
def t12_plane_0(ctx):
    equivalent_of(ctx, 'plane', 0)


@target('equivalent_cubic_plane_2', timeout=30)
def t12_plane_1(ctx):
    equivalent_of(ctx, 'plane', 6)


@target('equivalent_cubic_plane_3', timeout=30)
def t12_plane_2(ctx):
    equivalent_of(ctx, 'plane', 12)


@target('equivalent_cubic_plane_4', timeout=30)
def t12_plane_3(ctx):
    equivalent_of(ctx, 'plane', 18)


@target('equivalent_cubic_direction_1', timeout=30)
def t12_direction_0(ctx):
    equivalent_of(ctx, 'dir', 0)


@target('equivalent_cubic_direction_2', timeout=30)
def t12_direction_1(ctx):
    equivalent_of(ctx, 'dir', 6)


@target('equivalent_cubic_direction_3', timeout=30)
def t12_direction_2(ctx):
    equivalent_of(ctx, 'dir', 12)


@target('equivalent_cubic_direction_4', timeout=30)
def t12_direction_3(ctx):
    equivalent_of(ctx, 'dir', 18)


@target('project', timeout=40)
def t13(ctx):
    U = S().crystal_utils
    c = rvar('c')
    ctx.fact(c > 1)
    h, k, l = vec('h')
    u, v, w = vec('u')
    n = U.project_to_orth(c, plane=(h, k, -h - k, l))
    n2 = U.project_to_orth(c, plane=(h, k, l), in_type='m')
    d = U.project_to_orth(c, dir=(u, v, -u - v, w))
    d2 = U.project_to_orth(c, dir=(2 * u + v, u + 2 * v, w), in_type='m')
    for i in range(3):
        ctx.prove_eq(f'plane from four or three indices [{i}]', n[i], n2[i])
        ctx.prove_eq(f'direction from four or three indices [{i}]', d[i], d2[i])
    ctx.prove_eq('plane and direction multiply as their indices', n[0] * d[0] + n[1] * d[1] + n[2] * d[2],
                 h * (2 * u + v) + k * (u + 2 * v) + l * w)
    ctx.prove_eq('length of the direction', d[0] * d[0] + d[1] * d[1] + d[2] * d[2],
                 (2 * u + v) * (2 * u + v) + (u + 2 * v) * (u + 2 * v) - (2 * u + v) * (u + 2 * v) + c * c * w * w)
