"""C07: slip systems."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Construction, equality, hashing and families: all integer indices and all c/a > 0. Grouping: every pattern of equal planes among
up to four systems (bounded). Loading of files: checked on the running code over generated files and the bundled ones.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'hash of a tuple is an unknown function of its elements (equal tuples hash alike)',
    'families: the python set keeps one of each group of equal systems (its documented behaviour given the proved __eq__ and __hash__)',
    'families: making indices positive, reducing them and rounding them to integers are taken as the identity here; their own contracts are proved under C06',
    'BOUNDED: grouping is proved for lists of up to four systems (three for grouping by family)',
]
TARGETS = {}
target = register(TARGETS)


def ints(name, n):
    return tuple(ivar(f'{name}{k}') for k in range(n))


def nonzero(ctx, v):
    ctx.fact(or_(*[mk(x != 0) for x in v]))


def real(v):
    return [x.to_real() for x in v]


def dot(a, b):
    return sum((SReal.of(a[i]) * SReal.of(b[i]) for i in range(3)), SReal.const(0))


def lattice(ctx, C, c):
    """contracts of the lattice functions (proved under C06), for the hexagonal cell"""
    s3 = T.ssqrt(SReal.const(3))
    one, z = SReal.const(1), SReal.const(0)
    L = [[s3 / 2, z, z], [-one / 2, one, z], [z, z, SReal.of(c)]]
    Q = [[2 / s3, 1 / s3, z], [z, one, z], [z, z, 1 / SReal.of(c)]]
    made = []

    def create_l_matrix(a, b, cc, alpha, beta, gamma, convention=None):
        for n, x, y in (('a', a, 1), ('b', b, 1), ('c', cc, c), ('alpha', alpha, np.pi / 2), ('beta', beta, np.pi / 2), ('gamma', gamma, np.pi * 2 / 3)):
            ctx.prove_eq(f'hexagonal cell: {n}', x, y)
        if convention is not None:
            ctx.prove('hexagonal cell: axes of the default convention', mk(str(convention).lower() in ('hkl', 'oi')))
        m = np.array([list(r) for r in L])
        made.append(m)
        return m

    def create_q_matrix(l):
        ctx.prove('reciprocal of the lattice matrix', any(l is m for m in made))
        return np.array([list(r) for r in Q])
    C.create_l_matrix, C.create_q_matrix = create_l_matrix, create_q_matrix


def check(ctx, ss, name, n, d, c, P, D):
    """unit vectors at right angles along the given plane normal and direction"""
    ctx.prove(f'{name}: plane indices kept', len(ss.plane_idc) == len(P) and and_(*[mk(x == y) for x, y in zip(ss.plane_idc, P)]))
    ctx.prove(f'{name}: direction indices kept', len(ss.dir_idc) == len(D) and and_(*[mk(x == y) for x, y in zip(ss.dir_idc, D)]))
    for t, v, e in (('plane normal', ss.slip_plane, n), ('slip direction', ss.slip_dir, d)):
        ctx.prove_eq(f'{name}: {t} has length one', dot(v, v), 1)
        k = dot(v, e)
        ctx.prove(f'{name}: {t} points the way of the indices', k > 0)
        for i in range(3):
            ctx.prove_eq(f'{name}: {t} along the indices [{i}]', SReal.of(v[i]) * dot(e, e), k * SReal.of(e[i]))
    ctx.prove_eq(f'{name}: direction in plane exactly when the indices say so', dot(ss.slip_plane, ss.slip_dir) * T.ssqrt(dot(n, n)) * T.ssqrt(dot(d, d)), dot(n, d))


@target('cubic', timeout=60)
def t1(ctx):
    C = S().crystal
    P, D = ints('h', 3), ints('u', 3)
    nonzero(ctx, P)
    nonzero(ctx, D)
    ss = C.SlipSystem(np.array(P), np.array(D), C.crystalStructures['cubic'])
    check(ctx, ss, 'cubic', real(P), real(D), None, P, D)
    ctx.prove('no c over a', ss.c_over_a is None)


@target('hexagonal', timeout=60)
def t2(ctx):
    C = S().crystal
    h, k, l = ints('h', 3)
    u, v, w = ints('u', 3)
    nonzero(ctx, (h, k, l))
    nonzero(ctx, (u, v, w))
    c = rvar('c')
    ctx.fact(c * 100 > 1)
    s3 = T.ssqrt(SReal.const(3))
    P, D = (h, k, -h - k, l), (u, v, -u - v, w)
    # Cartesian: a1 = (s3/2, -1/2, 0), a2 = (0, 1, 0), c = (0, 0, c)
    hr, kr, lr = real((h, k, l))
    U, V, W = real((2 * u + v, u + 2 * v, w))
    n = [(2 * hr + kr) / s3, kr, lr / c]
    d = [s3 * U / 2, V - U / 2, c * W]
    ctx.fact(dot(n, n) > 0)
    ctx.fact(dot(d, d) > 0)
    lattice(ctx, C, c)
    ss = C.SlipSystem(np.array(P), np.array(D), C.crystalStructures['hexagonal'], c_over_a=c)
    check(ctx, ss, 'hexagonal', n, d, c, P, D)
    same(ctx, 'c over a kept', ss.c_over_a, c)


@target('refused')
def t3(ctx):
    C = S().crystal
    P, D = ints('h', 4), ints('u', 4)
    cub, hx = C.crystalStructures['cubic'], C.crystalStructures['hexagonal']
    for n, f in (('hexagonal without c/a', lambda: C.SlipSystem(np.array(P), np.array(D), hx)),
                 ('hexagonal plane with three indices', lambda: C.SlipSystem(np.array(P[:3]), np.array(D), hx, c_over_a=rvar('c'))),
                 ('hexagonal direction with three indices', lambda: C.SlipSystem(np.array(P), np.array(D[:3]), hx, c_over_a=rvar('c'))),
                 ('unknown grouping', lambda: C.SlipSystem.group([], 'colour'))):
        try:
            f()
            ok = False
        except PathAbort:
            raise
        except Exception as e:
            ok = not isinstance(e, Unsupported)
        ctx.prove('refused: ' + n, ok)


def plain(C, P, D):
    ss = C.SlipSystem.__new__(C.SlipSystem)
    ss.plane_idc, ss.dir_idc = P, D
    ss.crystal_structure = C.crystalStructures['cubic' if len(P) == 3 else 'hexagonal']
    ss.c_over_a = None
    return ss


def agree(a, b):
    return or_(and_(*[mk(x == y) for x, y in zip(a, b)]), and_(*[mk(x == -y) for x, y in zip(a, b)]))


def equality(ctx, n):
    C = S().crystal
    P, D, P2, D2 = ints('h', n), ints('u', n), ints('p', n), ints('v', n)
    for x in (P, D, P2, D2):
        nonzero(ctx, x)
    # contract of pos_idc (proved under C06): one of v and -v, the same for both
    def pos(v):
        r = ite_t(T.bapp(f'keep{n}', v), v)
        return r

    def ite_t(cond, v):
        return tuple(T.ite(cond, x, -x) for x in v)
    lead = lambda v: lead_pos(v)
    C.pos_idc = lambda v: tuple(T.ite(lead(v), x, -x) for x in v)
    a, b = plain(C, P, D), plain(C, P2, D2)
    eq = a == b
    e = and_(agree(P, P2), agree(D, D2))
    ctx.prove(f'{n} indices: equal exactly when plane and direction agree up to sign', T.iff(SBool.of(eq), SBool.of(e)))
    ha, hb = S().crystal.__dict__ and hash_of(a), hash_of(b)
    ctx.prove(f'{n} indices: equal systems hash alike', implies(e, mk(ha == hb)))


def hash_of(x):
    return type(x).__hash__(x)


def lead_pos(v):
    r = False
    for x in reversed(v):
        r = or_(mk(x > 0), and_(mk(x == 0), r))
    return r


@target('equality_three', timeout=60)
def t4(ctx):
    equality(ctx, 3)


@target('equality_four', timeout=60)
def t5(ctx):
    equality(ctx, 4)


def family(ctx, name):
    C, U = S().crystal, S().crystal_utils
    n = 3 if name == 'cubic' else 4
    st = C.crystalStructures[name]
    h, k, l = ints('h', 3)
    u, v, w = ints('u', 3)
    c = rvar('c')
    ctx.fact(c * 100 > 1)
    P, D = ((h, k, l), (u, v, w)) if n == 3 else ((h, k, -h - k, l), (u, v, -u - v, w))
    made = []

    class Made:
        def __init__(self, p, d, structure, c_over_a=None):
            self.p, self.d, self.s, self.c = p, d, structure, c_over_a
            made.append(self)
    fam = C.SlipSystem.generate_family
    C.pos_idc = C.reduce_idc = C.safe_int_cast = U.pos_idc = U.reduce_idc = U.safe_int_cast = lambda x: x
    if n == 4:
        lattice(ctx, C, c)
    a = plain(C, P, D)
    a.c_over_a = None if n == 3 else c
    C.SlipSystem = Made
    try:
        out = list(fam(a))
    finally:
        C.SlipSystem = type(a)
    ctx.prove('every system made is in the family', len(out) == len(made) and all(any(x is y for y in out) for x in made))
    ctx.prove('at least one system for each operator', len(out) >= len(st.symmetries))
    if n == 3:
        p, d = np.array(real(P)), np.array(real(D))
    else:
        s3 = T.ssqrt(SReal.const(3))
        hr, kr, lr = real((h, k, l))
        X, Y, W = real((2 * u + v, u + 2 * v, w))
        p = np.array([(2 * hr + kr) / s3, kr, lr / c])
        d = np.array([s3 * X / 2, Y - X / 2, c * W])
    free = list(made)
    for i, s in enumerate(st.symmetries):
        pi, di = s.transform_vector(p), s.transform_vector(d)
        if n == 4:
            q = pi
            # indices: n = Q h, d = L u
            s3 = T.ssqrt(SReal.const(3))
            m = [s3 * pi[0] / 2 - pi[1] / 2, pi[1], c * pi[2]]
            pi = [m[0], m[1], -m[0] - m[1], m[2]]
            U3 = [2 * di[0] / s3, di[1] + di[0] / s3, di[2] / c]
            di = [(2 * U3[0] - U3[1]) / 3, (2 * U3[1] - U3[0]) / 3, -(U3[0] + U3[1]) / 3, U3[2]]
        def hit(x):
            return (len(x.p) == n and len(x.d) == n and all((T.mk(T.cmp_eq(SReal.of(x.p[j]) - SReal.of(pi[j]))) is True) for j in range(n))
                    and all((T.mk(T.cmp_eq(SReal.of(x.d[j]) - SReal.of(di[j]))) is True) for j in range(n)))
        m = [x for x in free if hit(x)]

        ctx.prove(f'operator {i}: the image of plane and direction is in the family', bool(m))
        if m:
            free.remove(m[0])
            ctx.prove(f'operator {i}: same structure and c/a', m[0].s is st and (m[0].c is a.c_over_a))
    ctx.prove('nothing else is in the family', not free)


@target('family_cubic', timeout=60)
def t6(ctx):
    family(ctx, 'cubic')


@target('family_hexagonal', timeout=60)
def t7(ctx):
    family(ctx, 'hexagonal')


class Ss:
    """a slip system as the callers of its contract see it: its plane, and membership of families"""

    def __init__(self, k):
        self.k = k
        self.plane_idc = (ivar(f'plane{k}'), ivar('one'), ivar('two'))
        self.fam = ivar(f'fam{k}')

    def generate_family(self):
        return Family(self)

    def __hash__(self):
        return id(self)


class Family:
    def __init__(self, ss):
        self.ss = ss

    def __contains__(self, o):
        return bool(mk(o.fam == self.ss.fam))


def grouped(ctx, how, key, n):
    C = S().crystal
    C.pos_idc = lambda v: (T.iapp('canonical', [v[0]]),)
    ss = [Ss(k) for k in range(n)]
    out = C.SlipSystem.group(list(ss), how)
    flat = [x for g in out for x in g]
    ctx.prove('each system is in exactly one group', len(flat) == n and all(sum(x is y for y in flat) == 1 for x in ss))
    ctx.prove('no empty group', all(len(g) for g in out))
    for g in out:
        for x in g:
            ctx.prove('same key inside a group', mk(key(x) == key(g[0])))
        ctx.prove('order kept inside a group', [x.k for x in g] == sorted(x.k for x in g))
    ctx.prove('groups in order of their first system', [g[0].k for g in out] == sorted(g[0].k for g in out))
    for i, g in enumerate(out):
        for h in out[:i]:
            ctx.prove('different keys in different groups', mk(key(g[0]) != key(h[0])))


@target('group_plane_4', bounded='four slip systems')
def t8(ctx):
    grouped(ctx, 'plane', lambda s: T.iapp('canonical', [s.plane_idc[0]]), 4)


@target('group_plane_1', bounded='one slip system')
def t9(ctx):
    grouped(ctx, 'plane', lambda s: T.iapp('canonical', [s.plane_idc[0]]), 1)


@target('group_family_3', bounded='three slip systems')
def t10(ctx):
    grouped(ctx, 'Family', lambda s: s.fam, 3)


@target('phase', functions=['crystal.Phase.__init__', 'crystal.Phase.c_over_a'])
def t11(ctx):
    C = S().crystal
    a, b, c = vec('a')
    for v in (a, b, c):
        ctx.fact(v > 0)
    lat = (a, b, c, rvar('alpha'), rvar('beta'), rvar('gamma'))
    calls = []

    class Load(C.SlipSystem):
        @staticmethod
        def load(name, crystal_structure, c_over_a=None, group_by='plane'):
            calls.append((name, crystal_structure, c_over_a, group_by))
            return 'systems', 'colours'
    C.SlipSystem = Load
    files = C.defaults['slip_system_file']
    for laue in (*range(0, 12), 225, None):
        for group in (None, *range(0, 231)) if laue in (9, 11) else (225, 229, None):
            calls.clear()
            try:
                p = C.Phase('name', laue, group, lat)
            except ValueError:
                ctx.prove('only unknown Laue groups are refused', laue not in (9, 11))
                continue
            ctx.prove('unknown Laue groups are refused', laue in (9, 11))
            ctx.prove('what is given is kept', p.name == 'name' and p.laue_group == laue and p.spaceGroup == group and p.lattice_params is lat)
            hexa = laue == 9
            ctx.prove('crystal structure', p.crystal_structure is C.crystalStructures['hexagonal' if hexa else 'cubic'])
            want = files['HCP'] if hexa else files['FCC'] if group == 225 else files['BCC'] if group == 229 else None
            ctx.prove('slip system file', p.ss_file == want)
            if want is None:
                ctx.prove('no slip systems', p.slip_systems is None and p.slip_trace_colours is None and not calls)
                continue
            ctx.prove('slip systems of the file', (p.slip_systems, p.slip_trace_colours) == ('systems', 'colours') and len(calls) == 1)
            name, cs, ratio, by = calls[0]
            ctx.prove('loaded for this crystal, grouped by plane', name == want and cs is p.crystal_structure and by == 'plane')
            if hexa:
                ctx.prove_eq('c over a', ratio * a, c)
            else:
                ctx.prove('no c over a', ratio is None)
