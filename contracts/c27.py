"""C27: deviation of the points of a grain from its average orientation."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Grains of any size, any unit orientations and any unit reference orientation; the table of equivalents, the bulk misorientation and the average
enter by their contracts, which are proved in C03 and C04. Floats treated as exact reals.'''
ASSUME = [
    'contracts of Quat.calc_sym_eqvs, Quat.calcMisOri and Quat.calc_average_ori as proved in C03 and C04: for each orientation the equivalent '
    'with the largest |dot| with the reference, and that value, at most 1; the average is a unit quaternion in the northern hemisphere',
    'floating point is treated as exact real arithmetic; arccos is the decreasing function from [-1, 1] onto [0, pi]',
]
TARGETS = {}
target = register(TARGETS)
ONE = SReal.const(1)


class Obj:
    pass


class Quats:
    """the grain of n points; Quat with the contracts of its bulk functions"""

    def __init__(self, ctx, known):
        E = S().ebsd
        Q = self.Q = S().quat.Quat
        n = self.n = dims('n')
        self.ref = Q(*unit_vec('ref', 4), allow_southern=True)
        ctx.fact(self.ref[0] >= 0)
        # the equivalent nearest to the reference: any unit quaternion is P ref
        # with P = q ref^-1
        P = self.P = arr((4, n), 'P')
        e, f, g_, h = [self.ref[j] for j in range(4)]

        def times(i):
            a, b, c, d = [P.get((j, i[1])) for j in range(4)]
            v = [a * e - b * f - c * g_ - d * h, a * f + b * e + c * h - d * g_, a * g_ + c * e + d * f - b * h, a * h + d * e + b * g_ - c * f]
            if isinstance(i[0], int):
                return v[i[0]]
            out = v[3]
            for j in (2, 1, 0):
                out = ite(mk(i[0] == j), v[j], out)
            return out
        q = self.q = SArr.fn((4, n), times, 'f')
        m = self.m = arr((n,), 'm')
        table = self.table = arr((24, 4, n), 'table')
        self.log = []
        g = self.g = E.Grain.__new__(E.Grain)
        self.points = SSeq(n, lambda k: (iapp('gx', [k]), iapp('gy', [k])))
        g.data = Obj()
        g.data.orientation = self.orientation = Obj()
        g.data.point = self.points
        type(g).__len__ = lambda s: n
        g.phase = Obj()
        g.phase.crystal_structure = Obj()
        g.phase.crystal_structure.name = 'cubic'
        g.ref_ori = self.ref if known else None

        def eqvs(o, sym, *a):
            ctx.prove('equivalents of the orientations of the grain', o is self.orientation)
            ctx.prove('symmetry of the grain', sym == 'cubic')
            self.log.append('table')
            return table

        def average(t):
            ctx.prove('average of the grain', t is table)
            self.log.append('average')
            return self.ref

        def mis(t, r):
            ctx.prove('deviation of the points of the grain', t is table)
            ctx.prove('from its average', r is self.ref)
            self.log.append('mis')
            # handed out as arrays of their own
            return arr((n,), 'm'), SArr.fn((4, n), lambda i: q.get(i), 'f')
        Q.calc_sym_eqvs, Q.calc_average_ori, Q.calcMisOri = staticmethod(eqvs), staticmethod(average), staticmethod(mis)
        self.k = generic_index((n,), 'k')[0]
        self.facts(self.k)

    def facts(self, k):
        c = CTX()
        for j, x in enumerate(self.product(k)):
            same(c, 'rotation from the average', x, self.P.get((j, k)))
        p = [self.P.get((j, k)) for j in range(4)]
        c.fact(sum((x * x for x in p), SReal.const(0)) == 1)
        c.fact(mk(self.m.get((k,)) == T.sabs(p[0])))
        c.fact(and_(p[0] <= 1, p[0] >= -1))

    def at(self, k):
        return [self.q.get((j, k)) for j in range(4)]

    def product(self, k):
        """q (ref)^-1"""
        a, b, c, d = self.at(k)
        r = [self.ref[j] for j in range(4)]
        e, f, g, h = r[0], -r[1], -r[2], -r[3]
        return [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g + c * e + d * f - b * h, a * h + d * e + b * g - c * f]

    def axis(self, ctx, name, got):
        k = self.k
        p = [self.P.get((j, k)) for j in range(4)]
        # the real part of the product is the dot product
        same(ctx, 'real part', p[0], sum((x * y for x, y in zip(self.at(k), [self.ref[j] for j in range(4)])), SReal.const(0)))
        for sgn, cond in ((1, p[0] >= 0), (-1, p[0] < 0)):
            c = p[0] * sgn
            with ctx.scope([cond, c < 1]):
                lemma(ctx, 'less than one', lambda v: and_(v >= 0, v < 1), lambda v: 1 - v * v > 0, c)
                s = T.ssqrt(1 - c * c)
                lemma(ctx, 'positive', lambda v: and_(v >= 0, v < 1), lambda v: T.ssqrt(1 - v * v) > 0, c)
                for j in range(3):
                    same(ctx, f'{name}: axis times angle', got(j) * s, p[j + 1] * sgn * 2 * T.sarccos(c))
            with ctx.scope([cond, c >= 1]):
                lemma(ctx, 'no sine', lambda v: and_(v >= 1, v <= 1), lambda v: and_(1 - v * v == 0, T.ssqrt(1 - v * v) == 0), c)
                for j in range(3):
                    ctx.prove(f'{name}: zero for no deviation', mk(got(j) == p[j + 1] * sgn * 2))


def lemma(ctx, name, hyp, claim, at):
    """proved for every real, used at one"""
    v = rvar(ctx.fresh('lemma'))
    with ctx.scope([hyp(v)]):
        ok = ctx.prove(name, claim(v))
    if ok:
        with ctx.scope([hyp(at)]):
            ctx.fact(claim(at))


def grod(known):
    def run(ctx):
        w = Quats(ctx, known)
        d, a = w.g.calc_grod()
        ctx.prove('the average is used, and calculated once', w.log == (['table', 'mis'] if known else ['table', 'average', 'mis']) and w.g.ref_ori is w.ref)
        ctx.prove('one angle per point', len(d.shape) == 1)
        same(ctx, 'one angle per point', d.shape[0], w.n)
        ctx.prove('one axis per point', len(a.shape) == 2 and a.shape[0] == 3)
        same(ctx, 'one axis per point', a.shape[1], w.n)
        same(ctx, 'angle', d.get((w.k,)), 2 * T.sarccos(w.m.get((w.k,))))
        w.axis(ctx, 'axis', lambda j: a.get((j, w.k)))
    return run


@target('grod', functions=['ebsd.Grain.calc_grod'])
def t1(ctx):
    grod(False)(ctx)


@target('grod_known', functions=['ebsd.Grain.calc_grod'])
def t2(ctx):
    grod(True)(ctx)


def lists(known, axis):
    def run(ctx):
        w = Quats(ctx, known)
        g = w.g
        g.mis_ori_axis_list = None
        g.build_mis_ori_list(calc_axis=axis)
        ctx.prove('the average is used, and calculated once', w.log == (['table', 'mis'] if known else ['table', 'average', 'mis']) and g.ref_ori is w.ref)
        same(ctx, 'one value per point', len_(g.mis_ori_list), w.n)
        same(ctx, 'cosine of half the angle', at_(g.mis_ori_list, w.k), w.m.get((w.k,)))
        same(ctx, 'mean', g.average_mis_ori, w.m.mean())
        if not axis:
            ctx.prove('no axes', g.mis_ori_axis_list is None)
            return
        same(ctx, 'one axis per point', len_(g.mis_ori_axis_list), w.n)
        ctx.prove('three components', tuple(at_(g.mis_ori_axis_list, w.k).shape) == (3,))
        w.axis(ctx, 'axis', lambda j: at_(g.mis_ori_axis_list, w.k).get((j,)))
    return run


def len_(x):
    x = getattr(x, '_seq', x)
    return x.n if isinstance(x, SSeq) else x.shape[0] if isinstance(x, SArr) else len(x)


def at_(x, k):
    x = getattr(x, '_seq', x)
    return x.at(k) if isinstance(x, SSeq) else x[k]


@target('lists', functions=['ebsd.Grain.build_mis_ori_list'])
def t3(ctx):
    lists(False, True)(ctx)


@target('lists_known', functions=['ebsd.Grain.build_mis_ori_list'])
def t4(ctx):
    lists(True, True)(ctx)


@target('lists_angle', functions=['ebsd.Grain.build_mis_ori_list'])
def t5(ctx):
    lists(False, False)(ctx)


@target('average', functions=['ebsd.Grain.calc_average_ori'])
def t6(ctx):
    for known in (True, False):
        w = Quats(ctx, known)
        w.g.calc_average_ori()
        ctx.prove('the average of the points', w.g.ref_ori is w.ref and w.log == ['table', 'average'])


@target('length')
def t7(ctx):
    """the axis is as long as the angle: |2 v arccos(c) / s| = 2 arccos(c)"""
    p = unit_vec('p', 4)
    with ctx.scope([p[0] >= 0, p[0] < 1]):
        a = T.sarccos(p[0])
        v2 = sum((x * x for x in p[1:]), SReal.const(0))
        same(ctx, 'length of the vector part', v2, 1 - p[0] * p[0])
        # with g s = 2 v a and s s = 1 - c c:  |g|^2 s^2 = 4 a^2 |v|^2 = (2 a)^2 s^2
        s = T.ssqrt(1 - p[0] * p[0])
        ctx.prove('not zero', s > 0)
        g = [x * 2 * a / s for x in p[1:]]
        same(ctx, 'length of the axis', sum((x * x for x in g), SReal.const(0)), 4 * a * a)
    with ctx.scope([p[0] >= 1]):
        for x in p[1:]:
            ctx.prove('no deviation has no axis', mk(x == 0))
