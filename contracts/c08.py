"""C08: Schmid factors, slip traces and relative displacement ratios."""
from types import SimpleNamespace

from pydv.contract import *

LEVEL = 'proof'
NOTE = '''All orientations, load directions, slip planes and directions, any number of groups of any number of slip systems; floats
treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'numpy.arccos(x) for |x| <= 1 is the angle in [0, pi] with cosine x; sine and cosine satisfy sin^2 + cos^2 = 1',
]
TARGETS = {}
target = register(TARGETS)


def grain(ctx, southern=False):
    E, Q = S().ebsd, S().quat.Quat
    g = E.Grain.__new__(E.Grain)
    q = unit_vec('q', 4)
    g.ref_ori = Q(*q, allow_southern=True)
    return g, q


def matrix(q):
    """crystal = M sample"""
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def dot(a, b):
    return sum((SReal.of(a[i]) * SReal.of(b[i]) for i in range(3)), SReal.const(0))


def apply(M, v):
    return [dot(r, v) for r in M]


def back(M, v):
    return [sum((M[i][j] * SReal.of(v[i]) for i in range(3)), SReal.const(0)) for j in range(3)]


class Family:
    """any number of groups of any number of slip systems"""

    def __init__(self, ctx, plane=None):
        self.G = dims('G')
        k = z3.Int('g')
        m = z3.Function('size', z3.IntSort(), z3.IntSort())
        ctx.define(z3.ForAll([k], m(k) >= 1, patterns=[m(k)]))
        self.size = lambda g: SInt(m(SInt.ex(g)))
        self.plane = plane or (lambda g, s: [rapp(f'n{i}', [g, s]) for i in range(3)])
        self.groups = SSeq(self.G, lambda g: SSeq(self.size(g), lambda s: One(self.plane(g, s), g, s)))

    def any(self):
        g, = generic_index((self.G,), 'g')
        s, = generic_index((self.size(g),), 's')
        return g, s

    def same_groups(self, ctx, r):
        """r has the groups and systems of the list; one of them"""
        g, s = self.any()
        ctx.prove('one list for each group', mk(r._dv_len() == self.G))
        ctx.prove('one value for each system of the group', mk(r[g]._dv_len() == self.size(g)))
        return One(self.plane(g, s), g, s), r[g][s]


class One:
    def __init__(self, plane, g, s):
        self.slip_plane = np.array(plane)
        self.slip_dir = np.array([rapp(f'd{i}', [g, s]) for i in range(3)])


One.__module__ = 'defdap.contract'


def schmid(ctx, given):
    g, q = grain(ctx)
    f = Family(ctx)
    g.phase = SimpleNamespace(slip_systems=None if given else f.groups)
    a = vec('a')
    g.calc_average_schmid_factors(np.array(a), **(dict(slip_systems=f.groups) if given else {}))
    s, v = f.same_groups(ctx, g.average_schmid_factors)
    ac = apply(matrix(q), a)
    ctx.prove_eq('Schmid factor', v, T.sabs(dot(ac, s.slip_plane) * dot(ac, s.slip_dir)))


@target('schmid', timeout=30)
def t1(ctx):
    schmid(ctx, False)


@target('schmid_given', timeout=30)
def t2(ctx):
    schmid(ctx, True)


@target('schmid_average')
def t3(ctx):
    """without a reference orientation the average orientation is computed first"""
    E, Q = S().ebsd, S().quat.Quat
    for what in ('schmid', 'traces'):
        q = unit_vec('q', 4)
        calls = []

        class G(E.Grain):
            def calc_average_ori(self):
                calls.append(1)
                self.ref_ori = Q(*q, allow_southern=True)
        g = G.__new__(G)
        g.ref_ori = None
        g.phase = SimpleNamespace(slip_systems=[])
        if what == 'schmid':
            g.calc_average_schmid_factors(np.array(vec('a')))
        else:
            g.calc_slip_traces()
        ctx.prove(f'{what}: average orientation', len(calls) == 1)


@target('schmid_range', timeout=30)
def t4(ctx):
    """|a.n| |a.d| <= 1/2 for unit a, n, d with n.d = 0 (lemma over the proved formula, a in crystal coordinates)"""
    g, q = grain(ctx)
    w = unit_vec('a')
    M = matrix(q)
    c = apply(M, w)
    ctx.prove_eq('load direction keeps its length', dot(c, c), 1)
    a, n, d = unit_vec('c'), unit_vec('n'), unit_vec('d')
    nd = dot(n, d)
    p, s = dot(a, n), dot(a, d)
    r = [a[i] - p * n[i] - s * d[i] for i in range(3)]
    u = vec('u')
    ctx.prove('a sum of squares is not negative', dot(u, u) >= 0)
    ctx.fact(dot(r, r) >= 0)            # instance of it
    ctx.prove_eq('length of the remainder', dot(r, r), 1 - p * p - s * s + 2 * p * s * nd)
    ctx.fact(mk(nd == 0))
    x, y = rvar('x'), rvar('y')
    ctx.fact(1 - x * x - y * y >= 0)
    ctx.prove('product at most one half', and_(x * y * 2 <= 1, x * y * -2 <= 1))


@target('rdr', timeout=30, def_mode='assume')
def t5(ctx):
    g, q = grain(ctx)
    f = Family(ctx)
    g.phase = SimpleNamespace(slip_systems=f.groups)
    g.calc_rdr()
    s, v = f.same_groups(ctx, g.rdr)
    b = back(matrix(q), s.slip_dir)
    ctx.fact(mk(b[1] != 0))
    ctx.prove_eq('ratio of the x and y components of the slip direction in the map', SReal.of(v) * b[1], -b[0])


def normal(g):
    """unit normal in sample coordinates"""
    m = [rapp(f'm{i}', [g]) for i in range(3)]
    relation(m[2], 1 - m[0] * m[0] - m[1] * m[1])
    return m


def traces(ctx, given):
    """the trace of each group is in the slip plane of its first system"""
    g, q = grain(ctx)
    M = matrix(q)
    # (any unit normal in crystal coordinates is of this form)
    f = Family(ctx, lambda g, s: [ite(mk(s == 0), x, rapp(f'n{i}', [g, s])) for i, x in enumerate(apply(M, normal(g)))])
    k, s = f.any()
    m = normal(k)
    for x in m:
        ctx.fact(x * x <= 1)
    ctx.fact(m[0] * m[0] + m[1] * m[1] > 0)
    g.phase = SimpleNamespace(slip_systems=None if given else f.groups)
    g.calc_slip_traces(*([f.groups] if given else []))
    ctx.prove('one angle for each group', and_(mk(g.slip_trace_angles._dv_len() == f.G), mk(g.slip_trace_inclinations._dv_len() == f.G)))
    th, inc = SReal.of(g.slip_trace_angles[k]), SReal.of(g.slip_trace_inclinations[k])
    N = T.ssqrt(m[0] * m[0] + m[1] * m[1])
    ctx.fact(and_(m[0] / N <= 1, m[0] / N >= -1))       # m0^2 <= N^2
    # the direction at angle theta from +y towards -x is (-sin, cos) with sin >= 0
    up, down = T.sarccos(m[0] / N), T.sarccos(-m[0] / N)
    ctx.prove('along the trace', or_(mk(th == up), mk(th == down)))
    ctx.prove('side of the component along y', and_(implies(mk(m[1] > 0), mk(th == up)), implies(mk(m[1] < 0), mk(th == down))))
    a = T.sarccos(m[2])
    ctx.prove('inclination is the angle to the surface normal or its supplement', or_(mk(inc == a), mk(inc == np.pi - a)))
    ctx.prove('inclination at most 90 degrees', inc <= np.pi / 2)
    ctx.prove('inclination at least zero', inc >= 0)


@target('traces', timeout=60, def_mode='assume')
def t6(ctx):
    traces(ctx, False)


@target('traces_given', timeout=60, def_mode='assume')
def t7(ctx):
    traces(ctx, True)


@target('print', timeout=30)
def t8(ctx):
    """the traces property computes them once"""
    E = S().ebsd
    calls = []

    class G(E.Grain):
        def calc_slip_traces(self, *a, **k):
            calls.append((a, k))
            self.slip_trace_angles = ['angles']
    g = G.__new__(G)
    g.slip_trace_angles = None
    ctx.prove('computed when missing', g.slip_traces == ['angles'] and calls == [((), {})])
    ctx.prove('kept otherwise', g.slip_traces == ['angles'] and len(calls) == 1)
