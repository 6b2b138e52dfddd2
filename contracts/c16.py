"""C16: kernel average misorientation."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Maps of any size from two by two, any unit orientations; floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; arccos is the decreasing function from [-1, 1] onto [0, pi]',
    'the orientations of the map are unit quaternions (C01, C02), and the map has at least two rows and two columns (smaller maps raise an IndexError)',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


def setup(ctx, comp=None):
    E, Q = S().ebsd, S().quat.Quat
    h, w = dims('h', 'w', lo=2)
    m = E.Map.__new__(E.Map)
    m.shape = (h, w)
    m.data = Obj()
    comp = comp or arr((4, h, w), 'q')
    m.data.orientation = SArr.fn((h, w), lambda i: Q(*[comp.get((j, *i)) for j in range(4)], allow_southern=True), 'O')
    return m, h, w, comp


def at(comp, *i):
    return [comp.get((j, *i)) for j in range(4)]


def adot(p, q):
    return T.sabs(sum((a * b for a, b in zip(p, q)), SReal.const(0)))


def half_cos(ctx, comp, i, axis, n):
    """mean |<p, q>| over the neighbours along an axis that exist; every product is at most one"""
    here = at(comp, *i)
    k = i[axis]

    def nb(d):
        j = list(i)
        j[axis] = k + d
        q = at(comp, *j)
        for v in (here, q):
            ctx.fact(sum((a * a for a in v), SReal.const(0)) == 1)
        for s in (1, -1):
            for a, b in zip(here, q):
                have(ctx, 'square', (a + s * b) * (a + s * b) >= 0)
        d = adot(here, q)
        have(ctx, 'product of unit quaternions', d <= 1)
        return d
    if bool(mk(k == 0)):
        return nb(1)
    if bool(mk(k == n - 1)):
        return nb(-1)
    return (nb(1) + nb(-1)) / 2


@target('kam', functions=['ebsd.Map.calc_kam'])
def kam(ctx):
    m, h, w, comp = setup(ctx)
    out = S().ebsd.Map.calc_kam(m)
    ctx.prove('two axes', len(out.shape) == 2)
    same(ctx, 'height', out.shape[0], h)
    same(ctx, 'width', out.shape[1], w)
    i = generic_index((h, w), 'g')
    cy, cx = half_cos(ctx, comp, i, 0, h), half_cos(ctx, comp, i, 1, w)
    v = out.get(i)
    same(ctx, 'angle of the mean over the existing neighbours', v, 2 * T.sarccos((cy + cx) / 2))
    ctx.prove('not negative', v >= 0)


@target('uniform', functions=['ebsd.Map.calc_kam'])
def uniform(ctx):
    """the same rotation everywhere, written with either quaternion"""
    c = unit_vec('c', 4)
    h, w = dims('h', 'w', lo=2)
    sgn = arr((h, w), 'sign', 'i')

    class Comp:
        def get(self, i):
            s = sgn.get(i[1:])
            return ite(s > 0, SReal.of(c[i[0]]), -SReal.of(c[i[0]]))
    m, h, w, comp = setup(ctx, Comp())
    out = S().ebsd.Map.calc_kam(m)
    ctx.prove('zero', out.get(generic_index((h, w), 'g')) == 0)


@target('sign')
def sign(ctx):
    """the products used above do not see the sign of a quaternion"""
    p, q = vec('p', 4), vec('q', 4)
    same(ctx, 'sign of the first', adot([-x for x in p], q), adot(p, q))
    same(ctx, 'sign of the second', adot(p, [-x for x in q]), adot(p, q))
