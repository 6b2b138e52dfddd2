"""C12: grain and phase boundary pixels."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Maps of any size, any orientations, phases and tolerance; cubic and hexagonal symmetry; floats treated as exact reals. Images are
turned into boundary sets by the function proved under C13.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; arccos is the decreasing function from [-1, 1] onto [0, pi]',
    'the symmetry operators used everywhere are those of the primary phase of the map',
    'BoundarySet.from_image is replaced by its contract (keeps the two images; C13)',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


def setup(ctx, g, southern=True):
    E, C, Q = S().ebsd, S().crystal, S().quat.Quat
    h, w = dims('h', 'w')
    m = E.Map.__new__(E.Map)
    m.shape = (h, w)
    m.data = Obj()
    comp = arr((4, h, w), 'q')
    m.data.orientation = SArr.fn((h, w), lambda i: Q(*[comp.get((j, *i)) for j in range(4)], allow_southern=True), 'O')
    m.data.phase = arr((h, w), 'phase', 'i')
    ph = Obj()
    ph.crystal_structure = C.crystalStructures[g]
    m.phases = [Obj(), ph]
    m.primary_phase_id = 1
    made = []

    class Made:
        def __init__(self, ebsd_map, image_x, image_y):
            self.m, self.x, self.y = ebsd_map, image_x, image_y
            made.append(self)

        from_image = classmethod(lambda cls, *a: cls(*a))
    E.BoundarySet = Made
    return m, h, w, comp, Q


def dots(Q, g, p, q):
    """|<p, s q>| for the operators s of the class"""
    out = []
    for s in Q.sym_eqv(g):
        r = (s * Q(*q, allow_southern=True)).quat_coef
        out.append(T.sabs(sum((a * b for a, b in zip(p, r)), SReal.const(0))))
    return out


def misorientation(Q, g, p, q):
    return 2 * T.sarccos(T.smax(*[ite(d > 1, SReal.const(1), d) for d in dots(Q, g, p, q)]))


def boundaries(ctx, g, axis):
    m, h, w, comp, Q = setup(ctx, g)
    tol = rvar('tol')
    ctx.fact(tol >= 0)
    pb, gb = m.find_boundaries(misori_tol=tol)
    for b in (pb, gb):
        ctx.prove('made for the map', b.m is m)
        for im in (b.x, b.y):
            ctx.prove('two axes', len(im.shape) == 2)
            same(ctx, 'height', im.shape[0], h)
            same(ctx, 'width', im.shape[1], w)
    y, x = generic_index((h, w), 'g')
    last = bool(mk(x == w - 1)) if axis == 'x' else bool(mk(y == h - 1))
    e, f = (b.x if axis == 'x' else b.y for b in (pb, gb))
    e, f = e.get((y, x)), f.get((y, x))
    if last:
        same(ctx, 'no phase boundary past the end of the map', e, False)
        same(ctx, 'no grain boundary past the end of the map', f, False)
        return
    n = (y, x + 1) if axis == 'x' else (y + 1, x)
    other = mk(m.data.phase.get((y, x)) != m.data.phase.get(n))
    same(ctx, 'phase boundary between different phases', e, other)
    mis = misorientation(Q, g, [comp.get((j, y, x)) for j in range(4)], [comp.get((j, *n)) for j in range(4)])
    same(ctx, 'grain boundary where the tolerance is exceeded or the phase changes', f, or_(mis > tol * pi() / 180, other))


def pi():
    return np.pi


@target('cubic_x')
def t1(ctx):
    boundaries(ctx, 'cubic', 'x')


@target('cubic_y')
def t2(ctx):
    boundaries(ctx, 'cubic', 'y')


@target('hexagonal_x')
def t3(ctx):
    boundaries(ctx, 'hexagonal', 'x')


@target('hexagonal_y')
def t4(ctx):
    boundaries(ctx, 'hexagonal', 'y')


@target('sign')
def t5(ctx):
    """the misorientation used above does not see the sign of a quaternion"""
    Q = S().quat.Quat
    p, q = vec('p', 4), vec('q', 4)
    for g in ('cubic', 'hexagonal'):
        ctx.definedness = lambda *a, **k: None
        m = T.smax(*dots(Q, g, p, q))
        same(ctx, f'{g}: sign of the first', T.smax(*dots(Q, g, [-x for x in p], q)), m)
        same(ctx, f'{g}: sign of the second', T.smax(*dots(Q, g, p, [-x for x in q])), m)
