"""C17: Nye tensor and dislocation density."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Maps of any size, any unit orientations and step size, any list of symmetry operators that starts with the identity; floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; arccos is the decreasing function from [-1, 1] onto [0, pi]',
    'the symmetry operators used are those of the primary phase of the map, the first is the identity (C03)',
    'contract of numpy.argmax along the first axis: an index in range whose value no other value of the column exceeds; the result of '
    'numpy.max is not used for the tensor and left open',
]
TARGETS = {}
target = register(TARGETS)
BURGERS = 1.4e-10


class Obj:
    pass


class NP:
    """numpy with the contract of argmax and max along the first axis: an index in range whose value no other exceeds"""

    def __init__(self):
        self.seen = []

    def __getattr__(self, n):
        return getattr(np, n)

    def argmax(self, x, axis=None, **k):
        if axis != 0 or k:
            return np.argmax(x, axis=axis, **k)
        x = np.asarray(x)
        ctx, n = CTX(), x.shape[0]
        ctx.prove('argmax of something', n > 0)
        name = ctx.fresh('argmax')

        def at(i):
            v = iapp(name, i)
            ctx.define(and_(v >= 0, v < n))
            return v
        out = SArr.fn(x.shape[1:], at, 'i')
        self.seen.append((x.snap(), out))
        return out

    def max(self, x, axis=None, **k):
        x = np.asarray(x)
        if axis == 0 and not k and not isinstance(x.shape[0], int):
            return arr(x.shape[1:], CTX().fresh('max'))
        return np.max(x, axis=axis, **k)


def setup(ctx):
    E, Q = S().ebsd, S().quat.Quat
    h, w = dims('h', 'w')
    n = dims('n')
    m = E.Map.__new__(E.Map)
    m.shape = (h, w)
    m.data = Obj()
    comp = arr((4, h, w), 'q')
    m.data.orientation = SArr.fn((h, w), lambda i: Q(*[comp.get((j, *i)) for j in range(4)], allow_southern=True), 'O')
    sym = arr((n, 4), 'sym')
    op = lambda k: Q(*[SReal.const(j == 0) if isinstance(k, int) and k == 0 else sym.get((k, j)) for j in range(4)], allow_southern=True)
    ctx.fact(sym.get((0, 0)) == 1)
    for j in (1, 2, 3):
        ctx.fact(sym.get((0, j)) == 0)
    ph = Obj()
    ph.crystal_structure = Obj()
    ph.crystal_structure.symmetries = SSeq(n, op)
    m.phases = [Obj(), ph]
    m.primary_phase_id = 1
    m.step_size = rvar('step')
    ctx.fact(m.step_size > 0)
    E.np = NP()
    return m, h, w, n, comp, op, Q


def raw(p, q):
    """product of two quaternions, without the hemisphere rule"""
    a, b, c, d = p
    e, f, g, h = q
    return [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g + c * e + d * f - b * h, a * h + d * e + b * g - c * f]


def turn(p, q):
    """R - I for the matrix R of the rotation conj(q) p"""
    a, b, c, d = raw([q[0], -q[1], -q[2], -q[3]], p)
    return [[a * a + b * b - c * c - d * d - 1, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d - 1, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d - 1]]


@target('nye', functions=['ebsd.Map.calc_nye'])
def nye(ctx):
    m, h, w, n, comp, op, Q = setup(ctx)
    gnd, al = S().ebsd.Map.calc_nye(m)
    for a, lead in ((gnd, ()), (al, (3, 3))):
        ctx.prove('axes', len(a.shape) == 2 + len(lead))
        for k, l in zip(a.shape, (*lead, h, w)):
            same(ctx, 'shape', k, l)
    y, x = generic_index((h, w), 'g')
    if bool(mk(or_(y == h - 1, x == w - 1))):
        for i in range(3):
            for j in range(3):
                ctx.prove('zero without a neighbour', al.get((i, j, y, x)) == 0)
        ctx.prove('zero density without a neighbour', gnd.get((y, x)) == 0)
        return
    at = lambda *i: [comp.get((j, *i)) for j in range(4)]
    here = at(y, x)
    seen = S().ebsd.np.seen
    ctx.prove('least misorientation along two axes', len(seen) == 2)
    k = generic_index((n,), 'k')[0]
    one = SReal.const(1)
    grad = []
    for (dots, best), nb in zip(seen, (at(y, x + 1), at(y + 1, x))):
        def dot(j):
            e = nb if isinstance(j, int) else raw(op(j).quat_coef, nb)
            d = T.sabs(sum((a * b for a, b in zip(here, e)), SReal.const(0)))
            return ite(d > 1, one, d)
        # the table that is searched holds the cosine for every operator
        same(ctx, 'cosine of half the misorientation, identity', dots.get((0, y, x)), dot(0))
        with ctx.scope([k > 0]):
            same(ctx, 'cosine of half the misorientation', dots.get((k, y, x)), dot(k))
        b = best.get((y, x))
        grad.append((b, nb))
    (bx, qx), (by, qy) = grad
    for zx in (True, False):
        for zy in (True, False):
            with ctx.scope([(bx == 0) if zx else bx > 0, (by == 0) if zy else by > 0]):
                gx = turn(here, qx if zx else raw(op(bx).quat_coef, qx))
                gy = turn(here, qy if zy else raw(op(by).quat_coef, qy))
                f = 1 / (m.step_size * 1e-6 * BURGERS)
                want = [[-gy[i][2] * f, gx[i][2] * f, (gy[i][0] - gx[i][1]) * f] for i in range(3)]
                for i in range(3):
                    for j in range(3):
                        same(ctx, f'component {i} {j}', al.get((i, j, y, x)), want[i][j])
                tot = sum((T.sabs(al.get((i, j, y, x))) for i in range(3) for j in range(3)), SReal.const(0))
                same(ctx, 'density', gnd.get((y, x)), tot * 30 / 20)


@target('uniform')
def uniform(ctx):
    """equal rotations give no gradient: an operator whose product has cosine one changes nothing"""
    e = unit_vec('e', 4)
    for s in (1, -1):
        for row in turn([s * x for x in e], e):
            for v in row:
                ctx.prove('no gradient', mk(v == 0))
    p, d = vec('p', 4), sum((a * b for a, b in zip(vec('p', 4), e)), SReal.const(0))
    unit = sum((a * a for a in p), SReal.const(0)) == 1
    for s in (1, -1):
        with ctx.scope([unit, d == s]):
            have(ctx, 'distance zero', sum(((a - s * b) * (a - s * b) for a, b in zip(p, e)), SReal.const(0)) == 0)
            for a, b in zip(p, e):
                ctx.prove('same rotation', a == s * b)
