"""C26: projections of pole figures."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''All directions and angles, lists of any length, any ends of a line, every symmetry copy; what matplotlib draws is what it is handed. Floats
treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; trigonometric functions by their identities and value ranges',
    'the direction opposite to the pole of the projection (alpha = pi) is excluded',
    'the symmetry operations and transform_vector enter as any orientations and by the contract proved in C01',
    'matplotlib axes are replaced by a recorder; that the plotted fundamental directions lie in the drawn sector is checked on the running code',
]
TARGETS = {}
target = register(TARGETS)


def at(a, k):
    return SReal.of(a.get((k,)))


def angles(ctx, f, law):
    P = S().plotting.PolePlot
    n = dims('n')
    a, b = arr((n,), 'a'), arr((n,), 'b')
    x, y = getattr(P, f)(a, b)
    ctx.prove('one point per direction', and_(len(x.shape) == 1, len(y.shape) == 1, mk(x.shape[0] == n), mk(y.shape[0] == n)))
    k, = generic_index((n,), 'g')
    al, be = at(a, k), at(b, k)
    law(ctx, 'x', at(x, k), al, T.ssin(be))
    law(ctx, 'y', at(y, k), al, -T.scos(be))


@target('stereo_angles', def_mode='assume')
def t1(ctx):
    angles(ctx, 'stereo_project', lambda c, n, got, a, u: same(c, f'{n}: tan(alpha/2) along the azimuth', got * T.scos(a / 2), T.ssin(a / 2) * u))


@target('equal_area_angles', def_mode='assume')
def t2(ctx):
    angles(ctx, 'lambert_project', lambda c, n, got, a, u: same(c, f'{n}: 2 sin(alpha/2) along the azimuth', got, T.ssqrt(2 * (1 - T.scos(a))) * u))


def direction(ctx, f, law):
    P = S().plotting.PolePlot
    n = dims('n')
    v = [arr((n,), c) for c in 'xyz']
    k, = generic_index((n,), 'g')
    vx, vy, vz = [at(c, k) for c in v]
    r2 = vx * vx + vy * vy + vz * vz
    r = T.ssqrt(r2)
    ctx.fact(r2 > 0)
    ctx.fact(r > 0)
    ctx.fact(r + vz > 0)
    px, py = getattr(P, f)(*v)
    ctx.prove('one point per direction', and_(len(px.shape) == 1, len(py.shape) == 1, mk(px.shape[0] == n), mk(py.shape[0] == n)))
    law(ctx, at(px, k), at(py, k), vx, vy, vz, r)


@target('stereo_direction', def_mode='assume')
def t3(ctx):
    def law(ctx, px, py, x, y, z, r):
        same(ctx, 'x is y / (1 + z) of the unit vector', px * (r + z), y)
        same(ctx, 'y is -x / (1 + z) of the unit vector', py * (r + z), -x)
    direction(ctx, 'stereo_project', law)


@target('equal_area_direction', def_mode='assume')
def t4(ctx):
    def law(ctx, px, py, x, y, z, r):
        same(ctx, 'the squared length is 2 (1 - cos alpha)', (px * px + py * py) * r, 2 * (r - z))
        d2 = x * x + y * y
        with ctx.scope([d2 > 0]):
            rho = T.ssqrt(d2)
            m = T.ssqrt(2 * (1 - z / r))
            same(ctx, 'x along the azimuth', px * rho, m * y)
            same(ctx, 'y along the azimuth', py * rho, -m * x)
    direction(ctx, 'lambert_project', law)


@target('arguments')
def t5(ctx):
    P = S().plotting.PolePlot
    for f in (P.stereo_project, P.lambert_project):
        for n in (0, 1, 4):
            try:
                f(*vec('v', n) if n else ())
                ctx.prove(f'{n} arguments are refused', False)
            except Exception:
                ctx.prove(f'{n} arguments are refused', True)


@target('choice')
def t6(ctx):
    M = S().plotting
    P = M.PolePlot
    st, la = P.stereo_project, P.lambert_project

    def own(*a):
        return a
    for default, d in (('stereographic', st), ('lambert', la), ('Equal Area', la), ('stereo', st), (own, own)):
        M.defaults['pole_projection'] = default
        for given, f in (('stereographic', st), ('Stereo', st), ('equal angle', st), ('Lambert', la), ('EqualArea', la), ('equal area', la),
                         (own, own), (None, d), ('mercator', d), (3, d)):
            ctx.prove(f'projection {given!r} with default {default!r}', P._validateProjection(given) is f)
    M.defaults['pole_projection'] = 'mercator'
    try:
        P._validateProjection(None)
        ctx.prove('a wrong default is refused', False)
    except ValueError:
        ctx.prove('a wrong default is refused', True)


class Axes:
    def __init__(self):
        self.log = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.log.append((name, a, k))
            return len(self.log)
        return f


def plot(sym, proj):
    P = S().plotting.PolePlot
    p = P.__new__(P)
    p.ax = Axes()
    p.crystal_sym = sym
    p.plot_type = 'IPF'
    p.projection = proj
    p.img_layers = []
    return p


@target('points')
def t7(ctx):
    n = dims('n')
    a, b = arr((n,), 'a'), arr((n,), 'b')
    xy = arr((n,), 'px'), arr((n,), 'py')
    size = rvar('size')
    ctx.fact(size > 0)
    for colour in (None, ['r', 'b']):
        seen = []

        def proj(*args):
            seen.append(args)
            return xy
        p = plot('cubic', proj)
        kw = {} if colour is None else dict(marker_size=size)
        p.add_points(a, b, marker_colour=colour, label='l', **kw)
        ctx.prove('the angles are projected', len(seen) == 1 and seen[0][0] is a and seen[0][1] is b)
        ctx.prove('points plotted', len(p.ax.log) == (1 if colour is None else 2) and len(p.img_layers) == len(p.ax.log))
        for i, (name, args, k) in enumerate(p.ax.log):
            ctx.prove('drawn where they are projected', name == 'scatter' and args[0] is xy[0] and args[1] is xy[1])
            ctx.prove('other arguments handed on', k['label'] == 'l')
            ctx.prove('colour of each half', colour is None or k['c'] == colour[i])
            ctx.prove('layer kept', p.img_layers[i] == i + 1)
    p = plot('cubic', proj)
    try:
        p.add_points(a, b, marker_colour=['r', 'b', 'g'], marker_size=size)
        ctx.prove('three colours are refused', False)
    except Exception:
        ctx.prove('three colours are refused', not p.ax.log)


def lines(ctx, sym, syms):
    M = S().plotting
    res = dims('res', lo=2)
    start, end = vec('s', 3), vec('e', 3)
    used = start, end
    count = (24 if sym == 'cubic' else 12) if syms else 1
    if sym == 'hexagonal':
        orth = {}

        def project_to_orth(ca, dir=None, in_type=None):
            ctx.prove('indices are made Cartesian', in_type == 'mb')
            return orth[id(dir)]
        M.project_to_orth = project_to_orth
        given = (object(), object())
        used = np.array(vec('os', 3)), np.array(vec('oe', 3))
        orth.update({id(given[0]): used[0], id(given[1]): used[1]})
    else:
        given = used = tuple(start), tuple(end)
    image = {}

    class Op:
        def __init__(self, i):
            self.i = i

        def transform_vector(self, v):
            j = 0 if v is used[0] else 1
            ctx.prove('copies of the ends', v is used[j])
            image[self.i, j] = vec(f't{self.i}{j}', 3)
            return np.array(image[self.i, j])

    def sym_eqv(s):
        ctx.prove('operations of the crystal class', s == sym)
        return [Op(i) for i in range(count)]
    M.quat.Quat.sym_eqv = staticmethod(sym_eqv)
    seen = []

    def proj(*v):
        # the code may go on to use the arrays again
        seen.append([np.copy(c) for c in v])
        return 'x', 'y'
    p = plot(sym, proj)
    p.add_line(*given, plot_syms=syms, res=res, c='k')
    ctx.prove('one line for each copy', len(seen) == count and len(p.ax.log) == count)
    g, = generic_index((res,), 'g')
    for i in range(count):
        ctx.prove('the projected points are drawn', p.ax.log[i][0] == 'plot' and p.ax.log[i][1] == ('x', 'y') and p.ax.log[i][2] == {'c': 'k'})
        ends = []
        for j in range(2):
            if i == 0:
                ends.append([SReal.of(used[j][c]) for c in range(3)])
            else:
                v = image[i, j]
                ends.append([ite(v[2] < 0, -v[c], v[c]) for c in range(3)])
        ctx.prove('three components', len(seen[i]) == 3)
        for c in range(3):
            ctx.prove('number of points', mk(seen[i][c].shape[0] == res))
            a, b = ends[0][c], ends[1][c]
            got = at(seen[i][c], g)
            same(ctx, f'points at equal steps between the ends, line {i}', got * SReal.of(res - 1), a * SReal.of(res - 1) + (b - a) * SReal.of(g))


@target('line_cubic', def_mode='assume')
def t8(ctx):
    lines(ctx, 'cubic', False)


@target('line_hexagonal', def_mode='assume')
def t9(ctx):
    lines(ctx, 'hexagonal', False)


@target('line_symmetry', def_mode='assume')
def t10(ctx):
    lines(ctx, 'cubic', True)


@target('line_symmetry_hexagonal', def_mode='assume')
def t10b(ctx):
    lines(ctx, 'hexagonal', True)


def labels(ctx, sym, syms, text):
    M = S().plotting
    point = vec('s', 3)
    used = given = tuple(point)
    if sym == 'hexagonal':
        given, used = object(), np.array(vec('os', 3))

        def project_to_orth(ca, dir=None, in_type=None):
            ctx.prove('indices are made Cartesian', in_type == 'mb' and dir is given)
            return used
        M.project_to_orth = project_to_orth
    image = {}

    class Op:
        def __init__(self, i):
            self.i = i

        def transform_vector(self, v):
            ctx.prove('copies of the point', v is used)
            image[self.i] = vec(f't{self.i}', 3)
            return np.array(image[self.i])
    ops = [Op(i) for i in range(24 if sym == 'cubic' else 12)]
    M.quat.Quat.sym_eqv = staticmethod(lambda s: (ctx.prove('operations of the crystal class', s == sym), ops)[1])
    M.idc_to_string = lambda idc, str_type=None: f'{str_type} of {"own" if idc is given else idc}'

    def eqv(s, o, dir=None, c_over_a=None):
        ctx.prove('indices of the copies', s == sym and len(o) == len(ops) and all(a is b for a, b in zip(o, ops)) and dir is given)
        return [f'i{i}' for i in range(len(ops))]
    M.equavlent_indicies = eqv
    seen = []

    def proj(*v):
        seen.append(v)
        return rapp('px', [len(seen)]), rapp('py', [len(seen)])
    p = plot(sym, proj)
    dx, dy = rvar('dx'), rvar('dy')
    p.label_point(given, label=text, plot_syms=syms, pad_x=dx, pad_y=dy, va='top')
    count = len(ops) if syms else 1
    ctx.prove('one label for each copy', len(seen) == count and len(p.ax.log) == count)
    for i in range(count):
        name, a, k = p.ax.log[i]
        want = text if text is not None else (f'tex of i{i}' if syms else 'tex of own')
        ctx.prove('text of the label', name == 'text' and a[2] == want and k == {'va': 'top'})
        same(ctx, 'label at the projected point plus the pad, x', a[0], rapp('px', [i + 1]) + dx)
        same(ctx, 'label at the projected point plus the pad, y', a[1], rapp('py', [i + 1]) + dy)
        for c in range(3):
            v = SReal.of(used[c]) if i == 0 else ite(image[i][2] < 0, -image[i][c], image[i][c])
            same(ctx, f'copy {i}', SReal.of(seen[i][c]), v)


@target('labels', def_mode='assume')
def t11(ctx):
    for text in (None, 'A'):
        for syms in (False, True):
            labels(ctx, 'cubic', syms, text)
            labels(ctx, 'hexagonal', syms, text)
