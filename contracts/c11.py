"""C11: strain maps from the displacement field."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Any displacement field of at least two by two pixels, any sub-window size; floats treated as exact reals. The constructor of the map
runs as a whole; only the loading of the file is replaced by an arbitrary field.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'numpy.gradient is modelled as documented (second order central differences inside, first order one-sided at the edges)',
]
TARGETS = {}
target = register(TARGETS)


class Inc:
    maps = None

    def add_map(self, name, m):
        self.maps = (name, m)


class Exp:
    def add_increment(self):
        i = Inc()
        i.experiment = self
        return i


def build(ctx, field):
    """the real constructor on an arbitrary displacement field"""
    H = S().hrdic
    h, w = dims('h', 'w', lo=2)
    b = dims('binning')
    u = field(ctx, h, w, b)

    def load_data(self, file_name, data_type=None):
        self.format, self.version = 'format', 'version'
        self.binning = b
        self.shape = (h, w)
        self.xdim, self.ydim = w, h
        self.data.add('coordinate', arr((2, h, w), 'coordinate'), type='map', order=1)
        self.data.add('displacement', u, type='map', order=1)
    H.Map.load_data = load_data
    m = H.Map('file.txt', experiment=Exp())
    return m, u, h, w, b


def free(ctx, h, w, b):
    return arr((2, h, w), 'u')


def du(u, i, j, y, x, h, w, b):
    """derivative of component i of the displacement along axis j (0: x, columns; 1: y, rows)"""
    k, n = (x, w) if j == 0 else (y, h)

    def at(k):
        return u.get((i, y, k) if j == 0 else (i, k, x))
    if bool(mk(k == 0)):
        return (at(1) - at(0)) / b
    if bool(mk(k == n - 1)):
        return (at(n - 1) - at(n - 2)) / b
    return (at(k + 1) - at(k - 1)) / (2 * b)


def shapes(ctx, name, a, want):
    ctx.prove(f'{name}: number of axes', len(a.shape) == len(want))
    for k, (x, y) in enumerate(zip(a.shape, want)):
        same(ctx, f'{name}: axis {k}', x, y)


@target('deformation_gradient')
def t1(ctx):
    m, u, h, w, b = build(ctx, free)
    f = m.data.f
    shapes(ctx, 'F', f, (2, 2, h, w))
    y, x = generic_index((h, w), 'g')
    for i in range(2):
        for j in range(2):
            same(ctx, f'F{i}{j} = delta + du{i}/dx{j}', f.get((i, j, y, x)), du(u, i, j, y, x, h, w, b) + (1 if i == j else 0))


@target('strain')
def t2(ctx):
    """Green strain and maximum shear as functions of the deformation gradient"""
    m, u, h, w, b = build(ctx, free)
    f, e, s = m.data.f, m.data.e, m.data.max_shear
    shapes(ctx, 'E', e, (2, 2, h, w))
    shapes(ctx, 'max shear', s, (h, w))
    y, x = generic_index((h, w), 'g')
    F = [[f.get((i, j, y, x)) for j in range(2)] for i in range(2)]
    E = [[e.get((i, j, y, x)) for j in range(2)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            v = (F[0][i] * F[0][j] + F[1][i] * F[1][j]) / 2 - (T.SReal.const(1) / 2 if i == j else 0)
            same(ctx, f'E{i}{j}', E[i][j], v)
    g = s.get((y, x))
    d = (E[0][0] - E[1][1]) / 2
    same(ctx, 'square of the maximum shear', g * g, d * d + E[0][1] * E[0][1])
    ctx.prove('maximum shear is not negative', mk(g >= 0))


@target('uniform')
def t3(ctx):
    G = [[rvar(f'G{i}{j}') for j in range(2)] for i in range(2)]
    a = vec('a', 2)

    def field(ctx, h, w, b):
        return SArr.fn((2, h, w), lambda i: np.array([a[r] + G[r][0] * b * i[2] + G[r][1] * b * i[1] for r in range(2)]).get((i[0],)), 'f')
    m, u, h, w, b = build(ctx, field)
    y, x = generic_index((h, w), 'g')
    f = m.data.f
    for k, n in ((x, w), (y, h)):
        if not bool(mk(k == 0)):
            bool(mk(k == n - 1))
    for i in range(2):
        for j in range(2):
            same(ctx, f'F{i}{j} of a uniform deformation', f.get((i, j, y, x)), G[i][j] + (1 if i == j else 0))


@target('rigid')
def t4(ctx):
    a = vec('a', 2)

    def field(ctx, h, w, b):
        return SArr.fn((2, h, w), lambda i: np.array(a).get((i[0],)), 'f')
    m, u, h, w, b = build(ctx, field)
    y, x = generic_index((h, w), 'g')
    for i in range(2):
        for j in range(2):
            same(ctx, f'E{i}{j} of a translation', m.data.e.get((i, j, y, x)), T.SReal.const(0))
    same(ctx, 'maximum shear of a translation', m.data.max_shear.get((y, x)), T.SReal.const(0))
