"""C18: rotating an EBSD map by 180 degrees."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Maps of any size, any values; orientations computed before the rotation or not; stores with any number of leading axes up to two.
Floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; cos(pi/2) is 0 and sin(pi/2) is 1',
    'the calculation of orientations from Euler angles is pixel by pixel (C01): it is replaced by an arbitrary function of the Euler angles of the pixel',
    'the store holds the loaded items of every loader plus two items with one and two leading axes and one that is no map (bounded list of items)',
]
TARGETS = {}
target = register(TARGETS)


def flip(a, h, w):
    return lambda *i: a.get((*i[:-2], h - 1 - i[-2], w - 1 - i[-1]))


DERIVED = ((('phase_boundaries', 'grain_boundaries'), 'boundaries'), (('grains',), 'labels'), (('KAM',), 'list'),
           (('GND', 'Nye_tensor'), 'list'), (('proxigram',), 'list'))


def recalculated(ctx, m, n):
    for keys, _ in DERIVED:
        for k in keys[::-1] if n % 2 else keys:
            ctx.prove(f'{k}: calculated again, once', m.data[k] == (k, n))


def setup(ctx, known):
    E, U, Q = S().ebsd, S().utils, S().quat.Quat
    h, w = dims('h', 'w')
    m = E.Map.__new__(E.Map)
    m.shape = (h, w)
    m.step_size = rvar('step')
    m.data = U.Datastore()
    loaded = dict(phase=arr((h, w), 'phase', 'i'), euler_angle=arr((3, h, w), 'euler'), band_contrast=arr((h, w), 'bc', 'i'),
                  extra1=arr((2, h, w), 'e1'), extra2=arr((2, 3, h, w), 'e2'))
    for k, v in loaded.items():
        m.data.add(k, v, type='map', order=0)
    notes = arr((5,), 'notes')
    m.data.add('notes', notes, type='list')
    m.data.add_generator('calculated', lambda: m.data.band_contrast, type='map', order=0)
    m.data.generate('calculated')
    # everything a map calculates, under its own name; the values are stand-ins for each run of the calculation
    runs = {}

    def calc(keys):
        def f():
            runs[keys] = runs.get(keys, 0) + 1
            out = tuple((k, runs[keys]) for k in keys)
            return out if len(keys) > 1 else out[0]
        return f
    for keys, kind in DERIVED:
        m.data.add_generator(keys if len(keys) > 1 else keys[0], calc(keys), type=kind)
        m.data.generate(keys[0])
    co = [vec(f'c{j}', 3) for j in range(4)]

    def comps(e, y, x):
        return [sum((a * e.get((k, y, x)) for k, a in enumerate(c)), SReal.const(0)) for c in co]

    def quats():
        e = m.data.euler_angle.snap()
        return SArr.fn((h, w), lambda i: Q(*comps(e, *i), allow_southern=True), 'O')
    m.calc_quat_array = quats
    m.data.add_generator('orientation', quats, type='map', order=0)
    q = arr((4, h, w), 'q')
    if known:
        old = lambda y, x: [q.get((j, y, x)) for j in range(4)]
        m.data.orientation = SArr.fn((h, w), lambda i: Q(*old(*i), allow_southern=True), 'O')
    else:
        old = lambda y, x: comps(loaded['euler_angle'], y, x)
    return m, h, w, loaded, notes, old


def mat(q):
    a, b, c, d = q
    return [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]


def rotate(ctx, known):
    m, h, w, loaded, notes, old = setup(ctx, known)
    step = m.step_size
    S().ebsd.Map.rotate_data(m)
    ctx.prove('shape', m.shape[0] is h and m.shape[1] is w)
    same(ctx, 'step size', m.step_size, step)
    for k, v in loaded.items():
        new = m.data[k]
        ctx.prove(f'{k}: axes', len(new.shape) == len(v.shape))
        for a, b in zip(new.shape, v.shape):
            same(ctx, f'{k}: shape', a, b)
        g = generic_index(v.shape, 'g')
        same(ctx, f'{k}: moved to the opposite pixel', new.get(g), flip(v, h, w)(*g))
    eq_arrays(ctx, 'item that is no map', m.data['notes'], notes)
    g = generic_index((h, w), 'g')
    same(ctx, 'data calculated before are calculated again', m.data.calculated.get(g), flip(loaded['band_contrast'], h, w)(*g))
    recalculated(ctx, m, 2)
    new = m.data.orientation
    ctx.prove('orientation: axes', len(new.shape) == 2)
    same(ctx, 'orientation: height', new.shape[0], h)
    same(ctx, 'orientation: width', new.shape[1], w)
    y, x = generic_index((h, w), 'g')
    r0, r1 = mat(old(h - 1 - y, w - 1 - x)), mat(new.get((y, x)).quat_coef)
    for i in range(3):
        for j in range(3):
            same(ctx, f'orientation: turned about the normal {i}{j}', r1[i][j], r0[i][j] * (1 if j == 2 else -1))
    ctx.prove('orientation: northern hemisphere', new.get((y, x)).quat_coef[0] >= 0)
    # twice
    S().ebsd.Map.rotate_data(m)
    for k, v in loaded.items():
        eq_arrays(ctx, f'{k}: twice', m.data[k], v)
    recalculated(ctx, m, 3)
    r2 = mat(m.data.orientation.get((y, x)).quat_coef)
    r0 = mat(old(y, x))
    for i in range(3):
        for j in range(3):
            same(ctx, f'orientation: twice {i}{j}', r2[i][j], r0[i][j])


@target('known', functions=['ebsd.Map.rotate_data'])
def t1(ctx):
    rotate(ctx, True)


@target('not_yet', functions=['ebsd.Map.rotate_data'])
def t2(ctx):
    rotate(ctx, False)
