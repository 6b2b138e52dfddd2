"""C10: cropping a deformation map."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''All map sizes, crop distances, previous crops and binnings; scalar, vector and tensor map data; any number of homologous points;
any mask and dilation.'''
ASSUME = [
    'map data have up to two leading axes (the ranks that occur; the code uses an ellipsis)',
    'scipy.ndimage.binary_dilation and numpy.ma.array do what they document',
    'crop distances are integers; the data store applies the crop on access (proved under C09)',
]
TARGETS = {}
target = register(TARGETS)
SIDES = ('left', 'right', 'top', 'bottom')


def flip(name):
    return bool(bvar(name))


def dicmap(ctx):
    H = S().hrdic
    m = H.Map.__new__(H.Map)
    m.xdim, m.ydim = dims('xdim', 'ydim')
    old = {s: ivar(f'old_{s}') for s in SIDES}
    m.crop_dists = np.array(((old['left'], old['right']), (old['top'], old['bottom'])))
    # the shape is that of the cropped map
    m.shape = (m.ydim - old['top'] - old['bottom'], m.xdim - old['left'] - old['right'])
    return m, old


def dist(m):
    c = m.crop_dists
    return dict(left=c[0, 0], right=c[0, 1], top=c[1, 0], bottom=c[1, 1])


class Frame:
    def __init__(self):
        self.calls = []

    def update_homog_points(self, homog_idx, new_point=None, delta=None):
        self.calls.append((homog_idx, new_point, delta))


@target('set_crop')
def t1(ctx):
    m, old = dicmap(ctx)
    m.frame = Frame()
    new = {s: ivar(f'new_{s}') for s in SIDES if flip(f'give {s}')}
    upd = flip('update points')
    kw = dict(new, **({'update_homog_points': True} if upd else {}))
    m.set_crop(**kw)
    d = dist(m)
    for s in SIDES:
        same(ctx, f'distance {s}', d[s], new.get(s, old[s]))
    same(ctx, 'height', m.shape[0], m.ydim - new.get('top', old['top']) - new.get('bottom', old['bottom']))
    same(ctx, 'width', m.shape[1], m.xdim - new.get('left', old['left']) - new.get('right', old['right']))
    dx = old['left'] - new.get('left', old['left'])
    dy = old['top'] - new.get('top', old['top'])
    if not upd:
        ctx.prove('points not touched', not m.frame.calls)
    else:
        still = and_(mk(dx == 0), mk(dy == 0))
        ctx.prove('points moved when the origin moves', implies(not_(still), len(m.frame.calls) == 1))
        for i, p, delta in m.frame.calls:
            ctx.prove('all points are moved', i == -1 and p is None)
            same(ctx, 'moved in x by the change of the left distance', delta[0], dx)
            same(ctx, 'moved in y by the change of the top distance', delta[1], dy)


@target('move_points')
def t2(ctx):
    """contract of Frame.update_homog_points used above, any number of points"""
    E = S().experiment
    f = E.Frame()
    n = dims('points')
    f.set_homog_points(arr((n, 2), 'p'))
    old = lambda k, j: rapp('p', [k, j])
    d = (rvar('dx'), rvar('dy'))
    k, i = generic_index((n,), 'k')[0], generic_index((n,), 'i')[0]
    if flip('one point'):
        how = flip('new point')
        if how:
            q = (rvar('qx'), rvar('qy'))
            f.update_homog_points(i, new_point=q)
        else:
            f.update_homog_points(i, delta=d)
        for j in (0, 1):
            same(ctx, f'coordinate {j} of the point', f.homog_points.get((i, j)), q[j] if how else old(i, j) + d[j])
        with ctx.scope([k != i]):
            for j in (0, 1):
                same(ctx, f'coordinate {j} of another point', f.homog_points.get((k, j)), old(k, j))
    else:
        f.update_homog_points(homog_idx=-1, delta=d)
        for j in (0, 1):
            same(ctx, f'coordinate {j} of every point', f.homog_points.get((k, j)), old(k, j) + d[j])
    same(ctx, 'as many points', f.homog_points.shape[0], n)


def crop(ctx, lead, binned):
    m, old = dicmap(ctx)
    for s in SIDES:
        ctx.fact(old[s] >= 0)
    ctx.fact(m.xdim - old['left'] - old['right'] >= 1)
    ctx.fact(m.ydim - old['top'] - old['bottom'] >= 1)
    b = dims('binning') if binned else 1
    a = arr((*lead, m.ydim * b, m.xdim * b), 'data')
    keep = m.shape
    r = m.crop(a, binning=b) if binned else m.crop(a) if len(lead) == 1 else m.crop(a, binning=None)
    ctx.prove('as many axes', len(r.shape) == len(lead) + 2)
    for i, n in enumerate(lead):
        same(ctx, f'axis {i}', r.shape[i], n)
    same(ctx, 'height', r.shape[-2], (m.ydim - old['top'] - old['bottom']) * b)
    same(ctx, 'width', r.shape[-1], (m.xdim - old['left'] - old['right']) * b)
    g = generic_index(r.shape, 'g')
    e = (*g[:-2], g[-2] + old['top'] * b, g[-1] + old['left'] * b)
    same(ctx, 'pixel of the region', r.get(g), a.get(e))
    for s, v in dist(m).items():
        same(ctx, f'distance {s} unchanged', v, old[s])
    ctx.prove('shape unchanged', m.shape is keep)


@target('crop_scalar')
def t3(ctx):
    crop(ctx, (), False)


@target('crop_vector')
def t4(ctx):
    crop(ctx, (2,), False)


@target('crop_tensor')
def t5(ctx):
    crop(ctx, (2, 2), False)


@target('crop_pattern', timeout=40)
def t6(ctx):
    crop(ctx, (), True)


@target('crop_sequence')
def t7(ctx):
    """a crop followed by the same crop, or by the crop back, is the crop, or no crop; points come back"""
    E = S().experiment
    m, old = dicmap(ctx)
    for s in SIDES:
        ctx.fact(old[s] >= 0)
    m.frame = E.Frame.__new__(E.Frame)
    p = (ivar('px'), ivar('py'))
    m.frame.homog_points = [p]
    new = {s: ivar(f'new_{s}') for s in SIDES}
    m.set_crop(**new, update_homog_points=True)
    q = m.frame.homog_points[0]
    same(ctx, 'the same material point (x)', q[0] + new['left'], p[0] + old['left'])
    same(ctx, 'the same material point (y)', q[1] + new['top'], p[1] + old['top'])
    m.set_crop(**new, update_homog_points=True)
    same(ctx, 'the same crop again (x)', m.frame.homog_points[0][0], q[0])
    same(ctx, 'the same crop again (y)', m.frame.homog_points[0][1], q[1])
    h = m.shape
    m.set_crop(**old, update_homog_points=True)
    same(ctx, 'back (x)', m.frame.homog_points[0][0], p[0])
    same(ctx, 'back (y)', m.frame.homog_points[0][1], p[1])
    m.set_crop(**new)
    same(ctx, 'shape of the crop (height)', m.shape[0], h[0])
    same(ctx, 'shape of the crop (width)', m.shape[1], h[1])


class Data:
    mask = None


def masked(ctx, lead):
    """a mask made for the cropped map hides its points in every component"""
    H = S().hrdic
    m, old = dicmap(ctx)
    h, w = m.shape
    ctx.fact(h >= 1)
    ctx.fact(w >= 1)
    m.data = Data()
    a = arr((*lead, h, w), 'data')
    ctx.prove('no mask: the data themselves', m.mask(a) is a)
    M = arr((h, w), 'given', 'b')
    n = ivar('dilation')
    ctx.fact(n >= 0)
    calls = []

    def dilation(x, **k):
        calls.append((x, k))
        return arr((h, w), 'dilated', 'b')
    keep = H.binary_dilation
    H.binary_dilation = dilation
    try:
        got = m.calc_mask(M, dilation=n)
    finally:
        H.binary_dilation = keep
    for x, k in calls:
        ctx.prove('the mask given is dilated', x is M)
        ctx.prove('only the number of iterations', set(k) == {'iterations'})
        same(ctx, 'dilated as often as asked for', k['iterations'], n)
    ctx.prove('remembered', m.data.mask is got)
    r = m.mask(a)
    ctx.prove('masked data', type(r).__name__ == 'MaskedArray' and len(r.shape) == len(lead) + 2)
    g = generic_index(a.shape, 'g')
    same(ctx, 'values as they were', r.data.get(g), a.get(g))
    with ctx.scope([n == 0]):
        same(ctx, 'hidden exactly where the mask says', r.mask.get(g), M.get(g[-2:]))
    with ctx.scope([n > 0]):
        same(ctx, 'hidden exactly where the dilated mask says', r.mask.get(g), arr((h, w), 'dilated', 'b').get(g[-2:]))
    ctx.prove('no mask given', m.calc_mask() is None and m.data.mask is None)
    for bad in (arr((h + 1, w), 'b', 'b'), arr((h, w - 1), 'c', 'b'), [[True]], True):
        try:
            m.calc_mask(bad)
            ctx.prove('refused', False)
        except ValueError:
            pass
        ctx.prove('still no mask', m.data.mask is None)


@target('mask_scalar')
def t8(ctx):
    masked(ctx, ())


@target('mask_vector')
def t9(ctx):
    masked(ctx, (2,))


@target('mask_tensor')
def t10(ctx):
    masked(ctx, (2, 2))
