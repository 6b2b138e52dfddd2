"""C13: boundary sets as images, points and lines."""
from pydv.contract import *
from pydv.rt import DvList

LEVEL = 'proof'
NOTE = '''Boundary images of any size and content, including empty ones; any set of points; the deformation map's set from an EBSD set with the
warping of points and lines replaced by an arbitrary result.'''
ASSUME = [
    'numpy.nonzero lists exactly the set elements of an image; a Python set holds each point once and iterates over its points in some order',
    'Experiment.warp_points and warp_lines (C22) return arbitrary points inside the map and arbitrary lines',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


def setup(ctx):
    E = S().ebsd
    m = Obj()
    m.shape = dims('h', 'w')
    ix, iy = arr(m.shape, 'image_x', 'b'), arr(m.shape, 'image_y', 'b')
    return E, m, ix, iy, E.BoundarySet.from_image(m, ix, iy)


def member(ps, p):
    if isinstance(ps, PSet):
        return mk(SBool.of(ps.member(p)))
    return p in ps


@target('points')
def t1(ctx):
    E, m, ix, iy, b = setup(ctx)
    ctx.prove('made for the map', b.ebsd_map is m)
    h, w = m.shape
    x, y = ivar('px'), ivar('py')
    inside = and_(x >= 0, x < w, y >= 0, y < h)
    if not bool(inside):
        ctx.prove('no point outside the map', not_(or_(member(b.points_x, (x, y)), member(b.points_y, (x, y)), member(b.points, (x, y)))))
        return
    same(ctx, 'point (x, y) exactly where the x image is set', member(b.points_x, (x, y)), ix.get((y, x)))
    same(ctx, 'point (x, y) exactly where the y image is set', member(b.points_y, (x, y)), iy.get((y, x)))
    same(ctx, 'all points', member(b.points, (x, y)), or_(ix.get((y, x)), iy.get((y, x))))


def image(ctx, which):
    E, m, ix, iy, b = setup(ctx)
    im = getattr(b, which)
    ctx.prove('boolean image', im.d_ == 'b')
    y, x = generic_index(m.shape, 'g')
    e = {'image_x': ix.get((y, x)), 'image_y': iy.get((y, x)), 'image': or_(ix.get((y, x)), iy.get((y, x)))}[which]
    same(ctx, 'height', im.shape[0], m.shape[0])
    same(ctx, 'width', im.shape[1], m.shape[1])
    same(ctx, 'image comes back', im.get((y, x)), e)


@target('image_x')
def t2(ctx):
    image(ctx, 'image_x')


@target('image_y')
def t3(ctx):
    image(ctx, 'image_y')


@target('image_all')
def t4(ctx):
    image(ctx, 'image')


def edge(mode, p):
    """the unit line between pixel p and its right (x) or lower (y) neighbour"""
    x, y = SReal.of(p[0]), SReal.of(p[1])
    h = SReal.const(1) / 2
    if mode == 'x':
        return (x + h, y - h), (x + h, y + h)
    return (x - h, y + h), (x + h, y + h)


def lines_of(ctx, name, lines, k, e):
    l = lines[k]
    ctx.prove(f'{name}: two points', len(l) == 2 and len(l[0]) == 2 and len(l[1]) == 2)
    fwd = and_(*[mk(SReal.of(l[i][j]) == e[i][j]) for i in range(2) for j in range(2)])
    ctx.prove(f'{name}: on the edge of its pixel', fwd)


def length(x):
    return x._dv_len() if hasattr(x, '_dv_len') else len(x)


@target('lines')
def t5(ctx):
    """the lines are those of the x points, then those of the y points, one each"""
    E, m, ix, iy, b = setup(ctx)
    sx, sy = b.points_x.seq(), b.points_y.seq()
    ls = b.lines
    same(ctx, 'one line per boundary pixel', length(ls), sx.n + sy.n)
    k = ivar('k')
    ctx.fact(and_(k >= 0, k < sx.n + sy.n))
    if bool(mk(k < sx.n)):
        lines_of(ctx, 'x boundary', ls, k, edge('x', sx.at(k)))
    else:
        lines_of(ctx, 'y boundary', ls, k, edge('y', sy.at(k - sx.n)))


@target('lines_of_points')
def t6(ctx):
    """x points and y points separately, and neither"""
    E, m, ix, iy, b = setup(ctx)
    B = E.BoundarySet
    for mode, ps in (('x', b.points_x), ('y', b.points_y)):
        ls = B.boundary_points_to_lines(**{f'boundary_points_{mode}': ps})
        s = ps.seq()
        same(ctx, f'{mode}: one line per pixel', length(ls), s.n)
        k = ivar(f'k{mode}')
        if bool(and_(k >= 0, k < s.n)):
            lines_of(ctx, f'{mode} only', ls, k, edge(mode, s.at(k)))
    try:
        B.boundary_points_to_lines()
        ctx.prove('no boundaries refused', False)
    except ValueError:
        ctx.prove('no boundaries refused', True)


@target('empty')
def t7(ctx):
    E = S().ebsd
    m = Obj()
    m.shape = dims('h', 'w')
    for how in ('image', 'points'):
        if how == 'image':
            b = E.BoundarySet.from_image(m, np.zeros(m.shape, dtype=bool), np.zeros(m.shape, dtype=bool))
        else:
            b = E.BoundarySet(m, [], [])
        y, x = generic_index(m.shape, f'g{how}')
        for n in ('image_x', 'image_y', 'image'):
            same(ctx, f'{how}: empty {n}', getattr(b, n).get((y, x)), False)
        same(ctx, f'{how}: no points', length(b.points), 0)
        same(ctx, f'{how}: no lines', length(b.lines), 0)


@target('segment')
def t8(ctx):
    """a set made of boundary segments has the points of the segments"""
    E = S().ebsd
    m = Obj()
    m.shape = dims('h', 'w')
    segs = []
    pts = {'x': [], 'y': []}
    g = [Obj(), Obj()]
    for i in range(2):
        s = E.BoundarySegment(m, g[0], g[1])
        for kind, n in ((0, 'x'), (1, 'y')):
            p = (ivar(f'x{i}{n}'), ivar(f'y{i}{n}'))
            owner = g[0] if bool(bvar(f'owner {i}{n}')) else g[1]
            s.addBoundaryPoint(p, kind, owner)
            pts[n].append(p)
            q = (p[0] + 1, p[1]) if kind == 0 else (p[0], p[1] + 1)
            pair = (s.boundary_point_pairs_x if kind == 0 else s.boundary_point_pairs_y)[0]
            e = (p, q) if owner is g[0] else (q, p)
            for a in range(2):
                for c in range(2):
                    same(ctx, f'pair {i}{n}{a}{c}', pair[a][c], e[a][c])
            for ln, ee in ((s.boundary_lines[kind], edge(n, p)),):
                for a in range(2):
                    for c in range(2):
                        same(ctx, f'line {i}{n}{a}{c}', SReal.of(ln[a][c]), ee[a][c])
        ctx.prove('length of a segment', len(s) == 2)
        segs.append(s)
    rec = []
    E.BoundarySet.__init__ = lambda self, *a: rec.append(a)
    E.BoundarySet.from_boundary_segments(segs)
    (em, px, py), = rec
    ctx.prove('map of the segments', em is m)
    for n, l in (('x', px), ('y', py)):
        l = list(l)
        ctx.prove('as many points', len(l) == 2)
        for a, e in zip(l, pts[n]):
            same(ctx, f'point {n} x', a[0], e[0])
            same(ctx, f'point {n} y', a[1], e[1])


@target('deformation_map')
def t9(ctx):
    H = S().hrdic
    dic, exp, eb = Obj(), Obj(), Obj()
    dic.shape = dims('h', 'w')
    dic.experiment, dic.ebsd_map = exp, Obj()
    dic.frame, dic.ebsd_map.frame = Obj(), Obj()
    hh, ww = dims('eh', 'ew')
    eb.points = PSet.of_mask(arr((hh, ww), 'ebsd image', 'b'))
    eb.image = arr((hh, ww), 'ebsd image', 'b')
    eb.lines = Obj()
    wl = Obj()
    calls = []
    warped = PSet.of_mask(arr(tuple(reversed(dic.shape)), 'warped', 'b'))

    def warp_points(im, f, t, output_shape=None, **k):
        calls.append(('points', im, f, t, output_shape))
        return warped.seq()

    def warp_lines(l, f, t, **k):
        calls.append(('lines', l, f, t))
        return wl
    exp.warp_points, exp.warp_lines = warp_points, warp_lines
    b = H.BoundarySet.from_ebsd_boundaries(dic, eb)
    ctx.prove('made for the map', b.dic_map is dic)
    y, x = generic_index(dic.shape, 'g')
    if not calls:
        gy, gx = generic_index((hh, ww), 'e')
        ctx.prove('nothing warped only without boundaries', not_(eb.image.get((gy, gx))))
        same(ctx, 'no points', length(b.points), 0)
        same(ctx, 'no lines', length(b.lines), 0)
        same(ctx, 'empty image', b.image.get((y, x)), False)
        return
    ctx.prove('points and lines are warped', sorted(c[0] for c in calls) == ['lines', 'points'])
    for c in calls:
        ctx.prove('from the EBSD frame to the deformation frame', c[2] is dic.ebsd_map.frame and c[3] is dic.frame)
        if c[0] == 'points':
            ctx.prove('shape of the deformation map', c[4] is dic.shape)
            gy, gx = generic_index((hh, ww), 'e')
            same(ctx, 'the EBSD boundary image is warped', SReal.of(c[1].get((gy, gx))), ite(eb.image.get((gy, gx)), SReal.const(1), SReal.const(0)))
        else:
            ctx.prove('the EBSD lines are warped', c[1] is eb.lines)
    ctx.prove('lines', b.lines is wl)
    same(ctx, 'points', member(b.points, (x, y)), warped.member((x, y)))
    same(ctx, 'image of the points', b.image.get((y, x)), warped.member((x, y)))
