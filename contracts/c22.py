"""C22: frames, increments and transforms between maps."""
from pydv.contract import *
from pydv import arr as A

LEVEL = 'proof'
NOTE = '''Any homologous points, any transform, images of any size, any number of lines. The transforms themselves (scikit-image) enter by their contract; that a
transform estimated from exactly related points reproduces the relation is checked on generated inputs (bounded).'''
ASSUME = [
    'contract of skimage.transform: estimate fits the transform of its class to the two point lists with the given options; inverse is the inverse '
    'map; AffineTransform(matrix=M) has matrix M; warp(image, t, output_shape) gives at pixel (x, y) the value of the image at t(x, y)',
    'skimage.morphology.skeletonize and remove_small_objects return some image of the same shape; skeletonising does not depend on the '
    'position of the frame around the lines (runs only)',
    'bounded, not proved: position of warped points and images for exactly related maps up to 60 x 60, estimated with the real library',
    'floating point is treated as exact real arithmetic',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


class Transform:
    """a transform by its contract"""
    matrix_like = False

    def __init__(self, matrix=None, inv=None):
        c = CTX()
        self.name = c.fresh('transform')
        self.given, self.inv_of, self.points = matrix, inv, None
        if matrix is not None:
            self.params = np.array(matrix)
        elif isinstance(self, Affine):
            self.params = arr((3, 3), self.name)
        self._scale = None

    @property
    def scale(self):
        if self._scale is None:
            self._scale = vec(self.name + 'scale', 2)
            for s in self._scale:
                CTX().fact(s > 0)
        return np.array(self._scale)

    def estimate(self, src, dst, **options):
        CTX().prove('estimated once', self.points is None and self.given is None and self.inv_of is None)
        self.points, self.options = (src, dst), options
        return True

    @property
    def inverse(self):
        return type(self)(inv=self)

    def __call__(self, coords):
        a = np.asarray(coords).snap()
        CTX().prove('a list of points is transformed', len(a.shape) == 2 and not hasattr(self, 'sent'))
        same(CTX(), 'points of two coordinates', a.shape[1], 2)
        self.sent, self.images = a, arr((a.shape[0], 2), self.name + 'of')
        return self.images


class Projective(Transform):
    pass


class Affine(Projective):
    pass


class Piecewise(Transform):
    pass


class Polynomial(Transform):
    pass


KINDS = {'piecewise_affine': Piecewise, 'projective': Projective, 'polynomial': Polynomial, 'affine': Affine}


class TF:
    PiecewiseAffineTransform, ProjectiveTransform, PolynomialTransform, AffineTransform = Piecewise, Projective, Polynomial, Affine

    def __init__(self):
        self.calls = []

    def warp(self, image, transform, output_shape=None, **options):
        a = np.asarray(image)
        sh = a.shape if output_shape is None else output_shape
        if isinstance(sh, SArr):
            sh = tuple(sh.get((k,)) for k in range(2))
        out = arr(tuple(sh), CTX().fresh('warped'))
        self.calls.append((a.snap(), transform, tuple(sh), options, out))
        return out


class MPH:
    def skeletonize(self, image):
        a = np.asarray(image)
        CTX().prove('a mask is thinned', a.d_ == 'b')
        self.before = a.snap()
        self.thin = arr(a.shape, CTX().fresh('thin'), 'b')
        return self.thin

    def remove_small_objects(self, image, min_size=64, connectivity=1, out=None):
        CTX().prove('small pieces are removed from the thinned image', image is self.thin)
        self.cleaned = arr(image.shape, CTX().fresh('clean'), 'b')
        c = self.cleaned
        if out is None:
            return c
        out.buf.write((None, None), None, lambda i: c.get(i))
        return out


def world(ctx, kind='affine', **options):
    X = S().experiment
    X.tf, X.mph = TF(), MPH()
    E = X.Experiment()
    n = dims('points')
    f = []
    for k in (1, 2):
        fr = X.Frame()
        fr.set_homog_points(SSeq(n, lambda i, k=k: (rapp(f'px{k}', [i]), rapp(f'py{k}', [i]))))
        f.append(fr)
    return X, E, f, n


def equal_points(ctx, what, got, frame, n):
    a = np.asarray(got)
    ctx.prove(what + ': list of pairs', len(a.shape) == 2)
    same(ctx, what + ': number', a.shape[0], n)
    k = generic_index((n,), 'k')[0]
    p = frame.homog_points.at(k)
    for j in (0, 1):
        same(ctx, what, a.get((k, j)), p[j])


def kinds(ctx):
    """both directions, for one kind"""


def frames(kind):
    def run(ctx):
        X, E, (f1, f2), n = world(ctx)
        option = rvar('option')
        E.link_frames(f1, f2, {'type': kind, 'option': option})
        T1 = E.get_frame_transform(f1, f2)
        ctx.prove('kind', type(T1) is KINDS[kind])
        ctx.prove('not an inverse', T1.inv_of is None)
        equal_points(ctx, 'from the first points', T1.points[0], f1, n)
        equal_points(ctx, 'onto the second points', T1.points[1], f2, n)
        ctx.prove('options', set(T1.options) == {'option'} and T1.options['option'] is option)
        T2 = E.get_frame_transform(f2, f1)
        ctx.prove('kind', type(T2) is KINDS[kind])
        if kind == 'polynomial':
            ctx.prove('not an inverse', T2.inv_of is None)
            equal_points(ctx, 'from the second points', T2.points[0], f2, n)
            equal_points(ctx, 'onto the first points', T2.points[1], f1, n)
            ctx.prove('options', set(T2.options) == {'option'} and T2.options['option'] is option)
        else:
            I = T2.inv_of
            ctx.prove('inverse', I is not None)
            equal_points(ctx, 'inverse from the first points', I.points[0], f1, n)
            equal_points(ctx, 'inverse onto the second points', I.points[1], f2, n)
            ctx.prove('options', set(I.options) == {'option'} and I.options['option'] is option)
        ctx.prove('the relation is kept', E.frame_relations == {(f1, f2): {'type': kind, 'option': option}})
        f3 = X.Frame()
        for a, b in ((f1, f3), (f3, f2), (f3, f3)):
            try:
                E.get_frame_transform(a, b)
                ctx.prove('frames that are not linked are refused', False)
            except ValueError:
                pass
        E.link_frames(f2, f1, {'type': kind})
        for a, b in ((f1, f2), (f2, f1)):
            try:
                E.get_frame_transform(a, b)
                ctx.prove('frames linked in both senses are refused', False)
            except ValueError:
                pass
    return run


@target('affine', functions=['experiment.Experiment.get_frame_transform', 'experiment.Experiment.link_frames', 'experiment.Frame.set_homog_points'])
def t1(ctx):
    frames('affine')(ctx)


@target('projective', functions=['experiment.Experiment.get_frame_transform'])
def t2(ctx):
    frames('projective')(ctx)


@target('polynomial', functions=['experiment.Experiment.get_frame_transform'])
def t3(ctx):
    frames('polynomial')(ctx)


@target('piecewise', functions=['experiment.Experiment.get_frame_transform'])
def t4(ctx):
    frames('piecewise_affine')(ctx)


@target('image', functions=['experiment.Experiment.warp_image', 'hrdic.Map.warp_to_dic_frame', 'hrdic.Map.link_ebsd_map', 'hrdic.Map.check_ebsd_linked'])
def t5(ctx):
    X, E, (f1, f2), n = world(ctx)
    H = S().hrdic
    d, e = H.Map.__new__(H.Map), Obj()
    d.shape = dims('h', 'w')
    d.experiment, d.frame, e.frame = E, f1, f2
    e.data, d.data = Obj(), Obj()
    derived = []
    d.data.add_derivative = lambda *a, **k: derived.append((a, k))
    d.ebsd_map = None
    src = arr(dims('eh', 'ew'), 'image')
    try:
        d.warp_to_dic_frame(src)
        ctx.prove('refused when not linked', False)
    except Exception as ex:
        ctx.prove('refused when not linked', str(ex) == 'No EBSD map linked.')
    d.link_ebsd_map(e, transform_type='Affine')
    ctx.prove('linked', d.ebsd_map is e and d.check_ebsd_linked() is True)
    ctx.prove('relation from the deformation map', E.frame_relations == {(f1, f2): {'type': 'affine'}})
    ctx.prove('boundaries follow', len(derived) == 1 and derived[0][0][0] is e.data and derived[0][1]['in_props'] == {'type': 'boundaries'})
    out = d.warp_to_dic_frame(src, order=0, preserve_range=True)
    ctx.prove('one warp', len(X.tf.calls) == 1)
    im, tr, sh, opt, res = X.tf.calls[0]
    ctx.prove('the warped image is returned', out is res)
    eq_arrays(ctx, 'the image is warped', im, src)
    for k, l in zip(sh, d.shape):
        same(ctx, 'output shape', k, l)
    ctx.prove('options', opt == dict(order=0, preserve_range=True))
    ctx.prove('pixels of the deformation map are sent into the EBSD map', type(tr) is Affine and tr.inv_of is None)
    equal_points(ctx, 'from the deformation map', tr.points[0], f1, n)
    equal_points(ctx, 'onto the EBSD map', tr.points[1], f2, n)


@target('lines', functions=['experiment.Experiment.warp_lines'])
def t6(ctx):
    X, E, (f1, f2), n = world(ctx)
    E.link_frames(f1, f2, {'type': 'affine'})
    m = dims('lines')
    L = SSeq(m, lambda i: tuple((rapp(f'x{k}', [i]), rapp(f'y{k}', [i])) for k in (0, 1)))
    made = []
    orig = X.Experiment.get_frame_transform
    E.get_frame_transform = lambda a, b: (ctx.prove('direction', a is f1 and b is f2), made.append(orig(E, a, b)), made[-1])[-1]
    out = E.warp_lines(L, f1, f2)
    ctx.prove('one transform', len(made) == 1)
    out = getattr(out, '_seq', out)
    n_out = out.n if isinstance(out, SSeq) else len(out)
    same(ctx, 'number of lines', n_out, m)
    k = generic_index((m,), 'k')[0]
    got = out[k]
    ctx.prove('a pair of points', isinstance(got, tuple) and len(got) == 2 and all(isinstance(p, tuple) and len(p) == 2 for p in got))
    half = SReal.const(1) / 2
    for e, (p, q) in enumerate(zip(got, L.at(k))):
        for j in (0, 1):
            same(ctx, 'the ends of the lines are transformed', made[0].sent.get((2 * k + e, j)), q[j])
            want = made[0].images.get((2 * k + e, j))
            ctx.prove('within half a pixel', and_(p[j] - want <= half, want - p[j] <= half))
            i = A.as_int(p[j] - half)
            ctx.prove('on a pixel edge', i is not None)
@target('border', functions=['experiment.Experiment.warp_image'], def_mode='assume')
def t7(ctx):
    """an affine warp that is not cropped: the same shape change, the frame starts 5% before the image"""
    X, E, (f1, f2), n = world(ctx)
    E.link_frames(f2, f1, {'type': 'affine'})
    src = arr(dims('eh', 'ew'), 'image')
    made = []
    orig = X.Experiment.get_frame_transform
    E.get_frame_transform = lambda a, b: (ctx.prove('direction', a is f2 and b is f1), made.append(orig(E, a, b)), made[-1])[-1]
    out = E.warp_image(src, f1, f2, crop=False, order=0)
    im, tr, sh, opt, res = X.tf.calls[0]
    ctx.prove('the warped image is returned', out is res and len(X.tf.calls) == 1 and len(made) == 1)
    eq_arrays(ctx, 'the image is warped', im, src)
    ctx.prove('options', set(opt) == {'order'})
    t = made[0]
    border(ctx, t, tr, sh, src)
    for i in range(3):
        for j in range(3):
            same(ctx, 'the transform of the frames is not changed', t.params.get((i, j)), rapp(t.name, [i, j]))


def border(ctx, t, tr, sh, src):
    ctx.prove('affine', type(tr) is Affine and tr.given is not None)
    size = (src.shape[1], src.shape[0])
    for i in (0, 1):
        for j in (0, 1):
            same(ctx, 'linear part', tr.params.get((i, j)), t.params.get((i, j)))
        same(ctx, 'border', tr.params.get((i, 2)), -SReal.of(size[i]) / 20)
        same(ctx, 'last row', tr.params.get((2, i)), t.params.get((2, i)))
    same(ctx, 'last row', tr.params.get((2, 2)), t.params.get((2, 2)))
    for i, k in ((1, 0), (0, 1)):
        s = tr.scale.get((i,))
        v = SReal.of(size[i]) * 7 / 5 / s
        ctx.prove('size of the output', and_(sh[k] <= v, v < sh[k] + 1))


def points_target(kind):
    def run(ctx):
        X, E, (f1, f2), n = world(ctx)
        E.link_frames(f2, f1, {'type': kind})
        src = arr(dims('eh', 'ew'), 'image')
        oh, ow = dims('oh', 'ow')
        if kind == 'affine':
            # an affine transform can be inverted
            c = ctx

            class Inv(Affine):
                def estimate(self, *a, **k):
                    p = self.params
                    d = p.get((0, 0)) * p.get((1, 1)) - p.get((0, 1)) * p.get((1, 0))
                    CTX().fact(mk(d != 0))
                    self.params = arr((3, 3), 'A')     # the estimate is the same whenever it is made
                    d = rapp('A', [0, 0]) * rapp('A', [1, 1]) - rapp('A', [0, 1]) * rapp('A', [1, 0])
                    CTX().fact(mk(d != 0))
                    return super().estimate(*a, **k)
            X.tf.AffineTransform = Inv
        out = E.warp_points(src, f1, f2, output_shape=(oh, ow))
        im, tr, sh, opt, res = X.tf.calls[0]
        ctx.prove('one warp', len(X.tf.calls) == 1)
        eq_arrays(ctx, 'the image is warped', im, src)
        clean = X.mph.cleaned
        g = generic_index(clean.shape, 'c')
        same(ctx, 'the warped lines are thinned', X.mph.before.get(g), mk(res.get(g) > SReal.const(1) / 10))
        ps = points_of(out)
        x, y = ivar('x'), ivar('y')
        ctx.fact(and_(x >= 0, x < ow, y >= 0, y < oh))
        if kind != 'affine':
            ctx.prove('not an affine warp', type(tr) is not Affine)
            for a, b in zip(sh, (oh, ow)):
                same(ctx, 'output shape', a, b)
            same(ctx, 'points of the thinned image', ps((x, y)), clean.get((y, x)))
            return
        # a point (x, y) of the new frame is listed if the thinned image has the
        # pixel nearest to its position in the frame with the border
        a = [[rapp('A', [i, j]) for j in range(3)] for i in range(2)]
        size = (src.shape[1], src.shape[0])
        det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
        off = [a[i][2] + SReal.of(size[i]) / 20 for i in (0, 1)]
        sx = (a[1][1] * off[0] - a[0][1] * off[1]) / det
        sy = (a[0][0] * off[1] - a[1][0] * off[0]) / det
        cx, cy = npf_round(sx), npf_round(sy)
        px, py = x + cx, y + cy
        inside = and_(px >= 0, px < clean.shape[1], py >= 0, py < clean.shape[0])
        got = ps((x, y))
        for name, cond in (('', and_(cx >= 0, cy >= 0)), (' (starts left of the border)', and_(cx < 0, cy >= 0)),
                           (' (starts above the border)', and_(cx >= 0, cy < 0)), (' (starts outside of the border)', and_(cx < 0, cy < 0))):
            with ctx.scope([cond, inside]):
                same(ctx, 'points at their place' + name, got, clean.get((py, px)))
            with ctx.scope([cond, not_(inside)]):
                ctx.prove('no points elsewhere' + name, not_(got))
        half = SReal.const(1) / 2
        ctx.prove('nearest pixel', and_(cx - sx <= half, sx - cx <= half, cy - sy <= half, sy - cy <= half))
        # position in the source of that place: that of the point itself
        for i in (0, 1):
            same(ctx, 'same place in the source', a[i][0] * (x + sx) + a[i][1] * (y + sy) - SReal.of(size[i]) / 20, a[i][0] * x + a[i][1] * y + a[i][2])
    return run


def npf_round(v):
    return A.as_int(SReal.of(np.round(v)))


def points_of(out):
    from pydv.loops import domain
    ps = domain(out).ps
    CTX().prove('pairs', ps.dim == 2)
    # (column, row) of the set pixels
    return lambda p: mk(SBool.of(ps.member(p)))


@target('points', functions=['experiment.Experiment.warp_points', 'experiment.Experiment.warp_image'])
def t8(ctx):
    points_target('affine')(ctx)


@target('points_projective', functions=['experiment.Experiment.warp_points', 'experiment.Experiment.warp_image'])
def t9(ctx):
    points_target('projective')(ctx)
@target('homog', functions=['experiment.Frame.update_homog_points', 'experiment.Frame.set_homog_points'])
def t10(ctx):
    """points given as an array of any length"""
    X = S().experiment
    f = X.Frame()
    ctx.prove('no points at first', f.homog_points == [])
    n = dims('points')
    P = arr((n, 2), 'p')
    f.set_homog_points(P)
    ctx.prove('the points given', f.homog_points is P)
    old = lambda k, j: rapp('p', [k, j])
    d = (rvar('dx'), rvar('dy'))
    k, i = generic_index((n,), 'k')[0], generic_index((n,), 'i')[0]
    f.update_homog_points(-1, delta=d)
    for j in (0, 1):
        same(ctx, 'all points are moved', f.homog_points.get((k, j)), old(k, j) + d[j])
    e = (rvar('ex'), rvar('ey'))
    f.update_homog_points(i, delta=e)
    for j in (0, 1):
        same(ctx, 'the chosen point is moved', f.homog_points.get((i, j)), old(i, j) + d[j] + e[j])
    with ctx.scope([k != i]):
        for j in (0, 1):
            same(ctx, 'other points are kept', f.homog_points.get((k, j)), old(k, j) + d[j])
    q = (rvar('qx'), rvar('qy'))
    f.update_homog_points(i, new_point=q)
    for j in (0, 1):
        same(ctx, 'the chosen point is replaced', f.homog_points.get((i, j)), q[j])
    with ctx.scope([k != i]):
        for j in (0, 1):
            same(ctx, 'other points are kept', f.homog_points.get((k, j)), old(k, j) + d[j])
    for bad in (dict(homog_idx=n, delta=d), dict(homog_idx=n + 3, new_point=q), dict(homog_idx='0', delta=d), dict(homog_idx=1.0, delta=d)):
        try:
            f.update_homog_points(**bad)
            ctx.prove('refused', False)
        except Unsupported:
            raise
        except Exception:
            pass
    with ctx.scope([k != i]):
        for j in (0, 1):
            same(ctx, 'nothing changed', f.homog_points.get((k, j)), old(k, j) + d[j])


@target('saved_point', functions=['experiment.Frame.homog_click_save', 'experiment.Frame.update_homog_points'])
def t11(ctx):
    """lists of up to three points; a clicked point is saved in unbinned pixels"""
    X = S().experiment
    for n in range(4):
        f = X.Frame()
        pts = [(ivar(f'x{i}'), ivar(f'y{i}')) for i in range(n)]
        f.set_homog_points(list(pts))
        b = ivar('binning')
        ctx.fact(b >= 1)
        sel = vec('sel', 2)
        plot, layer = Obj(), Obj()
        layer.get_offsets = lambda: np.array([sel])
        shown = []
        plot.img_layers, plot.points_layer_ids = {7: layer}, [3, 7]
        plot.add_points = lambda x, y, update_layer=None: shown.append((x, y, update_layer))
        f.homog_click_save(None, plot, b)
        ctx.prove('one more point', len(f.homog_points) == n + 1 and [q is p for p, q in zip(pts, f.homog_points)] == [True] * n)
        p = f.homog_points[-1]
        half = SReal.const(1) / 2
        for j in (0, 1):
            ctx.prove('whole pixels', isinstance(p[j], (int, SInt)))
            ctx.prove('nearest pixel', and_(p[j] - sel[j] / b <= half, sel[j] / b - p[j] <= half))
        ctx.prove('shown', [x[2] for x in shown] == [1, 0])
        for j in (0, 1):
            for i, q in enumerate(f.homog_points):
                same(ctx, 'shown in pixels of the image', shown[1][j].get((i,)), q[j] * b)
        g = X.Frame()
        g.set_homog_points(list(pts))
        d = (ivar('dx'), ivar('dy'))
        g.update_homog_points(-1, delta=d)
        ctx.prove('same number of points', len(g.homog_points) == n)
        for p, q in zip(pts, g.homog_points):
            for j in (0, 1):
                same(ctx, 'all points are moved', q[j], p[j] + d[j])


@target('increments', functions=['experiment.Experiment.add_increment', 'experiment.Experiment.iter_over_maps', 'experiment.Increment.add_map', 'base.Map.__init__'])
def t12(ctx):
    X, E = S().experiment, S().ebsd
    B = S().base
    B.Path = lambda x: x

    class M(E.Map):
        MAPNAME = 'plain'

        def load_data(self, file_name, data_type=None):
            self.loaded = (file_name, data_type)
    ex = X.Experiment()
    ctx.prove('no increments at first', len(ex.increments) == 0)
    i0 = ex.add_increment(load=1)
    a = B.Map.__init__
    m = [M.__new__(M) for _ in range(5)]
    a(m[0], 'f0', experiment=ex)
    a(m[1], 'f1', increment=i0, map_name='a')
    a(m[2], 'f2', experiment=ex, increment=i0)
    a(m[3], 'f3')
    fr = X.Frame()
    a(m[4], 'f4', experiment=ex, frame=fr, map_name='a')
    ctx.prove('one increment for each map without one', [len(e.increments) for e in (ex,)] == [3])
    ctx.prove('experiment of a map', all(m[k].experiment is ex for k in (0, 1, 2, 4)) and m[3].experiment is not ex)
    ctx.prove('increment of a map', m[1].increment is i0 and m[2].increment is i0 and m[0].increment is ex[1] and m[4].increment is ex[2])
    ctx.prove('increments know their experiment', all(i.experiment is ex for i in ex.increments))
    ctx.prove('metadata', i0.metadata == {'load': 1})
    ctx.prove('frames', m[4].frame is fr and len({id(x.frame) for x in m}) == 5)
    ctx.prove('maps of an increment', i0.maps == {'a': m[1], 'plain': m[2]} and ex[1].maps == {'plain': m[0]} and ex[2].maps == {'a': m[4]})
    ctx.prove('maps of one name in order', list(ex.iter_over_maps('a')) == [(0, m[1]), (2, m[4])])
    ctx.prove('maps of one name in order', list(ex.iter_over_maps('plain')) == [(0, m[2]), (1, m[0])])
    ctx.prove('no map of that name', list(ex.iter_over_maps('x')) == [])
    ctx.prove('loaded', [x.loaded[0] for x in m] == ['f0', 'f1', 'f2', 'f3', 'f4'])
