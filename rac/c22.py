from rac.gen import *
from defdap import ebsd, hrdic
from defdap.experiment import Experiment, Frame, Increment
from skimage import transform as tf
import warnings
warnings.simplefilter('ignore')

KINDS = ('affine', 'projective', 'polynomial', 'piecewise_affine')


class Obj:
    pass


def matrix(rng, kind, mild=False):
    s = .05 if mild else .4
    m = np.eye(3)
    m[:2, :2] += rng.uniform(-s, s, (2, 2))
    m[:2, 2] = rng.uniform(-8, 8, 2)
    if kind == 'projective':
        m[2, :2] = rng.uniform(-.003, .003, 2)
    return m


def apply(m, p):
    q = np.c_[p, np.ones(len(p))] @ m.T
    return q[:, :2] / q[:, 2:]


def grid(rng, n=None):
    """points that determine any of the transforms"""
    base = [(0, 0), (30, 0), (0, 30), (30, 30), (11, 17), (21, 8)]
    pts = np.array(base, float) + rng.uniform(-2, 2, (6, 2))
    return pts


def transforms(rng, i, log):
    """exactly related points are mapped onto each other, in both directions"""
    E = Experiment()
    kind = KINDS[i % 4]
    m = matrix(rng, kind)
    a = grid(rng)
    b = apply(m, a)
    f1, f2 = Frame(), Frame()
    f1.set_homog_points([tuple(p) for p in a])
    f2.set_homog_points(b if rng.integers(2) else [tuple(p) for p in b])
    props = {'type': kind}
    if kind == 'polynomial':
        props['order'] = 1
    log['kind'], log['from'], log['to'] = kind, a, b
    E.link_frames(f1, f2, props)
    hull = a[:4].mean(0) + rng.uniform(-8, 8, (5, 2))
    for f, g, p, q in ((f1, f2, a, b), (f2, f1, b, a)):
        close(E.get_frame_transform(f, g)(np.array(p)), q, 'transform of the points', 1e-6)
    close(E.get_frame_transform(f1, f2)(hull), apply(m, hull), 'transform of other points', 1e-6)
    close(E.get_frame_transform(f2, f1)(apply(m, hull)), hull, 'back', 1e-6)
    assert props == {'type': kind, **({'order': 1} if kind == 'polynomial' else {})}, 'properties changed'
    f3 = Frame()
    for x, y in ((f1, f3), (f3, f2)):
        try:
            E.get_frame_transform(x, y)
        except ValueError:
            continue
        raise AssertionError('frames that are not linked')
    E.link_frames(f2, f1, props)
    try:
        E.get_frame_transform(f1, f2)
    except ValueError:
        pass
    else:
        raise AssertionError('linked in both senses')
    # lines
    E.frame_relations = {(f1, f2): props}
    lines = [tuple((float(x) + .5, float(y) - .5) for x, y in rng.integers(4, 26, (2, 2))) for _ in range(int(rng.integers(1, 6)))]
    got = E.warp_lines(lines, f1, f2)
    assert len(got) == len(lines)
    for l, g in zip(lines, got):
        g = np.array(g)
        assert g.shape == (2, 2) and np.allclose((g + .5) % 1, 0), 'pixel edges'
        assert (np.abs(g - apply(m, np.array(l))) <= .5 + 1e-6).all(), f'line {l} at {g}'
    back = E.warp_lines(got, f2, f1)
    assert len(back) == len(lines)


def quadratic(rng, i, log):
    """a polynomial of second order in one direction; the options matter"""
    E = Experiment()
    p = rng.uniform(0, 10, (12, 2))
    c = rng.uniform(-.02, .02, (2, 3))
    q = p + np.stack([c[k, 0] * p[:, 0] ** 2 + c[k, 1] * p[:, 0] * p[:, 1] + c[k, 2] * p[:, 1] ** 2 for k in (0, 1)], 1)
    f1, f2 = Frame(), Frame()
    f1.set_homog_points(p), f2.set_homog_points(q)
    log['points'] = p
    E.link_frames(f1, f2, {'type': 'polynomial', 'order': 2})
    close(E.get_frame_transform(f1, f2)(p), q, 'second order', 1e-5)
    t = tf.PolynomialTransform()
    t.estimate(q, p, order=2)
    close(E.get_frame_transform(f2, f1)(q), t(q), 'second order, the points exchanged', 1e-6)


def inexact(rng, i, log):
    """points that are not exactly related: the estimate onto the second points, or its inverse"""
    kind = KINDS[i % 4]
    E = Experiment()
    a = np.array([(x, y) for x in (0, 12, 25) for y in (0, 11, 24)], float) + rng.uniform(-2, 2, (9, 2))
    b = a + rng.uniform(-2.5, 2.5, a.shape) * (2 if kind == 'piecewise_affine' else 1)
    f1, f2 = Frame(), Frame()
    f1.set_homog_points(a)
    f2.set_homog_points(b)
    o = int(rng.integers(1, 3))
    opts = {'order': o} if kind == 'polynomial' else {}
    log['kind'], log['from'], log['to'] = kind, a, b
    E.link_frames(f1, f2, {'type': kind, **opts})
    cls = dict(zip(KINDS, (tf.AffineTransform, tf.ProjectiveTransform, tf.PolynomialTransform, tf.PiecewiseAffineTransform)))[kind]
    t = cls()
    t.estimate(a, b, **opts)
    p = a[4] + rng.uniform(-4, 4, (8, 2))
    close(E.get_frame_transform(f1, f2)(p), t(p), 'forwards', 1e-6)
    if kind == 'polynomial':
        u = cls()
        u.estimate(b, a, **opts)
    else:
        u = t.inverse
    close(E.get_frame_transform(f2, f1)(p), u(p), 'backwards', 1e-6)


def image(rng, i, log):
    """a map warped to the deformation frame: whole-pixel offsets, flips and turns"""
    sh, out = tuple(int(v) for v in rng.integers(6, 40, 2)), tuple(int(v) for v in rng.integers(5, 40, 2))
    if i % 2:
        sh = tuple(int(v) for v in rng.choice([20, 40, 60], 2))
    src = rng.uniform(1, 2, sh)
    t = np.eye(3)
    t[:2, :2] = [[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1], [1, 0]], [[-1, 0], [0, 1]]][int(rng.integers(4))]
    t[:2, 2] = rng.integers(-6, 12, 2)
    d, e = hrdic.Map.__new__(hrdic.Map), Obj()
    d.shape, d.ebsd_map = out, None
    d.experiment = Experiment()
    d.frame, e.frame = Frame(), Frame()
    from defdap.utils import Datastore
    e.data, d.data = Datastore(), Datastore()
    a = np.array([(0, 0), (10, 0), (0, 10), (7, 9)], float)
    d.frame.set_homog_points(a)
    e.frame.set_homog_points(apply(t, a))
    try:
        d.warp_to_dic_frame(src)
    except Exception:
        pass
    else:
        raise AssertionError('not linked')
    kind = ('affine', 'Affine', 'projective', 'polynomial')[int(rng.integers(4))]
    log['kind'], log['matrix'], log['shapes'] = kind, t, (sh, out)
    d.link_ebsd_map(e, transform_type=kind, **({'order': 1} if kind == 'polynomial' else {}))
    assert d.check_ebsd_linked() is True
    got = d.warp_to_dic_frame(src, order=0, cval=-1.)
    assert got.shape == out
    y, x = np.indices(out)
    sx, sy = (np.rint(v).astype(int) for v in (t[0, 0] * x + t[0, 1] * y + t[0, 2], t[1, 0] * x + t[1, 1] * y + t[1, 2]))
    ok = (sx >= 0) & (sx < sh[1]) & (sy >= 0) & (sy < sh[0])
    edge = (sx == 0) | (sx == sh[1] - 1) | (sy == 0) | (sy == sh[0] - 1)
    ok2 = ok & ~edge
    want = np.where(ok, src[np.clip(sy, 0, sh[0] - 1), np.clip(sx, 0, sh[1] - 1)], -1.)
    use = ok2 | ~ok
    close(np.where(use, got, 0), np.where(use, want, 0), 'warped image', 1e-6)
    # without cropping, the whole image is shown and its shape kept
    if kind.lower() == 'affine' and abs(t[0, 0]) and t[0, 0] > 0:
        g = d.experiment.warp_image(src, e.frame, d.frame, crop=False, order=0)
        w = np.array(sh)
        assert all(abs(v - 1.4 * n) < 1.01 for v, n in zip(g.shape, w)), f'{g.shape}'
        if i % 2 and (t[:2, :2] == np.eye(2)).all():
            by, bx = sh[0] // 20, sh[1] // 20
            want = np.zeros(g.shape)
            want[by:by + sh[0], bx:bx + sh[1]] = src
            close(g[1 + by:by + sh[0] - 1, 1 + bx:bx + sh[1] - 1], src[1:-1, 1:-1], 'whole image, 5% border', 1e-6)
            assert not g[:by].any() and not g[:, :bx].any() and not g[by + sh[0]:].any() and not g[:, bx + sh[1]:].any(), 'border'


def whole(rng, i, log):
    """the whole image, of different pixel sizes in x and y, with a border of 5 %"""
    sh = tuple(int(v) for v in rng.choice([20, 40, 60, 80], 2))
    sx, sy = (int(v) for v in rng.choice([1, 2, 3], 2))
    E = Experiment()
    f1, f2 = Frame(), Frame()
    a = np.array([(0, 0), (10, 0), (0, 10), (7, 9)], float)
    off = rng.integers(-9, 10, 2)
    f1.set_homog_points(a * (sx, sy) + off)
    f2.set_homog_points(a)
    E.link_frames(f1, f2, {'type': 'affine'})
    src = rng.uniform(1, 2, sh)
    log['shape'], log['scale'], log['offset'] = sh, (sx, sy), off
    # every pixel of the result is sx by sy pixels of the image
    g = E.warp_image(src, f1, f2, crop=False, order=0)
    want = (int(sh[0] * 1.4 / sy), int(sh[1] * 1.4 / sx))
    assert all(abs(v - n) <= 1 for v, n in zip(g.shape, want)), f'size {g.shape}, expected {want}'
    y, x = np.indices(g.shape)
    py, px = y * sy - sh[0] // 20, x * sx - sh[1] // 20
    ok = (py > 0) & (py < sh[0] - 1) & (px > 0) & (px < sh[1] - 1)
    out = (py < -1) | (py > sh[0]) | (px < -1) | (px > sh[1])
    e = src[np.clip(py, 0, sh[0] - 1), np.clip(px, 0, sh[1] - 1)]
    close(np.where(ok, g, 0), np.where(ok, e, 0), 'whole image', 1e-6)
    assert not g[out].any(), 'border'


def sheared(rng, i, log):
    """boundary points sent through a sheared frame"""
    sh = tuple(int(v) for v in rng.choice([40, 60], 2))
    im = np.zeros(sh, bool)
    if rng.integers(2):
        im[int(rng.integers(10, sh[0] - 10)), 2:-2] = True
    else:
        im[2:-2, int(rng.integers(10, sh[1] - 10))] = True
    t = np.eye(3)
    s = rng.uniform(.1, .25) * rng.choice([-1, 1])
    t[(0, 1) if i % 2 else (1, 0)] = s
    t[:2, 2] = rng.integers(-25, 26, 2) if rng.integers(2) else rng.integers(-5, 6, 2)
    E = Experiment()
    fd, fe = Frame(), Frame()
    a = np.array([(0, 0), (10, 0), (0, 10), (7, 9)], float)
    fe.set_homog_points(a)
    fd.set_homog_points(apply(t, a))
    E.link_frames(fd, fe, {'type': 'affine'})
    log['matrix'], log['shape'], log['line'] = t, sh, np.argwhere(im)[0]
    got = np.array([(int(x), int(y)) for x, y in E.warp_points(im.astype(float), fe, fd, output_shape=sh)], float).reshape(-1, 2)
    want = apply(t, np.argwhere(im)[:, ::-1].astype(float))
    far = lambda p, q: np.abs(p[:, None] - q[None]).max(2).min(1) if len(p) and len(q) else np.full(len(p), np.inf)
    wrong = got[far(got, want) > 2.5]
    assert not len(wrong), f'{wrong[:5]} are no boundary points'
    # the middle of the line, where it is well inside of the map and of the image that is warped
    mid = want[8:-8]
    mid = mid[(mid[:, 0] > 4) & (mid[:, 0] < sh[1] - 5) & (mid[:, 1] > 4) & (mid[:, 1] < sh[0] - 5)]
    y, x = mid[:, 1] - t[1, 2], mid[:, 0] - t[0, 2]
    mid = mid[(x > 2 - .05 * sh[1]) & (x < 1.25 * sh[1]) & (y > 2 - .05 * sh[0]) & (y < 1.25 * sh[0])]
    lost = mid[far(mid, got) > 2.5]
    assert not len(lost), f'lost {lost[:5]}'


def points(rng, i, log):
    """boundary points and lines of an EBSD map in the deformation frame"""
    exact = bool(rng.integers(2))
    sh = tuple(int(v) for v in (rng.choice([20, 40, 60], 2) if exact else rng.integers(18, 60, 2)))
    if i % 5 == 0:
        sh = (20, 200) if i % 2 else (200, 20)
    im = np.zeros(sh, bool)
    r, c = int(rng.integers(4, sh[0] - 4)), int(rng.integers(4, sh[1] - 4))
    if rng.integers(2):
        im[r, 2:-2] = True
    else:
        im[2:-2, c] = True
    off = rng.integers(-9, 10, 2)
    E = Experiment()
    fd, fe = Frame(), Frame()
    a = np.array([(0, 0), (10, 0), (0, 10), (7, 9)], float)
    fe.set_homog_points(a)
    fd.set_homog_points(a + off)
    kind = ('affine', 'affine', 'projective')[int(rng.integers(3))]
    E.link_frames(fd, fe, {'type': kind})
    out = tuple(int(v) for v in np.array(sh) + rng.integers(-5, 6, 2))
    log['offset'], log['shape'], log['line'], log['out'] = off, sh, np.argwhere(im)[0], out
    got = {(int(x), int(y)) for x, y in E.warp_points(im.astype(float), fe, fd, output_shape=out)}
    want = {(int(x + off[0]), int(y + off[1])) for y, x in np.argwhere(im)}
    assert all(0 <= x < out[1] and 0 <= y < out[0] for x, y in got), 'points outside of the map'
    tol = 0 if all(n % 20 == 0 for n in sh) else 1
    near = lambda p, s: any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for q in s)
    lost = [p for p in want if 3 <= p[0] < out[1] - 3 and 3 <= p[1] < out[0] - 3 and not near(p, got)]
    ends = 2 if tol else 0
    lost = [p for p in lost if not ends or sum((p[0] + u, p[1] + v) in want for u in (-1, 0, 1) for v in (-1, 0, 1)) > 2]
    visible = sum(0 <= x < out[1] and 0 <= y < out[0] for x, y in want)
    if kind == 'affine' or visible == len(want):
        assert not lost, f'lost {lost[:5]} of {len(want)}'
    wrong = [p for p in got if not near(p, want)]
    assert not wrong, f'{wrong[:5]} are no boundary points'
    # the same through the deformation map
    d = Obj()
    d.experiment, d.frame, d.shape, d.ebsd_map = E, fd, out, Obj()
    d.ebsd_map.frame = fe
    b = Obj()
    b.image, b.points = im, [(int(x), int(y)) for y, x in np.argwhere(im)]
    b.lines = [((x + .5, y - .5), (x + .5, y + .5)) for x, y in b.points]
    s = hrdic.BoundarySet.from_ebsd_boundaries(d, b)
    assert s.points == got and s.image.shape == out
    close(np.array(s.lines), np.array(b.lines) + off, 'lines', 1e-6)
    b.points = []
    s = hrdic.BoundarySet.from_ebsd_boundaries(d, b)
    assert len(s.points) == 0 and len(s.lines) == 0


def structure(rng, i, log):
    """experiments, increments, frames and homologous points"""
    E = Experiment()

    class M(ebsd.Map):
        MAPNAME = 'm'

        def load_data(self, f, data_type=None):
            pass
    from defdap import base
    want, incs, maps = [], [], []
    for k in range(int(rng.integers(1, 7))):
        m = M.__new__(M)
        name = str(rng.choice(['a', 'b', 'm']))
        mode = int(rng.integers(3))
        if mode == 0 or not incs:
            base.Map.__init__(m, 'f', experiment=E, map_name=name)
            incs.append(m.increment)
            want.append({})
            j = len(incs) - 1
        else:
            j = int(rng.integers(len(incs)))
            base.Map.__init__(m, 'f', increment=incs[j], map_name=None if name == 'm' else name)
        want[j][name] = m
        assert m.experiment is E and m.increment is incs[j]
        maps.append(m)
    assert len(E.increments) == len(incs) and all(E[k] is x for k, x in enumerate(incs))
    assert [x.maps for x in incs] == want
    assert len({id(m.frame) for m in maps}) == len(maps)
    for n in 'abm':
        assert list(E.iter_over_maps(n)) == [(k, w[n]) for k, w in enumerate(want) if n in w], 'maps of one name'
    f = Frame()
    n = int(rng.integers(0, 6))
    pts = [tuple(int(v) for v in rng.integers(-50, 50, 2)) for _ in range(n)]
    log['points'] = pts
    f.set_homog_points(list(pts))
    d = tuple(int(v) for v in rng.integers(-9, 9, 2))
    f.update_homog_points(homog_idx=-1, delta=d)
    pts = [(x + d[0], y + d[1]) for x, y in pts]
    assert list(f.homog_points) == pts, 'all moved'
    for _ in range(3):
        if n:
            k = int(rng.integers(n))
            if rng.integers(2):
                f.update_homog_points(k, delta=d)
                pts[k] = (pts[k][0] + d[0], pts[k][1] + d[1])
            else:
                f.update_homog_points(k, new_point=(3, k))
                pts[k] = (3, k)
            assert list(f.homog_points) == pts, 'one moved'
    for bad in (n, 1.5):
        try:
            f.update_homog_points(bad, delta=d)
        except Exception:
            pass
        else:
            raise AssertionError('accepted')
        assert list(f.homog_points) == pts
    b = int(rng.integers(1, 5))
    sel = rng.uniform(0, 60, 2)
    plot, layer, shown = Obj(), Obj(), []
    layer.get_offsets = lambda: np.array([sel])
    plot.img_layers, plot.points_layer_ids = [None, layer], [0, 1]
    plot.add_points = lambda x, y, update_layer=None: shown.append((x, y, update_layer))
    f.homog_click_save(None, plot, b)
    assert len(f.homog_points) == n + 1 and list(f.homog_points)[:n] == pts
    close(f.homog_points[-1], np.round(sel / b), 'saved point')
    close(shown[-1][0], np.array(f.homog_points)[:, 0] * b, 'shown')
    close(shown[-1][1], np.array(f.homog_points)[:, 1] * b, 'shown')


def documented(rng, i, log):
    """the transform types of link_ebsd_map"""
    for name in ('affine', 'piecewiseAffine', 'polynomial'):
        d, e = hrdic.Map.__new__(hrdic.Map), Obj()
        from defdap.utils import Datastore
        d.shape, d.experiment, d.frame, e.frame = (20, 20), Experiment(), Frame(), Frame()
        e.data, d.data = Datastore(), Datastore()
        a = grid(rng)
        log['points'] = a
        d.frame.set_homog_points(a)
        e.frame.set_homog_points(a)
        d.link_ebsd_map(e, transform_type=name, **({'order': 1} if name == 'polynomial' else {}))
        src = rng.uniform(1, 2, (30, 30))
        got = d.warp_to_dic_frame(src, order=0)
        close(got[8:15, 8:15], src[8:15, 8:15], name, 1e-6)


CASES = {'inexact': (inexact, 40), 'whole': (whole, 30), 'sheared': (sheared, 40), 'transforms': (transforms, 60), 'quadratic': (quadratic, 10), 'image': (image, 90), 'points': (points, 60),
         'structure': (structure, 60), 'documented': (documented, 6)}
