from rac.gen import *
from defdap import ebsd, hrdic


class Obj:
    pass


def edge(mode, p):
    x, y = p
    return ((x + .5, y - .5), (x + .5, y + .5)) if mode == 'x' else ((x - .5, y + .5), (x + .5, y + .5))


def norm(l):
    return tuple(tuple(float(v) for v in p) for p in l)


def images(rng, i, log):
    h, w = (int(v) for v in rng.integers(1, 8, 2))
    dens = rng.choice([0, .05, .3, .8, 1], 2)
    ix, iy = rng.uniform(size=(h, w)) < dens[0], rng.uniform(size=(h, w)) < dens[1]
    log['x'], log['y'] = ix, iy
    m = Obj()
    m.shape = (h, w)
    b = ebsd.BoundarySet.from_image(m, ix, iy)
    for _ in range(2):
        for im, e in ((b.image_x, ix), (b.image_y, iy), (b.image, ix | iy)):
            assert im.shape == (h, w) and im.dtype == bool and np.array_equal(im, e), 'image'
        pts = [sorted((int(x), int(y)) for y, x in zip(*np.nonzero(a))) for a in (ix, iy, ix | iy)]
        for p, e in zip((b.points_x, b.points_y, b.points), pts):
            assert sorted((int(x), int(y)) for x, y in p) == e, 'points'
        e = sorted([edge('x', p) for p in pts[0]] + [edge('y', p) for p in pts[1]])
        assert sorted(map(norm, b.lines)) == [norm(l) for l in e], 'lines'
    B = ebsd.BoundarySet
    assert sorted(map(norm, B.boundary_points_to_lines(boundary_points_x=b.points_x))) == sorted(norm(edge('x', p)) for p in pts[0])
    assert sorted(map(norm, B.boundary_points_to_lines(boundary_points_y=b.points_y))) == sorted(norm(edge('y', p)) for p in pts[1])
    r = B.boundary_points_to_lines(boundary_points_x=b.points_x, boundary_points_y=b.points_y)
    assert len(r) == 3 and list(r[2]) == list(r[0]) + list(r[1])
    assert sorted(map(norm, r[0])) == sorted(norm(edge('x', p)) for p in pts[0]), 'x lines'
    # a set made of segments
    g = [Obj(), Obj()]
    segs = []
    for k in range(int(rng.integers(1, 4))):
        s = ebsd.BoundarySegment(m, g[0], g[1])
        for n, (kind, mode) in enumerate(((0, 'x'), (1, 'y'))):
            for p in pts[n]:
                if rng.integers(2):
                    own = bool(rng.integers(2))
                    s.addBoundaryPoint(p, kind, g[0] if own else g[1])
                    q = (p[0] + 1, p[1]) if kind == 0 else (p[0], p[1] + 1)
                    assert s.boundary_point_pairs(kind)[-1] == ((p, q) if own else (q, p)), 'pair'
        assert sorted(map(norm, s.boundary_lines)) == sorted([norm(edge('x', p)) for p in s.boundary_points_x] +
                                                            [norm(edge('y', p)) for p in s.boundary_points_y]), 'lines of a segment'
        assert len(s) == len(s.boundary_points_x) + len(s.boundary_points_y)
        segs.append(s)
    c = B.from_boundary_segments(segs)
    assert c.points_x == {p for s in segs for p in s.boundary_points_x} and c.points_y == {p for s in segs for p in s.boundary_points_y}
    assert c.ebsd_map is m
    # the set of a deformation map
    d = Obj()
    d.shape = tuple(int(v) for v in rng.integers(1, 8, 2))
    wp = rng.uniform(size=d.shape) < .3
    d.ebsd_map = Obj()
    d.frame, d.ebsd_map.frame = Obj(), Obj()
    d.experiment = Obj()
    got = []

    def warp_points(im, a, t, output_shape=None):
        assert np.array_equal(np.asarray(im, float), (ix | iy).astype(float)) and a is d.ebsd_map.frame and t is d.frame
        assert tuple(output_shape) == d.shape
        return zip(*wp.transpose().nonzero())

    def warp_lines(l, a, t):
        assert a is d.ebsd_map.frame and t is d.frame
        got.append(l)
        return ['warped']
    d.experiment.warp_points, d.experiment.warp_lines = warp_points, warp_lines
    x = hrdic.BoundarySet.from_ebsd_boundaries(d, b)
    if pts[2]:
        assert x.lines == ['warped'] and sorted(map(norm, got[0])) == [norm(l) for l in e]
        assert np.array_equal(x.image, wp), 'image on the deformation map'
        assert sorted((int(a), int(c)) for a, c in x.points) == sorted((int(a), int(c)) for c, a in zip(*np.nonzero(wp)))
    else:
        assert list(x.lines) == [] and len(x.points) == 0 and x.image.shape == d.shape and not x.image.any(), 'empty set'


CASES = {'images': (images, 300)}
