from rac.gen import *
from rac.c15 import pair
from rac.c19 import some_map, points
from defdap import hrdic, ebsd


def extents(rng, i, log):
    m, n = some_map(rng, log)
    for g in m:
        pts = np.array(points(g))
        x0, y0 = pts.min(0)
        x1, y1 = pts.max(0)
        assert tuple(int(v) for v in g.extreme_coords) == (x0, y0, x1, y1)
        for gc in (True, False):
            off = (x0, y0) if gc else (0, 0)
            for kind, e in (('box', ((x0 + x1) / 2, (y0 + y1) / 2)), ('com', pts.mean(0))):
                c = g.centre_coords(kind, grain_coords=gc)
                assert all(type(v) is int for v in c)
                assert all(abs(v + o - t) <= .5 + 1e-9 for v, o, t in zip(c, off, e)), f'{kind} centre'
        ins = np.zeros((y1 - y0 + 1, x1 - x0 + 1), bool)
        ins[pts[:, 1] - y0, pts[:, 0] - x0] = True
        o = g.grain_outline()
        assert np.array_equal(o, np.where(ins, 0, np.nan), equal_nan=True), 'outline'
        o = g.grain_outline(bg=0, fg=1)
        assert np.array_equal(o, ins.astype(int)) and o.dtype.kind == 'i', 'outline'
        assert np.array_equal(g.grain_outline(bg=7, fg=-2), np.where(ins, -2, 7)), 'outline'


def network(rng, i, log):
    h, w = (int(v) for v in rng.integers(3, 11, 2))
    m, phase, euler, lab = random_ebsd(rng, h, w, spread=float(rng.choice([0, .02])))
    log.update(phase=phase, euler=euler)
    quiet(m.data.generate, 'grains', min_grain_size=int(rng.choice([1, 2, 5])))
    if len(m) == 0:
        return
    b = m.data.grain_boundaries
    im = np.asarray(m.data.grains)
    if rng.integers(3) == 0:
        # any boundary points, and any labels
        b = ebsd.BoundarySet(m, {(int(x), int(y)) for x, y in rng.integers(0, [w, h], (40, 2))}, {(int(x), int(y)) for x, y in rng.integers(0, [w, h], (40, 2))})
        m.data.grain_boundaries = b
        im = rng.integers(-2, len(m) + 1, (h, w))
        m.data.grains = im
    log['labels'] = im
    for r in range(2):
        quiet(m.build_neighbour_network)
        nn = m.neighbour_network
        assert set(nn.nodes) == set(m), 'all grains'
        exp = {}
        for kind, pts in enumerate((b.points_x, b.points_y)):
            for x, y in pts:
                if 0 < x < w - 1 and 0 < y < h - 1:
                    p, q = int(im[y, x]), int(im[y + kind, x + 1 - kind])
                    if p > 0 and q > 0 and p != q:
                        exp.setdefault(frozenset((p - 1, q - 1)), [{}, {}])[kind][(x, y)] = p - 1
        got = {frozenset((a.grain_id, c.grain_id)) for a, c in nn.edges}
        assert got == set(exp), f'neighbours {got} expected {set(exp)}'
        for (a, c), e in exp.items():
            s = nn[m[a]][m[c]]['boundary']
            assert {s.grain1.grain_id, s.grain2.grain_id} == {a, c}
            for pts, own, ee in ((s.boundary_points_x, s.boundary_point_owners_x, e[0]), (s.boundary_points_y, s.boundary_point_owners_y, e[1])):
                assert len(pts) == len(own) == len(ee) and set(pts) == set(ee), 'points of the segment'
                for p, o in zip(pts, own):
                    assert bool(o) == (ee[p] == s.grain1.grain_id), 'owner'
            assert len(s) == len(e[0]) + len(e[1])
            for kind, prs in enumerate((s.boundary_point_pairs_x, s.boundary_point_pairs_y)):
                assert len(prs) == len(e[kind])
                for f, l in prs:
                    assert im[f[1], f[0]] == s.grain1.grain_id + 1 and im[l[1], l[0]] == s.grain2.grain_id + 1, 'pairs'
                    first = min(f, l)
                    assert first in e[kind] and max(f, l) == (first[0] + 1 - kind, first[1] + kind)
            lines = sorted(tuple(sorted(tuple(map(float, t)) for t in l)) for l in s.boundary_lines)
            el = [((x + .5, y - .5), (x + .5, y + .5)) for x, y in e[0]] + [((x - .5, y + .5), (x + .5, y + .5)) for x, y in e[1]]
            assert lines == sorted(el), 'lines'


def deformation(rng, i, log):
    h, w = (int(v) for v in rng.integers(3, 13, 2))
    b = rng.uniform(size=(h, w)) < rng.choice([.1, .3, .5])
    if rng.integers(3) == 0:
        b[:, w // 2] = True
    log['boundary'] = b
    m, eb, dx, dy = pair(rng, h, w)
    pts = [(int(x), int(y)) for y, x in zip(*np.nonzero(b))]
    m.data.add('grain_boundaries', hrdic.BoundarySet(m, pts, []), type='boundaries')
    m.link_ebsd_map(eb)
    quiet(eb.data.generate, 'grains', min_grain_size=1)
    quiet(m.data.generate, 'grains', algorithm='floodfill', min_grain_size=int(rng.choice([1, 3])))
    im = np.asarray(m.data.grains)
    if len(m) and rng.integers(3) == 0:
        im = rng.integers(-2, len(m) + 1, (h, w))
        m.data.grains = im
    log['labels'] = im
    quiet(m.build_neighbour_network)
    exp = set()
    for x, y in pts:
        if 0 < x < w - 1 and 0 < y < h - 1:
            near = {int(v) - 1 for v in (im[y + 1, x], im[y - 1, x], im[y, x + 1], im[y, x - 1]) if v > 0}
            exp |= {frozenset((p, q)) for p in near for q in near if p != q}
    assert set(m.neighbour_network.nodes) == set(m)
    got = {frozenset((a.grain_id, c.grain_id)) for a, c in m.neighbour_network.edges}
    assert got == exp, f'neighbours {got} expected {exp}'


CASES = {'extents': (extents, 60), 'network': (network, 80), 'deformation': (deformation, 60)}
