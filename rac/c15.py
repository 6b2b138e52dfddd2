from rac.gen import *
from rac.c14 import sizes, regions
from defdap import hrdic, ebsd
from defdap.experiment import Experiment
from defdap._accelerated import flood_fill_dic


def pair(rng, h, w, shift=None, shape=None):
    """a deformation map of the given size and an EBSD map with grains, related by a shift of whole pixels:
    pixel (x, y) of the deformation map lies on pixel (x + dx, y + dy) of the EBSD map"""
    dic = dic_map(rng.normal(size=(2, h, w)))
    eh, ew = shape or (int(rng.integers(3, 12)), int(rng.integers(3, 12)))
    dx, dy = shift if shift is not None else (int(rng.integers(-2, 3)), int(rng.integers(-2, 3)))
    eb, phase, euler, lab = random_ebsd(rng, eh, ew)
    exp = dic.experiment
    eb.experiment = exp
    p = np.array([(0, 0), (10, 0), (0, 10), (10, 10)])
    dic.frame.homog_points = p.tolist()
    eb.frame.homog_points = (p + [dx, dy]).tolist()
    return dic, eb, dx, dy


def grains_of(dic, im):
    """image and point lists agree; numbers without gaps"""
    gr = list(dic)
    assert len(gr) == len(dic)
    sets = []
    for k, g in enumerate(gr):
        pts = [(int(x), int(y)) for x, y in g.data.point]
        s = set(pts)
        assert len(s) == len(pts) == len(g) > 0, 'points listed once'
        assert {(int(x), int(y)) for y, x in zip(*np.nonzero(im == k + 1))} == s, 'image and points of a grain'
        assert g.grain_id == k and g.dic_map is dic and g.ebsd_map is dic.ebsd_map
        sets.append(s)
    assert im.shape == dic.shape
    assert set(np.unique(im)) - {0, -1, -2} == set(range(1, len(gr) + 1)), 'numbers'
    return gr, sets


def flood(rng, i, log):
    h, w = (max(2, v) for v in sizes(rng))      # the loader refuses files with one row or column
    d = rng.choice([0, .1, .3, .5, .8, 1])
    big = i % 15 == 7
    if big:
        h, w = (int(v) for v in rng.integers(20, 34, 2))
        d = rng.choice([0, .02])
    b = rng.uniform(size=(h, w)) < d
    mins = int(rng.choice([0, 1, 2, 3, 6, 10, 200]))
    dic, eb, dx, dy = pair(rng, h, w, shape=(h + 4, w + 4) if big else None)
    log['boundary'], log['min'] = b, mins
    pts = [(int(x), int(y)) for y, x in zip(*np.nonzero(b))]
    dic.data.add('grain_boundaries', hrdic.BoundarySet(dic, pts, []), type='boundaries')
    dic.link_ebsd_map(eb)
    quiet(eb.data.generate, 'grain_boundaries')
    quiet(eb.data.generate, 'grains', min_grain_size=int(rng.choice([1, 4])))
    log['ebsd grains'] = np.asarray(eb.data.grains)
    for r in range(2):
        quiet(dic.data.generate, 'grains', algorithm='floodfill', min_grain_size=mins)
        im = np.asarray(dic.data.grains)
        gr, sets = grains_of(dic, im)
        # regions of pixels that are no boundary
        comp = regions(~b, np.pad(b[:, :-1] | b[:, 1:], ((0, 0), (0, 1)), constant_values=True),
                       np.pad(b[:-1] | b[1:], ((0, 1), (0, 0)), constant_values=True))
        owner = {p: k for k, c in enumerate(comp) for p in c}
        assert sum(len({owner[p] for p in s if p in owner} ) == 1 for s in sets) == len(sets), 'a grain is one region'
        for c in comp:
            v = {int(im[y, x]) for x, y in c}
            assert len(v) == 1, 'a region is cut'
            v = v.pop()
            # boundary pixels to the right of or below a pixel of the region may belong to it
            near = {q for x, y in c for q in ((x + 1, y), (x, y + 1)) if q[0] < w and q[1] < h and b[q[1], q[0]]}
            if v > 0:
                assert len(sets[v - 1]) >= mins and sets[v - 1] - c <= near, 'grain'
            else:
                assert v == -2 and len(c) < max(mins, 1), 'flagged as too small'
                assert all(any(im[q[1], q[0]] != -1 for q in [p]) for p in near)
        for x, y in pts:
            ok = {-1} if not any(0 <= x + a < w and 0 <= y + e < h and not b[y + e, x + a] for a, e in ((-1, 0), (0, -1))) else \
                {int(im[y + e, x + a]) for a, e in ((-1, 0), (0, -1)) if 0 <= x + a < w and 0 <= y + e < h and not b[y + e, x + a]}
            assert int(im[y, x]) in ok, f'boundary pixel {(x, y)}'
        # each grain is linked to the EBSD grain that covers most of it
        e = np.asarray(eb.data.grains)
        for g, s in zip(gr, sets):
            n = {}
            for x, y in s:
                if 0 <= x + dx < e.shape[1] and 0 <= y + dy < e.shape[0] and e[y + dy, x + dx] > 0:
                    k = int(e[y + dy, x + dx])
                    n[k] = n.get(k, 0) + 1
            if n:
                assert g.ebsd_grain is not None and n.get(g.ebsd_grain.grain_id + 1, 0) == max(n.values()), 'linked EBSD grain'
                assert g.ebsd_grain is eb[g.ebsd_grain.grain_id]
            else:
                assert g.ebsd_grain is None, 'linked without overlap'


def warp(rng, i, log):
    h, w = (int(v) for v in rng.integers(2, 13, 2))
    dic, eb, dx, dy = pair(rng, h, w)
    dic.link_ebsd_map(eb)
    quiet(eb.data.generate, 'grain_boundaries')
    mins = int(rng.choice([1, 1, 4]))
    quiet(eb.data.generate, 'grains', min_grain_size=mins)
    e = np.asarray(eb.data.grains)
    log['ebsd grains'], log['shift'], log['shape'] = e, (dx, dy), (h, w)
    for r in range(2):
        quiet(dic.data.generate, 'grains', algorithm='warp')
        im = np.asarray(dic.data.grains)
        gr, sets = grains_of(dic, im)
        ids = []
        for g, s in zip(gr, sets):
            v = {int(e[y + dy, x + dx]) for x, y in s if 0 <= x + dx < e.shape[1] and 0 <= y + dy < e.shape[0]}
            assert len(v) == 1 and g.ebsd_grain is eb[next(iter(v)) - 1], 'linked to the EBSD grain covering it'
            ids.append(next(iter(v)))
        assert ids == sorted(set(ids)), 'numbered in the order of the EBSD grains'
        for y in range(h):
            for x in range(w):
                k = int(e[y + dy, x + dx]) if 0 <= x + dx < e.shape[1] and 0 <= y + dy < e.shape[0] else 0
                if k > 0:
                    assert im[y, x] == ids.index(k) + 1, f'pixel {(x, y)}'
                else:
                    assert im[y, x] == k, f'pixel {(x, y)} without a grain'


def fill(rng, i, log):
    h, w = sizes(rng)
    b = rng.uniform(size=(h, w)) < rng.choice([0, .2, .4])
    log['boundary'] = b
    G = -b.astype(int)
    P = ~b
    buf = np.zeros((h * w, 2), np.intp)
    done = []
    k = 0
    while P.any():
        k += 1
        y, x = (int(v) for v in np.argwhere(P)[rng.integers(P.sum())])
        g0, p0 = G.copy(), P.copy()
        out = flood_fill_dic((x, y), k, P, G, buf)
        pts = [tuple(int(v) for v in p) for p in out]
        assert pts[0] == (x, y) and len(set(pts)) == len(pts)
        for a, c in pts:
            assert g0[c, a] in (0, -1)
            g0[c, a] = k
            p0[c, a] = False
        assert np.array_equal(G, g0) and np.array_equal(P, p0), 'image'
        done.append((out, pts))
        buf = buf[len(out):]
    for out, pts in done:
        assert [tuple(int(v) for v in p) for p in out] == pts, 'points change later'


CASES = {'flood': (flood, 120), 'warp': (warp, 80), 'fill': (fill, 150)}
