from rac.gen import *
from rac.c15 import pair
from defdap import hrdic
from defdap.quat import Quat


def some_map(rng, log):
    """an EBSD or deformation map with grains and extra data of each order"""
    if rng.integers(3):
        h, w = (int(v) for v in rng.integers(1, 10, 2))
        m, phase, euler, lab = random_ebsd(rng, h, w, spread=0.01)
        log.update(phase=phase, euler=euler)
        quiet(m.data.generate, 'grains', min_grain_size=int(rng.choice([1, 2, 5])))
    else:
        h, w = (int(v) for v in rng.integers(4, 14, 2))
        b = rng.uniform(size=(h, w)) < rng.choice([.1, .3])
        m, eb, dx, dy = pair(rng, h, w)
        if rng.integers(2):
            m.set_crop(left=1, top=1)
        b = b[:m.shape[0], :m.shape[1]]
        log['boundary'] = b
        pts = [(int(x), int(y)) for y, x in zip(*np.nonzero(b))]
        m.data.add('grain_boundaries', hrdic.BoundarySet(m, pts, []), type='boundaries')
        m.link_ebsd_map(eb)
        quiet(eb.data.generate, 'grains', min_grain_size=1)
        quiet(m.data.generate, 'grains', algorithm='floodfill', min_grain_size=1)
    full = ((m.ydim, m.xdim) if isinstance(m, hrdic.Map) else m.shape)     # data is stored for the full map
    for k, lead in enumerate([(), (3,), (2, 3)]):
        m.data.add(f'extra{k}', rng.normal(size=(*lead, *full)), type='map', order=k)
    m.data.add('count', rng.integers(0, 9, full), type='map', order=0)
    return m, len(m)


def points(g):
    return [(int(x), int(y)) for x, y in g.data.point]


def values(rng, i, log):
    m, n = some_map(rng, log)
    ebsd = hasattr(m, 'phases')
    names = ['extra0', 'extra1', 'extra2', 'count'] + (['band_contrast', 'euler_angle', 'phase', 'orientation'] if ebsd else ['e', 'max_shear'])
    for g in m:
        pts = points(g)
        for name in names:
            a, l = quiet(lambda: (np.asarray(m.data[name]), np.asarray(g.data[name])))
            assert l.shape == a.shape[:-2] + (len(pts),), name
            for k, (x, y) in enumerate(pts):
                assert np.array_equal(l[..., k], a[..., y, x]) if name != 'orientation' else l[k] is a[y, x], f'{name} at {(x, y)}'
            comps = dict(extra1=[(0,), (2,), 'norm'], extra2=[(0, 1), (1, 2), 'norm'], extra0=[None]).get(name, [])
            if name == 'euler_angle':
                comps = ['all_euler']
            if name == 'orientation':
                comps = ['IPF_x', 'ipf_y', 'IPF_Z']
            for c in comps:
                im, li = quiet(m._extract_component, a, c), quiet(g._extract_component, l, c)
                for k, (x, y) in enumerate(pts):
                    if im.ndim == 2:
                        close(li[k], im[y, x], f'{name} {c}')
                    elif m.data.phase[y, x] > 0:
                        close(li[k], im[y, x], f'{name} {c}')
                if c == 'norm':
                    close(im, np.sqrt((a ** 2).reshape(-1, *m.shape).sum(0)), 'norm')
    if ebsd:
        o = m.data.orientation
        bg = rng.uniform(size=3)
        im = quiet(m.calc_ipf_colour, o, np.array([0, 0, 1]), bg_colour=bg)
        ie = quiet(m.calc_euler_colour, m.data.euler_angle, bg_colour=bg)
        for y in range(m.shape[0]):
            for x in range(m.shape[1]):
                p = m.data.phase[y, x]
                if p == 0:
                    close(im[y, x], bg, 'not indexed')
                    close(ie[y, x], bg, 'not indexed')
                    continue
                s = m.phases[p - 1].crystal_structure.name
                close(im[y, x], Quat.calc_ipf_colours(o[y:y + 1, x], np.array([0, 0, 1]), s)[:, 0], 'colour by phase')
                norm = {'cubic': [2 * np.pi, np.pi / 2, np.pi / 2], 'hexagonal': [np.pi, np.pi, np.pi / 3]}[s]
                close(ie[y, x], m.data.euler_angle[:, y, x] / norm, 'Euler colour by phase')


def images(rng, i, log):
    m, n = some_map(rng, log)
    for g in m:
        pts = points(g)
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        x1, y1 = max(p[0] for p in pts), max(p[1] for p in pts)
        for kw, d, bg in ((dict(map_data=m.data.extra0), None, np.nan), (dict(grain_data=rng.normal(size=len(pts))), None, -5.),
                          (dict(map_data=m.data.count), None, -1), (dict(grain_data=rng.normal(size=(len(pts), 3))), None, np.nan),
                          (dict(map_data=m.data.extra0, grain_data=rng.normal(size=len(pts))), None, np.nan)):
            d = kw.get('grain_data')
            if d is None:
                d = np.array([kw['map_data'][y, x] for x, y in pts])
            im = g.grain_map_data(bg=bg, **kw)
            e = np.full((y1 - y0 + 1, x1 - x0 + 1) + d.shape[1:], bg, dtype=d.dtype)
            for (x, y), v in zip(pts, d):
                e[y - y0, x - x0] = v
            assert im.shape == e.shape and im.dtype == e.dtype and np.array_equal(im, e, equal_nan=im.dtype.kind == 'f'), 'grain image'


def averages(rng, i, log):
    m, n = some_map(rng, log)
    if n == 0:
        return
    ids = [int(v) for v in rng.permutation(n)[:rng.integers(0, n + 1)]]
    log['ids'] = ids
    a = m.data.extra0
    every = m.calc_grain_average(a)
    assert every.shape == (n,)
    for k in range(n):
        close(every[k], np.mean([a[y, x] for x, y in points(m[k])]), 'average')
    close(m.calc_grain_average(a, grain_ids=ids), every[ids], 'averages of some')
    lab = np.zeros(m.shape, int)
    for k in range(n):
        for x, y in points(m[k]):
            lab[y, x] = k + 1
    for sel in (-1, ids, [ids[0]] if ids else -1, np.array(ids, int)):
        k = list(range(n)) if isinstance(sel, int) else list(sel)
        for d in (rng.normal(size=len(k)), rng.uniform(size=(len(k), 3)), rng.integers(0, 100, len(k)), list(rng.normal(size=len(k)))):
            if isinstance(sel, list) and not len(k) and np.ndim(d) < 2:
                continue
            bg = 3
            im = m.grain_data_to_map_data(d, grain_ids=sel, bg=bg)
            e = np.full(m.shape + np.shape(d)[1:], bg, dtype=np.array(d).dtype)
            for j, v in zip(k, d):
                e[lab == j + 1] = v
            assert im.shape == e.shape and np.array_equal(im, e), 'map of grain values'
        try:
            m.grain_data_to_map_data(np.zeros(len(k) + 1), grain_ids=sel)
        except ValueError:
            pass
        else:
            raise AssertionError('wrong number of values accepted')
    j = int(rng.integers(n))
    if j != -1:
        im = m.grain_data_to_map_data([4.5], grain_ids=j)
        assert np.array_equal(im, np.where(lab == j + 1, 4.5, 0)), 'one grain'
    for k in range(3):
        name = f'extra{k}'
        im = m.grain_data_to_map(name)
        assert np.array_equal(im, np.where(lab > 0, m.data[name], 0)), 'back to a map'
    assert np.array_equal(m.grain_data_to_map('count'), np.where(lab > 0, m.data['count'], 0)), 'back to a map'


def coarse(rng, i, log):
    """means over the neighbouring points of the grain"""
    m, n = some_map(rng, log)
    for g in m:
        pts = points(g)
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        x1, y1 = max(p[0] for p in pts), max(p[1] for p in pts)
        k = int(rng.integers(0, 4))
        bg = float(rng.choice([np.nan, -7.]))
        v = {p: m.data.extra0[p[1], p[0]] for p in pts}
        im = g.grain_map_data_coarse(map_data=m.data.extra0, kernel_size=k, bg=bg)
        assert im.shape == (y1 - y0 + 1, x1 - x0 + 1)
        e = np.full(im.shape, bg)
        for x, y in pts:
            e[y - y0, x - x0] = np.mean([v[q] for q in v if abs(q[0] - x) <= k and abs(q[1] - y) <= k])
        assert np.allclose(im, e, rtol=1e-9, atol=1e-12, equal_nan=True), f'coarse image, kernel {k}'


CASES = {'coarse': (coarse, 30), 'values': (values, 60), 'images': (images, 60), 'averages': (averages, 60)}
