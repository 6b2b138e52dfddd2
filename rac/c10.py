from rac.gen import *


def build(rng):
    h, w = (int(v) for v in rng.integers(2, 12, 2))
    return dic_map(rng.normal(size=(2, h, w)), int(rng.choice([1, 4, 12])))


def dists(rng, h, w):
    t = int(rng.integers(0, h))
    b = int(rng.integers(0, h - t))
    l = int(rng.integers(0, w))
    r = int(rng.integers(0, w - l))
    return dict(top=t, bottom=b, left=l, right=r)


def keyed(m, d):
    return [(m.data, k) for k in d]


def region(a, c, b=1):
    h, w = a.shape[-2:]
    return a[..., c['top'] * b:h - c['bottom'] * b, c['left'] * b:w - c['right'] * b]


def grown(mask, n):
    for _ in range(n):
        p = np.pad(mask, 1)
        mask = p[1:-1, 1:-1] | p[2:, 1:-1] | p[:-2, 1:-1] | p[1:-1, 2:] | p[1:-1, :-2]
    return mask


def history(rng, i, log):
    m = build(rng)
    h, w = m.shape
    log['shape'] = (h, w)
    raw = {k: np.array(m.data[k]) for k in ('coordinate', 'displacement', 'f', 'e', 'max_shear')}
    for k, v in raw.items():
        assert v.shape[-2:] == (h, w), k
    pts = [tuple(int(v) for v in rng.integers(0, 12, 2)) for _ in range(int(rng.integers(0, 4)))]
    m.frame.homog_points = list(pts)
    cur = dict(top=0, bottom=0, left=0, right=0)
    bn = int(rng.integers(1, 4))
    pattern = rng.integers(0, 255, (h * bn, w * bn)).astype(float)
    m.data['pattern', 'binning'] = bn
    m.data['pattern', 'path'] = 'there'
    import defdap.hrdic as H
    keep = H.imread
    H.imread = lambda p: pattern
    steps = []
    log['binning'] = bn
    try:
        for _ in range(int(rng.integers(1, 5))):
            new = dists(rng, h, w)
            give = {k: v for k, v in new.items() if rng.integers(4)}
            tmp = dict(cur, **give)
            if tmp['top'] + tmp['bottom'] >= h or tmp['left'] + tmp['right'] >= w:
                give, tmp = new, new
            upd = bool(rng.integers(2))
            steps.append((give, upd))
            log['crops'] = list(steps)
            typ = [int, np.int64][int(rng.integers(2))]
            m.set_crop(**{k: typ(v) for k, v in give.items()}, **({'update_homog_points': True} if upd else {}))
            if upd:
                dx, dy = cur['left'] - tmp['left'], cur['top'] - tmp['top']
                pts = [(x + dx, y + dy) for x, y in pts]
            cur = tmp
            exp = (h - cur['top'] - cur['bottom'], w - cur['left'] - cur['right'])
            assert tuple(m.shape) == exp, f'shape {m.shape} instead of {exp}'
            assert (m.ydim, m.xdim) == (h, w) and tuple(m.original_shape) == (h, w)
            assert [tuple(p) for p in m.frame.homog_points] == pts, f'points {m.frame.homog_points} instead of {pts}'
            for k, v in raw.items():
                a = np.asarray(m.data[k])
                assert a.shape == v.shape[:-2] + exp, (k, a.shape)
                assert np.array_equal(a, region(v, cur)), f'{k} is not the chosen region'
            assert np.array_equal(np.asarray(m.data.pattern), region(pattern, cur, bn)), 'pattern image'
            assert np.array_equal(m.crop(pattern, binning=bn), region(pattern, cur, bn))
            assert np.array_equal(m.crop(raw['f']), region(raw['f'], cur))
            if rng.integers(2):
                mask = rng.uniform(size=exp) < .2
                keepm, n = mask.copy(), int(rng.integers(0, 5))
                log['mask'], log['dilation'] = mask, n
                r = m.calc_mask(mask, dilation=n) if n or rng.integers(2) else m.calc_mask(mask)
                assert np.array_equal(mask, keepm), 'mask given was changed'
                mask = grown(mask, n)
                assert np.array_equal(r, mask) and np.array_equal(m.data.mask, mask), 'mask'
                for k in ('max_shear', 'e', 'f', 'displacement'):
                    a = m.data[k]
                    if k != 'displacement':
                        assert np.array_equal(np.ma.getmaskarray(a), np.broadcast_to(mask, a.shape)), f'masked {k}'
                    assert np.array_equal(np.ma.getdata(a), region(raw[k], cur)), 'masked region'
                m.calc_mask(None)
    finally:
        H.imread = keep


def same_as_first(rng, i, log):
    """the last crop alone gives the same map"""
    a = rng.normal(size=(2, int(rng.integers(2, 9)), int(rng.integers(2, 9))))
    m, n = dic_map(a), dic_map(a)
    h, w = m.shape
    p = [(3, 4), (0, 1)]
    m.frame.homog_points = list(p)
    n.frame.homog_points = list(p)
    for _ in range(3):
        c = dists(rng, h, w)
        m.set_crop(**c, update_homog_points=True)
    log['shape'], log['last'] = (h, w), c
    n.set_crop(**c, update_homog_points=True)
    assert tuple(m.shape) == tuple(n.shape) and np.array_equal(m.crop_dists, n.crop_dists)
    assert m.frame.homog_points == n.frame.homog_points
    for k in ('f', 'e', 'max_shear', 'displacement'):
        assert np.array_equal(m.data[k], n.data[k]), k


CASES = {'history': (history, 150), 'same as first': (same_as_first, 60)}
