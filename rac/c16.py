from rac.gen import *
from defdap.quat import Quat


def build(q):
    """an EBSD map whose orientations are the given quaternions (h, w, 4)"""
    h, w = q.shape[:2]
    m = ebsd_map(np.ones((h, w), int), np.zeros((3, h, w)))
    o = np.empty((h, w), object)
    for y in range(h):
        for x in range(w):
            o[y, x] = Quat(*q[y, x], allow_southern=True)
    m.data['orientation'] = o
    return m


def field(rng, h, w, spread):
    q = np.empty((h, w, 4))
    q[:] = quat(rng, True)
    q += rng.normal(size=q.shape) * spread
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    return q


def kam(rng, i, log):
    h, w = (int(v) for v in rng.integers(2, 9, 2))
    q = field(rng, h, w, rng.choice([0, 1e-3, .05, .5, 5]))
    s = np.where(rng.uniform(size=(h, w)) < .5, -1, 1)
    log['q'] = q
    m = build(q)
    quiet(m.data.generate, 'KAM')
    k = np.asarray(m.data.KAM)
    assert k.shape == (h, w)
    c = np.empty((h, w))
    for y in range(h):
        for x in range(w):
            ax = []
            for nb in (((y - 1, x), (y + 1, x)), ((y, x - 1), (y, x + 1))):
                ax.append(np.mean([min(1, abs(q[y, x] @ q[p])) for p in nb if 0 <= p[0] < h and 0 <= p[1] < w]))
            c[y, x] = np.mean(ax)
    assert np.all(np.isfinite(k)) and np.all(k >= 0)
    assert np.allclose(np.cos(k / 2), c, atol=1e-9), 'mean over the neighbours'
    k2 = np.asarray(quiet(build(q * s[..., None]).calc_kam))
    assert np.allclose(np.cos(k2 / 2), np.cos(k / 2), atol=1e-12), 'sign of quaternions'
    k3 = np.asarray(quiet(build(np.broadcast_to(q[0, 0], q.shape) * s[..., None]).calc_kam))
    assert np.all(np.abs(k3) < 1e-6), 'uniform map'


CASES = {'kam': (kam, 150)}
