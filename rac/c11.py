from rac.gen import *


def expected(u, b):
    h, w = u.shape[1:]
    F = np.zeros((2, 2, h, w))
    for y in range(h):
        for x in range(w):
            for i in range(2):
                for j, (k, n) in enumerate(((x, w), (y, h))):
                    at = (lambda k: u[i, y, k]) if j == 0 else (lambda k: u[i, k, x])
                    lo, hi = max(k - 1, 0), min(k + 1, n - 1)
                    F[i, j, y, x] = (at(hi) - at(lo)) / ((hi - lo) * b) + (i == j)
    return F


def strains(F):
    E = np.zeros(F.shape)
    for i in range(2):
        for j in range(2):
            E[i, j] = (F[0, i] * F[0, j] + F[1, i] * F[1, j]) / 2 - (i == j) / 2
    return E, np.hypot((E[0, 0] - E[1, 1]) / 2, E[0, 1])


def check(m, u, b, what=''):
    F = expected(u, b)
    E, g = strains(F)
    close(m.data.f, F, what + 'deformation gradient')
    close(m.data.e, E, what + 'Green strain')
    close(m.data.max_shear, g, what + 'maximum shear')
    assert np.array_equal(m.data.displacement, u), 'displacement'


def field(rng, i, log):
    h, w = (int(v) for v in rng.integers(2, 9, 2))
    if i % 10 == 9:
        h, w = (h, int(rng.integers(20, 70))) if rng.integers(2) else (int(rng.integers(20, 70)), w)
    b = int(rng.choice([1, 2, 4, 12, 64]))
    u = rng.normal(size=(2, h, w)) * 10.0 ** rng.integers(-3, 3)
    log['u'], log['binning'] = u, b
    m = dic_map(u, b, scale=None if rng.integers(2) else 0.05)
    check(m, u, b)
    c = dict(left=int(rng.integers(0, w)), top=int(rng.integers(0, h)))
    m.set_crop(**c)
    F = expected(u, b)
    close(m.data.f, F[..., c['top']:, c['left']:], 'cropped deformation gradient')


def uniform(rng, i, log):
    h, w = (int(v) for v in rng.integers(2, 9, 2))
    b = int(rng.choice([1, 2, 4, 12]))
    G = rng.normal(size=(2, 2)) * .3 if i % 4 else np.zeros((2, 2))
    y, x = np.mgrid[:h, :w] * b
    a = rng.normal(size=2)
    u = np.array([a[r] + G[r, 0] * x + G[r, 1] * y for r in range(2)])
    log['G'], log['shape'], log['binning'] = G, (h, w), b
    m = dic_map(u, b)
    F = np.broadcast_to((G + np.eye(2))[:, :, None, None], (2, 2, h, w))
    close(m.data.f, F, 'uniform deformation')
    E, g = strains(F)
    close(m.data.e, E, 'uniform strain')
    close(m.data.max_shear, g, 'uniform shear')


CASES = {'field': (field, 120), 'uniform': (uniform, 60)}
