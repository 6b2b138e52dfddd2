import warnings
from rac.gen import *
from defdap.quat import Quat
from defdap.crystal import crystalStructures

KEYS = ['cubic', 'hexagonal']
CORNERS = {'cubic': np.array([[0, 0, 1], [0, 1, 1], [-1, 1, 1.]]),
           'hexagonal': np.array([[0, 0, 1], [0, 1, 0], [-.5, np.sqrt(3) / 2, 0]])}


def ops(g):
    """rotation matrices of the class, made here from generators"""
    if g == 'cubic':
        gens = [np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1.]]), np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.]])]
    else:
        c, s = .5, np.sqrt(3) / 2
        gens = [np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.]]), np.diag([1., -1, -1])]
    out = [np.eye(3)]
    grow = True
    while grow:
        grow = False
        for a in list(out):
            for b in gens:
                m = a @ b
                if not any(np.abs(m - x).max() < 1e-6 for x in out):
                    out.append(m)
                    grow = True
    return np.array(out)


OPS = {g: ops(g) for g in KEYS}


def excess(v, g, tri):
    """how far a direction is outside the sector"""
    x, y, z = v
    if g == 'cubic':
        return max(y - z, -x - y, x)
    if tri == 'up':
        return max(-z, x, -y, -np.sqrt(3) * x - y)
    return max(-z, -x, -y, np.sqrt(3) * x - y)


def some_quat(rng):
    k = rng.integers(4)
    if k == 0:
        e = rng.integers(0, 25, 3) * np.pi / 12
    elif k == 1:
        e = rng.uniform(0, 2 * np.pi, 3) * [1, .5, 1]
    elif k == 2:
        e = rng.integers(0, 9, 3) * np.pi / 4 + rng.normal(size=3) * 10.0 ** rng.integers(-12, -3)
    else:
        return quat(rng)
    q = np.array(Quat.from_euler_angles(*e).quat_coef)
    return q


def some_dir(rng):
    if rng.integers(4) == 0:
        d = rng.normal(size=3)
    else:
        d = rng.integers(-3, 4, 3).astype(float)
    if not d.any():
        d = np.array([0, 0, 1.0])
    return d


def fund(rng, i, log):
    g = KEYS[rng.integers(2)]
    tri = [None, 'up', 'down'][rng.integers(3)] if g == 'hexagonal' else None
    dt = [float, np.float32][rng.integers(2)]
    n = int(rng.integers(1, 5))
    qs = [some_quat(rng) for _ in range(n)]
    d = some_dir(rng)
    log.update(g=g, tri=tri, dt=dt.__name__, q=np.array(qs), d=d)
    d0 = d.copy()
    Q = [Quat(*q) for q in qs]
    kw = {} if dt is float and rng.integers(2) else {'dtype': dt}
    if tri is not None or rng.integers(2):
        kw['triangle'] = tri
    a, b = Quat.calc_fund_dirs(Q if rng.integers(2) else np.array(Q), d, g, **kw)
    assert (d == d0).all(), 'direction changed'
    assert a.shape == (n,) and b.shape == (n,)
    tol = 1e-6 if dt is float else 2e-3
    t = tri or 'up'
    u = d / np.sqrt(d @ d)
    for k in range(n):
        v = np.array([np.sin(a[k]) * np.cos(b[k]), np.sin(a[k]) * np.sin(b[k]), np.cos(a[k])])
        c = mat(qs[k]) @ u
        r = OPS[g] @ c
        r = np.concatenate([r, -r])
        assert np.abs(r - v).max(1).min() < tol, f'{v} is no equivalent of the sample direction {c}'
        assert excess(v, g, t) < tol, f'{v} is outside the fundamental sector'
        s = Quat.sym_eqv(g)
        for op in s[::5]:
            a2, b2 = Quat.calc_fund_dirs([op * Q[k]], d, g, **kw)
            w = np.array([np.sin(a2[0]) * np.cos(b2[0]), np.sin(a2[0]) * np.sin(b2[0]), np.cos(a2[0])])
            assert np.abs(v - w).max() < 5 * tol, f'equivalent orientations give {v} and {w}'


def colours(rng, i, log):
    g = KEYS[rng.integers(2)]
    dt = [float, np.float32][rng.integers(2)]
    q = some_quat(rng)
    kind, j = rng.integers(3), rng.integers(3)
    c = CORNERS[g][j]
    if kind == 1:
        c = c / np.linalg.norm(c) + CORNERS[g][j - 1] * rng.uniform(0, 1)
    elif kind == 2:
        c = rng.normal(size=3)
    c = c / np.linalg.norm(c)
    op = OPS[g][rng.integers(len(OPS[g]))] * rng.choice([-1, 1])
    d = mat(q).T @ op @ c * rng.choice([1, 2.5])
    log.update(g=g, dt=dt.__name__, q=q, d=d, corner=int(j) if kind == 0 else -1)
    n = int(rng.integers(0, 3))
    others = [some_quat(rng) for _ in range(n)]
    kw = {'dtype': float} if dt is float else {}
    col = Quat.calc_ipf_colours([Quat(*q)] + [Quat(*x) for x in others], d, g, **kw)
    assert col.shape == (3, n + 1)
    tol = 1e-5 if dt is float else 2e-2
    for k, x in enumerate([q] + others):
        cc = col[:, k]
        assert np.isfinite(cc).all(), f'colour {cc}'
        assert (cc >= 0).all() and (cc <= 1).all() and abs(cc.max() - 1) < 1e-6, f'colour {cc} outside [0, 1]'
        s = Quat.sym_eqv(g)[rng.integers(len(OPS[g]))]
        c2 = Quat.calc_ipf_colours([s * Quat(*x)], d, g, **kw)[:, 0]
        assert np.abs(c2 - cc).max() < 5 * tol, f'equivalent orientations give colours {cc} and {c2}'
    if kind == 0:
        assert np.abs(col[:, 0] - np.eye(3)[j]).max() < tol, f'colour {col[:, 0]} at corner {j}'
    elif kind == 1:
        assert col[(j + 1) % 3, 0] < tol, f'colour {col[:, 0]} on the edge between corners {j} and {j - 1}'
    else:
        # inside: the colour follows the angular distances to the sides
        r = OPS[g] @ (mat(q) @ (d / np.sqrt(d @ d)))
        r = np.concatenate([r, -r])
        v = r[np.argmin([excess(x, g, 'up') for x in r])]
        P = CORNERS[g] / np.linalg.norm(CORNERS[g], axis=1, keepdims=True)
        w = []
        for m in range(3):
            a, b = P[(m + 1) % 3], P[(m + 2) % 3]
            x = np.cross(np.cross(v, P[m]), np.cross(a, b))
            if np.linalg.norm(x) < 1e-4:
                return
            x /= np.linalg.norm(x)
            x = x if x @ v >= 0 else -x
            w.append(np.arccos(np.clip(v @ x, -1, 1)) / np.arccos(np.clip(P[m] @ x, -1, 1)))
        w = np.array(w) / max(w)
        assert np.abs(w - col[:, 0]).max() < 5 * tol, f'colour {col[:, 0]} instead of {w}'


def refused(rng, i, log):
    Q = [Quat(*some_quat(rng))]
    try:
        Quat.calc_fund_dirs(Q, [0, 0, 1], 'triclinic')
    except Exception:
        pass
    else:
        raise AssertionError('unknown crystal class accepted')


warnings.simplefilter('ignore')
CASES = {'fund': (fund, 300), 'colours': (colours, 400), 'refused': (refused, 2)}
