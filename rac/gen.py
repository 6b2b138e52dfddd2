"""Input generators and reference formulas used by the real-code runs."""
import numpy as np


def angle(rng, hi=2 * np.pi):
    k = rng.integers(4)
    if k == 0:
        return float(rng.integers(0, 25)) * hi / 24
    if k == 1:
        return float(rng.choice([0.0, 1e-9, 1e-5, hi / 2, hi]))
    return float(rng.uniform(0, hi))


def eulers(rng):
    return np.array([angle(rng), angle(rng, np.pi), angle(rng)])


def unit(rng, n=3):
    k = rng.integers(5)
    if k == 0:
        v = rng.integers(-2, 3, n).astype(float)
    elif k == 1:
        v = np.zeros(n)
        v[rng.integers(n)] = rng.choice([-1.0, 1.0])
    else:
        v = rng.normal(size=n)
    s = np.sqrt(v @ v)
    return v / s if s > 1e-12 else unit(rng, n)


def quat(rng, southern=False):
    q = unit(rng, 4)
    return q if southern or q[0] >= 0 else -q


def bunge(e):
    c1, c, c2 = np.cos(e)
    s1, s, s2 = np.sin(e)
    return np.array([[c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s],
                     [-c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s],
                     [s1 * s, -c1 * s, c]])


def mat(q):
    """matrix of a passive quaternion: x' = M x"""
    w, x, y, z = q
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def qmul(a, b):
    w, v, u, w2 = a[0], np.array(a[1:]), np.array(b[1:]), b[0]
    return np.concatenate([[w * w2 - v @ u], w * u + w2 * v + np.cross(v, u)])


def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, f'{what}: shape {a.shape} instead of {b.shape}'
    bad = ~(np.abs(a - b) <= tol * (1 + np.abs(b)))
    bad &= ~(np.isnan(a) & np.isnan(b))
    assert not bad.any(), f'{what}: got {a.reshape(-1)[:12]}, expected {b.reshape(-1)[:12]}'


def known(kid, cond, msg):
    """a failure that is a recorded finding"""
    if not cond:
        e = AssertionError(msg)
        e.known = kid
        raise e


PHASES = None


def phases():
    """cubic and hexagonal phases"""
    global PHASES
    if PHASES is None:
        from defdap.crystal import Phase
        r = np.pi / 2
        PHASES = [Phase('fcc', 11, 225, (3.6, 3.6, 3.6, r, r, r)), Phase('hcp', 9, 194, (2.9, 2.9, 4.7, r, r, 4 * r / 3)),
                  Phase('bcc', 11, 229, (2.8, 2.8, 2.8, r, r, r))]
    return PHASES


def quiet(f, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return f(*a, **k)


def ebsd_map(phase, euler, phs=None, step=0.5, bc=None):
    """a real map from arrays: phase (h, w) with 0 not indexed, euler (3, h, w)"""
    from defdap import ebsd
    phase = np.asarray(phase)
    phs = phases()[:max(1, int(phase.max()))] if phs is None else phs
    d = dict(step_size=step, phases=list(phs), phase=phase.astype(np.uint8), euler_angle=np.asarray(euler, float),
             band_contrast=np.arange(phase.size, dtype=np.uint8).reshape(phase.shape) if bc is None else bc)
    return quiet(ebsd.Map, d, data_type='pythondict')


def layout(rng, h, w, k, scale=None):
    """labels 0..k-1 in connected-looking patches"""
    s = rng.uniform(size=(k, 2)) * [h, w]
    y, x = np.mgrid[:h, :w]
    return np.argmin([(y - a) ** 2 + (x - b) ** 2 for a, b in s], axis=0)


def random_ebsd(rng, h=None, w=None, nphase=None, spread=0.0, unindexed=True):
    """map of a few patches of near-constant orientation; returns map, phase, euler, labels"""
    h = int(rng.integers(1, 9)) if h is None else h
    w = int(rng.integers(1, 9)) if w is None else w
    k = int(rng.integers(1, 6))
    lab = layout(rng, h, w, k)
    nphase = int(rng.integers(1, 4)) if nphase is None else nphase
    ph = rng.integers(1, nphase + 1, k)
    if unindexed and rng.integers(3) == 0:
        ph[rng.integers(k)] = 0
    eu = np.array([eulers(rng) for _ in range(k)])
    for j in range(1, k):
        if rng.integers(3) == 0:            # close to another patch: low angle boundaries
            eu[j] = eu[0] + rng.normal(size=3) * 0.05
    phase = ph[lab]
    euler = np.moveaxis(eu[lab], -1, 0) + spread * rng.normal(size=(3, h, w))
    euler[1] = np.clip(euler[1], 0, np.pi)
    if unindexed and rng.integers(3) == 0:
        phase = phase * (rng.uniform(size=phase.shape) > .15)
    return ebsd_map(phase, euler, phases()[:nphase]), phase, euler, lab


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        import atexit
        import shutil
        import tempfile
        _TMP = tempfile.mkdtemp(prefix='dvrac')
        atexit.register(shutil.rmtree, _TMP, True)
    return _TMP


def dic_map(disp, binning=8, scale=None):
    """a real deformation map from a displacement field (2, h, w), through a DaVis text file"""
    import os
    from defdap import hrdic
    d, h, w = disp.shape
    fn = os.path.join(tmpdir(), 'dic.txt')
    with open(fn, 'w') as f:
        f.write(f'#DaVis 8.4.0 2D-vector {binning} {h} {w}  \n')
        for i in range(h):
            for j in range(w):
                f.write('\t'.join(repr(float(v)) for v in (binning * (j + .5), -binning * (i + .5), disp[0, i, j], disp[1, i, j])) + '\n')
    m = quiet(hrdic.Map, fn)
    if scale is not None:
        m.set_scale(scale)
    return m
