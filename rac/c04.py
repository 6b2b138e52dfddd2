from rac.gen import *
from defdap.quat import Quat

KEYS = ['cubic', 'hexagonal']


def ref_eqvs(q, g):
    """equivalents of q from the group elements, northern"""
    out = []
    for s in Quat.sym_eqv(g):
        p = qmul(np.asarray(s.quat_coef), q)
        out.append(-p if p[0] < 0 else p)
    return np.array(out)


def same_ori(a, b, tol=1e-8):
    return min(np.abs(a - b).max(), np.abs(a + b).max()) < tol


def table(rng, i, log):
    g = KEYS[rng.integers(2)]
    n = int(rng.integers(1, 7))
    qs = [quat(rng) for _ in range(n)]
    log['g'], log['q'] = g, np.array(qs)
    shape = int(rng.integers(3))
    Q = [Quat(*q) for q in qs]
    t = Quat.calc_sym_eqvs(Q if shape else np.array(Q), g)
    assert t.shape == (24 if g == 'cubic' else 12, 4, n)
    for k in range(n):
        r = ref_eqvs(qs[k], g)
        for a, b in zip(t[:, :, k], r):
            assert a[0] >= -1e-12, 'northern'
            if abs(a[0]) < 1e-9:
                assert same_ori(a, b), f'equivalent {a} instead of {b}'
            else:
                close(a, b, 'equivalent')
    t32 = Quat.calc_sym_eqvs(Q, g, dtype=np.float32)
    assert t32.dtype == np.float32
    assert np.all([min(np.abs(a - b).max(), np.abs(a + b).max()) < 1e-5 for a, b in
                   zip(t32.transpose(0, 2, 1).reshape(-1, 4), t.transpose(0, 2, 1).reshape(-1, 4))]), 'single precision table'
    m = int(rng.integers(1, 5))
    arr = np.empty((m, n), dtype=object)
    for a in range(m):
        for b in range(n):
            arr[a, b] = Quat(*quat(rng))
    c = Quat.extract_quat_comps(arr)
    assert c.shape == (4, m, n)
    for a in range(m):
        for b in range(n):
            close(c[:, a, b], arr[a, b].quat_coef, 'components', 0)


def bulk(rng, i, log):
    g = KEYS[rng.integers(2)]
    n = int(rng.integers(1, 7))
    qs = [quat(rng) for _ in range(n)]
    ref = quat(rng)
    if rng.integers(3) == 0:
        qs[0] = ref
    log['g'], log['q'], log['ref'] = g, np.array(qs), ref
    Q = [Quat(*q) for q in qs]
    R = Quat(*ref)
    t = Quat.calc_sym_eqvs(Q, g)
    t0 = t.copy()
    v, c = Quat.calcMisOri(t, R)
    assert v.shape == (n,) and c.shape == (4, n)
    assert (t == t0).all(), 'table changed'
    close(R.quat_coef, ref, 'reference changed', 0)
    for k in range(n):
        s = Q[k].mis_ori(R, g)
        x, qq = R.mis_ori(Q[k], g, return_quat=2)
        r = ref_eqvs(qs[k], g)
        d = np.abs(r @ ref)
        assert v[k] <= 1, f'value {v[k]} above one'
        close(v[k], min(d.max(), 1), 'bulk misorientation')
        close(v[k], s, 'bulk misorientation equals the single one')
        close(x, s, 'single misorientation with the quaternion')
        close(abs(c[:, k] @ ref), d.max(), 'reported equivalent attains the value')
        assert min(np.abs(np.abs(r @ c[:, k]) - 1)) < 1e-8, 'reported quaternion is an equivalent'
        close(abs(qq.quat_coef @ ref), d.max(), 'single: reported equivalent attains the value')


def average(rng, i, log):
    g = KEYS[rng.integers(2)]
    n = int(rng.integers(1, 9))
    base = quat(rng)
    spread = rng.choice([0.0, 0.02, 0.1, 0.5])
    qs = []
    for _ in range(n):
        q = base + spread * rng.normal(size=4)
        q /= np.sqrt(q @ q)
        s = Quat.sym_eqv(g)
        q = qmul(np.asarray(s[rng.integers(len(s))].quat_coef), q)
        qs.append(q if q[0] >= 0 else -q)
    log['g'], log['q'] = g, np.array(qs)
    t = Quat.calc_sym_eqvs([Quat(*q) for q in qs], g)
    t0 = t.copy()
    a = Quat.calc_average_ori(t)
    assert (t == t0).all(), 'table changed'
    a = a.quat_coef
    close(a @ a, 1, 'average is a unit orientation')
    assert a[0] >= 0
    # reference: running sum of the closest equivalents
    av = t[0, :, 0].copy()
    margin = 1.0
    for k in range(1, n):
        d = t[:, :, k] @ av / np.sqrt(av @ av)
        o = np.sort(np.abs(d))
        margin = min(margin, o[-1] - o[-2])
        j = np.argmax(np.abs(d))
        av = av + np.sign(d[j]) * t[j, :, k]
    if margin > 1e-6:
        assert same_ori(a, av / np.sqrt(av @ av)), f'average {a} instead of {av / np.sqrt(av @ av)}'
        s = t.copy()
        sg = rng.choice([-1.0, 1.0], size=(t.shape[0], 1, n))
        b = Quat.calc_average_ori(s * sg).quat_coef
        assert same_ori(a, b), f'average depends on the sign of the entries: {a} and {b}'
    if spread == 0:
        assert np.abs(np.abs(ref_eqvs(qs[0], g) @ a) - 1).min() < 1e-8, 'copies of one orientation average to it'
        assert same_ori(a, qs[0]), 'copies of one orientation average to it'
    if spread <= 0.1:
        m = Quat(*a, allow_southern=True).mis_ori(Quat(*base), g)
        assert m > 1 - 30 * spread ** 2 - 1e-8, 'average is among the orientations'


CASES = {'table': (table, 60), 'bulk': (bulk, 60), 'average': (average, 120)}
