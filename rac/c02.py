from rac.gen import *
from defdap.quat import Quat


def algebra(rng, i, log):
    a, b = log['a'], log['b'] = quat(rng), quat(rng)
    A, B = Quat(a), Quat(b)
    C = A * B
    assert C[0] >= 0
    close(C.norm(), 1, 'unit product')
    close(C.rot_matrix(), mat(a) @ mat(b), 'product')
    close(A.conjugate.rot_matrix(), mat(a).T, 'conjugate')
    close((A * A.conjugate).quat_coef, [1, 0, 0, 0], 'inverse')
    v, w = log['v'], log['w'] = rng.normal(size=3), rng.normal(size=3)
    close(A.transform_vector(v) @ A.transform_vector(w), v @ w, 'isometry')
    close(A.conjugate.transform_vector(A.transform_vector(v)), v, 'undo')
    close((A * B).transform_vector(v), A.transform_vector(B.transform_vector(v)), 'composition')
    close(A.dot(B), a @ b, 'dot')
    close(A.quat_coef, a, 'operand unchanged')
    close(B.quat_coef, b, 'operand unchanged')
    for bad in (1, 2.0, 'x', None, [1, 0, 0, 0]):
        for op in (lambda: A * bad, lambda: A.dot(bad), lambda: A + bad):
            try:
                op()
            except TypeError:
                continue
            raise AssertionError(f'product with {bad!r} accepted')


def hemisphere(rng, i, log):
    c = log['c'] = rng.normal(size=4) * rng.choice([1, 0], 4, p=[.8, .2])
    if rng.integers(3) == 0:
        c[0] = 0.0
    s = -1 if c[0] < 0 else 1
    for q in (Quat(*c), Quat(c), Quat(list(c)), Quat(tuple(c))):
        close(q.quat_coef, s * c, 'hemisphere', 1e-15)
    close(Quat(c, allow_southern=True).quat_coef, c, 'as given', 1e-15)
    c2 = c.copy()
    q = Quat(c)
    q[1] = 7.0
    close(c, c2, 'caller array unchanged', 0)
    if c @ c > 1e-6:
        q = Quat(*c)
        n = q.norm()
        close(n * n, c @ c, 'norm')
        q.normalise()
        close(q.quat_coef * n, s * c, 'normalise')
    d = log['d'] = rng.normal(size=4)
    A, B = Quat(c, allow_southern=True), Quat(d, allow_southern=True)
    e = c + d
    close((A + B).quat_coef, -e if e[0] < 0 else e, 'sum', 1e-12)
    assert A == Quat(c, allow_southern=True) and hash(A) == hash(Quat(c, allow_southern=True))
    assert not (A == Quat(c + 1, allow_southern=True)) and not (A == 'x')
    p, m = Quat(1.0, 0.0, 0.0, 0.0), Quat(1.0, -0.0, 0.0, -0.0)
    assert p == m and hash(p) == hash(m), 'equal orientations hash alike'
    if A == B:
        assert hash(A) == hash(B)
    for bad in ([1, 2, 3], [1, 2, 3, 4, 5]):
        try:
            Quat(bad)
        except TypeError:
            continue
        raise AssertionError('wrong length accepted')


def bulk(rng, i, log):
    n = int(rng.integers(1, 8))
    qs = [Quat(quat(rng)) for _ in range(n)]
    b = Quat(quat(rng, True), allow_southern=True)
    log['qs'] = np.array([q.quat_coef for q in qs])
    log['b'] = b.quat_coef
    out = Quat.multiply_many_quats(qs if rng.integers(2) else np.array(qs), b)
    assert len(out) == n
    for x, q in zip(out, qs):
        y = q * b
        close(x.quat_coef * (1 if abs(y[0]) > 1e-12 else np.sign(x.quat_coef @ y.quat_coef)), y.quat_coef, 'bulk product')


CASES = {'algebra': (algebra, 150), 'hemisphere': (hemisphere, 150), 'bulk': (bulk, 60)}
