from rac.gen import *
from defdap.quat import Quat


def euler(rng, i, log):
    e = log['euler'] = eulers(rng)
    q = Quat.from_euler_angles(*e)
    assert q[0] >= 0, 'northern'
    close(q.norm(), 1, 'unit length')
    close(q.rot_matrix(), bunge(e), 'matrix of the quaternion')
    f = q.euler_angles()
    assert 0 <= f[0] < 2 * np.pi + 1e-12 and 0 <= f[1] <= np.pi and 0 <= f[2] < 2 * np.pi + 1e-12, f'range {f}'
    close(bunge(f), bunge(e), 'round trip', 1e-6)


def quats(rng, i, log):
    a = log['quat'] = quat(rng, bool(rng.integers(2)))
    q = Quat(a, allow_southern=True)
    f = q.euler_angles()
    assert -1e-12 <= f[0] < 2 * np.pi + 1e-12 and 0 <= f[1] <= np.pi and 0 <= f[2] < 2 * np.pi + 1e-12, f'range {f}'
    R = q.rot_matrix()
    close(R, mat(a), 'matrix')
    close(bunge(f), R, 'Euler angles of a quaternion', 1e-6)
    p = Quat.from_euler_angles(*f)
    close(abs(p.dot(q)), 1, 'round trip', 1e-6)
    n = Quat(a)
    v = log['v'] = rng.normal(size=3)
    for form in (v, list(v), tuple(v)):
        close(n.transform_vector(form), mat(a) @ v, 'transform')


def axis_angle(rng, i, log):
    ax = log['axis'] = unit(rng) * rng.choice([0.3, 1, 7])
    an = log['angle'] = angle(rng) * rng.choice([1, -1])
    q = Quat.from_axis_angle(ax if rng.integers(2) else list(ax), an)
    u = ax / np.sqrt(ax @ ax)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    close(q.rot_matrix(), np.cos(an) * np.eye(3) + (1 - np.cos(an)) * np.outer(u, u) - np.sin(an) * K, 'axis-angle')
    assert q[0] >= 0
    close(q.norm(), 1, 'unit')


def many(rng, i, log):
    shape = tuple(int(x) for x in rng.integers(0 if i % 5 == 0 else 1, 5, rng.integers(1, 4)))
    E = np.array([eulers(rng) for _ in range(int(np.prod(shape)))]).T.reshape((3,) + shape)
    log['eulers'] = E
    qs = Quat.create_many_quats(E)
    assert qs.shape == shape
    for idx in np.ndindex(shape):
        close(qs[idx].quat_coef, Quat.from_euler_angles(*E[(slice(None),) + idx]).quat_coef, f'point {idx}')
    if qs.size:
        c = Quat.extract_quat_comps(qs)
        assert c.shape == (4,) + shape
        for idx in np.ndindex(shape):
            close(c[(slice(None),) + idx], qs[idx].quat_coef, 'components')


CASES = {'euler': (euler, 150), 'quats': (quats, 150), 'axis_angle': (axis_angle, 80), 'many': (many, 25)}
