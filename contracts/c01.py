"""C01: Euler angles, quaternions, axis-angle pairs and rotation matrices."""
from pydv.contract import *

LEVEL = 'proof'
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'sin, cos, arccos, arctan2 and sqrt are the mathematical functions (numpy trusted)',
]
TARGETS = {}
target = register(TARGETS)


def bunge(a, b, c):
    """Bunge passive matrix from (cos, sin) pairs of the three angles"""
    (c1, s1), (cp, sp), (c2, s2) = a, b, c
    return [[c1 * c2 - s1 * s2 * cp, s1 * c2 + c1 * s2 * cp, s2 * sp],
            [-c1 * s2 - s1 * c2 * cp, -s1 * s2 + c1 * c2 * cp, c2 * sp],
            [s1 * sp, -c1 * sp, cp]]


def halves():
    h = [rvar('h1'), rvar('hp'), rvar('h2')]
    return [2 * x for x in h]


def mat_eq(ctx, name, R, M):
    for i in range(3):
        for j in range(3):
            ctx.prove_eq(f'{name} [{i},{j}]', R[i, j], M[i][j])


@target('euler_to_quat')
def t1(ctx):
    Q = S().quat.Quat
    e = halves()
    q = Q.from_euler_angles(*e)
    ctx.prove('northern hemisphere', q[0] >= 0)
    ctx.prove_eq('unit length', sum((q[i] * q[i] for i in range(4)), SReal.const(0)), 1)
    mat_eq(ctx, 'rotation matrix is the Bunge matrix', q.rot_matrix(), bunge(*[T.trig(x) for x in e]))


@target('axis_angle')
def t2(ctx):
    Q = S().quat.Quat
    ax = vec('ax')
    n2 = ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]
    ctx.fact(n2 > 0)
    h = rvar('h')
    q = Q.from_axis_angle(np.array(ax), 2 * h)
    ctx.prove('northern hemisphere', q[0] >= 0)
    ctx.prove_eq('unit length', sum((q[i] * q[i] for i in range(4)), SReal.const(0)), 1)
    R = q.rot_matrix()
    c, s = T.trig(2 * h)
    r = T.ssqrt(n2)
    u = [x / r for x in ax]
    # passive rotation: R = c 1 + (1-c) u u^T - s [u]x
    eps = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
    for i in range(3):
        for j in range(3):
            want = (c if i == j else 0) + (1 - c) * u[i] * u[j] - s * eps[i][j]
            ctx.prove_eq(f'passive axis-angle matrix [{i},{j}]', R[i, j], want)
    for i in range(3):
        ctx.prove_eq(f'axis is left fixed [{i}]', sum((R[i, j] * ax[j] for j in range(3)), SReal.const(0)), ax[i])


@target('quat_to_matrix')
def t3(ctx):
    Q = S().quat.Quat
    a = unit_vec('q', 4)
    ctx.fact(a[0] >= 0)
    q = Q(*a)
    R = q.rot_matrix()
    P = np.matmul(R, R.T)
    for i in range(3):
        for j in range(3):
            ctx.prove_eq(f'orthogonal [{i},{j}]', P[i, j], int(i == j))
    det = (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
           + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))
    ctx.prove_eq('proper rotation', det, 1)
    v = vec('v')
    w = q.transform_vector(np.array(v))
    for i in range(3):
        ctx.prove_eq(f'matrix and vector transform agree [{i}]', w[i], sum((R[i, j] * v[j] for j in range(3)), SReal.const(0)))


def eul(ctx, q):
    e = q.euler_angles()
    pi = T.pi()
    for k in (0, 2):
        ctx.prove(f'angle {k} at least 0', e[k] >= 0)
        ctx.prove(f'angle {k} below 2 pi', e[k] < 2 * pi)
    ctx.prove('middle angle at least 0', e[1] >= 0)
    ctx.prove('middle angle at most pi', e[1] <= pi)
    mat_eq(ctx, 'Euler angles give the same rotation', q.rot_matrix(), bunge(*[T.trig(SReal.of(x)) for x in e]))


# every unit quaternion is of exactly one of the three kinds below
@target('quat_to_euler_z', merge=0)
def t4a(ctx):
    a = unit_vec('q', 2)
    eul(ctx, S().quat.Quat(a[0], 0, 0, a[1], allow_southern=True))


@target('quat_to_euler_xy', merge=0)
def t4b(ctx):
    a = unit_vec('q', 2)
    eul(ctx, S().quat.Quat(0, a[0], a[1], 0, allow_southern=True))


@target('quat_to_euler_general', merge=0)
def t4c(ctx):
    a = unit_vec('q', 4)
    ctx.fact(a[0] * a[0] + a[3] * a[3] > 0)
    ctx.fact(a[1] * a[1] + a[2] * a[2] > 0)
    eul(ctx, S().quat.Quat(*a, allow_southern=True))


def many(ctx, shape):
    Q = S().quat.Quat
    e = arr((3,) + shape, 'hang')
    e2 = e * 2
    qs = Q.create_many_quats(e2)
    ctx.prove('one orientation per point', len(qs.shape) == len(shape) and all(x is y or mk(x == y) is True for x, y in zip(qs.shape, shape)))
    g = generic_index(shape, 'g')
    q = qs.get(g)
    p = Q.from_euler_angles(*[e2.get((k,) + g) for k in range(3)])
    for k in range(4):
        ctx.prove_eq(f'component {k} equals the single conversion', q[k], p[k])


@target('create_many_1d')
def t5(ctx):
    n = ivar('n')
    ctx.fact(n >= 0)
    many(ctx, (n,))


@target('create_many_2d')
def t6(ctx):
    n, m = ivar('n'), ivar('m')
    ctx.fact(n >= 0)
    ctx.fact(m >= 0)
    many(ctx, (n, m))
