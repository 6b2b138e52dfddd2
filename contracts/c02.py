"""C02: quaternion algebra."""
from pydv.contract import *
from pydv.rt import DvList

LEVEL = 'proof'
NOTE = '''Every obligation discharged for all unit quaternions, vectors and list lengths; floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'numpy elementary operations (dot, cross, array construction) are as documented; tolist/hash compared on concrete values only',
]
TARGETS = {}
target = register(TARGETS)


def north(name):
    a = unit_vec(name, 4)
    CTX().fact(a[0] >= 0)
    return S().quat.Quat(*a)


def mat_eq(ctx, name, A, B):
    for i in range(3):
        for j in range(3):
            ctx.prove_eq(f'{name} [{i},{j}]', A[i, j], B[i, j])


@target('product')
def t1(ctx):
    Q = S().quat.Quat
    a, b = Q(*unit_vec('a', 4), allow_southern=True), Q(*unit_vec('b', 4), allow_southern=True)
    P = np.matmul(a.rot_matrix(), b.rot_matrix())
    c = a * b
    ctx.prove('product is northern', c[0] >= 0)
    ctx.prove_eq('product is a unit quaternion', c.dot(c), 1)
    mat_eq(ctx, 'product composes', P, c.rot_matrix())
    d = a.__mul__(b, allow_southern=True)
    mat_eq(ctx, 'product without hemisphere rule composes', P, d.rot_matrix())


@target('conjugate')
def t2(ctx):
    a = north('a')
    c = a.conjugate
    mat_eq(ctx, 'conjugate is the inverse rotation', c.rot_matrix(), a.rot_matrix().T)
    e = a * c
    for k in range(4):
        ctx.prove_eq(f'rotation times conjugate is the identity [{k}]', e[k], int(k == 0))
    v = vec('v')
    w = c.transform_vector(a.transform_vector(np.array(v)))
    for k in range(3):
        ctx.prove_eq(f'conjugate undoes the vector transform [{k}]', w[k], v[k])


@target('isometry')
def t3(ctx):
    a = north('a')
    v, w = vec('v'), vec('w')
    x, y = a.transform_vector(v), a.transform_vector(tuple(w))
    ctx.prove_eq('dot products are preserved', np.dot(x, y), np.dot(np.array(v), np.array(w)))
    b = north('b')
    z1 = (a * b).transform_vector(v)
    z2 = a.transform_vector(b.transform_vector(v))
    # (a b may be negated by the hemisphere rule; the rotation is the same)
    for k in range(3):
        ctx.prove_eq(f'transform by a product is the composition [{k}]', z1[k], z2[k])


@target('hemisphere')
def t4(ctx):
    Q = S().quat.Quat
    c = vec('c', 4)
    for how, q in (('four numbers', Q(*c)), ('array', Q(np.array(c))), ('list', Q(list(c)))):
        ctx.prove(f'{how}: first component not negative', q[0] >= 0)
        for k in range(4):
            ctx.prove(f'{how}: same up to one sign [{k}]', or_(and_(c[0] < 0, mk(q[k] == -c[k])), and_(c[0] >= 0, mk(q[k] == c[k]))))
    s = Q(*c, allow_southern=True)
    for k in range(4):
        ctx.prove_eq(f'kept as given when asked [{k}]', s[k], c[k])


@target('norm')
def t5(ctx):
    Q = S().quat.Quat
    c = vec('c', 4)
    n2 = sum((x * x for x in c), SReal.const(0))
    ctx.fact(n2 > 0)
    ctx.fact(c[0] >= 0)
    q = Q(*c)
    ctx.prove_eq('norm is the length', q.norm() * q.norm(), n2)
    ctx.prove('norm is not negative', q.norm() >= 0)
    q.normalise()
    ctx.prove_eq('normalised to unit length', q.dot(q), 1)
    r = T.ssqrt(n2)
    for k in range(4):
        ctx.prove_eq(f'direction kept [{k}]', q[k] * r, c[k])


@target('sum')
def t6(ctx):
    Q = S().quat.Quat
    a, b = vec('a', 4), vec('b', 4)
    p, q = Q(*a, allow_southern=True), Q(*b, allow_southern=True)
    ctx.prove_eq('dot product', p.dot(q), sum((x * y for x, y in zip(a, b)), SReal.const(0)))
    s = p + q
    for k in range(4):
        ctx.prove(f'sum [{k}]', or_(and_(a[0] + b[0] < 0, mk(s[k] == -(a[k] + b[k]))), and_(a[0] + b[0] >= 0, mk(s[k] == a[k] + b[k]))))


@target('bulk_product')
def t7(ctx):
    Q = S().quat.Quat
    n = dims('n')
    comp = arr((4, n), 'comp')
    from pydv.seqs import SSeq

    def at(k):
        return Q(*[comp.get((j, k)) for j in range(4)], allow_southern=True)
    qs = DvList()
    qs._set(SSeq(n, at))
    b = Q(*vec('b', 4), allow_southern=True)
    out = Q.multiply_many_quats(qs, b)
    ctx.prove('one product per orientation', T.mk(out._dv_len() == n))
    g, = generic_index((n,), 'g')
    x, y = out[g], at(g) * b
    for k in range(4):
        ctx.prove_eq(f'bulk product equals the product [{k}]', x[k], y[k])
