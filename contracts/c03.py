"""C03: symmetry groups and misorientation."""
from pydv.contract import *
from pydv.loops import InvFor, LOOPS, Poison
import pydv.rt as rt

LEVEL = 'proof'
NOTE = '''All unit quaternion pairs, both crystal classes, all return modes; floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'the returned equivalent is proved through a loop invariant attached to the loop of the misorientation function',
]
TARGETS = {}
target = register(TARGETS)


def syms(g):
    return list(S().quat.Quat.sym_eqv(g))


def prod(a, b):
    w = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    x = a[0] * b[1] + b[0] * a[1] + a[2] * b[3] - a[3] * b[2]
    y = a[0] * b[2] + b[0] * a[2] + a[3] * b[1] - a[1] * b[3]
    z = a[0] * b[3] + b[0] * a[3] + a[1] * b[2] - a[2] * b[1]
    return [w, x, y, z]


def zero(x):
    x = SReal.of(x)
    return not x.p


def equal_up_to_sign(a, b):
    return all(zero(x - y) for x, y in zip(a, b)) or all(zero(x + y) for x, y in zip(a, b))


def group(ctx, g, size):
    ss = [[SReal.of(q[k]) for k in range(4)] for q in syms(g)]
    ctx.prove('number of operators', len(ss) == size)
    for i, a in enumerate(ss):
        ctx.prove_eq(f'operator {i} is a unit quaternion', sum((x * x for x in a), SReal.const(0)), 1)
        ctx.prove(f'operator {i} is northern', a[0] >= 0)
        inv = [a[0], -a[1], -a[2], -a[3]]
        ctx.prove(f'inverse of operator {i}', any(equal_up_to_sign(inv, b) for b in ss))
        for j, b in enumerate(ss):
            if i < j:
                ctx.prove(f'operators {i} and {j} differ', not equal_up_to_sign(a, b))
            c = prod(a, b)
            ctx.prove(f'product of operators {i} and {j}', any(equal_up_to_sign(c, d) for d in ss))
    ctx.prove('identity first', equal_up_to_sign(ss[0], [1, 0, 0, 0]))
    # the axes of the class: four-fold about every cube axis / six-fold about c
    v = T.ssqrt(2) / 2
    gens = [[v, v, 0, 0], [v, 0, v, 0], [v, 0, 0, v]] if g == 'cubic' else \
        [[T.ssqrt(3) / 2, 0, 0, SReal.const(1) / 2], [0, 1, 0, 0]]
    for i, q in enumerate(gens):
        q = [SReal.of(x) for x in q]
        ctx.prove(f'generator {i} of the class is an operator', any(equal_up_to_sign(q, d) for d in ss))


@target('cubic_group')
def t1(ctx):
    group(ctx, 'cubic', 24)


@target('hexagonal_group')
def t2(ctx):
    group(ctx, 'hexagonal', 12)


@target('unknown_class')
def t3(ctx):
    ss = syms('none of these')
    ctx.prove('identity only', len(ss) == 1 and equal_up_to_sign([ss[0][k] for k in range(4)], [1, 0, 0, 0]))


def pair():
    Q = S().quat.Quat
    a, b = unit_vec('a', 4), unit_vec('b', 4)
    CTX().fact(a[0] >= 0)
    CTX().fact(b[0] >= 0)
    return Q(*a), Q(*b), a, b


def cauchy(ctx, a, b):
    """1 - (a.b)^2 is a sum of squares for unit a, b (a lemma for |a.b| <= 1)"""
    d = sum((x * y for x, y in zip(a, b)), SReal.const(0))
    s = SReal.const(0)
    for i in range(4):
        for j in range(i):
            m = a[i] * b[j] - a[j] * b[i]
            s = s + m * m
    ctx.prove_eq('1 - (a.b)^2 is a sum of squares', 1 - d * d, s)
    return d


def symmetric(ctx, g):
    A, B, a, b = pair()
    m = A.mis_ori(B, g)
    ctx.prove_eq('symmetric', m, B.mis_ori(A, g))
    ctx.prove('not negative', m >= 0)
    want = SReal.const(0)
    ds = [cauchy(ctx, a, prod([SReal.of(s[k]) for k in range(4)], b)) for s in syms(g)]
    ctx.prove_eq('largest |dot| over the equivalents', m, T.smax(SReal.const(0), *[T.sabs(d) for d in ds]))
    x, r = rvar('x'), rvar('r')
    ctx.prove('1 - x^2 being a square sum bounds |x| by 1', implies(and_(mk(1 - x * x == r), r >= 0), T.sabs(x) <= 1))
    # m is the largest of values that are at most one
    mm = rvar('maximum')
    ts = [rvar(f'value{k}') for k in range(len(ds))]
    for t in ts:
        ctx.fact(and_(t >= 0, t <= 1))
    ctx.prove('a largest value of values in [0, 1] is at most 1', T.smax(SReal.const(0), *ts) <= 1)
    for k, t in enumerate(ts):
        ctx.prove(f'a largest value is at least value {k}', T.smax(SReal.const(0), *ts) >= t)
    s0 = A.mis_ori(A, g)
    ctx.prove('no misorientation to itself', s0 >= 1)


@target('symmetric_cubic')
def t4(ctx):
    symmetric(ctx, 'cubic')


@target('symmetric_hexagonal')
def t5(ctx):
    symmetric(ctx, 'hexagonal')


def generators(ctx, g):
    """operators whose products give all of them (so invariance under these is invariance under all)"""
    ss = [[SReal.of(q[k]) for k in range(4)] for q in syms(g)]
    gens, have = [], [0]
    for i in range(len(ss)):
        if i in have:
            continue
        gens.append(i)
        have = [0]
        for h in have:
            for j in gens:
                c = prod(ss[j], ss[h])
                k = [n for n, d in enumerate(ss) if equal_up_to_sign(c, d)]
                if k and k[0] not in have:
                    have.append(k[0])
    ctx.prove('the chosen operators generate the class', len(have) == len(ss))
    return gens


def invariant(ctx, g):
    A, B, a, b = pair()
    Q = S().quat.Quat
    m = A.mis_ori(B, g)
    ss = syms(g)
    for i in generators(ctx, g):
        ctx.prove_eq(f'second replaced by equivalent {i}', m, A.mis_ori(ss[i] * B, g))
        ctx.prove_eq(f'first replaced by equivalent {i}', m, (ss[i] * A).mis_ori(B, g))
    ctx.prove_eq('second negated', m, A.mis_ori(Q(*[-x for x in b], allow_southern=True), g))
    ctx.prove_eq('first negated', m, Q(*[-x for x in a], allow_southern=True).mis_ori(B, g))


@target('invariant_cubic')
def t6(ctx):
    invariant(ctx, 'cubic')


@target('invariant_hexagonal')
def t7(ctx):
    invariant(ctx, 'hexagonal')


class Attained(InvFor):
    """invariant: nothing kept yet and the best value is 0, or the best value
    is |a . q| > 0 for the equivalent q kept; |a . q_j| <= best for all j seen"""

    def entry(self, locs):
        c = CTX()
        self.A, self.a, self.B, self.g = ATT['A'], ATT['a'], ATT['B'], ATT['g']
        self.items = list(self.it)
        self.known = {n: v for n, v in locs.items()}
        nums = [n for n, v in locs.items() if isinstance(v, (int, float, SReal)) and not isinstance(v, bool)]
        c.prove('best value starts at zero', len(nums) == 1 and zero(locs[nums[0]]))
        c.prove('loop goes over the symmetry operators', len(self.items) == len(syms(self.g)) and all(
            zero(x[k] - y[k]) for x, y in zip(self.items, syms(self.g)) for k in range(4)))
        self.m = nums[0]

    def state_(self, tag):
        """arbitrary state satisfying the invariant"""
        c = CTX()
        first = SBool(z3.Bool(c.fresh('nothing_kept')))
        st = {}
        if bool(first):
            st[self.m] = 0
            self.kept = None
        else:
            m = rvar(c.fresh('best'))
            q = S().quat.Quat(*[rvar(c.fresh('kept')) for _ in range(4)], allow_southern=True)
            c.fact(m > 0)
            c.fact(mk(m == T.sabs(self.A.dot(q))))
            st[self.m] = m
            self.kept = q
            name = ATT.get('qname')
            if name is None:
                cand = [n for n in self.nm if n not in self.known]
                name = ATT['qname'] = 'min_quat_sym' if 'min_quat_sym' in cand else cand[-1]
            st[name] = q
        self.cur = st
        c.merge_limit = 0 if tag == 'pre' else c.merge_limit
        return st

    def havoc(self):
        c = CTX()
        st = self.state_('pre')
        # any unit quaternion: the step is proved for more than the operators
        o = unit_vec(c.fresh('operator'), 4)
        self.op = S().quat.Quat(*o, allow_southern=True)
        return st

    def item(self):
        return self.op

    def step(self, locs):
        c = CTX()
        m1 = SReal.of(locs[self.m])
        m0 = SReal.of(self.cur[self.m])
        want = T.sabs(self.A.dot(self.op * self.B))
        c.prove('best value does not fall', m1 >= m0)
        c.prove('best value covers this equivalent', m1 >= want)
        q = locs.get('min_quat_sym')
        if q is None:
            nm = [n for n in self.nm if n == ATT.get('qname')]
            q = locs.get(nm[0]) if nm else None
        if isinstance(q, Poison) or q is None:
            c.prove('nothing kept only while the best value is zero', mk(m1 == 0))
            return
        c.prove('kept equivalent attains the best value', mk(m1 == T.sabs(self.A.dot(q))))
        eq = [q[k] for k in range(4)]
        nw = self.op * self.B
        opts = [and_(*[mk(eq[k] == nw[k]) for k in range(4)])]
        if self.kept is not None:
            opts.append(and_(*[mk(eq[k] == self.kept[k]) for k in range(4)]))
        c.prove('kept orientation is an equivalent of the second', or_(*opts))

    def after(self):
        c = CTX()
        st = self.state_('post')
        m = SReal.of(st[self.m])
        for s in self.items:
            c.fact(m >= T.sabs(self.A.dot(s * self.B)))
        return st


ATT = {}


def attained(ctx, g):
    # of either sign
    Q = S().quat.Quat
    a, b = unit_vec('a', 4), unit_vec('b', 4)
    A, B = Q(*a, allow_southern=True), Q(*b, allow_southern=True)
    ATT.clear()
    ATT.update(A=A, B=B, a=a, g=g)
    # the sum of the squared dots is a positive constant (Schur), so not all
    # dots vanish
    tot = SReal.const(0)
    ss = syms(g)
    ds = []
    for s in ss:
        d = A.dot(s * B)
        tot = tot + d * d
        ds.append(d)
    ok = ctx.prove_eq('lemma: squared dots over the group add up to a quarter of its order', tot, len(ss) // 4)
    LOOPS['defdap.quat.Quat.mis_ori#*'] = Attained
    try:
        r = A.mis_ori(B, g, return_quat=2)
    finally:
        LOOPS.pop('defdap.quat.Quat.mis_ori#*', None)
    ctx.prove('value and equivalent returned', isinstance(r, tuple) and len(r) == 2)
    m, q = r
    if isinstance(q, Poison):
        # excluded: then the best value is 0, every dot is 0, but their squares add up to a positive constant
        good = all([ctx.prove('dot is zero when nothing is kept', mk(SReal.of(d) == 0)) for d in ds])
        ctx.prove('some equivalent is kept', ok and good and len(ss) // 4 > 0)
        return
    ctx.prove_eq('returned equivalent attains the value', m, T.sabs(A.dot(q)))


@target('attained_cubic')
def t8(ctx):
    attained(ctx, 'cubic')


@target('attained_hexagonal')
def t9(ctx):
    attained(ctx, 'hexagonal')


