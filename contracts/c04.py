"""C04: bulk orientation calculations."""
from pydv.contract import *
from pydv.loops import InvFor, LOOPS
from pydv.rt import DvList
from pydv.seqs import SSeq

LEVEL = 'proof'
NOTE = '''Any number of orientations, both crystal classes; floats treated as exact reals; the average is proved step by step (a loop
invariant gives the induction).'''
ASSUME = [
    'floating point is treated as exact real arithmetic',
    'the average over any number of orientations follows from the proved step by induction over the points',
]
TARGETS = {}
target = register(TARGETS)
SIZE = {'cubic': 24, 'hexagonal': 12}


def quats(n, name='comp'):
    Q = S().quat.Quat
    comp = arr((4, n), name)

    def at(k):
        return Q(*[comp.get((j, k)) for j in range(4)], allow_southern=True)
    qs = DvList()
    qs._set(SSeq(n, at))
    return qs, at


def table(ctx, g):
    Q = S().quat.Quat
    n = dims('n')
    qs, at = quats(n)
    t = Q.calc_sym_eqvs(qs, g)
    ss = list(Q.sym_eqv(g))
    ctx.prove('shape of the table', len(t.shape) == 3 and t.shape[0] == SIZE[g] and t.shape[1] == 4 and mk(t.shape[2] == n) is True)
    k, = generic_index((n,), 'g')
    q = at(k)
    for i, s in enumerate(ss):
        p = s * q
        if i == 0:
            p = q
        for j in range(4):
            ctx.prove_eq(f'equivalent {i} component {j}', t.get((i, j, k)), p[j])


@target('table_cubic')
def t1(ctx):
    table(ctx, 'cubic')


@target('table_hexagonal')
def t2(ctx):
    table(ctx, 'hexagonal')


def bulk(ctx, g):
    Q = S().quat.Quat
    n = dims('n')
    c = arr((SIZE[g], 4, n), 'table')
    ref = Q(*vec('ref', 4), allow_southern=True)
    vals, comps = Q.calcMisOri(c, ref)
    ctx.prove('one value per orientation', len(vals.shape) == 1 and mk(vals.shape[0] == n) is True)
    ctx.prove('one quaternion per orientation', len(comps.shape) == 2 and comps.shape[0] == 4 and mk(comps.shape[1] == n) is True)
    k, = generic_index((n,), 'g')
    ds = []
    for i in range(SIZE[g]):
        d = SReal.const(0)
        for j in range(4):
            d = d + SReal.of(c.get((i, j, k))) * ref[j]
        ds.append(T.sabs(d))
    v = SReal.of(vals.get((k,)))
    best = T.smax(*ds)
    same(ctx, 'largest |dot|, at most 1', v, ite(best > 1, SReal.const(1), best))
    t = rvar('t')
    ctx.prove('never above one', ite(t > 1, SReal.const(1), t) <= 1)
    return c, ref, comps, k, ds, best


@target('bulk_cubic')
def t3(ctx):
    bulk(ctx, 'cubic')


@target('bulk_hexagonal')
def t4(ctx):
    bulk(ctx, 'hexagonal')


@target('bulk_equivalent', timeout=40)
def t5(ctx):
    """the reported quaternion is the one of the table with the largest |dot|"""
    Q = S().quat.Quat
    n = dims('n')
    m = 3
    c = arr((m, 4, n), 'table')
    ref = Q(*vec('ref', 4), allow_southern=True)
    vals, comps = Q.calcMisOri(c, ref)
    k, = generic_index((n,), 'g')
    ds = [T.sabs(sum((SReal.of(c.get((i, j, k))) * ref[j] for j in range(4)), SReal.const(0))) for i in range(m)]
    opts = []
    for i in range(m):
        opts.append(and_(*[mk(SReal.of(comps.get((j, k))) == SReal.of(c.get((i, j, k)))) for j in range(4)],
                         *[ds[i] >= d for d in ds]))
    ctx.prove('reported equivalent attains the value', or_(*opts))


ST = {}


class Step(InvFor):
    """One step of the average, from an arbitrary average so far: the entry
    added is the one with the largest |dot| with the average, with the sign
    that makes the dot product non-negative."""

    def entry(self, locs):
        c = CTX()
        cand = [k for k, v in locs.items() if isinstance(v, SArr) and len(v.shape) == 1 and v.shape[0] == 4]
        if len(cand) != 1:
            raise Unsupported(f'expected one running average, found {cand}')
        self.av = cand[0]
        for j in range(4):
            c.prove_eq(f'the average starts as the first orientation [{j}]', locs[self.av].get((j,)), ST['comps'].get((0, j, 0)))
        self.dom = loops.domain(self.it)
        c.prove('every further orientation is used', mk(self.dom.len() == ST['n'] - 1))
        self.k = self.dom.fresh()
        self.val = self.dom.value(self.k)

    def havoc(self):
        c = CTX()
        c.fact(self.dom.cond(self.k))
        c.prove('orientations are taken one by one', mk(self.val == self.k[0] + 1))
        out = {}
        for k, v in self.pre.items():
            if isinstance(v, SArr) and v is not ST['comps']:
                out[k] = np.copy(arr(v.shape, 'before_' + k))
            elif k != 'quat_comps' and not callable(v) and v is not ST['comps'] and not isinstance(v, (int, float)):
                pass
            if k not in out:
                out[k] = v
        self.a0 = [SReal.of(out[self.av].get((j,))) for j in range(4)]
        return out

    def item(self):
        return self.val

    def step(self, locs):
        c = CTX()
        a1 = [SReal.of(locs[self.av].get((j,))) for j in range(4)]
        q = ST['comps']
        m = ST['m']
        ds = [sum((SReal.of(q.get((i, j, self.val))) * self.a0[j] for j in range(4)), SReal.const(0)) for i in range(m)]
        ab = [T.sabs(d) for d in ds]
        opts = []
        for i in range(m):
            sg = ite(ds[i] < 0, SReal.const(-1), SReal.const(1))
            eq = [mk(a1[j] == self.a0[j] + sg * q.get((i, j, self.val))) for j in range(4)]
            if m <= 4:
                opts.append(and_(*eq, *[ab[i] >= d for d in ab]))
            else:
                best = and_(*[ab[i] > ab[k] for k in range(m) if k != i])
                c.prove(f'when equivalent {i} is the closest it is added, in the hemisphere of the average', implies(best, and_(*eq)))
        if m <= 4:
            c.prove('one of the closest equivalents is added, in the hemisphere of the average', or_(*opts))

    def after(self):
        c = CTX()
        f = vec('sum', 4)
        c.fact(f[0] * f[0] + f[1] * f[1] + f[2] * f[2] + f[3] * f[3] > 0)
        ST['sum'] = f
        out = dict(self.pre)
        out[self.av] = np.array(f)
        return out


def average(ctx, m):
    Q = S().quat.Quat
    n = dims('n')
    q = arr((m, 4, n), 'comps')
    ST.update(comps=q, n=n, m=m)
    LOOPS['defdap.quat.Quat.calc_average_ori#*'] = Step
    a = Q.calc_average_ori(q)
    f = ST['sum']
    ctx.prove('northern', a[0] >= 0)
    ctx.prove_eq('unit', a.dot(a), 1)
    for j in range(4):
        for k in range(j):
            ctx.prove_eq(f'same direction as the sum [{k},{j}]', a[j] * f[k], a[k] * f[j])
    # adding an entry or its negative is the same step
    d, e = rvar('d'), rvar('e')
    sg = ite(d < 0, SReal.const(-1), SReal.const(1))
    s2 = ite(-d < 0, SReal.const(-1), SReal.const(1))
    ctx.prove('q and -q give the same step', or_(mk(d == 0), mk(sg * e == s2 * -e)))


@target('average_ties')
def t8(ctx):
    average(ctx, 4)


@target('average_hexagonal')
def t6(ctx):
    average(ctx, SIZE['hexagonal'])


@target('average_cubic')
def t7(ctx):
    average(ctx, SIZE['cubic'])
