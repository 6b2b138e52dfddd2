"""C21: the proximity map."""
from pydv.contract import *
from pydv.loops import InvFor, LOOPS, domain

LEVEL = 'proof'
NOTE = '''Maps of any size, any list of boundary points, any number of trials per batch (at least one); floats treated as exact reals.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; the square root is the exact one',
    'contract of numpy.min along the first axis: one of the values, and none is smaller',
    'the boundary points of the map are those of the boundary set (C13)',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


class World:
    def __init__(self, ctx, n):
        self.h, self.w = dims('h', 'w')
        self.n = n
        self.by = lambda t: iapp('by', [t])
        self.bx = lambda t: iapp('bx', [t])
        self.g = generic_index((self.h, self.w), 'g')
        self.t = ivar('t')       # an arbitrary boundary point
        ctx.fact(and_(self.t >= 0, self.t < n))
        self.rows = []           # rows at which the bound of a minimum is used
        self.found = []          # rows where a minimum is attained
        half = SReal.const(1) / 2
        self.D = lambda t, y, x: T.ssqrt((y - self.by(t) - half) * (y - self.by(t) - half) + (x - self.bx(t) - half) * (x - self.bx(t) - half))
        ctx.on_reduction = self.reduction
        self.cap = SReal.const(1000)

    def map(self):
        m = S().ebsd.Map.__new__(S().ebsd.Map)
        m.shape = (self.h, self.w)
        m.data = Obj()
        m.data.grain_boundaries = Obj()
        m.data.grain_boundaries.points = SSeq(self.n, lambda k: (self.bx(k), self.by(k)))
        return m

    def dist(self, t):
        return self.D(t, *self.g)

    def reduction(self, kind, r, red):
        if kind != 'min' or len(red.ra) != 1:
            return
        c = CTX()
        k = ivar(f'{c.fresh("attained")}')
        n = red.ra[0]
        c.define(implies(mk(n > 0), and_(k >= 0, k < n, mk(r == red.at([k])))))
        self.found.append(k)
        for q in self.rows:
            c.define(implies(and_(q >= 0, q < n), mk(r <= red.at([q]))))


class Trials(InvFor):
    """each stored value is the start value or the distance of a point that was
    visited; for each visited point one of the values is at most its distance"""
    cur = None

    def entry(self, locs):
        W, c = self.cur, CTX()
        self.dom = domain(self.it)
        W.loop = self
        same(c, 'all boundary points are visited', self.dom.len(), W.n)
        every = {**self.used, **locs}
        st = [n for n, v in every.items() if isinstance(v, SArr) and v.d_ == 'f' and len(v.shape) == 3 and not isinstance(v.shape[0], int)]
        ints = [n for n, v in locs.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        c.prove('entry: one array of trials', len(st) == 1)
        c.prove('entry: one counter', len(ints) == 1)
        if len(st) != 1 or len(ints) != 1:
            raise Unsupported('variables of the loop')
        self.arr, self.cnt = every[st[0]], ints[0]
        a = self.arr
        for k, l in zip(a.shape[1:], (W.h, W.w)):
            same(c, 'entry: shape', k, l)
        self.rows = a.shape[0]
        same(c, 'entry: counter', locs[self.cnt], 1)
        k = generic_index((self.rows,), 'row')[0]
        same(c, 'entry: start value', a.get((k, *W.g)), W.cap)
        c.prove('entry: there is a row', self.rows > 1)

    def value(self, i):
        W, p = self.cur, iapp('origin', list(i))
        CTX().define(p < self.i)
        return ite(p < 0, W.cap, W.D(p, *i[1:]))

    def cover(self, t):
        """a row that accounts for the point t (or for the start value, t = -1)"""
        k = iapp('cover', [t])
        c, W = CTX(), self.cur
        c.fact(implies(and_(t < self.i, t >= -1), and_(k >= 0, k < self.j)))
        c.fact(implies(and_(t < self.i, t >= 0), mk(self.old((k, *W.g)) <= W.dist(t))))
        c.fact(implies(mk(t == -1), mk(self.old((k, *W.g)) <= W.cap)))
        return k

    def old(self, i):
        return self.value(i)

    def state_(self):
        W, c = self.cur, CTX()
        a = self.arr
        a.buf.write((None,) * 3, None, self.value)
        j = ivar('j')
        c.fact(and_(j >= 1, j < self.rows))
        self.j = j
        W.rows += [self.cover(W.t), self.cover(-1), j]
        return {self.cnt: j}

    def havoc(self):
        W, c = self.cur, CTX()
        self.i = ivar('visit')
        c.fact(and_(self.i >= 0, self.i < W.n))
        return self.state_()

    def item(self):
        return self.dom.value(self.dom.unindex(self.i))

    def step(self, locs):
        W, c = self.cur, CTX()
        a, j2 = self.arr, locs[self.cnt]
        c.prove('counter in range', and_(j2 >= 1, j2 < self.rows))
        c.prove('same number of rows', mk(a.shape[0] == self.rows))
        k = generic_index((self.rows,), 'row')[0]
        new = lambda r: a.get((r, *W.g))
        v, v0 = new(k), new(0)
        was = [self.old((r, *W.g)) for r in (k, *W.found)]
        ok = [and_(r >= 0, r < self.rows) for r in (k, *W.found)]
        c.prove('each value is the start value or a distance',
                or_(mk(v == W.cap), mk(v == W.dist(self.i)), *[and_(o, mk(v == x)) for o, x in zip(ok, was)]))
        for name, t, cond in (('an earlier point', W.t, mk(W.t < self.i)), ('the point', self.i, None), ('the start value', -1, None)):
            d = W.cap if name == 'the start value' else W.dist(t)
            rows = [0, self.j] if name == 'the point' else [0, iapp('cover', [t])]
            goal = or_(*[and_(r >= 0, r < j2, mk(new(r) <= d)) for r in rows])
            with c.scope([cond] if cond is not None else []):
                c.prove(f'{name} is accounted for', goal)

    def after(self):
        self.i = self.cur.n
        return self.state_()


@target('proxigram', functions=['base.Map.calc_proxigram'])
def t1(ctx):
    n = dims('n')
    W = World(ctx, n)
    Trials.cur = W
    LOOPS['defdap.base.Map.calc_proxigram#*'] = Trials
    m = W.map()
    tr = dims('trials')
    out = m.calc_proxigram(num_trials=tr)
    ctx.prove('axes', len(out.shape) == 2)
    for k, l in zip(out.shape, (W.h, W.w)):
        same(ctx, 'shape', k, l)
    v = out.get(W.g)
    ctx.prove('no boundary point is nearer', v <= W.dist(W.t))
    ctx.prove('at most the start value', v <= W.cap)
    for k in W.found:
        # the state at the end of the loop, at the row where the minimum is attained
        e = W.loop.value((k, *W.g))
        o = iapp('origin', [k, *W.g])
        with ctx.scope([o < 0]):
            ctx.prove('the start value', mk(v == W.cap))
        with ctx.scope([o >= 0]):
            ctx.prove('a boundary point', o < n)
            ctx.prove('the distance of a boundary point', mk(v == W.dist(o)))
    ctx.prove('one minimum', len(W.found) == 1)


@target('none', functions=['base.Map.calc_proxigram'])
def t2(ctx):
    n = dims('n')
    W = World(ctx, n)
    m = W.map()
    m.data.grain_boundaries.points = []
    out = m.calc_proxigram(num_trials=dims('trials'))
    for k, l in zip(out.shape, (W.h, W.w)):
        same(ctx, 'shape', k, l)
    ctx.prove('the start value without boundaries', mk(out.get(W.g) == W.cap))
