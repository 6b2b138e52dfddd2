"""C14: grains of an EBSD map."""
from pydv.contract import *
from pydv.loops import InvFor, InvWhile, LOOPS, WHILE, SeqDomain, LoopIt

LEVEL = 'proof'
NOTE = '''Maps of any size, any boundary images that separate the phases, any minimum size.'''
ASSUME = [
    'pigeonhole: as many distinct pixels as were counted fit into the map',
]
TARGETS = {}
target = register(TARGETS)
DIRS = ((0, 1), (0, -1), (1, 0), (-1, 0))


class Obj:
    pass


class World:
    """A map with boundaries that separate the phases, and the pixels F that
    earlier fills have taken (o of them, closed under steps that cross no
    boundary).  Facts for all pixels are stated for the pixels that matter."""

    def __init__(self):
        c = CTX()
        self.h, self.w = dims('h', 'w')
        self.shape = (self.h, self.w)
        self.bx, self.by = arr(self.shape, 'bx', 'b'), arr(self.shape, 'by', 'b')
        self.phase = arr(self.shape, 'phase', 'i')

    def inside(self, p):
        y, x = p
        return and_(y >= 0, y < self.h, x >= 0, x < self.w)

    def open(self, p, d):
        """p and its neighbour in direction d are inside and no boundary is
        between them; with what separating the phases means for them"""
        q = (p[0] + d[0], p[1] + d[1])
        a = p if d in ((0, 1), (1, 0)) else q
        nm = 'bx' if d[0] == 0 else 'by'
        o = and_(self.inside(p), self.inside(q), not_(bapp(nm, a)))
        CTX().fact(implies(o, mk(iapp('phase', p) == iapp('phase', q))))
        return o, q


def eq(p, q):
    return and_(mk(p[0] == q[0]), mk(p[1] == q[1]))


class Before:
    """State before a fill: what the caller guarantees."""

    def __init__(self, W, index, tag='0'):
        self.W, self.tag = W, tag
        self.o = ivar('o' + tag)
        c = CTX()
        c.fact(self.o >= 0)
        self.index = index

    def F(self, p):
        r = iapp('rank' + self.tag, p)
        return and_(r >= 0, r < self.o, self.W.inside(p))

    def G(self, p):
        g = iapp('grains' + self.tag, p)
        CTX().fact(implies(and_(g > 0, self.W.inside(p)), self.F(p)))
        CTX().fact(g < self.index)
        return g

    def P(self, p):
        return bapp('left' + self.tag, p)

    def closed(self, p, d):
        o, q = self.W.open(p, d)
        CTX().fact(implies(and_(o, self.F(q)), self.F(p)))
        CTX().fact(implies(and_(o, self.F(p)), self.F(q)))
        return o, q


class State:
    """An arbitrary state of a fill that satisfies the invariant."""

    def __init__(self, B, seed, tag):
        self.B, self.W, self.t, self.seed = B, B.W, tag, seed
        c = CTX()
        self.n, self.m = ivar('n' + tag), ivar('m' + tag)
        c.fact(and_(self.n >= 1, self.m >= 0))
        c.fact(B.o + self.n <= B.W.h * B.W.w)
        self.point(0)
        c.fact(eq(self.C(0), seed))

    def C(self, k):
        return iapp(f'cy{self.t}', [k]), iapp(f'cx{self.t}', [k])

    def A(self, p):
        return iapp(f'A{self.t}', p)

    def added(self, p):
        a = self.A(p)
        return and_(a >= 0, a < self.n)

    def point(self, k):
        """what is known of the k-th point"""
        C, W = self.C(k), self.W
        i = and_(k >= 0, k < self.n)
        CTX().fact(implies(i, and_(W.inside(C), mk(self.A(C) == k), not_(self.B.F(C)), mk(iapp('phase', C) == iapp('phase', self.seed)))))
        return C

    def pixel(self, p):
        """what is known of a pixel"""
        CTX().fact(and_(self.A(p) < self.n, implies(self.added(p), eq(self.C(self.A(p)), p))))
        self.point(self.A(p))

    def G(self, p):
        return ite(self.added(p), self.B.index, self.B.G(p))

    def E(self, j):
        return iapp(f'ey{self.t}', [j]), iapp(f'ex{self.t}', [j])

    def S(self, p):
        return iapp(f'S{self.t}', p)

    def instack(self, p):
        s = self.S(p)
        CTX().fact(implies(and_(s >= 0, s < self.m), eq(self.E(s), p)))
        return and_(s >= 0, s < self.m)

    def stack(self, j):
        CTX().fact(implies(and_(j >= 0, j < self.m), self.added(self.E(j))))
        self.pixel(self.E(j))
        return self.E(j)

    def closure(self, p, d):
        """pixels that were dealt with have no unfilled open neighbour"""
        o, q = self.B.closed(p, d)
        CTX().fact(implies(and_(self.added(p), not_(self.instack(p)), o), self.G(q) > 0))

    def parent(self, k):
        """a point before the k-th that is next to it"""
        u = iapp(f'par{self.t}', [k])
        CTX().fact(implies(and_(k > 0, k < self.n), and_(u >= 0, u < k, self.next_to(self.point(u), self.point(k)))))
        return u

    def next_to(self, p, q):
        return or_(*[and_(self.W.open(p, d)[0], eq(self.W.open(p, d)[1], q)) for d in DIRS])


class Goals:
    """obligations proved together"""

    def __init__(self):
        self.l = []

    def prove(self, name, g):
        self.l.append((name, g))

    def same(self, name, a, b):
        self.prove(name, T.iff(SBool.of(a), SBool.of(b)) if isinstance(a, (SBool, bool)) else mk(a == b))

    def done(self):
        CTX().prove_all(self.l)
        self.l = []


class Stack:
    _dv_seq = True

    def __init__(self, st):
        self.st, self.m, self.new, self.popped = st, st.m, [], []

    def __bool__(self):
        return bool(mk(self.m > 0)) or bool(self.new)

    def _dv_len(self):
        return self.m + len(self.new)

    def __len__(self):
        raise Unsupported('len')

    def pop(self, k=-1):
        if self.new or k != -1:
            raise Unsupported('order of the stack')
        CTX().prove('pop of a non-empty list', self.m > 0)
        p = self.st.stack(self.m - 1)
        self.m = self.m - 1
        self.popped.append(p)
        return p[1], p[0]

    def append(self, v):
        self.new.append((v[1], v[0]))


class Fill(InvWhile):
    cur = None

    def names_of(self, locs):
        """the stack and the counter, by what they hold"""
        st = [n for n, v in locs.items() if isinstance(v, (list, Stack)) and n not in ('moves',)]
        ct = [n for n, v in locs.items() if type(v) is int and v == 1]
        return st, ct

    def entry(self, locs):
        c, q = CTX(), self.cur
        B, W = q.B, q.B.W
        st, ct = self.names_of(locs)
        c.prove('entry: one stack and one counter', len(st) == 1 and len(ct) == 1)
        if len(st) != 1 or len(ct) != 1:
            raise Unsupported('variables of the fill')
        self.sn, self.cn = st[0], ct[0]
        l = list(locs[self.sn])
        c.prove('entry: the seed is to be dealt with', len(l) == 1 and eq((l[0][1], l[0][0]), q.seed))
        c.prove('entry: the seed is the first point', and_(mk(q.C.get((0, 0)) == q.seed[1]), mk(q.C.get((0, 1)) == q.seed[0])))
        g = generic_index(W.shape, 'entry')
        at = eq(g, q.seed)
        c.prove('entry: only the seed is set', mk(q.G.get(g) == ite(at, B.index, B.G(g))))
        same(c, 'entry: only the seed is taken', q.P.get(g), and_(B.P(g), not_(at)))
        # one more pixel than F fits
        c.prove('entry: the seed was free', not_(B.F(q.seed)))
        c.fact(B.o + 1 <= W.h * W.w)

    def havoc(self):
        q = self.cur
        st = self.st = State(q.B, q.seed, '1')
        q.st = st
        all2 = (None, None)
        q.G.buf.write(all2, None, lambda i: st.G(i))
        q.P.buf.write(all2, None, lambda i: and_(q.B.P(i), not_(st.added(i))))
        q.C.buf.write(all2, None, lambda i: ite(mk(i[1] == 0), st.C(i[0])[1], st.C(i[0])[0]))
        self.stack = Stack(st)
        return {self.sn: self.stack, self.cn: st.n}

    def body_starts(self):
        # the pixel at the top of the stack and its neighbours
        st = self.st
        p = st.stack(st.m - 1)
        c = CTX()
        # the cases of the target (together exhaustive)
        for cond, bit in zip((p[1] <= 0, p[1] >= st.W.w - 1, p[0] <= 0), self.cur.case):
            c.fact(cond if bit else not_(cond))
        for d in DIRS:
            o, q = st.B.closed(p, d)
            st.pixel(q)
            st.G(q)
        # pigeonhole: F, the points so far and the free neighbours are distinct
        # pixels of the map
        B, W = st.B, st.W
        nbs = [(p[0] + d[0], p[1] + d[1]) for d in DIRS]
        free = [and_(W.inside(q), not_(B.F(q)), not_(st.added(q))) for q in nbs]
        c.fact(B.o + st.n + sum((ite(f, SInt.const(1) if hasattr(SInt, 'const') else 1, 0) for f in free), 0) <= W.h * W.w)
        right = self.cur.right
        if right is not None:
            g = st.G(nbs[0]) > 0
            k = self.W_bx(p)
            c.fact({'filled': g, 'blocked': and_(not_(g), k), 'free': and_(not_(g), not_(k))}[right])

    def W_bx(self, p):
        return bapp('bx', p)

    def step(self, locs):
        c, q, st = Goals(), self.cur, self.st
        B, W = q.B, q.B.W
        s, n2 = locs[self.sn], locs[self.cn]
        new = s.new
        c.prove('one pixel dealt with', len(s.popped) == 1)
        p = s.popped[0]
        c.same('every new point is counted', n2, st.n + len(new))
        # counting of several new points
        for i, z in enumerate(new):
            c.prove('new point free and inside', and_(W.inside(z), not_(B.F(z)), not_(st.added(z)), *[not_(eq(z, u)) for u in new[:i]]))
            c.done()
            CTX().fact(B.o + st.n + i + 1 <= W.h * W.w)
            c.prove('new point of the same phase', mk(iapp('phase', z) == iapp('phase', q.seed)))
            c.prove('new point next to an earlier one', and_(st.added(p), st.next_to(p, z)))

        def A2(g):
            a = st.A(g)
            for i, z in enumerate(new):
                a = ite(eq(g, z), st.n + i, a)
            return a

        def added2(g):
            a = A2(g)
            return and_(a >= 0, a < n2)

        def G2(g):
            return ite(added2(g), B.index, B.G(g))
        k = ivar('gk')
        CTX().fact(and_(k >= 0, k < n2))
        old = mk(k < st.n)
        C = st.point(k)
        for i, z in enumerate(new):
            C = tuple(ite(mk(k == st.n + i), b, a) for a, b in zip(C, z))
        c.prove('point list', and_(mk(q.C.get((k, 0)) == C[1]), mk(q.C.get((k, 1)) == C[0])))
        c.prove('every point once', mk(A2(C) == k))
        c.prove('points inside and free', and_(W.inside(C), not_(B.F(C))))
        g = generic_index(W.shape, 'gp')
        st.pixel(g)
        c.prove('grain image', mk(q.G.get(g) == G2(g)))
        c.same('pixels left', q.P.get(g), and_(B.P(g), not_(added2(g))))
        a = A2(g)
        Ca = st.C(a)
        for i, z in enumerate(new):
            Ca = tuple(ite(mk(a == st.n + i), b, e) for e, b in zip(Ca, z))
        c.prove('rank of a pixel', implies(added2(g), eq(Ca, g)))
        # stack: old entries below the top, then the new ones
        m2 = st.m - 1
        S2 = st.S(g)
        st.instack(g)
        S2 = ite(and_(S2 >= 0, S2 < m2), S2, -1)
        for i, z in enumerate(new):
            S2 = ite(eq(g, z), m2 + i, S2)
        E2 = st.E(S2)
        for i, z in enumerate(new):
            E2 = tuple(ite(mk(S2 == m2 + i), b, e) for e, b in zip(E2, z))
        ins = and_(S2 >= 0, S2 < m2 + len(new))
        c.prove('what remains is a pixel of the stack', implies(ins, eq(E2, g)))
        j = ivar('gj')
        CTX().fact(and_(j >= 0, j < m2))
        z = st.stack(j)
        c.prove('the stack holds points of the region', and_(added2(z), *[added2(u) for u in new]))
        for d in DIRS:
            st.closure(g, d)
            o, nb = B.closed(g, d)
            st.pixel(nb)
            c.prove(f'pixels dealt with are closed {d}', implies(and_(added2(g), not_(ins), o), G2(nb) > 0))
        c.done()


def fill_setup(ctx):
    A = S()._accelerated
    W = World()
    index = ivar('index')
    ctx.fact(index >= 1)
    B = Before(W, index)
    seed = (ivar('sy'), ivar('sx'))
    ctx.fact(W.inside(seed))
    ctx.fact(not_(B.F(seed)))
    q = Obj()
    q.B, q.seed = B, seed
    q.G = SArr.fn(W.shape, lambda i: B.G(i), 'i')
    q.P = SArr.fn(W.shape, lambda i: B.P(i), 'b')
    L = W.h * W.w - B.o
    ctx.fact(L >= 1)
    c0 = lambda i: iapp('buffer', i)
    q.C = SArr.fn((L, 2), c0, 'i')
    Fill.cur = q
    WHILE['defdap._accelerated.flood_fill#*'] = Fill
    return A, W, B, q, seed, index


def flood_fill(ctx, case, right=None):
    A, W, B, q, seed, index = fill_setup(ctx)
    q.case, q.right = case, right
    r = A.flood_fill((seed[1], seed[0]), index, q.P, q.G, W.bx, W.by, q.C)
    st = q.st
    same(ctx, 'number of points', r.shape[0], st.n)
    ctx.prove('pairs', r.shape[1] == 2)
    k = ivar('k')
    ctx.fact(and_(k >= 0, k < st.n))
    C = st.point(k)
    ctx.prove('the points are those of the region', and_(mk(r.get((k, 0)) == C[1]), mk(r.get((k, 1)) == C[0])))
    g = generic_index(W.shape, 'g')
    st.pixel(g)
    ctx.prove('the region is set in the image', mk(q.G.get(g) == ite(st.added(g), index, B.G(g))))
    same(ctx, 'the region is taken', q.P.get(g), and_(B.P(g), not_(st.added(g))))
    for d in DIRS:
        st.closure(g, d)
        o, nb = B.closed(g, d)
        st.pixel(nb)
        ctx.prove(f'nothing left to fill {d}', implies(and_(st.added(g), o), st.added(nb)))


FF = dict(functions=['defdap._accelerated.flood_fill'], max_paths=1000, merge=0)


@target('flood_inner_filled', **FF)
def f0filled(ctx):
    flood_fill(ctx, (0, 0, 0), 'filled')


@target('flood_inner_blocked', **FF)
def f0blocked(ctx):
    flood_fill(ctx, (0, 0, 0), 'blocked')


@target('flood_inner_free', **FF)
def f0free(ctx):
    flood_fill(ctx, (0, 0, 0), 'free')


@target('flood_left', **FF)
def f1(ctx):
    flood_fill(ctx, (1, 0, 0))


@target('flood_right', **FF)
def f2(ctx):
    flood_fill(ctx, (0, 1, 0))


@target('flood_column', **FF)
def f3(ctx):
    flood_fill(ctx, (1, 1, 0))


@target('flood_top', **FF)
def f4(ctx):
    flood_fill(ctx, (0, 0, 1))


@target('flood_top_left', **FF)
def f5(ctx):
    flood_fill(ctx, (1, 0, 1))


@target('flood_top_right', **FF)
def f6(ctx):
    flood_fill(ctx, (0, 1, 1))


@target('flood_top_column', **FF)
def f7(ctx):
    flood_fill(ctx, (1, 1, 1))


# --------------------------------------------------------------------------
# the loop over the grains
# --------------------------------------------------------------------------
class GrainStub:
    """What find_grains needs of a grain: its number, its points, the values
    of an image at its points (C19)."""

    def __init__(self, grain_id, owner, group_id):
        self.grain_id, self.ebsd_map, self.group_id = grain_id, owner, group_id
        self.data = Obj()
        self.marks = {}

    def _dv_len(self):
        return self.data.point.shape[0]

    def __len__(self):
        raise Unsupported('len')

    def grain_data(self, image):
        self.asked = image
        return self.values


class GrainList:
    """g grains found so far, and those appended since"""
    _dv_seq = True
    _dv_loop = True

    def __init__(self, O):
        self.O, self.new = O, []

    def append(self, x):
        self.new.append(x)

    def _dv_len(self):
        return self.O.g + len(self.new)

    def __bool__(self):
        return bool(mk(self.O.g > 0)) or bool(self.new)

    def __getitem__(self, k):
        return self.O.grain(k)

    def _dv_domain(self):
        return SeqDomain(self._dv_len(), self.O.grain)


def element(it, k):
    """element k of a loop over the grains (possibly enumerated), and the grain"""
    from pydv.loops import domain
    v = domain(it).value((k,))
    g = [x for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, GrainStub)]
    if len(g) != 1:
        raise Unsupported('loop over something else than the grains')
    return v, g[0]


class Outer:
    """An arbitrary state of the loop that satisfies the invariant: o pixels
    are taken, in the order of their rank, by g grains and by regions that were
    too small."""

    def __init__(self, W, q):
        c = CTX()
        self.W, self.q = W, q
        self.o, self.g = ivar('o0'), ivar('g')
        c.fact(and_(self.o >= 0, self.g >= 0, self.o <= W.h * W.w))
        self.np, self.fp = ivar('next'), ivar('found')
        c.fact(and_(self.fp >= -1, self.np >= -1))
        self.l0 = None

    def rank(self, p):
        return iapp('rank0', p)

    def F(self, p):
        r = self.rank(p)
        f = and_(r >= 0, r < self.o, self.W.inside(p))
        return f

    def label(self, p):
        """image"""
        i = iapp('grains0', p)
        f = self.F(p)
        c = CTX()
        c.fact(implies(f, or_(mk(i == -2), and_(i >= 1, i <= self.g))))
        c.fact(implies(and_(self.W.inside(p), not_(f)), mk(i == 0)))
        c.fact(implies(f, mk(iapp('phase', p) != 0)))
        # the pixels of a grain are those of its stretch of ranks
        k = i - 1
        self.known(k)
        c.fact(implies(and_(f, i >= 1), and_(self.rank(p) >= self.off(k), self.rank(p) < self.off(k) + self.len(k))))
        c.fact(implies(f, eq(self.C(self.rank(p)), p)))
        return i

    def closed(self, p, d):
        o, q = self.W.open(p, d)
        c = CTX()
        c.fact(implies(o, iff(self.F(p), self.F(q))))
        c.fact(implies(and_(o, self.F(p)), mk(self.label(p) == self.label(q))))
        return o, q

    def C(self, r):
        return iapp('bufy', [r]), iapp('bufx', [r])

    def off(self, k):
        return iapp('off', [k])

    def len(self, k):
        return iapp('len', [k])

    def known(self, k):
        CTX().fact(implies(and_(k >= 0, k < self.g), and_(self.off(k) >= 0, self.len(k) >= self.q.min, self.len(k) >= 1,
                                                            self.off(k) + self.len(k) <= self.o)))

    def point(self, k, j):
        """the j-th point of grain k"""
        self.known(k)
        r = self.off(k) + j
        C = self.C(r)
        ok = and_(k >= 0, k < self.g, j >= 0, j < self.len(k))
        c = CTX()
        c.fact(implies(ok, and_(self.W.inside(C), mk(self.rank(C) == r), mk(iapp('grains0', C) == k + 1),
                                mk(iapp('phase', C) == iapp('phase', self.C(self.off(k)))))))
        u = iapp('parent0', [r])
        D = self.C(u)
        nx = or_(*[and_(self.W.open(D, d)[0], eq(self.W.open(D, d)[1], C)) for d in DIRS])
        c.fact(implies(and_(ok, j > 0), and_(u >= self.off(k), u < r, nx)))
        return C

    def P(self, p):
        return and_(mk(iapp('phase', p) != 0), not_(self.F(p)))

    def grain(self, k):
        """the k-th grain as the list holds it"""
        g = GrainStub(k, self.q.m, self.q.group)
        self.known(k)
        self.point(k, 0)
        s = self.q.full[self.off(k):self.off(k) + self.len(k)]
        g.data.point = s
        return g


def lin(W, l):
    from pydv import arr as A
    return A.unravel(l, W.shape)


class MainLoop(InvWhile):
    cur = None

    def entry(self, locs):
        c, q = CTX(), self.cur
        self.W = W = q.W
        c.prove('entry: no grain', len(locs['grain_list']) == 0)
        same(c, 'entry: first number', locs['grain_index'], 1)
        g = generic_index(W.shape, 'entry')
        q.G, q.P, q.full = locs['grains'], locs['points_left'], locs['coords_buffer']
        q.group = locs['group_id']
        eq_shape(c, 'entry: image', q.G.shape, W.shape)
        eq_shape(c, 'entry: pixels left', q.P.shape, W.shape)
        eq_shape(c, 'entry: buffer', q.full.shape, (W.h * W.w, 2))
        c.prove('entry: whole buffer', q.full.buf.shape[0] is q.full.shape[0] or mk(q.full.buf.shape[0] == q.full.shape[0]))
        same(c, 'entry: nothing set', q.G.get(g), 0)
        same(c, 'entry: indexed pixels are left', q.P.get(g), mk(iapp('phase', g) != 0))
        l = ivar('entry l')
        c.fact(and_(l >= 0, l < W.h * W.w))
        self.search(c, 'entry', q.P, locs['next_point'], locs['found_point'], l, l)

    def search(self, c, nm, P, n, f, l, inst):
        """the next free pixel"""
        W = self.W
        for r, _, i in getattr(c, 'finds', [])[-1:]:
            i(inst)
        p = lin(W, l)
        c.prove(f'{nm}: pixels before the next one are taken', implies(and_(f >= 0, l < n), not_(P.get(p))))
        c.prove(f'{nm}: no pixel left when none is found', implies(f < 0, not_(P.get(p))))
        c.prove(f'{nm}: within the map', implies(f >= 0, and_(n >= 0, n < W.h * W.w)))
        c.prove(f'{nm}: the next pixel is free', implies(f >= 0, P.get(lin(W, n))))

    def havoc(self):
        q, c = self.cur, CTX()
        W = q.W
        O = self.O = q.O = Outer(W, q)
        all2 = (None, None)
        q.G.buf.write(all2, None, lambda i: O.label(i))
        q.P.buf.write(all2, None, lambda i: O.P(i))
        q.full.buf.write(all2, None, lambda i: ite(mk(i[1] == 0), O.C(i[0])[1], O.C(i[0])[0]))
        c.fact(implies(O.fp >= 0, and_(O.np >= 0, O.np < W.h * W.w)))
        self.list = GrainList(O)
        self.i0 = ivar('progress')
        return {'grain_list': self.list, 'grain_index': O.g + 1, 'next_point': O.np, 'found_point': O.fp,
                'coords_buffer': q.full[O.o:], 'i': self.i0}

    def before(self, l):
        """invariant at the pixel with number l"""
        O, c = self.O, CTX()
        p = lin(self.W, l)
        i = and_(l >= 0, l < self.W.h * self.W.w)
        c.fact(implies(and_(i, O.fp >= 0, l < O.np), not_(O.P(p))))
        c.fact(implies(and_(i, O.fp < 0), not_(O.P(p))))
        return p

    def body_starts(self):
        c, O = CTX(), self.O
        c.fact(O.fp >= 0)
        s = lin(self.W, O.np)
        c.fact(O.P(s))
        self.seed = s
        self.cur.st = None

    def step(self, locs):
        c, q, O, W = CTX(), self.cur, self.O, self.W
        st = q.st
        new = locs['grain_list'].new
        c.prove('one region filled', st is not None)
        small = mk(st.n < q.min)
        kept = bool(not_(small))
        c.prove('a region is a grain exactly when it is large enough', len(new) == (1 if kept else 0))
        g2, o2 = O.g + len(new), O.o + st.n
        same(c, 'numbers without gaps', locs['grain_index'], g2 + 1)
        val = O.g + 1 if kept else -2
        p = generic_index(W.shape, 'sp')
        st.pixel(p)
        O.label(p)
        same(c, 'image', q.G.get(p), ite(st.added(p), val, O.label(p)))
        same(c, 'pixels left', q.P.get(p), and_(O.P(p), not_(st.added(p))))
        # ranks: those of the new region follow
        def F2(u):
            return or_(O.F(u), st.added(u))

        def L2(u):
            return ite(st.added(u), val, O.label(u))
        c.prove('a pixel is taken once', not_(and_(O.F(p), st.added(p))))
        c.prove('taken pixels are indexed', implies(F2(p), mk(iapp('phase', p) != 0)))
        for d in DIRS:
            o, nb = O.closed(p, d)
            st.closed_after(p, d)
            st.pixel(nb)
            c.prove(f'taken regions are closed {d}', implies(o, and_(iff(F2(p), F2(nb)), implies(F2(p), mk(L2(p) == L2(nb))))))
        # the buffer: earlier points stay, the new ones follow
        b = locs['coords_buffer']
        same(c, 'rest of the buffer', b.shape[0], W.h * W.w - o2)
        r = ivar('sr')
        c.fact(and_(r >= 0, r < o2))
        j = r - O.o
        st.point(j)
        e = O.C(r), st.C(j)
        for m in (0, 1):
            same(c, f'points in the buffer {m}', q.full.get((r, m)), ite(mk(r < O.o), e[0][1 - m], e[1][1 - m]))
            k2 = ivar(f'sb{m}')
            if bool(and_(k2 >= 0, k2 < b.shape[0])):
                # the buffer of the next fill is the part behind
                probe = T.mk(b.get((k2, m)) == q.full.get((o2 + k2, m)))
                c.prove(f'buffer of the next region {m}', probe)
        if kept:
            n = new[0]
            ctx_same = lambda a, x, y: same(c, a, x, y)
            ctx_same('number of the grain', n.grain_id, O.g)
            c.prove('map of the grain', n.ebsd_map is q.m and n.group_id is q.group)
            pts = n.data.point
            same(c, 'size of the grain', pts.shape[0], st.n)
            j = ivar('sj')
            c.fact(and_(j >= 0, j < st.n))
            C = st.point(j)
            for m in (0, 1):
                same(c, f'points of the grain {m}', pts.get((j, m)), C[1 - m])
            c.prove('the points of the grain carry its number', mk(q.G.get(C) == O.g + 1))
        # next pixel
        l = ivar('sl')
        c.fact(and_(l >= 0, l < W.h * W.w))
        pl = self.before(l)
        st.pixel(pl)
        st.pixel(self.seed)
        c.prove('the seed is taken', st.added(self.seed))
        self.search(c, 'next', q.P, locs['next_point'], locs['found_point'], l, l - O.np - 1)

    def after(self):
        CTX().fact(self.O.fp < 0)


def eq_shape(c, nm, a, b):
    c.prove(f'{nm}: axes', len(a) == len(b))
    for x, y in zip(a, b):
        same(c, f'{nm}: size', x, y)


class AfterFill(State):
    def closed_after(self, p, d):
        """contract of the fill: nothing left to fill next to the region"""
        o, nb = self.B.closed(p, d)
        CTX().fact(implies(and_(self.added(p), o), self.added(nb)))
        CTX().fact(implies(and_(self.added(nb), o), self.added(p)))


class BeforeInLoop:
    """the contract's view of the state in which the fill is called"""

    def __init__(self, O, index):
        self.O, self.W, self.o, self.index = O, O.W, O.o, index

    def F(self, p):
        return self.O.F(p)

    def G(self, p):
        return self.O.label(p)

    def P(self, p):
        return self.O.P(p)

    def closed(self, p, d):
        return self.O.closed(p, d)


def fill_contract(q):
    def flood_fill(seed, index, P, G, bx, by, C):
        c, O, W = CTX(), q.O, q.W
        s = (seed[1], seed[0])
        c.prove('fill: seed inside', W.inside(s))
        c.prove('fill: seed free', not_(O.F(s)))
        c.prove('fill: images', G is q.G and P is q.P and bx is W.bx and by is W.by)
        c.prove('fill: number', index >= 1)
        p = generic_index(W.shape, 'fp')
        same(c, 'fill: image before', G.get(p), O.label(p))
        c.prove('fill: image below the number', O.label(p) < index)
        c.prove('fill: positive pixels are taken', implies(O.label(p) > 0, O.F(p)))
        for d in DIRS:
            o, nb = O.closed(p, d)
            c.prove('fill: taken pixels are closed', implies(and_(o, O.F(p)), O.F(nb)))
        c.prove('fill: buffer holds the rest of the map', and_(mk(C.shape[0] == W.h * W.w - O.o), C.shape[1] == 2))
        B = BeforeInLoop(O, index)
        st = q.st = AfterFill(B, s, '1')
        c.fact(mk(iapp('phase', s) != 0))
        G.buf.write((None, None), None, lambda i: ite(st.added(i), index, O.label(i)))
        P.buf.write((None, None), None, lambda i: and_(O.P(i), not_(st.added(i))))
        k = ivar('fk')
        C[:st.n] = SArr.fn((st.n, 2), lambda i: ite(mk(i[1] == 0), st.C(i[0])[1], st.C(i[0])[0]), 'i')
        return C[:st.n]
    return flood_fill


class SmallLoop(InvFor):
    """the pixels of a region that is too small"""
    cur = None

    def entry(self, locs):
        self.st = self.cur.st
        same(CTX(), 'small: the points of the region', self.it.shape[0], self.st.n)

    def mark(self, j):
        q, st = self.cur, self.st
        O = q.O

        def f(i):
            st.pixel(i)
            return ite(and_(st.added(i), st.A(i) < j), -2, ite(st.added(i), O.g + 1, O.label(i)))
        q.G.buf.write((None, None), None, f)

    def havoc(self):
        self.j = ivar('small')
        CTX().fact(and_(self.j >= 0, self.j < self.st.n))
        self.st.point(self.j)
        self.mark(self.j)
        return {}

    def item(self):
        return self.it[self.j]

    def step(self, locs):
        q, st, c = self.cur, self.st, CTX()
        O = q.O
        p = generic_index(q.W.shape, 'mp')
        st.pixel(p)
        same(c, 'small: one more pixel flagged', q.G.get(p),
             ite(and_(st.added(p), st.A(p) < self.j + 1), -2, ite(st.added(p), O.g + 1, O.label(p))))

    def after(self):
        self.mark(self.st.n)
        return {}


class PhaseLoop(InvFor):
    cur = None

    def entry(self, locs):
        pass

    def havoc(self):
        return {}

    def item(self):
        q, c = self.cur, CTX()
        O = q.O
        k = self.k = ivar('grain')
        c.fact(and_(k >= 0, k < O.g))
        v, g = element(self.it, k)
        self.gr = g
        p0 = O.C(O.off(k))
        O.point(k, 0)
        O.label(p0)
        self.ph = q.W.phase.get(p0)
        # all points of a grain have the phase of its first one (Outer.point)
        g.values = SArr.fn((O.len(k),), lambda i: self.ph, 'i')
        return v

    def step(self, locs):
        q, c, g = self.cur, CTX(), self.gr
        c.prove('phase image read at the points', g.asked is q.W.phase)
        c.prove('phase number of the grain', hasattr(g, 'phase_id') and mk(g.phase_id == self.ph - 1))
        c.prove('phase of the grain', hasattr(g, 'phase') and g.phase[0] == 'phase' and mk(g.phase[1] == self.ph - 1))

    def after(self):
        return {}


class Phases:
    def __init__(self, n):
        self.n = n

    def _dv_len(self):
        return self.n

    def __len__(self):
        raise Unsupported('len')

    def __getitem__(self, k):
        CTX().prove('phase number in range', and_(k >= 0, k < self.n))
        return ('phase', k)


def dispatch(it, lid, names):
    if isinstance(it, SArr):
        return SmallLoop(it, lid, names)
    if isinstance(it, (GrainList, LoopIt)):
        return PhaseLoop(it, lid, names)
    return None


@target('find_grains', functions=['defdap.ebsd.Map.find_grains'], max_paths=600, merge=0, def_mode='assume')
def t20(ctx):
    E = S().ebsd
    W = World()
    q = Obj()
    q.W, q.min = W, ivar('min')
    m = q.m = E.Map.__new__(E.Map)
    m.shape = W.shape
    nph = ivar('phases')
    ctx.fact(nph >= 0)
    m.phases = Phases(nph)
    type(m).num_phases = property(lambda s: nph)
    m.data = Obj()
    W.phase = SArr.fn(W.shape, lambda i: phase_of(i, nph), 'i')
    m.data.phase = W.phase
    b = m.data.grain_boundaries = Obj()
    b.image_x, b.image_y = W.bx, W.by
    derived = []
    m.data.add_derivative = lambda *a, **k: derived.append((a, k))
    m.data.remove_derivative = lambda f: derived.clear()
    E.Grain = GrainStub
    for cls in (MainLoop, SmallLoop, PhaseLoop):
        cls.cur = q
    E.flood_fill = fill_contract(q)
    WHILE['defdap.ebsd.Map.find_grains#*'] = MainLoop
    LOOPS['defdap.ebsd.Map.find_grains#*'] = dispatch
    im = m.find_grains(min_grain_size=q.min)
    O = q.O
    ctx.prove('the image is returned', im is q.G)
    ctx.prove('the grains are kept', isinstance(m._grains, GrainList) and m._grains.O is O and not m._grains.new)
    l = ivar('l')
    ctx.fact(and_(l >= 0, l < W.h * W.w))
    p = lin(W, l)
    ctx.fact(implies(O.fp < 0, not_(O.P(p))))
    i = im.get(p)
    ph = phase_of(p, nph)
    same(ctx, 'not indexed exactly where no grain or small region is', mk(ph == 0), mk(i == 0))
    ctx.prove('every pixel in one grain, too small or not indexed', or_(mk(ph == 0), mk(i == -2), and_(i >= 1, i <= O.g)))
    k = i - 1
    O.known(k)
    j = O.rank(p) - O.off(k)
    with ctx.scope([i >= 1]):
        ctx.prove('a pixel is a point of the grain it names', and_(j >= 0, j < O.len(k), eq(O.C(O.off(k) + j), p)))
    k = ivar('k')
    if bool(and_(k >= 0, k < O.g)):
        gr = O.grain(k)
        ctx.prove('minimum size', O.len(k) >= q.min)
        j = ivar('j')
        ctx.fact(and_(j >= 0, j < O.len(k)))
        C = O.point(k, j)
        ctx.prove('the points of a grain are in the image', mk(im.get(C) == k + 1))
        for m_ in (0, 1):
            same(ctx, f'point {m_}', gr.data.point.get((j, m_)), C[1 - m_])
    if bool(mk(O.g > 0)):
        ctx.prove('grain data shown as maps', len(derived) == 1)


def phase_of(i, nph):
    v = iapp('phase', i)
    CTX().fact(and_(v >= 0, v <= nph))
    return v
