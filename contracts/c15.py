"""C15: grains of a deformation map."""
from pydv.contract import *
from pydv.loops import InvFor, InvWhile, LOOPS, WHILE, LoopIt
from contracts.c14 import (DIRS, Obj, eq, Goals, Stack, GrainStub, GrainList, lin, eq_shape, MainLoop, SmallLoop, element)

LEVEL = 'proof'
NOTE = '''Flood fill over boundary images of any size and content, any minimum size, any image warped to the EBSD map. Grains found by warping an
EBSD grain image are checked on generated inputs only (bounded, not proved).'''
ASSUME = [
    'pigeonhole: as many distinct pixels as were counted fit into the map',
    'scipy.stats.mode returns a most frequent value; Experiment.warp_image (C22) returns an arbitrary image of the requested shape',
    'bounded, not proved: find_grains with algorithm "warp" (numpy.unique, digitize, skimage regionprops) on generated maps up to 12 x 12',
]
TARGETS = {}
target = register(TARGETS)
FORWARD = ((0, 1), (1, 0))


class World:
    def __init__(self):
        self.h, self.w = dims('h', 'w')
        self.shape = (self.h, self.w)
        self.image = arr(self.shape, 'boundary', 'b')

    def inside(self, p):
        return and_(p[0] >= 0, p[0] < self.h, p[1] >= 0, p[1] < self.w)

    def Z(self, p):
        """no boundary pixel"""
        return not_(bapp('boundary', p))

    def open(self, p, d):
        """both are inside and neither is a boundary pixel"""
        q = (p[0] + d[0], p[1] + d[1])
        return and_(self.inside(p), self.inside(q), self.Z(p), self.Z(q)), q


class Before:
    """what the caller of a fill guarantees: o pixels F are taken, closed under
    steps between pixels that are no boundary; the image is 0 or -1 elsewhere"""

    def __init__(self, W, index):
        self.W, self.index = W, index
        self.o = ivar('o0')
        CTX().fact(self.o >= 0)

    def F(self, p):
        r = iapp('rank0', p)
        return and_(r >= 0, r < self.o, self.W.inside(p))

    def G(self, p):
        c = CTX()
        g = iapp('grains0', p)
        i = self.W.inside(p)
        c.fact(g < self.index)
        c.fact(implies(and_(i, not_(self.F(p))), mk(g == ite(self.W.Z(p), 0, -1))))
        c.fact(implies(and_(i, self.F(p)), or_(g > 0, mk(g == -2))))
        return g

    def P(self, p):
        return and_(self.W.Z(p), not_(self.F(p)))

    def closed(self, p, d):
        o, q = self.W.open(p, d)
        CTX().fact(implies(o, iff(self.F(p), self.F(q))))
        return o, q


class State:
    """an arbitrary state of a fill that satisfies the invariant"""

    def __init__(self, B, seed, tag='1'):
        self.B, self.W, self.t, self.seed = B, B.W, tag, seed
        c = CTX()
        self.n, self.m = ivar('n' + tag), ivar('m' + tag)
        c.fact(and_(self.n >= 1, self.m >= 0))
        c.fact(B.o + self.n <= B.W.h * B.W.w)
        self.point(0)
        c.fact(eq(self.C(0), seed))

    def C(self, k):
        return iapp(f'cy{self.t}', [k]), iapp(f'cx{self.t}', [k])

    def A(self, p):
        return iapp(f'A{self.t}', p)

    def added(self, p):
        a = self.A(p)
        return and_(a >= 0, a < self.n)

    def point(self, k):
        C = self.C(k)
        i = and_(k >= 0, k < self.n)
        CTX().fact(implies(i, and_(self.W.inside(C), mk(self.A(C) == k), not_(self.B.F(C)))))
        return C

    def pixel(self, p):
        CTX().fact(and_(self.A(p) < self.n, implies(self.added(p), eq(self.C(self.A(p)), p))))
        self.point(self.A(p))

    def G(self, p):
        return ite(self.added(p), self.B.index, self.B.G(p))

    def E(self, j):
        return iapp(f'ey{self.t}', [j]), iapp(f'ex{self.t}', [j])

    def S(self, p):
        return iapp(f'S{self.t}', p)

    def instack(self, p):
        s = self.S(p)
        CTX().fact(implies(and_(s >= 0, s < self.m), eq(self.E(s), p)))
        return and_(s >= 0, s < self.m)

    def stack(self, j):
        e = self.E(j)
        CTX().fact(implies(and_(j >= 0, j < self.m), and_(self.added(e), self.W.Z(e))))
        self.pixel(e)
        return e

    def closure(self, p, d):
        """pixels that were dealt with have no unfilled neighbour, and took the
        boundary pixels to the right and below"""
        o, q = self.B.closed(p, d)
        dealt = and_(self.added(p), self.W.Z(p), not_(self.instack(p)))
        CTX().fact(implies(and_(dealt, self.W.inside(q)), mk(self.G(q) != 0)))
        if d in FORWARD:
            CTX().fact(implies(and_(dealt, self.W.inside(q)), mk(self.G(q) != -1)))
        return q

    def closed_after(self, p, d):
        """contract of the fill: the whole region is filled"""
        o, q = self.B.closed(p, d)
        c = CTX()
        c.fact(implies(o, iff(self.added(p), self.added(q))))


class Fill(InvWhile):
    cur = None

    def entry(self, locs):
        c, q = CTX(), self.cur
        B, W = q.B, q.B.W
        st = [n for n, v in locs.items() if isinstance(v, (list, Stack))]
        ct = [n for n, v in locs.items() if type(v) is int and v == 1]
        c.prove('entry: one stack and one counter', len(st) == 1 and len(ct) == 1)
        if len(st) != 1 or len(ct) != 1:
            raise Unsupported('variables of the fill')
        self.sn, self.cn = st[0], ct[0]
        l = list(locs[self.sn])
        c.prove('entry: the seed is to be dealt with', len(l) == 1 and eq((l[0][1], l[0][0]), q.seed))
        c.prove('entry: the seed is the first point', and_(mk(q.C.get((0, 0)) == q.seed[1]), mk(q.C.get((0, 1)) == q.seed[0])))
        g = generic_index(W.shape, 'entry')
        at = eq(g, q.seed)
        c.prove('entry: only the seed is set', mk(q.G.get(g) == ite(at, B.index, B.G(g))))
        same(c, 'entry: only the seed is taken', q.P.get(g), and_(B.P(g), not_(at)))
        c.prove('entry: the seed was free', and_(not_(B.F(q.seed)), W.Z(q.seed)))
        c.fact(B.o + 1 <= W.h * W.w)

    def havoc(self):
        q = self.cur
        st = self.st = q.st = State(q.B, q.seed)
        all2 = (None, None)
        q.G.buf.write(all2, None, lambda i: st.G(i))
        q.P.buf.write(all2, None, lambda i: and_(q.B.P(i), not_(st.added(i))))
        q.C.buf.write(all2, None, lambda i: ite(mk(i[1] == 0), st.C(i[0])[1], st.C(i[0])[0]))
        self.stack = Stack(st)
        return {self.sn: self.stack, self.cn: st.n}

    def body_starts(self):
        st, c = self.st, CTX()
        p = st.stack(st.m - 1)
        B, W = st.B, st.W
        for cond, bit in zip((p[1] <= 0, p[1] >= W.w - 1, p[0] <= 0), self.cur.case):
            c.fact(cond if bit else not_(cond))
        nbs = []
        for d in DIRS:
            o, q = B.closed(p, d)
            st.pixel(q)
            st.G(q)
            nbs.append(q)
        free = [and_(W.inside(q), not_(B.F(q)), not_(st.added(q))) for q in nbs]
        c.fact(B.o + st.n + sum((ite(f, 1, 0) for f in free), 0) <= W.h * W.w)
        r = self.cur.right
        if r is not None:
            g = st.G(nbs[0])
            c.fact({'free': mk(g == 0), 'boundary': mk(g == -1), 'filled': and_(mk(g != 0), mk(g != -1))}[r])

    def step(self, locs):
        c, q, st = Goals(), self.cur, self.st
        B, W = q.B, q.B.W
        s, n2 = locs[self.sn], locs[self.cn]
        push = s.new
        c.prove('one pixel dealt with', len(s.popped) == 1)
        p = s.popped[0]
        # the new points are what was written to the buffer
        k = n2 - st.n
        if not isinstance(k, int):
            raise Unsupported('number of new points')
        new = [(q.C.get((st.n + i, 1)), q.C.get((st.n + i, 0))) for i in range(k)]
        for i, z in enumerate(new):
            c.prove('new point free and inside', and_(W.inside(z), not_(B.F(z)), not_(st.added(z)), *[not_(eq(z, u)) for u in new[:i]]))
            c.prove('new point next to an earlier one, boundary pixels only to the right and below',
                    or_(*[and_(eq(z, (p[0] + d[0], p[1] + d[1])), or_(W.Z(z), d in FORWARD)) for d in DIRS]))
            c.done()
            CTX().fact(B.o + st.n + i + 1 <= W.h * W.w)

        def A2(g):
            a = st.A(g)
            for i, z in enumerate(new):
                a = ite(eq(g, z), st.n + i, a)
            return a

        def added2(g):
            a = A2(g)
            return and_(a >= 0, a < n2)

        def G2(g):
            return ite(added2(g), B.index, B.G(g))
        k = ivar('gk')
        CTX().fact(and_(k >= 0, k < n2))
        C = st.point(k)
        for i, z in enumerate(new):
            C = tuple(ite(mk(k == st.n + i), b, a) for a, b in zip(C, z))
        c.prove('point list', and_(mk(q.C.get((k, 0)) == C[1]), mk(q.C.get((k, 1)) == C[0])))
        c.prove('every point once', mk(A2(C) == k))
        c.prove('points inside and free', and_(W.inside(C), not_(B.F(C))))
        g = generic_index(W.shape, 'gp')
        st.pixel(g)
        c.prove('grain image', mk(q.G.get(g) == G2(g)))
        c.same('pixels left', q.P.get(g), and_(B.P(g), not_(added2(g))))
        a = A2(g)
        Ca = st.C(a)
        for i, z in enumerate(new):
            Ca = tuple(ite(mk(a == st.n + i), b, e) for e, b in zip(Ca, z))
        c.prove('rank of a pixel', implies(added2(g), eq(Ca, g)))
        m2 = st.m - 1
        S2 = st.S(g)
        st.instack(g)
        S2 = ite(and_(S2 >= 0, S2 < m2), S2, -1)
        for i, z in enumerate(push):
            S2 = ite(eq(g, z), m2 + i, S2)
        E2 = st.E(S2)
        for i, z in enumerate(push):
            E2 = tuple(ite(mk(S2 == m2 + i), b, e) for e, b in zip(E2, z))
        ins = and_(S2 >= 0, S2 < m2 + len(push))
        c.prove('what remains is a pixel of the stack', implies(ins, eq(E2, g)))
        j = ivar('gj')
        CTX().fact(and_(j >= 0, j < m2))
        z = st.stack(j)
        c.prove('the stack holds points of the region that are no boundary', and_(added2(z), W.Z(z), *[and_(added2(u), W.Z(u)) for u in push]))
        for d in DIRS:
            nb = st.closure(g, d)
            st.pixel(nb)
            dealt = and_(added2(g), W.Z(g), not_(ins), W.inside(nb))
            c.prove(f'pixels dealt with are closed {d}', implies(dealt, mk(G2(nb) != 0)))
            if d in FORWARD:
                c.prove(f'boundary pixels next to pixels dealt with are taken {d}', implies(dealt, mk(G2(nb) != -1)))
        c.done()


def flood_fill(ctx, case, right=None):
    A = S()._accelerated
    W = World()
    index = ivar('index')
    ctx.fact(index >= 1)
    B = Before(W, index)
    seed = (ivar('sy'), ivar('sx'))
    ctx.fact(and_(W.inside(seed), not_(B.F(seed)), W.Z(seed)))
    q = Obj()
    q.B, q.seed, q.case, q.right = B, seed, case, right
    q.G = SArr.fn(W.shape, lambda i: B.G(i), 'i')
    q.P = SArr.fn(W.shape, lambda i: B.P(i), 'b')
    L = W.h * W.w - B.o
    ctx.fact(L >= 1)
    q.C = SArr.fn((L, 2), lambda i: iapp('buffer', i), 'i')
    Fill.cur = q
    WHILE['defdap._accelerated.flood_fill_dic#*'] = Fill
    r = A.flood_fill_dic((seed[1], seed[0]), index, q.P, q.G, q.C)
    st = q.st
    same(ctx, 'number of points', r.shape[0], st.n)
    ctx.prove('pairs', r.shape[1] == 2)
    k = ivar('k')
    ctx.fact(and_(k >= 0, k < st.n))
    C = st.point(k)
    ctx.prove('the points are those of the region', and_(mk(r.get((k, 0)) == C[1]), mk(r.get((k, 1)) == C[0])))
    g = generic_index(W.shape, 'g')
    st.pixel(g)
    ctx.prove('the region is set in the image', mk(q.G.get(g) == ite(st.added(g), index, B.G(g))))
    same(ctx, 'the region is taken', q.P.get(g), and_(B.P(g), not_(st.added(g))))
    for d in DIRS:
        nb = st.closure(g, d)
        o, _ = B.closed(g, d)
        st.pixel(nb)
        ctx.prove(f'nothing left to fill {d}', implies(and_(st.added(g), o), st.added(nb)))
        if d in FORWARD:
            ctx.prove(f'boundary pixels are taken {d}', implies(and_(st.added(g), W.Z(g), W.inside(nb)), or_(st.added(nb), B.F(nb))))


FF = dict(functions=['defdap._accelerated.flood_fill_dic'], max_paths=1000, merge=0)


@target('flood_inner_filled', **FF)
def f0filled(ctx):
    flood_fill(ctx, (0, 0, 0), 'filled')


@target('flood_inner_boundary', **FF)
def f0boundary(ctx):
    flood_fill(ctx, (0, 0, 0), 'boundary')


@target('flood_inner_free', **FF)
def f0free(ctx):
    flood_fill(ctx, (0, 0, 0), 'free')


@target('flood_left', **FF)
def f1(ctx):
    flood_fill(ctx, (1, 0, 0))


@target('flood_right', **FF)
def f2(ctx):
    flood_fill(ctx, (0, 1, 0))


@target('flood_column', **FF)
def f3(ctx):
    flood_fill(ctx, (1, 1, 0))


@target('flood_top', **FF)
def f4(ctx):
    flood_fill(ctx, (0, 0, 1))


@target('flood_top_left', **FF)
def f5(ctx):
    flood_fill(ctx, (1, 0, 1))


@target('flood_top_right', **FF)
def f6(ctx):
    flood_fill(ctx, (0, 1, 1))


@target('flood_top_column', **FF)
def f7(ctx):
    flood_fill(ctx, (1, 1, 1))


# --------------------------------------------------------------------------
class Outer:
    """An arbitrary state of the loop over the regions."""

    def __init__(self, W, q):
        c = CTX()
        self.W, self.q = W, q
        self.o, self.g = ivar('o0'), ivar('g')
        c.fact(and_(self.o >= 0, self.g >= 0, self.o <= W.h * W.w))
        self.np, self.fp = ivar('next'), ivar('found')
        c.fact(and_(self.fp >= -1, self.np >= -1))

    def rank(self, p):
        return iapp('rank0', p)

    def F(self, p):
        r = self.rank(p)
        return and_(r >= 0, r < self.o, self.W.inside(p))

    def label(self, p):
        i = iapp('grains0', p)
        f = self.F(p)
        c = CTX()
        c.fact(implies(f, or_(mk(i == -2), and_(i >= 1, i <= self.g))))
        c.fact(implies(and_(self.W.inside(p), not_(f)), mk(i == ite(self.W.Z(p), 0, -1))))
        k = i - 1
        self.known(k)
        c.fact(implies(and_(f, i >= 1), and_(self.rank(p) >= self.off(k), self.rank(p) < self.off(k) + self.len(k))))
        c.fact(implies(f, eq(self.C(self.rank(p)), p)))
        return i

    def closed(self, p, d):
        o, q = self.W.open(p, d)
        c = CTX()
        c.fact(implies(o, iff(self.F(p), self.F(q))))
        c.fact(implies(and_(o, self.F(p)), mk(self.label(p) == self.label(q))))
        return o, q

    def C(self, r):
        return iapp('bufy', [r]), iapp('bufx', [r])

    def off(self, k):
        return iapp('off', [k])

    def len(self, k):
        return iapp('len', [k])

    def known(self, k):
        CTX().fact(implies(and_(k >= 0, k < self.g), and_(self.off(k) >= 0, self.len(k) >= self.q.min, self.len(k) >= 1,
                                                            self.off(k) + self.len(k) <= self.o)))

    def point(self, k, j):
        self.known(k)
        r = self.off(k) + j
        C = self.C(r)
        ok = and_(k >= 0, k < self.g, j >= 0, j < self.len(k))
        CTX().fact(implies(ok, and_(self.W.inside(C), mk(self.rank(C) == r), mk(iapp('grains0', C) == k + 1))))
        return C

    def P(self, p):
        return and_(self.W.Z(p), not_(self.F(p)))

    def grain(self, k):
        g = GrainStub(k, self.q.m, self.q.group)
        self.known(k)
        self.point(k, 0)
        g.data.point = self.q.full[self.off(k):self.off(k) + self.len(k)]
        return g


class Regions(MainLoop):
    def entry(self, locs):
        c, q = CTX(), self.cur
        self.W = W = q.W
        c.prove('entry: no grain', len(locs['grain_list']) == 0)
        same(c, 'entry: first number', locs['grain_index'], 1)
        g = generic_index(W.shape, 'entry')
        q.G, q.P, q.full = locs['grains'], locs['points_left'], locs['coords_buffer']
        q.group = locs['group_id']
        eq_shape(c, 'entry: image', q.G.shape, W.shape)
        eq_shape(c, 'entry: pixels left', q.P.shape, W.shape)
        eq_shape(c, 'entry: buffer', q.full.shape, (W.h * W.w, 2))
        same(c, 'entry: boundary pixels are -1', q.G.get(g), ite(W.Z(g), 0, -1))
        same(c, 'entry: the other pixels are left', q.P.get(g), W.Z(g))
        c.prove('entry: the boundary image is left alone', iff(W.image.get(g), not_(W.Z(g))))
        l = ivar('entry l')
        c.fact(and_(l >= 0, l < W.h * W.w))
        self.search(c, 'entry', q.P, locs['next_point'], locs['found_point'], l, l)

    def havoc(self):
        q, c = self.cur, CTX()
        W = q.W
        O = self.O = q.O = Outer(W, q)
        all2 = (None, None)
        q.G.buf.write(all2, None, lambda i: O.label(i))
        q.P.buf.write(all2, None, lambda i: O.P(i))
        q.full.buf.write(all2, None, lambda i: ite(mk(i[1] == 0), O.C(i[0])[1], O.C(i[0])[0]))
        c.fact(implies(O.fp >= 0, and_(O.np >= 0, O.np < W.h * W.w)))
        self.list = GrainList(O)
        return {'grain_list': self.list, 'grain_index': O.g + 1, 'next_point': O.np, 'found_point': O.fp,
                'coords_buffer': q.full[O.o:], 'i': ivar('progress')}

    def step(self, locs):
        c, q, O, W = CTX(), self.cur, self.O, self.W
        st = q.st
        new = locs['grain_list'].new
        c.prove('one region filled', st is not None)
        kept = bool(not_(mk(st.n < q.min)))
        c.prove('a region is a grain exactly when it is large enough', len(new) == (1 if kept else 0))
        g2, o2 = O.g + len(new), O.o + st.n
        same(c, 'numbers without gaps', locs['grain_index'], g2 + 1)
        val = O.g + 1 if kept else -2
        p = generic_index(W.shape, 'sp')
        st.pixel(p)
        O.label(p)

        def F2(u):
            return or_(O.F(u), st.added(u))

        def L2(u):
            return ite(st.added(u), val, O.label(u))
        same(c, 'image', q.G.get(p), L2(p))
        same(c, 'pixels left', q.P.get(p), and_(O.P(p), not_(st.added(p))))
        c.prove('a pixel is taken once', not_(and_(O.F(p), st.added(p))))
        for d in DIRS:
            o, nb = O.closed(p, d)
            st.closed_after(p, d)
            st.pixel(nb)
            c.prove(f'taken regions are closed {d}', implies(o, and_(iff(F2(p), F2(nb)), implies(F2(p), mk(L2(p) == L2(nb))))))
        b = locs['coords_buffer']
        same(c, 'rest of the buffer', b.shape[0], W.h * W.w - o2)
        r = ivar('sr')
        c.fact(and_(r >= 0, r < o2))
        j = r - O.o
        st.point(j)
        e = O.C(r), st.C(j)
        for m in (0, 1):
            same(c, f'points in the buffer {m}', q.full.get((r, m)), ite(mk(r < O.o), e[0][1 - m], e[1][1 - m]))
            k2 = ivar(f'sb{m}')
            if bool(and_(k2 >= 0, k2 < b.shape[0])):
                c.prove(f'buffer of the next region {m}', T.mk(b.get((k2, m)) == q.full.get((o2 + k2, m))))
        if kept:
            n = new[0]
            same(c, 'number of the grain', n.grain_id, O.g)
            c.prove('map of the grain', n.ebsd_map is q.m and n.group_id is q.group)
            pts = n.data.point
            same(c, 'size of the grain', pts.shape[0], st.n)
            j = ivar('sj')
            c.fact(and_(j >= 0, j < st.n))
            C = st.point(j)
            for m in (0, 1):
                same(c, f'points of the grain {m}', pts.get((j, m)), C[1 - m])
            c.prove('the points of the grain carry its number', mk(q.G.get(C) == O.g + 1))
        l = ivar('sl')
        c.fact(and_(l >= 0, l < W.h * W.w))
        pl = self.before(l)
        st.pixel(pl)
        st.pixel(self.seed)
        c.prove('the seed is taken', st.added(self.seed))
        self.search(c, 'next', q.P, locs['next_point'], locs['found_point'], l, l - O.np - 1)


class BeforeInLoop:
    def __init__(self, O, index):
        self.O, self.W, self.o, self.index = O, O.W, O.o, index

    def F(self, p):
        return self.O.F(p)

    def G(self, p):
        return self.O.label(p)

    def closed(self, p, d):
        return self.O.closed(p, d)


def fill_contract(q):
    def flood_fill_dic(seed, index, P, G, C):
        c, O, W = CTX(), q.O, q.W
        s = (seed[1], seed[0])
        c.prove('fill: seed inside', W.inside(s))
        c.prove('fill: seed free', and_(not_(O.F(s)), W.Z(s)))
        c.prove('fill: images', G is q.G and P is q.P)
        c.prove('fill: number', index >= 1)
        p = generic_index(W.shape, 'fp')
        same(c, 'fill: image before', G.get(p), O.label(p))
        c.prove('fill: image below the number', O.label(p) < index)
        c.prove('fill: image of the pixels that are left', implies(not_(O.F(p)), mk(G.get(p) == ite(W.Z(p), 0, -1))))
        c.prove('fill: image of the taken pixels', implies(O.F(p), or_(G.get(p) > 0, mk(G.get(p) == -2))))
        for d in DIRS:
            o, nb = O.closed(p, d)
            c.prove('fill: taken pixels are closed', implies(o, iff(O.F(p), O.F(nb))))
        c.prove('fill: buffer holds the rest of the map', and_(mk(C.shape[0] == W.h * W.w - O.o), C.shape[1] == 2))
        st = q.st = State(BeforeInLoop(O, index), s)
        G.buf.write((None, None), None, lambda i: ite(st.added(i), index, O.label(i)))
        P.buf.write((None, None), None, lambda i: and_(O.P(i), not_(st.added(i))))
        C[:st.n] = SArr.fn((st.n, 2), lambda i: ite(mk(i[1] == 0), st.C(i[0])[1], st.C(i[0])[0]), 'i')
        return C[:st.n]
    return flood_fill_dic


class LinkLoop(InvFor):
    """grains are linked to the most frequent EBSD grain under them"""
    cur = None

    def entry(self, locs):
        pass

    def havoc(self):
        return {}

    def item(self):
        q, c = self.cur, CTX()
        k = self.k = ivar('grain')
        c.fact(and_(k >= 0, k < q.O.g))
        v, g = element(self.it, k)
        self.gr = g
        g.ebsd_grain = None
        q.modes = []
        return v

    def step(self, locs):
        q, c, g = self.cur, CTX(), self.gr
        c.prove('EBSD map of the grain', g.ebsd_map is q.m.ebsd_map)
        if not q.modes:
            c.prove('no link only without labels', g.ebsd_grain is None)
            return
        (a, v), = q.modes
        c.prove('linked to the EBSD grain with the most frequent label', isinstance(g.ebsd_grain, tuple) and mk(g.ebsd_grain[1] == v - 1))
        # what is counted: the positive EBSD labels where the warped image names the grain
        q.counted(self.k, a)

    def after(self):
        return {}


def dispatch(it, lid, names):
    if isinstance(it, SArr):
        return SmallLoop(it, lid, names)
    if isinstance(it, (GrainList, LoopIt)):
        return LinkLoop(it, lid, names)
    return None


@target('find_grains', functions=['defdap.hrdic.Map.find_grains'], max_paths=600, merge=0, def_mode='assume')
def t20(ctx):
    H = S().hrdic
    W = World()
    q = Obj()
    q.W, q.min = W, ivar('min')
    m = q.m = H.Map.__new__(H.Map)
    m.shape = W.shape
    m.data, m.experiment, m.frame = Obj(), Obj(), Obj()
    m.data.grain_boundaries = Obj()
    m.data.grain_boundaries.image = W.image
    derived = []
    m.data.add_derivative = lambda *a, **k: derived.append((a, k))
    m.data.remove_derivative = lambda f: derived.clear()
    eh, ew = dims('eh', 'ew')

    class EMap:
        shape = (eh, ew)
        frame = Obj()
        data = Obj()

        def __getitem__(self, k):
            return ('ebsd grain', k)
    m.ebsd_map = EMap()
    lab = EMap.data.grains = arr((eh, ew), 'ebsd grains', 'i')
    m.check_ebsd_linked = lambda: True
    warped = arr((eh, ew), 'warped', 'f')
    ipart = {}

    def warp_image(im, f, t, output_shape=None, order=None, **k):
        ctx.prove('warped to the EBSD map', f is m.frame and t is EMap.frame and output_shape is EMap.shape and not k)
        ctx.prove('labels are not interpolated', order == 0)
        g = generic_index(W.shape, 'w')
        same(ctx, 'the grain image is warped', im.get(g), SReal.of(q.O.label(g)))
        return SArr.fn((eh, ew), lambda i: SReal.of(iapp('warped label', i)), 'f')
    m.experiment.warp_image = warp_image

    def mode(a, keepdims=None):
        v = ivar('mode')
        q.modes.append((a, v))
        return v, None
    H.mode = mode

    def counted(k, a):
        ctx.prove('one axis', a.ndim == 1)
        g = generic_index(a.shape, 'm')
        cell = g[0]
        while isinstance(cell, tuple) and len(cell) == 1:
            cell = cell[0]
        v = a.get(g)
        ctx.prove('only positive labels count', v > 0)
        cells = flat(g)
        ctx.prove('the labels are those under the grain', and_(mk(iapp('warped label', cells) == k + 1), mk(v == lab.get(cells))))
    q.counted = counted
    H.Grain = GrainStub
    for cls in (Regions, SmallLoop, LinkLoop):
        cls.cur = q
    H.flood_fill_dic = fill_contract(q)
    WHILE['defdap.hrdic.Map.find_grains#*'] = Regions
    LOOPS['defdap.hrdic.Map.find_grains#*'] = dispatch
    im = m.find_grains(algorithm='FloodFill', min_grain_size=q.min)
    O = q.O
    ctx.prove('the image is returned', im is q.G)
    ctx.prove('the grains are kept', isinstance(m._grains, GrainList) and m._grains.O is O and not m._grains.new)
    l = ivar('l')
    ctx.fact(and_(l >= 0, l < W.h * W.w))
    p = lin(W, l)
    ctx.fact(implies(O.fp < 0, not_(O.P(p))))
    i = im.get(p)
    ctx.prove('every pixel in one grain or too small, boundary pixels possibly in none',
              or_(mk(i == -2), and_(i >= 1, i <= O.g), and_(mk(i == -1), not_(W.Z(p)))))
    k = i - 1
    O.known(k)
    j = O.rank(p) - O.off(k)
    with ctx.scope([i >= 1]):
        ctx.prove('a pixel is a point of the grain it names', and_(j >= 0, j < O.len(k), eq(O.C(O.off(k) + j), p)))
    for d in DIRS:
        o, nb = O.closed(p, d)
        ctx.fact(implies(and_(O.fp < 0, W.inside(nb)), not_(O.P(nb))))
        ctx.prove(f'neighbouring pixels without boundary are in the same grain {d}', implies(o, mk(i == im.get(nb))))
    k = ivar('k')
    if bool(and_(k >= 0, k < O.g)):
        gr = O.grain(k)
        ctx.prove('minimum size', O.len(k) >= q.min)
        j = ivar('j')
        ctx.fact(and_(j >= 0, j < O.len(k)))
        C = O.point(k, j)
        ctx.prove('the points of a grain are in the image', mk(im.get(C) == k + 1))
        for m_ in (0, 1):
            same(ctx, f'point {m_}', gr.data.point.get((j, m_)), C[1 - m_])
    if bool(mk(O.g > 0)):
        ctx.prove('grain data shown as maps', len(derived) == 1)


def flat(g):
    out = []
    for x in g:
        out.extend(flat(x) if isinstance(x, tuple) else [x])
    return tuple(out)


@target('unknown_algorithm')
def t21(ctx):
    H = S().hrdic
    m = H.Map.__new__(H.Map)
    m.data = Obj()
    m.data.remove_derivative = lambda f: None
    m.check_ebsd_linked = lambda: True
    try:
        m.find_grains(algorithm='watershed')
        ctx.prove('refused', False)
    except ValueError:
        ctx.prove('refused', True)
