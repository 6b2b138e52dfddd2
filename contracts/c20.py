"""C20: extents, outlines and neighbour network."""
import itertools
from pydv.contract import *
from pydv.loops import InvFor, LOOPS, domain
from pydv.points import Points

LEVEL = 'proof'
NOTE = '''EBSD network: maps of any size, any grain image, any boundary points, in whatever order the sets list them; one arbitrary pair of grains
is followed through the loop.  Segments and extents of any number of points.'''
ASSUME = [
    'the points of a grain are distinct and inside the map (C14, C15)',
    'networkx.Graph holds the edges that were added, with their data, whichever end is named first',
    'a Python set holds each point once and lists its points in some order',
    'counting: there is a separating point exactly when their number is positive',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


# ------------------------------------------------------------------ extents
def setup(ctx):
    B, U = S().base, S().utils
    h, w, n = dims('h', 'w', 'n')
    m = Obj()
    m.shape = (h, w)
    m.data = U.Datastore()
    g = B.Grain.__new__(B.Grain)
    B.Grain.__init__(g, 0, m, None)
    ps = Points(n, w, h, 'pt')
    g.data.point = ps.array()
    return g, ps, h, w, n


@target('extremes', functions=['base.Grain.extreme_coords'])
def t1(ctx):
    g, ps, h, w, n = setup(ctx)
    x0, y0, x1, y1 = g.extreme_coords
    k = generic_index((n,), 'g')[0]
    x, y = ps.xy(k)
    for name, lo, v, hi in (('x', x0, x, x1), ('y', y0, y, y1)):
        ctx.prove(f'{name}: bounds every point', and_(lo <= v, v <= hi))
    for name, v, axis in (('min x', x0, 0), ('min y', y0, 1), ('max x', x1, 0), ('max y', y1, 1)):
        # attained: no point attains it -> contradiction
        j = z3.Int('any')
        f = (ps.fx, ps.fy)[axis]
        ctx.prove(f'{name}: attained by a point', SBool(z3.Exists([j], z3.And(j >= 0, j < n.e, f(j) == v.e))))


@target('centre', functions=['base.Grain.centre_coords', 'base.Grain.extreme_coords'])
def t2(ctx):
    g, ps, h, w, n = setup(ctx)
    x0, y0, x1, y1 = g.extreme_coords
    half = SReal.const(1) / 2
    mean = [SArr.fn((n,), lambda i, a=a: ps.xy(i[0])[a], 'i').mean() for a in (0, 1)]
    for kw, off in (({}, (x0, y0)), (dict(grain_coords=True), (x0, y0)), (dict(grain_coords=False), (0, 0))):
        for kind in ('box', 'com', None):
            c = g.centre_coords(**({} if kind is None else dict(centre_type=kind)), **kw)
            ctx.prove('two coordinates', len(c) == 2)
            for v, o, lo, hi, mu in zip(c, off, (x0, y0), (x1, y1), mean):
                ctx.prove('an integer', isinstance(v, (int, SInt)))
                v = SReal.of(v + o)
                e = (SReal.of(lo) + SReal.of(hi)) / 2 if kind != 'com' else mu
                ctx.prove(f'{kind} {kw}: nearest pixel to the centre', and_(v - e <= half, e - v <= half))
    try:
        g.centre_coords('corner')
    except ValueError:
        ctx.prove('unknown centre refused', True)
    else:
        ctx.prove('unknown centre refused', False)


@target('outline', functions=['base.Grain.grain_outline', 'base.Grain.extreme_coords'])
def t3(ctx):
    g, ps, h, w, n = setup(ctx)
    x0, y0, x1, y1 = g.extreme_coords
    nan = np.nan
    for name, kw, bg, fg in (('default', {}, nan, 0), ('numbers', dict(bg=3, fg=8), 3, 8)):
        im = g.grain_outline(**kw)
        ctx.prove(f'{name}: axes', len(im.shape) == 2)
        same(ctx, f'{name}: height', im.shape[0], y1 - y0 + 1)
        same(ctx, f'{name}: width', im.shape[1], x1 - x0 + 1)
        x, y = ps.xy(generic_index((n,), 'g')[0])
        v = im.get((y - y0, x - x0))
        same(ctx, f'{name}: a point of the grain', v, SReal.const(fg) if isinstance(v, SReal) else fg)
        j, i = generic_index((y1 - y0 + 1, x1 - x0 + 1), 'o')
        with ctx.scope([not_(ps.member(i + x0, j + y0))]):
            v = im.get((j, i))
            if bg is nan:
                ctx.prove(f'{name}: background elsewhere', T.is_nan(v) if hasattr(T, 'is_nan') else type(v).__name__ == 'NaN')
            else:
                same(ctx, f'{name}: background elsewhere', v, bg)


# ------------------------------------------------------------------ network
class Log(list):
    """a list of which only the appended elements and the earlier length matter"""

    def __init__(self, n):
        self.n = n

    def _dv_len(self):
        return self.n + len(self)


class Graph:
    """edges of one pair of grains are followed; others exist or not, with arbitrary segments"""
    cur = None

    def __init__(self):
        W = self.cur
        W.graph = self
        self.seg = None
        self.others = {}
        self.nodes = None

    def add_nodes_from(self, gs):
        self.nodes = gs

    def __getitem__(self, a):
        return Row(self, a)

    def edge(self, a, b):
        """the segment of an edge, None if it does not exist"""
        W = self.cur
        if W.pair(a, b):
            return self.seg
        k = frozenset((id(a), id(b)))
        if k not in self.others:
            s = None
            if a is not b and bool(SBool(z3.Bool(CTX().fresh('edge')))):
                s = S().ebsd.BoundarySegment(W.m, a, b)
                W.others.append(s)
            self.others[k] = s, a, b
        return self.others[k][0]

    def has_edge(self, a, b):
        return self.edge(a, b) is not None

    def get_edge_data(self, a, b, default=None):
        s = self.edge(a, b)
        return default if s is None else dict(boundary=s)

    def add_edge(self, a, b, **kw):
        W = self.cur
        CTX().prove('an edge carries its segment only', set(kw) == {'boundary'})
        if W.pair(a, b):
            CTX().prove('the edge of a pair is added once', self.seg is None)
            self.seg = kw['boundary']
        else:
            W.check_other(a, b)
            self.others[frozenset((id(a), id(b)))] = kw['boundary'], a, b


class Row:
    def __init__(self, g, a):
        self.g, self.a = g, a

    def __getitem__(self, b):
        s = self.g.edge(self.a, b)
        if s is None:
            raise KeyError(b)
        return dict(boundary=s)

    def __contains__(self, b):
        return self.g.edge(self.a, b) is not None

    def get(self, b, default=None):
        return self.g.get_edge_data(self.a, b, default)


class GrainStub:
    def __init__(self, i):
        self.i = i


class Network:
    """the map, its grain image g and boundary points, and the followed pair i < j"""

    def __init__(self, ctx):
        E = S().ebsd
        self.ctx = ctx
        self.h, self.w, self.N = dims('h', 'w', 'N')
        self.lab = arr((self.h, self.w), 'label', 'i')
        self.i, self.j = ivar('gi'), ivar('gj')
        ctx.fact(and_(self.i >= 0, self.i < self.j, self.j < self.N))
        self.gi, self.gj = GrainStub(self.i), GrainStub(self.j)
        W = self

        class Map(E.Map):
            shape = (W.h, W.w)
            grains = property(lambda s: W.all)

            def __init__(self):
                pass

            def _dv_len(self):
                return W.N

            def __getitem__(self, k):
                CTX().prove('grain number of a grain', and_(k >= 0, k < W.N))
                if bool(mk(k == W.i)):
                    return W.gi
                if bool(mk(k == W.j)):
                    return W.gj
                return GrainStub(k)
        self.all = Obj()
        m = self.m = Map()
        m.data = Obj()
        m.data.grains = self.lab
        b = m.data.grain_boundaries = Obj()
        self.sets = [PSet.of_mask(arr((self.h, self.w), f'image_{a}', 'b')) for a in 'xy']
        # points (x, y) of images indexed (y, x)
        self.sets = [PSet(lambda c, s=s: s.member((c[1], c[0])), 2) for s in self.sets]
        b.points_x, b.points_y = self.sets
        self.enum = [s.enum() for s in self.sets]
        self.others = []
        self.p = (ivar('px'), ivar('py'))
        self.count = [z3.Function(f'count{a}', z3.IntSort(), z3.IntSort()) for a in 'xy']
        for f in self.count:
            ctx.fact(SBool(f(0) == 0))
        for (n, pt, rk), s in zip(self.enum, self.sets):
            self.instance(s, n, pt, rk, self.p)

    def instance(self, s, n, pt, rk, p):
        """what it means that p is in the set, for this p"""
        r = SInt(rk(*[SInt.ex(v) for v in p]))
        mem = mk(SBool.of(s.member(tuple(p))))
        q = pt(r)
        self.ctx.fact(iff(mem, and_(r >= 0, r < n, mk(q[0] == p[0]), mk(q[1] == p[1]))))
        return mem, r

    def pair(self, a, b):
        return (a is self.gi and b is self.gj) or (a is self.gj and b is self.gi)

    def check_other(self, a, b):
        CTX().prove('an edge joins two different grains', a is not b)

    def seen(self, kind, p):
        """labels on both sides of the boundary point, as grain numbers"""
        x, y = p
        return self.lab.get((y, x)) - 1, self.lab.get((y + kind, x + 1 - kind)) - 1

    def interior(self, p):
        x, y = p
        return and_(x > 0, y > 0, x < self.w - 1, y < self.h - 1)

    def separates(self, kind, p):
        ins = self.interior(p)
        with self.ctx.scope([ins]):
            a, b = self.seen(kind, p)
            s = or_(and_(mk(a == self.i), mk(b == self.j)), and_(mk(a == self.j), mk(b == self.i)))
        return and_(ins, s)

    def labels(self, kind, p):
        """the labels are those of the N grains, or not positive"""
        with self.ctx.scope([self.interior(p)]):
            for v in self.seen(kind, p):
                self.ctx.define(implies(self.interior(p), v < self.N))

    def done(self, kind, p, k):
        """p was among the first k points"""
        n, pt, rk = self.enum[kind]
        mem, r = self.instance(self.sets[kind], n, pt, rk, p)
        return and_(mem, r < k)

    def C(self, kind, k):
        return SInt(self.count[kind](SInt.ex(k)))

    def has(self, kind, k):
        """whether the segment lists the followed point p after k points"""
        return and_(self.done(kind, self.p, k), self.separates(kind, self.p))

    def state(self, ks):
        """arbitrary state after ks[0] x points and ks[1] y points that satisfies the invariant"""
        c = self.ctx
        E = S().ebsd
        nx_, ny = self.C(0, ks[0]), self.C(1, ks[1])
        c.fact(and_(nx_ >= 0, ny >= 0))
        for kind in (0, 1):
            c.fact(implies(self.has(kind, ks[kind]), self.C(kind, ks[kind]) >= 1))
        g = self.graph
        if bool(nx_ + ny > 0):
            first = bool(SBool(z3.Bool(c.fresh('first is i'))))
            g.seg = E.BoundarySegment(self.m, *((self.gi, self.gj) if first else (self.gj, self.gi)))
            for name, kind in (('x', 0), ('y', 1)):
                for l in ('boundary_points_', 'boundary_point_owners_'):
                    setattr(g.seg, l + name, Log(self.C(kind, ks[kind])))
        else:
            g.seg = None
        self.before = g.seg
        self.others.clear()
        g.others.clear()

    def holds(self, what, ks, kind, point):
        """the invariant after ks, when the last point was `point` of that kind; what the step added"""
        c, g = self.ctx, self.graph
        sep = self.separates(kind, point) if point is not None else False
        total = [self.C(a, ks[a]) for a in (0, 1)]
        if g.seg is None:
            for a in (0, 1):
                c.prove(f'{what}: no edge without a separating point', mk(total[a] == 0))
                c.prove(f'{what}: no edge, no point', not_(self.has(a, ks[a])))
            return
        c.prove(f'{what}: edge only with a separating point', total[0] + total[1] > 0)
        s = g.seg
        c.prove(f'{what}: the segment of the pair', self.pair(s.grain1, s.grain2))
        c.prove(f'{what}: the edge is kept', self.before is None or s is self.before)
        for a, name in enumerate('xy'):
            pts, own = getattr(s, f'boundary_points_{name}'), getattr(s, f'boundary_point_owners_{name}')
            same(c, f'{what}: as many {name} points as separate the pair', length(pts), total[a])
            same(c, f'{what}: as many owners', length(own), total[a])
            new = list(pts)
            c.prove(f'{what}: at most one point is added', len(new) <= (a == kind and point is not None) and len(list(own)) == len(new))
            for v, o in zip(new, list(own)):
                c.prove(f'{what}: the point itself', and_(mk(v[0] == point[0]), mk(v[1] == point[1])))
                owner = self.lab.get((point[1], point[0])) - 1
                same(c, f'{what}: whether it lies in the first grain', o, mk(owner == s.grain1.i))
            # listed after the step: listed before, or added now
            k = ks[a]
            old = self.has(a, k - 1) if a == kind and point is not None else self.has(a, k)
            now = or_(old, *[and_(mk(v[0] == self.p[0]), mk(v[1] == self.p[1])) for v in new])
            c.prove(f'{what}: lists a {name} point exactly if it was visited and separates the pair', iff(now, self.has(a, k)))
        for o in self.others:
            for l in (o.boundary_points_x, o.boundary_points_y):
                for v in l:
                    c.prove(f'{what}: the points of other pairs do not separate this one', not_(sep))


def length(x):
    return x._dv_len() if hasattr(x, '_dv_len') else len(x)


class PointLoop(InvFor):
    cur = None

    def entry(self, locs):
        W = self.cur
        self.kind = W.kind
        W.kind += 1
        d = domain(self.it)
        n = W.enum[self.kind][0]
        same(CTX(), f'all points of kind {self.kind} are visited', d.len(), n)
        self.ks = [0, 0] if self.kind == 0 else [W.enum[0][0], 0]
        if self.kind == 0:
            CTX().prove('starts without edges', W.graph.seg is None)
            W.before = None
        W.holds(f'before {"xy"[self.kind]}', self.ks, self.kind, None)

    def at(self, k):
        return [k, 0] if self.kind == 0 else [self.cur.enum[0][0], k]

    def havoc(self):
        W, c = self.cur, CTX()
        n, pt, rk = W.enum[self.kind]
        self.k = k = ivar(f'visit{self.kind}')
        c.fact(and_(k >= 0, k < n))
        self.pt = q = pt(k)
        mem, r = W.instance(W.sets[self.kind], n, pt, rk, q)
        c.fact(and_(mem, mk(r == k)))
        W.labels(self.kind, q)
        W.labels(self.kind, W.p)
        W.state(self.at(k))
        # counting
        s = W.separates(self.kind, q)
        c.fact(mk(W.C(self.kind, k + 1) == W.C(self.kind, k) + ite(s, 1, 0)))
        return {}

    def item(self):
        return domain(self.it).value(domain(self.it).unindex(self.k))

    def step(self, locs):
        self.cur.holds(f'after a {"xy"[self.kind]} point', self.at(self.k + 1), self.kind, self.pt)

    def after(self):
        W = self.cur
        W.state(self.at(W.enum[self.kind][0]))
        return {}


def dispatch(it, lid, names):
    from pydv.loops import SymLoop
    try:
        d = domain(it)
        n = d.len()
    except Unsupported:
        return None
    if any(n is e[0] or T.vkey(n) == T.vkey(e[0]) for e in PointLoop.cur.enum):
        return PointLoop(it, lid, names)
    return None


@target('network', functions=['ebsd.Map.build_neighbour_network', 'ebsd.BoundarySegment.addBoundaryPoint'], max_paths=3000)
def t4(ctx):
    E = S().ebsd
    W = Network(ctx)
    W.kind = 0
    W.before = None
    PointLoop.cur = Graph.cur = W
    E.nx = Obj()
    E.nx.Graph = Graph
    LOOPS['defdap.ebsd.Map.build_neighbour_network#1'] = PointLoop
    W.m.build_neighbour_network()
    g = W.m.neighbour_network
    ctx.prove('the network is kept', g is W.graph)
    ctx.prove('all grains are in the network', g.nodes is W.all)
    ctx.prove('both kinds of points are visited', W.kind == 2)
    n = [e[0] for e in W.enum]
    total = W.C(0, n[0]) + W.C(1, n[1])
    ctx.prove('neighbours exactly if a boundary point separates them', iff(g.seg is not None, total > 0))
    for kind in (0, 1):
        inset = mk(SBool.of(W.sets[kind].member(W.p)))
        with ctx.scope([and_(inset, W.separates(kind, W.p))]):
            ctx.prove('a separating point makes neighbours', g.seg is not None or and_(False))
            ctx.prove('listed in the segment', W.has(kind, n[kind]))
        with ctx.scope([not_(and_(inset, W.separates(kind, W.p)))]):
            ctx.prove('not listed in the segment', not_(W.has(kind, n[kind])))


@target('segment', functions=['ebsd.BoundarySegment.boundary_point_pairs', 'ebsd.BoundarySegment.boundary_lines', 'ebsd.BoundarySegment.addBoundaryPoint'])
def t5(ctx):
    """pairs of points on both sides, the first in grain 1, and lines"""
    E = S().ebsd
    g1, g2 = GrainStub(0), GrainStub(1)
    s = E.BoundarySegment(None, g1, g2)
    ctx.prove('empty at first', len(s) == 0)
    nx_, ny = dims('nx', 'ny', lo=0)
    pts = {}
    for a, n in (('x', nx_), ('y', ny)):
        pts[a] = SSeq(n, lambda k, a=a: (iapp(f'px{a}', (k,)), iapp(f'py{a}', (k,))))
        own = SSeq(n, lambda k, a=a: bapp(f'own{a}', (k,)))
        setattr(s, f'boundary_points_{a}', pts[a])
        setattr(s, f'boundary_point_owners_{a}', own)
    h = SReal.const(1) / 2
    for a, kind, n, dx, dy in (('x', 0, nx_, 1, 0), ('y', 1, ny, 0, 1)):
        pr = getattr(s, f'boundary_point_pairs_{a}')
        same(ctx, f'{a}: one pair per point', length(pr), n)
        k = ivar(f'k{a}')
        if not bool(and_(k >= 0, k < n)):
            continue
        p = pts[a].at(k)
        q = (p[0] + dx, p[1] + dy)
        f, l = pr[k]
        for o, (e0, e1) in ((True, (p, q)), (False, (q, p))):
            with ctx.scope([iff(bapp(f'own{a}', (k,)), o)]):
                for c in (0, 1):
                    same(ctx, f'{a}: first point in the first grain', f[c], e0[c])
                    same(ctx, f'{a}: second point in the other', l[c], e1[c])


@target('segment_add')
def t6(ctx):
    E = S().ebsd
    g1, g2 = GrainStub(0), GrainStub(1)
    s = E.BoundarySegment(None, g1, g2)
    a, b, c = [(ivar(f'x{k}'), ivar(f'y{k}')) for k in range(3)]
    s.addBoundaryPoint(a, 0, g1)
    s.addBoundaryPoint(b, 1, g2)
    s.addBoundaryPoint(c, 0, g2)
    ctx.prove('points by kind', list(s.boundary_points_x) == [a, c] and list(s.boundary_points_y) == [b])
    ctx.prove('owners', list(s.boundary_point_owners_x) == [True, False] and list(s.boundary_point_owners_y) == [False])
    ctx.prove('length', len(s) == 3)
    h = SReal.const(1) / 2
    ls = s.boundary_lines
    exp = [((p[0] + h, p[1] - h), (p[0] + h, p[1] + h)) for p in (a, c)] + [((b[0] - h, b[1] + h), (b[0] + h, b[1] + h))]
    ctx.prove('one line per point', len(ls) == 3)
    for l, e in zip(ls, exp):
        for u, v in zip(l, e):
            for x, y in zip(u, v):
                same(ctx, 'line on the edge of the pixel', SReal.of(x), SReal.of(y))
    for q in (2, -1):
        try:
            s.addBoundaryPoint(a, q, g1)
        except ValueError:
            ctx.prove('unknown kind refused', True)
        else:
            ctx.prove('unknown kind refused', False)
    ctx.prove('same pair of grains', s == E.BoundarySegment(None, g2, g1) and s == E.BoundarySegment(None, g1, g2))
    ctx.prove('other pair', not (s == E.BoundarySegment(None, g1, GrainStub(1))))
