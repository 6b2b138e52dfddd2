"""C25: bookkeeping of the grain inspector."""
import ast, os, re
from pydv.contract import *
from pydv import text, shadow
from pydv.loops import InvFor, LOOPS, domain

LEVEL = 'proof'
NOTE = '''Angle of a line: all end points and corrections. Grouping: any number of lines, groups and slip planes, by invariant over the
loop of the real function. File: the real save and load on text with symbolic numbers, any numbers but the numbers of grains, lines and groups of
four layouts (bounded, not counted as proved for all layouts). Runs draw, group, save and load random lines, also in the tool itself.'''
ASSUME = [
    'floating point is treated as exact real arithmetic; arctan2 of the opposite direction differs by a half turn',
    'text model as in property C24; ast.literal_eval reads back what str() of a list wrote',
    'numpy.average of a list is its mean; argmin is the first position of the least value',
    'drawing (redraw, redraw_line) does not touch lines and groups (checked on runs of the whole tool)',
    'bounded, not proved: the displacement ratio (runs over random lines, displacements and line lengths only)',
    'file round trip: proved for four layouts of lines and groups only (bounded), any numbers in them',
]
TARGETS = {}
target = register(TARGETS)


class Obj:
    pass


Obj.__module__ = 'defdap.contract'


def inspector(ctx):
    S().hrdic
    G = S().inspector.GrainInspector
    g = G.__new__(G)
    g.calls = []
    for n in ('redraw', 'redraw_line'):
        setattr(g, n, lambda n=n: g.calls.append(n))
    g.selected_dic_grain = Obj()
    return g


@target('save_line', functions=['inspector.GrainInspector.save_line'])
def t1(ctx):
    text.install()
    g = inspector(ctx)
    corr = g.correction_angle = rvar('correction')
    p, q = vec('p', 2), vec('q', 2)
    dx, dy = q[0] - p[0], q[1] - p[1]
    ctx.fact(or_(dx != 0, dy != 0))
    half = SReal.const(1) / 200
    old = Obj()
    # the angle of the line: from downwards towards the right, less the correction, in a half turn
    a = rvar('angle')
    ctx.fact(and_(a >= 0, a < 180))
    k = ivar('halfturns')
    u = 90 - np.rad2deg(np.arctan2(dy, dx))
    ctx.fact(mk(a == u - corr - 180 * k))
    ctx.prove_eq('the angle is that of the line', dx * np.cos(np.pi / 2 - np.arctan2(dy, dx)), dy * np.sin(np.pi / 2 - np.arctan2(dy, dx)))
    # the opposite direction is a half turn away (or a turn and a half)
    v = 90 - np.rad2deg(np.arctan2(-dy, -dx))
    ctx.define(or_(mk(v == u + 180), mk(v == u - 180)))
    for name, p1, p2 in (('forth', p, q), ('back', q, p)):
        g.calls = []
        g.group_lines = lambda *a: g.calls.append('group_lines')
        g.selected_dic_grain.points_list = [old]
        g.grain_plot = Obj()
        g.grain_plot.p1, g.grain_plot.p2 = tuple(p1), tuple(p2)
        g.save_line(None, None)
        l = g.selected_dic_grain.points_list
        ctx.prove('one line is added at the end', len(l) == 2 and l[0] is old and len(l[1]) == 3)
        ctx.prove('grouped, then drawn', g.calls == ['group_lines', 'redraw_line'])
        pts, ang, grp = l[1]
        ctx.prove('four coordinates', len(pts) == 4)
        for x, y in zip(pts, [*p1, *p2]):
            ctx.prove('coordinates to two decimals', and_(x - y <= half, y - x <= half))
        ctx.prove('not in a group yet', grp == -1)
        ctx.prove(f'{name}: angle to two decimals', and_(ang - a <= half, a - ang <= half))


# ------------------------------------------------------------------ grouping
class Line:
    """one line of the grain: coordinates, angle, group"""

    def __init__(self, L, i):
        self.L, self.i = L, i

    def __getitem__(self, k):
        if k == 2 or k == -1:
            return self.L.grp.get((self.i,))
        if k == 1 or k == -2:
            return self.L.angle(self.i)
        raise Unsupported('coordinates of a line')

    def __setitem__(self, k, v):
        CTX().prove('only the group of a line is changed', k == 2 or k == -1)
        CTX().prove('the group is an integer', isinstance(v, (int, SInt)) and not isinstance(v, bool))
        self.L.grp[self.i] = v


class Counted:
    """list of n records"""
    _dv_seq = True
    _dv_loop = True

    def _dv_domain(self):
        return domain(SSeq(self.n, self.at))

    def _dv_len(self):
        return self.n

    def __eq__(self, o):
        if isinstance(o, list) and len(o) == 0:
            return mk(self.n == 0)
        raise Unsupported('comparison of lists')

    __hash__ = None

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, k):
        return SSeq(self.n, self.at)[k]


class Lines(Counted):
    def __init__(self, ctx):
        self.n = dims('n', lo=0)
        self.angle = lambda i: rapp('angle', [i])
        self.grp = arr((self.n,), 'before', 'i')
        self.at = lambda i: Line(self, i)


class Group:
    def __init__(self, G, j):
        self.G, self.j = G, j

    def __getitem__(self, k):
        if k == 0:
            return self.G.id.get((self.j,))
        if k == 1:
            return self.G.ang.get((self.j,))
        raise Unsupported('planes of a group')

    def __setitem__(self, k, v):
        if k == 1:
            self.G.ang[self.j] = v
        elif k in (2, 3):
            self.G.W.detected(self.j, k, v)
        else:
            CTX().prove('number and ratio of a group are not changed', False)


class Groups(Counted):
    """the groups when the loop is at line k"""

    def __init__(self, W, n, ang, num):
        self.W, self.n = W, n
        self.ang, self.id = SArr.fn((n,), ang, 'f').copy(), SArr.fn((n,), num, 'i').copy()
        self.at = lambda j: Group(self, j)
        self.new = []

    def append(self, v):
        self.new.append(v)


class Np:
    """numpy with a contract for the mean of selected values"""

    def __init__(self, W, np0):
        self.W, self.np0 = W, np0

    def __getattr__(self, n):
        return getattr(self.np0, n)

    def average(self, x):
        q = getattr(x, '_seq', x)
        s = getattr(q, 'selected', None)
        if s is None:
            raise Unsupported('mean of other values')
        CTX().prove('there is something to average', q.n > 0)
        m = rvar(CTX().fresh('mean'))
        self.W.means.append((m, *s))
        return m

    mean = average


class Grouping(InvFor):
    """After k lines: groups 0..G-1, each of a line, hold the first k lines;
    the others have no group."""
    cur = None

    def entry(self, locs):
        W, c = self.cur, CTX()
        self.dom = domain(self.it)
        W.loop = self
        same(c, 'all lines are visited', self.dom.len(), W.L.n)
        t = generic_index((W.L.n,), 't')[0]
        same(c, 'no line is in a group at the start', W.L.grp.get((t,)), -1)

    def state_(self, k):
        W, c = self.cur, CTX()
        self.k = k
        G = self.G = ivar('G')
        c.fact(and_(G >= 0, iff(G == 0, k == 0)))
        self.g0 = lambda i: iapp('group', [i])
        W.L.grp.buf.write((None,), None, lambda i: ite(i[0] < k, self.g0(i[0]), -1))
        i = z3.Int('line')
        e = self.g0(SInt(i)).e
        c.fact(SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < SInt.ex(k)), z3.And(e >= 0, e < G.e)), patterns=[e])))
        self.a0 = lambda j: rapp('of group', [j])
        # a line of each group
        self.wit = lambda j: iapp('a line of', [j])
        j = z3.Int('grp')
        w = self.wit(SInt(j)).e
        c.fact(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < G.e),
                                               z3.And(w >= 0, w < SInt.ex(k), self.g0(SInt(w)).e == j)), patterns=[w])))
        W.grain.groups_list = self.groups = Groups(W, G, lambda j: self.a0(j[0]), lambda j: j[0])
        W.means = []

    def havoc(self):
        W, c = self.cur, CTX()
        k = ivar('visit')
        c.fact(and_(k >= 0, k < W.L.n))
        self.state_(k)
        if bool(k == 0):
            del W.grain.groups_list
            W.grain.groups_list = Poisoned()
            return {}
        # the number of the next group, whatever the variable is called
        ints = [n for n in self.nm if n in W.counters]
        return {n: self.G for n in ints}

    def item(self):
        return self.dom.value(self.dom.unindex(self.k))

    def step(self, locs):
        W, c = self.cur, CTX()
        k, G, L = self.k, self.G, W.L
        gl = W.grain.groups_list
        first = not isinstance(gl, Groups)
        if first:
            c.prove('groups are set up at the first line', isinstance(gl, list) and len(gl) == 1 and mk(k == 0))
            new, G1 = list(gl), 1
        else:
            new, G1 = gl.new, self.G + len(gl.new)
        v = L.grp.get((k,))
        a = L.angle(k)
        t = generic_index((L.n,), 't')[0]
        with c.scope([mk(t != k)]):
            same(c, 'other lines stay in their groups', L.grp.get((t,)), ite(t < k, self.g0(t), -1))
        j = generic_index((G,), 'j')[0]
        near = lambda q: abs(self.a0(q) - a)
        c.prove('at most one new group', len(new) <= 1)
        if new:
            if not first:
                with c.scope([and_(j >= 0, j < G)]):
                    c.prove('new group only if no group is near', near(j) >= 10)
                    same(c, 'angles of the others are kept', gl.ang.get((j,)), self.a0(j))
            r = new[0]
            c.prove('a record of five', len(r) == 5)
            same(c, 'number of the new group', r[0], G)
            same(c, 'angle of the new group', r[1], a)
            same(c, 'ratio of the new group', r[4], 0)
            same(c, 'the line is in the new group', v, G)
        else:
            c.prove('the line is in a group', and_(v >= 0, v < G))
            c.prove('the group is near', near(v) < 10)
            with c.scope([and_(j >= 0, j < G)]):
                c.prove('no group is nearer', near(j) >= near(v))
            with c.scope([and_(j >= 0, j < G, mk(j != v))]):
                same(c, 'angles of the others are kept', gl.ang.get((j,)), self.a0(j))
            c.prove('one mean', len(W.means) == 1)
            m, member, value = W.means[0]
            u = generic_index((L.n,), 'u')[0]
            with c.scope([and_(u >= 0, u < L.n)]):
                c.prove('the mean is over the lines of the group', iff(member(u), mk(L.grp.get((u,)) == v)))
                same(c, 'the mean is of their angles', value(u), L.angle(u))
            d = gl.ang.get((v,)) - m
            c.prove('the angle of the group is the mean, to two decimals', and_(d * 200 <= 1, d * 200 >= -1))
        with c.scope([and_(j >= 0, j < G1)]):
            w = ite(mk(j == v), k, self.wit(j))
            c.prove('each group has a line', and_(w >= 0, w <= k, mk(L.grp.get((w,)) == j)))
        for n in W.counters:
            if n in locs:
                same(c, 'number of the next group', locs[n], G1)

    def after(self):
        W = self.cur
        self.state_(W.L.n)
        return {}


class Poisoned:
    """groups of an earlier call"""


def dispatch(it, lid, names):
    W = Grouping.cur
    try:
        n = domain(it).len()
    except Unsupported:
        return None
    if n is W.L.n and W.started(names):
        return Grouping(it, lid, names)
    return None


class World:
    def __init__(self, ctx):
        src = open(os.path.join(shadow.REPO, 'defdap', 'inspector.py')).read()
        self.counters = set(re.findall(r'(\w+) \+= 1\b', src)) | set(re.findall(r'\b(\w+) = \1 \+ 1\b', src))
        self.L = Lines(ctx)
        self.grain = Obj()
        self.grain.points_list = self.L
        self.grain.groups_list = Poisoned()
        self.grain.ebsd_grain = Obj()
        self.P = dims('planes', lo=0)
        self.theory = lambda p: rapp('trace', [p])
        self.grain.ebsd_grain.slip_trace_angles = SSeq(self.P, self.theory)
        self.means = []
        self.seen = []

    def started(self, names):
        return len(names) > 2

    def detected(self, j, k, v):
        """the planes (2) and deviations (3) of group j"""
        c, fr = CTX(), CTX().frames
        q = getattr(v, '_seq', None)
        if len(fr) != 2 or T.vkey(fr[-1].loop.ks[0]) != T.vkey(j):
            raise Unsupported('planes of one group only')
        same(c, 'planes are found for every group', fr[-1].loop.dom.len(), self.grain.groups_list.n)
        if q is None or not hasattr(q, 'selected'):
            raise Unsupported('planes')
        self.seen.append((k, q.order))
        member, value = q.selected
        p = generic_index((self.P,), 'p')[0]
        d = self.grain.groups_list.ang.get((j,)) - np.rad2deg(self.theory(p))
        with c.scope([and_(p >= 0, p < self.P)]):
            c.prove('planes within five degrees', iff(member(p), and_(d < 5, d > -5)))
            if k == 2:
                same(c, 'number of the plane', value(p), p)
            else:
                e = (value(p) - d) * 200
                c.prove('deviation to two decimals', and_(e <= 1, e >= -1))


@target('grouping', functions=['inspector.GrainInspector.group_lines'])
def t2(ctx):
    text.install()
    ctx.real_extrema = True
    g = inspector(ctx)
    W = World(ctx)
    Grouping.cur = W
    LOOPS['defdap.inspector.GrainInspector.group_lines#*'] = dispatch
    S().inspector.np = Np(W, S().inspector.np)
    other = bool(SBool(z3.Bool('given')))
    if other:
        g.selected_dic_grain = None
        r = g.group_lines(W.grain)
    else:
        g.selected_dic_grain = W.grain
        r = g.group_lines()
    if bool(W.L.n == 0):
        ctx.prove('no lines, no groups', isinstance(W.grain.groups_list, list) and len(W.grain.groups_list) == 0)
        return
    if any(isinstance(x, list) for x in (W.grain.groups_list,)):
        raise Unsupported('groups after the loop')
    ks = [k for k, _ in W.seen]
    ctx.prove('planes and deviations are stored', 2 in ks and 3 in ks)
    ctx.prove('in the same order', ks[::2] == [ks[0]] * (len(ks) // 2) and all(a[1] is b[1] for a, b in zip(W.seen[::2], W.seen[1::2])))
    ctx.prove('nothing is returned', r is None)


# ------------------------------------------------------------------ file
class Ast:
    """ast.literal_eval of text with symbolic numbers"""

    @staticmethod
    def literal_eval(s):
        tx = T.TEXT
        s2 = text.TOKEN.sub(lambda m: f'"#{m.group(1)}"', s.strip(' \t'))

        def back(v):
            if isinstance(v, list):
                return [back(x) for x in v]
            if isinstance(v, tuple):
                return tuple(back(x) for x in v)
            if isinstance(v, str) and v.startswith('#'):
                return tx.vals[int(v[1:])]
            return v
        return back(ast.literal_eval(s2))


class DicMap:
    def __init__(self, grains, folder):
        self.grains, self.file_name = grains, Obj()
        self.file_name.parent = folder

    def __getitem__(self, k):
        return self.grains[k]

    def __len__(self):
        return len(self.grains)

    def __iter__(self):
        return iter(self.grains)


DicMap.__module__ = 'defdap.contract'


def recorded(g, r, k):
    """lines and groups of grain g"""
    n, m = r
    pts = [[vec(f'p{k}.{g}.{i}.', 4), rvar(f'angle{k}.{g}.{i}'), ivar(f'group{k}.{g}.{i}')] for i in range(n)]
    grp = [[i, rvar(f'av{k}.{g}.{i}'), [ivar(f'plane{k}.{g}.{i}.{j}') for j in range(i)], [rvar(f'dev{k}.{g}.{i}.{j}') for j in range(i)],
            rvar(f'ratio{k}.{g}.{i}')] for i in range(m)]
    return pts, grp


def eq_records(ctx, name, a, b):
    ctx.prove(f'{name}: structure', isinstance(a, (list, tuple)) == isinstance(b, (list, tuple)))
    if isinstance(b, (list, tuple)):
        ctx.prove(f'{name}: length', len(a) == len(b))
        for x, y in zip(a, b):
            eq_records(ctx, name, x, y)
    else:
        same(ctx, name, a, b)


CASES = [((1, 1), (0, 0), (2, 2)), ((0, 0), (3, 2), (1, 1)), ((0, 0), (0, 0), (0, 0)), ((2, 0), (1, 3), (0, 2))]


@target('file', bounded='four layouts of grains, lines and groups', functions=['inspector.GrainInspector.save_file', 'inspector.GrainInspector.load_file'])
def t3(ctx):
    tx = text.install()
    files = {}
    S().hrdic
    M = S().inspector
    M.ast = Ast

    def open_(p, mode='r', **k):
        p = str(p)
        if 'w' in mode:
            files[p] = text.Out()
            return files[p]
        ctx.prove('the file that was saved is read', p in files)
        return text.In(files[p].content())
    M.open = open_
    for case in CASES:
        files.clear()
        g = inspector(ctx)
        grains = [Obj() for _ in case]
        want = []
        for i, (x, r) in enumerate(zip(grains, case)):
            x.points_list, x.groups_list = recorded(i, r, 'a')
            want.append(recorded(i, r, 'a'))
        g.selected_dic_map = DicMap(grains, text.Path('folder'))
        g.filename = 'name_RDR.txt'
        g.save_file(None, None)
        for x, w in zip(grains, want):
            eq_records(ctx, 'saving changes nothing', [x.points_list, x.groups_list], list(w))
        ctx.prove('saved beside the map', list(files) == ['folder/name_RDR.txt'] and files['folder/name_RDR.txt'].closed)
        # other lines and groups when loading
        old = [recorded(i, (1, 2), 'b') for i in range(len(case))]
        for x, o in zip(grains, old):
            x.points_list, x.groups_list = o
        g.calls = []
        g.load_file(None, None)
        for x, w, r, o in zip(grains, want, case, old):
            if r[0]:
                eq_records(ctx, 'lines as saved', x.points_list, w[0])
                eq_records(ctx, 'groups as saved', x.groups_list, w[1])
            else:
                ctx.prove('grains without saved lines are left alone', x.points_list is o[0] and x.groups_list is o[1])
        ctx.prove('drawn again', g.calls == ['redraw'])
        g.update_filename('other.txt', None)
        ctx.prove('file name', g.filename == 'other.txt')
