"""Rules for loops over symbolic iterables, and merging of branches.

The automatic rule: the body is executed once for an arbitrary iteration
(loop variables fresh, everything an earlier iteration may have written is
opaque).  The effect of the whole loop is the union of the effects of the
iterations, provided no iteration reads what another one wrote (an opaque
value that is used stops the proof).  Loops that need an invariant get it
from a contract (WHILE / LOOPS registries)."""
import z3

from . import terms as T
from .terms import (SBool, SInt, SReal, SVal, Unsupported, and_, or_, not_, ite, mk, CTX, vkey, PathAbort)
from . import arr as A
from .arr import SArr, Buf, Update, MDim, Opaque, ent, conc
from .seqs import SSeq, PSet, Coord
from . import npf


class Poison(SVal):
    """A name whose value is not known here."""

    def __init__(self, what):
        object.__setattr__(self, 'what', what)

    def _bad(self, *a, **k):
        raise Unsupported(f'use of {self.what}')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = _bad
    __neg__ = __abs__ = __index__ = __float__ = __int__ = __pow__ = __contains__ = __mod__ = _bad
    __format__ = __str__ = _bad

    def __eq__(self, o):
        if o is self:
            return True
        self._bad()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'<{self.what}>'

    def __getattr__(self, n):
        if n.startswith('_dv') or n.startswith('__') or n == 'key':
            raise AttributeError(n)
        self._bad()

    def _dv_ite(self, c, a, b):
        return self

    def _dv_subst(self, s):
        return self


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()


# --------------------------------------------------------------------------
# domains
# --------------------------------------------------------------------------
class SeqDomain:
    ordered = True

    def __init__(self, n, at, base='k'):
        self.n = n
        self.at = at
        self.base = base

    def fresh(self):
        return (SInt(z3.Int(CTX().fresh(self.base))),)

    def cond(self, ks):
        return and_(ks[0] >= 0, ks[0] < self.n)

    def value(self, ks):
        return self.at(ks[0])

    def index(self, ks):
        return ks[0]

    def unindex(self, i):
        return (i,)

    def len(self):
        return self.n

    def earlier(self, a, b):
        return a[0] < b[0]


class NdDomain:
    ordered = True

    def __init__(self, shape):
        self.shape = shape

    def fresh(self):
        return tuple(SInt(z3.Int(CTX().fresh('i'))) for _ in self.shape)

    def cond(self, ks):
        return and_(*[and_(k >= 0, k < n) for k, n in zip(ks, self.shape)])

    def value(self, ks):
        return tuple(ks)

    def index(self, ks):
        return A.ravel_index(ks, self.shape)

    def unindex(self, i):
        return A.unravel(i, self.shape)

    def len(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def earlier(self, a, b):
        c = False
        for x, y in zip(reversed(a), reversed(b)):
            c = or_(mk(x < y), and_(mk(x == y), c))
        return c


class PSetDomain:
    ordered = False

    def __init__(self, ps, view=None):
        self.ps = ps
        self.view = view

    def fresh(self):
        return tuple(SInt(z3.Int(CTX().fresh('p'))) for _ in range(self.ps.dim))

    def cond(self, ks):
        return self.ps.member(ks)

    def value(self, ks):
        return tuple(ks) if self.view is None else ks[self.view]

    def index(self, ks):
        n, pt, rk = self.ps.enum()
        return SInt(rk(*[SInt.ex(k) for k in ks]))

    def unindex(self, i):
        return self.ps.enum()[1](i)

    def len(self):
        return self.ps._dv_len()

    def earlier(self, a, b):
        return not_(and_(*[mk(x == y) for x, y in zip(a, b)]))


class MapDomain:
    """value computed from another domain's variables"""

    def __init__(self, inner, f, cond=None):
        self.inner = inner
        self.ordered = inner.ordered
        self.f = f
        self.c = cond

    def fresh(self):
        return self.inner.fresh()

    def cond(self, ks):
        c = self.inner.cond(ks)
        return c if self.c is None else and_(c, self.c(ks))

    def value(self, ks):
        return self.f(ks)

    def index(self, ks):
        return self.inner.index(ks)

    def unindex(self, i):
        return self.inner.unindex(i)

    def len(self):
        return self.inner.len()

    def earlier(self, a, b):
        return self.inner.earlier(a, b)


class LoopIt:
    _dv_loop = True
    _dv_seq = False

    def __init__(self, dom):
        self.dom = dom

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a loop statement')

    def _dv_len(self):
        return self.dom.len()

    def seq(self):
        d = self.dom
        return SSeq(d.len(), lambda k: d.value(d.unindex(k)))


def is_symiter(x, lid=None):
    if lid is not None and find_contract(LOOPS, lid) is not None:
        return True
    if isinstance(x, SArr):
        return len(x.shape) > 0 and not isinstance(x.shape[0], int)
    if isinstance(x, npf.NdIndex):
        return not conc(x.shape)
    if isinstance(x, SSeq):
        return not isinstance(x.n, int)
    return bool(T.flag(x, '_dv_loop', False))


def domain(x):
    if isinstance(x, LoopIt):
        return x.dom
    if isinstance(x, SArr):
        d = x.shape[0]
        if isinstance(d, MDim):
            m = PSet.of_mask(d.mask)
            return PSetDomainOf(m, x)
        return SeqDomain(d, lambda k: x[k])
    if isinstance(x, npf.NdIndex):
        return NdDomain(x.shape)
    if isinstance(x, PSet):
        return PSetDomain(x)
    if isinstance(x, Coord):
        return PSetDomain(x.ps, x.k)
    if isinstance(x, SSeq):
        if x.pset is not None:
            return PSetDomain(x.pset)
        return SeqDomain(x.n, x.at)
    h = T.flag(x, '_dv_domain', None)
    if h is not None:
        return h()
    if isinstance(x, (list, tuple, range)):
        from .seqs import of_list
        s = of_list(list(x))
        return SeqDomain(s.n, s.at)
    raise Unsupported(f'loop over {type(x).__name__}')


def PSetDomainOf(ps, arr):
    d = PSetDomain(ps)
    return MapDomain(d, lambda ks: arr.get((tuple(ks),)) if arr.ndim == 1 else arr[tuple(ks)])


def zip_domain(xs):
    ds = [domain(x) for x in xs]
    ps = [d for d in ds if not d.ordered or isinstance(d, NdDomain)]
    if ps:
        base = ps[0]
        root = getattr(base, 'inner', base)

        def same(d):
            r = getattr(d, 'inner', d)
            return r is root or (isinstance(r, PSetDomain) and isinstance(root, PSetDomain) and r.ps is root.ps)
        others = [d for d in ds if not same(d)]
        if any(not isinstance(d, SeqDomain) for d in others):
            raise Unsupported('zip of different point sets')

        def f(ks):
            i = None
            out = []
            for d in ds:
                if same(d):
                    out.append(d.value(ks))
                else:
                    if i is None:
                        i = base.index(ks)
                    out.append(d.value((i,)))
            return tuple(out)

        def c(ks):
            if not others:
                return True
            i = base.index(ks)
            return and_(*[simp_lt(i, d.n) for d in others])
        n = base.len() if others else None
        for d in others:
            if mk(d.n == n) is not True and not ent(d.n == n):
                return MapDomain(base, f, c)
        return MapDomain(base, f)
    n = ds[0].len()
    for d in ds[1:]:
        m = d.len()
        if m is n or mk(m == n) is True:
            continue
        n = A.imin(n, m)
    return SeqDomain(n, lambda k: tuple(d.value((k,)) for d in ds))


def simp_lt(a, b):
    return mk(a < b)


def enum_domain(x, start=0):
    d = domain(x)
    return MapDomain(d, lambda ks: (d.index(ks) + start, d.value(ks)))


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------
_Z3C = {}


def z3consts(e, acc):
    got = _Z3C.get(e.get_id())
    if got is None:
        got = _Z3C[e.get_id()] = (_z3consts(e, set()), e)
    acc |= got[0]
    return acc


def z3names(e):
    return [n for n in z3consts(e, set()) if n in T.REDS]


def _z3consts(e, acc):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                acc.add(n)
                if n in T.REDS:
                    acc |= T.REDS[n].syms
        stack.extend(x.children())
    return acc


def symbols(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, SReal):
        _poly_syms(v.p, acc, set())
    elif isinstance(v, (SInt, SBool)):
        z3consts(v.e, acc)
    elif isinstance(v, str):
        if T.TEXT is not None:
            for x in T.TEXT.values(v):
                symbols(x, acc)
    elif isinstance(v, list) and getattr(v, '_seq', None) is not None:
        symbols(v._seq.n, acc)
        symbols(v._seq.at(SInt(z3.Int('elem'))), acc)
    elif isinstance(v, tuple) or isinstance(v, list):
        for x in v:
            symbols(x, acc)
    elif isinstance(v, SArr) and conc(v.shape):
        for i in v.indices():
            symbols(v.get(i), acc)
    elif T.is_code_obj(v):
        for x in T.members(v).values():
            symbols(x, acc)
    elif (T.flag(v, '_dv_members', None) is not None):
        for x in v._dv_members():
            symbols(x, acc)
    return acc


def _poly_syms(p, acc, seen):
    for a in T.atoms_in_poly(p, seen):
        at = T._ATOM_LIST[a]
        if at.kind == 'var':
            acc.add(at.name)
            if at.name in T.REDS:
                acc |= T.REDS[at.name].syms
        elif at.kind == 'app':
            acc.add(at.args[0])
            for e in at.args[1]:
                z3consts(e, acc)
        elif at.kind == 'toreal':
            z3consts(at.args[0], acc)
        elif at.kind in ('ite', 'sgn'):
            z3consts(at.args[0].e, acc)


def fresh_range(names, lo, hi):
    for n in names:
        b, s, u = n.partition('!')
        if s:
            u = u.split('.')[0]
            if u.isdigit() and lo < int(u) <= hi and not b.startswith(('bv', 'sum', 'max', 'min', 'f', 'abs', 'rnd')):
                return n
    return None


def mentions(e, ks):
    if isinstance(e, tuple):
        return any(mentions(x, ks) for x in e)
    if not isinstance(e, SInt):
        return False
    s = z3consts(e.e, set())
    return any(str(k.e) in s for k in ks)


# --------------------------------------------------------------------------
# the symbolic for loop
# --------------------------------------------------------------------------
class PathRec:
    pass


class SymLoop:
    def __init__(self, it, lid, names):
        self.ctx = CTX()
        self.dom = domain(it)
        self.lid = lid
        self.nm = names
        self.started = False
        self.done = False
        self.post = None
        self.emitted = []

    # ---- protocol used by the transformed code
    def has_next(self, locs=None, used=None):
        c = self.ctx
        if not self.started:
            self.started = True
            self.pre = dict(locs or {})
            self._setup()
            self.stage = 1
            self.paths = []
            self._start_path()
            return True
        self._end_path(locs or {})
        if self.frame.work:
            self.frame.prefix = self.frame.work.pop()
            self._start_path()
            return True
        if self.stage == 1:
            self.summ = self._summarise()
            if self.summ or self.want_pass2:
                self.stage = 2
                self.paths = []
                self.frame.prefix = []
                self._unmute()
                self._pseudo()
                self._start_path()
                return True
        self._finish()
        return False

    def names(self):
        if not self.done:
            out = []
            for n in self.nm:
                if n in self.pre and n in self.carried:
                    out.append(Poison(f'loop-carried variable {n} in {self.lid}'))
                elif n in self.pre:
                    out.append(Poison(f'loop-carried variable {n} in {self.lid}'))
                else:
                    out.append(Poison(f'unbound variable {n}'))
            return tuple(out)
        return tuple(self.post.get(n, Poison(f'variable {n} after the loop {self.lid}')) for n in self.nm)

    def next(self):
        return self.dom.value(self.ks)

    def brk(self):
        raise Unsupported(f'break out of a symbolic loop ({self.lid})')

    def ret(self):
        raise Unsupported(f'return out of a symbolic loop ({self.lid})')

    def emit(self, v):
        self.cur.emitted = v
        self.cur.has_emit = True

    # ---- internals
    def _setup(self):
        from .explore import Frame
        c = self.ctx
        self.carried = set()
        self.ks = self.dom.fresh()
        self.lo = c.uid
        self.frame = Frame([], None)
        self.marks = [(b, b.mark()) for b in c.bufs]
        self.nbufs = len(c.bufs)
        self.mute0 = (c.mute_all, c.mute_def)
        c.mute_all = True
        c.mute_def = True
        self.want_pass2 = True
        self.domcond = self.dom.cond(self.ks)

    def _unmute(self):
        self.ctx.mute_all, self.ctx.mute_def = self.mute0

    def _start_path(self):
        c = self.ctx
        self.frame.trace = []
        self.frame.owned = set()
        self.frame.lists = {}
        self.frame.loop = self
        c.frames.append(self.frame)
        self.pc0 = len(c.pc)
        self.sc = c.scope([self.domcond])
        self.sc.__enter__()
        self.cur = PathRec()
        self.cur.has_emit = False
        self.cur.emitted = None
        self.path_marks = [(b, b.mark()) for b in c.bufs[:self.nbufs]]
        self.frame.attrs = []

    def _end_path(self, locs):
        c = self.ctx
        rec = self.cur
        rec.pc = c.pc[self.pc0:]
        rec.locals = {n: locs.get(n, UNBOUND) for n in self.nm}
        rec.writes = []
        for b, m in self.path_marks:
            if b.d is not None:
                ch = {k: b.d[k] for k in b.d if b.d[k] is not m[k]}
                if ch:
                    rec.writes.append((b, 'd', ch))
            elif len(b.ups) != m:
                rec.writes.append((b, 'u', list(b.ups[m:])))
        for b, m in self.path_marks:
            b.restore(m)
        rec.lists = self.frame.lists
        rec.attrs = self.frame.attrs
        for o, n, old in reversed(self.frame.attrs):
            _restore_attr(o, n, old)
        if rec.attrs:
            raise Unsupported(f'attribute {rec.attrs[0][1]} of an outer object assigned in a symbolic loop ({self.lid})')
        self.paths.append(rec)
        # leave the frame
        c.frames.pop()
        self.sc.__exit__(None, None, None)
        del c.pc[self.pc0:]
        if len(self.paths) > 64:
            raise Unsupported('too many paths through a loop body')

    def _solve(self, axes, hint=None):
        """inverse of the written index: buffer idx -> loop variables"""
        sol = {}
        used = set()
        ks = self.ks
        # coordinates of the points of a list of distinct points
        if hint is not None:
            # written by an inner loop through the points of a list
            inv, r = hint
            for j, k in enumerate(ks):
                f = inv.lead_inverse(r, k, mentions) if len(inv.lead) == 1 else None
                if f is not None:
                    sol[j] = f
                    break
        es = [(p, a[1]) for p, a in enumerate(axes) if a is not None and a[0] == 'f' and mentions(a[1], ks)]
        for inv in getattr(self.ctx, 'inverses', ()):
            for j, k in enumerate(ks):
                if j in sol:
                    continue
                r = inv.solve(es, k, mentions)
                if r is not None:
                    sol[j] = lambda idx, inv=inv, r=r: inv.inverse(r, idx)
                    used.update(p for p, _ in r)
                    self.hint = (inv, r)
        for pos, a in enumerate(axes):
            if a is None or pos in used:
                continue
            if a[0] == 'v':
                if mentions(a[1], ks) or (isinstance(a[3], SInt) and mentions(a[3], ks)):
                    raise Unsupported(f'block write that moves with the loop variable ({self.lid})')
                continue
            e = a[1]
            if not mentions(e, ks):
                continue
            hit = False
            for j, k in enumerate(ks):
                d = SInt.mk(SInt.ex(e) - SInt.ex(k))
                if isinstance(d, int) or not mentions(d, ks):
                    if j in sol:
                        hit = True    # second axis with the same variable (checked through the condition)
                        break
                    sol[j] = (lambda pos, d: lambda idx: idx[pos] - d)(pos, d)
                    used.add(pos)
                    hit = True
                    break
                d = SInt.mk(SInt.ex(e) + SInt.ex(k))
                if isinstance(d, int) or not mentions(d, ks):
                    if j in sol:
                        hit = True
                        break
                    sol[j] = (lambda pos, d: lambda idx: d - idx[pos])(pos, d)
                    used.add(pos)
                    hit = True
                    break
            if hit:
                continue
            # rank of the point / linear index
            try:
                ix = self.dom.index(ks)
            except Unsupported:
                ix = None
            if ix is not None:
                d = SInt.mk(SInt.ex(e) - SInt.ex(ix))
                if isinstance(d, int) or not mentions(d, ks):
                    for j in range(len(ks)):
                        if j not in sol:
                            sol[j] = (lambda pos, d, j: lambda idx: self.dom.unindex(idx[pos] - d)[j])(pos, d, j)
                    used.add(pos)
                    continue
            raise Unsupported(f'written index {e} is not an invertible function of the loop variable ({self.lid})')
        return sol, used

    def _summarise(self):
        summ = {}
        for rec in self.paths:
            for b, kind, w in rec.writes:
                s = summ.setdefault(id(b), (b, kind, []))
                if kind == 'd':
                    s[2].extend(k for k in w if k not in s[2])
                else:
                    s[2].extend(w)
        return summ

    def _inv_cond(self, u, sol, idx, extra_ks=None):
        """condition that iteration ks'(idx) exists and writes idx"""
        ks2 = tuple(sol[j](idx) for j in range(len(self.ks)))
        return ks2

    def _pseudo(self):
        """what earlier iterations may have written is opaque"""
        self.inserted = []
        for b, kind, w in self.summ.values():
            if kind == 'd':
                for k in w:
                    b.d[k] = Opaque()
                continue
            seen = set()
            for u in w:
                key = _axes_key(u.axes)
                if key in seen:
                    continue
                seen.add(key)
                sol, used = self._solve(u.axes, u.hint)
                full = len(sol) == len(self.ks)

                def extra(idx, u=u, sol=sol, full=full):
                    if not full:
                        # some loop variable does not select the cell
                        cs = []
                        for a, i in zip(u.axes, idx):
                            if a is not None and (a[0] == 'v' or not mentions(a[1], self.ks)):
                                cs.append(A.axis_cond(a, i))
                        first = self.ks[0] > 0 if isinstance(self.dom, SeqDomain) else True
                        return and_(*cs, first)
                    ks2 = tuple(sol[j](idx) for j in range(len(self.ks)))
                    pairs = list(zip(self.ks, ks2))
                    e = self.dom.earlier(ks2, self.ks)
                    e = A.simp(e) if not isinstance(e, bool) else e
                    if e is False:
                        return False
                    cs = []
                    for a, i in zip(u.axes, idx):
                        if a is None:
                            continue
                        if a[0] == 'f' and mentions(a[1], self.ks):
                            cs.append(mk(T.subst(a[1], pairs) == i))
                        else:
                            cs.append(A.axis_cond(a, i))
                    d = T.subst(self.domcond, pairs) if isinstance(self.domcond, SBool) else self.domcond
                    return and_(e, d, *cs)
                op = Opaque()
                b.ups.append(Update((None,) * len(b.shape), extra, lambda idx, op=op: op))
                b.cache.clear()

    def _finish(self):
        c = self.ctx
        self._unmute()
        for b, m in self.marks:
            b.restore(m)
        self.hi = c.uid
        bufs = {}
        for pi, rec in enumerate(self.paths):
            for b, kind, w in rec.writes:
                bufs.setdefault(id(b), (b, kind, []))[2].append((rec, w))
        for b, kind, items in bufs.values():
            if kind == 'd':
                # the same cells each time round: unknown afterwards
                for rec, ch in items:
                    for k in ch:
                        b.d[k] = Opaque()
                continue
            ups = [(rec, u) for rec, w in items for u in w]
            sols = [self._solve(u.axes, u.hint) for _, u in ups]
            if any(len(s) < len(self.ks) for s, _ in sols):
                for rec, u in ups:
                    ax = tuple(None if (a is not None and a[0] == 'f' and mentions(a[1], self.ks)) else a for a in u.axes)
                    b.write(ax, None, lambda idx: Opaque())
                continue
            self._check_order(b, ups, sols)
            for (rec, u), (sol, used) in zip(ups, sols):
                b.write(*self._merged(rec, u, sol))
                if b.d is None:
                    b.ups[-1].hint = getattr(self, 'hint', None)
        # lists
        self._finish_lists()
        self.post = {}
        for n in self.nm:
            vals = [rec.locals[n] for rec in self.paths]
            if n in self.pre and all(v is self.pre[n] for v in vals):
                self.post[n] = self.pre[n]
            elif len(vals) == 1 and isinstance(vals[0], (int, SInt, SReal)) and isinstance(self.dom, SeqDomain) and ent(self.dom.n >= 1):
                # what the last iteration left
                v = T.subst(vals[0], [(self.ks[0], self.dom.n - 1)])
                if fresh_range(symbols(v), self.lo, self.hi) is None:
                    self.post[n] = v
        emits = [rec for rec in self.paths]
        self.done = True

    def _check_order(self, b, ups, sols):
        g = [SInt(z3.Int(f'ord!{i}')) for i in range(len(b.shape))]
        inv = []
        for (rec, u), (sol, used) in zip(ups, sols):
            inv.append(tuple(vkey(sol[j](tuple(g))) for j in range(len(self.ks))))
        for i in range(len(ups)):
            for j in range(i):
                if inv[i] == inv[j]:
                    continue
                ui, uj = ups[i][1], ups[j][1]
                if any(a is not None and q is not None and a[0] == 'f' and q[0] == 'f' and type(a[1]) is int
                       and type(q[1]) is int and a[1] != q[1] for a, q in zip(ui.axes, uj.axes)):
                    continue
                raise Unsupported(f'iterations of {self.lid} write overlapping cells in an order-dependent way')

    def _merged(self, rec, u, sol):
        ks = self.ks
        lo, hi = self.lo, self.hi
        pcs = [SBool(e) for e in rec.pc]

        def parts(idx):
            ks2 = tuple(sol[j](idx) for j in range(len(ks)))
            return list(zip(ks, ks2))

        def extra(idx):
            pairs = parts(idx)
            cs = [T.subst(self.domcond, pairs) if isinstance(self.domcond, SBool) else self.domcond]
            for a, i in zip(u.axes, idx):
                if a is None:
                    continue
                if a[0] == 'f' and mentions(a[1], ks):
                    cs.append(mk(T.subst(a[1], pairs) == i))
                else:
                    cs.append(A.axis_cond(a, i))
            base = and_(*cs)
            if base is False:
                return False
            for p in pcs:
                q = T.subst(p, pairs)
                self._chk(q)
                cs.append(q)
            if u.extra is not None:
                with CTX().scope([self.domcond] + [x for x in pcs] + [_eq(a, i) for a, i in zip(u.axes, idx)]):
                    e = u.extra(idx)
                e = T.subst(e, pairs) if isinstance(e, SBool) else e
                self._chk(e)
                cs.append(e)
            return and_(*cs)

        def val(idx):
            pairs = parts(idx)
            with CTX().scope([self.domcond] + [x for x in pcs] + [_eq(a, i) for a, i in zip(u.axes, idx)]):
                v = u.val(idx)
            v = T.subst(v, pairs)
            self._chk(v)
            return v
        # axes that do not depend on the iteration stay (an outer loop may
        # depend on them)
        axes = tuple(a if a is not None and not any(isinstance(x, SVal) and mentions(x, ks) for x in a[1:]) else None for a in u.axes)
        return axes, extra, val

    def _chk(self, v):
        bad = fresh_range(symbols(v), self.lo, self.hi)
        if bad:
            raise Unsupported(f'value depends on {bad}, which is local to an iteration ({self.lid})')

    def _at(self, get):
        """k -> value emitted/appended by iteration number k"""
        ks, dom = self.ks, self.dom
        paths = self.paths

        def at(i):
            ks2 = dom.unindex(i)
            pairs = list(zip(ks, ks2))
            out = None
            for rec in reversed(paths):
                v = get(rec)
                v2 = T.subst(v, pairs) if not isinstance(v, Poison) else v
                self._chk(v2)
                if out is None:
                    out = v2
                else:
                    pc = and_(*[T.subst(SBool(e), pairs) for e in rec.pc]) if rec.pc else True
                    out = ite(pc, v2, out)
            return out
        return at

    def _finish_lists(self):
        ids = {}
        for rec in self.paths:
            for k, (l, vals) in rec.lists.items():
                ids.setdefault(k, l)
        for k, l in ids.items():
            if k in self.frame.reads and any(rec.lists.get(k) and rec.lists[k][1] for rec in self.paths):
                raise Unsupported(f'a list is read in the loop that fills it ({self.lid})')
            cnt = set()
            for rec in self.paths:
                e = rec.lists.get(k)
                cnt.add(len(e[1]) if e else 0)
            if k in self.frame.once and cnt != {1}:
                raise Unsupported(f'items of a list looked up while it is filled ({self.lid})')
            if cnt == {1}:
                seq = SSeq(self.dom.len(), self._at(lambda rec, k=k: rec.lists[k][1][0]),
                           self._pset_of(lambda rec: rec.lists[k][1][0]))
                l._extend_sym(seq)
            elif cnt == {0, 1} or cnt == {0}:
                l._extend_sym(self._filtered(lambda rec: rec.lists[k][1][0] if k in rec.lists and rec.lists[k][1] else None))
            else:
                raise Unsupported(f'several appends per iteration ({self.lid})')

    def _pset_of(self, get):
        """the appended tuples are exactly the loop's points"""
        d = self.dom
        if isinstance(d, PSetDomain) and d.view is None and len(self.paths) == 1:
            v = get(self.paths[0])
            if isinstance(v, tuple) and len(v) == len(self.ks) and all(vkey(a) == vkey(b) for a, b in zip(v, self.ks)):
                return d.ps
        return None

    def _filtered(self, get):
        """conditional append of (an injective image of) the loop's points"""
        ks, dom = self.ks, self.dom
        recs = [(rec, get(rec)) for rec in self.paths]
        vals = [v for _, v in recs if v is not None]
        if not vals:
            return SSeq(0, lambda k: None)
        v = vals[0]
        if not isinstance(v, tuple) or any(vkey(x) != vkey(v) for x in vals):
            if len(ks) == 1 and all(isinstance(x, (SInt, SReal, SBool, int, float, str)) for x in vals):
                return self._selected(recs)
            raise Unsupported(f'conditional append ({self.lid})')
        axes = tuple(('f', e) for e in v)
        sol, used = self._solve(axes)
        if len(sol) != len(ks):
            raise Unsupported(f'conditional append of repeated values ({self.lid})')

        def member(idx):
            ks2 = tuple(sol[j](idx) for j in range(len(ks)))
            pairs = list(zip(ks, ks2))
            d = T.subst(self.domcond, pairs) if isinstance(self.domcond, SBool) else self.domcond
            cs = [d] + [mk(T.subst(e, pairs) == i) if isinstance(e, SInt) else mk(e == i) for e, i in zip(v, idx)]
            pcs = []
            for rec, x in recs:
                if x is None:
                    continue
                pcs.append(and_(*[T.subst(SBool(e), pairs) for e in rec.pc]) if rec.pc else True)
            r = and_(*cs, or_(*pcs))
            self._chk(r)
            return r
        ps = PSet(member, len(v))
        return ps.seq()

    def _selected(self, recs):
        """the values at those loop indices that pass the condition (their
        order is left open)"""
        k0, dom = self.ks[0], self.dom

        def inst(k):
            pairs = [(k0, k)]
            out = []
            for rec, x in recs:
                if x is not None:
                    pc = and_(*[T.subst(SBool(e), pairs) for e in rec.pc]) if rec.pc else True
                    self._chk(pc)
                    out.append((pc, T.subst(x, pairs)))
            return pairs, out

        def member(idx):
            pairs, out = inst(idx[0])
            d = T.subst(self.domcond, pairs) if isinstance(self.domcond, SBool) else self.domcond
            return and_(d, or_(*[pc for pc, _ in out]))

        def value(k):
            out = inst(k)[1]
            v = out[-1][1]
            for pc, x in out[-2::-1]:
                v = ite(pc, x, v)
            return v
        # one enumeration for all the lists filled under the same conditions, in the order of the loop
        key = tuple((tuple(str(SBool(e).k) for e in rec.pc), x is not None) for rec, x in recs)
        cache = self.__dict__.setdefault('_sel', {})
        if key not in cache:
            ps = PSet(member, 1)
            n, pt, rk = ps.enum()
            if dom.ordered:
                i, j = z3.Ints('sel.i sel.j')
                pi, pj = pt(SInt(i))[0].e, pt(SInt(j))[0].e
                CTX().define(SBool(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < SInt.ex(n)), pi < pj),
                                             patterns=[z3.MultiPattern(pi, pj)])))
            cache[key] = ps.seq()
        q = cache[key]
        r = SSeq(q.n, lambda j: value(q.at(j)[0]))
        r.selected = (lambda k: member((k,)), value)
        r.order = q
        return r

    def result(self, kind):
        """value of a comprehension"""
        recs = self.paths
        if all(r.has_emit for r in recs):
            seq = SSeq(self.dom.len(), self._at(lambda r: r.emitted), self._pset_of(lambda r: r.emitted))
        else:
            seq = self._filtered(lambda r: r.emitted if r.has_emit else None)
        return seq


def _eq(a, i):
    if a is None:
        return True
    if a[0] == 'f':
        if isinstance(a[1], tuple) or isinstance(i, tuple):
            return True
        return mk(a[1] == i)
    return True


def _axes_key(axes):
    return tuple(None if a is None else (a[0],) + tuple(vkey(x) if not isinstance(x, MDim) else ('M', id(x)) for x in a[1:])
                 for a in axes)


# --------------------------------------------------------------------------
# contracts for loops
# --------------------------------------------------------------------------
LOOPS = {}      # loop id -> contract object for `for`
WHILE = {}      # loop id -> contract factory for `while`


class PlainWhile:
    active = False

    def __init__(self, lid):
        self.n = 0
        self.lid = lid

    def head(self, locs):
        self.n += 1
        if self.n > 3000:
            raise Unsupported(f'while loop without a contract does not end ({self.lid})')

    def test(self, f):
        return bool(f())


def find_contract(reg, lid):
    f = reg.get(lid)
    if f is None:
        f = reg.get(lid.rpartition('#')[0] + '#*')
    return f


def make_while(lid):
    f = find_contract(WHILE, lid)
    if f is not None:
        return f(lid)
    return PlainWhile(lid)


def make_loop(it, lid, names):
    f = find_contract(LOOPS, lid)
    if f is not None:
        r = f(it, lid, names)
        if r is not None:
            return r
    return SymLoop(it, lid, names)


class InvFor:
    """A `for` loop proved with an invariant (classical rule).  The contract
    gives: entry(locs) proves the invariant initially; item() is the arbitrary
    element; havoc() is the arbitrary state (name -> value, facts assumed);
    step(locs) proves the invariant after the body; after() is the state when
    the loop has ended."""

    def __init__(self, it, lid, names):
        self.it, self.lid, self.nm = it, lid, names
        self.stage = 0
        self.state = {}

    def has_next(self, locs=None, used=None):
        c = CTX()
        if self.stage == 0:
            self.pre = dict(locs or {})
            self.used = dict(used or {})
            self.entry(self.pre)
            inside = SBool(z3.Bool(c.fresh('iteration')))
            if bool(inside):
                self.stage = 1
                self.state = self.havoc()
                return True
            self.stage = 3
            self.state = self.after()
            return False
        if self.stage == 2:
            self.state = dict(locs)
            self.stage = 3
            self.broke(locs)
            return False
        self.step(dict(locs))
        raise PathAbort('iteration proved')

    def names(self):
        return tuple(self.state.get(n, Poison(f'variable {n} of {self.lid}')) for n in self.nm)

    def next(self):
        return self.item()

    def brk(self):
        self.stage = 2

    def broke(self, locs):
        raise Unsupported(f'break in {self.lid}')

    def ret(self):
        pass


class InvWhile:
    """A `while` loop proved with an invariant."""
    active = True

    def __init__(self, lid):
        self.lid = lid
        self.stage = 0
        self.state = {}

    def head(self, locs):
        c = CTX()
        if self.stage == 0:
            self.pre = dict(locs)
            self.entry(self.pre)
            self.state = self.havoc()
            self.stage = 1
            return
        self.step(dict(locs))
        raise PathAbort('iteration proved')

    def names(self, names):
        return tuple(self.state.get(n, self.pre.get(n, Poison(f'variable {n} of {self.lid}'))) for n in names)

    def test(self, f):
        r = bool(f())
        if r:
            self.body_starts()
        else:
            self.after()
        return r

    def body_starts(self):
        pass

    def after(self):
        pass


# --------------------------------------------------------------------------
# merging of branches
# --------------------------------------------------------------------------
from .explore import MergeFail


class Merge:
    def __init__(self, c, locs, pos, names):
        ctx = CTX()
        self.nm = names
        self.ctx = ctx
        self.c = c
        self.pos = pos
        self.pre = dict(locs)
        self.marks = [(b, b.mark()) for b in ctx.bufs]
        self.attrs = []
        ctx.merges.append(self)
        self.sc = ctx.scope([c])
        self.sc.__enter__()

    def _snapshot(self):
        out = []
        for b, m in self.marks:
            if b.d is not None:
                ch = {k: b.d[k] for k in b.d if b.d[k] is not m[k]}
                if ch:
                    out.append((b, 'd', ch))
            elif len(b.ups) != m:
                out.append((b, 'u', list(b.ups[m:])))
        return out

    def mid(self, locs):
        self.sc.__exit__(None, None, None)
        self.then = dict(locs)
        self.tw = self._snapshot()
        for b, m in self.marks:
            b.restore(m)
        self.tattr = [(o, n, getattr(o, n, UNBOUND)) for o, n, old in self.attrs]
        self.tattr = list({(id(o), n): (o, n, v) for o, n, v in self.tattr}.values())
        for o, n, old in reversed(self.attrs):
            _restore_attr(o, n, old)
        self.attrs = []
        self.sc = self.ctx.scope([not_(self.c)])
        self.sc.__enter__()

    def end(self, locs):
        self.sc.__exit__(None, None, None)
        self.ctx.merges.pop()
        els = dict(locs)
        ew = self._snapshot()
        eattr = [(o, n, getattr(o, n, UNBOUND)) for o, n, old in self.attrs]
        for o, n, old in reversed(self.attrs):
            _restore_attr(o, n, old)
        eattr = {(id(o), n): (o, n, v) for o, n, v in eattr}
        for b, m in self.marks:
            b.restore(m)
        c = self.c
        nc = not_(c)
        try:
            eb = {id(b): (b, k, w) for b, k, w in ew}
            tb = {id(b): (b, k, w) for b, k, w in self.tw}
            for i in list(tb) + [i for i in eb if i not in tb]:
                b, kind, _ = (tb.get(i) or eb.get(i))
                if kind == 'd':
                    tw = tb[i][2] if i in tb else {}
                    e2 = eb[i][2] if i in eb else {}
                    for k in set(tw) | set(e2):
                        b.d[k] = ite(c, tw.get(k, b.d[k]), e2.get(k, b.d[k]))
                else:
                    for u in (tb[i][2] if i in tb else []):
                        b.write(u.axes, _guard(u.extra, c), u.val)
                    for u in (eb[i][2] if i in eb else []):
                        b.write(u.axes, _guard(u.extra, nc), u.val)
            ta = {(id(o), n): (o, n, v) for o, n, v in self.tattr}
            for k in list(ta) + [k for k in eattr if k not in ta]:
                o, n, _ = ta.get(k) or eattr.get(k)
                cur = getattr(o, n, UNBOUND)
                tv = ta[k][2] if k in ta else cur
                ev = eattr[k][2] if k in eattr else cur
                if tv is UNBOUND or ev is UNBOUND:
                    raise Unsupported('attribute bound on one branch only')
                setattr_logged(o, n, ite(c, tv, ev))
            out = {}
            for n in set(self.then) | set(els):
                tv, ev = self.then.get(n, UNBOUND), els.get(n, UNBOUND)
                if tv is UNBOUND and ev is UNBOUND:
                    continue
                if tv is UNBOUND or ev is UNBOUND:
                    out[n] = Poison(f'variable {n} bound on one branch only')
                elif isinstance(tv, Poison) or isinstance(ev, Poison):
                    out[n] = Poison(f'variable {n} unknown on one branch')
                else:
                    out[n] = ite(c, tv, ev)
        except Unsupported:
            raise MergeFail(self.pos)
        return out


def _guard(extra, c):
    if extra is None:
        return lambda idx: c
    return lambda idx: and_(c, extra(idx))


def _restore_attr(o, n, old):
    if old is UNBOUND:
        try:
            object.__delattr__(o, n)
        except AttributeError:
            pass
    else:
        try:
            object.__setattr__(o, n, old)
        except TypeError:
            type.__setattr__(o, n, old)


def setattr_logged(o, n, v):
    c = CTX()
    merges = getattr(c, 'merges', None)
    frames = getattr(c, 'frames', None)
    if merges or (frames and len(frames) > 1):
        try:
            old = object.__getattribute__(o, n) if not isinstance(o, type) else o.__dict__.get(n, UNBOUND)
        except AttributeError:
            old = UNBOUND
        # properties are ordinary calls
        cls = type(o)
        desc = getattr(cls, n, None)
        if not isinstance(desc, property) and cls.__setattr__ is object.__setattr__:
            for m in merges:
                m.attrs.append((o, n, old))
            if len(frames) > 1:
                fr = frames[-1]
                if old is UNBOUND:
                    fr.owned.add((id(o), n))
                    fr.keep.append(o)
                elif not any((id(o), n) in f.owned for f in frames[1:]):
                    fr.attrs.append((o, n, old))
    setattr(o, n, v)


def m_names(d, names):
    return tuple(d.get(n, Poison(f'unbound variable {n}')) for n in names)
