"""Symbolic sequences and sets of points."""
import z3
from . import terms as T
from .terms import SBool, SInt, SReal, Unsupported, and_, or_, not_, ite, mk, CTX, SVal
from .arr import SArr, ent


class SSeq:
    """A sequence of symbolic length: element k is at(k)."""
    _dv_seq = True
    _dv_loop = True

    def __init__(self, n, at, pset=None):
        self.n = n
        self.at = at
        self.pset = pset       # for sequences that enumerate a point set

    def _dv_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('len() of a symbolic sequence outside the facade')

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(k) for k in range(self.n)])
        raise Unsupported('iteration over a symbolic sequence outside a loop statement')

    def __getitem__(self, k):
        from .arr import norm_index, norm_slice
        if isinstance(k, slice):
            a, st, n = norm_slice(k, self.n)
            if st == 1:
                return SSeq(n, lambda j: self.at(j + a))
            return SSeq(n, lambda j: self.at(a - j))
        return self.at(norm_index(k, self.n, 'list index'))

    def __bool__(self):
        return bool(self.n > 0)

    def __add__(self, o):
        if isinstance(o, list):
            o = of_list(o)
        if not isinstance(o, SSeq):
            return NotImplemented
        a, b = self, o

        def at(k):
            c = mk(k < a.n)
            if ent(c):
                return a.at(k)
            if ent(not_(c)):
                return b.at(k - a.n)
            return ite(c, a.at(k), b.at(k - a.n))
        return SSeq(a.n + b.n, at)

    def __radd__(self, o):
        if isinstance(o, list):
            return of_list(o) + self
        return NotImplemented

    def to_array(self, d=None):
        from . import npf
        from .arr import conv, vdt
        probe = self.at(SInt(z3.Int(CTX().fresh('probe'))))
        if isinstance(probe, (tuple, list)):
            # nested sequences of equal lengths
            tail, x = [], probe
            while isinstance(x, (tuple, list)):
                tail.append(len(x))
                x = x[0]
            dd = d or vdt(x)

            def pick(v, i):
                if not i:
                    return conv(v, dd)
                if isinstance(i[0], int):
                    return pick(v[i[0]], i[1:])
                out = pick(v[-1], i[1:])
                for j in range(len(v) - 2, -1, -1):
                    out = ite(i[0] == j, pick(v[j], i[1:]), out)
                return out
            return SArr.fn((self.n, *tail), lambda i: pick(self.at(i[0]), i[1:]), dd)
        if isinstance(probe, SArr):
            sh = probe.shape
            dd = d or probe.d_
            return SArr.fn((self.n,) + sh, lambda i: conv(self.at(i[0]).get(i[1:]), dd), dd)
        dd = d or vdt(probe)
        return SArr.fn((self.n,), lambda i: conv(self.at(i[0]), dd), dd)


def of_list(l):
    def at(k):
        if isinstance(k, int):
            return l[k]
        out = l[-1]
        for j in range(len(l) - 2, -1, -1):
            out = ite(mk(k == j), l[j], out)
        return out
    return SSeq(len(l), at)


class PSet:
    """A finite set of integer tuples given by its membership predicate.  An
    enumeration pt(0..n-1) exists: its elements are exactly the members, each
    once (the order is unspecified)."""
    _dv_loop = True
    _dv_pset_obj = True

    def __init__(self, member, dim):
        self.member = member        # tuple -> bool
        self.dim = dim
        self._enum = None

    @staticmethod
    def of_mask(s):
        def member(c):
            inr = and_(*[and_(x >= 0, x < d) for x, d in zip(c, s.shape)])
            if inr is False:
                return False
            with CTX().scope([inr]):
                v = mk(SBool.of(s.get(tuple(c))))
            return and_(inr, v)
        return PSet(member, s.ndim)

    def coord(self, k):
        return Coord(self, k)

    def union(self, *os):
        out = self
        for o in os:
            out = out._union(o)
        return out

    def _union(self, o):
        if isinstance(o, (set, list, frozenset)):
            o = concrete_set(o, self.dim)
        a = self
        return PSet(lambda c: or_(a.member(c), o.member(c)), self.dim)

    __or__ = _union

    def intersection(self, o):
        a = self
        return PSet(lambda c: and_(a.member(c), o.member(c)), self.dim)

    __and__ = intersection

    def __sub__(self, o):
        a = self
        return PSet(lambda c: and_(a.member(c), not_(o.member(c))), self.dim)

    difference = __sub__

    def __contains__(self, c):
        return bool(self.member(tuple(c)))

    def copy(self):
        return self

    def __iter__(self):
        raise Unsupported('iteration over a symbolic set outside a loop statement')

    def __bool__(self):
        return bool(self._dv_len() > 0)

    def enum(self):
        """(n, pt): the ghost enumeration, with its defining facts."""
        if self._enum is None:
            c = CTX()
            nm = c.fresh('enum')
            n = SInt(z3.Int(nm + '.n'))
            fs = [z3.Function(f'{nm}.{k}', z3.IntSort(), z3.IntSort()) for k in range(self.dim)]
            rk = z3.Function(f'{nm}.rank', *([z3.IntSort()] * self.dim), z3.IntSort())
            c.define(n >= 0)
            vs = [z3.Int(f'{nm}.x{k}') for k in range(self.dim)]
            mem = SBool.of(self.member(tuple(SInt(v) for v in vs))).e
            c.define(z3.ForAll(vs, mem == z3.And(rk(*vs) >= 0, rk(*vs) < n.e,
                                               *[f(rk(*vs)) == v for f, v in zip(fs, vs)]),
                             patterns=[rk(*vs)]))
            kk = z3.Int(f'{nm}.k')
            c.define(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < n.e),
                                              rk(*[f(kk) for f in fs]) == kk),
                             patterns=[fs[0](kk)]))
            self._enum = (n, lambda k: tuple(SInt(f(SInt.ex(k))) for f in fs), rk)
        return self._enum

    def _dv_len(self):
        return self.enum()[0]

    def seq(self):
        n, pt, rk = self.enum()

        def at(k):
            p = pt(k)
            with_fact(k, n, self, p)
            return p
        return SSeq(n, at, self)


def with_fact(k, n, ps, p):
    c = CTX()
    key = ('mem', id(ps), T.vkey(k))
    if key in c.deftags:
        return
    c.deftags.add(key)
    e = T.implies(and_(k >= 0, k < n), ps.member(p))
    if isinstance(e, SBool) and T.has_free_vars(e.e):
        return
    c.define(SBool.of(e))


def concrete_set(s, dim):
    items = [tuple(x) for x in s]

    def member(c):
        return or_(*[and_(*[mk(a == b) for a, b in zip(c, i)]) for i in items]) if items else False
    return PSet(member, dim)


class Coord:
    """One coordinate array of a point set (as numpy.nonzero returns)."""
    _dv_pset = True
    _dv_coord = True

    def __init__(self, ps, k, order=None):
        self.ps = ps
        self.k = k

    def _dv_len(self):
        return self.ps._dv_len()


def zip_points(coords):
    """zip(xs, ys) of the coordinate arrays of one set -> the set of points
    with the coordinates in that order."""
    ps = coords[0].ps
    if any(c.ps is not ps for c in coords):
        raise Unsupported('zip of coordinates of different point sets')
    perm = [c.k for c in coords]
    if perm == list(range(ps.dim)):
        return ps
    if sorted(perm) != list(range(ps.dim)):
        raise Unsupported('zip of repeated coordinates')

    def member(c):
        src = [None] * ps.dim
        for j, k in enumerate(perm):
            src[k] = c[j]
        return ps.member(tuple(src))
    return PSet(member, ps.dim)


def unzip(ps):
    """zip(*points): tuple of coordinate columns (empty when there are no
    points, which is a case split)."""
    if isinstance(ps, PSet):
        # numpy/python: zip(*[]) yields nothing
        if bool(ps._nonempty()):
            return [ps.coord(k) for k in range(ps.dim)]
        return []
    raise Unsupported('zip(*...) of a symbolic sequence')


def _nonempty(self):
    c = CTX()
    if getattr(self, '_ne', None) is None:
        b = SBool(z3.Bool(c.fresh('nonempty')))
        vs = [z3.Int(c.fresh('w')) for _ in range(self.dim)]
        w = tuple(SInt(v) for v in vs)
        c.define(T.implies(b, self.member(w)))
        us = [z3.Int(f'u{k}!b') for k in range(self.dim)]
        c.define(z3.Implies(z3.Not(b.e), z3.ForAll(us, z3.Not(SBool.of(self.member(tuple(SInt(u) for u in us))).e))))
        self._ne = b
    return self._ne


PSet._nonempty = _nonempty


def _coords_comp(arr, comps):
    ps = [c for c in comps if c[0] == 'pset']
    base = ps[0][2].ps
    if any(c[2].ps is not base for c in ps):
        raise Unsupported('mixed point sets in an index')
    others = [c for c in comps if c[0] not in ('pset',)]
    return base, ps, others


def pset_set(arr, comps, val):
    """A[ys, xs] = scalar for all points of a set."""
    from .arr import basic_view, src_axes, conv, bounds
    base, ps, others = _coords_comp(arr, comps)
    if not isinstance(val, (SVal, int, float, bool)):
        raise Unsupported('assignment of an array through a point set')
    fake = []
    for c in comps:
        if c[0] == 'pset':
            fake.append(('s', c[1], 0, 1, arr.shape[c[1]]))
        else:
            fake.append(c)
    view = basic_view(arr, fake)
    kept = [c[1] for c in fake if c[0] == 's']
    axes, inv = src_axes(view)
    pos = {c[2].k: kept.index(c[1]) for c in ps}
    if sorted(pos) != list(range(base.dim)):
        raise Unsupported('partial point index')
    v = conv(val, arr.d_)
    # bounds: every member lies inside the array
    us = tuple(SInt(z3.Int(CTX().fresh('p'))) for _ in range(base.dim))
    dims = {c[2].k: arr.shape[c[1]] for c in ps}
    with CTX().scope([base.member(us)]):
        CTX().prove('point index within bounds',
                    and_(*[and_(us[k] >= -dims[k], us[k] < dims[k]) for k in range(base.dim)]))
        CTX().prove('point index non-negative', and_(*[us[k] >= 0 for k in range(base.dim)]))

    def extra(bi):
        vi = inv(bi)
        return mk(SBool.of(base.member(tuple(vi[pos[k]] for k in range(base.dim)))))
    arr.buf.write(axes, extra, lambda bi: v)


def pset_get(arr, comps):
    raise Unsupported('read through a symbolic point set')


def sym_gcd(vs):
    g = SInt(z3.Int(CTX().fresh('gcd')))
    c = CTX()
    qs = []
    c.define(g >= 0)
    for v in vs:
        q = SInt(z3.Int(c.fresh('q')))
        c.define(mk(SBool(SInt.ex(v) == SInt.ex(g) * SInt.ex(q))))
        qs.append(q)
    c.define(T.implies(or_(*[mk(v != 0) for v in vs]), g > 0))
    return g
