"""Run-time support for the transformed code: operators, builtins, lists."""
import builtins
import functools
import math
import operator
import types
from fractions import Fraction

import numpy as _np
import z3

from . import terms as T
from .terms import (SBool, SInt, SReal, SVal, Unsupported, and_, or_, not_, ite, mk, CTX, vkey)
from . import arr as A
from . import npf
from . import loops
from .arr import SArr, MDim, conc
from .seqs import SSeq, PSet, Coord, zip_points, unzip, of_list
from .loops import (LoopIt, is_symiter, domain, zip_domain, enum_domain, SeqDomain, MapDomain, PSetDomain,
                    setattr_logged, Merge, MergeFail, Poison)

_FLT = {}


def flt(s):
    v = _FLT.get(s)
    if v is None:
        v = float(s)
        if v != v or v in (math.inf, -math.inf):
            pass
        else:
            v = SReal.const(Fraction(s))
        _FLT[s] = v
    return v


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def unnp(x):
    if isinstance(x, _np.generic):
        return x.item()
    return x


def div(a, b):
    a, b = unnp(a), unnp(b)
    if _isnum(a) and _isnum(b):
        if isinstance(a, float) and (a != a or a in (math.inf, -math.inf)):
            return a / b
        return SReal.of(a) / SReal.of(b)
    if isinstance(a, list) and isinstance(b, SReal):
        # list / numpy scalar
        return npf.array(a) / b
    return a / b


def mod(a, b):
    return a % b


def pow_(a, b):
    a, b = unnp(a), unnp(b)
    if _isnum(a) and isinstance(b, int) and b < 0:
        return SReal.of(a) ** b
    if _isnum(a) and isinstance(b, (float, SReal)):
        return SReal.of(a) ** b
    return a ** b


def _lst(r):
    if type(r) is list:
        return DvList(r)
    return r


def add(a, b):
    if isinstance(a, DvList) and a._seq is not None or isinstance(b, DvList) and b._seq is not None:
        r = DvList()
        r._set(_seqof(a) + _seqof(b))
        return r
    return _lst(a + b)


def _seqof(x):
    if isinstance(x, DvList):
        return x._seq if x._seq is not None else of_list(list(x))
    if isinstance(x, SSeq):
        return x
    return of_list(list(x))


def mul(a, b):
    if isinstance(a, list) and isinstance(b, SInt):
        if len(a) != 1:
            raise Unsupported('list repeated a symbolic number of times')
        r = DvList()
        v = a[0]
        r._set(SSeq(b, lambda k: v))
        return r
    if isinstance(b, list) and isinstance(a, SInt):
        return mul(b, a)
    return _lst(a * b)


_IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
         'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'BitOr': operator.ior,
         'BitAnd': operator.iand, 'BitXor': operator.ixor, 'LShift': operator.ilshift, 'RShift': operator.irshift,
         'MatMult': operator.imatmul}


def iop(op, a, b):
    a, b = unnp(a), unnp(b)
    if op == 'Div' and _isnum(a) and _isnum(b):
        return div(a, b)
    if op == 'Add' and isinstance(a, list):
        a.extend(b)
        return a
    return _IOPS[op](a, b)


# --------------------------------------------------------------------------
# lists and sets that know about loops
# --------------------------------------------------------------------------
def _depth():
    fr = getattr(CTX(), 'frames', None)
    return len(fr) if fr else 1


def _merging():
    return bool(getattr(CTX(), 'merges', None))


class DvList(list):
    def __init__(self, x=()):
        list.__init__(self, x)
        self._seq = None
        self._dep = _depth()
        self._mer = len(getattr(CTX(), 'merges', None) or ())

    def _guard(self):
        ms = getattr(CTX(), 'merges', None)
        if ms and len(ms) > self._mer:
            raise MergeFail(ms[-1].pos)
        d = _depth()
        if d > self._dep:
            return CTX().frames[-1]
        return None

    def _frame(self):
        """the innermost but one frame: the loop that may be filling the list"""
        c = CTX()
        fr = getattr(c, 'frames', None) or ()
        if len(fr) > self._dep:
            f = fr[self._dep]
            if f.loop is not None:
                return f
        return None

    def _rd(self):
        """the content is looked at in a loop: the loop must not add to it"""
        f = self._frame()
        if f is not None:
            f.reads[id(self)] = self

    def _pending(self, k):
        """item of this iteration of the loop that fills the list"""
        f = self._frame()
        if f is None or isinstance(k, slice) or id(self) not in f.lists:
            return None
        vals = f.lists[id(self)][1]
        if type(k) is int and k < 0:
            if -k > len(vals):
                raise Unsupported('list item of an earlier iteration')
            f.once[id(self)] = self
            return (vals[k],)
        try:
            at = self._len0() + f.loop.dom.index(f.loop.ks)
        except Exception:
            return None
        if len(vals) == 1 and f.loop.dom.ordered and A.ent(mk(SInt.mk(SInt.ex(k)) == at)):
            f.once[id(self)] = self     # checked at the end of the loop: one item each time round
            return (vals[0],)
        return None

    def _len0(self):
        return self._seq.n if self._seq is not None else list.__len__(self)

    def _set(self, seq):
        list.clear(self)
        if isinstance(seq.n, int):
            list.extend(self, [seq.at(k) for k in range(seq.n)])
            self._seq = None
        else:
            self._seq = seq

    def _extend_sym(self, seq):
        if self._seq is None and len(self) == 0:
            self._set(seq)
            return
        cur = self._seq if self._seq is not None else of_list(list(self))
        self._set(cur + seq)

    # symbolic protocol
    @property
    def _dv_seq(self):
        return self._seq is not None

    @property
    def _dv_loop(self):
        return self._seq is not None

    def _dv_domain(self):
        return domain(self._seq)

    def _dv_len(self):
        self._rd()
        return self._len0()

    def to_array(self, d=None):
        self._rd()
        return self._seq.to_array(d)

    def __len__(self):
        self._rd()
        if self._seq is not None:
            return len(self._seq)
        return list.__len__(self)

    def __iter__(self):
        self._rd()
        if self._seq is not None:
            return iter(self._seq)
        return list.__iter__(self)

    def __bool__(self):
        self._rd()
        if self._seq is not None:
            return bool(self._seq)
        return list.__len__(self) > 0

    def __getitem__(self, k):
        r = self._pending(k)
        if r is not None:
            return r[0]
        self._rd()
        if self._seq is not None:
            r = self._seq[k]
            if isinstance(r, SSeq):
                o = DvList()
                o._set(r)
                return o
            return r
        if isinstance(k, SInt):
            if not list.__len__(self):
                raise IndexError('list index out of range')
            return of_list(list(self))[k]
        k = unnp(k)
        r = list.__getitem__(self, k)
        return DvList(r) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        if self._guard() is not None or self._seq is not None:
            raise Unsupported('list item assigned in a symbolic loop')
        if isinstance(k, SInt):
            raise Unsupported('list item with a symbolic index assigned')
        list.__setitem__(self, unnp(k), v)

    def append(self, v):
        f = self._guard()
        if f is not None:
            if len(CTX().frames) - self._dep != 1:
                raise Unsupported('append in nested symbolic loops')
            f.lists.setdefault(id(self), (self, []))[1].append(v)
            return
        if self._seq is not None:
            self._set(self._seq + [v])
            return
        list.append(self, v)

    def extend(self, o):
        if self._guard() is not None:
            raise Unsupported('extend in a symbolic loop')
        if T.flag(o, '_dv_seq', False) or isinstance(o, (SSeq, LoopIt)):
            self._extend_sym(_toseq(o))
            return
        if self._seq is not None:
            self._set(self._seq + list(o))
            return
        list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return add_lists(self, o)

    def _mut(name):
        def f(self, *a, **k):
            if self._guard() is not None:
                raise Unsupported(f'list.{name} in a symbolic loop')
            if self._seq is not None:
                raise Unsupported(f'list.{name} on a symbolic list')
            return getattr(list, name)(self, *a, **k)
        return f
    for _n in ('pop', 'insert', 'remove', 'sort', 'reverse', 'clear', '__delitem__', '__imul__'):
        locals()[_n] = _mut(_n)

    def copy(self):
        r = DvList()
        if self._seq is not None:
            r._set(self._seq)
        else:
            list.extend(r, self)
        return r

    def index(self, v, *a):
        if self._seq is not None:
            raise Unsupported('list.index on a symbolic list')
        return list.index(self, v, *a)

    def __eq__(self, o):
        if self._seq is not None or getattr(o, '_seq', None) is not None:
            raise Unsupported('comparison of symbolic lists')
        return list.__eq__(self, o)

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy
        if self._seq is not None:
            return self.copy()
        return DvList([copy.deepcopy(x, memo) for x in list.__iter__(self)])

    def __copy__(self):
        return self.copy()

    def _dv_ite(self, c, a, b):
        if isinstance(a, DvList) and isinstance(b, DvList) and a._seq is None and b._seq is None and len(a) == len(b):
            return DvList([ite(c, x, y) for x, y in zip(a, b)])
        raise Unsupported('merge of lists')

    def _dv_subst(self, s):
        if self._seq is not None:
            q = self._seq
            r = DvList()
            r._set(SSeq(s.val(q.n), lambda k: s.val(q.at(k))))
            return r
        return DvList([s.val(x) for x in list.__iter__(self)])

    def _dv_members(self):
        return [] if self._seq is not None else list(list.__iter__(self))


def add_lists(a, b):
    if a._seq is None and getattr(b, '_seq', None) is None and not isinstance(b, SSeq):
        return DvList(list.__add__(a, list(b)))
    return add(a, b)


class DvSet(set):
    def __init__(self, x=()):
        set.__init__(self, x)
        self._dep = _depth()

    def _mut(name):
        def f(self, *a, **k):
            if _depth() > self._dep:
                raise Unsupported(f'set.{name} in a symbolic loop')
            ms = getattr(CTX(), 'merges', None)
            if ms:
                raise MergeFail(ms[-1].pos)
            return getattr(set, name)(self, *a, **k)
        return f
    for _n in ('add', 'discard', 'remove', 'update', 'pop', 'clear'):
        locals()[_n] = _mut(_n)

    def union(self, *os):
        for o in os:
            if isinstance(o, PSet):
                r = o
                for p in (self,) + os:
                    r = r._union(p) if p is not o else r
                return r
        return DvSet(set.union(self, *os))

    __hash__ = None


def _toseq(o):
    if isinstance(o, SSeq):
        return o
    if isinstance(o, LoopIt):
        return o.seq()
    if isinstance(o, DvList):
        return _seqof(o)
    if isinstance(o, PSet):
        return o.seq()
    raise Unsupported(f'sequence of {type(o).__name__}')


def mklist(l):
    return DvList(l)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
def _symb(x):
    if isinstance(x, SBool):
        return True
    if isinstance(x, SArr) and x.d_ == 'b' and all(type(d) is int and d == 1 for d in x.shape):
        return isinstance(x.item(), SBool)
    return False


def _sb(x):
    return x.item() if isinstance(x, SArr) else x


def and2(a, f):
    if not _symb(a):
        return f() if a else a
    a = mk(_sb(a))
    if isinstance(a, bool):
        return f() if a else a
    c = CTX()
    if c.entails(a):
        return f()
    if c.entails(not_(a)):
        return False
    n = len(c.pc)
    with c.scope([a]):
        b = f()
    if isinstance(b, (bool, SBool)) or _symb(b):
        return and_(a, _sb(b))
    if bool(a):
        return b
    return a


def or2(a, f):
    if not _symb(a):
        return a if a else f()
    a = mk(_sb(a))
    if isinstance(a, bool):
        return a if a else f()
    c = CTX()
    if c.entails(a):
        return True
    if c.entails(not_(a)):
        return f()
    with c.scope([not_(a)]):
        b = f()
    if isinstance(b, (bool, SBool)) or _symb(b):
        return or_(a, _sb(b))
    if bool(a):
        return a
    return b


def lnot(a):
    if _symb(a):
        return not_(_sb(a))
    return not a


_CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def chain(ops, *vals):
    r = True
    for o, a, b in zip(ops.split(), vals, vals[1:]):
        c = _CMP[o](a, b)
        if isinstance(r, SBool) or isinstance(c, SBool):
            r = and_(r, c)
            if r is False:
                return False
        else:
            if not c:
                return c
            r = c if r is True else r
    return r


def _hassym(x):
    if isinstance(x, (SInt, SBool)):
        return True
    if isinstance(x, SReal):
        return not T.p_isconst(x.p)
    if isinstance(x, (tuple, list)):
        return any(_hassym(y) for y in x)
    return False


def eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[eq(x, y) for x, y in zip(a, b)]) if a else True
    r = a == b
    if isinstance(r, SArr):
        return bool(r)
    return r if isinstance(r, (bool, SBool)) else bool(r)


def contains(x, coll):
    if isinstance(coll, PSet):
        return coll.member(tuple(x))
    if isinstance(coll, range) and isinstance(x, SInt):
        coll = list(coll)
    if isinstance(coll, LoopIt) or isinstance(coll, SSeq) or T.flag(coll, '_dv_seq', False):
        raise Unsupported('membership in a symbolic list')
    if isinstance(coll, (list, tuple, set, frozenset)):
        items = list(coll)
        if _hassym(x) or any(_hassym(i) for i in items):
            return mk(or_(*[eq(i, x) for i in items])) if items else False
    if isinstance(coll, SArr):
        return npf.any(coll == x)
    if isinstance(coll, (dict, type({}.keys()))) and _hassym(x):
        return mk(or_(*[eq(i, x) for i in list(coll)])) if len(coll) else False
    return x in coll


# --------------------------------------------------------------------------
# names, merging, comprehension
# --------------------------------------------------------------------------
def pick(locs, names):
    return {n: locs[n] for n in names if n in locs}


def mergeable(c, pos, cnt):
    if not _symb(c):
        return False
    x = CTX()
    lim = getattr(x, 'merge_limit', 0)
    if not lim or cnt > lim or pos in x.nomerge:
        return False
    c = mk(_sb(c))
    if isinstance(c, bool) or x.entails(c) or x.entails(not_(c)):
        return False
    return True


def m_begin(c, locs, pos, names):
    return Merge(mk(_sb(c)), locs, pos, names)


def m_mid(m, locs):
    m.mid(locs)
    return loops.m_names(m.pre, m.nm)


def m_end(m, locs):
    return loops.m_names(m.end(locs), m.nm)


def ifexp(c, f, g, pos):
    """f() if c else g()"""
    if not mergeable(c, pos, 1):
        return f() if c else g()
    m = m_begin(c, {}, pos, ('value',))
    m.mid({'value': f()})
    return m.end({'value': g()})['value']


def unpack(v, n):
    """tuple unpacking: numpy rows, symbolic sequences of known length"""
    if isinstance(v, (tuple, list)) and not T.flag(v, '_dv_seq', False):
        if len(v) != n:
            raise ValueError(f'cannot unpack {len(v)} values into {n}')
        return v
    if isinstance(v, SArr):
        d = v.shape[0]
        if not isinstance(d, int):
            A.bounds(mk(d == n), 'unpacked length')
            return [v[i] for i in range(n)]
        return list(v)
    if T.flag(v, '_dv_seq', False) or isinstance(v, SSeq):
        q = _toseq(v)
        A.bounds(mk(q.n == n), 'unpacked length')
        return [q.at(i) for i in range(n)]
    return v


def comp(it, f, flt_, kind):
    if not is_symiter(it):
        out = [f(x) for x in it if flt_ is None or flt_(x)]
        return as_kind(out, kind)
    lid = f'comprehension'
    L = loops.SymLoop(it, lid, ())
    while L.has_next({}):
        x = L.next()
        if flt_ is None or bool(flt_(x)):
            L.emit(f(x))
    q = L.result(kind)
    if kind in ('list', 'gen'):
        r = DvList()
        r._set(q)
        return r
    if kind == 'set':
        if q.pset is not None:
            return q.pset
        raise Unsupported('set comprehension of non-points')
    raise Unsupported('dict comprehension over a symbolic iterable')


def as_kind(out, kind):
    if kind == 'list':
        return DvList(out)
    if kind == 'set':
        return DvSet(out)
    if kind == 'dict':
        return {k: v for k, v in out}
    return iter(DvList(out)) if kind == 'gen' else out


def flat(l):
    if T.flag(l, '_dv_seq', False):
        raise Unsupported('nested comprehension over a symbolic iterable')
    return DvList([x for y in l for x in y])


def zipstar(x):
    if isinstance(x, PSet):
        return unzip(x)
    if isinstance(x, SSeq) and x.pset is not None:
        return unzip(x.pset)
    if isinstance(x, DvList) and x._seq is not None:
        return zipstar(x._seq)
    if isinstance(x, (SSeq,)):
        probe = x.at(SInt(z3.Int(CTX().fresh('probe'))))
        if not isinstance(probe, tuple):
            raise Unsupported('zip(*...)')
        if not bool(x.n > 0):
            return iter(())
        r = []
        for j in range(len(probe)):
            o = DvList()
            o._set(SSeq(x.n, (lambda j: lambda k: x.at(k)[j])(j)))
            r.append(o)
        return r
    return b_zip(*[list(y) if isinstance(y, SArr) and isinstance(y.shape[0], int) else y for y in x])


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------
def b_len(x):
    h = T.flag(x, '_dv_len', None)
    if h is not None:
        return h()
    m = getattr(type(x), '__len__', None)
    if m is not None and isinstance(m, types.FunctionType):
        return m(x)          # may be symbolic (len() would insist on an int)
    return len(x)


def b_range(*a):
    a = [unnp(x) for x in a]
    a = [x.item() if isinstance(x, SArr) and x.shape == () else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if any(isinstance(x, SReal) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0:
        raise Unsupported('symbolic range step')
    if st == 1:
        n = hi - lo
    elif st > 0:
        n = (hi - lo + (st - 1)) // st
    else:
        n = (lo - hi + (-st - 1)) // (-st)
    n = A.imax(n, 0)
    if isinstance(n, int):
        return DvList([lo + k * st for k in range(n)])
    return SSeq(n, lambda k: lo + k * st)


def b_enumerate(x, start=0):
    if is_symiter(x):
        return LoopIt(enum_domain(x, start))
    return builtins.enumerate(x, start)


def b_zip(*xs, strict=False):
    if not xs:
        return builtins.zip()
    if all(T.flag(x, '_dv_coord', False) for x in xs):
        return zip_points(xs)
    sy = [is_symiter(x) for x in xs]
    if any(sy):
        if not all(sy) and any(isinstance(x, (list, tuple)) and len(x) == 0 for x, s in builtins.zip(xs, sy) if not s):
            return builtins.zip()
        for x, s in builtins.zip(xs, sy):
            if not s and not isinstance(x, (list, tuple, range, SArr)):
                raise Unsupported('zip of symbolic and lazy sequences')
        return LoopIt(zip_domain(xs))
    return builtins.zip(*xs)


def b_abs(x):
    if isinstance(x, (SReal, SInt)):
        return T.sabs(x)
    if isinstance(x, SArr):
        return npf.absolute(x)
    return abs(x)


def _mm(kind):
    real = builtins.max if kind == 'max' else builtins.min
    f = T.smax if kind == 'max' else T.smin

    def g(*a, key=None, default=None):
        if len(a) == 1:
            a = a[0]
            if isinstance(a, SArr):
                a = list(a) if isinstance(a.shape[0], int) else a
            if is_symiter(a):
                red = npf.max if kind == 'max' else npf.min
                return red(npf.asarray(_toseq(a) if not isinstance(a, SArr) else a))
            a = list(a)
            if not a and default is not None:
                return default
        a = [unnp(x) for x in a]
        a = [x.item() if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
        if key is None and any(isinstance(x, (SReal, SInt)) for x in a):
            return f(*a)
        if key is not None:
            return real(a, key=key)
        return real(a)
    return g


def b_sum(x, start=0):
    if is_symiter(x):
        v = npf.sum(npf.asarray(_toseq(x) if not isinstance(x, SArr) else x))
        return v if start == 0 else v + start
    r = start
    for v in x:
        r = add(r, v) if isinstance(r, list) else r + v
    return r


def b_any(x):
    if is_symiter(x):
        return npf.any(npf.asarray(_toseq(x) if not isinstance(x, SArr) else x))
    r = False
    for v in x:
        if isinstance(v, SBool) or _symb(v):
            r = or_(r, _sb(v))
        elif v:
            return True
    return r


def b_all(x):
    if is_symiter(x):
        return npf.all(npf.asarray(_toseq(x) if not isinstance(x, SArr) else x))
    r = True
    for v in x:
        if isinstance(v, SBool) or _symb(v):
            r = and_(r, _sb(v))
        elif not v:
            return False
    return r


def b_map(f, *xs):
    if any(is_symiter(x) for x in xs):
        return comp(b_zip(*xs), lambda t: f(*t), None, 'list')
    return builtins.map(f, *xs)


def b_round(x, n=None):
    if isinstance(x, (SReal, SArr)):
        if isinstance(x, SReal) and n is None:
            r = npf.round_(x)
            return A.trunc(SReal.of(r))
        return npf.round_(x, n or 0)
    return round(x, n) if n is not None else round(x)


def b_sorted(x, key=None, reverse=False):
    if is_symiter(x):
        raise Unsupported('sorting a symbolic sequence')
    return DvList(sorted(list(x), key=key, reverse=reverse))


def b_reversed(x):
    if is_symiter(x):
        q = _toseq(x) if not isinstance(x, SArr) else SSeq(x.shape[0], lambda k: x[k])
        return SSeq(q.n, lambda k: q.at(q.n - 1 - k))
    return builtins.reversed(x)


def b_print(*a, **k):
    pass


def b_hash(x):
    """a tuple of integers: an unknown function of them (equal tuples hash alike, nothing else is known)"""
    if type(x) is tuple and builtins.any(isinstance(e, SInt) for e in x) and builtins.all(isinstance(e, (int, SInt)) for e in x):
        return T.iapp(f'hash{len(x)}', list(x))
    h = type(x).__hash__
    if isinstance(h, types.FunctionType) and not isinstance(x, (SInt, SReal, SBool, SArr)):
        return h(x)
    return builtins.hash(x)


def b_bool(x=False):
    if isinstance(x, (SBool,)):
        return mk(x)
    if _symb(x):
        return mk(_sb(x))
    return builtins.bool(x)


def b_divmod(a, b):
    if isinstance(a, (SInt, SReal)) or isinstance(b, (SInt, SReal)):
        return a // b, a % b
    return builtins.divmod(a, b)


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real) or x is cls

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class dv_float(metaclass=_Meta):
    _real = float

    @staticmethod
    def _inst(x):
        return isinstance(x, (float, SReal)) and not isinstance(x, bool)

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, (SReal, SInt, SBool, int, Fraction)):
            return SReal.of(x)
        if isinstance(x, A.NaN):
            return x
        if isinstance(x, str) and T.TEXT is not None:
            v = T.TEXT.number(x)
            if v is not None:
                return SReal.of(v)
        v = float(x)
        if v != v or v in (math.inf, -math.inf):
            return v
        if isinstance(x, str):
            return SReal.const(Fraction(x.strip()))
        return SReal.of(v)


class dv_int(metaclass=_Meta):
    _real = int

    @staticmethod
    def _inst(x):
        return isinstance(x, (int, SInt))

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SReal):
            return A.trunc(x)
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return ite(x, 1, 0)
        if isinstance(x, str) and T.TEXT is not None:
            v = T.TEXT.number(x)
            if v is not None:
                if isinstance(v, SReal):
                    raise ValueError(f'invalid literal for int(): {x!r}')
                return v
        return int(x, *a)


class dv_bool(metaclass=_Meta):
    _real = bool

    @staticmethod
    def _inst(x):
        return isinstance(x, (bool, SBool))

    @staticmethod
    def _make(x=False):
        return b_bool(x)


class dv_list(metaclass=_Meta):
    _real = list

    @staticmethod
    def _inst(x):
        return isinstance(x, list)

    @staticmethod
    def _make(x=()):
        if isinstance(x, Coord):
            r = DvList()
            ps = x.ps
            q = ps.seq()
            r._set(SSeq(q.n, lambda k: q.at(k)[x.k]))
            return r
        if is_symiter(x):
            r = DvList()
            if isinstance(x, SArr):
                r._set(SSeq(x.shape[0], lambda k: x[k]))
            else:
                r._set(_toseq(x))
            return r
        return DvList(x)


class dv_tuple(metaclass=_Meta):
    _real = tuple

    @staticmethod
    def _inst(x):
        return isinstance(x, tuple)

    @staticmethod
    def _make(x=()):
        if is_symiter(x):
            raise Unsupported('tuple of a symbolic sequence')
        return tuple(x)


class dv_set(metaclass=_Meta):
    _real = set

    @staticmethod
    def _inst(x):
        return isinstance(x, (set, PSet))

    @staticmethod
    def _make(x=()):
        if isinstance(x, PSet):
            return x
        if isinstance(x, SSeq) and x.pset is not None:
            return x.pset
        if isinstance(x, DvList) and x._seq is not None and x._seq.pset is not None:
            return x._seq.pset
        if is_symiter(x):
            raise Unsupported('set of a symbolic sequence')
        return DvSet(x)


dv_float.__name__ = 'float'
dv_int.__name__ = 'int'
dv_bool.__name__ = 'bool'


def b_type(x):
    """type(x), as the class the builtin name means in the transformed code"""
    for c in (dv_bool, dv_int, dv_float, dv_list, dv_tuple, dv_set):
        if c._inst(x):
            r = type(x)
            return c if r in (c._real, SBool, SInt, SReal, DvList, DvSet, PSet) else r
    if isinstance(x, SArr):
        return npf.ndarray
    return type(x)


def b_isinstance(x, c):
    if isinstance(c, tuple):
        return builtins.any(b_isinstance(x, k) for k in c)
    return isinstance(x, c)


def b_iter(x):
    if is_symiter(x):
        return x
    return builtins.iter(x)


def setitem(o, k, v):
    if isinstance(o, dict):
        ms = getattr(CTX(), 'merges', None)
        if ms:
            raise MergeFail(ms[-1].pos)
    o[k] = v


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def report_progress(message=''):
    """contract of the decorator: run the generator to its end and return
    the value it returns"""
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            g = f(*a, **k)
            while True:
                try:
                    next(g)
                except StopIteration as e:
                    return e.value
        return w
    return deco


class _Math(types.ModuleType):
    pass


math_facade = _Math('math')
for _n in dir(math):
    if not _n.startswith('__'):
        setattr(math_facade, _n, getattr(math, _n))
math_facade.sqrt = lambda x: T.ssqrt(x)
math_facade.cos = lambda x: T.scos(x)
math_facade.sin = lambda x: T.ssin(x)
math_facade.acos = lambda x: T.sarccos(x)
math_facade.atan2 = lambda y, x: T.sarctan2(y, x)
math_facade.floor = lambda x: npf._floor(SReal.of(x))
math_facade.pi = None


class _PiProp(types.ModuleType):
    pass


ENTERED = set()


def enter(q):
    if len(T._CTX) > 1:
        ENTERED.add(q)


BUILTINS = {
    '_dv_enter': enter, '_dv_type': b_type,
    '_dv_flt': flt, '_dv_div': div, '_dv_mod': mod, '_dv_pow': pow_, '_dv_add': add, '_dv_mul': mul, '_dv_iop': iop,
    '_dv_mklist': mklist, '_dv_and': and2, '_dv_or': or2, '_dv_not': lnot, '_dv_chain': chain, '_dv_in': contains,
    '_dv_zipstar': zipstar, '_dv_comp': comp, '_dv_flat': flat, '_dv_as': lambda x, k: as_kind(list(x), k),
    '_dv_unpack': unpack, '_dv_pick': pick, '_dv_setattr': setattr_logged, '_dv_mergeable': mergeable,
    '_dv_ifexp': ifexp, '_dv_m_begin': m_begin, '_dv_m_mid': m_mid, '_dv_m_end': m_end, '_dv_symiter': is_symiter,
    '_dv_loop': loops.make_loop, '_dv_while': loops.make_while, '_dv_setitem': setitem,
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'abs': b_abs, 'max': _mm('max'),
    'min': _mm('min'), 'sum': b_sum, 'any': b_any, 'all': b_all, 'map': b_map, 'round': b_round, 'sorted': b_sorted,
    'hash': b_hash, 'reversed': b_reversed, 'print': b_print, 'float': dv_float, 'int': dv_int, 'bool': dv_bool, 'list': dv_list,
    'tuple': dv_tuple, 'set': dv_set, 'divmod': b_divmod, 'isinstance': b_isinstance, 'iter': b_iter,
}
