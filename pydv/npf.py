"""The numpy facade: what `import numpy as np` gives to the shadow code."""
import builtins
import itertools
import math
from fractions import Fraction

import z3

from . import terms as T
from .terms import (SBool, SInt, SReal, SVal, Unsupported, and_, or_, not_, ite, mk, CTX, vkey)
from . import arr as A
from .arr import SArr, Buf, MDim, NAN, NaN, conc, dt, conv, vdt, join, bshape, bidx, dims_equal

import numpy as _np


# ---- creation -------------------------------------------------------------------
def asarray(x, dtype=None):
    if isinstance(x, SArr):
        if dtype is None or dt(dtype) == x.d_:
            return x
        return x.astype(dtype)
    d = dt(dtype)
    if isinstance(x, SVal) or isinstance(x, (int, float, bool, Fraction)) or x is None:
        d = d or vdt(x)
        return SArr.fn((), lambda i: conv(x, d), d)
    if isinstance(x, (_np.ndarray, _np.generic)):
        d = d or dt(str(x.dtype))
        return SArr.fn(x.shape, lambda i: conv(x[i].item() if hasattr(x[i], 'item') else x[i], d), d)
    if T.flag(x, '_dv_seq', False):
        return x.to_array(d)
    if hasattr(x, '__array__'):
        return asarray(_np.asarray(x), dtype)
    if isinstance(x, (list, tuple, range)):
        items = list(x)
        if not items:
            return SArr.fn((0,), None, d or 'f')
        subs = []
        for it in items:
            if isinstance(it, (list, tuple, range, SArr)) or isinstance(it, _np.ndarray) \
                    or T.flag(it, '_dv_seq', False):
                subs.append(asarray(it).snap())
            elif d != 'O' and _quatlike(it):
                subs.append(_obj(it))
            else:
                subs.append(asarray(it).snap())
        sh = subs[0].shape
        for s in subs[1:]:
            if len(s.shape) != len(sh) or not builtins.all(dims_equal(p, q) for p, q in zip(s.shape, sh)):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        d = d or join(*[s.d_ for s in subs])
        n = len(subs)

        def f(i):
            if isinstance(i[0], int):
                return conv(subs[i[0]].get(i[1:]), d)
            out = conv(subs[n - 1].get(i[1:]), d)
            for j in range(n - 2, -1, -1):
                out = ite(i[0] == j, conv(subs[j].get(i[1:]), d), out)
            return out
        return SArr.fn((n,) + sh, f, d)
    if isinstance(x, (set, dict, str)):
        return SArr.fn((), lambda i: x, 'O')
    return _obj(x)


def _quatlike(x):
    return hasattr(x, '__getitem__') and not isinstance(x, (str, dict))


def _obj(x):
    # numpy turns objects with __len__ and __getitem__ into nested arrays;
    # an object without __len__ stays one element
    return SArr.fn((), lambda i: x, 'O')


def array(x, dtype=None, copy=True, ndmin=0):
    a = asarray(x, dtype)
    return a.copy() if a is x or isinstance(x, SArr) else a


def _shape(s):
    if isinstance(s, (int, SInt)) or hasattr(s, '__index__') and not isinstance(s, (tuple, list)):
        return (s,)
    if isinstance(s, SReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return builtins.tuple(int(x) if isinstance(x, _np.integer) else x for x in s)


def full(shape, v, dtype=None):
    d = dt(dtype) or (vdt(v) if not isinstance(v, (SArr, list, tuple)) else asarray(v).d_)
    sh = _shape(shape)
    if isinstance(v, (SArr, list, tuple)):
        va = asarray(v).snap()
        return SArr.fn(sh, lambda i: conv(va.get(bidx(i, va.shape, sh)), d), d)
    v = conv(v, d)
    return SArr.fn(sh, lambda i: v, d)


def zeros(shape, dtype=float, order='C'):
    d = dt(dtype)
    return full(shape, {'f': SReal.const(0), 'i': 0, 'b': False, 'O': 0}[d], d)


def ones(shape, dtype=float):
    d = dt(dtype)
    return full(shape, {'f': SReal.const(1), 'i': 1, 'b': True, 'O': 1}[d], d)


def empty(shape, dtype=float):
    d = dt(dtype)
    sh = _shape(shape)
    name = CTX().fresh('uninit')
    if d == 'O':
        return SArr.fn(sh, lambda i: None, d)

    # unspecified contents: an arbitrary value for every element
    def f(i):
        ii = [e for x in i for e in (x if isinstance(x, tuple) else (x,))]
        if d == 'f':
            return T.rapp(name, ii) if ii else T.rvar(name)
        if d == 'i':
            return T.iapp(name, ii) if ii else T.ivar(name)
        return T.bapp(name, ii) if ii else T.bvar(name)
    return SArr.fn(sh, f, d)


def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a.shape, dtype or a.d_)


def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a.shape, dtype or a.d_)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(a.shape, dtype or a.d_)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or a.d_)


def eye(n, dtype=float):
    d = dt(dtype)
    return SArr.fn((n, n), lambda i: conv(ite(mk(i[0] == i[1]), 1, 0), d), d)


identity = eye


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if builtins.all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        return asarray(list(r), dtype) if len(r) else SArr.fn((0,), None, dt(dtype) or 'i')
    if isinstance(st, int) and st == 1 and builtins.all(isinstance(x, (int, SInt)) for x in (lo, hi)):
        return SArr.fn((hi - lo if lo != 0 or not isinstance(lo, int) else hi,), lambda i: i[0] + lo,
                       dt(dtype) or 'i')
    if builtins.all(isinstance(x, (int, SInt)) for x in (lo, hi, st)):
        CTX().definedness('step of arange is positive', mk(st > 0))
        n = -((lo - hi) // st)
        return SArr.fn((n,), lambda i: lo + i[0] * st, dt(dtype) or 'i')
    if builtins.all(isinstance(x, (int, SReal)) and T.p_isconst(SReal.of(x).p) for x in (lo, hi, st)):
        return asarray(_np.arange(float(lo), float(hi), float(st)))
    raise Unsupported('arange')


def linspace(a, b, num=50, endpoint=True):
    a, b = SReal.of(a), SReal.of(b)
    n = num - 1 if endpoint else num
    if isinstance(num, SInt):
        def at(i):
            # a single point is the first end
            return a + (b - a) * ite(mk(n > 0), SReal.of(i[0]) / ite(mk(n > 0), SReal.of(n), SReal.const(1)), SReal.const(0))
        return SArr.fn((num,), at, 'f')
    if not isinstance(num, int):
        raise Unsupported('linspace')
    if n == 0:
        return asarray([a])
    return asarray([a + (b - a) * Fraction(k, n) for k in range(num)])


def copy(a):
    return asarray(a).copy()


# ---- elementwise -----------------------------------------------------------------
def ew(f, *xs, d=None):
    aa = [asarray(x) for x in xs]
    # fast path for scalars
    if builtins.all(a.ndim == 0 for a in aa):
        return f(*[a.get(()) for a in aa])
    aa = [a.snap() for a in aa]
    sh = bshape(*[a.shape for a in aa])
    d = d or join(*[a.d_ for a in aa])

    def g(i):
        vs = [a.get(bidx(i, a.shape, sh)) for a in aa]
        if builtins.any(isinstance(v, NaN) for v in vs) and d != 'b':
            return NAN
        return f(*vs)
    return SArr.fn(sh, g, d)


def _chosen(f, xs, d, out, where, k):
    """a ufunc with out and where"""
    if k:
        raise Unsupported(f'ufunc keywords {list(k)}')
    if isinstance(out, tuple):
        out, = out
    if where is True:
        r = ew(f, *xs, d=d)
        if out is None:
            return r
        out[...] = r
        return out
    if out is None:
        raise Unsupported('ufunc with where and without out')
    aa = [asarray(x).snap() for x in (*xs, where, out)]
    sh = bshape(*[a.shape for a in aa])

    def g(i):
        *vs, w, old = [a.get(bidx(i, a.shape, sh)) for a in aa]
        if w is True or w is False:
            return f(*vs) if w else old
        with CTX().scope([SBool.of(w)]):
            # values that are only read where they are chosen
            v = f(*[a.get(bidx(i, a.shape, sh)) for a in aa[:-2]])
        return ite(w, v, old)
    out[...] = SArr.fn(sh, g, out.d_)
    return out


def _oper(name, f, d=None):
    def op(a, b, out=None, where=True, **k):
        if out is not None or where is not True or k:
            return _chosen(f, (a, b), d(a, b) if callable(d) else d, out, where, k)
        if isinstance(b, (SArr,)) or isinstance(a, (SArr,)):
            return ew(f, a, b, d=d(a, b) if callable(d) else d)
        return f(a, b)
    op.__name__ = name
    return op


def _dd(a, b):
    return 'f' if join(asarray(a).d_, asarray(b).d_) != 'O' else 'O'


def _dn(a, b):
    j = join(asarray(a).d_, asarray(b).d_)
    return j if j != 'b' else 'i'


def _div(a, b):
    if isinstance(a, (int, SInt)) and not isinstance(a, bool) or isinstance(a, (bool, SBool)):
        a = SReal.of(a)
    return a / b


def _sub(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
    return a - b


add = _oper('add', lambda a, b: a + b)
subtract = _oper('subtract', _sub)
multiply = _oper('multiply', lambda a, b: a * b)
divide = true_divide = _oper('divide', _div, _dd)
floor_divide = _oper('floor_divide', lambda a, b: a // b)
mod = _oper('mod', lambda a, b: a % b)
power = _oper('power', lambda a, b: a ** b)
less = _oper('less', lambda a, b: mk(a < b), 'b')
less_equal = _oper('less_equal', lambda a, b: mk(a <= b), 'b')
greater = _oper('greater', lambda a, b: mk(a > b), 'b')
greater_equal = _oper('greater_equal', lambda a, b: mk(a >= b), 'b')


def _eq(a, b):
    r = a == b
    return mk(r) if not isinstance(r, bool) else r


equal = _oper('equal', _eq, 'b')
not_equal = _oper('not_equal', lambda a, b: not_(_eq(a, b)), 'b')
logical_and = _oper('logical_and', lambda a, b: and_(SBool.of(a), SBool.of(b)), 'b')
logical_or = _oper('logical_or', lambda a, b: or_(SBool.of(a), SBool.of(b)), 'b')
logical_xor = _oper('logical_xor', lambda a, b: mk(SBool.of(a) ^ SBool.of(b)), 'b')
bitwise_and = _oper('and', lambda a, b: and_(a, b), 'b')
bitwise_or = _oper('or', lambda a, b: or_(a, b), 'b')
maximum = _oper('maximum', lambda a, b: T.smax(a, b))
minimum = _oper('minimum', lambda a, b: T.smin(a, b))
fmax, fmin = maximum, minimum


def _binop(f, swap=False):
    def m(self, o):
        if isinstance(o, (SVal, int, float, SArr, list, tuple, Fraction, _np.ndarray, _np.generic)):
            return f(o, self) if swap else f(self, o)
        return NotImplemented
    return m


for _n, _f in dict(add=add, sub=subtract, mul=multiply, truediv=divide, floordiv=floor_divide,
                   mod=mod, pow=power).items():
    setattr(SArr, f'__{_n}__', _binop(_f))
    setattr(SArr, f'__r{_n}__', _binop(_f, True))

for _n, _f in {'and': bitwise_and, 'or': bitwise_or, 'xor': logical_xor}.items():
    setattr(SArr, f'__{_n}__', _binop(_f))
    setattr(SArr, f'__r{_n}__', _binop(_f, True))
for _n, _f in dict(lt=less, le=less_equal, gt=greater, ge=greater_equal).items():
    setattr(SArr, f'__{_n}__', _binop(_f))


def _arr_eq(self, o):
    if o is None:
        return equal(self, SArr.fn((), lambda i: None, 'O'))
    return equal(self, o)


def _arr_ne(self, o):
    if o is None:
        return not_equal(self, SArr.fn((), lambda i: None, 'O'))
    return not_equal(self, o)


SArr.__eq__ = _arr_eq
SArr.__ne__ = _arr_ne
SArr.__neg__ = lambda self: ew(lambda a: -a, self)
SArr.__pos__ = lambda self: self
SArr.__abs__ = lambda self: absolute(self)
SArr.__invert__ = lambda self: ew(lambda a: not_(a), self, d='b')


def _inplace(f):
    def m(self, o):
        r = f(self, o)
        d = self.d_
        if d == 'i' and isinstance(r, SArr) and r.d_ == 'f':
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        A.write_view(self, r)
        return self
    return m


SArr.__iadd__ = _inplace(add)
SArr.__isub__ = _inplace(subtract)
SArr.__imul__ = _inplace(multiply)
SArr.__itruediv__ = _inplace(divide)
SArr.__ior__ = _inplace(bitwise_or)
SArr.__iand__ = _inplace(bitwise_and)


def __matmul(self, o):
    return matmul(self, o)


SArr.__matmul__ = __matmul


def _unary(f, d=None):
    def u(x, out=None, where=True, **k):
        if out is not None or where is not True or k:
            return _chosen(f, (x,), d, out, where, k)
        if isinstance(x, (SReal, SInt, int, float, Fraction)) and not isinstance(x, bool):
            return f(x)
        return ew(f, x, d=d)
    return u


def _fl(f):
    return lambda x: NAN if isinstance(x, NaN) else f(SReal.of(x))


sqrt = _unary(_fl(T.ssqrt), 'f')
cos = _unary(_fl(T.scos), 'f')
sin = _unary(_fl(T.ssin), 'f')
tan = _unary(_fl(lambda x: T.ssin(x) / T.scos(x)), 'f')
arccos = _unary(_fl(T.sarccos), 'f')
square = _unary(lambda x: x * x)
deg2rad = radians = _unary(_fl(lambda x: x * T.pi() / 180), 'f')
rad2deg = degrees = _unary(_fl(lambda x: x * 180 / T.pi()), 'f')
negative = _unary(lambda x: -x)


def arctan(x):
    raise Unsupported('arctan')


def arcsin(x):
    return ew(lambda a: T.pi() / 2 - T.sarccos(a), x, d='f')


def absolute(x):
    if isinstance(x, (SReal, SInt)):
        return T.sabs(x)
    if isinstance(x, (int, float, Fraction)):
        return builtins.abs(x)
    return ew(lambda a: T.sabs(a) if isinstance(a, (SReal, SInt)) else builtins.abs(a), x)


abs = fabs = absolute


def arctan2(y, x):
    return ew(T.sarctan2, y, x, d='f')


def _round1(x):
    if isinstance(x, (int, SInt)):
        return x
    x = SReal.of(x)
    if T.p_isconst(x.p):
        c = x.c
        return SReal.const(builtins.round(c)) if c is not None else SReal.const(builtins.round(float(x)))
    i = A.as_int(x)
    if i is not None:
        return x
    at = T.atom('red', ('round', vkey(x)), (), 'rnd!')
    nm = f'rnd!{at.id}'
    if nm not in T.REDS:
        T.REDS[nm] = Rounded(x)
    r = SInt(z3.Int(nm))
    # nearest integer (ties: numpy rounds to even; only |r-x|<=1/2 is used)
    CTX().define(and_(r.to_real() - x <= SReal.const(Fraction(1, 2)), x - r.to_real() <= SReal.const(Fraction(1, 2))))
    return r.to_real()


class Rounded:
    """the integer next to a real value"""

    def __init__(self, x):
        from .loops import symbols
        self.x, self.syms = x, symbols(x)

    def subst(self, zp):
        return A.as_int(SReal.of(_round1(T._Subst(zp).val(self.x))))


def round_(x, decimals=0):
    if decimals:
        a = asarray(x)
        if conc(a.shape) and builtins.all(T.p_isconst(SReal.of(a.get(i)).p) for i in a.indices()):
            return ew(lambda v: SReal.const(Fraction(builtins.round(float(v), decimals)).limit_denominator(10 ** 12)), x)
        p = 10 ** decimals
        return ew(lambda v: SReal.of(_round1(SReal.of(v) * p)) * Fraction(1, p), x)
    return ew(_round1, x)


round = around = rint = round_
SArr.round = lambda self, decimals=0: round_(self, decimals)
SReal.round = lambda self, decimals=0: _round1(self)
SReal.astype = lambda self, d, **k: A.trunc(self) if dt(d) == 'i' else self


def _floor(x):
    x = SReal.of(x)
    if T.p_isconst(x.p):
        return SReal.const(math.floor(float(x)))
    return SInt(z3.ToInt(x.z3())).to_real()


floor = _unary(_floor, 'f')
ceil = _unary(lambda x: -_floor(-SReal.of(x)), 'f')


def isnan(x):
    if isinstance(x, (SReal, SInt, int)):
        return False
    return ew(lambda a: isinstance(a, NaN) or (isinstance(a, float) and a != a), x, d='b')


def isfinite(x):
    return ew(lambda a: not isinstance(a, NaN), x, d='b')


def nan_to_num(x):
    return ew(lambda a: SReal.const(0) if isinstance(a, NaN) else a, x)


def clip(x, lo, hi, out=None):
    def f(a):
        if lo is not None:
            a = T.smax(a, lo)
        if hi is not None:
            a = T.smin(a, hi)
        return a
    return ew(f, x)


SArr.clip = lambda self, lo=None, hi=None: clip(self, lo, hi)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(asarray(c))
    da, db = asarray(a).d_, asarray(b).d_
    cs, aa, bb = asarray(c).snap(), asarray(a).snap(), asarray(b).snap()
    sh = bshape(cs.shape, aa.shape, bb.shape)

    def f(i):
        k = mk(SBool.of(cs.get(bidx(i, cs.shape, sh))))
        x = lambda: aa.get(bidx(i, aa.shape, sh))
        y = lambda: bb.get(bidx(i, bb.shape, sh))
        if k is True:
            return x()
        if k is False:
            return y()
        with CTX().scope([k]):
            xv = x()
        with CTX().scope([not_(k)]):
            yv = y()
        if isinstance(xv, NaN) or isinstance(yv, NaN):
            return Maybe.mk(k, xv, yv)
        return ite(k, xv, yv)
    if sh == ():
        return f(())
    return SArr.fn(sh, f, join(da, db))


class Maybe(SVal):
    """A number or NaN depending on a condition."""

    def __init__(self, ok, v):
        self.ok = ok
        self.v = v

    @staticmethod
    def mk(c, x, y):
        if isinstance(x, NaN) and isinstance(y, NaN):
            return NAN
        if isinstance(y, NaN):
            return Maybe(c, x)
        return Maybe(not_(c), y)

    def key(self):
        return ('maybe', vkey(self.ok), vkey(self.v))


# ---- reductions -------------------------------------------------------------------
_BV = [0]


def bound_var(d, tag=''):
    """Canonical bound variable (depth-indexed, so equal reductions are
    syntactically equal)."""
    _BV[0] += 1
    return SInt(z3.Int(f'bv!{_BV[0]}'))


def _axis_norm(a, axis):
    if axis is None:
        return builtins.tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    return builtins.tuple(x % a.ndim for x in axis)


def _reduce(x, axis, f, symf, keepdims=False, d=None):
    a = asarray(x)
    if a.ndim == 0:
        return f([a.get(())])
    axes = _axis_norm(a, axis)
    s = a.snap()
    sh = builtins.tuple(1 if k in axes else n for k, n in enumerate(a.shape)) if keepdims else \
        builtins.tuple(n for k, n in enumerate(a.shape) if k not in axes)
    ra = [a.shape[k] for k in axes]

    def src(i, r):
        if keepdims:
            out = list(i)
            for k, v in zip(axes, r):
                out[k] = v
            return builtins.tuple(out)
        out, p, q = [], 0, 0
        m = dict(zip(axes, r))
        for k in range(a.ndim):
            if k in m:
                out.append(m[k])
            else:
                out.append(i[p])
                p += 1
        return builtins.tuple(out)

    def g(i):
        if conc(ra):
            return f([s.get(src(i, r)) for r in itertools.product(*[range(n) for n in ra])])
        return symf(lambda r: s.get(src(i, r)), ra)
    if sh == ():
        return g(())
    return SArr.fn(sh, g, d or a.d_)


def _sumc(vs):
    t = None
    for v in vs:
        if isinstance(v, (bool, SBool)):
            v = ite(v, 1, 0)
        t = v if t is None else t + v
    return 0 if t is None else t


def _with_bound(ra, body):
    old = _BV[0]
    bs = []
    conds = []
    for n in ra:
        b = bound_var(n)
        if isinstance(n, MDim):
            cell = builtins.tuple(bound_var(k) for k in n.mask.shape)
            bs.append(cell)
            for v, k in zip(cell, n.mask.shape):
                conds.append(and_(v >= 0, v < k))
            conds.append(mk(SBool.of(n.mask.get(cell))))
        else:
            bs.append(b)
            conds.append(and_(b >= 0, b < n))
    try:
        with CTX().scope([c for c in conds if c is not True]):
            return body(builtins.tuple(bs), conds)
    finally:
        _BV[0] = old


def _depends(v, bs):
    from .loops import symbols
    flat = []
    for b in bs:
        flat.extend(b if isinstance(b, builtins.tuple) else [b])
    if not isinstance(v, T.SVal):
        return False
    return not symbols(v).isdisjoint({str(b.e) for b in flat})


def _sym_red(kind):
    def red(get, ra):
        def body(bs, conds):
            v = get(bs)
            if isinstance(v, (bool, SBool)):
                v = ite(v, 1, 0)
            if kind in ('max', 'min') and not _depends(v, bs):
                # the same for all of them; there is at least one
                CTX().prove('maximum of a non-empty array', and_(*[mk(n > 0) for n in ra]))
                return v
            key = (kind, builtins.tuple(vkey(n) if not isinstance(n, MDim) else ('M',) for n in ra),
                   builtins.tuple(vkey(c) for c in conds), vkey(v))
            if isinstance(v, (int, SInt)) and kind in ('sum', 'max', 'min'):
                at = T.atom('red', key, (), f'{kind}!')
                nm = f'{kind}!{at.id}'
                if nm not in T.REDS:
                    T.REDS[nm] = Red(kind, ra, v, conds, bs)
                if kind != 'sum':
                    _extremum(kind, z3.Int(nm), bs, conds, v, ra)
                return SInt(z3.Int(nm))
            at = T.atom('var', key, (), f'{kind}!{len(T._ATOM_LIST)}')
            if at.name not in T.REDS:
                T.REDS[at.name] = Red(kind, ra, v, conds, bs)
            out = SReal({((at.id, 1),): T.F1})
            if kind in ('max', 'min') and getattr(CTX(), 'real_extrema', False):
                _extremum_real(kind, at, out, bs, conds, v, ra)
            h = getattr(CTX(), 'on_reduction', None)
            if h is not None:
                r = h(kind, out, T.REDS[at.name])
                if r is not None:
                    # the contract has proved what it is
                    CTX().prove('value of the reduction', mk(out == r))
                    return r
            return out
        return _with_bound(ra, body)
    return red


class Red:
    """a sum, maximum or minimum over symbolic ranges"""

    def __init__(self, kind, ra, v, conds, bs):
        from .loops import symbols
        self.kind, self.ra, self.v, self.conds, self.bs = kind, ra, v, conds, bs
        self.flat = [x for b in bs for x in (b if isinstance(b, builtins.tuple) else (b,))]
        self.masked = builtins.any(isinstance(n, MDim) for n in ra)
        syms = symbols(builtins.tuple(x for x in (v, *conds) if isinstance(x, T.SVal)))
        self.syms = syms - {str(x.e) for x in self.flat}

    def at(self, ks):
        """the element at the given positions"""
        if self.masked:
            raise Unsupported('element of a reduction over selected elements')
        return T._Subst([(x.e, SInt.ex(y)) for x, y in zip(self.flat, ks)]).val(self.v)

    def subst(self, zp):
        if self.masked:
            raise Unsupported(f'substitution in a {self.kind} over selected elements')
        ra = [SInt.mk(z3.substitute(n.e, *zp)) if isinstance(n, SInt) else n for n in self.ra]

        def get(bs):
            pairs = [(x, y) for x, y in zip(self.flat, bs)]
            return T._Subst(builtins.list(zp) + [(x.e, SInt.ex(y)) for x, y in pairs]).val(self.v)
        return _sym_red(self.kind)(get, ra)


def _extremum(kind, r, bs, conds, v, ra):
    """what the maximum (minimum) of integers is: attained, and a bound"""
    c = CTX()
    flat = [x for b in bs for x in (b if isinstance(b, builtins.tuple) else (b,))]
    cond = SBool.of(and_(*conds)).e
    e = SInt.ex(v)
    from .loops import z3consts
    if builtins.any(x.startswith('bv!') and not builtins.any(x == str(y.e) for y in flat) for x in z3consts(e, z3consts(cond, set()))):
        return
    sub = [(x.e, z3.Int(f'{r}.at{j}')) for j, x in enumerate(flat)]
    found = z3.And(z3.substitute(cond, *sub), r == z3.substitute(e, *sub))
    if builtins.any(isinstance(n, MDim) for n in ra):
        c.define(z3.ForAll([x.e for x in flat], z3.Implies(cond, found)))
    else:
        c.define(z3.Implies(SBool.of(and_(*[mk(n > 0) for n in ra])).e, found))
    body = z3.Implies(cond, r >= e if kind == 'max' else r <= e)
    c.define(z3.ForAll([x.e for x in flat], body))
    if len(flat) == 1:
        # instances at the positions that occur (Points.xy)
        b = flat[0].e
        c.extrema = getattr(c, 'extrema', []) + [lambda k: z3.substitute(body, (b, k))]
        for k in getattr(c, 'positions', {}).values():
            c.define(c.extrema[-1](k))


def _extremum_real(kind, at, out, bs, conds, v, ra):
    """what the maximum (minimum) of numbers on one axis is: attained, and a bound"""
    c = CTX()
    flat = [x for b in bs for x in (b if isinstance(b, builtins.tuple) else (b,))]
    if len(flat) != 1 or builtins.any(isinstance(n, MDim) for n in ra):
        return
    cond, v = SBool.of(and_(*conds)), SReal.of(v)
    from .loops import symbols, z3consts
    names = z3consts(cond.e, set(symbols((v,))))
    if builtins.any(x.startswith('bv!') and x != str(flat[0].e) for x in names):
        return
    b, k = flat[0], z3.Int(f'{at.name}.at')
    sub = T._Subst([(b.e, k)])
    c.define(z3.Implies(SBool.of(and_(*[mk(n > 0) for n in ra])).e,
                        z3.And(z3.substitute(cond.e, (b.e, k)), SBool.of(mk(out == sub.val(v))).e)))
    w = mk(out >= v if kind == 'max' else out <= v)
    c.define(z3.ForAll([b.e], z3.Implies(cond.e, SBool.of(w).e)))


def sum_(x, axis=None, dtype=None, keepdims=False):
    if isinstance(x, (list, tuple)) and not x:
        return SReal.const(0)
    a = asarray(x)
    return _reduce(a, axis, _sumc, _sym_red('sum'), keepdims, 'i' if a.d_ == 'b' else a.d_)


sum = sum_
nansum = sum_


def _maxf(vs):
    if not vs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if all_py(isinstance(v, (bool, SBool)) for v in vs):
        return or_(*vs)
    return T.smax(*vs)


def _minf(vs):
    if not vs:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    if all_py(isinstance(v, (bool, SBool)) for v in vs):
        return and_(*vs)
    return T.smin(*vs)


all_py = builtins.all


def max(x, axis=None, keepdims=False, **k):
    return _reduce(x, axis, _maxf, _sym_red('max'), keepdims)


amax = max


def min(x, axis=None, keepdims=False, **k):
    return _reduce(x, axis, _minf, _sym_red('min'), keepdims)


amin = min


def mean(x, axis=None, dtype=None, keepdims=False):
    a = asarray(x)
    axes = _axis_norm(a, axis)
    n = 1
    for k in axes:
        dd = a.shape[k]
        n = n * (dd.size() if isinstance(dd, MDim) else dd)
    s = sum_(a, axis=axis, keepdims=keepdims)
    return s / n if isinstance(s, SArr) else SReal.of(s) / n


average = mean


def any(x, axis=None):
    return _reduce(x, axis, lambda vs: or_(*[SBool.of(v) for v in vs]), _quant(False), d='b')


def all(x, axis=None):
    return _reduce(x, axis, lambda vs: and_(*[SBool.of(v) for v in vs]), _quant(True), d='b')


def _quant(forall):
    def q(get, ra):
        def body(bs, conds):
            v = SBool.of(get(bs))
            flat = [e for b in bs for e in (b if isinstance(b, tuple) else (b,))]
            rng = and_(*conds)
            vs = [b.e for b in flat]
            if not builtins.any(isinstance(n, MDim) for n in ra) and not _depends(v, bs):
                # the same for all elements, if there are any
                some = and_(*[mk(n > 0) for n in ra])
                return mk(SBool.of(T.implies(some, v) if forall else and_(some, v)))
            if forall:
                return mk(SBool(z3.ForAll(vs, SBool.of(T.implies(rng, v)).e)))
            return mk(SBool(z3.Exists(vs, SBool.of(and_(rng, v)).e)))
        return _with_bound(ra, body)
    return q


def allclose(a, b, rtol=None, atol=None):
    a, b = asarray(a), asarray(b)
    if rtol is None and atol is None and a.d_ == 'i' and b.ndim == 0 and SReal.of(b.get(())).c == 0:
        # integers closer to zero than 1e-8
        return all(equal(a, 0))
    raise Unsupported('allclose')


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all_py(dims_equal(p, q) for p, q in zip(a.shape, b.shape)):
        return False
    return all(equal(a, b))


class Choice(SInt):
    """Index chosen by argmax/argmin over a concrete axis: remembers what it
    was chosen from, so that the value there is the largest (smallest)."""
    __slots__ = ('vs', 'kind')


def _argbest(vs, better, kind=None):
    r = _argbest_(vs, better)
    if kind and isinstance(r, SInt) and all_py(isinstance(v, (SReal, int, float)) for v in vs):
        q = Choice(r.e)
        q.vs, q.kind = tuple(vkey(SReal.of(v)) for v in vs), kind
        return q
    return r


def _argbest_(vs, better):
    """First index attaining the optimum (as numpy does)."""
    bi, bv = 0, vs[0]
    for j, v in enumerate(vs[1:], 1):
        c = mk(better(v, bv))
        if c is True:
            bi, bv = j, v
        elif c is not False:
            bi = ite(c, j, bi)
            bv = ite(c, v, bv)
    return bi


def argmax(x, axis=None, **k):
    return _arg(x, axis, lambda v, b: v > b if not isinstance(v, (bool, SBool)) else and_(v, not_(b)), 'max', **k)


def argmin(x, axis=None, **k):
    return _arg(x, axis, lambda v, b: v < b if not isinstance(v, (bool, SBool)) else and_(not_(v), b), 'min', **k)


def _arg(x, axis, better, kind=None):
    a = asarray(x)
    if axis is None:
        if not conc(a.shape):
            if a.ndim == 1 and a.d_ in 'fi':
                return _argsym(a.snap(), kind)
            raise Unsupported('argmax over a symbolic array')
        s = reshape(a, (-1,)).snap() if a.ndim != 1 else a.snap()
        return _argbest([s.get((j,)) for j in range(s.shape[0])], better, kind)
    axis %= a.ndim
    n = a.shape[axis]
    if not isinstance(n, int):
        raise Unsupported('argmax over a symbolic axis')
    s = a.snap()
    sh = a.shape[:axis] + a.shape[axis + 1:]

    def g(i):
        return _argbest([s.get(i[:axis] + (j,) + i[axis:]) for j in range(n)], better, kind)
    if sh == ():
        return g(())
    return SArr.fn(sh, g, 'i')


def _argsym(s, kind):
    """first position of the least (largest) of any number of values"""
    c = CTX()
    n = s.shape[0]
    c.definedness('argmin of an empty array', SBool.of(n > 0))
    m = SInt(z3.Int(c.fresh('best')))
    v = s.get((m,))
    if isinstance(n, MDim) or T.has_free_vars(SBool.of(mk(m < n)).e):
        raise Unsupported('argmin in a quantified context')
    c.define(and_(m >= 0, m < n))

    def worse(j):
        x = s.get(j)
        strict, weak = (x > v, x >= v) if kind == 'min' else (x < v, x <= v)
        return and_(weak, T.implies(mk(j[0] < m), strict))
    c.define(SBool.of(_quant(True)(worse, (n,))))
    return m


def nanargmin(x, axis=None):
    a = asarray(x)
    if axis is None:
        raise Unsupported('nanargmin without an axis')
    axis %= a.ndim
    n = a.shape[axis]
    s = a.snap()
    sh = a.shape[:axis] + a.shape[axis + 1:]

    def g(i):
        have, bi, bv = False, 0, None
        for j in range(n):
            v = s.get(i[:axis] + (j,) + i[axis:])
            if isinstance(v, NaN):
                continue
            ok, val = (v.ok, v.v) if isinstance(v, Maybe) else (True, v)
            if have is False:
                c = ok
            else:
                c = and_(ok, or_(not_(have), val < bv))
            c = mk(c)
            bi = ite(c, j, bi)
            bv = val if bv is None else ite(c, val, bv)
            have = or_(have, ok)
        CTX().definedness('All-NaN slice in nanargmin', SBool.of(have))
        return bi
    if sh == ():
        return g(())
    return SArr.fn(sh, g, 'i')


for _n, _f in dict(sum=sum_, max=max, min=min, mean=mean, any=any, all=all, argmax=argmax,
                   argmin=argmin).items():
    def _m(f):
        def m(self, axis=None, **k):
            return f(self, axis=axis, **k)
        return m
    setattr(SArr, _n, _m(_f))


# ---- linear algebra ------------------------------------------------------------------
def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return _contract(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if a.ndim >= 2 and b.ndim == 1:
        sa, sb = a.snap(), b.snap()
        _need_eq(a.shape[-1], b.shape[0])
        n = b.shape[0]
        return SArr.fn(a.shape[:-1], lambda i: _sumc([sa.get(i + (k,)) * sb.get((k,)) for k in range(n)]),
                       join(a.d_, b.d_))
    return matmul(a, b)


def _need_eq(a, b):
    if not dims_equal(a, b):
        if isinstance(a, int) and isinstance(b, int):
            raise ValueError(f'shapes not aligned: {a} != {b}')
        CTX().prove('shapes aligned', a == b)


def _contract(a, b):
    _need_eq(a.shape[0], b.shape[0])
    n = a.shape[0] if isinstance(a.shape[0], int) else b.shape[0]
    if not isinstance(n, int):
        return sum_(multiply(a, b))
    sa, sb = a.snap(), b.snap()
    return _sumc([sa.get((k,)) * sb.get((k,)) for k in range(n)])


def matmul(a, b):
    a, b = asarray(a).snap(), asarray(b).snap()
    if a.ndim == 1 and b.ndim == 1:
        return _contract(a, b)
    if a.ndim == 2 and b.ndim == 1:
        _need_eq(a.shape[1], b.shape[0])
        n = _cn(a.shape[1], b.shape[0])
        return SArr.fn((a.shape[0],), lambda i: _sumc([a.get((i[0], k)) * b.get((k,)) for k in range(n)]),
                       join(a.d_, b.d_))
    if a.ndim == 1 and b.ndim == 2:
        _need_eq(a.shape[0], b.shape[0])
        n = _cn(a.shape[0], b.shape[0])
        return SArr.fn((b.shape[1],), lambda i: _sumc([a.get((k,)) * b.get((k, i[0])) for k in range(n)]),
                       join(a.d_, b.d_))
    if a.ndim == 2 and b.ndim == 2:
        _need_eq(a.shape[1], b.shape[0])
        n = _cn(a.shape[1], b.shape[0])
        return SArr.fn((a.shape[0], b.shape[1]),
                       lambda i: _sumc([a.get((i[0], k)) * b.get((k, i[1])) for k in range(n)]),
                       join(a.d_, b.d_))
    raise Unsupported('matmul of higher rank')


def _cn(a, b):
    n = a if isinstance(a, int) else b
    if not isinstance(n, int):
        raise Unsupported('contraction over a symbolic axis')
    return n


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarray(a), asarray(b)
    ax = -1 if axis is None else axis
    if axis is None and (axisa != -1 or axisb != -1 or axisc != -1):
        raise Unsupported('cross axes')
    pa, pb = ax % a.ndim, ax % b.ndim
    a2 = a.transpose(*[k for k in range(a.ndim) if k != pa], pa).snap()
    b2 = b.transpose(*[k for k in range(b.ndim) if k != pb], pb).snap()
    if a2.shape[-1] != 3 or b2.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product')
    sh = bshape(a2.shape[:-1], b2.shape[:-1])

    def f(i):
        ia, ib = bidx(i[:-1], a2.shape[:-1], sh), bidx(i[:-1], b2.shape[:-1], sh)
        x = lambda k: a2.get(ia + (k,))
        y = lambda k: b2.get(ib + (k,))
        k = i[-1]
        return x((k + 1) % 3) * y((k + 2) % 3) - x((k + 2) % 3) * y((k + 1) % 3)
    out = SArr.fn(sh + (3,), f, join(a.d_, b.d_))
    if axis is not None and ax % out.ndim != out.ndim - 1:
        p = ax % out.ndim
        order = list(range(out.ndim - 1))
        order.insert(p, out.ndim - 1)
        out = out.transpose(*order)
    return out


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    ops = [asarray(o).snap() for o in ops]
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        raise Unsupported('implicit einsum')
    ell = None
    names = []
    for s, o in zip(ins, ops):
        if '...' in s:
            pre, post = s.split('...')
            k = o.ndim - len(pre) - len(post)
            e = builtins.tuple(f'.{j}' for j in range(k))
            ell = e if ell is None or len(e) > len(ell) else ell
            names.append(list(pre) + [('.',)] + list(post))
        else:
            names.append(list(s))
    ell = ell or ()

    def expand(ns, nd):
        out = []
        for x in ns:
            if x == ('.',):
                k = nd - (len(ns) - 1)
                out += list(ell[len(ell) - k:])
            else:
                out.append(x)
        return out
    names = [expand(n, o.ndim) for n, o in zip(names, ops)]
    if '...' in rhs:
        pre, post = rhs.split('...')
        rn = list(pre) + list(ell) + list(post)
    else:
        rn = list(rhs)
    dims = {}
    for n, o in zip(names, ops):
        if len(n) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match operand dimension')
        for x, d in zip(n, o.shape):
            if x in dims and not (isinstance(dims[x], int) and dims[x] == 1):
                if not (isinstance(d, int) and d == 1):
                    _need_eq(dims[x], d)
            else:
                dims[x] = d
    con = [x for x in dims if x not in rn]
    for x in con:
        if not isinstance(dims[x], int):
            if len(ops) == 1 and len(con) == 1:
                # sum over one symbolic axis
                return sum_(_perm(ops[0], names[0], rn, con), axis=-1)
            raise Unsupported('einsum over a symbolic axis')
    sh = builtins.tuple(dims[x] for x in rn)
    d = join(*[o.d_ for o in ops])

    def f(i):
        env = dict(zip(rn, i))
        t = None
        for r in itertools.product(*[range(dims[x]) for x in con]):
            env.update(zip(con, r))
            v = None
            for n, o in zip(names, ops):
                w = o.get(builtins.tuple(0 if (isinstance(s, int) and s == 1) else env[x]
                                         for x, s in zip(n, o.shape)))
                v = w if v is None else v * w
            t = v if t is None else t + v
        return SReal.const(0) if t is None else t
    if sh == ():
        return f(())
    return SArr.fn(sh, f, d)


def _perm(o, n, rn, con):
    return o.transpose(*[n.index(x) for x in rn + con])


def stack(arrs, axis=0):
    arrs = [asarray(a).snap() for a in arrs]
    sh = arrs[0].shape
    for a in arrs[1:]:
        for p, q in zip(a.shape, sh):
            _need_eq(p, q)
    axis %= (len(sh) + 1)
    out = asarray(list(arrs))
    order = list(range(1, len(sh) + 1))
    order.insert(axis, 0)
    return out.transpose(*order)


def concatenate(arrs, axis=0):
    arrs = [asarray(a).snap() for a in arrs]
    nd = arrs[0].ndim
    axis %= nd
    offs = []
    tot = 0
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[axis]
    sh = arrs[0].shape[:axis] + (tot,) + arrs[0].shape[axis + 1:]
    d = join(*[a.d_ for a in arrs])

    def f(i):
        k = i[axis]
        out = None
        for a, o in reversed(list(zip(arrs, offs))):
            c = mk(k >= o)
            if out is None:
                out = lambda a=a, o=o: a.get(i[:axis] + (k - o,) + i[axis + 1:])
            else:
                nxt = out
                hi = mk(k < o + a.shape[axis])

                def out(a=a, o=o, nxt=nxt, hi=hi):
                    h = A.simp(hi)
                    if h is True:
                        return a.get(i[:axis] + (k - o,) + i[axis + 1:])
                    if h is False:
                        return nxt()
                    return ite(h, a.get(i[:axis] + (k - o,) + i[axis + 1:]), nxt())
        return out()
    return SArr.fn(sh, f, d)


def hstack(arrs):
    arrs = [asarray(a) for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    return concatenate([reshape(asarray(a), (1,) + asarray(a).shape) if asarray(a).ndim == 1 else a
                        for a in arrs], axis=0)


def tile(a, reps):
    a = asarray(a).snap()
    reps = _shape(reps)
    n = builtins.max(len(reps), a.ndim)
    reps = (1,) * (n - len(reps)) + builtins.tuple(reps)
    sh = (1,) * (n - a.ndim) + a.shape

    out = []
    for s, r in zip(sh, reps):
        out.append(r if isinstance(s, int) and s == 1 else (s if isinstance(r, int) and r == 1 else s * r))

    def f(i):
        idx = []
        for k, (v, s, r) in enumerate(zip(i, sh, reps)):
            if k < n - a.ndim:
                continue
            if isinstance(s, int) and s == 1:
                idx.append(0)
            elif isinstance(r, int) and r == 1:
                idx.append(v)
            else:
                idx.append(v % s)
        return a.get(builtins.tuple(idx))
    return SArr.fn(builtins.tuple(out), f, a.d_)


def broadcast_to(a, shape):
    a = asarray(a).snap()
    sh = _shape(shape)
    full_ = bshape(a.shape, sh)
    if len(full_) != len(sh) or not all_py(dims_equal(p, q) for p, q in zip(full_, sh)):
        raise ValueError('cannot broadcast')
    r = SArr.fn(sh, lambda i: a.get(bidx(i, a.shape, sh)), a.d_)
    return r


def roll(a, shift, axis=None):
    a = asarray(a).snap()
    if axis is None:
        raise Unsupported('roll without axis')
    axis %= a.ndim
    n = a.shape[axis]
    if not isinstance(shift, int):
        raise Unsupported('symbolic roll')

    def f(i):
        k = i[axis] - shift
        if isinstance(n, int) and isinstance(k, int):
            j = k % n
        else:
            # |shift| <= n assumed for the wrap (shift is a small constant)
            if builtins.abs(shift) > 1:
                raise Unsupported('roll by more than one on a symbolic axis')
            if shift < 0:
                j = ite(A.simp(k >= n), k - n, k)
            else:
                j = ite(A.simp(mk(k < 0)), k + n, k)
        return a.get(i[:axis] + (j,) + i[axis + 1:])
    return SArr.fn(a.shape, f, a.d_)


def flip(a, axis=None):
    a = asarray(a)
    axes = _axis_norm(a, axis)
    return a[builtins.tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]


def fliplr(a):
    return flip(a, 1)


def flipud(a):
    return flip(a, 0)


def transpose(a, axes=None):
    return asarray(a).transpose(*([axes] if axes is not None else []))


def swapaxes(a, i, j):
    a = asarray(a)
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return a.transpose(*o)


SArr.swapaxes = swapaxes


def reshape(a, shape):
    return A.reshape(asarray(a), _shape(shape))


def ravel(a):
    return asarray(a).ravel()


def squeeze(a, axis=None):
    a = asarray(a)
    return a[builtins.tuple(0 if isinstance(d, int) and d == 1 else slice(None) for d in a.shape)]


def expand_dims(a, axis):
    a = asarray(a)
    axis %= (a.ndim + 1)
    return a[(slice(None),) * axis + (None,)]


def diff(a, n=1, axis=-1):
    a = asarray(a)
    axis %= a.ndim
    lo = [slice(None)] * a.ndim
    hi = [slice(None)] * a.ndim
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    return a[builtins.tuple(hi)] - a[builtins.tuple(lo)]


def gradient(f, *varargs, axis=None, edge_order=1):
    """numpy.gradient with uniform spacing (central, one-sided at the ends)."""
    f = asarray(f)
    axes = _axis_norm(f, axis)
    if len(varargs) == 0:
        dx = [1] * len(axes)
    elif len(varargs) == 1:
        dx = [varargs[0]] * len(axes)
    else:
        dx = list(varargs)
    if edge_order != 1:
        raise Unsupported('edge_order')
    s = f.snap()
    outs = []
    for ax, h in zip(axes, dx):
        n = f.shape[ax]
        if isinstance(n, int):
            if n < 2:
                raise ValueError('Shape of array too small to calculate a numerical gradient')
        else:
            A.bounds(n >= 2, 'gradient axis length')
        if isinstance(h, SArr):
            raise Unsupported('gradient coordinates')

        def g(i, ax=ax, h=h, n=n):
            def at(k):
                return s.get(i[:ax] + (k,) + i[ax + 1:])
            k = i[ax]
            first, last = A.simp(mk(k == 0)), A.simp(mk(k == n - 1))
            if first is True:
                return (at(1) - at(0)) / h
            if last is True:
                return (at(n - 1) - at(n - 2)) / h
            mid = (at(k + 1) - at(k - 1)) / (2 * h)
            if last is not False:
                mid = ite(last, (at(n - 1) - at(n - 2)) / h, mid)
            if first is not False:
                mid = ite(first, (at(1) - at(0)) / h, mid)
            return mid
        outs.append(SArr.fn(f.shape, g, 'f'))
    return outs if len(outs) > 1 else outs[0]


def meshgrid(*xs, indexing='xy'):
    xs = [asarray(x).snap() for x in xs]
    if indexing not in ('xy', 'ij'):
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    if builtins.any(len(x.shape) != 1 for x in xs):
        raise Unsupported('meshgrid')
    order = builtins.list(range(len(xs)))
    if indexing == 'xy' and len(xs) > 1:
        order[0], order[1] = 1, 0
    sh = builtins.tuple(xs[k].shape[0] for k in order)

    def grid(k):
        x, ax = xs[k], order.index(k)
        return SArr.fn(sh, lambda i: x.get((i[ax],)), x.d_)
    return [grid(k) for k in range(len(xs))]


def indices(dimensions, dtype=int, sparse=False):
    sh = builtins.tuple(dimensions)
    if sparse or dtype is not int:
        raise Unsupported('indices')
    return SArr.fn((len(sh), *sh), lambda i: i[1 + i[0]] if type(i[0]) is int else _pick(i), 'i')


def _pick(i):
    v = i[-1]
    for k in range(len(i) - 3, -1, -1):
        v = ite(mk(i[0] == k), i[1 + k], v)
    return v


def pad(x, width, mode='constant', constant_values=0):
    a = asarray(x).snap()
    w = asarray(width)
    if mode != 'constant' or w.ndim > 2 or (w.ndim and w.shape[-1] not in (1, 2)):
        raise Unsupported('pad')

    def side(ax, k):
        i = (builtins.min(ax, w.shape[0] - 1), builtins.min(k, w.shape[1] - 1)) if w.ndim == 2 else (builtins.min(k, w.shape[0] - 1),) if w.ndim else ()
        v = w.get(i)
        CTX().prove('padding is not negative', mk(v >= 0))
        return v
    ws = [(side(ax, 0), side(ax, 1)) for ax in range(a.ndim)]
    fill = A.conv(constant_values, a.d_)

    def f(i):
        inside = and_(*[and_(k >= b, k < b + n) for k, (b, e), n in zip(i, ws, a.shape)])
        if inside is True:
            return a.get(builtins.tuple(k - b for k, (b, e) in zip(i, ws)))
        if inside is False:
            return fill
        with CTX().scope([inside]):
            v = a.get(builtins.tuple(k - b for k, (b, e) in zip(i, ws)))
        return ite(inside, v, fill)
    return SArr.fn(builtins.tuple(n + b + e for n, (b, e) in zip(a.shape, ws)), f, a.d_)


def unravel_index(k, shape):
    shape = _shape(shape)
    return A.unravel(k, shape)


class NdIndex:
    _dv_loop = True

    def __init__(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = builtins.tuple(shape[0])
        self.shape = shape

    def __iter__(self):
        if not conc(self.shape):
            raise Unsupported('ndindex over a symbolic shape outside a loop statement')
        return itertools.product(*[range(n) for n in self.shape])


ndindex = NdIndex


def nonzero(a):
    s = asarray(a).snap()
    if s.d_ != 'b':
        s = ew(lambda v: mk(SBool.of(v)), s, d='b').snap()
    if conc(s.shape) and all_py(isinstance(mk(SBool.of(s.get(i))), bool) for i in s.indices()):
        idx = [i for i in s.indices() if mk(SBool.of(s.get(i)))]
        return builtins.tuple(asarray([i[k] for i in idx], int) if idx else SArr.fn((0,), None, 'i')
                              for k in range(s.ndim))
    from .seqs import PSet
    p = PSet.of_mask(s)
    return builtins.tuple(p.coord(k) for k in range(s.ndim))


argwhere = None


def unique(a, *args, **k):
    a = asarray(a)
    if args or k:
        raise Unsupported('unique options')
    vals = {}
    for i in a.indices():
        v = a.get(i)
        if isinstance(v, (SInt, SReal)) and not (isinstance(v, SReal) and T.p_isconst(v.p)):
            raise Unsupported('unique of symbolic values')
        vals[float(v)] = v
    return asarray([vals[k] for k in sorted(vals)])


def pset_get(arr, comps):
    from .seqs import pset_get as f
    return f(arr, comps)


def pset_set(arr, comps, val):
    from .seqs import pset_set as f
    return f(arr, comps, val)


def loadtxt(*a, **k):
    k = dict(k)
    return asarray(_np.loadtxt(*a, **{x: (v if x != 'dtype' or isinstance(v, type) else v) for x, v in k.items()}))


class linalg:
    @staticmethod
    def norm(a, axis=None, keepdims=False, ord=None):
        a = asarray(a)
        if ord is not None:
            raise Unsupported('norm ord')
        return sqrt(sum_(ew(lambda v: SReal.of(v) * SReal.of(v), a, d='f'), axis=axis, keepdims=keepdims))

    @staticmethod
    def det(a):
        a = asarray(a)
        if a.shape == (3, 3):
            return dot(a[0], cross(a[1], a[2]))
        if a.shape == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        raise Unsupported('det')

    @staticmethod
    def inv(a):
        a = asarray(a)
        if a.shape not in ((2, 2), (3, 3)):
            raise Unsupported('inv')
        d = linalg.det(a)
        CTX().definedness('matrix is invertible', SBool.of(T.ne(d, 0)))
        if a.shape == (2, 2):
            return asarray([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]])
        r = [cross(a[1], a[2]), cross(a[2], a[0]), cross(a[0], a[1])]
        return asarray([[r[j][i] / d for j in range(3)] for i in range(3)])


class gcd:
    @staticmethod
    def reduce(v):
        vs = list(v) if not isinstance(v, SArr) else [v.get((k,)) for k in range(v.shape[0])]
        if all_py(isinstance(x, int) for x in vs):
            g = 0
            for x in vs:
                g = math.gcd(g, x)
            return g
        from .seqs import sym_gcd
        return sym_gcd(vs)


class ma:
    @staticmethod
    def array(data, mask=None, **k):
        return Masked(asarray(data), asarray(mask) if mask is not None else None)


class Masked:
    """numpy.ma.MaskedArray: data plus mask."""

    def __init__(self, data, mask):
        self.data = data
        self.mask = mask

    @property
    def shape(self):
        return self.data.shape


class _Random:
    def __getattr__(self, n):
        raise Unsupported('numpy.random')


random = _Random()
inf = math.inf
newaxis = None
ndarray = SArr


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


def ndim(a):
    return asarray(a).ndim


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.any(isinstance(x, t) for t in cls._is)


class integer(metaclass=_TypeMeta):
    _is = (_np.integer,)


class floating(metaclass=_TypeMeta):
    _is = (_np.floating, SReal)


class number(metaclass=_TypeMeta):
    _is = (_np.number, SReal, SInt)


class generic(metaclass=_TypeMeta):
    _is = (_np.generic, SReal, SInt)


class finfo:
    """machine parameters (arithmetic itself is exact here)"""

    def __init__(self, d):
        i = _np.finfo(_np.float32 if d is _np.float32 or 'float32' in str(d) else _np.float64)
        self.eps, self.max, self.min, self.tiny = [SReal.const(Fraction(float(getattr(i, x)))) for x in ('eps', 'max', 'min', 'tiny')]


float32, float64 = _np.float32, _np.float64
int8, int16, int32, int64, intp, uint8, uint16, uint32 = (
    _np.int8, _np.int16, _np.int32, _np.int64, _np.intp, _np.uint8, _np.uint16, _np.uint32)
bool_ = _np.bool_
dtype = _np.dtype
nan = NAN


class MaskedArray:
    """numpy.ma.array: the values and, at each, whether it is hidden"""

    def __init__(self, data, mask=False, **kw):
        if kw:
            raise Unsupported('numpy.ma.array options')
        data = asarray(data)
        self.data, self.shape, self.ndim = data, data.shape, data.ndim
        mask = asarray(mask)
        if mask.ndim == data.ndim:
            if not all_py(dims_equal(p, q) for p, q in zip(mask.shape, data.shape)):
                raise ValueError('mask and data have other shapes')
        elif mask.ndim:
            raise Unsupported('mask of another rank')
        else:
            mask = broadcast_to(mask, data.shape)
        self.mask = mask


class ma:
    array = masked_array = MaskedArray
    MaskedArray = MaskedArray


def __getattr__(name):
    if name == 'pi':
        return T.pi()
    raise Unsupported(f'numpy.{name} is not modelled')
