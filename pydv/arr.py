"""Symbolic numpy arrays: functional buffers with strided views.

A dimension is a Python int, an SInt, or an MDim (the cells selected by a
boolean mask; an index along it is a cell, i.e. a tuple of indices)."""
import itertools

import z3

from . import terms as T
from .terms import (SBool, SInt, SReal, Unsupported, and_, or_, not_, ite, mk, CTX, vkey, SVal)

EAGER = 20000


class MDim:
    """The cells where a mask holds."""

    def __init__(self, mask):
        self.mask = mask          # SArr of booleans (snapshot)
        self.key_ = ('M', id(self))
        self.count = None

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, MDim) or self.mask.ndim != o.mask.ndim:
            return False
        # same mask contents: compare on a generic cell
        c = CTX()
        g = generic_index(self.mask.shape, 'mcell')
        a, b = SBool.of(self.mask.get(g)), SBool.of(o.mask.get(g))
        if a.k == b.k:
            return True
        return c.prove('masks agree', T.iff(a, b))

    def __repr__(self):
        return '<selected>'

    def size(self):
        if self.count is None:
            n = SInt(z3.Int(CTX().fresh('count')))
            CTX().define(n >= 0)
            self.count = n
        return self.count


class Opaque(SVal):
    """A value that an earlier loop iteration may have written."""

    def _dv_ite(self, c, a, b):
        raise Unsupported('loop-carried dependency through an array')


def generic_index(shape, base):
    """Fresh index variables within the shape, with their range assumed."""
    c = CTX()
    out = []
    for i, d in enumerate(shape):
        if isinstance(d, MDim):
            cell = generic_index(d.mask.shape, base + 'c')
            c.fact(SBool.of(d.mask.get(cell)))
            out.append(cell)
            continue
        v = SInt(z3.Int(c.fresh(base)))
        c.fact(and_(v >= 0, v < d))
        out.append(v)
    return tuple(out)


# ---- integer helpers (simplify with what is known) --------------------------
def ent(c):
    c = mk(c)
    if isinstance(c, bool):
        return c
    return CTX().entails(c)


def imin(a, b):
    if ent(a <= b):
        return a
    if ent(b <= a):
        return b
    return ite(a <= b, a, b)


def imax(a, b):
    if ent(a >= b):
        return a
    if ent(b >= a):
        return b
    return ite(a >= b, a, b)


def dims_equal(a, b):
    if isinstance(a, MDim) or isinstance(b, MDim):
        return isinstance(a, MDim) and isinstance(b, MDim) and a.same(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = mk(a == b)
    if isinstance(e, bool):
        return e
    return ent(e)


def conc(shape):
    return all(isinstance(d, int) for d in shape)


def is_int(x):
    if isinstance(x, bool):
        return False
    return isinstance(x, (int, SInt)) or (hasattr(x, '__index__') and hasattr(x, 'dtype')
                                          and not T.flag(x, '_dv_array', False))


# ---- buffers -----------------------------------------------------------------
class Update:
    __slots__ = ('axes', 'extra', 'val', 'hint')

    def __init__(self, axes, extra, val):
        self.axes = axes      # per buffer axis: ('f', e) | ('v', start, step, n)
        self.extra = extra    # None | idx -> bool
        self.val = val        # idx -> value
        self.hint = None      # written through a list of points

    def cond(self, idx):
        cs = []
        for a, i in zip(self.axes, idx):
            c = axis_cond(a, i)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        c = and_(*cs) if cs else True
        if c is False:
            return False
        if self.extra is not None:
            c = and_(c, self.extra(idx))
        return c


def axis_cond(a, i):
    if a is None:
        return True
    if a[0] == 'f':
        e = a[1]
        if isinstance(e, int) and isinstance(i, int):
            return e == i
        if isinstance(e, tuple) or isinstance(i, tuple):
            return and_(*[mk(x == y) for x, y in zip(e, i)])
        return simp(i == e)
    _, start, step, n = a
    if isinstance(n, MDim):
        raise Unsupported('strided view of a masked axis')
    if step == 1:
        if isinstance(start, int) and start == 0 and a[3] is None:
            return True
        return and_(simp(i >= start), simp(i < start + n))
    if step == -1:
        return and_(simp(i <= start), simp(i > start - n))
    if isinstance(i, int) and isinstance(start, int) and isinstance(n, int):
        q, r = divmod(i - start, step)
        return r == 0 and 0 <= q < n
    if step > 1:
        off = i - start
        return and_(simp(off >= 0), simp(off < n * step), simp(off % step == 0))
    raise Unsupported('negative stride assignment')


def simp(c):
    c = mk(c)
    if isinstance(c, bool):
        return c
    if ent(c):
        return True
    if ent(not_(c)):
        return False
    if z3.is_and(c.e) and has_real(c.e):
        # drop the conjuncts that hold here
        keep = []
        for x in c.e.children():
            if not has_real(x):
                b = SBool(x)
                if ent(b):
                    continue
                if ent(not_(b)):
                    return False
            keep.append(x)
        if len(keep) < c.e.num_args():
            return mk(SBool(z3.And(*keep) if len(keep) > 1 else keep[0])) if keep else True
    return c


def has_real(e):
    from .explore import _has_real
    return _has_real(e)


def axis_inv(a, i):
    """view index from buffer index along a 'v' axis"""
    _, start, step, n = a
    if step == 1:
        return i - start
    if step == -1:
        return start - i
    return (i - start) // step


class Buf:
    stale = None        # a reshaped view of the array was written, or the array behind this one
    links = ()

    def __init__(self, shape, base, dtype, eager=True):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.ups = []
        self.d = None
        self.base = base
        self.cache = {}
        self.ghost = None
        self.oob = set()
        if conc(self.shape) and eager:
            n = 1
            for s in self.shape:
                n *= s
            if n <= EAGER:
                self.d = {i: base(i) for i in itertools.product(*[range(s) for s in self.shape])}
        CTX_bufs().append(self)

    def mark(self):
        if self.d is not None:
            return dict(self.d)
        return len(self.ups)

    def changed(self, m):
        if self.d is not None:
            return any(self.d[k] is not m[k] for k in self.d)
        return len(self.ups) != m

    def restore(self, m):
        if self.d is not None:
            self.d = dict(m)
        else:
            del self.ups[m:]
            self.cache.clear()

    def _live(self):
        if self.stale:
            raise Unsupported('array read after a reshaped view of it (or the array behind it) was written')

    def frozen(self):
        self._live()
        b = Buf.__new__(Buf)
        b.shape, b.dtype, b.base, b.ghost, b.d = self.shape, self.dtype, self.base, self.ghost, None
        b.ups = list(self.ups)
        b.cache = {}
        b.oob = self.oob
        return b

    def read(self, idx, n=None):
        if self.stale:
            self._live()
        for k, i in enumerate(idx):
            if type(i) is not int and getattr(i, 'vs', None) is not None and self.shape[k] == len(i.vs):
                vals = [self.read(idx[:k] + (j,) + idx[k + 1:], n) for j in range(len(i.vs))]
                if all(isinstance(v, SReal) and vkey(v) == w for v, w in zip(vals, i.vs)):
                    return T.smax(*vals) if i.kind == 'max' else T.smin(*vals)
        if self.d is not None:
            if all(type(i) is int for i in idx):
                return self.d[idx]
            return self.read_sym(idx, self.d)
        if n is None:
            n = len(self.ups)
        key = (n, CTX().world, tuple(vkey(i) for i in idx))
        got = self.cache.get(key)
        if got is not None:
            return got[0]
        pend = []
        val = None
        done = False
        for u in reversed(self.ups[:n]):
            c = u.cond(idx)
            c = mk(c)
            if c is False:
                continue
            if c is not True:
                c = simp(c)
                if c is False:
                    continue
            if c is True:
                val = u.val(idx)
                done = True
                break
            pend.append((c, u))
        if not done:
            val = self.base(idx)
        for c, u in reversed(pend):
            # reading the guarded value under its guard
            with CTX().scope([c]):
                v = u.val(idx)
            val = ite(c, v, val)
        self.cache[key] = (val,)
        return val

    def read_sym(self, idx, d):
        for k, i in enumerate(idx):
            if type(i) is not int:
                break
        out = None
        for j in range(self.shape[k]):
            v = self.read_sym_sub(idx[:k] + (j,) + idx[k + 1:], d)
            out = v if out is None else ite(i == j, v, out)
        if out is None:
            raise Unsupported('symbolic index into an empty axis')
        return out

    def read_sym_sub(self, idx, d):
        if all(type(i) is int for i in idx):
            return d[idx]
        return self.read_sym(idx, d)

    def write(self, axes, extra, val):
        for b in self.links:
            b.stale = True
        u = Update(axes, extra, val)
        if self.d is not None:
            for idx in list(self.d):
                c = mk(u.cond(idx))
                if c is False:
                    continue
                self.d[idx] = ite(c, val(idx), self.d[idx]) if c is not True else val(idx)
        else:
            self.ups.append(u)
            if len(self.ups) > 4000:
                raise Unsupported('too many updates')


def CTX_bufs():
    c = CTX()
    b = getattr(c, 'bufs', None)
    return b if b is not None else []


# ---- dtype handling -----------------------------------------------------------
def dt(x):
    if x is None:
        return None
    if isinstance(x, str):
        if x in ('f', 'i', 'b', 'O'):
            return x
        if x.startswith(('float', 'f')):
            return 'f'
        if x.startswith(('int', 'uint', 'i', 'u')):
            return 'i'
        if x.startswith('bool'):
            return 'b'
        return 'O'
    n = getattr(x, '__name__', str(x))
    if n in ('dv_float',) or 'float' in n:
        return 'f'
    if n in ('dv_int',) or 'int' in n:
        return 'i'
    if 'bool' in n:
        return 'b'
    return 'O'


def conv(v, d):
    """Value stored in an array of dtype d."""
    if isinstance(v, Opaque):
        return v
    if d == 'f':
        if isinstance(v, NaN) or v is None:
            return v
        if isinstance(v, float) and v != v:
            return NAN
        if isinstance(v, float) and v in (float('inf'), -float('inf')):
            raise Unsupported('infinity')
        return SReal.of(v)
    if d == 'i':
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, SBool):
            return ite(v, 1, 0)
        if isinstance(v, (int, SInt)):
            return v
        if isinstance(v, SReal):
            c = v.c
            if c is not None:
                return int(c)
            i = as_int(v)
            if i is not None:
                return i
            raise Unsupported('real stored in an integer array')
        if hasattr(v, 'item'):
            return int(v.item())
        raise Unsupported(f'{type(v).__name__} stored in an integer array')
    if d == 'b':
        if isinstance(v, (bool, SBool)):
            return v
        return mk(SBool.of(v))
    return v


def as_int(v):
    """SInt equal to a real value that is integer by construction."""
    tot = 0
    for m, k in v.p.items():
        if k.denominator != 1:
            return None
        t = int(k)
        for a, e in m:
            A = T._ATOM_LIST[a]
            if A.kind != 'toreal':
                return None
            for _ in range(e):
                t = SInt.mk(A.args[0]) * t
        tot = tot + t
    return tot


class NaN(SVal):
    def key(self):
        return ('nan',)

    def _nan(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _nan
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = _nan

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 7

    def __lt__(self, o):
        return False
    __le__ = __gt__ = __ge__ = __lt__

    def __ne__(self, o):
        return True

    def __float__(self):
        return float('nan')

    def __repr__(self):
        return 'nan'


NAN = NaN()


def join(*ds):
    r = 'b'
    order = 'bifO'
    for d in ds:
        if order.index(d) > order.index(r):
            r = d
    return r


def vdt(v):
    if isinstance(v, (bool, SBool)):
        return 'b'
    if isinstance(v, (int, SInt)):
        return 'i'
    if isinstance(v, (float, SReal, NaN)):
        return 'f'
    import fractions
    if isinstance(v, fractions.Fraction):
        return 'f'
    if hasattr(v, 'dtype') and not T.flag(v, '_dv_array', False):
        return dt(str(v.dtype))
    return 'O'


# ---- arrays ----------------------------------------------------------------
class SArr:
    _dv_array = True
    __array_priority__ = 1000

    def __init__(self, buf, axes=None, shape=None, n=None):
        self.buf = buf
        if axes is None:
            axes = tuple(('a', i, 0, 1) for i in range(len(buf.shape)))
            shape = buf.shape
        self.axes = axes          # per buffer axis ('f', e) | ('a', view axis, start, step)
        self._shape = tuple(shape)
        self.n = n                # snapshot (None: live)

    # construction
    @staticmethod
    def fn(shape, f, dtype):
        return SArr(Buf(shape, f, dtype))

    @property
    def dtype(self):
        return DT(self.buf.dtype)

    @property
    def d_(self):
        return self.buf.dtype

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        raise Unsupported('shape assignment')

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n = 1
        for d in self._shape:
            n = n * (d.size() if isinstance(d, MDim) else d)
        return n

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len() of a symbolic dimension outside the facade')

    def _dv_len(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        d = self._shape[0]
        return d.size() if isinstance(d, MDim) else d

    def snap(self):
        """Immutable view of the current contents."""
        if self.n is not None:
            return self
        if self.buf.d is not None:
            self.buf._live()
            b = Buf.__new__(Buf)
            b.shape, b.dtype, b.ups, b.base, b.cache, b.ghost = \
                self.buf.shape, self.buf.dtype, [], None, {}, None
            b.d = dict(self.buf.d)
            b.oob = set()
            return SArr(b, self.axes, self._shape, 0)
        b = self.buf.frozen()
        return SArr(b, self.axes, self._shape, len(b.ups))

    def get(self, idx):
        if self.buf.d is None or True:
            bi = tuple(a[1] if a[0] == 'f' else _aff(idx[a[1]], a) for a in self.axes)
        return self.buf.read(bi, self.n)

    def key(self):
        if conc(self._shape):
            return ('A', self._shape, tuple(vkey(self.get(i)) for i in self.indices()))
        return ('o', id(self.buf), self.n, tuple(vkey(a) for a in self.axes),
                tuple(vkey(d) if not isinstance(d, MDim) else ('M', id(d)) for d in self._shape))

    def indices(self):
        if not conc(self._shape):
            raise Unsupported('enumeration of a symbolic array')
        return itertools.product(*[range(d) for d in self._shape])

    # ---- iteration
    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported('iteration over a symbolic dimension outside a loop statement')
        for i in range(d):
            yield self[i]

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return bool(self.get((0,) * self.ndim))
        if not self._shape:
            return bool(self.get(()))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def item(self):
        return self.get(tuple(0 for _ in self._shape))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- methods
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        if not ax or ax == (None,):
            ax = tuple(reversed(range(self.ndim)))
        ax = tuple(a % self.ndim for a in ax)
        inv = {o: n for n, o in enumerate(ax)}
        axes = tuple(a if a[0] == 'f' else ('a', inv[a[1]], a[2], a[3]) for a in self.axes)
        return SArr(self.buf, axes, tuple(self._shape[a] for a in ax), self.n)

    def copy(self):
        s = self.snap()
        return SArr.fn(self._shape, s.get, self.d_)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, d, copy=True):
        d2 = dt(d)
        s = self.snap()
        if d2 == 'i' and self.d_ == 'f':
            return SArr.fn(self._shape, lambda i: trunc(s.get(i)), 'i')
        if d2 == 'b':
            return SArr.fn(self._shape, lambda i: mk(SBool.of(s.get(i))), 'b')
        return SArr.fn(self._shape, lambda i: conv(s.get(i), d2), d2)

    def tolist(self):
        if not conc(self._shape):
            raise Unsupported('tolist of a symbolic array')
        if self.ndim == 0:
            return self.get(())
        return [self[i].tolist() if self.ndim > 1 else self.get((i,))
                for i in range(self._shape[0])]

    def flatten(self, order='C'):
        return reshape(self.copy(), (-1,))

    @property
    def flat(self):
        return reshape(self, (-1,))

    def ravel(self):
        return reshape(self, (-1,))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def nonzero(self):
        from . import npf
        return npf.nonzero(self)

    def tobytes(self, order='C'):
        if self.d_ != 'b':
            raise Unsupported('bytes of a non-boolean array')
        return BoolBytes(self.snap() if self.ndim == 1 else flat_view(self, (-1,)).snap())

    def fill(self, v):
        setitem(self, Ellipsis, v)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported('real numpy applied to a symbolic array')

    def __repr__(self):
        if conc(self._shape) and self.ndim <= 2:
            return 'SArr' + repr(self.tolist())
        return f'SArr{self._shape}'

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return repr(self)

    def __str__(self):
        return repr(self)

    def _dv_ite(self, c, a, b):
        if not isinstance(a, SArr) or not isinstance(b, SArr) or len(a.shape) != len(b.shape):
            raise Unsupported('merge of arrays of different kind')
        for x, y in zip(a.shape, b.shape):
            if not dims_equal(x, y):
                raise Unsupported('merge of arrays of different shape')
        x, y = a.snap(), b.snap()
        return SArr.fn(a.shape, lambda i: ite(c, x.get(i), y.get(i)), join(a.d_, b.d_))

    def _dv_subst(self, sub):
        s = self.snap()
        shape = tuple(sub.val(d) if not isinstance(d, MDim) else d for d in self._shape)
        return SArr.fn(shape, lambda i: sub.val(s.get(i)), self.d_)


def _aff(i, a):
    if isinstance(i, tuple):
        return i
    _, _, start, step = a
    if step == 1:
        if type(start) is int and start == 0:
            return i
        return i + start
    return start + i * step


def trunc(v):
    c = v.c if isinstance(v, SReal) else None
    if c is not None:
        return int(c)
    if isinstance(v, (int, SInt)):
        return v
    if T.p_isconst(v.p):
        return int(float(v))
    i = as_int(v)
    if i is not None:
        return i
    a = SInt(z3.ToInt(v.z3()))
    b = SInt(-z3.ToInt(-v.z3()))
    return ite(v >= 0, a, b)


class DT:
    """dtype object"""

    def __init__(self, d):
        self.d = d
        self.kind = {'f': 'f', 'i': 'i', 'b': 'b', 'O': 'O'}[d]
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[d]
        self.type = self

    @property
    def __name__(self):
        return self.name

    def __eq__(self, o):
        return dt(o.name if isinstance(o, DT) else o) == self.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return f"dtype('{self.name}')"


# ---- indexing ------------------------------------------------------------------
def norm_index(i, d, what='index'):
    """Python index semantics on a dimension; bounds become an obligation."""
    if hasattr(i, 'item') and not isinstance(i, (SInt, SReal, SBool)):
        i = i.item()
    if isinstance(d, MDim):
        if isinstance(i, tuple):
            return i
        raise Unsupported('integer index on masked data')
    if isinstance(i, SReal):
        raise IndexError('only integers are valid indices')
    if isinstance(i, int) and isinstance(d, int):
        if not -d <= i < d:
            raise IndexError(f'index {i} is out of bounds for axis with size {d}')
        return i + d if i < 0 else i
    if isinstance(i, int):
        if i < 0:
            bounds(d + i >= 0, what)
            return d + i
        bounds(d > i, what)
        return i
    if ent(i >= 0):
        pass
    elif ent(i < 0):
        i = i + d
        bounds(i >= 0, what)
        return i
    elif bool(i < 0):
        i = i + d
        bounds(i >= 0, what)
        return i
    bounds(i < d, what)
    return i


def bounds(c, what):
    c = mk(c)
    if c is True:
        return
    if ent(c):
        CTX().count_bound()
        return
    from .explore import _where
    ok = CTX().prove(f'{what} within bounds at {_where()}', c)
    CTX().fact(c if isinstance(c, SBool) else SBool.of(c))
    if c is False:
        raise T.PathAbort('index out of bounds')


def norm_slice(s, d):
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported('symbolic slice step')
    if isinstance(d, MDim):
        if s.start is None and s.stop is None and step == 1:
            return 0, 1, d
        raise Unsupported('slicing masked data')
    if all(x is None or isinstance(x, int) for x in (s.start, s.stop)) and isinstance(d, int):
        a, b, st = s.indices(d)
        n = len(range(a, b, st))
        return a, st, n
    if step not in (1, -1):
        raise Unsupported('stepped slice of a symbolic dimension')

    def clip(x, lo, hi):
        if isinstance(x, SReal):
            raise TypeError('slice indices must be integers')
        if isinstance(x, int):
            if x < 0:
                x = d + x
        elif ent(x >= 0):
            pass
        elif ent(x < 0):
            x = x + d
        elif bool(x < 0):
            x = x + d
        return imin(imax(x, lo), hi)
    if step == 1:
        a = 0 if s.start is None else clip(s.start, 0, d)
        b = d if s.stop is None else clip(s.stop, 0, d)
        return a, 1, imax(b - a, 0)
    a = d - 1 if s.start is None else clip(s.start, -1, d - 1)
    b = -1 if s.stop is None else clip(s.stop, -1, d - 1)
    return a, -1, imax(a - b, 0)


def parse_key(arr, key):
    """-> list of components over the array's axes:
    ('i', axis, idx) ('s', axis, start, step, n) ('new',) ('adv', axes, shape, f)"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if T.flag(k, '_dv_array', False) and k.d_ == 'b':
            used += k.ndim
        else:
            used += 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    out = []
    ax = 0
    for k in key:
        if k is Ellipsis:
            for _ in range(arr.ndim - used):
                out.append(('s', ax, 0, 1, arr.shape[ax]))
                ax += 1
            continue
        if k is None:
            out.append(('new',))
            continue
        if ax >= arr.ndim:
            raise IndexError('too many indices for array')
        d = arr.shape[ax]
        if isinstance(k, slice):
            st, step, n = norm_slice(k, d)
            out.append(('s', ax, st, step, n))
            ax += 1
            continue
        if isinstance(k, (bool, SBool)):
            raise Unsupported('scalar boolean index')
        if T.flag(k, '_dv_pset', None) is not None:
            out.append(('pset', ax, k))
            ax += 1
            continue
        if isinstance(k, (list, tuple, range)) or (type(k).__module__ == 'numpy' and getattr(k, 'ndim', 0) > 0):
            from . import npf
            k = npf.asarray(k)
        elif T.flag(k, '_dv_seq', False) and not T.flag(k, '_dv_array', False):
            k = k.to_array()
        if T.flag(k, '_dv_array', False) and k.ndim == 0:
            k = k.get(())
        if T.flag(k, '_dv_array', False):
            if k.d_ == 'b':
                m = k.snap()
                for j in range(m.ndim):
                    if not dims_equal(m.shape[j], arr.shape[ax + j]):
                        if isinstance(m.shape[j], int) and isinstance(arr.shape[ax + j], int):
                            raise IndexError('boolean index did not match indexed array')
                        CTX().prove('mask shape matches', m.shape[j] == arr.shape[ax + j])
                md = MDim(m)
                out.append(('adv', tuple(range(ax, ax + m.ndim)), (md,), (lambda i: i[0]), md))
                ax += m.ndim
                continue
            if k.d_ == 'f':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            s = k.snap()
            out.append(('adv', (ax,), s.shape,
                        (lambda i, s=s, d=d: (norm_index(s.get(i), d),)), None))
            ax += 1
            continue
        if isinstance(k, SReal) or isinstance(k, float):
            raise IndexError('only integers, slices... are valid indices')
        out.append(('i', ax, norm_index(k, d)))
        ax += 1
    return out


def _compose(arr, vax, f):
    """Apply ('f', e) or slice to the view axis vax of arr.axes."""


def getitem(arr, key):
    comps = parse_key(arr, key)
    if any(c[0] == 'pset' for c in comps):
        from . import npf
        return npf.pset_get(arr, comps)
    if any(c[0] == 'adv' for c in comps):
        return adv_get(arr, comps)
    r = basic_view(arr, comps)
    if r.ndim == 0:
        return r.get(()) if not _wants_view(key) else r
    return r


def _wants_view(key):
    return key is Ellipsis or (isinstance(key, tuple) and any(k is Ellipsis for k in key))


def basic_view(arr, comps):
    m = {}
    shape = []
    for c in comps:
        if c[0] == 'new':
            shape.append(1)
        elif c[0] == 'i':
            m[c[1]] = ('f', c[2])
        else:
            m[c[1]] = ('s', len(shape), c[2], c[3])
            shape.append(c[4])
    axes = []
    for a in arr.axes:
        if a[0] == 'f':
            axes.append(a)
            continue
        _, v, st, step = a
        c = m[v]
        if c[0] == 'f':
            axes.append(('f', _aff(c[1], a)))
        else:
            _, nv, s2, step2 = c
            axes.append(('a', nv, _aff(s2, a), step * step2))
    return SArr(arr.buf, tuple(axes), tuple(shape), arr.n)


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for j in range(n):
        d = 1
        for s in shapes:
            k = j - (n - len(s))
            if k < 0:
                continue
            e = s[k]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif dims_equal(d, e):
                if isinstance(e, int):
                    d = e
            elif isinstance(d, int) and isinstance(e, int):
                raise ValueError(f'operands could not be broadcast together with shapes {shapes}')
            elif isinstance(d, MDim) or isinstance(e, MDim):
                raise Unsupported('broadcast of masked data')
            else:
                from .explore import _where
                CTX().prove(f'shapes agree at {_where()}', d == e)
                CTX().fact(SBool.of(d == e))
        out.append(d)
    return tuple(out)


def bidx(idx, shape, out_shape):
    """index into an operand of the given shape from a broadcast index"""
    k = len(out_shape) - len(shape)
    if k == 0 and shape == out_shape:
        return idx
    return tuple(0 if (isinstance(d, int) and d == 1 and not (isinstance(o, int) and o == 1)) else i
                 for i, d, o in zip(idx[k:], shape, out_shape[k:]))


def adv_layout(arr, comps):
    """Result shape and index mapping for advanced indexing."""
    advs = [c for c in comps if c[0] in ('adv', 'i')]
    ashape = bshape(*[c[2] for c in advs if c[0] == 'adv'])
    # contiguous?
    pos = [j for j, c in enumerate(comps) if c[0] in ('adv', 'i')]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    shape = []
    layout = []                 # (comp index, position in result) for slices
    ins = 0
    if not contiguous:
        shape += list(ashape)
        apos = 0
        for j, c in enumerate(comps):
            if c[0] == 's':
                layout.append((j, len(shape)))
                shape.append(c[4])
            elif c[0] == 'new':
                shape.append(1)
    else:
        apos = None
        for j, c in enumerate(comps):
            if c[0] in ('adv', 'i'):
                if apos is None:
                    apos = len(shape)
                    shape += list(ashape)
            elif c[0] == 's':
                layout.append((j, len(shape)))
                shape.append(c[4])
            else:
                shape.append(1)
    na = len(ashape)

    def to_src(idx):
        ai = idx[apos:apos + na]
        src = [None] * arr.ndim
        for c in comps:
            if c[0] == 'adv':
                vals = c[3](bidx(ai, c[2], ashape))
                for ax, v in zip(c[1], vals):
                    src[ax] = v
            elif c[0] == 'i':
                src[c[1]] = c[2]
        for j, p in layout:
            c = comps[j]
            src[c[1]] = _aff(idx[p], ('a', 0, c[2], c[3]))
        return tuple(src)
    return tuple(shape), to_src, apos, na, layout, ashape


def adv_get(arr, comps):
    shape, to_src, apos, na, layout, ashape = adv_layout(arr, comps)
    s = arr.snap()
    return SArr.fn(shape, lambda i: s.get(to_src(i)), arr.d_)


def src_axes(arr):
    """arr.axes as update-axes plus inverse map buffer index -> view index."""
    axes = []
    for a in arr.axes:
        if a[0] == 'f':
            axes.append(('f', a[1]))
        else:
            _, v, st, step = a
            d = arr.shape[v]
            if isinstance(d, MDim):
                axes.append(None)
            elif type(st) is int and st == 0 and step == 1:
                axes.append(('v', 0, 1, d))
            else:
                axes.append(('v', st, step, d))
    # new axes (size one) have no buffer axis

    def inv(bi):
        idx = [0] * arr.ndim
        for a, u, i in zip(arr.axes, axes, bi):
            if a[0] == 'a':
                idx[a[1]] = i if u is None else axis_inv(u, i)
        return tuple(idx)
    # an update that covers the whole buffer axis needs no condition
    axes2 = []
    for u, d in zip(axes, arr.buf.shape):
        if u is not None and u[0] == 'v' and u[2] == 1 and type(u[1]) is int and u[1] == 0 \
                and dims_equal(u[3], d):
            axes2.append(None)
        else:
            axes2.append(u)
    return tuple(axes2), inv


def setitem(arr, key, val):
    from . import npf
    if arr.n is not None:
        raise Unsupported('write to a snapshot')
    comps = parse_key(arr, key)
    if any(c[0] == 'pset' for c in comps):
        return npf.pset_set(arr, comps, val)
    if any(c[0] == 'adv' for c in comps):
        return adv_set(arr, comps, val)
    view = basic_view(arr, comps)
    write_view(view, val)


def write_view(view, val):
    from . import npf
    d = view.buf.dtype
    if isinstance(val, SArr) and val.buf is view.buf and val.n is None and \
            _same_axes(val.axes, view.axes):
        return
    if d == 'O' and not isinstance(val, (SArr, list, tuple)):
        v0 = val
        axes, inv = src_axes(view)
        log_write(view.buf)
        view.buf.write(axes, None, lambda bi: v0)
        return
    if isinstance(val, (SVal, int, float, bool)) or val is None:
        v = conv(val, d)
        axes, inv = src_axes(view)
        log_write(view.buf)
        view.buf.write(axes, None, lambda bi: v)
        return
    if d == 'O' and view.ndim == 0:
        axes, inv = src_axes(view)
        log_write(view.buf)
        view.buf.write(axes, None, lambda bi: val)
        return
    va = npf.asarray(val).snap()
    # numpy drops leading ones of the value
    sh = va.shape
    while len(sh) > view.ndim and isinstance(sh[0], int) and sh[0] == 1:
        va = va[0] if not isinstance(va[0], SVal) else npf.asarray(va[0])
        va = va.snap()
        sh = va.shape
    full = bshape(view.shape, sh)
    if len(full) != view.ndim or not all(dims_equal(a, b) for a, b in zip(full, view.shape)):
        if all(isinstance(x, int) for x in tuple(full) + tuple(view.shape)):
            raise ValueError(f'could not broadcast input array from shape {sh} into shape {view.shape}')
        for a, b in zip(full, view.shape):
            if not dims_equal(a, b):
                CTX().prove('assigned shape matches', a == b)
    axes, inv = src_axes(view)
    vshape = view.shape
    log_write(view.buf)
    view.buf.write(axes, None, lambda bi: conv(va.get(bidx(inv(bi), sh, vshape)), d))


def log_write(buf):
    pass


def _same_axes(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for p, q in zip(x[1:], y[1:]):
            if vkey(p) != vkey(q):
                return False
    return True


def adv_set(arr, comps, val):
    from . import npf
    d = arr.d_
    shape, to_src, apos, na, layout, ashape = adv_layout(arr, comps)
    masks = [c for c in comps if c[0] == 'adv' and c[4] is not None]
    if len(masks) == 1 and sum(c[0] == 'adv' for c in comps) == 1:
        mc = masks[0]
        # full view condition on the other axes
        fake = []
        for c in comps:
            if c[0] == 'adv':
                for ax in c[1]:
                    fake.append(('s', ax, 0, 1, arr.shape[ax]))
            elif c[0] == 'new':
                pass
            else:
                fake.append(c)
        view = basic_view(arr, fake)
        # positions of the kept axes in view
        kept = [c for c in fake if c[0] == 's']
        order = [c[1] for c in kept]
        axes, inv = src_axes(view)
        mask = mc[4].mask
        mpos = [order.index(ax) for ax in mc[1]]

        def cell(vi):
            return tuple(vi[p] for p in mpos)
        scalar = isinstance(val, (SVal, int, float, bool)) or val is None
        if scalar:
            v = conv(val, d)
            arr.buf.write(axes, lambda bi: mk(SBool.of(mask.get(cell(inv(bi))))), lambda bi: v)
            return
        va = npf.asarray(val).snap()
        if va.ndim == 0:
            v = conv(va.get(()), d)
            arr.buf.write(axes, lambda bi: mk(SBool.of(mask.get(cell(inv(bi))))), lambda bi: v)
            return
        full = bshape(shape, va.shape)

        def value(bi):
            vi = inv(bi)
            # build the result index: mask axis carries the cell
            ridx = [None] * len(shape)
            ridx[apos] = cell(vi)
            for j, p in layout:
                ridx[p] = vi[order.index(comps[j][1])]
            return conv(va.get(bidx(tuple(ridx), va.shape, full)), d)
        arr.buf.write(axes, lambda bi: mk(SBool.of(mask.get(cell(inv(bi))))), value)
        return
    # integer index arrays: enumerate when concrete
    if conc(ashape):
        va = None if isinstance(val, (SVal, int, float, bool)) or val is None else npf.asarray(val).snap()
        rest = [comps[j] for j, _ in layout]
        for ai in itertools.product(*[range(n) for n in ashape]):
            key2 = []
            for c in comps:
                if c[0] == 'adv':
                    for ax, v in zip(c[1], c[3](bidx(ai, c[2], ashape))):
                        key2.append(('i', ax, v))
                else:
                    key2.append(c)
            view = basic_view(arr, key2)
            if va is None:
                write_view(view, val)
            else:
                full = bshape(shape, va.shape)

                def f(ri, ai=ai):
                    ridx = [None] * len(shape)
                    for t, a in enumerate(ai):
                        ridx[apos + t] = a
                    for q, (j, p) in enumerate(layout):
                        ridx[p] = ri[q]
                    return va.get(bidx(tuple(ridx), va.shape, full))
                write_view(view, SArr.fn(view.shape, f, va.d_) if view.ndim else f(()))
        return
    if len(ashape) == 1 and not isinstance(ashape[0], (int, MDim)):
        return scatter(arr, comps, val, shape, apos, layout, ashape)
    raise Unsupported('assignment through a symbolic index array')


def scatter(arr, comps, val, shape, apos, layout, ashape):
    """A[.., ys, xs, ..] = val through the coordinates of distinct points"""
    from . import npf
    from .loops import mentions
    c = CTX()
    k = SInt(z3.Int(c.fresh('k')))
    n = ashape[0]
    inside = and_(k >= 0, k < n)
    decided = len(c.pc)
    for f in getattr(c, 'extrema', ()):
        c.define(f(k.e))
    with c.scope([inside]):
        key2 = []
        for co in comps:
            if co[0] == 'adv':
                for ax, v in zip(co[1], co[3](bidx((k,), co[2], ashape))):
                    key2.append(('i', ax, v))
            else:
                key2.append(co)
        view = basic_view(arr, key2)
        axes, inv = src_axes(view)
    if len(c.pc) != decided:
        raise Unsupported('a position in an index array decides how it is read')
    va = None if isinstance(val, (SVal, int, float, bool)) or val is None else npf.asarray(val).snap()
    full = shape if va is None else bshape(shape, va.shape)
    es = [(p, a[1]) for p, a in enumerate(axes) if a is not None and a[0] == 'f' and mentions(a[1], [k])]
    for q in getattr(c, 'inverses', ()):
        r = q.solve(es, k, mentions)
        if r is not None and len(r) == len(es):
            break
    else:
        raise Unsupported('assignment through a symbolic index array')
    axes2 = tuple(None if p in [p for p, _ in es] else a for p, a in enumerate(axes))

    def extra(bi):
        kk = q.inverse(r, bi)
        cs = [kk >= 0, kk < n]
        for p, e in es:
            cs.append(mk(T.subst(e, [(k, kk)]) == bi[p]))
        return and_(*cs)

    def value(bi):
        if va is None:
            return conv(val, arr.d_)
        vi = inv(bi)
        ridx = [None] * len(shape)
        ridx[apos] = q.inverse(r, bi)
        for t, (j, p) in enumerate(layout):
            ridx[p] = vi[t]
        return conv(va.get(bidx(tuple(ridx), va.shape, full)), arr.d_)
    arr.buf.write(axes2, extra, value)
    if arr.buf.d is None and hasattr(q, 'lead_inverse'):
        arr.buf.ups[-1].hint = (q, r)


def reshape(arr, shape):
    shape = tuple(shape)
    if len(shape) == arr.ndim and all(dims_equal(a, b) for a, b in zip(shape, arr.shape)
                                      if not (isinstance(a, int) and a == -1)):
        if -1 not in [s for s in shape if isinstance(s, int)] or \
                sum(1 for s in shape if isinstance(s, int) and s == -1) == 1:
            return arr
    if conc(arr.shape):
        tot = 1
        for d in arr.shape:
            tot *= d
        known = 1
        for s in shape:
            if isinstance(s, int) and s == -1:
                continue
            if not isinstance(s, int):
                raise Unsupported('reshape to symbolic')
            known *= s
        shape = tuple(tot // known if s == -1 else s for s in shape)
        n = 1
        for s in shape:
            n *= s
        if n != tot:
            raise ValueError(f'cannot reshape array of size {tot} into shape {shape}')
        # a view where possible: contiguous whole buffer
        idxs = list(arr.indices())
        strides = []
        n = 1
        for s in reversed(shape):
            strides.insert(0, n)
            n *= s
        vb = ViewBuf(arr, shape, lambda i: idxs[sum(a * b for a, b in zip(i, strides))], idxs, strides)
        return SArr(vb)
    # insert/remove unit axes
    a = [d for d in arr.shape if not (isinstance(d, int) and d == 1)]
    b = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(a) == len(b) and all((isinstance(y, int) and y == -1) or dims_equal(x, y) for x, y in zip(a, b)):
        src = arr
        # drop unit axes
        key = tuple(0 if (isinstance(d, int) and d == 1) else slice(None) for d in arr.shape)
        src = src[key] if src.ndim else src
        key = tuple(None if (isinstance(d, int) and d == 1) else slice(None) for d in shape)
        return src[key]
    # flatten of symbolic 2-d: masked-free linear view
    out = flat_view(arr, shape)
    if arr.n is None and out.n is None and out.buf is not arr.buf:
        # numpy shares the memory: neither may be read once the other is written
        out.buf.links = (*out.buf.links, arr.buf)
        arr.buf.links = (*arr.buf.links, out.buf)
    return out


class BoolBytes:
    """The bytes of a boolean array: one per element, 0 or 1."""

    def __init__(self, s):
        self.s = s

    def _dv_len(self):
        return self.s.shape[0]

    def find(self, b, *a):
        if a or b not in (b'\x01', b'\x00'):
            raise Unsupported('search in bytes')
        want = b == b'\x01'
        c = CTX()
        r = SInt(z3.Int(c.fresh('find')))
        n = self.s.shape[0]
        c.define(and_(r >= -1, r < n))
        s = self.s

        def is_(k):
            v = SBool.of(s.get((k,)))
            return v if want else not_(v)
        with c.scope([r >= 0]):
            c.fact(is_(r))

        def inst(j):
            """nothing before the place found, or nothing at all"""
            with c.scope([j >= 0, j < n, or_(j < r, r < 0)]):
                c.fact(not_(is_(j)))
        c.finds = getattr(c, 'finds', []) + [(r, n, inst)]
        return r


class LinDim:
    pass


def flat_view(arr, shape):
    """Row-major flattening / unflattening between (..., Y, X) and (..., N)."""
    if len(shape) == 1:
        # flatten everything; index k -> div/mod by trailing sizes
        ft = getattr(arr, '_flat_of', None)
        s = arr.snap() if arr.n is not None else arr
        size = arr.size

        def f(i):
            k = i[0]
            return s.get(unravel(k, arr.shape))
        out = SArr.fn((size,), f, arr.d_) if not conc((size,)) else SArr.fn((size,), f, arr.d_)
        out._unflat = (s, arr.shape)
        return out
    un = getattr(arr, '_unflat', None)
    if un is not None and not arr.buf.ups and len(un[1]) == len(shape) and all(dims_equal(a, b) for a, b in zip(un[1], shape)):
        return un[0]
    if arr.ndim == 1 and all(not (isinstance(s, int) and s == -1) for s in shape):
        s = arr.snap()

        def g(i):
            return s.get((ravel_index(i, shape),))
        return SArr.fn(tuple(shape), g, arr.d_)
    out = split_lead(arr, shape)
    if out is None:
        out = merge_lead(arr, shape)
    if out is None:
        out = merge_tail(arr, shape)
    if out is None:
        out = regroup(arr, shape)
    if out is not None:
        return out
    raise Unsupported(f'reshape {arr.shape} -> {shape}')


def split_lead(arr, shape):
    """(N, sizes) -> (a, b, ..., sizes) with a b ... = N"""
    tail = arr.shape[1:]
    m = len(shape) - len(tail)
    if arr.ndim < 2 or m < 2 or not conc(tail) or isinstance(shape[0], int) and shape[0] == -1:
        return None
    new = list(shape[m:])
    if len(tail) == 1 and isinstance(new[0], int) and new[0] == -1:
        new = list(tail)
    if any(not isinstance(a, int) or a != b for a, b in zip(new, tail)):
        return None
    n = 1
    for d in shape[:m]:
        if isinstance(d, int) and d == -1:
            return None
        n = n * d
    CTX().definedness('reshape keeps the number of elements', mk(arr.shape[0] == n))
    s = arr.snap()
    return SArr.fn((*shape[:m], *tail), lambda i: s.get((ravel_index(i[:m], shape[:m]), *i[m:])), arr.d_)


def merge_lead(arr, shape):
    """(a, b, ..., sizes) -> (a b ..., sizes)"""
    tail = tuple(shape[1:])
    m = arr.ndim - len(tail)
    if not tail or m < 2 or not conc(tail) or tuple(arr.shape[m:]) != tail:
        return None
    n = 1
    for d in arr.shape[:m]:
        if isinstance(d, MDim):
            return None
        n = n * d
    if not (isinstance(shape[0], int) and shape[0] == -1):
        CTX().definedness('reshape keeps the number of elements', mk(shape[0] == n))
        n = shape[0]
    s, lead = arr.snap(), arr.shape[:m]
    return SArr.fn((n, *tail), lambda i: s.get((*unravel(i[0], lead), *i[1:])), arr.d_)


def merge_tail(arr, shape):
    """(sizes, a, b, ...) -> (sizes, a b ...) and back"""
    lead = tuple(shape[:-1])
    m = len(lead)
    if m and arr.ndim - m >= 2 and conc(lead) and tuple(arr.shape[:m]) == lead:
        rest = arr.shape[m:]
        n = 1
        for d in rest:
            if isinstance(d, MDim):
                return None
            n = n * d
        if not (isinstance(shape[-1], int) and shape[-1] == -1):
            CTX().definedness('reshape keeps the number of elements', mk(shape[-1] == n))
            n = shape[-1]
        s = arr.snap()
        return SArr.fn((*lead, n), lambda i: s.get((*i[:m], *unravel(i[m], rest))), arr.d_)
    m = arr.ndim - 1
    lead = tuple(arr.shape[:m])
    if m and len(shape) - m >= 2 and conc(lead) and tuple(shape[:m]) == lead:
        rest = tuple(shape[m:])
        n = 1
        for d in rest:
            if isinstance(d, int) and d == -1:
                return None
            n = n * d
        CTX().definedness('reshape keeps the number of elements', mk(arr.shape[-1] == n))
        s = arr.snap()
        return SArr.fn((*lead, *rest), lambda i: s.get((*i[:m], ravel_index(i[m:], rest))), arr.d_)
    return None


def regroup(arr, shape):
    """(N, concrete sizes) -> (N * k or N / k, concrete sizes)"""
    tail, new = arr.shape[1:], tuple(shape[1:])
    if not arr.ndim or not conc(tail) or not conc(new) or any(s < 0 for s in new):
        return None
    n, t1, t2 = arr.shape[0], 1, 1
    for d in tail:
        t1 *= d
    for d in new:
        t2 *= d
    if not t1 or not t2:
        return None
    s = arr.snap()

    def lin(i, sh):
        k = 0
        for a, d in zip(i, sh):
            k = k * d + a
        return k

    def unlin(k, sh):
        out = []
        for d in reversed(sh):
            out.insert(0, k % d)
            k = k // d
        return tuple(out)
    if t1 % t2 == 0:
        k = t1 // t2
        m = n * k
        if isinstance(m, SInt):
            RAVEL['size', m.k, k] = n

        def f(i):
            q, r = unravel(i[0], (n, k)) if k > 1 else (i[0], 0)
            j = r * t2 + lin(i[1:], new)
            return s.get((q, *unlin(j, tail)))
    elif t2 % t1 == 0:
        k = t2 // t1
        m = simp_div(n, k)

        def f(i):
            j = lin(i[1:], new)
            return s.get((ravel_index((i[0], j // t1), (m, k)), *unlin(j % t1, tail)))
    else:
        return None
    if not (isinstance(shape[0], int) and shape[0] == -1):
        CTX().definedness('reshape keeps the number of elements', mk(m == shape[0]))
    return SArr.fn((m, *new), f, arr.d_)


def simp_div(n, k):
    """n / k for a multiple n of k"""
    if isinstance(n, int):
        if n % k:
            raise ValueError('cannot reshape')
        return n // k
    CTX().definedness('reshape to whole rows', mk(n % k == 0))
    got = RAVEL.get(('size', n.k, k))
    if got is not None:
        return got
    return n // k


def ravel_index(i, shape):
    k = 0
    for a, d in zip(i, shape):
        k = k * d + a
    if isinstance(k, SInt):
        RAVEL[k.k] = (tuple(i), tuple(vkey(d) for d in shape))
    return k


RAVEL = {}


def unravel(k, shape):
    """Inverse of row-major linearisation (exact when k was built by
    ravel_index; otherwise fresh quotients with their defining facts)."""
    got = RAVEL.get(getattr(k, 'k', None))
    if got is not None and got[1] == tuple(vkey(d) for d in shape) and \
            all(ent(and_(i >= 0, i < d)) for i, d in zip(got[0], shape)):
        return got[0]
    if isinstance(k, int) and conc(shape):
        out = []
        for d in reversed(shape):
            out.insert(0, k % d)
            k //= d
        return tuple(out)
    if len(shape) == 1:
        return (k,)
    c = CTX()
    cache = c.unravel_cache
    key = (vkey(k), tuple(vkey(d) for d in shape))
    if key in cache:
        return cache[key]
    idx = []
    cs = []
    tot = 1
    ds = [SInt.ex(d) for d in shape]
    for n, d in enumerate(shape):
        f = z3.Function(f'unravel{len(shape)}.{n}', *([z3.IntSort()] * (len(ds) + 2)))
        v = SInt(f(SInt.ex(k), *ds))
        cs.append(and_(v >= 0, v < d))
        idx.append(v)
        tot = tot * d
    e = 0
    for a, d in zip(idx, shape):
        e = e * d + a
    cs.append(mk(SBool(SInt.ex(e) == SInt.ex(k))))
    c.define(T.implies(and_(mk(k >= 0), mk(k < tot)), and_(*cs)))
    cache[key] = tuple(idx)
    return tuple(idx)


class ViewBuf(Buf):
    """Reshaped concrete array sharing storage."""

    def __init__(self, arr, shape, to_src, idxs, strides):
        self.arr = arr
        self.shape = tuple(shape)
        self.dtype = arr.d_
        self.to_src = to_src
        self.ups = []
        self.cache = {}
        self.ghost = None
        self.d = None
        self.oob = set()
        self.base = None

    def read(self, idx, n=None):
        if all(type(i) is int for i in idx):
            return self.arr.get(self.to_src(idx))
        d = {i: self.arr.get(self.to_src(i)) for i in itertools.product(*[range(s) for s in self.shape])}
        return self.read_sym(idx, d)

    def write(self, axes, extra, val):
        u = Update(axes, extra, val)
        for idx in itertools.product(*[range(s) for s in self.shape]):
            c = mk(u.cond(idx))
            if c is False:
                continue
            src = self.to_src(idx)
            v = val(idx)
            if c is not True:
                v = ite(c, v, self.arr.get(src))
            write_view(basic_view(self.arr, [('i', k, s) for k, s in enumerate(src)]), v)

    def mark(self):
        return None

    def changed(self, m):
        return False

    def restore(self, m):
        pass


# snapshots of a ViewBuf must copy
_old_snap = SArr.snap


def _snap(self):
    if isinstance(self.buf, ViewBuf) and self.n is None:
        vb = self.buf
        d = {i: vb.read(i) for i in itertools.product(*[range(s) for s in vb.shape])}
        b = Buf.__new__(Buf)
        b.shape, b.dtype, b.ups, b.base, b.cache, b.ghost, b.d = vb.shape, vb.dtype, [], None, {}, None, d
        b.oob = set()
        return SArr(b, self.axes, self._shape, 0)
    return _old_snap(self)


SArr.snap = _snap
