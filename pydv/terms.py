"""Symbolic values.

SReal  exact real arithmetic: a polynomial over interned atoms with rational
       coefficients, kept in a normal form (sqrt(c)^2=c, sin^2=1-cos^2,
       sign^2=1, declared relations such as |q|^2=1).
SInt   integer term (z3), SBool  boolean term (z3).

Floating point numbers of the program are modelled as exact reals; the
decimal literal 0.1 means 1/10.  This is stated as an assumption by every
check.
"""
import math
import sys
from fractions import Fraction

import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The code left the subset that the verifier understands."""


class PathAbort(Exception):
    """The current path is infeasible or finished early."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'args', '_name', 'integer', 'rel')

    @property
    def name(self):
        n = self._name
        return n if isinstance(n, str) else n()

    def __repr__(self):
        return f'<{self.kind}:{self.name}>'


_ATOMS = {}
_ATOM_LIST = []
_KEEP = []


def atom(kind, key, args=(), name=None):
    k = (kind, key)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.id = len(_ATOM_LIST)
        a.kind = kind
        a.args = args
        a._name = name or f'{kind}!{a.id}'
        a.rel = None        # poly that replaces atom^2
        _ATOMS[k] = a
        _ATOM_LIST.append(a)
    return a


def zkey(e):
    """Canonical hashable key of a z3 term; keeps it alive."""
    e = z3.simplify(e, som=True, arith_lhs=True) if z3.is_expr(e) else e
    _KEEP.append(e)
    return e.get_id(), e


# --------------------------------------------------------------------------
# polynomials: dict {mono: Fraction}; mono = tuple of (atom id, exp), sorted
# --------------------------------------------------------------------------
F0 = Fraction(0)
F1 = Fraction(1)
ONE = ()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported(f'non-finite constant {x}')
        return Fraction(repr(x))
    raise TypeError(type(x))


def p_add(p, q, c=F1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, F0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, c):
    if not c:
        return {}
    return {m: k * c for m, k in p.items()}


def _mono_mul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    red = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
            if n >= 2 and _has_rule(a):
                red = True
    return tuple(sorted(d.items())), red


def _has_rule(aid):
    a = _ATOM_LIST[aid]
    return a.rel is not None or a.kind in ('sqrt', 'sin', 'sgn', 'abs')


def _square_of(aid):
    a = _ATOM_LIST[aid]
    if a.rel is not None:
        return a.rel
    if a.kind in ('sqrt',):
        return a.args[0]
    if a.kind == 'abs':
        return p_mul(a.args[0], a.args[0])
    if a.kind == 'sgn':
        return {ONE: F1}
    if a.kind == 'sin':
        c = atom('cos', a.args[1], a.args)
        return p_add({ONE: F1}, {((c.id, 2),): F1}, Fraction(-1))
    return None


def p_mul(p, q):
    r = {}
    todo = []
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            m, red = _mono_mul(m1, m2)
            k = k1 * k2
            if red:
                todo.append((m, k))
                continue
            v = r.get(m, F0) + k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    for m, k in todo:
        r = p_add(r, _reduce_mono(m), k)
    return r


_RED_CACHE = {}


def _reduce_mono(m):
    c = _RED_CACHE.get(m)
    if c is not None:
        return c
    out = {ONE: F1}
    rest = []
    for a, e in m:
        if e >= 2 and _has_rule(a):
            sq = _square_of(a)
            for _ in range(e // 2):
                out = p_mul(out, sq)
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    out = p_mul(out, {tuple(rest): F1})
    if len(_RED_CACHE) > 500000:
        _RED_CACHE.clear()
    _RED_CACHE[m] = out
    return out


def p_key(p):
    return tuple(sorted(p.items()))


def p_const(p):
    """The rational value if p is a rational constant, else None."""
    if not p:
        return F0
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


# --------------------------------------------------------------------------
# numeric evaluation (for constants and for sampling)
# --------------------------------------------------------------------------
class NoValue(Exception):
    pass


def a_eval(aid, env):
    if env is not None and aid in env:
        return env[aid]
    a = _ATOM_LIST[aid]
    k = a.kind
    if k == 'pi':
        v = math.pi
    elif k == 'sqrt':
        x = p_eval(a.args[0], env)
        v = math.sqrt(x) if x > 0 else (0.0 if x > -1e-9 else float('nan'))
    elif k == 'inv':
        x = p_eval(a.args[0], env)
        if x == 0:
            raise NoValue('1/0')
        v = 1 / x
    elif k == 'abs':
        v = abs(p_eval(a.args[0], env))
    elif k == 'cos':
        v = math.cos(p_eval(a.args[0], env))
    elif k == 'sin':
        v = math.sin(p_eval(a.args[0], env))
    elif k == 'arccos':
        x = p_eval(a.args[0], env)
        v = math.acos(max(-1, min(1, x)))
    elif k == 'atan2':
        v = math.atan2(p_eval(a.args[0], env), p_eval(a.args[1], env))
    elif k == 'max':
        v = max(p_eval(q, env) for q in a.args)
    elif k == 'ite':
        v = p_eval(a.args[1] if a.args[0].eval(env) else a.args[2], env)
    elif k == 'sgn':
        v = -1 if a.args[0].eval(env) else 1
    else:
        raise NoValue(a.name)
    if env is not None:
        env[aid] = v
    return v


def p_eval(p, env):
    t = 0.0
    for m, k in p.items():
        v = float(k)
        for a, e in m:
            v *= a_eval(a, env) ** e
        t += v
    return t


_CONST_KINDS = ('pi', 'sqrt', 'inv', 'abs', 'cos', 'sin', 'arccos', 'atan2', 'max')
_IS_CONST = {}


def a_isconst(aid):
    c = _IS_CONST.get(aid)
    if c is None:
        a = _ATOM_LIST[aid]
        if a.kind == 'pi':
            c = True
        elif a.kind in _CONST_KINDS:
            c = all(p_isconst(q) for q in a.args if isinstance(q, dict))
        else:
            c = False
        _IS_CONST[aid] = c
    return c


def p_isconst(p):
    return all(a_isconst(a) for m in p for a, _ in m)


def p_sign(p):
    """Sign of a constant polynomial (exact zero test by normal form)."""
    if not p:
        return 0
    c = p_const(p)
    if c is not None:
        return (c > 0) - (c < 0)
    v = p_eval(p, None)
    if abs(v) < 1e-9:
        q = clear_inv(p)
        if not q:
            return 0
        raise Unsupported('sign of a constant too close to zero')
    return 1 if v > 0 else -1


def clear_inv(p):
    """Multiply by the denominators (each non-zero) and renormalise."""
    for _ in range(50):
        best = {}
        for m in p:
            for a, e in m:
                A = _ATOM_LIST[a]
                if A.kind == 'inv':
                    best[a] = max(best.get(a, 0), e)
                elif e < 0:
                    best[a] = max(best.get(a, 0), -e)
        if not best:
            return p
        # innermost last: the atom with the greatest id may depend on others
        a = max(best)
        emax = best[a]
        A = _ATOM_LIST[a]
        if A.kind == 'inv':
            den = A.args[0]
            pw = [{ONE: F1}]
            for _i in range(emax):
                pw.append(p_mul(pw[-1], den))
            r = {}
            for m, k in p.items():
                e0 = 0
                rest = []
                for b, e in m:
                    if b == a:
                        e0 = e
                    else:
                        rest.append((b, e))
                r = p_add(r, p_mul({tuple(rest): k}, pw[emax - e0]))
            p = r
        else:
            p = p_mul(p, {((a, emax),): F1})
    raise Unsupported('denominator clearing did not finish')


# --------------------------------------------------------------------------
# SReal
# --------------------------------------------------------------------------
class SVal:
    __slots__ = ()


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


class SReal(SVal):
    # nn: known to be a sum of squares and non-negative constants by construction
    __slots__ = ('p', '_key', 'nn')

    def __init__(self, p, nn=False):
        self.p = p
        self._key = None
        self.nn = nn

    # ---- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return SReal({ONE: c} if c else {}, c >= 0)

    @staticmethod
    def of(x):
        if isinstance(x, SReal):
            return x
        if isinstance(x, SInt):
            return x.to_real()
        if isinstance(x, (int, float, Fraction)):
            return SReal.const(x)
        if isinstance(x, SBool):
            return ite(x, SReal.const(1), SReal.const(0))
        if hasattr(x, 'item') and not hasattr(x, '_dv_array'):
            return SReal.of(x.item())
        if getattr(x, '_dv_array', False) and x.shape == ():
            return SReal.of(x.get(()))
        raise Unsupported(f'cannot use {type(x).__name__} as a number')

    def key(self):
        if self._key is None:
            self._key = ('R', p_key(self.p))
        return self._key

    @property
    def c(self):
        return p_const(self.p)

    # ---- arithmetic
    def _bin(self, o):
        if isinstance(o, (SReal, SInt, SBool, int, float, Fraction)):
            return SReal.of(o)
        return None

    def __add__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else SReal(p_add(self.p, o.p), self.nn and o.nn)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else SReal(p_add(self.p, o.p, Fraction(-1)))

    def __rsub__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else SReal(p_add(o.p, self.p, Fraction(-1)))

    def __mul__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else SReal(p_mul(self.p, o.p), self.nn and o.nn or self is o or self.p == o.p)
    __rmul__ = __mul__

    def __neg__(self):
        return SReal(p_scale(self.p, Fraction(-1)))

    def __pos__(self):
        return self

    def inv(self):
        c = self.c
        if c is not None:
            if c == 0:
                CTX().definedness('division by zero', SBool.of(False))
                raise PathAbort('1/0')
            return SReal.const(1 / c)
        if self.nn:
            r = SReal(self.p).inv()
            return SReal(r.p, True)
        CTX().definedness('divisor is non-zero', ne(self, 0))
        # factor out common monomial and content
        p = self.p
        monos = list(p)
        if len(monos) == 1:
            m = monos[0]
            r = {ONE: 1 / p[m]}
            for a, e in m:
                A = _ATOM_LIST[a]
                if A.kind == 'sqrt' and p_const(A.args[0]) is not None:
                    # 1/sqrt(c) = sqrt(c)/c
                    r = p_mul(r, {((a, 1),): 1 / p_const(A.args[0])})
                elif A.kind == 'sgn':
                    r = p_mul(r, {((a, 1),): F1})
                elif A.kind == 'inv':
                    q = A.args[0]
                    for _ in range(e):
                        r = p_mul(r, q)
                else:
                    ip = _inv_atom({((a, 1),): F1})
                    for _ in range(e):
                        r = p_mul(r, ip)
            return SReal(r)
        # common atoms
        com = dict(monos[0])
        for m in monos[1:]:
            d = dict(m)
            com = {a: min(e, d[a]) for a, e in com.items() if a in d}
        if com:
            cm = tuple(sorted(com.items()))
            neg = tuple((a, -e) for a, e in cm)
            q = {}
            for m, k in p.items():
                q[_mono_mul(m, neg)[0]] = k
            return SReal({cm: F1}).inv() * SReal(q).inv()
        lead = p[max(p)]
        q = p_scale(p, 1 / lead)
        return SReal(p_scale(_inv_atom(q), 1 / lead))

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not self.p and o.c is None:
            CTX().definedness('divisor is non-zero', ne(o, 0))
            return SReal({})
        if len(o.p) == 1 and o.c is None:
            # common factors that are numbers of the input
            (m, k), = o.p.items()
            if all(_ATOM_LIST[a].kind == 'toreal' for a, e in m) and all(dict(n).get(a, 0) >= e for n in self.p for a, e in m):
                CTX().definedness('divisor is non-zero', ne(o, 0))
                d = dict(m)
                return SReal({tuple((a, e - d.get(a, 0)) for a, e in n if e > d.get(a, 0)): v / k for n, v in self.p.items()})
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, n):
        if isinstance(n, SReal):
            n = n.c if n.c is not None else n
        if isinstance(n, float):
            n = Fraction(n)
        if isinstance(n, Fraction):
            if n == Fraction(1, 2):
                return self.sqrt()
            if n.denominator == 1:
                n = int(n)
        if not isinstance(n, int):
            raise Unsupported(f'power {n!r}')
        if n < 0:
            return (self ** (-n)).inv()
        r = {ONE: F1}
        for _ in range(n):
            r = p_mul(r, self.p)
        return SReal(r, n % 2 == 0 or self.nn)

    def __mod__(self, o):
        o = SReal.of(o)
        if o.c is None or o.c <= 0:
            raise Unsupported('real modulo')
        if self.c is not None:
            return SReal.const(self.c % o.c)
        x = self / o
        return self - o * SInt(z3.ToInt(x.z3())).to_real()

    def __floordiv__(self, o):
        o = SReal.of(o)
        if self.c is not None and o.c:
            return SReal.const(self.c // o.c)
        raise Unsupported('real floor division')

    # ---- comparisons
    def __lt__(self, o):
        return cmp_lt(self - SReal.of(o))

    def __le__(self, o):
        return cmp_le(self - SReal.of(o))

    def __gt__(self, o):
        return cmp_lt(SReal.of(o) - self)

    def __ge__(self, o):
        return cmp_le(SReal.of(o) - self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        try:
            o = SReal.of(o)
        except Unsupported:
            return NotImplemented
        return cmp_eq(self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else not_(r)

    def __hash__(self):
        c = self.c
        # equal keys must meet: their comparison decides
        return hash(c) if c is not None else 7919

    def __bool__(self):
        return bool(not_(cmp_eq(self)))

    def __float__(self):
        if p_isconst(self.p):
            return p_eval(self.p, None)
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        return self.__trunc__()

    def __trunc__(self):
        if p_isconst(self.p):
            c = self.c
            return int(c) if c is not None else int(p_eval(self.p, None))
        raise Unsupported('int() of a symbolic real')

    def __index__(self):
        raise TypeError('real used as an index')

    def __format__(self, spec):
        if p_isconst(self.p):
            return format(float(self), spec)
        return TEXT.fmt(self, spec) if TEXT is not None else '<sym>'

    def __round__(self, n=None):
        if p_isconst(self.p):
            return round(float(self), n)
        raise Unsupported('round of symbolic real')

    def __abs__(self):
        return sabs(self)

    def sqrt(self):
        return ssqrt(self)

    def item(self):
        return self

    def is_integer(self):
        c = self.c
        return c is not None and c.denominator == 1

    def __repr__(self):
        return TEXT.fmt(self, 'r') if TEXT is not None and not p_isconst(self.p) else p_str(self.p)

    def __str__(self):
        return TEXT.fmt(self, 'r') if TEXT is not None and not p_isconst(self.p) else p_str(self.p)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def eval(self, env):
        return p_eval(self.p, env)

    def z3(self):
        return p_z3(self.p)


def _inv_atom(q):
    a = atom('inv', p_key(q), (q,))
    return {((a.id, 1),): F1}


def p_str(p):
    if not p:
        return '0'
    out = []
    for m, k in list(p.items())[:12]:
        s = '*'.join(_ATOM_LIST[a].name + (f'^{e}' if e != 1 else '') for a, e in m)
        out.append(f'{k}*{s}' if s else str(k))
    if len(p) > 12:
        out.append(f'...({len(p)} terms)')
    return ' + '.join(out)


def rvar(name):
    """A free real variable (same name = same variable)."""
    a = atom('var', name, (), name)
    return SReal({((a.id, 1),): F1})


def rapp(fname, args):
    """Real-valued uninterpreted function of integer/any terms."""
    ks, es = [], []
    for x in args:
        if isinstance(x, SInt):
            k, e = x.k, x.e
        else:
            k, e = ('c', int(x)), z3.IntVal(int(x))
        ks.append(k)
        es.append(e)
    a = atom('app', (fname, tuple(ks)), (fname, tuple(es)),
             lambda: f'{fname}({",".join(str(e) for e in es)})')
    return SReal({((a.id, 1),): F1})


def relation(x, sq):
    """Declare x^2 = sq as a rewrite (x a single atom)."""
    (m, k), = x.p.items()
    (aid, e), = m
    assert k == 1 and e == 1
    _ATOM_LIST[aid].rel = sq.p
    _RED_CACHE.clear()


PI = None


def pi():
    global PI
    if PI is None:
        a = atom('pi', 'pi', (), 'pi')
        PI = SReal({((a.id, 1),): F1})
    return PI


def _squarefree(n):
    """n = s^2 * prod(primes): returns s, primes."""
    s, primes, d = 1, [], 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        if e % 2:
            primes.append(d)
        d += 1
    if n > 1:
        primes.append(n)
    return s, primes


def ssqrt(x):
    x = SReal.of(x)
    c = x.c
    if c is not None:
        if c < 0:
            CTX().definedness('sqrt of a negative number', SBool.of(False))
            raise PathAbort('sqrt')
        if c == 0:
            return SReal({})
        n = c.numerator * c.denominator
        if n > 10 ** 14:
            r = math.isqrt(n)
            if r * r == n:
                return SReal.const(Fraction(r, c.denominator))
            a = atom('sqrt', p_key(x.p), (x.p,))
            return SReal({((a.id, 1),): F1})
        s, primes = _squarefree(n)
        r = SReal.const(Fraction(s, c.denominator))
        for pr in primes:
            pp = {ONE: Fraction(pr)}
            a = atom('sqrt', p_key(pp), (pp,), f'sqrt{pr}')
            r = r * SReal({((a.id, 1),): F1})
        return r
    p = x.p
    if len(p) == 1:
        (m, k), = p.items()
        if all(e % 2 == 0 for _, e in m) and k > 0:
            h = SReal({tuple((a, e // 2) for a, e in m): F1})
            return ssqrt(SReal.const(k)) * sabs(h)
    CTX().definedness('sqrt argument is non-negative', SBool.of(True) if x.nn else cmp_le(-x))
    sq = poly_sqrt(p)
    if sq is not None:
        return sabs(SReal(sq))
    # pull out positive rational content that is a square
    a = atom('sqrt', p_key(p), (p,))
    return SReal({((a.id, 1),): F1})


def poly_sqrt(p):
    """r with r*r == p in normal form, or None (small polynomials only)."""
    if len(p) > 40:
        return None
    ms = sorted(p, key=lambda m: (-sum(e for _, e in m), m))
    m0 = ms[0]
    k0 = p[m0]
    cands = []
    for m in p:
        if all(e % 2 == 0 for _, e in m) and p[m] > 0:
            n, d = p[m].numerator, p[m].denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                cands.append((tuple((a, e // 2) for a, e in m), Fraction(rn, rd)))
    if not cands or len(cands) > 8:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=len(cands) - 1):
        r = {cands[0][0]: cands[0][1]}
        for (m, k), s in zip(cands[1:], signs):
            r[m] = k * s
        if p_mul(r, r) == p:
            return r
    return None


def _sgn_factor(p):
    """Split common sgn atoms: p = s * rest."""
    ms = list(p)
    if not ms:
        return (), p
    com = [a for a, e in ms[0] if _ATOM_LIST[a].kind == 'sgn']
    com = [a for a in com if all(any(b == a for b, _ in m) for m in ms)]
    if not com:
        return (), p
    q = {}
    for m, k in p.items():
        q[tuple((a, e) for a, e in m if a not in com)] = k
    return tuple(com), q


def sabs(x):
    if isinstance(x, SInt):
        return ite(x < 0, -x, x)
    x = SReal.of(x)
    p = x.p
    c = x.c
    if c is not None:
        return SReal.const(abs(c))
    if p_isconst(p):
        return x if p_sign(p) >= 0 else -x
    _, p = _sgn_factor(p)
    if len(p) == 1:
        (m, k), = p.items()
        out = SReal.const(abs(k))
        changed = False
        rest = []
        for a, e in m:
            A = _ATOM_LIST[a]
            if A.kind in ('sqrt', 'abs', 'arccos') or e % 2 == 0:
                out = out * SReal({((a, e),): F1})
                changed = True
            elif A.kind == 'max' and any(_is_abs_poly(q) for q in A.args):
                out = out * SReal({((a, e),): F1})
            elif a_isconst(a):
                v = SReal({((a, e),): F1})
                out = out * (v if p_sign(v.p) >= 0 else -v)
            else:
                rest.append((a, e))
        if not rest:
            return out
        # |xyz| = |x||y||z|
        for a, e in rest:
            A = _ATOM_LIST[a]
            if A.kind == 'inv':
                d = sabs(SReal(A.args[0]))
                out = out * d.inv_unchecked() ** e
            elif A.kind == 'ite':
                out = out * (ite(A.args[0], sabs(SReal(A.args[1])), sabs(SReal(A.args[2])))) ** e
            else:
                q = {((a, 1),): F1}
                b = atom('abs', p_key(q), (q,), f'|{A.name}|')
                out = out * SReal({((b.id, 1),): F1}) ** e
        return out
    # content
    lead_m = max(p)
    k = p[lead_m]
    q = p_scale(p, 1 / k)
    # common atoms
    monos = list(q)
    com = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        com = {a: min(e, d[a]) for a, e in com.items() if a in d}
    if com:
        cm = tuple(sorted(com.items()))
        neg = tuple((a, -e) for a, e in cm)
        q2 = {_mono_mul(m, neg)[0]: kk for m, kk in q.items()}
        return sabs(SReal({cm: F1})) * sabs(SReal(q2)) * abs(k)
    b = atom('abs', p_key(q), (q,))
    return SReal({((b.id, 1),): abs(k)})


def _is_abs_poly(q):
    if len(q) == 1:
        (m, k), = q.items()
        return k > 0 and all(_ATOM_LIST[a].kind in ('abs', 'sqrt') or e % 2 == 0 for a, e in m)
    return False


def _inv_unchecked(self):
    c = CTX()
    old = c.mute_def
    c.mute_def = True
    try:
        return self.inv()
    finally:
        c.mute_def = old


SReal.inv_unchecked = _inv_unchecked


def _abs_form(x):
    """|r| for the r or -r that is chosen by the sign of r"""
    ms = list(x.p)
    if not ms:
        return x
    for a, e in ms[0]:
        if e != 1 or _ATOM_LIST[a].kind != 'sgn' or not all((a, 1) in m for m in ms[1:]):
            continue
        c = _ATOM_LIST[a].args[0]
        if getattr(c, 'cmp', None) is None or c.cmp[0] not in ('lt', 'le'):
            continue
        r = {tuple(t for t in m if t[0] != a): k for m, k in x.p.items()}
        if _prop(r, c.cmp[1]):
            return sabs(SReal(r))
        if _prop(p_scale(r, Fraction(-1)), c.cmp[1]):
            return -sabs(SReal(r))
    return x


def smax(*xs):
    """n-ary maximum, flattened and ordered."""
    if xs and all(isinstance(x, (SInt, int)) and not isinstance(x, bool) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(r < x, x, r)
        return r
    flat = {}
    const = None
    for x in xs:
        x = _abs_form(SReal.of(x))
        parts = [x.p]
        if len(x.p) == 1:
            (m, k), = x.p.items()
            if k > 0 and len(m) == 1 and m[0][1] == 1 and _ATOM_LIST[m[0][0]].kind == 'max':
                parts = [p_scale(q, k) for q in _ATOM_LIST[m[0][0]].args]
        for q in parts:
            if p_isconst(q):
                if const is None or p_sign(p_add(q, const, Fraction(-1))) > 0:
                    const = q
            else:
                flat[p_key(q)] = q
    if const is not None:
        # max(0, |..|) = |..|
        if p_sign(const) <= 0 and any(_is_abs_poly(q) for q in flat.values()):
            const = None
        else:
            flat[p_key(const)] = const
    keys = sorted(flat)
    if len(keys) == 1:
        return SReal(flat[keys[0]])
    if const is not None and len(keys) == 2:
        # the minimum of a constant and a maximum is the maximum of minima
        q = next(v for k, v in flat.items() if v is not const)
        if len(q) == 1:
            (m, k), = q.items()
            if k < 0 and len(m) == 1 and m[0][1] == 1 and _ATOM_LIST[m[0][0]].kind == 'max' \
                    and not any(p_isconst(a) for a in _ATOM_LIST[m[0][0]].args):
                return -smax(*[-smax(SReal(const), SReal(p_scale(a, k))) for a in _ATOM_LIST[m[0][0]].args])
    # factor positive content so that max(2a,2b) = 2 max(a,b)
    lead = None
    for k in keys:
        q = flat[k]
        if q:
            lead = abs(q[max(q)])
            break
    if lead and lead != 1:
        sc = {}
        for k in keys:
            q = p_scale(flat[k], 1 / lead)
            sc[p_key(q)] = q
        flat, keys = sc, sorted(sc)
    else:
        lead = F1
    a = atom('max', tuple(keys), tuple(flat[k] for k in keys))
    return SReal({((a.id, 1),): lead})


def smin(*xs):
    if xs and all(isinstance(x, (SInt, int)) and not isinstance(x, bool) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x < r, x, r)
        return r
    return -smax(*[-SReal.of(x) for x in xs])


# ---- trigonometry -----------------------------------------------------------
_EXACT = None


def _exact_cos(r):
    """cos(r*pi) for the rational r, exactly, or None."""
    global _EXACT
    if _EXACT is None:
        s2 = ssqrt(2) / 2
        s3 = ssqrt(3) / 2
        h = SReal.const(Fraction(1, 2))
        _EXACT = {Fraction(0): SReal.const(1), Fraction(1, 6): s3, Fraction(1, 4): s2,
                  Fraction(1, 3): h, Fraction(1, 2): SReal.const(0)}
        # 15 degree values
        s6 = ssqrt(6)
        _EXACT[Fraction(1, 12)] = (s6 + ssqrt(2)) / 4
        _EXACT[Fraction(5, 12)] = (s6 - ssqrt(2)) / 4
    r = r % 2
    if r > 1:
        r = 2 - r
    sign = 1
    if r > Fraction(1, 2):
        r, sign = 1 - r, -1
    v = _EXACT.get(r)
    if v is None:
        return None
    return v * sign


def trig(x):
    """(cos x, sin x)"""
    x = SReal.of(x)
    key = x.key()
    got = _TRIG.get(key)
    if got is not None:
        return got
    terms = []
    r = F0
    rest = {}
    piid = next(iter(pi().p))[0][0]
    for m, k in x.p.items():
        if len(m) == 1 and m[0][1] == 1:
            if m[0][0] == piid:
                r += k
                continue
            if k.denominator == 1:
                terms.append((m[0][0], int(k)))
                continue
        rest[m] = k
    # start with the pi part
    ec, es = _exact_cos(r), _exact_cos(r - Fraction(1, 2))
    if ec is None:
        rest[((piid, 1),)] = r
        c, s = SReal.const(1), SReal.const(0)
    else:
        c, s = ec, es
    for aid, n in terms:
        c1, s1 = _trig_atom(aid)
        cn, sn = SReal.const(1), SReal.const(0)
        for _ in range(abs(n)):
            cn, sn = cn * c1 - sn * s1, sn * c1 + cn * s1
        if n < 0:
            sn = -sn
        c, s = c * cn - s * sn, s * cn + c * sn
    if rest:
        # generic remainder, sign canonical; arccos(x)/2
        lead = rest[max(rest)]
        sg = 1 if lead > 0 else -1
        q = p_scale(rest, Fraction(sg))
        cr = sr = None
        if len(q) == 1:
            (m, k), = q.items()
            if len(m) == 1 and m[0][1] == 1 and k == Fraction(1, 2) \
                    and _ATOM_LIST[m[0][0]].kind == 'arccos':
                a = SReal(_ATOM_LIST[m[0][0]].args[0])
                cr, sr = ssqrt((1 + a) / 2), ssqrt((1 - a) / 2)
        if cr is None:
            kq = p_key(q)
            ca = atom('cos', kq, (q, kq), f'cos({p_str(q)})')
            sa = atom('sin', kq, (q, kq), f'sin({p_str(q)})')
            cr, sr = SReal({((ca.id, 1),): F1}), SReal({((sa.id, 1),): F1})
        sr = sr * sg
        c, s = c * cr - s * sr, s * cr + c * sr
    _TRIG[key] = (c, s)
    return c, s


_TRIG = {}


def _trig_atom(aid):
    A = _ATOM_LIST[aid]
    if A.kind == 'arccos':
        x = SReal(A.args[0])
        return x, ssqrt(1 - x * x)
    if A.kind == 'atan2':
        y, x = SReal(A.args[0]), SReal(A.args[1])
        r = ssqrt(x * x + y * y)
        return x / r, y / r
    q = {((aid, 1),): F1}
    kq = p_key(q)
    ca = atom('cos', kq, (q, kq), f'cos({A.name})')
    sa = atom('sin', kq, (q, kq), f'sin({A.name})')
    return SReal({((ca.id, 1),): F1}), SReal({((sa.id, 1),): F1})


def scos(x):
    return trig(x)[0]


def ssin(x):
    return trig(x)[1]


def sarccos(x):
    x = SReal.of(x)
    if p_isconst(x.p):
        for r in (0, Fraction(1, 6), Fraction(1, 4), Fraction(1, 3), Fraction(1, 2),
                  Fraction(2, 3), Fraction(3, 4), Fraction(5, 6), 1):
            if not (x - _exact_cos(Fraction(r))).p:
                return pi() * Fraction(r)
    CTX().definedness('arccos argument within [-1, 1]', and_(x >= -1, x <= 1))
    a = atom('arccos', p_key(x.p), (x.p,))
    return SReal({((a.id, 1),): F1})


def sarctan2(y, x):
    y, x = SReal.of(y), SReal.of(x)
    if not y.p and p_isconst(x.p):
        return SReal({}) if p_sign(x.p) >= 0 else pi()
    # both scaled by a positive constant: normalise on content of x (or y)
    ref = x.p or y.p
    k = abs(ref[max(ref)])
    y, x = y / k, x / k
    a = atom('atan2', (p_key(y.p), p_key(x.p)), (y.p, x.p))
    return SReal({((a.id, 1),): F1})


# --------------------------------------------------------------------------
# SBool
# --------------------------------------------------------------------------
class SBool(SVal):
    __slots__ = ('e', 'k', 'cmp')

    def __init__(self, e, cmp=None):
        k, e = zkey(e)
        self.e = e
        self.k = ('B', k)
        self.cmp = cmp

    @staticmethod
    def of(x):
        if isinstance(x, SBool):
            return x
        if isinstance(x, (bool, int)) or type(x).__name__ == 'bool_':
            return SBool(z3.BoolVal(bool(x)))
        if isinstance(x, SReal) or isinstance(x, SInt):
            return SBool.of(x != 0)
        if z3.is_bool(x):
            return SBool(x)
        if getattr(x, '_dv_array', False) and x.shape == ():
            return SBool.of(x.get(()))
        raise Unsupported(f'cannot use {type(x).__name__} as a boolean')

    def key(self):
        return self.k

    def const(self):
        if z3.is_true(self.e):
            return True
        if z3.is_false(self.e):
            return False
        return None

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c
        return CTX().decide(self)

    def __and__(self, o):
        if getattr(o, '_dv_array', False):
            return NotImplemented
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if getattr(o, '_dv_array', False):
            return NotImplemented
        return or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.e, SBool.of(o).e))

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk(SBool(self.e == SBool.of(o).e))
        return SReal.of(self) == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return 7919

    # arithmetic on booleans
    def __mul__(self, o):
        return SReal.of(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SReal.of(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return SReal.of(self) - o

    def __rsub__(self, o):
        return o - SReal.of(self)

    def __repr__(self):
        s = str(self.e)
        return s if len(s) < 200 else s[:200] + '...'

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def eval(self, env):
        if self.cmp is not None:
            op, p = self.cmp
            v = p_eval(p, env)
            return v < 0 if op == 'lt' else v <= 0 if op == 'le' else abs(v) < 1e-9
        c = self.const()
        if c is not None:
            return c
        raise NoValue('boolean')


def mk(b):
    """Python bool where the boolean is constant."""
    if isinstance(b, SBool):
        c = b.const()
        return b if c is None else c
    return b


def and_(*xs):
    es = []
    for x in xs:
        x = mk(x)
        if x is False:
            return False
        if x is True:
            continue
        es.append(SBool.of(x).e)
    if not es:
        return True
    return mk(SBool(z3.And(*es))) if len(es) > 1 else mk(SBool.of(xs[-1]) if len(xs) == 1 else SBool(es[0]))


def or_(*xs):
    es = []
    for x in xs:
        x = mk(x)
        if x is True:
            return True
        if x is False:
            continue
        es.append(SBool.of(x).e)
    if not es:
        return False
    return mk(SBool(z3.Or(*es)) if len(es) > 1 else SBool(es[0]))


def not_(x):
    x = mk(x)
    if isinstance(x, bool):
        return not x
    if isinstance(x, SBool):
        cmp = None
        if x.cmp and x.cmp[0] in ('lt', 'le'):
            cmp = ('le' if x.cmp[0] == 'lt' else 'lt', p_scale(x.cmp[1], Fraction(-1)))
        return mk(SBool(z3.Not(x.e), cmp))
    return not x


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return mk(SBool(SBool.of(a).e == SBool.of(b).e))


def _norm_pos(p):
    k = abs(p[max(p)])
    return p_scale(p, 1 / k) if k != 1 else p


def cmp_lt(x):
    """x < 0"""
    x = SReal.of(x)
    if p_isconst(x.p):
        return p_sign(x.p) < 0
    if _nonneg(x.p):
        return False
    p = _norm_pos(x.p)
    return mk(SBool(p_z3(p) < 0, ('lt', p)))


def cmp_le(x):
    """x <= 0"""
    x = SReal.of(x)
    if p_isconst(x.p):
        return p_sign(x.p) <= 0
    if _nonneg(p_scale(x.p, Fraction(-1))):
        return True
    p = _norm_pos(x.p)
    return mk(SBool(p_z3(p) <= 0, ('le', p)))


def _nonneg(p):
    """Syntactically a sum of squares, absolute values, roots (sound)."""
    for m, k in p.items():
        if k < 0:
            return False
        for a, e in m:
            A = _ATOM_LIST[a]
            if e % 2 == 0 or A.kind in ('abs', 'sqrt', 'arccos', 'pi'):
                continue
            if A.kind == 'max' and any(_is_abs_poly(q) for q in A.args):
                continue
            return False
    return True


def cmp_eq(x):
    x = SReal.of(x)
    if p_isconst(x.p):
        return p_sign(x.p) == 0
    p = _norm_pos(x.p)
    if p[max(p)] < 0:
        p = p_scale(p, Fraction(-1))
    return mk(SBool(p_z3(p) == 0, ('eq', p)))


def ne(a, b):
    return not_(cmp_eq(SReal.of(a) - SReal.of(b)))


# --------------------------------------------------------------------------
# SInt
# --------------------------------------------------------------------------
def _floordiv(a, b):
    """q with a = b q + r, r between 0 and b"""
    c = CTX()
    z = getattr(c, '_floordivs', None)
    if z is None:
        z = c._floordivs = {}
    key = (a.e.get_id(), b.e.get_id())
    if key in z:
        return z[key][0]
    I = z3.IntSort()
    q = SInt(z3.Function('quo', I, I, I)(a.e, b.e))
    r = SInt(a.e - b.e * q.e)
    c.define(SBool(z3.Implies(z3.And(a.e >= 0, b.e > 0), q.e >= 0)))
    c.define(SBool(z3.If(b.e > 0, z3.And(r.e >= 0, r.e < b.e), z3.And(r.e <= 0, r.e > b.e))))
    z[key] = (q, a, b)
    return q


class SInt(SVal):
    __slots__ = ('e', 'k')

    def __init__(self, e):
        k, e = zkey(e)
        self.e = e
        self.k = ('c', e.as_long()) if z3.is_int_value(e) else ('I', k)

    def key(self):
        return self.k

    @staticmethod
    def mk(e):
        e = z3.simplify(e, som=True)
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)

    @staticmethod
    def ex(x):
        if isinstance(x, SInt):
            return x.e
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, SBool):
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        if hasattr(x, 'item') and not getattr(x, '_dv_array', False):
            return z3.IntVal(int(x))
        return None

    def to_real(self):
        return _int_to_real(self.e)

    def _op(self, o, f, swap=False):
        if isinstance(o, (float, SReal, Fraction)):
            r = self.to_real()
            return None, r
        e = SInt.ex(o)
        if e is None:
            return NotImplemented, None
        return (SInt.mk(f(e, self.e) if swap else f(self.e, e))), None

    def __add__(self, o):
        v, r = self._op(o, lambda a, b: a + b)
        return r + o if r is not None else v
    __radd__ = __add__

    def __sub__(self, o):
        v, r = self._op(o, lambda a, b: a - b)
        return r - o if r is not None else v

    def __rsub__(self, o):
        v, r = self._op(o, lambda a, b: a - b, True)
        return o - r if r is not None else v

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        v, r = self._op(o, lambda a, b: a * b)
        return r * o if r is not None else v
    __rmul__ = __mul__

    def __neg__(self):
        return SInt.mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self < 0, -self, self)

    def __floordiv__(self, o):
        if isinstance(o, (SReal, float)):
            raise Unsupported('floor division by a real')
        CTX().definedness('integer divisor is non-zero', SBool.of(o != 0))
        if isinstance(o, int) and o > 0:
            return SInt.mk(self.e / o)
        return _floordiv(self, SInt.of(o) if hasattr(SInt, 'of') else SInt(SInt.ex(o)))

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SInt.mk(self.e % o)
        o2 = SInt(SInt.ex(o))
        CTX().definedness('integer divisor is non-zero', SBool.of(o2 != 0))
        return self - o2 * _floordiv(self, o2)

    def __truediv__(self, o):
        return self.to_real() / o

    def __rtruediv__(self, o):
        return SReal.of(o) / self.to_real()

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        return self.to_real() ** n

    def _cmp(self, o, f):
        if isinstance(o, (float, SReal, Fraction)):
            return None
        e = SInt.ex(o)
        if e is None:
            return NotImplemented
        return mk(SBool(f(self.e, e)))

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return self.to_real() < o if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return self.to_real() <= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return self.to_real() > o if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return self.to_real() >= o if r is None else r

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return self.to_real() == o if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else not_(r)

    def __hash__(self):
        return 7919

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported('a symbolic integer was used where Python needs a concrete one')

    def __int__(self):
        raise Unsupported('int() of a symbolic integer (use the facade)')

    def __float__(self):
        raise Unsupported('float() of a symbolic integer')

    def __repr__(self):
        return TEXT.fmt(self, '') if TEXT is not None else str(self.e)

    def __format__(self, spec):
        return TEXT.fmt(self, spec) if TEXT is not None else str(self.e)

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


def ivar(name):
    return SInt(z3.Int(name))


def flag(x, name, default=None):
    """marker attribute of the engine's own objects; classes of the code under check with __getattr__ are not asked"""
    t = type(x)
    if t.__module__.startswith('defdap') or '_plain' in t.__dict__:
        return default
    for c in t.__mro__[1:-1]:
        if c.__module__.startswith('defdap') and '__getattr__' in c.__dict__:
            return default
    return getattr(x, name, default)


def _int_to_real(e, depth=0):
    """conversion is a ring homomorphism: sums and products of integers become sums and products of reals"""
    if z3.is_int_value(e):
        return SReal.const(e.as_long())
    if depth < 12:
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            xs = [_int_to_real(c, depth + 1) for c in e.children()]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if k == z3.Z3_OP_ADD else (r - x if k == z3.Z3_OP_SUB else r * x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -_int_to_real(e.children()[0], depth + 1)
    v = SInt(e)
    a = atom('toreal', v.k, (e,), f'{e}')
    return SReal({((a.id, 1),): F1})


def iapp(fname, args):
    es = [SInt.ex(a) for a in args]
    f = z3.Function(fname, *([z3.IntSort()] * len(es)), z3.IntSort())
    return SInt(f(*es))


def bapp(fname, args):
    es = [SInt.ex(a) for a in args]
    f = z3.Function(fname, *([z3.IntSort()] * len(es)), z3.BoolSort())
    return SBool(f(*es))


def bvar(name):
    return SBool(z3.Bool(name))


# --------------------------------------------------------------------------
# ite
# --------------------------------------------------------------------------
# text with symbolic numbers in it (text.py), if the contract uses it
TEXT = None


def vkey(v):
    if hasattr(v, 'key') and not isinstance(v, type):
        return v.key()
    if isinstance(v, tuple):
        return ('T',) + tuple(vkey(x) for x in v)
    if isinstance(v, float):
        return SReal.const(v).key()
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (int,)):
        return ('c', v)
    if v is None or isinstance(v, str):
        return ('s', v)
    if is_code_obj(v):
        try:
            return ('O', type(v).__name__) + tuple((n, vkey(x)) for n, x in sorted(members(v).items()))
        except Exception:
            return ('o', id(v))
    return ('o', id(v))


def ite(c, a, b):
    c = mk(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(c, (int,)):
        return a if c else b
    if a is b or vkey(a) == vkey(b):
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mk(SBool(z3.If(c.e, SBool.of(a).e, SBool.of(b).e)))
    ia = isinstance(a, SInt) or (isinstance(a, int) and not isinstance(a, bool))
    ib = isinstance(b, SInt) or (isinstance(b, int) and not isinstance(b, bool))
    if ia and ib:
        return SInt.mk(z3.If(c.e, SInt.ex(a), SInt.ex(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if TEXT is not None and isinstance(a, str) and isinstance(b, str):
        return TEXT.ite(c, a, b)
    num = (SReal, SInt, SBool, int, float, Fraction)
    if isinstance(a, num) and isinstance(b, num):
        return _ite_real(c, SReal.of(a), SReal.of(b))
    hook = getattr(a, '_dv_ite', None) or getattr(b, '_dv_ite', None)
    if hook is not None:
        return hook(c, a, b)
    if type(a) is type(b) and is_code_obj(a):
        ma, mb = members(a), members(b)
        if set(ma) == set(mb):
            return rebuild(a, {n: ite(c, ma[n], mb[n]) for n in ma})
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


def is_code_obj(v):
    """an instance of a class of the code under verification"""
    return str(getattr(type(v), '__module__', '')).startswith('defdap') and not isinstance(v, type)


def members(v):
    out = {}
    for k in type(v).__mro__:
        for n in getattr(k, '__slots__', ()):
            if hasattr(v, n):
                out[n] = getattr(v, n)
    out.update(getattr(v, '__dict__', {}))
    return out


def rebuild(v, ms):
    o = object.__new__(type(v))
    for n, x in ms.items():
        object.__setattr__(o, n, x)
    return o


def _ite_real(c, a, b):
    if not p_add(a.p, b.p):
        return _sgn(c) * b                      # a == -b
    # recognise maxima: cond is (x<0) with a-b = -k*x  (k>0): ite(b<a, a, b)
    if c.cmp is not None and c.cmp[0] in ('lt', 'le'):
        d = p_add(b.p, a.p, Fraction(-1))       # b - a
        x = c.cmp[1]
        if d:
            if _prop(d, x):
                return smax(a, b)
            if _prop(p_scale(d, Fraction(-1)), x):
                return smin(a, b)
    # canonical: share common part  b + [c](a-b) would hide structure; keep
    ck = c.k
    at = atom('ite', (ck, p_key(a.p), p_key(b.p)), (c, a.p, b.p))
    return SReal({((at.id, 1),): F1})


def _prop(d, x):
    """d == k*x with k>0"""
    m = max(d)
    if m != max(x):
        return False
    k = d[m] / x[m]
    return k > 0 and p_scale(x, k) == d


def _sgn(c):
    """-1 where c, else 1."""
    at = atom('sgn', c.k, (c,))
    return SReal({((at.id, 1),): F1})


# --------------------------------------------------------------------------
# translation to z3
# --------------------------------------------------------------------------
_Z3A = {}


def fconst(k):
    return z3.RatVal(k.numerator, k.denominator)


def a_z3(aid):
    e = _Z3A.get(aid)
    if e is not None:
        return e
    a = _ATOM_LIST[aid]
    k = a.kind
    R = z3.RealSort()
    if k in ('var',):
        e = z3.Real(str(a.name))
    elif k == 'pi':
        e = z3.Real('pi!')
    elif k == 'app':
        f = z3.Function(a.args[0], *([z3.IntSort()] * len(a.args[1])), R)
        e = f(*a.args[1])
    elif k == 'toreal':
        e = z3.ToReal(a.args[0])
    elif k == 'abs':
        x = p_z3(a.args[0])
        e = z3.If(x >= 0, x, -x)
    elif k == 'max':
        e = p_z3(a.args[0])
        for q in a.args[1:]:
            x = p_z3(q)
            e = z3.If(e >= x, e, x)
    elif k == 'ite':
        e = z3.If(a.args[0].e, p_z3(a.args[1]), p_z3(a.args[2]))
    elif k == 'sgn':
        e = z3.If(a.args[0].e, z3.RealVal(-1), z3.RealVal(1))
    elif k in ('sqrt', 'inv', 'cos', 'sin', 'arccos'):
        f = z3.Function('f!' + k, R, R)
        e = f(p_z3(a.args[0]))
    elif k == 'atan2':
        f = z3.Function('f!atan2', R, R, R)
        e = f(p_z3(a.args[0]), p_z3(a.args[1]))
    else:
        raise Unsupported('z3 translation of ' + k)
    if k not in ('var', 'pi'):
        e = z3.simplify(e, som=True, arith_lhs=True)
    _Z3A[aid] = e
    return e


_PZ = {}


def p_z3(p):
    k = p_key(p)
    e = _PZ.get(k)
    if e is not None:
        return e
    ts = []
    for m, c in k:
        fs = []
        if c != 1 or not m:
            fs.append(fconst(c))
        for a, n in m:
            x = a_z3(a)
            if n < 0:
                raise Unsupported('negative exponent')
            fs.extend([x] * n)
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs) if len(fs) > 1 else fs[0])
    e = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)
    _PZ[k] = e
    return e


def atoms_in_poly(p, seen):
    for m in p:
        for a, _ in m:
            if a not in seen:
                seen.add(a)
                A = _ATOM_LIST[a]
                for q in A.args:
                    if isinstance(q, dict):
                        atoms_in_poly(q, seen)
    return seen


# the z3 term -> atom map, to find the atoms inside an arbitrary formula
def atoms_in_z3(es):
    ids = {}
    for aid, e in list(_Z3A.items()):
        ids.setdefault(e.get_id(), []).append(aid)
    seen, out, stack = set(), set(), list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        for aid in ids.get(i, ()):
            out.add(aid)
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return out


def has_free_vars(e):
    """Does a z3 expression contain de-Bruijn variables?"""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def axioms_for(es):
    """Facts about the function atoms that occur in the formulas."""
    ax = []
    todo = atoms_in_z3(es)
    done = set()
    by = {}
    while todo:
        aid = todo.pop()
        if aid in done:
            continue
        done.add(aid)
        a = _ATOM_LIST[aid]
        k = a.kind
        new = []
        x = _Z3A.get(aid)
        if x is None:
            x = a_z3(aid)
        if k == 'sqrt':
            y = p_z3(a.args[0])
            new += [x >= 0, z3.Implies(y >= 0, x * x == y)]
        elif k == 'inv':
            y = p_z3(a.args[0])
            new += [z3.Implies(y != 0, x * y == 1)]
        elif k == 'pi':
            new += [x > z3.RatVal(314159, 100000), x < z3.RatVal(314160, 100000)]
        elif k in ('cos', 'sin'):
            o = atom('sin' if k == 'cos' else 'cos', a.args[1], a.args)
            y = a_z3(o.id)
            new += [x * x + y * y == 1, x <= 1, x >= -1]
        elif k == 'arccos':
            y = p_z3(a.args[0])
            pz = pi().z3()
            new += [x >= 0, x <= pz, z3.Implies(y == 1, x == 0), z3.Implies(y < 1, x > 0),
                    z3.Implies(y == -1, x == pz), z3.Implies(y == 0, x == pz / 2),
                    z3.Implies(y > 0, x < pz / 2), z3.Implies(y < 0, x > pz / 2)]
            for o in by.get('arccos', ()):
                oy, ox = p_z3(_ATOM_LIST[o].args[0]), a_z3(o)
                new += [z3.Implies(y < oy, x > ox), z3.Implies(y > oy, x < ox),
                        z3.Implies(y == -oy, x == pz - ox)]
        elif k == 'atan2':
            yy, xx = p_z3(a.args[0]), p_z3(a.args[1])
            pz = pi().z3()
            new += [x > -pz, x <= pz,
                    z3.Implies(yy > 0, z3.And(x > 0, x < pz)),
                    z3.Implies(yy < 0, z3.And(x < 0, x > -pz)),
                    z3.Implies(z3.And(yy == 0, xx >= 0), x == 0),
                    z3.Implies(z3.And(yy == 0, xx < 0), x == pz),
                    z3.Implies(z3.And(xx == 0, yy > 0), x == pz / 2),
                    z3.Implies(z3.And(xx == 0, yy < 0), x == -pz / 2),
                    z3.Implies(z3.And(xx > 0, yy > 0), x < pz / 2),
                    z3.Implies(z3.And(xx < 0, yy > 0), x > pz / 2),
                    z3.Implies(z3.And(xx > 0, yy < 0), x > -pz / 2),
                    z3.Implies(z3.And(xx < 0, yy < 0), x < -pz / 2)]
        if a.rel is not None:
            new += [x * x == p_z3(a.rel)]
        by.setdefault(k, []).append(aid)
        new = [n for n in new if not has_free_vars(n)]
        ax += new
        todo |= atoms_in_z3(new) - done
    return ax


# --------------------------------------------------------------------------
# substitution of integer variables
# --------------------------------------------------------------------------
def subst(v, pairs):
    """Replace z3 integer constants by terms inside a value."""
    zp = [(a.e if isinstance(a, SInt) else a, SInt.ex(b)) for a, b in pairs]
    return _Subst(zp).val(v)


# sums, maxima and minima over symbolic ranges by name (npf.Red)
REDS = {}


class _Subst:
    def __init__(self, zp):
        self.zp = zp
        self.ac = {}
        self.names = None

    def red(self, name):
        """the reduction of that name if it depends on what is replaced"""
        r = REDS.get(name)
        if r is None:
            return None
        if self.names is None:
            self.names = {str(a) for a, _ in self.zp}
        return r if not self.names.isdisjoint(r.syms) else None

    def val(self, v):
        if isinstance(v, SReal):
            return SReal(self.poly(v.p))
        if isinstance(v, SInt):
            return SInt.mk(self.sub(v.e))
        if isinstance(v, SBool):
            return self.boolean(v)
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, str):
            return TEXT.subst(v, self) if TEXT is not None else v
        if v is None or isinstance(v, (int, float, bool, Fraction)):
            return v
        h = getattr(v, '_dv_subst', None)
        if h is not None:
            return h(self)
        if type(v) in (list,) or type(v).__name__ == 'DvList':
            return type(v)([self.val(x) for x in v])
        if is_code_obj(v):
            return rebuild(v, {n: self.val(x) for n, x in members(v).items()})
        raise Unsupported(f'substitution in {type(v).__name__}')

    def sub(self, e):
        r = z3.substitute(e, *self.zp)
        if REDS:
            from .loops import z3names
            more = []
            for n in z3names(e):
                q = self.red(n)
                if q is not None:
                    more.append((z3.Int(n), SInt.ex(q.subst(self.zp))))
            if more:
                r = z3.substitute(r, *more)
        return _fold_unravel(r)

    def boolean(self, v):
        if v.cmp is not None:
            op, p = v.cmp
            x = SReal(self.poly(p))
            return cmp_lt(x) if op == 'lt' else cmp_le(x) if op == 'le' else cmp_eq(x)
        return mk(SBool(self.sub(v.e)))

    def poly(self, p):
        r = {}
        for m, k in p.items():
            t = {ONE: k}
            for a, e in m:
                x = self.atom(a)
                for _ in range(e):
                    t = p_mul(t, x)
            r = p_add(r, t)
        return r

    def atom(self, aid):
        got = self.ac.get(aid)
        if got is not None:
            return got
        a = _ATOM_LIST[aid]
        k = a.kind
        if k in ('var', 'pi'):
            q = self.red(a.name) if k == 'var' else None
            r = {((aid, 1),): F1} if q is None else SReal.of(q.subst(self.zp)).p
        elif k == 'app':
            r = rapp(a.args[0], [SInt.mk(self.sub(e)) for e in a.args[1]]).p
        elif k == 'toreal':
            v = SInt.mk(self.sub(a.args[0]))
            r = SReal.of(v).p
        elif k == 'ite':
            r = SReal.of(ite(_here(self.boolean(a.args[0])), SReal(self.poly(a.args[1])),
                             SReal(self.poly(a.args[2])))).p
        elif k == 'sgn':
            r = SReal.of(ite(_here(self.boolean(a.args[0])), SReal.const(-1), SReal.const(1))).p
        else:
            c = CTX()
            old, c.mute_def = c.mute_def, True
            try:
                xs = [SReal(self.poly(q)) for q in a.args if isinstance(q, dict)]
                if k == 'sqrt':
                    v = ssqrt(xs[0])
                elif k == 'inv':
                    v = xs[0].inv()
                elif k == 'abs':
                    v = sabs(xs[0])
                elif k == 'cos':
                    v = scos(xs[0])
                elif k == 'sin':
                    v = ssin(xs[0])
                elif k == 'arccos':
                    v = sarccos(xs[0])
                elif k == 'atan2':
                    v = sarctan2(*xs)
                elif k == 'max':
                    v = smax(*xs)
                else:
                    raise Unsupported('substitution in ' + k)
            finally:
                c.mute_def = old
            r = v.p
        self.ac[aid] = r
        return r


_UNR = {}


def _unravels(e):
    """applications of the inverse of row-major numbering in a term"""
    got = _UNR.get(e.get_id())
    if got is None:
        out, stack, seen = [], [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('unravel'):
                out.append(x)
            stack.extend(x.children())
        got = _UNR[e.get_id()] = (out, e)
    return got[0]


def _fold_unravel(e):
    """undo numbering where the number is known to come from indices"""
    apps = _unravels(e)
    if not apps:
        return e
    from .arr import unravel
    pairs = []
    for x in apps:
        if has_free_vars(x):
            continue
        n, m = x.decl().name()[7:].split('.')
        k, *ds = [SInt.mk(c) for c in x.children()]
        v = unravel(k, tuple(ds))[int(m)]
        pairs.append((x, SInt.ex(v)))
    return z3.substitute(e, *pairs) if pairs else e


def _here(c):
    """a condition, simplified by what is known here"""
    from .arr import simp
    return simp(c)


# --------------------------------------------------------------------------
# the current context (set by explore.py)
# --------------------------------------------------------------------------
class _NoCtx:
    mute_def = True

    def definedness(self, name, cond):
        pass

    def decide(self, sb):
        raise Unsupported('symbolic branch outside an exploration')

    def entails(self, c):
        return False


_CTX = [_NoCtx()]


def CTX():
    return _CTX[-1]
