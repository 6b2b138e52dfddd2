"""Lists of distinct pixels, as grains have them: an array (n, 2) of x, y.

`rank(x, y)` is the position of a pixel in the list; it exists because the
points are distinct, and gives writes through the list their inverse."""
import z3

from .arr import SArr
from .terms import SInt, CTX, and_, mk, implies
from . import terms as T


class Points:
    def __init__(self, n, w, h, name, lead=(), owner=None):
        """lead: extra integer arguments (number of the list, for families)"""
        c = CTX()
        self.n, self.w, self.h, self.lead, self.owner = n, w, h, tuple(lead), owner
        I = z3.IntSort()
        L = [I] * len(self.lead)
        self.fx = z3.Function(f'{name}.x', *L, I, I)
        self.fy = z3.Function(f'{name}.y', *L, I, I)
        self.fr = z3.Function(f'{name}.rank', *L, I, I, I)
        k = z3.Int(f'{name}.k')
        l = [SInt.ex(x) for x in self.lead]
        x, y = self.fx(*l, k), self.fy(*l, k)
        inside = z3.And(k >= 0, k < SInt.ex(n))
        own = True if owner is None else owner(x, y) == l[0]
        c.define(z3.ForAll([k], z3.Implies(inside, z3.And(x >= 0, x < SInt.ex(w), y >= 0, y < SInt.ex(h), self.fr(*l, x, y) == k, own)),
                           patterns=[x, y]))
        c.inverses = getattr(c, 'inverses', []) + [self]

    def xy(self, k):
        l = [SInt.ex(v) for v in self.lead]
        e = SInt.ex(k)
        self.instance(l, e)
        return SInt(self.fx(*l, e)), SInt(self.fy(*l, e))

    def instance(self, l, e):
        c = CTX()
        key = ('point', self.fx.name(), tuple(x.get_id() for x in l), e.get_id())
        if key in c.deftags or T.has_free_vars(e):
            return
        c.deftags.add(key)
        self.keep = getattr(self, 'keep', []) + [e]
        x, y = self.fx(*l, e), self.fy(*l, e)
        c.define(z3.Implies(z3.And(e >= 0, e < SInt.ex(self.n)),
                            z3.And(x >= 0, x < SInt.ex(self.w), y >= 0, y < SInt.ex(self.h), self.fr(*l, x, y) == e,
                                   True if self.owner is None else self.owner(x, y) == l[0])))
        c.positions = {**getattr(c, 'positions', {}), e.get_id(): e}
        for f in getattr(c, 'extrema', ()):
            c.define(f(e))

    def rank(self, x, y):
        return SInt(self.fr(*[SInt.ex(v) for v in self.lead], SInt.ex(x), SInt.ex(y)))

    def member(self, x, y):
        r = self.rank(x, y)
        px, py = self.xy(r)
        return and_(r >= 0, r < self.n, mk(px == x), mk(py == y))

    def array(self):
        return SArr.fn((self.n, 2), lambda i: (self.xy(i[0])[i[1]] if type(i[1]) is int else T.ite(mk(i[1] == 0), *self.xy(i[0]))), 'i')

    def solve(self, es, k, mentions):
        """positions and offsets so that es[pos] = coordinate(k) + offset, or None"""
        out = []
        for f in self.xy(k):
            for pos, e in es:
                d = SInt.mk(SInt.ex(e) - f.e)
                if isinstance(d, int) or not mentions(d, [k]):
                    out.append((pos, d))
                    break
            else:
                return None
        return out

    def inverse(self, sol, idx):
        return self.rank(*[idx[p] - d for p, d in sol])

    def lead_inverse(self, sol, k, mentions):
        """k from a pixel, where the list is number lead(k) of its family"""
        if self.owner is None:
            return None
        own = lambda idx: SInt(self.owner(*[SInt.ex(idx[p] - d) for p, d in sol]))
        e = self.lead[0]
        d = SInt.mk(SInt.ex(e) - k.e)
        if isinstance(d, int) or not mentions(d, [k]):
            return lambda idx: own(idx) - d
        for q in CTX().inverses:
            r = q.solve([(0, e)], k, mentions) if isinstance(q, Distinct) else None
            if r is not None:
                return lambda idx: q.inverse(r, (own(idx),))
        return None


class Distinct:
    """a list of n distinct integers, each at least lo and less than hi"""

    def __init__(self, n, name, lo, hi):
        c = CTX()
        self.n = n
        I = z3.IntSort()
        self.f, self.fr = z3.Function(name, I, I), z3.Function(f'{name}.rank', I, I)
        k = z3.Int(f'{name}.k')
        v = self.f(k)
        self.fact = lambda k, v: z3.Implies(z3.And(k >= 0, k < SInt.ex(n)), z3.And(v >= SInt.ex(lo), v < SInt.ex(hi), self.fr(v) == k))
        c.define(z3.ForAll([k], self.fact(k, v), patterns=[v]))
        c.inverses = getattr(c, 'inverses', []) + [self]

    def at(self, k):
        e = SInt.ex(k)
        c = CTX()
        key = ('distinct', self.f.name(), e.get_id())
        if key not in c.deftags and not T.has_free_vars(e):
            c.deftags.add(key)
            self.keep = getattr(self, 'keep', []) + [e]
            c.define(self.fact(e, self.f(e)))
        return SInt(self.f(e))

    def rank(self, v):
        return SInt(self.fr(SInt.ex(v)))

    def array(self):
        return SArr.fn((self.n,), lambda i: self.at(i[0]), 'i')

    def solve(self, es, k, mentions):
        f = self.f(k.e)
        for pos, e in es:
            d = SInt.mk(SInt.ex(e) - f)
            if isinstance(d, int) or not mentions(d, [k]):
                return [(pos, d)]
        return None

    def inverse(self, sol, idx):
        (p, d), = sol
        return self.rank(idx[p] - d)


class Family:
    """lists of pixels, none of which is in two of them"""

    def __init__(self, N, w, h, name):
        I = z3.IntSort()
        self.N, self.w, self.h, self.name = N, w, h, name
        self.owner = z3.Function(f'{name}.owner', I, I, I)
        self.length = z3.Function(f'{name}.len', I, I)

    def of(self, i):
        n = SInt(self.length(SInt.ex(i)))
        CTX().define(n >= 1)
        return Points(n, self.w, self.h, self.name, (i,), self.owner)

    def member(self, x, y):
        """the number of the list the pixel is in, and whether it is in one"""
        o = SInt(self.owner(SInt.ex(x), SInt.ex(y)))
        return o, and_(o >= 0, o < self.N, self.of(o).member(x, y))
