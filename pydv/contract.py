"""What contract modules use."""
import functools
import z3

from . import shadow
from . import terms as T
from . import npf as np
from . import loops
from .arr import SArr, Buf, generic_index
from .seqs import SSeq, PSet
from .explore import Explorer
from .terms import (SReal, SInt, SBool, rvar, rapp, ivar, iapp, bvar, bapp, and_, or_, not_, implies, iff, mk, ite,
                    relation, CTX, Unsupported, PathAbort)

_S = None


def S():
    """The shadow of /repo's current source (one per process)."""
    global _S
    if _S is None:
        _S = shadow.Shadow()
    return _S


def register(targets):
    def target(name, functions=(), bounded=None, **opts):
        """bounded: the bound under which the obligations of this target are
        discharged (they are reported apart and not counted as proved)"""
        def deco(f):
            f.bounded = bounded
            targets[name] = (f, opts, tuple(functions))
            return f
        return deco
    return target


def vec(name, n=3):
    return [rvar(f'{name}{i}') for i in range(n)]


def unit_vec(name, n=3):
    """symbolic vector of length one"""
    c = vec(name, n)
    s = SReal.const(1)
    for x in c[:-1]:
        s = s - x * x
    relation(c[-1], s)
    CTX().fact(s >= 0)
    # |c_i| <= 1, and the last square is non-negative
    for x in c:
        CTX().fact(x * x <= 1)
    return c


def arr(shape, name, dtype='f'):
    """arbitrary array (uninterpreted function of the index)"""
    def base(idx):
        if dtype == 'f':
            return rapp(name, idx)
        if dtype == 'i':
            return iapp(name, idx)
        return bapp(name, idx)
    return SArr.fn(tuple(shape), base, dtype)


def dims(*names, lo=1):
    out = []
    for n in names:
        v = ivar(n)
        CTX().fact(v >= lo)
        out.append(v)
    return out if len(out) > 1 else out[0]


def eq_arrays(ctx, name, a, b, bname='g'):
    """all elements equal (generic element) and same shape"""
    from .arr import dims_equal
    ctx.prove(f'{name}: same number of axes', len(a.shape) == len(b.shape))
    if len(a.shape) != len(b.shape):
        return
    for k, (x, y) in enumerate(zip(a.shape, b.shape)):
        ctx.prove(f'{name}: axis {k} has the right length', mk(x == y) if not isinstance(x, int) or not isinstance(y, int) else x == y)
    if all(isinstance(x, int) for x in a.shape):
        for i in a.indices():
            same(ctx, f'{name}{list(i)}', a.get(i), b.get(i))
        return
    g = generic_index(b.shape, bname)
    same(ctx, name, a.get(g), b.get(g))


def same(ctx, name, x, y):
    if isinstance(x, (SBool, bool)) or isinstance(y, (SBool, bool)):
        ctx.prove(name, T.iff(SBool.of(x), SBool.of(y)))
    elif isinstance(x, (SInt, int)) and isinstance(y, (SInt, int)):
        ctx.prove(name, mk(x == y))
    else:
        ctx.prove_eq(name, x, y)


def have(ctx, name, goal):
    """an intermediate step: proved, then used"""
    ok = ctx.prove(name, goal)
    if ok:
        ctx.fact(goal)
    return ok
