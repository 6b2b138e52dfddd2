"""Loads /repo's current source as a shadow package that runs on symbolic
values.

Every module of the package is read, parsed and transformed mechanically:

  * a float literal becomes the exact rational it spells,
  * `/` becomes exact division,
  * `for` over a symbolic iterable runs the loop rule (loops.py), and over a
    concrete one stays the same loop,
  * `and`, `or`, `not`, chained comparison and `in` become non-splitting on
    symbolic booleans (the second operand is evaluated under the first),
  * comprehensions go through the loop rule,
  * attribute assignment is logged (needed to undo a merged branch),
  * a small `if` on a symbolic condition is executed on both branches and
    merged, otherwise the path splits,
  * docstrings and annotations are dropped.

Nothing else of the function bodies is dropped.  numpy is replaced by npf;
numba.njit is the identity; plotting, skimage, scipy, networkx, pandas are
stand-ins on which any use yields an opaque object (or a contract, see the
check in question)."""
import __future__
import ast
import builtins
import importlib
import os
import sys
import types
import warnings as _w

from . import terms as T
from . import npf
from . import rt
from .terms import Unsupported

REPO = os.environ.get('DV_REPO', '/repo')
warn_cat = SyntaxWarning


# --------------------------------------------------------------------------
# AST transformation
# --------------------------------------------------------------------------
def _call(fn, *args):
    return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _lambda(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


def assigned_names(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for s in stmts:
        V().visit(s)
    return out


def _contains(stmts, kinds, stop=()):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _count(stmts):
    return sum(isinstance(n, ast.stmt) for s in stmts for n in ast.walk(s))


class Tr(ast.NodeTransformer):
    def __init__(self, modname, src):
        self.mod = modname
        self.src = src
        self.n = 0
        self.infunc = 0
        self.loops = []
        self.qual = []
        self.ordinal = {}

    def tmp(self, base):
        self.n += 1
        return f'__dv_{base}{self.n}'

    # ---- structure
    def _body(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            if len(n.body) > 1:
                n.body = n.body[1:]

    def visit_FunctionDef(self, n):
        self._body(n)
        self.qual.append(n.name)
        self.infunc += 1
        saved, self.loops = self.loops, []
        fnl, self.fnlocals = getattr(self, 'fnlocals', ()), assigned_names(n.body)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + \
                [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        q = f"{self.mod}.{'.'.join(self.qual)}"
        _number_loops(n)
        n.body = self.stmts(n.body)
        n.body.insert(0, ast.copy_location(ast.Expr(value=_call('_dv_enter', ast.Constant(value=q))), n.body[0]))
        self.loops = saved
        self.fnlocals = fnl
        self.infunc -= 1
        self.qual.pop()
        return n

    def visit_ClassDef(self, n):
        self._body(n)
        self.qual.append(n.name)
        saved, self.infunc = self.infunc, 0
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(b) for b in n.keywords]
        n.body = self.stmts(n.body)
        self.infunc = saved
        self.qual.pop()
        return n

    def visit_Module(self, n):
        n.body = self.stmts(n.body)
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            seg = repr(n.value)
            return ast.copy_location(_call('_dv_flt', ast.Constant(value=seg)), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call('_dv_div', n.left, n.right), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('_dv_mod', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(_call('_dv_pow', n.left, n.right), n)
        if isinstance(n.op, (ast.Add, ast.Mult)):
            return ast.copy_location(_call('_dv_add' if isinstance(n.op, ast.Add) else '_dv_mul', n.left, n.right), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call('_dv_mklist', n), n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        f = '_dv_and' if isinstance(n.op, ast.And) else '_dv_or'
        r = n.values[-1]
        for v in reversed(n.values[:-1]):
            r = _call(f, v, _lambda([], r))
        return ast.copy_location(r, n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_call('_dv_not', n.operand), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = _call('_dv_in', n.left, n.comparators[0])
                if isinstance(n.ops[0], ast.NotIn):
                    c = _call('_dv_not', c)
                return ast.copy_location(c, n)
            return n
        names = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
        ops = [names.get(type(o)) for o in n.ops]
        if None in ops:
            return n
        return ast.copy_location(_call('_dv_chain', ast.Constant(value=' '.join(ops)), n.left, *n.comparators), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'zip' and len(n.args) == 1 \
                and isinstance(n.args[0], ast.Starred) and not n.keywords:
            return ast.copy_location(_call('_dv_zipstar', n.args[0].value), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call('_dv_type', n.args[0]), n)
        return n

    def _pat(self, target, elt, conds):
        """lambda taking one item, unpacking it into the target names"""
        if isinstance(target, ast.Name):
            return _lambda([target.id], elt)
        args, inner = [], elt
        subs = []
        for t in target.elts:
            if isinstance(t, ast.Name):
                args.append(t.id)
            elif isinstance(t, ast.Starred):
                raise Unsupported('starred comprehension target')
            else:
                a = self.tmp('u')
                args.append(a)
                subs.append((a, t))
        for a, t in reversed(subs):
            inner = ast.Call(func=self._pat(t, inner, None), args=[_name(a)], keywords=[])
        t = self.tmp('t')
        return _lambda([t], ast.Call(func=_lambda(args, inner),
                                     args=[ast.Starred(value=_call('_dv_unpack', _name(t), ast.Constant(value=len(args))),
                                                       ctx=ast.Load())], keywords=[]))

    def _comp(self, n, kind):
        gens = n.generators
        if isinstance(n, ast.DictComp):
            elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        else:
            elt = n.elt
        elt = self.visit(elt)
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            it = self.visit(g.iter)
            conds = [self.visit(c) for c in g.ifs]
            cond = None
            if conds:
                cond = conds[-1]
                for c in reversed(conds[:-1]):
                    cond = _call('_dv_and', c, _lambda([], cond))
            last = gi == len(gens) - 1
            k = (kind if len(gens) == 1 else 'flatten') if last else 'flatten2'
            import copy
            fe = self._pat(copy.deepcopy(g.target), elt, None)
            fc = self._pat(copy.deepcopy(g.target), cond, None) if cond is not None else ast.Constant(value=None)
            elt = _call('_dv_comp', it, fe, fc, ast.Constant(value='list' if len(gens) > 1 else kind))
            if not last:
                elt = _call('_dv_flat', elt)
        if len(gens) > 1 and kind != 'list':
            elt = _call('_dv_as', elt, ast.Constant(value=kind))
        return ast.copy_location(elt, n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    # ---- statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and self.infunc:
            t = n.targets[0]
            if t.attr.startswith('__') and not t.attr.endswith('__'):
                return n
            return ast.copy_location(ast.Expr(value=_call('_dv_setattr', t.value, ast.Constant(value=t.attr), n.value)), n)
        out = []
        if self.infunc and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            # attributes inside a tuple target
            t = n.targets[0]
            post = []
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Attribute):
                    nm = self.tmp('a')
                    t.elts[k] = ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), e)
                    post.append(ast.copy_location(ast.Expr(value=_call(
                        '_dv_setattr', e.value, ast.Constant(value=e.attr), _name(nm))), n))
            if not any(isinstance(e, ast.Starred) for e in t.elts):
                n.value = ast.copy_location(_call('_dv_unpack', n.value, ast.Constant(value=len(t.elts))), n.value)
            for p in post:
                for x in ast.walk(p):
                    if isinstance(x, ast.Attribute):
                        x.ctx = ast.Load()
            return [n] + post
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        opn = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            v = _call('_dv_iop', ast.Constant(value=opn), _name(n.target.id), n.value)
            return ast.copy_location(ast.Assign(targets=[ast.Name(id=n.target.id, ctx=ast.Store())], value=v), n)
        if isinstance(n.target, ast.Attribute):
            o = self.tmp('o')
            s1 = ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=n.target.value)
            ld = ast.Attribute(value=_name(o), attr=n.target.attr, ctx=ast.Load())
            v = _call('_dv_iop', ast.Constant(value=opn), ld, n.value)
            s2 = ast.Expr(value=_call('_dv_setattr', _name(o), ast.Constant(value=n.target.attr), v))
            return [ast.copy_location(s1, n), ast.copy_location(s2, n)]
        if isinstance(n.target, ast.Subscript):
            o, k = self.tmp('o'), self.tmp('k')
            s1 = ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=n.target.value)
            s2 = ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=_slice_expr(n.target.slice))
            ld = ast.Subscript(value=_name(o), slice=_name(k), ctx=ast.Load())
            v = _call('_dv_iop', ast.Constant(value=opn), ld, n.value)
            s3 = ast.Assign(targets=[ast.Subscript(value=_name(o), slice=_name(k), ctx=ast.Store())], value=v)
            return [ast.copy_location(s, n) for s in (s1, s2, s3)]
        return n

    def visit_If(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        test = self.visit(n.test)
        simple = not _contains(n.body + n.orelse, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.For, ast.While,
                                                   ast.Yield, ast.YieldFrom, ast.With, ast.Try, ast.FunctionDef,
                                                   ast.ClassDef, ast.Delete, ast.Import, ast.ImportFrom, ast.Global,
                                                   ast.Nonlocal, ast.Expr, ast.Assert))
        cnt = _count(n.body + n.orelse)
        names = assigned_names(n.body + n.orelse)
        import copy
        body = self.stmts(copy.deepcopy(n.body))
        orelse = self.stmts(copy.deepcopy(n.orelse)) if n.orelse else []
        if not simple:
            new = ast.If(test=test, body=body, orelse=orelse)
            return ast.copy_location(new, n)
        body2, orelse2 = copy.deepcopy(body), copy.deepcopy(orelse)
        c, m = self.tmp('c'), self.tmp('m')
        pos = f'{self.mod}:{n.lineno}'
        st = [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=test)]
        loc = ast.Call(func=_name('locals'), args=[], keywords=[])

        def dct():
            return _call('_dv_pick', ast.Call(func=_name('locals'), args=[], keywords=[]),
                         ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load()))

        def assign_back(fn):
            if not names:
                return [ast.Expr(value=_call('_dv_m_' + fn, _name(m), dct()))]
            r = [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())],
                            value=_call('_dv_m_' + fn, _name(m), dct()))]
            return r
        mg = [ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                         value=_call('_dv_m_begin', _name(c), dct(), ast.Constant(value=pos),
                                   ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load())))]
        mg += body + assign_back('mid') + (orelse or [ast.Pass()]) + assign_back('end')
        plain = ast.If(test=_name(c), body=body2, orelse=orelse2)
        st.append(ast.If(test=_call('_dv_mergeable', _name(c), ast.Constant(value=pos), ast.Constant(value=cnt)),
                         body=mg, orelse=[plain]))
        for s in st:
            ast.copy_location(s, n)
        return st

    def visit_IfExp(self, n):
        special = [x for x in ast.walk(n) if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await))
                   or isinstance(x, ast.Name) and x.id in ('super', 'locals')]
        self.generic_visit(n)
        if not self.infunc or special:
            return n
        none = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.copy_location(_call('_dv_ifexp', n.test, ast.Lambda(args=none, body=n.body), ast.Lambda(args=none, body=n.orelse),
                                       ast.Constant(value=f'{self.mod}:{n.lineno}.{n.col_offset}')), n)

    def visit_For(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        import copy
        it = self.visit(n.iter)
        names = assigned_names([n.target] + n.body)
        key = '.'.join(self.qual)
        o = n._dv_ord
        itn, L = self.tmp('it'), self.tmp('L')
        target = self.visit(copy.deepcopy(n.target))
        # concrete version
        self.loops.append(None)
        cbody = self.stmts(copy.deepcopy(n.body))
        self.loops.pop()
        corelse = self.stmts(copy.deepcopy(n.orelse)) if n.orelse else []
        conc = ast.For(target=copy.deepcopy(target), iter=_name(itn), body=cbody, orelse=corelse)
        # symbolic version
        self.loops.append(L)
        sbody = self.stmts(copy.deepcopy(n.body))
        self.loops.pop()
        sorelse = self.stmts(copy.deepcopy(n.orelse)) if n.orelse else []
        loc = ast.Call(func=_name('locals'), args=[], keywords=[])
        head = []
        # names assigned in the body: poisoned / restored at each head
        tn = [x for x in names]
        # local variables the body only reads (or writes into)
        used = sorted({c.id for b in n.body for c in ast.walk(b) if isinstance(c, ast.Name)} & set(self.fnlocals) - set(tn))
        nx = ast.Call(func=ast.Attribute(value=_name(L), attr='next', ctx=ast.Load()), args=[], keywords=[])
        hn = ast.Call(func=ast.Attribute(value=_name(L), attr='has_next', ctx=ast.Load()),
                      args=[_call('_dv_pick', loc, ast.Tuple(elts=[ast.Constant(value=x) for x in tn], ctx=ast.Load())),
                            _call('_dv_pick', copy.deepcopy(loc), ast.Tuple(elts=[ast.Constant(value=x) for x in used], ctx=ast.Load()))],
                      keywords=[])
        rest = []
        if tn:
            rest = [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in tn], ctx=ast.Store())],
                               value=ast.Call(func=ast.Attribute(value=_name(L), attr='names', ctx=ast.Load()),
                                              args=[], keywords=[]))]
        tgt_assign = ast.Assign(targets=[target], value=nx)
        if isinstance(target, (ast.Tuple, ast.List)):
            tgt_assign.value = _call('_dv_unpack', nx, ast.Constant(value=len(target.elts)))
        h = self.tmp('h')
        wl = ast.While(test=ast.Constant(value=True),
                       body=[ast.Assign(targets=[ast.Name(id=h, ctx=ast.Store())], value=hn)] + rest +
                       [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(h)), body=sorelse + [ast.Break()], orelse=[]),
                        tgt_assign] + sbody,
                       orelse=[])
        sym = [ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())],
                          value=_call('_dv_loop', _name(itn), ast.Constant(value=f'{self.mod}.{key}#{o}'),
                                      ast.Tuple(elts=[ast.Constant(value=x) for x in tn], ctx=ast.Load()))), wl]
        st = [ast.Assign(targets=[ast.Name(id=itn, ctx=ast.Store())], value=it),
              ast.If(test=_call('_dv_symiter', _name(itn), ast.Constant(value=f'{self.mod}.{key}#{o}')), body=sym, orelse=[conc])]
        for s in st:
            ast.copy_location(s, n)
        return st

    def visit_While(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        import copy
        key = '.'.join(self.qual)
        o = n._dv_ord
        lid = f'{self.mod}.{key}#{o}'
        names = assigned_names(n.body)
        for c in ast.walk(n):
            # local lists that the body changes
            if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.attr in ('append', 'pop', 'extend', 'remove', 'insert', 'clear') \
                    and c.value.id in self.fnlocals and c.value.id not in names:
                names.append(c.value.id)
        W = self.tmp('W')
        test = self.visit(n.test)
        self.loops.append(None)
        body = self.stmts(n.body)
        self.loops.pop()
        orelse = self.stmts(n.orelse) if n.orelse else []
        loc = ast.Call(func=_name('locals'), args=[], keywords=[])
        # while True: names = W.head(locals); if not W.test(test): break; body
        rest = [ast.Expr(value=ast.Call(func=ast.Attribute(value=_name(W), attr='head', ctx=ast.Load()),
                                        args=[loc], keywords=[]))]
        if names:
            rest.append(ast.If(
                test=ast.Attribute(value=_name(W), attr='active', ctx=ast.Load()),
                body=[ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())],
                                 value=ast.Call(func=ast.Attribute(value=_name(W), attr='names', ctx=ast.Load()),
                                                args=[ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load())],
                                                keywords=[]))], orelse=[]))
        wl = ast.While(test=ast.Constant(value=True), body=rest + [
            ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(
                func=ast.Attribute(value=_name(W), attr='test', ctx=ast.Load()),
                args=[_lambda([], test)], keywords=[])), body=orelse + [ast.Break()], orelse=[])] + body, orelse=[])
        st = [ast.Assign(targets=[ast.Name(id=W, ctx=ast.Store())], value=_call('_dv_while', ast.Constant(value=lid))), wl]
        for s in st:
            ast.copy_location(s, n)
        return st

    def visit_Break(self, n):
        if self.loops and self.loops[-1]:
            L = self.loops[-1]
            return [ast.copy_location(ast.Expr(value=ast.Call(
                func=ast.Attribute(value=_name(L), attr='brk', ctx=ast.Load()), args=[], keywords=[])), n),
                ast.copy_location(ast.Continue(), n)]
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if any(self.loops):
            L = [x for x in self.loops if x][-1]
            return [ast.copy_location(ast.Expr(value=ast.Call(
                func=ast.Attribute(value=_name(L), attr='ret', ctx=ast.Load()), args=[], keywords=[])), n), n]
        return n


def _number_loops(fn):
    """loops of a function, numbered in source order"""
    found = []

    def walk(x):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                c._dv_ord = len(found)
                found.append(c)
            walk(c)
    walk(fn)


def _slice_expr(s):
    """an expression that evaluates to the subscript key"""
    if isinstance(s, ast.Slice):
        none = ast.Constant(value=None)
        return ast.Call(func=_name('slice'), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_slice_expr(e) for e in s.elts], ctx=ast.Load())
    return s


# --------------------------------------------------------------------------
# loading
# --------------------------------------------------------------------------
class StubMeta(type):
    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Stub()

    def __iter__(cls):
        return iter(())


class Stub(metaclass=StubMeta):
    _dv_stub = True

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_dv') or name == 'key':
            raise AttributeError(name)
        return Stub()

    def __call__(self, *a, **k):
        return Stub()

    def __getitem__(self, k):
        return Stub()

    def __iter__(self):
        return iter(())


def _stub_module(name):
    m = types.ModuleType(name)

    def ga(attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        c = type(attr, (Stub,), {})
        setattr(m, attr, c)
        return c
    m.__getattr__ = ga
    m.__path__ = []
    return m


REAL = {'functools', 'typing', 'copy', 'warnings', 'abc', 'pathlib', 'datetime', 're', 'ast', 'collections', 'itertools',
        'inspect', 'os', 'os.path', 'uuid', 'time', 'io', 'sys', 'dataclasses', 'enum', 'operator', 'string', 'contextlib',
        '__future__', 'collections.abc', 'numbers', 'types', 'textwrap', 'json', 'struct', 'random'}


class Shadow:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = {}
        self.overrides = overrides or {}
        self.functions_loaded = 0
        b = dict(vars(builtins))
        b.update(rt.BUILTINS)
        b['__import__'] = self._import
        self.builtins = b

    def __getattr__(self, name):
        if name.startswith('__') or name in ('mods', 'repo'):
            raise AttributeError(name)
        return self.load('defdap.' + name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.overrides:
            self.mods[name] = self.overrides[name]
            return self.overrides[name]
        rel = name.replace('.', '/')
        path = os.path.join(self.repo, rel + '.py')
        pkg = False
        if not os.path.exists(path):
            path = os.path.join(self.repo, rel, '__init__.py')
            pkg = True
            if not os.path.exists(path):
                raise ModuleNotFoundError(name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        src = open(path, encoding='utf-8').read()
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        with _w.catch_warnings():
            _w.simplefilter('ignore')
            tree = ast.parse(src)
            tree = Tr(name, src).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, f'<shadow>{os.path.relpath(path, self.repo)}', 'exec',
                           flags=__future__.annotations.compiler_flag, dont_inherit=True)
        m.__dict__['__builtins__'] = self.builtins
        if name == 'defdap.utils':
            m.__dict__['report_progress'] = rt.report_progress
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        exec(code, m.__dict__)
        if name == 'defdap.utils':
            m.report_progress = rt.report_progress
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        return m

    def stub(self, name):
        if name not in self.stubs:
            self.stubs[name] = _stub_module(name)
            if '.' in name:
                p, _, leaf = name.rpartition('.')
                setattr(self.stub(p), leaf, self.stubs[name])
        return self.stubs[name]

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            if level > 1:
                pkg = pkg[:-(level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'defdap':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load('defdap')
        if top == 'numpy':
            if name == 'numpy':
                return npf
            if name == 'numpy.linalg':
                return npf.linalg if fromlist else npf
            if name == 'numpy.ma':
                return npf.ma if fromlist else npf
            self.stub(name)
            return self.stub(name) if fromlist else npf
        if name == 'math':
            return rt.math_facade
        if name in REAL:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if name == 'numba':
            m = self.stub('numba')
            m.njit = m.jit = m.vectorize = rt.njit
            m.prange = rt.BUILTINS['range']
            return m
        m = self.stub(name)
        return m if fromlist else self.stub(top)

    # ---- contracts in place of callees
    def replace(self, modname, qual, fn):
        """Modular verification: callers use fn (a contract) for modname.qual.
        -> undo function"""
        m = self.load(modname)
        parts = qual.split('.')
        o = m
        for p in parts[:-1]:
            o = getattr(o, p)
        old = o.__dict__[parts[-1]]
        setattr(o, parts[-1], fn)
        undo = [(o, parts[-1], old)]
        if len(parts) == 1:
            for mm in list(self.mods.values()):
                if mm is not m and mm.__dict__.get(parts[-1]) is old:
                    setattr(mm, parts[-1], fn)
                    undo.append((mm, parts[-1], old))

        def un():
            for a, b, c in undo:
                setattr(a, b, c)
        return un
