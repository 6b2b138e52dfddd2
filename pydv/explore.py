"""Path exploration, obligations and the solver back ends."""
import contextlib
import os
import subprocess
import tempfile
import time
import traceback

import z3

from . import terms as T
from .terms import SBool, SInt, SReal, Unsupported, PathAbort


class MergeFail(Exception):
    """Two branches of an `if` could not be merged: split the path there."""

    def __init__(self, pos):
        self.pos = pos


Z3BIN = 'z3-new'
CVC5BIN = 'cvc5'


def _which(n):
    import shutil
    return shutil.which(n)


class Result:
    def __init__(self, name, status, backend, secs, detail='', model=None):
        self.name = name
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 4), detail=self.detail[:1500])


def _abstract(es):
    """Replace function applications by real constants (pure NRA)."""
    ids = {}
    stack, seen, order = list(es), set(), []
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return None
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            order.append(e)
        stack.extend(e.children())
    # outermost first so that nested applications vanish with their parents
    subs = []
    for i, e in enumerate(order):
        if z3.is_real(e):
            subs.append((e, z3.Real(f'abs!{e.get_id()}')))
        elif z3.is_bool(e):
            subs.append((e, z3.Bool(f'absb!{e.get_id()}')))
        elif z3.is_int(e):
            subs.append((e, z3.Int(f'absi!{e.get_id()}')))
    if not subs:
        return list(es)
    # parents before children
    subs.sort(key=lambda s: -_depth(s[0]))
    out = list(es)
    for s in subs:
        out = [z3.substitute(x, s) for x in out]
    return out


def _linear(fs, timeout):
    """Every product of unknowns as an unknown of its own, for each case of the
    conditions that are factors (sound: fewer facts)"""
    conds, seen, stack = [], set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return False
        if z3.is_app_of(e, z3.Z3_OP_MUL) or z3.is_app_of(e, z3.Z3_OP_POWER):
            for c in e.children():
                if z3.is_app_of(c, z3.Z3_OP_ITE) and not any(c.arg(0).eq(x) for x in conds):
                    conds.append(c.arg(0))
        stack.extend(e.children())
    if len(conds) > 3:
        return False
    t0 = time.time()
    for bits in range(1 << len(conds)):
        lits = [(c, bool(bits >> k & 1)) for k, c in enumerate(conds)]
        sub = [(c, z3.BoolVal(v)) for c, v in lits]
        gs = [z3.substitute(f, *sub) for f in fs] if sub else list(fs)
        for k, (c, v) in enumerate(lits):
            rest = [x for j, x in enumerate(sub) if j != k]
            c2 = z3.substitute(c, *rest) if rest else c
            gs.append(c2 if v else z3.Not(c2))
        gs = [z3.simplify(g, som=True, mul_to_power=True) for g in gs]
        names, cache = {}, {}

        def ab(e):
            i = e.get_id()
            if i in cache:
                return cache[i]
            r = e
            if z3.is_real(e) and (z3.is_app_of(e, z3.Z3_OP_MUL) or z3.is_app_of(e, z3.Z3_OP_POWER)):
                num, oth = [], []
                for c in e.children():
                    (num if z3.is_rational_value(c) else oth).append(c)
                if len(oth) > 1 or z3.is_app_of(e, z3.Z3_OP_POWER):
                    key = tuple(sorted(c.get_id() for c in oth)) if z3.is_app_of(e, z3.Z3_OP_MUL) else ('p',) + tuple(c.get_id() for c in e.children())
                    if key not in names:
                        names[key] = (z3.Real(f'prod!{len(names)}'), e)
                    r = names[key][0]
                    for c in num:
                        r = c * r
                    cache[i] = r
                    return r
            if e.num_args():
                r = e.decl()(*[ab(c) for c in e.children()]) if not z3.is_quantifier(e) else e
            cache[i] = r
            return r
        s = z3.Solver()
        s.set('timeout', int(max(200, (timeout - (time.time() - t0)) * 1000)))
        s.add(*[ab(g) for g in gs])
        if s.check() != z3.unsat:
            return False
    return True


_DEPTH = {}


def _depth(e):
    i = e.get_id()
    d = _DEPTH.get(i)
    if d is None:
        d = 1 + max([_depth(c) for c in e.children()], default=0)
        _DEPTH[i] = d
    return d


def _cached(f):
    got = {}

    def g(e):
        if isinstance(e, list):
            if len(e) != 1:
                return any(g([x]) for x in e)
            e = e[0]
        r = got.get(e.get_id())
        if r is None:
            r = got[e.get_id()] = (f(e), e)      # keeps the term alive: ids are not reused
        return r[0]
    return g


@_cached
def _has_real(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_real(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


@_cached
def _has_quant(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _ext(cmd, smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt)
        fn = f.name
    try:
        p = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=timeout)
        return p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    except FileNotFoundError:
        return 'missing'
    finally:
        os.unlink(fn)


def solve(hyps, goal, timeout=20.0, use_axioms=True):
    """Is goal a consequence of hyps?  -> Result fields."""
    t0 = time.time()
    ng = z3.Not(goal)
    fs = list(hyps) + [ng]
    ax = T.axioms_for(fs) if use_axioms else []
    detail = ''
    # 1. z3 in process, function symbols uninterpreted
    s = z3.Solver()
    s.set('timeout', int(min(4.0, timeout) * 1000))
    s.add(*fs)
    s.add(*ax)
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', time.time() - t0, '', None
    model = None
    if r == z3.sat:
        model = s.model()
        detail = 'z3: sat ' + str(model)[:800]
        return 'refuted', 'z3', time.time() - t0, detail, model
    detail = f'z3: {s.reason_unknown()}'
    quant = _has_quant(fs)
    # 1a. without the quantified facts
    if quant and not _has_quant([ng]):
        gs = [f for f in fs if not _has_quant([f])]
        s1 = z3.Solver()
        s1.set('timeout', 2000)
        s1.add(*gs)
        s1.add(*(T.axioms_for(gs) if use_axioms else []))
        if s1.check() == z3.unsat:
            return 'proved', 'z3', time.time() - t0, '', None
        try:
            if _linear(gs, 2.0):
                return 'proved', 'z3-linear', time.time() - t0, '', None
        except z3.Z3Exception:
            pass
    # 1b. differences of the integers that occur as reals
    if not quant:
        ints, seen, stack = [], set(), list(fs)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and z3.is_const(e.arg(0)) and not any(x.eq(e.arg(0)) for x in ints):
                ints.append(e.arg(0))
            stack.extend(e.children())
        if 2 <= len(ints) <= 6:
            s1 = z3.Solver()
            s1.set('timeout', 1500)
            s1.add(*fs)
            s1.add(*ax)
            for i in range(len(ints)):
                for j in range(i):
                    s1.add(z3.Int(f'difference!{i}!{j}') == ints[i] - ints[j])
            if s1.check() == z3.unsat:
                return 'proved', 'z3', time.time() - t0, '', None
    # 2. linear over the products
    if not quant:
        try:
            if _linear(fs, min(4.0, timeout)) or ax and _linear(fs + ax, min(4.0, timeout)):
                return 'proved', 'z3-linear', time.time() - t0, '', None
        except z3.Z3Exception:
            pass
    # 2. pure NRA abstraction
    if not quant:
        ab = _abstract(fs + ax)
        if ab is not None:
            s2 = z3.SolverFor('QF_NRA') if all(not _mentions_int(e) for e in ab) else z3.Solver()
            s2.set('timeout', int(min(8.0, timeout) * 1000))
            s2.add(*ab)
            r2 = s2.check()
            if r2 == z3.unsat:
                return 'proved', 'z3-nra', time.time() - t0, '', None
            if r2 == z3.sat:
                s.set('timeout', int(min(8.0, timeout) * 1000))
                if s.check() == z3.unsat:
                    return 'proved', 'z3', time.time() - t0, '', None
                detail += ' | nra: sat'
                return 'refuted', 'z3-nra', time.time() - t0, detail + str(s2.model())[:600], s2.model()
            else:
                detail += f' | nra: {s2.reason_unknown()}'
    # 3. external solvers
    left = timeout - (time.time() - t0)
    if left > 1:
        smt = _smt2(s)
        o = _ext([CVC5BIN, f'--tlimit={int(left * 500)}', '--nl-ext-tplanes'] +
                 (['--enum-inst'] if quant else []), smt, left * 0.6 + 2)
        if o == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, '', None
        detail += f' | cvc5: {o[:80]}'
        left = timeout - (time.time() - t0)
        if left > 1:
            o = _ext([Z3BIN, f'-T:{int(left) + 1}'], smt, left + 3)
            if o == 'unsat':
                return 'proved', 'z3-new', time.time() - t0, '', None
            detail += f' | z3-new: {o[:80]}'
            if o == 'sat':
                return 'refuted', 'z3-new', time.time() - t0, detail, None
    return 'unknown', '-', time.time() - t0, detail, None


def _smt2(s):
    txt = s.to_smt2()
    return '(set-logic ALL)\n' + txt


def _mentions_int(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x):
            return True
        stack.extend(x.children())
    return False


class Frame:
    """A place where paths split: the whole run, or the body of a loop."""

    def __init__(self, prefix, push):
        self.prefix = prefix
        self.trace = []
        self.work = []
        self._push = push
        self.owned = set()
        self.keep = []
        self.attrs = []
        self.lists = {}
        self.reads = {}
        self.once = {}
        self.loop = None

    def push(self, prefix):
        if self._push is not None:
            self._push(prefix)
        else:
            self.work.append(prefix)


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.frames = [Frame(prefix, ex.push)]
        self.merges = []
        self.mute_all = False
        self.defs = set()
        self.merge_limit = ex.merge
        self.nomerge = ex.nomerge
        self.pc = []
        self.facts = []
        self.mute_def = False
        self.def_mode = ex.def_mode
        self.n = 0
        self.isolver = z3.Solver()
        self.isolver.set('timeout', 300)
        self.fsolver = z3.Solver()
        self.fsolver.set('timeout', 400)
        self.ent_cache = {}
        self.scopes = []
        self.bufs = []
        self.loop = None
        self.log = None
        self.uid = 0
        self.deftags = set()
        self.scope_marks = []
        self.unravel_cache = {}
        self.world = frozenset()        # what is assumed for now: values simplified under it are not used outside
        self.world_keep = []

    def _enter_world(self, es):
        self.world_keep.extend(es)
        self.world = self.world | {e.get_id() for e in es}

    # ---- assumptions
    def _add(self, e):
        if not _has_quant([e]):
            if not _has_real(e):
                self.isolver.add(e)
            self.fsolver.add(e)
        self.ent_cache.clear()

    def fact(self, c):
        c = T.mk(c) if not z3.is_expr(c) else c
        if c is True:
            return
        e = c.e if isinstance(c, SBool) else (z3.BoolVal(c) if isinstance(c, bool) else c)
        self.facts.append(e)
        self._add(e)

    assume = fact

    def define(self, c):
        """A fact about symbols introduced here: valid in every scope."""
        n = len(self.facts)
        self.fact(c)
        for e in self.facts[n:]:
            self.defs.add(e.get_id())

    def hyps(self):
        return self.facts + self.pc

    def count_bound(self):
        self.ex.bounds_ok += 1

    @contextlib.contextmanager
    def scope(self, conds):
        """Assume conditions temporarily."""
        es = []
        for c in conds:
            c = T.mk(c)
            if c is True:
                continue
            es.append(c.e if isinstance(c, SBool) else z3.BoolVal(bool(c)))
        if not es:
            yield
            return
        nf = len(self.facts)
        np_ = len(self.pc)
        self.isolver.push()
        self.fsolver.push()
        saved, self.ent_cache = self.ent_cache, {}
        world = self.world
        self._enter_world(es)
        self.scope_marks.append(nf)
        for e in es:
            self.facts.append(e)
            if not _has_quant([e]):
                if not _has_real(e):
                    self.isolver.add(e)
                self.fsolver.add(e)
        try:
            yield
        finally:
            self.world = world
            self.scope_marks.pop()
            # facts learnt inside (definitional facts about fresh symbols)
            # stay valid under the scope condition
            learnt = self.facts[nf + len(es):]
            del self.facts[nf:]
            self.isolver.pop()
            self.fsolver.pop()
            self.ent_cache = saved
            ante = es + self.pc[np_:]
            for l in learnt:
                if l.get_id() in self.defs:
                    self.facts.append(l)
                    self._add(l)
                elif not self.mute_all:
                    g = z3.Implies(z3.And(*ante), l)
                    self.facts.append(g)
                    self._add(g)

    def fresh(self, base):
        self.uid += 1
        return f'{base}!{self.uid}'

    # ---- branching
    def entails(self, c):
        """Cheap, integer-only entailment (used for simplification)."""
        c = T.mk(c)
        if isinstance(c, bool):
            return c
        k = c.k
        got = self.ent_cache.get(k)
        if got is not None:
            return got
        if c.cmp is not None or _has_real(c.e) or T.has_free_vars(c.e):
            r = False
        else:
            self.isolver.push()
            self.isolver.add(z3.Not(c.e))
            r = self.isolver.check() == z3.unsat
            self.isolver.pop()
        self.ent_cache[k] = r
        return r

    def feasible(self, e):
        self.fsolver.push()
        self.fsolver.add(e)
        ax = T.axioms_for([e])
        self.fsolver.add(*ax)
        r = self.fsolver.check()
        self.fsolver.pop()
        return r != z3.unsat

    def decide(self, sb):
        fr = self.frames[-1]
        i = len(fr.trace)
        if i < len(fr.prefix):
            v, forced = fr.prefix[i]
        else:
            ft = self.feasible(sb.e)
            ff = self.feasible(z3.Not(sb.e)) if ft else True
            forced = not (ft and ff)
            v = ft
            if not forced:
                fr.push(fr.trace + [(False, False)])
        fr.trace.append((v, forced))
        if len(fr.trace) > self.ex.max_depth:
            raise Unsupported('too many branches on one path')
        e = sb.e if v else z3.Not(sb.e)
        if not forced:
            self.pc.append(e)
            if self.scope_marks:
                self._enter_world([e])
        self._add(e)
        return v

    # ---- obligations
    def prove(self, name, goal, timeout=None):
        if self.mute_all:
            return True
        self.n += 1
        ex = self.ex
        full = f'{ex.name}: {name}'
        if isinstance(goal, SBool):
            goal = T.mk(goal)
        if z3.is_expr(goal):
            goal = T.mk(SBool(goal))
        if goal is True:
            ex.add(Result(full, 'proved', 'normal-form', 0.0))
            return True
        hy = self.hyps()
        if isinstance(goal, SBool) and self._by_nf(goal):
            ex.add(Result(full, 'proved', 'normal-form', 0.0))
            return True
        g = goal.e if isinstance(goal, SBool) else z3.BoolVal(bool(goal))
        key = (tuple(sorted(set(h.get_id() for h in hy))), g.get_id())
        got = ex.cache.get(key)
        if got is None:
            got = solve(hy, g, timeout or ex.timeout)
            ex.cache[key] = got
            ex.keep.append((hy, g))
        st, be, secs, detail, model = got
        ex.add(Result(full, st, be, secs, detail, model))
        return st == 'proved'

    def prove_all(self, goals, timeout=None):
        """Several obligations in one query; one by one when that fails."""
        if self.mute_all:
            return True
        rest = []
        for name, g in goals:
            g = T.mk(g) if isinstance(g, SBool) else g
            if g is True or (isinstance(g, SBool) and self._by_nf(g)):
                self.prove(name, True)
            else:
                rest.append((name, g))
        if not rest:
            return True
        hy = self.hyps()
        es = [g.e if isinstance(g, SBool) else z3.BoolVal(bool(g)) for _, g in rest]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int((timeout or self.ex.timeout) * 1000))
        s.add(*hy)
        s.add(z3.Not(z3.And(*es)))
        s.add(*T.axioms_for(hy + es))
        if s.check() == z3.unsat:
            dt = (time.time() - t0) / len(rest)
            for name, _ in rest:
                self.n += 1
                self.ex.add(Result(f'{self.ex.name}: {name}', 'proved', 'z3', dt))
            return True
        return all([self.prove(name, g, timeout) for name, g in rest])

    def _by_nf(self, goal):
        if goal.cmp is not None and goal.cmp[0] == 'eq':
            try:
                return not T.clear_inv(goal.cmp[1])
            except Unsupported:
                return False
        return False

    def prove_eq(self, name, a, b, timeout=None):
        a, b = SReal.of(a), SReal.of(b)
        return self.prove(name, T.cmp_eq(a - b), timeout)

    def definedness(self, name, cond):
        if self.mute_def or self.def_mode == 'off':
            return
        c = T.mk(cond)
        if c is True:
            return
        key = c.k if isinstance(c, SBool) else c
        if (key, name) in self.deftags:
            return
        self.deftags.add((key, name))
        if isinstance(c, SBool) and T.has_free_vars(c.e):
            return
        if self.def_mode == 'assume':
            self.ex.assumed_def += 1
            if isinstance(c, SBool):
                self.fact(c)
            return
        ok = self.prove('defined: ' + name + ' at ' + _where(), cond, timeout=self.ex.def_timeout)
        if isinstance(c, SBool) and ok:
            self.fact(c)
        elif isinstance(c, SBool):
            self.fact(c)


def _where():
    """Source position of the innermost shadow frame."""
    import sys
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith('<shadow>'):
            return f'{fn[8:]}:{f.f_lineno}'
        f = f.f_back
    return 'contract'


class Explorer:
    """Runs a target over every feasible path."""

    def __init__(self, name, fn, max_paths=3000, max_depth=200, timeout=25.0,
                 def_mode='prove', def_timeout=12.0, budget=400.0, merge=3):
        self.merge = merge
        self.nomerge = set()
        self.name = name
        self.fn = fn
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.timeout = timeout
        self.def_mode = def_mode
        self.def_timeout = def_timeout
        self.results = []
        self.cache = {}
        self.keep = []
        self.work = [[]]
        self.paths = 0
        self.reached = 0
        self.assumed_def = 0
        self.bounds_ok = 0
        self.error = None
        self.budget = budget

    def push(self, prefix):
        self.work.append(prefix)

    def add(self, r):
        self.results.append(r)

    def run(self):
        t0 = time.time()
        while self.work:
            if self.paths >= self.max_paths or time.time() - t0 > self.budget:
                self.error = f'stopped after {self.paths} paths / {time.time() - t0:.0f} s'
                break
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            T._CTX.append(ctx)
            self.paths += 1
            try:
                self.fn(ctx)
                if len(ctx.frames) != 1 or ctx.merges or ctx.scope_marks:
                    raise Unsupported('unbalanced frames')
                if ctx.fsolver.check() != z3.unsat:
                    self.reached += 1
            except PathAbort as e:
                if str(e) == 'iteration proved':
                    # an iteration that contradicts its facts proves nothing
                    self.iterations = getattr(self, 'iterations', 0) + 1
                    if ctx.fsolver.check() != z3.unsat:
                        self.iter_reached = getattr(self, 'iter_reached', 0) + 1
            except MergeFail as e:
                self.nomerge.add(e.pos)
                self.results, self.work, self.paths, self.reached = [], [[]], 0, 0
                self.restarts = getattr(self, 'restarts', 0) + 1
                if self.restarts > 60:
                    self.error = 'too many merge failures'
                    break
            except Unsupported as e:
                self.error = f'outside the verified subset: {e}\n' + _tb()
                break
            except Exception as e:   # an exception escaping the code
                ok = False
                try:
                    st = solve(ctx.hyps(), z3.BoolVal(False), 10)
                    ok = st[0] == 'proved'
                except Exception:
                    pass
                if not ok:
                    self.add(Result(f'{self.name}: no unexpected exception', 'unknown', '-', 0,
                                    f'{type(e).__name__}: {e}\n{_tb()}'))
                    self.error = f'exception {type(e).__name__}: {e}\n{_tb()}'
                    break
            finally:
                T._CTX.pop()
            if sum(r.status != 'proved' for r in self.results) >= 4:
                break       # failed already; the other paths are not needed
        if not self.error and getattr(self, 'iterations', 0) and not getattr(self, 'iter_reached', 0):
            self.error = 'no iteration of the loop is consistent with the facts (vacuous)'
        return self

    def summary(self):
        return dict(
            target=self.name, paths=self.paths, reached=self.reached,
            obligations=len(self.results),
            discharged=sum(r.status == 'proved' for r in self.results),
            backends=_count(r.backend for r in self.results if r.status == 'proved'),
            solver_s=round(sum(r.secs for r in self.results), 3),
            assumed_definedness=self.assumed_def,
            error=self.error,
            failed=[r.as_dict() for r in self.results if r.status != 'proved'][:12],
        )


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def _tb():
    return ''.join(traceback.format_exc().splitlines(True)[-14:])
