"""The symbolic interpreter: executes the ASTs of the real functions of /repo (and of the specifications) for all
values of the symbolic inputs, forking on feasible branches and merging at joins."""
import ast
import os
import time
import builtins
import collections
import contextlib
import datetime
import decimal
import enum
import inspect
import sys
import types

import z3

from .values import *  # noqa
from .ops import *  # noqa
from .ops import _has_sym
from .intervals import Intervals

INTERP_PREFIXES = ('weatherlink', 'specs')

_NATIVE_CTX = contextlib.contextmanager(lambda: None).__code__ if hasattr(
    contextlib.contextmanager(lambda: None), '__code__') else None


TRACE = bool(os.environ.get('PYVER_TRACE'))


SKIP = enum.Enum('Skip', 'skip').skip


class Closure(object):
    """A function or lambda defined by interpreted code."""

    def __init__(self, node, frame, globals_, defaults, kwdefaults, info):
        self.node = node
        self.frame = frame
        self.globals = globals_
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.info = info


class Bound(object):
    """A bound method whose receiver is a value of the verified program."""
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Method(object):
    """A modelled method of a symbolic value or heap object."""
    __slots__ = ('name', 'obj')

    def __init__(self, name, obj):
        self.name = name
        self.obj = obj


class SuperProxy(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenCall(object):
    """A call of a generator function that has not run yet."""
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class CtxGen(GenCall):
    """The result of calling a @contextlib.contextmanager function."""
    __slots__ = ()


class FnInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.body = node.body if isinstance(node.body, list) else [ast.Return(
            value=node.body, lineno=node.lineno, col_offset=node.col_offset)]
        self.locals = set(self.posargs) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self._scan(self.body)
        self.locals -= self.globals | self.nonlocals

    def _scan(self, nodes):
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                # comprehension targets live in this frame under mangled names handled at evaluation
                self._scan([g.iter for g in n.generators])
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            self._scan(ast.iter_child_nodes(n))


class Oracle(object):
    def __init__(self, script):
        self.script = script
        self.trace = []      # entries: [nalts or list of alternatives, choice, payload]


# The attributes the contracts take into account: what an object remembers beyond them could matter in a later call.
KNOWN_ATTRIBUTES = frozenset("""_archive_table_column_map _archive_table_name _connection _session _socket
_station_time_zone _stop_event api_token console_version daily_records daily_summaries database day_indexes degrees
file_name header host max_account_records month packet_type password port record_count record_minute_span record_queue
records start_index station_id username version_code year""".split())


class Engine(Ops):
    def __init__(self, timeout_ms=1500):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []        # [(cond, axioms asserted before it)]
        self.axioms = []
        self.axiom_keys = set()
        self.n_ax = 0
        self.keep = []
        self.ivals = Intervals()
        self.st = State()
        self.oracle = None
        self.depth = 0
        self.in_post = False
        self.yield_handlers = {}
        self.cur_exc = []
        self.modules = {}
        self.fn_cache = {}
        self.contracts = {}
        self.models = {}
        self.replaced = {}
        self.loop_contracts = {}
        self.interpreted = {}    # qualified names of interpreted functions -> number of calls
        self.contract_uses = {}
        self.new_state = set()    # attributes of objects of the tree that the contracts do not mention
        self.assumptions = set()
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0}
        self.max_unroll = 400
        self.deadline = None
        self.afresh = 0          # milliseconds for another attempt, by a solver that starts afresh, where the first gives up
        self.ghost_loops = []
        from . import models
        models.install(self)

    # ---- solver ----------------------------------------------------------------------------------------------------
    def _sync(self, pc):
        i = 0
        while i < len(pc) and i < len(self.stack) and self.stack[i][0] is pc[i]:
            i += 1
        if i < len(self.stack):
            self.solver.pop(len(self.stack) - i)
            self.n_ax = self.stack[i][1]
            del self.stack[i:]
        for c in pc[i:]:
            self.stack.append((c, self.n_ax))
            self.solver.push()
            self.solver.add(c)
        if self.n_ax < len(self.axioms):
            self.solver.add(*self.axioms[self.n_ax:])
            self.n_ax = len(self.axioms)

    def check(self, cond, pc=None):
        """sat / unsat / unknown of pc and cond."""
        import time
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the verifier exhausted')
        t0 = time.time()
        self._sync(self.st.pc if pc is None else pc)
        self.solver.push()
        if cond is not True:
            self.solver.add(zbool(cond))
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown and self.afresh:
            s = z3.Solver()
            s.set('timeout', self.afresh)
            s.add(*self.axioms)
            s.add(*(self.st.pc if pc is None else pc))
            if cond is not True:
                s.add(zbool(cond))
            r = s.check()
            self.stats['afresh'] = self.stats.get('afresh', 0) + 1
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r

    def valid(self, cond):
        """Whether the path condition implies cond (definitely)."""
        c = simp_cond(cond)
        if c is True or c is False:
            return c
        v = self.ivals.truth(c)
        if v is not None:
            return v
        r = self.check(z_not(c))
        if r == z3.unknown and not self.afresh:
            return bv_unsat(list(self.axioms) + list(self.st.pc) + [zbool(z_not(c))], 20000)
        return r == z3.unsat

    def assume(self, cond):
        c = simp_cond(cond)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.st.pc = self.st.pc + (c,)

    # ---- decisions -------------------------------------------------------------------------------------------------
    def branch(self, cond):
        """Fork on a condition; returns a bool."""
        c = simp_cond(cond)
        if c is True or c is False:
            return c
        o = self.oracle
        if o is None:
            raise RuntimeError('branch outside explore')
        k = len(o.trace)
        if k < len(o.script):
            alts, choice = o.script[k]
            o.trace.append((alts, choice))
        else:
            v = self.ivals.truth(c)
            if v is not None:
                alts = [v]
            elif self.check(c) == z3.unsat:
                alts = [False]
            else:
                b = self.check(z_not(c))
                alts = [True] if b == z3.unsat else [True, False]
            choice = alts[0]
            o.trace.append((alts, choice))
        alts, choice = o.trace[-1]
        if len(alts) > 1:
            self.st.pc = self.st.pc + (c if choice else z_not(c),)
            self.st.salt = salt(('b', self.st.salt, self.st.n, choice))
            self.st.n = 0
        return choice

    def choose(self, conds):
        """Fork over exclusive, exhaustive conditions; returns the index chosen."""
        o = self.oracle
        k = len(o.trace)
        if k < len(o.script):
            alts, choice = o.script[k]
        else:
            alts = []
            for i, c in enumerate(conds):
                c2 = simp_cond(c)
                if c2 is False:
                    continue
                if c2 is True or self.check(c2) != z3.unsat:
                    alts.append(i)
            if not alts:
                raise Infeasible()
            choice = alts[0]
        o.trace.append((alts, choice))
        if len(alts) > 1:
            c = simp_cond(conds[choice])
            if c is not True:
                self.st.pc = self.st.pc + (c,)
            self.st.salt = salt(('c', self.st.salt, self.st.n, choice))
            self.st.n = 0
        return choice

    def choose_outcome(self, compute):
        """compute() -> list of (state, kind, value) from the current state; continue in one of them."""
        o = self.oracle
        k = len(o.trace)
        if k < len(o.script):
            alts, choice = o.script[k]
        else:
            # decisions made on the way belong to compute(), not to the path that continues from its outcomes
            self.oracle = Oracle([])
            try:
                alts = compute()
                if any(len(a) > 1 for a, _ in self.oracle.trace):
                    raise Unsupported('a decision outside of an exploration')
            finally:
                self.oracle = o
            if not alts:
                raise Infeasible()
            choice = 0
        o.trace.append((alts, choice))
        st, kind, val = alts[choice]
        self.st = st.fork(('o', choice)) if len(alts) > 1 else st.copy()
        if kind == 'raise':
            raise PyRaise(val)
        return val

    def explore(self, thunk):
        """All outcomes [(state, 'val'|'raise', value)] of a thunk run from the current state."""
        base = self.st
        saved = self.oracle
        results = []
        todo = [[]]
        try:
            while todo:
                script = todo.pop()
                self.st = base.copy()
                self.oracle = Oracle(script)
                out = None
                try:
                    v = thunk()
                    out = (self.st, 'val', v)
                except PyRaise as e:
                    out = (self.st, 'raise', e.exc)
                except Infeasible:
                    out = None
                tr = self.oracle.trace
                for i in range(len(script), len(tr)):
                    alts, choice = tr[i]
                    n = range(1, len(alts)) if alts and isinstance(alts[0], tuple) else None
                    if n is not None:
                        for j in n:
                            todo.append(tr[:i] + [(alts, j)])
                    else:
                        for a in alts[1:]:
                            todo.append(tr[:i] + [(alts, a)])
                self.stats['paths'] += 1
                if self.stats['paths'] > 200000 or len(results) > 4000:
                    raise Unsupported('too many paths')
                if out is not None:
                    results.append(out)
        finally:
            self.oracle = saved
        self.st = base
        return results

    def sub(self, thunk):
        """Evaluate a thunk, exploring its branches and merging the results into one value when possible."""
        def compute():
            outs = self.explore(thunk)
            return self.merge_outcomes(outs)
        return self.choose_outcome(compute)

    def resolve(self, v):
        """A non-Union value (forks)."""
        while isinstance(v, Union):
            v = v.alts[self.choose([c for c, _ in v.alts])][1]
        return v

    def concrete_enum(self, v):
        """Fork a symbolic enum member into concrete members."""
        ms = [m for m in v.cls]
        return ms[self.choose([v.t == m.value for m in ms])]

    # ---- merging of states -----------------------------------------------------------------------------------------
    def merge_outcomes(self, outs):
        """Merge outcomes of the same kind where possible."""
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        for st, kind, v in outs:
            if kind == 'raise':
                key = (kind, self.exc_key(v))
            else:
                key = (kind,)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((st, v))
        res = []
        for key in order:
            kind = key[0]
            if kind == 'raise' and key[1][0] == 'n':
                v0 = groups[key][0][1]   # equal exceptions count as one
                groups[key] = [(st, v0) for st, v in groups[key]]
            for st, v in self.merge_list(groups[key]):
                res.append((st, kind, v))
        return res

    def exc_key(self, exc):
        if isinstance(exc, Ref):
            return ('ref', exc.id)
        return ('n', type(exc), getattr(exc, 'args', None) if not isinstance(exc, Sym) else None) if _hashable(
            getattr(exc, 'args', None)) else ('id', id(exc))

    def merge_list(self, items):
        """items: [(state, value)] -> merged list."""
        if len(items) == 1:
            return items
        m = self.merge_states(items)
        if m is not None:
            return [m]
        # try pairwise
        out = [items[0]]
        for it in items[1:]:
            for i, o in enumerate(out):
                m = self.merge_states([o, it])
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(it)
        return out

    def merge_states(self, items):
        sts = [s for s, _ in items]
        pcs = [s.pc for s in sts]
        n = min(len(p) for p in pcs)
        i = 0
        while i < n and all(p[i] is pcs[0][i] for p in pcs[1:]):
            i += 1
        base = pcs[0][:i]
        conds = [z_and(*p[i:]) for p in pcs]
        heap = {}
        ids = {}
        for s in sts:
            for k in s.heap:
                ids[k] = None
        try:
            for k in ids:
                have = [(c, s.heap[k]) for c, s in zip(conds, sts) if k in s.heap]
                o0 = have[0][1]
                if all(o is o0 for _, o in have[1:]):
                    heap[k] = o0
                else:
                    heap[k] = self.merge_obj(have)
            val = self.merge_vals([(c, v) for c, (_, v) in zip(conds, items)])
        except CannotMerge:
            return None
        disj = simp_cond(z_or(*conds))
        pc = base if disj is True else base + (disj,)
        if disj is not True and disj is not False and len(conds) <= 12:
            if self.check(z_not(disj), base) == z3.unsat:
                pc = base
        return State(pc, heap, salt(('m',) + tuple((s.salt, s.n) for s in sts)), 0), val

    def merge_obj(self, have):
        t = type(have[0][1])
        if any(type(o) is not t for _, o in have):
            raise CannotMerge()
        if t is Frame:
            return Frame(self.merge_maps([(c, o.vars) for c, o in have]))
        if t is InstObj:
            o0 = have[0][1]
            if any(o.cls is not o0.cls for _, o in have):
                raise CannotMerge()
            attrs = self.merge_maps([(c, o.attrs) for c, o in have])
            ps = [(c, o.payload) for c, o in have]
            if all(p is ps[0][1] for _, p in ps):
                payload = ps[0][1]
            elif isinstance(ps[0][1], (DictObj, ListObj)):
                payload = self.merge_obj(ps)
            elif isinstance(ps[0][1], tuple):
                payload = self.merge_vals(ps)
                if not isinstance(payload, tuple):
                    raise CannotMerge()
            else:
                raise CannotMerge()
            return InstObj(o0.cls, attrs, payload)
        if t is ListObj:
            return self.merge_lists(have)
        if t is DictObj:
            return self.merge_dicts(have)
        if t is StreamObj:
            o0 = have[0][1]
            if any(o.name != o0.name or o.closed != o0.closed for _, o in have):
                raise CannotMerge()
            pos = self.merge_vals([(c, o.pos) for c, o in have])
            if isinstance(pos, Union):
                raise CannotMerge()
            return StreamObj(o0.name, o0.byte, pos, o0.length, o0.closed)
        raise CannotMerge()

    def merge_maps(self, maps):
        keys = {}
        for _, m in maps:
            for k in m:
                keys[k] = None
        out = {}
        for k in keys:
            vals = [(c, m.get(k, UNBOUND)) for c, m in maps]
            v0 = vals[0][1]
            out[k] = v0 if all(v is v0 for _, v in vals[1:]) else self.merge_vals(vals)
        return out

    def merge_lists(self, have):
        o0 = have[0][1]
        if any(o.maxlen != o0.maxlen or o.kind != o0.kind for _, o in have):
            raise CannotMerge()
        base = o0.base
        if any((o.base is None) != (base is None) for _, o in have):
            raise CannotMerge()
        if base is not None and not all(self.same(o.base, base) for _, o in have):
            base = self.merge_vals([(c, o.base) for c, o in have])
            if not isinstance(base, SOpaque):
                raise CannotMerge()
        n = len(o0.items)
        if all(len(o.items) == n for _, o in have) and all(
                all(_same_guard(o.items[i][0], o0.items[i][0]) for _, o in have) for i in range(n)):
            items = [(o0.items[i][0], self.merge_vals([(c, o.items[i][1]) for c, o in have])) for i in range(n)]
            return ListObj(items, base, o0.maxlen, o0.kind)
        if o0.maxlen is not None or base is not o0.base:
            raise CannotMerge()
        # common prefix, then guarded suffixes
        k = 0
        m = min(len(o.items) for _, o in have)
        while k < m and all(_same_guard(o.items[k][0], o0.items[k][0]) and self.same(o.items[k][1], o0.items[k][1])
                            for _, o in have):
            k += 1
        items = list(o0.items[:k])
        # a single branch appended: simple guarded entries; otherwise align entries appended by several branches
        suffixes = [(c, o.items[k:]) for c, o in have]
        longest = max(len(s) for _, s in suffixes)
        if all(len(s) in (0, longest) for _, s in suffixes):
            full = [(c, s) for c, s in suffixes if len(s) == longest]
            g = z_or(*[c for c, _ in full])
            for i in range(longest):
                gi = z_and(g, z_or(*[z_and(c, s[i][0]) for c, s in full])) if any(
                    s[i][0] is not True for _, s in full) else g
                items.append((zbool(gi), self.merge_vals([(c, s[i][1]) for c, s in full])))
        else:
            for c, s in suffixes:
                for g, v in s:
                    items.append((zbool(z_and(c, g)), v))
        if len(items) > 200:
            raise CannotMerge()
        return ListObj(items, base, o0.maxlen, o0.kind)

    def merge_dicts(self, have):
        o0 = have[0][1]
        if any(o.kind != o0.kind or o.default is not o0.default or (o.base is None) != (o0.base is None)
               for _, o in have):
            raise CannotMerge()
        base = o0.base
        if base is not None and not all(self.same(o.base, base) for _, o in have):
            base = self.merge_vals([(c, o.base) for c, o in have])
            if not isinstance(base, SOpaque):
                raise CannotMerge()
        keys = {}
        for _, o in have:
            for k in o.entries:
                keys[k] = None
        entries = {}
        for k in keys:
            hs = [(c, o.entries[k]) for c, o in have if k in o.entries]
            e0 = hs[0][1]
            if len(hs) == len(have) and all(e is e0 for _, e in hs):
                entries[k] = e0
                continue
            if len(hs) == len(have) and all(e[0] is True for _, e in hs):
                g = True
            else:
                g = simp_cond(z_or(*[z_and(c, e[0]) for c, e in hs]))
            entries[k] = (g, self.merge_vals([(c, e[1]) for c, e in hs]))
        ex = []
        if all(len(o.extra) == len(o0.extra) and all(
                x is y or (_same_guard(x[0], y[0]) and self.same(x[1], y[1]) and self.same(x[2], y[2]))
                for x, y in zip(o.extra, o0.extra)) for _, o in have):
            ex = o0.extra
        else:
            k = 0
            m = min(len(o.extra) for _, o in have)
            while k < m and all(o.extra[k] is o0.extra[k] for _, o in have):
                k += 1
            ex = list(o0.extra[:k])
            for c, o in have:
                for g, kk, v in o.extra[k:]:
                    ex.append((zbool(z_and(c, g)), kk, v))
        return DictObj(entries, ex, o0.default, o0.kind, base)

    # ---- heap ------------------------------------------------------------------------------------------------------
    def alloc(self, obj, kind):
        i = self.st.fresh_id()
        self.st.heap[i] = obj
        return Ref(i, kind)

    def obj(self, ref):
        return self.st.heap[ref.id]

    def put(self, ref, obj):
        self.st.heap[ref.id] = obj

    def fresh_name(self, hint):
        return '%s!%s' % (hint, self.st.fresh_id())

    def new_list(self, vals, kind='list'):
        return self.alloc(ListObj([(True, v) for v in vals], kind=kind), kind)

    def new_dict(self, pairs=(), kind='dict', default=None):
        r = self.alloc(DictObj({}, default=default, kind=kind), kind)
        for k, v in pairs:
            self.dict_set(r, k, v)
        return r

    def from_native(self, v):
        """Bring the result of a native call into the program: fresh mutable containers become heap objects."""
        if type(v) in (list, collections.deque):
            r = self.new_list([self.from_native(x) for x in v], 'list' if type(v) is list else 'deque')
            return r
        if type(v) is dict:
            return self.new_dict([(k, self.from_native(x)) for k, x in v.items()])
        if type(v) is set:
            return self.new_dict([(k, None) for k in v], 'set')
        if type(v) is tuple:
            return tuple(self.from_native(x) for x in v)
        return v

    def to_native(self, v):
        """A native copy of a deeply concrete value; Unsupported otherwise."""
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj) and o.base is None and all(g is True for g, _ in o.items):
                xs = [self.to_native(x) for _, x in o.items]
                if o.kind == 'deque':
                    return collections.deque(xs, o.maxlen)
                return xs if o.kind == 'list' else bytearray(xs)
            if isinstance(o, DictObj) and o.base is None and not o.extra and all(
                    g is True for g, _ in o.entries.values()):
                if o.kind in ('set', 'frozenset'):
                    return set(o.entries)
                return {k: self.to_native(x) for k, (_, x) in o.entries.items()}
            raise Unsupported('native use of %r' % (v,))
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, Sym):
            raise Unsupported('native use of a symbolic value %r' % (v,))
        return v

    # ---- source of functions -----------------------------------------------------------------------------------------
    def module_ast(self, module):
        m = self.modules.get(module.__name__)
        if m is None:
            with open(module.__file__) as f:
                src = f.read()
            tree = ast.parse(src)
            index = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    line = n.lineno
                    index.setdefault(line, []).append(n)
                    if isinstance(n, ast.FunctionDef) and n.decorator_list:
                        index.setdefault(n.decorator_list[0].lineno, []).append(n)
            m = self.modules[module.__name__] = (tree, index)
        return m

    def fn_info(self, func):
        code = func.__code__
        info = self.fn_cache.get(code)
        if info is None:
            module = sys.modules[func.__module__]
            _, index = self.module_ast(module)
            cands = index.get(code.co_firstlineno, [])
            if code.co_name == '<lambda>':
                cands = [c for c in cands if isinstance(c, ast.Lambda)]
                if len(cands) > 1:
                    pos = [(p[0], p[2]) for p in code.co_positions() if p[2] is not None and p[0] == cands[0].body.lineno]
                    pos = [p for p in pos if p[1] > 0]
                    start = min(p[1] for p in pos) if pos else None
                    cands = [c for c in cands if start is not None and
                             c.body.col_offset <= start and start < (c.body.end_col_offset or 10 ** 9)] or cands
                    cands = sorted(cands, key=lambda c: c.body.end_col_offset - c.body.col_offset)[:1]
            else:
                cands = [c for c in cands if isinstance(c, ast.FunctionDef) and c.name == code.co_name]
            if not cands:
                raise Unsupported('no source for %s' % func.__qualname__)
            info = self.fn_cache[code] = FnInfo(cands[0], module)
        return info

    def interpretable(self, func):
        return isinstance(func, types.FunctionType) and (func.__module__ or '').split('.')[0] in INTERP_PREFIXES

    # ---- calls -----------------------------------------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = tuple(args)
        if isinstance(f, Union):
            f = self.resolve(f)
        if isinstance(f, SEnum):
            f = self.concrete_enum(f)
        if isinstance(f, Bound):
            return self.call(f.func, (f.self_,) + args, kwargs)
        if isinstance(f, types.MethodType):
            m = self.models.get(f.__func__)
            if m is not None:
                return m(self, (f.__self__,) + args, kwargs)
            if self.interpretable(f.__func__) or f.__func__ in self.contracts:
                return self.call(f.__func__, (f.__self__,) + args, kwargs)
        if isinstance(f, Method):
            from . import models
            return models.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Closure):
            return self.call_info(f.info, f.globals, f.frame, f.defaults, f.kwdefaults, args, kwargs, '<closure>')
        if isinstance(f, Ref):
            c = self.get_attr(f, '__call__')
            return self.call(c, args, kwargs)
        try:
            f = self.replaced.get(f, f)
            c = self.contracts.get(f)
            m = self.models.get(f)
        except TypeError:
            c = m = None
        if c is not None:
            name = getattr(f, '__qualname__', str(f))
            if (getattr(f, '__module__', None) or '').startswith(('specs', 'pyver')):
                name = 'ghost ' + name
            self.contract_uses[name] = self.contract_uses.get(name, 0) + 1
            return c(self, args, kwargs)
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            if self.is_ctx(f):
                return CtxGen(f.__wrapped__, args, kwargs)
            if self.interpretable(f):
                return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        from . import models
        return models.call_native(self, f, args, kwargs)

    def is_ctx(self, f):
        return _NATIVE_CTX is not None and f.__code__ is _NATIVE_CTX and hasattr(f, '__wrapped__')

    def call_function(self, func, args, kwargs):
        info = self.fn_info(func)
        if info.is_gen:
            return GenCall(func, args, kwargs)
        name = '%s.%s' % (func.__module__, func.__qualname__)
        self.interpreted[name] = self.interpreted.get(name, 0) + 1
        return self.call_info(info, func.__globals__, _cells(func), func.__defaults__ or (), func.__kwdefaults__ or {},
                              args, kwargs, name, func)

    def bind(self, info, globals_, closure, defaults, kwdefaults, args, kwargs, name):
        vars_ = {}
        n = len(info.posargs)
        if len(args) > n and not info.vararg:
            raise PyRaise(TypeError('%s() takes %d positional arguments but %d were given' % (name, n, len(args))))
        for a, v in zip(info.posargs, args):
            vars_[a] = v
        if info.vararg:
            vars_[info.vararg] = tuple(args[n:])
        extra = {}
        for k, v in kwargs.items():
            if k in info.posargs or k in info.kwonly:
                if k in vars_:
                    raise PyRaise(TypeError("%s() got multiple values for argument '%s'" % (name, k)))
                vars_[k] = v
            elif info.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError("%s() got an unexpected keyword argument '%s'" % (name, k)))
        for a, v in zip(info.posargs[n - len(defaults):], defaults):
            vars_.setdefault(a, v)
        for a in info.kwonly:
            if a not in vars_ and a in kwdefaults:
                vars_[a] = kwdefaults[a]
        for a in info.posargs + info.kwonly:
            if a not in vars_:
                raise PyRaise(TypeError("%s() missing 1 required positional argument: '%s'" % (name, a)))
        if info.kwarg:
            vars_[info.kwarg] = self.new_dict(extra.items())
        fr = self.alloc(Frame(vars_), 'frame')
        return Scope(fr, info, globals_, closure)

    def call_info(self, info, globals_, closure, defaults, kwdefaults, args, kwargs, name, func=None):
        sc = self.bind(info, globals_, closure, defaults, kwdefaults, args, kwargs, name)
        sc.func = func
        if self.depth > 150:
            raise Unsupported('recursion too deep')

        def compute():
            self.depth += 1
            try:
                outs = self.exec_block(info.body, sc)
            finally:
                self.depth -= 1
            res = []
            for st, kind, v in outs:
                if kind == 'next':
                    res.append((st, 'val', None))
                elif kind == 'return':
                    res.append((st, 'val', v))
                elif kind == 'raise':
                    res.append((st, 'raise', v))
                else:
                    raise Unsupported(kind)
            for st, kind, v in res:
                # the frame is garbage unless something captured it
                if not sc.captured:
                    st.heap.pop(sc.fr.id, None)
            return self.merge_outcomes(res)
        return self.choose_outcome(compute)

    def instantiate(self, cls, args, kwargs):
        from . import models
        if issubclass(cls, enum.Enum):
            return models.enum_lookup(self, cls, args)
        mod = (cls.__module__ or '').split('.')[0]
        if issubclass(cls, BaseException):
            if all(not _has_sym(a) for a in args) and not kwargs and mod not in INTERP_PREFIXES:
                try:
                    return cls(*args)
                except Exception as e:
                    raise PyRaise(e)
            init = _find(cls, '__init__')
            r = self.alloc(InstObj(cls, {}, args), 'inst')
            if isinstance(init, types.FunctionType) and self.interpretable(init):
                self.call(init, (r,) + tuple(args), kwargs)
            return r
        if mod in INTERP_PREFIXES:
            if getattr(cls, '__abstractmethods__', None):
                raise PyRaise(TypeError("Can't instantiate abstract class %s" % cls.__name__))
            if _find(cls, '__new__') is not object.__new__ and not issubclass(cls, (dict, list)):
                raise Unsupported('__new__ of %s' % cls.__name__)
            payload = None
            if issubclass(cls, dict):
                payload = DictObj({})
            elif issubclass(cls, list):
                payload = ListObj(())
            elif not all(_plain_class(k) for k in cls.__mro__):
                raise Unsupported('instance of %s' % cls.__name__)
            r = self.alloc(InstObj(cls, {}, payload), 'inst')
            init = _find(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, (r,) + tuple(args), kwargs)
            elif issubclass(cls, dict):
                models.dict_init(self, r, args, kwargs)
            elif args or kwargs:
                raise PyRaise(TypeError('%s() takes no arguments' % cls.__name__))
            return r
        return models.call_native(self, cls, args, kwargs)

    # ---- attributes ------------------------------------------------------------------------------------------------
    def type_of(self, v):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                return o.cls
            return {'list': list, 'deque': collections.deque, 'dict': dict, 'set': set, 'frozenset': frozenset,
                    'defaultdict': collections.defaultdict, 'counter': collections.Counter,
                    'ordereddict': collections.OrderedDict, 'bytearray': bytearray}.get(
                        getattr(o, 'kind', None), object)
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SDec):
            return decimal.Decimal
        if isinstance(v, SFlt):
            return float
        if isinstance(v, SEnum):
            return v.cls
        if isinstance(v, SBStr):
            return bytes
        if isinstance(v, SStr):
            return str
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, SDateTime):
            return datetime.datetime
        if isinstance(v, SDate):
            return datetime.date
        if isinstance(v, STime):
            return datetime.time
        if isinstance(v, STimeDelta):
            return datetime.timedelta
        if isinstance(v, SOpaque):
            if v.pytype is None:
                raise Unsupported('type of %r' % (v,))
            return v.pytype
        if isinstance(v, SSeq):
            return (v.extra or {}).get('pytype', list)
        if isinstance(v, SRange):
            return range
        if isinstance(v, (Closure,)):
            return types.FunctionType
        if isinstance(v, (Bound, Method)):
            return types.MethodType
        return type(v)

    def get_attr(self, v, name):
        from . import models
        if isinstance(v, Union):
            return self.sub(lambda: self.get_attr(self.resolve(v), name))
        if isinstance(v, SuperProxy):
            mro = self.type_of(v.obj).__mro__ if not isinstance(v.obj, type) else v.obj.__mro__
            i = mro.index(v.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return self.bind_attr(k.__dict__[name], v.obj, self.type_of(v.obj)
                                          if not isinstance(v.obj, type) else v.obj, name)
            raise PyRaise(AttributeError("'super' object has no attribute '%s'" % name))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                return self.inst_attr(v, o, name)
            return models.get_method(self, v, name)
        if isinstance(v, SEnum):
            return models.enum_attr(self, v, name)
        if isinstance(v, Sym):
            return models.sym_attr(self, v, name)
        if isinstance(v, (Closure, Bound, Method, GenCall)):
            raise Unsupported('attribute %s of a function' % name)
        fm = models.native_attr(self, v, name)
        if fm is not models.NO:
            return fm
        try:
            if isinstance(v, type):
                for k in v.__mro__:
                    if name in k.__dict__:
                        raw = k.__dict__[name]
                        if isinstance(raw, types.FunctionType) and name != '__init_subclass__':
                            return raw
                        break
            return getattr(v, name)
        except Exception as e:
            raise PyRaise(e)

    def inst_attr(self, ref, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            if any(isinstance(x, Union) and any(y is UNBOUND for _, y in x.alts) for x in o.attrs.values()):
                raise Unsupported('__dict__')
            return self.new_dict([(k, x) for k, x in o.attrs.items() if x is not UNBOUND])
        raw = _find(o.cls, name, None)
        if isinstance(raw, property):
            return self.call(raw.fget, (ref,))
        v = o.attrs.get(name, UNBOUND)
        if v is POISON:
            raise Unsupported('the attribute %s after the loop that changes it' % name)
        if v is not UNBOUND:
            if isinstance(v, Union):
                v = self.drop_unbound(v)
            if v is not UNBOUND:
                return v
        if raw is not None or _has(o.cls, name):
            if issubclass(o.cls, BaseException) and name == 'args':
                return tuple(o.payload)
            return self.bind_attr(raw, ref, o.cls, name)
        ga = _find(o.cls, '__getattr__', None)
        if ga is not None:
            return self.call(ga, (ref, name))
        raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (o.cls.__name__, name)))

    def drop_unbound(self, v):
        alts = [(c, x) for c, x in v.alts if x is not UNBOUND]
        if len(alts) == len(v.alts):
            return v
        i = self.choose([z_or(*[c for c, x in v.alts if x is UNBOUND]), z_or(*[c for c, _ in alts])])
        if i == 0:
            return UNBOUND
        return alts[0][1] if len(alts) == 1 else Union(alts)

    def bind_attr(self, raw, obj, cls, name):
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, cls)
        if isinstance(raw, property):
            return self.call(raw.fget, (obj,))
        if isinstance(raw, types.FunctionType):
            return Bound(raw, obj) if not isinstance(obj, type) else raw
        if isinstance(raw, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType,
                            types.GetSetDescriptorType)) or type(raw).__name__ in ('method_descriptor',
                                                                                 'wrapper_descriptor',
                                                                                 'classmethod_descriptor',
                                                                                 'builtin_function_or_method'):
            return Method(name, obj)
        if isinstance(raw, types.MemberDescriptorType):
            raise Unsupported('__slots__')
        return raw

    def note_state(self, v, name, sc):
        """The tree's code gives an object an attribute that no contract mentions."""
        if name in KNOWN_ATTRIBUTES or not str(sc.globals.get('__name__')).startswith('weatherlink'):
            return
        v = self.resolve(v)
        o = self.obj(v) if isinstance(v, Ref) else None
        if isinstance(o, InstObj) and not _find(o.cls, '__getattr__', None):
            self.new_state.add('%s.%s' % (o.cls.__name__, name))

    def set_attr(self, v, name, value):
        v = self.resolve(v)
        if not isinstance(v, Ref):
            if isinstance(v, Sym):
                raise Unsupported('attribute assignment on %r' % (v,))
            raise Unsupported('assignment to attribute %s of native object %s' % (name, type(v).__name__))
        o = self.obj(v)
        if not isinstance(o, InstObj):
            raise PyRaise(AttributeError(name))
        sa = _find(o.cls, '__setattr__', None)
        if isinstance(sa, types.FunctionType):
            self.call(sa, (v, name, value))
            return
        raw = _find(o.cls, name, None)
        if isinstance(raw, property):
            if raw.fset is None:
                raise PyRaise(AttributeError("can't set attribute"))
            self.call(raw.fset, (v, value))
            return
        attrs = dict(o.attrs)
        attrs[name] = value
        self.put(v, InstObj(o.cls, attrs, o.payload))

    def del_attr(self, v, name):
        v = self.resolve(v)
        o = self.obj(v) if isinstance(v, Ref) else None
        if not isinstance(o, InstObj) or name not in o.attrs:
            raise PyRaise(AttributeError(name))
        attrs = dict(o.attrs)
        del attrs[name]
        self.put(v, InstObj(o.cls, attrs, o.payload))

    # ---- isinstance ------------------------------------------------------------------------------------------------
    def isinstance_(self, v, cls):
        """A condition."""
        if isinstance(v, Union):
            return z_or(*[z_and(c, self.isinstance_(x, cls)) for c, x in v.alts])
        if isinstance(cls, tuple):
            return z_or(*[self.isinstance_(v, c) for c in cls])
        cls = self.replaced.get(cls, cls)
        if isinstance(v, (Sym, Ref)):
            t = self.type_of(v)
            if not isinstance(t, type):
                raise Unsupported('isinstance')
            return issubclass(t, cls)
        if isinstance(v, (Closure, Bound, Method)):
            return cls in (object, collections.abc.Callable)
        return isinstance(v, cls)

    # ---- names -----------------------------------------------------------------------------------------------------
    def lookup(self, name, sc):
        if name in sc.temps:
            return sc.temps[name]
        if name in sc.info.locals:
            v = self.obj(sc.fr).vars.get(name, UNBOUND)
            if isinstance(v, Union):
                v = self.drop_unbound(v)
            if v is POISON or isinstance(v, Union) and any(x is POISON for _, x in v.alts):
                raise Unsupported('variable %s is read after a loop without an invariant for it' % name)
            if v is UNBOUND:
                raise PyRaise(UnboundLocalError("local variable '%s' referenced before assignment" % name))
            return v
        c = sc.closure
        while c is not None:
            if isinstance(c, dict):
                if name in c:
                    try:
                        return c[name].cell_contents
                    except ValueError:
                        raise PyRaise(NameError(name))
                break
            if name in c.temps:
                return c.temps[name]
            if name in c.info.locals:
                v = self.obj(c.fr).vars.get(name, UNBOUND)
                if isinstance(v, Union):
                    v = self.drop_unbound(v)
                if v is UNBOUND:
                    raise PyRaise(NameError(name))
                return v
            c = c.closure
        if name in sc.globals:
            v = sc.globals[name]
        elif hasattr(builtins, name):
            v = getattr(builtins, name)
        else:
            raise PyRaise(NameError("name '%s' is not defined" % name))
        try:
            return self.replaced.get(v, v)
        except TypeError:
            return v

    def assign_name(self, name, value, sc):
        if name in sc.temps:
            sc.temps[name] = value
            return
        if name in sc.info.globals:
            raise Unsupported('assignment to global %s' % name)
        if name in sc.info.nonlocals:
            c = sc.closure
            while c is not None and not isinstance(c, dict):
                if name in c.info.locals:
                    self._set_var(c.fr, name, value)
                    return
                c = c.closure
            raise Unsupported('nonlocal %s' % name)
        self._set_var(sc.fr, name, value)

    def _set_var(self, fr, name, value):
        vars_ = dict(self.obj(fr).vars)
        vars_[name] = value
        self.put(fr, Frame(vars_))

    def assign(self, target, value, sc):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, value, sc)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            vals = self.iter_values(value)
            if star:
                i = star[0]
                if len(vals) < n - 1:
                    raise PyRaise(ValueError('not enough values to unpack'))
                k = len(vals) - (n - 1)
                mid = self.new_list(vals[i:i + k])
                vals = list(vals[:i]) + [mid] + list(vals[i + k:])
            if len(vals) != n:
                raise PyRaise(ValueError('%s values to unpack (expected %d)' % (
                    'too many' if len(vals) > n else 'not enough', n)))
            for t, v in zip(target.elts, vals):
                self.assign(t.value if isinstance(t, ast.Starred) else t, v, sc)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, sc)
            self.note_state(o, target.attr, sc)
            self.set_attr(o, target.attr, value)
        elif isinstance(target, ast.Subscript):
            from . import models
            models.set_item(self, self.ev(target.value, sc), self.ev_index(target.slice, sc), value)
        else:
            raise Unsupported('assignment target %s' % type(target).__name__)

    def iter_values(self, v):
        """The list of values of a finite iterable of known shape (forks on guards)."""
        from . import models
        return models.iter_values(self, v)

    # ---- expressions -----------------------------------------------------------------------------------------------
    def ev(self, e, sc):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, sc)

    def ev_Constant(self, e, sc):
        return e.value

    def ev_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def ev_Attribute(self, e, sc):
        v = self.ev(e.value, sc)
        name = e.attr
        if name.startswith('__') and not name.endswith('__') and sc.cls_name():
            name = '_%s%s' % (sc.cls_name().lstrip('_'), name)
        return self.get_attr(v, name)

    def ev_Tuple(self, e, sc):
        return tuple(self.ev_elts(e.elts, sc))

    def ev_elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_values(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def ev_List(self, e, sc):
        return self.new_list(self.ev_elts(e.elts, sc))

    def ev_Set(self, e, sc):
        return self.new_dict([(v, None) for v in self.ev_elts(e.elts, sc)], 'set')

    def ev_Dict(self, e, sc):
        from . import models
        r = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, r, self.ev(v, sc))
            else:
                kk = self.ev(k, sc)
                self.dict_set(r, kk, self.ev(v, sc))
        return r

    def dict_set(self, r, k, v):
        from . import models
        models.dict_set(self, r, k, v)

    def ev_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        op = _BINOPS[type(e.op)]
        if isinstance(a, Union) or isinstance(b, Union):
            return self.sub(lambda: self.binop(op, a, b))
        return self.binop(op, a, b)

    def ev_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if op == 'not':
            return mk_bool(z_not(self.truth(v)))
        if isinstance(v, Union):
            return self.sub(lambda: self.unop(op, v))
        return self.unop(op, v)

    def ev_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], sc)
            if i == len(e.values) - 1:
                return v
            t = simp_cond(self.truth(v))
            if t is True or t is False:
                return go(i + 1) if t == is_and else v
            if isinstance(v, SBool) and _pure(e.values[i + 1]):
                # no side effects or exceptions possible: build a plain condition
                pass
            if self.branch(t) == is_and:
                return go(i + 1)
            if isinstance(v, SBool):
                return not is_and
            if isinstance(v, Union):
                # on this path its truth is fixed: keep the alternatives that agree
                alts = [(c, x) for c, x in v.alts if simp_cond(self.truth(x)) is not is_and]
                if len(alts) == 1:
                    return alts[0][1]
                if alts:
                    return Union(alts)
            return v
        return self.sub(lambda: go(0))

    def ev_Compare(self, e, sc):
        def go():
            left = self.ev(e.left, sc)
            conds = []
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                right = self.ev(r, sc)
                c = self.cmp(op, left, right)
                if len(e.ops) == 1:
                    return mk_bool(c)
                c = simp_cond(c)
                if c is False:
                    return False if not conds else False
                if c is not True:
                    if i < len(e.ops) - 1 and not _pure(e.comparators[i + 1]):
                        if not self.branch(c):
                            return False
                    else:
                        conds.append(c)
                left = right
            return mk_bool(z_and(*conds))
        if len(e.ops) == 1 and _is_simple_cmp(e.ops[0]):
            return go()
        return self.sub(go)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return z_not(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return z_not(self.equal(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z_not(self.contains(b, a))
        s = _CMPOPS[type(op)]
        if isinstance(a, Union) or isinstance(b, Union):
            return self.truth(self.sub(lambda: mk_bool(self.compare(s, self.resolve(a), self.resolve(b)))))
        return self.compare(s, a, b)

    def equal(self, a, b):
        for v, w in ((a, b), (b, a)):
            if isinstance(v, Ref):
                o = self.obj(v)
                if isinstance(o, InstObj):
                    m = _find(o.cls, '__eq__', None)
                    if isinstance(m, types.FunctionType):
                        return self.truth(self.call(m, (v, w)))
        return self.eq(a, b)

    def is_(self, a, b):
        if isinstance(a, Union):
            return z_or(*[z_and(c, self.is_(x, b)) for c, x in a.alts])
        if isinstance(b, Union):
            return z_or(*[z_and(c, self.is_(a, x)) for c, x in b.alts])
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if a is None or b is None:
            return a is b
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.eq(a, b)
            return False
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            return self.eq(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a is b or self.same(a, b):
                return True
            raise Unsupported('identity of symbolic values')
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(c, (type, types.FunctionType, types.ModuleType, bool, enum.Enum)) or c is ... \
                    or type(c) is object:
                return False
            raise Unsupported('identity of symbolic values')
        return a is b

    def contains(self, coll, v):
        from . import models
        return models.contains(self, coll, v)

    def ev_IfExp(self, e, sc):
        def go():
            t = simp_cond(self.truth(self.ev(e.test, sc)))
            if t is True or t is False:
                return self.ev(e.body if t else e.orelse, sc)
            return self.ev(e.body if self.branch(t) else e.orelse, sc)
        return self.sub(go)

    def ev_Call(self, e, sc):
        # super() and locals-dependent forms
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = sc.def_class(self)
            self_ = self.obj(sc.fr).vars[sc.info.posargs[0]]
            return SuperProxy(cls, self_)
        f = self.ev(e.func, sc)
        args = self.ev_elts(e.args, sc)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                from . import models
                for kk, vv in models.kwargs_items(self, v):
                    if kk in kwargs:
                        raise PyRaise(TypeError("got multiple values for keyword argument '%s'" % kk))
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if isinstance(f, Union) or any(isinstance(a, Union) for a in args):
            return self.sub(lambda: self.call(f, args, kwargs))
        return self.call(f, args, kwargs)

    def ev_Subscript(self, e, sc):
        from . import models
        v = self.ev(e.value, sc)
        i = self.ev_index(e.slice, sc)
        if isinstance(v, Union) or isinstance(i, Union):
            return self.sub(lambda: models.get_item(self, self.resolve(v), self.resolve(i)))
        return models.get_item(self, v, i)

    def ev_index(self, s, sc):
        if isinstance(s, ast.Slice):
            def part(x):
                v = None if x is None else self.resolve(self.ev(x, sc))
                return v
            return SliceV(part(s.lower), part(s.upper), part(s.step))
        return self.ev(s, sc)

    def ev_Lambda(self, e, sc):
        info = self.fn_cache.get(id(e))
        if info is None:
            info = self.fn_cache[id(e)] = FnInfo(e, None)
        sc.captured = True
        return Closure(e, sc, sc.globals, tuple(self.ev(d, sc) for d in e.args.defaults),
                       {a.arg: self.ev(d, sc) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d}, info)

    def ev_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.ev(v.value, sc))
                spec = self.ev(v.format_spec, sc) if v.format_spec else ''
                if not isinstance(spec, str):
                    raise Unsupported('symbolic format')
                if v.conversion == 114:
                    parts.extend(self.as_parts(self.repr_(x)))
                elif spec:
                    parts.extend(self.as_parts(self.format_(x, spec)))
                else:
                    parts.extend(self.as_parts(self.str_(x)))
        return self.mk_str(parts)

    def ev_comp(self, e, sc, emit):
        """Run a comprehension in direct style; emit() is called in the innermost scope."""
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        inner = Scope(sc.fr, sc.info, sc.globals, sc.closure)
        inner.temps = dict(sc.temps)
        inner.parent = sc
        inner.func = sc.func

        def go(i):
            if i == len(e.generators):
                emit(inner)
                return
            g = e.generators[i]
            src = self.ev(g.iter, inner if i else sc)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    inner.temps.setdefault(n.id, UNBOUND)
            for v in self.iter_values(src):
                self.assign(g.target, v, inner)
                ok = True
                for c in g.ifs:
                    t = simp_cond(self.truth(self.ev(c, inner)))
                    if t is True or t is False:
                        ok = t
                    else:
                        ok = self.branch(t)
                    if not ok:
                        break
                if ok:
                    go(i + 1)
        go(0)

    def ev_ListComp(self, e, sc):
        def go():
            sq = self.comp_seq(e, sc)
            if sq is not None:
                return sq
            items = self.comp_guarded(e, sc)
            if items is not None:
                return self.alloc(ListObj(items), 'list')
            out = []
            self.ev_comp(e, sc, lambda s: out.append(self.ev(e.elt, s)))
            return self.new_list(out)
        if any(g.ifs for g in e.generators):
            return self.sub(go)
        return go()

    def comp_guarded(self, e, sc):
        """The items (guard, value) of a comprehension over a list some of whose elements may be missing or left out."""
        g = e.generators[0]
        if len(e.generators) != 1:
            return None
        src = self.for_source(self.ev(g.iter, sc))
        if type(src).__name__ != 'Src' or getattr(src, 'consumed', None) is not None:
            return None
        if all(c is True for c, _ in src.items) and not g.ifs:
            return None
        inner = Scope(sc.fr, sc.info, sc.globals, sc.closure)
        inner.temps = dict(sc.temps)
        inner.parent = sc
        inner.func = sc.func
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                inner.temps.setdefault(n.id, UNBOUND)
        base = self.st
        items = []
        news = {}
        try:
            for c, v in src.items:
                def one():
                    if c is not True:
                        if not self.branch(c):
                            return SKIP
                    self.assign(g.target, v, inner)
                    for t in g.ifs:
                        if not self.branch(self.truth(self.ev(t, inner))):
                            return SKIP
                    return self.ev(e.elt, inner)
                outs = self.merge_outcomes(self.explore(one))
                if len(outs) != 1 or outs[0][1] != 'val':
                    return None
                st, _, r = outs[0]
                for k, o in st.heap.items():
                    if k not in base.heap:
                        news[k] = o
                    elif base.heap[k] is not o:
                        return None
                if r is SKIP:
                    continue
                if isinstance(r, Union):
                    skip = z_or(*[zbool(d) for d, x in r.alts if x is SKIP])
                    rest = [(d, x) for d, x in r.alts if x is not SKIP]
                    items.append((simp_cond(z_not(skip)), rest[0][1] if len(rest) == 1 else Union(rest)))
                else:
                    items.append((True, r))
        finally:
            self.st = base
        if news:
            self.st = base.copy()
            self.st.heap.update(news)
        return items

    def comp_seq(self, e, sc):
        """[f(x) for x in <symbolic sequence>] is again a symbolic sequence."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        return None

    def ev_GeneratorExp(self, e, sc):
        return self.ev_ListComp(e, sc)

    def ev_SetComp(self, e, sc):
        out = []
        self.ev_comp(e, sc, lambda s: out.append((self.ev(e.elt, s), None)))
        return self.new_dict(out, 'set')

    def ev_DictComp(self, e, sc):
        out = []
        self.ev_comp(e, sc, lambda s: out.append((self.ev(e.key, s), self.ev(e.value, s))))
        return self.new_dict(out)

    def ev_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def ev_Starred(self, e, sc):
        raise Unsupported('starred expression')

    # ---- statements ------------------------------------------------------------------------------------------------
    def exec_block(self, stmts, sc):
        """Outcomes [(state, kind, value)] of a statement list from the current state."""
        cur = [self.st]
        outs = []
        for s in stmts:
            nxt = []
            for st in cur:
                self.st = st
                if TRACE:
                    print('trace: %s:%d states %d pc %d paths %d queries %d' % (
                        getattr(sc.func, '__name__', '?'), s.lineno, len(cur), len(st.pc), self.stats['paths'],
                        self.stats['queries']), time.process_time(), flush=True)
                for o in self.exec_stmt(s, sc):
                    if o[1] == 'next':
                        nxt.append((o[0], None))
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge_list(nxt)
                if len(nxt) > 600:
                    raise Unsupported('too many states')
            cur = [st for st, _ in nxt]
            if not cur:
                break
        return outs + [(st, 'next', None) for st in cur]

    def simple(self, thunk):
        outs = []
        for st, kind, v in self.merge_outcomes(self.explore(thunk)):
            outs.append((st, 'next' if kind == 'val' else 'raise', v if kind == 'raise' else None))
        return outs

    def exec_stmt(self, s, sc):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, sc)

    def st_Pass(self, s, sc):
        return [(self.st, 'next', None)]

    def st_Global(self, s, sc):
        return [(self.st, 'next', None)]

    st_Nonlocal = st_Global

    def st_Expr(self, s, sc):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, sc, None)
        if isinstance(s.value, ast.YieldFrom):
            raise Unsupported('yield from')
        return self.simple(lambda: self.ev(s.value, sc))

    def do_yield(self, y, sc, target):
        h = self.yield_handlers.get(sc.fr.id)
        if h is None:
            raise Unsupported('yield outside a handled generator')
        outs = []
        for st, kind, v in self.merge_outcomes(self.explore(
                lambda: self.ev(y.value, sc) if y.value is not None else None)):
            if kind == 'raise':
                outs.append((st, 'raise', v))
                continue
            self.st = st
            outs.extend(h(v))
        return outs

    def st_Assign(self, s, sc):
        if isinstance(s.value, ast.Yield):
            raise Unsupported('value of yield')

        def go():
            v = self.ev(s.value, sc)
            for t in s.targets:
                self.assign(t, v, sc)
        return self.simple(go)

    def st_AnnAssign(self, s, sc):
        if s.value is None:
            return [(self.st, 'next', None)]
        return self.simple(lambda: self.assign(s.target, self.ev(s.value, sc), sc))

    def st_AugAssign(self, s, sc):
        from . import models
        op = _BINOPS[type(s.op)]

        def go():
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.lookup(t.id, sc)
                v = models.inplace(self, op, cur, self.ev(s.value, sc))
                self.assign_name(t.id, v, sc)
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.ev(t.value, sc))
                cur = self.get_attr(o, t.attr)
                self.note_state(o, t.attr, sc)
                self.set_attr(o, t.attr, models.inplace(self, op, cur, self.ev(s.value, sc)))
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.ev(t.value, sc))
                i = self.ev_index(t.slice, sc)
                cur = models.get_item(self, o, i)
                models.set_item(self, o, i, models.inplace(self, op, cur, self.ev(s.value, sc)))
            else:
                raise Unsupported('augmented assignment')
        return self.simple(go)

    def st_Delete(self, s, sc):
        from . import models

        def go():
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assign_name(t.id, UNBOUND, sc)
                elif isinstance(t, ast.Subscript):
                    models.del_item(self, self.resolve(self.ev(t.value, sc)), self.ev_index(t.slice, sc))
                elif isinstance(t, ast.Attribute):
                    self.del_attr(self.ev(t.value, sc), t.attr)
                elif isinstance(t, ast.Tuple):
                    raise Unsupported('del tuple')
        return self.simple(go)

    def st_Return(self, s, sc):
        if s.value is None:
            return [(self.st, 'return', None)]
        outs = []
        for st, kind, v in self.merge_outcomes(self.explore(lambda: self.ev(s.value, sc))):
            outs.append((st, 'return' if kind == 'val' else 'raise', v))
        return outs

    def st_Raise(self, s, sc):
        def go():
            if s.exc is None:
                if not sc.handling:
                    raise PyRaise(RuntimeError('No active exception to reraise'))
                raise PyRaise(sc.handling[-1])
            e = self.resolve(self.ev(s.exc, sc))
            if isinstance(e, type):
                e = self.instantiate(e, (), {})
            raise PyRaise(e)
        return self.simple(go)

    def st_Assert(self, s, sc):
        def go():
            t = simp_cond(self.truth(self.ev(s.test, sc)))
            if t is True:
                return
            if t is False or not self.branch(t):
                raise PyRaise(AssertionError())
        return self.simple(go)

    def st_FunctionDef(self, s, sc):
        def go():
            info = self.fn_cache.get(id(s))
            if info is None:
                info = self.fn_cache[id(s)] = FnInfo(s, None)
            if s.decorator_list:
                raise Unsupported('decorated nested function')
            sc.captured = True
            c = Closure(s, sc, sc.globals, tuple(self.ev(d, sc) for d in s.args.defaults),
                        {a.arg: self.ev(d, sc) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d}, info)
            self.assign_name(s.name, c, sc)
        return self.simple(go)

    def st_Import(self, s, sc):
        def go():
            import importlib
            for al in s.names:
                m = importlib.import_module(al.name)
                self.assign_name((al.asname or al.name.split('.')[0]),
                                 m if al.asname else sys.modules[al.name.split('.')[0]], sc)
        return self.simple(go)

    def st_ImportFrom(self, s, sc):
        def go():
            import importlib
            m = importlib.import_module(s.module)
            for al in s.names:
                v = getattr(m, al.name)
                try:
                    v = self.replaced.get(v, v)
                except TypeError:
                    pass
                self.assign_name(al.asname or al.name, v, sc)
        return self.simple(go)

    def st_If(self, s, sc):
        outs = []
        # the condition as one formula when it can be merged
        for st, kind, v in self.merge_outcomes(self.explore(lambda: mk_bool(self.truth(self.ev(s.test, sc))))):
            if kind == 'raise':
                outs.append((st, 'raise', v))
                continue
            self.st = st
            c = v if isinstance(v, bool) else v.t if isinstance(v, SBool) else self.truth(v)
            c = simp_cond(c)
            if c is True or c is False:
                outs.extend(self.exec_block(s.body if c else s.orelse, sc))
                continue
            ft = self.check(c) != z3.unsat
            ff = self.check(z_not(c)) != z3.unsat if ft else True
            if ft and ff:
                a, b = st.fork('t'), st.fork('e')
                a.pc = a.pc + (c,)
                b.pc = b.pc + (z_not(c),)
                self.st = a
                outs.extend(self.exec_block(s.body, sc))
                self.st = b
                outs.extend(self.exec_block(s.orelse, sc))
            else:
                outs.extend(self.exec_block(s.body if ft else s.orelse, sc))
        return outs

    def st_While(self, s, sc):
        if getattr(self, 'folds', None) and not self.in_post:
            from . import loops
            r = loops.run_while(self, s, sc)
            if r is not None:
                return r
        outs = []
        cur = [self.st]
        n = 0
        while cur:
            n += 1
            if n > self.max_unroll:
                raise Unsupported('while loop not bounded after %d iterations' % self.max_unroll)
            nxt = []
            for st in cur:
                self.st = st
                for st2, kind, v in self.merge_outcomes(self.explore(
                        lambda: mk_bool(self.truth(self.ev(s.test, sc))))):
                    if kind == 'raise':
                        outs.append((st2, 'raise', v))
                        continue
                    c = simp_cond(v if isinstance(v, bool) else v.t)
                    for val in (True, False):
                        if c is (not val):
                            continue
                        st3 = st2
                        if c is not True and c is not False:
                            cc = c if val else z_not(c)
                            if self.check(cc, st2.pc) == z3.unsat:
                                continue
                            st3 = st2.fork(('w', val))
                            st3.pc = st3.pc + (cc,)
                        if not val:
                            self.st = st3
                            outs.extend(self.exec_block(s.orelse, sc))
                            continue
                        self.st = st3
                        for o in self.exec_block(s.body, sc):
                            if o[1] in ('next', 'continue'):
                                nxt.append((o[0], None))
                            elif o[1] == 'break':
                                outs.append((o[0], 'next', None))
                            else:
                                outs.append(o)
            cur = [st for st, _ in self.merge_list(nxt)] if nxt else []
        return outs

    def st_Break(self, s, sc):
        return [(self.st, 'break', None)]

    def st_Continue(self, s, sc):
        return [(self.st, 'continue', None)]

    def st_For(self, s, sc):
        outs = []
        for st, kind, it in self.merge_outcomes(self.explore(lambda: self.for_source(self.ev(s.iter, sc)))):
            if kind == 'raise':
                outs.append((st, 'raise', it))
                continue
            self.st = st
            if isinstance(it, Union):
                for c, x in it.alts:
                    if self.check(c, st.pc) == z3.unsat:
                        continue
                    self.st = st.fork(('u', id(x)))
                    self.st.pc = self.st.pc + (c,)
                    outs.extend(self.for_over(s, sc, x))
                continue
            outs.extend(self.for_over(s, sc, it))
        return outs

    def for_source(self, v):
        from . import models
        return models.for_source(self, v)

    def for_over(self, s, sc, it):
        from . import models, loops
        if isinstance(it, GenCall):
            return self.for_generator(s, sc, it)
        if isinstance(it, models.SymIter):
            ex = it.seq.extra or {}
            if ex.get('tail'):
                return self.for_tail(s, sc, it, ex['base'], ex['tail'])
            return loops.run(self, s, sc, it)
        cur = [(self.st, None)]
        outs = []
        consumed = getattr(it, 'consumed', None)
        for g, v in it.items:
            nxt = []
            for st, _ in cur:
                self.st = st
                if g is not True:
                    gs = simp_cond(g)
                    if gs is False or self.check(gs) == z3.unsat:
                        nxt.append((st, None))
                        continue
                    if gs is not True and self.check(z_not(gs)) != z3.unsat:
                        skip = st.fork('gs')
                        skip.pc = skip.pc + (z_not(gs),)
                        nxt.append((skip, None))
                        st = st.fork('gt')
                        st.pc = st.pc + (gs,)
                        self.st = st
                if consumed is not None:
                    consumed(self, 1)
                for st1, kind, _ in self.simple(lambda: self.assign(s.target, v, sc)):
                    if kind == 'raise':
                        outs.append((st1, kind, _))
                        continue
                    self.st = st1
                    for o in self.exec_block(s.body, sc):
                        if o[1] in ('next', 'continue'):
                            nxt.append((o[0], None))
                        elif o[1] == 'break':
                            outs.append((o[0], 'next', None))
                        else:
                            outs.append(o)
            cur = self.merge_list(nxt) if nxt else []
            if len(cur) > 600:
                raise Unsupported('too many states')
        for st, _ in cur:
            self.st = st
            outs.extend(self.exec_block(s.orelse, sc))
        return outs

    def for_tail(self, s, sc, it, base, tail):
        """A loop over a symbolic sequence followed by known elements."""
        from . import models
        if s.orelse:
            raise Unsupported('for/else over a concatenation')
        flag = '__left__%d' % s.lineno
        src = models.Src([(True, it.wrap(self, z3.simplify(base.length + k), x)) for k, x in enumerate(tail)])
        if any(isinstance(n, ast.Break) for n in ast.walk(s)):
            raise Unsupported('break in a loop over a concatenation')
        from . import loops
        outs = []
        for st, kind, v in loops.run(self, s, sc, models.SymIter(base, it.wrap)):
            self.st = st
            outs.extend(self.for_over(s, sc, src) if kind == 'next' else [(st, kind, v)])
        return outs

    def gen_run(self, g, handler):
        """Run a generator call with a yield handler; outcomes of the generator body."""
        func = g.func
        if isinstance(func, Closure):
            info, glob, clo = func.info, func.globals, func.frame
            sc = self.bind(info, glob, clo, func.defaults, func.kwdefaults, g.args, g.kwargs, '<gen>')
        else:
            info = self.fn_info(func)
            name = '%s.%s' % (func.__module__, func.__qualname__)
            self.interpreted[name] = self.interpreted.get(name, 0) + 1
            sc = self.bind(info, func.__globals__, _cells(func), func.__defaults__ or (), func.__kwdefaults__ or {},
                           g.args, g.kwargs, func.__name__)
            sc.func = func
        self.yield_handlers[sc.fr.id] = handler
        return self.exec_block(info.body, sc)

    def for_generator(self, s, sc, g):
        key = '__pending__%d' % s.lineno

        def handler(v):
            outs = []
            for st1, kind, x in self.simple(lambda: self.assign(s.target, v, sc)):
                self.st = st1
                for st, k, w in self.exec_block(s.body, sc):
                    if k in ('next', 'continue'):
                        outs.append((st, 'next', None))
                    else:
                        self.st = st
                        self._set_var(sc.fr, key, (k, w))
                        outs.append((self.st, 'raise', GeneratorExit()))
            return outs
        outs = []
        for st, kind, v in self.gen_run(g, handler):
            p = st.heap[sc.fr.id].vars.get(key, UNBOUND)
            if kind == 'raise' and isinstance(v, GeneratorExit) and isinstance(p, tuple):
                k, w = p
                vars_ = dict(st.heap[sc.fr.id].vars)
                vars_.pop(key)
                st.heap[sc.fr.id] = Frame(vars_)
                outs.append((st, 'next' if k == 'break' else k, w if k != 'break' else None))
            elif kind == 'raise':
                outs.append((st, kind, v))
            elif p is not UNBOUND:
                raise Unsupported('generator continued after break')
            else:
                self.st = st
                outs.extend(self.exec_block(s.orelse, sc))
        return outs

    def st_With(self, s, sc):
        return self.with_items(s.items, s.body, sc)

    def with_items(self, items, body, sc):
        if not items:
            return self.exec_block(body, sc)
        item, rest = items[0], items[1:]
        outs = []
        for st, kind, cm in self.merge_outcomes(self.explore(lambda: self.resolve(self.ev(item.context_expr, sc)))):
            if kind == 'raise':
                outs.append((st, kind, cm))
                continue
            self.st = st
            if isinstance(cm, CtxGen):
                outs.extend(self.with_gen(item, rest, body, sc, cm))
            else:
                outs.extend(self.with_obj(item, rest, body, sc, cm))
        return outs

    def with_gen(self, item, rest, body, sc, cm):
        key = '__withpending__%d' % item.context_expr.lineno

        def handler(v):
            outs = []
            for st1, kind, x in self.simple(
                    lambda: self.assign(item.optional_vars, v, sc) if item.optional_vars is not None else None):
                self.st = st1
                for st, k, w in self.with_items(rest, body, sc):
                    if k in ('next', 'raise'):
                        outs.append((st, k, w))
                    else:
                        self.st = st
                        self._set_var(sc.fr, key, (k, w))
                        outs.append((self.st, 'next', None))
            return outs
        outs = []
        for st, kind, v in self.gen_run(cm, handler):
            p = st.heap[sc.fr.id].vars.get(key, UNBOUND)
            todo = [(st, kind, v, p)]
            if isinstance(p, Union):
                todo = []
                for c, x in p.alts:
                    if self.check(c, st.pc) != z3.unsat:
                        s2 = st.fork(('p', id(x)))
                        s2.pc = s2.pc + (zbool(c),)
                        todo.append((s2, kind, v, x))
            for st, kind, v, p in todo:
                if p is not UNBOUND:
                    vars_ = dict(st.heap[sc.fr.id].vars)
                    vars_.pop(key)
                    st.heap[sc.fr.id] = Frame(vars_)
                if kind == 'raise':
                    outs.append((st, kind, v))
                elif p is not UNBOUND:
                    outs.append((st, p[0], p[1]))
                else:
                    outs.append((st, 'next', None))
        return outs

    def with_obj(self, item, rest, body, sc, cm):
        def enter():
            v = self.call(self.get_attr(cm, '__enter__'), ())
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, sc)
        outs = []
        for st, kind, v in self.simple(enter):
            if kind == 'raise':
                outs.append((st, kind, v))
                continue
            self.st = st
            for st2, k, w in self.with_items(rest, body, sc):
                self.st = st2
                if k == 'raise':
                    exc = w
                    cls = self.exc_class(exc)
                    for st3, k3, v3 in self.merge_outcomes(self.explore(
                            lambda: mk_bool(self.truth(self.call(self.get_attr(cm, '__exit__'), (cls, exc, None)))))):
                        if k3 == 'raise':
                            outs.append((st3, 'raise', v3))
                            continue
                        c = simp_cond(v3 if isinstance(v3, bool) else v3.t)
                        if c is True:
                            outs.append((st3, 'next', None))
                        elif c is False:
                            outs.append((st3, 'raise', exc))
                        else:
                            a, b = st3.fork('x1'), st3.fork('x0')
                            a.pc += (c,)
                            b.pc += (z_not(c),)
                            outs += [(a, 'next', None), (b, 'raise', exc)]
                else:
                    for st3, k3, v3 in self.simple(
                            lambda: self.call(self.get_attr(cm, '__exit__'), (None, None, None))):
                        if k3 == 'raise':
                            outs.append((st3, 'raise', v3))
                        else:
                            outs.append((st3, k, w))
        return outs

    def exc_class(self, exc):
        return self.type_of(exc)

    def st_Try(self, s, sc):
        mids = []
        for st, kind, v in self.exec_block(s.body, sc):
            self.st = st
            if kind == 'next':
                mids.extend(self.exec_block(s.orelse, sc) if s.orelse else [(st, kind, v)])
            elif kind == 'raise':
                mids.extend(self.handle(s, sc, v))
            else:
                mids.append((st, kind, v))
        if not s.finalbody:
            return mids
        # merge equal outcomes before the finally block
        outs = []
        nexts = [(st, None) for st, k, _ in mids if k == 'next']
        others = [o for o in mids if o[1] != 'next']
        if len(nexts) > 1:
            nexts = self.merge_list(nexts)
        for st, kind, v in [(st, 'next', None) for st, _ in nexts] + others:
            self.st = st
            for o in self.exec_block(s.finalbody, sc):
                outs.append((o[0], kind, v) if o[1] == 'next' else o)
        return outs

    st_TryStar = None

    def handle(self, s, sc, exc):
        cls = self.exc_class(exc)
        if isinstance(exc, GeneratorExit) and not any(h.type is None for h in s.handlers):
            pass
        for h in s.handlers:
            if h.type is not None:
                t = None
                for st, kind, v in self.explore(lambda: self.resolve(self.ev(h.type, sc))):
                    if kind == 'raise':
                        return [(st, kind, v)]
                    t = v
                t = t if isinstance(t, tuple) else (t,)
                t = tuple(self.replaced.get(x, x) for x in t)
                if not issubclass(cls, t):
                    continue
            if h.name:
                self.st = self.st.copy()
                self._set_var(sc.fr, h.name, exc)
            sc.handling.append(exc)
            try:
                outs = self.exec_block(h.body, sc)
            finally:
                sc.handling.pop()
            if h.name:
                for st, _, _ in outs:
                    if sc.fr.id in st.heap:
                        vars_ = dict(st.heap[sc.fr.id].vars)
                        vars_.pop(h.name, None)
                        st.heap[sc.fr.id] = Frame(vars_)
            return outs
        return [(self.st, 'raise', exc)]


class CannotMerge(Exception):
    pass


class SliceV(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Scope(object):
    def __init__(self, fr, info, globals_, closure):
        self.fr = fr
        self.info = info
        self.globals = globals_
        self.closure = closure
        self.temps = {}
        self.handling = []
        self._captured = False
        self.func = None
        self.parent = None

    @property
    def captured(self):
        return self._captured

    @captured.setter
    def captured(self, v):
        self._captured = v
        if self.parent is not None:
            self.parent.captured = v

    def cls_name(self):
        f = self.func
        if f is None:
            c = self.closure
            while c is not None and not isinstance(c, dict):
                if c.func is not None:
                    f = c.func
                    break
                c = c.closure
        if f is None or '.' not in f.__qualname__:
            return None
        return f.__qualname__.split('.')[-2]

    def def_class(self, eng):
        f = self.func
        if f.__closure__ and '__class__' in f.__code__.co_freevars:
            return f.__closure__[f.__code__.co_freevars.index('__class__')].cell_contents
        raise Unsupported('super()')


def bv_unsat(fs, timeout_ms):
    """Whether the bit-vector part of a set of formulas is unsatisfiable on its own.

    Formulas with integer or real arithmetic are left out and applications of uninterpreted functions are replaced by
    constants: both only make the set easier to satisfy, so `True` carries over to the whole set."""
    table = {}

    def purify(t):
        if t.get_id() in memo:
            return memo[t.get_id()]
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            if not (z3.is_bv(t) or z3.is_bool(t)):
                raise ValueError
            r = table.setdefault(t.get_id(), (z3.FreshConst(t.sort(), 'p'), t))[0]
        elif t.num_args() == 0:
            if not (z3.is_bv(t) or z3.is_bool(t)):
                raise ValueError
            r = t
        else:
            if not (z3.is_bv(t) or z3.is_bool(t)):
                raise ValueError
            r = d(*[purify(c) for c in t.children()])
        memo[t.get_id()] = r
        return r
    out = []
    memo = {}
    for f in fs:
        if not z3.is_expr(f):
            continue
        try:
            out.append(purify(f))
        except (ValueError, AttributeError, z3.Z3Exception):
            continue
    if not out:
        return False
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout_ms)
    s.add(*out)
    return s.check() == z3.unsat


def _cells(func):
    if func.__closure__:
        return dict(zip(func.__code__.co_freevars, func.__closure__))
    return None


def _find(cls, name, default=None):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return default


def _has(cls, name):
    return any(name in k.__dict__ for k in cls.__mro__)


def _plain_class(k):
    if k is object:
        return True
    m = (k.__module__ or '').split('.')[0]
    return m in INTERP_PREFIXES or m in ('abc', 'six', 'collections')


def _same_guard(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    return a.eq(b)


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _pure(e):
    """An expression that can neither fork, raise nor have effects worth short-circuiting for."""
    if isinstance(e, ast.Constant):
        return True
    return isinstance(e, ast.Name)


def _is_simple_cmp(op):
    return isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE))


_BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
_CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
