"""Loops over sequences of symbolic length: proved by induction against the specification's own recursion (a Fold).

The specification states what the loop computes as a recursion over the same elements: init(x) is the state before the
first element, step(x, s, e, i) the state after element i.  At the loop head, iteration i, the invariant is: every
variable the body writes either equals one component of the fold state S(i), or is its initial value plus a constant
times i, or is a list whose contents are exactly the items the specification has appended so far, or is dead.  Which of
these applies is found by trial; what is accepted is proved: it holds on entry, and one execution of the body from an
arbitrary i re-establishes it for i + 1 (given S(i + 1) = step(S(i), e_i)).  Leaving early (break, return) is
tied to S(n) by the lemma that a state satisfying stable() is left alone by step() for every element.
"""
import ast
import os

import z3

from .values import *  # noqa
from .ops import *  # noqa

LIST = z3.DeclareSort('ListToken')


class FoldInst(object):
    """A fold of the current case, over uninterpreted functions of the index."""

    def __init__(self, eng, fold, x):
        self.eng, self.fold, self.x = eng, fold, x
        self.proved = {}

    # ---- lemmas are proved from the precondition alone
    def start(self):
        return getattr(self.eng, 'lemma_state', None) or self.eng.st

    def key(self, name):
        return (name, tuple(c.get_id() for c in self.start().pc))

    def clean(self, name):
        return self.proved.get(self.key(name))

    # ---- a fold that looks at another one from some element on
    def offset(self):
        return z3.simplify(int_t(self.eng.resolve(self.eng.call(self.fold.offset, (self.x,)))))

    def below(self):
        return inst_of(self.eng, self.fold.view)

    def view(self, idx):
        """The components: those named like one of the fold below, and functions of its state."""
        eng = self.eng
        at = z3.simplify(self.offset() + idx)
        low = self.below().state(at)
        ns = None
        out = {}
        for k, f in self.fold.state.items():
            if f is None:
                out[k] = low[k]
                continue
            if ns is None:
                from specs import base
                ns = eng.alloc(InstObj(base.NS, low), 'inst')
            outs = eng.merge_outcomes(eng.explore(lambda: eng.call(f, (self.x, ns, SInt(at)))))
            if len(outs) != 1 or outs[0][1] != 'val':
                raise Unsupported('component %s of fold %s forks or raises' % (k, self.fold.name))
            eng.st, _, out[k] = outs[0]
        return out

    def first(self, offset):
        """The number of the first element, from offset on, at which the loop ends; the number of elements if there is none."""
        return z3.Function('first.' + self.fold.name, z3.IntSort(), z3.IntSort())(offset)

    def until(self, idx):
        return zbool(self.eng.truth(self.eng.call(self.fold.until, (self.x, SInt(idx)))))

    def state(self, idx):
        from . import domains
        from specs import base
        eng = self.eng
        attrs = {}
        if self.fold.view is not None:
            return self.view(idx)
        for k, d in self.fold.state.items():
            lf = domains.Leaf(eng, 'S.%s.%s' % (self.fold.name, k), idx)
            lf.nofacts = True
            attrs[k] = domains.sym(d, lf)
        return attrs

    def ns(self, idx):
        from specs import base
        return self.eng.alloc(InstObj(base.NS, self.state(idx)), 'inst')

    def token(self, name, idx):
        f = z3.Function('L.%s.%s' % (self.fold.name, name), z3.IntSort(), LIST)
        return SOpaque(f(idx), list, ('prefix', self.fold.name, name))

    def bag(self, name, idx):
        """(number, sum) of the items of a list."""
        r = self.eng.resolve(self.eng.call(self.fold.bags[name], (self.x, self.ns(idx))))
        return tuple(self.eng.resolve(v) for v in r)

    def bag_token(self, name, idx):
        f = z3.Function('B.%s.%s' % (self.fold.name, name), z3.IntSort(), LIST)
        return SOpaque(f(idx), list, ('bag', self, name, idx))

    def shape(self, name, idx):
        """The items of a list whose contents are a function of the state."""
        eng = self.eng
        r = eng.resolve(eng.call(self.fold.shapes[name], (self.x, self.ns(idx))))
        out = []
        for v in models().iter_values(eng, r):
            g, v = v
            g = simp_cond(eng.truth(g))
            out.append((g if g is True else zbool(g), v))
        return out

    def count(self):
        return self.eng.call(self.fold.count, (self.x,))

    # ---- sets of keys
    def key_terms(self, key):
        key = self.eng.resolve(key)
        parts = key if isinstance(key, tuple) else (key,)
        parts = [self.eng.resolve(p) for p in parts]
        if not all(is_int_like(p) for p in parts):
            raise Unsupported('key %r' % (key,))
        return tuple(canon(int_t(p)) for p in parts)

    def key_of(self, name, idx):
        """The key of an element there is."""
        eng = self.eng
        saved = eng.st

        def thunk():
            eng.assume(z3.And(idx >= 0, idx < int_t(self.count())))
            e = eng.call(self.fold.elem, (self.x, SInt(idx)))
            return eng.resolve(eng.call(self.fold.members[name], (self.x, e, SInt(idx))))
        try:
            eng.st = saved.fork('key')
            outs = eng.explore(thunk)
        finally:
            eng.st = saved
        if len(outs) != 1 or outs[0][1] != 'val':
            raise Unsupported('the key of an element')
        return outs[0][2]

    def member(self, name, key, idx):
        """One of the first idx elements has the key: defined by recursion."""
        eng = self.eng
        ts = self.key_terms(key)
        idx = z3.simplify(zi(idx))
        if z3.is_int_value(idx) and idx.as_long() <= 0:
            return z3.BoolVal(False)
        f = z3.Function('M.%s.%s.%d' % (self.fold.name, name, len(ts)), *([z3.IntSort()] * (len(ts) + 1) + [z3.BoolSort()]))
        last = z3.simplify(idx - 1)
        if z3.is_const(last) and not z3.is_int_value(last) and last.decl().name().startswith('i'):
            mine = self.key_terms(self.key_of(name, last))
            if len(mine) != len(ts):
                raise Unsupported('keys of different lengths')
            n = int_t(self.count())
            eng.axiom(('member', f.name(), last.get_id()) + tuple(t.get_id() for t in ts), lambda: [z3.Implies(
                z3.And(last >= 0, last < n),
                f(idx, *ts) == z3.Or(f(last, *ts), z3.And(*[a == b for a, b in zip(ts, mine)])))])
            eng.keep.extend([last] + list(ts))
        return f(idx, *ts)

    def set_token(self, name, idx):
        return SOpaque(z3.Function('T.%s.%s' % (self.fold.name, name), z3.IntSort(), LIST)(idx), set,
                       ('members', self, name, idx))

    def arity(self, name):
        if not hasattr(self, 'arities'):
            self.arities = {}
        if name not in self.arities:
            k = self.key_of(name, z3.Int('i!arity'))
            self.arities[name] = (len(k) if isinstance(k, tuple) else 1, isinstance(k, tuple))
        return self.arities[name]

    def place(self, name, key):
        """The position of a key in the order in which the program goes through the set."""
        ts = self.key_terms(key)
        f = z3.Function('P.%s.%s' % (self.fold.name, name), *([z3.IntSort()] * (len(ts) + 1)))
        p = f(*ts)
        eng = self.eng
        n = z3.simplify(int_t(self.count()))
        total = z3.Int('N.%s.%s' % (self.fold.name, name))

        def facts():
            at = [z3.Function('E.%s.%s.%d' % (self.fold.name, name, c), z3.IntSort(), z3.IntSort())(p) for c in range(len(ts))]
            return [total >= 0, z3.Implies(self.member(name, key, n), z3.And(
                p >= 0, p < total, *[a == b for a, b in zip(at, ts)]))]
        eng.axiom(('place', f.name()) + tuple(t.get_id() for t in ts), facts)
        eng.keep.extend(ts)
        return p

    def ordered(self, name, how=None):
        """The members after all elements, each once, in the order in which the program goes through them."""
        eng = self.eng
        k, tupled = self.arity(name)
        total = z3.Int('N.%s.%s' % (self.fold.name, name))
        eng.axiom(('total', self.fold.name, name), lambda: [total >= 0])
        orders = eng.__dict__.setdefault('orders', {})

        def elem(e, j):
            if how is not None and orders.setdefault((self.fold.name, name), how) != how:
                raise Unsupported('the members of a set in two orders')
            ts = [z3.Function('E.%s.%s.%d' % (self.fold.name, name, c), z3.IntSort(), z3.IntSort())(j) for c in range(k)]
            v = tuple(SInt(t) for t in ts) if tupled else SInt(ts[0])
            n = z3.simplify(int_t(self.count()))
            f = z3.Function('P.%s.%s' % (self.fold.name, name), *([z3.IntSort()] * (k + 1)))
            e.axiom(('ordered', self.fold.name, name, j.get_id()), lambda: [z3.Implies(
                z3.And(j >= 0, j < total), z3.And(self.member(name, v, n), f(*ts) == j))])
            e.keep.append(j)
            return v
        return SSeq(name, total, elem, {'pytype': list, 'members': (self, name)})

    def check_about(self):
        """about() holds of everything before the first element, and each element keeps it."""
        if self.clean('about') is None:
            from . import domains
            eng = self.eng
            saved = eng.st
            ok = True
            i = z3.Int('iabout!%s' % self.fold.name)
            try:
                for later in (False, True):
                    def thunk():
                        d = domains.sym(self.fold.subject, domains.Leaf(eng, 'about!' + self.fold.name))
                        if not later:
                            self.assume_init()
                            return self.about(d, z3.IntVal(0))
                        eng.assume(z3.And(i >= 0, i < int_t(self.count())))
                        eng.assume(self.about(d, i))
                        self.assume_step(i)
                        self.lemmas(i)
                        self.lemmas(z3.simplify(i + 1))
                        return self.about(d, z3.simplify(i + 1))
                    eng.st = self.start().fork(('about', later))
                    for st, kind, c in eng.explore(thunk):
                        eng.st = st
                        if kind != 'val' or not valid_parts(eng, c):
                            explain(eng, 'about %s' % later, kind, c)
                            ok = False
            finally:
                eng.st = saved
            self.proved[self.key('about')] = ok
        return self.clean('about')

    def about(self, d, idx):
        return zbool(self.eng.truth(self.eng.call(self.fold.about, (self.x, d, SInt(idx)))))

    def step(self, idx):
        """dict of the components after element idx, from the current state (may fork)."""
        eng = self.eng
        e = eng.call(self.fold.elem, (self.x, SInt(idx)))
        r = eng.resolve(eng.call(self.fold.step, (self.x, self.ns(idx), e, SInt(idx))))
        return {k: v for k, (g, v) in eng.obj(r).entries.items()}

    def assume_init(self):
        eng = self.eng
        if self.fold.view is not None:
            return
        r = eng.resolve(eng.call(self.fold.init, (self.x,)))
        s0 = self.state(z3.IntVal(0))
        for k, (g, v) in eng.obj(r).entries.items():
            eng.assume(zbool(eq(eng, s0[k], v)))

    def assume_step(self, idx):
        eng = self.eng
        if self.fold.view is not None:
            self.below().assume_step(z3.simplify(self.offset() + idx))
            return self.state(z3.simplify(idx + 1))
        new = self.step(idx)
        s1 = self.state(z3.simplify(idx + 1))
        for k, v in new.items():
            eng.assume(zbool(eq(eng, s1[k], v)))
        return new

    def assume_same(self, i, j):
        """S(i) = S(j)."""
        a, b = self.state(i), self.state(j)
        for k in a:
            self.eng.assume(zbool(eq(self.eng, a[k], b[k])))
        for name in self.fold.lists:
            self.eng.assume(self.token(name, i).t == self.token(name, j).t)

    def stable(self, idx):
        return zbool(self.eng.truth(self.eng.call(self.fold.stable, (self.x, self.ns(idx), SInt(idx)))))

    def closed(self, idx):
        """The closed form of the state, once proved by induction."""
        return zbool(self.eng.truth(self.eng.call(self.fold.closed, (self.x, self.ns(idx), SInt(idx)))))

    def lemmas(self, idx):
        """Facts about S(idx), 0 <= idx <= n, from proved lemmas."""
        if self.fold.view is not None:
            self.below().lemmas(z3.simplify(self.offset() + idx))
            return
        if self.fold.closed is not None:
            if not self.check_closed():
                raise Unsupported('the closed form of fold %s does not hold' % self.fold.name)
            self.eng.assume(self.closed(idx))

    def check_closed(self):
        """closed holds of the first state and is kept by step()."""
        if self.clean('closed') is not None:
            return self.clean('closed')
        eng = self.eng
        saved = eng.st
        ok = True
        i = z3.Int('iclosed!%s' % self.fold.name)

        def first():
            self.assume_init()
            return self.closed(z3.IntVal(0))

        def later():
            eng.assume(z3.And(i >= 0, i < int_t(self.count())))
            eng.assume(self.closed(i))
            self.assume_step(i)
            return self.closed(z3.simplify(i + 1))
        try:
            for tag, thunk in (('first', first), ('later', later)):
                eng.st = self.start().fork(('closed', tag))
                for st, kind, c in eng.explore(thunk):
                    eng.st = st
                    if kind != 'val' or not valid_parts(eng, c):
                        explain(eng, 'closed %s %s' % (self.fold.name, tag), kind, c)
                        ok = False
        finally:
            eng.st = saved
        self.proved[self.key('closed')] = ok
        return ok

    def size(self, name, idx):
        """The number of items in a list after idx elements, by the closed form the fold states and induction proves."""
        if not hasattr(self.fold, 'size'):
            raise Unsupported('the length of list %s of fold %s' % (name, self.fold.name))
        if self.clean('size ' + name) is None:
            self.proved[self.key('size ' + name)] = self.check_size(name)
        if not self.clean('size ' + name):
            raise Unsupported('the length of list %s of fold %s' % (name, self.fold.name))
        return int_t(self.eng.call(self.fold.size, (self.x, name, SInt(idx))))

    def check_size(self, name):
        eng = self.eng
        saved = eng.st
        i = z3.Int('isize!%s' % self.fold.name)

        def later():
            eng.assume(z3.And(i >= 0, i < int_t(self.count())))
            self.assume_step(i)
            self.lemmas(i)
            e = eng.call(self.fold.elem, (self.x, SInt(i)))
            its = eng.resolve(eng.call(self.fold.lists[name], (self.x, self.ns(i), e, SInt(i))))
            if not isinstance(its, tuple):
                return z3.BoolVal(False)
            a, b = [int_t(eng.call(self.fold.size, (self.x, name, SInt(j)))) for j in (i, z3.simplify(i + 1))]
            return b == a + len(its)
        try:
            eng.st = self.start().fork('size')
            if not eng.valid(int_t(eng.call(self.fold.size, (self.x, name, SInt(z3.IntVal(0))))) == 0):
                return False
            eng.st = self.start().fork('size')
            for st, kind, c in eng.explore(later):
                eng.st = st
                if kind != 'val' or not eng.valid(c):
                    return False
        except Unsupported:
            return False
        finally:
            eng.st = saved
        return True

    def check_stable(self):
        """stable(S, i) and i < n imply step(S, e, i) = S and stable(step, i + 1)."""
        if self.clean('stable') is not None:
            return self.clean('stable')
        eng = self.eng
        saved = eng.st
        eng.st = self.start().fork('stable')
        i = z3.Int('istab!%s' % self.fold.name)
        ok = True
        try:
            def thunk():
                eng.assume(z3.And(i >= 0, i < int_t(self.count())))
                eng.assume(self.stable(i))
                s0 = self.state(i)
                new = self.step(i)
                good = [eq(eng, s0[k], v) for k, v in new.items()]
                for name, f in self.fold.lists.items():
                    e = eng.call(self.fold.elem, (self.x, SInt(i)))
                    it = eng.resolve(eng.call(f, (self.x, self.ns(i), e, SInt(i))))
                    good.append(it == () if isinstance(it, tuple) else False)
                from specs import base
                ns1 = eng.alloc(InstObj(base.NS, new), 'inst')
                good.append(eng.truth(eng.call(self.fold.stable, (self.x, ns1, SInt(i + 1)))))
                return z_and(*[zbool(g) for g in good])
            for st, kind, c in eng.explore(thunk):
                eng.st = st
                if kind != 'val' or not eng.valid(c):
                    ok = False
        finally:
            eng.st = saved
        self.proved[self.key('stable')] = ok
        return ok


def models():
    from . import models
    return models


def same_items(eng, o, items):
    """Whether a list holds exactly the guarded items of a shape."""
    if o.base is not None:
        return False
    conds = []
    if len(o.items) == len(items):
        for (g, x), (h, y) in zip(o.items, items):
            g, h = zbool(g), zbool(h)
            conds.append(z_and(g == h, z_or(z_not(g), zbool(eq(eng, x, y)))))
    elif all(g is True for g, _ in o.items) and len(o.items) < len(items):
        # the items that are there are the last ones
        k = len(items) - len(o.items)
        conds.extend(z_not(zbool(h)) for h, _ in items[:k])
        for (_, x), (h, y) in zip(o.items, items[k:]):
            conds.append(z_and(zbool(h), zbool(eq(eng, x, y))))
    else:
        return False
    return all(eng.valid(zbool(c)) for c in conds)


def lists_of(st, v):
    return [st.heap[x.id] for _, x in (v.alts if isinstance(v, Union) else [(True, v)])
            if isinstance(x, Ref) and isinstance(st.heap.get(x.id), ListObj)]


def own_list(eng, st, base, sc, names, v, cur, items):
    """Whether variable v holds a list that nothing else refers to, with these items."""
    others = [getv(st, sc, w) for w in names if w != v]
    others = [x for o in others for _, x in (o.alts if isinstance(o, Union) else [(True, o)]) if isinstance(x, Ref)]
    saved = eng.st
    for c, x in cur.alts if isinstance(cur, Union) else [(True, cur)]:
        if not isinstance(x, Ref) or x.id in base.heap or x in others:
            return False
        o = st.heap[x.id]
        if not isinstance(o, ListObj) or o.kind != 'list':
            return False
        try:
            eng.st = st.fork(('own', x.id))
            eng.st.pc = eng.st.pc + (zbool(c),)
            if not same_items(eng, o, items):
                debug('items', o.items, 'are not', items, 'under', c)
                return False
        finally:
            eng.st = saved
    return True


def eq(eng, a, b):
    """Structural equality that also relates values of different kinds (False) and opaque tokens."""
    if isinstance(a, Union):
        return z_or(*[z_and(zbool(c), zbool(eq(eng, x, b))) for c, x in a.alts])
    if isinstance(b, Union):
        return z_or(*[z_and(zbool(c), zbool(eq(eng, a, x))) for c, x in b.alts])
    if (a is None) != (b is None):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return z_and(*[zbool(eq(eng, x, y)) for x, y in zip(a, b)])
    try:
        return eng.equal(a, b)
    except Unsupported:
        return False


def written(body):
    names = set()
    for n in body:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                names.add(m.id)
    return names


def run(eng, s, sc, it):
    for f in getattr(eng, 'folds', []):
        if f.fold.matches(it.seq.name) and eng.valid(it.seq.length == int_t(f.count())):
            r = try_fold(eng, s, sc, it, f)
            if r is not None:
                return r
    for f in getattr(eng, 'folds', []):
        p = getattr(f.fold, 'peel', 0)
        for p in p if isinstance(p, tuple) else (p,) if p else ():
            if f.fold.matches(it.seq.name) and eng.valid(
                    z3.Implies(it.seq.length >= p, it.seq.length == p + int_t(f.count()))):
                return peeled(eng, s, sc, it, f, p)
    raise Unsupported('loop over %s: no inductive invariant found (line %d)' % (it.seq.name, s.lineno))


class Steps(object):
    """What stands for the elements of a while loop: the numbers of its iterations."""

    def __init__(self, length):
        self.seq = SSeq('while', length, lambda e, i: None)
        self.fused = False

    def wrap(self, eng, i, v):
        return v


def run_while(eng, s, sc):
    """A while loop proved against a fold that fits: outcomes, or None."""
    base = eng.st
    for f in getattr(eng, 'folds', []):
        try:
            eng.st = base
            if not f.fold.whiles:
                continue
            n = z3.simplify(int_t(f.count()))
            if s.orelse or not eng.valid(n >= 0):
                continue
            r = try_fold(eng, s, sc, Steps(n), f)
            if r is not None:
                return r
        except Unsupported as e:
            debug('while:', e)
    eng.st = base
    return None


def iterate(eng, s, sc):
    """One pass from the head of the loop: the test of a while loop, and the body."""
    if not isinstance(s, ast.While):
        return eng.exec_block(s.body, sc)
    outs = []
    for st, kind, v in eng.merge_outcomes(eng.explore(lambda: mk_bool(eng.truth(eng.ev(s.test, sc))))):
        if kind == 'raise':
            outs.append((st, 'raise', v))
            continue
        c = simp_cond(v if isinstance(v, bool) else v.t)
        for val in (True, False):
            cc = zbool(c) if val else zbool(z_not(c))
            if c is (not val) or eng.check(cc, st.pc) == z3.unsat:
                continue
            st3 = st.fork(('w', val))
            st3.pc = st3.pc + (cc,)
            eng.st = st3
            outs.extend(eng.exec_block(s.body, sc) if val else [(st3, 'break', None)])
    return outs


def each(eng, s, sc, several):
    """The body for each of the items that one element of the loop that made the list has added to it."""
    outs = []
    base = eng.st
    for c, v in several.alts if isinstance(several, Union) else [(True, several)]:
        if not isinstance(v, tuple):
            raise Unsupported('items %r' % (v,))
        if c is not True and eng.check(zbool(c), base.pc) == z3.unsat:
            continue
        st = base.fork(('each', len(outs), len(v)))
        if c is not True:
            st.pc = st.pc + (zbool(c),)
        todo = [st]
        for x in v:
            later = []
            for st in todo:
                eng.st = st
                for st1, kind, y in eng.simple(lambda: eng.assign(s.target, x, sc)):
                    if kind == 'raise':
                        outs.append((st1, kind, y))
                        continue
                    eng.st = st1
                    for o in eng.exec_block(s.body, sc):
                        if o[1] in ('next', 'continue'):
                            later.append(o[0])
                        else:
                            outs.append(o)
            todo = later
        outs.extend((st, 'next', None) for st in todo)
    return outs


def peeled(eng, s, sc, it, f, p):
    """The first p iterations on their own, then the loop over the rest, which the fold describes."""
    n = it.seq.length
    seq = SSeq(it.seq.name, z3.simplify(n - p), lambda e, i: it.seq.elem(e, z3.simplify(i + p)), it.seq.extra)
    rest = type(it)(seq, lambda e, i, v: it.wrap(e, z3.simplify(i + p), v))
    outs = []
    todo = [(eng.st, 0)]
    while todo:
        st, t = todo.pop()
        if t == p:
            eng.st = st
            r = try_fold(eng, s, sc, rest, f)
            if r is None:
                raise Unsupported('loop over %s: no inductive invariant found (line %d)' % (it.seq.name, s.lineno))
            outs.extend(r)
            continue
        eng.st = st.fork(('peel', s.lineno, t))
        eng.st.pc = eng.st.pc + (n <= t,)
        if eng.check(True) != z3.unsat:
            outs.extend(eng.exec_block(s.orelse, sc))
        eng.st = st.fork(('peeled', s.lineno, t))
        eng.st.pc = eng.st.pc + (n > t,)
        if eng.check(True) == z3.unsat:
            continue
        i = z3.IntVal(t)
        for st1, kind, v in eng.simple(lambda: eng.assign(s.target, it.wrap(eng, i, it.seq.elem(eng, i)), sc)):
            if kind == 'raise':
                outs.append((st1, kind, v))
                continue
            eng.st = st1
            for o in eng.exec_block(s.body, sc):
                if o[1] in ('next', 'continue'):
                    todo.append((o[0], t + 1))
                elif o[1] == 'break':
                    outs.append((o[0], 'next', None))
                else:
                    outs.append(o)
    return outs


def list_term(eng, o):
    """The contents of a list as a term, or None."""
    t = z3.Const('nil', LIST) if o.base is None else o.base.t
    for g, v in o.items:
        if g is not True or not isinstance(v, SOpaque):
            return None
        t = z3.Function('snoc_%s' % v.t.sort().name(), LIST, v.t.sort(), LIST)(t, v.t)
    return t


def joined(eng, o, token):
    """The contents of list o followed by those of the token; or None."""
    if o.base is None and not o.items:
        return token
    t = list_term(eng, o)
    if t is None:
        return None

    def after(y):
        name = y.decl().name()
        if name == 'nil':
            return t
        if name.startswith('snoc_'):
            return y.decl()(after(y.arg(0)), y.arg(1))
        if name == 'app':
            return y.decl()(after(y.arg(0)), y.arg(1))
        return z3.Function('app', LIST, LIST, LIST)(t, y)
    return SOpaque(after(token.t), list, token.tag)


def length(eng, o):
    """The length of a list with an unknown prefix, as a term."""
    def of(t):
        name = t.decl().name()
        if name == 'nil':
            return z3.IntVal(0)
        if name.startswith('snoc_'):
            return of(t.arg(0)) + 1
        if name == 'app':
            return of(t.arg(0)) + of(t.arg(1))
        for f in eng.folds:
            for k in f.fold.lists:
                if name == 'L.%s.%s' % (f.fold.name, k):
                    return f.size(k, t.arg(0))
        raise Unsupported('the length of %s' % name)
    if is_bag(o.base):
        n = int_t(bag_term(eng, o.base.t)[0])
    else:
        n = of(o.base.t)
    for g, v in o.items:
        n = n + (1 if g is True else z3.If(g, z3.IntVal(1), z3.IntVal(0)))
    return z3.simplify(n)


def init_matches(eng, v, want):
    try:
        return eng.valid(zbool(eq(eng, v, want)))
    except Unsupported:
        return False


def try_fold(eng, s, sc, it, f):
    base = eng.st
    n = it.seq.length
    frame_vars = base.heap[sc.fr.id].vars
    target = [s.target] if isinstance(s, ast.For) else [s.test]
    names = sorted(written(s.body + target) & set(sc.info.locals))
    comps = list(f.fold.state)
    s0 = f.state(z3.IntVal(0))
    i = z3.Int('i!%d' % s.lineno)
    cands = {}

    def candidates(cur, name):
        cs = []
        if cur is not UNBOUND and not isinstance(cur, Ref):
            eng.st = base
            for k in comps:
                if not is_boolean(cur) and is_boolean(s0[k]):
                    continue
                if init_matches(eng, cur, s0[k]):
                    cs.append(('comp', k))
            cs.sort(key=lambda c: (eng.kind_of(cur) != eng.kind_of(s0[c[1]]), c[1] != name, c[1] not in name))
            if is_int_like(cur) and not isinstance(cur, bool):
                cs.append(('lin', None))
            cs.append(('const', None))
        elif isinstance(cur, Ref):
            o = base.heap.get(cur.id)
            if isinstance(o, ListObj) and f.fold.shapes:
                cs.extend(('shape', k) for k in fitting(eng, f, base, o)[::-1])
            cs.append(('const', None))
        cs.append(('dead', None))
        return cs
    for v in names:
        cands[v] = candidates(frame_vars.get(v, UNBOUND), v)
    # heap objects the body may change: lists and streams
    heapc = {}
    for _round in range(40):
        r = attempt(eng, s, sc, it, f, base, n, i, names, cands, heapc)
        if isinstance(r, tuple) and r[0] == 'attributes':
            # attributes of objects that the body changes: more variables
            for v in r[1]:
                names.append(v)
                cands[v] = candidates(getv(base, sc, v), v[2])
            continue
        if r == 'retry':
            continue
        return r
    return None


def fitting(eng, f, base, o, like=None):
    """The shapes that describe list o before the first element; `like`: an item that it later holds."""
    saved = eng.st
    out = []
    try:
        for k in f.fold.shapes:
            def thunk():
                f.assume_init()
                items = f.shape(k, z3.IntVal(0))
                if like is not None and items and eng.kind_of(items[-1][1]) != eng.kind_of(like):
                    return False
                return same_items(eng, o, items)
            eng.st = base.fork(('fit', k))
            if all(kind == 'val' and c for st, kind, c in eng.explore(thunk)):
                out.append(k)
    finally:
        eng.st = saved
    return out


def set_vars(eng, sc, vals):
    vars_ = dict(eng.obj(sc.fr).vars)
    for k, v in vals.items():
        if isinstance(k, tuple) and k[0] == 'frame':
            eng.st.heap[k[1]] = Frame(dict(eng.st.heap[k[1]].vars, **{k[2]: v}))
        elif isinstance(k, tuple):
            o = eng.st.heap[k[1]]
            attrs = dict(o.attrs)
            attrs[k[2]] = v
            eng.st.heap[k[1]] = InstObj(o.cls, attrs, o.payload)
        else:
            vars_[k] = v
    eng.put(sc.fr, Frame(vars_))


def getv(st, sc, v):
    """A variable of the frame, ('attribute', object, name) or ('frame', frame of another function, name)."""
    if isinstance(v, tuple) and v[0] == 'frame':
        return st.heap[v[1]].vars.get(v[2], UNBOUND)
    if isinstance(v, tuple):
        return st.heap[v[1]].attrs.get(v[2], UNBOUND)
    return st.heap[sc.fr.id].vars.get(v, UNBOUND)


def head_values(eng, f, base, sc, names, cands, heapc, idx, linhavoc):
    S = f.state(idx)
    vals = {}
    for v in names:
        kind, k = cands[v][0]
        if kind == 'comp':
            vals[v] = S[k]
        elif kind == 'lin':
            if k is None:
                h = z3.Int('lin!' + label(v))
                linhavoc[v] = h
                vals[v] = SInt(h)
            else:
                vals[v] = SInt(z3.simplify(int_t(getv(base, sc, v)) + k * idx))
        elif kind == 'const':
            vals[v] = getv(base, sc, v)
        elif kind == 'shape':
            o = base.heap[getv(base, sc, v).id]
            vals[v] = eng.alloc(ListObj(f.shape(k, idx), None, o.maxlen, o.kind), 'list')
        else:
            vals[v] = POISON
    heap = {}
    for hid, (kind, k) in heapc.items():
        o = base.heap[hid]
        if kind == 'shape':
            heap[hid] = ListObj(f.shape(k[0], idx), None, o.maxlen, o.kind)
            continue
        if kind == 'bag':
            heap[hid] = ListObj((), f.bag_token(k[0], idx), o.maxlen, o.kind)
        elif kind == 'set':
            heap[hid] = DictObj({}, (), o.default, o.kind, f.set_token(k[0], idx))
        elif kind == 'list':
            heap[hid] = ListObj((), joined(eng, o, f.token(k, idx)), o.maxlen, o.kind)
        elif kind == 'stream':
            if k is None:
                h = z3.Int('pos!' + hid)
                linhavoc[hid] = h
                pos = h
            else:
                pos = z3.simplify(zi(o.pos) + k * idx)
            heap[hid] = StreamObj(o.name, o.byte, pos, o.length, o.closed)
    return vals, heap


def label(v):
    return v if isinstance(v, str) else '%s.%s' % (v[1], v[2])


def is_boolean(v):
    return isinstance(v, (bool, SBool))


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def attempt(eng, s, sc, it, f, base, n, i, names, cands, heapc):
    lin = {}
    if f.fold.stops and not f.fold.late:
        eng.st = base.fork(('loop0', s.lineno))

        def first():
            f.assume_init()
            return f.stable(z3.IntVal(0))
        for st, kind, c in eng.explore(first):
            eng.st = st
            if kind != 'val' or not eng.valid(z_or(zi(n) <= 0, zbool(z_not(c)))):
                raise Unsupported('the loop starts in a state that should end it')
    eng.st = base.fork(('loop', s.lineno))
    S1 = f.state(z3.simplify(i + 1))
    eng.st.pc = eng.st.pc + (z3.And(i >= 0, i < n),)
    vals, heap = head_values(eng, f, base, sc, names, cands, heapc, i, lin)
    eng.st.heap.update(heap)
    set_vars(eng, sc, vals)
    head_heap = dict(eng.st.heap)
    pre = []
    # facts about this iteration
    items = {}

    until = f.fold.until is not None
    offset = f.offset() if until and f.fold.view is not None else z3.IntVal(0)

    def facts():
        if f.fold.stops and not f.fold.late:
            eng.assume(z_not(f.stable(i)))
        f.assume_step(i)
        if until:
            # no element so far has ended the loop (checked below)
            eng.assume(f.first(offset) >= offset + i)
        eng.call(f.fold.hints, (f.x, SInt(i)))
        e = eng.call(f.fold.elem, (f.x, SInt(i)))
        for name, fn in f.fold.lists.items():
            items[name] = eng.call(fn, (f.x, f.ns(i), e, SInt(i)))
        f.lemmas(i)
        if f.fold.subject is not None:
            if not f.check_about():
                raise Unsupported('the lemma about the elements of fold %s does not hold' % f.fold.name)
            eng.assume(f.about(e, i))
        if f.fold.late:
            # the previous iteration went on (checked below)
            eng.assume(z3.Implies(i > 0, zbool(z_not(f.stable(z3.simplify(i - 1))))))
            if f.fold.closed is not None:
                eng.assume(z3.Implies(i > 0, f.closed(z3.simplify(i - 1))))
        for inv in f.fold.invariants(eng, f.x, i) if hasattr(f.fold, 'invariants') else ():
            eng.assume(inv)
        v = it.wrap(eng, i, it.seq.elem(eng, i))
        if isinstance(s, ast.For) and not it.fused:
            eng.assign(s.target, v, sc)
        items['the elements'] = v if it.fused else None
        return (items['the elements'],) + tuple(items.get(k, ()) for k in f.fold.lists)
    outs = []
    exits = []
    for st, kind, its in eng.merge_outcomes(eng.explore(facts)):
        if kind == 'raise':
            raise Unsupported('specification of the loop raises')
        if eng.check(True, st.pc) == z3.unsat:
            continue
        several, its = its[0], dict(zip(f.fold.lists, its[1:]))
        eng.st = st
        # specification-side objects allocated here are part of the head state
        ok_heap = dict(st.heap)
        for o in iterate(eng, s, sc) if not it.fused else each(eng, s, sc, several):
            if o[1] in ('next', 'continue'):
                r = check_next(eng, o[0], sc, f, base, names, cands, heapc, lin, i, S1, its, head_heap)
                if r is not True:
                    return r
                if until:
                    eng.st = o[0]
                    if not eng.valid(z_not(f.until(z3.simplify(offset + i)))):
                        raise Unsupported('the loop goes on where it should end')
                if f.fold.late:
                    eng.st = o[0]
                    if not eng.valid(z_not(f.stable(i))):
                        raise Unsupported('the loop goes on from a state that should end it')
                elif f.fold.stops:
                    eng.st = o[0]
                    if not eng.valid(z_not(f.stable(z3.simplify(i + 1)))):
                        raise Unsupported('the loop goes on after a state that should end it')
            else:
                exits.append(o + (its,))
    # accepted: build the exits
    res = []
    for st, kind, v, its in exits:
        eng.st = st
        if until and kind != 'raise':
            # no element before this one ends the loop (checked above)
            if not eng.valid(f.until(z3.simplify(offset + i))):
                raise Unsupported('the loop ends early')
            eng.assume(f.first(offset) == offset + i)
        elif f.fold.stops:
            if not f.check_stable():
                raise Unsupported('the stability lemma of fold %s does not hold' % f.fold.name)
            done = []

            def tie():
                f.assume_init()
                a = f.stable(i)
                b = f.stable(z3.simplify(i + 1))
                f.lemmas(int_t(f.count()))
                return mk_bool(a), mk_bool(b)
            outs2 = eng.merge_outcomes(eng.explore(tie))
            if len(outs2) != 1:
                raise Unsupported('stable() forks')
            eng.st = outs2[0][0]
            a, b = [eng.truth(w) for w in outs2[0][2]]
            if eng.valid(zbool(a)):
                f.assume_same(i, int_t(f.count()))
            elif eng.valid(zbool(b)):
                f.assume_same(z3.simplify(i + 1), int_t(f.count()))
                # prefix i with exactly the items of this iteration is prefix i + 1
                for hid, (hk, k) in heapc.items():
                    o = eng.st.heap.get(hid)
                    if hk == 'list' and isinstance(o, ListObj) and list_grows(
                            eng, o, joined(eng, base.heap[hid], f.token(k, i)), its[k]):
                        eng.st.heap[hid] = ListObj((), joined(eng, base.heap[hid], f.token(k, z3.simplify(i + 1))),
                                                   o.maxlen, o.kind)
            elif kind != 'raise':
                raise Unsupported('the loop ends early where the specification goes on')
        elif kind != 'raise':
            raise Unsupported('the loop ends early')
        st = eng.st
        res.append((st, 'next' if kind == 'break' else kind, v))
    # exhaustion
    eng.st = base.fork(('loopend', s.lineno))
    vals, heap = head_values(eng, f, base, sc, names, cands, heapc, n, {})
    for v in names:
        if cands[v][0][0] in ('dead',):
            vals[v] = POISON
        elif cands[v][0][0] == 'const' and getv(base, sc, v) is UNBOUND:
            vals[v] = POISON
    tn = set()
    for m in ast.walk(s.target) if isinstance(s, ast.For) else ():
        if isinstance(m, ast.Name):
            tn.add(m.id)
    for v in tn:
        vals[v] = POISON
    eng.st.heap.update(heap)
    set_vars(eng, sc, vals)
    def ended():
        if until:
            eng.assume(f.first(offset) == offset + zi(n))
        eng.call(f.fold.hints, (f.x, SInt(zi(n))))
        f.lemmas(zi(n))
        if f.fold.stops and not f.fold.late:
            eng.assume(z_not(f.stable(zi(n))))
        if f.fold.late:
            last = z3.simplify(zi(n) - 1)
            eng.assume(z3.Implies(zi(n) > 0, zbool(z_not(f.stable(last)))))
            if f.fold.closed is not None:
                eng.assume(z3.Implies(zi(n) > 0, f.closed(last)))
        return None
    outs3 = eng.merge_outcomes(eng.explore(ended))
    if len(outs3) != 1 or outs3[0][1] != 'val':
        raise Unsupported('the lemmas of fold %s fork' % f.fold.name)
    eng.st = outs3[0][0]
    if eng.check(True) == z3.unsat:
        return res
    if isinstance(s, ast.While):
        res2 = []
        for o in iterate(eng, s, sc):
            if o[1] in ('next', 'continue'):
                debug('the loop goes on after the last element')
                return None
            res2.append((o[0], 'next' if o[1] == 'break' else o[1], o[2]))
    else:
        res2 = eng.exec_block(s.orelse, sc)
    eng.interpreted_loops = getattr(eng, 'interpreted_loops', {})
    eng.interpreted_loops['%s line %d' % (getattr(sc.func, '__qualname__', '?'), s.lineno)] = {
        label(v): '%s%s' % (cands[v][0][0], ':' + str(cands[v][0][1]) if cands[v][0][1] is not None else '') for v in names}
    debug('exits', [(k, st.pc[-3:]) for st,k,v in res], [(k,st.pc[-3:]) for st,k,v in res2])
    return res + res2


def valid_parts(eng, c):
    c = zbool(c)
    if z3.is_and(c):
        return all(valid_parts(eng, t) for t in c.children())
    r = eng.check(z3.Not(c))
    if r != z3.unknown:
        return r == z3.unsat
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*eng.axioms, *eng.st.pc, z3.Not(c))
    return s.check() == z3.unsat


def explain(eng, what, kind, c):
    """Which parts of a conjunction do not hold."""
    if not os.environ.get('PYVER_DEBUG'):
        return
    print('loop:', what, kind)
    if kind != 'val':
        print('loop:', c, eng.st.heap.get(c.id) if isinstance(c, Ref) else '')
        return
    todo = [c]
    k = 0
    while todo:
        t = todo.pop(0)
        if z3.is_and(t):
            todo = t.children() + todo
            continue
        k += 1
        if not eng.valid(t):
            print('loop:  part', k, z3.simplify(t))
    eng._sync(eng.st.pc)
    eng.solver.push()
    eng.solver.add(z3.Not(c))
    print('loop:', eng.solver.check())
    if os.environ.get('PYVER_DEBUG') == '2':
        print(eng.solver.model())
    eng.solver.pop()


def debug(*a):
    if os.environ.get('PYVER_DEBUG'):
        print('loop:', *a)


def check_next(eng, st, sc, f, base, names, cands, heapc, lin, i, S1, its, head_heap):
    """Whether the invariant holds again for i + 1 in st: True, 'retry' (candidates changed) or None."""
    eng.st = st
    fresh = []
    for hid, o in list(st.heap.items()):
        h = head_heap.get(hid)
        if hid in base.heap and o is not h and isinstance(o, InstObj) and isinstance(h, InstObj):
            for k in sorted(set(o.attrs) | set(h.attrs)):
                v = ('attribute', hid, k)
                if v not in names and o.attrs.get(k, UNBOUND) is not h.attrs.get(k, UNBOUND):
                    fresh.append(v)
        if hid in base.heap and hid != sc.fr.id and o is not h and isinstance(o, Frame) and isinstance(h, Frame):
            # the function that consumes what the loop of a generator yields
            for k in sorted(set(o.vars) | set(h.vars)):
                v = ('frame', hid, k)
                if v not in names and o.vars.get(k, UNBOUND) is not h.vars.get(k, UNBOUND):
                    fresh.append(v)
    if fresh:
        return ('attributes', fresh)
    for hid, o in list(st.heap.items()):
        b = base.heap.get(hid)
        if isinstance(o, ListObj) and isinstance(b, ListObj) and o is not head_heap.get(hid) and hid not in heapc and \
                f.fold.shapes:
            fits = fitting(eng, f, base, b, o.items[-1][1] if o.items else None)
            if fits:
                heapc[hid] = ('shape', fits)
                return 'retry'
        if isinstance(o, DictObj) and isinstance(b, DictObj) and o is not head_heap.get(hid) and hid not in heapc and \
                f.fold.members and b.kind == 'set' and b.base is None and not b.entries and not b.extra:
            used = [x[1][0] for x in heapc.values() if x[0] == 'set']
            # those of the right shape, the ones not taken by another set first
            fits = sorted((k for k in f.fold.members if shaped(eng, f, k, o)), key=lambda k: k in used)
            if fits:
                heapc[hid] = ('set', fits)
                return 'retry'
    again = False
    for v in names:
        kind, k = cands[v][0]
        cur = getv(st, sc, v)
        ok = True
        if kind == 'comp':
            ok = cur is not UNBOUND and cur is not POISON and eng.valid(zbool(eq(eng, cur, S1[k])))
        elif kind == 'lin':
            if not is_int_like(cur):
                ok = False
            elif k is None:
                d = z3.simplify(int_t(cur) - lin[v])
                if z3.is_int_value(d):
                    cands[v][0] = ('lin', d.as_long())
                    return 'retry'
                ok = False
            else:
                ok = eng.valid(int_t(cur) == int_t(getv(base, sc, v)) + k * (i + 1))
        elif kind == 'const':
            b = getv(base, sc, v)
            ok = cur is b or (cur is not UNBOUND and cur is not POISON and b is not UNBOUND and
                              eng.valid(zbool(eq(eng, cur, b))))
        elif kind == 'shape':
            ok = own_list(eng, st, base, sc, names, v, cur, f.shape(k, z3.simplify(i + 1)))
        if not ok:
            debug('variable', v, 'is not', cands[v][0], ':', cur)
            if os.environ.get('PYVER_DUMP') and os.environ['PYVER_DUMP'] in str(v) and kind == 'comp':
                sv = z3.Solver()
                sv.add(*eng.axioms, *eng.st.pc, z3.Not(zbool(eq(eng, cur, S1[k]))))
                open('/tmp/dump.smt2', 'w').write(sv.to_smt2())
                raise SystemExit
            cands[v].pop(0)
            item = next((o.items[-1][1] for o in lists_of(st, cur) if o.items), None)
            if item is not None:
                cands[v] = [c for c in cands[v] if c[0] != 'shape' or eng.kind_of(
                    f.shape(c[1], i)[-1][1]) == eng.kind_of(item)]
            if not cands[v]:
                return None
            if kind == 'comp' or kind == 'shape':
                return 'retry'
            again = True
    if again:
        return 'retry'
    for hid, o in list(st.heap.items()):
        if hid == sc.fr.id or hid not in base.heap:
            continue
        h = head_heap.get(hid)
        if o is h:
            continue
        c = heapc.get(hid)
        if isinstance(o, StreamObj):
            if c is None:
                heapc[hid] = ('stream', None)
                return 'retry'
            if c[1] is None:
                d = z3.simplify(zi(o.pos) - lin[hid])
                if not z3.is_int_value(d):
                    # a path-dependent advance: try the distance that is valid here
                    cand = getattr(f.fold, 'advance', None)
                    if cand is None or not eng.valid(d == cand):
                        return None
                    heapc[hid] = ('stream', cand)
                else:
                    heapc[hid] = ('stream', d.as_long())
                return 'retry'
            if not eng.valid(zi(o.pos) == zi(base.heap[hid].pos) + c[1] * (i + 1)):
                return None
            continue
        if isinstance(o, ListObj):
            b = base.heap[hid]
            if c is not None and c[0] == 'bag':
                want = f.bag(c[1][0], z3.simplify(i + 1))
                if not bag_fits(eng, o, want):
                    debug('list', hid, o.items, 'is not', c[1][0])
                    if len(c[1]) == 1:
                        return None
                    heapc[hid] = ('bag', c[1][1:])
                    return 'retry'
                continue
            if c is not None and c[0] == 'shape':
                if not same_items(eng, o, f.shape(c[1][0], z3.simplify(i + 1))):
                    debug('list', hid, o.items, 'is not', c[1][0])
                    if len(c[1]) == 1:
                        return None
                    heapc[hid] = ('shape', c[1][1:])
                    return 'retry'
                continue
            if c is None and f.fold.bags and not f.fold.lists:
                eng.st = base
                fits = [k for k in f.fold.bags if bag_fits(eng, b, f.bag(k, z3.IntVal(0)))]
                eng.st = st
                if not fits:
                    debug('list', hid, b.items, 'is no bag')
                    return None
                heapc[hid] = ('bag', fits)
                return 'retry'
            if c is None:
                if not f.fold.lists or joined(eng, b, f.token(list(f.fold.lists)[0], i)) is None:
                    debug('list', hid, b.items, b.base, 'changes')
                    return None
                used = set(x[1] for x in heapc.values() if x[0] == 'list') if not f.fold.shared else ()
                free = [k for k in f.fold.lists if k not in used]
                if not free:
                    debug('one list too many', hid, o.items)
                    return None
                heapc[hid] = ('list', free[0])
                return 'retry'
            want = its[c[1]]
            if not list_grows(eng, o, h.base, want):
                debug('list', hid, o.base, o.items, 'does not grow by', want)
                return None
            eng.st = st
            continue
        if isinstance(o, DictObj) and isinstance(h, DictObj) and o.entries == h.entries and o.extra == h.extra and \
                eng.same(o.base, h.base):
            continue
        if isinstance(o, DictObj) and isinstance(h, DictObj) and f.fold.members:
            if c is None:
                debug('set', hid, o.entries, 'changes')
                return None
            if not set_grows(eng, f, o, h, c[1][0], i):
                debug('set', hid, o.extra, 'is not', c[1][0])
                if len(c[1]) == 1:
                    return None
                heapc[hid] = ('set', c[1][1:])
                return 'retry'
            continue
        if isinstance(o, InstObj) and isinstance(h, InstObj) and o.cls is h.cls and o.payload is h.payload:
            continue
        if isinstance(o, Frame) and isinstance(h, Frame):
            continue
        raise Unsupported('loop changes a %s' % type(o).__name__)
    return True


def bag_of(eng, o):
    """(number, sum) of the items of a list, of numbers."""
    if o.base is None:
        n, total = 0, 0
    elif is_bag(o.base):
        n, total = bag_term(eng, o.base.t)
    else:
        raise Unsupported('the sum of a list with unknown contents')
    for g, v in o.items:
        v = eng.resolve(v)
        if not is_num(v):
            raise Unsupported('the sum of %r' % (v,))
        if g is True:
            n, total = eng.binop('+', n, 1), eng.binop('+', total, v)
            continue
        # an item that is there only if g: counts as one and its value, or as nothing
        n = eng.binop('+', n, SInt(z3.If(zbool(g), z3.IntVal(1), z3.IntVal(0))))
        if isinstance(v, (SDec, decimal.Decimal)):
            v = SDec(z3.If(zbool(g), real_t(v), z3.RealVal(0)))
        elif is_int_like(v):
            v = SInt(z3.If(zbool(g), int_t(v), z3.IntVal(0)))
        else:
            raise Unsupported('the sum of %r' % (v,))
        total = eng.binop('+', total, v)
    return n, total


def is_bag(base):
    """Whether the contents of a list are those of bags only."""
    if not isinstance(base, SOpaque):
        return False
    todo = [base.t]
    while todo:
        t = todo.pop()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            todo.extend(t.children()[1:])
        elif not t.decl().name().startswith('B.'):
            return False
    return True


def bag_term(eng, t):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return tuple(eng.resolve(eng.merge_vals([(c, u), (z3.Not(c), v)]))
                     for u, v in zip(bag_term(eng, a), bag_term(eng, b)))
    for f in eng.folds:
        for name in f.fold.bags:
            if t.decl().name() == 'B.%s.%s' % (f.fold.name, name):
                return f.bag(name, t.arg(0))
    raise Unsupported('an unknown bag')


def bag_fits(eng, o, want):
    try:
        have = bag_of(eng, o)
    except Unsupported as e:
        debug(e)
        return False
    return all(eng.valid(zbool(eq(eng, a, b))) for a, b in zip(have, want))


def shaped(eng, f, name, o):
    n, tupled = f.arity(name)
    keys = list(o.entries) + [k for _, k, _ in o.extra]
    return all((isinstance(k, tuple) and len(k) == n) if tupled else is_int_like(k) for k in keys)


def set_grows(eng, f, o, head, name, i):
    """Whether set o has exactly the members after element i, given those before."""
    if o.base is None or not eng.same(o.base, head.base):
        return False
    n, tupled = f.arity(name)
    fresh = [z3.Int('key!%s.%d' % (name, c)) for c in range(n)]
    key = tuple(SInt(t) for t in fresh) if tupled else SInt(fresh[0])
    now = z_or(*([f.member(name, key, i)] + [z_and(g, eng.eq(k, key)) for k, (g, _) in o.entries.items()] +
                 [z_and(g, eng.eq(k, key)) for g, k, _ in o.extra]))
    return eng.valid(zbool(now) == f.member(name, key, z3.simplify(i + 1)))


def inst_of(eng, fold):
    for f in eng.folds:
        if f.fold is fold:
            return f
    raise Unsupported('unknown fold')


def member_contract(eng, args, kwargs):
    fold, x, name, key, i = args
    return mk_bool(inst_of(eng, fold).member(name, key, int_t(eng.resolve(i))))


def ordered_contract(eng, args, kwargs):
    fold, x, name = args
    return inst_of(eng, fold).ordered(name)


def position_contract(eng, args, kwargs):
    fold, x, name, key = args
    return SInt(inst_of(eng, fold).place(name, key))


def list_grows(eng, o, token, want):
    """Whether list o is the prefix token followed by exactly the items of `want` (a tuple, or a union of tuples)."""
    if o.base is None or not o.base.t.eq(token.t):
        return False
    alts = want.alts if isinstance(want, Union) else [(True, want)]
    for g, w in alts:
        if not isinstance(w, tuple):
            return False
        conds = []
        if len(o.items) < len(w):
            conds.append(False)
        else:
            for (gg, x), y in zip(o.items, w):
                conds.append(z_and(zbool(gg), zbool(eq(eng, x, y))))
            for gg, x in o.items[len(w):]:
                conds.append(z_not(zbool(gg)))
        c = z_and(*[zbool(x) for x in conds])
        if not eng.valid(z3.Implies(zbool(g), zbool(c))):
            return False
    return True


def fold_result(eng, args, kwargs):
    """Engine contract of specs.base.fold_result: the state after all elements."""
    fold, x = args[0], args[1]
    from specs import base
    for f in eng.folds:
        if f.fold is fold:
            n = z3.simplify(int_t(f.count()))
            f.lemmas(n)
            st = f.state(n)
            for name in fold.lists:
                st[name] = eng.alloc(ListObj((), f.token(name, n)), 'list')
            return eng.alloc(InstObj(base.NS, st), 'inst')
    raise Unsupported('unknown fold')
