"""Refutes a set of formulas by cases on the conditions of their conditional terms.

Each case substitutes the truth value of a condition everywhere (and keeps it as a hypothesis), so that the arguments of
rounding and transcendental functions become plain polynomials again and equal ones become syntactically equal.  At the
leaves, non-linear monomials are treated as unknowns first (linear arithmetic), then properly.  Only ever answers
`unsat`, or gives up."""
import time

import z3


class GiveUp(Exception):
    pass


def _find_cond(fs, seen_false):
    """The condition of an innermost conditional arithmetic term."""
    seen = set()
    best = None
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen or not z3.is_app(t):
            continue
        seen.add(i)
        if t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            c = t.arg(0)
            if not _has_ite(c):
                return c
            best = best or c
        stack.extend(t.children())
    if best is not None:
        return _find_cond([best], None)
    return None


def _has_ite(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
            return True
        stack.extend(x.children())
    return False


def _atoms(c):
    """The atoms of a boolean combination."""
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_implies(c):
        out = []
        for x in c.children():
            out += _atoms(x)
        return out
    return [c]


def _simp(fs):
    out = []
    for f in fs:
        g = z3.simplify(f, som=True, push_ite_bv=False)
        if z3.is_true(g):
            continue
        if z3.is_false(g):
            return None
        out.append(g)
    return out


def _solve(fs, ms, nl):
    s = z3.SimpleSolver() if not nl else z3.Solver()
    s.set('timeout', max(1, int(ms)))
    if not nl:
        s.set('arith.nl', False)
    s.add(*fs)
    return s.check()


def split_unsat(fs, seconds, ivals=None, max_leaves=400):
    t_end = time.time() + seconds
    leaves = [0]

    def go(fs, depth):
        if time.time() > t_end:
            raise GiveUp()
        fs = _simp(fs)
        if fs is None:
            return True
        c = _find_cond(fs, None)
        if c is None:
            leaves[0] += 1
            if leaves[0] > max_leaves:
                raise GiveUp()
            if _solve(fs, min(3000, (t_end - time.time()) * 1000), False) == z3.unsat:
                return True
            if _solve(fs, min(6000, (t_end - time.time()) * 1000), True) == z3.unsat:
                return True
            raise GiveUp()
        if depth % 2 == 1 and _solve(fs, 300, False) == z3.unsat:
            return True
        a = _atoms(c)[0]
        for val in (True, False):
            v = ivals.truth(a) if ivals is not None else None
            if v is not None and v != val:
                continue
            b = z3.BoolVal(val)
            sub = [z3.substitute(f, (a, b)) for f in fs]
            go(sub + [a if val else z3.Not(a)], depth + 1)
        return True
    try:
        return go([f for f in fs if z3.is_expr(f)], 0)
    except (GiveUp, z3.Z3Exception):
        return False
