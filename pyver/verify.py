"""Verifies the cases of a property: executes contracts symbolically and discharges the obligations."""
import importlib
import os
import sys
import time
import traceback

import z3

from .values import *  # noqa
from .ops import *  # noqa
from .interp import Engine, bv_unsat
from . import domains, loops
from .split import split_unsat


class Result(object):
    def __init__(self, case):
        self.case = case
        self.obligations = {}   # name -> {'status', 'parts', 'model', 'detail', 'back': {...}, 'time'}
        self.error = None
        self.info = {}


def to_dict(r):
    return {'case': r.case, 'obligations': r.obligations, 'error': r.error, 'info': r.info}


def second_opinion(eng, pc, goal, seconds, stats):
    """Solve pc and not goal afresh: z3 with other strategies, then cvc5.  Returns (verdict, model or None, solver)."""
    fs = list(eng.axioms) + list(pc) + [z3.Not(zbool(goal))]
    fs = [f for f in fs if not z3.is_true(f)]
    t_end = time.time() + seconds
    if bv_unsat(fs, int(seconds * 1000)):
        return 'unsat', None, 'z3-bv'

    def left():
        return max(1, int((t_end - time.time()) * 1000))
    if split_unsat(cone(eng, pc, goal), seconds * 0.6, eng.ivals):
        return 'unsat', None, 'z3-cases'
    s = z3.Solver()
    s.set('timeout', min(left(), int(seconds * 500)))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    if r == z3.sat:
        return 'sat', s.model(), 'z3'
    v = cvc5_check(fs, max(1, (t_end - time.time())))
    if v == 'unsat':
        return 'unsat', None, 'cvc5'
    if time.time() < t_end:
        s = z3.SolverFor('QF_UFNRA') if False else z3.Tactic('qfnra-nlsat').solver()
        try:
            s.set('timeout', left())
            s.add(*fs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, 'z3-nlsat'
            if r == z3.sat:
                return 'sat', s.model(), 'z3-nlsat'
        except z3.Z3Exception:
            pass
    return 'unknown', None, None


def _funs(t, memo):
    """The function applications and constants of a term."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            out.add(x.get_id())
            memo.append(x)
        stack.extend(x.children())
    return out


def cone(eng, pc, goal):
    """The hypotheses that talk about the function applications of the goal (transitively), with pc and the negated goal."""
    keep = []
    goals = [f for f in list(pc) + [z3.Not(zbool(goal))] if not z3.is_true(f)]
    want = set()
    for f in goals:
        want |= _funs(f, keep)
    rest = [(f, _funs(f, keep)) for f in eng.axioms if z3.is_expr(f)]
    take = []
    changed = True
    while changed:
        changed = False
        left = []
        for f, u in rest:
            if not u or u & want:
                take.append(f)
                if not u <= want:
                    want |= u
                    changed = True
            else:
                left.append((f, u))
        rest = left
    return take + goals


def cvc5_check(fs, seconds):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*fs)
        text = '(set-logic ALL)\n' + s.to_smt2()
        text = '\n'.join(l for l in text.split('\n') if not l.startswith('(set-info'))
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(seconds * 1000)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += str(cmd.invoke(slv, sm))
        if 'unsat' in out:
            return 'unsat'
        if 'sat' in out:
            return 'sat'
        return 'unknown'
    except Exception:
        return 'unknown'


def verify_case(case, budget=60, timeout_ms=1500, tier='quick', cross=False):
    from specs.native import patched
    res = Result(case.name)
    t0 = time.time()
    sys.setrecursionlimit(200000)
    eng = Engine(case.timeout or timeout_ms)
    eng.afresh = case.afresh
    eng.deadline = t0 + budget
    obl = {}
    order = []

    def add(name, pc, cond, state):
        if name not in obl:
            obl[name] = []
            order.append(name)
        obl[name].append((pc, cond, state))
    try:
        with patched(case.patches() if callable(case.patches) else case.patches):
            case.setup(eng)
            from specs import base
            eng.st = State()
            attrs = {}
            for k, d in case.inputs.items():
                attrs[k] = domains.sym(d, domains.Leaf(eng, k))
            x = eng.alloc(InstObj(base.NS, attrs), 'inst')
            eng.folds = [loops.FoldInst(eng, f, x) for f in case.folds]
            eng.contracts[base.fold_result] = loops.fold_result
            eng.contracts[base.member] = loops.member_contract
            eng.contracts[base.ordered] = loops.ordered_contract
            eng.contracts[base.position] = loops.position_contract
            from specs import world
            ghost = Ref('ghost-world', 'inst')
            eng.contracts[world.put] = lambda e, a, k: e.put(ghost, InstObj(base.NS, {'w': a[0]}))
            eng.contracts[world.get] = lambda e, a, k: e.obj(ghost).attrs['w']
            st0 = eng.st.copy()

            def body():
                eng.in_post = False
                p = eng.truth(eng.call(case.pre, (x,)))
                if not eng.branch(zbool(p)):
                    raise Infeasible()
                for f in eng.folds:
                    f.assume_init()
                eng.lemma_state = eng.st.copy()
                r = eng.call(case.run, (x,))
                eng.in_post = True
                ps = eng.call(case.post, (r, x))
                out = []
                for q in eng.iter_values(ps):
                    n, c = eng.iter_values(eng.resolve(q))[:2]
                    n = eng.resolve(n)
                    out.append((n, eng.truth(c)))
                return out
            outs = eng.explore(body)
            nval = 0
            exc = {}
            soft = set()
            for st, kind, v in outs:
                if kind == 'val':
                    nval += 1
                    for n, c in v:
                        add(n, st.pc, c, st)
                else:
                    eng.st = st
                    n = eng.exc_class(v).__name__
                    try:
                        msg = eng.str_(v) if isinstance(v, Ref) else str(v)
                    except Exception:
                        msg = ''
                    add('no-exception', st.pc, False, st)
                    if isinstance(v, (TypeError, AttributeError)):
                        soft.add(id(st))   # an operation the model of a built-in refuses
                    exc.setdefault(n, str(msg)[:200])
            if nval:
                add('no-exception', outs[0][0].pc, True, outs[0][0])
            res.info['exceptions'] = exc
            res.info['outcomes'] = len(outs)
            # vacuity: the precondition is satisfiable and some path returns normally
            rs = [eng.check(True, st.pc) for st, kind, v in outs if kind == 'val']
            res.info['reachable'] = True if z3.sat in rs else (None if z3.unknown in rs else False)
            for name in order:
                rec = {'status': 'discharged', 'parts': len(obl[name]), 'back': {}, 'time': 0.0}
                t1 = time.time()
                for pc, cond, st in obl[name]:
                    c = simp_cond(cond)
                    if c is True:
                        rec['back']['simplifier'] = rec['back'].get('simplifier', 0) + 1
                        continue
                    eng.st = st
                    verdict = None
                    model = None
                    eng._sync(pc)
                    eng.solver.push()
                    eng.solver.add(z3.Not(zbool(c)) if c is not False else z3.BoolVal(True))
                    r = eng.solver.check()
                    if r == z3.sat:
                        model = eng.solver.model()
                    eng.solver.pop()
                    eng.stats['queries'] += 1
                    by = 'z3'
                    if r == z3.unknown:
                        left = max(2.0, min(15.0 if tier == 'quick' else 60.0, eng.deadline - time.time()))
                        v2, model, by = second_opinion(eng, pc, c, left, eng.stats)
                        r = {'unsat': z3.unsat, 'sat': z3.sat}.get(v2, z3.unknown)
                    if r == z3.unsat:
                        rec['back'][by] = rec['back'].get(by, 0) + 1
                        if cross:
                            v = cvc5_check(list(eng.axioms) + list(pc) + [z3.Not(zbool(c))], 10)
                            rec['back']['cvc5-cross:' + v] = rec['back'].get('cvc5-cross:' + v, 0) + 1
                        continue
                    if r == z3.sat and name.startswith('lemma'):
                        rec['status'] = 'unknown'   # a step of the argument, not a property of the code
                        rec['detail'] = 'the lemma does not hold'
                        continue
                    if r == z3.sat:
                        rec['soft'] = rec.get('soft', True) and id(st) in soft
                        rec['status'] = 'failed'
                        rec.setdefault('models', [])
                        if len(rec['models']) < 4:
                            rec['models'].append(native_inputs(eng, model, attrs, st0))
                            rec.setdefault('detail', str(z3.simplify(zbool(c)))[:600] if c is not False else
                                           'reachable exception %s' % exc if name == 'no-exception' else 'false')
                        continue
                    if rec['status'] == 'discharged':
                        rec['status'] = 'unknown'
                rec['time'] = round(time.time() - t1, 3)
                res.obligations[name] = rec
            if eng.new_state:
                # not wrong in itself, but the proof is about one call
                res.obligations['no-other-state'] = {
                    'status': 'unknown', 'parts': 1, 'back': {}, 'time': 0.0,
                    'detail': 'the objects remember more than the contract says: ' + ', '.join(sorted(eng.new_state))}
    except Unsupported as e:
        res.error = 'unsupported: %s' % (e,)
        if os.environ.get('PYVER_DEBUG'):
            traceback.print_exc()
    except (RecursionError, MemoryError) as e:
        res.error = 'resource: %s' % type(e).__name__
    except z3.Z3Exception as e:
        res.error = 'solver: %s' % e
        if os.environ.get('PYVER_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        res.error = 'internal: %s: %s' % (type(e).__name__, e)
        res.info['traceback'] = traceback.format_exc()[-1500:]
        if os.environ.get('PYVER_DEBUG'):
            traceback.print_exc()
    res.info.update({'functions': dict(eng.interpreted), 'contracts': dict(eng.contract_uses),
                     'queries': eng.stats['queries'], 'solver_s': round(eng.stats['solver_s'], 3),
                     'paths': eng.stats['paths'], 'wall_s': round(time.time() - t0, 3),
                     'assumptions': sorted(eng.assumptions), 'axioms': len(eng.axioms)})
    return res


def native_inputs(eng, model, attrs, st0):
    from specs import codec
    try:
        return {k: codec.enc(domains.native(eng, model, v, st0)) for k, v in attrs.items()}
    except (Unsupported, ValueError) as e:
        return {'__error': str(e)}
