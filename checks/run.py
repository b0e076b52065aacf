"""Decides one property against the current tree.

usage: run.py PROPERTY [--tier quick|thorough] [--repo DIR]

Deductive part: every case of the property is executed symbolically over the ASTs of the real functions, re-read from the
tree on this run; each obligation is decided by z3 (cvc5 when z3 gives up; both in the thorough tier).  Native part: every
counterexample is replayed on the real code under PyPy, and a bounded random search of the same contracts runs beside the
proof.  Exit 0: held; 1: VIOLATION; 2: no answer (the tree could not be loaded).
"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv-pypy/bin/python'
SITE = '/opt/venv-pypy/lib/pypy3.9/site-packages'

TRUSTED = [
    'pyver (interpreter of the Python subset, merging, obligation generation) and its models of built-ins, struct, '
    'decimal, datetime, enum, six',
    'z3 %s and cvc5',
    'decimal arithmetic as exact rational arithmetic (no rounding to 28 digits, no exponent tracking); '
    'exp/ln/pow/sqrt as uninterpreted functions with sign and monotonicity-at-0/1 facts',
    'module constants and class tables as natively imported from the tree under CPython 3.12; the code runs under PyPy 3.9',
]


def work(args):
    prop, name, repo, tier, budget = args
    sys.path.insert(0, repo)
    from pyver import verify
    mod = importlib.import_module('specs.' + prop.lower())
    case = [c for c in mod.CASES if c.name == name][0]
    fn = verify.verify_case
    if case.prover:
        m, f = case.prover.split(':')
        fn = getattr(importlib.import_module(m), f)
    r = fn(case, budget=budget, tier=tier, cross=tier == 'thorough', timeout_ms=1500 if tier == 'quick' else 5000)
    return verify.to_dict(r)


def worker(conn, args):
    try:
        conn.send((args[1], work(args)))
    except BaseException as e:  # a crash of the verifier is never a verdict
        conn.send((args[1], {'case': args[1], 'obligations': {}, 'error': 'internal: %s: %s' % (type(e).__name__, e),
                             'info': {}}))


def prove(prop, cases, repo, tier):
    """Verify each case in its own process."""
    ctx = multiprocessing.get_context('fork')
    results = {}
    todo = [c for c in cases if not c.bounded and (tier == 'thorough' or not c.thorough)]
    running = {}
    todo = sorted(todo, key=lambda c: -c.budget)
    last = time.time() + (450 if tier == 'quick' else 3000)
    while todo or running:
        while todo and len(running) < 7:
            c = todo.pop(0)
            budget = min(c.budget if tier == 'quick' else c.budget * 4, max(1, last - time.time()))
            mine, theirs = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(theirs, (prop, c.name, repo, tier, budget)))
            p.start()
            theirs.close()
            running[c.name] = (p, mine, min(time.time() + budget * 1.5 + 40, last + 20))
        multiprocessing.connection.wait([m for p, m, end in running.values()], timeout=1)
        for name, (p, mine, end) in list(running.items()):
            try:
                got = mine.recv() if mine.poll() else None
            except EOFError:
                got = (name, {'case': name, 'obligations': {}, 'error': 'verifier stopped', 'info': {}})
            if got is None and time.time() > end:
                got = (name, {'case': name, 'obligations': {}, 'error': 'verifier stopped', 'info': {}})
                p.kill()
            if got is not None:
                results[name] = got[1]
                running.pop(name)
                p.join(5)
                mine.close()
    return results


def native(prop, repo, extra, stdin=None, timeout=120):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    return subprocess.Popen([PYPY, os.path.join(HERE, 'specs', 'native.py'), prop, '--repo', repo] + extra,
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)


def finish(p, stdin=None, timeout=180):
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'native runner timed out'
    if p.returncode != 0:
        return None, err.decode(errors='replace')[-2000:]
    try:
        return json.loads(out.decode()), None
    except ValueError:
        return None, 'bad output: ' + out.decode(errors='replace')[-500:]


def known_findings(prop):
    """known_findings.json: [{'property','case','obligation','match','what'}]; `match` is a regular expression over the
    failure message, or absent."""
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            doc = json.load(f)
    except IOError:
        return []
    return [e for e in doc.get('findings', []) if e['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--seconds', type=float)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    sys.dont_write_bytecode = True
    sys.path.append(SITE)
    sys.path.insert(0, a.repo)
    sys.path.insert(0, HERE)
    seconds = a.seconds or (8 if tier == 'quick' else 90)
    nproc = 2 if tier == 'quick' else 6
    searches = [native(prop, a.repo, ['--seed', str(seed * 1000 + i), '--seconds', str(seconds)]) for i in range(nproc)]
    load_error = None
    results = {}
    try:
        mod = importlib.import_module('specs.' + prop.lower())
        cases = mod.CASES
        results = prove(prop, cases, a.repo, tier)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        load_error = '%s: %s' % (type(e).__name__, e)
        cases = []
    # replay the verifier's counterexamples
    found, nat_errors, replays = [], [], []
    for name, r in results.items():
        for ob, rec in r['obligations'].items():
            if rec['status'] == 'failed':
                for m in rec.get('models', []):
                    if '__error' not in m:
                        replays.append((name, ob, m))
    confirmed = set()
    if replays:
        doc = json.dumps([{'case': n, 'inputs': m} for n, o, m in replays]).encode()
        r, err = finish(native(prop, a.repo, ['--stdin']), doc)
        if r is None:
            nat_errors.append(err)
        else:
            for (n, o, m), bad in zip(replays, r['replays']):
                if bad:
                    found.insert(0, {'case': n, 'inputs': m, 'failed': bad, 'from': 'counterexample of obligation %s' % o})
                    confirmed.add((n, o))
    # where the verifier gives no verdict, or one that no input confirms, search longer
    open_cases = set(n for n, r in results.items() if r['error'] or
                     any(rec['status'] == 'unknown' or (rec['status'] == 'failed' and (n, ob) not in confirmed)
                           for ob, rec in r['obligations'].items()))
    if open_cases:
        only = [c.name for c in cases if c.search and (c.name in open_cases or c.bounded)] or \
               [c.name for c in cases if c.search]
        more = 30 if tier == 'quick' else 240
        searches += [native(prop, a.repo, ['--seed', str(seed * 1000 + 100 + i), '--seconds', str(more), '--grid', '%d/6' % i] +
                            [v for n in only for v in ('--only', n)]) for i in range(6)]
        seconds = max(seconds, 3 * more)
        nproc = len(searches)
    # native search results
    samples = {}
    total = 0
    for p in searches:
        r, err = finish(p, timeout=seconds + 120)
        if r is None:
            nat_errors.append(err)
            continue
        found.extend(r['failures'])
        total += r['samples']
        for k, v in r['cases'].items():
            samples[k] = samples.get(k, 0) + v
        if r.get('sampling_errors'):
            nat_errors.append(str(r['sampling_errors']))
    if load_error and len(nat_errors) == nproc:
        print('cannot load the tree or the specification: %s\n%s' % (load_error, nat_errors[0]))
        return 2
    # classify
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    known = known_findings(prop)
    hit_known = {}
    violations = []
    for f in found:
        rest = []
        for ob, msg in f['failed']:
            k = match_known(known, f['case'], ob, msg, f['inputs'])
            if k is not None:
                hit_known[k['what']] = True
            else:
                rest.append((ob, msg))
        if rest:
            violations.append((f, rest))
    abstract = set(c.name for c in cases if c.abstract)
    for n, r in results.items():
        for ob, rec in r['obligations'].items():
            if rec['status'] == 'failed' and (n in abstract or rec.get('soft')) and (n, ob) not in confirmed:
                rec['status'] = 'unknown'
    failed = [(n, ob, rec) for n, r in results.items() for ob, rec in r['obligations'].items() if rec['status'] == 'failed']
    undecided = [(n, ob) for n, r in results.items() for ob, rec in r['obligations'].items() if rec['status'] == 'unknown']
    undecided += [(n, r['error']) for n, r in results.items() if r['error']]
    lines = []
    done = set()
    for f, rest in violations:
        key = (f['case'], rest[0][0])
        if key in done:
            continue
        done.add(key)
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-%s.json' % (prop, f['case'], safe(rest[0][0])))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': f['case'], 'obligation': rest[0][0], 'inputs': f['inputs'],
                       'failed': rest, 'found_by': f.get('from', 'bounded native search'),
                       'replay_cmd': '%s %s/specs/native.py %s --repo %s --replay %s' % (PYPY, HERE, prop, a.repo, path)},
                      fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s/%s fails: %s' % (f['case'], rest[0][0], rest[0][1]))
        print('    input: %s' % json.dumps(f['inputs'])[:600])
    for n, ob, rec in failed:
        if (n, ob) in confirmed or any(k[0] == n for k in done):
            continue
        if any(k['case'] == n and (k.get('obligation') in (None, ob)) for k in known):
            continue
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-%s.json' % (prop, n, safe(ob)))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': n, 'obligation': ob, 'verifier_output': rec,
                       'note': 'the obligation is refuted by the verifier; the counterexample does not fail natively and '
                               'the bounded search found no failing input'}, fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        print('  obligation %s/%s is not accepted: %s' % (n, ob, rec.get('detail')))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # evidence
    nob = sum(rec['parts'] for r in results.values() for rec in r['obligations'].values())
    ndis = sum(rec['parts'] for r in results.values() for rec in r['obligations'].values()
               if rec['status'] == 'discharged')
    back = {}
    fns = {}
    contracts = {}
    assumptions = set()
    solver_s = 0.0
    for r in results.values():
        for rec in r['obligations'].values():
            for k, v in rec['back'].items():
                back[k] = back.get(k, 0) + v
        for k, v in r['info'].get('functions', {}).items():
            if k.startswith('weatherlink'):
                fns[k] = fns.get(k, 0) + v
        for k, v in r['info'].get('contracts', {}).items():
            contracts[k] = contracts.get(k, 0) + v
        assumptions |= set(r['info'].get('assumptions', []))
        solver_s += r['info'].get('solver_s', 0)
    vacuous = [n for n, r in results.items() if not r['error'] and (not r['obligations'] or
                                                                   r['info'].get('reachable', True) is False)]
    import z3
    bounded = sorted(set([c.name for c in cases if c.bounded] + [u[0] for u in undecided]))
    level = 'proof' if any(not c.bounded for c in cases) else 'other'
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as fh:
            for c in json.load(fh)['checks']:
                if c['property'] == prop:
                    level = c['level']
    except (IOError, ValueError, KeyError):
        pass
    cov = {
        'obligations': nob, 'discharged': ndis, 'named_obligations': sum(len(r['obligations']) for r in results.values()),
        'back_ends': back, 'solver_seconds': round(solver_s, 2),
        'checker_cmd': 'python3-vt checks/run.py %s --tier %s' % (prop, tier),
        'trusted_base': [t % z3.get_version_string() if '%s' in t else t for t in TRUSTED],
        'functions_under_contract': fns,
        'contracts_assumed_at_calls': {k: v for k, v in contracts.items() if not k.startswith('ghost ')},
        'ghost_functions_and_lemmas': {k[6:]: v for k, v in contracts.items() if k.startswith('ghost ')},
        'cases': {n: {'error': r['error'], 'wall_s': r['info'].get('wall_s'), 'paths': r['info'].get('paths'),
                      'outcomes': r['info'].get('outcomes'), 'reachable': r['info'].get('reachable'),
                      'obligations': {k: v['status'] for k, v in r['obligations'].items()}} for n, r in results.items()},
        'bounded_only_or_undecided': bounded, 'undecided': ['%s: %s' % u for u in undecided], 'vacuous_cases': vacuous,
        'evaluations': total, 'distinct_nontrivial': sum(samples.values()), 'native_samples_per_case': samples,
        'rule': 'bounded native search: boundary-biased random inputs (seeded) of each case, counted when the precondition '
                'of the case holds',
        'samples': [f['inputs'] for f in found[:3]] or sample_inputs(results),
        'native_errors': nat_errors, 'explanation': 'Obligations of the contracts, generated from the current tree and '
        'decided by the named back ends; cases listed under bounded_only_or_undecided rest on the native search alone.',
    }
    stated = importlib.import_module('specs.assumptions').ASSUMPTIONS.get(prop, [])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions) + stated,
          'wall_s': round(time.time() - t0, 2), 'violations': len(lines)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if vacuous:
        print('  warning: vacuous cases: %s' % vacuous)
    print('%s: %d/%d obligation instances discharged (%s), %d functions, native samples %d, undecided: %s, %.1f s' % (
        prop, ndis, nob, back, len(fns), sum(samples.values()), ['%s: %s' % u for u in undecided] or 'none',
        time.time() - t0))
    if nat_errors:
        print('  native runner: %s' % nat_errors[0][:1500])
    for l in lines:
        print(l)
    if lines:
        return 1
    if len(nat_errors) >= nproc and (load_error or undecided):
        return 2
    return 0


def sample_inputs(results):
    return [{'case': n, 'note': 'all obligations discharged symbolically'} for n in list(results)[:2]] or ['none']


def match_known(known, case, ob, msg, inputs):
    for k in known:
        if k['case'] != case or (k.get('obligation') and k['obligation'] != ob):
            continue
        if k.get('match') and not re.search(k['match'], str(msg)):
            continue
        if k.get('input_match') and not re.search(k['input_match'], json.dumps(inputs)):
            continue
        return k
    return None


def safe(s):
    return re.sub(r'[^A-Za-z0-9_.-]', '_', s)


if __name__ == '__main__':
    sys.exit(main())
