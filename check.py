#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [--verbose]

Decides one property by symbolic execution of /repo's current source and an SMT solver.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import argparse
import importlib
import json
import os
import pkgutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/dev/null/none'   # never run stale bytecode
sys.setrecursionlimit(6000)


def load_cases(prop=None):
    import props
    from sx import ctx
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module('props.' + m.name)
    return {k: c for k, c in ctx.CASES.items() if prop is None or k[0] == prop}


def worker(case, tier, seed, known, path):
    os.setsid()
    from sx import run as R
    try:
        r = R.Run(case, tier, seed, known)
        res = r.explore()
    except BaseException as e:                      # noqa
        import traceback
        res = dict(case=case.name, crash=repr(e) + traceback.format_exc()[-1500:])
    with open(path + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.replace(path + '.tmp', path)
    os._exit(0)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    cases = [c for c in load_cases(a.prop).values()]
    if tier == 'quick':
        cases = [c for c in cases if not c.opts.get('thorough_only')]
    if a.case:
        cases = [c for c in cases if c.name == a.case or c.name.split('[')[0] == a.case]
    if not cases:
        print('no cases for', a.prop)
        return 2
    known = known_findings(a.prop)
    cases.sort(key=lambda c: -c.opts.get('weight', 1))
    import tempfile
    import multiprocessing as mp
    import z3  # noqa  (imported once, before forking)
    from sx import run  # noqa
    ctx = mp.get_context('fork')
    total_budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 7200))
    tmp = tempfile.mkdtemp(prefix='verif-')
    pend = list(cases)
    live = []
    results = []
    viol = None
    try:
        while pend or live:
            over = time.time() - t0 > total_budget
            while pend and len(live) < a.jobs and viol is None and not over:
                c = pend.pop(0)
                path = os.path.join(tmp, f'{len(results)}-{len(live)}-{time.time_ns()}.json')
                p = ctx.Process(target=worker, args=(c, tier, seed, known, path))
                p.start()
                budget = c.opts.get('budget', 150 if tier == 'quick' else 900)
                live.append((p, c, path, time.time(), budget * 1.3 + 120))
            if over or viol is not None:
                for c in pend:
                    results.append(dict(case=c.name, skipped=True))
                pend = []
            for it in list(live):
                p, c, path, st, lim = it
                kill = time.time() - st > lim or over or viol is not None
                if not p.is_alive() or kill:
                    if p.is_alive():
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.kill()
                    p.join()
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    live.remove(it)
                    if os.path.exists(path):
                        with open(path) as f:
                            r = json.load(f)
                    else:
                        r = dict(case=c.name, killed=True)
                    results.append(r)
                    if a.verbose:
                        show(r)
                    if r.get('violation') and viol is None:
                        rp = confirm(a.prop, r['violation'], tmp)
                        if rp:
                            viol = (rp, r['violation'])
                        else:
                            r.setdefault('spurious', []).append(dict(label='not reproduced in a fresh process', hit=r['violation']))
            time.sleep(0.01)
    finally:
        for p, *_ in live:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        subprocess.run(['rm', '-rf', tmp])
    return report(a, tier, seed, cases, results, viol, known, t0)


def confirm(prop, hit, tmp):
    """replay in a fresh interpreter that imports /repo's package in the ordinary way"""
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    n = ''.join(ch if ch.isalnum() else '_' for ch in hit['case'])
    p = os.path.join(d, f'{prop}-{n}.json')
    with open(p, 'w') as f:
        json.dump(dict(property=prop, **hit), f, indent=1)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), p], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return p
    if r.returncode == 1:
        return p
    return None


def show(r):
    if r.get('crash') or r.get('killed') or r.get('skipped'):
        print('CASE', r['case'], r.get('crash') or ('killed' if r.get('killed') else 'skipped'))
        return
    q = r['queries']
    print(f"CASE {r['case']}: paths={r['paths']} complete={r['complete']} infeasible={r['infeasible']} "
          f"queries={q['total']} (trivial {q['trivial']}, unsat {q['unsat']}, sat {q['sat']}, unknown {q['unknown']}) "
          f"{r['wall']:.1f}s feas={r['stats']['feas_queries']}/{r['stats']['feas_time']:.1f}s div={r['stats'].get('diverged', 0)} unk={r['stats']['feas_unknown']} "
          f"portfolio={r['portfolio']['portfolio_calls']}")
    for l, k in r['labels'].items():
        print('   ', l, k)
    for k in ('inconclusive', 'spurious', 'wit_bad'):
        if r[k]:
            print('   ', k, len(r[k]), r[k][:3])
    if r['violation']:
        print('    VIOL', r['violation'])


def report(a, tier, seed, cases, results, viol, known, t0):
    paths = sum(r.get('paths', 0) for r in results)
    inc = []
    novac = []
    labels = 0
    q = dict(total=0, trivial=0, unsat=0, sat=0, unknown=0, time=0.0)
    dec = forks = 0
    feas = 0
    feas_t = 0.0
    funcs = set()
    wit = []
    mism = []
    known_seen = []
    per = []
    for r in results:
        if r.get('crash') or r.get('killed') or r.get('skipped'):
            if not (r.get('skipped') and viol):
                inc.append(dict(case=r['case'], what=(r.get('crash') or ('killed' if r.get('killed') else 'skipped'))[:600]))
            continue
        for k in q:
            q[k] += r['queries'][k]
        dec += r['stats']['decisions']
        forks += r['stats']['forks']
        feas += r['stats']['feas_queries']
        feas_t += r['stats']['feas_time']
        funcs |= set(r['functions'])
        for w in r['witnesses']:
            wit.append(dict(case=r['case'], **w))
        for w in r['wit_bad']:
            mism.append(dict(case=r['case'], **w))
        for i in r['inconclusive']:
            inc.append(dict(case=r['case'], **i))
        for i in r['spurious']:
            inc.append(dict(case=r['case'], what='unreproduced counterexample', **i))
        for l, k in r['labels'].items():
            labels += 1
            if not k['witness'] and not l.startswith('no-exception') and l != 'terminates':
                novac.append(r['case'] + ':' + l)
        for k in r['known']:
            if k not in known_seen:
                known_seen.append(k)
        per.append(dict(case=r['case'], paths=r['paths'], infeasible=r['infeasible'], queries=r['queries'],
                        labels=r['labels'], wall_s=round(r['wall'], 2), inputs=r['inputs'],
                        bounds={n: ['-inf' if lo is None else float(lo), 'inf' if hi is None else float(hi)]
                                for n, (lo, hi) in sorted(r['ranges'].items())}))
    doc = {}
    try:
        import bounds_doc
        doc = bounds_doc.DOC.get(a.prop, {})
    except ImportError:
        pass
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=paths, transitions=dec, traces_validated_against_impl=len(wit),
                            samples=wit[:12], cases=per, labels=labels,
                            functions_encoded=sorted(funcs), queries=q, feasibility_queries=feas,
                            feasibility_time_s=round(feas_t, 2), forks=forks,
                            solver_time_s=round(q['time'] + feas_t, 2),
                            inconclusive=inc[:60], inconclusive_count=len(inc),
                            labels_without_witness=novac, witness_mismatches=mism[:20],
                            explanation='states = execution paths explored symbolically; transitions = branch decisions '
                                        'evaluated; traces_validated = solver models of explored paths replayed on the plain library'),
              assumptions=COMMON_ASSUMPTIONS + doc.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(EVID, exist_ok=True)
    if not a.case:
        with open(os.path.join(EVID, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for i in inc[:20]:
        print('INCONCLUSIVE', json.dumps(i, default=str)[:500])
    for k in known_seen:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if mism and a.verbose:
        print('WITNESS-MISMATCH', mism[:5])
    if novac and a.verbose:
        print('NO-WITNESS', novac)
    print(f'{a.prop} {tier}: cases={len(results)} paths={paths} decisions={dec} assertions={q["total"]} '
          f'(solver unsat {q["unsat"]}, by normal form {q["trivial"]}) solver={q["time"] + feas_t:.1f}s '
          f'witnesses={len(wit)} inconclusive={len(inc)} wall={time.time() - t0:.1f}s')
    if viol:
        rp, hit = viol
        print(json.dumps(hit, default=str)[:1500])
        print(f'VIOLATION property={a.prop} replay={rp}')
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    'arithmetic is exact real arithmetic (floating-point constants of the source are taken at their exact value, '
    'multiples of pi within 2.5 ulp as exact multiples); IEEE rounding, overflow, NaN and signed zeros are outside the claim '
    'except in cases named fp*',
    'sin/cos/atan2/acos/asin are seen through c*c+s*s=1, angle-sum expansion and sign/quadrant facts; '
    'exp/log/pow through positivity, monotonicity and inverse facts',
    'the encoding is the Python source of /repo/src executed by CPython on symbolic numbers; print is a no-op',
]

if __name__ == '__main__':
    sys.exit(main())
