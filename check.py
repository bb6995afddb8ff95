#!/usr/bin/python3
"""check.py <ID> [--tier quick|thorough] [--only SUBSTR] [-v]

Decides one property of /verif/properties.jsonl on the sources found in
$VERIF_REPO (default /repo).  Nothing of the repository is imported or run.
"""
import sys
sys.dont_write_bytecode = True
import importlib
import json
import os
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine.program import Program            # noqa: E402
from engine.interp import AnchorMissing, Interp   # noqa: E402
from engine.explore import explore            # noqa: E402

_G = {}


def run_one(i):
    prog, scens, tier, deadline = _G['prog'], _G['scens'], _G['tier'], \
        _G['deadline']
    sc = scens[i]
    left = max(1.0, deadline - time.time())
    cap = sc.max_paths or (6000 if tier == 'quick' else 60000)
    tm = min(left, sc.max_time or (60 if tier == 'quick' else 400))
    Interp.LOOP_K = sc.loop_k or (2 if tier == 'quick' else 3)
    prog.analysed.clear()
    r = explore(prog, sc.fn, cap, tm, sc.name)
    return dict(
        name=sc.name, subject=sc.subject, paths=r.paths, pruned=r.pruned,
        obligations=r.obligations, bounded=r.bounded, capped=r.capped,
        undecided=r.undecided[:20], n_undecided=len(r.undecided),
        violations=r.violations[:5], wall=round(r.wall, 3),
        analysed=sorted('%s:%s' % f for f in prog.analysed))


def main():
    args = sys.argv[1:]
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for j, a in enumerate(args):
        if a == '--tier':
            tier = args[j + 1]
        if a == '--only':
            only = args[j + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        prog = Program(repo)
        scens = mod.scenarios(prog)
    except AnchorMissing as e:
        print('ANALYSIS-BROKEN property=%s anchor vanished: %s' % (pid, e))
        return 2
    if only:
        scens = [s for s in scens if only in s.name]
    floor = getattr(mod, 'MIN_SCENARIOS', 1)
    if not only and len(scens) < floor:
        print('ANALYSIS-BROKEN property=%s only %d rule instances (%d '
              'confirmed by hand)' % (pid, len(scens), floor))
        return 2
    _G.update(prog=prog, scens=scens, tier=tier,
              deadline=t0 + (600 if tier == 'quick' else 840))
    n = min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1,
            len(scens))
    if n > 1 and not verbose:
        with get_context('fork').Pool(n) as pool:
            out = pool.map(run_one, range(len(scens)), chunksize=1)
    else:
        out = [run_one(i) for i in range(len(scens))]
    findings = load_known(pid)
    viol, known = [], []
    for r in out:
        for v in r['violations']:
            v['subject'] = r['subject']
            k = match_known(findings, r['name'], v)
            if k is not None:
                known.append(k)
            else:
                viol.append(v)
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    tot = lambda k: sum(r[k] for r in out)      # noqa: E731
    funcs = sorted(set(f for r in out for f in r['analysed']))
    nund = tot('n_undecided')
    cov = {
        'explanation': mod.RULE,
        'rule_instances': len(out),
        'trace_partitions_decided': tot('paths'),
        'trace_partitions_infeasible': tot('pruned'),
        'obligations_checked': tot('obligations'),
        'partitions_undecided': nund,
        'functions_analysed': len(funcs),
        'modules_parsed': len(prog.modules),
        'instances_capped': sum(1 for r in out if r['capped']),
        'functions': funcs,
        'undecided_reasons': sorted(set(
            u for r in out for u in r['undecided']))[:20],
        'bounds_hit': sorted(set(b for r in out for b in r['bounded']))[:20],
        'instances': [
            {k: r[k] for k in ('name', 'subject', 'paths', 'obligations',
                               'n_undecided', 'capped', 'wall')}
            for r in out],
        'module_load_errors': prog.load_errors,
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': cov,
        'assumptions': ASSUME + getattr(mod, 'ASSUME', []),
        'violations': len(viol),
        'wall_s': round(time.time() - t0, 3),
    }
    EV = os.environ.get('EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    if not only:
        path = os.path.join(EV, pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(path + '.tmp', path)
    if verbose or os.environ.get('VERBOSE'):
        for r in out:
            print('%-50s paths=%d pruned=%d obl=%d und=%d viol=%d %s%.2fs' % (
                r['name'], r['paths'], r['pruned'], r['obligations'],
                r['n_undecided'], len(r['violations']),
                'CAPPED ' if r['capped'] else '', r['wall']))
            for u in sorted(set(r['undecided']))[:6]:
                print('      undecided:', u)
            for b in sorted(r['bounded'])[:4]:
                print('      bound:', b, r['bounded'][b])
    if prog.load_errors and verbose:
        print('LOAD', prog.load_errors)
    if viol:
        rp = os.path.join(EV, pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'repo': repo, 'violations': viol,
                       'reproduce': 'python3 check.py %s' % pid}, f,
                      indent=1, default=str)
        seen = {}
        for v in viol:
            seen[v['rule']] = seen.get(v['rule'], 0) + 1
            if seen[v['rule']] > 1 or len(seen) > 12:
                continue
            print('  [%s] %s' % (v['rule'], v['message']))
            print('      at %s   (analysing %s)' % (v['where'], v['subject']))
            for c in v['path'][-12:]:
                print('        %s: %s = %s/%s' % (c['at'], c['cond'],
                                                  c['choice'], c['of']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s instances=%d partitions=%d obligations=%d '
          'undecided=%d functions=%d wall=%.1fs' % (
              pid, len(out), tot('paths'), tot('obligations'), nund,
              len(funcs), time.time() - t0))
    return 0


ASSUME = [
    'The engine\'s transfer functions for CPython 3.12 and the standard '
    'library calls the repository makes are faithful.',
    'Loops over unknown collections are analysed for 0..K abstract elements '
    '(K=2 quick, 3 thorough); while loops up to the recorded bound.',
    'Trace partitions the engine cannot model are counted under '
    'partitions_undecided and raise no alarm.',
]


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                # finding: property=ID rule=<instance> where=<func> <what>
                parts = line.split(' ', 4)
                out.append((parts[2][5:], parts[3][6:], parts[4]))
    return out


def match_known(findings, name, v):
    for rule, where, what in findings:
        if rule == name and '(%s)' % where in v['where']:
            return what
    return None


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
