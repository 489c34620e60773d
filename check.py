#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current tree.

Two things run side by side:
  * the verifier (pyvc/): every function under contract for the property is
    read from /repo, its obligations are generated and discharged;
  * the executable form of the contract on the real code (harness/): looks for
    a failing input, and stands in (labelled bounded) for functions that the
    verifier cannot read.

Exit 0: held; exit 1 with a VIOLATION line: broken; 2: the check failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
ROOT = os.environ.get('PYVC_ROOT', '/repo/src')
KNOWN = os.path.join(HERE, 'known_findings.txt')

TRUSTED = [
    'pyvc: the translation of the Python subset to verification conditions '
    '(pyvc/core.py, interp.py, models.py)',
    'the contracts assumed for BTrees, persistent, builtins, bisect, heapq, '
    'itertools, re, math (pyvc/models.py)',
    'z3 5.3 and cvc5 1.1.2',
]
ASSUMED = [
    'floating point numbers are treated as real numbers',
    'termination is not proved (partial correctness)',
    'values given to an index are totally ordered and not NaN',
    'no other thread or process changes the objects during a call',
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
             PYTHONHASHSEED='0', PYVC_ROOT=ROOT)
    e.pop('PURE_PYTHON', None)
    return e


def harness(prop, tier, seed, out, secs=None, limit=None):
    cmd = [PY, os.path.join(HERE, 'harness/main.py'), prop, '--tier', tier,
           '--seed', str(seed), '--out', out]
    if secs:
        cmd += ['--secs', str(secs)]
    if limit:
        cmd += ['--limit', str(limit)]
    return subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix='zi-check-')
    try:
        return run(a.prop, a.tier if a.tier == 'thorough' else 'quick',
                   int(a.seed), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, tmp):
    t0 = time.time()
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        man = json.load(f)
    level = [c['level'] for c in man['checks'] if c['property'] == prop]
    level = level[0] if level else 'exploration'
    hout, pout = os.path.join(tmp, 'h.json'), os.path.join(tmp, 'p.json')
    shards = []
    nsh = 1 if tier == 'quick' else 3
    for i in range(nsh):
        o = f'{hout}.{i}'
        shards.append((o, harness(prop, tier, seed + 1000 * i, o)))
    cmd = [VT, os.path.join(HERE, 'pyvc/run.py'), prop, pout, '--tier', tier,
           '--jobs', '6' if tier == 'quick' else '4',
           '--secs', '330' if tier == 'quick' else '600']
    prover = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)
    log = ''
    runs = []
    for o, p in shards:
        txt = p.communicate()[0]
        r = load(o)
        if r is None:
            log += txt[-3000:]
        else:
            runs.append(r)
    rep = load(pout)
    if rep is None:
        sys.stderr.write(prover.stdout[-3000:])
        rep = dict(functions=[], error=prover.stdout[-2000:])
    failed, unsup, nob, ndis, stime = [], [], 0, 0, 0.0
    backends = {}
    for r in rep['functions']:
        stime += r['solver_time']
        if r['unsupported'] or not r['reached']:
            unsup.append((r['function'], r['unsupported'] or
                          'no path reaches the end'))
            continue        # nothing of it counts
        for o in r['obligations']:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                failed.append(dict(function=r['function'], **o))
    failures = [f for r in runs for f in r['failures']]
    extra = None
    if failed and not failures:
        # look harder for an input that shows it
        o = hout + '.x'
        p = harness(prop, 'thorough', seed + 7, o, secs=100)
        log2 = p.communicate()[0]
        extra = load(o)
        if extra is not None:
            runs.append(extra)
            failures = extra['failures']
    known = sorted({k for r in runs for k in r['known']})
    wall = time.time() - t0
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd=f'{VT} pyvc/run.py {prop} OUT',
        trusted_base=TRUSTED + [
            f'contract of {c}' for c in rep.get('assumed_contracts', [])],
        backends=backends, solver_seconds=round(stime, 2),
        functions_under_contract=sorted(
            {r['function'] for r in rep['functions']}
            - {u[0] for u in unsup}),
        bodies_inlined=sorted({x for r in rep['functions']
                               for x in r['inlined']}),
        bounded_stand_in_for=[f'{f}: {w[:300]}' for f, w in unsup],
        failed_obligations=[f['name'] for f in failed],
        evaluations=sum(r['evaluations'] for r in runs),
        distinct_nontrivial=sum(r['distinct_nontrivial'] for r in runs),
        rule='(bounded, on the real code) ' + (runs[0]['rule'] if runs
                                               else ''),
        samples=(runs[0]['samples'] if runs else [])[:2],
    )
    if level == 'other' or not nob:
        cov['explanation'] = 'bounded execution of the contract only'
    ev = dict(property=prop, tier=tier, seed=seed,
              level=level, coverage=cov,
              assumptions=ASSUMED + sorted({
                  x for r in rep['functions'] for x in r['assumptions']}),
              wall_s=round(wall, 2),
              violations=len(failures) or (1 if failed else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    for f, w in unsup:
        print(f'bounded: {f} is outside the verifier\'s subset: {w[:200]}')
    print(f'{prop}: {ndis}/{nob} obligations in {len(rep["functions"])} '
          f'functions, {cov["evaluations"]} cases, {wall:.1f} s')
    if failures or failed:
        rdir = os.path.join(HERE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump(dict(
                property=prop, case=failures[0]['case'] if failures else None,
                message=failures[0]['message'] if failures else
                'no failing input found; the obligations below are not '
                'discharged', failed_obligations=failed,
                how=f'{PY} {HERE}/harness/main.py {prop} --replay {path}'),
                f, indent=1)
        for f in failed[:5]:
            print(f'failed obligation: {f["name"]} ({f["detail"][:200]})')
        if failures:
            print('failing input:', json.dumps(failures[0]['case'])[:1000])
            print('  ', failures[0]['message'][:500])
        print(f'VIOLATION property={prop} replay={path}'
              + ('' if failures else ' no-failing-input-found'))
        return 1
    if not runs:
        sys.stderr.write(log)
        if not nob or unsup:
            print('the executable contract could not be run')
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
