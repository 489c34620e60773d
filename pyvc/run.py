"""run.py PROP OUT [--tier T] [--jobs N]: verify every function under contract
for a property, each in a process of its own, and every function whose
contract was used on the way.  Writes a JSON report."""
import argparse
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'contracts'))


def worker(mods, idx, prop, scale, out):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    os.environ['PYVC_SCALE'] = str(scale)
    if scale > 1:
        os.environ['PYVC_HINTS'] = '0'
    try:
        import prove
        import contract
        p, specs = prove.program(mods)
        for q in filter(None, os.environ.get('PYVC_NOSOFT', '').split()):
            p.contracts.pop(q, None)
        s = specs[idx]
        r = contract.verify(p, s, prop).as_dict()
        r['assumptions'] = list(getattr(s, 'assumes', ()))
    except BaseException as e:
        r = dict(function='?', obligations=[], paths=0, reached=0, secs=0,
                 solver_time=0, solver_calls=0, inlined=[], used_contracts=[],
                 assumptions=[],
                 unsupported=f'{type(e).__name__}: {e} '
                 + traceback.format_exc()[-600:])
    with open(out, 'w') as f:
        json.dump(r, f)


def run_specs(mods, todo, prop, jobs, scale, deadline, tmp):
    """todo: [(index, name)] -> {index: report}"""
    ctx = multiprocessing.get_context('fork')
    running, done = {}, {}
    queue = list(todo)
    while queue or running:
        while queue and len(running) < jobs:
            i, name = queue.pop(0)
            out = os.path.join(tmp, f'spec{i}.json')
            if os.path.exists(out):
                os.unlink(out)
            pr = ctx.Process(target=worker, args=(
                mods, i, prop, scale, out))
            pr.start()
            running[i] = (pr, out, name)
        time.sleep(.02)
        for i, (pr, out, name) in list(running.items()):
            late = time.time() > deadline
            if pr.is_alive() and late:
                pr.kill()
                pr.join()
            if not pr.is_alive():
                pr.join()
                try:
                    with open(out) as f:
                        done[i] = json.load(f)
                except (OSError, ValueError):
                    done[i] = dict(
                        function=name, obligations=[], paths=0, reached=0,
                        secs=0, solver_time=0, solver_calls=0, inlined=[],
                        used_contracts=[], assumptions=[],
                        unsupported='no answer in time' if late else
                        f'verifier process ended with {pr.exitcode}')
                del running[i]
    return done


def bad(r):
    return [o for o in r['obligations'] if o['status'] != 'proved']


def record(prop, report):
    path = os.path.join(HERE, 'hints.json')
    try:
        with open(path) as f:
            h = json.load(f)
    except (OSError, ValueError):
        h = {}
    for k in [k for k in h if k.endswith('|' + prop)]:
        del h[k]
    for r in report['functions']:
        if r.get('kept') and not bad(r) and not r['unsupported']:
            h[f"{r['function']}|{r['spec']}|{prop}"] = r['kept']
    with open(path, 'w') as f:
        json.dump(h, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=5)
    ap.add_argument('--secs', type=float, default=400)
    ap.add_argument('--record', action='store_true',
                    help='store the surviving invariants as hints')
    a = ap.parse_args()
    if a.record:
        os.environ['PYVC_HINTS'] = '0'
    t0 = time.time()
    import prove
    import registry
    import tempfile
    import shutil
    mods = registry.MODULES.get(a.prop, [])
    report = dict(prop=a.prop, modules=mods, functions=[])
    if mods:
        _, specs = prove.program(mods)
        deadline = t0 + a.secs
        tmp = tempfile.mkdtemp(prefix='pyvc-')
        try:
            todo = [(i, s.qual) for i, s in enumerate(specs)
                    if a.prop in s.props and not getattr(s, 'assumed', False)]
            done = {}
            while todo:
                got = run_specs(mods, todo, a.prop, a.jobs, 1, deadline, tmp)
                # an obligation that was not discharged gets more time
                again = [(i, specs[i].qual) for i, r in got.items()
                         if bad(r) and time.time() < deadline - 20]
                if again:
                    got.update(run_specs(mods, again, a.prop, max(
                        1, a.jobs // 2), 4, deadline, tmp))
                done.update(got)
                used = {u for r in got.values() for u in r['used_contracts']}
                todo = [(i, s.qual) for i, s in enumerate(specs)
                        if s.qual in used and i not in done
                        and not getattr(s, 'assumed', False)]
            # a contract of our own for a private helper that does not hold
            # (any more) is given up: its callers are verified with its body
            soft = {i for i, r in done.items() if getattr(
                specs[i], 'soft', False) and (bad(r) or r['unsupported'])}
            if soft:
                quals = {specs[i].qual for i in soft}
                os.environ['PYVC_NOSOFT'] = ' '.join(quals)
                for i in soft:
                    del done[i]
                todo = [(i, specs[i].qual) for i, r in done.items()
                        if quals & set(r['used_contracts'])]
                got = run_specs(mods, todo, a.prop, a.jobs, 1, deadline, tmp)
                again = [(i, specs[i].qual) for i, r in got.items()
                         if bad(r) and time.time() < deadline - 20]
                if again:
                    got.update(run_specs(mods, again, a.prop, max(
                        1, a.jobs // 2), 4, deadline, tmp))
                done.update(got)
                report['given_up'] = sorted(quals)
            for i in sorted(done):
                r = done[i]
                r['spec'] = type(specs[i]).__name__
                r['function'] = specs[i].qual
                report['functions'].append(r)
            used = {u for r in done.values() for u in r['used_contracts']}
            rest = {s.qual for s in specs if getattr(s, 'assumed', False)
                    and s.qual in used}
            # contracts that are verified at another level of detail
            for mod, prop in registry.ELSEWHERE.items():
                if not rest or mod in mods:
                    continue
                _, sp2 = prove.program([mod])
                todo = [(i, s.qual) for i, s in enumerate(sp2)
                        if s.qual in rest]
                if not todo:
                    continue
                got = run_specs([mod], todo, prop, a.jobs, 1, deadline, tmp)
                again = [(i, sp2[i].qual) for i, r in got.items()
                         if bad(r) and time.time() < deadline - 20]
                if again:
                    got.update(run_specs([mod], again, prop, max(
                        1, a.jobs // 2), 4, deadline, tmp))
                for i in sorted(got):
                    r = got[i]
                    r['spec'] = type(sp2[i]).__name__
                    r['function'] = sp2[i].qual
                    report['functions'].append(r)
                    rest.discard(sp2[i].qual)
            report['assumed_contracts'] = sorted(rest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a.record:
        record(a.prop, report)
    for r in report['functions']:
        r.pop('kept', None)
    report['secs'] = round(time.time() - t0, 2)
    with open(a.out + '.tmp', 'w') as f:
        json.dump(report, f, indent=1)
    os.rename(a.out + '.tmp', a.out)


if __name__ == '__main__':
    main()
