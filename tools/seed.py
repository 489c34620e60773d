"""seed.py FILE: validate planted bugs described in a python file.

The file defines BUGS = [dict(id, property, file, old, new, demo, needs,
what)].  Each is applied to a copy of /repo under /tmp, built, tested, its
demonstration run with and without; kept in /verif/seeded/<id> if all holds.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) \
    if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                          text=True, **kw)


DEMO = '''#!/bin/bash
# exit 0 when the property holds for this input
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    only = sys.argv[2:]
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if only and b['id'] not in only:
            continue
        repo = '/repo'
        assert not sh('git status --porcelain --untracked-files=no',
                      repo).stdout.strip(), 'repo not clean'
        try:
            d = os.path.join('/verif/seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            with open(d + '/demo.sh', 'w') as f:
                f.write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            with open(d + '/demo.py', 'w') as f:
                f.write(b['demo'].lstrip())
            ok0 = sh('bash ' + d + '/demo.sh', repo)
            edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
            for fn, old, new in edits:
                p = os.path.join(repo, 'src/zope/index', fn)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', repo).stdout
            sh('bash /opt/vp/build.sh', repo)
            t = sh('bash /opt/vp/test.sh /tmp/seed_out.json', repo)
            res = json.load(open('/tmp/seed_out.json'))
            nf = res.get('failed') or []
            npass = len(res.get('passed') or [])
            bad = sh('bash ' + d + '/demo.sh', repo)
            good = ok0.returncode == 0 and bad.returncode != 0 and not nf \
                and npass >= 728
            print(b['id'], 'KEPT' if good else 'REJECTED', 'demo',
                  ok0.returncode, bad.returncode, 'tests', npass, nf[:3],
                  (ok0.stderr or '')[-300:] if ok0.returncode else '',
                  (bad.stdout + bad.stderr)[-160:].strip())
            if good:
                with open(d + '/patch.diff', 'w') as f:
                    f.write(diff)
                with open(d + '/meta.json', 'w') as f:
                    json.dump(dict(property=b['property'], needs=b['needs'],
                                   what_it_breaks=b['what']), f, indent=1)
            else:
                shutil.rmtree(d)
        finally:
            sh('git checkout -- .', repo)
    sh('bash /opt/vp/build.sh', '/repo')


if __name__ == '__main__':
    main()
