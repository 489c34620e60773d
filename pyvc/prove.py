"""Command line driver of the verifier: prove.py MODULE[,..] PROP"""
import sys
import os
import importlib
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'contracts'))

import interp          # noqa: E402
import contract        # noqa: E402

ROOT = os.environ.get('PYVC_ROOT', '/repo/src')


def program(mods):
    p = interp.Program(ROOT)
    specs = []
    for m in mods:
        mod = importlib.import_module(m)
        p.attr_types.update(getattr(mod, 'ATTRS', {}))
        p.structs.update(getattr(mod, 'STRUCTS', {}))
        p.overrides.update(getattr(mod, 'OVERRIDES', {}))
        p.ext.update(getattr(mod, 'EXTERNALS', {}))
        for s in mod.SPECS:
            specs.append(s)
            if not s.inline:
                p.contracts.setdefault(s.qual, s)
    return p, specs


def main():
    mods = sys.argv[1].split(',')
    prop = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-' else None
    only = sys.argv[3] if len(sys.argv) > 3 else None
    p, specs = program(mods)
    for s in specs:
        if prop and prop not in s.props:
            continue
        if only and only not in s.qual + '#' + type(s).__name__:
            continue
        r = contract.verify(p, s, prop, debug=bool(os.environ.get('DBG')))
        bad = [o for o in r.obligations if o.status != 'proved']
        print(f'{r.qual}: {len(r.obligations)} obligations, {len(bad)} bad, '
              f'{r.paths} paths ({r.reached} reached), {r.secs:.1f}s'
              + (f' UNSUPPORTED {r.unsupported}' if r.unsupported else ''))
        for o in bad:
            print('   FAIL', o.name, o.backend, o.detail[:300])
        if os.environ.get('VERB'):
            for o in r.obligations:
                print('    ', o.status, o.backend, f'{o.secs:.2f}', o.name)
        sys.stdout.flush()


if __name__ == '__main__':
    main()
