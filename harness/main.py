"""main.py PROP --tier T --seed N --out FILE [--secs S] | --replay FILE"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import common       # noqa: E402


def registry():
    import props
    return {h.id: h for h in props.ALL}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--out')
    ap.add_argument('--secs', type=float)
    ap.add_argument('--limit', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        common.setup()
        h = registry()[a.prop]()
        if a.replay:
            with open(a.replay) as f:
                case = json.load(f)['case']
            msg, _ = h.attempt(case)
            print(('FAILS: ' + msg) if msg else 'holds for this case')
            return 1 if msg else 0
        r = h.search(a.seed, a.tier, a.secs, a.limit)
        if a.out:
            with open(a.out + '.tmp', 'w') as f:
                json.dump(r, f)
            os.rename(a.out + '.tmp', a.out)
        else:
            print(json.dumps(r, indent=1)[:4000])
        return 0
    finally:
        common.cleanup()


if __name__ == '__main__':
    sys.exit(main())
