"""Executing the contracts on the real code: cases, replay, shrinking.

A harness produces cases (JSON values) and runs each on the real classes of
/repo, comparing with an executable form of the contract.  It is used to find
a failing input when a proof obligation fails, and as the labelled bounded
stand-in of functions that the verifier cannot read.
"""
import hashlib
import importlib.util
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

ROOT = os.environ.get('PYVC_ROOT', '/repo/src')


class Fail(Exception):
    """The contract does not hold for this case."""


class Hang(BaseException):
    pass


def check(cond, msg):
    if not cond:
        raise Fail(msg)


def eq(got, want, what):
    if got != want:
        raise Fail(f'{what}: got {show(got)}, expected {show(want)}')


def close(got, want, what, rel=2e-5):
    if not (abs(got - want) <= rel * max(1.0, abs(want)) or got == want):
        raise Fail(f'{what}: got {got!r}, expected {want!r}')


def show(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


_scratch = []


def scratch():
    if not _scratch:
        _scratch.append(tempfile.mkdtemp(prefix='zi-harness-'))
    return _scratch[0]


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


def load_okascore():
    """Compile okascore.c of the current tree and make it importable."""
    src = os.path.join(ROOT, 'zope/index/text/okascore.c')
    out = os.path.join(scratch(), 'okascore.so')
    inc = sysconfig.get_paths()['include']
    p = subprocess.run(
        ['gcc', '-shared', '-fPIC', '-O2', '-I', inc, src, '-o', out],
        capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('okascore.c does not compile: ' + p.stderr[-2000:])
    spec = importlib.util.spec_from_file_location(
        'zope.index.text.okascore', out)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules['zope.index.text.okascore'] = mod
    return mod


def setup():
    """Import zope.index from ROOT, with a freshly built okascore."""
    sys.dont_write_bytecode = True
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import zope.index
    where = os.path.realpath(os.path.dirname(zope.index.__file__))
    want = os.path.realpath(os.path.join(ROOT, 'zope/index'))
    if where != want:
        # editable installs point elsewhere: use ROOT's package
        import zope
        for m in [m for m in sys.modules if m.startswith('zope.index')]:
            del sys.modules[m]
        zope.__path__ = [os.path.join(ROOT, 'zope')] + list(zope.__path__)
        import zope.index
        where = os.path.realpath(os.path.dirname(zope.index.__file__))
        if where != want:
            raise RuntimeError(f'zope.index imported from {where}')
    import zope.index.text
    load_okascore()


class Harness:
    id = None
    rule = ''
    secs = {'quick': 25, 'thorough': 240}
    limit = {'quick': 16000, 'thorough': 400000}
    case_secs = 30

    def cases(self, rng, tier):
        raise NotImplementedError

    def run(self, case):
        """Raise Fail if the contract is broken; return True when the case
        was not trivial."""
        raise NotImplementedError

    def shrinks(self, case):
        """Smaller variants of a failing case."""
        for k, v in sorted(case.items()):
            if isinstance(v, list) and v and k in self.shrinkable:
                n = len(v)
                size = n // 2
                while size >= 1:
                    for i in range(0, n, size):
                        c = dict(case)
                        c[k] = v[:i] + v[i + size:]
                        yield c
                    size //= 2
    shrinkable = ('ops', 'items', 'words', 'queries')

    # -- driver ---------------------------------------------------------------

    def attempt(self, case):
        """-> (message or None, nontrivial)"""
        def alarm(*a):
            raise Hang()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(self.case_secs)
        try:
            r = self.run(case)
            return None, bool(r)
        except Fail as e:
            return str(e), True
        except Hang:
            return f'no answer within {self.case_secs} s', True
        except (MemoryError, RecursionError, Exception) as e:
            tb = traceback.extract_tb(e.__traceback__)
            real = [f for f in tb if '/zope/index/' in f.filename]
            at = real[-1] if real else tb[-1]
            return (f'unexpected {type(e).__name__}: {e} at '
                    f'{os.path.basename(at.filename)}:{at.lineno}'), True
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def shrink(self, case, msg, secs=20):
        t0 = time.time()
        again = True
        while again and time.time() - t0 < secs:
            again = False
            for c in self.shrinks(case):
                if time.time() - t0 > secs:
                    break
                m, _ = self.attempt(c)
                if m:
                    case, msg, again = c, m, True
                    break
        return case, msg

    def search(self, seed, tier, secs=None, limit=None):
        rng = random.Random(f'{self.id}/{seed}')
        t0 = time.time()
        secs = secs or self.secs[tier]
        limit = limit or self.limit[tier]
        seen = set()
        n = nontrivial = 0
        samples = []
        failures = []
        known = []
        for case in self.cases(rng, tier):
            if n >= limit or time.time() - t0 > secs:
                break
            key = hashlib.md5(json.dumps(
                case, sort_keys=True).encode()).digest()
            if key in seen:
                continue
            msg, nt = self.attempt(case)
            n += 1
            seen.add(key)
            if nt:
                nontrivial += 1
                if len(samples) < 3 and n % 7 == 1:
                    s = json.dumps(case)
                    samples.append(case if len(s) < 1500 else s[:1500])
            if msg:
                k = self.known(case, msg)
                if k:
                    known.append(k)
                    continue
                case, msg = self.shrink(case, msg)
                failures.append(dict(case=case, message=msg))
                break
        return dict(evaluations=n, distinct_nontrivial=nontrivial,
                    rule=self.rule, samples=samples, failures=failures,
                    known=sorted(set(known)), secs=round(time.time() - t0, 2))

    def known(self, case, msg):
        """The listed finding that this failure is an instance of."""
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'known_findings.txt')
        head = f'known: property={self.id} match='
        try:
            with open(path) as f:
                for line in f:
                    if line.startswith(head):
                        match, what = line[len(head):].split(' | ', 1)
                        if match in msg:
                            return what.strip()
        except OSError:
            pass
        return None
