"""pyvc core: symbolic values, types, heap state, path exploration, solvers.

The interpreter (interp.py) is written in direct style.  Whenever a symbolic
choice has to be made it calls Ctx.branch/choose; the explorer re-executes the
function once per decision sequence until all of them are covered.
"""
import time
import subprocess
import tempfile
import os
import json
import select
import z3

_mp, _alive = z3.MultiPattern, []


def MultiPattern(*args):
    """z3.MultiPattern does not keep its terms alive."""
    p = _mp(*args)
    _alive.append((args, p))
    return p


z3.MultiPattern = MultiPattern

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """The current path is infeasible or fully dealt with."""


class Unsupported(BaseException):
    """The code is outside the verifier's subset (undecided, not a failure)."""


class PyRaise(BaseException):
    """An exception of the program under verification."""

    def __init__(self, exc, line=None):
        self.exc = exc      # ExcV
        self.line = line


class ReturnEx(BaseException):
    def __init__(self, value):
        self.value = value


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


# --------------------------------------------------------------------- values

class V:
    nullable = False


class Const(V):
    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f'Const({self.value!r})'


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Sym(V):
    """Scalar symbolic value: a z3 term and its static type."""

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return f'Sym({self.ty}, {self.t})'


class Tup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'Tup({self.items})'


ARITH_OPS = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ,
             z3.Z3_OP_AND, z3.Z3_OP_OR)


class Cell:
    """Container type of a literal that is still unknown ([] or {})."""

    def __init__(self, flavor):
        self.flavor = flavor
        self.ct = None
        self.quiet = False


class Ref(V):
    """Reference to a heap object; 0 is None when nullable."""

    def __init__(self, ct, t, nullable=False, cls=None):
        self._ct = ct
        self.t = t
        self.nullable = nullable
        self.cls = cls          # exact class name, for structs

    @property
    def ct(self):
        if isinstance(self._ct, Cell):
            return self._ct.ct
        return self._ct

    @property
    def cell(self):
        return self._ct if isinstance(self._ct, Cell) else None

    def __repr__(self):
        return f'Ref({self.ct or self._ct}, {self.t})'


class Obj(V):
    """Instance of an interpreted class with known identity."""

    def __init__(self, cls, oid):
        self.cls = cls
        self.oid = oid

    def __repr__(self):
        return f'Obj({self.cls.name}#{self.oid})'


class Opaque(V):
    """A value about which nothing is known except its identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Opaque({self.name})'


class Builtin(V):
    """Host implemented function: fn(ctx, args, kwargs) -> V."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'Builtin({self.name})'


class ExcV(V):
    def __init__(self, cls, args=()):
        self.cls = cls      # name
        self.args = list(args)

    def __repr__(self):
        return f'{self.cls}'


class IterV(V):
    """A sequence view: n (z3 Int), get(j: z3 Int) -> V."""

    def __init__(self, n, get, mem=None, idx=None, src=None, elems=None,
                 kind='seq'):
        self.n = n
        self.get = get
        self.mem = mem      # membership predicate for enumerated sets
        self.idx = idx      # element -> position, for enumerated sets
        self.src = src      # (comp names, ref) snapshot for mutation checks
        self.elems = elems  # host list of values if concrete
        self.kind = kind


# ---------------------------------------------------------------------- types

class T:
    name = '?'

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class TScalar(T):
    def __init__(self, name, sort):
        self.name = name
        self.sort = sort

    def leaves(self):
        return [self.sort]

    def unpack(self, terms):
        return Sym(self, terms[0])

    def pack(self, ctx, v):
        return [ctx.coerce(v, self)]


TInt = TScalar('Int', z3.IntSort())
TReal = TScalar('Real', z3.RealSort())
TBool = TScalar('Bool', z3.BoolSort())
# orderable application values: any countable linear order embeds in Q
TVal = TScalar('Val', z3.RealSort())
# words, with the string order
TWord = TScalar('Word', z3.RealSort())
# encoded word id lists
CodeSort = z3.DeclareSort('Code')
TCode = TScalar('Code', CodeSort)
AnySort = z3.DeclareSort('Any')
TAny = TScalar('Any', AnySort)


class TRefT(T):
    def __init__(self, ct, nullable=False):
        self.ct = ct
        self.nullable = nullable
        self.name = ('Opt' if nullable else '') + f'Ref[{ct.name}]'

    def leaves(self):
        return [z3.IntSort()]

    def unpack(self, terms):
        return Ref(self.ct, terms[0], self.nullable)

    def pack(self, ctx, v):
        if isinstance(v, Const) and v.value is None:
            if not self.nullable:
                raise Unsupported('None stored as a reference')
            return [z3.IntVal(0)]
        if not isinstance(v, Ref):
            raise Unsupported(f'cannot store {v} as {self}')
        if v.nullable and not self.nullable:
            if ctx.branch(v.t == 0):
                raise Unsupported('None stored as a reference')
        if v.ct is None:
            ctx.resolve(v, self.ct)
        if v.ct.name != self.ct.name:
            raise Unsupported(f'cannot store {v.ct} as {self.ct}')
        return [v.t]


class TTuple(T):
    def __init__(self, items):
        self.items = list(items)
        self.name = '(' + ','.join(i.name for i in items) + ')'

    def leaves(self):
        return [s for i in self.items for s in i.leaves()]

    def unpack(self, terms):
        out = []
        p = 0
        for i in self.items:
            k = len(i.leaves())
            out.append(i.unpack(terms[p:p + k]))
            p += k
        return Tup(out)

    def pack(self, ctx, v):
        if not isinstance(v, Tup) or len(v.items) != len(self.items):
            raise Unsupported(f'cannot store {v} as {self}')
        return [t for i, x in zip(self.items, v.items)
                for t in i.pack(ctx, x)]


class CT:
    """Container (heap object) type."""
    name = '?'

    def __repr__(self):
        return self.name

    def comps(self):
        """{component name: z3 sort of the content per reference}"""
        return {}

    def empty(self):
        return {}


def _arr(a, b):
    return z3.ArraySort(a, b)


_defaults = {}


def default(sort):
    """An arbitrary but fixed value of a sort."""
    if sort == z3.IntSort():
        return z3.IntVal(0)
    if sort == z3.RealSort():
        return z3.RealVal(0)
    if sort == z3.BoolSort():
        return z3.BoolVal(False)
    if sort.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), default(sort.range()))
    return z3.Const('dflt!' + sort.name(), sort)


class SetCT(CT):
    def __init__(self, elem):
        self.elem = elem
        self.name = f'Set<{elem.name}>'
        self.m = self.name + '.m'

    def comps(self):
        return {self.m: _arr(self.elem.leaves()[0], z3.BoolSort())}

    def empty(self):
        return {self.m: z3.K(self.elem.leaves()[0], z3.BoolVal(False))}


class MapCT(CT):
    def __init__(self, key, val):
        self.key = key
        self.val = val
        self.name = f'Map<{key.name},{val.name}>'
        self.d = self.name + '.d'
        self.vs = [f'{self.name}.v{i}' for i in range(len(val.leaves()))]

    def comps(self):
        k = self.key.leaves()[0]
        r = {self.d: _arr(k, z3.BoolSort())}
        for n, s in zip(self.vs, self.val.leaves()):
            r[n] = _arr(k, s)
        return r

    def empty(self):
        k = self.key.leaves()[0]
        r = {self.d: z3.K(k, z3.BoolVal(False))}
        for n, s in zip(self.vs, self.val.leaves()):
            r[n] = z3.K(k, default(s))
        return r


class ListCT(CT):
    def __init__(self, elem):
        self.elem = elem
        self.name = f'List<{elem.name}>'
        self.n = self.name + '.n'
        self.es = [f'{self.name}.e{i}' for i in range(len(elem.leaves()))]

    def comps(self):
        r = {self.n: z3.IntSort()}
        for n, s in zip(self.es, self.elem.leaves()):
            r[n] = _arr(z3.IntSort(), s)
        return r

    def empty(self):
        r = {self.n: z3.IntVal(0)}
        for n, s in zip(self.es, self.elem.leaves()):
            r[n] = z3.K(z3.IntSort(), default(s))
        return r


class LengthCT(CT):
    name = 'Length'

    def comps(self):
        return {'Length.v': z3.IntSort()}

    def empty(self):
        return {'Length.v': z3.IntVal(0)}


LENGTH = LengthCT()


class StructCT(CT):
    """Family of interpreted classes whose instances live in the heap."""

    def __init__(self, name, classes, fields):
        self.name = name
        self.classes = list(classes)     # class names; tag = position + 1
        self.fields = dict(fields)       # (class, attr) or attr -> T

    def field(self, cls, attr):
        return self.fields.get((cls, attr)) or self.fields.get(attr)

    def comps(self):
        r = {f'{self.name}.cls': z3.IntSort()}
        for k, ty in self.fields.items():
            for i, s in enumerate(ty.leaves()):
                r[self.comp(k, i)] = s
        return r

    def comp(self, k, i):
        return f'{self.name}.{k if isinstance(k, str) else ".".join(k)}.{i}'

    def empty(self):
        return {k: default(s) for k, s in self.comps().items()}


# ---------------------------------------------------------------------- state

class State:
    def __init__(self):
        self.pc = []
        self.heap = {}
        self.alloc = None
        self.envs = {}
        self.objs = {}
        self.globals = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.alloc = self.alloc
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.globals = dict(self.globals)
        s.ghost = dict(self.ghost)
        return s


class Explorer:
    def __init__(self):
        self.stack = [[]]
        self.trace = []
        self.pos = 0
        self.cache = {}
        self.paths = 0

    def next(self):
        if not self.stack:
            return False
        self.trace = self.stack.pop()
        self.pos = 0
        self.paths += 1
        return True

    @property
    def replaying(self):
        return self.pos < len(self.trace)


def _skipq(a):
    return a


SCALE = float(os.environ.get('PYVC_SCALE', '1'))


class Solver:
    """Back ends.  All queries go through check()."""

    def __init__(self):
        self.calls = 0
        self.time = 0.0
        self.by = {}

    def z3check(self, asserts, timeout_ms, mbqi=False, seed=1, arith=None,
                relevancy=None):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout_ms * SCALE))
        s.set('smt.mbqi', mbqi)
        s.set('smt.auto_config', False)
        s.set('random_seed', seed)
        # preprocessing that rewrites the terms of patterns loses proofs
        s.set('smt.solve_eqs', False)
        s.set('smt.elim_unconstrained', False)
        if relevancy is not None:
            s.set('smt.relevancy', relevancy)
        if arith is not None:
            s.set('smt.arith.solver', arith)
        s.add(*asserts)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.calls += 1
        self.time += time.time() - t0
        return str(r), s

    def nlcheck(self, asserts, timeout_ms):
        """Ground part only, non-linear real arithmetic."""
        t0 = time.time()
        s = z3.Tactic('qfnra-nlsat').solver()
        s = z3.SolverFor('QF_UFNRA')
        s.set('timeout', int(timeout_ms * SCALE))
        s.add(*asserts)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.calls += 1
        self.time += time.time() - t0
        return str(r), s

    def cvc5check(self, asserts, timeout_ms, full=False):
        t0 = time.time()
        s = z3.Solver()
        s.add(*asserts)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                         delete=False) as f:
            f.write(txt)
        try:
            timeout_ms *= SCALE
            p = subprocess.run(
                ['cvc5', '--tlimit', str(int(timeout_ms)), '--no-cbqi',
                 '--full-saturate-quant' if full else '--ieval=off',
                 f.name],
                capture_output=True, text=True,
                timeout=timeout_ms / 1000 + 5)
            r = p.stdout.strip().split('\n')[0]
        except (subprocess.TimeoutExpired, OSError):
            r = 'unknown'
        finally:
            os.unlink(f.name)
        self.calls += 1
        self.time += time.time() - t0
        return (r if r in ('sat', 'unsat') else 'unknown'), None


class Obligation:
    def __init__(self, name, status, backend, secs, detail=''):
        self.name = name
        self.status = status      # 'proved' | 'failed'
        self.backend = backend
        self.secs = secs
        self.detail = detail

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 3), detail=self.detail)


class Ctx:
    def __init__(self, program, opts=None):
        self.program = program
        self.opts = dict(opts or {})
        self.solver = Solver()
        self.state = State()
        self.exp = Explorer()
        self.muted = 0
        self.kept = {}
        self.fresh_ctr = 0
        self.fresh_log = []
        self.obligations = []
        self.resolved_log = []
        self.line = None
        self.covers = {}
        self.contract = None
        self.depth = 0
        self.loops = []
        self.frame_ctr = 0
        self.oid_ctr = 0
        self.warnings = []
        self.infeasible = 0
        self.deadline = None
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.opaque_fns = {}
        self.cells = {}

    # -- fresh names ---------------------------------------------------------

    def fresh(self, sort, hint='k'):
        self.fresh_ctr += 1
        c = z3.Const(f'{hint}!{self.fresh_ctr}', sort)
        self.fresh_log.append(c)
        return c

    def fresh_int(self, hint='i'):
        return self.fresh(z3.IntSort(), hint)

    def fresh_v(self, ty, hint='v'):
        v = ty.unpack([self.fresh(s, hint) for s in ty.leaves()])
        self.wellformed(v)
        return v

    def wellformed(self, v):
        if isinstance(v, Ref):
            self.assume(v.t < self.state.alloc)
            self.assume(v.t >= (0 if v.nullable else 1))
        elif isinstance(v, Tup):
            for x in v.items:
                self.wellformed(x)

    # -- path condition ------------------------------------------------------

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if not z3.is_quantifier(f):
            g = f
            if z3.is_false(z3.simplify(f)):
                raise PathEnd()
            f = g
        self.state.pc.append(f)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function exhausted')

    def quick(self, f, timeout=400):
        """Is pc |= f provable quickly?"""
        if isinstance(f, bool):
            return f
        s = z3.simplify(f)
        if z3.is_true(s):
            return True
        self.tick()
        r, _ = self.solver.z3check(self.state.pc + [z3.Not(f)], timeout)
        return r == 'unsat'

    def feasible(self, f, timeout=None):
        self.tick()
        r, _ = self.solver.z3check(
            self.state.pc + [f],
            timeout or self.opts.get('feas_ms', 400))
        return r != 'unsat'

    def choose(self, n):
        e = self.exp
        if e.pos < len(e.trace):
            k = e.trace[e.pos]
            e.pos += 1
            return k
        base = e.trace[:e.pos]
        for k in range(n - 1, 0, -1):
            e.stack.append(base + [k])
        e.trace = base + [0]
        e.pos += 1
        return 0

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        e = self.exp
        if e.pos < len(e.trace):
            k = e.trace[e.pos]
            e.pos += 1
            self.assume(cond if k else z3.Not(cond))
            return bool(k)
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond)) if ft else True
        base = e.trace[:e.pos]
        if ft and ff:
            e.stack.append(base + [0])
        k = 1 if ft else 0
        e.trace = base + [k]
        e.pos += 1
        if e.paths + len(e.stack) > self.opts.get('max_paths', 3000):
            raise Unsupported('too many paths')
        self.assume(cond if k else z3.Not(cond))
        return bool(k)

    # -- obligations ---------------------------------------------------------

    def try_prove(self, f, hyps=None, budget=None, cvc5=True):
        """-> (proved?, backend, detail)"""
        if isinstance(f, bool):
            if f:
                return True, 'trivial', ''
            f = z3.BoolVal(False)
        hyps = self.state.pc if hyps is None else hyps
        if z3.is_true(z3.simplify(f)):
            return True, 'z3-simplify', ''
        goal = z3.Not(f)
        scale = budget or self.opts.get('prove_scale', 1.0)
        asserts = list(hyps) + [goal]
        if not has_quant(f):
            # often the facts without quantifiers are enough
            r, s = self.solver.z3check([
                a for a in hyps if not has_quant(a)] + [goal], 150)
            if r == 'unsat':
                return True, 'z3', ''
        plan = self.opts.get('plan') or [
            ('z3', dict(timeout_ms=800 * scale, mbqi=False)),
            ('cvc5', dict(timeout_ms=2500 * scale)),
            ('z3', dict(timeout_ms=2500 * scale, mbqi=False, relevancy=0)),
            ('z3', dict(timeout_ms=1500 * scale, mbqi=False, arith=2)),
            ('z3', dict(timeout_ms=4000 * scale, mbqi=False, seed=7)),
            ('cvc5', dict(timeout_ms=8000 * scale, full=True)),
            ('z3-mbqi', dict(timeout_ms=4000 * scale, mbqi=True)),
            ('z3', dict(timeout_ms=12000 * scale, mbqi=False, seed=3)),
        ]
        detail = ''
        for be, kw in plan:
            self.tick()
            if be == 'cvc5':
                if not cvc5:
                    continue
                r, s = self.solver.cvc5check(asserts, **kw)
            elif be == 'nl':
                r, s = self.solver.nlcheck(
                    [a for a in asserts if not has_quant(a)], **kw)
            else:
                r, s = self.solver.z3check(asserts, **kw)
            if r == 'unsat':
                return True, be, ''
            if r == 'sat':
                if s is not None and be != 'nl':
                    detail = 'countermodel: ' + short_model(s)
                    return False, be, detail
                if be == 'cvc5':
                    return False, be, 'cvc5: sat'
            detail = detail or f'{be}: {r}'
        return False, 'none', detail or 'unknown'

    def prove_many(self, fs):
        """try_prove each formula, several at a time."""
        jobs = int(os.environ.get('PYVC_PAR', '4'))
        out = [None] * len(fs)
        rest = []
        for i, f in enumerate(fs):
            if isinstance(f, bool) or z3.is_true(z3.simplify(f)):
                out[i] = self.try_prove(f)
            else:
                rest.append(i)
        if jobs < 2 or len(rest) < 2:
            for i in rest:
                out[i] = self.try_prove(fs[i])
            return out
        running = {}
        try:
            while rest or running:
                while rest and len(running) < jobs:
                    i = rest.pop(0)
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.close(r)
                            c0, t0 = self.solver.calls, self.solver.time
                            try:
                                ok, be, d = self.try_prove(fs[i])
                            except BaseException as e:
                                ok, be, d = False, 'none', repr(e)
                            os.write(w, json.dumps([
                                bool(ok), be, d[:300],
                                self.solver.calls - c0,
                                self.solver.time - t0]).encode())
                        finally:
                            os._exit(0)
                    os.close(w)
                    running[r] = (i, pid)
                ready = select.select(list(running), [], [], 1.0)[0]
                self.tick()
                for r in ready:
                    i, pid = running.pop(r)
                    data = os.read(r, 65536)
                    os.close(r)
                    os.waitpid(pid, 0)
                    try:
                        ok, be, d, nc, nt = json.loads(data)
                    except ValueError:
                        ok, be, d, nc, nt = False, 'none', 'no answer', 0, 0
                    self.solver.calls += nc
                    self.solver.time += nt
                    out[i] = (ok, be, d)
        finally:
            for r, (i, pid) in running.items():
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
        return out

    def dump(self, f, name, fn):
        s = z3.Solver()
        s.add(*self.state.pc)
        s.add(z3.Not(f) if not isinstance(f, bool) else True)
        with open(fn, 'w') as fh:
            fh.write('; ' + name + '\n' + s.to_smt2())

    def prove(self, f, name, assume=True):
        if self.muted or self.exp.replaying:
            if assume and not isinstance(f, bool):
                self.assume(f)
            elif f is False:
                raise PathEnd()
            return True
        t0 = time.time()
        only = self.opts.get('only')
        if only and only not in name:
            if assume and not isinstance(f, bool):
                self.assume(f)
            return True
        ok, be, detail = self.try_prove(f)
        if not ok and os.environ.get('PYVC_DUMP'):
            self.dump(f, name,
                      '/tmp/pyvc_dump_%d.smt2' % len(self.obligations))
        self.obligations.append(Obligation(
            name, 'proved' if ok else 'failed', be, time.time() - t0, detail))
        if f is False:
            raise PathEnd()
        if assume:
            self.assume(f)
        return ok

    # -- sub-exploration -----------------------------------------------------

    def explore_sub(self, fn, muted=True):
        """Run fn on every path from the current state.

        -> [(result, final state)].  The current state is left unchanged.
        """
        saved = self.exp
        base = self.state
        ctr = self.fresh_ctr
        maxctr = ctr
        self.exp = Explorer()
        if muted:
            self.muted += 1
        out = []
        fc, oc = self.frame_ctr, self.oid_ctr
        mine = {k for k, r in self.cells.items() if r.ct is None}
        try:
            while self.exp.next():
                self.state = base.copy()
                self.fresh_ctr = ctr
                self.frame_ctr, self.oid_ctr = fc, oc
                log0 = len(self.resolved_log)
                try:
                    r = fn()
                    out.append((r, self.state))
                except PathEnd:
                    pass
                # cells of the outer path whose type became known here
                for ref in self.resolved_log[log0:]:
                    if ref.t.sexpr() in mine:
                        cur, self.state = self.state, base
                        self.init_resolved(ref)
                        self.state = cur
                maxctr = max(maxctr, self.fresh_ctr)
        finally:
            self.exp = saved
            self.state = base
            if muted:
                self.muted -= 1
            self.fresh_ctr = maxctr
        return out

    # -- heap ----------------------------------------------------------------

    writable = None     # components the contract lets change (None: all)

    def check_write(self, ref_t, name):
        """What is written must be an object made during the call."""
        if ref_t.get_id() in self.made or name in ('dirty', 'saved'):
            return
        a = self.entry_view.state.alloc
        f = ref_t >= a
        if z3.is_true(z3.simplify(f)):
            return
        if not (self.muted or self.exp.replaying):
            # cheap first: the arithmetic alone decides most
            pc = [c for c in self.state.pc if not z3.is_quantifier(c)
                  and c.num_args() and c.decl().kind() in ARITH_OPS]
            sv = z3.Solver()
            sv.set('timeout', 1000)
            sv.add(*pc)
            sv.add(z3.Not(f))
            if sv.check() == z3.unsat:
                return
        self.prove(f, f'{self.line}: frame: only objects made during the '
                   f'call are written ({name})')

    def comp(self, name, sort=None):
        h = self.state.heap
        if name not in h:
            if sort is None:
                raise Unsupported('unknown heap component ' + name)
            h[name] = self.init_comp(name, sort)
        return h[name]

    def init_comp(self, name, sort):
        # components that were never touched have one initial value per run
        return z3.Const('H0.' + name, z3.ArraySort(z3.IntSort(), sort))

    def rd(self, ref_t, name, sort):
        return peel(self.comp(name, sort), ref_t)

    def wr(self, ref_t, name, sort, val):
        if sort is None and z3.is_expr(val):
            sort = val.sort()
        if self.writable is not None and name not in self.writable:
            self.check_write(ref_t, name)
        self.state.heap[name] = z3.Store(self.comp(name, sort), ref_t, val)

    def content(self, ref):
        """Current content terms {component: term} of a reference."""
        return {n: self.rd(ref.t, n, s) for n, s in ref.ct.comps().items()}

    def new_ref(self):
        t = self.state.alloc
        self.state.alloc = z3.simplify(t + 1)
        self.made[t.get_id()] = t
        return t

    def alloc(self, ct, content=None, kind=None, f64=None):
        t = self.new_ref()
        r = Ref(ct, t)
        self.init_ref(r, content)
        if kind is not None:
            self.set_kind(r, kind)
        if f64 is not None:
            self.wr(t, 'f64', z3.BoolSort(), f64)
        return r

    def init_ref(self, r, content=None):
        c = r.ct.empty()
        if content:
            c.update(content)
        for n, s in r.ct.comps().items():
            self.wr(r.t, n, s, c[n])

    def set_kind(self, r, kind):
        self.wr(r.t, 'kind', z3.IntSort(), z3.IntVal(kind))

    def kind(self, r):
        return self.rd(r.t, 'kind', z3.IntSort())

    def f64(self, r):
        return self.rd(r.t, 'f64', z3.BoolSort())

    def new_cell(self, flavor):
        t = self.new_ref()
        r = Ref(Cell(flavor), t)
        self.cells[t.sexpr()] = r
        return r

    def resolve(self, ref, ct):
        cell = ref.cell
        assert cell is not None and cell.ct is None
        cell.ct = ct
        self.resolved_log.append(ref)
        self.init_resolved(ref)

    def container_made(self, ct, f64):
        """A BTrees container was created: C22 wants the index's family,
        except for what is keyed by word ids only."""
        if self.opts.get('prop') != 'C22' or f64 is None:
            return
        if not getattr(ct, 'docids', True):
            return
        want = getattr(self.contract, 'family', z3.Bool('fam64'))
        self.prove(z3.simplify(f64 == want),
                   f'{self.line}: a container of the family of the index')

    def init_resolved(self, ref):
        cell = ref.cell
        if getattr(cell, 'f64', None) is not None and not cell.quiet:
            self.container_made(cell.ct, cell.f64)
        self.init_ref(ref)
        if cell.flavor == 'dict':
            self.set_kind(ref, KIND['dict'])
        elif getattr(cell, 'kind', None) is not None:
            self.set_kind(ref, cell.kind)
        if getattr(cell, 'f64', None) is not None:
            self.wr(ref.t, 'f64', z3.BoolSort(), cell.f64)

    # -- coercions -----------------------------------------------------------

    def coerce(self, v, ty):
        """Value as z3 term of scalar type ty."""
        if isinstance(v, Const):
            x = v.value
            if ty in (TInt,) and isinstance(x, (bool, int)):
                return z3.IntVal(int(x))
            if ty is TReal and isinstance(x, (bool, int, float)):
                return realval(x)
            if ty is TBool and isinstance(x, bool):
                return z3.BoolVal(x)
            if ty is TWord and isinstance(x, str):
                return self.wordconst(x)
            if ty is TVal:
                return self.valconst(x)
            raise Unsupported(f'cannot use {v} as {ty}')
        if isinstance(v, Sym):
            if v.ty == ty:
                return v.t
            if ty is TReal and v.ty is TInt:
                return z3.ToReal(v.t)
            if ty is TInt and v.ty is TBool:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if ty is TReal and v.ty is TBool:
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if ty is TInt and v.ty is TReal:
                # counts kept in numeric dictionaries
                s = z3.simplify(v.t)
                if z3.is_to_real(s):
                    return s.arg(0)
                if self.quick(z3.IsInt(v.t)):
                    return z3.ToInt(v.t)
        if isinstance(v, Ref) and ty is TAny:
            raise Unsupported(f'cannot use {v} as {ty}')
        raise Unsupported(f'cannot use {v} as {ty}')

    def wordconst(self, s):
        # string literals used as words: fixed distinct, order-preserving
        w = z3.RealVal(0)
        acc = 0
        f = 1.0
        num, den = 0, 1
        for ch in s:
            num = num * 1114113 + ord(ch) + 1
            den *= 1114113
        return z3.RealVal(num) / z3.RealVal(den)

    def valconst(self, x):
        return z3.Real('valconst!' + repr(x))


def realval(x):
    if isinstance(x, float):
        from fractions import Fraction
        fr = Fraction(repr(x))
        return z3.RealVal(fr)
    return z3.RealVal(int(x))


KIND = {'Set': 1, 'TreeSet': 2, 'BTree': 3, 'Bucket': 4, 'dict': 5,
        'pyset': 6}

_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq:
        return _hq[k][1]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    _hq[k] = (e, r)
    return r


def short_model(s):
    try:
        m = s.model()
        return ', '.join(f'{d.name()}={str(m[d])[:60]}' for d in m.decls()
                         if d.arity() == 0)[:1500]
    except z3.Z3Exception:
        return ''


def offset(t):
    """t as (base, constant) for terms base + constant."""
    if z3.is_int_value(t):
        return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.children()
        if z3.is_int_value(a):
            return b, a.as_long()
        if z3.is_int_value(b):
            return a, b.as_long()
    return t, 0


def peel(h, t):
    """Select(h, t), reading through stores where that is decided
    syntactically."""
    bt, ct = offset(t)
    g = h
    while z3.is_store(g):
        a, i, v = g.children()
        if i.eq(t):
            return v
        bi, ci = offset(i)
        same = (bi is None and bt is None) or (
            bi is not None and bt is not None and bi.eq(bt))
        if not same:
            break
        if ci == ct:
            return v
        g = a
    return z3.Select(g, t)


def fa(vs, body, pats=None):
    """forall, tolerant of plain-bool bodies."""
    if isinstance(body, bool):
        return z3.BoolVal(body)
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        return z3.ForAll(list(vs), body, patterns=pats)
    return z3.ForAll(list(vs), body)


def conj(fs):
    fs = [f for f in fs if not (isinstance(f, bool) and f)]
    return z3.And(*fs) if fs else z3.BoolVal(True)
