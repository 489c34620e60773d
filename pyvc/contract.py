"""Function contracts: how they are verified and used at call sites."""
import json
import os
import time
import traceback
import z3
from core import *      # noqa: F403
import models as M
import interp as IN


class View:
    """Read access to one state."""

    def __init__(self, ctx, state):
        self.ctx = ctx
        self.state = state

    def h(self, name, sort):
        if name not in self.state.heap:
            self.state.heap[name] = self.ctx.init_comp(name, sort)
        return self.state.heap[name]

    def rd(self, t, name, sort):
        return peel(self.h(name, sort), t)

    def attr(self, obj, name):
        at = self.state.objs[obj.oid]
        if name not in at:
            raise Unsupported(f'attribute {name} is gone')
        return at[name]

    def has(self, obj, name):
        return name in self.state.objs[obj.oid]

    def dom(self, ref):
        return self.rd(ref.t, ref.ct.d, ref.ct.comps()[ref.ct.d])

    def val(self, ref, i=0):
        n = ref.ct.vs[i]
        return self.rd(ref.t, n, ref.ct.comps()[n])

    def m(self, ref):
        return self.rd(ref.t, ref.ct.m, ref.ct.comps()[ref.ct.m])

    def sets(self, elem):
        """The heap of all sets of this element type."""
        ct = SetCT(elem)
        return self.h(ct.m, ct.comps()[ct.m])

    def maps(self, ct):
        return (self.h(ct.d, ct.comps()[ct.d]),
                [self.h(n, ct.comps()[n]) for n in ct.vs])

    def n(self, ref):
        return self.rd(ref.t, ref.ct.n, I_)

    def e(self, ref, i=0):
        n = ref.ct.es[i]
        return self.rd(ref.t, n, ref.ct.comps()[n])

    def length(self, ref):
        return self.rd(ref.t, 'Length.v', I_)

    def kind(self, t):
        return self.rd(t, 'kind', I_)


I_ = z3.IntSort()
R_ = z3.RealSort()
B_ = z3.BoolSort()


class Clause:
    def __init__(self, name, f, props=None):
        self.name = name
        self.f = f
        self.props = props


class Spec:
    """Contract of one function of the real code."""
    qual = None
    props = ()          # properties this function matters for
    raises = ()         # exceptions allowed to escape (checked elsewhere)
    ordered = False
    opts = {}
    inline = False      # call sites use the body
    pure = False            # only writes objects that it makes (its frame is
    #                         an obligation of its own)
    strict_frame = False    # nothing that existed at entry may change
    budget = float(os.environ.get("PYVC_BUDGET", 240))

    # -- to be overridden ----------------------------------------------------

    def entry(self, V):
        """-> list of argument values (V: Env helper)"""
        raise NotImplementedError

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        return []

    def on_raise(self, S0, S, a, exc):
        """Clauses for exceptional exits; None: must not raise."""
        return None

    def loop_invariants(self, L):
        return []

    def modifies(self, S, a):
        """[('heap', comp, sort) | ('obj', obj, attr, type)], alloc"""
        return []

    def result(self, V, a):
        return NONE

    # -- use at a call site --------------------------------------------------

    def applicable(self, I, args, kwargs):
        if self.inline:
            return False
        cur = I.ctx.contract
        if cur is not None and getattr(cur, 'inline_calls', None) and \
                self.qual in cur.inline_calls:
            return False
        return True

    def call(self, I, args, kwargs):
        ctx = I.ctx
        if self.params is not None:
            args = self.bind(I, args, kwargs)
        args = self.adapt(I, args)
        V = Env(I)
        S0 = View(ctx, ctx.state.copy())
        for c in self.requires(View(ctx, ctx.state), args):
            if relevant(ctx, c):
                ctx.prove(bt(c.f), f'{ctx.line}: precondition of '
                          f'{short(self.qual)}: {c.name}')
        S0 = View(ctx, ctx.state.copy())
        if self.may_raise(I, args):
            pass
        before = dict(ctx.state.heap)
        news = []
        mods = list(self.modifies(S0, args))
        if ctx.opts.get('prop') == 'C23' and not self.pure and any(
                m[0] == 'heap' for m in mods):
            mods += [('heap', 'dirty', B_), ('heap', 'saved', B_)]
        for m in mods:
            if m[0] == 'obj' and ctx.contract.strict_frame:
                ctx.prove(False, f'{ctx.line}: frame: {short(self.qual)} '
                          f'may set {m[2]}')
            if m[0] == 'heap':
                if ctx.writable is not None and m[1] not in ctx.writable \
                        and not self.pure:
                    news.append(m[1])
                ctx.comp(m[1], m[2])
                ctx.state.heap[m[1]] = ctx.fresh(
                    z3.ArraySort(I_, m[2]), 'c_' + m[1])
            elif m[0] == 'alloc':
                al = ctx.fresh_int('alloc')
                ctx.assume(al >= ctx.state.alloc)
                ctx.state.alloc = al
            elif m[0] == 'obj':
                ctx.state.objs[m[1].oid] = dict(ctx.state.objs[m[1].oid])
                ctx.state.objs[m[1].oid][m[2]] = V.fresh(m[3], m[2])
        res = self.result(V, args)
        S = View(ctx, ctx.state)
        for c in self.ensures(S0, S, args, res) + self.frame(S0, S, args):
            if relevant(ctx, c):
                ctx.assume(bt(c.f))
        for k in news:
            h = ctx.state.heap[k]
            h0 = before.get(k)
            if h0 is None:
                h0 = ctx.init_comp(k, h.sort().range())
            ctx.prove(fa(r_, z3.Implies(
                z3.And(1 <= r_, r_ < ctx.entry_view.state.alloc),
                z3.Select(h, r_) == z3.Select(h0, r_))),
                f'{ctx.line}: frame: {short(self.qual)} leaves {k} alone')
        return res

    params = None       # [(name, default or REQUIRED)] after self

    def bind(self, I, args, kwargs):
        args = list(args)
        out = []
        kw = dict(kwargs)
        for i, (n, d) in enumerate(self.params):
            if i < len(args):
                out.append(args[i])
            elif n in kw:
                out.append(kw.pop(n))
            elif d is not REQ:
                out.append(d)
            else:
                I.raise_('TypeError')
        if kw or len(args) > len(self.params):
            I.raise_('TypeError')
        return out

    def adapt(self, I, args):
        return args

    def may_raise(self, I, args):
        return False

    def frame(self, S0, S, a):
        return []


REQ = object()


def bt(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def relevant(ctx, c):
    p = ctx.opts.get('prop')
    return c.props is None or p is None or p in c.props


def short(q):
    return q.split(':')[-1]


class Env:
    """Helper to build symbolic inputs."""

    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx

    def int(self, hint='n'):
        return Sym(TInt, self.ctx.fresh_int(hint))

    def real(self, hint='x'):
        return Sym(TReal, self.ctx.fresh(R_, hint))

    def val(self, hint='v'):
        return Sym(TVal, self.ctx.fresh(R_, hint))

    def word(self, hint='w'):
        return Sym(TWord, self.ctx.fresh(R_, hint))

    def bool(self, hint='b'):
        return Sym(TBool, self.ctx.fresh(B_, hint))

    def fresh(self, ty, hint):
        if isinstance(ty, CT):
            ty = TRefT(ty)
        if isinstance(ty, T):
            return self.ctx.fresh_v(ty, hint)
        return ty

    def ref(self, ct, hint='r', kind=None):
        r = self.ctx.fresh_v(TRefT(ct), hint)
        if kind is not None:
            if isinstance(kind, int):
                kind = (kind,)
            k = self.ctx.kind(r)
            self.ctx.assume(z3.Or(*[k == x for x in kind]))
        if isinstance(ct, ListCT):
            self.ctx.assume(M.list_n(self.ctx, r) >= 0)
        return r

    def obj(self, mod, cls, attrs):
        ctx = self.ctx
        m = ctx.program.module(mod)
        ci = self.I.module_global(m, cls) if m else None
        if not isinstance(ci, IN.ClassInfo):
            raise Unsupported(f'class {mod}:{cls} is gone')
        ctx.oid_ctr += 1
        o = Obj(ci, ctx.oid_ctr)
        at = {}
        for n, ty in attrs.items():
            at[n] = self.fresh(ty, n)
        ctx.state.objs[o.oid] = at
        return o


def find_function(I, qual):
    """Resolve 'mod:Class.name' or 'mod:name' in the current source."""
    mod, path = qual.split(':')
    m = I.ctx.program.module(mod)
    if m is None:
        raise Unsupported(f'module {mod} is gone')
    parts = path.split('.')
    v = I.module_global(m, parts[0])
    if v is None:
        raise Unsupported(f'{qual} is gone')
    if len(parts) == 2:
        if not isinstance(v, IN.ClassInfo):
            raise Unsupported(f'{parts[0]} is no class')
        a = I.class_attr(v, parts[1])
        if isinstance(a, tuple):
            a = a[1]
        if isinstance(a, IN.PropV):
            a = a.fn
        if a is None:
            raise Unsupported(f'{qual} is gone')
        return a
    return v


class Result:
    def __init__(self, qual):
        self.qual = qual
        self.obligations = []
        self.unsupported = None
        self.paths = 0
        self.reached = 0
        self.secs = 0.0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.inlined = []
        self.used = []
        self.assumptions = []
        self.kept = {}

    def as_dict(self):
        return dict(
            function=self.qual,
            obligations=[o.as_dict() for o in self.obligations],
            unsupported=self.unsupported, paths=self.paths,
            reached=self.reached, secs=round(self.secs, 2),
            solver_time=round(self.solver_time, 2), kept=self.kept,
            solver_calls=self.solver_calls, inlined=self.inlined,
            used_contracts=self.used)


HINTS = None


def load_hints():
    """Which loop invariant candidates survived before: a way to save time,
    every kept candidate is proved again; without success the search is
    repeated with all candidates."""
    global HINTS
    if HINTS is None:
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(
                    __file__)), 'hints.json')) as f:
                HINTS = json.load(f)
        except (OSError, ValueError):
            HINTS = {}
    return HINTS


def verify(program, spec, prop=None, opts=None, debug=False):
    t0 = time.time()
    o = dict(spec.opts)
    o.update(opts or {})
    o['prop'] = prop
    o['debug'] = debug
    if o.get('hints') is None and os.environ.get('PYVC_HINTS') != '0':
        o['hints'] = load_hints().get(
            f'{spec.qual}|{type(spec).__name__}|{prop or "-"}')
    ctx = Ctx(program, o)
    ctx.made = {}
    ctx.contract = spec
    ctx.deadline = t0 + o.get('budget', spec.budget)
    I = IN.Interp(ctx)
    res = Result(spec.qual)
    name = short(spec.qual)
    try:
        while ctx.exp.next():
            ctx.state = State()
            ctx.state.alloc = z3.Int('alloc0')
            ctx.state.pc.append(ctx.state.alloc >= 1)
            ctx.fresh_ctr = 0
            ctx.frame_ctr = ctx.oid_ctr = 0
            ctx.cells = {}
            ctx.loops = []
            ctx.line = '?'
            try:
                run_path(I, spec, name, res)
            except PathEnd:
                pass
            res.paths += 1
    except Unsupported as e:
        res.unsupported = f'{e} (at {ctx.line})'
    except RecursionError:
        res.unsupported = f'recursion (at {ctx.line})'
    except (IndexError, KeyError, AttributeError, TypeError, ValueError,
            AssertionError, z3.Z3Exception) as e:
        if debug:
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.unsupported = (f'{type(e).__name__}: {e} in {tb.name}:{tb.lineno}'
                           f' (at {ctx.line})')
    res.obligations = ctx.obligations
    res.kept = ctx.kept
    res.secs = time.time() - t0
    res.solver_time = ctx.solver.time
    res.solver_calls = ctx.solver.calls
    res.inlined = sorted(ctx.inlined)
    res.used = sorted(ctx.used_contracts)
    return res


def run_path(I, spec, name, res):
    ctx = I.ctx
    V = Env(I)
    ctx.writable = None
    fn = find_function(I, spec.qual)
    args = spec.entry(V)
    ctx.entry_args = args
    S = View(ctx, ctx.state)
    for c in spec.requires(S, args):
        if relevant(ctx, c):
            ctx.assume(bt(c.f))
    if not getattr(spec, '_cover', False) and not ctx.exp.replaying:
        # the precondition must not be contradictory
        r, _ = ctx.solver.z3check(ctx.state.pc, 1500)
        ctx.obligations.append(Obligation(
            f'{name}: precondition is satisfiable',
            'failed' if r == 'unsat' else 'proved', 'z3', 0.0,
            'vacuous' if r == 'unsat' else ''))
        spec._cover = True
    S0 = View(ctx, ctx.state.copy())
    ctx.entry_view = S0
    got = framed_comps(spec, S0, args)
    ctx.writable = None if got is None else got[0]
    ctx.made = {}
    for k in spec.opts.get('comps', []):
        pass
    try:
        if isinstance(fn, IN.Func):
            r = I.call_func(fn, spec.call_args(args), {}, force_inline=True) \
                if hasattr(spec, 'call_args') else \
                I.call_func(fn, args, {}, force_inline=True)
        else:
            r = I.call(fn, args)
    except PyRaise as e:
        S = View(ctx, ctx.state)
        cl = spec.on_raise(S0, S, args, e.exc)
        if cl is None:
            ctx.line = e.line
            ctx.prove(False, f'{name}: no {e.exc.cls} is raised '
                      f'(at {e.line})')
        for c in cl or []:
            if relevant(ctx, c):
                ctx.prove(bt(c.f), f'{name}: on {e.exc.cls}: {c.name}')
        if spec.strict_frame:
            prove_frame(ctx, spec, f'{name}: on {e.exc.cls}', S0, S, args)
        res.reached += 1
        return
    S = View(ctx, ctx.state)
    for c in spec.ensures(S0, S, args, r):
        if relevant(ctx, c):
            ctx.prove(bt(c.f), f'{name}: {c.name}')
    prove_frame(ctx, spec, name, S0, S, args)
    res.reached += 1


r_ = z3.Int('r!frame')


def framed_comps(spec, S0, args):
    """-> (heap components, attributes) that the contract lets change;
    None: the contract is used at no call site and says nothing."""
    if spec.strict_frame or spec.pure:
        return set(), set()
    if spec.inline:
        return None
    try:
        m = spec.modifies(S0, args)
    except Unsupported:
        return None
    return ({x[1] for x in m if x[0] == 'heap'},
            {(x[1].oid, x[2]) for x in m if x[0] == 'obj'})


def same_attr(v, v0):
    if v is v0:
        return True
    if isinstance(v, Ref) and isinstance(v0, Ref):
        return v.t == v0.t
    if isinstance(v, Obj) and isinstance(v0, Obj):
        return v.oid == v0.oid
    if isinstance(v, Const) and isinstance(v0, Const):
        return type(v.value) is type(v0.value) and v.value == v0.value
    if isinstance(v, Sym) and isinstance(v0, Sym) and v.t.sort() == \
            v0.t.sort():
        return v.t == v0.t
    return False


def frame_clauses(ctx, spec, S0, s, args):
    """Whatever attribute existed at entry and is not named by `modifies` is
    left alone (writes to containers are checked one by one)."""
    got = framed_comps(spec, S0, args)
    if got is None:
        return []
    attrs = got[1]
    out = []
    s0 = S0.state
    for oid in sorted(s0.objs):
        a, a0 = s.objs.get(oid, {}), s0.objs[oid]
        for n in sorted(a0):
            if (oid, n) in attrs or n not in a and not spec.strict_frame:
                continue
            f = same_attr(a.get(n), a0[n])
            if f is not True:
                out.append((f'frame: attribute {n} unchanged', f))
        for n in sorted(set(a) - set(a0)):
            if spec.strict_frame:
                out.append((f'frame: no attribute {n} is added', False))
    return out


def prove_frame(ctx, spec, name, S0, S, args):
    for n, f in frame_clauses(ctx, spec, S0, S.state, args):
        ctx.prove(bt(f), f'{name}: {n}')
