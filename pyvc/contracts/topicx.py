"""Contracts of zope.index.topic.index and zope.index.topic.filter."""
import z3
from core import *      # noqa: F403
import models as M
import lib
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.topic.index'
FMOD = 'zope.index.topic.filter'
Q = MOD + ':TopicIndex.'
FQ = FMOD + ':'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SET = SetCT(TInt)
FILT = StructCT('Filt', ['PythonFilteredSet'], {
    'id': TWord, 'expr': TVal, '_ids': TRefT(SET)})
FILT.where = {'PythonFilteredSet': (FMOD, 'PythonFilteredSet')}
FMAP = MapCT(TWord, TRefT(FILT))
QUERY = ListCT(TWord)

ATTRS = {('TopicIndex', '_filters'): FMAP}
STRUCTS = {FMOD + ':PythonFilteredSet': FILT}

d, j, k = z3.Ints('d j k')
w, w2 = z3.Reals('w w2')
sel = z3.Select
markw = lib.marked('w', R_)


def holds(expr, obj):
    """the expression evaluates to a true value (and does not raise)"""
    return M.uf('expr!true', R_, R_, B_)(expr, obj)


def model_eval(I, args, kw):
    """eval(expr): the environment is the frame it is called in."""
    ctx = I.ctx
    if len(args) != 1 or kw or not (isinstance(args[0], Sym) and
                                    args[0].ty is TVal):
        raise Unsupported('eval of something else')
    env = ctx.state.envs[I.cur_frame.fid]
    c = env.get('context')
    if not (isinstance(c, Sym) and c.ty is TVal):
        I.raise_('NameError')
    e = args[0].t
    if ctx.branch(M.uf('expr!raises', R_, R_, B_)(e, c.t)):
        ctx.assume(z3.Not(holds(e, c.t)))
        I.raise_('ArbitraryError')
    v = EvalV(holds(e, c.t))
    return v


class EvalV(V):
    def __init__(self, t):
        self.t = t

    def truth_v(self, I):
        return self.t


class St:
    def __init__(self, S, o):
        self.S = S
        self.f = S.attr(o, '_filters')
        if not isinstance(self.f, Ref) or self.f.ct is None or \
                self.f.ct.name != FMAP.name:
            raise Unsupported('representation of the index changed')
        self.FD, self.FV = S.dom(self.f), S.val(self.f)
        self.SM = S.sets(TInt)
        self.IDS = S.h(FILT.comp('_ids', 0), I_)
        self.EX = S.h(FILT.comp('expr', 0), R_)
        self.alloc = S.state.alloc

    def ids(self, wt):
        return sel(self.IDS, sel(self.FV, wt))

    def has(self, wt, dt):
        return sel(sel(self.SM, self.ids(wt)), dt)

    def expr(self, wt):
        return sel(self.EX, sel(self.FV, wt))


def inv(S, o):
    s = St(S, o)
    return [
        Clause('T1 filters are existing objects', fa(w, z3.Implies(
            sel(s.FD, w), z3.And(
                sel(s.FV, w) >= 1, sel(s.FV, w) < s.alloc,
                s.ids(w) >= 1, s.ids(w) < s.alloc)), [sel(s.FV, w)])),
        Clause('T2 filters are separate objects', fa(
            [w, w2], z3.Implies(z3.And(
                sel(s.FD, w), sel(s.FD, w2), w != w2), z3.And(
                    sel(s.FV, w) != sel(s.FV, w2), s.ids(w) != s.ids(w2))),
            [z3.MultiPattern(sel(s.FV, w), sel(s.FV, w2))])),
    ] + lib.stored(S, [s.f], [(w, s.FD, s.FV, False)]) + (
        [Clause('P3 the sets of the filters are persistent', fa(w, z3.Implies(
            sel(s.FD, w), lib.is_persistent(S, s.ids(w))), [sel(s.FV, w)]),
            ('C23',))] if lib.c23(S) else [])


# ------------------------------------------------------------------- filters

class FSpec(Spec):
    props = ('C06',)
    opts = {'builtins': {'eval': model_eval}}

    def fself(self, V):
        return V.ref(FILT, 'self')

    def ids(self, S, a):
        return S.rd(a[0].t, FILT.comp('_ids', 0), I_)

    def requires(self, S, a):
        i = self.ids(S, a)
        out = [Clause('the filter has a set', z3.And(
            i >= 1, i < S.state.alloc))]
        if lib.c23(S):
            out.append(Clause('a persistent one', lib.is_persistent(S, i)))
        return out

    def modifies(self, S, a):
        return [('heap', SET.m, SET.comps()[SET.m])]

    def new(self, S0, a, old):
        raise NotImplementedError

    def ensures(self, S0, S, a, res):
        i = self.ids(S0, a)
        m0, m1 = S0.sets(TInt), S.sets(TInt)
        r = z3.Int('r')
        return [
            Clause('the filter holds the right documents',
                   sel(m1, i) == self.new(S0, a, sel(m0, i))),
            Clause('other sets are untouched', fa(r, z3.Implies(
                r != i, sel(m1, r) == sel(m0, r)), [sel(m1, r)])),
            Clause('the filter keeps its set',
                   self.ids(S, a) == i),
        ] + ([Clause('nothing is left unsaved', fa(r, S0.kind(r) == S.kind(
            r), lib.safe(S.kind(r)))), Clause('no change is unsaved', fa(
                r, sel(S.h('dirty', B_), r) == sel(S0.h('dirty', B_), r),
                lib.safe(sel(S.h('dirty', B_), r)))), Clause(
                    'or forgotten', fa(
                    r, sel(S.h('saved', B_), r) == sel(S0.h('saved', B_), r),
                    lib.safe(sel(S.h('saved', B_), r))))] if lib.c23(S) else [])


class FIndex(FSpec):
    qual = FQ + 'PythonFilteredSet.index_doc'
    params = [('self', REQ), ('docid', REQ), ('context', REQ)]

    def entry(self, V):
        return [self.fself(V), V.int('docid'), V.val('context')]

    def new(self, S0, a, old):
        e = S0.rd(a[0].t, FILT.comp('expr', 0), R_)
        return z3.Store(old, a[1].t, holds(e, a[2].t))


class FUnindex(FSpec):
    qual = FQ + 'FilteredSetBase.unindex_doc'
    params = [('self', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self.fself(V), V.int('docid')]

    def new(self, S0, a, old):
        return z3.Store(old, a[1].t, z3.BoolVal(False))


class FClear(FSpec):
    qual = FQ + 'FilteredSetBase.clear'
    params = [('self', REQ)]

    def entry(self, V):
        return [self.fself(V)]

    def new(self, S0, a, old):
        return z3.K(I_, z3.BoolVal(False))


class FInit(Spec):
    qual = FQ + 'FilteredSetBase.__init__'
    props = ('C06',)

    def entry(self, V):
        return [V.obj(FMOD, 'PythonFilteredSet', {}), V.word('id'),
                V.val('expr'), M.FamV(z3.Bool('fam64'))]

    def ensures(self, S0, S, a, res):
        o = a[0]
        return [Clause('a new filter holds no document', S.m(
            S.attr(o, '_ids')) == z3.K(I_, z3.BoolVal(False))),
            Clause('it has its id', S.attr(o, 'id').t == a[1].t),
            Clause('it has its expression',
                   S.attr(o, 'expr').t == a[2].t)]


# --------------------------------------------------------------------- index

class TSpec(Spec):
    props = ('C06',)
    # what happens to the set of a filter with expression e
    new = None

    def self_obj(self, V, with_state=True):
        return V.obj(MOD, 'TopicIndex', {
            '_filters': FMAP, 'family': M.FamV(z3.Bool('fam64'))}
            if with_state else {})

    def requires(self, S, a):
        return inv(S, a[0])

    def entry(self, V):
        return [self.self_obj(V)]

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        return inv(S, a[0]) + [
            Clause('the same filters are registered', s.FD == s0.FD),
            Clause('under the same ids', fa(w, z3.Implies(
                sel(s0.FD, w), sel(s.FV, w) == sel(s0.FV, w)),
                [sel(s.FV, w)])),
            Clause('filters keep their expressions', fa(w, z3.Implies(
                sel(s0.FD, w), s.expr(w) == s0.expr(w)), [sel(s.FV, w)])),
            Clause('every filter holds the right documents', fa(
                w, z3.Implies(sel(s0.FD, w), sel(s.SM, s.ids(w)) == self.new(
                    a, sel(s0.SM, s0.ids(w)), s0.expr(w))), [sel(s.FV, w)])),
        ]

    def loop_invariants(self, L):
        it, ctx = L.it, L.ctx
        if it is None or self.new is None:
            return []
        x = it.get(ctx.fresh_int('probe'))
        if not (isinstance(x, Ref) and x.ct is FILT):
            return []
        a = ctx.entry_args
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        m, m0 = S.sets(TInt), S0.sets(TInt)
        IDS = S0.h(FILT.comp('_ids', 0), I_)
        EX = S0.h(FILT.comp('expr', 0), R_)
        g = lambda t: it.get(t).t
        rng = z3.And(0 <= k, k < it.n)
        i = sel(IDS, g(k))
        st = St(S, a[0])
        return [(c.name, c.f) for c in inv(S, a[0])
                if c.props == ('C23',)] + [
            ('visited filters hold the right documents', fa(
                k, z3.Implies(z3.And(rng, k < L.i), sel(m, i) == self.new(
                    a, sel(m0, i), sel(EX, g(k)))), [g(k)])),
            ('other filters are untouched', fa(
                k, z3.Implies(z3.And(rng, k >= L.i),
                              sel(m, i) == sel(m0, i)), [g(k)])),
        ]


class Update(TSpec):
    def modifies(self, S, a):
        return [('heap', SET.m, SET.comps()[SET.m])]


class IndexDoc(Update):
    qual = Q + 'index_doc'

    def entry(self, V):
        return [self.self_obj(V), V.int('docid'), V.val('obj')]

    def new(self, a, old, e):
        return z3.Store(old, a[1].t, holds(e, a[2].t))


class UnindexDoc(Update):
    qual = Q + 'unindex_doc'

    def entry(self, V):
        return [self.self_obj(V), V.int('docid')]

    def new(self, a, old, e):
        return z3.Store(old, a[1].t, z3.BoolVal(False))


class ClearFilters(Update):
    qual = Q + 'clearFilters'

    def new(self, a, old, e):
        return z3.K(I_, z3.BoolVal(False))


class Clear(TSpec):
    qual = Q + 'clear'

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        return inv(S, a[0]) + [Clause(
            'no filter is registered', s.FD == z3.K(R_, z3.BoolVal(False)))]

    def modifies(self, S, a):
        return [('obj', a[0], '_filters', FMAP), ('alloc',)] + [
            ('heap', n, s) for n, s in FMAP.comps().items()] + [
                ('heap', 'kind', I_), ('heap', 'f64', B_)]


class Init(Clear):
    qual = Q + '__init__'

    def entry(self, V):
        return [self.self_obj(V, False), M.FamV(z3.Bool('fam64'))]


class AddFilter(TSpec):
    qual = Q + 'addFilter'

    def modifies(self, S, a):
        return [('heap', n, s) for n, s in FMAP.comps().items()]

    def entry(self, V):
        return [self.self_obj(V), V.ref(FILT, 'f')]

    def requires(self, S, a):
        s = St(S, a[0])
        f = a[1].t
        i = sel(s.IDS, f)
        return inv(S, a[0]) + [
            Clause('the filter is an object of its own', z3.And(
                i >= 1, i < s.alloc, fa(w, z3.Implies(
                    sel(s.FD, w), z3.And(sel(s.FV, w) != f, s.ids(w) != i)),
                    [sel(s.FV, w)])))] + ([Clause(
                        'with a persistent set', lib.is_persistent(S, i))]
                        if lib.c23(S) else [])

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        f = a[1].t
        fid = S0.rd(f, FILT.comp('id', 0), R_)
        return inv(S, a[0]) + [
            Clause('the filter is registered under its id', z3.And(
                s.FD == z3.Store(s0.FD, fid, z3.BoolVal(True)),
                sel(s.FV, fid) == f)),
            Clause('other filters stay', fa(w, z3.Implies(
                w != fid, sel(s.FV, w) == sel(s0.FV, w)))),
            Clause('filters keep their documents', s.SM == s0.SM)]


class DelFilter(TSpec):
    qual = Q + 'delFilter'

    def modifies(self, S, a):
        return [('heap', n, s) for n, s in FMAP.comps().items()]

    def entry(self, V):
        return [self.self_obj(V), V.word('id')]

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        return inv(S, a[0]) + [
            Clause('the filter is gone', s.FD == z3.Store(
                s0.FD, a[1].t, z3.BoolVal(False))),
            Clause('other filters stay', fa(w, z3.Implies(
                w != a[1].t, sel(s.FV, w) == sel(s0.FV, w)))),
            Clause('filters keep their documents', s.SM == s0.SM)]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'KeyError':
            return None
        return [Clause('only for unknown ids', z3.Not(sel(
            St(S0, a[0]).FD, a[1].t)))]


class Search(TSpec):
    qual = Q + 'search'
    oper = 'and'
    inline = True

    def entry(self, V):
        q = V.ref(QUERY, 'query')
        return [self.self_obj(V), q, Const(self.oper)]

    def query(self, a):
        return a[1]

    def asked(self, t):
        return sel(self.QS, t)

    def requires(self, S, a):
        q = self.query(a)
        self.QS = lib.elemset(S.ctx, S.n(q), S.e(q), 'asked')
        return inv(S, a[0])

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        QS = self.QS
        R = S.m(res)
        named = z3.And(sel(s.FD, w), sel(QS, w))
        md = lib.marked('d', I_)
        if self.oper == 'and':
            return [
                Clause('only documents of all the filters', fa(
                    [d, w], z3.Implies(z3.And(sel(R, d), named),
                                       s.has(w, d)))),
                Clause('nothing if no filter is named', fa(
                    d, z3.Implies(sel(R, d), z3.Exists(w, named)))),
                Clause('all documents of all the filters', fa(
                    d, z3.Implies(z3.And(
                        md(d), z3.Exists(w, named), fa(w, z3.Implies(
                            named, s.has(w, d)), [sel(s.FV, w)])),
                        sel(R, d)))),
            ]
        return [
            Clause('only documents of some filter', fa(
                d, z3.Implies(sel(R, d), z3.Exists(w, z3.And(
                    named, s.has(w, d)))))),
            Clause('all documents of the filters', fa(
                [d, w], z3.Implies(z3.And(named, s.has(w, d)), sel(R, d)))),
        ]

    def loop_invariants(self, L):
        it, ctx = L.it, L.ctx
        if it is None:
            return []
        x = it.get(ctx.fresh_int('probe'))
        S = View(ctx, L.s)
        s = St(S, ctx.entry_args[0])
        out = []
        if isinstance(x, Sym) and x.ty is TWord:
            m = lambda t: self.asked(it.get(t).t)
            fl = lib.Filter(L, m, 'topic')
            for nm, v in L.vars(lambda v: isinstance(v, Ref) and isinstance(
                    v.ct, ListCT) and isinstance(v.ct.elem, TRefT) and
                    v.ct.elem.ct.name == SET.name):
                out += fl.invariants(nm, S.n(v), S.e(v),
                                     lambda t: s.ids(it.get(t).t),
                                     lambda t: it.get(t).t)
        elif isinstance(x, Ref) and x.ct is not None and \
                x.ct.name == SET.name:
            out += fold_intersection(L, s.SM, sel(s.FD, w))
        return out


def fold_intersection(L, H, trig):
    """rs is None before the first set, and then the intersection of those
    visited (trig: what besides rs may trigger a look at a document)."""
    it = L.it
    out = []

    def is_set(v):
        return isinstance(v, Const) and v.value is None or isinstance(
            v, Ref) and v.ct is not None and v.ct.name == SET.name
    md = lib.marked('d', I_)
    for nm, v in L.vars(is_set):
        vt = z3.IntVal(0) if isinstance(v, Const) else v.t
        m = sel(H, vt)
        src = lambda jt, dt: sel(sel(H, it.get(jt).t), dt)
        out += [
            (f'{nm} is None before the first set', (vt == 0) == (L.i == 0)),
            (f'{nm} is within every visited set', fa(
                [d, j], z3.Implies(z3.And(
                    L.i > 0, sel(m, d), 0 <= j, j < L.i), src(j, d)),
                [z3.MultiPattern(sel(m, d), it.get(j).t)])),
            (f'{nm} is within the first set', fa(d, z3.Implies(
                z3.And(L.i > 0, sel(m, d)), src(z3.IntVal(0), d)),
                [sel(m, d)])),
            (f'{nm} has what is in every visited set', fa(
                d, z3.Implies(z3.And(md(d), L.i > 0, fa(j, z3.Implies(
                    z3.And(0 <= j, j < L.i), src(j, d)))), sel(m, d)),
                [md(d)])),
        ]
    return out


class SearchOr(Search):
    oper = 'or'


class ApplyList(Search):
    qual = Q + 'apply'

    def entry(self, V):
        return [self.self_obj(V), V.ref(QUERY, 'query')]


class ApplyDict(Search):
    qual = Q + 'apply'

    def entry(self, V):
        q = V.ref(QUERY, 'query')
        return [self.self_obj(V), M.ConstDict(
            {'query': q, 'operator': Const(self.oper)})]

    def query(self, a):
        return a[1].d['query']


class ApplyDictOr(ApplyDict):
    oper = 'or'


class SearchStr(TSpec):
    qual = Q + 'search'
    inline = True

    def entry(self, V):
        return [self.self_obj(V), V.word('query')]

    loop_invariants = Search.loop_invariants

    def requires(self, S, a):
        self.q = a[1].t
        return inv(S, a[0])

    def asked(self, t):
        return t == self.q

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        R = S.m(res)
        q = a[1].t
        md = lib.marked('d', I_)
        return [Clause('the documents of the filter', fa(d, z3.Implies(
            md(d), sel(R, d) == z3.And(sel(s.FD, q), s.has(q, d)))))]


SPECS = [FIndex(), FUnindex(), FClear(), FInit(), IndexDoc(), UnindexDoc(),
         ClearFilters(), Clear(), Init(), AddFilter(), DelFilter(), Search(),
         SearchOr(), ApplyList(), ApplyDict(), ApplyDictOr(), SearchStr()]
