"""Contracts of the searches of the text indexes.

A document is fixed (dd, arbitrary).  PRES(w): the word is in it; SC(w): its
share of the score.  HITS and SCORE add these up over a list of word ids.
"""
import z3
from core import *      # noqa: F403
import models as M
import ratform as R
from contract import Spec, Clause, View, bt, REQ
import textx as X
import textlib as T
import setopsx as SO
from textx import (MODS, MAP, St, TSpec, Model, inv, existing, nonempty,
                   markw, markd, touch, sel, I_, R_, B_, clen, cat, cnt,
                   codeof, WIDS, LexV, seq_of, is_wids, DMK, w, d, k, r)
from setopsx import dd, TOTAL, PRESENT, GIVEN, is_entry, mulr

ATTRS = X.ATTRS
ENTRY = TTuple([TRefT(MAP), TReal])
ENTRIES = ListCT(ENTRY)
K1, B = z3.RealVal('1.2'), z3.RealVal('0.75')
p = z3.Int('p!se')
LEN = M.LOG


class Terms:
    """What a word of a query counts, in the state s."""

    def __init__(self, s, mod):
        self.s, self.mod = s, mod
        self.ctx = s.S.ctx
        self.N = z3.ToReal(M.card(self.ctx, s.TD))

    def pres(self, x):
        return self.s.P(x, dd)

    def idf(self, x):
        n = z3.ToReal(M.card(self.ctx, sel(self.s.MD, sel(self.s.WV, x)),
                             False))
        return M.LOG(1 + R.rdiv(None, self.N, n))

    def bm25(self, f, ln, mean, idf):
        """The formula of the documentation."""
        K = (1 - B) + R.rdiv(None, R.rmul(None, B, ln), mean)
        tf = R.rdiv(None, R.rmul(None, f, K1 + 1), f + R.rmul(None, K1, K))
        return R.rmul(None, tf, idf)

    def share(self, x, doc=None):
        doc = dd if doc is None else doc
        s = self.s
        if not self.mod.okapi:
            return mulr(self.ctx, s.V(x, doc), self.idf(x))
        mean = R.rdiv(None, z3.ToReal(s.total), self.N)
        return self.bm25(s.V(x, doc), sel(s.LV, doc), mean, self.idf(x))

    def key(self):
        return str(abs(hash(''.join(t.sexpr() for t in (
            self.s.WD, self.s.WV, self.s.MD, self.s.MV, self.s.LV)))))

    def hits(self):
        return M.ListMeasure('hits', lambda ct: ct.name == WIDS.name,
                             lambda ctx, t: z3.If(self.pres(t[0]), 1, 0),
                             I_, True)

    def score(self):
        return M.ListMeasure('score', lambda ct: ct.name == WIDS.name,
                             lambda ctx, t: z3.If(
                                 self.pres(t[0]), self.share(t[0]), 0), R_)


def ext(ctx, m1, a1, m2, a2, n):
    """Sums of the same numbers are the same."""
    sk = ctx.fresh_int('ext')
    M.add_fact(ctx, z3.Or(
        m1.term(ctx, a1, n) == m2.term(ctx, a2, n),
        z3.And(0 <= sk, sk < n, m1.f(ctx, [sel(a, sk) for a in a1]) !=
               m2.f(ctx, [sel(a, sk) for a in a2]))))


def counted(ctx, m, arrs, n):
    """A count is positive iff something is counted; it is n iff all is."""
    t = m.term(ctx, arrs, n)
    y1, y2 = ctx.fresh_int('hit'), ctx.fresh_int('miss')
    f = lambda j: m.f(ctx, [sel(a, j) for a in arrs]) == 1
    M.add_fact(ctx, z3.Implies(t > 0, z3.And(0 <= y1, y1 < n, f(y1))))
    M.add_fact(ctx, z3.Implies(z3.And(n >= 0, t < n), z3.And(
        0 <= y2, y2 < n, z3.Not(f(y2)))))
    M.add_fact(ctx, fa(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(
        z3.Implies(f(k), t > 0), z3.Implies(z3.Not(f(k)), t < n))),
        [sel(arrs[0], k)]))
    return y1, y2


def lemmas(ctx, s):
    """Facts of finite sums and counts."""
    R.axioms(ctx)
    c = M.card(ctx, s.TD)
    M.add_fact(ctx, fa(d, z3.Implies(sel(s.TD, d), c >= 1),
                       [sel(s.TD, d)]))
    for D, v in ((s.LD, s.LV),):
        t = M.msum(ctx, D, v)
        y = ctx.fresh_int('neg')
        M.add_fact(ctx, z3.Or(
            z3.And(sel(D, y), sel(v, y) < 0),
            fa(d, z3.Implies(sel(D, d), t >= sel(v, d)),
               [sel(v, d), sel(s.TD, d)])))
    cw = lambda x: M.card_f(s.LD)(sel(s.MD, sel(s.WV, x)))
    M.add_fact(ctx, fa([w, d], z3.Implies(s.inm(w, d), cw(w) >= 1),
                       [s.inm(w, d)]))


class QSpec(TSpec):
    """A function that reads the index."""
    inline = False
    props = ('C13', 'C15', 'C18', 'C19')
    opts = {'measures': ('msum',), 'on_key': X.on_key, 'rmul': R.rmul,
            'div': R.rdiv, 'mul': SO.mulr, 'list_measures': SO.ALL,
            'on_weighted': SO.on_weighted, 'skip': X.SKIP}

    def terms(self, S, a):
        return Terms(St(S, a[0]), self.mod)

    def start(self, V, o):
        s = St(View(V.ctx, V.ctx.state), o)
        lemmas(V.ctx, s)
        V.ctx.assume(markd(dd))


def frame(S0, S):
    """Existing mappings are left alone."""
    D0, V0 = S0.maps(MAP)
    D, Vs = S.maps(MAP)
    al = S0.state.alloc
    K0, K = S0.h('kind', I_), S.h('kind', I_)
    return fa(r, z3.Implies(z3.And(1 <= r, r < al), z3.And(
        sel(D, r) == sel(D0, r), sel(Vs[0], r) == sel(V0[0], r),
        sel(K, r) == sel(K0, r))), [sel(D, r), sel(Vs[0], r), sel(K, r)])


def good(S, E, e, tm, n):
    """The entries are those of the words e."""
    t = sel(E[0], p)
    D, Vs = S.maps(MAP)
    al = S.state.alloc
    rng = z3.And(0 <= p, p < n)
    x = sel(e, p)
    return [
        ('are mappings', fa(p, z3.Implies(rng, z3.And(
            t >= 1, t < al, z3.Or(*[S.kind(t) == i for i in SO.NODICT]))),
            [t])),
        ('hold the documents with the word', fa([p, d], z3.Implies(
            rng, sel(sel(D, t), d) == tm.s.P(x, d)), [sel(sel(D, t), d)])),
        ('hold the scores', fa(p, z3.Implies(
            z3.And(rng, tm.pres(x)), mulr(S.ctx, sel(sel(
                Vs[0], t), dd), sel(E[1], p)) == tm.share(x)), [t])),
    ]


class SearchWids(QSpec):
    pure = True
    props = ('C13', 'C15', 'C18')
    soft = False
    params = [('self', REQ), ('wids', REQ)]
    how = '_python_search_wids'

    def __init__(self):
        self.qual = f'{MODS[self.cls]}:{self.cls}.{self.how}'

    def entry(self, V):
        o = self.self_obj(V)
        self.start(V, o)
        l = V.ref(WIDS, 'wids')
        e = View(V.ctx, V.ctx.state).e(l)
        V.ctx.assume(fa(k, markw(sel(e, k)), [sel(e, k)]))
        V.ctx.assume(markw(sel(e, 0)))
        return [o, l]

    def applicable(self, I, args, kwargs):
        if kwargs or len(args) != 2 or not is_wids(args[1]) or \
                args[1].ct is None:
            return False
        try:
            St(View(I.ctx, I.ctx.state), args[0])
        except (Unsupported, KeyError, AttributeError):
            return False
        return True

    def requires(self, S, a):
        s = St(S, a[0])
        e, n = S.e(a[1]), S.n(a[1])
        return inv(S, a[0], self.mod) + [
            Clause('the words are known', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), sel(s.WD, sel(e, k))),
                [sel(e, k)]))]

    def modifies(self, S, a):
        return [('heap', MAP.d, z3.ArraySort(I_, B_)),
                ('heap', MAP.vs[0], z3.ArraySort(I_, R_)),
                ('heap', 'kind', I_), ('heap', 'f64', B_), ('alloc',)]

    def call(self, I, args, kwargs):
        res = super().call(I, args, kwargs)
        I.ctx.searched = View(I.ctx, I.ctx.state).e(args[1])
        return res

    def result(self, V, a):
        S = View(V.ctx, V.ctx.state)
        ctx = V.ctx
        es = [ctx.fresh(z3.ArraySort(I_, I_), 'er'),
              ctx.fresh(z3.ArraySort(I_, R_), 'ew')]
        return M.new_list(V.I, ENTRY, S.n(a[1]), es)

    def ensures(self, S0, S, a, res):
        tm = self.terms(S0, a)
        e, n = S0.e(a[1]), S0.n(a[1])
        if not (isinstance(res, Ref) and (res.ct is None or (
                isinstance(res.ct, ListCT) and is_entry(res.ct)))):
            return [Clause('a list of mappings and weights', False)]
        if res.ct is None:
            return [Clause('one entry for each word', n <= 0)]
        E = [S.e(res, 0), S.e(res, 1)]
        return [Clause('one entry for each word', S.n(res) == n)] + [
            Clause('the entries ' + nm, f)
            for nm, f in good(S, E, e, tm, n)] + [
            Clause('the index is unchanged', frame(S0, S))]

    def loop_invariants(self, L):
        ctx = L.ctx
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        a = ctx.entry_args
        se = ctx.entry_view
        tm = self.terms(se, a)
        e = se.e(a[1])
        out = [('existing mappings are left alone', frame(se, S))]
        if tm.s.total is not None:
            out.append(('some document has words', tm.s.total >= 1))
        D, Vs = S.maps(MAP)
        D0, V0 = S0.maps(MAP)
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and v.ct is not None
                            and isinstance(v.ct, ListCT) and is_entry(v.ct)):
            E = [S.e(v, 0), S.e(v, 1)]
            out.append((f'{nm}: an entry for each visited', S.n(v) == L.i))
            for t, f in good(S, E, e, tm, L.i):
                out.append((f'{nm}: entries {t}', f))
        ints = list(L.vars(lambda v: isinstance(v, Sym) and v.ty is TInt))
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and v.ct is not None
                            and v.ct.name == MAP.name):
            out += [(f'only {nm} changes', fa(r, z3.Implies(
                z3.And(r >= 1, r < L.s0.alloc, r != v.t), z3.And(
                    sel(D, r) == sel(D0, r), sel(Vs[0], r) == sel(
                        V0[0], r))), [sel(D, r), sel(Vs[0], r)]))]
            if L.it is None or L.it.mem is None:
                continue
            dn = L.done(dd)
            out.append((f'{nm} has the visited documents', fa(
                d, sel(sel(D, v.t), d) == L.done(d),
                [sel(sel(D, v.t), d), L.it.idx(d)])))
            for xn, x in ints:
                out.append((f'{nm} has the scores of {xn}', z3.Implies(
                    dn, sel(sel(Vs[0], v.t), dd) == tm.share(x.t))))
        return out


class CosineSearchWids(SearchWids):
    props = ('C13', 'C15', 'C19')
    cls = 'CosineIndex'
    soft = True
    how = '_search_wids'


class COkapiSearchWids(SearchWids):
    soft = True
    how = '_c_search_wids'


class ScoreV(V):
    """The function score of okascore.c, by its contract."""

    def call_v(self, I, args, kw):
        ctx = I.ctx
        if kw or len(args) != 5:
            I.raise_('TypeError')
        res, items, lens, idf, mean = args
        S = View(ctx, ctx.state)
        if not (isinstance(res, Ref) and isinstance(items, Ref) and
                isinstance(lens, Ref)):
            raise Unsupported('score')
        if items.ct is None:
            return NONE
        ok = isinstance(items.ct, ListCT) and isinstance(
            items.ct.elem, TTuple) and items.ct.elem.items == [TInt, TReal]
        if not ok or res.ct is None or res.ct.name != MAP.name or \
                lens.ct.name != MAP.name:
            raise Unsupported(f'score of {items.ct}')
        n, e0, e1 = S.n(items), S.e(items, 0), S.e(items, 1)
        LD, LV = S.dom(lens), S.val(lens)
        D0, V0 = S.dom(res), S.val(res)
        it, mt = ctx.coerce(idf, TReal), ctx.coerce(mean, TReal)
        x = z3.Int('x!sc')
        tf = self.formula(sel(e1, k), sel(LV, sel(e0, k)), mt, it)
        ctx.prove(fa(k, z3.Implies(z3.And(0 <= k, k < n), sel(
            LD, sel(e0, k)))), f'{ctx.line}: precondition of score: every '
            'document has a length')
        ctx.prove(fa(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(sel(
            LV, sel(e0, k)) >= 0, mt > 0))),
                  f'{ctx.line}: precondition of score: the mean length is '
                  'positive')
        ctx.prove(fa(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(
            sel(e1, k) > 0, sel(LV, sel(e0, k)) >= 0))),
            f'{ctx.line}: precondition of score: frequencies are positive')
        M.on_write(I, res, 'score')
        D, Vv = ctx.fresh(D0.sort(), 'sc'), ctx.fresh(V0.sort(), 'scv')
        wit = M.uf(f'wit!{D}', I_, I_)
        ctx.assume(fa(k, z3.Implies(z3.And(0 <= k, k < n), sel(
            D, sel(e0, k))), [sel(e0, k)]))
        ctx.assume(fa(x, z3.Implies(sel(D, x), z3.Or(
            z3.And(sel(D0, x), sel(Vv, x) == sel(V0, x)), z3.And(
                0 <= wit(x), wit(x) < n, sel(e0, wit(x)) == x,
                sel(Vv, x) == self.formula(sel(e1, wit(x)), sel(
                    LV, x), mt, it)))), [sel(D, x)]))
        ctx.assume(fa(x, z3.Implies(sel(D0, x), sel(D, x)), [sel(D0, x)]))
        ctx.wr(res.t, MAP.d, z3.ArraySort(I_, B_), D)
        ctx.wr(res.t, MAP.vs[0], z3.ArraySort(I_, R_), Vv)
        return NONE

    def formula(self, f, ln, mean, idf):
        return Terms.bm25(None, f, ln, mean, idf)


OVERRIDES = {'zope.index.text.okapiindex:score': ScoreV()}


class Search(QSpec):
    """search(term): documents with any of the words, with the sum of their
    scores."""
    props = ('C13', 'C18', 'C19')
    name = 'search'
    arg = 'term'
    ids = staticmethod(T.term)
    inline = True

    def __init__(self):
        self.qual = f'{MODS[self.cls]}:{self.cls}.{self.name}'

    def entry(self, V):
        ctx = V.ctx
        o = self.self_obj(V)
        self.start(V, o)
        T.occurs_axiom(ctx)
        tm = Terms(St(View(ctx, ctx.state), o), self.mod)
        self.H, self.SC = tm.hits(), tm.score()
        known = M.ListMeasure('known', lambda ct: ct.name == WIDS.name,
                              lambda c_, t: z3.If(sel(tm.s.WD, t[0]), 1, 0),
                              I_, True)
        self.KN = known
        ctx.opts['list_measures'] = SO.ALL + [self.H, self.SC, known]
        ctx.opts['on_mass'] = self.on_mass
        q = V.word(self.arg)
        t = self.ids(q.t)
        e, n = [T.arrof(t)], clen(t)
        self.words = e, n
        M.add_fact(ctx, n >= 0)
        for m in (self.H, known):
            counted(ctx, m, e, n)
        self.SC.term(ctx, e, n)
        return [o, q]

    def on_mass(self, I, S, L):
        """The entries count what their words count."""
        ctx = I.ctx
        E, n = [S.e(L, 0), S.e(L, 1)], S.n(L)
        counted(ctx, GIVEN, E, n)
        e = getattr(ctx, 'searched', None)
        if e is not None:
            ext(ctx, PRESENT, E, self.H, [e], n)
            ext(ctx, TOTAL, E, self.SC, [e], n)

    def requires(self, S, a):
        return inv(S, a[0], self.mod)

    def has(self, s0, x):
        return z3.And(sel(s0.TD, dd), cnt(s0.code(dd), x) >= 1)

    def ensures(self, S0, S, a, res):
        ctx = S.ctx
        s0 = St(S0, a[0])
        t = self.ids(a[1].t)
        n = clen(t)
        if isinstance(res, Const) and res.value is None:
            return self.nothing(n)
        if not (isinstance(res, Ref) and (res.ct is None or
                                          res.ct.name == MAP.name)):
            return [Clause('a mapping is returned', False)]
        if res.ct is None:
            return self.wanted(s0, t, n, z3.BoolVal(False))
        member = sel(S.dom(res), dd)
        e, n = self.words
        return self.wanted(s0, t, n, member) + [
            Clause('with the sum of the scores', z3.Implies(
                member, sel(S.val(res), dd) == self.SC.term(ctx, e, n)),
                ('C18', 'C19')),
            Clause('the index is unchanged', frame(S0, S)),
        ]

    def nothing(self, n):
        return [Clause('nothing is returned only for no words', n == 0)]

    def wanted(self, s0, t, n, member):
        return [
            Clause('documents without a word are not found', z3.Implies(
                member, z3.Exists(k, z3.And(0 <= k, k < n, self.has(
                    s0, cat(t, k)))))),
            Clause('documents with a word are found', fa(k, z3.Implies(
                z3.And(0 <= k, k < n, self.has(s0, cat(t, k))), member))),
        ]


class SearchC(Search):
    cls = 'CosineIndex'


class Glob(Search):
    name = 'search_glob'
    ids = staticmethod(T.glob)

    def nothing(self, n):
        return [Clause('something is returned', False)]


class GlobC(Glob):
    cls = 'CosineIndex'


class Phrase(Search):
    """search_phrase: documents with the words in a row."""
    name = 'search_phrase'
    props = ('C15', 'C18', 'C19')

    def nothing(self, n):
        return [Clause('something is returned', False)]

    def wanted(self, s0, t, n, member):
        return [Clause('exactly the documents with the words in a row',
                       member == z3.And(n > 0, sel(s0.TD, dd), T.occurs(
                           s0.code(dd), t)))]

    def loop_invariants(self, L):
        ctx = L.ctx
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        a = ctx.entry_args
        s0 = St(ctx.entry_view, a[0])
        t = self.ids(a[1].t)
        e, n = self.words
        D, Vs = S.maps(MAP)
        out = [('existing mappings are left alone', frame(
            ctx.entry_view, S))]
        if L.it is None or L.it.mem is None:
            return out
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and v.ct is not None
                            and v.ct.name == MAP.name):
            has = z3.And(L.done(dd), T.occurs(s0.code(dd), t))
            out += [
                (f'only {nm} changes', fa(r, z3.Implies(
                    z3.And(r >= 1, r < L.s0.alloc, r != v.t), z3.And(
                        sel(D, r) == sel(S0.maps(MAP)[0], r), sel(
                            Vs[0], r) == sel(S0.maps(MAP)[1][0], r))),
                    [sel(D, r), sel(Vs[0], r)])),
                (f'{nm} has the visited documents with the phrase',
                 sel(sel(D, v.t), dd) == has),
                (f'{nm} has their scores', z3.Implies(
                    has, sel(sel(Vs[0], v.t), dd) == self.SC.term(
                        ctx, e, n))),
            ]
        return out


class PhraseC(Phrase):
    cls = 'CosineIndex'


SPECS = SO.SPECS + X.SPECS + [
    SearchWids(), COkapiSearchWids(), CosineSearchWids(), Search(),
    SearchC(), Glob(), GlobC(), Phrase(), PhraseC()]
