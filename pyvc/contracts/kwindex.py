"""Contracts of zope.index.keyword.index."""
import z3
from core import *      # noqa: F403
import models as M
import lib
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.keyword.index'
Q = MOD + ':KeywordIndex.'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
POST = SetCT(TInt)
KWS = SetCT(TWord)
FWD = MapCT(TWord, TRefT(POST))
REV = MapCT(TInt, TRefT(KWS))
QUERY = ListCT(TWord)

ATTRS = {(c, a): t for c in ('KeywordIndex', 'CaseInsensitiveKeywordIndex')
         for a, t in (('_fwd_index', FWD), ('_rev_index', REV))}

d = z3.Int('d')
w, w2 = z3.Reals('w w2')
j = z3.Int('j')
sel = z3.Select


class St:
    """Terms of the abstract state of a keyword index."""

    def __init__(self, S, o):
        self.fwd, self.rev = S.attr(o, '_fwd_index'), S.attr(o, '_rev_index')
        self.num = S.attr(o, '_num_docs')
        for r, ct in ((self.fwd, FWD), (self.rev, REV)):
            if not isinstance(r, Ref) or r.ct is None or \
                    r.ct.name != ct.name:
                raise Unsupported('representation of the index changed')
        self.FD, self.FV = S.dom(self.fwd), S.val(self.fwd)
        self.RD, self.RV = S.dom(self.rev), S.val(self.rev)
        self.SM = S.sets(TInt)
        self.KM = S.sets(TWord)
        self.n = S.length(self.num)
        self.alloc = S.state.alloc

    def post(self, wt, dt):
        return sel(sel(self.SM, sel(self.FV, wt)), dt)

    def kw(self, dt, wt):
        return sel(sel(self.KM, sel(self.RV, dt)), wt)


def markw(t):
    """Always true: names the terms the prover should look at."""
    return M.uf('mark!w', R_, B_)(t)


def markd(t):
    return M.uf('mark!d', I_, B_)(t)


def inv(S, o):
    s = St(S, o)
    FD, FV, RD, RV = s.FD, s.FV, s.RD, s.RV
    return [
        Clause('K1 every document is posted under its keywords', fa(
            [d, w], z3.Implies(z3.And(sel(RD, d), s.kw(d, w)), z3.And(
                sel(FD, w), s.post(w, d))), [s.kw(d, w)])),
        Clause('K2 postings hold only documents with that keyword', fa(
            [w, d], z3.Implies(z3.And(sel(FD, w), s.post(w, d)),
                               z3.And(sel(RD, d), s.kw(d, w))),
            [s.post(w, d)])),
        Clause('K3 no posting is empty', fa(
            w, z3.Implies(z3.And(markw(w), sel(FD, w)), sel(
                s.SM, sel(FV, w)) != z3.K(I_, z3.BoolVal(False))),
            [markw(w)])),
        Clause('K4 indexed documents have keywords', fa(
            d, z3.Implies(z3.And(markd(d), sel(RD, d)), sel(
                s.KM, sel(RV, d)) != z3.K(R_, z3.BoolVal(False))),
            [markd(d)])),
        Clause('K5 postings are separate objects', z3.And(
            fa(w, z3.Implies(sel(FD, w), z3.And(
                sel(FV, w) >= 1, sel(FV, w) < s.alloc)), [sel(FV, w)]),
            fa([w, w2], z3.Implies(
                z3.And(sel(FD, w), sel(FD, w2), sel(FV, w) == sel(FV, w2)),
                w == w2), [z3.MultiPattern(sel(FV, w), sel(FV, w2))]))),
        Clause('K6 keyword sets are existing objects', fa(
            d, z3.Implies(sel(RD, d), z3.And(
                sel(RV, d) >= 1, sel(RV, d) < s.alloc)), [sel(RV, d)])),
        Clause('K7 the document counter is exact',
               s.n == M.card(S.ctx, s.RD), ('C05',)),
    ] + lib.stored(S, [s.fwd, s.rev], [(w, FD, s.FV, True),
                                       (d, RD, s.RV, True)])


def lower(t):
    return M.uf('lower', R_, R_)(t)


def marked(V, v):
    V.ctx.assume(markd(v.t))
    return v


class KwSpec(Spec):
    cls = 'KeywordIndex'
    props = ('C04', 'C05')

    def norm(self, t):
        return t if self.cls == 'KeywordIndex' else lower(t)

    def self_obj(self, V, with_state=True):
        at = {'_fwd_index': FWD, '_rev_index': REV, '_num_docs': LENGTH,
              'family': M.FamV(z3.Bool('fam64')), 'tree_threshold': TInt}
        if not with_state:
            at = {}
        return V.obj(MOD, self.cls, at)

    def requires(self, S, a):
        return inv(S, a[0])

    def modifies(self, S, a):
        return [('heap', n, s) for c in (POST, KWS, FWD, REV)
                for n, s in c.comps().items()] + [
            ('heap', 'Length.v', I_), ('heap', 'kind', I_), ('alloc',)]

    def words(self, S, ref):
        """membership formula of the normalised elements of a list"""
        n, e = S.n(ref), S.e(ref)

        def has(wt):
            return z3.Exists(j, z3.And(0 <= j, j < n,
                                       self.norm(sel(e, j)) == wt))
        return n, e, has

    def loop_invariants(self, L):
        """Role based: what any loop of these functions may keep."""
        s = View(L.ctx, L.s)
        out = []
        try:
            o = L.ctx.entry_args[0]
            st, st0 = St(s, o), St(View(L.ctx, L.s0), o)
        except (Unsupported, KeyError, AttributeError):
            return out
        it = L.it
        dd = self.docid(L.ctx)
        FD, FV = st.FD, st.FV
        out += [(c.name, c.f) for c in lib.stored(s, [st.fwd, st.rev], [
            (w, FD, FV, True), (d, st.RD, st.RV, True)])]
        out += [
            ('postings are separate', z3.And(
                fa(w, z3.Implies(sel(FD, w), z3.And(
                    sel(FV, w) >= 1, sel(FV, w) < st.alloc)), [sel(FV, w)]),
                fa([w, w2], z3.Implies(
                    z3.And(sel(FD, w), sel(FD, w2),
                           sel(FV, w) == sel(FV, w2)), w == w2),
                    [z3.MultiPattern(sel(FV, w), sel(FV, w2))]))),
            ('no posting is empty', fa(
                w, z3.Implies(z3.And(markw(w), sel(FD, w)), sel(
                    st.SM, sel(FV, w)) != z3.K(I_, z3.BoolVal(False))),
                [markw(w)])),
        ]
        post = lambda q, wt, dt: z3.And(sel(q.FD, wt), q.post(wt, dt))
        out.append(('all postings as before', fa(
            [w, d], post(st, w, d) == post(st0, w, d), [st.post(w, d)])))
        out.append(('all postings as before, backwards', fa(
            [w, d], z3.Implies(post(st0, w, d), post(st, w, d)),
            [st0.post(w, d)])))
        if dd is not None:
            out += [
                ('other documents\' postings unchanged', fa(
                    [w, d], z3.Implies(d != dd, post(st, w, d) ==
                                       post(st0, w, d)), [st.post(w, d)])),
                ('other documents\' postings kept', fa(
                    [w, d], z3.Implies(z3.And(d != dd, post(st0, w, d)),
                                       post(st, w, d)), [st0.post(w, d)])),
            ]
        if dd is not None and it is not None and it.mem is not None:
            done = L.done
            try:
                out += [
                    ('visited words lost the document', fa(
                        w, post(st, w, dd) == z3.And(
                            post(st0, w, dd), z3.Not(done(w))),
                        [st.post(w, dd)])),
                    ('unvisited words kept the document', fa(
                        w, z3.Implies(z3.And(post(st0, w, dd),
                                             z3.Not(done(w))),
                                      post(st, w, dd)), [st0.post(w, dd)])),
                    ('visited words gained the document', fa(
                        w, post(st, w, dd) == z3.Or(
                            post(st0, w, dd), done(w)), [st.post(w, dd)])),
                    ('visited words have the document', fa(
                        w, z3.Implies(done(w), post(st, w, dd)),
                        [it.idx(w)])),
                    ('words with the document kept it', fa(
                        w, z3.Implies(post(st0, w, dd), post(st, w, dd)),
                        [st0.post(w, dd)])),
                ]
            except z3.Z3Exception:
                pass
        return out

    def docid(self, ctx):
        a = ctx.entry_args
        if len(a) > 1 and isinstance(a[1], Sym) and a[1].ty is TInt:
            return a[1].t
        return None


class IndexDoc(KwSpec):
    qual = Q + 'index_doc'
    params = [('self', REQ), ('docid', REQ), ('seq', REQ)]

    def entry(self, V):
        return [self.self_obj(V), marked(V, V.int('docid')), V.ref(QUERY, 'seq')]

    def has(self, S0, a):
        return self.words(S0, a[2])[2]

    def ensures(self, S0, S, a, res):
        o, dd = a[0], a[1].t
        s0, s = St(S0, o), St(S, o)
        has = self.has(S0, a)
        some = z3.Exists(w, has(w))
        return inv(S, o) + [
            Clause('indexed exactly if there are keywords',
                   sel(s.RD, dd) == some),
            Clause('its keywords are the normalized ones given', fa(
                w, z3.Implies(sel(s.RD, dd), s.kw(dd, w) == has(w)))),
            Clause('the same other documents are indexed', fa(
                d, z3.Implies(d != dd, sel(s.RD, d) == sel(s0.RD, d)))),
            Clause('other documents keep their keywords', fa(
                [d, w], z3.Implies(z3.And(d != dd, sel(s0.RD, d)),
                                   s.kw(d, w) == s0.kw(d, w)))),
        ]


class IndexDocCI(IndexDoc):
    cls = 'CaseInsensitiveKeywordIndex'


class IndexDocNone(IndexDoc):
    def entry(self, V):
        return [self.self_obj(V), marked(V, V.int('docid')), NONE]

    def has(self, S0, a):
        return lambda wt: z3.BoolVal(False)


class UnindexDoc(KwSpec):
    qual = Q + 'unindex_doc'
    params = [('self', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self.self_obj(V), marked(V, V.int('docid'))]

    def ensures(self, S0, S, a, res):
        o, dd = a[0], a[1].t
        s0, s = St(S0, o), St(S, o)
        return inv(S, o) + [
            Clause('the document is gone', s.RD == z3.Store(
                s0.RD, dd, z3.BoolVal(False))),
            Clause('other documents keep their keywords', fa(
                [d, w], z3.Implies(z3.And(d != dd, sel(s0.RD, d)),
                                   s.kw(d, w) == s0.kw(d, w)),
                [s.kw(d, w)])),
        ]


class Optimize(KwSpec):
    qual = Q + 'optimize'

    def entry(self, V):
        return [self.self_obj(V)]

    def ensures(self, S0, S, a, res):
        o = a[0]
        s0, s = St(S0, o), St(S, o)
        return inv(S, o) + [
            Clause('the same documents are indexed', s.RD == s0.RD),
            Clause('documents keep their keywords', fa(
                [d, w], z3.Implies(sel(s0.RD, d),
                                   s.kw(d, w) == s0.kw(d, w)))),
            Clause('the same keywords are known', fa(
                w, sel(s.FD, w) == sel(s0.FD, w))),
        ]


class Clear(KwSpec):
    qual = Q + 'clear'
    params = [('self', REQ)]

    def entry(self, V):
        return [self.self_obj(V)]

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        return inv(S, a[0]) + [
            Clause('no document is indexed',
                   s.RD == z3.K(I_, z3.BoolVal(False))),
            Clause('no keyword is known',
                   s.FD == z3.K(R_, z3.BoolVal(False)))]

    def modifies(self, S, a):
        return KwSpec.modifies(self, S, a) + [
            ('obj', a[0], '_fwd_index', FWD), ('obj', a[0], '_rev_index', REV),
            ('obj', a[0], '_num_docs', LENGTH)]


class Init(Clear):
    qual = Q + '__init__'

    def entry(self, V):
        return [self.self_obj(V, False), M.FamV(z3.Bool('fam64'))]


class Search(KwSpec):
    qual = Q + 'search'
    props = ('C04',)
    oper = 'and'
    inline = True

    def entry(self, V):
        return [self.self_obj(V), V.ref(QUERY, 'query'), Const(self.oper)]

    def query(self, a):
        return a[1]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        n, e, has = self.words(S0, self.query(a))
        if not (isinstance(res, Ref) and isinstance(res.ct, SetCT)):
            return [Clause('the result is a set of ids', False)]
        R = S.m(res)
        kwq = s.kw(d, self.norm(sel(e, j)))
        if self.oper == 'and':
            want = z3.And(n > 0, fa(j, z3.Implies(
                z3.And(0 <= j, j < n), kwq), [sel(e, j)]))
        else:
            want = z3.Exists(j, z3.And(0 <= j, j < n, kwq))
        want = z3.And(sel(s.RD, d), want)
        return [
            Clause('only documents that match are returned', fa(
                d, z3.Implies(sel(R, d), want))),
            Clause('all documents that match are returned', fa(
                d, z3.Implies(want, sel(R, d)))),
            Clause('the result is no None', res.t >= 1
                   if not res.nullable else res.t != 0),
        ]

    def loop_invariants(self, L):
        """rs is None before the first set, and then the intersection of
        those visited."""
        out = []
        it = L.it
        if it is None:
            return out
        x = it.get(L.ctx.fresh_int('probe'))
        st = St(View(L.ctx, L.s), L.ctx.entry_args[0])
        if isinstance(x, Sym) and x.ty is TWord:
            H = st.SM
            st0 = St(View(L.ctx, L.s0), L.ctx.entry_args[0])
            k = z3.Int('k')
            for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                                isinstance(v.ct, ListCT) and
                                isinstance(v.ct.elem, TRefT) and
                                v.ct.elem.ct.name == POST.name):
                e = View(L.ctx, L.s).e(v)
                q = it.get(k).t
                rng = z3.And(0 <= k, k < L.i)
                out += [
                    (f'{nm} holds existing sets', fa(k, z3.Implies(
                        rng, z3.And(sel(e, k) >= 1, sel(e, k) < st.alloc)),
                        [sel(e, k), q] if z3.is_select(q) else
                        [sel(e, k)])),
                    (f'{nm} holds the postings of the words', fa(
                        [k, d], z3.Implies(rng, sel(sel(H, sel(e, k)), d) ==
                                           z3.And(sel(st.FD, q),
                                                  st.post(q, d))),
                        [sel(sel(H, sel(e, k)), d)])),
                    (f'{nm} holds all postings of the words', fa(
                        [k, d], z3.Implies(
                            z3.And(rng, sel(st0.FD, q), st0.post(q, d)),
                            sel(sel(H, sel(e, k)), d)), [st0.post(q, d)])),
                ]
            return out
        if not (isinstance(x, Ref) and x.ct is not None and
                x.ct.name == POST.name):
            return out
        H = View(L.ctx, L.s).sets(TInt)
        def is_set(v):
            return isinstance(v, Const) and v.value is None or isinstance(
                v, Ref) and v.ct is not None and v.ct.name == POST.name
        for nm, v in L.vars(is_set):
            vt = z3.IntVal(0) if isinstance(v, Const) else v.t
            m = sel(H, vt)
            src = lambda jt, dt: sel(sel(H, it.get(jt).t), dt)
            out += [
                (f'{nm} is None before the first set', (vt == 0) ==
                 (L.i == 0)),
                (f'{nm} is within every visited set', fa(
                    [d, j], z3.Implies(z3.And(L.i > 0, sel(m, d), 0 <= j,
                                              j < L.i), src(j, d)),
                    [z3.MultiPattern(sel(m, d), it.get(j).t)])),
                (f'{nm} is within the first set', fa(
                    d, z3.Implies(z3.And(L.i > 0, sel(m, d)), src(
                        z3.IntVal(0), d)), [sel(m, d)])),
                (f'{nm} has what is in every visited set', fa(
                    d, z3.Implies(z3.And(L.i > 0, fa(j, z3.Implies(
                        z3.And(0 <= j, j < L.i), src(j, d)))), sel(m, d)),
                    [sel(st.RD, d)])),
            ]
        return out


class SearchOr(Search):
    oper = 'or'


class SearchCI(Search):
    cls = 'CaseInsensitiveKeywordIndex'


class SearchOrCI(SearchOr):
    cls = 'CaseInsensitiveKeywordIndex'


class SearchStr(Search):
    """a single string is a one-word query"""

    def entry(self, V):
        return [self.self_obj(V), V.word('query'), Const(self.oper)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        R = S.m(res)
        want = z3.And(sel(s.RD, d), s.kw(d, self.norm(self.query(a).t)))
        return [Clause('exactly the documents with the keyword', fa(
            d, sel(R, d) == want))]


class Apply(Search):
    qual = Q + 'apply'

    def entry(self, V):
        return [self.self_obj(V), V.ref(QUERY, 'query')]


class ApplyDict(Search):
    """{'query': [...], 'operator': ...}"""
    qual = Q + 'apply'

    def entry(self, V):
        q = V.ref(QUERY, 'query')
        D = M.ConstDict({'query': q, 'operator': Const(self.oper)})
        return [self.self_obj(V), D]

    def query(self, a):
        return a[1].d['query']


class ApplyDictOr(ApplyDict):
    oper = 'or'


class DocCount(KwSpec):
    qual = Q + 'documentCount'
    props = ('C05',)

    def entry(self, V):
        return [self.self_obj(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return [Clause('number of documents with keywords',
                       S.ctx.coerce(res, TInt) == M.card(S.ctx, s.RD))]


class WordCount(KwSpec):
    qual = Q + 'wordCount'
    props = ('C05',)

    def entry(self, V):
        return [self.self_obj(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        ctx = S.ctx
        U = ctx.fresh(z3.ArraySort(R_, B_), 'used')
        f = M.uf('usedby', R_, I_)
        ctx.assume(fa([d, w], z3.Implies(z3.And(sel(s.RD, d), s.kw(d, w)),
                                         sel(U, w)), [s.kw(d, w)]))
        ctx.assume(fa(w, z3.Implies(sel(U, w), z3.And(
            sel(s.RD, f(w)), s.kw(f(w), w))), [sel(U, w)]))
        return [
            Clause('the known keywords are the used ones',
                   fa(w, z3.Implies(markw(w), sel(U, w) == sel(s.FD, w)))),
            Clause('number of used keywords',
                   S.ctx.coerce(res, TInt) == M.card(ctx, s.FD))]


class HasDoc(KwSpec):
    qual = Q + 'has_doc'
    props = ('C05',)

    def entry(self, V):
        return [self.self_obj(V), marked(V, V.int('docid'))]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return [Clause('exactly the indexed documents',
                       M.bt(M.truth_term(S.ctx.interp, res)) ==
                       sel(s.RD, a[1].t))]


SPECS = [IndexDoc(), IndexDocCI(), IndexDocNone(), UnindexDoc(), Optimize(),
         Clear(), Init(), Search(), SearchOr(), SearchCI(), SearchOrCI(),
         SearchStr(), Apply(), ApplyDict(), ApplyDictOr(), DocCount(), WordCount(), HasDoc()]
