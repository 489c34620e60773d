"""Contracts of zope.index.text.lexicon (but for globs, see globx).

A list of words is abstracted to a sequence value s (slen, sat); pipeline
element j is a function on sequence values (assumed: elements do not change
their input, and depend on nothing else).
"""
import z3
from core import *      # noqa: F403
import models as M
import lib
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.text.lexicon'
Q = MOD + ':Lexicon.'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
WIDS = MapCT(TWord, TInt)
WORDS = MapCT(TInt, TWord)
LIST = ListCT(TWord)
ATTRS = {('Lexicon', '_wids'): WIDS, ('Lexicon', '_words'): WORDS}

i, j, k, s, s2 = z3.Ints('i j k s s2')
w = z3.Real('w')
sel = z3.Select

slen = M.uf('lex!len', I_, I_)
sat = M.uf('lex!at', I_, I_, R_)
proc = M.uf('lex!proc', I_, I_, I_)         # element, sequence
procg = M.uf('lex!procg', I_, I_, I_)
hasg = M.uf('lex!hasglob', I_, B_)
npipe = z3.Int('lex!npipe')
diff = M.uf('lex!diff', I_, I_, I_)


def seq_axioms(ctx):
    M.add_fact(ctx, npipe >= 0)
    M.add_fact(ctx, fa(s, slen(s) >= 0, [slen(s)]))
    for f, g in ((proc, proc), (procg, procg), (proc, procg)):
        M.add_fact(ctx, fa([i, s, j, s2], z3.Implies(z3.And(
            slen(s) == slen(s2), z3.Implies(
                z3.And(0 <= diff(s, s2), diff(s, s2) < slen(s)),
                sat(s, diff(s, s2)) == sat(s2, diff(s, s2)))), s == s2),
            [z3.MultiPattern(f(i, s), g(j, s2))]))


def value_of(ctx, ref):
    """The sequence value of a list."""
    v = ctx.fresh_int('seq')
    if ref.ct is None:
        ctx.assume(slen(v) == 0)
        return v
    n, e = M.list_n(ctx, ref), M.list_terms(ctx, ref)[0]
    ctx.assume(slen(v) == n)
    ctx.assume(fa(k, z3.Implies(z3.And(0 <= k, k < n),
                                sat(v, k) == sel(e, k)),
                  [sat(v, k)]))
    return v


def run_element(I, f, jt, args, kw):
    ctx = I.ctx
    if len(args) != 1 or kw:
        I.raise_('TypeError')
    lst = args[0]
    if isinstance(lst, Ref):
        lst = M.deref(I, lst)
    if not isinstance(lst, Ref) or not (
            lst.ct is None or lst.ct.name == LIST.name):
        lst = M.to_list(I, lst)
    out = f(jt, value_of(ctx, lst))
    a = ctx.fresh(z3.ArraySort(I_, R_), 'words')
    ctx.assume(fa(k, z3.Implies(z3.And(0 <= k, k < slen(out)),
                                sel(a, k) == sat(out, k)), [sel(a, k)]))
    return M.new_list(I, TWord, slen(out), [a])


class ElemV(V):
    def __init__(self, t):
        self.t = t

    def getattr_v(self, I, name):
        if name == 'process':
            return Builtin('process', lambda I, a, kw: run_element(
                I, proc, self.t, a, kw))
        if name == 'processGlob':
            if not I.ctx.branch(hasg(self.t)):
                return None
            return Builtin('processGlob', lambda I, a, kw: run_element(
                I, procg, self.t, a, kw))
        return None


class PipeV(V):
    def iter_v(self, I):
        it = IterV(npipe, lambda t: ElemV(t))
        return it


class St:
    def __init__(self, S, o):
        self.S = S
        self.w, self.i = S.attr(o, '_wids'), S.attr(o, '_words')
        self.c = S.attr(o, 'wordCount')
        for r, ct in ((self.w, WIDS), (self.i, WORDS)):
            if not isinstance(r, Ref) or r.ct is None or \
                    r.ct.name != ct.name:
                raise Unsupported('representation of the lexicon changed')
        if not (isinstance(self.c, Ref) and self.c.ct is LENGTH):
            raise Unsupported('representation of the lexicon changed')
        self.WD, self.WV = S.dom(self.w), S.val(self.w)
        self.ID, self.IV = S.dom(self.i), S.val(self.i)
        self.n = S.length(self.c)


def inv(S, o):
    t = St(S, o)
    return [
        Clause('L1 every word has an id of its own', fa(w, z3.Implies(
            sel(t.WD, w), z3.And(
                sel(t.ID, sel(t.WV, w)),
                sel(t.IV, sel(t.WV, w)) == w)), [sel(t.WV, w)])),
        Clause('L1b known words have known ids', fa(w, z3.Implies(
            sel(t.WD, w), z3.And(
                sel(t.ID, sel(t.WV, w)),
                sel(t.IV, sel(t.WV, w)) == w)), [sel(t.WD, w)])),
        Clause('L2 every id has a word of its own', fa(i, z3.Implies(
            sel(t.ID, i), z3.And(
                sel(t.WD, sel(t.IV, i)),
                sel(t.WV, sel(t.IV, i)) == i)), [sel(t.IV, i)])),
        Clause('L3 ids are 1 to the number of words', fa(
            i, sel(t.ID, i) == z3.And(1 <= i, i <= t.n), [sel(t.ID, i)])),
        Clause('L4 the count is the number of words', z3.And(
            t.n >= 0, t.n == M.card(S.ctx, t.WD))),
    ] + lib.stored(S, [t.w, t.i])


class LSpec(Spec):
    props = ('C11',)

    def self_obj(self, V):
        seq_axioms(V.ctx)
        o = V.obj(MOD, 'Lexicon', {'_wids': WIDS, '_words': WORDS,
                                   'wordCount': LENGTH})
        V.ctx.state.objs[o.oid]['_pipeline'] = PipeV()
        return o

    def entry(self, V):
        return [self.self_obj(V)]

    def requires(self, S, a):
        return inv(S, a[0])

    def same(self, S0, S, a):
        s0, s = St(S0, a[0]), St(S, a[0])
        return [Clause('the numbering is unchanged', z3.And(
            s.WD == s0.WD, s.WV == s0.WV, s.ID == s0.ID, s.IV == s0.IV,
            s.n == s0.n))]


class TextSpec(LSpec):
    """A text goes through the pipeline."""
    source = 'str'
    glob = False

    def entry(self, V):
        o = self.self_obj(V)
        if self.source == 'str':
            return [o, V.word('text')]
        if self.source == 'none':
            return [o, NONE]
        return [o, V.ref(LIST, 'text')]

    def start(self, S0, a):
        """The sequence value that goes into the pipeline."""
        ctx = S0.ctx
        v = z3.Int('lex!start')
        if self.source == 'list':
            M.add_fact(ctx, slen(v) == S0.n(a[1]))
            M.add_fact(ctx, fa(k, z3.Implies(
                z3.And(0 <= k, k < slen(v)),
                sat(v, k) == sel(S0.e(a[1]), k)), [sat(v, k)]))
        else:
            t = a[1] if self.source == 'str' else Const('')
            M.add_fact(ctx, z3.And(
                slen(v) == 1,
                sat(v, z3.IntVal(0)) == ctx.coerce(t, TWord)))
        return v

    def pipe(self, S0, a):
        """P(t): the sequence after t elements of the pipeline."""
        ctx = S0.ctx
        P = M.uf('lex!pipe' + ('g' if self.glob else ''), I_, I_)
        M.add_fact(ctx, P(z3.IntVal(0)) == self.start(S0, a))
        return P

    def step(self, ctx, P, t):
        t = z3.simplify(t)
        f = z3.If(hasg(t), procg(t, P(t)), proc(t, P(t))) if self.glob \
            else proc(t, P(t))
        M.add_fact(ctx, z3.Implies(
            t >= 0, P(z3.simplify(t + 1)) == f))

    def requires(self, S, a):
        ctx = S.ctx
        self.S0 = View(ctx, S.state.copy())
        P = self.pipe(self.S0, a)
        self.end = P(npipe)
        # where a word occurs first
        self.first = M.uf('lex!first', R_, I_)
        x = self.at
        ctx.assume(fa(k, z3.Implies(
            z3.And(0 <= k, k < slen(self.end)), z3.And(
                0 <= self.first(x(k)), self.first(x(k)) <= k,
                x(self.first(x(k))) == x(k))), [x(k)]))
        return inv(S, a[0])

    def at(self, t):
        return sat(self.end, t)

    def is_pipe(self, L):
        it = L.it
        return it is not None and z3.simplify(it.n).eq(npipe)

    def loop_invariants(self, L):
        ctx = L.ctx
        S = View(ctx, L.s)
        out = []
        if self.is_pipe(L):
            P = self.pipe(self.S0, ctx.entry_args)
            self.step(ctx, P, L.i)
            if not z3.is_int_value(L.i):
                self.step(ctx, P, L.i - 1)
            for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                                v.ct is not None and
                                v.ct.name == LIST.name):
                n, e = S.n(v), S.e(v)
                out += [
                    (f'{nm} has as many words as it should',
                     n == slen(P(L.i))),
                    (f'{nm} has the words it should', fa(k, z3.Implies(
                        z3.And(0 <= k, k < slen(P(L.i))),
                        sel(e, k) == sat(P(L.i), k)),
                        [sel(e, k)])),
                    (f'{nm} has the words it should (2)', fa(k, z3.Implies(
                        z3.And(0 <= k, k < slen(P(L.i))),
                        sel(e, k) == sat(P(L.i), k)),
                        [sat(P(L.i), k)])),
                ]
            return out
        if L.it is not None:
            out += self.word_loop(L)
        return out

    def word_loop(self, L):
        return []


class Source(TextSpec):
    qual = Q + 'sourceToWordIds'
    props = ('C11', 'C24')
    params = [('self', REQ), ('text', REQ)]

    def words_loop_state(self, S, S0, a, n):
        s0, s = St(S0, a[0]), St(S, a[0])
        x = self.at
        return [(c.name, c.f) for c in inv(S, a[0])] + [
            ('old words keep their ids', fa(w, z3.Implies(
                sel(s0.WD, w), z3.And(
                    sel(s.WD, w), sel(s.WV, w) == sel(s0.WV, w))),
                [sel(s.WD, w)])),
            ('old words are kept', fa(w, z3.Implies(
                sel(s0.WD, w), z3.And(
                    sel(s.WD, w), sel(s.WV, w) == sel(s0.WV, w))),
                [sel(s0.WD, w)])),
            ('only words of the text are new', fa(w, z3.Implies(
                z3.And(sel(s.WD, w), z3.Not(sel(s0.WD, w))), z3.And(
                    0 <= self.first(w), self.first(w) < n,
                    x(self.first(w)) == w)), [sel(s.WD, w)])),
        ]

    def ids(self, S, a, v, n):
        s = St(S, a[0])
        x = self.at
        e = S.e(v)
        return [
            ('has an id for every word', S.n(v) == n),
            ('has the ids of the words', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), z3.And(
                    sel(s.WD, x(k)), sel(e, k) == sel(s.WV, x(k)))),
                [sel(e, k)])),
        ]

    def word_loop(self, L):
        ctx = L.ctx
        a = ctx.entry_args
        S = View(ctx, L.s)
        out = self.words_loop_state(S, self.S0, a, L.i)
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                            isinstance(v.ct, ListCT) and
                            v.ct.elem is TInt):
            out += [(f'{nm} {c}', f) for c, f in self.ids(S, a, v, L.i)]
        return out

    def ensures(self, S0, S, a, res):
        n = slen(self.end)
        if not (isinstance(res, Ref) and (
                res.ct is None or res.ct.name == ListCT(TInt).name)):
            return [Clause('a list of ids is returned', False)]
        out = self.words_loop_state(S, S0, a, n)
        if res.ct is None:
            out += [('has an id for every word', n == 0)]
        else:
            out += self.ids(S, a, res, n)
        s = St(S, a[0])
        out += [('ids are positive', fa(w, z3.Implies(
            sel(s.WD, w), sel(s.WV, w) >= 1)))]
        return [Clause(nm, f) for nm, f in out]


class SourceList(Source):
    source = 'list'


class SourceNone(Source):
    source = 'none'


class Term(Source):
    qual = Q + 'termToWordIds'

    def ids(self, S, a, v, n):
        s = St(S, a[0])
        x = self.at
        e = S.e(v)
        return [
            ('has an id for every word', S.n(v) == n),
            ('has the ids of the words', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), sel(e, k) == z3.If(
                    sel(s.WD, x(k)), sel(s.WV, x(k)), 0)),
                [sel(e, k)])),
        ]

    def words_loop_state(self, S, S0, a, n):
        return []

    def ensures(self, S0, S, a, res):
        return [c for c in Source.ensures(self, S0, S, a, res)] + \
            self.same(S0, S, a)


class TermList(Term):
    source = 'list'


class Parse(TextSpec):
    qual = Q + 'parseTerms'
    props = ('C11', 'C24')
    glob = True

    def ensures(self, S0, S, a, res):
        n = slen(self.end)
        if not (isinstance(res, Ref) and (
                res.ct is None or res.ct.name == LIST.name)):
            return [Clause('a list of words is returned', False)]
        if res.ct is None:
            return [Clause('the words of the text', n == 0)]
        return self.same(S0, S, a) + [
            Clause('all words of the text', S.n(res) == n),
            Clause('the words of the text', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), sel(S.e(res), k) == self.at(k))))]


class ParseList(Parse):
    source = 'list'


class GetWord(LSpec):
    qual = Q + 'get_word'

    def entry(self, V):
        return [self.self_obj(V), V.int('wid')]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return self.same(S0, S, a) + [Clause(
            'the word with this id', z3.And(
                sel(s.WD, res.t), sel(s.WV, res.t) == a[1].t))]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'KeyError':
            return None
        s = St(S0, a[0])
        return [Clause('only for unknown ids', z3.Not(sel(
            s.ID, a[1].t)))]


class GetWid(LSpec):
    qual = Q + 'get_wid'

    def entry(self, V):
        return [self.self_obj(V), V.word('word')]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return self.same(S0, S, a) + [Clause(
            'the id of the word, 0 if there is none',
            S.ctx.coerce(res, TInt) == z3.If(
                sel(s.WD, a[1].t), sel(s.WV, a[1].t), 0))]


class Words(LSpec):
    qual = Q + 'words'

    def members(self, s):
        return s.WD

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        if not (isinstance(res, IterV) and res.mem is not None):
            raise Unsupported('not a view of the keys')
        x = z3.Const('x', self.members(s).sort().domain())
        return self.same(S0, S, a) + [Clause(
            'exactly the known ones', fa(x, res.mem(x) == sel(
                self.members(s), x)))]


class Wids(Words):
    qual = Q + 'wids'

    def members(self, s):
        return s.ID


class Init(LSpec):
    qual = Q + '__init__'

    def entry(self, V):
        self.elems = [ElemV(z3.IntVal(0)), ElemV(z3.IntVal(1))]
        return [V.obj(MOD, 'Lexicon', {})] + self.elems

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        p = S.attr(a[0], '_pipeline')
        same = isinstance(p, Tup) and len(p.items) == 2 and all(
            x is y for x, y in zip(p.items, self.elems))
        return inv(S, a[0]) + [
            Clause('no word is known', s.WD == z3.K(R_, z3.BoolVal(False))),
            Clause('the pipeline is the one given', bool(same))]


class Lower(Spec):
    qual = MOD + ':CaseNormalizer.process'
    props = ('C24',)

    def entry(self, V):
        return [V.obj(MOD, 'CaseNormalizer', {}), V.ref(LIST, 'words')]

    def loop_invariants(self, L):
        S = View(L.ctx, L.s)
        a = L.ctx.entry_args
        S0 = View(L.ctx, L.s0)
        out = []
        if L.it is None:
            return out
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                            v.ct is not None and v.ct.name == LIST.name):
            out += [(f'{nm} has the words so far', S.n(v) == L.i),
                    (f'{nm} has them in lower case', fa(k, z3.Implies(
                        z3.And(0 <= k, k < L.i), sel(S.e(v), k) ==
                        M.LOWER(sel(S0.e(a[1]), k))), [sel(S.e(v), k)]))]
        return out

    def ensures(self, S0, S, a, res):
        out = [Clause('the list given is unchanged', z3.And(
            S.n(a[1]) == S0.n(a[1]), S.e(a[1]) == S0.e(a[1])))]
        if not isinstance(res, Ref):
            raise Unsupported('no list is returned')
        if res.ct is None:
            return out + [Clause('all words', S0.n(a[1]) == 0)]
        return out + [
            Clause('all words', S.n(res) == S0.n(a[1])),
            Clause('every word in lower case', fa(k, z3.Implies(
                z3.And(0 <= k, k < S.n(res)), sel(S.e(res), k) ==
                M.LOWER(sel(S0.e(a[1]), k)))))]


stop = M.uf('lex!stop', R_, B_)


class StopV(V):
    """The words of a dict."""
    def contains_v(self, I, x):
        return stop(I.ctx.coerce(x, TWord))

    def getattr_v(self, I, name):
        if name in ('has_key', '__contains__'):
            return Builtin(name, lambda I, a, kw: M.mkbool(
                self.contains_v(I, a[0])))
        return None


KEPT = M.ListMeasure('kept', lambda ct: ct.name == LIST.name,
                     lambda ctx, at: z3.If(stop(at[0]), 0, 1), I_, True)


class Stop(Lower):
    qual = MOD + ':StopWordRemover.process'
    cls = 'StopWordRemover'
    opts = {'list_measures': [KEPT]}

    def entry(self, V):
        o = V.obj(MOD, self.cls, {})
        V.ctx.state.objs[o.oid]['dict'] = StopV()
        return [o, V.ref(LIST, 'words')]

    def cnt(self, S0, a, t):
        return KEPT.term(S0.ctx, [S0.e(a[1])], t)

    def picked(self, S, S0, a, v, n):
        ctx = S.ctx
        e = S0.e(a[1])
        C = KEPT.fn([e])
        KEPT.step(ctx, [e], n)
        M.add_fact(ctx, fa([j, k], z3.Implies(
            z3.And(0 <= j, j < k), z3.And(
                C(e, j) <= C(e, k), z3.Implies(
                    z3.Not(stop(sel(e, j))), C(e, j) < C(e, k)))),
            [z3.MultiPattern(C(e, j), C(e, k))]))
        return [
            ('as many words as are left', S.n(v) == self.cnt(S0, a, n)),
            ('the words left, in their order', fa(k, z3.Implies(
                z3.And(0 <= k, k < n, z3.Not(stop(sel(e, k)))), z3.And(
                    0 <= C(e, k), C(e, k) < S.n(v),
                    sel(S.e(v), C(e, k)) == sel(e, k))), [C(e, k)])),
        ]

    def loop_invariants(self, L):
        S = View(L.ctx, L.s)
        a = L.ctx.entry_args
        S0 = View(L.ctx, L.s0)
        out = []
        if L.it is None:
            return out
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                            v.ct is not None and v.ct.name == LIST.name):
            out += [(f'{nm} {c}', f) for c, f in self.picked(
                S, S0, a, v, L.i)]
        return out

    def ensures(self, S0, S, a, res):
        out = [Clause('the list given is unchanged', z3.And(
            S.n(a[1]) == S0.n(a[1]), S.e(a[1]) == S0.e(a[1])))]
        if not isinstance(res, Ref):
            raise Unsupported('no list is returned')
        n = S0.n(a[1])
        if res.ct is None:
            return out + [Clause('no word is left',
                                 self.cnt(S0, a, n) == 0)]
        return out + [Clause(c, f) for c, f in self.picked(
            S, S0, a, res, n)]


class Stop1(Stop):
    cls = 'StopWordAndSingleCharRemover'


SPECS = [Source(), SourceList(), SourceNone(), Term(), TermList(), Parse(),
         ParseList(), GetWord(), GetWid(), Words(), Wids(), Init(), Lower(), Stop(), Stop1()]
for _s in SPECS:
    _s.inline = True
