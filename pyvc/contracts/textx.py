"""Contracts of zope.index.text.baseindex, okapiindex, cosineindex."""
import z3
from core import *      # noqa: F403
import models as M
import lib
from contract import Spec, Clause, View, bt, REQ
from textlib import *   # noqa: F403
import textlib as T
from lib import marked as mark

BASE = 'zope.index.text.baseindex'
MODS = {'OkapiIndex': 'zope.index.text.okapiindex',
        'CosineIndex': 'zope.index.text.cosineindex'}
MAP = MapCT(TInt, TReal)
INFO = MapCT(TInt, TRefT(MAP))
WORDS = MapCT(TInt, TCode)
ATTRS = {}
for _c in ('BaseIndex', 'OkapiIndex', 'CosineIndex'):
    ATTRS.update({(_c, '_wordinfo'): INFO, (_c, '_docweight'): MAP,
                  (_c, '_docwords'): WORDS})

d, w, w2, k, r = z3.Ints('d w w2 k r')
markw, markd = mark('tw', I_), mark('td', I_)
touch = mark('touch', I_)       # words whose map is written
NONE_SET = z3.K(I_, z3.BoolVal(False))
DMK = [KIND['dict'], KIND['BTree']]

# what the cosine index stores for a word, and the norm of a document
cosw = M.uf('cos!w', CodeSort, I_, R_)
norm = M.uf('cos!norm', CodeSort, R_)


class Model:
    """What a kind of index stores."""

    def __init__(self, cls):
        self.cls = cls
        self.okapi = cls == 'OkapiIndex'

    def freq(self, t, wt):
        return z3.ToReal(cnt(t, wt)) if self.okapi else cosw(t, wt)

    def weight(self, t):
        return z3.ToReal(clen(t)) if self.okapi else norm(t)


class St:
    def __init__(self, S, o):
        self.S = S
        self.wi = S.attr(o, '_wordinfo')
        self.dw = S.attr(o, '_docweight')
        self.dt = S.attr(o, '_docwords')
        for x, ct in ((self.wi, INFO), (self.dw, MAP), (self.dt, WORDS)):
            if not isinstance(x, Ref) or x.ct is None or \
                    x.ct.name != ct.name:
                raise Unsupported('representation of the index changed')
        self.cw, self.cd = S.attr(o, 'wordCount'), S.attr(
            o, 'documentCount')
        for x in (self.cw, self.cd):
            if not (isinstance(x, Ref) and x.ct is LENGTH):
                raise Unsupported('representation of the index changed')
        self.WD, self.WV = S.dom(self.wi), S.val(self.wi)
        self.LD, self.LV = S.dom(self.dw), S.val(self.dw)
        self.TD, self.TV = S.dom(self.dt), S.val(self.dt)
        self.MD, mv = S.maps(MAP)
        self.MV = mv[0]
        self.K = S.h('kind', I_)
        self.nw, self.nd = S.length(self.cw), S.length(self.cd)
        self.alloc = S.state.alloc
        self.total = None
        if S.has(o, '_totaldoclen'):
            self.tl = S.attr(o, '_totaldoclen')
            if not (isinstance(self.tl, Ref) and self.tl.ct is LENGTH):
                raise Unsupported('representation of the index changed')
            self.total = S.length(self.tl)

    def inm(self, wt, dt):
        """the document is in the map of the word"""
        return sel(sel(self.MD, sel(self.WV, wt)), dt)

    def P(self, wt, dt):
        return z3.And(sel(self.WD, wt), self.inm(wt, dt))

    def V(self, wt, dt):
        return sel(sel(self.MV, sel(self.WV, wt)), dt)

    def code(self, dt):
        return sel(self.TV, dt)


def separate(s):
    """The maps of the words are objects of their own."""
    m = sel(s.WV, w)
    return [
        ('maps are existing objects', fa(w, z3.Implies(sel(s.WD, w), z3.And(
            m >= 1, m < s.alloc, m != s.dw.t,
            z3.Or(*[sel(s.K, m) == i for i in DMK]))), [m])),
        ('maps are separate objects', fa([w, w2], z3.Implies(
            z3.And(touch(w2), sel(s.WD, w), sel(s.WD, w2), m == sel(
                s.WV, w2)), w == w2), [MultiPattern(m, touch(w2))])),
    ]


def nonempty(s):
    return fa(w, z3.Implies(z3.And(markw(w), sel(s.WD, w)), sel(
        s.MD, sel(s.WV, w)) != NONE_SET), [markw(w)])


def split(clauses, dd):
    """Goals about every document: the one at hand, and the others."""
    out = []
    for x in clauses:
        q = x.f
        if x.name[:3] in ('T1 ', 'T2 ', 'T3 ') and z3.is_quantifier(q):
            vs = [z3.Const(q.var_name(i), q.var_sort(i))
                  for i in range(q.num_vars())]
            b = z3.substitute_vars(q.body(), *reversed(vs))
            out += [Clause(x.name + ': this document', z3.ForAll(
                        vs[:1], z3.substitute(b, (vs[1], dd))), x.props),
                    Clause(x.name + ': the others', z3.ForAll(
                        vs, z3.Implies(vs[1] != dd, b)), x.props)]
        else:
            out.append(x)
    return out


def inv(S, o, mod, total=None):
    s = St(S, o)
    out = [
        Clause('T1 a word is recorded only for documents that have it', fa(
            [w, d], z3.Implies(s.P(w, d), z3.And(
                sel(s.TD, d), cnt(s.code(d), w) >= 1)), [s.inm(w, d)])),
        Clause('T2 every word of every document is recorded', fa(
            [w, d], z3.Implies(z3.And(
                sel(s.TD, d), cnt(s.code(d), w) >= 1), s.P(w, d)),
            [cnt(s.code(d), w)])),
        Clause('T3 with its weight in the current text', fa(
            [w, d], z3.Implies(s.P(w, d), s.V(w, d) == mod.freq(
                s.code(d), w)), [s.V(w, d)])),
        Clause('T4 no word without documents', nonempty(s)),
        Clause('T6 document weights are those of the current texts', z3.And(
            s.LD == s.TD, fa(d, z3.Implies(
                sel(s.TD, d), sel(s.LV, d) == mod.weight(s.code(d))),
                [sel(s.LV, d)]))),
        Clause('T0 the counters are separate objects', z3.And(
            s.cw.t != s.cd.t, *([s.tl.t != s.cw.t, s.tl.t != s.cd.t]
                                if mod.okapi and s.total is not None
                                else []))),
        Clause('T7 the document counter is exact',
               s.nd == M.card(S.ctx, s.TD)),
        Clause('T8 the word counter is exact',
               s.nw == M.card(S.ctx, s.WD), ('C14',)),
        Clause('T9 word ids are valid', fa(d, z3.Implies(z3.And(
            markd(d), sel(s.TD, d)), fa(k, z3.Implies(
                z3.And(0 <= k, k < clen(s.code(d))), z3.And(
                    1 <= cat(s.code(d), k), cat(s.code(d), k) < MAXWID)),
                [cat(s.code(d), k)])), [markd(d)])),
    ]
    out += [Clause('T5 ' + n, f) for n, f in separate(s)]
    out += stored(S, s)
    if mod.okapi and total is not False:
        out.append(Clause('T10 the total document length is exact',
                          z3.ToReal(s.total) == M.msum(S.ctx, s.LD, s.LV)))
    return out


def stored(S, s):
    return lib.stored(S, [s.wi, s.dw, s.dt], [(w, s.WD, s.WV, False)])


SKIP = (r'^heap (Map|Length|f64|List)|by one|Length.v|'
        r'^Map<Int,(Ref|Code).*unchanged|nonneg')


def on_key(I, ref, t):
    if ref.ct is not None and ref.ct.name == INFO.name:
        I.ctx.assume(touch(t))


def integers(ctx):
    """Numbers of words."""
    a = ctx.entry_args
    try:
        s = St(View(ctx, ctx.state), a[0])
    except (Unsupported, KeyError):
        return
    if len(a) > 1 and isinstance(a[1], Sym) and a[1].ty is TInt:
        yield clen(s.code(a[1].t))
    if len(a) > 2 and isinstance(a[2], Sym) and a[2].ty is TWord:
        yield clen(src(a[2].t))


class TSpec(Spec):
    cls = 'OkapiIndex'
    props = ('C13', 'C14', 'C15', 'C18', 'C19')
    opts = {'measures': ('msum',), 'integers': integers, 'on_key': on_key,
            'skip': SKIP}
    inline = True

    @property
    def mod(self):
        return Model(self.cls)

    def self_obj(self, V, state=True):
        axioms(V.ctx)
        at = {}
        if state:
            at = {'_wordinfo': INFO, '_docweight': MAP, '_docwords': WORDS,
                  'wordCount': LENGTH, 'documentCount': LENGTH,
                  'family': M.FamV(z3.Bool('fam64'))}
            if self.mod.okapi:
                at['_totaldoclen'] = LENGTH
            at['_lexicon'] = LexV()
        return V.obj(MODS[self.cls], self.cls, at)

    def requires(self, S, a):
        return inv(S, a[0], self.mod)

    def docid(self, V):
        v = V.int('docid')
        V.ctx.assume(markd(v.t))
        return v

    def loop_invariants(self, L):
        ctx = L.ctx
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        a = ctx.entry_args
        out = []
        try:
            st, st0 = St(S, a[0]), St(S0, a[0])
            se = St(ctx.entry_view, a[0])
        except (Unsupported, KeyError, AttributeError):
            return out
        out += separate(st) + [('no word without documents', nonempty(st))]
        out += [(c.name, c.f) for c in stored(S, st)]
        dd = self.doc_of(a)
        out.append(('the document counter is unchanged', st.nd == st0.nd))
        if st.total is not None:
            out.append(('the total length is unchanged',
                        st.total == st0.total))
        if ctx.opts.get('prop') in (None, 'C14'):
            out.append(('the word counter is exact',
                        st.nw == M.card(ctx, st.WD)))
            for nm, v in L.vars(lambda v: M.scalar_type(v) is TInt):
                out.append((f'the word counter and {nm} are exact',
                            st.nw + ctx.coerce(v, TInt) ==
                            M.card(ctx, st.WD)))
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and v.ct is not None
                            and v.ct.name == MAP.name):
            v0 = L.env0(nm)
            if isinstance(v0, Ref) and v0.t.eq(v.t):
                out.append((f'no word has the map {nm}', fa(w, z3.Implies(
                    sel(st.WD, w), sel(st.WV, w) != v.t),
                    [sel(st.WV, w)])))
        if dd is None:
            return out
        out += [
            ('other documents have the same words', fa(
                [w, d], z3.Implies(d != dd, st.P(w, d) == se.P(w, d)),
                [st.inm(w, d)])),
            ('other documents keep their words', fa(
                [w, d], z3.Implies(z3.And(d != dd, se.P(w, d)),
                                   st.P(w, d)), [se.inm(w, d)])),
            ('other documents keep their weights', fa(
                [w, d], z3.Implies(z3.And(d != dd, st.P(w, d)),
                                   st.V(w, d) == se.V(w, d)),
                [st.V(w, d)])),
        ]
        it = L.it
        if it is None or it.mem is None:
            return out
        done = L.done
        out += [
            ('visited words lost the document', fa(
                w, st.P(w, dd) == z3.And(st0.P(w, dd), z3.Not(done(w))),
                [st.inm(w, dd)])),
            ('unvisited words kept the document', fa(
                w, z3.Implies(z3.And(st0.P(w, dd), z3.Not(done(w))),
                              st.P(w, dd)), [st0.inm(w, dd)])),
            ('unvisited words kept their weight', fa(
                w, z3.Implies(z3.And(st.P(w, dd), z3.Not(done(w))),
                              st.V(w, dd) == st0.V(w, dd)),
                [st.V(w, dd)])),
            ('visited words gained the document', fa(
                w, st.P(w, dd) == z3.Or(st0.P(w, dd), done(w)),
                [st.inm(w, dd)])),
            ('visited words have the document', fa(
                w, z3.Implies(done(w), st.P(w, dd)), [it.idx(w)])),
            ('words with the document kept it', fa(
                w, z3.Implies(st0.P(w, dd), st.P(w, dd)),
                [st0.inm(w, dd)])),
        ]
        new = self.new(ctx, S0, w)
        if new is not None:
            out.append(('visited words have the new weight', fa(
                w, z3.Implies(done(w), st.V(w, dd) == new),
                [st.V(w, dd)])))
        return out

    def new(self, ctx, S0, x):
        a = ctx.entry_args
        if len(a) > 2 and isinstance(a[2], Sym) and a[2].ty is TWord:
            return self.mod.freq(src(a[2].t), x)
        return None

    def doc_of(self, a):
        return a[1].t if len(a) > 1 and isinstance(a[1], Sym) and \
            a[1].ty is TInt else None


def existing(s, x):
    m = sel(s.WV, x)
    return z3.Implies(sel(s.WD, x), z3.And(
        m >= 1, m < s.alloc, m != s.dw.t,
        z3.Or(*[sel(s.K, m) == i for i in DMK])))


class Helper(TSpec):
    """Private methods, by contracts of our own; when one of these fails
    the method is executed in place instead."""
    inline = False
    soft = True

    def self_obj(self, V, state=True):
        axioms(V.ctx)
        return V.obj(BASE, 'BaseIndex', {
            '_wordinfo': INFO, '_docweight': MAP, '_docwords': WORDS,
            'wordCount': LENGTH, 'documentCount': LENGTH,
            'family': M.FamV(z3.Bool('fam64'))})

    def modifies(self, S, a):
        return [('heap', MAP.d, z3.ArraySort(I_, B_)),
                ('heap', MAP.vs[0], z3.ArraySort(I_, R_)),
                ('heap', INFO.d, z3.ArraySort(I_, B_)),
                ('heap', INFO.vs[0], z3.ArraySort(I_, I_)),
                ('heap', 'Length.v', I_),
                ('heap', 'kind', I_), ('heap', 'f64', B_), ('alloc',)]

    def applicable(self, I, args, kwargs):
        if kwargs or len(args) != len(self.params):
            return False
        try:
            St(View(I.ctx, I.ctx.state), args[0])
        except (Unsupported, KeyError, AttributeError):
            return False
        return all(isinstance(x, Sym) and x.ty in (TInt, TReal)
                   for x in args[1:])

    def result(self, V, a):
        if isinstance(a[1], Sym):
            V.ctx.assume(touch(a[1].t))
        return NONE

    def lengths(self, S0, S, s0):
        return fa(r, z3.Implies(r != s0.cw.t, sel(
            S.h('Length.v', I_), r) == sel(S0.h('Length.v', I_), r)),
            [sel(S.h('Length.v', I_), r)])


class Add(Helper):
    qual = BASE + ':BaseIndex._add_wordinfo'
    params = [('self', REQ), ('wid', REQ), ('f', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self.self_obj(V), V.int('wid'), V.real('f'),
                self.docid(V)]

    def requires(self, S, a):
        s = St(S, a[0])
        return [Clause('the map exists', existing(s, a[1].t))] + stored(S, s)

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        wt, dt = a[1].t, a[3].t
        f = S.ctx.coerce(a[2], TReal)
        m0, m = sel(s0.WV, wt), sel(s.WV, wt)
        old = z3.If(sel(s0.WD, wt), sel(s0.MD, m0), NONE_SET)
        return [
            Clause('the word is known', s.WD == z3.Store(
                s0.WD, wt, z3.BoolVal(True))),
            Clause('the others keep their maps', fa(w, z3.Implies(
                w != wt, sel(s.WV, w) == sel(s0.WV, w)),
                [sel(s.WV, w)])),
            Clause('its map is its own', z3.And(m >= 1, m < s.alloc, z3.Or(
                z3.And(sel(s0.WD, wt), m == m0), m >= s0.alloc))),
            Clause('of the right kind', z3.Or(*[
                sel(s.K, m) == i for i in DMK])),
            Clause('the document is added', sel(s.MD, m) == z3.Store(
                old, dt, z3.BoolVal(True))),
            Clause('with the weight', sel(sel(s.MV, m), dt) == f),
            Clause('the other documents keep theirs', fa(
                d, z3.Implies(z3.And(d != dt, sel(old, d)), sel(sel(
                    s.MV, m), d) == sel(sel(s0.MV, m0), d)),
                [sel(sel(s.MV, m), d)])),
            Clause('other maps are unchanged', fa(
                r, z3.Implies(z3.And(r < s0.alloc, r != m), z3.And(
                    sel(s.MD, r) == sel(s0.MD, r),
                    sel(s.MV, r) == sel(s0.MV, r))),
                [sel(s.MD, r), sel(s.MV, r)])),
            Clause('kinds are unchanged', fa(
                r, z3.Implies(r < s0.alloc, sel(s.K, r) == sel(s0.K, r)),
                [sel(s.K, r)])),
            Clause('new words are counted', s.nw - M.card(S.ctx, s.WD) ==
                   s0.nw - M.card(S.ctx, s0.WD), ('C14',)),
            Clause('other counters are unchanged',
                   self.lengths(S0, S, s0)),
        ] + stored(S, s)


class Del(Helper):
    qual = BASE + ':BaseIndex._del_wordinfo'
    params = [('self', REQ), ('wid', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self.self_obj(V), V.int('wid'), self.docid(V)]

    def requires(self, S, a):
        s = St(S, a[0])
        return [Clause('the map exists', existing(s, a[1].t)),
                Clause('the document has the word',
                       s.P(a[1].t, a[2].t))] + stored(S, s) + (
                           [Clause(n, f) for n, f in separate(s)[1:]]
                           if lib.c23(S) else [])

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        wt, dt = a[1].t, a[2].t
        m = sel(s0.WV, wt)
        new = z3.Store(sel(s0.MD, m), dt, z3.BoolVal(False))
        return [
            Clause('the word stays while it has documents', s.WD == z3.If(
                new == NONE_SET, z3.Store(s0.WD, wt, z3.BoolVal(False)),
                s0.WD)),
            Clause('words keep their maps', fa(w, z3.Implies(
                sel(s.WD, w), sel(s.WV, w) == sel(s0.WV, w)),
                [sel(s.WV, w)])),
            Clause('the document is removed', sel(s.MD, m) == new),
            Clause('the other documents keep theirs', fa(
                d, z3.Implies(d != dt, sel(sel(s.MV, m), d) == sel(sel(
                    s0.MV, m), d)), [sel(sel(s.MV, m), d)])),
            Clause('other maps are unchanged', fa(
                r, z3.Implies(z3.And(r < s0.alloc, r != m), z3.And(
                    sel(s.MD, r) == sel(s0.MD, r),
                    sel(s.MV, r) == sel(s0.MV, r))),
                [sel(s.MD, r), sel(s.MV, r)])),
            Clause('kinds are unchanged', fa(
                r, z3.Implies(r < s0.alloc, sel(s.K, r) == sel(s0.K, r)),
                [sel(s.K, r)])),
            Clause('lost words are counted', s.nw - M.card(S.ctx, s.WD) ==
                   s0.nw - M.card(S.ctx, s0.WD), ('C14',)),
            Clause('other counters are unchanged',
                   self.lengths(S0, S, s0)),
        ] + stored(S, s)


class Mass(Helper):
    qual = BASE + ':BaseIndex._mass_add_wordinfo'
    params = [('self', REQ), ('wid2weight', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self.self_obj(V), V.ref(MAP, 'wid2weight', KIND['dict']),
                self.docid(V)]

    def applicable(self, I, args, kwargs):
        if kwargs or len(args) != 3:
            return False
        try:
            St(View(I.ctx, I.ctx.state), args[0])
        except (Unsupported, KeyError, AttributeError):
            return False
        m = args[1]
        return isinstance(m, Ref) and not m.nullable and m.ct is not None \
            and m.ct.name == MAP.name and isinstance(args[2], Sym) and \
            args[2].ty is TInt

    def doc_of(self, a):
        return a[2].t

    def new(self, ctx, S0, x):
        return sel(S0.val(ctx.entry_args[1]), x)

    def requires(self, S, a):
        s = St(S, a[0])
        return [Clause(n, f) for n, f in separate(s)] + [
            Clause('no word without documents', nonempty(s)),
            Clause('the weights are a dict',
                   S.kind(a[1].t) == KIND['dict']),
            Clause('the weights are an object of their own', z3.And(
                a[1].t != s.dw.t, fa(w, z3.Implies(sel(
                    s.WD, w), sel(s.WV, w) != a[1].t), [sel(s.WV, w)]))),
            Clause('the word counter is exact',
                   s.nw == M.card(S.ctx, s.WD), ('C14',)),
        ] + stored(S, s)

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        dd = a[2].t
        D0, V0 = S0.dom(a[1]), S0.val(a[1])
        return [Clause(n, f) for n, f in separate(s)] + [
            Clause('no word without documents', nonempty(s)),
            Clause('other documents have the same words', fa(
                [w, d], z3.Implies(d != dd, s.P(w, d) == s0.P(w, d)),
                [s.inm(w, d)])),
            Clause('other documents keep their words', fa(
                [w, d], z3.Implies(z3.And(d != dd, s0.P(w, d)),
                                   s.P(w, d)), [s0.inm(w, d)])),
            Clause('other documents keep their weights', fa(
                [w, d], z3.Implies(z3.And(d != dd, s.P(w, d)),
                                   s.V(w, d) == s0.V(w, d)),
                [s.V(w, d)])),
            Clause('words gained the document', fa(
                w, s.P(w, dd) == z3.Or(s0.P(w, dd), sel(D0, w)),
                [s.inm(w, dd)])),
            Clause('words have the document', fa(
                w, z3.Implies(sel(D0, w), s.P(w, dd)), [sel(D0, w)])),
            Clause('words with the document kept it', fa(
                w, z3.Implies(s0.P(w, dd), s.P(w, dd)),
                [s0.inm(w, dd)])),
            Clause('the weights', fa(w, z3.Implies(
                sel(D0, w), s.V(w, dd) == sel(V0, w)), [s.V(w, dd)])),
            Clause('other weights', fa(w, z3.Implies(
                z3.And(z3.Not(sel(D0, w)), s0.P(w, dd)),
                s.V(w, dd) == s0.V(w, dd)), [s.V(w, dd)])),
            Clause('the weights given are unchanged', z3.And(
                S.dom(a[1]) == D0, S.val(a[1]) == V0)),
            Clause('document weights are unchanged', z3.And(
                s.LD == s0.LD, s.LV == s0.LV)),
            Clause('kinds are unchanged', fa(
                r, z3.Implies(r < s0.alloc, sel(s.K, r) == sel(s0.K, r)),
                [sel(s.K, r)])),
            Clause('the word counter is exact',
                   s.nw == M.card(S.ctx, s.WD), ('C14',)),
            Clause('other counters are unchanged',
                   self.lengths(S0, S, s0)),
        ] + stored(S, s)


class Freq(TSpec):
    """_get_frequencies, by its contract."""
    qual = MODS['OkapiIndex'] + ':OkapiIndex._get_frequencies'
    params = [('self', REQ), ('wids', REQ)]
    inline = False
    opts = {}

    def entry(self, V):
        o = self.self_obj(V, False)
        return [o, V.ref(WIDS, 'wids')]

    def requires(self, S, a):
        return []

    def applicable(self, I, args, kwargs):
        if not is_wids(args[1]):
            raise Unsupported('frequencies of no list')
        return True

    def result(self, V, a):
        ctx = V.ctx
        D, Vv = ctx.fresh(z3.ArraySort(I_, B_), 'fd'), ctx.fresh(
            z3.ArraySort(I_, R_), 'fv')
        m = ctx.alloc(MAP, {MAP.d: D, MAP.vs[0]: Vv}, KIND['dict'], None)
        return Tup([m, V.int('n') if self.mod.okapi else V.real('W')])

    def ensures(self, S0, S, a, res):
        t = seq_of(S.ctx, S0.state, a[1])
        if not (isinstance(res, Tup) and len(res.items) == 2):
            return [Clause('a pair is returned', False)]
        m, W = res.items
        if m.ct is None:
            return [Clause('no word', clen(t) == 0)]
        D, Vv = S.dom(m), S.val(m)
        return [
            Clause('a frequency for each word', fa(
                w, sel(D, w) == (cnt(t, w) >= 1), [sel(D, w)])),
            Clause('a frequency for each word (2)', fa(
                w, sel(D, w) == (cnt(t, w) >= 1), [cnt(t, w)])),
            Clause('the right one', fa(w, z3.Implies(
                sel(D, w), sel(Vv, w) == self.mod.freq(t, w)),
                [sel(Vv, w)])),
            Clause('the document weight',
                   S.ctx.coerce(W, TReal) == self.mod.weight(t)),
            Clause('a dict', S.kind(m.t) == KIND['dict']),
        ]


class OkapiFreq(Freq):
    def loop_invariants(self, L):
        ctx, it = L.ctx, L.it
        S = View(ctx, L.s)
        a = ctx.entry_args
        out = []
        if it is None:
            return out
        S0 = View(ctx, L.s0)
        e, n = S0.e(a[1]), S0.n(a[1])
        pc = M.uf('seq!pc', e.sort(), I_, I_, I_)
        t = seq_of(ctx, L.s0, a[1])
        M.add_fact(ctx, fa(w, pc(e, z3.IntVal(0), w) == 0,
                           [pc(e, z3.IntVal(0), w)]))
        for p in (L.i, L.i - 1):
            p = z3.simplify(p)
            q = z3.simplify(p + 1)
            M.add_fact(ctx, fa(w, z3.Implies(p >= 0, pc(e, q, w) == pc(
                e, p, w) + z3.If(sel(e, p) == w, 1, 0)), [pc(e, q, w)]))
            M.add_fact(ctx, fa(w, z3.Implies(p >= 0, pc(e, q, w) == pc(
                e, p, w) + z3.If(sel(e, p) == w, 1, 0)), [pc(e, p, w)]))
        M.add_fact(ctx, fa(w, pc(e, n, w) == cnt(t, w), [cnt(t, w)]))
        M.add_fact(ctx, fa(w, pc(e, n, w) == cnt(t, w), [pc(e, n, w)]))
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                            v.ct is not None and v.ct.name == MAP.name):
            D, Vv = S.dom(v), S.val(v)
            out += [
                (f'{nm} has the words visited', fa(
                    w, sel(D, w) == (pc(e, L.i, w) >= 1), [sel(D, w)])),
                (f'{nm} has the words visited (2)', fa(
                    w, sel(D, w) == (pc(e, L.i, w) >= 1),
                    [pc(e, L.i, w)])),
                (f'{nm} counts the words visited', fa(
                    w, z3.Implies(sel(D, w), sel(Vv, w) == z3.ToReal(
                        pc(e, L.i, w))), [sel(Vv, w)])),
                ('counts are not negative', fa(
                    w, pc(e, L.i, w) >= 0, [pc(e, L.i, w)])),
            ]
        return out


class CosineFreq(Freq):
    qual = MODS['CosineIndex'] + ':CosineIndex._get_frequencies'
    cls = 'CosineIndex'
    assumed = True


class Index(TSpec):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.index_doc'

    def entry(self, V):
        return [self.self_obj(V), self.docid(V), V.word('text')]

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        dd, t = a[1].t, src(a[2].t)
        return split(inv(S, a[0], self.mod), dd) + [
            Clause('the document is indexed', s.TD == z3.Store(
                s0.TD, dd, z3.BoolVal(True))),
            Clause('with the words of its text', s.code(dd) == t),
            Clause('the other documents keep their texts', fa(
                d, z3.Implies(d != dd, s.code(d) == s0.code(d)),
                [s.code(d)])),
            Clause('the number of words is returned',
                   S.ctx.coerce(res, TInt) == clen(t)),
        ]


class IndexC(Index):
    cls = 'CosineIndex'
    qual = MODS[cls] + ':CosineIndex.index_doc'


class Unindex(TSpec):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.unindex_doc'

    def entry(self, V):
        return [self.self_obj(V), self.docid(V)]

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        dd = a[1].t
        return split(inv(S, a[0], self.mod), dd) + [
            Clause('the document is gone', s.TD == z3.Store(
                s0.TD, dd, z3.BoolVal(False))),
            Clause('the other documents keep their texts', fa(
                d, z3.Implies(d != dd, s.code(d) == s0.code(d)),
                [s.code(d)])),
        ]


class UnindexC(Unindex):
    cls = 'CosineIndex'
    qual = MODS[cls] + ':CosineIndex.unindex_doc'


class Clear(TSpec):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.clear'

    def entry(self, V):
        return [self.self_obj(V)]

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        return inv(S, a[0], self.mod) + [
            Clause('no document is indexed', s.TD == NONE_SET)]


class ClearC(Clear):
    cls = 'CosineIndex'
    qual = MODS[cls] + ':CosineIndex.clear'


class Init(Clear):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.__init__'

    def entry(self, V):
        return [self.self_obj(V, False), LexV(), M.FamV(z3.Bool('fam64'))]


class InitC(Init):
    cls = 'CosineIndex'
    qual = MODS[cls] + ':CosineIndex.__init__'


class InitNone(Init):
    def entry(self, V):
        return [self.self_obj(V, False), LexV()]


class HasDoc(TSpec):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.has_doc'

    def entry(self, V):
        return [self.self_obj(V), self.docid(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return [Clause('exactly the indexed documents', M.bt(M.truth_term(
            S.ctx.interp, res)) == sel(s.TD, a[1].t))]


class GetWords(TSpec):
    qual = MODS['OkapiIndex'] + ':OkapiIndex.get_words'

    def entry(self, V):
        return [self.self_obj(V), self.docid(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        t = s.code(a[1].t)
        if not is_wids(res):
            raise Unsupported('no list is returned')
        return [Clause('the words of the current text', z3.And(
            S.n(res) == clen(t), fa(k, z3.Implies(
                z3.And(0 <= k, k < clen(t)),
                sel(S.e(res), k) == cat(t, k)))))]

    def on_raise(self, S0, S, a, exc):
        s = St(S0, a[0])
        if exc.cls != 'KeyError':
            return None
        return [Clause('only for unknown documents', z3.Not(sel(
            s.TD, a[1].t)))]


SPECS = T.SPECS + [Add(), Del(), Mass(), OkapiFreq(), CosineFreq(), Index(), IndexC(), Unindex(),
                   UnindexC(), Clear(), ClearC(), Init(), InitC(),
                   InitNone(), HasDoc(), GetWords()]
