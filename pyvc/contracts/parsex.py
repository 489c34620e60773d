"""Contracts of zope.index.text.parsetree: executeQuery of every node, by
structural induction (the parts of a node satisfy the contract).

A part x (a number) has a type, and a result for the index: nothing at all
(only stop words) or a mapping, in which an arbitrary document dd has the
value V.  kids(node) is an arbitrary list of parts.
"""
import z3
from core import *      # noqa: F403
import models as M
import ratform as R
from contract import Spec, Clause, View, bt, REQ
import setopsx as SO
from setopsx import dd, TOTAL, PRESENT, GIVEN, MAP, sel, I_, R_, B_, is_entry

MOD = 'zope.index.text.parsetree'
TYPES = ('NOT', 'AND', 'OR', 'ATOM', 'PHRASE', 'GLOB')
k = z3.Int('k!px')
typ = M.uf('node!type', I_, I_)
inner = M.uf('node!inner', I_, I_)          # of a NOT
none = M.uf('node!none', I_, B_)            # executing it gives None
res = M.uf('node!result', I_, I_)           # or this mapping
KIDS = z3.Const('node!kids', z3.ArraySort(I_, I_))
NK = z3.Int('node!nkids')


class TypeV(V):
    """The type of a node."""
    def __init__(self, t):
        self.t = t

    def eq_v(self, I, o):
        if isinstance(o, TypeV):
            return self.t == o.t
        if isinstance(o, Const):
            if o.value in TYPES:
                return self.t == TYPES.index(o.value)
            return False
        return None


class IndexV(V):
    """The index the query is for."""

    def getattr_v(self, I, name):
        if name == 'family':
            return M.FamV(z3.Bool('fam64'))
        if name in FIND:
            def call(I, args, kw):
                if len(args) != 1 or kw:
                    I.raise_('TypeError')
                a = args[0]
                if not (isinstance(a, Sym) and a.ty is TWord):
                    raise Unsupported(f'{name} of {a}')
                return outcome(I, FIND[name])
            return M.Builtin(name, call)
        return None


FIND = {'search': z3.IntVal(-1), 'search_phrase': z3.IntVal(-2),
        'search_glob': z3.IntVal(-3)}


def outcome(I, x):
    """What the contract says of executing a part."""
    ctx = I.ctx
    if ctx.branch(none(x)):
        return NONE
    v = Ref(MAP, res(x))
    ctx.assume(z3.And(
        res(x) >= 1, res(x) < ctx.entry_view.state.alloc,
        SO.known(ctx.entry_view, res(x))))
    return v


class NodeV(V):
    def __init__(self, x):
        self.x = x

    def getattr_v(self, I, name):
        ctx = I.ctx
        x = self.x
        if name == 'nodeType':
            return M.Builtin(name, lambda I, a, kw: TypeV(typ(x)))
        if name == '_nodeType':
            return TypeV(typ(x))
        if name == 'getValue':
            def value(I, a, kw):
                if I.ctx.branch(typ(x) == 0):
                    return NodeV(inner(x))
                raise Unsupported('value of a part that is no NOT')
            return M.Builtin(name, value)
        if name == 'executeQuery':
            def run(I, a, kw):
                if len(a) != 1 or kw or not isinstance(a[0], IndexV):
                    raise Unsupported('executeQuery of another index')
                if I.ctx.branch(typ(x) == 0):
                    I.raise_('QueryError')
                return outcome(I, x)
            return M.Builtin(name, run)
        return None


class KidsV(V):
    def iter_v(self, I):
        it = IterV(NK, lambda j: NodeV(sel(KIDS, j)), kind='kids')
        it.arrs = [KIDS]
        return it

    def len_v(self, I):
        return Sym(TInt, NK)


def neg(x):
    return z3.And(typ(x) == 0, z3.Not(none(inner(x))))


def pos(x):
    return z3.And(typ(x) != 0, z3.Not(none(x)))


def meas(name, f, sort=I_):
    return M.ListMeasure('node!' + name, lambda ct: False,
                         lambda ctx, t: f(t[0]), sort, sort == I_)


one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
POS_G = meas('given', lambda x: one(pos(x)))
POS_P = meas('present', lambda x: one(z3.And(pos(x), SO.P(res(x)))))
POS_T = meas('total', lambda x: z3.If(pos(x), SO.V(res(x)), z3.RealVal(0)),
             R_)
NEG_P = meas('absent', lambda x: one(z3.And(neg(x), SO.P(res(inner(x))))))
NEG_G = meas('nots', lambda x: one(neg(x)))
KIDM = [POS_G, POS_P, POS_T, NEG_P, NEG_G]


class NSpec(Spec):
    props = ('C16',)
    cls = None
    inline = True
    opts = SO.OPTS

    def __init__(self):
        self.qual = f'{MOD}:{self.cls}.executeQuery'

    def value(self, V):
        return KidsV()

    def entry(self, V):
        ctx = V.ctx
        SO.mul_axiom(ctx)
        M.add_fact(ctx, NK >= 0)
        o = V.obj(MOD, self.cls, {'_value': self.value(V)})
        mk = z3.Bool('so!defined')
        ctx.state.pc.append(mk)
        S = View(ctx, ctx.state)
        D, Vs = S.maps(MAP)
        d_ = sel(sel(D, SO.r), dd)
        ctx.assume(fa(SO.r, z3.And(SO.P(SO.r) == d_, SO.V(SO.r) == z3.If(
            d_, sel(sel(Vs[0], SO.r), dd), 0)), [SO.P(SO.r), SO.V(SO.r)]))
        for m in KIDM:
            m.term(ctx, [KIDS], NK)
            m.term(ctx, [KIDS], z3.IntVal(0))
        return [o, IndexV()]

    def loop_invariants(self, L):
        ctx, it = L.ctx, L.it
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        out = []
        if it is None or getattr(it, 'arrs', None) is None or \
                len(it.arrs) != 1:
            return out
        arrs, i = it.arrs, L.i
        for m in KIDM:
            m.step(ctx, arrs, i)
            if not z3.is_int_value(i):
                m.step(ctx, arrs, i - 1)
        se = ctx.entry_view
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and v.ct is not None
                            and isinstance(v.ct, ListCT) and is_entry(v.ct)):
            E, n = [S.e(v, 0), S.e(v, 1)], S.n(v)
            t = sel(E[0], k)
            out.append((f'{nm} holds results', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), z3.And(
                    t >= 1, t < se.state.alloc, SO.known(se, t),
                    sel(E[1], k) == 1)), [t])))
            for tag, ms in (('parts', (POS_G, POS_P, POS_T)),
                            ('NOT parts', (NEG_G, NEG_P, None))):
                for a, b in zip((GIVEN, PRESENT, TOTAL), ms):
                    if b is not None:
                        out.append((f'{nm}: {a.name} of the {tag}', a.term(
                            ctx, E, n) == b.term(ctx, arrs, i)))
        return out

    def counts(self, ctx):
        return [m.term(ctx, [KIDS], NK) for m in KIDM]

    def facts(self, ctx):
        import searchx
        for m in (POS_G, POS_P, NEG_P, NEG_G):
            searchx.counted(ctx, m, [KIDS], NK)

    def mapping(self, S, res_):
        """-> (in it, value) of the document"""
        if not (isinstance(res_, Ref) and (res_.ct is None or
                                           res_.ct.name == MAP.name)):
            return None
        if res_.ct is None:
            return z3.BoolVal(False), z3.RealVal(0)
        return sel(S.dom(res_), dd), sel(S.val(res_), dd)

    def frame(self, S0, S):
        D0, V0 = S0.maps(MAP)
        D, Vs = S.maps(MAP)
        r = SO.r
        return Clause('the results of the parts are unchanged', fa(
            r, z3.Implies(z3.And(1 <= r, r < S0.state.alloc), z3.And(
                sel(D, r) == sel(D0, r), sel(Vs[0], r) == sel(V0[0], r))),
            [sel(D, r), sel(Vs[0], r)]))


rng = z3.And(0 <= k, k < NK)
kid = sel(KIDS, k)


class And(NSpec):
    cls = 'AndNode'

    def ensures(self, S0, S, a, r):
        ctx = S.ctx
        m = self.mapping(S, r)
        if m is None:
            return [Clause('a mapping is returned', False)]
        G, P_, T, N_, NG = self.counts(ctx)
        self.facts(ctx)
        member, val = m
        # among several parts the one without an outcome is left out
        diff = ctx.fresh_int('without')
        M.add_fact(ctx, z3.Implies(P_ < G, z3.And(
            0 <= diff, diff < NK, pos(sel(KIDS, diff)),
            z3.Not(SO.P(res(sel(KIDS, diff)))))))
        M.add_fact(ctx, fa(k, z3.Implies(z3.And(rng, pos(kid), z3.Not(
            SO.P(res(kid)))), P_ < G), [kid]))
        M.add_fact(ctx, P_ <= G)
        return [
            Clause('found documents satisfy all parts', z3.Implies(
                member, fa(k, z3.Implies(z3.And(rng, pos(kid)),
                                         SO.P(res(kid)))))),
            Clause('and no NOT part', z3.Implies(
                member, fa(k, z3.Implies(z3.And(rng, neg(kid)), z3.Not(
                    SO.P(res(inner(kid)))))))),
            Clause('and there are such parts', z3.Implies(
                member, z3.Exists(k, z3.And(rng, pos(kid))))),
            Clause('documents that satisfy the query are found', z3.Implies(
                z3.And(G > 0, P_ == G, N_ == 0), member)),
            Clause('with the sum of the scores', z3.Implies(
                member, val == T)),
            self.frame(S0, S),
        ]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'QueryError':
            return None
        return [Clause('only for a NOT within a NOT', z3.Exists(
            k, z3.And(rng, typ(kid) == 0, typ(inner(kid)) == 0)))]


class Or(NSpec):
    cls = 'OrNode'

    def ensures(self, S0, S, a, r):
        ctx = S.ctx
        m = self.mapping(S, r)
        if m is None:
            return [Clause('a mapping is returned', False)]
        G, P_, T, N_, NG = self.counts(ctx)
        self.facts(ctx)
        member, val = m
        return [
            Clause('found documents satisfy a part', z3.Implies(
                member, z3.Exists(k, z3.And(rng, pos(kid), SO.P(res(
                    kid)))))),
            Clause('documents that satisfy a part are found', fa(
                k, z3.Implies(z3.And(rng, pos(kid), SO.P(res(kid))),
                              member))),
            Clause('with the sum of the scores', z3.Implies(
                member, val == T)),
            self.frame(S0, S),
        ]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'QueryError':
            return None
        return [Clause('only for a NOT among the parts', z3.Exists(
            k, z3.And(rng, typ(kid) == 0)))]


class Not(NSpec):
    cls = 'NotNode'

    def ensures(self, S0, S, a, r):
        return [Clause('it is refused', False)]

    def on_raise(self, S0, S, a, exc):
        return [] if exc.cls == 'QueryError' else None


class Atom(NSpec):
    cls = 'AtomNode'
    how = 'search'

    def value(self, V):
        return V.word('term')

    def ensures(self, S0, S, a, r):
        x = FIND[self.how]
        if isinstance(r, Const) and r.value is None:
            return [Clause('what the index finds', none(x))]
        if not (isinstance(r, Ref) and r.ct is not None):
            return [Clause('what the index finds', False)]
        return [Clause('what the index finds', z3.And(
            z3.Not(none(x)), r.t == res(x))), self.frame(S0, S)]


class Phrase(Atom):
    cls = 'PhraseNode'
    how = 'search_phrase'


class Glob(Atom):
    cls = 'GlobNode'
    how = 'search_glob'


SPECS = SO.SPECS + [And(), Or(), Not(), Atom(), Phrase(), Glob()]
