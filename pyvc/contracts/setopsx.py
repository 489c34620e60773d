"""Contracts of zope.index.text.setops.

A document is fixed (dd, arbitrary): V(r) is its value in the mapping r (0
if it is not in it), P(r) tells whether it is in it; mappings are not changed
once they exist, which the loop invariants establish.
"""
import z3
from core import *      # noqa: F403
import models as M
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.text.setops'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MAP = MapCT(TInt, TReal)
dd = z3.Int('dd')
p, q, r = z3.Ints('p q r')
x, y = z3.Reals('x y')
sel = z3.Select
NODICT = [k for n, k in KIND.items() if n in ('Bucket', 'BTree', 'TreeSet',
                                               'Set')]


def V(t):
    return M.uf('so!V', I_, R_)(t)


def P(t):
    return M.uf('so!P', I_, B_)(t)


def mulr(ctx, s, t):
    """Multiplication, of which only 0*x and x*1 are known."""
    t1 = z3.simplify(t)
    if z3.is_rational_value(t1) and t1.as_fraction() == 1:
        return s
    return M.uf('so!mul', R_, R_, R_)(s, t)


def mul_axiom(ctx):
    m = M.uf('so!mul', R_, R_, R_)
    M.add_fact(ctx, fa([x, y], z3.And(
        z3.Implies(y == 1, m(x, y) == x), z3.Implies(x == 0, m(x, y) == 0)),
        [m(x, y)]))


def is_entry(ct):
    e = ct.elem
    return isinstance(e, TTuple) and len(e.items) == 2 and isinstance(
        e.items[0], TRefT) and e.items[0].ct.name == MAP.name and \
        e.items[1] is TReal


TOTAL = M.ListMeasure('total', is_entry, lambda ctx, t: z3.If(
    t[0] == 0, 0, mulr(ctx, V(t[0]), t[1])), R_)
PRESENT = M.ListMeasure('present', is_entry, lambda ctx, t: z3.If(
    z3.And(t[0] != 0, P(t[0])), 1, 0), I_, True)
GIVEN = M.ListMeasure('given', is_entry, lambda ctx, t: z3.If(
    t[0] != 0, 1, 0), I_, True)
ALL = [TOTAL, PRESENT, GIVEN]


def known(S, t):
    """V and P tell the truth about the mapping t."""
    D, Vs = S.maps(MAP)
    v = sel(sel(Vs[0], t), dd)
    d = sel(sel(D, t), dd)
    k = S.kind(t)
    return z3.And(t >= 1, P(t) == d, V(t) == z3.If(d, v, 0),
                  z3.Or(*[k == z3.IntVal(i) for i in NODICT]))


def on_weighted(I, op, a, b, t1, t2, res):
    ctx = I.ctx
    S = View(ctx, ctx.state)
    if op == 'weightedUnion':
        S.ctx.assume(z3.And(*[
            z3.Implies(sel(S.dom(m), dd), z3.BoolVal(True))
            for m in (a, b)]))
    D, Vs = S.maps(MAP)
    ctx.assume(P(res.t) == sel(S.dom(res), dd))
    ctx.assume(V(res.t) == z3.If(sel(S.dom(res), dd),
                                 sel(S.val(res), dd), 0))


OPTS = {'on_weighted': on_weighted, 'mul': mulr, 'list_measures': ALL}


class SSpec(Spec):
    pure = True
    props = ('C08', 'C13', 'C15', 'C16', 'C18', 'C19')
    nullable = False
    opts = OPTS

    def entry(self, E):
        ctx = E.ctx
        mul_axiom(ctx)
        self.L = ListCT(TTuple([TRefT(MAP, self.nullable), TReal]))
        lst = E.ref(self.L, 'L')
        return [lst, M.FamV(z3.Bool('fam64'))]

    def requires(self, S, a):
        e = S.e(a[0], 0)
        t = sel(e, p)
        D, Vs = S.maps(MAP)
        al = S.state.alloc
        fam = a[1].f64 if isinstance(a[1], M.FamV) else z3.BoolVal(False)
        return [
            Clause('called with the family of the index',
                   M.bt(fam) == z3.Bool('fam64'), ('C22',)),
            Clause('the list holds mappings', fa(p, z3.Implies(
                z3.And(0 <= p, p < S.n(a[0])), z3.Or(
                    t == 0 if self.nullable else False,
                    z3.And(t >= 1, t < al, known(S, t)))), [t])),
        ]

    def sums(self, S, a):
        ctx = S.ctx
        arrs = [S.e(a[0], 0), S.e(a[0], 1)]
        n = S.n(a[0])
        return n, [m.term(ctx, arrs, n) for m in ALL], arrs

    def ensures(self, S0, S, a, res):
        n, (total, present, given), arrs = self.sums(S0, a)
        if not (isinstance(res, Ref) and (
                res.ct is None or res.ct.name == MAP.name)):
            return [Clause('a mapping is returned', False)]
        if res.ct is None:
            return [Clause('the right documents', z3.Not(
                self.member(present, given)))]
        d = sel(S.dom(res), dd)
        D0, Vs0 = S0.maps(MAP)
        D, Vs = S.maps(MAP)
        al = S0.state.alloc
        return [
            Clause('the right documents', d == self.member(present, given)),
            Clause('with the weighted sum', z3.Implies(
                d, sel(S.val(res), dd) == total)),
            Clause('given mappings are unchanged', fa(r, z3.Implies(
                z3.And(1 <= r, r < al), z3.And(
                    sel(D, r) == sel(D0, r),
                    sel(Vs[0], r) == sel(Vs0[0], r))),
                [sel(D, r), sel(Vs[0], r)])),
            Clause('kinds are unchanged', fa(r, z3.Implies(
                z3.And(1 <= r, r < al), S.kind(r) == S0.kind(r)),
                [S.kind(r)])),
            Clause('a result for the engine', z3.And(
                res.t >= 1, res.t < S.state.alloc, z3.Or(*[
                    S.kind(res.t) == i for i in NODICT]))),
        ] + self.subset(S0, S, a, res)

    def subset(self, S0, S, a, res):
        return []

    def result(self, V, a):
        return V.ref(MAP, 'hits')

    def modifies(self, S, a):
        return [('heap', MAP.d, z3.ArraySort(I_, B_)),
                ('heap', MAP.vs[0], z3.ArraySort(I_, R_)),
                ('heap', 'kind', I_), ('heap', 'f64', B_), ('alloc',)]

    params = [('L', REQ), ('family', M.FamV(z3.BoolVal(False)))]

    def applicable(self, I, args, kwargs):
        return bool(args) and isinstance(args[0], Ref) and isinstance(
            args[0].ct, ListCT) and is_entry(args[0].ct)

    def call(self, I, args, kwargs):
        """The document is an arbitrary one: what V and P mean is said
        here."""
        ctx = I.ctx
        if self.applicable(I, args, kwargs):
            mk = z3.Bool('so!defined')
            S = View(ctx, ctx.state)
        if self.applicable(I, args, kwargs) and not any(
                mk.eq(f) for f in ctx.state.pc):
            # from here on: mappings are not changed once they are used
            ctx.state.pc.append(mk)
            D, Vs = S.maps(MAP)
            mul_axiom(ctx)
            d_ = sel(sel(D, r), dd)
            ctx.assume(fa(r, z3.And(P(r) == d_, V(r) == z3.If(
                d_, sel(sel(Vs[0], r), dd), 0)), [P(r), V(r)]))
        if self.applicable(I, args, kwargs):
            # an instance of the lemma that equal terms have equal sums
            h = ctx.opts.get('on_mass')
            if h:
                h(I, S, args[0])
        return super().call(I, args, kwargs)


class Union(SSpec):
    qual = MOD + ':mass_weightedUnion'

    def member(self, present, given):
        return present > 0

    def loop_invariants(self, L):
        ctx, it = L.ctx, L.it
        S, S0 = View(ctx, L.s), View(ctx, L.s0)
        out = []
        for oid in sorted(L.s.objs):
            at = L.s.objs[oid]
            items, scores = at.get('_items'), at.get('_scores')
            if not (isinstance(items, Ref) and isinstance(scores, Ref)):
                continue
            if items.ct is None or scores.ct is None or not is_entry(
                    items.ct):
                continue
            n = S.n(items)
            e, sc = [S.e(items, 0), S.e(items, 1)], S.e(scores)
            out += [
                ('queue: as many items as scores', z3.And(
                    n == S.n(scores), n >= 0)),
                ('queue: scores in order', fa([p, q], z3.Implies(
                    z3.And(0 <= p, p < q, q < n),
                    sel(sc, p) <= sel(sc, q)),
                    [z3.MultiPattern(sel(sc, p), sel(sc, q))])),
                ('queue: holds mappings', fa(p, z3.Implies(
                    z3.And(0 <= p, p < n), z3.And(
                        sel(e[0], p) < L.s.alloc, known(S, sel(e[0], p)))),
                    [sel(e[0], p)])),
            ]
            for m in ALL:
                t = m.term(ctx, e, n)
                if it is not None and getattr(it, 'arrs', None) is not None \
                        and len(it.arrs) == 2:
                    m.step(ctx, it.arrs, L.i)
                    if not z3.is_int_value(L.i):
                        m.step(ctx, it.arrs, L.i - 1)
                    out.append((f'queue: {m.name} of the visited',
                                t == m.term(ctx, it.arrs, L.i)))
                e0 = [S0.e(items, 0), S0.e(items, 1)]
                t0 = m.term(ctx, e0, S0.n(items))
                out += [(f'queue: {m.name} stays', t == t0),
                        (f'queue: {m.name} stays non-zero',
                         (t > 0) == (t0 > 0))]
                m.step(ctx, e, z3.IntVal(0))
            out += [
                ('queue: the last one is merged', z3.Or(
                    n == S0.n(items), n != 1, sel(e[1], 0) == 1)),
                ('queue: not emptied', z3.Or(n == S0.n(items), n >= 1)),
            ]
        return out


class Intersection(SSpec):
    qual = MOD + ':mass_weightedIntersection'
    nullable = True

    def member(self, present, given):
        return z3.And(given > 0, present == given)

    def subset(self, S0, S, a, res):
        e, n = S0.e(a[0], 0), S0.n(a[0])
        D0, _ = S0.maps(MAP)
        x = z3.Int('x!ss')
        return [Clause('only documents of a given mapping', fa(
            x, z3.Implies(sel(S.dom(res), x), z3.Exists(p, z3.And(
                0 <= p, p < n, sel(e, p) != 0,
                sel(sel(D0, sel(e, p)), x)))), [sel(S.dom(res), x)]))]

    def loop_invariants(self, L):
        ctx, it = L.ctx, L.it
        S = View(ctx, L.s)
        out = []
        arrs = getattr(it, 'arrs', None) if it is not None else None
        if arrs is None or len(arrs) != 2:
            return []
        for m in ALL:
            m.step(ctx, arrs, L.i)
            if not z3.is_int_value(L.i):
                m.step(ctx, arrs, L.i - 1)
        for nm, v in L.vars(lambda v: isinstance(v, Ref) and
                            v.ct is not None and v.ct.name == MAP.name):
            v0 = L.env0(nm)
            if not isinstance(v0, Ref):
                continue
            x = z3.Int('x!ss')
            out += [
                (f'{nm} shrinks', fa(x, z3.Implies(sel(S.dom(v), x), sel(
                    View(ctx, L.s0).dom(v0), x)), [sel(S.dom(v), x)])),
                (f'{nm} is a mapping', z3.And(
                    v.t < L.s.alloc, known(S, v.t))),
                (f'{nm} has what all visited have', P(v.t) == z3.And(
                    P(v0.t), PRESENT.term(ctx, arrs, L.i) == L.i)),
                (f'{nm} has the sum over the visited', z3.Implies(
                    P(v.t), V(v.t) == V(v0.t) + TOTAL.term(
                        ctx, arrs, L.i))),
            ]
        return out


SPECS = [Union(), Intersection()]
