"""Contracts of zope.index.nbest."""
import z3
from core import *      # noqa: F403
import models as M
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.nbest'
Q = MOD + ':NBest.'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI = z3.ArraySort(I_, I_)
SCORES = ListCT(TReal)
ITEMS = ListCT(TVal)
SEQ = ListCT(TTuple([TVal, TReal]))

p, q, t = z3.Ints('p q t')
sel = z3.Select

# Every list carries two ghosts: where each of its elements came from (source
# numbers: 0..n0-1 are the elements held at first, n0+i the i-th element of
# the sequence), and at which position a source is held (-1: not held).
SRC, POS = 'ghost.src', 'ghost.pos'


def ghost(ctx, ref, name):
    return ctx.rd(ref.t, name, AI)


def cur_source(I):
    n0 = getattr(I.ctx.contract, 'n0', None)
    if n0 is None:
        return None
    loops = [i for it, i in I.ctx.loops]
    if len(loops) == 1:
        return n0 + loops[0]
    if not loops and I.ctx.contract.single:
        return n0
    return I.ctx.fresh_int('source')


def put(I, ref, n, i):
    ctx = I.ctx
    c = cur_source(I)
    if c is None or not isinstance(ref.ct, ListCT):
        return
    src, pos = ghost(ctx, ref, SRC), ghost(ctx, ref, POS)
    s2, p2 = ctx.fresh(AI, 'src'), ctx.fresh(AI, 'pos')
    ctx.assume(fa(p, sel(s2, p) == z3.If(
        p < i, sel(src, p), z3.If(p == i, c, sel(src, p - 1))), [sel(s2, p)]))
    ctx.assume(fa(t, sel(p2, t) == z3.If(t == c, i, z3.If(
        sel(pos, t) >= i, sel(pos, t) + 1, sel(pos, t))), [sel(p2, t)]))
    ctx.wr(ref.t, SRC, AI, s2)
    ctx.wr(ref.t, POS, AI, p2)


def on_insert(I, ref, n, i, terms):
    put(I, ref, n, i)


def on_append(I, ref, n, olds, terms):
    put(I, ref, n, n)


def on_delat(I, ref, n, i):
    ctx = I.ctx
    if getattr(I.ctx.contract, 'n0', None) is None:
        return
    src, pos = ghost(ctx, ref, SRC), ghost(ctx, ref, POS)
    s2, p2 = ctx.fresh(AI, 'src'), ctx.fresh(AI, 'pos')
    ctx.assume(fa(p, sel(s2, p) == z3.If(
        p < i, sel(src, p), sel(src, p + 1)), [sel(s2, p)]))
    ctx.assume(fa(t, sel(p2, t) == z3.If(sel(pos, t) == i, -1, z3.If(
        sel(pos, t) > i, sel(pos, t) - 1, sel(pos, t))), [sel(p2, t)]))
    ctx.wr(ref.t, SRC, AI, s2)
    ctx.wr(ref.t, POS, AI, p2)


class St:
    def __init__(self, S, o):
        self.S = S
        self.scores, self.items = S.attr(o, '_scores'), S.attr(o, '_items')
        for r, ct in ((self.scores, SCORES), (self.items, ITEMS)):
            if not isinstance(r, Ref) or (r.ct is not None and
                                          r.ct.name != ct.name):
                raise Unsupported('representation of NBest changed')
        c = S.attr(o, '_capacity')
        self.cap = S.ctx.coerce(c, TInt)
        if self.scores.ct is None or self.items.ct is None:
            # still empty
            if self.scores.ct is not None or self.items.ct is not None:
                raise Unsupported('representation of NBest changed')
            self.n = self.ni = z3.IntVal(0)
            self.sc = z3.K(I_, z3.RealVal(0))
            self.it = z3.K(I_, z3.RealVal(0))
        else:
            self.n, self.ni = S.n(self.scores), S.n(self.items)
            self.sc, self.it = S.e(self.scores), S.e(self.items)


def ordered(a, n):
    return fa([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n),
                                 sel(a, p) <= sel(a, q)),
              [z3.MultiPattern(sel(a, p), sel(a, q))])


def inv(S, o):
    s = St(S, o)
    return [
        Clause('N1 as many items as scores', z3.And(s.n == s.ni, s.n >= 0)),
        Clause('N2 no more than the capacity', z3.And(
            s.cap >= 1, s.n <= s.cap)),
        Clause('N3 scores are in order', ordered(s.sc, s.n)),
    ]


class NSpec(Spec):
    props = ('C07',)
    single = False

    def self_obj(self, V):
        return V.obj(MOD, 'NBest', {'_capacity': TInt, '_scores': SCORES,
                                    '_items': ITEMS})

    def requires(self, S, a):
        return inv(S, a[0])

    def entry(self, V):
        return [self.self_obj(V)]

    def same(self, S0, S, a):
        s0, s = St(S0, a[0]), St(S, a[0])
        return [Clause('nothing changes', z3.And(
            s.n == s0.n, s.ni == s0.ni, s.sc == s0.sc, s.it == s0.it,
            s.cap == s0.cap))]


class Add:
    """What adding a sequence of pairs does."""

    def __init__(self, S0, a, n, item, score):
        s0 = St(S0, a[0])
        self.s0, self.n0, self.m = s0, s0.n, n
        self.item = lambda x: z3.If(x < s0.n, sel(s0.it, x),
                                    item(x - s0.n))
        self.score = lambda x: z3.If(x < s0.n, sel(s0.sc, x),
                                     score(x - s0.n))

    def state(self, S, s, i):
        """after i elements"""
        ctx = S.ctx
        if s.scores.ct is None:
            return []
        src = S.rd(s.scores.t, SRC, AI)
        isrc = S.rd(s.items.t, SRC, AI)
        pos = S.rd(s.scores.t, POS, AI)
        rng = z3.And(0 <= p, p < s.n)
        top = self.n0 + i
        known = z3.And(0 <= t, t < top)
        return [
            ('as many items as scores', z3.And(s.n == s.ni, s.n >= 0)),
            ('as many as fit', s.n == z3.If(
                top < s.cap, top, s.cap)),
            ('scores are in order', ordered(s.sc, s.n)),
            ('every score was given', fa(p, z3.Implies(rng, z3.And(
                0 <= sel(src, p), sel(src, p) < top,
                sel(s.sc, p) == self.score(sel(src, p)))),
                [sel(src, p)])),
            ('items keep their scores', fa(p, z3.Implies(
                rng, sel(isrc, p) == sel(src, p)),
                [sel(src, p)])),
            ('every item was given', fa(p, z3.Implies(
                rng, sel(s.it, p) == self.item(sel(isrc, p))),
                [sel(s.it, p)])),
            ('nothing is held twice', fa(p, z3.Implies(
                rng, sel(pos, sel(src, p)) == p), [sel(src, p)])),
            ('held elements are where they should be', fa(t, z3.Implies(
                z3.And(known, sel(pos, t) != -1), z3.And(
                    0 <= sel(pos, t), sel(pos, t) < s.n,
                    sel(src, sel(pos, t)) == t)), [sel(pos, t)])),
            ('what is not held is not better', fa(t, z3.Implies(
                z3.And(known, sel(pos, t) == -1), z3.And(
                    s.n == s.cap, self.score(t) <= sel(s.sc, 0))),
                [sel(pos, t)])),
            ('later elements are not held', fa(t, z3.Implies(
                t >= top, sel(pos, t) == -1), [sel(pos, t)])),
        ]


class AddMany(NSpec):
    qual = Q + 'addmany'
    params = [('self', REQ), ('sequence', REQ)]
    opts = {'on_insert': on_insert, 'on_delat': on_delat,
            'on_append': on_append, 'one_way': True}

    def entry(self, V):
        ctx = V.ctx
        o = self.self_obj(V)
        s = St(View(ctx, ctx.state), o)
        self.n0 = s.n
        ctx.assume(s.scores.t != s.items.t)     # they differ in type
        # ghost initialisation
        for r in (s.scores, s.items):
            src, pos = ghost(ctx, r, SRC), ghost(ctx, r, POS)
            ctx.assume(fa(p, sel(src, p) == p, [sel(src, p)]))
            ctx.assume(fa(t, sel(pos, t) == z3.If(
                z3.And(0 <= t, t < s.n), t, -1), [sel(pos, t)]))
        return [o, V.ref(SEQ, 'sequence')]

    def modifies(self, S, a):
        return [('heap', n, s) for ct in (SCORES, ITEMS)
                for n, s in ct.comps().items()] + [
                    ('heap', SRC, AI), ('heap', POS, AI)]

    def applicable(self, I, args, kwargs):
        # other kinds of items: the body is used
        return False

    def ensures(self, S0, S, a, res):
        A = Add(S0, a, S0.n(a[1]), lambda x: sel(S0.e(a[1], 0), x),
                lambda x: sel(S0.e(a[1], 1), x))
        s = St(S, a[0])
        return [Clause(nm, f) for nm, f in A.state(S, s, A.m)] + [
            Clause('the capacity stays', s.cap == A.s0.cap)]

    def loop_invariants(self, L):
        ctx = L.ctx
        a = ctx.entry_args
        S0 = View(ctx, L.s0)
        S = View(ctx, L.s)
        s = St(S, a[0])
        A = Add(S0, a, S0.n(a[1]), lambda x: sel(S0.e(a[1], 0), x),
                lambda x: sel(S0.e(a[1], 1), x))
        out = A.state(S, s, L.i)
        for nm, v in L.vars(lambda v: isinstance(v, Sym) and v.ty is TInt):
            out.append((f'{nm} is the number of scores', v.t == s.n))
        return out


class AddOne(AddMany):
    qual = Q + 'add'
    single = True

    def entry(self, V):
        o = AddMany.entry(self, V)[0]
        return [o, V.val('item'), V.real('score')]

    def ensures(self, S0, S, a, res):
        A = Add(S0, a, z3.IntVal(1), lambda x: a[1].t, lambda x: a[2].t)
        s = St(S, a[0])
        return [Clause(nm, f) for nm, f in A.state(S, s, A.m)]

    def loop_invariants(self, L):
        return []


class Init(NSpec):
    qual = Q + '__init__'

    def entry(self, V):
        return [V.obj(MOD, 'NBest', {}), V.int('N')]

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        return inv(S, a[0]) + [
            Clause('empty, with the capacity asked for', z3.And(
                s.n == 0, s.cap == a[1].t))]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'ValueError':
            return None
        return [Clause('only for impossible capacities', a[1].t < 1)]


class Len(NSpec):
    qual = Q + '__len__'

    def ensures(self, S0, S, a, res):
        return self.same(S0, S, a) + [Clause(
            'the number of items held', S.ctx.coerce(res, TInt) ==
            St(S0, a[0]).n)]


class Capacity(NSpec):
    qual = Q + 'capacity'

    def ensures(self, S0, S, a, res):
        return self.same(S0, S, a) + [Clause(
            'the capacity', S.ctx.coerce(res, TInt) == St(S0, a[0]).cap)]


class GetBest(NSpec):
    qual = Q + 'getbest'

    def ensures(self, S0, S, a, res):
        s0 = St(S0, a[0])
        if not (isinstance(res, Ref) and isinstance(res.ct, ListCT) and
                len(res.ct.es) == 2):
            return [Clause('a list of pairs', False)]
        e0, e1 = S.e(res, 0), S.e(res, 1)
        return self.same(S0, S, a) + [
            Clause('all that is held', S.n(res) == s0.n),
            Clause('from best to worst', fa(p, z3.Implies(
                z3.And(0 <= p, p < s0.n), z3.And(
                    sel(e0, p) == sel(s0.it, s0.n - 1 - p),
                    sel(e1, p) == sel(s0.sc, s0.n - 1 - p)))))]


class PopSmallest(NSpec):
    qual = Q + 'pop_smallest'

    def modifies(self, S, a):
        return [('heap', n, s) for ct in (SCORES, ITEMS)
                for n, s in ct.comps().items()] + [
                    ('heap', SRC, AI), ('heap', POS, AI)]

    def ensures(self, S0, S, a, res):
        s0, s = St(S0, a[0]), St(S, a[0])
        if not (isinstance(res, Tup) and len(res.items) == 2):
            return [Clause('a pair', False)]
        return inv(S, a[0]) + [
            Clause('the smallest is returned', z3.And(
                s0.n > 0, res.items[0].t == sel(s0.it, 0),
                res.items[1].t == sel(s0.sc, 0))),
            Clause('the others stay', z3.And(s.n == s0.n - 1, fa(
                p, z3.Implies(z3.And(0 <= p, p < s.n), z3.And(
                    sel(s.it, p) == sel(s0.it, p + 1),
                    sel(s.sc, p) == sel(s0.sc, p + 1))))))]

    def on_raise(self, S0, S, a, exc):
        if exc.cls != 'IndexError':
            return None
        return [Clause('only if nothing is held', St(S0, a[0]).n == 0)] + \
            self.same(S0, S, a)


SPECS = [AddMany(), AddOne(), Init(), Len(), Capacity(), GetBest(),
         PopSmallest()]
