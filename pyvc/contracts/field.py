"""Contracts of zope.index.field.index."""
import z3
from core import *      # noqa: F403
import models as M
import lib
from contract import Spec, Clause, View, bt, REQ

MOD = 'zope.index.field.index'
Q = MOD + ':FieldIndex.'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FWD = MapCT(TVal, TRefT(SetCT(TInt)))
REV = MapCT(TInt, TVal)
SET = SetCT(TInt)
NUM = LENGTH

ATTRS = {('FieldIndex', '_fwd_index'): FWD,
         ('FieldIndex', '_rev_index'): REV}

d, v, v2 = z3.Int('d'), z3.Real('v'), z3.Real('v2')


class St:
    """Terms of the abstract state of a FieldIndex."""

    def __init__(self, S, o):
        self.fwd, self.rev = S.attr(o, '_fwd_index'), S.attr(o, '_rev_index')
        self.num = S.attr(o, '_num_docs')
        for r, ct in ((self.fwd, FWD), (self.rev, REV)):
            if not isinstance(r, Ref) or r.ct is None or \
                    r.ct.name != ct.name:
                raise Unsupported('representation of the index changed')
        self.FD, self.FV = S.dom(self.fwd), S.val(self.fwd)
        self.RD, self.RV = S.dom(self.rev), S.val(self.rev)
        self.SM = S.sets(TInt)
        self.n = S.length(self.num)
        self.alloc = S.state.alloc
        self.S = S

    def post(self, vt, dt):
        return z3.Select(z3.Select(self.SM, z3.Select(self.FV, vt)), dt)


def inv(S, o, extra=()):
    s = St(S, o)
    FD, FV, RD, RV = s.FD, s.FV, s.RD, s.RV
    sel = z3.Select
    out = [
        Clause('I1 every document is in the posting of its value', fa(
            d, z3.Implies(sel(RD, d), z3.And(
                sel(FD, sel(RV, d)), s.post(sel(RV, d), d))),
            [sel(RD, d)])),
        Clause('I2 postings hold only documents with that value', fa(
            [v, d], z3.Implies(z3.And(sel(FD, v), s.post(v, d)),
                               z3.And(sel(RD, d), sel(RV, d) == v)),
            [s.post(v, d)])),
        Clause('I3 no posting is empty', fa(
            v, z3.Implies(sel(FD, v), sel(s.SM, sel(FV, v)) !=
                          z3.K(I_, z3.BoolVal(False))), [sel(FD, v)])),
        Clause('I4 postings are separate objects', z3.And(
            fa(v, z3.Implies(sel(FD, v), z3.And(
                sel(FV, v) >= 1, sel(FV, v) < s.alloc)), [sel(FV, v)]),
            fa([v, v2], z3.Implies(
                z3.And(sel(FD, v), sel(FD, v2), sel(FV, v) == sel(FV, v2)),
                v == v2), [z3.MultiPattern(sel(FV, v), sel(FV, v2))]))),
        Clause('I5 the document counter is exact',
               s.n == M.card(S.ctx, s.RD), ('C02', 'C03')),
    ]
    return out + lib.stored(S, [s.fwd, s.rev], [(v, FD, s.FV, True)])


def self_obj(V):
    return V.obj(MOD, 'FieldIndex', {
        '_fwd_index': FWD, '_rev_index': REV, '_num_docs': NUM,
        'family': M.FamV(z3.Bool('fam64'))})


def unchanged(S0, S, o):
    """Nothing observable changed."""
    a, b = St(S0, o), St(S, o)
    return [Clause('postings, values and counter unchanged', z3.And(
        a.FD == b.FD, a.RD == b.RD,
        fa(d, z3.Implies(z3.Select(a.RD, d),
                         z3.Select(a.RV, d) == z3.Select(b.RV, d))),
        fa([v, d], z3.Implies(z3.Select(a.FD, v),
                              a.post(v, d) == b.post(v, d))),
        a.n == b.n))]


class FieldSpec(Spec):
    def modifies(self, S, a):
        ct = [SET, FWD, REV]
        return [('heap', n, s) for c in ct for n, s in c.comps().items()] + \
            [('heap', 'Length.v', I_), ('heap', 'kind', I_), ('alloc',)]

    def requires(self, S, a):
        return inv(S, a[0])


class IndexDoc(FieldSpec):
    qual = Q + 'index_doc'
    props = ('C01', 'C02')
    params = [('self', REQ), ('docid', REQ), ('value', REQ)]

    def entry(self, V):
        return [self_obj(V), V.int('docid'), V.val('value')]

    def ensures(self, S0, S, a, res):
        o, dd, vv = a[0], a[1].t, a[2].t
        s0, s = St(S0, o), St(S, o)
        return inv(S, o) + [
            Clause('the document is indexed', s.RD == z3.Store(
                s0.RD, dd, z3.BoolVal(True))),
            Clause('its value is the new one', z3.Select(s.RV, dd) == vv),
            Clause('other documents keep their value', fa(
                d, z3.Implies(z3.And(d != dd, z3.Select(s0.RD, d)),
                              z3.Select(s.RV, d) == z3.Select(s0.RV, d)))),
        ]


class UnindexDoc(FieldSpec):
    qual = Q + 'unindex_doc'
    props = ('C01', 'C02')
    params = [('self', REQ), ('docid', REQ)]

    def entry(self, V):
        return [self_obj(V), V.int('docid')]

    def ensures(self, S0, S, a, res):
        o, dd = a[0], a[1].t
        s0, s = St(S0, o), St(S, o)
        return inv(S, o) + [
            Clause('the document is gone', s.RD == z3.Store(
                s0.RD, dd, z3.BoolVal(False))),
            Clause('other documents keep their value', fa(
                d, z3.Implies(z3.And(d != dd, z3.Select(s0.RD, d)),
                              z3.Select(s.RV, d) == z3.Select(s0.RV, d)),
                [z3.Select(s.RV, d)])),
        ]


class Clear(FieldSpec):
    qual = Q + 'clear'
    props = ('C01', 'C02')
    params = [('self', REQ)]

    def entry(self, V):
        o = self_obj(V)
        return [o]

    def requires(self, S, a):
        return []

    def ensures(self, S0, S, a, res):
        s = St(S, a[0])
        return inv(S, a[0]) + [
            Clause('no document is indexed',
                   s.RD == z3.K(I_, z3.BoolVal(False))),
            Clause('no value is known',
                   s.FD == z3.K(R_, z3.BoolVal(False))),
        ]

    def modifies(self, S, a):
        return FieldSpec.modifies(self, S, a) + [
            ('obj', a[0], '_fwd_index', FWD), ('obj', a[0], '_rev_index', REV),
            ('obj', a[0], '_num_docs', LENGTH)]


class Init(Clear):
    qual = Q + '__init__'

    def entry(self, V):
        o = V.obj(MOD, 'FieldIndex', {})
        return [o, M.FamV(z3.Bool('fam64'))]


class Apply(FieldSpec):
    qual = Q + 'apply'
    props = ('C01',)

    def entry(self, V):
        return [self_obj(V), Tup([V.val('lo'), V.val('hi')])]

    def ensures(self, S0, S, a, res):
        o = a[0]
        s = St(S0, o)
        lo, hi = [x.t for x in a[1].items]
        if not (isinstance(res, Ref) and isinstance(res.ct, SetCT)):
            return [Clause('the result is a set of ids', False)]
        R = S.m(res)
        x = z3.Select(s.RV, d)
        want = z3.And(z3.Select(s.RD, d),
                      z3.Or(lo == M.VALNONE, x >= lo),
                      z3.Or(hi == M.VALNONE, x <= hi))
        return [
            Clause('only documents in the range are returned', fa(
                d, z3.Implies(z3.Select(R, d), want))),
            Clause('all documents in the range are returned', fa(
                d, z3.Implies(want, z3.Select(R, d)))),
        ]


class DocCount(FieldSpec):
    qual = Q + 'documentCount'
    props = ('C02',)

    def entry(self, V):
        return [self_obj(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        return [Clause('number of indexed documents',
                       S.ctx.coerce(res, TInt) == M.card(S.ctx, s.RD))]


class WordCount(FieldSpec):
    """wordCount = number of values that some document has."""
    qual = Q + 'wordCount'
    props = ('C02',)

    def entry(self, V):
        return [self_obj(V)]

    def ensures(self, S0, S, a, res):
        s = St(S0, a[0])
        ctx = S.ctx
        U = ctx.fresh(z3.ArraySort(R_, B_), 'used')
        w = M.uf('usedby', R_, I_)
        # U: the set of values in use
        ctx.assume(fa(d, z3.Implies(z3.Select(s.RD, d), z3.Select(
            U, z3.Select(s.RV, d))), [z3.Select(s.RV, d)]))
        ctx.assume(fa(v, z3.Implies(z3.Select(U, v), z3.And(
            z3.Select(s.RD, w(v)), z3.Select(s.RV, w(v)) == v)),
            [z3.Select(U, v)]))
        return [
            Clause('the known values are the used ones',
                   fa(v, z3.Select(U, v) == z3.Select(s.FD, v))),
            Clause('number of used values',
                   S.ctx.coerce(res, TInt) == M.card(ctx, s.FD))]


SPECS = [IndexDoc(), UnindexDoc(), Clear(), Init(), Apply(), DocCount(),
         WordCount()]
