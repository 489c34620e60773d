"""Ghost theory of word id sequences, and the contract of widcode as the text
indexes use it (verified in widcodex)."""
import z3
from core import *      # noqa: F403
import models as M
from contract import Spec, Clause, View, bt, REQ

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
sel = z3.Select
WIDS = ListCT(TInt)
MAXWID = 0x10000000

clen = M.uf('seq!len', CodeSort, I_)
cat = M.uf('seq!at', CodeSort, I_, I_)
cnt = M.uf('seq!count', CodeSort, I_, I_)       # occurrences of a word
pos = M.uf('seq!pos', CodeSort, I_, I_)         # one of them
codeof = M.uf('seq!of', z3.ArraySort(I_, I_), I_, CodeSort)
occurs = M.uf('seq!occurs', CodeSort, CodeSort, B_)     # 2nd within 1st

arrof = M.uf('seq!arr', CodeSort, z3.ArraySort(I_, I_))  # its words

c, c2 = z3.Consts('c c2', CodeSort)
k, w, j = z3.Ints('k w j')


def axioms(ctx):
    """Facts of finite sequences of integers."""
    add = lambda f: M.add_fact(ctx, f)
    add(fa(c, clen(c) >= 0, [clen(c)]))
    add(fa([c, w], z3.And(cnt(c, w) >= 0, cnt(c, w) <= clen(c), z3.Implies(
        cnt(c, w) >= 1, z3.And(0 <= pos(c, w), pos(c, w) < clen(c),
                               cat(c, pos(c, w)) == w))), [cnt(c, w)]))
    add(fa([c, k], z3.Implies(z3.And(0 <= k, k < clen(c)),
                              cnt(c, cat(c, k)) >= 1), [cat(c, k)]))


def occurs_axiom(ctx):
    """What is within a sequence has its words."""
    M.add_fact(ctx, fa([c, c2, k], z3.Implies(z3.And(
        occurs(c, c2), 0 <= k, k < clen(c2)), cnt(c, cat(c2, k)) >= 1),
        [MultiPattern(occurs(c, c2), cat(c2, k))]))


def is_wids(v):
    return isinstance(v, Ref) and (v.ct is None or v.ct.name == WIDS.name)


def seq_of(ctx, state, ref):
    """The sequence a list of word ids stands for."""
    if ref.ct is None:
        t = z3.Const('seq!empty', CodeSort)
        M.add_fact(ctx, clen(t) == 0)
        return t
    S = View(ctx, state)
    n, e = S.n(ref), S.e(ref)
    t = codeof(e, n)
    x = ctx.fresh(CodeSort, 'seq')
    ctx.assume(x == t)
    M.add_fact(ctx, clen(x) == z3.If(n >= 0, n, 0))
    M.add_fact(ctx, fa(k, z3.Implies(z3.And(0 <= k, k < n),
                                     cat(x, k) == sel(e, k)), [sel(e, k)]))
    M.add_fact(ctx, fa(k, z3.Implies(z3.And(0 <= k, k < n),
                                     cat(x, k) == sel(e, k)), [cat(x, k)]))
    return x


def new_seq(ctx, t):
    """A new list of the words of a sequence."""
    e = arrof(t)
    r = M.new_list(ctx.interp, TInt, clen(t), [e])
    ctx.assume(codeof(e, clen(t)) == t)
    ctx.assume(clen(t) >= 0)
    ctx.assume(fa(k, z3.Implies(z3.And(0 <= k, k < clen(t)),
                                cat(t, k) == sel(e, k)), [sel(e, k)]))
    ctx.assume(fa(k, z3.Implies(z3.And(0 <= k, k < clen(t)),
                                cat(t, k) == sel(e, k)), [cat(t, k)]))
    return r


def valid(t):
    return fa(k, z3.Implies(z3.And(0 <= k, k < clen(t)), z3.And(
        1 <= cat(t, k), cat(t, k) < MAXWID)), [cat(t, k)])


class Encode(Spec):
    qual = 'zope.index.text.widcode:encode'
    params = [('wids', REQ)]
    assumed = True

    def requires(self, S, a):
        if a[0].ct is None:
            return []
        e, n = S.e(a[0]), S.n(a[0])
        return [Clause('word ids below 2**28', fa(k, z3.Implies(
            z3.And(0 <= k, k < n), z3.And(
                0 <= sel(e, k), sel(e, k) < MAXWID)), [sel(e, k)]))]

    def applicable(self, I, args, kwargs):
        if not (len(args) == 1 and isinstance(args[0], Ref) and
                is_wids(args[0])):
            raise Unsupported('encode of no list')
        return True

    def result(self, V, a):
        return Sym(TCode, seq_of(V.ctx, V.ctx.state, a[0]))


class Decode(Spec):
    qual = 'zope.index.text.widcode:decode'
    params = [('code', REQ)]
    assumed = True

    def modifies(self, S, a):
        return []

    def result(self, V, a):
        if not (isinstance(a[0], Sym) and a[0].ty is TCode):
            raise Unsupported('decode of no code')
        return new_seq(V.ctx, a[0].t)


class Contains(Spec):
    qual = 'zope.index.text.widcode:contains'
    params = [('code', REQ), ('subcode', REQ)]
    assumed = True

    def result(self, V, a):
        for x in a:
            if not (isinstance(x, Sym) and x.ty is TCode):
                raise Unsupported('contains of no code')
        return Sym(TBool, occurs(a[0].t, a[1].t))


src = M.uf('lex!source', R_, CodeSort)      # text -> ids, made if new
term = M.uf('lex!term', R_, CodeSort)       # text -> ids, 0 if unknown
glob = M.uf('lex!glob', R_, CodeSort)


class LexV(V):
    """The lexicon, by the contract verified in lexx: ids are positive, and
    the same text gives the same ids."""

    def getattr_v(self, I, name):
        f = {'sourceToWordIds': src, 'termToWordIds': term,
             'globToWordIds': glob}.get(name)
        if f is None:
            if name in ('parseTerms', 'isGlob', 'get_word', 'get_wid'):
                raise Unsupported('lexicon.' + name)
            return None

        def call(I, args, kw):
            if len(args) != 1 or kw:
                I.raise_('TypeError')
            x = args[0]
            ctx = I.ctx
            if not (isinstance(x, Sym) and x.ty is TWord):
                raise Unsupported(f'lexicon.{name} of {x}')
            t = f(x.t)
            lo = 0 if name == 'termToWordIds' else 1
            M.add_fact(ctx, fa(k, z3.Implies(
                z3.And(0 <= k, k < clen(t)), z3.And(
                    lo <= cat(t, k), cat(t, k) < MAXWID)), [cat(t, k)]))
            return new_seq(ctx, t)
        return Builtin(name, call)


SPECS = [Encode(), Decode(), Contains()]
