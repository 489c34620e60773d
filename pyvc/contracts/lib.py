"""Ghost definitions shared by contracts."""
import z3
from core import *      # noqa: F403
import models as M

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
sel = z3.Select


def marked(name, sort):
    """mark(t) is always true: a name for the terms a quantified clause
    should be instantiated with (goals mention it, hypotheses are triggered
    by it)."""
    f = M.uf('mark!' + name, sort, B_)
    return f


def elemset(ctx, n, e, name, norm=None, sort=R_):
    """The set of the (normalized) elements of a list, by definition."""
    norm = norm or (lambda t: t)
    QS = ctx.fresh(z3.ArraySort(sort, B_), name)
    wit = M.uf(f'wit!{QS}', sort, I_)
    j, x = z3.Int('j!es'), z3.Const('x!es', sort)
    ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < n),
                                sel(QS, norm(sel(e, j)))), [sel(e, j)]))
    ctx.assume(fa(x, z3.Implies(sel(QS, x), z3.And(
        0 <= wit(x), wit(x) < n, norm(sel(e, wit(x))) == x)), [sel(QS, x)]))
    return QS


class Filter:
    """Ghost of a loop that appends f(x) for the x that satisfy m: cnt(k)
    counts the ones among the first k, src(t) is the position the t-th one
    came from.  Both are defined by the facts assumed here."""

    def __init__(self, L, m, tag):
        ctx = L.ctx
        self.m, self.L = m, L
        key = '!'.join([tag, L.it.n.sexpr()] + [
            t.sexpr() for t in M.leaf_terms(L.it.get(z3.Int('k!fl')))])
        self.cnt = M.uf('cnt!' + key, I_, I_)
        self.src = M.uf('src!' + key, I_, I_)
        cnt, src = self.cnt, self.src
        j, k = z3.Ints('j!fl k!fl')
        add = lambda f: M.add_fact(ctx, f)
        add(cnt(z3.IntVal(0)) == 0)
        i = L.i
        for t in (i, i - 1 if not z3.is_int_value(i) else i):
            t = z3.simplify(t)
            add(z3.Implies(t >= 0, cnt(z3.simplify(t + 1)) == cnt(t) +
                           z3.If(m(t), 1, 0)))
        add(fa([j, k], z3.Implies(z3.And(0 <= j, j < k), z3.And(
            0 <= cnt(j), cnt(j) <= cnt(k),
            z3.Implies(m(j), cnt(j) < cnt(k)))),
            [z3.MultiPattern(cnt(j), cnt(k))]))
        add(fa(k, z3.Implies(z3.And(0 <= k, m(k)), src(cnt(k)) == k),
               [cnt(k)]))

    def invariants(self, nm, n, e, elem, trig):
        L, cnt, src, m = self.L, self.cnt, self.src, self.m
        k = z3.Int('k!fl')
        return [
            (f'{nm} has as many elements as were selected', n == cnt(L.i)),
            (f'{nm} holds selected elements', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), z3.And(
                    0 <= src(k), src(k) < L.i, m(src(k)),
                    cnt(src(k)) == k, sel(e, k) == elem(src(k)))),
                [sel(e, k)])),
            (f'{nm} holds the selected elements', fa(k, z3.Implies(
                z3.And(0 <= k, k < L.i, m(k)), z3.And(
                    0 <= cnt(k), cnt(k) < n, sel(e, cnt(k)) == elem(k),
                    src(cnt(k)) == k)), [trig(k)])),
        ]


# ------------------------------------------------- C23: what gets stored
# dirty(r): changed in place, although it is no persistent object;
# saved(r): put into a persistent object during this call (which will hence
# be written on commit, with whatever r then holds).

PERSISTENT = (1, 2, 3, 4)


def c23(S):
    return S.ctx.opts.get('prop') == 'C23'


def ok(S, t):
    return z3.Or(z3.Not(sel(S.h('dirty', B_), t)), sel(S.h('saved', B_), t))


def is_persistent(S, t):
    return z3.Or(*[S.kind(t) == i for i in PERSISTENT])


def safe(*ts):
    """Patterns, when they can serve as such."""
    def plain(t):
        return t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) \
            and all(z3.is_var(c) or plain(c) for c in t.children())
    return list(ts) if all(plain(t) for t in ts) else None


def stored(S, refs, groups=()):
    """Clauses: the containers of an index are persistent, or no change of
    them is unsaved.  groups: (variable, domain, value, inner ref or None)"""
    if not c23(S):
        return []
    from contract import Clause
    out = [Clause('P1 the parts of the index are persistent objects', z3.And(
        *[is_persistent(S, r.t) for r in refs]), ('C23',))]
    for x, dom, val, kinds in groups:
        v = sel(val, x)
        f = ok(S, v)
        if kinds:
            f = z3.And(f, is_persistent(S, v))
        out.append(Clause('P2 no change is unsaved', fa(
            x, z3.Implies(sel(dom, x), f), [v]), ('C23',)))
    return out
