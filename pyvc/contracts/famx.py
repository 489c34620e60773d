"""C22: the configured BTrees family is honoured everywhere.

Every container that a method makes for document ids - by a constructor, a
set operation or a weighted operation - is proved to be of the family the
index was made with (containers keyed by word ids alone are exempt).  An
index consists of containers made by its own methods, so by induction over
its history all of them are of that family, which is what makes 64-bit ids
acceptable everywhere (and 32-bit results 32-bit).  Results of queries are
proved to be BTrees collections, not something else."""
import z3
from core import *      # noqa: F403
import models as M
from contract import Clause, View
import setopsx
import textx
import framex
import field
import kwindex
import topicx
import searchx

P = 'C22'
r, p = z3.Ints('r!fam p!fam')
FAM = z3.Bool('fam64')
textx.INFO.docids = False       # word id -> documents
ATTRS, STRUCTS, OVERRIDES, EXTERNALS = (
    framex.ATTRS, framex.STRUCTS, framex.OVERRIDES, framex.EXTERNALS)


def collection(S, res):
    """A BTrees collection, or None."""
    if isinstance(res, Const) and res.value is None:
        return True
    if not isinstance(res, Ref):
        return False
    if res.ct is None:
        return res.cell.flavor not in ('dict', 'list')
    if not isinstance(res.ct, (SetCT, MapCT)):
        return False
    f = z3.And(*[S.kind(res.t) != M.KIND[k] for k in ('dict', 'pyset')])
    return z3.Or(res.t == 0, f) if res.nullable else f


def framed(cls, query, init):
    class F(cls):
        props = (P,)
        soft = False
        inline = True

        def requires(self, S, a):
            out = list(cls.requires(self, S, a))
            if query:
                out.append(Clause('the index consists of BTrees', fa(
                    r, z3.Implies(z3.And(1 <= r, r < S.state.alloc), z3.And(
                        S.kind(r) >= 1, S.kind(r) != M.KIND['pyset'])), [S.kind(r)])))
                if cls.__module__ in ('kwindex', 'topicx'):
                    out.append(Clause('with sets of ids', fa(
                        r, z3.Implies(z3.And(1 <= r, r < S.state.alloc),
                                      z3.And(1 <= S.kind(r), S.kind(r) <= 4)),
                        [S.kind(r)])))
            return out

        def ensures(self, S0, S, a, res):
            out = []
            if query:
                out.append(Clause('the result is a BTrees collection',
                                  collection(S, res)))
            if init:
                f = S.attr(a[0], 'family') if S.has(a[0], 'family') else None
                if f is None:       # the default of the class
                    f = S.ctx.interp.getattr(a[0], 'family')
                out.append(Clause('the index has the family given', z3.Bool(
                    'never') if not isinstance(f, M.FamV) else
                    M.bt(f.f64) == getattr(self, 'family', FAM)))
            return out

        def loop_invariants(self, L):
            out = list(cls.loop_invariants(self, L))
            S = View(L.ctx, L.s)
            good = lambda t: z3.And(t >= 1, t < L.s.alloc, S.kind(t) >= 1,
                                    S.kind(t) <= 4)
            for n, v in list(L.vars(lambda v: isinstance(
                    v, Const) and v.value is None or isinstance(v, Ref) and (
                    v.ct is not None and isinstance(v.ct, (SetCT, MapCT))))):
                out.append((f'{n} is a BTrees collection', True if isinstance(
                    v, Const) else z3.Or(v.t == 0, good(v.t))))
            for n, v in list(L.vars(lambda v: isinstance(v, Ref) and isinstance(
                    v.ct, ListCT) and isinstance(v.ct.elem, TRefT))):
                e = S.e(v)
                out.append((f'{n} holds BTrees collections', fa(
                    p, z3.Implies(z3.And(0 <= p, p < S.n(v)),
                                  good(z3.Select(e, p))),
                    [z3.Select(e, p)])))
            return out

        def on_raise(self, S0, S, a, exc):
            return None if cls.on_raise(self, S0, S, a, exc) is None else []
    F.__name__ = F.__qualname__ = cls.__name__ + 'Family'
    return F


def default(cls):
    """No family is given: 32 bit."""
    class D(cls):
        family = z3.BoolVal(False)

        def entry(self, V):
            return [NONE if isinstance(x, M.FamV) else x
                    for x in cls.entry(self, V)]
    D.__name__ = D.__qualname__ = cls.__name__ + 'Default'
    return D


MUTATORS = [
    (field, 'IndexDoc UnindexDoc Clear'),
    (kwindex, 'IndexDoc IndexDocCI IndexDocNone UnindexDoc Optimize Clear'),
    (topicx, 'FIndex FUnindex FClear IndexDoc UnindexDoc ClearFilters Clear '
     'AddFilter DelFilter'),
    (textx, 'Index IndexC Unindex UnindexC Clear ClearC'),
]
INITS = [(field, 'Init'), (kwindex, 'Init'), (topicx, 'FInit Init'),
         (textx, 'Init InitC')]
SEARCH = [(m, ' '.join(c for c in names.split() if c.startswith((
    'Search', 'Apply', 'Glob', 'Phrase', 'And', 'Or', 'Not', 'Atom'))))
    for m, names in framex.QUERIES]

SPECS = searchx.SPECS + field.SPECS + kwindex.SPECS + topicx.SPECS
for group, q, i in ((MUTATORS, 0, 0), (SEARCH, 1, 0), (INITS, 0, 1)):
    for m, names in group:
        for c in names.split():
            k = framed(getattr(m, c), q, i)
            SPECS = SPECS + [k()]
            if i:
                SPECS.append(default(k)())
