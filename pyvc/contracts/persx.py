"""C23: no change to a non-persistent part goes unregistered.

Ghost state: dirty(r) - the object r, which is no persistent object (a dict,
a list, a Python set, an instance of a class that does not derive from
Persistent), was changed in place; saved(r) - r was put into a persistent
container or attribute during the call, so that it will be written.  At every
exit of every mutator no object that the index refers to is dirty and not
saved, the parts of the index are persistent objects themselves, and
attributes are set on instances of Persistent classes only (or on an object
under construction).  What is reachable is then exactly what is in memory
after the commit, by the contract of persistent/ZODB."""
import z3
from core import *      # noqa: F403
import models as M
from contract import Clause
import lib
import framex
import famx
import field
import kwindex
import topicx
import textx
import lexx
import setopsx

P = 'C23'
I_, B_ = z3.IntSort(), z3.BoolSort()
sel = z3.Select
ATTRS, STRUCTS, OVERRIDES, EXTERNALS = (
    framex.ATTRS, framex.STRUCTS, framex.OVERRIDES, framex.EXTERNALS)


def flag(I, name, t, f):
    ctx = I.ctx
    old = ctx.comp(name, B_)
    ctx.wr(t, name, None, z3.Or(sel(old, t), f))


def on_write(I, ref, what):
    ctx = I.ctx
    ct = ref.ct
    if ct is None or ct.name == 'Length':
        return
    if isinstance(ct, StructCT):
        for cn, (mod, name) in ct.where.items():
            c = I.module_global(ctx.program.module(mod), name)
            if I.is_persistent(c):
                return
        f = z3.BoolVal(True)
    elif isinstance(ct, (SetCT, MapCT)):
        k = ctx.kind(ref)
        f = z3.And(*[k != i for i in lib.PERSISTENT])
    else:
        f = z3.BoolVal(True)
    f = z3.simplify(f)
    if not z3.is_false(f):
        flag(I, 'dirty', ref.t, f)


def on_mapset(I, ref, d, olds, kt, terms):
    if isinstance(ref.ct.val, TRefT):
        k = I.ctx.kind(ref)
        flag(I, 'saved', terms[0], z3.simplify(
            z3.Or(*[k == i for i in lib.PERSISTENT])))


def on_setattr(I, o, name, v):
    if isinstance(v, Ref) and I.is_persistent(o.cls):
        flag(I, 'saved', v.t, z3.BoolVal(True))


HOOKS = dict(on_write=on_write, on_mapset=on_mapset, on_setattr=on_setattr)


def framed(cls, full):
    class F(cls):
        props = (P,)
        soft = False
        inline = True

        def ensures(self, S0, S, a, res):
            out = [c for c in cls.ensures(self, S0, S, a, res)
                   if c.props == (P,)]
            s, s0 = S.state, S0.state
            I = S.ctx.interp
            for oid in sorted(s0.objs):
                at, at0 = s.objs.get(oid, {}), s0.objs[oid]
                o = [x for x in a if isinstance(x, Obj) and x.oid == oid]
                if o and at0 and any(at.get(n) is not at0.get(n)
                                     for n in set(at) | set(at0)):
                    out.append(Clause(
                        'attributes are set on a persistent object',
                        bool(I.is_persistent(o[0].cls))))
                elif o and full:
                    out.append(Clause('the class is persistent', bool(
                        I.is_persistent(o[0].cls))))
            return out
    F.opts = {**cls.opts, **{k: both(cls.opts.get(k), f)
                             for k, f in HOOKS.items()}}
    F.__name__ = F.__qualname__ = cls.__name__ + 'Stored'
    return F


def both(f, g):
    if f is None:
        return g

    def h(*a):
        f(*a)
        g(*a)
    return h


def hooked(specs):
    """The contracts of callees, verified with the same ghost state."""
    out = []
    for s in specs:
        n = type(s).__name__
        k = type(n, (type(s),), {'opts': {**s.opts, **{
            k: both(s.opts.get(k), f) for k, f in HOOKS.items()}}})
        k.__module__ = type(s).__module__
        out.append(k())
    return out


MUTATORS = famx.MUTATORS + famx.INITS + [
    (lexx, 'Source SourceList SourceNone Init')]

SPECS = hooked(setopsx.SPECS + textx.SPECS + field.SPECS + kwindex.SPECS +
               topicx.SPECS)
for m, names in MUTATORS:
    for c in names.split():
        SPECS.append(framed(getattr(m, c), c[0] != 'F')())
