"""Assumed contracts of builtins, BTrees and other libraries (trusted base).

Every function here describes what a library object does to the symbolic
heap.  Nothing in this file comes from zope.index.
"""
import ast
import z3
from core import *      # noqa: F403
from core import _arr

I_ = z3.IntSort()
R_ = z3.RealSort()
B_ = z3.BoolSort()

LO32, HI32 = -2**31, 2**31 - 1
LO64, HI64 = -2**63, 2**63 - 1

_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


def sname(s):
    return s.sexpr().replace(' ', '_').replace('(', '<').replace(')', '>')


VALNONE = z3.Real('valconst!None')


def bt(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def mkbool(t):
    if isinstance(t, bool):
        return Const(t)
    s = z3.simplify(t)
    if z3.is_true(s):
        return TRUE
    if z3.is_false(s):
        return FALSE
    return Sym(TBool, t)


def add_fact(ctx, f):
    """Assume a library fact once per path."""
    i = f.get_id()
    for p in ctx.state.pc:
        if p.get_id() == i:
            return
    ctx.state.pc.append(f)


# ------------------------------------------------------------------- measures

def card_f(m):
    return uf('card!' + sname(m.sort()), m.sort(), I_)


def card(ctx, m, facts=True):
    t = card_f(m)(m)
    if facts:
        add_fact(ctx, t >= 0)
        add_fact(ctx, (t == 0) == (m == z3.K(m.sort().domain(),
                                             z3.BoolVal(False))))
    return t


def card_update(ctx, m, x, add):
    """Facts about the size of m with x added or removed."""
    m2 = z3.Store(m, x, z3.BoolVal(add))
    a, b = card(ctx, m), card(ctx, m2)
    d = z3.If(z3.Select(m, x), z3.IntVal(0 if add else 1),
              z3.IntVal(1 if add else 0))
    add_fact(ctx, b == (a + d if add else a - d))
    return m2


def msum_f(d, v):
    return uf('msum!' + sname(d.sort()), d.sort(), v.sort(), R_)


def msum(ctx, d, v):
    t = msum_f(d, v)(d, v)
    k = d.sort().domain()
    e = z3.K(k, z3.BoolVal(False))
    add_fact(ctx, z3.Implies(d == e, t == 0))
    return t


def enum_f(m):
    return uf('enum!' + sname(m.sort()), m.sort(), I_, m.sort().domain())


def rank_f(m):
    return uf('rank!' + sname(m.sort()), m.sort(), m.sort().domain(), I_)


def fresh_name(ctx, t, hint):
    """A constant equal to t (keeps patterns free of ite)."""
    if t.num_args() == 0:
        return t
    c = ctx.fresh(t.sort(), hint)
    ctx.state.pc.append(c == t)
    return c


def enum_set(ctx, m, ordered=False, hint='set'):
    """-> (n, enum(j), rank(x)) of the members of m."""
    n = card(ctx, m)
    mm = m
    E, K = enum_f(m), rank_f(m)
    j = z3.Int('j!en')
    x = z3.Const('x!en', m.sort().domain())
    if m.num_args() != 0:
        mm = ctx.fresh(m.sort(), hint)
        ctx.state.pc.append(mm == m)
    n2 = card_f(m)(mm)
    ctx.state.pc.append(n2 == n)
    add_fact(ctx, fa(j, z3.Implies(
        z3.And(0 <= j, j < n2),
        z3.And(z3.Select(mm, E(mm, j)), K(mm, E(mm, j)) == j)),
        [E(mm, j)]))
    add_fact(ctx, fa(x, z3.Implies(
        z3.Select(mm, x),
        z3.And(0 <= K(mm, x), K(mm, x) < n2, E(mm, K(mm, x)) == x)),
        [z3.Select(mm, x)]))
    add_fact(ctx, fa(x, z3.Implies(
        z3.Select(mm, x),
        z3.And(0 <= K(mm, x), K(mm, x) < n2, E(mm, K(mm, x)) == x)),
        [K(mm, x)]))
    if ordered:
        i = z3.Int('i!en')
        add_fact(ctx, fa([i, j], z3.Implies(
            z3.And(0 <= i, i < j, j < n2), E(mm, i) < E(mm, j)),
            [z3.MultiPattern(E(mm, i), E(mm, j))]))
    return n2, (lambda t: E(mm, t)), (lambda t: K(mm, t)), mm


# ------------------------------------------------------------- type inference

def scalar_type(v):
    if isinstance(v, Sym):
        return v.ty
    if isinstance(v, Const):
        x = v.value
        if isinstance(x, bool):
            return TBool
        if isinstance(x, int):
            return TInt
        if isinstance(x, float):
            return TReal
        if isinstance(x, str):
            return TWord
    return None


def infer(v, where='list'):
    """Static type for storing v in a container of unknown type."""
    if isinstance(v, Tup):
        return TTuple([infer(x, 'tuple') for x in v.items])
    if isinstance(v, Ref):
        if v.ct is None:
            raise Unsupported('container of a container of unknown type')
        return TRefT(v.ct, v.nullable)
    if hasattr(v, 'type_v'):
        return v.type_v
    t = scalar_type(v)
    if t is None:
        raise Unsupported(f'type of {v}')
    if t is TInt and (where == 'map' or
                      (where == 'tuple' and isinstance(v, Const))):
        return TReal
    return t


# ------------------------------------------------------------ families, types

class FamV(V):
    """A BTrees family: f64 tells its width."""

    def __init__(self, f64):
        self.f64 = f64


class ModFamV(V):
    """family.IF and the like."""

    def __init__(self, pref, f64):
        self.pref = pref
        self.f64 = f64


class ContV(V):
    """A container class: IF.Set, OO.BTree, dict, list ..."""

    def __init__(self, pref, shape, f64=None):
        self.pref = pref
        self.shape = shape
        self.f64 = f64
        self.name = f'{pref}.{shape}'

    def call_v(self, I, args, kwargs):
        return construct(I, self, args, kwargs)

    def __repr__(self):
        return f'ContV({self.name})'


class TypeV(V):
    """A builtin type used for isinstance or as constructor."""

    def __init__(self, name):
        self.name = name

    def call_v(self, I, args, kwargs):
        return call_type(I, self.name, args, kwargs)

    def __repr__(self):
        return f'TypeV({self.name})'


class StrV(V):
    """Placeholder of symbolic character sequences (see strings.py)."""

    def __init__(self, n=None, at=None):
        self.n = n
        self.at = at

    @staticmethod
    def shape():
        return StrV()

    @staticmethod
    def fresh(ctx, hint):
        n = ctx.fresh_int(hint + '_n')
        at = ctx.fresh(_arr(I_, I_), hint + '_at')
        ctx.assume(n >= 0)
        return StrV(n, at)

    def same(self, o):
        return isinstance(o, StrV) and self.n is not None and \
            o.n is not None and self.n.eq(o.n) and self.at.eq(o.at)


SETS = ('Set', 'TreeSet')
MAPS = ('BTree', 'Bucket')


def f64_of(c):
    return bt(c.f64) if c.f64 is not None else z3.BoolVal(False)


def key_type(pref, hint=None):
    return {'I': TInt, 'L': TInt, 'O': hint or TVal}[pref[0]]


def construct(I, c, args, kwargs):
    ctx = I.ctx
    if kwargs:
        raise Unsupported('keyword arguments of a container')
    if c.shape in SETS:
        kind = KIND[c.shape]
        if c.pref[0] == 'O':
            if not args:
                r = ctx.new_cell('OOSet')
                r.cell.kind = kind
                return r
            src = seq(I, args[0])
            r = set_of_seq(I, src, None, kind)
            return r
        ct = SetCT(TInt)
        ctx.container_made(ct, f64_of(c))
        r = ctx.alloc(ct, None, kind, f64_of(c))
        if args and not (isinstance(args[0], Const) and
                         args[0].value is None):
            fill_set(I, r, args[0])
        return r
    if c.shape in MAPS:
        kind = KIND[c.shape]
        if c.pref in ('IF', 'II', 'LF', 'LL'):
            ct = MapCT(TInt, TReal)
            ctx.container_made(ct, f64_of(c))
            r = ctx.alloc(ct, None, kind, f64_of(c))
        elif c.pref == 'OI':
            ct = MapCT(TWord, TInt)
            r = ctx.alloc(ct, None, kind, f64_of(c))
        else:
            r = ctx.new_cell(c.pref)
            r.cell.kind = kind
            r.cell.f64 = f64_of(c)
            r.cell.quiet = c.pref[0] == 'O'
        if args and not (isinstance(args[0], Const) and
                         args[0].value is None):
            map_update(I, r, args[0])
        return r
    raise Unsupported(f'construct {c}')


def call_type(I, name, args, kwargs):
    ctx = I.ctx
    a = args[0] if args else None
    if name == 'dict':
        r = make_dict(I)
        if args:
            map_update(I, r, a)
        for k, v in (kwargs or {}).items():
            setitem(I, r, Const(k), v)
        return r
    if name == 'list':
        return to_list(I, a) if args else make_list(I, [])
    if name == 'tuple':
        if a is None:
            return Tup([])
        if isinstance(a, Tup):
            return a
        it = iterate(I, a)
        if it.elems is not None:
            return Tup(it.elems)
        r = to_list(I, a)
        return r
    if name in ('set', 'frozenset'):
        if a is None:
            r = ctx.new_cell('pyset')
            r.cell.kind = KIND['pyset']
            return r
        return set_of_seq(I, seq(I, a), None, KIND['pyset'])
    if name == 'bool':
        return mkbool(bt(truth_term(I, a))) if args else FALSE
    if name == 'int':
        if a is None:
            return Const(0)
        if isinstance(a, Const) and isinstance(a.value, (int, float)):
            return Const(int(a.value))
        t = scalar_type(a)
        if t in (TInt, TBool):
            return Sym(TInt, ctx.coerce(a, TInt))
        if t is TReal:
            s = z3.simplify(a.t)
            if z3.is_to_real(s):
                return Sym(TInt, s.arg(0))
            h = ctx.opts.get('integers')
            for c in (h(ctx) if h else ()):
                for c in (c, -c):
                    if ctx.quick(a.t == z3.ToReal(c), 700):
                        return Sym(TInt, c)
            n = ctx.fresh_int('trunc')
            x = z3.ToReal(n)
            ctx.assume(z3.Implies(a.t >= 0, z3.And(x <= a.t, a.t < x + 1)))
            ctx.assume(z3.Implies(a.t <= 0, z3.And(x >= a.t, a.t > x - 1)))
            return Sym(TInt, n)
        raise Unsupported(f'int({a})')
    if name == 'float':
        if isinstance(a, Const) and isinstance(a.value, (int, float)):
            return Const(float(a.value))
        return Sym(TReal, ctx.coerce(a, TReal))
    if name == 'str':
        if scalar_type(a) is TWord:
            return a
        return Opaque('str')
    if name == 'object':
        ctx.oid_ctr += 1
        return Opaque(f'object#{ctx.oid_ctr}')
    if name == 'type':
        return type_of(I, a)
    raise Unsupported(f'{name}()')


def type_of(I, a):
    if isinstance(a, Obj):
        return a.cls
    if isinstance(a, Ref):
        a = deref(I, a)
        if isinstance(a.ct, ListCT) or (a.cell and a.cell.flavor == 'list'):
            return TypeV('list')
        if a.cell and a.cell.flavor == 'dict':
            return TypeV('dict')
    if isinstance(a, Tup):
        return TypeV('tuple')
    if isinstance(a, Const):
        return TypeV(type(a.value).__name__)
    raise Unsupported(f'type({a})')


# ----------------------------------------------------------------- isinstance

def isinstance_term(I, v, ty):
    ctx = I.ctx
    if isinstance(ty, Tup):
        return z3.Or(*[bt(isinstance_term(I, v, t)) for t in ty.items]) \
            if ty.items else False
    if isinstance(v, Ref) and v.nullable:
        if ctx.branch(v.t == 0):
            v = NONE
        else:
            v = deref(I, v)
    if isinstance(ty, ClassInfo_()):
        if isinstance(v, Obj):
            return ty in I.mro(v.cls)
        if isinstance(v, Ref) and isinstance(v.ct, StructCT):
            if v.cls is not None:
                ci = struct_class(I, v.ct, v.cls)
                return ty in I.mro(ci)
            tag = ctx.rd(v.t, f'{v.ct.name}.cls', I_)
            ok = []
            for k, cn in enumerate(v.ct.classes):
                ci = struct_class(I, v.ct, cn)
                if ty in I.mro(ci):
                    ok.append(tag == k + 1)
            return z3.Or(*ok) if ok else False
        if hasattr(v, 'isinstance_v'):
            return v.isinstance_v(I, ty)
        return False
    if isinstance(ty, ContV):
        if not isinstance(v, Ref):
            return False
        if v.ct is None:
            c = v.cell
            if c.flavor in ('list', 'pyset', 'dict'):
                return False
            return getattr(c, 'kind', None) == KIND[ty.shape]
        want = SetCT if ty.shape in SETS else MapCT
        if not isinstance(v.ct, want):
            return False
        if isinstance(v.ct, SetCT) and (ty.pref[0] != 'O') != \
                (v.ct.elem is TInt):
            return False
        t = ctx.kind(v) == KIND[ty.shape]
        if ty.f64 is not None:
            t = z3.And(t, ctx.f64(v) == f64_of(ty))
        return t
    if isinstance(ty, TypeV):
        n = ty.name
        if n == 'object':
            return True
        if isinstance(v, ConstDict):
            return n == 'dict'
        if isinstance(v, Ref):
            if v.ct is None:
                return {'list': 'list', 'dict': 'dict',
                        'pyset': 'set'}.get(v.cell.flavor) == n
            if n == 'dict':
                if isinstance(v.ct, MapCT):
                    return ctx.kind(v) == KIND['dict']
                return False
            if n == 'list':
                if not isinstance(v.ct, ListCT):
                    return False
                return v.pytype == 'list' if hasattr(v, 'pytype') else True
            if n == 'tuple':
                return getattr(v, 'pytype', None) == 'tuple'
            return False
        if isinstance(v, Tup):
            return n == 'tuple'
        if hasattr(v, 'isinstance_v'):
            return v.isinstance_v(I, ty)
        t = scalar_type(v)
        if isinstance(v, StrV) or t is TWord:
            return n == 'str'
        if t is TInt:
            return n == 'int'
        if t is TReal:
            return n == 'float'
        if t is TBool:
            return n in ('bool', 'int')
        if isinstance(v, Const) and v.value is None:
            return n == 'NoneType'
        if isinstance(v, (Obj, GenV_())):
            return False
        if isinstance(v, Const):
            return n == type(v.value).__name__
        raise Unsupported(f'isinstance({v}, {n})')
    if isinstance(ty, ExtV_()):
        if ty.name == 'BTrees.Length.Length' or \
                ty.name == 'BTrees.Length':
            return isinstance(v, Ref) and v.ct is not None and \
                v.ct.name == 'Length'
        if isinstance(v, (Ref, Sym, Tup, Const, Obj, StrV)):
            raise Unsupported(f'isinstance(_, {ty.name})')
    if isinstance(ty, LengthClass):
        return isinstance(v, Ref) and v.ct is not None and \
            v.ct.name == 'Length'
    raise Unsupported(f'isinstance(_, {ty})')


def ClassInfo_():
    import interp
    return interp.ClassInfo


def GenV_():
    import interp
    return interp.GenV


def ExtV_():
    import interp
    return interp.ExtV


def struct_class(I, st, name):
    mod, cn = st.where[name]
    m = I.ctx.program.module(mod)
    return I.module_global(m, cn)


class LengthClass(V):
    name = 'Length'

    def call_v(self, I, args, kwargs):
        v = z3.IntVal(0)
        if args:
            v = I.ctx.coerce(args[0], TInt)
        return I.ctx.alloc(LENGTH, {'Length.v': v})


# ------------------------------------------------------------------- literals

def make_list(I, items):
    ctx = I.ctx
    if not items:
        return ctx.new_cell('list')
    r = ctx.new_cell('list')
    for v in items:
        list_append(I, r, v)
    return r


def make_dict(I):
    return I.ctx.new_cell('dict')


class ConstDict(V):
    """A dict whose keys are host constants (e.g. keyword tables)."""

    def __init__(self, d):
        self.d = d


def const_dict(I, items):
    d = {}
    for k, v in items:
        if not isinstance(k, Const):
            r = make_dict(I)
            for k, v in items:
                setitem(I, r, k, v)
            return r
        d[k.value] = v
    return ConstDict(d)


def make_pyset(I, items):
    r = I.ctx.new_cell('pyset')
    r.cell.kind = None
    for v in items:
        set_insert(I, r, v)
    return r


def set_from(I, lst):
    return set_of_seq(I, seq(I, lst), None, None)


# ----------------------------------------------------------------------- deref

def deref(I, r):
    if r.nullable:
        if I.ctx.branch(r.t == 0):
            I.raise_('AttributeError')
        n = Ref(r._ct, r.t, False, r.cls)
        return n
    return r


def resolve_as(I, ref, ct):
    if ref.ct is None:
        I.ctx.resolve(ref, ct)


def key_ct(I, k):
    t = scalar_type(k)
    if t is None:
        raise Unsupported(f'key {k}')
    return TInt if t is TBool else t


# ------------------------------------------------------------------------ sets

def on_write(I, ref, what):
    h = I.ctx.opts.get('on_write')
    if h:
        h(I, ref, what)


def check_id(I, ref, t):
    h = I.ctx.opts.get('on_key')
    if h:
        h(I, ref, t)


def set_insert(I, ref, v):
    ctx = I.ctx
    if ref.ct is None:
        resolve_as(I, ref, SetCT(key_ct(I, v)))
    x = ctx.coerce(v, ref.ct.elem)
    m = ctx.rd(ref.t, ref.ct.m, ref.ct.comps()[ref.ct.m])
    check_id(I, ref, x)
    on_write(I, ref, 'insert')
    m2 = card_update(ctx, m, x, True)
    ctx.wr(ref.t, ref.ct.m, None, m2)
    return m, x


def set_remove(I, ref, v, strict=True):
    ctx = I.ctx
    if ref.ct is None:
        if strict:
            I.raise_('KeyError')
        return
    x = ctx.coerce(v, ref.ct.elem)
    m = ctx.rd(ref.t, ref.ct.m, ref.ct.comps()[ref.ct.m])
    check_id(I, ref, x)
    if strict:
        if not ctx.branch(z3.Select(m, x)):
            I.raise_('KeyError')
    on_write(I, ref, 'remove')
    m2 = card_update(ctx, m, x, False)
    ctx.wr(ref.t, ref.ct.m, None, m2)


def content_m(ctx, ref):
    if isinstance(ref.ct, MapCT):
        return ctx.rd(ref.t, ref.ct.d, ref.ct.comps()[ref.ct.d])
    return ctx.rd(ref.t, ref.ct.m, ref.ct.comps()[ref.ct.m])


def set_of_seq(I, it, elem, kind, f64=None):
    """New set with the elements of a sequence view."""
    ctx = I.ctx
    if it.elems is not None and not it.elems:
        r = ctx.new_cell('OOSet' if kind else 'pyset')
        r.cell.kind = kind
        if elem is not None:
            resolve_as(I, r, SetCT(elem))
        return r
    if it.elems is not None:
        r = ctx.new_cell('OOSet' if kind else 'pyset')
        r.cell.kind = kind
        for v in it.elems:
            set_insert(I, r, v)
        return r
    j = ctx.fresh_int('j')
    v = it.get(j)
    ty = elem or infer(v)
    r = ctx.alloc(SetCT(ty), None, kind, f64)
    fill_from_view(I, r, it)
    return r


def fill_from_view(I, r, it):
    ctx = I.ctx
    old = content_m(ctx, r)
    S = ctx.fresh(old.sort(), 'setof')
    j = z3.Int('j!so')
    x = z3.Const('x!so', old.sort().domain())
    if it.mem is not None:
        memx = it.mem(x)
        ctx.assume(fa(x, z3.Select(S, x) == z3.Or(z3.Select(old, x), memx),
                      [z3.Select(S, x)]))
        if it.kind == 'set':
            # same content when the target was empty
            ctx.assume(z3.Implies(
                old == z3.K(old.sort().domain(), z3.BoolVal(False)),
                S == it.arr))
    else:
        e = ctx.coerce(it.get(j), r.ct.elem)
        h = h = it.get(j)
        w = uf(f'w!{ctx.fresh_int("so")}', x.sort(), I_)
        ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < it.n),
                                    z3.Select(S, e)), pats_for(e, j)))
        ew = ctx.coerce(it.get(w(x)), r.ct.elem)
        ctx.assume(fa(x, z3.Implies(
            z3.Select(S, x), z3.Or(
                z3.Select(old, x),
                z3.And(0 <= w(x), w(x) < it.n, ew == x))),
            [z3.Select(S, x)]))
        ctx.assume(fa(x, z3.Implies(z3.Select(old, x), z3.Select(S, x)),
                      [z3.Select(old, x)]))
    h = ctx.opts.get('on_keys')
    if h:
        h(I, r, S)
    on_write(I, r, 'update')
    ctx.wr(r.t, r.ct.m, None, S)
    card(ctx, S)


def pats_for(t, j):
    """A pattern out of term t for variable j, or None."""
    if contains_var(t, j) and t.decl().kind() in (
            z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and \
            not has_ite(t):
        return [t]
    return None


def has_ite(t):
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND,
                                            z3.Z3_OP_OR, z3.Z3_OP_NOT,
                                            z3.Z3_OP_EQ, z3.Z3_OP_LE):
        return True
    return any(has_ite(c) for c in t.children())


def contains_var(t, j):
    if t.eq(j):
        return True
    return any(contains_var(c, j) for c in t.children())


def fill_set(I, r, src):
    it = seq(I, src)
    if it.elems is not None:
        for v in it.elems:
            set_insert(I, r, v)
        return
    fill_from_view(I, r, it)


# ------------------------------------------------------------------------ maps

def map_resolve(I, ref, k, v):
    if ref.ct is None:
        pref = ref.cell.flavor
        kt = key_ct(I, k)
        if pref in ('IO', 'IOBTree', 'LO'):
            kt = TInt
        resolve_as(I, ref, MapCT(kt, infer(v, 'map')))


def map_get_terms(ctx, ref, k):
    c = ref.ct
    return [z3.Select(ctx.rd(ref.t, n, s), k)
            for n, s in zip(c.vs, [c.comps()[n] for n in c.vs])]


def map_dom(ctx, ref):
    return ctx.rd(ref.t, ref.ct.d, ref.ct.comps()[ref.ct.d])


def map_val(I, ref, k):
    v = ref.ct.val.unpack(map_get_terms(I.ctx, ref, k))
    if isinstance(v, (Ref, Tup)):
        mark_alloc(I, v)
    return v


def mark_alloc(I, v):
    """References read from the heap are allocated objects."""
    ctx = I.ctx
    if isinstance(v, Ref):
        ctx.assume(z3.And(v.t >= (0 if v.nullable else 1),
                          v.t < ctx.state.alloc))
    elif isinstance(v, Tup):
        for x in v.items:
            mark_alloc(I, x)


def map_set(I, ref, k, v):
    ctx = I.ctx
    map_resolve(I, ref, k, v)
    c = ref.ct
    if not isinstance(c, MapCT):
        raise Unsupported(f'item assignment on {c}')
    kt = ctx.coerce(k, c.key)
    check_id(I, ref, kt)
    on_write(I, ref, 'setitem')
    terms = c.val.pack(ctx, v)
    d = map_dom(ctx, ref)
    d2 = card_update(ctx, d, kt, True)
    olds = [ctx.rd(ref.t, n, c.comps()[n]) for n in c.vs]
    if 'msum' in ctx.opts.get('measures', ()) and c.val is TReal:
        v0 = olds[0]
        v2 = z3.Store(v0, kt, terms[0])
        add_fact(ctx, msum(ctx, d2, v2) == msum(ctx, d, v0) + terms[0] -
                 z3.If(z3.Select(d, kt), z3.Select(v0, kt),
                       z3.RealVal(0)))
    h = ctx.opts.get('on_mapset')
    if h:
        h(I, ref, d, olds, kt, terms)
    ctx.wr(ref.t, c.d, None, d2)
    for n, o, t in zip(c.vs, olds, terms):
        ctx.wr(ref.t, n, None, z3.Store(o, kt, t))


def map_del(I, ref, k, strict=True):
    ctx = I.ctx
    if ref.ct is None:
        if strict:
            I.raise_('KeyError')
        return
    c = ref.ct
    kt = ctx.coerce(k, c.key)
    check_id(I, ref, kt)
    d = map_dom(ctx, ref)
    if strict and not ctx.branch(z3.Select(d, kt)):
        I.raise_('KeyError')
    on_write(I, ref, 'delitem')
    d2 = card_update(ctx, d, kt, False)
    if 'msum' in ctx.opts.get('measures', ()) and c.val is TReal:
        v0 = ctx.rd(ref.t, c.vs[0], c.comps()[c.vs[0]])
        add_fact(ctx, msum(ctx, d2, v0) == msum(ctx, d, v0) -
                 z3.If(z3.Select(d, kt), z3.Select(v0, kt), z3.RealVal(0)))
    h = ctx.opts.get('on_mapdel')
    if h:
        h(I, ref, d, kt)
    ctx.wr(ref.t, c.d, None, d2)


def map_update(I, ref, src):
    """ref.update(src) for a mapping or a sequence of pairs."""
    ctx = I.ctx
    if isinstance(src, ConstDict):
        for k, v in src.d.items():
            map_set(I, ref, Const(k), v)
        return
    if isinstance(src, Ref):
        src = deref(I, src)
        if src.ct is None:
            return
        if isinstance(src.ct, MapCT):
            if ref.ct is None:
                resolve_as(I, ref, src.ct)
            if ref.ct.name != src.ct.name:
                raise Unsupported('update between maps of different types')
            on_write(I, ref, 'update')
            h = ctx.opts.get('on_keys')
            if h:
                h(I, ref, map_dom(ctx, src))
            empty = z3.K(src.ct.key.leaves()[0], z3.BoolVal(False))
            d0, d1 = map_dom(ctx, ref), map_dom(ctx, src)
            if z3.simplify(d0).eq(z3.simplify(empty)):
                for n, s in ref.ct.comps().items():
                    ctx.wr(ref.t, n, s, ctx.rd(src.t, n, s))
                return
            x = z3.Const('x!mu', d0.sort().domain())
            d2 = ctx.fresh(d0.sort(), 'upd')
            ctx.assume(fa(x, z3.Select(d2, x) == z3.Or(
                z3.Select(d0, x), z3.Select(d1, x)), [z3.Select(d2, x)]))
            vals = []
            for n in ref.ct.vs:
                s = ref.ct.comps()[n]
                a, b = ctx.rd(ref.t, n, s), ctx.rd(src.t, n, s)
                v2 = ctx.fresh(s, 'updv')
                ctx.assume(fa(x, z3.Select(v2, x) == z3.If(
                    z3.Select(d1, x), z3.Select(b, x), z3.Select(a, x)),
                    [z3.Select(v2, x)]))
                vals.append((n, s, v2))
            ctx.wr(ref.t, ref.ct.d, None, d2)
            for n, s, v2 in vals:
                ctx.wr(ref.t, n, s, v2)
            return
    it = seq(I, src)
    if it.elems is not None:
        for p in it.elems:
            k, v = unpack(I, p, [0, 0])
            map_set(I, ref, k, v)
        return
    raise Unsupported('mapping from a symbolic sequence of pairs')


# ----------------------------------------------------------------------- lists

class ListMeasure:
    """A sum over the elements of a list (ghost): term(arrs, n) is the sum of
    f over the first n elements; how the operations on lists change it is a
    fact about sums."""

    def __init__(self, name, match, f, sort, count=False):
        self.name, self.match, self.f, self.sort = name, match, f, sort
        self.count = count      # f is 0 or 1

    def fn(self, arrs):
        return uf('lm!' + self.name, *[a.sort() for a in arrs], I_,
                  self.sort)

    def term(self, ctx, arrs, n):
        t = self.fn(arrs)(*arrs, n)
        add_fact(ctx, z3.Implies(n <= 0, t == 0))
        if self.count:
            add_fact(ctx, z3.Implies(n >= 0, z3.And(t >= 0, t <= n)))
        return t

    def step(self, ctx, arrs, k):
        k = z3.simplify(k)
        add_fact(ctx, z3.Implies(k >= 0, self.term(
            ctx, arrs, z3.simplify(k + 1)) == self.term(ctx, arrs, k) +
            self.f(ctx, [z3.Select(a, k) for a in arrs])))


def lmeasures(ctx, ct):
    return [m for m in ctx.opts.get('list_measures', ())
            if isinstance(ct, ListCT) and m.match(ct)]


def list_n(ctx, ref):
    if ref.ct is None:
        return z3.IntVal(0)
    return ctx.rd(ref.t, ref.ct.n, I_)


def list_terms(ctx, ref):
    c = ref.ct
    return [ctx.rd(ref.t, n, c.comps()[n]) for n in c.es]


def list_get(I, ref, j, terms=None):
    ctx = I.ctx
    ts = terms if terms is not None else list_terms(ctx, ref)
    return ref.ct.elem.unpack([z3.Select(t, j) for t in ts])


def list_resolve(I, ref, v):
    if ref.ct is None:
        if ref.cell.flavor != 'list':
            raise Unsupported('list operation on ' + ref.cell.flavor)
        resolve_as(I, ref, ListCT(infer(v)))
    if not isinstance(ref.ct, ListCT):
        raise Unsupported(f'list operation on {ref.ct}')


def list_append(I, ref, v):
    ctx = I.ctx
    ref = deref(I, ref)
    list_resolve(I, ref, v)
    on_write(I, ref, 'append')
    terms = ref.ct.elem.pack(ctx, v)
    n = list_n(ctx, ref)
    olds = list_terms(ctx, ref)
    h = ctx.opts.get('on_append')
    if h:
        h(I, ref, n, olds, terms)
    for name, o, t in zip(ref.ct.es, olds, terms):
        ctx.wr(ref.t, name, None, z3.Store(o, n, t))
    ctx.wr(ref.t, ref.ct.n, I_, n + 1)
    for m in lmeasures(ctx, ref.ct):
        add_fact(ctx, m.term(ctx, list_terms(ctx, ref), n + 1) ==
                 m.term(ctx, olds, n) + m.f(ctx, terms))
    return NONE


def list_extend(I, ref, src):
    ctx = I.ctx
    it = seq(I, src)
    if it.elems is not None:
        for v in it.elems:
            list_append(I, ref, v)
        return NONE
    j = z3.Int('j!ex')
    if ref.ct is None:
        probe = ctx.fresh_int('j')
        resolve_as(I, ref, ListCT(infer(it.get(probe))))
    on_write(I, ref, 'extend')
    n = list_n(ctx, ref)
    c = ref.ct
    news = c.elem.pack(ctx, it.get(j - n))
    if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0 \
            and getattr(it, 'arrs', None) is not None:
        for name, a in zip(c.es, it.arrs):
            ctx.wr(ref.t, name, None, a)
        ctx.wr(ref.t, c.n, I_, it.n)
        return NONE
    for name, o, t in zip(c.es, list_terms(ctx, ref), news):
        a = ctx.fresh(c.comps()[name], 'ext')
        ctx.assume(fa(j, z3.Select(a, j) == z3.If(
            z3.And(n <= j, j < n + it.n), t, z3.Select(o, j)),
            [z3.Select(a, j)]))
        # elements of the source show up at their new place
        src_t = c.elem.pack(ctx, it.get(j))[c.es.index(name)]
        p = pats_for(src_t, j)
        if p:
            ctx.assume(fa(j, z3.Implies(
                z3.And(0 <= j, j < it.n),
                z3.Select(a, n + j) == src_t), p))
        ctx.wr(ref.t, name, None, a)
    ctx.wr(ref.t, c.n, I_, n + it.n)
    return NONE


def new_list(I, elem, n, arrs):
    ctx = I.ctx
    ct = ListCT(elem)
    c = {ct.n: n}
    for name, a in zip(ct.es, arrs):
        c[name] = a
    return ctx.alloc(ct, c)


def to_list(I, src):
    """list(src): a fresh list."""
    ctx = I.ctx
    if isinstance(src, GenV_()):
        it = iterate(I, src)
        r = view_to_list(I, it)
        exhaust(I, src)
        return r
    return view_to_list(I, seq(I, src))


def view_to_list(I, it, elem=None):
    ctx = I.ctx
    if it.elems is not None:
        return make_list(I, it.elems)
    j = z3.Int('j!tl')
    v = it.get(j)
    ty = elem or infer(v)
    if getattr(it, 'arrs', None) is not None and ty == getattr(
            it, 'elem', None):
        return new_list(I, ty, it.n, it.arrs)
    arrs = []
    for t in ty.pack(ctx, v):
        a = ctx.fresh(_arr(I_, t.sort()), 'tl')
        ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < it.n),
                                    z3.Select(a, j) == t),
                      [z3.Select(a, j)]))
        p = pats_for(t, j)
        if p:
            ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < it.n),
                                        z3.Select(a, j) == t), p))
        arrs.append(a)
    r = new_list(I, ty, it.n, arrs)
    ctx.assume(it.n >= 0)
    if getattr(it, 'arrs', None) is not None:
        for m in lmeasures(ctx, r.ct):
            add_fact(ctx, m.term(ctx, arrs, it.n) ==
                     m.term(ctx, it.arrs, it.n))
    return r


def list_insert(I, ref, iv, v):
    ctx = I.ctx
    list_resolve(I, ref, v)
    on_write(I, ref, 'insert')
    n = list_n(ctx, ref)
    i = ctx.coerce(iv, TInt)
    i = norm_index(ctx, i, n, clamp=True)
    c = ref.ct
    j = z3.Int('j!in')
    terms = c.elem.pack(ctx, v)
    olds = list_terms(ctx, ref)
    for name, o, t in zip(c.es, olds, terms):
        a = ctx.fresh(c.comps()[name], 'ins')
        ctx.assume(fa(j, z3.Select(a, j) == z3.If(
            j < i, z3.Select(o, j),
            z3.If(j == i, t, z3.Select(o, j - 1))), [z3.Select(a, j)]))
        if not ctx.opts.get('one_way'):
            ctx.assume(fa(j, z3.If(
                j < i, z3.Select(a, j) == z3.Select(o, j),
                z3.Select(a, j + 1) == z3.Select(o, j)), [z3.Select(o, j)]))
        ctx.wr(ref.t, name, None, a)
    h = ctx.opts.get('on_insert')
    if h:
        h(I, ref, n, i, terms)
    ctx.wr(ref.t, c.n, I_, n + 1)
    for m in lmeasures(ctx, c):
        add_fact(ctx, m.term(ctx, list_terms(ctx, ref), n + 1) ==
                 m.term(ctx, olds, n) + m.f(ctx, terms))
    return NONE


def norm_index(ctx, i, n, clamp=False):
    s = z3.simplify(i)
    if z3.is_int_value(s):
        if s.as_long() >= 0 and not clamp:
            return s
        if s.as_long() < 0:
            i2 = n + s
            return z3.If(i2 < 0, z3.IntVal(0), i2) if clamp else i2
        if s.as_long() == 0:
            return s
    if ctx.quick(i >= 0):
        if clamp:
            if ctx.quick(i <= n):
                return i
            return z3.If(i > n, n, i)
        return i
    i2 = z3.If(i < 0, i + n, i)
    if clamp:
        return z3.If(i2 < 0, z3.IntVal(0), z3.If(i2 > n, n, i2))
    return i2


def list_delat(I, ref, i):
    ctx = I.ctx
    c = ref.ct
    on_write(I, ref, 'del')
    n = list_n(ctx, ref)
    j = z3.Int('j!dl')
    h = ctx.opts.get('on_delat')
    if h:
        h(I, ref, n, i)
    olds = list_terms(ctx, ref)
    for name, o in zip(c.es, olds):
        a = ctx.fresh(c.comps()[name], 'del')
        ctx.assume(fa(j, z3.Select(a, j) == z3.If(
            j < i, z3.Select(o, j), z3.Select(o, j + 1)),
            [z3.Select(a, j)]))
        if not ctx.opts.get('one_way'):
            ctx.assume(fa(j, z3.And(
                z3.Implies(j < i, z3.Select(a, j) == z3.Select(o, j)),
                z3.Implies(j > i, z3.Select(a, j - 1) == z3.Select(o, j))),
                [z3.Select(o, j)]))
        ctx.wr(ref.t, name, None, a)
    ctx.wr(ref.t, c.n, I_, n - 1)
    for m in lmeasures(ctx, c):
        add_fact(ctx, z3.Implies(
            z3.And(0 <= i, i < n),
            m.term(ctx, list_terms(ctx, ref), n - 1) ==
            m.term(ctx, olds, n) - m.f(
                ctx, [z3.Select(a, i) for a in olds])))


def list_pop(I, ref, iv=None):
    ctx = I.ctx
    if ref.ct is None:
        I.raise_('IndexError')
    n = list_n(ctx, ref)
    if not ctx.branch(n > 0):
        I.raise_('IndexError')
    if iv is None:
        v = list_get(I, ref, n - 1)
        mark_alloc(I, v)
        on_write(I, ref, 'pop')
        h = ctx.opts.get('on_delat')
        if h:
            h(I, ref, n, n - 1)
        ctx.wr(ref.t, ref.ct.n, I_, n - 1)
        for m in lmeasures(ctx, ref.ct):
            m.step(ctx, list_terms(ctx, ref), n - 1)
        return v
    i = norm_index(ctx, ctx.coerce(iv, TInt), n)
    if not ctx.branch(z3.And(0 <= i, i < n)):
        I.raise_('IndexError')
    v = list_get(I, ref, i)
    mark_alloc(I, v)
    list_delat(I, ref, i)
    return v


def list_slice(I, it_n, get, elem, lo, hi, arrs=None):
    """Fresh list with the elements lo..hi (terms, already clamped)."""
    ctx = I.ctx
    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    n = z3.simplify(n)
    j = z3.Int('j!sl')
    out = []
    ts = elem.pack(ctx, get(j + lo))
    for t in ts:
        a = ctx.fresh(_arr(I_, t.sort()), 'slice')
        ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < n),
                                    z3.Select(a, j) == t),
                      [z3.Select(a, j)]))
        out.append(a)
    src = elem.pack(ctx, get(j))
    for a, t in zip(out, src):
        p = pats_for(t, j)
        if p:
            ctx.assume(fa(j, z3.Implies(
                z3.And(lo <= j, j < hi), z3.Select(a, j - lo) == t), p))
    return new_list(I, elem, n, out)


# ------------------------------------------------------------------- iteration

def seq(I, v):
    """IterV of any iterable value; generators are consumed."""
    it = iterate(I, v)
    if isinstance(v, GenV_()):
        exhaust(I, v)
    return it


def iterate(I, v):
    ctx = I.ctx
    if isinstance(v, IterV):
        return v
    if isinstance(v, Tup):
        return IterV(z3.IntVal(len(v.items)), None, elems=list(v.items))
    if isinstance(v, GenV_()):
        g = ctx.state.objs[v.oid]
        it, pos = g['list'], g['pos']
        if isinstance(pos, int) and pos == 0:
            return it
        if it.elems is not None and isinstance(pos, int):
            return IterV(z3.IntVal(len(it.elems) - pos), None,
                         elems=it.elems[pos:])
        p = pos if not isinstance(pos, int) else z3.IntVal(pos)
        return IterV(it.n - p, lambda j: it.get(j + p), kind='tail')
    if isinstance(v, ConstDict):
        return IterV(z3.IntVal(len(v.d)), None,
                     elems=[Const(k) for k in v.d])
    if isinstance(v, Const) and isinstance(v.value, (str, tuple, list)):
        return IterV(z3.IntVal(len(v.value)), None,
                     elems=[Const(x) for x in v.value])
    if isinstance(v, Const) and isinstance(v.value, range):
        return IterV(z3.IntVal(len(v.value)), None,
                     elems=[Const(x) for x in v.value]) \
            if len(v.value) <= 100000 else None
    if isinstance(v, Ref):
        v = deref(I, v)
        if v.ct is None:
            return IterV(z3.IntVal(0), None, elems=[])
        if isinstance(v.ct, ListCT):
            return list_view(I, v)
        if isinstance(v.ct, SetCT):
            return set_view(I, v)
        if isinstance(v.ct, MapCT):
            return map_view(I, v, 'keys')
        if isinstance(v.ct, StructCT):
            raise Unsupported('iteration over a node')
    if isinstance(v, Obj):
        a = I.class_attr(v.cls, '__iter__')
        if a is not None:
            return iterate(I, I.call(a, [v]))
    if hasattr(v, 'iter_v'):
        return v.iter_v(I)
    if isinstance(v, Const) or isinstance(v, Sym):
        I.raise_('TypeError')
    raise Unsupported(f'iteration over {v}')


def list_view(I, v):
    ctx = I.ctx
    n = list_n(ctx, v)
    ts = list_terms(ctx, v)
    s = z3.simplify(n)
    add_fact(ctx, n >= 0)

    def get(j):
        x = v.ct.elem.unpack([z3.Select(t, j) for t in ts])
        return x
    it = IterV(n, get)
    if z3.is_int_value(s) and s.as_long() <= 64:
        it.elems = [v.ct.elem.unpack(
            [z3.simplify(z3.Select(t, z3.IntVal(k))) for t in ts])
            for k in range(s.as_long())]
        for x in it.elems:
            if isinstance(x, (Ref, Tup)):
                mark_alloc(I, x)
    it.arrs = ts
    it.elem = v.ct.elem
    it.ref = v

    def check(I2):
        if not I2.ctx.quick(list_n(I2.ctx, v) == n):
            raise Unsupported('list changed while iterating')
    it.check = check
    if v.ct.elem in (TInt, TReal, TVal, TWord):
        it.mem = None
    return it


def wants_order(ctx, key):
    c = ctx.contract
    return bool(c is not None and getattr(c, 'ordered', False))


def set_view(I, v):
    ctx = I.ctx
    m = content_m(ctx, v)
    n, e, k, mm = enum_set(ctx, m, wants_order(ctx, v.ct.elem))
    ty = v.ct.elem
    it = IterV(n, lambda j: Sym(ty, e(j)), mem=lambda x: z3.Select(mm, x),
               idx=k, kind='set')
    it.arr = mm
    it.elem = ty

    def check(I2):
        c2 = I2.ctx
        if I2.dry:
            return
        cur = content_m(c2, v)
        if cur.eq(m):
            return
        c2.prove(cur == m, f'{c2.line}: set not changed while iterating')
    it.check = check
    return it


def map_view(I, v, what, lo=None, hi=None, xlo=False, xhi=False):
    """keys/values/items of a map, optionally limited to a key range."""
    ctx = I.ctx
    d = map_dom(ctx, v)
    kt = v.ct.key
    if lo is not None or hi is not None:
        D = ctx.fresh(d.sort(), 'rng')
        x = z3.Const('x!rg', d.sort().domain())
        ctx.assume(fa(x, z3.Select(D, x) == z3.And(
            z3.Select(d, x), in_range(x, kt, lo, hi, xlo, xhi)),
            [z3.Select(D, x)]))
        ctx.assume(fa(x, z3.Select(D, x) == z3.And(
            z3.Select(d, x), in_range(x, kt, lo, hi, xlo, xhi)),
            [z3.Select(d, x)]))
    else:
        D = d
    n, e, k, mm = enum_set(ctx, D, wants_order(ctx, kt))
    ct = v.ct
    snap = [ctx.rd(v.t, nm, ct.comps()[nm]) for nm in ct.vs]

    def get(j):
        # items()/values() of BTrees and dicts read the current value
        key = Sym(kt, e(j))
        if what == 'keys':
            return key
        cur = [I.ctx.rd(v.t, nm, ct.comps()[nm]) for nm in ct.vs]
        val = ct.val.unpack([z3.Select(t, e(j)) for t in cur])
        if what == 'values':
            return val
        return Tup([key, val])
    it = IterV(n, get, mem=lambda x: z3.Select(mm, x), idx=k,
               kind='set' if what == 'keys' else 'map' + what)
    it.arr = mm
    it.elem = kt if what == 'keys' else None
    it.key = e
    it.what = what
    it.ref = v

    def check(I2):
        c2 = I2.ctx
        if I2.dry:
            return
        cur = map_dom(c2, v)
        if cur.eq(d):
            return
        c2.prove(cur == d, f'{c2.line}: map keys not changed while iterating')
    it.check = check
    return it


def in_range(x, kt, lo, hi, xlo=False, xhi=False):
    c = []
    if lo is not None:
        f = x > lo if xlo else x >= lo
        c.append(z3.Or(lo == VALNONE, f) if kt is TVal else f)
    if hi is not None:
        f = x < hi if xhi else x <= hi
        c.append(z3.Or(hi == VALNONE, f) if kt is TVal else f)
    return z3.And(*c) if c else z3.BoolVal(True)


def make_iterator(I, v):
    ctx = I.ctx
    if isinstance(v, GenV_()):
        return v
    it = iterate(I, v)
    ctx.oid_ctr += 1
    g = GenV_()(ctx.oid_ctr)
    ctx.state.objs[g.oid] = {'list': it, 'pos': 0}
    if isinstance(v, Ref) and isinstance(v.ct, ListCT):
        ctx.state.objs[g.oid]['ref'] = v
    return g


def exhaust(I, g):
    ctx = I.ctx
    o = dict(ctx.state.objs[g.oid])
    it = o['list']
    o['pos'] = len(it.elems) if it.elems is not None else it.n
    ctx.state.objs[g.oid] = o


# -------------------------------------------------------- pure function bodies

class Path:
    def __init__(self, kind, value, delta, fresh):
        self.kind = kind        # 'val' | 'skip' | 'raise'
        self.value = value
        self.delta = delta
        self.fresh = fresh


def summarise(I, fn, muted=None):
    """All outcomes of fn() from here; the heap may only grow."""
    ctx = I.ctx
    base_n = len(ctx.state.pc)
    start = len(ctx.fresh_log)

    class Skip(BaseException):
        pass

    def run():
        log0 = len(ctx.fresh_log)
        try:
            v = fn(Skip)
            r = ('val', v)
        except Skip:
            r = ('skip', None)
        except PyRaise as e:
            r = ('raise', e)
        return r + (list(ctx.fresh_log[log0:]),)
    m = muted if muted is not None else ctx.exp.replaying
    base = ctx.state
    heap0 = dict(base.heap)
    out = []
    for (kind, v, fr), st in ctx.explore_sub(run, muted=m):
        for k, t in st.heap.items():
            t0 = heap0.get(k)
            if t0 is None:
                if t.num_args() == 0:
                    base.heap.setdefault(k, t)
                    continue
                raise Unsupported('effects in a comprehension')
            if not t0.eq(t):
                raise Unsupported('effects in a comprehension')
        for oid, at in base.objs.items():
            for n, x in at.items():
                if not I.same(x, st.objs[oid].get(n)):
                    raise Unsupported('effects in a comprehension')
        out.append(Path(kind, v, st.pc[base_n:], fr))
    return out


def skolemise(paths, j):
    """Replace path-local constants by functions of j (in place)."""
    for p in paths:
        sub = []
        for c in p.fresh:
            f = z3.Function(f'sk!{c.decl().name()}', j.sort(), c.sort())
            sub.append((c, f(j)))
        p.sub = sub


def inst(p, t, j, new):
    """Term t of path p at position new instead of j."""
    if p.sub:
        t = z3.substitute(t, *p.sub)
    return z3.substitute(t, (j, new))


def inst_v(p, v, j, new):
    if isinstance(v, Sym):
        return Sym(v.ty, inst(p, v.t, j, new))
    if isinstance(v, Tup):
        return Tup([inst_v(p, x, j, new) for x in v.items])
    if isinstance(v, Ref):
        r = Ref(v._ct, inst(p, v.t, j, new), v.nullable, v.cls)
        return r
    if isinstance(v, Const):
        return v
    if hasattr(v, 'map_v'):
        return v.map_v(lambda t: inst(p, t, j, new))
    raise Unsupported(f'{v} in a comprehension')


def comprehension(I, e, fr, kind):
    ctx = I.ctx
    gens = e.generators
    if any(g.is_async for g in gens):
        raise Unsupported('async comprehension')
    if kind == 'dict':
        return loop_comprehension(I, e, fr, kind)
    if len(gens) > 1:
        return loop_comprehension(I, e, fr, kind)
    g = gens[0]
    src = I.eval(g.iter, fr)
    it = seq(I, src)
    sub = I.new_frame(fr.func, fr.mod, fr)
    sub.locals = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    if it.elems is not None:
        out = []
        for v in it.elems:
            I.assign(g.target, v, sub)
            if all(I.truth(I.eval(c, sub)) for c in g.ifs):
                out.append(I.eval(e.elt, sub))
        return make_list(I, out)
    if ctx.quick(it.n <= 0, 200):
        return make_list(I, [])

    def body(Skip, j):
        ctx.assume(z3.And(0 <= j, j < it.n))
        v = it.get(j)
        if isinstance(v, (Ref, Tup)):
            mark_alloc(I, v)
        I.assign(g.target, v, sub)
        for c in g.ifs:
            if not I.truth(I.eval(c, sub)):
                raise Skip()
        return I.eval(e.elt, sub)
    try:
        return map_filter(I, it, body)
    except NotPure:
        return loop_comprehension(I, e, fr, kind, it)


class NotPure(BaseException):
    pass


def map_filter(I, it, body):
    """List of the values of a pure body over a view, in order."""
    ctx = I.ctx
    j = ctx.fresh_int('cj')
    a0 = ctx.state.alloc
    try:
        paths = summarise(I, lambda Skip: body(Skip, j))
    except Unsupported as e:
        if 'effects' in str(e):
            raise NotPure()
        raise
    skolemise(paths, j)
    raising = [p for p in paths if p.kind == 'raise']
    for p in raising:
        if ctx.choose(2) == 1:
            # some element raises
            w = ctx.fresh_int('rj')
            for d in p.delta:
                ctx.assume(inst(p, d, j, w))
            if not ctx.feasible(z3.BoolVal(True)):
                raise PathEnd()
            raise p.value
    vals = [p for p in paths if p.kind == 'val']
    skips = [p for p in paths if p.kind == 'skip']
    if not vals:
        if not skips and not raising:
            raise PathEnd()
        # every element is skipped, or there is none
        for_all_paths(ctx, skips + [], j, it.n, lambda p, t: [])
        return make_list(I, [])
    ty = None
    for p in vals:
        t = infer(p.value)
        if ty is None or (ty is TInt and t is TReal):
            ty = t
        elif t != ty and not (ty is TReal and t is TInt):
            raise Unsupported('comprehension of mixed types')
    arrs = [ctx.fresh(_arr(I_, s), 'comp') for s in ty.leaves()]
    t = z3.Int('t!mf')
    if not skips:
        n = it.n

        def eqs(p, at):
            ts = ty.pack(ctx, inst_v(p, p.value, j, at))
            return [z3.Select(a, at) == x for a, x in zip(arrs, ts)]
        for_all_paths(ctx, vals, j, n, eqs, arrs, it)
        r = new_list(I, ty, n, arrs)
        filter_measures(I, it, j, vals, r, arrs, n)
        return r
    n = ctx.fresh_int('cn')
    ctx.assume(z3.And(0 <= n, n <= it.n))
    G = uf(f'g!{n}', I_, I_)        # position in the source
    H = uf(f'ginv!{n}', I_, I_)     # position in the result
    t2 = z3.Int('u!mf')

    def eqs(p, at):
        if p.kind == 'skip':
            return []
        ts = ty.pack(ctx, inst_v(p, p.value, j, at))
        return [z3.And(0 <= H(at), H(at) < n, G(H(at)) == at)] + \
            [z3.Select(a, H(at)) == x for a, x in zip(arrs, ts)]
    for_all_paths(ctx, vals + skips, j, it.n, eqs, [], it, extra=[H(t)])
    # every result stems from a source position that is not skipped
    ds = []
    for p in vals:
        ts = ty.pack(ctx, inst_v(p, p.value, j, G(t)))
        ds.append(z3.And(*([inst(p, d, j, G(t)) for d in p.delta
                            if not z3.is_quantifier(d)] +
                           [z3.Select(a, t) == x
                            for a, x in zip(arrs, ts)])))
    for a in arrs[:1]:
        ctx.assume(fa(t, z3.Implies(
            z3.And(0 <= t, t < n),
            z3.And(0 <= G(t), G(t) < it.n, H(G(t)) == t,
                   z3.Or(*ds) if len(ds) > 1 else ds[0])),
            [z3.Select(a, t)]))
    ctx.assume(fa(t, z3.Implies(
        z3.And(0 <= t, t < n),
        z3.And(0 <= G(t), G(t) < it.n, H(G(t)) == t)), [G(t)]))
    ctx.assume(fa([t, t2], z3.Implies(
        z3.And(0 <= t, t < t2, t2 < n), G(t) < G(t2)),
        [z3.MultiPattern(G(t), G(t2))]))
    r = new_list(I, ty, n, arrs)
    r.filt = (G, H, n)
    filter_measures(I, it, j, paths, r, arrs, n, H)
    return r


def filter_measures(I, it, j, paths, r, arrs, n, H=None):
    """A filtered list has the same sums, if what is left out counts zero
    and the rest is taken as it is."""
    ctx = I.ctx
    src = getattr(it, 'arrs', None)
    if src is None:
        return
    for m in lmeasures(ctx, r.ct):
        if len(src) != len(arrs) or any(
                a.sort() != b.sort() for a, b in zip(src, arrs)):
            continue
        at = [z3.Select(a, j) for a in src]
        fs = m.f(ctx, at)
        ok = full = True
        for p in paths:
            if p.kind == 'raise':
                continue
            want = fs == 0 if p.kind == 'skip' else fs == m.f(
                ctx, r.ct.elem.pack(ctx, p.value))
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*[x for x in ctx.state.pc if not z3.is_quantifier(x)])
            s.add(*p.delta)
            s.add(z3.Not(want))
            ok &= s.check() == z3.unsat
            if p.kind == 'val' and m.count:
                s = z3.Solver()
                s.set('timeout', 1500)
                s.add(*[x for x in ctx.state.pc if not z3.is_quantifier(x)])
                s.add(*p.delta)
                s.add(fs != 1)
                full &= s.check() == z3.unsat
        if ok:
            add_fact(ctx, m.term(ctx, arrs, n) == m.term(ctx, src, it.n))
        if m.count and full:
            add_fact(ctx, m.term(ctx, arrs, n) == n)
        if m.count and full and ok and H is not None:
            # the place of an element is the number of those before it
            t = z3.Int('t!mf')
            at = [z3.Select(a, t) for a in src]
            add_fact(ctx, m.term(ctx, src, it.n) == n)
            C = m.fn(src)(*src, t)
            add_fact(ctx, fa(t, z3.Implies(
                z3.And(0 <= t, t < it.n, m.f(ctx, at) == 1), H(t) == C),
                [C]))


def for_all_paths(ctx, paths, j, n, eqs, arrs=(), it=None, extra=()):
    """forall t in range: some path happens, with its equations."""
    t = z3.Int('t!mf')
    ds = []
    for p in paths:
        parts = [inst(p, d, j, t) for d in p.delta]
        parts += eqs(p, t)
        ds.append(z3.And(*parts) if parts else z3.BoolVal(True))
    if not ds:
        ctx.assume(n <= 0)
        return
    body = ds[0] if len(ds) == 1 else z3.Or(*ds)
    f = z3.Implies(z3.And(0 <= t, t < n), body)
    pats = [z3.Select(a, t) for a in arrs[:1]] + list(extra)
    if it is not None:
        try:
            x = it.get(t)
            for leaf in leaf_terms(x):
                p = pats_for(leaf, t)
                if p:
                    pats += p
                    break
        except Unsupported:
            pass
    if pats:
        for p in pats:
            ctx.assume(fa(t, f, [p]))
    else:
        ctx.assume(fa(t, f))


def leaf_terms(v):
    if isinstance(v, (Sym, Ref)):
        return [v.t]
    if isinstance(v, Tup):
        return [t for x in v.items for t in leaf_terms(x)]
    return []


def loop_comprehension(I, e, fr, kind, first=None):
    """Comprehension with effects: an ordinary loop."""
    sub = I.new_frame(fr.func, fr.mod, fr)
    ctx = I.ctx
    env = ctx.state.envs[sub.fid]
    for g in e.generators:
        sub.locals |= {n.id for n in ast.walk(g.target)
                       if isinstance(n, ast.Name)}
    env['%out'] = make_dict(I) if kind == 'dict' else ctx.new_cell('list')
    for g in e.generators:
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                env[n.id] = Opaque('unbound')

    def level(k):
        if k == len(e.generators):
            if kind == 'dict':
                setitem(I, env_out(), I.eval(e.key, sub),
                        I.eval(e.value, sub))
            else:
                list_append(I, env_out(), I.eval(e.elt, sub))
            return
        g = e.generators[k]
        itv = first if (k == 0 and first is not None) else I.eval(
            g.iter, fr if k == 0 else sub)

        def body():
            for c in g.ifs:
                if not I.truth(I.eval(c, sub)):
                    return
            level(k + 1)
        I.for_loop(g, itv, lambda v: I.assign(g.target, v, sub), body, sub)

    def env_out():
        return ctx.state.envs[sub.fid]['%out']
    level(0)
    return env_out()


# ---------------------------------------------------------------- item access

def getitem(I, o, i):
    ctx = I.ctx
    if isinstance(i, tuple) and i and i[0] == 'slice':
        return getslice(I, o, i)
    if isinstance(o, ConstDict):
        if isinstance(i, Const):
            if i.value in o.d:
                return o.d[i.value]
            I.raise_('KeyError')
        raise Unsupported('symbolic key of a constant dict')
    if isinstance(o, Tup):
        if isinstance(i, Const) and isinstance(i.value, int):
            if -len(o.items) <= i.value < len(o.items):
                return o.items[i.value]
            I.raise_('IndexError')
        raise Unsupported('symbolic index of a tuple')
    if isinstance(o, Const) and isinstance(i, Const):
        try:
            return Const(o.value[i.value])
        except Exception as e:
            I.raise_(type(e).__name__)
    if isinstance(o, Ref):
        o = deref(I, o)
        if o.ct is None:
            if o.cell.flavor == 'list':
                I.raise_('IndexError')
            I.raise_('KeyError')
        if isinstance(o.ct, ListCT):
            n = list_n(ctx, o)
            ix = norm_index(ctx, ctx.coerce(i, TInt), n)
            if not ctx.branch(z3.And(0 <= ix, ix < n)):
                I.raise_('IndexError')
            v = list_get(I, o, ix)
            mark_alloc(I, v)
            return v
        if isinstance(o.ct, MapCT):
            if isinstance(i, Ref) or isinstance(i, Tup):
                raise Unsupported(f'key {i}')
            k = ctx.coerce(i, o.ct.key)
            check_id(I, o, k)
            if not ctx.branch(z3.Select(map_dom(ctx, o), k)):
                I.raise_('KeyError')
            return map_val(I, o, k)
        if isinstance(o.ct, SetCT) and getattr(o, 'seqview', False):
            raise Unsupported('index of a set')
    if isinstance(o, Obj):
        a = I.class_attr(o.cls, '__getitem__')
        if a is not None:
            return I.call(a, [o, i])
        I.raise_('TypeError')
    if hasattr(o, 'getitem_v'):
        return o.getitem_v(I, i)
    if isinstance(o, IterV):
        n = o.n
        ix = norm_index(ctx, ctx.coerce(i, TInt), n)
        if o.elems is not None and z3.is_int_value(z3.simplify(ix)):
            k = z3.simplify(ix).as_long()
            if 0 <= k < len(o.elems):
                return o.elems[k]
            I.raise_('IndexError')
        if not ctx.branch(z3.And(0 <= ix, ix < n)):
            I.raise_('IndexError')
        return o.get(ix)
    if isinstance(o, (Const, Sym)):
        I.raise_('TypeError')
    raise Unsupported(f'subscript of {o}')


def getslice(I, o, sl):
    ctx = I.ctx
    _, lo, hi, st = sl
    if hasattr(o, 'getslice_v'):
        return o.getslice_v(I, lo, hi, st)
    if isinstance(o, Const) and all(isinstance(x, Const)
                                    for x in (lo, hi, st)):
        return Const(o.value[lo.value:hi.value:st.value])
    if not (isinstance(st, Const) and st.value in (None, 1, -1)):
        raise Unsupported('slice step')
    if isinstance(o, Tup) and isinstance(lo, Const) and isinstance(hi, Const):
        return Tup(o.items[lo.value:hi.value:st.value])
    if isinstance(o, Ref):
        o = deref(I, o)
        if o.ct is None:
            return make_list(I, [])
        if isinstance(o.ct, ListCT):
            n = list_n(ctx, o)
            if isinstance(st, Const) and st.value == -1:
                if lo is not NONE or hi is not NONE:
                    raise Unsupported('reversed slice with bounds')
                return reversed_list(I, list_view(I, o), o.ct.elem)
            a = z3.IntVal(0) if isinstance(lo, Const) and lo.value is None \
                else norm_index(ctx, ctx.coerce(lo, TInt), n, True)
            b = n if isinstance(hi, Const) and hi.value is None \
                else norm_index(ctx, ctx.coerce(hi, TInt), n, True)
            # clamp
            a = z3.simplify(z3.If(a > n, n, a)) if not a.eq(
                z3.IntVal(0)) else a
            ts = list_terms(ctx, o)
            r = list_slice(I, n, lambda j: list_get(I, o, j, ts),
                           o.ct.elem, a, b if b.eq(n) else z3.If(
                               b > n, n, b))
            b = b if b.eq(n) else z3.If(b > n, n, b)
            for m in lmeasures(ctx, o.ct):
                for k in range(4):
                    if k in [const_int(x) for x in (lo, hi) if isinstance(
                            x, Const)]:
                        for i in range(k):
                            m.step(ctx, ts, z3.IntVal(i))
                add_fact(ctx, z3.Implies(
                    z3.And(0 <= a, a <= b), m.term(
                        ctx, list_terms(ctx, r), list_n(ctx, r)) ==
                    m.term(ctx, ts, b) - m.term(ctx, ts, a)))
            return r
    raise Unsupported(f'slice of {o}')


def setitem(I, o, i, v):
    ctx = I.ctx
    if isinstance(i, tuple) and i and i[0] == 'slice':
        if isinstance(o, Ref) and (o.ct is None or isinstance(
                o.ct, ListCT)) and all(isinstance(x, Const) and
                                       x.value is None for x in i[1:]):
            r = to_list(I, v)
            on_write(I, o, 'setslice')
            if o.ct is None and r.ct is not None:
                resolve_as(I, o, r.ct)
            if r.ct is None:
                if o.ct is not None:
                    ctx.wr(o.t, o.ct.n, I_, z3.IntVal(0))
                return
            for n, s in o.ct.comps().items():
                ctx.wr(o.t, n, s, ctx.rd(r.t, n, s))
            return
        raise Unsupported('slice assignment')
    if isinstance(o, Ref):
        o = deref(I, o)
        if (o.ct is None and o.cell.flavor != 'list') or isinstance(
                o.ct, MapCT):
            map_set(I, o, i, v)
            return
        if isinstance(o.ct, ListCT):
            n = list_n(ctx, o)
            ix = norm_index(ctx, ctx.coerce(i, TInt), n)
            if not ctx.branch(z3.And(0 <= ix, ix < n)):
                I.raise_('IndexError')
            on_write(I, o, 'setitem')
            for name, old, t in zip(o.ct.es, list_terms(ctx, o),
                                    o.ct.elem.pack(ctx, v)):
                ctx.wr(o.t, name, None, z3.Store(old, ix, t))
            return
        if o.ct is None:
            I.raise_('IndexError')
    if isinstance(o, ConstDict) and isinstance(i, Const):
        o.d[i.value] = v
        return
    if isinstance(o, Obj):
        a = I.class_attr(o.cls, '__setitem__')
        if a is not None:
            I.call(a, [o, i, v])
            return
    if isinstance(o, (Const, Sym, Tup)):
        I.raise_('TypeError')
    raise Unsupported(f'item assignment on {o}')


def delitem(I, o, i):
    ctx = I.ctx
    if isinstance(o, Ref):
        o = deref(I, o)
        if isinstance(i, tuple) and i and i[0] == 'slice':
            if isinstance(o.ct, ListCT) or o.ct is None:
                return del_slice(I, o, i)
            raise Unsupported('del slice')
        if isinstance(o.ct, MapCT) or (o.ct is None and
                                       o.cell.flavor != 'list'):
            map_del(I, o, i)
            return
        if o.ct is None:
            I.raise_('IndexError')
        if isinstance(o.ct, ListCT):
            n = list_n(ctx, o)
            ix = norm_index(ctx, ctx.coerce(i, TInt), n)
            if not ctx.branch(z3.And(0 <= ix, ix < n)):
                I.raise_('IndexError')
            list_delat(I, o, ix)
            return
    if isinstance(o, ConstDict) and isinstance(i, Const):
        if i.value not in o.d:
            I.raise_('KeyError')
        del o.d[i.value]
        return
    raise Unsupported(f'del item of {o}')


def del_slice(I, o, sl):
    ctx = I.ctx
    if o.ct is None:
        return
    _, lo, hi, st = sl
    if not (isinstance(st, Const) and st.value is None):
        raise Unsupported('del slice step')
    n = list_n(ctx, o)
    a = z3.IntVal(0) if isinstance(lo, Const) and lo.value is None \
        else norm_index(ctx, ctx.coerce(lo, TInt), n, True)
    b = n if isinstance(hi, Const) and hi.value is None \
        else norm_index(ctx, ctx.coerce(hi, TInt), n, True)
    b = z3.If(b > n, n, b)
    a = z3.If(a > n, n, a)
    cnt = z3.If(b > a, b - a, z3.IntVal(0))
    on_write(I, o, 'del')
    j = z3.Int('j!ds')
    for name, old in zip(o.ct.es, list_terms(ctx, o)):
        arr = ctx.fresh(o.ct.comps()[name], 'ds')
        ctx.assume(fa(j, z3.Select(arr, j) == z3.If(
            j < a, z3.Select(old, j), z3.Select(old, j + cnt)),
            [z3.Select(arr, j)]))
        ctx.wr(o.t, name, None, arr)
    ctx.wr(o.t, o.ct.n, I_, n - cnt)


def unpack(I, v, targets):
    k = len(targets)
    if isinstance(v, Tup):
        if len(v.items) != k:
            I.raise_('ValueError')
        return v.items
    it = seq(I, v)
    if it.elems is not None:
        if len(it.elems) != k:
            I.raise_('ValueError')
        return it.elems
    if not I.ctx.branch(it.n == k):
        I.raise_('ValueError')
    out = [it.get(z3.IntVal(x)) for x in range(k)]
    if getattr(it, 'arrs', None) is not None and it.elem is not None:
        for m in lmeasures(I.ctx, ListCT(it.elem)):
            for x in range(k):
                m.step(I.ctx, it.arrs, z3.IntVal(x))
    for x in out:
        mark_alloc(I, x)
    return out


# ---------------------------------------------------------------------- truth

def truth_term(I, v):
    ctx = I.ctx
    if isinstance(v, Const):
        return bool(v.value)
    if isinstance(v, Sym):
        if v.ty is TBool:
            return v.t
        if v.ty in (TInt, TReal):
            return v.t != 0
        if v.ty is TWord:
            return v.t != 0        # the empty word is 0
        if v.ty is TCode:
            return uf('clen', CodeSort, I_)(v.t) != 0
        if v.ty is TVal:
            return uf('valtruth', R_, B_)(v.t)
        raise Unsupported(f'truth of {v.ty}')
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Ref):
        if v.nullable:
            if ctx.branch(v.t == 0):
                return False
            v = deref(I, v)
        if v.ct is None:
            return False
        if isinstance(v.ct, (SetCT, MapCT)):
            return card(ctx, content_m(ctx, v)) != 0
        if isinstance(v.ct, ListCT):
            n = list_n(ctx, v)
            add_fact(ctx, n >= 0)
            return n != 0
        return True
    if isinstance(v, ConstDict):
        return bool(v.d)
    if isinstance(v, Obj):
        a = I.class_attr(v.cls, '__bool__')
        if a is not None:
            return truth_term(I, I.call(a, [v]))
        a = I.class_attr(v.cls, '__len__')
        if a is not None:
            return truth_term(I, I.call(a, [v]))
        return True
    if isinstance(v, GenV_()):
        return True
    if hasattr(v, 'truth_v'):
        return v.truth_v(I)
    if isinstance(v, Opaque):
        raise Unsupported(f'truth of {v}')
    if isinstance(v, IterV):
        return v.n != 0
    return True


def const_truth(I, v):
    if isinstance(v, Const):
        return bool(v.value)
    if isinstance(v, Sym) and v.ty in (TBool, TInt):
        s = z3.simplify(v.t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if z3.is_int_value(s):
            return s.as_long() != 0
    if isinstance(v, Tup):
        return bool(v.items)
    return None


def length(I, v):
    ctx = I.ctx
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Const):
        try:
            return Const(len(v.value))
        except TypeError:
            I.raise_('TypeError')
    if isinstance(v, ConstDict):
        return Const(len(v.d))
    if isinstance(v, Ref):
        v = deref(I, v)
        if v.ct is None:
            return Const(0)
        if isinstance(v.ct, (SetCT, MapCT)):
            return Sym(TInt, card(ctx, content_m(ctx, v)))
        if isinstance(v.ct, ListCT):
            n = list_n(ctx, v)
            add_fact(ctx, n >= 0)
            return Sym(TInt, n)
        I.raise_('TypeError')
    if isinstance(v, Obj):
        a = I.class_attr(v.cls, '__len__')
        if a is not None:
            return I.call(a, [v])
        I.raise_('TypeError')
    if hasattr(v, 'len_v'):
        return v.len_v(I)
    if isinstance(v, IterV):
        return Sym(TInt, v.n)
    if isinstance(v, Sym):
        if v.ty is TCode:
            t = uf('clen', CodeSort, I_)(v.t)
            add_fact(ctx, t >= 0)
            return Sym(TInt, t)
        if v.ty is TWord:
            t = uf('wordlen', R_, I_)(v.t)
            add_fact(ctx, t >= 0)
            return Sym(TInt, t)
    I.raise_('TypeError') if isinstance(v, Sym) else None
    raise Unsupported(f'len({v})')


# ----------------------------------------------------------------- comparison

def eq_term(I, a, b):
    """Python == as a formula (or bool)."""
    ctx = I.ctx
    if isinstance(a, Const) and isinstance(b, Const):
        return a.value == b.value
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return conj([bt(eq_term(I, x, y))
                     for x, y in zip(a.items, b.items)])
    for x, y in ((a, b), (b, a)):
        if hasattr(x, 'eq_v'):
            r = x.eq_v(I, y)
            if r is not None:
                return r
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.value is None:
            return is_none(I, y)
    ta, tb = scalar_type(a), scalar_type(b)
    if ta is not None and tb is not None:
        if ta == tb:
            return ctx.coerce(a, ta) == ctx.coerce(b, tb)
        num = (TInt, TReal, TBool)
        if ta in num and tb in num:
            t = TReal if TReal in (ta, tb) else TInt
            return ctx.coerce(a, t) == ctx.coerce(b, t)
        if TVal in (ta, tb):
            return ctx.coerce(a, TVal) == ctx.coerce(b, TVal)
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.ct is not None and b.ct is not None and isinstance(
                a.ct, ListCT) and a.ct.name == b.ct.name:
            return list_eq(I, a, b)
        if a.ct is None or b.ct is None:
            o = b if a.ct is None else a
            if o.ct is None:
                return True
            if isinstance(o.ct, ListCT):
                return list_n(ctx, o) == 0
            raise Unsupported('comparison with an empty literal')
        if a.ct.name == b.ct.name:
            if isinstance(a.ct, StructCT):
                return a.t == b.t
            if isinstance(a.ct, (SetCT, MapCT)):
                raise Unsupported('equality of containers')
        return False
    if isinstance(a, (Obj, Opaque, Builtin)) or isinstance(
            b, (Obj, Opaque, Builtin)):
        if a is b or I.same(a, b):
            return True
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.name == b.name:
                return True
            if a.name.startswith('object#') and \
                    b.name.startswith('object#'):
                return False
            raise Unsupported(f'{a} == {b}')
        for x in (a, b):
            if isinstance(x, Opaque) and not x.name.startswith('object#'):
                raise Unsupported(f'{a} == {b}')
        return False
    if type(a) is not type(b):
        return False
    if a is b:
        return True
    raise Unsupported(f'{a} == {b}')


def list_eq(I, a, b):
    ctx = I.ctx
    j = z3.Int('j!le')
    n = list_n(ctx, a)
    fs = [n == list_n(ctx, b)]
    for x, y in zip(list_terms(ctx, a), list_terms(ctx, b)):
        fs.append(fa(j, z3.Implies(z3.And(0 <= j, j < n),
                                   z3.Select(x, j) == z3.Select(y, j))))
    return z3.And(*fs)


def is_none(I, v):
    if isinstance(v, Const):
        return v.value is None
    if isinstance(v, Sym) and v.ty is TVal:
        return v.t == VALNONE
    if isinstance(v, Ref):
        return v.t == 0 if v.nullable else False
    if hasattr(v, 'is_none_v'):
        return v.is_none_v(I)
    if isinstance(v, Opaque) and not v.name.startswith('object#'):
        raise Unsupported(f'{v} is None')
    return False


def is_term(I, a, b):
    ctx = I.ctx
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.value is None:
            return is_none(I, y)
    if isinstance(a, Const) and isinstance(b, Const):
        return a.value is b.value or (
            type(a.value) is type(b.value) and a.value == b.value)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.ct is not None and b.ct is not None and \
                a.ct.name != b.ct.name:
            return False
        return a.t == b.t
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.name == b.name:
                return True
            if a.name.startswith('object#') and b.name.startswith('object#'):
                return False
        o = a if isinstance(a, Opaque) else b
        if o.name.startswith('object#') and not isinstance(
                a if o is b else b, Opaque):
            return False
        raise Unsupported(f'{a} is {b}')
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.oid == b.oid
    for x, y in ((a, b), (b, a)):
        if hasattr(x, 'eq_v'):
            r = x.eq_v(I, y)
            if r is not None:
                return r
    ta, tb = scalar_type(a), scalar_type(b)
    if ta is TBool and tb is TBool:
        return eq_term(I, a, b)
    if ta is not None and tb is not None:
        # equal values need not be one object
        r = ctx.fresh(B_, 'is')
        if ta == tb:
            ctx.assume(z3.Implies(r, bt(eq_term(I, a, b))))
        else:
            e = eq_term(I, a, b)
            ctx.assume(z3.Implies(r, bt(e)))
        return r
    if isinstance(a, (ContV, TypeV)) and isinstance(b, (ContV, TypeV)):
        return a.name == b.name
    if type(a) is not type(b):
        return False
    return I.same(a, b)


def lt_term(I, a, b, strict=True):
    """a < b (or a <= b)."""
    ctx = I.ctx
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return a.value < b.value if strict else a.value <= b.value
        except TypeError:
            I.raise_('TypeError')
    if isinstance(a, Tup) and isinstance(b, Tup):
        r = (len(a.items) < len(b.items) if strict
             else len(a.items) <= len(b.items))
        for x, y in reversed(list(zip(a.items, b.items))):
            r = z3.Or(bt(lt_term(I, x, y)),
                      z3.And(bt(eq_term(I, x, y)), bt(r)))
        return r
    ta, tb = scalar_type(a), scalar_type(b)
    if ta is not None and tb is not None:
        num = (TInt, TReal, TBool)
        if ta in num and tb in num:
            t = TReal if TReal in (ta, tb) else TInt
        elif ta == tb:
            t = ta
        elif TVal in (ta, tb):
            t = TVal
        else:
            I.raise_('TypeError')
        x, y = ctx.coerce(a, t), ctx.coerce(b, t)
        return x < y if strict else x <= y
    if isinstance(a, Const) or isinstance(b, Const):
        o = b if isinstance(a, Const) else a
        if not hasattr(o, 'lt_v'):
            I.raise_('TypeError')
    if hasattr(a, 'lt_v'):
        return a.lt_v(I, b, strict)
    if isinstance(a, Const) and hasattr(b, 'lt_v'):
        return z3.Not(bt(b.lt_v(I, a, not strict)))
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
            a.ct, StructCT):
        # nodes are not orderable
        I.raise_('TypeError')
    raise Unsupported(f'{a} < {b}')


def contains(I, x, o):
    ctx = I.ctx
    if isinstance(o, Ref):
        o = deref(I, o)
        if o.ct is None:
            return False
        if isinstance(o.ct, (SetCT, MapCT)):
            kt = o.ct.elem if isinstance(o.ct, SetCT) else o.ct.key
            if isinstance(x, (Ref, Tup)):
                raise Unsupported(f'{x} in {o}')
            k = ctx.coerce(x, kt)
            check_id(I, o, k)
            return z3.Select(content_m(ctx, o), k)
        if isinstance(o.ct, ListCT):
            return list_contains(I, x, o)
    if isinstance(o, Tup):
        rs = [bt(eq_term(I, x, y)) for y in o.items]
        return z3.Or(*rs) if rs else False
    if isinstance(o, ConstDict):
        rs = [bt(eq_term(I, x, Const(k))) for k in o.d]
        return z3.Or(*rs) if rs else False
    if isinstance(o, Const) and isinstance(x, Const):
        try:
            return x.value in o.value
        except TypeError:
            I.raise_('TypeError')
    if isinstance(o, Const) and isinstance(o.value, (tuple, list)):
        rs = [bt(eq_term(I, x, Const(y))) for y in o.value]
        return z3.Or(*rs) if rs else False
    if hasattr(o, 'contains_v'):
        return o.contains_v(I, x)
    if isinstance(o, Const) and isinstance(o.value, str) and \
            hasattr(x, 'in_const_v'):
        return x.in_const_v(I, o.value)
    if isinstance(o, Obj):
        a = I.class_attr(o.cls, '__contains__')
        if a is not None:
            return bt(truth_term(I, I.call(a, [o, x])))
    if isinstance(o, (Const, Sym)):
        if isinstance(o, Sym) and o.ty is TWord:
            if isinstance(x, Const):
                return uf('wordhas!' + repr(x.value), R_, B_)(o.t)
        else:
            I.raise_('TypeError')
    if isinstance(o, IterV) and o.mem is not None and \
            o.kind == 'set':
        return o.mem(ctx.coerce(x, o.elem))
    raise Unsupported(f'{x} in {o}')


def list_contains(I, x, o):
    """x in list: defined through a witness position."""
    ctx = I.ctx
    n = list_n(ctx, o)
    add_fact(ctx, n >= 0)
    ts = list_terms(ctx, o)
    sn = z3.simplify(n)
    if z3.is_int_value(sn) and sn.as_long() <= 4:
        rs = [bt(eq_term(I, list_get(I, o, z3.IntVal(i), ts), x))
              for i in range(sn.as_long())]
        return z3.Or(*rs) if rs else False
    b = ctx.fresh(B_, 'inlist')
    w = ctx.fresh_int('at')
    j = z3.Int('j!lc')
    ew = bt(eq_term(I, list_get(I, o, w, ts), x))
    ctx.assume(z3.Implies(b, z3.And(0 <= w, w < n, ew)))
    ej = list_get(I, o, j, ts)
    p = pats_for(leaf_terms(ej)[0], j)
    ctx.assume(fa(j, z3.Implies(
        z3.And(0 <= j, j < n, bt(eq_term(I, ej, x))), b), p))
    return b


def compare(I, op, a, b):
    if op == 'Eq':
        return mkbool(eq_term(I, a, b))
    if op == 'NotEq':
        return mkbool(z3.Not(bt(eq_term(I, a, b))))
    if op == 'Is':
        return mkbool(is_term(I, a, b))
    if op == 'IsNot':
        return mkbool(z3.Not(bt(is_term(I, a, b))))
    if op == 'Lt':
        return mkbool(lt_term(I, a, b))
    if op == 'LtE':
        return mkbool(lt_term(I, a, b, False))
    if op == 'Gt':
        return mkbool(lt_term(I, b, a))
    if op == 'GtE':
        return mkbool(lt_term(I, b, a, False))
    if op == 'In':
        return mkbool(contains(I, a, b))
    if op == 'NotIn':
        return mkbool(z3.Not(bt(contains(I, a, b))))
    raise Unsupported(op)


# ----------------------------------------------------------------- arithmetic

def is_num(v):
    return scalar_type(v) in (TInt, TReal, TBool)


def fold(op, a, b):
    import operator as o
    f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv,
         'FloorDiv': o.floordiv, 'Mod': o.mod, 'LShift': o.lshift,
         'RShift': o.rshift, 'BitAnd': o.and_, 'BitOr': o.or_,
         'BitXor': o.xor, 'Pow': o.pow}[op]
    return f(a, b)


def const_int(v):
    if isinstance(v, Const) and isinstance(v.value, (int, bool)):
        return int(v.value)
    if isinstance(v, Sym) and v.ty is TInt:
        s = z3.simplify(v.t)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def binop(I, op, a, b):
    ctx = I.ctx
    if isinstance(a, Const) and isinstance(b, Const):
        if op == 'Mod' and isinstance(a.value, str):
            return Opaque('str')
        try:
            return Const(fold(op, a.value, b.value))
        except Exception as e:
            I.raise_(type(e).__name__)
    for x in (a, b):
        if hasattr(x, 'binop_v'):
            r = x.binop_v(I, op, a, b)
            if r is not None:
                return r
    if isinstance(a, Const) and isinstance(a.value, str) and op == 'Mod':
        return Opaque('str')
    if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
        return Tup(a.items + b.items)
    if isinstance(a, Ref) and op == 'Add':
        a = deref(I, a)
        if (a.ct is None and a.cell.flavor == 'list') or isinstance(
                a.ct, ListCT):
            if not (isinstance(b, Ref) and (
                    b.ct is None or isinstance(b.ct, ListCT))):
                I.raise_('TypeError')
            r = to_list(I, a)
            list_extend(I, r, b)
            return r
    if isinstance(a, Ref) and op == 'Mult' and const_int(b) is not None:
        it = iterate(I, a)
        if it.elems is not None:
            return make_list(I, it.elems * max(0, const_int(b)))
        raise Unsupported('list repetition')
    if isinstance(a, Ref) and op == 'Mult' and is_num(b):
        it = iterate(I, a)
        if it.elems is not None and len(it.elems) == 1:
            v = it.elems[0]
            n = ctx.coerce(b, TInt)
            ty = infer(v)
            arrs = [z3.K(I_, t) for t in ty.pack(ctx, v)]
            return new_list(I, ty, z3.If(n > 0, n, z3.IntVal(0)), arrs)
    if isinstance(a, Ref) and isinstance(a.ct, SetCT) and \
            isinstance(b, Ref):
        if op == 'BitAnd':
            return set_op(I, 'intersection', a, b)
        if op == 'BitOr':
            return set_op(I, 'union', a, b)
        if op == 'Sub':
            return set_op(I, 'difference', a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op == 'Add' and 'str' in (getattr(a, 'name', ''),
                                     getattr(b, 'name', '')):
            return Opaque('str')
        raise Unsupported(f'{a} {op} {b}')
    ta, tb = scalar_type(a), scalar_type(b)
    if isinstance(a, Ref) and a.ct is LENGTH or isinstance(b, Ref) and \
            b.ct is LENGTH:
        I.raise_('TypeError')
    if op == 'Add' and TWord in (ta, tb):
        if isinstance(b, Const) and b.value == '':
            return a
        if isinstance(a, Const) and a.value == '':
            return b
        sa = ta is TWord or isinstance(a, Const) and isinstance(a.value, str)
        sb = tb is TWord or isinstance(b, Const) and isinstance(b.value, str)
        if sa and sb:
            return Sym(TWord, uf('str!concat', R_, R_, R_)(
                ctx.coerce(a, TWord), ctx.coerce(b, TWord)))
    if not (is_num(a) and is_num(b)):
        if (ta is TWord) != (tb is TWord):
            I.raise_('TypeError')
        if ta is None or tb is None or ta is TWord or TVal in (ta, tb):
            if isinstance(a, Const) or isinstance(b, Const):
                if ta is None or tb is None:
                    o = b if isinstance(a, Const) else a
                    if not isinstance(o, (Ref, Tup)):
                        raise Unsupported(f'{a} {op} {b}')
                    I.raise_('TypeError')
            raise Unsupported(f'{a} {op} {b}')
    real = TReal in (ta, tb)
    if op in ('Add', 'Sub', 'Mult'):
        ty = TReal if real else TInt
        x, y = ctx.coerce(a, ty), ctx.coerce(b, ty)
        if op == 'Mult' and real and 'rmul' in ctx.opts:
            return Sym(TReal, ctx.opts['rmul'](ctx, x, y))
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y,
             'Mult': lambda: x * y}[op]()
        return Sym(ty, r)
    if op == 'Div':
        x, y = ctx.coerce(a, TReal), ctx.coerce(b, TReal)
        if ctx.branch(y == 0):
            I.raise_('ZeroDivisionError')
        h = ctx.opts.get('div')
        if h:
            return Sym(TReal, h(ctx, x, y))
        return Sym(TReal, x / y)
    if op == 'Pow':
        k = b.value if isinstance(b, Const) else None
        if k in (2, 2.0):
            x = ctx.coerce(a, TReal if real or isinstance(k, float)
                           else TInt)
            return Sym(TReal if real or isinstance(k, float) else TInt,
                       x * x)
        raise Unsupported('power')
    if real:
        raise Unsupported(f'{op} on reals')
    x, y = ctx.coerce(a, TInt), ctx.coerce(b, TInt)
    ca, cb = const_int(a), const_int(b)
    if op in ('FloorDiv', 'Mod'):
        if cb is None:
            if ctx.branch(y == 0):
                I.raise_('ZeroDivisionError')
            if not ctx.quick(y > 0):
                raise Unsupported('division by a negative number')
        elif cb == 0:
            I.raise_('ZeroDivisionError')
        elif cb < 0:
            raise Unsupported('division by a negative number')
        return Sym(TInt, x / y if op == 'FloorDiv' else x % y)
    if op in ('LShift', 'RShift'):
        if cb is None:
            p = uf('pow2', I_, I_)(y)
            add_fact(ctx, p >= 1)
        else:
            if cb < 0:
                I.raise_('ValueError')
            p = z3.IntVal(2 ** cb)
        return Sym(TInt, x * p if op == 'LShift' else x / p)
    if op == 'BitAnd':
        if cb is None and ca is not None:
            x, y, ca, cb = y, x, cb, ca
        if cb is not None and cb >= 0:
            return Sym(TInt, and_const(x, cb))
    if op == 'BitOr':
        return Sym(TInt, or_terms(I, x, y, ca, cb))
    raise Unsupported(f'{op} on symbolic integers')


def and_const(x, c):
    """x & c for a constant c >= 0: sum over runs of ones."""
    r = None
    k = 0
    while c >> k:
        if (c >> k) & 1:
            w = 0
            while (c >> (k + w)) & 1:
                w += 1
            t = x if k == 0 else x / (2 ** k)
            t = t % (2 ** w)
            if k:
                t = t * (2 ** k)
            r = t if r is None else r + t
            k += w
        else:
            k += 1
    return r if r is not None else z3.IntVal(0)


def or_terms(I, x, y, ca, cb):
    """x | y, when the bits are disjoint (or one is constant)."""
    ctx = I.ctx
    for c, t in ((cb, x), (ca, y)):
        if c is not None and c >= 0:
            return t + c - and_const(t, c)
    for k in (1, 7, 14, 21, 8, 2, 3, 4, 5, 6, 16):
        p = 2 ** k
        for a, b in ((x, y), (y, x)):
            if ctx.quick(z3.And(a % p == 0, 0 <= b, b < p), 1500):
                return a + b
    raise Unsupported('| of overlapping bits')


def augop(I, op, a, b):
    if isinstance(a, Ref) and op == 'Add':
        a = deref(I, a)
        if (a.ct is None and a.cell.flavor == 'list') or isinstance(
                a.ct, ListCT):
            list_extend(I, a, b)
            return a
    if isinstance(a, Ref) and isinstance(a.ct, SetCT):
        m = {'BitOr': 'update', 'BitAnd': None, 'Sub': None}.get(op)
        if m:
            fill_set(I, a, b)
            return a
        raise Unsupported('augmented set operation')
    return binop(I, op, a, b)


def unary(I, op, v):
    if isinstance(v, Const):
        if op == 'USub':
            return Const(-v.value)
        if op == 'UAdd':
            return Const(+v.value)
        if op == 'Invert':
            return Const(~v.value)
    if isinstance(v, Sym):
        if op == 'USub':
            if v.ty is TBool:
                return Sym(TInt, -I.ctx.coerce(v, TInt))
            return Sym(v.ty, -v.t)
        if op == 'UAdd':
            return v
        if op == 'Invert' and v.ty is TInt:
            return Sym(TInt, -v.t - 1)
    raise Unsupported(f'{op} {v}')


# ---------------------------------------------------------- reversed, sorting

def reversed_list(I, it, elem):
    ctx = I.ctx
    if it.elems is not None:
        return make_list(I, list(reversed(it.elems)))
    j = z3.Int('j!rv')
    n = it.n
    arrs = []
    ts = elem.pack(ctx, it.get(n - 1 - j))
    srcs = elem.pack(ctx, it.get(j))
    for t, s in zip(ts, srcs):
        a = ctx.fresh(_arr(I_, t.sort()), 'rev')
        ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < n),
                                    z3.Select(a, j) == t),
                      [z3.Select(a, j)]))
        p = pats_for(s, j)
        if p:
            ctx.assume(fa(j, z3.Implies(
                z3.And(0 <= j, j < n),
                z3.Select(a, n - 1 - j) == s), p))
        arrs.append(a)
    return new_list(I, elem, n, arrs)


def key_paths(I, it, key):
    """Paths of the key function over element j (pure)."""
    ctx = I.ctx
    j = ctx.fresh_int('kj')

    def body(Skip):
        ctx.assume(z3.And(0 <= j, j < it.n))
        v = it.get(j)
        mark_alloc(I, v)
        if key is None or (isinstance(key, Const) and key.value is None):
            return v
        return I.call(key, [v])
    paths = summarise(I, body)
    skolemise(paths, j)
    for p in [p for p in paths if p.kind == 'raise']:
        if ctx.choose(2) == 1:
            w = ctx.fresh_int('rj')
            for d in p.delta:
                ctx.assume(inst(p, d, j, w))
            if not ctx.feasible(z3.BoolVal(True)):
                raise PathEnd()
            raise p.value
    return j, [p for p in paths if p.kind == 'val']


def sorted_list(I, src, key=None, reverse=None, target=None):
    """sorted(): a stable permutation in key order (assumed contract)."""
    ctx = I.ctx
    it = seq(I, src) if not isinstance(src, IterV) else src
    rev = False
    if reverse is not None:
        rev = ctx.branch(bt(truth_term(I, reverse)))
    if it.elems is not None and len(it.elems) <= 1:
        return make_list(I, it.elems)
    if it.elems is not None:
        lst = make_list(I, it.elems)
        it = list_view(I, lst)
        it.elems = None
    elem = infer(it.get(ctx.fresh_int('j')))
    j, paths = key_paths(I, it, key)
    n = it.n
    add_fact(ctx, n >= 0)
    tag = ctx.fresh_int('srt')
    P = uf(f'perm!{tag}', I_, I_)      # result position -> source position
    Q = uf(f'pinv!{tag}', I_, I_)
    t, u = z3.Ints('t!st u!st')
    arrs = []
    ts = elem.pack(ctx, it.get(P(t)))
    for x in ts:
        arrs.append(ctx.fresh(_arr(I_, x.sort()), 'sorted'))
    f1 = z3.Implies(z3.And(0 <= t, t < n), z3.And(
        0 <= P(t), P(t) < n, Q(P(t)) == t,
        *[z3.Select(a, t) == x for a, x in zip(arrs, ts)]))
    ctx.assume(fa(t, f1, [z3.Select(arrs[0], t)]))
    ctx.assume(fa(t, f1, [P(t)]))
    src_t = elem.pack(ctx, it.get(t))
    f2 = z3.Implies(z3.And(0 <= t, t < n), z3.And(
        0 <= Q(t), Q(t) < n, P(Q(t)) == t))
    ctx.assume(fa(t, f2, [Q(t)]))
    p = pats_for(src_t[0], t)
    if p:
        ctx.assume(fa(t, f2, p))
    # order
    for p1 in paths:
        for p2 in paths:
            k1 = inst_v(p1, p1.value, j, P(t))
            k2 = inst_v(p2, p2.value, j, P(u))
            lo, hi = (k1, k2) if not rev else (k2, k1)
            le = bt(lt_term(I, lo, hi, False))
            stable = z3.Implies(bt(eq_term(I, k1, k2)), P(t) < P(u))
            prem = [0 <= t, t < u, u < n] + \
                [inst(p1, d, j, P(t)) for d in p1.delta
                 if not z3.is_quantifier(d)] + \
                [inst(p2, d, j, P(u)) for d in p2.delta
                 if not z3.is_quantifier(d)]
            ctx.assume(fa([t, u], z3.Implies(
                z3.And(*prem), z3.And(le, stable)),
                [z3.MultiPattern(z3.Select(arrs[0], t),
                                 z3.Select(arrs[0], u))]))
    # the path condition of each key evaluation holds at every position
    for_all_paths(ctx, paths, j, n, lambda p, at: [], [], it)
    for m in lmeasures(ctx, ListCT(elem)):
        if getattr(it, 'arrs', None) is not None:
            add_fact(ctx, m.term(ctx, arrs, n) == m.term(ctx, it.arrs, n))
    if target is not None:
        on_write(I, target, 'sort')
        for name, a in zip(target.ct.es, arrs):
            ctx.wr(target.t, name, None, a)
        return target
    r = new_list(I, elem, n, arrs)
    return r


# ---------------------------------------------------------------- set algebra

def as_sets(I, v):
    if isinstance(v, Const) and v.value is None:
        return None
    if isinstance(v, Ref):
        if v.nullable:
            if I.ctx.branch(v.t == 0):
                return None
            v = deref(I, v)
        return v
    raise Unsupported(f'set operation on {v}')


def no_dict(I, *refs):
    """BTrees set operations do not accept dicts."""
    ctx = I.ctx
    for r in refs:
        if isinstance(r.ct, ListCT) or (r.ct is None and
                                        r.cell.flavor in ('list',)):
            I.raise_('TypeError')
        if r.ct is None:
            if r.cell.flavor in ('dict', 'pyset'):
                I.raise_('TypeError')
            continue
        if isinstance(r.ct, MapCT):
            if ctx.branch(ctx.kind(r) == KIND['dict']):
                I.raise_('TypeError')


def same_fam(I, f64, *refs):
    I.ctx.container_made(None, f64)
    h = I.ctx.opts.get('on_family')
    if h:
        for r in refs:
            if r.ct is not None:
                h(I, f64, r)


def new_set(I, elem, arr, kind='Set', f64=None):
    ctx = I.ctx
    ct = SetCT(elem)
    card(ctx, arr)
    return ctx.alloc(ct, {ct.m: arr}, KIND[kind], f64)


def set_op(I, op, a, b, f64=None):
    """union / intersection / difference as in BTrees."""
    ctx = I.ctx
    a, b = as_sets(I, a), as_sets(I, b)
    if op == 'difference':
        if a is None:
            return NONE
        if b is None:
            return a
    else:
        if a is None and b is None:
            return NONE
        if a is None:
            return b
        if b is None:
            return a
    no_dict(I, a, b)
    same_fam(I, f64, a, b)
    if a.ct is None and b.ct is None:
        r = ctx.new_cell('OOSet')
        r.cell.kind = KIND['Set']
        return r
    if a.ct is None or b.ct is None:
        x = a if a.ct is None else b
        o = b if a.ct is None else a
        if isinstance(o.ct, (SetCT, MapCT)):
            kt = o.ct.elem if isinstance(o.ct, SetCT) else o.ct.key
            resolve_as(I, x, SetCT(kt))
    kt = a.ct.elem if isinstance(a.ct, SetCT) else a.ct.key
    m1, m2 = content_m(ctx, a), content_m(ctx, b)
    if m1.sort() != m2.sort():
        I.raise_('TypeError')
    S = ctx.fresh(m1.sort(), op)
    x = z3.Const('x!op', m1.sort().domain())
    p, q = z3.Select(m1, x), z3.Select(m2, x)
    body = {'union': z3.Or(p, q), 'intersection': z3.And(p, q),
            'difference': z3.And(p, z3.Not(q))}[op]
    ctx.assume(fa(x, z3.Select(S, x) == body, [z3.Select(S, x)]))
    ctx.assume(fa(x, z3.Select(S, x) == body, [z3.Select(m1, x)]))
    if op == 'union':
        ctx.assume(fa(x, z3.Select(S, x) == body, [z3.Select(m2, x)]))
    cs, c1, c2 = card(ctx, S), card(ctx, m1), card(ctx, m2)
    if op == 'intersection':
        ctx.assume(z3.And(cs <= c1, cs <= c2))
    if op == 'difference':
        ctx.assume(cs <= c1)
    if op == 'difference' and isinstance(a.ct, MapCT):
        c = {a.ct.d: S}
        for n in a.ct.vs:
            c[n] = ctx.rd(a.t, n, a.ct.comps()[n])
        return ctx.alloc(a.ct, c, KIND['Bucket'], f64)
    return new_set(I, kt, S, 'Set', f64)


def weighted(I, op, args, f64=None):
    """weightedUnion / weightedIntersection of I(F|I) mappings."""
    ctx = I.ctx
    args = list(args)
    a, b = as_sets(I, args[0]), as_sets(I, args[1])
    w1 = args[2] if len(args) > 2 else Const(1)
    w2 = args[3] if len(args) > 3 else Const(1)
    if a is None or b is None:
        if a is None and b is None:
            return Tup([Const(0), NONE])
        return Tup([w2, b] if a is None else [w1, a])
    no_dict(I, a, b)
    same_fam(I, f64, a, b)
    ct = MapCT(TInt, TReal)
    if not (isinstance(a.ct, MapCT) and isinstance(b.ct, MapCT)):
        raise Unsupported('weighted operation on sets')
    x = z3.Int('x!w')
    t1, t2 = ctx.coerce(w1, TReal), ctx.coerce(w2, TReal)
    d1, d2 = map_dom(ctx, a), map_dom(ctx, b)
    v1 = ctx.rd(a.t, ct.vs[0], ct.comps()[ct.vs[0]])
    v2 = ctx.rd(b.t, ct.vs[0], ct.comps()[ct.vs[0]])
    D = ctx.fresh(d1.sort(), op)
    Vv = ctx.fresh(v1.sort(), op + 'v')
    p, q = z3.Select(d1, x), z3.Select(d2, x)
    body = z3.Or(p, q) if op == 'weightedUnion' else z3.And(p, q)
    mul = ctx.opts.get('mul') or (lambda c, s, t: s * t)
    val = z3.If(p, mul(ctx, z3.Select(v1, x), t1), z3.RealVal(0)) + \
        z3.If(q, mul(ctx, z3.Select(v2, x), t2), z3.RealVal(0))
    for pat in (z3.Select(D, x), z3.Select(d1, x)) + (
            (z3.Select(d2, x),) if op == 'weightedUnion' else ()):
        ctx.assume(fa(x, z3.Select(D, x) == body, [pat]))
    ctx.assume(fa(x, z3.Implies(z3.Select(D, x), z3.Select(Vv, x) == val),
                  [z3.Select(Vv, x)]))
    cd = card(ctx, D)
    c1, c2 = card(ctx, d1), card(ctx, d2)
    ctx.assume(z3.And(cd >= c1, cd >= c2, cd <= c1 + c2)
               if op == 'weightedUnion' else z3.And(cd <= c1, cd <= c2))
    r = ctx.alloc(ct, {ct.d: D, ct.vs[0]: Vv}, KIND['Bucket'], f64)
    h = ctx.opts.get('on_weighted')
    if h:
        h(I, op, a, b, t1, t2, r)
    return Tup([Const(1), r])


def multiunion(I, args, f64=None):
    ctx = I.ctx
    ctx.container_made(None, f64)
    it = seq(I, args[0])
    if it.elems is not None:
        S = z3.K(I_, z3.BoolVal(False))
        parts = []
        for v in it.elems:
            if isinstance(v, (Sym, Const)):
                parts.append(lambda x, v=v: x == ctx.coerce(v, TInt))
            else:
                v = deref(I, v)
                no_dict(I, v)
                same_fam(I, f64, v)
                if v.ct is None:
                    continue
                m = content_m(ctx, v)
                parts.append(lambda x, m=m: z3.Select(m, x))
        R = ctx.fresh(S.sort(), 'mu')
        x = z3.Int('x!mu')
        ctx.assume(fa(x, z3.Select(R, x) == (
            z3.Or(*[p(x) for p in parts]) if parts
            else z3.BoolVal(False)), [z3.Select(R, x)]))
        for p in parts:
            t = p(x)
            if t.decl().kind() == z3.Z3_OP_SELECT and not has_ite(t):
                ctx.assume(fa(x, z3.Implies(t, z3.Select(R, x)), [t]))
        return new_set(I, TInt, R, 'Set', f64)
    j, x = z3.Ints('j!mu x!mu')
    R = ctx.fresh(z3.ArraySort(I_, B_), 'mu')
    w = uf(f'w!{ctx.fresh_int("mu")}', I_, I_)
    probe = it.get(j)
    if isinstance(probe, Ref):
        if not isinstance(probe.ct, SetCT):
            raise Unsupported('multiunion of mappings')
        name = probe.ct.m
        H = ctx.comp(name, probe.ct.comps()[name])
        h = ctx.opts.get('on_family')
        if h:
            jj = ctx.fresh_int('j')
            v = it.get(jj)
            h(I, f64, v, z3.And(0 <= jj, jj < it.n))
        e = lambda jt, xt: z3.Select(z3.Select(H, it.get(jt).t), xt)
    elif isinstance(probe, Sym) and probe.ty is TInt:
        e = lambda jt, xt: it.get(jt).t == xt
    else:
        raise Unsupported(f'multiunion over {probe}')
    f = z3.Implies(z3.And(0 <= j, j < it.n, e(j, x)), z3.Select(R, x))
    if isinstance(probe, Ref):
        ctx.assume(fa([j, x], f, [e(j, x)]))
    else:
        ctx.assume(fa([j, x], f))
    ctx.assume(fa(x, z3.Implies(z3.Select(R, x), z3.And(
        0 <= w(x), w(x) < it.n, e(w(x), x))), [z3.Select(R, x)]))
    return new_set(I, TInt, R, 'Set', f64)


# ------------------------------------------------------------------ attributes

def meth(name, fn):
    return Builtin(name, lambda I, args, kw: fn(I, *args, **kw))


def kwless(name, fn):
    def f(I, args, kw):
        if kw:
            raise Unsupported(f'keyword argument of {name}')
        return fn(I, *args)
    return Builtin(name, f)


def getattr_model(I, o, name, default=None):
    ctx = I.ctx
    r = getattr_model0(I, o, name)
    if r is None:
        if default is not None:
            return default
        if isinstance(o, (Ref, Const, Tup, Sym)):
            I.raise_('AttributeError', Const(name))
        raise Unsupported(f'attribute {o}.{name}')
    return r


def getattr_model0(I, o, name):
    ctx = I.ctx
    if isinstance(o, ExtV_()):
        return external(I, o.name + '.' + name)
    if isinstance(o, FamV):
        if name in ('IF', 'IO', 'OO', 'II', 'OI'):
            return ModFamV(name, o.f64)
        if name in ('maxint', 'minint'):
            t = {'maxint': (HI64, HI32), 'minint': (LO64, LO32)}[name]
            return Sym(TInt, z3.If(bt(o.f64), z3.IntVal(t[0]),
                                   z3.IntVal(t[1])))
        return None
    if isinstance(o, ModFamV):
        return modfam_attr(I, o.pref, o.f64, name)
    if isinstance(o, Ref):
        return ref_attr(I, o, name)
    if isinstance(o, TypeV) and name == '__name__':
        return Const(o.name)
    if isinstance(o, ConstDict):
        return constdict_attr(I, o, name)
    if hasattr(o, 'getattr_v'):
        return o.getattr_v(I, name)
    if isinstance(o, ExcV):
        if name == 'args':
            return Tup(o.args)
    if isinstance(o, (Const, Sym)):
        return scalar_attr(I, o, name)
    if isinstance(o, Tup):
        if name == 'index' or name == 'count':
            raise Unsupported('tuple.' + name)
        return None
    if isinstance(o, TypeV):
        if o.name == 'str' and name in ('lower', 'upper', 'strip'):
            return Builtin('str.' + name, lambda I, a, k: I.call(
                I.getattr(a[0], name), a[1:]))
        if o.name == 'dict' and name == 'fromkeys':
            raise Unsupported('dict.fromkeys')
    if isinstance(o, ContV):
        raise Unsupported(f'attribute {o}.{name}')
    return None


def modfam_attr(I, pref, f64, name):
    for s in SETS + MAPS:
        if name == s or name.endswith(s) and name[:2] == pref:
            return ContV(pref, s, f64)
    for s in ('TreeSet', 'Set', 'BTree', 'Bucket'):
        if name.endswith(s) and len(name) == len(s) + 2:
            return ContV(name[:2], s, f64 if name[0] != 'O' else None)
    if name == 'multiunion':
        return kwless(name, lambda I, *a: multiunion(I, a, bt(f64)))
    if name in ('union', 'intersection', 'difference'):
        return kwless(name, lambda I, a, b: set_op(I, name, a, b, bt(f64)))
    if name in ('weightedUnion', 'weightedIntersection'):
        return kwless(name, lambda I, *a: weighted(I, name, a, bt(f64)))
    if name in ('family',):
        return FamV(f64)
    return None


def ref_attr(I, o, name):
    ctx = I.ctx
    ct = o.ct
    if ct is LENGTH or (ct is not None and ct.name == 'Length'):
        return length_attr(I, o, name)
    if (ct is None and o.cell.flavor == 'list') or isinstance(ct, ListCT):
        return list_attr(I, o, name)
    if isinstance(ct, SetCT) or (ct is None and o.cell.flavor in (
            'pyset', 'OOSet')):
        return set_attr(I, o, name)
    if isinstance(ct, MapCT) or ct is None:
        return map_attr(I, o, name)
    return None


def length_attr(I, o, name):
    ctx = I.ctx

    def cur():
        return ctx.rd(o.t, 'Length.v', I_)

    def change(I, d):
        on_write(I, o, 'change')
        ctx.wr(o.t, 'Length.v', I_, cur() + ctx.coerce(d, TInt))
        return NONE

    def set_(I, v):
        on_write(I, o, 'set')
        ctx.wr(o.t, 'Length.v', I_, ctx.coerce(v, TInt))
        return NONE
    if name == 'value':
        return Sym(TInt, cur())
    if name == 'change':
        return kwless(name, change)
    if name == 'set':
        return kwless(name, set_)
    if name == '__call__':
        return kwless(name, lambda I: Sym(TInt, cur()))
    if name == '_p_deactivate':
        return kwless(name, lambda I: NONE)
    return None


def call_ref(I, f, args, kwargs):
    f = deref(I, f)
    if f.ct is not None and f.ct.name == 'Length':
        return Sym(TInt, I.ctx.rd(f.t, 'Length.v', I_))
    I.raise_('TypeError')


def list_attr(I, o, name):
    ctx = I.ctx
    if name == 'append':
        return kwless(name, lambda I, v: list_append(I, o, v))
    if name == 'extend':
        return kwless(name, lambda I, v: list_extend(I, o, v))
    if name == 'insert':
        return kwless(name, lambda I, i, v: list_insert(I, o, i, v))
    if name == 'pop':
        return kwless(name, lambda I, *a: list_pop(I, o, *a))
    if name == 'reverse':
        def rev(I):
            if o.ct is None:
                return NONE
            it = list_view(I, o)
            it.elems = None
            r = reversed_list(I, it, o.ct.elem)
            on_write(I, o, 'reverse')
            for n, s in o.ct.comps().items():
                ctx.wr(o.t, n, s, ctx.rd(r.t, n, s))
            return NONE
        return kwless(name, rev)
    if name == 'sort':
        def srt(I, args, kw):
            if o.ct is None:
                return NONE
            it = list_view(I, o)
            if it.elems is not None and len(it.elems) <= 1:
                return NONE
            it.elems = None
            sorted_list(I, it, kw.get('key'), kw.get('reverse'), o)
            return NONE
        return Builtin(name, srt)
    if name == 'copy':
        return kwless(name, lambda I: to_list(I, o))
    if name == 'clear':
        def clear(I):
            on_write(I, o, 'clear')
            if o.ct is not None:
                ctx.wr(o.t, o.ct.n, I_, z3.IntVal(0))
            return NONE
        return kwless(name, clear)
    if name == '__len__':
        return kwless(name, lambda I: length(I, o))
    if name in ('index', 'count', 'remove'):
        raise Unsupported('list.' + name)
    return None


def set_attr(I, o, name):
    ctx = I.ctx

    def insert(I, v):
        m, x = (None, None)
        if o.ct is None:
            set_insert(I, o, v)
            return Const(1)
        m, x = set_insert(I, o, v)
        return Sym(TInt, z3.If(z3.Select(m, x), z3.IntVal(0), z3.IntVal(1)))
    if name in ('insert', 'add'):
        return kwless(name, insert)
    if name == 'remove':
        return kwless(name, lambda I, v: set_remove(I, o, v) or NONE)
    if name == 'discard':
        return kwless(name, lambda I, v: set_remove(I, o, v, False) or NONE)
    if name in ('has_key', '__contains__'):
        return kwless(name, lambda I, v: mkbool(contains(I, v, o)))
    if name == 'keys':
        return kwless(name, lambda I, *a: IterRef(I, o))
    if name == 'update':
        def upd(I, src):
            if o.ct is None:
                it = seq(I, src)
                if it.elems is not None:
                    for v in it.elems:
                        set_insert(I, o, v)
                    return NONE
                resolve_as(I, o, SetCT(infer(it.get(z3.Int('j!p')))))
                fill_from_view(I, o, it)
                return NONE
            fill_set(I, o, src)
            return NONE
        return kwless(name, upd)
    if name == 'clear':
        def clear(I):
            on_write(I, o, 'clear')
            if o.ct is not None:
                e = o.ct.empty()[o.ct.m]
                card(ctx, e)
                ctx.wr(o.t, o.ct.m, None, e)
            return NONE
        return kwless(name, clear)
    if name == '__len__':
        return kwless(name, lambda I: length(I, o))
    if name in ('intersection', 'union', 'difference') and \
            o.ct is not None:
        def op(I, b):
            if not (isinstance(b, Ref) and isinstance(b.ct, SetCT)):
                b = set_of_seq(I, seq(I, b), o.ct.elem, None)
            return set_op(I, name, o, b)
        return kwless(name, op)
    if name == 'copy':
        def cp(I):
            return new_set(I, o.ct.elem, content_m(ctx, o))
        return kwless(name, cp)
    if name in ('minKey', 'maxKey', 'pop', 'issubset', 'isdisjoint',
                'issuperset'):
        raise Unsupported('set.' + name)
    return None


def IterRef(I, o):
    if o.ct is None:
        return IterV(z3.IntVal(0), None, elems=[])
    return iterate(I, o)


def opt_key(I, o, v):
    """Range bound of keys()/values()/items(): None means unbounded."""
    if v is None or (isinstance(v, Const) and v.value is None):
        return None
    return I.ctx.coerce(v, o.ct.key)


def map_attr(I, o, name):
    ctx = I.ctx

    def get(I, k, d=NONE):
        if o.ct is None:
            return d
        kt = ctx.coerce(k, o.ct.key)
        check_id(I, o, kt)
        if ctx.branch(z3.Select(map_dom(ctx, o), kt)):
            return map_val(I, o, kt)
        return d

    def view(what):
        def f(I, args, kw):
            names = ['min', 'max', 'excludemin', 'excludemax']
            a = dict(zip(names, args))
            a.update(kw)
            if o.ct is None:
                return IterV(z3.IntVal(0), None, elems=[])
            lo = opt_key(I, o, a.get('min'))
            hi = opt_key(I, o, a.get('max'))
            xlo = ctx.branch(bt(truth_term(I, a.get('excludemin', FALSE))))
            xhi = ctx.branch(bt(truth_term(I, a.get('excludemax', FALSE))))
            return map_view(I, o, what, lo, hi, xlo, xhi)
        return f
    if name == 'get':
        return kwless(name, get)
    if name in ('has_key', '__contains__'):
        if o.ct is not None and name == 'has_key' and False:
            return None
        return kwless(name, lambda I, v: mkbool(contains(I, v, o)))
    if name in ('keys', 'values', 'items', 'iterkeys', 'itervalues',
                'iteritems'):
        w = name[4:] if name.startswith('iter') else name
        return Builtin(name, view(w))
    if name == 'update':
        return kwless(name, lambda I, s: map_update(I, o, s) or NONE)
    if name == 'insert':
        def ins(I, k, v):
            if o.ct is not None and ctx.branch(bt(contains(I, k, o))):
                return Const(0)
            map_set(I, o, k, v)
            return Const(1)
        return kwless(name, ins)
    if name == 'setdefault':
        def sd(I, k, v=NONE):
            if o.ct is not None and ctx.branch(bt(contains(I, k, o))):
                return map_val(I, o, ctx.coerce(k, o.ct.key))
            map_set(I, o, k, v)
            return v
        return kwless(name, sd)
    if name == 'pop':
        def pop(I, k, *d):
            if o.ct is None or not ctx.branch(bt(contains(I, k, o))):
                if d:
                    return d[0]
                I.raise_('KeyError')
            v = map_val(I, o, ctx.coerce(k, o.ct.key))
            map_del(I, o, k, False)
            return v
        return kwless(name, pop)
    if name == 'clear':
        def clear(I):
            on_write(I, o, 'clear')
            if o.ct is not None:
                for n, s in o.ct.comps().items():
                    ctx.wr(o.t, n, s, o.ct.empty()[n])
                card(ctx, o.ct.empty()[o.ct.d])
            return NONE
        return kwless(name, clear)
    if name == 'copy':
        def cp(I):
            r = make_dict(I)
            if o.ct is not None:
                map_update(I, r, o)
            return r
        return kwless(name, cp)
    if name == '__getitem__':
        return kwless(name, lambda I, k: getitem(I, o, k))
    if name == '__setitem__':
        return kwless(name, lambda I, k, v: setitem(I, o, k, v) or NONE)
    if name == '__len__':
        return kwless(name, lambda I: length(I, o))
    if name in ('minKey', 'maxKey', 'byValue', 'popitem'):
        raise Unsupported('map.' + name)
    return None


def constdict_attr(I, o, name):
    if name == 'get':
        def get(I, k, d=NONE):
            if isinstance(k, Const):
                return o.d.get(k.value, d)
            for key, v in o.d.items():
                if I.ctx.branch(bt(eq_term(I, k, Const(key)))):
                    return v
            return d
        return kwless(name, get)
    if name == 'copy':
        return kwless(name, lambda I: ConstDict(dict(o.d)))
    if name == 'keys':
        return kwless(name, lambda I: iterate(I, o))
    if name == 'values':
        return kwless(name, lambda I: IterV(
            z3.IntVal(len(o.d)), None, elems=list(o.d.values())))
    if name == 'items':
        return kwless(name, lambda I: IterV(
            z3.IntVal(len(o.d)), None,
            elems=[Tup([Const(k), v]) for k, v in o.d.items()]))
    if name == 'has_key' or name == '__contains__':
        return kwless(name, lambda I, k: mkbool(contains(I, k, o)))
    if name == 'update':
        def upd(I, s):
            if isinstance(s, ConstDict):
                o.d.update(s.d)
                return NONE
            raise Unsupported('update of a constant dict')
        return kwless(name, upd)
    return None


LOWER = lambda t: uf('lower', R_, R_)(t)
UPPER = lambda t: uf('upper', R_, R_)(t)


def scalar_attr(I, o, name):
    ctx = I.ctx
    if isinstance(o, Const) and isinstance(o.value, str):
        def f(I, args, kw):
            if all(isinstance(a, Const) for a in args) and not kw:
                try:
                    r = getattr(o.value, name)(*[a.value for a in args])
                except Exception as e:
                    I.raise_(type(e).__name__)
                if isinstance(r, list):
                    return make_list(I, [Const(x) for x in r])
                return Const(r)
            if name == 'join':
                it = seq(I, args[0])
                if it.elems is not None and all(
                        isinstance(x, Const) for x in it.elems):
                    return Const(o.value.join(x.value for x in it.elems))
            if name == 'format':
                return Opaque('str')
            h = ctx.opts.get('str_method')
            if h:
                return h(I, o, name, args)
            raise Unsupported('str.' + name)
        if hasattr(str, name):
            return Builtin(name, f)
        return None
    if isinstance(o, Sym) and o.ty is TWord:
        if name in ('lower', 'casefold') :
            f = uf(name, R_, R_)
            t = f(o.t)
            if name == 'lower':
                add_fact(ctx, f(t) == t)
            return kwless(name, lambda I: Sym(TWord, t))
        if name in ('upper', 'strip', 'title', 'swapcase', 'capitalize'):
            return kwless(name, lambda I: Sym(TWord, uf(name, R_, R_)(o.t)))
        if name == 'startswith':
            return kwless(name, lambda I, p: Sym(TBool, uf(
                'startswith', R_, R_, B_)(o.t, ctx.coerce(p, TWord))))
        if hasattr(str, name):
            raise Unsupported('str.' + name)
    if isinstance(o, Const) and isinstance(o.value, (int, float)) and \
            name in ('real',):
        return o
    return None


# -------------------------------------------------------------------- structs

def struct_getattr(I, o, name, default):
    ctx = I.ctx
    st = o.ct
    hook = getattr(st, 'getattr', None)
    cls = o.cls
    if cls is None:
        # dispatch on the class
        ty = st.field(None, name)
        if ty is not None and not any(
                isinstance(k, tuple) and k[1] == name for k in st.fields):
            return read_field(I, o, name, ty)
        tag = ctx.rd(o.t, f'{st.name}.cls', I_)
        cls = None
        for k, cn in enumerate(st.classes[:-1]):
            if ctx.branch(tag == k + 1):
                cls = cn
                break
        else:
            cls = st.classes[-1]
            ctx.assume(tag == len(st.classes))
        o = Ref(st, o.t, cls=cls)
    key = (cls, name) if (cls, name) in st.fields else name
    if key in st.fields:
        return read_field(I, o, key, st.fields[key])
    ci = struct_class(I, st, cls)
    if name == '__class__':
        return ci
    a = I.class_attr(ci, name)
    if a is not None:
        return I.bind(a, o, ci)
    if default is not None:
        return default
    I.raise_('AttributeError', Const(name))


def read_field(I, o, key, ty):
    ctx = I.ctx
    st = o.ct
    ts = [ctx.rd(o.t, st.comp(key, i), s)
          for i, s in enumerate(ty.leaves())]
    v = ty.unpack(ts)
    mark_alloc(I, v)
    return v


def struct_setattr(I, o, name, v):
    ctx = I.ctx
    st = o.ct
    if o.cls is None and any(isinstance(k, tuple) and k[1] == name
                             for k in st.fields):
        raise Unsupported('assignment to a field of an unknown class')
    key = (o.cls, name) if (o.cls, name) in st.fields else name
    if key not in st.fields:
        raise Unsupported(f'new field {name} of {st.name}')
    on_write(I, o, 'setattr')
    ty = st.fields[key]
    for i, (s, t) in enumerate(zip(ty.leaves(), ty.pack(ctx, v))):
        ctx.wr(o.t, st.comp(key, i), s, t)


def obj_attr(I, o, name):
    if name in ('_p_changed', '_p_jar'):
        return NONE
    if name == '__dict__':
        raise Unsupported('__dict__')
    return None


# ------------------------------------------------------------------ externals

def external(I, name):
    ctx = I.ctx
    over = ctx.program.ext.get(name)
    if over is not None:
        return over
    if name == 'BTrees.family32':
        return FamV(z3.BoolVal(False))
    if name == 'BTrees.family64':
        return FamV(z3.BoolVal(True))
    if name in ('BTrees.Length.Length',):
        return LengthClass()
    parts = name.split('.')
    if len(parts) >= 2 and parts[0] == 'BTrees' and len(parts[1]) == 7 and \
            parts[1].endswith('BTree'):
        pref = parts[1][:2]
        f64 = z3.BoolVal(pref[0] == 'L' or pref[1] == 'L' and
                         pref[0] == 'O')
        if len(parts) == 2:
            return ExtV_()(name)
        r = modfam_attr(I, pref, f64, parts[2])
        if r is not None:
            return r
    if parts[0] == 'builtins':
        return builtin(I, parts[1]) if len(parts) == 2 else ExtV_()(name)
    if name in EXT:
        return Builtin(name, EXT[name])
    return ExtV_()(name)


def call_external(I, f, args, kwargs):
    n = f.name
    if n in EXT:
        return EXT[n](I, args, kwargs)
    if n.startswith('builtins.'):
        e = n[9:]
        import interp
        if e in interp.BUILTIN_EXC:
            return ExcV(e, args)
    if n.split('.')[-1].endswith(('Error', 'Exception')):
        return ExcV(n.split('.')[-1], args)
    raise Unsupported(f'call of external {n}')


LOG = z3.Function('log', R_, R_)
SQRT = z3.Function('sqrt', R_, R_)


def ext_log(I, args, kw):
    ctx = I.ctx
    if len(args) != 1:
        raise Unsupported('log with a base')
    x = ctx.coerce(args[0], TReal)
    if not ctx.branch(x > 0):
        I.raise_('ValueError')
    t = LOG(x)
    add_fact(ctx, LOG(z3.RealVal(1)) == 0)
    add_fact(ctx, (t > 0) == (x > 1))
    add_fact(ctx, (t == 0) == (x == 1))
    return Sym(TReal, t)


def ext_sqrt(I, args, kw):
    ctx = I.ctx
    x = ctx.coerce(args[0], TReal)
    if not ctx.branch(x >= 0):
        I.raise_('ValueError')
    t = SQRT(x)
    add_fact(ctx, t >= 0)
    add_fact(ctx, (t == 0) == (x == 0))
    h = ctx.opts.get('sqrt_sq', True)
    if h:
        add_fact(ctx, t * t == x)
    return Sym(TReal, t)


def ext_islice(I, args, kw):
    ctx = I.ctx
    src = args[0]
    if len(args) == 2:
        lo, hi = Const(0), args[1]
    elif len(args) == 3:
        lo, hi = args[1], args[2]
    else:
        raise Unsupported('islice step')
    if isinstance(lo, Const) and lo.value is None:
        lo = Const(0)
    it = iterate(I, src)
    if isinstance(hi, Const) and hi.value is None:
        h = it.n
    else:
        hv = ctx.coerce(hi, TInt)
        h = z3.If(hv < it.n, hv, it.n)
    lt = ctx.coerce(lo, TInt)
    lt = z3.simplify(z3.If(lt > it.n, it.n, lt))
    if isinstance(src, GenV_()):
        g = dict(ctx.state.objs[src.oid])
        base = g['pos']
        bp = z3.IntVal(base) if isinstance(base, int) else base
        g['pos'] = bp + h
        ctx.state.objs[src.oid] = g
    if it.elems is not None:
        # keep it symbolic but exact
        hs, ls = z3.simplify(h), z3.simplify(lt)
        if z3.is_int_value(hs) and z3.is_int_value(ls):
            el = it.elems[ls.as_long():hs.as_long()]
            return make_iterator(I, IterV(z3.IntVal(len(el)), None,
                                          elems=el))
        lst = make_list(I, it.elems)
        it = list_view(I, lst)
        it.elems = None
    n = z3.If(h > lt, h - lt, z3.IntVal(0))
    return make_iterator(I, IterV(
        z3.simplify(n), lambda j: it.get(j + lt), kind='slice'))


def ext_bisect(left):
    def f(I, args, kw):
        ctx = I.ctx
        if kw or len(args) != 2:
            raise Unsupported('bisect with bounds')
        a, x = args
        if a.ct is None:
            return Const(0)
        n = list_n(ctx, a)
        add_fact(ctx, n >= 0)
        i = ctx.fresh_int('bis')
        ts = list_terms(ctx, a)
        j = z3.Int('j!bi')
        ctx.assume(z3.And(0 <= i, i <= n))
        e = list_get(I, a, j, ts)
        if left:
            below = bt(lt_term(I, e, x))
            above = bt(lt_term(I, x, e, False))
        else:
            below = bt(lt_term(I, e, x, False))
            above = bt(lt_term(I, x, e))
        # precondition: the list is sorted
        u, v = z3.Ints('u!bi v!bi')
        eu, ev = list_get(I, a, u, ts), list_get(I, a, v, ts)
        ctx.prove(fa([u, v], z3.Implies(
            z3.And(0 <= u, u < v, v < n), bt(lt_term(I, eu, ev, False)))),
            f'{ctx.line}: bisect is given a sorted list')
        p = pats_for(leaf_terms(e)[0], j)
        ctx.assume(fa(j, z3.Implies(
            z3.And(0 <= j, j < n),
            z3.And(z3.Implies(j < i, below), z3.Implies(j >= i, above))),
            p))
        return Sym(TInt, i)
    return f


def ext_insort(I, args, kw):
    a, x = args
    i = ext_bisect(False)(I, [a, x], {})
    list_insert(I, a, i, x)
    return NONE


def ext_nlargest(I, args, kw):
    """nlargest(n, it): the first n of sorted(it, reverse=True)."""
    ctx = I.ctx
    if len(args) != 2:
        raise Unsupported('nlargest with key')
    s = sorted_list(I, args[1], kw.get('key'), TRUE)
    if s.ct is None:
        return s
    n = list_n(ctx, s)
    k = ctx.coerce(args[0], TInt)
    ts = list_terms(ctx, s)
    hi = z3.If(k < n, z3.If(k > 0, k, z3.IntVal(0)), n)
    return new_list(I, s.ct.elem, hi, ts)


def ext_nsmallest(I, args, kw):
    ctx = I.ctx
    if len(args) != 2:
        raise Unsupported('nsmallest with key')
    s = sorted_list(I, args[1], kw.get('key'), FALSE)
    if s.ct is None:
        return s
    n = list_n(ctx, s)
    k = ctx.coerce(args[0], TInt)
    ts = list_terms(ctx, s)
    hi = z3.If(k < n, z3.If(k > 0, k, z3.IntVal(0)), n)
    return new_list(I, s.ct.elem, hi, ts)


EXT = {
    'math.log': ext_log,
    'math.sqrt': ext_sqrt,
    'itertools.islice': ext_islice,
    'bisect.bisect_left': ext_bisect(True),
    'bisect.bisect_right': ext_bisect(False),
    'bisect.bisect': ext_bisect(False),
    'bisect.insort': ext_insort,
    'bisect.insort_right': ext_insort,
    'heapq.nlargest': ext_nlargest,
    'heapq.nsmallest': ext_nsmallest,
    'sys.intern': lambda I, a, k: a[0],
    'builtins.intern': lambda I, a, k: a[0],
    'zope.interface.implementer': lambda I, a, k: Opaque('decorator'),
}


# ------------------------------------------------------------------- builtins

def b_isinstance(I, args, kw):
    return mkbool(isinstance_term(I, args[0], args[1]))


def b_range(I, args, kw):
    ctx = I.ctx
    if all(const_int(a) is not None for a in args):
        r = range(*[const_int(a) for a in args])
        if len(r) <= 64:
            return IterV(z3.IntVal(len(r)), None,
                         elems=[Const(x) for x in r])
        lo, n, st = r.start, len(r), r.step
        return IterV(z3.IntVal(n), lambda j: Sym(TInt, j * st + lo)
                     if (st, lo) != (1, 0) else Sym(TInt, j))
    if len(args) == 1:
        n = ctx.coerce(args[0], TInt)
        return IterV(z3.If(n > 0, n, z3.IntVal(0)), lambda j: Sym(TInt, j))
    if len(args) == 2:
        a, b = ctx.coerce(args[0], TInt), ctx.coerce(args[1], TInt)
        return IterV(z3.If(b > a, b - a, z3.IntVal(0)),
                     lambda j: Sym(TInt, a + j))
    st = const_int(args[2])
    if st == -1:
        a, b = ctx.coerce(args[0], TInt), ctx.coerce(args[1], TInt)
        return IterV(z3.If(a > b, a - b, z3.IntVal(0)),
                     lambda j: Sym(TInt, a - j))
    raise Unsupported('range step')


def b_enumerate(I, args, kw):
    it = seq(I, args[0])
    start = args[1] if len(args) > 1 else kw.get('start', Const(0))
    if it.elems is not None:
        return IterV(it.n, None, elems=[
            Tup([binop(I, 'Add', Const(k), start), v])
            for k, v in enumerate(it.elems)])
    s = I.ctx.coerce(start, TInt)
    r = IterV(it.n, lambda j: Tup([Sym(TInt, j + s), it.get(j)]))
    if hasattr(it, 'check'):
        r.check = it.check
    return r


def b_zip(I, args, kw):
    its = [seq(I, a) for a in args]
    if all(i.elems is not None for i in its):
        return IterV(None, None, elems=[
            Tup(list(x)) for x in zip(*[i.elems for i in its])])
    if any(i.elems is not None for i in its):
        fixed = []
        for i in its:
            if i.elems is not None:
                if not i.elems:
                    return IterV(z3.IntVal(0), None, elems=[])
                l = make_list(I, i.elems)
                i = list_view(I, l)
                i.elems = None
            fixed.append(i)
        its = fixed
    n = its[0].n
    for i in its[1:]:
        if not i.n.eq(n):
            n = z3.If(i.n < n, i.n, n)
    return IterV(n, lambda j: Tup([i.get(j) for i in its]))


def b_reversed(I, args, kw):
    it = seq(I, args[0])
    if it.elems is not None:
        return IterV(it.n, None, elems=list(reversed(it.elems)))
    return IterV(it.n, lambda j: it.get(it.n - 1 - j))


def b_sorted(I, args, kw):
    return sorted_list(I, args[0], kw.get('key'), kw.get('reverse'))


def b_map(I, args, kw):
    f = args[0]
    if len(args) != 2:
        raise Unsupported('map over several iterables')
    it = seq(I, args[1])
    return lazy_map(I, f, it)


def lazy_map(I, f, it):
    ctx = I.ctx
    if it.elems is not None:
        return make_iterator(I, IterV(it.n, None, elems=[
            I.call(f, [v]) for v in it.elems]))
    if ctx.quick(it.n <= 0, 200):
        return make_iterator(I, IterV(z3.IntVal(0), None, elems=[]))

    def body(Skip, j):
        ctx.assume(z3.And(0 <= j, j < it.n))
        v = it.get(j)
        mark_alloc(I, v)
        return I.call(f, [v])
    try:
        return make_iterator(I, map_filter(I, it, body))
    except NotPure:
        pass
    fr = I.cur_frame
    sub = I.new_frame(fr.func, fr.mod, fr)
    env = ctx.state.envs[sub.fid]
    env['%out'] = ctx.new_cell('list')
    env['%x'] = Opaque('unbound')

    def bind(v):
        ctx.state.envs[sub.fid]['%x'] = v

    def run():
        r = I.call(f, [ctx.state.envs[sub.fid]['%x']])
        list_append(I, ctx.state.envs[sub.fid]['%out'], r)
    node = MAPNODES.setdefault((ctx.line, id(f.node) if hasattr(
        f, 'node') else 0), ast.Pass())
    I.for_loop(node, it, bind, run, sub)
    return make_iterator(I, ctx.state.envs[sub.fid]['%out'])


MAPNODES = {}


def b_filter(I, args, kw):
    ctx = I.ctx
    f = args[0]
    it = seq(I, args[1])
    none = isinstance(f, Const) and f.value is None
    if it.elems is not None:
        out = []
        for v in it.elems:
            if I.truth(v if none else I.call(f, [v])):
                out.append(v)
        return make_iterator(I, make_list(I, out))
    if ctx.quick(it.n <= 0, 200):
        return make_iterator(I, make_list(I, []))

    def body(Skip, j):
        ctx.assume(z3.And(0 <= j, j < it.n))
        v = it.get(j)
        if isinstance(v, Ref) and v.nullable and none:
            if ctx.branch(v.t == 0):
                raise Skip()
            v = deref(I, v)
        mark_alloc(I, v)
        if not I.truth(v if none else I.call(f, [v])):
            raise Skip()
        return v
    try:
        return make_iterator(I, map_filter(I, it, body))
    except NotPure:
        raise Unsupported('filter with effects')


def b_minmax(name):
    def f(I, args, kw):
        ctx = I.ctx
        if kw:
            raise Unsupported(name + ' with key')
        if len(args) == 1:
            it = seq(I, args[0])
            if it.elems is None:
                raise Unsupported(name + ' of a symbolic sequence')
            args = it.elems
            if not args:
                I.raise_('ValueError')
        r = args[0]
        for v in args[1:]:
            c = bt(lt_term(I, v, r) if name == 'min' else lt_term(I, r, v))
            ta, tb = scalar_type(r), scalar_type(v)
            if ta is None or tb is None:
                raise Unsupported(name)
            ty = ta if ta == tb else TReal
            s = z3.simplify(c)
            if z3.is_true(s):
                r = v
            elif not z3.is_false(s):
                r = Sym(ty, z3.If(c, ctx.coerce(v, ty), ctx.coerce(r, ty)))
        return r
    return f


def b_anyall(isany):
    def f(I, args, kw):
        ctx = I.ctx
        src = args[0]
        it = seq(I, src)
        if it.elems is not None:
            for v in it.elems:
                if I.truth(v) == isany:
                    return Const(isany)
            return Const(not isany)
        b = ctx.fresh(B_, 'anyall')
        w = ctx.fresh_int('w')
        j = z3.Int('j!aa')
        ej = bt(truth_term(I, it.get(j)))
        ew = bt(truth_term(I, it.get(w)))
        if not isany:
            ej, ew = z3.Not(ej), z3.Not(ew)
        # b: some element satisfies
        ctx.assume(z3.Implies(b, z3.And(0 <= w, w < it.n, ew)))
        ctx.assume(fa(j, z3.Implies(z3.And(0 <= j, j < it.n, ej), b)))
        return Sym(TBool, b if isany else z3.Not(b))
    return f


def b_sum(I, args, kw):
    ctx = I.ctx
    it = seq(I, args[0])
    if it.elems is not None:
        r = args[1] if len(args) > 1 else Const(0)
        for v in it.elems:
            r = binop(I, 'Add', r, v)
        return r
    if len(args) > 1:
        raise Unsupported('sum with start')
    h = ctx.opts.get('sum')
    if h:
        return h(I, it)
    raise Unsupported('sum of a symbolic sequence')


def b_getattr(I, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, Const):
        raise Unsupported('getattr with a symbolic name')
    d = args[2] if len(args) > 2 else None
    try:
        return I.getattr(o, n.value, d)
    except PyRaise as e:
        if e.exc.cls == 'AttributeError' and d is not None:
            return d
        raise


def b_hasattr(I, args, kw):
    mark = Opaque('object#missing')
    try:
        return Const(I.getattr(args[0], args[1].value, mark) is not mark)
    except PyRaise as e:
        if e.exc.cls == 'AttributeError':
            return FALSE
        raise


def b_iter(I, args, kw):
    return make_iterator(I, args[0])


def b_next(I, args, kw):
    ctx = I.ctx
    g = args[0]
    if not isinstance(g, GenV_()):
        I.raise_('TypeError')
    o = dict(ctx.state.objs[g.oid])
    it, pos = o['list'], o['pos']
    p = z3.IntVal(pos) if isinstance(pos, int) else pos
    if it.elems is not None and isinstance(pos, int):
        if pos < len(it.elems):
            o['pos'] = pos + 1
            ctx.state.objs[g.oid] = o
            return it.elems[pos]
        if len(args) > 1:
            return args[1]
        I.raise_('StopIteration')
    if ctx.branch(p < it.n):
        o['pos'] = p + 1
        ctx.state.objs[g.oid] = o
        v = it.get(p)
        mark_alloc(I, v)
        return v
    if len(args) > 1:
        return args[1]
    I.raise_('StopIteration')


def b_chr(I, args, kw):
    if isinstance(args[0], Const):
        return Const(chr(args[0].value))
    h = I.ctx.opts.get('chr')
    if h:
        return h(I, args[0])
    raise Unsupported('chr')


def b_ord(I, args, kw):
    if isinstance(args[0], Const):
        try:
            return Const(ord(args[0].value))
        except TypeError:
            I.raise_('TypeError')
    if hasattr(args[0], 'ord_v'):
        return args[0].ord_v(I)
    raise Unsupported('ord')


def b_divmod(I, args, kw):
    return Tup([binop(I, 'FloorDiv', *args), binop(I, 'Mod', *args)])


def b_abs(I, args, kw):
    v = args[0]
    if isinstance(v, Const):
        return Const(abs(v.value))
    t = v.t
    return Sym(v.ty, z3.If(t >= 0, t, -t))


def b_callable(I, args, kw):
    v = args[0]
    if isinstance(v, (Const, Sym, Tup)):
        return FALSE
    if isinstance(v, Ref):
        return Const(v.ct is not None and v.ct.name == 'Length')
    return TRUE


def b_round(I, args, kw):
    raise Unsupported('round')


BUILTINS = {
    'isinstance': b_isinstance,
    'len': lambda I, a, k: length(I, a[0]),
    'range': b_range,
    'enumerate': b_enumerate,
    'zip': b_zip,
    'reversed': b_reversed,
    'sorted': b_sorted,
    'map': b_map,
    'filter': b_filter,
    'min': b_minmax('min'),
    'max': b_minmax('max'),
    'any': b_anyall(True),
    'all': b_anyall(False),
    'sum': b_sum,
    'getattr': b_getattr,
    'hasattr': b_hasattr,
    'iter': b_iter,
    'next': b_next,
    'chr': b_chr,
    'ord': b_ord,
    'divmod': b_divmod,
    'abs': b_abs,
    'repr': lambda I, a, k: Opaque('str'),
    'callable': b_callable,
    'print': lambda I, a, k: NONE,
    'setattr': lambda I, a, k: I.setattr(a[0], a[1].value, a[2]) or NONE,
}

TYPES = ('dict', 'list', 'tuple', 'set', 'frozenset', 'bool', 'int', 'float',
         'str', 'object', 'type', 'bytes')


def builtin(I, name):
    h = I.ctx.opts.get('builtins', {}).get(name)
    if h:
        return Builtin(name, h)
    if name in BUILTINS:
        return Builtin(name, BUILTINS[name])
    if name in TYPES:
        return TypeV(name)
    if name == '__name__':
        return Const('module')
    return None


# ---------------------------------------------------------- generic invariants

def generic_invariants(L):
    """Candidates that make sense for any loop; false ones are dropped."""
    ctx = L.ctx
    s, s0 = L.s, L.s0
    out = []
    r = z3.Int('r!gi')
    a0 = s0.alloc
    for k in sorted(L.mod['heap']):
        h, h0 = s.heap.get(k), s0.heap.get(k)
        if h is None:
            continue
        if h0 is None:
            h0 = ctx.init_comp(k, h.sort().range())
        out.append((f'heap {k} of older objects unchanged', fa(
            r, z3.Implies(r < a0, z3.Select(h, r) == z3.Select(h0, r)),
            [z3.Select(h, r)] if not has_ite(h) else None)))
    if ctx.writable is not None and ctx.entry_view is not None:
        a = ctx.entry_view.state.alloc
        for fid, n in sorted(L.mod['env']):
            v = s.envs.get(fid, {}).get(n)
            if isinstance(v, Ref):
                f = v.t >= a
                if v.nullable:
                    f = z3.Or(v.t == 0, f)
                out.append((f'{n} was made during the call', f))
    # individual references of the frame and of objects
    seen = set()
    refs = []
    for fid in sorted(s.envs):
        for n in sorted(s.envs[fid]):
            v0 = s0.envs.get(fid, {}).get(n)
            if isinstance(v0, Ref):
                refs.append((n, v0))
    for oid in sorted(s.objs):
        for n in sorted(s.objs[oid]):
            v0 = s0.objs.get(oid, {}).get(n)
            if isinstance(v0, Ref):
                refs.append((f'self.{n}', v0))
    for n, v0 in refs:
        if v0.ct is None:
            continue
        key = v0.t.sexpr()
        if key in seen:
            continue
        seen.add(key)
        for c, so in v0.ct.comps().items():
            if c in L.mod['heap'] and c in s.heap:
                h0 = s0.heap.get(c)
                if h0 is None:
                    h0 = ctx.init_comp(c, so)
                out.append((f'{c} of {n} unchanged',
                            z3.Select(s.heap[c], v0.t) ==
                            z3.Select(h0, v0.t)))
                if so == I_:
                    out.append((f'{c} of {n} grows by one',
                                z3.Select(s.heap[c], v0.t) ==
                                z3.Select(h0, v0.t) + L.i))
                    out.append((f'{c} of {n} at least',
                                z3.Select(s.heap[c], v0.t) >=
                                z3.Select(h0, v0.t)))
                    out.append((f'{c} of {n} shrinks by one',
                                z3.Select(s.heap[c], v0.t) ==
                                z3.Select(h0, v0.t) - L.i))
                    out.append((f'{c} of {n} nonneg',
                                z3.Select(s.heap[c], v0.t) >= 0))
                    out.append((f'{c} of {n} at most',
                                z3.Select(s.heap[c], v0.t) <=
                                z3.Select(h0, v0.t) + L.i))
    for fid in sorted(s.envs):
        for n in sorted(s.envs[fid]):
            v = s.envs[fid][n]
            v0 = s0.envs.get(fid, {}).get(n)
            if (fid, n) not in L.mod['env'] or v0 is None:
                continue
            if scalar_type(v) is TInt and scalar_type(v0) is TInt:
                t, t0 = ctx.coerce(v, TInt), ctx.coerce(v0, TInt)
                out.append((f'{n} counts up', t == t0 + L.i))
                out.append((f'{n} not below start', t >= t0))
                out.append((f'{n} counts down', t == t0 - L.i))
                out.append((f'{n} at most counted', t <= t0 + L.i))
            if scalar_type(v) is TReal and scalar_type(v0) is not None:
                t, t0 = ctx.coerce(v, TReal), ctx.coerce(v0, TReal)
                out.append((f'{n} not below start', t >= t0))
    # ghosts of the loop itself
    if L.it is not None:
        out.append(('position in range', z3.And(0 <= L.i, L.i <= L.it.n)))
    return out
