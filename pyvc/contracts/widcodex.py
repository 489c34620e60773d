"""Contracts of zope.index.text.widcode at the level of the characters.

A short string of characters below 256 is packed into one integer (its
characters are the digits to base 256, after a leading 1); the encoding of a
list is the concatenation of the (packed) encodings of its ids."""
import ast
import os
import runpy
import z3
from core import *      # noqa: F403
import models as M
from contract import Spec, Clause, View, bt, REQ

I_, B_ = z3.IntSort(), z3.BoolSort()
AI = z3.ArraySort(I_, I_)
sel = z3.Select
MOD = 'zope.index.text.widcode'
NTAB = 0x4000
MAXWID = 0x10000000
k, j, w, p, q, t = z3.Ints('k j w p q t')


def canon(w):
    """The (packed) encoding of an id: 7 bits a character, the first one
    marked by its high bit; no character more than is needed."""
    r = None
    for n in (4, 3, 2, 1):
        x = z3.IntVal(1)
        for i in range(n - 1, -1, -1):
            c = (w / (128 ** i)) % 128 if i < n - 1 else w / (128 ** i)
            x = x * 256 + c + (128 if i == n - 1 else 0)
        r = x if r is None else z3.If(w < 128 ** n, x, r)
    return r


def py_canon(w):
    n = 1
    while w >= 128 ** n:
        n += 1
    s = [(w >> (7 * i)) & 127 for i in range(n - 1, -1, -1)]
    return chr(s[0] + 128) + ''.join(map(chr, s[1:]))


def uncanon(x):
    """The id of a packed encoding."""
    d = lambda i: (x / (256 ** i)) % 256
    r = None
    for n in (4, 3, 2, 1):
        y = d(n - 1) - 128
        for i in range(n - 2, -1, -1):
            y = y * 128 + d(i)
        r = y if r is None else z3.If(x < 2 * 256 ** n, y, r)
    return r


def size(x):
    r = z3.IntVal(4)
    for n in (3, 2, 1, 0):
        r = z3.If(x < 2 * 256 ** n, n, r)
    return r


def shaped(x):
    """Its only character above 127 is the first one."""
    d = lambda i: (x / (256 ** i)) % 256
    return z3.And(256 <= x, x < 2 * 256 ** 4, z3.Or(*[z3.And(
        256 ** n <= x, x < 2 * 256 ** n, d(n - 1) >= 128,
        *[d(i) < 128 for i in range(n - 1)]) for n in range(1, 5)]))


class TTokT(T):
    name = 'Tok'

    def leaves(self):
        return [I_]

    def unpack(self, terms):
        return TokV(terms[0])

    def pack(self, ctx, v):
        if isinstance(v, Const) and isinstance(v.value, str):
            v = TokV.of(v.value)
        if not isinstance(v, TokV):
            raise Unsupported(f'{v} among short strings')
        return [v.t]


TTok = TTokT()
TOKS = ListCT(TTok)


class TokV(V):
    """A string of at most four characters below 256."""
    type_v = TTok

    def __init__(self, t, chars=None):
        self.t = t
        self.chars = chars

    @staticmethod
    def of(s):
        if any(ord(c) > 255 for c in s) or len(s) > 4:
            raise Unsupported(f'the string {s!r}')
        return TokV.make([z3.IntVal(ord(c)) for c in s])

    @staticmethod
    def make(chars):
        if len(chars) > 4:
            raise Unsupported('a string of more than four characters')
        x = z3.IntVal(1)
        for c in chars:
            x = x * 256 + c
        return TokV(x, chars)

    def map_v(self, f):
        return TokV(f(self.t), [f(c) for c in self.chars]
                    if self.chars is not None else None)

    def same_v(self, o):
        return self.t.eq(o.t)

    def open(self, I):
        """Its characters (one path for each length)."""
        if self.chars is None:
            for n in range(5):
                if I.ctx.branch(z3.And(256 ** n <= self.t,
                                       self.t < 2 * 256 ** n)):
                    return [(self.t / (256 ** i)) % 256
                            for i in range(n - 1, -1, -1)]
            raise Unsupported('a string of unknown length')
        return self.chars

    def len_v(self, I):
        return Const(len(self.open(I)))

    def truth_v(self, I):
        return self.t != 1

    def ord_v(self, I):
        c = self.open(I)
        if len(c) != 1:
            I.raise_('TypeError')
        return Sym(TInt, c[0])

    def iter_v(self, I):
        el = [TokV.make([c]) for c in self.open(I)]

        def get(i):
            i = z3.simplify(i)
            if not z3.is_int_value(i):
                raise Unsupported('a character at a symbolic place')
            return el[i.as_long()]
        return IterV(z3.IntVal(len(el)), get, elems=el)

    def getitem_v(self, I, i):
        c = self.open(I)
        if not isinstance(i, Const):
            raise Unsupported('a character at a symbolic place')
        try:
            return TokV.make([c[i.value]])
        except IndexError:
            I.raise_('IndexError')

    def getslice_v(self, I, lo, hi, st):
        c = self.open(I)
        if not all(isinstance(x, Const) for x in (lo, hi, st)):
            raise Unsupported('a slice at a symbolic place')
        return TokV.make(c[lo.value:hi.value:st.value])

    def eq_v(self, I, y):
        if isinstance(y, Const):
            if not isinstance(y.value, str):
                return False
            if len(y.value) > 4 or any(ord(c) > 255 for c in y.value):
                return False
            y = TokV.of(y.value)
        if isinstance(y, TokV):
            return self.t == y.t
        return False

    def lt_v(self, I, y, strict=True):
        if isinstance(y, Const) and isinstance(y.value, str):
            y = TokV.of(y.value)
        if not isinstance(y, TokV):
            raise Unsupported('order of strings')
        a, b = self.open(I), y.open(I)
        if len(a) != 1 or len(b) != 1:
            raise Unsupported('order of strings')
        return a[0] < b[0] if strict else a[0] <= b[0]

    def binop_v(self, I, op, a, b):
        if op != 'Add':
            return None
        out = []
        for x in (a, b):
            if isinstance(x, Const) and isinstance(x.value, str):
                x = TokV.of(x.value)
            if not isinstance(x, TokV):
                return None
            out += x.open(I)
        return TokV.make(out)

    def isinstance_v(self, I, name):
        return name == 'str'


def model_chr(I, v):
    if not (isinstance(v, Sym) and v.ty is TInt):
        raise Unsupported('chr of no integer')
    if not I.ctx.quick(z3.And(0 <= v.t, v.t < 256), 3000):
        raise Unsupported('chr of an integer that may exceed 255')
    return TokV.make([v.t])


class JoinV(V):
    """The concatenation of a list of short strings."""

    def __init__(self, ref, n, e):
        self.ref, self.n, self.e = ref, n, e

    def same_v(self, o):
        return self.n.eq(o.n) and self.e.eq(o.e)

    def truth_v(self, I):
        raise Unsupported('truth of a concatenation')


def str_method(I, o, name, args):
    if o.value == '' and name == 'join' and len(args) == 1:
        x = args[0]
        if isinstance(x, Ref) and x.ct is not None and x.ct.name == TOKS.name:
            S = View(I.ctx, I.ctx.state)
            return JoinV(x, S.n(x), S.e(x))
        if isinstance(x, Ref) and x.ct is None:
            return JoinV(x, z3.IntVal(0), z3.K(I_, z3.IntVal(1)))
    raise Unsupported('str.' + name)


# ------------------------------------------------ what the module sets up

def tables():
    """Evaluates the module and compares its tables with the definition, for
    every entry."""
    import prove
    f = os.path.join(prove.ROOT, 'zope/index/text/widcode.py')
    ns = runpy.run_path(f)
    enc, dec = ns.get('_encoding'), ns.get('_decoding')
    ok_e = isinstance(enc, tuple) and len(enc) == NTAB and all(
        enc[i] == py_canon(i) for i in range(NTAB))
    ok_d = isinstance(dec, dict) and dec == {
        py_canon(i): i for i in range(NTAB)} and all(
            type(v) is int for v in dec.values())
    return ok_e, ok_d


_tables = []


def tabs():
    if not _tables:
        try:
            _tables.append(tables())
        except Exception:
            _tables.append((False, False))
    return _tables[0]


class EncTable(V):
    def len_v(self, I):
        return Const(NTAB)

    def same_v(self, o):
        return True

    def getitem_v(self, I, i):
        i = I.ctx.coerce(i, TInt)
        if not I.ctx.branch(z3.And(0 <= i, i < NTAB)):
            if I.ctx.branch(z3.And(-NTAB <= i, i < 0)):
                return TokV(canon(i + NTAB))
            I.raise_('IndexError')
        return TokV(canon(i))

    def getattr_v(self, I, name):
        raise Unsupported('tuple.' + name)


class DecTable(V):
    def same_v(self, o):
        return True

    def find(self, I, x):
        if isinstance(x, Const) and isinstance(x.value, str):
            x = TokV.of(x.value)
        if not isinstance(x, TokV):
            raise Unsupported('key of the table')
        i = uncanon(x.t)
        return i, z3.And(0 <= i, i < NTAB, canon(i) == x.t)

    def getattr_v(self, I, name):
        if name != 'get':
            raise Unsupported('dict.' + name)

        def get(I, args, kw):
            i, ok = self.find(I, args[0])
            if I.ctx.branch(ok):
                return Sym(TInt, i)
            return args[1] if len(args) > 1 else NONE
        return Builtin('get', get)

    def getitem_v(self, I, x):
        i, ok = self.find(I, x)
        if I.ctx.branch(ok):
            return Sym(TInt, i)
        I.raise_('KeyError')

    def contains_v(self, I, x):
        return self.find(I, x)[1]


def pattern_of(ctx, name='_prog'):
    """The regular expression must find one high character and the low ones
    after it."""
    mod = ctx.program.module(MOD)
    ent = mod.defs.get(name)
    pat = None
    for n in ast.walk(ast.parse(open(os.path.join(
            ctx.program.root, *MOD.split('.')) + '.py').read())):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and n.targets[0].id == name:
            c = n.value
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == 'compile' and \
                    len(c.args) == 1 and isinstance(c.args[0], ast.Constant):
                pat = c.args[0].value
    if ent is None or not isinstance(pat, str):
        return None
    import re._parser as sp
    from re._constants import IN, MAX_REPEAT, LITERAL, RANGE, MAXREPEAT

    def chars(x):
        if x[0] is LITERAL:
            return {x[1]}
        if x[0] is not IN:
            return None
        out = set()
        for op, v in x[1]:
            if op is LITERAL:
                out.add(v)
            elif op is RANGE:
                out |= set(range(v[0], v[1] + 1))
            else:
                return None
        return out
    try:
        tr = list(sp.parse(pat))
    except Exception:
        return None
    if len(tr) != 2 or tr[1][0] is not MAX_REPEAT:
        return None
    lo, hi, sub = tr[1][1]
    if lo != 0 or hi not in (MAXREPEAT,) or len(sub) != 1:
        return None
    return chars(tr[0]), chars(sub[0])


class RegexV(V):
    def same_v(self, o):
        return True

    def getattr_v(self, I, name):
        if name != 'findall':
            raise Unsupported('regex.' + name)

        def findall(I, args, kw):
            ctx = I.ctx
            x = args[0]
            if not isinstance(x, JoinV) or len(args) != 1:
                raise Unsupported('findall')
            if pattern_of(ctx) != (set(range(128, 256)), set(range(128))):
                raise Unsupported('another regular expression')
            ctx.prove(fa(k, z3.Implies(z3.And(0 <= k, k < x.n),
                                       shaped(sel(x.e, k))), [sel(x.e, k)]),
                      f'{ctx.line}: the pieces are what the expression finds')
            ctx.assumptions.add(
                'findall of [high][low]* on the concatenation of strings '
                'made of a high character and low ones gives these strings')
            return M.new_list(I, TTok, x.n, [x.e])
        return Builtin('findall', findall)


OVERRIDES = {MOD + ':_encoding': EncTable(), MOD + ':_decoding': DecTable(),
             MOD + ':_prog': RegexV()}
INTS = ListCT(TInt)


class WSpec(Spec):
    props = ('C09',)
    opts = {'chr': model_chr, 'str_method': str_method}


class Encode(WSpec):
    qual = MOD + ':encode'
    params = [('wids', REQ)]
    bad = False

    def entry(self, V):
        return [V.ref(INTS, 'wids')]

    def requires(self, S, a):
        n, e = S.n(a[0]), S.e(a[0])
        x = z3.Int('bad')
        f = fa(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(
            0 <= sel(e, k), True if self.bad else sel(e, k) < MAXWID)),
            [sel(e, k)])
        out = [Clause('the ids are in range', f), Clause('a list', n >= 0)]
        if self.bad:
            out.append(Clause('except one', z3.And(
                0 <= x, x < n, sel(e, x) >= MAXWID)))
        return out

    def ensures(self, S0, S, a, res):
        if self.bad:
            return [Clause('no encoding is returned', False)]
        n, e = S0.n(a[0]), S0.e(a[0])
        ok_e, ok_d = tabs()
        if not isinstance(res, JoinV):
            return [Clause('a concatenation is returned', False)]
        return [
            Clause('the table of encodings is right (evaluated for each of '
                   'its 16384 entries)', ok_e),
            Clause('one piece for each id', res.n == n),
            Clause('the encoding of the id', fa(k, z3.Implies(
                z3.And(0 <= k, k < n), sel(res.e, k) == canon(sel(e, k))))),
        ]

    def on_raise(self, S0, S, a, exc):
        return [] if self.bad else None


class EncodeBad(Encode):
    bad = True


class Lemmas(Encode):
    """What follows from the contracts: of encodings alone."""

    def requires(self, S, a):
        return [Clause('an empty list', S.n(a[0]) == 0)]

    def ensures(self, S0, S, a, res):
        return [
            Clause('lemma: an encoding starts with its only high character',
                   fa(w, z3.Implies(z3.And(0 <= w, w < MAXWID),
                                    shaped(canon(w))))),
        ] + [
            Clause(f'lemma: an encoding of {n} characters has its id: '
                   + nm, f) for n in (1, 2, 3, 4) for nm, f in one_id(n)
        ]


class Lemmas2(Lemmas):
    """A match that ends with an encoding is an occurrence."""

    def ensures(self, S0, S, a, res):
        return lemmas()


class Decode(WSpec):
    qual = MOD + ':decode'
    params = [('code', REQ)]

    def entry(self, V):
        ctx = V.ctx
        n = ctx.fresh_int('n')
        e = ctx.fresh(AI, 'code')
        ctx.ids = ctx.fresh(AI, 'ids')
        return [JoinV(None, n, e)]

    def requires(self, S, a):
        ids = S.ctx.ids
        n, e = a[0].n, a[0].e
        f = z3.Implies(z3.And(0 <= k, k < n), z3.And(
            0 <= sel(ids, k), sel(ids, k) < MAXWID,
            sel(e, k) == canon(sel(ids, k))))
        return [Clause('the code of a list of ids', z3.And(
            n >= 0, fa(k, f, [sel(ids, k)]), fa(k, f, [sel(e, k)])))]

    def ensures(self, S0, S, a, res):
        ids = S.ctx.ids
        ok_e, ok_d = tabs()
        if not (isinstance(res, Ref)):
            return [Clause('a list is returned', False)]
        if res.ct is None:
            return [Clause('the list of ids (empty)', a[0].n == 0)]
        return [
            Clause('the table of decodings is right (evaluated for each of '
                   'its 16384 entries)', ok_d),
            Clause('as many ids', S.n(res) == a[0].n),
            Clause('the ids', fa(k, z3.Implies(
                z3.And(0 <= k, k < a[0].n),
                sel(S.e(res), k) == sel(ids, k)))),
        ]


# ------------------------------------------------------------------ contains

def chars(name):
    return z3.Const(name, AI)


class BytesV(V):
    """A string: n characters, at[i] the i-th."""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def same_v(self, o):
        return self.n.eq(o.n) and self.at.eq(o.at)

    def len_v(self, I):
        return Sym(TInt, self.n)

    def truth_v(self, I):
        return self.n != 0

    def getitem_v(self, I, i):
        ctx = I.ctx
        i = ctx.coerce(i, TInt)
        if ctx.branch(z3.And(0 <= i, i < self.n)):
            pass
        elif ctx.branch(z3.And(-self.n <= i, i < 0)):
            i = i + self.n
        else:
            I.raise_('IndexError')
        ctx.assume(z3.And(0 <= sel(self.at, i), sel(self.at, i) < 256))
        return TokV.make([sel(self.at, i)])

    def getattr_v(self, I, name):
        ctx = I.ctx
        if name not in ('find', 'index', 'startswith'):
            raise Unsupported('str.' + name)

        def find(I, args, kw):
            sub = args[0]
            lo = ctx.coerce(args[1], TInt) if len(args) > 1 else z3.IntVal(0)
            if len(args) > 2 or kw or not isinstance(sub, BytesV) or \
                    name == 'startswith':
                raise Unsupported('find')
            if not ctx.quick(lo >= 0):
                raise Unsupported('find from the end')
            r = ctx.fresh_int('found')
            ctx.assume(z3.Or(
                z3.And(lo <= r, match(self, sub, r)), r == -1))
            ctx.assume(fa(p, z3.Implies(z3.And(
                lo <= p, z3.Or(r == -1, p < r)), z3.Not(
                    match(self, sub, p))), [match(self, sub, p)]))
            if name == 'index' and ctx.branch(r == -1):
                I.raise_('ValueError')
            return Sym(TInt, r)
        return Builtin(name, find)


mt = M.uf('wc!match', AI, I_, AI, I_, I_, B_)   # sub is found at p


def match(c, s, p):
    return mt(c.at, c.n, s.at, s.n, p)


def match_def(c, s, p):
    return z3.And(0 <= p, p + s.n <= c.n, fa(k, z3.Implies(
        z3.And(0 <= k, k < s.n), sel(c.at, p + k) == sel(s.at, k)),
        [sel(s.at, k)]))


class Contains(WSpec):
    qual = MOD + ':contains'
    params = [('code', REQ), ('subcode', REQ)]

    def entry(self, V):
        ctx = V.ctx
        out = []
        for nm in ('code', 'sub'):
            n = ctx.fresh_int(nm + '_n')
            ctx.assume(n >= 0)
            out.append(BytesV(n, ctx.fresh(AI, nm)))
        c, s = out
        # match is a name for match_def (only needed where it is opened)
        ctx.assume(fa(p, z3.Implies(match(c, s, p), z3.And(
            0 <= p, p + s.n <= c.n)), [match(c, s, p)]))
        return out

    def ends(self, c, s, p):
        """The match does not end inside an encoding."""
        return z3.And(match(c, s, p), z3.Or(
            p + s.n == c.n, sel(c.at, p + s.n) >= 128))

    def ensures(self, S0, S, a, res):
        c, s = a
        r = bt(M.truth_term(S.ctx.interp, res)) if not isinstance(
            res, Sym) else res.t
        x = z3.Int('x')
        out = [Clause('found only where a match ends with an encoding',
                      z3.Implies(r, z3.Exists(x, self.ends(c, s, x)))),
               Clause('found wherever a match ends with an encoding', fa(
                   x, z3.Implies(self.ends(c, s, x), r)))]
        return out

    def loop_invariants(self, L):
        c, s = L.ctx.entry_args
        out = []
        for nm, v in L.vars(lambda v: isinstance(v, Sym) and v.ty is TInt):
            out += [
                (f'no match ends well before {nm}', fa(p, z3.Implies(z3.And(
                    self.ends(c, s, p)), z3.And(v.t >= 0, p >= v.t)),
                    [match(c, s, p)])),
                (f'{nm} is a match, or none', z3.Or(
                    v.t == -1, z3.And(v.t >= 0, match(c, s, v.t))))]
        return out


def one_id(n):
    """uncanon(canon(w)) == w, w given by its digits to base 128."""
    ds = z3.Ints(' '.join(f'd{i}' for i in range(n)))
    x, v = z3.IntVal(1), z3.IntVal(0)
    for i, y in enumerate(ds):
        x = x * 256 + y + (128 if i == 0 else 0)
        v = v * 128 + y
    low = 0 if n == 1 else 128 ** (n - 1)
    dig = z3.And(v >= low, *[z3.And(0 <= y, y < 128) for y in ds])
    out = [('has digits', z3.Implies(
        z3.And(low <= w, w < 128 ** n), w == sum(
            ((w / 128 ** i) % 128) * 128 ** i for i in range(n))))]
    of_w, of_x = [], []
    for i in range(n):
        d = ds[n - 1 - i]
        top = i == n - 1
        of_w.append((w / 128 ** i if top else (w / 128 ** i) % 128) == d)
        out.append((f'digit {i} of the id', z3.Implies(
            dig, z3.substitute(of_w[-1], (w, v)))))
        of_x.append((t / 256 ** i) % 256 == d + (128 if top else 0))
        out.append((f'character {n - 1 - i}', z3.Implies(
            dig, z3.substitute(of_x[-1], (t, x)))))
    out.append(('the encoding', z3.Implies(z3.And(
        dig, w == v, low <= w, w < 128 ** n, *of_w), canon(w) == x)))
    out.append(('the id', z3.Implies(z3.And(
        dig, t == x, 256 ** n <= t, t < 2 * 256 ** n, *of_x),
        uncanon(t) == v)))
    return out


def digit(x, i):
    """The i-th character of a packed string."""
    r = z3.IntVal(0)
    for n in (4, 3, 2, 1):
        for m in range(n):
            r = z3.If(z3.And(256 ** n <= x, x < 2 * 256 ** n, i == m),
                      (x / (256 ** (n - 1 - m))) % 256, r)
    return r


class Seq:
    """A list of ids, and the string that encodes it."""

    def __init__(self, nm):
        self.L = z3.Int(nm + '_len')                # number of ids
        self.N = z3.Int(nm + '_chars')
        self.W = z3.Const(nm + '_ids', AI)
        self.A = z3.Const(nm + '_at', AI)
        self.off = z3.Function(nm + '_off', I_, I_)

        # length and characters of the encoding of the k-th id
        self.size = z3.Function(nm + '_size', I_, I_)
        self.chr = z3.Function(nm + '_chr', I_, I_, I_)

    def base(self):
        return z3.And(self.L >= 0, self.off(0) == 0,
                      self.N == self.off(self.L))

    def at(self, k):
        """What is known about the k-th id (an instance of the definition
        of concatenation)."""
        n, ch = self.size(k), self.chr
        return z3.Implies(z3.And(0 <= k, k < self.L), z3.And(
            self.off(k + 1) == self.off(k) + n, 1 <= n, n <= 4,
            self.off(k) >= 0, self.off(k + 1) <= self.N, ch(k, 0) >= 128,
            *[z3.Implies(m < n, sel(self.A, self.off(k) + m) == ch(k, m))
              for m in range(4)],
            *[z3.Implies(m < n, ch(k, m) < 128) for m in range(1, 4)]))


def lemmas():
    """A match that ends with an encoding is an occurrence of the list: by
    induction over the ids, from instances of the definitions."""
    c, s = Seq('c'), Seq('s')
    K, i, b, m, p0 = z3.Ints('lK li lb lm lp')
    And, Imp, Or, Ex = z3.And, z3.Implies, z3.Or, z3.Exists
    out = []

    def lem(name, *parts):
        out.append(Clause('lemma: ' + name, Imp(And(*parts[:-1]),
                                                parts[-1])))
    # every character belongs to an id
    cover = lambda n: Imp(And(0 <= b, b < c.off(n)), Ex(m, And(
        0 <= m, m < n, c.off(m) <= b, b < c.off(m + 1))))
    lem('no character before the first id', c.base(), cover(z3.IntVal(0)))
    lem('every character belongs to an id', c.base(), 0 <= K, K < c.L,
        c.at(K), cover(K), cover(K + 1))
    lem('a high character starts an id', c.base(), 0 <= m, m < c.L, c.at(m),
        c.off(m) <= b, b < c.off(m + 1), sel(c.A, b) >= 128, b == c.off(m))
    lem('an id starts with a high character', c.base(), 0 <= m, m < c.L,
        c.at(m), And(sel(c.A, c.off(m)) >= 128, c.off(m) < c.N))
    # an occurrence gives a match
    # the same id: the same encoding (a function of the id)
    same = lambda k: And(sel(c.W, i + k) == sel(s.W, k))
    enc = lambda k: Imp(same(k), And(
        c.size(i + k) == s.size(k), *[c.chr(i + k, n) == s.chr(k, n)
                                      for n in range(4)]))
    al = lambda k: c.off(i + k) == c.off(i) + s.off(k)
    occ = And(c.base(), s.base(), 0 <= i, i + s.L <= c.L)
    lem('occurrence, start', occ, al(z3.IntVal(0)))
    lem('occurrence, next id', occ, 0 <= K, K < s.L, same(K), enc(K),
        al(K), c.at(i + K), s.at(K), al(K + 1))
    lem('occurrence, characters', occ, 0 <= K, K < s.L, same(K),
        enc(K), al(K), c.at(i + K), s.at(K), s.off(K) <= b, b < s.off(K + 1),
        sel(c.A, c.off(i) + b) == sel(s.A, b))
    lem('occurrence, end', occ, al(s.L), c.at(i + s.L), Or(
        c.off(i) + s.N == c.N, sel(c.A, c.off(i) + s.N) >= 128))
    # a match gives an occurrence
    eqat = lambda x: Imp(And(0 <= x, x < s.N),
                         sel(c.A, p0 + x) == sel(s.A, x))
    hyp = And(c.base(), s.base(), s.L > 0, 0 <= p0, p0 + s.N <= c.N,
              Or(p0 + s.N == c.N, sel(c.A, p0 + s.N) >= 128))
    lem('match, start', hyp, s.at(z3.IntVal(0)), eqat(z3.IntVal(0)),
        s.off(1) <= s.N, And(sel(c.A, p0) >= 128, p0 < c.N))
    on = lambda k: And(c.off(i + k) == p0 + s.off(k), i + k <= c.L)
    step = [hyp, 0 <= i, 0 <= K, K < s.L, on(K), c.at(i + K),
            c.at(i + K + 1), s.at(K), s.at(K + 1)]
    eqs = [eqat(s.off(K) + x) for x in range(5)]
    lem('match, the next id is no shorter', *step, *eqs, s.off(K + 1) <= s.N,
        c.size(i + K) >= s.size(K))
    lem('match, the next id is no longer', *step, *eqs,
        c.size(i + K) <= s.size(K))
    chars_ = And(*[Imp(n < s.size(K), c.chr(i + K, n) == s.chr(K, n))
                   for n in range(4)])
    lem('match, the characters of the next id', *step, *eqs,
        c.size(i + K) == s.size(K), chars_)
    # (the same characters are the same id: below)
    lem('match, next id', *step, c.size(i + K) == s.size(K), chars_,
        Imp(And(c.size(i + K) == s.size(K), chars_), same(K)),
        And(same(K), on(K + 1)))
    x, y = z3.Ints('lx ly')
    for n in (1, 2, 3, 4):
        r = lambda v: And(256 ** n <= v, v < 2 * 256 ** n)
        lem(f'the same {n} characters are the same packed string', r(x),
            r(y), *[digit(x, z3.IntVal(m)) == digit(y, z3.IntVal(m))
                    for m in range(n)], x == y)
    # the empty list occurs, and the empty string is a match
    lem('match of nothing', c.base(), c.at(z3.IntVal(0)), Or(
        c.N == 0, sel(c.A, 0) >= 128))
    return out


SPECS = [Encode(), EncodeBad(), Lemmas(), Lemmas2(), Decode(), Contains()]
