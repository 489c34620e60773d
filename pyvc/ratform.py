"""Products and quotients of reals as an uninterpreted, commutative product
of atoms and inverses of atoms.

Terms are brought to a normal form (a polynomial over atoms; the inverse of
a sum is an atom), which is sound for real arithmetic: all divisors are shown
to be non-zero separately.  Of the product itself only signs, 0 and 1 are
known to the solver."""
from fractions import Fraction
import z3
import models as M
from core import fa

R_ = z3.RealSort()
PROD = M.uf('so!mul', R_, R_, R_)
INV = M.uf('so!inv', R_, R_)
x, y = z3.Reals('x!rf y!rf')


def axioms(ctx):
    m = PROD
    add = lambda f: M.add_fact(ctx, f)
    add(fa([x, y], z3.And(
        m(x, y) == m(y, x),
        z3.Implies(y == 1, m(x, y) == x), z3.Implies(x == 0, m(x, y) == 0),
        z3.Implies(y == 0, m(x, y) == 0),
        z3.Implies(z3.And(x > 0, y > 0), m(x, y) > 0),
        z3.Implies(z3.And(x >= 0, y >= 0), m(x, y) >= 0)), [m(x, y)]))
    add(fa(x, z3.And(z3.Implies(x > 0, INV(x) > 0),
                     z3.Implies(x < 0, INV(x) < 0)), [INV(x)]))


def _lit(t):
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def rank(a):
    n = a.decl().name()
    return (2 if n == 'so!inv' else 1 if n == 'log' else 0, a.sexpr())


def poly(t):
    """-> {tuple of atoms: coefficient}"""
    c = _lit(t)
    if c is not None:
        return {(): c} if c else {}
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_TO_REAL:
        c = _lit(ch[0])
        if c is not None:
            return {(): c} if c else {}
        kk = ch[0].decl().kind()
        if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return poly(_map_real(ch[0]))
        return {(t,): Fraction(1)}
    if k == z3.Z3_OP_ADD:
        out = {}
        for x_ in ch:
            out = add(out, poly(x_))
        return out
    if k == z3.Z3_OP_SUB:
        out = poly(ch[0])
        for x_ in ch[1:]:
            out = add(out, scale(poly(x_), -1))
        return out
    if k == z3.Z3_OP_UMINUS:
        return scale(poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for x_ in ch:
            out = times(out, poly(x_))
        return out
    if k == z3.Z3_OP_DIV:
        c = _lit(ch[1])
        if c:
            return scale(poly(ch[0]), 1 / c)
    if t.decl().name() == 'so!mul':
        return times(poly(ch[0]), poly(ch[1]))
    return {(t,): Fraction(1)}


def _map_real(t):
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [_map_real(c) for c in t.children()]
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for c in ch[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c
        return r
    return z3.ToReal(t)


def key(mono):
    return tuple(sorted(mono, key=rank))


def add(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c
        if not out[m]:
            del out[m]
    return out


def scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def times(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            out = add(out, {key(m1 + m2): c1 * c2})
    return out


def build(p):
    if not p:
        return z3.RealVal(0)
    out = None
    for m in sorted(p, key=lambda m: [rank(a) for a in m]):
        c = p[m]
        if not m:
            t = z3.RealVal(c)
        else:
            t = m[-1]
            for a in reversed(m[:-1]):
                t = PROD(a, t)
            if c != 1:
                t = z3.RealVal(c) * t
        out = t if out is None else out + t
    return out


def inverse(q):
    if len(q) == 1:
        (m, c), = q.items()
        out = {(): 1 / c}
        for a in m:
            if a.decl().name() == 'so!inv':
                out = times(out, poly(a.arg(0)))
            else:
                out = times(out, {(INV(a),): Fraction(1)})
        return out
    lead = q[min(q, key=lambda m: ([rank(a) for a in m]))]
    return {(INV(build(scale(q, 1 / lead))),): 1 / lead}


def rmul(ctx, s, t):
    return build(times(poly(s), poly(t)))


def rdiv(ctx, s, t):
    q = poly(t)
    if not q:
        return s / t
    return build(times(poly(s), inverse(q)))
