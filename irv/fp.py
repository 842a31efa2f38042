"""Floating point as real numbers with exact rounding laws (units with reals = True).

A value is a real term; every operation is the exact result followed by rnd(), an uninterpreted function about
which each application gets: the relative error bound of round-to-nearest, that integers up to 2^53 (2^24) are
fixed points, and monotonicity with respect to the neighbouring integers.  Values are assumed finite and, apart
from 0, at least 2^-900 in magnitude (no NaN, overflow or gradual underflow)."""
from fractions import Fraction
import math
import struct
import z3

MANT = {'double': 53, 'float': 24}
NOTE = 'machine arithmetic: floating point values are finite (no NaN, overflow or gradual underflow)'


def rv(q):
    q = Fraction(q)
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator))


def const_of(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def round_const(q, ty):
    f = float(q)      # Fraction -> double is correctly rounded
    if ty == 'float':
        f = struct.unpack('f', struct.pack('f', f))[0]
    return Fraction(f)


def integral(e):
    """the term is an integer by its form"""
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return all(integral(c) for c in e.children())
        if k == z3.Z3_OP_ITE:
            return all(integral(c) for c in e.children()[1:])
    return False


def rnd(eng, st, e, ty):
    q = const_of(e)
    if q is not None:
        return rv(round_const(q, ty))
    e = z3.simplify(e)
    m = MANT[ty]
    eps = rv(Fraction(1, 1 << m))
    big = rv(1 << m)
    k = z3.ToInt(e)
    if integral(e) and eng.valid(st, z3.And(e <= big, e >= -big), 2000):
        return e
    f = z3.Function('rnd_' + ty, z3.RealSort(), z3.RealSort())
    r = f(e)
    key = ('rnd', ty, e.get_id())
    if key in st.seqs:
        return r
    st.seqs[key] = e
    st.add(z3.If(e >= 0, z3.And(r >= e - eps * e, r <= e + eps * e), z3.And(r <= e - eps * e, r >= e + eps * e)))
    st.add(z3.Implies(z3.And(e <= big, e >= -big), z3.And(r >= z3.ToReal(k), r <= z3.ToReal(k) + 1, z3.Implies(e == z3.ToReal(k), r == e))))
    eng.used_models[NOTE] = 1
    return r


def pow2(q):
    if q <= 0:
        return False
    n, d = q.numerator, q.denominator
    return (n == 1 and d & (d - 1) == 0) or (d == 1 and n & (n - 1) == 0)


def binop(eng, st, op, x, y, ty):
    if getattr(eng.cur, 'fp_uf', False):
        # only that the operation is a function of its operands
        R = z3.RealSort()
        return z3.Function(op + '_' + ty, R, R, R)(x, y) if x is not None and y is not None else None
    cx, cy = const_of(x), const_of(y)
    if op == 'fadd':
        if cx == 0:
            return y
        if cy == 0:
            return x
        return rnd(eng, st, x + y, ty)
    if op == 'fsub':
        if cy == 0:
            return x
        return rnd(eng, st, x - y, ty)
    if op == 'fmul':
        for a, b in ((cx, y), (cy, x)):
            if a is not None:
                if a == 0 or pow2(a):
                    return z3.simplify(rv(a) * b)
        return rnd(eng, st, x * y, ty)
    if op == 'fdiv':
        if cy is not None and cy != 0:
            if pow2(cy):
                return z3.simplify(x * rv(1 / cy))
            if cy > 0 and cy.denominator == 1:
                # the floor of a quotient by an integer
                e = z3.simplify(x * rv(1 / cy))
                st.add(z3.ToInt(e) == z3.ToInt(z3.simplify(x)) / z3.IntVal(cy.numerator))
                r = rnd(eng, st, e, ty)
                # lemma, if it can be proved: rounding does not reach the next integer
                g = z3.ToInt(r) == z3.ToInt(e)
                if eng.valid(st, g, 3000):
                    st.add(g)
                return r
            return rnd(eng, st, x * rv(1 / cy), ty)
        if not eng.valid(st, y != 0):
            return None
        return rnd(eng, st, x / y, ty)
    return None


def of_int(eng, st, t, ty):
    if getattr(eng.cur, 'fp_uf', False) and not isinstance(simp_int(t), int):
        return z3.Function('of_int_' + ty, z3.IntSort(), z3.RealSort())(t)
    return rnd(eng, st, z3.ToReal(t) if not isinstance(t, int) else rv(t), ty)


def simp_int(t):
    if isinstance(t, z3.ExprRef):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else t
    return t


def trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def to_integral(kind, e):
    if kind == 'round':
        return z3.If(e >= 0, z3.ToInt(e + rv(Fraction(1, 2))), -z3.ToInt(-e + rv(Fraction(1, 2))))
    if kind == 'floor':
        return z3.ToInt(e)
    if kind == 'ceil':
        return -z3.ToInt(-e)
    if kind == 'trunc':
        return trunc(e)
    if kind in ('rint', 'nearbyint', 'roundeven'):
        k = z3.ToInt(e)
        d = e - z3.ToReal(k)
        h = rv(Fraction(1, 2))
        return z3.If(d < h, k, z3.If(d > h, k + 1, z3.If(k % 2 == 0, k, k + 1)))
    return None


def neighbour(c, ty, up):
    if ty == 'double':
        return Fraction(math.nextafter(float(c), math.inf if up else -math.inf))
    i = struct.unpack('i', struct.pack('f', float(c)))[0]
    if float(c) == 0:
        f = struct.unpack('f', struct.pack('i', 1))[0]
        return Fraction(f if up else -f)
    i += 1 if (float(c) > 0) == up else -1
    return Fraction(struct.unpack('f', struct.pack('i', i))[0])


def cmp(p, x, y, ty):
    """comparison of two values of the type; strict comparisons with constants use that there is no value in between"""
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None:
        return {'lt': cx < cy, 'gt': cx > cy, 'le': cx <= cy, 'ge': cx >= cy, 'eq': cx == cy, 'ne': cx != cy}[p]
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
        p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
    if cy is not None and p in ('lt', 'ge'):
        n = rv(neighbour(cy, ty, False))
        return x <= n if p == 'lt' else z3.And(x >= rv(cy), x > n)
    if cy is not None and p in ('gt', 'le'):
        n = rv(neighbour(cy, ty, True))
        return x >= n if p == 'gt' else z3.And(x <= rv(cy), x < n)
    return {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[p]
