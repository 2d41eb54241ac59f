"""Integers as sets of bits: BIT(c, e) is bit e of the number c >= 0, POW2(e) is 2**e.
The assumed facts are the binary representation of the natural numbers."""
import ast
import z3
from values import *
from engine import PyExc
import lib as L_
from spec import mention

CONTRACTS = []
BIT = z3.Function('bit', I, I, B)
POW2 = z3.Function('pow2', I, I)
HIGH = z3.Function('high_bit', I, I, I)
DIFFB = z3.Function('different_bit', I, I, I)


def pow2(E, e, node, what='ValueError'):
    if not is_z(e):
        if e < 0:
            raise PyExc(what, 'negative shift')
        return 2 ** e
    if not E.valid(e >= 0):
        if E.branch(e < 0):
            if what is None:
                raise Unsupported('2 to a negative power')
            raise PyExc(what, 'negative shift count')
    p = POW2(z3.simplify(e))
    bits_of_pow2(E, z3.simplify(e))
    return p


def bits_of_pow2(E, e):
    f = z3.FreshConst(I, 'f')
    p = POW2(e)
    E.assume(z3.Implies(e >= 0, z3.And(p >= 1, z3.ForAll([f], z3.Implies(f >= 0, BIT(p, f) == (f == e)), patterns=[BIT(p, f)]))))
    if z3.is_int_value(e):
        E.assume(p == 2 ** e.as_long())


def low(c, n):
    """A number below 2**n has no bits from n on."""
    f = z3.FreshConst(I, 'f')
    return z3.Implies(z3.And(0 <= c, c < POW2(n)), z3.ForAll([f], z3.Implies(f >= n, z3.Not(BIT(c, f))), patterns=[BIT(c, f)]))


def high(c, n):
    """A number from 2**n on has a bit from n on."""
    return z3.Implies(z3.And(c >= POW2(n), n >= 0), z3.And(HIGH(c, n) >= n, BIT(c, HIGH(c, n))))


def differ(a, b):
    """Different numbers differ in a bit."""
    d = DIFFB(a, b)
    return z3.Implies(z3.And(a >= 0, b >= 0, a != b), z3.And(d >= 0, BIT(a, d) != BIT(b, d)))


def mono(a, b):
    return z3.Implies(z3.And(0 <= a, a <= b), POW2(a) <= POW2(b))


def is_pow2(t):
    return is_z(t) and z3.is_app(t) and t.decl().eq(POW2)


def mask_of(t):
    """(condition, exponent) of a term that is 0 or a power of two; None otherwise."""
    if not is_z(t):
        if isinstance(t, int) and not isinstance(t, bool) and t > 0 and t & (t - 1) == 0:
            return z3.BoolVal(True), z3.IntVal(t.bit_length() - 1)
        return None
    if is_pow2(t):
        return z3.BoolVal(True), t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if is_pow2(a) and z3.is_int_value(b) and b.as_long() == 0:
            return t.arg(0), a.arg(0)
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0:
            return t.arg(0), z3.IntVal(0)
    return None


def nonneg(E, *xs):
    for x in xs:
        if is_z(x):
            if not E.valid(x >= 0):
                raise Unsupported('bits of a number that may be negative')
        elif x < 0:
            raise Unsupported('bits of a negative number')


def new_bits(E, name, f):
    r = fresh(I, name)
    k = z3.FreshConst(I, 'f')
    E.assume(z3.And(r >= 0, z3.ForAll([k], z3.Implies(k >= 0, BIT(r, k) == f(k)), patterns=[BIT(r, k)])))
    return r


def bit_of(x, k):
    if is_z(x):
        return BIT(x, k)
    return z3.Or([k == e for e in range(x.bit_length()) if x >> e & 1] + [z3.BoolVal(False)])


def _bits(E, op, a, b, node):
    t = type(op).__name__
    if t == 'Pow' and isinstance(a, float) and a == 2.0 and is_z(b) and is_int(b):
        return z3.ToReal(pow2(E, b, node, None))
    if not (is_int(a) or is_bool(a)) or not (is_int(b) or is_bool(b)) or not (is_z(a) or is_z(b)):
        return NotImplemented
    if t == 'LShift':
        if not is_z(a) and a == 1:
            return pow2(E, b, node)
        nonneg(E, a)
        if is_bool(a):
            p = pow2(E, b, node)
            return z3.If(a, iv(p), z3.IntVal(0))
        pow2(E, b, node)
        return new_bits(E, 'shl', lambda k: z3.And(k >= iv(b), bit_of(a, k - iv(b))))
    if t == 'RShift':
        nonneg(E, a)
        pow2(E, b, node)
        r = new_bits(E, 'shr', lambda k: bit_of(a, k + iv(b)))
        E.assume(BIT(r, z3.IntVal(0)) == (r % 2 == 1))
        return r
    if t == 'Pow':
        if not is_z(a) and a == 2 and is_int(b):
            return pow2(E, b, node, None)
        return NotImplemented
    if t in ('BitAnd', 'BitOr', 'BitXor'):
        nonneg(E, a, b)
        if t == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                m = mask_of(x)
                if m is not None and is_z(y):
                    return z3.If(z3.simplify(z3.And(m[0], BIT(y, m[1]))), POW2(m[1]) if is_z(x) and not (is_z(x) and z3.is_int_value(m[1])) else z3.IntVal(x if not is_z(x) else 2 ** m[1].as_long()), z3.IntVal(0))
        f = {'BitAnd': lambda p, q: z3.And(p, q), 'BitOr': lambda p, q: z3.Or(p, q), 'BitXor': lambda p, q: z3.Xor(p, q)}[t]
        if is_z(b) and is_pow2(b) or is_z(a) and is_pow2(a):
            x, e = (a, b.arg(0)) if is_z(b) and is_pow2(b) else (b, a.arg(0))
            if t == 'BitXor':
                return new_bits(E, 'flip', lambda k: bit_of(x, k) != (k == e))
            if t == 'BitOr':
                return new_bits(E, 'set', lambda k: z3.Or(bit_of(x, k), k == e))
        return new_bits(E, 'bits', lambda k: f(bit_of(a, k), bit_of(b, k)))
    if t == 'Mult':
        for x, y in ((a, b), (b, a)):
            if is_bool(x) and is_z(x) and is_z(y) and is_pow2(y):
                return z3.If(x, y, z3.IntVal(0))
            m = mask_of(x) if is_z(x) and not is_pow2(x) else None
            if m is not None and z3.is_int_value(m[1]) and is_z(y) and is_pow2(y):
                return z3.If(m[0], y, z3.IntVal(0))
        return NotImplemented
    if t == 'Add':
        for x, y in ((a, b), (b, a)):
            m = mask_of(x) if is_z(x) else None
            if m is not None and not z3.is_int_value(m[1]):
                if not is_z(y) and y == 0:
                    y = z3.IntVal(0)
                if not is_z(y):
                    continue
                c, e = m
                r = fresh(I, 'sum')
                k = z3.FreshConst(I, 'f')
                E.assume(z3.And(r == y + x, z3.Implies(z3.And(y >= 0, e >= 0, z3.Not(z3.And(c, BIT(y, e)))),
                                                       z3.ForAll([k], z3.Implies(k >= 0, BIT(r, k) == z3.Or(BIT(y, k), z3.And(c, k == e))), patterns=[BIT(r, k)]))))
                return r
    return NotImplemented


L_.BINOPS.insert(0, _bits)


def zero_bits(E):
    f = z3.FreshConst(I, 'f')
    E.assume(z3.ForAll([f], z3.Implies(f >= 0, z3.Not(BIT(z3.IntVal(0), f))), patterns=[BIT(z3.IntVal(0), f)]))
