"""Meaning of the Python built-ins and of the numpy functions that the code under contract uses.

Everything in here is part of the trusted base of the verifier (it is the semantics of the
language); entries that assume something about an external library record it with E.assume(.., why).
"""
import ast
import z3
import values as V
from values import *
from spec import forall, fa


def num(x):
    return is_int(x) or is_real(x) or is_bool(x) or isinstance(x, (complex, Cx, Ph, PhDiff))


def isz(x):
    return is_z(x)


# ------------------------------------------------------------------------ absolute values
class PhDiff(object):
    """s * (i**a - i**b), kept symbolic so that its magnitude is a case distinction."""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Abs(object):
    """|z| for a complex z that is not known."""

    def __init__(self, v):
        self.v = v

    def sq(self):
        v = self.v
        if isinstance(v, PhDiff):
            s2 = v.s * v.s
            return pick(v.a - v.b, [0, 2 * s2, 4 * s2, 2 * s2])
        c = to_cx(v)
        return radd(rmul(c.re, c.re), rmul(c.im, c.im))


def absval(E, v, node=None):
    if isinstance(v, Opt):
        v = E.some(v, node)
    if isinstance(v, bool) or not is_z(v) and isinstance(v, (int, float, complex)):
        return abs(v)
    if is_int(v):
        return z3.If(v >= 0, v, -v)
    if is_real(v):
        return z3.If(rv(v) >= 0, rv(v), -rv(v))
    if isinstance(v, Ph):
        return v.s
    if isinstance(v, Cx):
        if z0(v.im):
            return absval(E, v.re)
        if not is_z(v.re) and not is_z(v.im):
            return abs(complex(v.re, v.im))
        return Abs(v)
    if isinstance(v, PhDiff):
        return Abs(v)
    if isinstance(v, Abs):
        return v
    raise Unsupported('absolute value of {!r}'.format(v))


def abs_compare(op, a, b):
    flip = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}
    name = type(op).__name__
    if isinstance(b, Abs) and not isinstance(a, Abs):
        a, b, name = b, a, flip[name]
    if isinstance(b, Abs):
        x, y = rv(a.sq()), rv(b.sq())
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[name]
    if isinstance(a.v, PhDiff) and not is_z(b):
        s = a.v.s
        lens = [0.0, s * 2 ** 0.5, 2 * s, s * 2 ** 0.5]
        vals = [{'Lt': l < b, 'LtE': l <= b, 'Gt': l > b, 'GtE': l >= b}[name] for l in lens]
        d = a.v.a - a.v.b
        if not is_z(d):
            return vals[d % 4]
        m = d % 4
        return z3.Or([m == k for k in range(4) if vals[k]]) if any(vals) else False
    sq, t = rv(a.sq()), rv(b)
    if name in ('Lt', 'LtE'):
        f = sq < t * t if name == 'Lt' else sq <= t * t
        return z3.And(t >= 0, f)
    f = sq > t * t if name == 'Gt' else sq >= t * t
    return z3.Or(t < 0, f)


# ------------------------------------------------------------------------------ numbers
def arith(E, op, a, b, node):
    t = type(op).__name__
    if is_bool(a) and is_z(a):
        a = iv(a)
    if is_bool(b) and is_z(b):
        b = iv(b)
    if not any(is_z(x) or isinstance(x, (Cx, Ph, PhDiff)) for x in (a, b)):
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b,
                    'Mod': lambda: a % b, 'Pow': lambda: a ** b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitXor': lambda: a ^ b,
                    'BitAnd': lambda: a & b, 'BitOr': lambda: a | b}[t]()
        except ZeroDivisionError:
            raise PyExc('ZeroDivisionError', 'line {}'.format(getattr(node, 'lineno', '?')))
    if t == 'Mult':
        pa, pb = (to_ph(a) if not isinstance(a, Cx) else None), (to_ph(b) if not isinstance(b, Cx) else None)
        if (isinstance(a, Ph) or isinstance(b, Ph)) and pa is not None and pb is not None:
            return Ph(pa.k + pb.k, pa.s * pb.s)
        # a sign (1 or -1 as an integer term) times a phase
        for x, y in ((a, b), (b, a)):
            if is_int(x) and is_z(x) and isinstance(y, Ph):
                if E.valid(z3.Or(x == 1, x == -1)):
                    return Ph(y.k + z3.If(x == 1, z3.IntVal(0), z3.IntVal(2)), y.s)
        if (is_int(a) and is_z(a) or is_int(b) and is_z(b)) and is_int(a) and is_int(b):
            return iv(a) * iv(b)
        if isinstance(a, (complex, Cx, Ph)) or isinstance(b, (complex, Cx, Ph)):
            return cmul(a, b)
        return rmul(rv(a), rv(b)) if not (z0(a) or z0(b)) else 0
    if t in ('Add', 'Sub'):
        if t == 'Sub' and isinstance(a, Ph) and isinstance(b, Ph) and a.s == b.s:
            return PhDiff(a.k, b.k, a.s)
        if isinstance(a, (complex, Cx, Ph)) or isinstance(b, (complex, Cx, Ph)):
            return cadd(a, b if t == 'Add' else cneg(b))
        if is_int(a) and is_int(b):
            return iv(a) + iv(b) if t == 'Add' else iv(a) - iv(b)
        return rv(a) + rv(b) if t == 'Add' else rv(a) - rv(b)
    if t == 'Div':
        if is_z(a) and is_int(a) and not z3.is_const(a):
            q = fresh(I, 'num')             # keeps products of integers out of real arithmetic
            E.assume(q == a)
            a = q
        pb = to_ph(b) if not isinstance(b, Cx) else None
        if pb is not None and not isinstance(a, Cx):
            pa = to_ph(a)
            if pa is not None:
                return Ph(pa.k - pb.k, pa.s / pb.s)
            if not is_z(pb.s) and not isinstance(b, Ph) and isinstance(b, (int, float)) and not isinstance(a, (Cx, complex)):
                return rv(a) / rv(b)
        if pb is not None:
            u = cmul(a, Ph(-pb.k, 1.0))
            if pb.s == 1.0:
                return u
            return Cx(rdiv(u.re, pb.s), rdiv(u.im, pb.s))
        if isinstance(b, (Cx, complex)):
            c = to_cx(b)
            d = radd(rmul(c.re, c.re), rmul(c.im, c.im))
            u = cmul(a, conj(c))
            return Cx(rdiv(u.re, d), rdiv(u.im, d))
        if isinstance(a, (Cx, complex, Ph)):
            u = to_cx(a)
            return Cx(rdiv(u.re, b), rdiv(u.im, b))
        if not E.valid(rv(b) != 0):
            if E.branch(rv(b) == 0):
                raise PyExc('ZeroDivisionError', 'line {}'.format(getattr(node, 'lineno', '?')))
        return rv(a) / rv(b)
    if t in ('FloorDiv', 'Mod') and is_int(a) and is_int(b):
        if not is_z(b):
            if b <= 0:
                raise Unsupported('division by a non-positive number')
        elif not E.valid(b > 0):
            raise Unsupported('division by a number that may not be positive')
        return iv(a) / iv(b) if t == 'FloorDiv' else iv(a) % iv(b)
    if t == 'Mod' and not is_z(b) and isinstance(b, (int, float)) and b > 0 and (is_real(a) or is_int(a)):
        if is_z(a) and float(b) == int(b):
            u = z3.simplify(a)              # (x / d) mod b = (x mod (d b)) / d
            if z3.is_mul(u) and u.num_args() == 2 and z3.is_rational_value(u.arg(0)) and z3.is_app(u.arg(1)) and u.arg(1).decl().kind() == z3.Z3_OP_TO_REAL and u.arg(0).numerator_as_long() == 1:
                d = u.arg(0).denominator_as_long()
                return z3.ToReal(u.arg(1).arg(0) % (d * int(b))) / d
        q = fresh(I, 'q')
        r = rv(a) - z3.ToReal(q) * rv(b)
        E.assume(z3.And(r >= 0, r < rv(b)))
        return r
    if t == 'Pow' and not is_z(b) and isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = arith(E, ast.Mult(), r, a, node)
        return r
    if t == 'Pow' and not is_z(a) and a == 2 and is_int(b):
        return pow2(E, b)
    if t == 'Pow' and not is_z(a) and isinstance(a, float) and a > 0 and is_int(b):
        r = POWR(rv(a), iv(b))
        E.assume(r > 0, 'a power of a positive number is a positive number')
        return r
    if t == 'BitXor' and is_int(a) and is_int(b):
        return E.lib_bit('xor', iv(a), iv(b))
    raise Unsupported('operator {} on {!r} and {!r}'.format(t, a, b))


POWR = z3.Function('powr', R, I, R)
POW2 = z3.Function('pow2', I, I)


def pow2(E, n):
    return POW2(iv(n))


def rdiv(a, b):
    if z0(a):
        return 0
    if not is_z(b) and b == 1:
        return a
    if not is_z(a) and not is_z(b):
        return a / b
    return rv(a) / rv(b)


def binop(E, op, a, b, node):
    if isinstance(a, Opt):
        a = E.some(a, node)
    if isinstance(b, Opt):
        b = E.some(b, node)
    t = type(op).__name__
    for h in BINOPS:
        r = h(E, op, a, b, node)
        if r is not NotImplemented:
            return r
    if isinstance(a, (str, SStr, Text)) or isinstance(b, (str, SStr, Text)):
        if isinstance(a, str) and isinstance(b, str) and t == 'Add':
            return a + b
        if isinstance(a, str) and t == 'Mod':
            return Text()
        if t == 'Add':
            return Text()
    if num(a) and num(b):
        return arith(E, op, a, b, node)
    if isinstance(a, tuple) and isinstance(b, tuple) and t == 'Add':
        return a + b
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'), 'Pow': ('__pow__', ''), 'Div': ('__truediv__', '')}.get(t)
        if nm:
            if isinstance(a, Obj) and nm[0] in a.cls.methods:
                return E.call_fn(a.cls.methods[nm[0]], [a, b], {}, node)
            if isinstance(b, Obj) and nm[1] in b.cls.methods:
                return E.call_fn(b.cls.methods[nm[1]], [b, a], {}, node)
    if isinstance(a, Lst) and isinstance(b, Lst) and not a.np and not b.np and t == 'Add':
        return concat(E, a, b)
    if isinstance(a, tuple) and is_int(b) and t == 'Mult':
        return repeat(E, Lst.of(list(a)), b) if is_z(b) else a * b
    if isinstance(a, Lst) and not a.np and is_int(b) and t == 'Mult':
        return repeat(E, a, b)
    if isinstance(b, Lst) and not b.np and is_int(a) and t == 'Mult':
        return repeat(E, b, a)
    if (isinstance(a, Lst) and (a.np or not isinstance(b, Lst))) or (isinstance(b, Lst) and b.np):
        return elementwise(E, lambda x, y: binop(E, op, x, y, node), a, b, node)
    if (isinstance(a, (SSet, CSet)) or isinstance(b, (SSet, CSet))) and t in ('BitOr', 'BitAnd', 'Sub'):
        return set_op(E, {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference'}[t], a, b)
    raise Unsupported('operator {} on {!r} and {!r}'.format(t, a, b))


BINOPS = []


def elementwise(E, f, a, b, node, np=True):
    la, lb = isinstance(a, Lst), isinstance(b, Lst)
    if la and lb:
        if not same_len(E, a, b):
            raise PyExc('ValueError', 'shapes at line {}'.format(getattr(node, 'lineno', '?')))
    ref = a if la else b
    if (not la or a.conc) and (not lb or b.conc):
        n = len(ref.items)
        out = Lst.of([f(a.items[k] if la else a, b.items[k] if lb else b) for k in range(n)], np=np)
        return E.new(out)
    k = fresh(I, 'ew')
    ga = (lambda j: a.get(j)) if la else (lambda j: a)
    gb = (lambda j: b.get(j)) if lb else (lambda j: b)
    v = f(ga(k), gb(k))
    return map_term(E, ref.length() if not ref.conc else len(ref.items), lambda j: f(ga(j), gb(j)), np)


def map_term(E, n, g, np=False):
    """The list [g(0), .., g(n-1)] for a pure element function."""
    k = fresh(I, 'k')
    v = g(k)
    if isinstance(v, PhDiff):
        v = cadd(Ph(v.a, v.s), cneg(Ph(v.b, v.s)))
    sh = shape_of(v)
    l = E.new(Lst.sym(sh, n, np=np, name='map'))
    ts = sh.un(v)
    kk = z3.FreshConst(I, 'k')
    for arr, t in zip(l.arrs, ts):
        sel = z3.Select(arr, kk)
        body = z3.substitute(t, (k, kk))
        pats = [sel] + select_pats(body, kk)
        E.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < iv(n)), sel == body), patterns=pats))
    return l


def select_pats(t, kk):
    """Subterms a[kk] with a constant array a: further triggers for facts about position kk."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.num_args() == 2 and z3.is_const(x.arg(0)) and x.arg(1).eq(kk):
            out.append(x)
        st.extend(x.children())
    return out[:4]


def same_len(E, a, b):
    n, m = a.length(), b.length()
    if not is_z(n) and not is_z(m):
        return n == m
    if E.valid(iv(n) == iv(m)):
        return True
    return E.branch(iv(n) == iv(m))


def concat(E, a, b, np=False):
    if a.conc and b.conc:
        return E.new(Lst.of(a.items + b.items, np=np))
    if a.conc and not a.items:
        r = b.copy(); r.np = np
        return E.new(r)
    if b.conc and not b.items:
        r = a.copy(); r.np = np
        return E.new(r)
    if a.conc:
        sh = join(b.shape, join_all([shape_of(x) for x in a.items]))
    elif b.conc:
        sh = join(a.shape, join_all([shape_of(x) for x in b.items]))
    else:
        sh = join(a.shape, b.shape)
    a, b = a.as_sym(sh), b.as_sym(sh)
    n, m = iv(a.n), iv(b.n)
    r = E.new(Lst.sym(sh, z3.simplify(n + m), np=np, name='cat'))
    for x, y, z in zip(a.arrs, b.arrs, r.arrs):
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.Select(z, k) == z3.Select(x, k)), lambda k: [z3.Select(z, k), z3.Select(x, k)]))
        E.assume(forall([I], lambda k: z3.Implies(z3.And(n <= k, k < n + m), z3.Select(z, k) == z3.Select(y, k - n)), lambda k: z3.Select(z, k)))
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.Select(z, n + k) == z3.Select(y, k)), lambda k: z3.Select(y, k)))
    return r


def repeat(E, a, n):
    if a.conc and not is_z(n):
        return E.new(Lst.of(a.items * n))
    if a.conc and len(a.items) == 1:
        sh = shape_of(a.items[0])
        m = z3.If(iv(n) >= 0, iv(n), z3.IntVal(0)) if not E.valid(iv(n) >= 0) else iv(n)
        return E.new(Lst.sym(sh, m, [z3.K(I, t) for t in sh.un(a.items[0])]))
    raise Unsupported('repetition of a list')


# ------------------------------------------------------------------------------- compare
def lst_equal(E, a, b, node):
    if a.np or b.np:
        return np_compare(E, ast.Eq(), a, b, node)
    if a.conc and b.conc:
        if len(a.items) != len(b.items):
            return False
        rs = [E.equal(x, y, node) for x, y in zip(a.items, b.items)]
        if all(isinstance(r, bool) for r in rs):
            return all(rs)
        return z3.And([bv(r) for r in rs])
    n, m = iv(a.length()), iv(b.length())
    if a.conc and not a.items:
        return m == 0
    if b.conc and not b.items:
        return n == 0
    return z3.And(n == m, fa(n, lambda k: bv(E.equal(a.as_sym().get(k), b.as_sym().get(k), node))))


def abs_of(a):
    """The array whose magnitudes a holds, if a has not been changed since."""
    src = getattr(a, 'abs_src', None)
    if src is None:
        return None
    now = a.items if a.conc else a.arrs
    if len(now) != len(src[1]) or any(x is not y for x, y in zip(now, src[1])):
        return None
    return src[0]


def np_compare(E, op, a, b, node):
    if isinstance(a, Lst) and abs_of(a) is not None and not isinstance(b, (Lst, Abs)) and not isinstance(op, (ast.Eq, ast.NotEq)):
        def f(x, _):
            v = absval(E, x, node)
            return abs_compare(op, v, b) if isinstance(v, Abs) else E.compare(op, v, b, node)
        return elementwise(E, f, abs_of(a), 0, node)
    return elementwise(E, lambda x, y: E.compare(op, x, y, node) if not (isinstance(x, Lst) or isinstance(y, Lst)) else None, a, b, node)


def dict_equal(E, a, b):
    """Same keys with the same values (the order does not matter)."""
    if a.kshape != b.kshape or a.vshape != b.vshape:
        raise Unsupported('comparison of dictionaries of different kinds')
    ks = [z3.FreshConst(s, 'k') for s in a.kshape.sorts]
    sa, sb = z3.Select(a.idx, *ks), z3.Select(b.idx, *ks)
    vals = [z3.Select(x, *ks) == z3.Select(y, *ks) for x, y in zip(a.vals, b.vals)]
    return z3.And(iv(a.n) == iv(b.n), z3.ForAll(ks, z3.And((sa >= 0) == (sb >= 0), z3.Implies(sa >= 0, z3.And(vals))), patterns=[sa, sb]))


TYPES = {'int': 1, 'float': 1, 'complex': 1, 'str': 1, 'list': 1, 'dict': 1, 'set': 1, 'tuple': 1, 'bool': 1, 'object': 1}


def same_type(a, b):
    f = lambda x: ('builtins.' + x if not isinstance(x, (Cls, Lib)) else x.name if isinstance(x, Cls) else x.path)
    a, b = f(a), f(b)
    return a == b


# ------------------------------------------------------------------------------ indexing
def norm_index(E, n, i, node, why='index'):
    """A valid position for an index that may be negative; IndexError otherwise."""
    if not is_z(n) and not is_z(i):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        return j
    if isinstance(i, bool):
        i = int(i)
    if not is_z(i):
        if i < 0:
            j, ok = iv(n) + i, iv(n) + i >= 0
        else:
            j, ok = iv(i), iv(i) < iv(n)
        if not E.branch(ok):
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        return z3.simplify(j)
    i = iv(i)
    ok = z3.And(i >= 0, i < iv(n))
    if E.valid(ok):
        return i
    if E.branch(ok):
        return i
    if E.branch(z3.And(i < 0, i >= -iv(n))):
        return z3.simplify(iv(n) + i)
    raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))


def slice_bounds(E, n, sl):
    def clip(x, d):
        if x is None:
            return d
        if not is_z(x) and not is_z(n):
            x = x + n if x < 0 else x
            return min(max(x, 0), n)
        if not is_z(x) and x == 0:
            return 0
        x = z3.If(iv(x) < 0, iv(x) + iv(n), iv(x))
        if E.valid(z3.And(x >= 0, x <= iv(n))):
            return z3.simplify(x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > iv(n), iv(n), x))
    return clip(sl.start, 0), clip(sl.stop, n)


def lst_slice(E, o, sl, node):
    n = o.length()
    step = sl.step
    if step is not None and is_z(step):
        raise Unsupported('slice with an unknown step')
    if o.conc and not any(is_z(x) for x in (sl.start, sl.stop)):
        return E.new(Lst.of(o.items[sl], np=o.np))
    if step in (None, 1):
        a, b = slice_bounds(E, n, sl)
        if not is_z(a) and a == 0 and not is_z(sl.stop) and sl.stop is None:
            r = o.copy()
            r.np = o.np
            return E.new(r)
        s = o.as_sym()
        if E.valid(iv(b) >= iv(a)):
            m = z3.simplify(iv(b) - iv(a))
        else:
            m = z3.If(iv(b) >= iv(a), iv(b) - iv(a), z3.IntVal(0))
        if not is_z(a) and a == 0:
            return E.new(Lst.sym(s.shape, m, list(s.arrs), np=o.np))
        r = E.new(Lst.sym(s.shape, m, np=o.np, name='slice'))
        for x, z in zip(s.arrs, r.arrs):
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.Select(z, k) == z3.Select(x, k + iv(a))), lambda k: z3.Select(z, k)))
            E.assume(forall([I], lambda k: z3.Implies(z3.And(iv(a) <= k, k < iv(a) + m), z3.Select(z, k - iv(a)) == z3.Select(x, k)), lambda k: z3.Select(x, k)))
        return r
    if step == -1 and sl.start is None and sl.stop is None:
        s = o.as_sym()
        n = iv(n)
        r = E.new(Lst.sym(s.shape, n, np=o.np, name='rev'))
        for x, z in zip(s.arrs, r.arrs):
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.Select(z, k) == z3.Select(x, n - 1 - k)), lambda k: z3.Select(z, k)))
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.Select(z, n - 1 - k) == z3.Select(x, k)), lambda k: z3.Select(x, k)))
        if getattr(o, 'inv', None) is not None:
            r.inv = fresh(z3.ArraySort(I, I), 'invr')
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(r.inv, k) == n - 1 - z3.Select(o.inv, k), z3.Select(r.arrs[0], z3.Select(r.inv, k)) == k)), lambda k: z3.Select(r.inv, k)))
        return r
    if step is not None and step > 1 and sl.stop is None and (sl.start is None or not is_z(sl.start)):
        a = sl.start or 0
        s = o.as_sym()
        n = iv(n)
        m = z3.If(n > a, (n - a + step - 1) / step, z3.IntVal(0))
        r = E.new(Lst.sym(s.shape, m, np=o.np, name='stride'))
        for x, z in zip(s.arrs, r.arrs):
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.Select(z, k) == z3.Select(x, a + step * k)), lambda k: z3.Select(z, k)))
            E.assume(forall([I], lambda k: z3.Implies(z3.And(a <= k, k < n, (k - a) % step == 0), z3.Select(z, (k - a) / step) == z3.Select(x, k)), lambda k: z3.Select(x, k)))
        return r
    raise Unsupported('slice with step {}'.format(step))


def fancy(E, o, idx, node):
    """o[idx] for an index array."""
    if o.conc and idx.conc and not any(is_z(x) for x in idx.items):
        if idx.items and isinstance(idx.items[0], bool):
            return E.new(Lst.of([x for x, t in zip(o.items, idx.items) if t], np=True))
        return E.new(Lst.of([o.items[norm_index(E, len(o.items), x, node)] for x in idx.items], np=True))
    s = o.as_sym()
    ix = idx.as_sym()
    if ix.shape != TInt:
        raise Unsupported('boolean mask indexing')
    m = iv(ix.n)
    n = iv(o.length())
    ok = fa(m, lambda k: z3.And(0 <= ix.get(k), ix.get(k) < n), lambda k: z3.Select(ix.arrs[0], k))
    if not E.valid(ok):
        ok2 = fa(m, lambda k: z3.And(-n <= ix.get(k), ix.get(k) < n))
        if not E.branch(ok2):
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        raise Unsupported('fancy index that may be negative')
    r = E.new(Lst.sym(s.shape, m, np=True, name='fancy'))
    for x, z in zip(s.arrs, r.arrs):
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.Select(z, k) == z3.Select(x, ix.get(k))), lambda k: [z3.Select(z, k), ix.get(k)]))
    r.fancy_of = (s, ix)
    return r


def getitem(E, o, i, node):
    if isinstance(i, Opt):
        i = E.some(i, node)
    for h in GETITEM:
        r = h(E, o, i, node)
        if r is not NotImplemented:
            return r
    if isinstance(o, Lst):
        if isinstance(i, slice):
            return lst_slice(E, o, i, node)
        if isinstance(i, Lst):
            return fancy(E, o, i, node)
        if is_int(i) or isinstance(i, bool):
            j = norm_index(E, o.length(), i, node)
            if o.conc and is_z(j):
                if any(isinstance(x, HeapObj) for x in o.items):
                    for k in range(len(o.items)):
                        if E.branch(j == k):
                            return o.items[k]
                    raise Unsupported('list index')
            return o.get(j)
        raise Unsupported('index {!r}'.format(i))
    if isinstance(o, tuple):
        if isinstance(i, slice):
            return o[i]
        if not is_z(i):
            return o[norm_index(E, len(o), i, node)]
        j = norm_index(E, len(o), i, node)
        for k in range(len(o)):
            if E.branch(j == k):
                return o[k]
        raise Unsupported('tuple index')
    if isinstance(o, str) and not is_z(i):
        return o[i]
    if isinstance(o, CDict):
        if key_known(i):
            if i not in o.d:
                raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
            return o.d[i]
        sh = merge_shape(list(o.d.values())) if len(o.d) > 2 else None
        if sh is not None:
            guards = [bv(E.equal(k, i)) for k in o.d]
            if not (E.valid(z3.Or(guards)) or E.branch(z3.Or(guards))):
                raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
            ts = [fresh(x, 'entry') for x in sh.sorts]
            for g, v in zip(guards, o.d.values()):
                E.assume(z3.Implies(g, z3.And([t == x for t, x in zip(ts, sh.un(v))])))
            return sh.mk(ts)
        for k in o.d:
            if E.branch(E.equal(k, i)):
                return o.d[k]
        raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
    if isinstance(o, SDict):
        if not (E.valid(o.has(i)) or E.branch(o.has(i))):
            raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
        return o.get(i)
    if isinstance(o, Obj):
        m = o.cls.methods.get('__getitem__')
        if m:
            return E.call_fn(m, [o, i], {}, node)
    if isinstance(o, Opq):
        h = OPQ_ITEM.get(o.kind)
        if h:
            return h(E, o, i, node)
    raise Unsupported('subscript of {!r}'.format(o))


def merge_shape(vals):
    """The common shape of known numbers, strings and tuples of them (None if there is none)."""
    if all(isinstance(v, tuple) for v in vals) and len(set(map(len, vals))) == 1:
        ts = [merge_shape([v[k] for v in vals]) for k in range(len(vals[0]))]
        return None if None in ts else TTup(*ts)
    if all(isinstance(v, str) for v in vals):
        return TStr
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
        return TInt
    if all(isinstance(v, (int, float, complex)) and not isinstance(v, bool) for v in vals):
        ph = [to_ph(v) for v in vals]
        if None not in ph and len(set(p.s for p in ph)) == 1:
            return TPh(ph[0].s)
        return TCx if any(isinstance(v, complex) for v in vals) else TReal
    return None


GETITEM, SETITEM = [], []
OPQ_ITEM, OPQ_ITER, OPQ_ATTR = {}, {}, {}
ABST_ITER = {}


def key_known(k):
    if isinstance(k, tuple):
        return all(key_known(x) for x in k)
    return not is_z(k) and isinstance(k, (int, float, complex, str)) or k is None


def setitem(E, o, i, v, node):
    if isinstance(i, Opt):
        i = E.some(i, node)
    for h in SETITEM:
        r = h(E, o, i, v, node)
        if r is not NotImplemented:
            return
    if isinstance(o, Lst):
        if is_int(i):
            j = norm_index(E, o.length(), i, node)
            E.touch(o)
            if o.conc and not is_z(j):
                o.items[j] = coerce_np(o, v)
                return
            if o.conc:
                s = o.as_sym()
                o.assign(s)
                o.shape = s.shape
            sh = o.shape
            s2 = shape_of(v)
            if s2 != sh:
                try:
                    ts = sh.un(v)
                except Unsupported:
                    raise
            else:
                ts = sh.un(v)
            o.arrs = [z3.Store(a, iv(j), t) for a, t in zip(o.arrs, ts)]
            return
        if isinstance(i, Lst):
            return fancy_set(E, o, i, v, node)
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None and isinstance(v, Lst):
            E.touch(o)
            o.assign(v)
            return
        raise Unsupported('assignment to index {!r}'.format(i))
    if isinstance(o, CDict):
        E.touch(o)
        if key_known(i) and not getattr(o, 'probe', False):
            o.d[i] = v
            return
        if isinstance(v, CSet) or isinstance(v, HeapObj) and not isinstance(v, (Lst, Mat)):
            raise Unsupported('objects stored in a dictionary with unknown keys')
        if o.d:
            pairs = list(o.d.items())
            ks = join_all([shape_of(k) for k, _ in pairs] + [shape_of(i)])
            vs = join_all([shape_of(x) for _, x in pairs] + [shape_of(v)])
        else:
            pairs = []
            ks, vs = shape_of(i), shape_of(v)
        if getattr(o, 'probe', False):
            E.learn_shape(o, (ks, vs))
        d = SDict.empty(ks, vs)
        E.assume(d.empty_facts())
        for k, x in pairs:
            sdict_put(E, d, k, x)
        from engine import become
        become(o, d)
        sdict_put(E, o, i, v)
        return
    if isinstance(o, SDict):
        E.touch(o)
        sdict_put(E, o, i, v)
        return
    if isinstance(o, Obj) and '__setitem__' in o.cls.methods:
        E.call_fn(o.cls.methods['__setitem__'], [o, i, v], {}, node)
        return
    raise Unsupported('item assignment on {!r}'.format(o))


def coerce_np(o, v):
    return v


def sdict_put(E, d, k, v):
    h = d.has(k)
    if E.valid(h):
        d.put(k, v)
    elif E.valid(z3.Not(h)) or not E.branch(h):
        d.insert(k, v)
        E.assume(d.wf())
    else:
        d.put(k, v)


def fancy_set(E, o, i, v, node):
    if i.conc and o.conc and not any(is_z(x) for x in i.items):
        E.touch(o)
        for k, x in enumerate(i.items):
            o.items[norm_index(E, len(o.items), x, node)] = v.items[k] if isinstance(v, Lst) else v
        return
    fancy_iop(E, o, i, None, v, node)


def fancy_iop(E, o, i, op, v, node):
    """o[i] += v with an index array: every position is updated once, from its old value
    (numpy buffers the result); repeated positions keep the last one."""
    E.touch(o)
    s = o.as_sym() if not o.conc else o.as_sym()
    ix = i.as_sym()
    n, m = iv(s.n), iv(ix.n)
    if isinstance(v, Lst):
        if not same_len(E, ix, v):
            raise PyExc('ValueError', 'shapes at line {}'.format(getattr(node, 'lineno', '?')))
        vv = v.as_sym() if v.conc else v
    ok = fa(m, lambda k: z3.And(0 <= ix.get(k), ix.get(k) < n), lambda k: z3.Select(ix.arrs[0], k))
    if not E.valid(ok):
        if not E.branch(ok):
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
    inj = z3.ForAll([z3.Const('k1', I), z3.Const('k2', I)], z3.Implies(z3.And(0 <= z3.Const('k1', I), z3.Const('k1', I) < z3.Const('k2', I), z3.Const('k2', I) < m), ix.get(z3.Const('k1', I)) != ix.get(z3.Const('k2', I))))
    if not E.valid(inj):
        raise Unsupported('index array with repetitions in an augmented assignment')
    k = fresh(I, 'k')
    rhs = vv.get(k) if isinstance(v, Lst) else v
    new = binop(E, op, s.get(ix.get(k)), rhs, node) if op is not None else rhs
    sh = s.shape
    r = Lst.sym(sh, s.n, np=True, name='fiop')
    kk = z3.FreshConst(I, 'k')
    hit = z3.Exists([kk], z3.And(0 <= kk, kk < m, ix.get(kk) == z3.Const('p', I)))
    p = z3.FreshConst(I, 'p')
    inv = fresh(z3.ArraySort(I, I), 'inv')      # inv[p]: the position k with i[k] == p, or -1
    E.assume(z3.ForAll([p], z3.Or(z3.Select(inv, p) == -1, z3.And(0 <= z3.Select(inv, p), z3.Select(inv, p) < m, ix.get(z3.Select(inv, p)) == p)), patterns=[z3.Select(inv, p)]))
    E.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < m), z3.Select(inv, ix.get(kk)) == kk), patterns=[ix.get(kk)]))
    newt = sh.un(new)
    for x, z, t in zip(s.arrs, r.arrs, newt):
        E.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < m), z3.Select(z, ix.get(kk)) == z3.substitute(t, (k, kk))), patterns=[ix.get(kk)]))
        E.assume(z3.ForAll([p], z3.Implies(z3.Select(inv, p) == -1, z3.Select(z, p) == z3.Select(x, p)), patterns=[z3.Select(z, p)]))
    o.assign(r)
    o.np = True


# -------------------------------------------------------------------------------- sets
def contains(E, o, x, node):
    if isinstance(o, Opt):
        o = E.some(o, node)
    if isinstance(o, Lst):
        if o.conc:
            rs = [E.equal(y, x, node) for y in o.items]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return z3.Or([bv(r) for r in rs])
        return lst_has(E, o, x)
    if isinstance(o, tuple):
        rs = [E.equal(y, x, node) for y in o]
        if all(isinstance(r, bool) for r in rs):
            return any(rs)
        return z3.Or([bv(r) for r in rs])
    if isinstance(o, SSet):
        return o.has(x)
    if isinstance(o, CSet):
        rs = [E.equal(y, x, node) for y in o.items]
        if all(isinstance(r, bool) for r in rs):
            return any(rs)
        return z3.Or([bv(r) for r in rs])
    if isinstance(o, SDict):
        return o.has(x)
    if isinstance(o, CDict):
        if key_known(x):
            return x in o.d
        return z3.Or([bv(E.equal(y, x, node)) for y in o.d]) if o.d else False
    if isinstance(o, Obj) and '__contains__' in o.cls.methods:
        return E.call_fn(o.cls.methods['__contains__'], [o, x], {}, node)
    if isinstance(o, Obj) and '__iter__' in o.cls.methods:
        it = E.iterate(o, node)
        if isinstance(it, list):
            return contains(E, Lst.of(it), x, node)
        return lst_has(E, it, x)
    if isinstance(o, Iter):
        return lst_has(E, o, x)
    if isinstance(o, Opq) and o.kind in OPQ_IN:
        return OPQ_IN[o.kind](E, o, x, node)
    if isinstance(o, str) and isinstance(x, str):
        return x in o
    if isinstance(o, (str, SStr)) and isinstance(x, (str, SStr)):
        return INSTR(sv(x), sv(o))
    raise Unsupported('membership in {!r}'.format(o))


OPQ_IN = {}
INSTR = z3.Function('occurs_in', I, I, B)          # substring of a text


def lst_has(E, o, x):
    """x in o for a list of unknown length: a fresh truth value with its meaning."""
    b = fresh(B, 'in')
    w = fresh(I, 'w')
    n = iv(o.n)
    eq = lambda k: bv(E.equal(o.get(k), x))
    E.assume(z3.Implies(b, z3.And(0 <= w, w < n, eq(w))))
    k = z3.FreshConst(I, 'k')
    E.assume(z3.Implies(z3.Not(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(eq(k))))))
    return b


def to_sset(E, o, shape=None):
    """The elements of a container as a membership array."""
    if isinstance(o, SSet):
        return o
    if isinstance(o, CSet) or isinstance(o, Lst) and o.conc:
        sh = shape or join_all([shape_of(x) for x in o.items])
        a = z3.K(sh.sorts[0], z3.BoolVal(False)) if len(sh.sorts) == 1 else None
        if a is None:
            s = SSet(sh)
            ks = [z3.FreshConst(t, 'k') for t in sh.sorts]
            E.assume(z3.ForAll(ks, z3.Not(z3.Select(s.mem, *ks)), patterns=[z3.Select(s.mem, *ks)]))
            a = s.mem
        for x in o.items:
            a = z3.Store(a, *(sh.un(x) + [z3.BoolVal(True)]))
        return SSet(sh, a)
    if isinstance(o, (Lst, Iter)):
        it = E.iterate(o, None)
        if isinstance(it, list):
            return to_sset(E, Lst.of(it), shape)
        sh = o.shape if isinstance(o, Lst) else shape_of(it.get(z3.IntVal(0)))
        s = SSet(sh)
        n = iv(it.n)
        pos = fresh(z3.ArraySort(*(list(sh.sorts) + [I])), 'pos')
        ks = [z3.FreshConst(t, 'k') for t in sh.sorts]
        p = z3.Select(pos, *ks)
        mem = z3.Select(s.mem, *ks)
        E.assume(z3.ForAll(ks, z3.Implies(mem, z3.And([0 <= p, p < n] + [a == b for a, b in zip(sh.un(it.get(p)), ks)])), patterns=[mem]))
        j = z3.FreshConst(I, 'j')
        el = sh.un(it.get(j))
        pat = el[0] if len(el) == 1 else z3.MultiPattern(*el)
        body = z3.Implies(z3.And(0 <= j, j < n), z3.Select(s.mem, *el))
        try:
            E.assume(z3.ForAll([j], body, patterns=[pat]))
        except z3.Z3Exception:
            E.assume(z3.ForAll([j], body))
        s.from_list = it
        return s
    raise Unsupported('set of {!r}'.format(o))


def set_op(E, name, a, b):
    if isinstance(b, Lst):
        b = to_sset(E, b, a.shape if isinstance(a, SSet) else None) if not (b.conc and not b.items) else CSet()
    if isinstance(b, Iter):
        b = to_sset(E, b)
    if isinstance(a, CSet) and isinstance(b, CSet) and all(key_known(x) for x in a.items + b.items):
        if name == 'union':
            r = a.items + [x for x in b.items if x not in a.items]
        elif name == 'intersection':
            r = [x for x in a.items if x in b.items]
        else:
            r = [x for x in a.items if x not in b.items]
        return E.new(CSet(r))
    if isinstance(a, CSet) and not a.items:
        if name == 'union':
            return E.new(SSet(b.shape, b.mem) if isinstance(b, SSet) else CSet(b.items))
        return E.new(CSet())
    if isinstance(b, CSet) and not b.items:
        if name in ('union', 'difference'):
            return E.new(SSet(a.shape, a.mem) if isinstance(a, SSet) else CSet(a.items))
        return E.new(CSet())
    sh = a.shape if isinstance(a, SSet) else b.shape if isinstance(b, SSet) else None
    if name == 'union' and isinstance(b, CSet) and isinstance(a, SSet):
        m = a.mem
        for x in b.items:
            m = z3.Store(m, *(sh.un(x) + [z3.BoolVal(True)]))
        return E.new(SSet(sh, m))
    x, y = to_sset(E, a, sh), to_sset(E, b, sh)
    sh = x.shape
    r = SSet(sh)
    ks = [z3.FreshConst(t, 'k') for t in sh.sorts]
    l, p, q = (z3.Select(s.mem, *ks) for s in (r, x, y))
    f = {'union': z3.Or(p, q), 'intersection': z3.And(p, q), 'difference': z3.And(p, z3.Not(q))}[name]
    E.assume(z3.ForAll(ks, l == f, patterns=[l, p, q]))
    return E.new(r)


def set_add(E, o, x):
    E.touch(o)
    if isinstance(o, CSet):
        if getattr(o, 'probe', False):
            E.learn_shape(o, shape_of(x))
        if key_known(x) and all(key_known(y) for y in o.items):
            if x not in o.items:
                o.items.append(x)
            return
        from engine import become
        s = to_sset(E, o) if o.items else None
        if s is None:
            sh = shape_of(x)
            s = to_sset(E, CSet(), sh)
        become(o, s)
    o.mem = z3.Store(o.mem, *(o.shape.un(x) + [z3.BoolVal(True)]))


def set_remove(E, o, x, node, strict=True):
    if isinstance(o, CSet) and key_known(x) and all(key_known(y) for y in o.items):
        E.touch(o)
        if x in o.items:
            o.items.remove(x)
        elif strict:
            raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
        return
    if isinstance(o, CSet):
        if not o.items:
            raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
        from engine import become
        s = to_sset(E, o)
        E.touch(o)
        become(o, s)
    if strict and not E.valid(o.has(x)):
        if not E.branch(o.has(x)):
            raise PyExc('KeyError', 'line {}'.format(getattr(node, 'lineno', '?')))
    E.touch(o)
    o.mem = z3.Store(o.mem, *(o.shape.un(x) + [z3.BoolVal(False)]))


def enum_list(E, o):
    """Some enumeration of a finite set: a list with each element exactly once."""
    if isinstance(o, CSet):
        return E.new(Lst.of(o.items))
    sh = o.shape
    l = E.new(Lst.sym(sh, fresh(I, 'card'), name='enum'))
    E.assume(l.n >= 0)
    pos = fresh(z3.ArraySort(*(list(sh.sorts) + [I])), 'pos')
    j = z3.FreshConst(I, 'j')
    el = [z3.Select(a, j) for a in l.arrs]
    pat = el[0] if len(el) == 1 else z3.MultiPattern(*el)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.And(z3.Select(o.mem, *el), z3.Select(pos, *el) == j)), patterns=[pat]))
    ks = [z3.FreshConst(t, 'k') for t in sh.sorts]
    mem, p = z3.Select(o.mem, *ks), z3.Select(pos, *ks)
    E.assume(z3.ForAll(ks, z3.Implies(mem, z3.And([0 <= p, p < l.n] + [z3.Select(a, p) == k for a, k in zip(l.arrs, ks)])), patterns=[mem]))
    l.pos = pos
    l.of_set = o.mem
    E.assume(z3.BoolVal(True), 'iteration over a set visits each element once (finite sets)')
    return l


def set_iter(E, o):
    l = enum_list(E, o)
    it = E.iterate(l, None)
    if isinstance(it, list):
        return it
    it.of_set = o
    it.enum = l
    return it


# ---------------------------------------------------------------------- list operations
def freeze(v):
    if isinstance(v, HeapObj) and not getattr(v, 'frozen', False):
        v.frozen = True
        if isinstance(v, Obj):
            for x in v.f.values():
                freeze(x)


def append(E, o, v):
    E.touch(o)
    if o.np:
        raise PyExc('AttributeError', 'append')
    if o.conc and getattr(o, 'probe', False):
        E.learn_shape(o, storable_shape(v))
        raise Unsupported('list')
    if o.conc:
        o.items.append(v)
        return
    if isinstance(v, Abst):
        v.frozen = True                     # a later change would show in the list
    if isinstance(v, Obj) and any(h(v) == o.shape for h in V.SHAPE_OF):
        freeze(v)                           # a later change would show in the list
    elif isinstance(v, HeapObj) and not isinstance(v, (Lst, SSet, Abst)):
        raise Unsupported('object {} appended to an unknown list'.format(type(v).__name__))
    s2 = storable_shape(v)
    if s2 != o.shape:
        j = join(o.shape, s2, None, v)
        if j != o.shape:
            E.learn_shape(o, j)
            raise Unsupported('list element of shape {} in a list of {}'.format(s2, o.shape))
    o.arrs = [z3.Store(a, iv(o.n), t) for a, t in zip(o.arrs, o.shape.un(v))]
    o.n = z3.simplify(iv(o.n) + 1)


def storable_shape(v):
    if isinstance(v, CSet) or isinstance(v, SSet):
        raise Unsupported('set stored in a list')
    return shape_of(v)


def extend(E, a, b, node):
    it = E.iterate(b, node)
    if isinstance(it, list):
        for x in it:
            append(E, a, x)
        return
    E.touch(a)
    src = b if isinstance(b, Lst) else map_term(E, it.n, it.get)
    r = concat(E, a, src)
    a.assign(r)


def pop(E, o, i, node):
    n = o.length()
    if o.conc and not is_z(i):
        if not o.items:
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        E.touch(o)
        return o.items.pop(i)
    if i == -1:
        if not E.branch(iv(n) > 0):
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        v = o.get(iv(n) - 1)
        E.touch(o)
        o.n = z3.simplify(iv(n) - 1)
        return v
    if not is_z(i) and i == 0:
        if not E.branch(iv(n) > 0):
            raise PyExc('IndexError', 'line {}'.format(getattr(node, 'lineno', '?')))
        v = o.get(z3.IntVal(0))
        E.touch(o)
        m = z3.simplify(iv(n) - 1)
        r = Lst.sym(o.shape, m, name='tail')
        for x, z in zip(o.arrs, r.arrs):
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.Select(z, k) == z3.Select(x, k + 1)), lambda k: z3.Select(z, k)))
            E.assume(forall([I], lambda k: z3.Implies(z3.And(1 <= k, k <= m), z3.Select(z, k - 1) == z3.Select(x, k)), lambda k: z3.Select(x, k)))
        o.assign(r)
        return v
    raise Unsupported('pop({})'.format(i))


def sort_perm(E, l, key=None, stable=True, why=None):
    """A stable sorting permutation of the list: (perm, inverse, n, key terms)."""
    n = iv(l.length())
    g = key if key is not None else (lambda j: l.get(j))
    perm = E.new(Lst.sym(TInt, n, np=True, name='perm'))
    inv = fresh(z3.ArraySort(I, I), 'invp')
    P = perm.arrs[0]
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    sel, isel = z3.Select(P, k), z3.Select(inv, k)
    rng = z3.And(0 <= k, k < n)
    E.assume(z3.ForAll([k], z3.Implies(rng, z3.And(0 <= sel, sel < n, z3.Select(inv, sel) == k)), patterns=[sel]))
    E.assume(z3.ForAll([k], z3.Implies(rng, z3.And(0 <= isel, isel < n, z3.Select(P, isel) == k)), patterns=[isel]))
    perm.inv = inv
    perm.sort_key = g
    E.ghost.setdefault('perms', []).append((P, inv))
    return perm


def sort_lt(E, x, y):
    """Python's < on sort keys."""
    if isinstance(x, tuple):
        out = z3.BoolVal(False)
        for a, b in reversed(list(zip(x, y))):
            out = z3.Or(bv(sort_lt(E, a, b)), z3.And(bv(E.equal(a, b)), out))
        return out
    r = E.compare(ast.Lt(), x, y, None)
    return bv(r)


def argsort_list(E, l, key=None, stable=True, rev=False):
    """Positions in sorted order. (assumed contract of sort; stable if requested)"""
    n = l.length()
    g = key if key is not None else (lambda j: l.get(j))
    lt = key_lt(E, g, n) if key is not None else (lambda x, y: sort_lt(E, g(x), g(y)))
    if rev:                                 # descending, equal elements in their order
        lt_ = lt
        lt = lambda x, y: lt_(y, x)
    perm = sort_perm(E, l, g)
    P = perm.arrs[0]
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    a, b = z3.Select(P, k), z3.Select(P, k2)
    order = z3.Not(lt(b, a))
    if stable:
        order = z3.And(order, z3.Implies(z3.Not(lt(a, b)), a < b))
    E.assume(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < iv(n)), order), patterns=[z3.MultiPattern(a, b)]),
             'sorting returns the {}sorted permutation (list.sort, sorted, np.argsort, np.sort)'.format('stably ' if stable else ''))
    return perm


def key_lt(E, g, n):
    """The comparison of the keys of two elements as a formula of their positions: the key
    function is executed for two arbitrary positions."""
    import engine
    u, w = fresh(I, 'pa'), fresh(I, 'pb')
    mark = V.counter()

    def thunk():
        E.assume(z3.And(0 <= u, u < iv(n), 0 <= w, w < iv(n)))
        return sort_lt(E, g(u), g(w))
    cases = explore(E, thunk)
    created = V.created_since(mark)
    base = 2
    t = z3.BoolVal(False)
    for c, v in cases:
        if isinstance(v, engine.PyExc):
            if E.valid(z3.Not(z3.And(c))):
                continue
            if E.choose(2) == 1:
                E.assume(z3.And(c))
                raise v
            raise Unsupported('a sort key that may fail')
        t = z3.Or(t, z3.And(list(c)[base:] + [bv(v)])) if len(cases) > 1 else bv(v)
        for x in (c if len(cases) == 1 else []):
            if has_q(x):
                raise Unsupported('a sort key with side conditions')
    if consts_of([t], created):
        raise Unsupported('a sort key with auxiliary values')
    return lambda x, y: z3.substitute(t, (u, x), (w, y))


def has_q(f):
    import engine
    return engine.has_quant(f)


def sorted_list(E, l, key=None, stable=True, np=False, rev=False):
    if l.conc and key is None and all(key_known(x) for x in l.items):
        return E.new(Lst.of(sorted(l.items, reverse=rev), np=np))
    if l.conc and len(l.items) <= 1:
        return E.new(Lst.of(l.items, np=np))
    s = l.as_sym()
    perm = argsort_list(E, s, key, stable, rev)
    r = E.new(Lst.sym(s.shape, s.n, np=np, name='sorted'))
    for x, z in zip(s.arrs, r.arrs):
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < iv(s.n)), z3.Select(z, k) == z3.Select(x, z3.Select(perm.arrs[0], k))), lambda k: [z3.Select(z, k), z3.Select(perm.arrs[0], k)]))
    r.perm = perm
    return r


# -------------------------------------------------------------------------- attributes
def method(f):
    return lambda E, o, args, kwargs, node: f(E, o, *args, node=node, **kwargs)


def _all(E, o, node=None, axis=None):
    if o.conc:
        rs = [bv(x) for x in o.items]
        return z3.And(rs) if rs else True
    return fa(iv(o.n), lambda k: bv(o.get(k)))


def _any(E, o, node=None, axis=None):
    if o.conc:
        rs = [bv(x) for x in o.items]
        return z3.Or(rs) if rs else False
    return z3.Not(fa(iv(o.n), lambda k: z3.Not(bv(o.get(k)))))


def _copy(E, o, node=None):
    r = o.copy()
    r.np = o.np
    return E.new(r)


def _lsort(E, o, key=None, reverse=False, node=None):
    r = sorted_list(E, o, keyfun(E, o, key, node) if key is not None else None)
    E.touch(o)
    o.assign(r)
    o.perm = getattr(r, 'perm', None)


def keyfun(E, l, key, node):
    def g(j):
        return E.call(key, [l.as_sym().get(j)], {}, node)
    return g


def _index(E, o, x, node=None):
    if o.conc and key_known(x) and all(key_known(y) for y in o.items):
        if x not in o.items:
            raise PyExc('ValueError', 'index')
        return o.items.index(x)
    b = contains(E, o, x, node)
    if not E.branch(b):
        raise PyExc('ValueError', 'index')
    w = fresh(I, 'ix')
    s = o.as_sym()
    E.assume(z3.And(0 <= w, w < iv(s.n), bv(E.equal(s.get(w), x))))
    E.assume(fa(w, lambda k: z3.Not(bv(E.equal(s.get(k), x)))))
    return w


def _lremove(E, o, x, node=None):
    if o.conc:
        E.touch(o)
        for k, y in enumerate(o.items):
            if E.branch(bv(E.equal(y, x))):
                del o.items[k]
                return
        raise PyExc('ValueError', 'remove')
    raise Unsupported('list.remove')


def _insert(E, o, i, x, node=None):
    if o.conc and not is_z(i):
        E.touch(o)
        o.items.insert(i, x)
        return
    raise Unsupported('list.insert')


def _tolist(E, o, node=None):
    r = o.copy()
    r.np = False
    return E.new(r)


LST_METHODS = {
    'append': lambda E, o, v, node=None: append(E, o, v),
    'extend': lambda E, o, v, node=None: extend(E, o, v, node),
    'pop': lambda E, o, i=-1, node=None: pop(E, o, i, node),
    'sort': _lsort, 'copy': _copy, 'index': _index, 'remove': _lremove, 'insert': _insert, 'tolist': _tolist,
    'all': _all, 'any': _any,
    'astype': lambda E, o, t, node=None: np_array(E, [o], {'dtype': t}, node),
    'flatten': _copy, 'conj': lambda E, o, node=None: np_map(conj)(E, [o], {}, node),
    '__getitem__': lambda E, o, i, node=None: getitem(E, o, i, node),
    'item': lambda E, o, i=0, node=None: getitem(E, o, i, node),
}


def _sadd(E, o, x, node=None):
    set_add(E, o, x)


def _supdate(E, o, l, node=None):
    E.touch(o)
    r = set_op(E, 'union', o, l)
    from engine import become
    become(o, r)


SET_METHODS = {
    'add': _sadd,
    'remove': lambda E, o, x, node=None: set_remove(E, o, x, node),
    'discard': lambda E, o, x, node=None: set_remove(E, o, x, node, False),
    'union': lambda E, o, x, node=None: set_op(E, 'union', o, x),
    'intersection': lambda E, o, x, node=None: set_op(E, 'intersection', o, x),
    'difference': lambda E, o, x, node=None: set_op(E, 'difference', o, x),
    'copy': lambda E, o, node=None: E.new(CSet(o.items) if isinstance(o, CSet) else o.copy()),
    'update': _supdate,
}


def _items(E, o, node=None):
    if isinstance(o, CDict):
        return list(o.d.items())
    keys, ks, vs, vals = list(o.keys), o.kshape, o.vshape, list(o.vals)

    def get(i):
        kt = [z3.Select(a, iv(i)) for a in keys]
        return (ks.mk(kt), vs.mk([z3.Select(a, *kt) for a in vals]))
    return Iter(o.n, get)


def _keys(E, o, node=None):
    return o


def _values(E, o, node=None):
    if isinstance(o, CDict):
        return list(o.d.values())
    it = _items(E, o)
    return Iter(it.n, lambda i: it.get(i)[1])


def _dget(E, o, k, d=None, node=None):
    if E.truth(contains(E, o, k, node)):
        return getitem(E, o, k, node)
    return d


DICT_METHODS = {'items': _items, 'keys': _keys, 'values': _values, 'get': _dget}


def getattribute(E, o, attr, node):
    for h in GETATTR:
        r = h(E, o, attr, node)
        if r is not NotImplemented:
            return r
    if isinstance(o, Lst):
        if attr in LST_METHODS:
            if attr in ('append', 'extend', 'pop', 'insert') and o.np:
                raise PyExc('AttributeError', attr)
            return Bound(method(LST_METHODS[attr]), o)
        if attr == 'size' and o.np:
            return o.length()
        if attr == 'shape' and o.np:
            return (o.length(),)
        if attr == 'T' and o.np:
            return o
        if attr in ('real', 'imag') and o.np:
            return np_map(lambda x: rv(to_cx(x).re if attr == 'real' else to_cx(x).im))(E, [o], {}, node)
        if attr == 'ndim' and o.np:
            return 1
    if isinstance(o, (SSet, CSet)) and attr in SET_METHODS:
        return Bound(method(SET_METHODS[attr]), o)
    if isinstance(o, (SDict, CDict)) and attr in DICT_METHODS:
        return Bound(method(DICT_METHODS[attr]), o)
    if num(o):
        if attr == 'real':
            c = to_cx(o)
            return c.re
        if attr == 'imag':
            return to_cx(o).im
        if attr in ('conjugate', 'conj'):
            return Bound(method(lambda E, o, node=None: conj(o)), o)
    if isinstance(o, Text) and o.words is not None and attr in ('strip', 'split'):
        if attr == 'strip':
            return Bound(method(lambda E, o, node=None: o), o)
        return Bound(method(lambda E, o, node=None: E.new(o.words.copy())), o)
    if isinstance(o, (str, Text)):
        if attr in ('join', 'format', 'strip', 'replace'):
            if attr == 'join':
                return Bound(method(text_join), o)
            return Bound(method(lambda E, o, *a, **k: Text()), o)
    if isinstance(o, Opq):
        h = OPQ_ATTR.get(o.kind)
        if h:
            return h(E, o, attr, node)
    if attr == '__class__':
        return type_of(E, o)
    if attr == '__name__':
        return Text()
    raise Unsupported('attribute {} of {!r}'.format(attr, o))


GETATTR = []


def text_join(E, o, l, node=None):
    for h in TEXT_JOIN:
        r = h(E, o, l, node)
        if r is not NotImplemented:
            return r
    t = Text()
    if o == '' and isinstance(l, Lst):
        try:
            t.tokens = l.as_sym(TStr).copy()
            if t.tokens.shape != TStr:
                t.tokens = None
        except Unsupported:
            pass
    return t


TEXT_JOIN = []


# ---------------------------------------------------------------------- comprehensions
class Path(list):
    """What is assumed along a path: facts, and the conditions that tell it from other paths."""

    def __init__(self, fs, cond, names):
        list.__init__(self, fs)
        self.cond, self.names = cond, names


def explore(E, thunk):
    """All paths of a side-effect-free piece of code started from the current state:
    [(conditions assumed along the path, result or PyExc)], without disturbing it."""
    saved = (E.prefix, E.dec, E.pc, E.light, E.todo, E.loops_active, E.outer, E.ctags, E.pathcache)
    out = []
    todo = [[]]
    base = list(E.pc)
    serial = E.serial
    try:
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > 64:
                raise Unsupported('too many cases in an expression')
            E.prefix, E.dec, E.todo = pre, [], todo
            E.outer = saved[6] + (tuple(saved[1]), E.obcount)
            E.pc = list(base)
            E.ctags, E.pathcache = set(), dict(saved[8] or {})
            mark = V.counter()
            E.light = saved[3]
            E.light.push()
            E.loops_active = saved[5] + [(('pure', 0), serial, set())]
            try:
                try:
                    v = thunk()
                except PyExcT() as e:
                    v = e
                out.append((Path(E.pc[len(base):], [j in E.ctags for j in range(len(base), len(E.pc))], V.created_list(mark)), v))
            except InfT():
                pass
            finally:
                E.light.pop()
    finally:
        E.prefix, E.dec, E.pc, E.light, E.todo, E.loops_active, E.outer, E.ctags, E.pathcache = saved
    return out


def PyExcT():
    import engine
    return engine.PyExc


def RestartT():
    import engine
    return engine.Restart


def InfT():
    import engine
    return engine.Infeasible


def PyExc(name, where=''):
    import engine
    return engine.PyExc(name, where)


def consts_of(fs, names):
    """Constants occurring in the terms that were created after a given point."""
    seen, out, st = set(), {}, list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            out[t.decl().name()] = t
        elif z3.is_app(t):
            st.extend(t.children())
    return out


def fresh_since(mark):
    return mark


def skolemize(k, kk, terms, created, path=None, tag=None):
    """Replaces constants created inside the body by functions of the bound index. A constant is
    known by its name and order of creation, so paths share what they created before they part."""
    cs = consts_of(terms, created)
    subs = [(k, kk)]
    where = {}
    if path is not None:
        count = {}
        for nm in path.names:
            b = nm.split('!')[0]
            count[b] = count.get(b, -1) + 1
            where[nm] = '{}@{}.{}'.format(b, tag, count[b])
    for nm, c in cs.items():
        f = z3.Function(where.get(nm, nm + '@'), I, c.sort())
        subs.append((c, f(kk)))
    return subs


def path_formulas(c, subs):
    """Conditions of a path; its facts, each with the conditions before it."""
    conds, facts = [], []
    for x, isc in zip(c, c.cond):
        y = z3.substitute(x, *subs)
        if isc:
            conds.append(y)
        else:
            facts.append((list(conds), y))
    return conds, facts


def body_cases(E, e, env, it, elt):
    """Cases of the body of a one-generator comprehension at a generic position k."""
    import engine
    g = e.generators[0]
    k = fresh(I, 'ck')
    mark = V.counter()

    def thunk():
        E.assume(z3.And(0 <= k, k < iv(it.n)))
        vars = engine.Env({}, env.mod, env.qual, env)
        E.store(g.target, it.get(k), vars)
        for c in g.ifs:
            if not E.truth(E.ev(c, vars)):
                return SKIP
        return E.ev(elt, vars)
    cases = explore(E, thunk)
    created = V.created_since(mark)
    return k, cases, created


SKIP = object()


def comprehension(E, e, env):
    import engine
    if len(e.generators) > 1:
        out = []

        def rec(gi, vars):
            if gi == len(e.generators):
                out.append(E.ev(e.elt, vars))
                return
            g = e.generators[gi]
            it = E.iterate(E.ev(g.iter, vars), e)
            if not isinstance(it, list):
                raise Unsupported('nested comprehension over unknown lists')
            for v in it:
                E.store(g.target, v, vars)
                if all(E.truth(E.ev(c, vars)) for c in g.ifs):
                    rec(gi + 1, vars)
        rec(0, engine.Env({}, env.mod, env.qual, env))
        return E.new(Lst.of(out))
    g = e.generators[0]
    it = E.iterate(E.ev(g.iter, env), e)
    if isinstance(it, list):
        out = []
        vars = engine.Env({}, env.mod, env.qual, env)
        for v in it:
            E.store(g.target, v, vars)
            if all(E.truth(E.ev(c, vars)) for c in g.ifs):
                out.append(E.ev(e.elt, vars))
        return E.new(Lst.of(out))
    n = iv(it.n)
    k, cases, created = body_cases(E, e, env, it, e.elt)
    exc_cases(E, n, k, cases, created)
    good = [(c, v) for c, v in cases if not isinstance(v, engine.PyExc)]
    vals = [v for c, v in good if v is not SKIP]
    if not vals:
        if n is not None and E.branch(n == 0):
            return E.new(Lst.of([]))
        return E.new(Lst.of([]))
    shs = []
    for v in vals:
        shs.append(comp_shape(v))
    sh = join_all(shs)
    kk = z3.FreshConst(I, 'k')
    tag = k.decl().name()
    known = set()

    def early(facts, conds, pats):
        """Facts that hold before a later decision of the path."""
        for pre, f in facts:
            if len(pre) < len(conds):
                g_ = z3.Implies(z3.And([0 <= kk, kk < n] + pre), f)
                if g_.get_id() not in known:
                    known.add(g_.get_id())
                    keep.append(g_)
                    E.assume(z3.ForAll([kk], g_, patterns=pats))
    keep = []
    if not g.ifs:
        r = E.new(Lst.sym(sh, it.n, name='comp'))
        for c, v in good:
            ts = comp_un(E, sh, v)
            subs = skolemize(k, kk, list(c) + ts, created, c, tag)
            eqs = [z3.Select(a, kk) == z3.substitute(t, *subs) for a, t in zip(r.arrs, ts)]
            conds, facts = path_formulas(c, subs)
            pats = comp_pats(r, kk, []) + source_pats(it, kk)
            if len(good) == 1:
                hyp, concl = [], eqs + [f for _, f in facts] + conds
            else:
                early(facts, conds, pats)
                hyp, concl = conds, eqs + [f for pre, f in facts if len(pre) == len(conds)]
            E.assume(z3.ForAll([kk], z3.Implies(z3.And([0 <= kk, kk < n] + hyp), z3.And(concl)), patterns=pats))
        return r
    # with a filter: src maps positions of the result to positions of the source
    r = E.new(Lst.sym(sh, fresh(I, 'flen'), name='filt'))
    m = r.n
    E.assume(z3.And(m >= 0, m <= n))
    src = fresh(z3.ArraySort(I, I), 'src')
    dst = fresh(z3.ArraySort(I, I), 'dst')
    j, j2 = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'j')
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= z3.Select(src, j), z3.Select(src, j) < n, z3.Select(dst, z3.Select(src, j)) == j)), patterns=[z3.Select(src, j)] + [z3.Select(a, j) for a in r.arrs]))
    E.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), z3.Select(src, j) < z3.Select(src, j2)), patterns=[z3.MultiPattern(z3.Select(src, j), z3.Select(src, j2))]))
    kept = fresh(z3.ArraySort(I, B), 'kept')
    kp = z3.Select(kept, kk)
    for c, v in good:
        ts = [] if v is SKIP else comp_un(E, sh, v)
        subs = skolemize(k, kk, list(c) + ts, created, c, tag)
        tk = [z3.substitute(t, *subs) for t in ts]
        conds, facts = path_formulas(c, subs)
        pats = source_pats(it, kk) + [kp]
        early(facts, conds, pats)
        last = [f for pre, f in facts if len(pre) == len(conds)]
        hyp = z3.And([0 <= kk, kk < n] + conds)
        if v is SKIP:
            E.assume(z3.ForAll([kk], z3.Implies(hyp, z3.And(last + [z3.Not(kp)])), patterns=pats))
        else:
            d = z3.Select(dst, kk)
            E.assume(z3.ForAll([kk], z3.Implies(hyp, z3.And(last + [kp, 0 <= d, d < m, z3.Select(src, d) == kk] + [z3.Select(a, d) == t for a, t in zip(r.arrs, tk)])), patterns=pats))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(kept, z3.Select(src, j))), patterns=[z3.Select(src, j)]))
    r.src, r.dst, r.kept, r.nsrc = src, dst, kept, n
    E.ghost.setdefault('filters', []).append(r)
    E.assume(m == KEPT([kept], n))         # the length of the result counts the kept positions
    return r


from spec import Fold as _Fold
KEPT = _Fold('KEPT', [z3.ArraySort(I, B)], [], lambda a, k, p: z3.If(z3.Select(a[0], k), z3.IntVal(1), z3.IntVal(0)))


def comp_pats(r, kk, ts):
    pats = [z3.Select(a, kk) for a in r.arrs]
    return pats


def source_pats(it, kk):
    try:
        v = it.get(kk)
        ts = shape_of(v).un(v)
    except Unsupported:
        return []
    out = []
    for t in ts:
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            out.append(t)
    return out[:1]


def comp_shape(v):
    if isinstance(v, (CSet,)):
        if not v.items:
            raise Unsupported('shape of an empty set')
        return TSet(join_all([shape_of(x) for x in v.items]))
    if isinstance(v, SSet):
        return TSet(v.shape)
    if isinstance(v, Iter) and getattr(v, 'stop', None) is not None:
        return TRange
    return shape_of(v)


class _TRange(Shape):
    """range(stop)"""
    sorts = [I]

    def mk(self, t):
        return range_to(t[0])

    def un(self, v):
        if isinstance(v, Iter) and getattr(v, 'stop', None) is not None:
            return [iv(v.stop)]
        raise Unsupported('not a range')

    def __repr__(self):
        return 'Range'


TRange = _TRange()


def range_to(b):
    r = Iter(z3.If(iv(b) >= 0, iv(b), z3.IntVal(0)), lambda i: i)
    r.stop = b
    return r


def comp_un(E, sh, v):
    if isinstance(sh, TSet):
        return [to_sset(E, v, sh.t).mem]
    return sh.un(v)


class TSet(Shape):
    """A set stored in a container: read-only."""

    def __init__(self, t):
        self.t = t
        self.sorts = [z3.ArraySort(*(list(t.sorts) + [B]))]

    def mk(self, ts):
        s = SSet(self.t, ts[0])
        s.frozen = True
        return s

    def un(self, v):
        if isinstance(v, SSet):
            return [v.mem]
        raise Unsupported('not a set')

    def __repr__(self):
        return 'Set({})'.format(self.t)


def exc_cases(E, n, k, cases, created):
    """An exception in the body: the first position where it is raised decides."""
    import engine
    for c, v in cases:
        if isinstance(v, engine.PyExc):
            # can it happen at some position?
            w = fresh(I, 'exc')
            subs = [(k, w)]
            cs = consts_of(c, created)
            for nm, t in cs.items():
                subs.append((t, fresh(t.sort(), nm + '!w')))
            ex = z3.And([0 <= w, w < n] + [z3.substitute(x, *subs) for x in c])
            if E.valid(z3.Not(ex)):
                continue
            if E.choose(2) == 1:
                E.assume(ex)
                raise engine.PyExc(v.name, v.where)
            # otherwise it happens nowhere
            kk = z3.FreshConst(I, 'k')
            sk = skolemize(k, kk, list(c), created)
            E.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < n), z3.Not(z3.And([z3.substitute(x, *sk) for x in c])))))


def any_all(E, name, e, env):
    import engine
    if len(e.generators) != 1:
        l = comprehension(E, e, env)
        if l.conc:
            r = [E.truth(x) for x in l.items]
            return any(r) if name == 'any' else all(r)
        raise Unsupported('any/all over a nested generator')
    g = e.generators[0]
    it = E.iterate(E.ev(g.iter, env), e)
    if isinstance(it, list):
        vars = engine.Env({}, env.mod, env.qual, env)
        for v in it:
            E.store(g.target, v, vars)
            if all(E.truth(E.ev(c, vars)) for c in g.ifs):
                t = E.truth(E.ev(e.elt, vars))
                if t and name == 'any':
                    return True
                if not t and name == 'all':
                    return False
        return name == 'all'
    n = iv(it.n)
    k, cases, created = body_cases(E, e, env, it, e.elt)
    exc_cases(E, n, k, cases, created)
    b = fresh(B, name)
    w = fresh(I, 'wit')
    hits = []                      # conditions under which the body decides the result
    misses = []
    for c, v in cases:
        if isinstance(v, engine.PyExc) or v is SKIP:
            if v is SKIP:
                misses.append(z3.And(c) if c else z3.BoolVal(True))
            continue
        t = bv(v) if (is_z(v) or isinstance(v, bool)) else None
        if t is None:
            raise Unsupported('any/all over values that are not truth values')
        dec = t if name == 'any' else z3.Not(t)
        hits.append(z3.And(list(c) + [dec]))
        misses.append(z3.And(list(c) + [z3.Not(dec)]))
    hit, miss = z3.Or(hits) if hits else z3.BoolVal(False), z3.Or(misses) if misses else z3.BoolVal(False)
    pos = b if name == 'any' else z3.Not(b)
    cs = consts_of([hit, miss], created)
    subs_w = [(k, w)] + [(t, fresh(t.sort(), nm + '!w')) for nm, t in cs.items()]
    E.assume(z3.Implies(pos, z3.And(0 <= w, w < n, z3.substitute(hit, *subs_w))))
    kk = z3.FreshConst(I, 'k')
    sk = skolemize(k, kk, [hit, miss], created)
    E.assume(z3.Implies(z3.Not(pos), z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < n), z3.substitute(miss, *sk)))))
    E.last_any = (b, w)
    return b


# ------------------------------------------------------------------------------- library
LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


@lib('builtins.len')
def _len(E, args, kw, node):
    v = args[0]
    if isinstance(v, Opt):
        v = E.some(v, node)
    for h in LEN:
        r = h(E, v, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, Lst):
        return v.length()
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, CSet):
        if all(key_known(x) for x in v.items):
            return len(v.items)
    if isinstance(v, (CSet, SSet)):
        l = enum_list(E, v if isinstance(v, SSet) else to_sset(E, v))
        return l.n
    if isinstance(v, CDict):
        return len(v.d)
    if isinstance(v, (SDict, Iter)):
        return v.n
    if isinstance(v, list):
        return len(v)
    if isinstance(v, Obj) and '__len__' in v.cls.methods:
        return E.call_fn(v.cls.methods['__len__'], [v], {}, node)
    if isinstance(v, Opq) and v.kind in OPQ_LEN:
        return OPQ_LEN[v.kind](E, v, node)
    if num(v):
        raise PyExc('TypeError', 'len of a number')
    raise Unsupported('len of {!r}'.format(v))


LEN = []
OPQ_LEN = {}
OPQ_LIST = {}


@lib('builtins.range', 'numpy.arange')
def _range(E, args, kw, node):
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        a, b, st = args[0], args[1], 1
    else:
        a, b, st = args
    for x in (a, b):
        if not is_int(x):
            raise Unsupported('range of non-integers')
    if is_z(st):
        raise Unsupported('range with an unknown step')
    if not is_z(a) and not is_z(b):
        return Iter(len(range(a, b, st)), lambda i: a + st * i)
    if st == 1:
        if not is_z(a) and a == 0 and E.valid(iv(b) >= 0):
            n = iv(b)
        else:
            n = z3.simplify(iv(b) - iv(a))
            if not E.valid(n >= 0):
                n = z3.If(n >= 0, n, z3.IntVal(0))
        r = Iter(n, (lambda i: i) if (not is_z(a) and a == 0) else (lambda i: iv(a) + iv(i)))
        if not is_z(a) and a == 0:
            r.stop = b
        return r
    if st == -1:
        n = z3.simplify(iv(a) - iv(b))
        if not E.valid(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return Iter(n, lambda i: iv(a) - iv(i))
    raise Unsupported('range with step {}'.format(st))


def as_iter(E, v, node):
    it = E.iterate(v, node)
    if isinstance(it, list):
        return Iter(len(it), lambda i: it[i] if not is_z(i) else Lst.of(it).get(i))
    return it


@lib('builtins.enumerate')
def _enumerate(E, args, kw, node):
    it = E.iterate(args[0], node)
    if isinstance(it, list):
        return list(enumerate(it))
    return Iter(it.n, lambda i: (i, it.get(i)))


@lib('builtins.zip')
def _zip(E, args, kw, node):
    its = [E.iterate(a, node) for a in args]
    if all(isinstance(x, list) for x in its):
        return list(zip(*its))
    its = [x if not isinstance(x, list) else Iter(len(x), (lambda x: lambda i: Lst.of(x).get(i))(x)) for x in its]
    n = iv(its[0].n)
    for x in its[1:]:
        if E.valid(n == iv(x.n)):
            continue
        n = z3.If(iv(x.n) < n, iv(x.n), n)
    return Iter(n, lambda i: tuple(x.get(i) for x in its))


@lib('builtins.iter')
def _iter(E, args, kw, node):
    return args[0]


@lib('builtins.reversed')
def _reversed(E, args, kw, node):
    it = E.iterate(args[0], node)
    if isinstance(it, list):
        return it[::-1]
    return Iter(it.n, lambda i: it.get(iv(it.n) - 1 - iv(i)))


@lib('builtins.next')
def _next(E, args, kw, node):
    it = E.iterate(args[0], node)
    if isinstance(it, list):
        if not it:
            raise PyExc('StopIteration', 'next')
        return it[0]
    if not E.branch(iv(it.n) > 0):
        raise PyExc('StopIteration', 'next')
    return it.get(z3.IntVal(0))


@lib('builtins.list', 'builtins.tuple')
def _list(E, args, kw, node):
    if not args:
        return E.new(Lst.of([]))
    v = args[0]
    if isinstance(v, Opq) and v.kind in OPQ_LIST:
        return OPQ_LIST[v.kind](E, v, node)
    if isinstance(v, Lst):
        r = v.copy()
        r.np = False
        for a in ('src', 'dst', 'perm', 'pos'):
            if hasattr(v, a):
                setattr(r, a, getattr(v, a))
        return E.new(r)
    if isinstance(v, (SSet, CSet)):
        return enum_list(E, v)
    it = E.iterate(v, node)
    if isinstance(it, list):
        return E.new(Lst.of(it))
    return iter_list(E, it)


def iter_list(E, it, np=False):
    v = it.get(z3.IntVal(0))
    return map_term(E, it.n, it.get, np)


@lib('builtins.set', 'builtins.frozenset')
def _set(E, args, kw, node):
    if not args:
        return E.new(CSet())
    v = args[0]
    if isinstance(v, CSet):
        return E.new(CSet(v.items))
    if isinstance(v, SSet):
        return E.new(v.copy())
    if isinstance(v, Lst) and v.conc and all(key_known(x) for x in v.items):
        out = []
        for x in v.items:
            if x not in out:
                out.append(x)
        return E.new(CSet(out))
    if isinstance(v, list):
        return _set(E, [Lst.of(v)], kw, node)
    if isinstance(v, Iter):
        it = E.iterate(v, node)
        if isinstance(it, list):
            return _set(E, [Lst.of(it)], kw, node)
        n = iv(it.n)
        # a range starting at zero
        x = z3.FreshConst(I, 'x')
        if is_z(it.get(x)) and it.get(x).eq(x):
            s = SSet(TInt)
            E.assume(z3.ForAll([x], z3.Select(s.mem, x) == z3.And(0 <= x, x < n), patterns=[z3.Select(s.mem, x)]))
            return E.new(s)
        return E.new(to_sset(E, v))
    if isinstance(v, Lst):
        return E.new(to_sset(E, v))
    raise Unsupported('set of {!r}'.format(v))


@lib('builtins.dict')
def _dict(E, args, kw, node):
    if not args and not kw:
        return E.new(CDict())
    if args and isinstance(args[0], CDict):
        return E.new(CDict(args[0].d.items()))
    if args and isinstance(args[0], SDict):
        return E.new(args[0].copy())
    raise Unsupported('dict(...)')


@lib('builtins.sorted')
def _sorted(E, args, kw, node):
    v = args[0]
    key = kw.get('key')
    if set(kw) - {'key', 'reverse'} or kw.get('reverse') not in (None, False, True):
        raise Unsupported('sorted with options')
    rev = bool(kw.get('reverse'))
    if isinstance(v, (SSet, CSet)):
        v = enum_list(E, v)
    if not isinstance(v, Lst):
        it = E.iterate(v, node)
        v = Lst.of(it) if isinstance(it, list) else iter_list(E, it)
    if key is None and not rev:
        return sorted_list(E, v)
    return sorted_list(E, v, keyfun(E, v, key, node) if key is not None else None, rev=rev)


ABST_TYPE = {}


def type_of(E, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, bool):
        return Lib('builtins.bool')
    if isinstance(v, int) or is_z(v) and v.sort() == I:
        return Lib('builtins.int')
    if isinstance(v, float) or is_z(v) and v.sort() == R:
        return Lib('builtins.float')
    if isinstance(v, (complex, Cx, Ph)):
        return Lib('builtins.complex')
    if isinstance(v, Abst):
        return ABST_TYPE[v.kind](E, v) if v.kind in ABST_TYPE else Lib('numpy.ndarray')
    if isinstance(v, Lst):
        return Lib('numpy.ndarray') if v.np else Lib('builtins.list')
    if isinstance(v, (str, SStr, Text)):
        return Lib('builtins.str')
    if isinstance(v, tuple):
        return Lib('builtins.tuple')
    if isinstance(v, (SSet, CSet)):
        return Lib('builtins.set')
    if isinstance(v, (SDict, CDict)):
        return Lib('builtins.dict')
    if isinstance(v, Opq):
        c = OPQ_CLS.get(v.kind)
        if c:
            return Cls(c, '', {})
    if isinstance(v, (Fn, Bound)):
        return Lib('builtins.function')
    if v is None:
        return Lib('builtins.NoneType')
    for h in TYPE_OF:
        r = h(E, v)
        if r is not NotImplemented:
            return r
    raise Unsupported('type of {!r}'.format(v))


TYPE_OF = []
OPQ_CLS = {'OS': 'OperatorString'}


@lib('builtins.type')
def _type(E, args, kw, node):
    return type_of(E, args[0])


@lib('builtins.isinstance')
def _isinstance(E, args, kw, node):
    v, t = args
    if isinstance(v, Opt):
        if E.branch(bv(v.none)):
            v = None
        else:
            v = v.val
    ts = t if isinstance(t, tuple) else (t,)
    ty = type_of(E, v)
    for x in ts:
        if isinstance(ty, Cls) and isinstance(x, Cls):
            if ty.name == x.name:
                return True
        elif same_type(ty, x):
            return True
        elif isinstance(x, Lib) and isinstance(ty, Lib) and ty.path == 'builtins.bool' and x.path == 'builtins.int':
            return True
    return False


@lib('builtins.callable')
def _callable(E, args, kw, node):
    return isinstance(args[0], (Fn, Bound, Cls, Lib))


@lib('builtins.int', 'numpy.int64', 'numpy.int32')
def _int(E, args, kw, node):
    v = args[0]
    if is_int(v):
        return v
    if is_bool(v):
        return iv(v) if is_z(v) else int(v)
    if isinstance(v, float):
        return int(v)
    if is_z(v) and v.sort() == R:
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    for h in TO_INT:
        r = h(E, v, node)
        if r is not NotImplemented:
            return r
    raise Unsupported('int({!r})'.format(v))


TO_INT = []


@lib('builtins.float', 'numpy.float64')
def _float(E, args, kw, node):
    v = args[0]
    if is_z(v):
        return rv(v)
    return float(v)


@lib('builtins.complex')
def _complex(E, args, kw, node):
    v = args[0]
    if isinstance(v, (Cx, Ph)):
        return v
    if is_z(v):
        return to_cx(v)
    if isinstance(v, SStr):
        for w in ('1', '1.0', '1j'):
            if E.branch(v.t == code(w)):
                return complex(w)
        raise Unsupported('complex() of an unknown string')
    return complex(v)


@lib('builtins.bool')
def _bool(E, args, kw, node):
    v = args[0]
    return bv(v) if is_z(v) else E.truth(v)


@lib('builtins.str', 'builtins.repr', 'builtins.format')
def _str(E, args, kw, node):
    v = args[0]
    if isinstance(v, (str, SStr)):
        return v
    for h in TO_STR:
        r = h(E, v, node)
        if r is not NotImplemented:
            return r
    if is_int(v):
        return SStr(numeral(v)) if is_z(v) else str(v)
    if isinstance(v, (bool, float, complex)):
        return str(v)
    return Text()


TO_STR = []


@lib('builtins.print', 'warnings.warn')
def _print(E, args, kw, node):
    return None


@lib('builtins.hash')
def _hash(E, args, kw, node):
    v = args[0]
    if isinstance(v, Text) and v.t is not None:
        return z3.Function('hash', v.t.sort(), I)(v.t)
    if isinstance(v, Text):
        if v.hash is None:
            v.hash = fresh(I, 'hash')
        return v.hash
    raise Unsupported('hash of {!r}'.format(v))


@lib('builtins.abs', 'numpy.abs', 'numpy.absolute')
def _abs(E, args, kw, node):
    v = args[0]
    if isinstance(v, Lst):
        r = elementwise(E, lambda x, _: absval_t(E, x), v, 0, node)
        r.abs_src = (v.copy(), list(r.items) if r.conc else list(r.arrs))
        return r
    return absval(E, v, node)


SQRT = z3.Function('sqrt', R, R)


def absval_t(E, x):
    """|x| as a number term (through a square root if x is complex)."""
    a = absval(E, x)
    if isinstance(a, Abs):
        return sqrt_term(E, rv(a.sq()))
    return a


def sqrt_term(E, t):
    r = SQRT(t)
    E.sqrt_axioms()
    return r


@lib('builtins.min', 'builtins.max', 'numpy.minimum', 'numpy.maximum')
def _minmax(E, args, kw, node):
    which = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
    small = which.startswith('min')
    if len(args) == 2 and all(is_int(x) or is_real(x) for x in args):
        a, b = args
        if not is_z(a) and not is_z(b):
            return min(a, b) if small else max(a, b)
        if is_int(a) and is_int(b):
            a, b = iv(a), iv(b)
        else:
            a, b = rv(a), rv(b)
        return z3.If(a <= b, a, b) if small else z3.If(a >= b, a, b)
    if len(args) == 1 and isinstance(args[0], Lst):
        l = args[0]
        if l.conc and all(key_known(x) for x in l.items):
            if not l.items:
                raise PyExc('ValueError', which)
            return min(l.items) if small else max(l.items)
        s = l.as_sym()
        if not E.branch(iv(s.n) > 0):
            raise PyExc('ValueError', which)
        w = fresh(I, 'arg' + which)
        v = s.get(w)
        E.assume(z3.And(0 <= w, w < iv(s.n)))
        E.assume(fa(iv(s.n), lambda k: (s.get(k) >= v) if small else (s.get(k) <= v), lambda k: z3.Select(s.arrs[0], k)))
        return v
    raise Unsupported(which)


@lib('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin')
def _npmax(E, args, kw, node):
    v = args[0]
    if isinstance(v, Iter):
        it = E.iterate(v, node)
        v = Lst.of(it) if isinstance(it, list) else iter_list(E, it)
    return _minmax(E, [v], kw, node)


@lib('builtins.sum', 'numpy.sum')
def _sum(E, args, kw, node):
    v = args[0]
    if isinstance(v, Lst) and v.conc:
        r = 0
        for x in v.items:
            r = binop(E, ast.Add(), r, x, node)
        return r
    raise Unsupported('sum of an unknown list')


@lib('builtins.any')
def _bany(E, args, kw, node):
    return _any(E, args[0])


@lib('builtins.all', 'numpy.all')
def _ball(E, args, kw, node):
    return _all(E, args[0])


LIB['numpy.any'] = _bany


# --------------------------------------------------------------------------------- numpy
def dtype_name(t):
    if t is None:
        return None
    if isinstance(t, Lib):
        n = t.path.split('.')[-1]
        return n
    if isinstance(t, str):
        return t
    raise Unsupported('dtype {!r}'.format(t))


def cast(v, dt):
    if dt is None or dt == 'str':
        return v
    if dt == 'complex' or dt.startswith('complex'):
        return to_cx(v)
    if dt.startswith('int'):
        if is_int(v):
            return v
        if isinstance(v, float) and v == int(v):
            return int(v)
        raise Unsupported('cast of {!r} to int'.format(v))
    if dt.startswith('float'):
        if isinstance(v, (Cx, complex, Ph)):
            raise Unsupported('cast of a complex number to float')
        return rv(v) if is_z(v) else float(v)
    if dt == 'bool':
        return v
    raise Unsupported('dtype ' + dt)


def np_array(E, args, kw, node):
    """np.array / np.asarray / np.copy of one-dimensional data: an independent copy."""
    v = args[0]
    dt = dtype_name(kw.get('dtype', args[1] if len(args) > 1 else None))
    for h in NP_ARRAY:
        r = h(E, v, dt, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, (tuple, list)):
        v = Lst.of(v)
    if isinstance(v, Iter):
        it = E.iterate(v, node)
        v = Lst.of(it) if isinstance(it, list) else iter_list(E, it)
    if isinstance(v, Lst) and dt is not None and dt.startswith('int') and (v.shape == TStr if not v.conc else any(isinstance(x, (str, SStr)) for x in v.items)):
        # numbers read from text: only decimal numerals are accepted
        w = v.as_sym(TStr)
        ok = fa(iv(w.n), lambda k: z3.Select(w.arrs[0], k) < 0, lambda k: z3.Select(w.arrs[0], k))
        if E.choose(2) == 1:
            x = fresh(I, 'badword')
            E.assume(z3.And(0 <= x, x < iv(w.n), z3.Select(w.arrs[0], x) >= 0))
            raise PyExc('ValueError', 'line {}'.format(getattr(node, 'lineno', '?')))
        E.assume(ok)
        return map_term(E, w.n, lambda k: numeral_value(z3.Select(w.arrs[0], iv(k))), True)
    if isinstance(v, Lst):
        if v.conc:
            if any(isinstance(x, (Lst, tuple)) for x in v.items):
                raise Unsupported('nested arrays')
            return E.new(Lst.of([cast(x, dt) for x in v.items], np=True))
        if dt is None or dt == 'str' or (dt.startswith('int') and v.shape == TInt) or (dt == 'complex' and v.shape == TCx) or (dt == 'float' and v.shape == TReal):
            r = v.copy()
            r.np = True
            return E.new(r)
        return map_term(E, v.n, lambda k: cast(v.get(k), dt), True)
    if num(v):
        return v
    raise Unsupported('array of {!r}'.format(v))


NP_ARRAY = []
LIB_CONST = {}         # constants of libraries: name -> function of the engine, None if unknown
LIB['numpy.array'] = np_array
LIB['numpy.asarray'] = np_array
LIB['numpy.copy'] = np_array


def deepcopy(E, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, HeapObj):
        if id(v) in memo:
            return memo[id(v)]
        import engine
        c = engine.snap_value(v, {})
        c.serial = -1
        if isinstance(c, Lst):
            c.np = v.np
        if isinstance(v, Obj):
            c = Obj(v.cls)
            memo[id(v)] = c
            for k, x in v.f.items():
                c.f[k] = deepcopy(E, x, memo)
        elif isinstance(v, Lst) and v.conc:
            c.items = [deepcopy(E, x, memo) for x in v.items]
        memo[id(v)] = c
        return E.new(c)
    if isinstance(v, tuple):
        return tuple(deepcopy(E, x, memo) for x in v)
    return v


@lib('copy.deepcopy')
def _deepcopy(E, args, kw, node):
    return deepcopy(E, args[0])


@lib('copy.copy')
def _ccopy(E, args, kw, node):
    v = args[0]
    if isinstance(v, (Lst,)):
        return _copy(E, v)
    raise Unsupported('copy.copy')


def np_map(f):
    def h(E, args, kw, node):
        v = args[0]
        if isinstance(v, Lst):
            return elementwise(E, lambda x, _: f(x), v, 0, node)
        if num(v):
            return f(v)
        for g in NP_MAP:
            r = g(E, f, v, node)
            if r is not NotImplemented:
                return r
        raise Unsupported('numpy function of {!r}'.format(v))
    return h


NP_MAP = []
LIB['numpy.conj'] = np_map(conj)
LIB['numpy.conjugate'] = np_map(conj)
LIB['numpy.real'] = np_map(lambda x: to_cx(x).re)
LIB['numpy.imag'] = np_map(lambda x: to_cx(x).im)


@lib('numpy.zeros', 'numpy.ones')
def _zeros(E, args, kw, node):
    which = node.func.attr
    v = 0 if which == 'zeros' else 1
    shp = args[0] if args else kw.get('shape')
    dt = dtype_name(kw.get('dtype', args[1] if len(args) > 1 else None)) or 'float'
    for h in NP_ZEROS:
        r = h(E, shp, dt, v, node)
        if r is not NotImplemented:
            return r
    if isinstance(shp, tuple) and len(shp) == 1:
        shp = shp[0]
    if is_int(shp):
        if dt.startswith('int'):
            sh, ts = TInt, [z3.IntVal(v)]
        elif dt.startswith('complex'):
            sh, ts = TCx, [z3.RealVal(v), z3.RealVal(0)]
        elif dt == 'bool':
            sh, ts = TBool, [z3.BoolVal(bool(v))]
        else:
            sh, ts = TReal, [z3.RealVal(v)]
        if not E.valid(iv(shp) >= 0):
            if not E.branch(iv(shp) >= 0):
                raise PyExc('ValueError', 'negative dimension')
        l = Lst.sym(sh, iv(shp), [z3.K(I, t) for t in ts], np=True)
        l.fixed = True
        return E.new(l)
    raise Unsupported('array of shape {!r}'.format(shp))


NP_ZEROS = []


@lib('numpy.concatenate', 'numpy.append', 'numpy.hstack')
def _concatenate(E, args, kw, node):
    v = args[0]
    for h in NP_CONCAT:
        r = h(E, args, kw, node)
        if r is not NotImplemented:
            return r
    parts = list(v) if isinstance(v, tuple) else list(v.items)
    if len(args) > 1 and isinstance(args[1], Lst):
        parts = [v, args[1]]
    r = None
    for p in parts:
        if isinstance(p, tuple):
            p = Lst.of(p)
        if num(p):
            p = Lst.of([p])
        r = p if r is None else concat(E, r, p, np=True)
    if r is parts[0] or not r.np:
        r = r.copy()
        r.np = True
        r = E.new(r)
    r.cat = parts
    return r


NP_CONCAT = []


@lib('numpy.pad')
def _pad(E, args, kw, node):
    l, w = args[0], args[1]
    mode = args[2] if len(args) > 2 else kw.get('mode', 'constant')
    if mode != 'constant' or not isinstance(w, tuple) or is_z(w[0]) or w[0] != 0 or kw.get('constant_values', 0) != 0:
        raise Unsupported('np.pad')
    m = w[1]
    if not E.valid(iv(m) >= 0):
        if not E.branch(iv(m) >= 0):
            raise PyExc('ValueError', 'pad')
    s = l.as_sym(TCx if l.conc and not l.items else None)
    n = iv(s.n)
    r = E.new(Lst.sym(s.shape, z3.simplify(n + iv(m)), np=True, name='pad'))
    for x, z in zip(s.arrs, r.arrs):
        zero = z3.IntVal(0) if z.sort().range() == I else z3.RealVal(0)
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.Select(z, k) == z3.Select(x, k)), lambda k: [z3.Select(z, k), z3.Select(x, k)]))
        E.assume(forall([I], lambda k: z3.Implies(z3.And(n <= k, k < n + iv(m)), z3.Select(z, k) == zero), lambda k: z3.Select(z, k)))
    return r


@lib('numpy.sort')
def _npsort(E, args, kw, node):
    v = args[0]
    return sorted_list(E, v, np=True)


@lib('numpy.argsort')
def _argsort(E, args, kw, node):
    v = args[0]
    stable = kw.get('kind') in ('mergesort', 'stable')
    if isinstance(v, Lst) and v.conc and all(key_known(x) for x in v.items):
        return E.new(Lst.of(sorted(range(len(v.items)), key=v.items.__getitem__), np=True))
    return argsort_list(E, v.as_sym() if v.conc else v, stable=stable)


@lib('numpy.where')
def _where(E, args, kw, node):
    if len(args) != 1:
        raise Unsupported('np.where with values')
    m = args[0]
    for h in NP_WHERE:
        r = h(E, m, node)
        if r is not NotImplemented:
            return r
    s = m.as_sym() if m.conc else m
    n = iv(s.n)
    r = E.new(Lst.sym(TInt, fresh(I, 'nw'), np=True, name='where'))
    w = r.arrs[0]
    dst = fresh(z3.ArraySort(I, I), 'wpos')
    E.assume(z3.And(r.n >= 0, r.n <= n))
    j, j2, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    wj = z3.Select(w, j)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n), z3.And(0 <= wj, wj < n, bv(s.get(wj)), z3.Select(dst, wj) == j)), patterns=[wj]))
    E.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < r.n), wj < z3.Select(w, j2)), patterns=[z3.MultiPattern(wj, z3.Select(w, j2))]))
    d = z3.Select(dst, k)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, bv(s.get(k))), z3.And(0 <= d, d < r.n, z3.Select(w, d) == k)), patterns=[z3.Select(s.arrs[0], k)]))
    r.dst = dst
    return (r,)


NP_WHERE = []


@lib('numpy.sqrt')
def _sqrt(E, args, kw, node):
    v = args[0]
    if isinstance(v, (int, float)):
        return float(v) ** 0.5
    if isinstance(v, Abs):
        v = sqrt_term(E, rv(v.sq()))
    return sqrt_term(E, rv(v))


def mat_inplace(E, op, a, b, node):
    return E.binop(op, a, b, node)


def opq_neg(E, v, node):
    h = OPQ_NEG.get(v.kind)
    if h:
        return h(E, v, node)
    return binop(E, ast.Mult(), -1, v, node)


OPQ_NEG = {}


def opq_inplace(E, op, a, b, node):
    h = OPQ_INPLACE.get(a.kind)
    if h:
        return h(E, op, a, b, node)
    return NotImplemented


OPQ_INPLACE = {}


DOT = []
NEW_OBJ = []


def _dot(E, args, kw, node):
    for h in DOT:
        r = h(E, args, kw, node)
        if r is not NotImplemented:
            return r
    raise Unsupported('np.dot of {!r}'.format(args))


LIB['numpy.dot'] = _dot


def mat_copy(E, o):
    import copy
    m = copy.copy(o)
    m.__dict__.pop('derived', None)
    return E.new(m)


def _mat_attr(E, o, attr, node):
    if isinstance(o, Mat) and attr in ('sum_duplicates', 'eliminate_zeros', 'sort_indices', 'toarray', 'tocsr', 'tocsc', 'copy'):
        # entries are kept as a function of the position: only the storage format changes
        return Bound(method(lambda E, o, node=None: None if attr in ('sum_duplicates', 'eliminate_zeros', 'sort_indices') else mat_copy(E, o) if attr in ('copy', 'toarray') else o), o)
    return NotImplemented


GETATTR.append(_mat_attr)
