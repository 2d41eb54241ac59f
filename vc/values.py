"""Symbolic values of the verifier.

Python values that are fully known stay ordinary Python values. Unknown ones are z3
terms (Int, Real, Bool), or one of the classes below. Reals are mathematical reals.
"""
import itertools
from fractions import Fraction
import z3

_multi_pattern = z3.MultiPattern


def _MultiPattern(*args):
    """The binding releases the argument terms before it uses them: hold them here."""
    r = _multi_pattern(*args)
    r.keep = args
    return r


z3.MultiPattern = z3.z3.MultiPattern = _MultiPattern

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The verifier does not know this construct: the obligation stays undischarged."""


_fresh = [0]
_names = []


def fresh(sort, name='v'):
    nm = '{}!{}'.format(name, _fresh[0])
    _fresh[0] += 1
    _names.append(nm)
    return z3.Const(nm, sort)


def reset_fresh():
    _fresh[0] = 0
    del _names[:]


def counter():
    return len(_names)


def created_since(mark):
    return set(_names[mark:])


def created_list(mark):
    return list(_names[mark:])


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z(x) and x.sort() == I)


def is_bool(x):
    return isinstance(x, bool) or (is_z(x) and x.sort() == B)


def is_real(x):
    return isinstance(x, (float, Fraction)) or (is_z(x) and x.sort() == R)


def rv(x):
    """As a z3 real term."""
    if is_z(x):
        if x.sort() == R:
            return x
        if x.sort() == I:
            return z3.ToReal(x)
        if x.sort() == B:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite number')
        return z3.RealVal(repr(x) if 'e' not in repr(x) else str(Fraction(repr(x))))
    raise Unsupported('not a real number: {!r}'.format(x))


def iv(x):
    if is_z(x):
        if x.sort() == I:
            return x
        if x.sort() == B:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('not an integer term: {}'.format(x))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    raise Unsupported('not an integer: {!r}'.format(x))


def bv(x):
    if is_z(x):
        if x.sort() == B:
            return x
        return x != 0
    return z3.BoolVal(bool(x))


class Ph(object):
    """The complex number s * i**k, k an integer (term), s a positive number."""
    __slots__ = ('k', 's')

    def __init__(self, k, s=1.0):
        self.k, self.s = k, s

    def __repr__(self):
        return 'Ph({}, {})'.format(self.k, self.s)


class Cx(object):
    """re + i im with real terms."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx({}, {})'.format(self.re, self.im)


class SStr(object):
    """An unknown string out of the interned ones (operator names, types, modes)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr({})'.format(self.t)


_codes = {}


def numeral(n):
    """Code of the decimal text of the integer n (a bijection onto the negative integers)."""
    if not is_z(n):
        return -(2 * n + 1) if n >= 0 else 2 * n
    return z3.If(n >= 0, -(2 * n + 1), 2 * n)


def numeral_value(c):
    """The integer written by a numeral code (c < 0)."""
    return z3.If(c % 2 == 1, (-c - 1) / 2, c / 2)


def code(s):
    """Integer code of a known string; distinct strings have distinct codes. Decimal texts
    of integers have negative codes, all other strings codes >= 0."""
    if s.lstrip('-').isdigit() and str(int(s)) == s:
        return numeral(int(s))
    if s not in _codes:
        _codes[s] = len(_codes)
    return _codes[s]


for _s in ('I', 'X', 'Y', 'Z', 'A', 'B', 'D', 'CDag', 'C'):
    code(_s)


def sv(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return z3.IntVal(code(x))
    raise Unsupported('not a string: {!r}'.format(x))


class Text(object):
    """Text whose contents are irrelevant (messages), or an opaque token term."""

    def __init__(self, t=None):
        self.t = t
        self.words = None           # the blank-separated words, a list of strings
        self.tokens = None          # the pieces it was joined from
        self.hash = None


class Opq(object):
    """A value of an abstract sort (an object seen only through its contract)."""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def __repr__(self):
        return 'Opq({}:{})'.format(self.t, self.kind)


class Opt(object):
    """None or a value."""
    __slots__ = ('none', 'val')

    def __init__(self, none, val):
        self.none, self.val = none, val


# ------------------------------------------------------------------------- shapes
class Shape(object):
    def __eq__(self, o):
        return isinstance(o, Shape) and repr(self) == repr(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(repr(self))

    def fresh(self, name='v'):
        return self.mk([fresh(s, name) for s in self.sorts])


class _TInt(Shape):
    sorts = [I]

    def mk(self, t):
        return t[0]

    def un(self, v):
        return [iv(v)]

    def __repr__(self):
        return 'Int'


class _TReal(Shape):
    sorts = [R]

    def mk(self, t):
        return t[0]

    def un(self, v):
        if isinstance(v, Cx):
            if not is_z(v.im) and v.im == 0:
                return [rv(v.re)]
            raise Unsupported('complex number used as a real one')
        return [rv(v)]

    def __repr__(self):
        return 'Real'


class _TBool(Shape):
    sorts = [B]

    def mk(self, t):
        return t[0]

    def un(self, v):
        return [bv(v)]

    def __repr__(self):
        return 'Bool'


class _TStr(Shape):
    sorts = [I]

    def mk(self, t):
        return SStr(t[0])

    def un(self, v):
        return [sv(v)]

    def __repr__(self):
        return 'Str'


class _TCx(Shape):
    sorts = [R, R]

    def mk(self, t):
        return Cx(t[0], t[1])

    def un(self, v):
        c = to_cx(v)
        return [rv(c.re), rv(c.im)]

    def __repr__(self):
        return 'Cx'


class TPh(Shape):
    sorts = [I]

    def __init__(self, s=1.0):
        self.s = s

    def mk(self, t):
        return Ph(t[0], self.s)

    def un(self, v):
        p = to_ph(v)
        if p is None or p.s != self.s:
            raise Unsupported('not of the form {} * i**k: {!r}'.format(self.s, v))
        return [iv(p.k)]

    def __repr__(self):
        return 'Ph({})'.format(self.s)


class TOpq(Shape):
    def __init__(self, kind):
        self.kind = kind
        self.sorts = [z3.DeclareSort(kind)]

    def mk(self, t):
        return Opq(t[0], self.kind)

    def un(self, v):
        if isinstance(v, Opq) and v.kind == self.kind:
            return [v.t]
        raise Unsupported('not a {}: {!r}'.format(self.kind, v))

    def __repr__(self):
        return 'Opq:' + self.kind


class Abst(object):
    pass


class TAbs(Shape):
    """A mutable object known only through functions of a term of an abstract sort."""

    def __init__(self, kind):
        self.kind = kind
        self.sorts = [z3.DeclareSort(kind)]

    def mk(self, t):
        o = Abst(self.kind, t[0])
        o.frozen = True
        return o

    def un(self, v):
        if isinstance(v, Abst) and v.kind == self.kind:
            return [v.t]
        raise Unsupported('not a {}: {!r}'.format(self.kind, v))

    def __repr__(self):
        return 'Abs:' + self.kind


class TTup(Shape):
    def __init__(self, *ts):
        self.ts = ts
        self.sorts = [s for t in ts for s in t.sorts]

    def mk(self, t):
        out, i = [], 0
        for s in self.ts:
            out.append(s.mk(t[i:i + len(s.sorts)]))
            i += len(s.sorts)
        return tuple(out)

    def un(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.ts):
            raise Unsupported('not a tuple of {} values'.format(len(self.ts)))
        return [x for s, y in zip(self.ts, v) for x in s.un(y)]

    def __repr__(self):
        return 'Tup({})'.format(', '.join(map(repr, self.ts)))


class TOpt(Shape):
    def __init__(self, t):
        self.t = t
        self.sorts = [B] + list(t.sorts)

    def mk(self, t):
        return Opt(t[0], self.t.mk(t[1:]))

    def un(self, v):
        if v is None:
            return [z3.BoolVal(True)] + [fresh(s, 'junk') for s in self.t.sorts]
        if isinstance(v, Opt):
            return [bv(v.none)] + self.t.un(v.val)
        return [z3.BoolVal(False)] + self.t.un(v)

    def __repr__(self):
        return 'Opt({})'.format(self.t)


class TLst(Shape):
    """A list stored inside another container: read-only snapshot."""

    def __init__(self, t, np=False):
        self.t, self.np = t, np
        self.sorts = [I] + [z3.ArraySort(I, s) for s in t.sorts]

    def mk(self, ts):
        return Lst.sym(self.t, ts[0], list(ts[1:]), np=self.np, frozen=True)

    def un(self, v):
        if not isinstance(v, Lst):
            raise Unsupported('not a list')
        v = v.as_sym(self.t)
        return [iv(v.n)] + list(v.arrs)

    def __repr__(self):
        return 'Lst({})'.format(self.t)


class TRec(Shape):
    """A list of fixed length with elements of different shapes, stored inside a container."""

    def __init__(self, *ts):
        self.ts = ts
        self.sorts = [s for t in ts for s in t.sorts]

    def mk(self, t):
        out, k = [], 0
        for s in self.ts:
            out.append(s.mk(list(t[k:k + len(s.sorts)])))
            k += len(s.sorts)
        l = Lst.of(out)
        l.frozen = True
        return l

    def un(self, v):
        if not isinstance(v, Lst) or not v.conc or len(v.items) != len(self.ts):
            raise Unsupported('list of another length')
        return [x for s, y in zip(self.ts, v.items) for x in s.un(y)]

    def __repr__(self):
        return 'Rec{}'.format(self.ts)


CUR = [None]        # the engine that is running


class _TMat(Shape):
    """A matrix: dimensions and nested arrays of the real and imaginary parts of the entries."""
    sorts = [I, I, z3.ArraySort(I, z3.ArraySort(I, R)), z3.ArraySort(I, z3.ArraySort(I, R))]

    def mk(self, t):
        m = Mat(t[0], t[1], lambda r, c: Cx(t[2][iv(r)][iv(c)], t[3][iv(r)][iv(c)]))
        m.arrs = (t[2], t[3])
        m.frozen = True
        return m

    def un(self, v):
        if not isinstance(v, Mat):
            raise Unsupported('not a matrix')
        return [iv(v.nr), iv(v.nc)] + list(mat_arrs(v))

    def __repr__(self):
        return 'Mat'


def mat_arrs(m):
    """The entries as arrays (defined by an axiom when the matrix is given by a function)."""
    if getattr(m, 'arrs', None) is None:
        E = CUR[0]
        cache = E.pathcache
        if cache is not None and id(m) in cache:
            return cache[id(m)][1]
        arrs = tuple(fresh(s, 'mat') for s in TMat.sorts[2:])
        r, c = z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
        e = to_cx(m.entry(r, c))
        re, im = arrs[0][r][c], arrs[1][r][c]
        E.assume(z3.ForAll([r, c], re == rv(e.re), patterns=[re]))
        E.assume(z3.ForAll([r, c], im == rv(e.im), patterns=[im]))
        if cache is not None:           # defined on this path of a comprehension only
            cache[id(m)] = (m, arrs)
            return arrs
        m.arrs = arrs
    return m.arrs


TMat = _TMat()
TInt, TReal, TBool, TStr, TCx = _TInt(), _TReal(), _TBool(), _TStr(), _TCx()
TOS = TOpq('OS')


SHAPE_OF = []


def shape_of(v):
    if isinstance(v, bool) or (is_z(v) and v.sort() == B):
        return TBool
    if is_int(v):
        return TInt
    if is_real(v):
        return TReal
    if isinstance(v, (str, SStr)):
        return TStr
    if isinstance(v, Ph):
        return TPh(v.s)
    if isinstance(v, (complex, Cx)):
        return TCx
    if isinstance(v, Opq):
        return TOpq(v.kind)
    if isinstance(v, tuple):
        return TTup(*[shape_of(x) for x in v])
    if isinstance(v, Lst):
        if v.conc:
            ss = [shape_of(x) for x in v.items]
            if not ss:
                raise Unsupported('shape of an empty list')
            if any(isinstance(x, TLst) for x in ss) and not all(x == ss[0] for x in ss):
                return TRec(*ss)
            return TLst(join_all(ss), v.np)
        return TLst(v.shape, v.np)
    if isinstance(v, Opt):
        return TOpt(shape_of(v.val))
    if isinstance(v, Abst):
        return TAbs(v.kind)
    if isinstance(v, Mat):
        return getattr(v, 'shape', None) or TMat
    for h in SHAPE_OF:
        r = h(v)
        if r is not None:
            return r
    raise Unsupported('no shape for {!r}'.format(v))


def join(a, b, va=None, vb=None):
    if a == b:
        return a
    num = {'Bool': 0, 'Int': 1, 'Real': 2, 'Cx': 4}

    def rank(t):
        return 3 if isinstance(t, TPh) else num.get(repr(t))
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None:
        for (x, t, y) in ((a, b, va), (b, a, vb)):
            if isinstance(t, TPh) and not isinstance(x, TPh) and y is not None:
                p = to_ph(y)
                if p is not None and p.s == t.s:
                    return t
        if ra == 3 or rb == 3:
            return TCx
        return a if ra > rb else b
    if isinstance(a, TTup) and isinstance(b, TTup) and len(a.ts) == len(b.ts):
        return TTup(*[join(x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, TOpt) and isinstance(b, TOpt):
        return TOpt(join(a.t, b.t))
    if isinstance(a, TOpt):
        return TOpt(join(a.t, b))
    if isinstance(b, TOpt):
        return TOpt(join(a, b.t))
    raise Unsupported('values of shapes {} and {} do not join'.format(a, b))


def join_all(ss):
    r = ss[0]
    for s in ss[1:]:
        r = join(r, s)
    return r


# ------------------------------------------------------------------- complex numbers
_UNITS = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}


def to_ph(v):
    if isinstance(v, Ph):
        return v
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        if v > 0:
            return Ph(0, float(v))
        if v < 0:
            return Ph(2, float(-v))
        return None
    if isinstance(v, complex):
        if v.imag == 0:
            return to_ph(v.real)
        if v.real == 0:
            return Ph(1, v.imag) if v.imag > 0 else Ph(3, -v.imag)
    return None


def pick(k, vals):
    """vals[k mod 4] for an integer (term) k."""
    if not is_z(k):
        return vals[k % 4]
    m = k % 4
    return z3.If(m == 0, rv(vals[0]), z3.If(m == 1, rv(vals[1]), z3.If(m == 2, rv(vals[2]), rv(vals[3]))))


def to_cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, complex):
        return Cx(v.real, v.imag)
    if isinstance(v, Ph):
        s = v.s
        return Cx(pick(v.k, [s, 0, -s, 0]), pick(v.k, [0, s, 0, -s]))
    if is_int(v) or is_real(v) or is_bool(v):
        return Cx(v if not is_z(v) else rv(v), 0)
    raise Unsupported('not a number: {!r}'.format(v))


def z0(x):
    return not is_z(x) and x == 0


def radd(a, b):
    if z0(a):
        return b
    if z0(b):
        return a
    if not is_z(a) and not is_z(b):
        return a + b
    return rv(a) + rv(b)


def rneg(a):
    return -a if not is_z(a) else -rv(a)


def rsub(a, b):
    return radd(a, rneg(b)) if not is_z(a) or not is_z(b) else rv(a) - rv(b)


def rmul(a, b):
    if z0(a) or z0(b):
        return 0
    if not is_z(a) and a == 1:
        return b
    if not is_z(b) and b == 1:
        return a
    if not is_z(a) and not is_z(b):
        return a * b
    return rv(a) * rv(b)


def cmul(a, b):
    a, b = to_cx(a), to_cx(b)
    return Cx(rsub(rmul(a.re, b.re), rmul(a.im, b.im)), radd(rmul(a.re, b.im), rmul(a.im, b.re)))


def cadd(a, b):
    a, b = to_cx(a), to_cx(b)
    return Cx(radd(a.re, b.re), radd(a.im, b.im))


def cneg(a):
    a = to_cx(a)
    return Cx(rneg(a.re), rneg(a.im))


def conj(v):
    if isinstance(v, Ph):
        return Ph(-v.k, v.s)
    if isinstance(v, complex):
        return v.conjugate()
    if isinstance(v, Cx):
        return Cx(v.re, rneg(v.im))
    return v


# ---------------------------------------------------------------------- heap objects
class HeapObj(object):
    serial = -1


class Lst(HeapObj):
    """List or one-dimensional array: known items, or (length, arrays)."""

    def __init__(self):
        self.items = None
        self.shape = None
        self.n = None
        self.arrs = None
        self.np = False
        self.frozen = False

    @staticmethod
    def of(items, np=False):
        l = Lst()
        l.items = list(items)
        l.np = np
        return l

    @staticmethod
    def sym(shape, n, arrs=None, np=False, name='a', frozen=False):
        l = Lst()
        l.shape = shape
        l.n = n
        l.arrs = arrs if arrs is not None else [fresh(z3.ArraySort(I, s), name) for s in shape.sorts]
        l.np = np
        l.frozen = frozen
        return l

    @property
    def conc(self):
        return self.items is not None

    def length(self):
        return len(self.items) if self.conc else self.n

    def get(self, i):
        """Element at a term index (no bounds check)."""
        if self.conc:
            if not is_z(i):
                return self.items[i]
            return self.as_sym().get(i)
        return self.shape.mk([z3.Select(a, iv(i)) for a in self.arrs])

    def as_sym(self, shape=None):
        if not self.conc:
            if shape is None or shape == self.shape:
                return self
            l = Lst()
            l.n, l.np = self.n, self.np
            l.shape = shape
            if shape == TCx and self.shape in (TReal, TInt):
                raise Unsupported('widening of a symbolic list')
            raise Unsupported('list of shape {} used as {}'.format(self.shape, shape))
        if shape is None:
            shape = join_all([shape_of(x) for x in self.items]) if self.items else TInt
        l = Lst()
        l.shape, l.np = shape, self.np
        l.n = len(self.items)
        l.arrs = [fresh(z3.ArraySort(I, s), 'c') for s in shape.sorts]
        for i, x in enumerate(self.items):
            l.arrs = [z3.Store(a, i, t) for a, t in zip(l.arrs, shape.un(x))]
        return l

    def copy(self):
        l = Lst()
        l.items = None if self.items is None else list(self.items)
        l.shape, l.n, l.np = self.shape, self.n, self.np
        l.arrs = None if self.arrs is None else list(self.arrs)
        for a in ('src', 'dst', 'kept', 'nsrc'):
            if hasattr(self, a):
                setattr(l, a, getattr(self, a))
        return l

    def assign(self, o):
        self.items = None if o.items is None else list(o.items)
        self.shape, self.n = o.shape, o.n
        self.arrs = None if o.arrs is None else list(o.arrs)


class SSet(HeapObj):
    """A set: membership array over the terms of the key shape."""

    def __init__(self, shape, mem=None, name='set'):
        self.shape = shape
        self.mem = mem if mem is not None else fresh(z3.ArraySort(*(list(shape.sorts) + [B])), name)

    def has(self, v):
        return z3.Select(self.mem, *self.shape.un(v))

    def copy(self):
        return SSet(self.shape, self.mem)


class CSet(HeapObj):
    """A set with known elements."""

    def __init__(self, items=()):
        self.items = list(items)


class SDict(HeapObj):
    """An insertion-ordered dictionary with unknown contents.

    n keys, keys[i] the i-th key, idx[k] its position or a negative number, vals[k] the
    values. The well-formedness formula wf() is an invariant of every operation."""

    def __init__(self, kshape, vshape, name='d'):
        self.kshape, self.vshape = kshape, vshape
        self.n = fresh(I, name + '_n')
        self.keys = [fresh(z3.ArraySort(I, s), name + '_k') for s in kshape.sorts]
        self.idx = fresh(z3.ArraySort(*(list(kshape.sorts) + [I])), name + '_i')
        self.vals = [fresh(z3.ArraySort(*(list(kshape.sorts) + [s])), name + '_v') for s in vshape.sorts]

    @staticmethod
    def empty(kshape, vshape):
        d = SDict(kshape, vshape)
        d.n = z3.IntVal(0)
        return d

    def empty_facts(self):
        ks = [z3.FreshConst(s, 'k') for s in self.kshape.sorts]
        sel = z3.Select(self.idx, *ks)
        return [z3.ForAll(ks, sel < 0, patterns=[sel])]

    def wf(self):
        i = z3.FreshConst(I, 'i')
        ks = [z3.FreshConst(s, 'k') for s in self.kshape.sorts]
        sel = z3.Select(self.idx, *ks)
        ki = [z3.Select(a, i) for a in self.keys]
        kat = [z3.Select(a, sel) for a in self.keys]
        return [self.n >= 0,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.Select(self.idx, *ki) == i), patterns=[ki[0]] if len(ki) == 1 else [z3.MultiPattern(*ki)]),
                z3.ForAll(ks, z3.Implies(sel >= 0, z3.And([sel < self.n] + [a == b for a, b in zip(kat, ks)])), patterns=[sel])]

    def has(self, k):
        return z3.Select(self.idx, *self.kshape.un(k)) >= 0

    def get(self, k):
        return self.vshape.mk([z3.Select(a, *self.kshape.un(k)) for a in self.vals])

    def put(self, k, v):
        """Set under the assumption that membership of k has been decided by the caller."""
        kt = self.kshape.un(k)
        self.vals = [z3.Store(a, *(kt + [t])) for a, t in zip(self.vals, self.vshape.un(v))]

    def insert(self, k, v):
        kt = self.kshape.un(k)
        self.keys = [z3.Store(a, self.n, t) for a, t in zip(self.keys, kt)]
        self.idx = z3.Store(self.idx, *(kt + [iv(self.n)]))
        self.n = self.n + 1
        self.put(k, v)

    def copy(self):
        d = SDict(self.kshape, self.vshape)
        d.n, d.keys, d.idx, d.vals = self.n, list(self.keys), self.idx, list(self.vals)
        return d

    def assign(self, d):
        self.n, self.keys, self.idx, self.vals = d.n, list(d.keys), d.idx, list(d.vals)


class CDict(HeapObj):
    """A dictionary with known keys (in order)."""

    def __init__(self, pairs=()):
        self.d = dict(pairs)


class Obj(HeapObj):
    def __init__(self, cls):
        self.cls = cls
        self.f = {}


class Mat(HeapObj):
    """A matrix: shape and an entry function."""

    def __init__(self, nr, nc, entry):
        self.nr, self.nc, self.entry = nr, nc, entry
        self.arrs = None

    def changing(self):
        # other matrices are read through this one (numpy would share or copy the data)
        if self.__dict__.get('derived'):
            raise Unsupported('change of a matrix that another one was made of')
        for nm in ('shape', 'col', 'sel', 'prod', 'coo', 'os', 'adj_of'):
            self.__dict__.pop(nm, None)

    def set_arrs(self, a, b):
        self.arrs = (a, b)
        self.entry = lambda p, q: Cx(a[iv(p)][iv(q)], b[iv(p)][iv(q)])

    def havoc(self, E):
        self.changing()
        self.set_arrs(*[fresh(x, 'hm') for x in TMat.sorts[2:]])


class Abst(HeapObj):
    """A mutable abstract object: its value is the term t."""

    def __init__(self, kind, t):
        self.kind, self.t, self.frozen = kind, t, False

    def copy(self):
        return Abst(self.kind, self.t)

    def __repr__(self):
        return 'Abst({}:{})'.format(self.t, self.kind)


class Fn(object):
    def __init__(self, node, mod, qual, closure=None):
        self.node, self.mod, self.qual, self.closure = node, mod, qual, closure


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls(object):
    def __init__(self, name, mod, methods):
        self.name, self.mod, self.methods = name, mod, methods

    def __repr__(self):
        return 'class ' + self.name


class Lib(object):
    """A name provided by Python or a library: resolved in the library table."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Lib({})'.format(self.path)


class Iter(object):
    """A sequence view: length and element function."""

    def __init__(self, n, get):
        self.n, self.get = n, get
