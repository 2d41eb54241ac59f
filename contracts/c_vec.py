"""Real vectors as abstract mutable objects: VC(v, c) is the component c of the vector v.

A vector has VDIM (= the number of spatial dimensions) components; equality is equality of
all components. Switched on per function through E.ghost['vec'] = dimension term.
"""
import ast
import z3
from values import *
from spec import fa, forall, mention
import lib

CONTRACTS = []
TVec = TAbs('Vec')
SV = TVec.sorts[0]
VC = z3.Function('component', SV, I, R)
VDIFF = z3.Function('differing_component', SV, SV, I)
VNAME = z3.Function('array2string', SV, I, I)       # the text of a vector at a precision, in fixed notation
VNAME_EXP = z3.Function('array2string (fixed or scientific)', SV, I, I)  # the same left to numpy's choice of notation
VNORM = z3.Function('norm', SV, R)


def on(E):
    return E.ghost.get('vec')


def start(E, dim):
    """Vectors of the given dimension are in use in this function."""
    E.ghost['vec'] = dim


def ext(E, u, v):
    """Extensionality of two vectors."""
    d = VDIFF(u, v)
    return z3.Implies(z3.Or(d < 0, d >= on(E), VC(u, d) == VC(v, d)), u == v)


def vector(E, comp, name='vec'):
    """A new vector with the given component function."""
    t = fresh(SV, name)
    c = z3.FreshConst(I, 'c')
    E.assume(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < on(E)), VC(t, c) == comp(c)), patterns=[VC(t, c)]))
    return E.new(Abst('Vec', t))


def is_vec(x):
    return isinstance(x, Abst) and x.kind == 'Vec'


def _binop(E, op, a, b, node):
    if not (is_vec(a) or is_vec(b)):
        return NotImplemented
    t = type(op).__name__
    if is_vec(a) and is_vec(b):
        if t == 'Add':
            return vector(E, lambda c: VC(a.t, c) + VC(b.t, c))
        if t == 'Sub':
            return vector(E, lambda c: VC(a.t, c) - VC(b.t, c))
    v, s = (a, b) if is_vec(a) else (b, a)
    if is_vec(v) and lib.num(s) and not isinstance(s, (complex, Cx)):
        if t == 'Mult':
            return vector(E, lambda c: rmul(rv(s), VC(v.t, c)))
        if t == 'Div' and is_vec(a) and not is_z(s):
            return vector(E, lambda c: VC(v.t, c) / rv(s))
        if t == 'Add':
            return vector(E, lambda c: VC(v.t, c) + rv(s))
    raise Unsupported('operator {} on vectors'.format(t))


lib.BINOPS.append(_binop)


def _zeros(E, shp, dt, v, node):
    if on(E) is None or dt != 'float' or isinstance(shp, tuple):
        return NotImplemented
    if not E.valid(iv(shp) == on(E)):
        return NotImplemented
    return vector(E, lambda c: z3.RealVal(v), 'zero')


lib.NP_ZEROS.append(_zeros)


def _array(E, v, dt, node):
    if is_vec(v):
        return E.new(Abst('Vec', v.t))
    if on(E) is not None and isinstance(v, Lst) and dt in (None, 'float'):
        if v.conc and v.items and all(lib.num(x) and not isinstance(x, bool) for x in v.items):
            if not E.valid(on(E) == len(v.items)):
                return NotImplemented
            its = [rv(x) for x in v.items]

            def comp(c):
                out = its[-1]
                for i, x in reversed(list(enumerate(its[:-1]))):
                    out = z3.If(c == i, x, out)
                return out
            return vector(E, comp)
        if not v.conc and v.shape == TReal and E.valid(iv(v.n) == on(E)):
            a = v.arrs[0]
            return vector(E, lambda c: a[c])
    return NotImplemented


lib.NP_ARRAY.append(_array)


def _getattr(E, o, attr, node):
    if not is_vec(o):
        return NotImplemented
    if attr in ('flatten', 'copy', 'ravel'):
        return Bound(lib.method(lambda E, o, node=None: E.new(Abst('Vec', o.t))), o)
    if attr in ('size',):
        return on(E)
    raise Unsupported('attribute {} of a vector'.format(attr))


lib.GETATTR.append(_getattr)


def _item(E, o, i, node):
    if not is_vec(o) or not is_int(i):
        return NotImplemented
    j = lib.norm_index(E, on(E), i, node)
    return VC(o.t, iv(j))


def _setitem(E, o, i, v, node):
    if not is_vec(o) or not is_int(i):
        return NotImplemented
    j = lib.norm_index(E, on(E), i, node)
    old = o.t
    new = vector(E, lambda c: z3.If(c == iv(j), rv(v), VC(old, c)))
    E.touch(o)
    o.t = new.t
    return None


lib.GETITEM.append(_item)
lib.SETITEM.append(_setitem)


def _len(E, v, node):
    return on(E) if is_vec(v) else NotImplemented


lib.LEN.append(_len)


def iterate(E, v):
    t = v.t
    return Iter(on(E), lambda i: VC(t, iv(i)))


lib.ABST_ITER['Vec'] = iterate


@lib.lib('numpy.array2string')
def _a2s(E, args, kw, node):
    v = args[0]
    p = kw.get('precision')
    # suppress_small: fixed notation whatever the spread of the magnitudes
    if not is_vec(v) or p is None or set(kw) - {'precision', 'suppress_small'} \
            or not (kw.get('suppress_small', False) is True or kw.get('suppress_small', False) is False):
        raise Unsupported('array2string')
    t = (VNAME if kw.get('suppress_small', False) is True else VNAME_EXP)(v.t, iv(p))
    for u in E.ghost.setdefault('named', []):
        E.assume(ext(E, u, v.t))
    if E.ghost.get('expected_vector') is not None and E.views:
        E.assume(ext(E, E.ghost['expected_vector'](E.views[-1].i), v.t))
    E.ghost['named'].append(v.t)
    return SStr(t)


import c_operator
_list_norm = lib.LIB['numpy.linalg.norm']


def _norm(E, args, kw, node):
    if is_vec(args[0]) and len(args) == 1 and not kw:
        return VNORM(args[0].t)
    return _list_norm(E, args, kw, node)


lib.LIB['numpy.linalg.norm'] = _norm


@lib.lib('itertools.product')
def _product(E, args, kw, node):
    """product(*ranges): all tuples of positions, each once, in lexicographic order."""
    r = args[0] if len(args) == 1 else None
    if not isinstance(r, Iter) or kw:
        raise Unsupported('itertools.product')
    d = iv(r.n)
    l = E.new(Lst.sym(TLst(TInt), fresh(I, 'ntuples'), name='tuples'))
    ln, el = l.arrs
    k, v, m = (z3.FreshConst(I, x) for x in 'kvm')
    stop = lambda v: iv(r.get(v).stop)
    E.assume(l.n >= 0, 'itertools.product of ranges yields every tuple of numbers in these ranges, each once, in lexicographic order')
    e = el[k][v]
    E.assume(fa(l.n, lambda k: ln[k] == d, lambda k: ln[k]))
    E.assume(z3.ForAll([k, v], z3.Implies(z3.And(0 <= k, k < l.n, 0 <= v, v < d), z3.And(0 <= e, e < stop(v))), patterns=[e]))
    # lexicographic order: the first difference of two tuples
    fd = z3.Function('first_difference!{}'.format(l.serial), I, I, I)
    x = fd(k, m)
    E.assume(z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < l.n), z3.And(0 <= x, x < d, el[k][x] < el[m][x], z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < x), el[k][v] == el[m][v])))), patterns=[x]))
    q = E.ghost.get('any_tuple')
    if q is not None:
        at = fresh(I, 'at')
        E.assume(z3.Implies(fa(d, lambda v: z3.And(0 <= q[v], q[v] < stop(v)), lambda v: q[v]), z3.And(0 <= at, at < l.n, fa(d, lambda v: el[at][v] == q[v], lambda v: q[v]))))
        E.ghost['any_tuple_at'] = at
    E.ghost['tuples'] = (l.n, ln, el, fd)
    return l
