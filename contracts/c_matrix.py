"""Matrices as functions of the position: slices, products, stacking, and eigensolvers as
recorded calls (what they return is an assumed contract on the library)."""
import ast
import z3
from values import *
from values import TMat, mat_arrs, CUR, SHAPE_OF
from engine import PyExc
from spec import fa
import lib as L_
from lib import method
import c_structure
from c_structure import matmul, adjoint, _dims, AR, AAR
from c_operator import SPARSE_OF

CONTRACTS = []
ZERO = Cx(z3.RealVal(0), z3.RealVal(0))


def cpick(c, a, b):
    a, b = to_cx(a), to_cx(b)
    return Cx(z3.If(c, rv(a.re), rv(b.re)), z3.If(c, rv(a.im), rv(b.im)))


# -------------------------------------------------------------------------------- indexing
class Sel(object):
    """A selection of rows or columns: number and position of the k-th."""

    def __init__(self, n, at, src=None):
        self.n, self.at, self.src = n, at, src


def selection(E, n, i, node):
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported('slice of a matrix')
        a, b = L_.slice_bounds(E, n, i)
        d = iv(b) - iv(a)
        m = z3.simplify(d) if E.valid(d >= 0) else z3.If(d >= 0, d, z3.IntVal(0))
        full = not is_z(a) and a == 0 and i.stop is None
        return Sel(iv(n) if full else m, lambda k: iv(k) + iv(a), 'all' if full else None)
    if isinstance(i, Lst):
        l = i.as_sym(TInt) if i.conc else i
        if l.shape != TInt:
            raise Unsupported('selection by {!r}'.format(l.shape))
        m = iv(l.n)
        E.oblige('selected rows and columns exist', fa(m, lambda k: z3.And(l.arrs[0][k] >= -iv(n), l.arrs[0][k] < iv(n)), lambda k: l.arrs[0][k]), node)
        return Sel(m, lambda k: z3.If(l.arrs[0][iv(k)] < 0, l.arrs[0][iv(k)] + iv(n), l.arrs[0][iv(k)]), i)
    return None


def _mat_item(E, o, i, node):
    if not isinstance(o, Mat):
        return NotImplemented
    if not (isinstance(i, tuple) and len(i) == 2):
        raise Unsupported('index of a matrix')
    r, c = i
    if is_int(r) and is_int(c):
        r, c = L_.norm_index(E, o.nr, r, node), L_.norm_index(E, o.nc, c, node)
        return o.entry(iv(r), iv(c))
    if is_int(r):
        j = L_.norm_index(E, o.nr, r, node)
        s = selection(E, o.nc, c, node)
        return L_.map_term(E, s.n, lambda k: o.entry(iv(j), s.at(k)), True)
    if is_int(c):
        j = L_.norm_index(E, o.nc, c, node)
        s = selection(E, o.nr, r, node)
        return L_.map_term(E, s.n, lambda k: o.entry(s.at(k), iv(j)), True)
    sr, sc = selection(E, o.nr, r, node), selection(E, o.nc, c, node)
    if isinstance(r, Lst) and isinstance(c, Lst):
        raise Unsupported('element-wise selection')
    o.derived = True
    m = E.new(Mat(sr.n, sc.n, lambda a, b: o.entry(sr.at(a), sc.at(b))))
    m.sel = (o, sr, sc)
    return m


L_.GETITEM.append(_mat_item)


def _mat_set(E, o, i, v, node):
    if not isinstance(o, Mat):
        return NotImplemented
    if isinstance(i, tuple) and len(i) == 2 and is_int(i[0]) and is_int(i[1]):
        r, c = L_.norm_index(E, o.nr, i[0], node), L_.norm_index(E, o.nc, i[1], node)
        E.touch(o)
        v = to_cx(v)
        a, b = mat_arrs(o)
        o.changing()
        r, c = iv(r), iv(c)
        o.set_arrs(z3.Store(a, r, z3.Store(a[r], c, rv(v.re))), z3.Store(b, r, z3.Store(b[r], c, rv(v.im))))
        return None
    raise Unsupported('assignment to a part of a matrix')


L_.SETITEM.append(_mat_set)


# ------------------------------------------------------------------------- building matrices
def _zeros2(E, shp, dt, v, node):
    if isinstance(shp, tuple) and len(shp) == 2:
        x = Cx(z3.RealVal(v), z3.RealVal(0))
        return E.new(Mat(iv(shp[0]), iv(shp[1]), lambda r, c: x))
    return NotImplemented


L_.NP_ZEROS.append(_zeros2)


def _eye(E, args, kw, node):
    n = args[0]
    if not is_int(n) or len(args) > 1:
        raise Unsupported('identity matrix')
    return E.new(Mat(iv(n), iv(n), lambda r, c: Cx(z3.If(iv(r) == iv(c), z3.RealVal(1), z3.RealVal(0)), z3.RealVal(0))))


L_.LIB['scipy.sparse.eye'] = L_.LIB['numpy.eye'] = L_.LIB['numpy.identity'] = L_.LIB['scipy.sparse.identity'] = _eye


def _sparse_of_mat(E, args, kw, node):
    return args[0] if isinstance(args[0], Mat) else NotImplemented


SPARSE_OF.append(_sparse_of_mat)


def _np_dot(E, args, kw, node):
    a, b = args
    if isinstance(a, Mat) and isinstance(b, Mat):
        return matmul(E, a, b, node)
    return NotImplemented


L_.DOT.append(_np_dot)


def transpose(E, o):
    o.derived = True
    return E.new(Mat(o.nc, o.nr, lambda r, c: o.entry(c, r)))


def _conj(E, args, kw, node, old=L_.LIB['numpy.conj']):
    if isinstance(args[0], Mat):
        o = args[0]
        o.derived = True
        return E.new(Mat(o.nr, o.nc, lambda r, c: conj(to_cx(o.entry(r, c)))))
    return old(E, args, kw, node)


L_.LIB['numpy.conj'] = L_.LIB['numpy.conjugate'] = _conj
L_.LIB['numpy.transpose'] = lambda E, args, kw, node: transpose(E, args[0])


def diagonal(E, o):
    o.derived = True
    l = L_.map_term(E, iv(o.nr), lambda k: o.entry(k, k), True)
    l.diag_of = o
    return l


TRACE = []


def trace(E, o):
    for h in TRACE:
        r = h(E, o)
        if r is not NotImplemented:
            return r
    raise Unsupported('trace')


def _sum_diag(E, args, kw, node, old=L_.LIB['numpy.sum']):
    if getattr(args[0], 'diag_of', None) is not None:
        return trace(E, args[0].diag_of)
    return old(E, args, kw, node)


L_.LIB['numpy.sum'] = L_.LIB['builtins.sum'] = _sum_diag
L_.LIB['numpy.trace'] = lambda E, args, kw, node: trace(E, args[0]) if isinstance(args[0], Mat) else _no_trace()


def _no_trace():
    raise Unsupported('trace')


def _lst_attr(E, o, attr, node):
    if attr == 'sum' and isinstance(o, Lst) and getattr(o, 'diag_of', None) is not None:
        return Bound(method(lambda E, o, node=None: trace(E, o.diag_of)), o)
    return NotImplemented


L_.GETATTR.append(_lst_attr)


def _attr(E, o, attr, node):
    if not isinstance(o, Mat):
        return NotImplemented
    if attr == 'T':
        return transpose(E, o)
    if attr in ('real', 'imag'):
        o.derived = True
        return E.new(Mat(o.nr, o.nc, lambda r, c: Cx(rv(getattr(to_cx(o.entry(r, c)), attr[:2])), z3.RealVal(0))))
    if attr == 'transpose':
        return Bound(method(lambda E, o, node=None: transpose(E, o)), o)
    if attr in ('conj', 'conjugate'):
        return Bound(method(lambda E, o, node=None: _conj(E, [o], {}, node)), o)
    if attr == 'diagonal':
        return Bound(method(lambda E, o, node=None: diagonal(E, o)), o)
    if attr == 'trace':
        return Bound(method(lambda E, o, node=None: trace(E, o)), o)
    return NotImplemented


L_.GETATTR.append(_attr)


def _hstack(E, args, kw, node):
    l = args[0]
    if isinstance(l, tuple):
        l = Lst.of(list(l))
    if not isinstance(l, Lst):
        raise Unsupported('hstack of {!r}'.format(l))
    if l.conc and len(l.items) == 2 and all(isinstance(x, Mat) for x in l.items):
        a, b = l.items
        a.derived = b.derived = True
        _dims(E, iv(a.nr) == iv(b.nr), node)
        return E.new(Mat(a.nr, z3.simplify(iv(a.nc) + iv(b.nc)), lambda r, c: cpick(iv(c) < iv(a.nc), a.entry(r, c), b.entry(r, iv(c) - iv(a.nc)))))
    for h in HSTACK:
        r = h(E, l, node)
        if r is not NotImplemented:
            return r
    raise Unsupported('hstack')


HSTACK = []
L_.LIB['scipy.sparse.hstack'] = L_.LIB['numpy.hstack'] = _hstack


# --------------------------------------------------------------------------- eigensolvers
class Eig(object):
    """One call of an eigensolver: its arguments and what it returned."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def eigensolver(which):
    """Assumed contract: eigenvalues (in no assumed order for the iterative solver) and a matrix
    whose k-th column belongs to the k-th eigenvalue of the Hermitian matrix that is given."""
    def call(E, args, kw, node):
        A = args[0]
        if not isinstance(A, Mat):
            raise Unsupported('{} of {!r}'.format(which, A))
        _dims(E, iv(A.nr) == iv(A.nc), node)
        n = iv(A.nr)
        A.derived = True
        k = None
        if which in ('eigsh', 'eigs'):
            k = kw.get('k', args[1] if len(args) > 1 else 6)
            n = iv(k)
        elif len(args) > 1:
            kw = dict(kw, M=args[1])
        sh = TReal if which in ('eigh', 'eigsh') else TCx
        w = E.new(Lst.sym(sh, n, np=True, name='evals'))
        V = TMat.mk([iv(A.nr), n, fresh(AAR, 'evec_re'), fresh(AAR, 'evec_im')])
        V.frozen = False
        V = E.new(V)
        if kw.get('lower', True) is not True or kw.get('UPLO', 'L') != 'L':
            raise Unsupported('eigensolver options')
        E.ghost.setdefault('eig', []).append(Eig(which=which, A=A, M=kw.get('M', kw.get('b')), k=k, sigma=kw.get('sigma'), order=kw.get('which'), w=w, V=V, kw=kw))
        return (w, V)
    return call


for nm in ('numpy.linalg.eigh', 'scipy.linalg.eigh'):
    L_.LIB[nm] = eigensolver('eigh')
L_.LIB['numpy.linalg.eig'] = eigensolver('eig')
L_.LIB['scipy.sparse.linalg.eigsh'] = eigensolver('eigsh')
L_.LIB['scipy.sparse.linalg.eigs'] = eigensolver('eigs')


# -------------------------------------------------------------------------- pseudo-inverse
def _pinv(E, args, kw, node):
    """Assumed contract: the Moore-Penrose pseudo-inverse."""
    A = args[0]
    if not isinstance(A, Mat) or len(args) > 1 or kw:
        raise Unsupported('pinv')
    A.derived = True
    X = TMat.mk([iv(A.nc), iv(A.nr), fresh(AAR, 'pinv_re'), fresh(AAR, 'pinv_im')])
    X.frozen = False
    X = E.new(X)
    E.ghost.setdefault('pinv', []).append((A, X))
    return X


L_.LIB['numpy.linalg.pinv'] = L_.LIB['scipy.linalg.pinv'] = _pinv


def chain(m):
    """The factors of a product of matrices (it does not depend on the bracketing)."""
    p = getattr(m, 'prod', None)
    return [m] if p is None else chain(p[0]) + chain(p[1])
