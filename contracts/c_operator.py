"""Contracts of the class Operator in qosy/basis.py (C05)."""
import ast
import z3
from values import *
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall
import lib
from c_basis import new_basis, basis_inv, contents, unchanged, well_formed, oslist, new_os, SOS, TOS, sym_basis

CONTRACTS = []
AR = z3.ArraySort(I, R)
AI = z3.ArraySort(I, I)


def contract(c):
    CONTRACTS.append(c())
    return c


# op_type of an opaque operator string
OPTYPE = z3.Function('op_type', SOS, I)


def _os_attr(E, o, attr, node):
    if attr == 'op_type':
        return SStr(OPTYPE(o.t))
    raise Unsupported('attribute {} of an operator string'.format(attr))


lib.OPQ_ATTR['OS'] = _os_attr


# ------------------------------------------------------------------------ sparse matrices
# COO(rows, cols, data, n; r, c): the entry at (r, c) of a matrix given by triplets
COO = Fold('COO', [AI, AI, AR, AR], [I, I],
           lambda a, k, p: (z3.If(z3.And(a[0][k] == p[0], a[1][k] == p[1]), a[2][k], z3.RealVal(0)), z3.If(z3.And(a[0][k] == p[0], a[1][k] == p[1]), a[3][k], z3.RealVal(0))), out='cx')
L_COO_NONE = Lemma('an entry without triplets is zero', [AI, AI, AR, AR, I, I],
                   lambda n, ro, co, dr, di, r, c: ([fa(n, lambda k: z3.Not(z3.And(ro[k] == r, co[k] == c)), lambda k: [ro[k], co[k]])],
                                                    z3.And(COO([ro, co, dr, di], n, [r, c]).re == 0, COO([ro, co, dr, di], n, [r, c]).im == 0)),
                   force=lambda n, ro, co, dr, di, r, c: [(COO, (ro, co, dr, di), n, (r, c))])
L_COO_ONE = Lemma('an entry with one triplet is its value', [AI, AI, AR, AR, I, I, I],
                  lambda n, ro, co, dr, di, r, c, k0: ([0 <= k0, k0 < n, ro[k0] == r, co[k0] == c, fa(n, lambda k: z3.Implies(k != k0, z3.Not(z3.And(ro[k] == r, co[k] == c))), lambda k: [ro[k], co[k]])],
                                                       z3.And(COO([ro, co, dr, di], n, [r, c]).re == dr[k0], COO([ro, co, dr, di], n, [r, c]).im == di[k0])),
                  uses=lambda n, ro, co, dr, di, r, c, k0: [L_COO_NONE.inst(n - 1, ro, co, dr, di, r, c)],
                  force=lambda n, ro, co, dr, di, r, c, k0: [(COO, (ro, co, dr, di), n, (r, c))])


def coo_matrix(E, args, kw, node):
    """scipy.sparse.c{sr,sc,oo}_matrix((data, (rows, cols)), shape=(nr, nc)): repeated positions are summed."""
    v = args[0]
    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple)):
        for h in SPARSE_OF:
            r = h(E, args, kw, node)
            if r is not NotImplemented:
                return r
        raise Unsupported('sparse matrix of {!r}'.format(v))
    data, (rows, cols) = v
    shp = kw.get('shape') or args[1]
    ls = []
    for x, sh in ((data, TCx), (rows, TInt), (cols, TInt)):
        if isinstance(x, (list, tuple)):
            x = Lst.of(x)
        if x.conc:
            x = x.as_sym(sh)
        elif x.shape != sh:
            x = lib.map_term(E, x.n, lambda k, x=x: to_cx(x.get(k)) if sh == TCx else x.get(k))
        ls.append(x)
    data, rows, cols = ls
    n = iv(data.n)
    if not E.valid(z3.And(iv(rows.n) == n, iv(cols.n) == n)):
        if not E.branch(z3.And(iv(rows.n) == n, iv(cols.n) == n)):
            raise PyExc('ValueError', 'triplets')
    nr, nc = iv(shp[0]), iv(shp[1])
    ok = fa(n, lambda k: z3.And(0 <= rows.get(k), rows.get(k) < nr, 0 <= cols.get(k), cols.get(k) < nc), lambda k: [rows.arrs[0][k], cols.arrs[0][k]])
    E.oblige('row and column indices of a sparse matrix are in range', ok, node)
    arrs = [rows.arrs[0], cols.arrs[0], data.arrs[0], data.arrs[1]]
    m = E.new(Mat(nr, nc, lambda r, c: COO(arrs, n, [iv(r), iv(c)])))
    m.coo = (arrs, n)
    return m


SPARSE_OF = []
for nm in ('csr_matrix', 'csc_matrix', 'coo_matrix'):
    lib.LIB['scipy.sparse.' + nm] = coo_matrix

# sum of the squared magnitudes; the Euclidean norm
NSQ = Fold('NSQ', [AR, AR], [], lambda a, k, p: a[0][k] * a[0][k] + a[1][k] * a[1][k], out='real')
NORMORD = z3.Function('norm_ord', I, AR, AR, I, R)


def _norm(E, args, kw, node):
    v = args[0]
    o = kw.get('ord', args[1] if len(args) > 1 else None)
    if not isinstance(v, Lst):
        raise Unsupported('norm of {!r}'.format(v))
    s = v.as_sym(TCx) if v.conc else v
    if s.shape == TReal:
        s = lib.map_term(E, s.n, lambda k: to_cx(s.get(k)))
    if s.shape != TCx:
        raise Unsupported('norm')
    if o is None or not is_z(o) and o == 2:
        return lib.sqrt_term(E, NSQ(s.arrs, iv(s.n)))
    r = NORMORD(iv(o), s.arrs[0], s.arrs[1], iv(s.n))
    E.assume(r >= 0, 'np.linalg.norm(v, ord) is a function of the entries and not negative')
    return r


lib.LIB['numpy.linalg.norm'] = _norm


# --------------------------------------------------------------------------- operators
def new_operator(E, name='op', op_type=None):
    """An operator satisfying its class invariant."""
    cls = E.repo.mod('basis')['Operator']
    o = E.new(Obj(cls))
    b = new_basis(E, name + 'b')
    n = b.f['op_strings'].n
    o.f['_basis'] = b
    o.f['coeffs'] = E.new(Lst.sym(TCx, n, np=True, name=name + '_c'))
    o.f['op_type'] = SStr(fresh(I, name + '_type')) if op_type is None else op_type
    arr = b.f['op_strings'].arrs[0]
    E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), OPTYPE(arr[k]) == sv(o.f['op_type'])), lambda k: arr[k]))
    return o


def op_snap(o):
    """Abstract value: (n, strings, index, re, im, op_type)."""
    b = o.f['_basis']
    c = o.f['coeffs']
    return contents(b) + tuple(c.arrs) + (sv(o.f['op_type']),)


def coef(snap, s):
    """Coefficient of the string s (0 if it does not occur)."""
    n, arr, idx, re, im, t = snap
    p = z3.Select(idx, s)
    return Cx(z3.If(p >= 0, re[p], z3.RealVal(0)), z3.If(p >= 0, im[p], z3.RealVal(0)))


def snap_of(o):
    """op_snap of a result object (possibly with known, empty contents)."""
    b, c = o.f['_basis'], o.f['coeffs']
    l, d = b.f['op_strings'], b.f['_indices']
    if isinstance(d, CDict):
        return (z3.IntVal(0), fresh(z3.ArraySort(I, SOS), 'e'), z3.K(SOS, z3.IntVal(-1)), fresh(AR, 'e'), fresh(AR, 'e'), sv(o.f['op_type']))
    c = c.as_sym(TCx)
    return (iv(l.n), l.arrs[0], d.idx, c.arrs[0], c.arrs[1], sv(o.f['op_type']))


def op_wf(o):
    """Class invariant of Operator."""
    b, c = o.f['_basis'], o.f['coeffs']
    l, d = b.f['op_strings'], b.f['_indices']
    t = sv(o.f['op_type'])
    out = well_formed(b)
    if isinstance(d, CDict):
        return out + [('one coefficient per string', iv(c.length()) == 0)]
    return out + [('one coefficient per string', iv(c.length()) == iv(l.n)), ('the strings have the type of the operator', fa(iv(l.n), lambda k: OPTYPE(l.arrs[0][k]) == t))]


def op_unchanged(o, snap):
    n, arr, idx, re, im, t = snap
    c = o.f['coeffs'].as_sym(TCx)
    return z3.And(unchanged(o.f['_basis'], snap[:3]), iv(c.n) == n, fa(n, lambda k: z3.And(c.arrs[0][k] == re[k], c.arrs[1][k] == im[k])), sv(o.f['op_type']) == t)


def cx_eq(a, b):
    a, b = to_cx(a), to_cx(b)
    return z3.And(rv(a.re) == rv(b.re), rv(a.im) == rv(b.im))


def per_string(rs, f):
    """For every string the coefficient of the result is f(string)."""
    s = z3.FreshConst(SOS, 's')
    return z3.ForAll([s], cx_eq(coef(rs, s), f(s)))


def new_cx(E, name='z'):
    return Cx(fresh(R, name + '_re'), fresh(R, name + '_im'))


@contract
class OpInit(Contract):
    """Operator(coeffs, strings): an independent copy of the coefficients; one term per string."""
    mod, qual, props = 'basis', 'Operator.__init__', ['C05', 'C02']
    cases = ['list', 'basis', 'empty', 'empty untyped', 'other']
    only_raises = 1

    def setup(self, E, case):
        o = E.new(Obj(E.repo.mod('basis')['Operator']))
        c = Ctx([], self_=o, o=o, case=case, co=None, l=None, b=None)
        if case in ('list', 'basis', 'other'):
            c.co = E.new(Lst.sym(TCx, fresh(I, 'nc'), np=False, name='co'))
            E.assume(c.co.n >= 0)
            c.re, c.im = c.co.arrs
        if case == 'list':
            c.l = oslist(E, 'l')
            c.arr, c.n = c.l.arrs[0], c.l.n
            E.assume(c.n >= 1)
        elif case == 'basis':
            c.b = new_basis(E)
            c.l = c.b.f['op_strings']
            c.arr, c.n = c.l.arrs[0], c.l.n
            E.assume(c.n >= 1)
        if c.l is not None:
            E.assume(c.co.n == c.n)
            E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < c.n), OPTYPE(c.arr[k]) == OPTYPE(c.arr[0])), lambda k: c.arr[k]))
        c.args = {'list': [c.co, c.l], 'basis': [c.co, c.b], 'empty': [None, None, 'Pauli'], 'empty untyped': [], 'other': [c.co, fresh(I, 'x')]}[case]
        return c

    def raises(self, E, c):
        a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
        rep = z3.Exists([a, b], z3.And(0 <= a, a < b, b < c.n, c.arr[a] == c.arr[b])) if c.case == 'list' else False
        return [('ValueError', z3.Or(bv(rep), z3.BoolVal(c.case in ('empty untyped', 'other'))))]

    def post(self, E, c, res):
        o = c.o
        out = op_wf(o)
        if c.case == 'empty':
            return out + [('type', sv(o.f['op_type']) == code('Pauli'))]
        co, l = o.f['coeffs'], o.f['_basis'].f['op_strings']
        out += [('the coefficients are copied', z3.And(z3.BoolVal(co is not c.co), fa(c.n, lambda k: z3.And(co.arrs[0][k] == c.re[k], co.arrs[1][k] == c.im[k])))),
                ('the strings in the given order', z3.And(iv(l.n) == c.n, fa(c.n, lambda k: l.arrs[0][k] == c.arr[k]))),
                ('type of the first string', sv(o.f['op_type']) == OPTYPE(c.arr[0])),
                ('the given coefficients are unchanged', z3.And(iv(c.co.n) == c.n, c.co.arrs[0] == c.re, c.co.arrs[1] == c.im))]
        if c.case == 'list':
            out.append(('the list of strings is not shared', z3.BoolVal(l is not c.l)))
        return out


class TwoOps(Contract):
    mod, props = 'basis', ['C05', 'C02']
    cases = ['two', 'itself']
    only_raises = 0

    def setup(self, E, case):
        a = new_operator(E, 'a')
        b = a if case == 'itself' else new_operator(E, 'b')
        return Ctx([b], self_=a, a=a, b=b, sa=op_snap(a), sb=op_snap(b), case=case)

    def raises(self, E, c):
        return [('ValueError', c.sa[5] != c.sb[5])]

    def exc_post(self, E, c, exc):
        return [('operands unchanged', z3.And(op_unchanged(c.a, c.sa), op_unchanged(c.b, c.sb)))]


class OutOfPlace(TwoOps):
    sgn = 1

    def post(self, E, c, res):
        rs = snap_of(res)
        shared = any(x is y for x in (res, res.f['coeffs'], res.f['_basis'], res.f['_basis'].f['op_strings'], res.f['_basis'].f['_indices'])
                     for o in (c.a, c.b) for y in (o, o.f['coeffs'], o.f['_basis'], o.f['_basis'].f['op_strings'], o.f['_basis'].f['_indices']))
        f = lambda s: cadd(coef(c.sa, s), coef(c.sb, s) if self.sgn == 1 else cneg(coef(c.sb, s)))
        return op_wf(res) + [('coefficients are added' if self.sgn == 1 else 'coefficients are subtracted', per_string(rs, f)),
                             ('nothing is shared with the operands', z3.BoolVal(not shared)), ('type', rs[5] == c.sa[5]),
                             ('operands unchanged', z3.And(op_unchanged(c.a, c.sa), op_unchanged(c.b, c.sb)))]


@contract
class OpAdd(OutOfPlace):
    qual = 'Operator.__add__'


@contract
class OpSub(OutOfPlace):
    qual, sgn = 'Operator.__sub__', -1


class InPlace(TwoOps):
    sgn = 1

    def post(self, E, c, res):
        rs = snap_of(res)
        f = lambda s: cadd(coef(c.sa, s), coef(c.sb, s) if self.sgn == 1 else cneg(coef(c.sb, s)))
        out = [('the left operand is returned', z3.BoolVal(res is c.a))] + op_wf(res)
        out += [('coefficients are added' if self.sgn == 1 else 'coefficients are subtracted', per_string(rs, f)), ('type', rs[5] == c.sa[5])]
        s = z3.FreshConst(SOS, 's')
        out.append(('the strings are those of both operands', z3.ForAll([s], (z3.Select(rs[2], s) >= 0) == z3.Or(z3.Select(c.sa[2], s) >= 0, z3.Select(c.sb[2], s) >= 0))))
        if c.case == 'two':
            out.append(('the right operand is unchanged', op_unchanged(c.b, c.sb)))
        return out


@contract
class OpIadd(InPlace):
    qual = 'Operator.__iadd__'


@contract
class OpIsub(InPlace):
    qual, sgn = 'Operator.__isub__', -1


class Scale(Contract):
    mod, props = 'basis', ['C05']

    def setup(self, E, case):
        a = new_operator(E, 'a')
        z = new_cx(E)
        return Ctx([z] if self.qual != 'Operator.__neg__' else [], self_=a, a=a, z=z, sa=op_snap(a))

    def post(self, E, c, res):
        rs = snap_of(res)
        f = lambda s: cmul(coef(c.sa, s), c.z) if self.qual != 'Operator.__neg__' else cneg(coef(c.sa, s))
        return op_wf(res) + [('every coefficient is multiplied', per_string(rs, f)), ('type', rs[5] == c.sa[5]),
                             ('nothing is shared with the operand', z3.BoolVal(res is not c.a and res.f['coeffs'] is not c.a.f['coeffs'] and res.f['_basis'] is not c.a.f['_basis'] and res.f['_basis'].f['op_strings'] is not c.a.f['_basis'].f['op_strings'])),
                             ('operand unchanged', op_unchanged(c.a, c.sa))]


    def applies(self, E, args, kw):
        return lib.num(args[1]) and isinstance(args[0], Obj) and not isinstance(args[0].f['_basis'].f['_indices'], CDict)

    def _stub(self, E, args, kw, node):
        a, z = args
        b, c = a.f['_basis'], a.f['coeffs']
        r = E.new(Obj(a.cls))
        nb = E.new(Obj(b.cls))
        nb.f['op_strings'] = E.new(b.f['op_strings'].copy())
        nb.f['_indices'] = E.new(b.f['_indices'].copy())
        r.f['_basis'], r.f['op_type'] = nb, a.f['op_type']
        r.f['coeffs'] = lib.map_term(E, iv(c.length()), lambda k: cmul(c.get(k), z), True)
        return r


for q in ('__mul__', '__rmul__', '__neg__'):
    contract(type('Op' + q, (Scale,), dict(qual='Operator.' + q, **({'stub': Scale._stub} if q != '__neg__' else {}))))


@contract
class OpRemoveZeros(Contract):
    """remove_zeros(tol): exactly the terms with |coefficient| > tol, in order."""
    mod, qual, props = 'basis', 'Operator.remove_zeros', ['C05', 'C02', 'C12']

    def setup(self, E, case):
        a = new_operator(E, 'a')
        t = fresh(R, 'tol')
        E.assume(t >= 0)
        return Ctx([], {'tol': t}, self_=a, a=a, t=t, sa=op_snap(a))

    def post(self, E, c, res):
        rs = snap_of(res)
        sn, sarr, sidx, re, im, st = c.sa
        big = lambda k: re[k] * re[k] + im[k] * im[k] > c.t * c.t
        n, arr = rs[0], rs[1]
        k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
        pos = lambda k: z3.Select(rs[2], sarr[k])
        return op_wf(res) + [('terms above the tolerance are kept', fa(sn, lambda k: z3.Implies(big(k), z3.And(pos(k) >= 0, rs[3][pos(k)] == re[k], rs[4][pos(k)] == im[k])))),
                             ('other terms are dropped', fa(sn, lambda k: z3.Implies(z3.Not(big(k)), pos(k) < 0))),
                             ('no other strings appear', fa(n, lambda k: z3.Select(sidx, arr[k]) >= 0)),
                             ('in the same order', z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n), z3.Select(c.sa[2], arr[k]) < z3.Select(c.sa[2], arr[k2])))),
                             ('type', rs[5] == c.sa[5]), ('operand unchanged', op_unchanged(c.a, c.sa))]


@contract
class OpNorm(Contract):
    mod, qual, props = 'basis', 'Operator.norm', ['C05']
    cases = ['default', 'order']

    def setup(self, E, case):
        a = new_operator(E, 'a')
        o = fresh(I, 'ord')
        return Ctx([], {} if case == 'default' else {'order': o}, self_=a, a=a, o=o, sa=op_snap(a), case=case)

    def post(self, E, c, res):
        n, arr, idx, re, im, t = c.sa
        r = rv(res)
        if c.case == 'default':
            return [('Euclidean norm of the coefficients', z3.And(r >= 0, r * r == NSQ([re, im], n)), [L_NSQ_POS.inst(n, re, im)]), ('unchanged', op_unchanged(c.a, c.sa))]
        return [('norm of the coefficients', r == NORMORD(c.o, re, im, n)), ('unchanged', op_unchanged(c.a, c.sa))]


L_NSQ_POS = Lemma('a sum of squares is not negative', [AR, AR], lambda n, re, im: ([], NSQ([re, im], n) >= 0), force=lambda n, re, im: [(NSQ, (re, im), n, ())])


@contract
class OpNormalize(Contract):
    mod, qual, props = 'basis', 'Operator.normalize', ['C05', 'C12']
    cases = ['default', 'order']

    def setup(self, E, case):
        a = new_operator(E, 'a')
        n, arr, idx, re, im, t = op_snap(a)
        o = fresh(I, 'ord')
        E.assume(NSQ([re, im], n) > 0 if case == 'default' else NORMORD(o, re, im, n) > 0)
        return Ctx([], {} if case == 'default' else {'order': o}, self_=a, a=a, sa=op_snap(a), o=o, case=case)

    def post(self, E, c, res):
        n, arr, idx, re, im, t = c.sa
        co = c.a.f['coeffs']
        if c.case == 'order':
            N = NORMORD(c.o, re, im, n)
            return op_wf(c.a) + [('the coefficients are divided by their norm', fa(n, lambda k: z3.And(co.arrs[0][k] * N == re[k], co.arrs[1][k] * N == im[k])))]
        N = lib.SQRT(NSQ([re, im], n))
        return op_wf(c.a) + [('the strings are unchanged', unchanged(c.a.f['_basis'], c.sa[:3])),
                             ('the coefficients are divided by their norm', z3.And(N > 0, N * N == NSQ([re, im], n), fa(n, lambda k: z3.And(co.arrs[0][k] * N == re[k], co.arrs[1][k] * N == im[k]))))]


class OpView(Contract):
    mod, props = 'basis', ['C05']

    def setup(self, E, case):
        a = new_operator(E, 'a')
        return Ctx([], {}, self_=a, a=a, sa=op_snap(a))


@contract
class OpIter(OpView):
    qual = 'Operator.__iter__'

    def post(self, E, c, res):
        n, arr, idx, re, im, t = c.sa
        it = E.iterate(res, None)
        k = fresh(I, 'k')
        v = it.get(k)
        return [('every term once, in order', z3.And(iv(it.n) == n, z3.Implies(z3.And(0 <= k, k < n), z3.And(v[1].t == arr[k], cx_eq(v[0], Cx(re[k], im[k])))))), ('unchanged', op_unchanged(c.a, c.sa))]


@contract
class OpLen(OpView):
    qual = 'Operator.__len__'

    def post(self, E, c, res):
        return [('number of terms', iv(res) == c.sa[0]), ('unchanged', op_unchanged(c.a, c.sa))]


def _tv_np(L):
    n, arr, idx, re, im, t = L.E.ghost['op']
    m, ba, bi = L.E.ghost['basis']
    v, i = L['vector'], L.i
    s = z3.FreshConst(SOS, 's')
    p = z3.Select(bi, s)
    val = coef(L.E.ghost['op'], s)
    on = z3.And(z3.Select(idx, s) >= 0, z3.Select(idx, s) < i)
    return [('length', iv(v.n) == m),
            ('strings so far are contained', fa(i, lambda k: z3.Select(bi, arr[k]) >= 0, lambda k: arr[k])),
            ('entries so far', z3.ForAll([s], z3.Implies(p >= 0, cx_eq(v.get(p), Cx(z3.If(on, val.re, z3.RealVal(0)), z3.If(on, val.im, z3.RealVal(0))))), patterns=[p]))]


def _tv_csc(L):
    n, arr, idx, re, im, t = L.E.ghost['op']
    m, ba, bi = L.E.ghost['basis']
    ri, da, i = L['row_inds'], L['data'], L.i
    if ri.conc or da.conc:
        return [('empty', z3.And(i == 0, iv(ri.length()) == 0, iv(da.length()) == 0))]
    return [('lengths', z3.And(iv(ri.n) == i, iv(da.n) == i)),
            ('strings so far are contained', fa(i, lambda k: z3.Select(bi, arr[k]) >= 0, lambda k: arr[k])),
            ('triplets', fa(i, lambda k: z3.And(ri.get(k) == z3.Select(bi, arr[k]), cx_eq(da.get(k), Cx(re[k], im[k]))), lambda k: [ri.arrs[0][k]]))]


@contract
class OpToVector(Contract):
    """to_vector(basis): the coefficient of each string at its position."""
    mod, qual, props = 'basis', 'Operator.to_vector', ['C05', 'C08']
    cases = ['numpy', 'csc', 'other']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_tv_np)] if case == 'numpy' else [Loop(_tv_csc)] if case == 'csc' else []

    def setup(self, E, case):
        a = new_operator(E, 'a')
        b = new_basis(E, 'B')
        E.ghost['op'], E.ghost['basis'] = op_snap(a), contents(b)
        kw = {'numpy': {}, 'csc': {'fmt': 'csc'}, 'other': {'fmt': 'csr5'}}[case]
        return Ctx([b], kw, self_=a, a=a, b=b, sa=op_snap(a), sb=contents(b), case=case)

    def raises(self, E, c):
        n, arr, idx, re, im, t = c.sa
        miss = z3.Not(fa(n, lambda k: z3.Select(c.sb[2], arr[k]) >= 0, lambda k: arr[k]))
        return [('KeyError', z3.And(c.case != 'other', miss)), ('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        m, ba, bi = c.sb
        n, arr, idx, re, im, t = c.sa
        k = fresh(I, 'k')
        val = coef(c.sa, ba[k])
        same = [('operands unchanged', z3.And(op_unchanged(c.a, c.sa), unchanged(c.b, c.sb)))]
        if c.case == 'numpy':
            return same + [('length', iv(res.n) == m), ('each entry is the coefficient of its basis string', z3.Implies(z3.And(0 <= k, k < m), cx_eq(res.get(k), val)))]
        arrs, cnt = res.coo
        e = res.entry(k, 0)
        p = z3.Select(idx, ba[k])
        return same + [('dimensions', z3.And(iv(res.nr) == m, iv(res.nc) == 1)),
                       ('each entry is the coefficient of its basis string', z3.Implies(z3.And(0 <= k, k < m), cx_eq(e, val)),
                        [L_COO_NONE.inst(cnt, *(arrs + [k, z3.IntVal(0)])), L_COO_ONE.inst(cnt, *(arrs + [k, z3.IntVal(0), p]))])]


@contract
class OpEq(Contract):
    mod, qual, props = 'basis', 'Operator.__eq__', ['C05']

    def setup(self, E, case):
        a, b = new_operator(E, 'a'), new_operator(E, 'b')
        return Ctx([b], self_=a, a=a, b=b, sa=op_snap(a), sb=op_snap(b))

    def post(self, E, c, res):
        n, arr, idx, re, im, t = c.sa
        m, arr2, idx2, re2, im2, t2 = c.sb
        same = z3.And(t == t2, n == m, fa(n, lambda k: z3.And(arr[k] == arr2[k], re[k] == re2[k], im[k] == im2[k])))
        return [('equal iff type, coefficients and strings agree', bv(res) == same), ('unchanged', z3.And(op_unchanged(c.a, c.sa), op_unchanged(c.b, c.sb)))]
