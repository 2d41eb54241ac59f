"""Contracts of qosy/core.py: commuting and invariant operators (C10)."""
import z3
from values import *
from values import TMat, code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_basis import new_basis, new_os, SOS, contents, unchanged, sym_basis
from c_operator import new_operator, op_snap, op_unchanged, cx_eq, AR
from c_oplist import TOper, new_oplist
from c_structure import LRE, LIM, LROWS, GRAM, L_GRAM, MDOT, _dims, AR, AAR
import c_matrix
from c_transform import new_transformation, SymMatrixStrings

CONTRACTS = []


def contract(c):
    CONTRACTS.append(c())
    return c


def lmat_call(E, kind, mode, b, op):
    call = E.ghost.get('lm calls')
    return z3.BoolVal(call is not None and len(call) == 1 and call[0][:2] == (kind, mode) and call[0][2][0] is b and call[0][2][1] is op)


def selected(res, eig, near, tol, name='the vectors'):
    """res has as its columns exactly the columns k of the eigenvector matrix with
    |w[k] - near| < tol, each once."""
    w, V = eig.w, eig.V
    s = getattr(res, 'sel', None)
    if s is None or s[0] is not V:
        return [(name + ' are columns of the eigenvectors', z3.BoolVal(False))]
    _, rows, cols = s
    n, arr = iv(w.n), w.arrs[0]
    a, k0, j0 = fresh(I, 'a'), fresh(I, 'k0'), fresh(I, 'j0')
    hit = lambda k: z3.And(arr[k] - near < tol, near - arr[k] < tol)
    m = iv(res.nc)
    b = fresh(I, 'b')
    j = z3.FreshConst(I, 'j')
    src = cols.src
    out = [(name + ' are complete columns', z3.And(iv(res.nr) == iv(V.nr), z3.Implies(z3.And(0 <= a, a < iv(V.nr)), rows.at(a) == a))),
           (name + ' are selected', z3.Implies(z3.And(0 <= k0, k0 < m), z3.And(0 <= cols.at(k0), cols.at(k0) < n, hit(cols.at(k0))))),
           (name + ' are selected once', z3.Implies(z3.And(0 <= k0, k0 < b, b < m), cols.at(k0) != cols.at(b)))]
    dst = getattr(src, 'dst', None)
    pos = dst[j0] if dst is not None else None
    out.append((name + ' are all selected', z3.Implies(z3.And(0 <= j0, j0 < n, hit(j0)), z3.And(0 <= pos, pos < m, cols.at(pos) == j0)) if pos is not None else z3.BoolVal(False), [mention(arr[j0])]))
    return out


@contract
class Commuting(Contract):
    """The null vectors (within tol) of L^dagger L, L the Liouvillian matrix; num_vecs: those among
    the num_vecs eigenvectors with the eigenvalues closest to a small negative number."""
    mod, qual, props = 'core', 'commuting_operators', ['C10']
    cases = ['{}, {}'.format(b, w) for b in ('basis', 'operators') for w in ('default', 'anticommutator, full', 'few', 'few, full')]
    only_raises = 1

    def setup(self, E, case):
        b = new_basis(E, 'A') if case.startswith('basis') else new_oplist(E)
        n = contents(b)[0] if case.startswith('basis') else iv(b.n)
        E.assume(n > 0)
        op = new_operator(E, 'H')
        kw, k, tol = {}, None, z3.RealVal('1/10000000000')
        if 'few' in case:
            k = fresh(I, 'num_vecs')
            E.assume(z3.And(0 < k, k < n))
            kw['num_vecs'] = k
            tol = kw['tol'] = fresh(R, 'tol')
            E.assume(tol > 0)
        if 'full' in case:
            kw['return_superoperator'] = True
        mode = 'commutator'
        if 'anti' in case:
            mode = kw['operation_mode'] = 'anticommutator'
        r, c = fresh(I, 'r'), fresh(I, 'c')
        return Ctx([b, op], kw, b=b, op=op, case=case, r=r, c=c, n=n, k=k, tol=tol, mode=mode, full='full' in case, osnap=op_snap(op))

    def post(self, E, c, res):
        kind = c.case.split(',')[0]
        kind = 'strings' if kind == 'basis' else 'operators'
        tag = z3.IntVal(code('liouvillian {} {}'.format(kind, c.mode)))
        out = [('the Liouvillian matrix of the basis and the operator', lmat_call(E, kind, c.mode, c.b, c.op)), ('the operator is unchanged', op_unchanged(c.op, c.osnap))]
        eig = E.ghost.get('eig', [])
        if len(eig) != 1:
            return out + [('one diagonalization', z3.BoolVal(False))]
        e = eig[0]
        h = []
        f = E.ghost.get('factors')
        if f is not None:
            (ar, ai), (br, bi) = f
            h = [L_GRAM.inst(LROWS(tag), ar[c.r], ai[c.r], br, bi, tag, c.r, c.c)]
        want = GRAM([], LROWS(tag), [tag, c.r, c.c])
        out += [('dimensions of the superoperator', z3.And(iv(e.A.nr) == c.n, iv(e.A.nc) == c.n)), ('every entry of the superoperator', cx_eq(e.A.entry(c.r, c.c), want), h)]
        out += eigen_choice(e, c.k, z3.RealVal(0), True)
        vecs = res
        if c.full:
            ok = isinstance(res, tuple) and len(res) == 4 and isinstance(res[1], Mat) and res[2] is e.w and res[3] is e.V
            out.append(('the superoperator and its eigenvectors', z3.BoolVal(ok)))
            if not ok:
                return out
            out.append(('the superoperator is the matrix', z3.And(iv(res[1].nr) == c.n, iv(res[1].nc) == c.n, cx_eq(res[1].entry(c.r, c.c), e.A.entry(c.r, c.c)))))
            vecs = res[0]
        return out + selected(vecs, e, z3.RealVal(0), c.tol)


def eigen_choice(e, k, target, above, M=None):
    """All eigenpairs, or the k closest to (slightly below or above) the target."""
    if k is None:
        out = [('all of the eigenvectors', z3.BoolVal(e.which == 'eigh'))]
    else:
        if e.which != 'eigsh':
            return [('all of the eigenvectors or the first', z3.BoolVal(e.which == 'eigh'))]
        out = [('so many eigenvectors', iv(e.k) == k)]
        if e.sigma is None:
            out.append(('the smallest eigenvalues', z3.BoolVal(e.order in ('SM', 'SA') if above else False)))
        else:
            s = rv(e.sigma)
            d = target - s if above is True else s * target - 1
            out += [('the eigenvalues near the target', z3.And(z3.BoolVal(e.order in (None, 'LM')), d > 0, d <= z3.RealVal('1/1000')))]
    return out


# ----------------------------------------------------------------------- overlap of operators
from c_structure import _ob, _cols, IDX
from c_oplist import OPS, OLEN, OARR, OIDX, ORE, OIM, OTYP, opterm_snap, oper_term
from c_operator import OpToVector, coef
from c_algebra import ASO
from c_transform import _entry


class _TCol(Shape):
    """The column of coefficients of an operator in a fixed basis."""
    sorts = [OPS]

    def __init__(self, basis):
        self.basis = basis

    def mk(self, ts):
        t = ts[0]
        n, arr, idx = contents(self.basis)
        m = Mat(n, z3.IntVal(1), lambda r, c: coef(opterm_snap(t), arr[iv(r)]))
        m.col, m.shape = (self.basis, t), self
        m.frozen = True
        return m

    def un(self, v):
        if getattr(v, 'col', (None,))[0] is not self.basis:
            raise Unsupported('not a column')
        return [v.col[1]]

    def __eq__(self, o):
        return isinstance(o, _TCol) and o.basis is self.basis

    def __hash__(self):
        return id(self.basis)



def _hstack_cols(E, l, node):
    if not l.conc and isinstance(l.shape, _TCol):
        b = l.shape.basis
        n, arr, idx = contents(b)
        return E.new(Mat(n, iv(l.n), lambda r, c: coef(opterm_snap(l.arrs[0][iv(c)]), arr[iv(r)])))
    return NotImplemented


c_matrix.HSTACK.append(_hstack_cols)


def _tv_stub(self, E, args, kw, node):
    o, b, fmt = args
    n, arr, idx = contents(b)
    m, oarr = op_snap(o)[:2]
    E.oblige('the strings are in the basis', fa(m, lambda k: idx[oarr[k]] >= 0, lambda k: oarr[k]), node)
    E.ghost['columns basis'] = b
    r = _TCol(b).mk([oper_term(o)])
    r.frozen = False
    return E.new(r)


OpToVector.stub = _tv_stub
OpToVector.applies = lambda self, E, args, kw: E.ghost.get('columns', False) and len(args) + len(kw) == 3 and 'csc' in list(args) + list(kw.values())


def _oterm(a, k, p):
    x, y = coef((None, None, p[0], p[1], p[2], None), a[0][k]), coef((None, None, p[3], p[4], p[5], None), a[0][k])
    q = cmul(conj(x), y)
    return rv(q.re), rv(q.im)


# OVL(OB, n; x, y): the sum over the strings of conj(coefficient in x) * (coefficient in y)
OVL = Fold('OVL', [ASO], [IDX, AR, AR, IDX, AR, AR], _oterm, out='cx')
L_OVL = Lemma('the overlap of two columns', [AR, AR, AAR, AAR, ASO, IDX, AR, AR, IDX, AR, AR, I],
              lambda n, ar, ai, br, bi, OB, i1, r1, m1, i2, r2, m2, c: (
                  [fa(n, lambda k: (lambda x, y: z3.And(ar[k] == rv(x.re), ai[k] == -rv(x.im), br[k][c] == rv(y.re), bi[k][c] == rv(y.im)))(coef((None, None, i1, r1, m1, None), OB[k]), coef((None, None, i2, r2, m2, None), OB[k])), lambda k: [ar[k], OB[k]])],
                  cx_eq(MDOT([ar, ai, br, bi], n, [c]), OVL([OB], n, [i1, r1, m1, i2, r2, m2]))),
              uses=lambda n, ar, ai, br, bi, OB, i1, r1, m1, i2, r2, m2, c: [mention(ar[n - 1], OB[n - 1])],
              force=lambda n, ar, ai, br, bi, OB, i1, r1, m1, i2, r2, m2, c: [(MDOT, (ar, ai, br, bi), n, (c,)), (OVL, (OB,), n, (i1, r1, m1, i2, r2, m2))])


class OperatorList(Contract):
    def oplist(self, E):
        l = new_oplist(E)
        n, ops = iv(l.n), l.arrs[0]
        E.assume(n > 0)
        ty = fresh(I, 'type')
        E.assume(fa(n, lambda k: OTYP(ops[k]) == ty, lambda k: ops[k]))
        E.ghost['oplist'], E.ghost['type'] = (n, ops), ty
        return l, n, ops


@contract
class Overlap(OperatorList):
    """The overlaps of the operators, as vectors in the basis of all of their strings."""
    mod, qual, props = 'core', '_overlap_matrix', ['C10']
    loops = [Loop(_ob, label='(operators)')]

    def setup(self, E, case):
        l, n, ops = self.oplist(E)
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(0 <= r0, r0 < n, 0 <= c0, c0 < n))
        E.ghost['columns'] = True
        return Ctx([l], l=l, n=n, ops=ops, r0=r0, c0=c0)

    def post(self, E, c, res):
        f = E.ghost.get('factors')
        (ar, ai), (br, bi) = f
        nO, OB, oidx = contents(E.ghost['columns basis'])
        x, y = opterm_snap(c.ops[c.r0]), opterm_snap(c.ops[c.c0])
        return [('dimensions', z3.And(iv(res.nr) == c.n, iv(res.nc) == c.n)),
                ('every entry is the overlap of two operators', cx_eq(res.entry(c.r0, c.c0), OVL([OB], nO, [x[2], x[3], x[4], y[2], y[3], y[4]])),
                 [L_OVL.inst(nO, ar[c.r0], ai[c.r0], br, bi, OB, x[2], x[3], x[4], y[2], y[3], y[4], c.c0)]),
                ('over all of the strings', z3.And(fa(x[0], lambda k: oidx[x[1][k]] >= 0, lambda k: x[1][k]), fa(y[0], lambda k: oidx[y[1][k]] >= 0, lambda k: y[1][k]))),
                ('over distinct strings', fa(nO, lambda k: oidx[OB[k]] == k, lambda k: OB[k])),
                ('the operators are unchanged', z3.And(iv(c.l.n) == c.n, c.l.arrs[0] == c.ops))]


# -------------------------------------------------------------------------- symmetry matrices
def _sms_stub(self, E, args, kw, node):
    """Entry (r, c): the coefficient of the r-th string in the image of the c-th string."""
    b, t, tol = args
    n, arr, idx = contents(b)
    M = E.new(Mat(n, n, lambda r, c: _entry(E.ghost['rule of'], arr, iv(r), iv(c), rv(tol))[1]))
    E.ghost.setdefault('sym calls', []).append(('strings', b, t, tol, M))
    return M


SymMatrixStrings.stub = _sms_stub
SymMatrixStrings.applies = lambda self, E, args, kw: 'rule of' in E.ghost


@contract
class SymMatrixOperators(OperatorList):
    """The pseudo-inverse of the matrix of coefficients, times the symmetry matrix of all of the
    strings, times the matrix of coefficients."""
    mod, qual, props = 'transformation', '_symmetry_matrix_operators', ['C09', 'C10']
    loops = [Loop(_ob, label='(operators)'), Loop(lambda L: _cols(L, L.i, None), label='(columns)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}),
             Loop(lambda L: _cols(L, L.outer.i, L.i), label='(terms of an operator)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)})]

    def setup(self, E, case):
        l, n, ops = self.oplist(E)
        t, rid = new_transformation(E, 'rid')
        c0, r0, q0, tol = fresh(I, 'c0'), fresh(I, 'r0'), fresh(I, 'q0'), fresh(R, 'tol')
        E.assume(z3.And(tol > 0, 0 <= c0, c0 < n, 0 <= r0, 0 <= q0))
        E.ghost['c0'], E.ghost['rule of'] = c0, rid
        return Ctx([l, t, tol], l=l, n=n, ops=ops, t=t, rid=rid, r0=r0, c0=c0, q0=q0, tol=tol)

    def post(self, E, c, res):
        calls, pv = E.ghost.get('sym calls', []), E.ghost.get('pinv', [])
        fs = c_matrix.chain(res)
        ok = len(calls) == 1 and len(pv) == 1 and len(fs) == 3 and fs[0] is pv[0][1]
        out = [('the pseudo-inverse times two matrices', z3.BoolVal(ok))]
        if not ok:
            return out
        b = calls[0][1]
        nO, OB, oidx = contents(b)
        S, V, W = fs[1], fs[2], pv[0][0]
        o = opterm_snap(c.ops[c.c0])
        rng = z3.And(c.r0 < nO, c.q0 < nO)
        return out + [('the transformation', z3.And(z3.BoolVal(calls[0][2] is c.t), rv(calls[0][3]) == c.tol)),
                      ('the symmetry matrix of the strings', z3.Implies(rng, cx_eq(S.entry(c.r0, c.q0), _entry(c.rid, OB, c.r0, c.q0, c.tol)[1]))),
                      ('the coefficients of the operators', z3.Implies(rng, cx_eq(V.entry(c.r0, c.c0), coef(o, OB[c.r0])))),
                      ('the pseudo-inverse of the coefficients', z3.Implies(rng, cx_eq(W.entry(c.r0, c.c0), coef(o, OB[c.r0])))),
                      ('dimensions', z3.And(iv(S.nr) == nO, iv(S.nc) == nO, iv(V.nr) == nO, iv(V.nc) == c.n, iv(W.nr) == nO, iv(W.nc) == c.n)),
                      ('over all of the strings', fa(o[0], lambda k: oidx[o[1][k]] >= 0, lambda k: o[1][k])),
                      ('the operators are unchanged', z3.And(iv(c.l.n) == c.n, c.l.arrs[0] == c.ops))]


SYRE, SYIM = z3.Function('symmetry_re', I, I, I, R), z3.Function('symmetry_im', I, I, I, R)
OVRE, OVIM = z3.Function('overlap_re', I, I, R), z3.Function('overlap_im', I, I, R)


def sym_stub(kind):
    def stub(self, E, args, kw, node):
        b, t, tol = args
        n = contents(b)[0] if kind == 'strings' else iv(b.n)
        tag = z3.IntVal(code('symmetry ' + kind))
        M = E.new(Mat(n, n, lambda r, c: Cx(SYRE(tag, iv(r), iv(c)), SYIM(tag, iv(r), iv(c)))))
        E.ghost.setdefault('sym calls', []).append((kind, b, t, tol, M))
        return M
    return stub


SymMatrixOperators.stub = sym_stub('operators')
SymMatrixOperators.applies = lambda self, E, args, kw: E.ghost.get('opaque symmetry', False)


def _sms(self, E, args, kw, node):
    return (sym_stub('strings') if E.ghost.get('opaque symmetry') else _sms_stub)(self, E, args, kw, node)


SymMatrixStrings.stub = _sms
SymMatrixStrings.applies = lambda self, E, args, kw: 'rule of' in E.ghost or E.ghost.get('opaque symmetry', False)


@contract
class SymmetryMatrix(OperatorList):
    """By the kind of the basis."""
    mod, qual, props = 'transformation', 'symmetry_matrix', ['C09', 'C10']
    cases = ['basis', 'operators', 'no operators', 'other']
    only_raises = 1

    def setup(self, E, case):
        b = new_basis(E, 'A') if case == 'basis' else self.oplist(E)[0] if case == 'operators' else E.new(Lst.of([])) if case == 'no operators' else fresh(I, 'x')
        t, rid = new_transformation(E, 'rid')
        E.ghost['opaque symmetry'] = True
        tol = fresh(R, 'tol')
        E.assume(tol > 0)
        return Ctx([b, t], dict(tol=tol), b=b, t=t, tol=tol, case=case)

    def raises(self, E, c):
        return [('IndexError', c.case == 'no operators'), ('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        kind = 'strings' if c.case == 'basis' else 'operators'
        calls = E.ghost.get('sym calls', [])
        ok = len(calls) == 1 and calls[0][0] == kind and calls[0][1] is c.b and calls[0][2] is c.t and calls[0][4] is res
        return [('the matrix of the basis', z3.BoolVal(ok)), ('the tolerance', rv(calls[0][3]) == c.tol if ok else z3.BoolVal(False))]


def _ov_stub(self, E, args, kw, node):
    l = args[0]
    M = E.new(Mat(iv(l.n), iv(l.n), lambda r, c: Cx(OVRE(iv(r), iv(c)), OVIM(iv(r), iv(c)))))
    E.ghost.setdefault('overlap calls', []).append((l, M))
    return M


Overlap.stub = _ov_stub
Overlap.applies = lambda self, E, args, kw: E.ghost.get('opaque symmetry', False)


def _osterm(a, k, p):
    q = cmul(Cx(OVRE(p[1], k), OVIM(p[1], k)), Cx(SYRE(p[0], k, p[2]), SYIM(p[0], k, p[2])))
    return rv(q.re), rv(q.im)


# OVS(n; tag, r, c): the (r, c) entry of the overlap matrix times the symmetry matrix
OVS = Fold('OVS', [], [I, I, I], _osterm, out='cx')
L_OVS = Lemma('an entry of the overlap matrix times the symmetry matrix', [AR, AR, AAR, AAR, I, I, I],
              lambda n, ar, ai, br, bi, tag, r, c: (
                  [fa(n, lambda k: z3.And(ar[k] == OVRE(r, k), ai[k] == OVIM(r, k), br[k][c] == SYRE(tag, k, c), bi[k][c] == SYIM(tag, k, c)), lambda k: ar[k])],
                  cx_eq(MDOT([ar, ai, br, bi], n, [c]), OVS([], n, [tag, r, c]))),
              uses=lambda n, ar, ai, br, bi, tag, r, c: [mention(ar[n - 1])],
              force=lambda n, ar, ai, br, bi, tag, r, c: [(MDOT, (ar, ai, br, bi), n, (c,)), (OVS, (), n, (tag, r, c))])
PLUS, MINUS = ['commute', 'Commute', 'symmetry', 'commutator'], ['anticommute', 'Anticommute', 'antisymmetry', 'anticommutator']


@contract
class Invariant(OperatorList):
    """The eigenvectors (within tol) with the eigenvalue +1 or -1 of the Hermitian part of the
    symmetry matrix, relative to the overlaps of the operators."""
    mod, qual, props = 'core', 'invariant_operators', ['C10']
    cases = (['{}, {}'.format(b, w) for b in ('basis', 'operators') for w in ('default', 'anticommutator, full', 'few', 'few, full', 'few, antisymmetry')]
             + ['basis, {}'.format(m) for m in PLUS[:3] + MINUS[:3]] + ['basis, unknown mode'])
    only_raises = 1

    def setup(self, E, case):
        basis = case.startswith('basis')
        b = new_basis(E, 'A') if basis else self.oplist(E)[0]
        n = contents(b)[0] if basis else iv(b.n)
        E.assume(n > 0)
        t, rid = new_transformation(E, 'rid')
        E.ghost['opaque symmetry'] = True
        w = case.split(', ')[1:]
        mode = ([x for x in w if x in PLUS + MINUS + ['unknown mode']] or [None])[0]
        kw, k, tol = {}, None, z3.RealVal('1/10000000000')
        if mode:
            kw['operation_mode'] = mode
        if 'few' in w:
            k = fresh(I, 'num_vecs')
            E.assume(z3.And(0 < k, k < n))
            tol = kw['tol'] = fresh(R, 'tol')
            E.assume(tol > 0)
            kw['num_vecs'] = k
        if 'full' in w:
            kw['return_superoperator'] = True
        r, c = fresh(I, 'r'), fresh(I, 'c')
        return Ctx([b, t], kw, b=b, t=t, n=n, k=k, tol=tol, r=r, c=c, full='full' in w, basis=basis, bad=mode == 'unknown mode', sign=z3.RealVal(-1 if mode in MINUS else 1))

    def raises(self, E, c):
        return [('ValueError', c.bad)]

    def post(self, E, c, res):
        kind = 'strings' if c.basis else 'operators'
        calls, ov, eig = E.ghost.get('sym calls', []), E.ghost.get('overlap calls', []), E.ghost.get('eig', [])
        ok = len(calls) == 1 and calls[0][:1] + calls[0][1:3] == (kind, c.b, c.t)
        out = [('the symmetry matrix of the basis', z3.BoolVal(len(calls) == 1 and calls[0][0] == kind and calls[0][1] is c.b and calls[0][2] is c.t))]
        if not c.basis:
            out.append(('the overlaps of the operators', z3.BoolVal(len(ov) == 1 and ov[0][0] is c.b)))
        if len(eig) != 1:
            return out + [('one diagonalization', z3.BoolVal(False))]
        e = eig[0]
        tag = z3.IntVal(code('symmetry ' + kind))
        if c.basis:
            S = lambda r, q: Cx(SYRE(tag, r, q), SYIM(tag, r, q))
            D = Cx(z3.If(c.r == c.c, z3.RealVal(1), z3.RealVal(0)), z3.RealVal(0))
        else:
            S = lambda r, q: OVS([], c.n, [tag, r, q])
            D = Cx(OVRE(c.r, c.c), OVIM(c.r, c.c))
        h = []
        f = E.ghost.get('factors')
        if f is not None:
            (ar, ai), (br, bi) = f
            h = [L_OVS.inst(c.n, ar[x], ai[x], br, bi, tag, x, y) for x, y in ((c.r, c.c), (c.c, c.r))]
        half = Cx(z3.Q(1, 2), z3.RealVal(0))
        want = cmul(half, cadd(S(c.r, c.c), conj(S(c.c, c.r))))
        out += [('dimensions of the matrix', z3.And(iv(e.A.nr) == c.n, iv(e.A.nc) == c.n)), ('every entry of the Hermitian part', cx_eq(e.A.entry(c.r, c.c), want), h)]
        if e.M is None:
            out.append(('relative to the identity', z3.BoolVal(c.basis)))
        else:
            out.append(('relative to the overlaps', cx_eq(e.M.entry(c.r, c.c), D)))
        out += eigen_choice(e, c.k, c.sign, False)
        vecs = res
        if c.full:
            ok = isinstance(res, tuple) and len(res) == 4 and isinstance(res[1], Mat) and res[3] is e.V and isinstance(res[2], Lst)
            out.append(('the superoperator and its eigenvectors', z3.BoolVal(ok)))
            if not ok:
                return out
            vecs = res[0]
            j = fresh(I, 'j')
            sw = Cx(c.sign, z3.RealVal(0))
            out += [('every entry of the superoperator', cx_eq(res[1].entry(c.r, c.c), cadd(D, cneg(cmul(sw, want)))), h),
                    ('the eigenvalues of the superoperator', z3.And(iv(res[2].n) == iv(e.w.n), z3.Implies(z3.And(0 <= j, j < iv(e.w.n)), to_cx(res[2].get(j)).re == 1 - c.sign * e.w.arrs[0][j])))]
        return out + selected(vecs, e, c.sign, c.tol)
