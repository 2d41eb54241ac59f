"""Contracts of the eigensolvers in qosy/diagonalization.py (C19)."""
import z3
from values import *
from values import TMat, mat_arrs, code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_basis import SOS
from c_operator import OPTYPE, new_operator, op_snap, op_unchanged, snap_of, cx_eq, AR, AI, COO
from c_diag import L_COO_SAME, new_matrix, ToMatrix
from c_convert import Convert
import c_matrix
from c_core import eigen_choice

CONTRACTS = []
ASO = z3.ArraySort(I, SOS)


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------------------- the factors of a string
SN = z3.Function('number_of_factors', SOS, I)
SOPS, SLABS = z3.Function('factors', SOS, AI), z3.Function('labels', SOS, AI)
SPR, SPI = z3.Function('prefactor_re', SOS, R), z3.Function('prefactor_im', SOS, R)


def _os_attr(E, o, attr, node, old=L_.OPQ_ATTR['OS']):
    if attr in ('orbital_operators', 'orbital_labels'):
        E.assume(SN(o.t) >= 0)
        l = Lst.sym(TStr if attr == 'orbital_operators' else TInt, SN(o.t), [(SOPS if attr == 'orbital_operators' else SLABS)(o.t)])
        l.frozen = True
        return E.new(l)
    if attr == 'prefactor':
        return Cx(SPR(o.t), SPI(o.t))
    return old(E, o, attr, node)


L_.OPQ_ATTR['OS'] = _os_attr


# --------------------------------------------------------------------- calls on the way
def _convert_stub(self, E, args, kw, node):
    r = new_operator(E, 'converted')
    to = sv(args[1])
    E.assume(sv(r.f['op_type']) == to)
    E.ghost.setdefault('converted', []).append((args[0], to, op_snap(args[0]), r))
    E.ghost['on convert'](E, r)
    return r


Convert.stub = _convert_stub
Convert.applies = lambda self, E, args, kw: 'on convert' in E.ghost


def _to_matrix_stub(self, E, args, kw, node):
    op, N = args
    m = new_matrix(E, POW2(iv(N)), POW2(iv(N)), 'M')
    E.ghost.setdefault('matrices', []).append((op, op_snap(op), iv(N), m))
    return m


from c_bits import POW2, bits_of_pow2
ToMatrix.stub = _to_matrix_stub
ToMatrix.applies = lambda self, E, args, kw: 'on convert' in E.ghost


def sorted_pairs(E, e, n, w, V, pre=''):
    """(w, V) are eigenpairs of the call, each once, in ascending order of the eigenvalues."""
    k, l, r = fresh(I, 'k'), fresh(I, 'l'), fresh(I, 'r')
    if w is e.w and V is e.V and e.which == 'eigh':
        return []                     # numpy returns them in ascending order
    sel = getattr(V, 'sel', None)
    if not isinstance(w, Lst) or not isinstance(V, Mat) or sel is None or sel[0] is not e.V or sel[1].src != 'all' or not isinstance(sel[2].src, Lst):
        return [(pre + 'the eigenvectors of the call, reordered', z3.BoolVal(False))]
    P = sel[2].src.arrs[0]
    rng = z3.And(0 <= k, k < l, l < n)
    ev, ov = w.arrs[0], e.w.arrs[0]
    return [(pre + 'as many eigenvalues as eigenvectors', z3.And(iv(w.n) == n, iv(V.nc) == n)),
            (pre + 'every eigenvalue belongs to its eigenvector', z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= P[k], P[k] < n, ev[k] == ov[P[k]]))),
            (pre + 'no eigenvector twice', z3.Implies(rng, P[k] != P[l])),
            (pre + 'ascending order', z3.Implies(rng, ev[k] <= ev[l]), [mention(P[k], P[l])])]


@contract
class Diagonalize(Contract):
    """Eigenvalues and eigenvectors of the matrix of the operator, in ascending order."""
    mod, qual, props = 'diagonalization', 'diagonalize', ['C19']
    cases = ['Hermitian', 'Hermitian, few', 'general', 'general, few']

    def setup(self, E, case):
        op, N = new_operator(E, 'H'), fresh(I, 'num_orbitals')
        E.assume(N >= 0)
        bits_of_pow2(E, N)
        E.ghost['on convert'] = lambda E, r: None
        kw, k = {}, None
        if 'few' in case:
            k = fresh(I, 'num_vecs')
            E.assume(z3.And(0 < k, k < POW2(N)))
            kw['num_vecs'] = k
        if 'general' in case:
            kw['mode'] = 'General'
        return Ctx([op, N], kw, op=op, sn=op_snap(op), N=N, k=k, case=case)

    def post(self, E, c, res):
        conv, mats, eig = (E.ghost.get(x, []) for x in ('converted', 'matrices', 'eig'))
        if not (len(conv) <= 1 and len(mats) == 1 and len(eig) == 1 and isinstance(res, tuple) and len(res) == 2):
            return [('one matrix and one diagonalization', z3.BoolVal(False))]
        op, sn, N, m = mats[0]
        e = eig[0]
        src = conv[0][0] if conv else op
        right = z3.BoolVal(src is c.op and (not conv or op is conv[0][3]))
        out = [('the matrix of the operator', z3.And(right, N == c.N, conv[0][1] == code('Pauli') if conv else sv(c.op.f['op_type']) == code('Pauli'))),
               ('that matrix is diagonalized', same_matrix(e.A, m, POW2(c.N))),
               ('the operator is unchanged', op_unchanged(c.op, c.sn))]
        n = POW2(c.N) if c.k is None else c.k
        if 'general' in c.case:
            out.append(('a solver for general matrices', z3.BoolVal(e.which == ('eig' if c.k is None else 'eigs'))))
            if c.k is not None:
                out.append(('so many eigenvectors', iv(e.k) == c.k))
            return out + [('its result', z3.BoolVal(res[0] is e.w and res[1] is e.V))]
        return out + lowest(e, c.k) + sorted_pairs(E, e, n, res[0], res[1])


def lowest(e, k):
    """All eigenpairs, or those of the k smallest eigenvalues."""
    if k is None or e.which == 'eigh':
        return [('all of the eigenvectors', z3.BoolVal(e.which == 'eigh'))]
    return [('the lowest eigenvalues', z3.And(z3.BoolVal(e.which == 'eigsh' and e.order == 'SA' and e.sigma is None), iv(e.k) == k))]


def same_matrix(A, m, n):
    r, c = fresh(I, 'r'), fresh(I, 'c')
    return z3.And(iv(A.nr) == n, iv(A.nc) == n, z3.Implies(z3.And(0 <= r, r < n, 0 <= c, c < n), cx_eq(to_cx(A.entry(r, c)), to_cx(m.entry(r, c)))))


# ------------------------------------------------------------------------- hopping matrices
def hop(s):
    return z3.And(SN(s) == 2, SOPS(s)[0] == code('CDag'), SOPS(s)[1] == code('C'))


def pair(s):
    return z3.And(SN(s) == 2, SOPS(s)[0] == code('CDag'), SOPS(s)[1] == code('CDag'), SLABS(s)[0] != SLABS(s)[1])


def at(r, c, i, j, v):
    on = z3.And(r == i, c == j)
    return Cx(z3.If(on, rv(v.re), z3.RealVal(0)), z3.If(on, rv(v.im), z3.RealVal(0)))


def csum(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = cadd(out, x)
    return out


def cif(c, x, y):
    return Cx(z3.If(c, rv(x.re), rv(y.re)), z3.If(c, rv(x.im), rv(y.im)))


def _hterm(a, k, p):
    s, (r, c) = a[0][k], p
    t = cmul(Cx(a[1][k], a[2][k]), Cx(SPR(s), SPI(s)))
    i, j = SLABS(s)[0], SLABS(s)[1]
    q = cif(i == j, at(r, c, i, i, Cx(t.re, z3.RealVal(0))), csum(at(r, c, i, j, t), at(r, c, j, i, conj(t))))
    return rv(q.re), rv(q.im)


# the hopping matrix: t c+_i c_j + h.c. puts t at (i, j) and its conjugate at (j, i)
HOP = Fold('HOP', [ASO, AR, AR], [I, I], _hterm, out='cx')


def _bterm(a, k, p):
    s, (N, r, c) = a[0][k], p
    t = cmul(Cx(a[1][k], a[2][k]), Cx(SPR(s), SPI(s)))
    i, j = SLABS(s)[0], SLABS(s)[1]
    m = cneg(conj(t))
    hopping = cif(i == j, csum(at(r, c, i, i, t), at(r, c, i + N, i + N, m)),
                  csum(at(r, c, i, j, t), at(r, c, j, i, conj(t)), at(r, c, i + N, j + N, m), at(r, c, j + N, i + N, cneg(t))))
    pairing = csum(at(r, c, i, j + N, t), at(r, c, j, i + N, cneg(t)), at(r, c, i + N, j, m), at(r, c, j + N, i, conj(t)))
    q = cif(SOPS(s)[1] == code('C'), hopping, pairing)
    return rv(q.re), rv(q.im)


# the Bogoliubov-de Gennes matrix [[h, D], [-D*, -h*]] with h hermitian and D antisymmetric
BDG = Fold('BDG', [ASO, AR, AR], [I, I, I], _bterm, out='cx')


def _quad_inv(fold, ok, dim, par):
    def inv(L):
        E = L.E
        n, arr, idx, re, im, t = E.ghost['terms']
        N, r0, c0 = E.ghost['entry']
        ro, co, da = L['row_inds'], L['col_inds'], L['data']
        want = fold([arr, re, im], L.i, par(N, r0, c0))
        good = ('quadratic terms so far', fa(L.i, lambda k: ok(arr[k]), lambda k: arr[k]))
        if ro.conc and co.conc and da.conc:
            return [good, ('nothing yet', z3.And(L.i == 0, z3.BoolVal(not ro.items and not co.items and not da.items)))]
        ro, co, da = ro.as_sym(TInt), co.as_sym(TInt), da.as_sym(TCx)
        q, d = iv(ro.n), dim(N)
        return [good, ('as many rows, columns and values', z3.And(q >= 0, iv(co.n) == q, iv(da.n) == q)),
                ('indices in range', fa(q, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < d, 0 <= co.arrs[0][k], co.arrs[0][k] < d), lambda k: [ro.arrs[0][k], co.arrs[0][k]])),
                ('the entry so far', cx_eq(COO([ro.arrs[0], co.arrs[0]] + list(da.arrs), q, [r0, c0]), want))]
    return inv


def _quad_hints(L1, L0=None):
    if L0 is None:
        return []
    r0, c0 = L1.E.ghost['entry'][1:]
    if any(L0[x].conc for x in ('row_inds', 'col_inds', 'data')):
        return []
    old, new = (([L[x].as_sym(sh) for x, sh in (('row_inds', TInt), ('col_inds', TInt), ('data', TCx))]) for L in (L0, L1))
    a = lambda l: [l[0].arrs[0], l[1].arrs[0]] + list(l[2].arrs)
    return [L_COO_SAME.inst(iv(old[0].n), *(a(old) + a(new) + [r0, c0]))]


def _quad_force(L1, L0=None):
    if L0 is None:
        return []
    r0, c0 = L1.E.ghost['entry'][1:]
    if any(L1[x].conc for x in ('row_inds', 'col_inds', 'data')):
        return []
    new = [L1[x].as_sym(sh) for x, sh in (('row_inds', TInt), ('col_inds', TInt), ('data', TCx))]
    a = [new[0].arrs[0], new[1].arrs[0]] + list(new[2].arrs)
    q = iv(new[0].n)
    return [(COO, tuple(a), z3.simplify(q - d), (r0, c0)) for d in range(4)]


_TYPES = {'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}


class Quadratic(Contract):
    """The matrix of a quadratic operator is diagonalized."""
    mod, props = 'diagonalization', ['C19']
    only_raises = 1
    allowed = ('Fermion',)           # types used without conversion

    def loops_for(self, case):
        return [Loop(_quad_inv(self.fold, self.ok, self.dim, self.par), hints=_quad_hints, force=_quad_force, types=_TYPES, label='terms')] if case != 'wrong type' else []

    def setup(self, E, case):
        op, N = new_operator(E, 'H'), fresh(I, 'num_orbitals')
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(N > 0, 0 <= r0, r0 < self.dim(N), 0 <= c0, c0 < self.dim(N)))
        E.ghost['entry'] = (N, r0, c0)
        E.ghost['on convert'] = self.given
        kw, k, sigma = {}, None, None
        if 'few' in case:
            k = fresh(I, 'num_vecs')
            E.assume(z3.And(0 < k, k < self.dim(N)))
            kw['num_vecs'] = k
        self.types(E, op, case)
        if self.direct(case):
            self.given(E, op)
        return Ctx([op, N], kw, op=op, sn=op_snap(op), N=N, k=k, r0=r0, c0=c0, case=case)

    def given(self, E, op):
        """The labels of the terms are orbitals."""
        N = E.ghost['entry'][0]
        n, arr, idx, re, im, t = op_snap(op)
        E.ghost['terms'] = (n, arr, idx, re, im, t)
        E.assume(fa(n, lambda k: z3.And(SN(arr[k]) >= 0, *[z3.Implies(SN(arr[k]) > j, z3.And(0 <= SLABS(arr[k])[j], SLABS(arr[k])[j] < N)) for j in range(2)]), lambda k: arr[k]))

    def raises(self, E, c):
        if c.case == 'wrong type':
            return [('ValueError', True)]
        n, arr, idx, re, im, t = E.ghost['terms']
        return [('ValueError', z3.Not(fa(n, lambda k: self.ok(arr[k]), lambda k: arr[k])))]

    def post(self, E, c, res):
        conv, eig = E.ghost.get('converted', []), E.ghost.get('eig', [])
        n, arr, idx, re, im, t = E.ghost['terms']
        if len(eig) != 1 or not isinstance(res, tuple):
            return [('one diagonalization', z3.BoolVal(False))]
        e = eig[0]
        d = self.dim(c.N)
        out = [('the terms of the operator', z3.BoolVal(self.direct(c.case) and not conv or len(conv) == 1 and conv[0][0] is c.op)),
               ('dimensions', z3.And(iv(e.A.nr) == d, iv(e.A.nc) == d)), ('every entry of the matrix', cx_eq(to_cx(e.A.entry(c.r0, c.c0)), self.fold([arr, re, im], n, self.par(c.N, c.r0, c.c0)))),
               ('the operator is unchanged', op_unchanged(c.op, c.sn))]
        if conv:
            out.append(('converted to fermions', conv[0][1] == code('Fermion')))
        return out + lowest(e, c.k) + self.result(E, c, e, res)


@contract
class TightBinding(Quadratic):
    qual = 'diagonalize_quadratic_tightbinding'
    cases = ['all', 'few']
    fold, ok = HOP, staticmethod(hop)
    dim, par = staticmethod(lambda N: N), staticmethod(lambda N, r, c: [r, c])

    def direct(self, case):
        return False

    def types(self, E, op, case):
        pass

    def result(self, E, c, e, res):
        n = c.N if c.k is None else c.k
        if len(res) == 2 and res[0] is e.w and res[1] is e.V:
            return []
        return sorted_pairs(E, e, n, res[0], res[1])


@contract
class BdG(Quadratic):
    qual = 'diagonalize_bdg'
    cases = ['Fermion', 'Majorana', 'wrong type']
    fold, ok = BDG, staticmethod(lambda s: z3.Or(hop(s), pair(s)))
    dim, par = staticmethod(lambda N: 2 * N), staticmethod(lambda N, r, c: [N, r, c])

    def direct(self, case):
        return case == 'Fermion'

    def types(self, E, op, case):
        t = sv(op.f['op_type'])
        E.assume(t == code(case) if case != 'wrong type' else z3.And(t != code('Fermion'), t != code('Majorana')))

    def result(self, E, c, e, res):
        """The negatives of the N lowest eigenvalues and the two halves of their eigenvectors."""
        if len(res) != 3:
            return [('energies and two matrices', z3.BoolVal(False))]
        en, U, W = res
        k, l, r = fresh(I, 'k'), fresh(I, 'l'), fresh(I, 'r')
        N = c.N
        s = U
        while isinstance(getattr(s, 'sel', None), tuple) and not (s.sel[0] is e.V):
            s = s.sel[0]
        sel = getattr(s, 'sel', None)
        ov = e.w.arrs[0]
        P = sel[2].src.arrs[0] if sel is not None and isinstance(sel[2].src, Lst) else None
        g = (lambda k: P[k]) if P is not None else (lambda k: k)
        re, im = mat_arrs(e.V)
        rng, rk = z3.And(0 <= k, k < l, l < 2 * N), z3.And(0 <= k, k < N, 0 <= r, r < N)
        out = []
        if P is not None:
            out += [('no eigenvector twice', z3.Implies(rng, P[k] != P[l])), ('ascending order', z3.Implies(rng, ov[P[k]] <= ov[P[l]]))]
        elif e.which != 'eigh':
            out += [('sorted eigenvalues', z3.BoolVal(False))]
        a = ov[g(k)]
        return out + [('as many energies as orbitals', z3.And(iv(en.n) == N, iv(U.nr) == N, iv(U.nc) == N, iv(W.nr) == N, iv(W.nc) == N)),
                      ('the energies are the magnitudes of the lower half of the spectrum', z3.Implies(z3.And(0 <= k, k < N), rv(en.get(k)) == z3.If(a >= 0, a, -a))),
                      ('the upper half of the eigenvectors', z3.Implies(rk, cx_eq(to_cx(U.entry(r, k)), Cx(re[r][g(k)], im[r][g(k)])))),
                      ('the lower half of the eigenvectors', z3.Implies(rk, cx_eq(to_cx(W.entry(r, k)), Cx(re[r + N][g(k)], im[r + N][g(k)]))))]
