"""Contracts of the matrices of brackets in qosy/algebra.py (C08)."""
import ast
import z3
from values import *
from values import TMat, mat_arrs, TRec
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from lib import method
from c_basis import new_basis, new_os, SOS, TOS, contents, unchanged, well_formed, sym_basis
from c_operator import OPTYPE, new_operator, op_snap, op_wf, op_unchanged, snap_of, coef, cx_eq, AR, AI, COO, L_COO_NONE, SPARSE_OF
from c_algebra import BRE, BIM, BSTR, BNONE, ASO, mag2
from c_lie import binv
import c_convert

CONTRACTS = []
AAR = z3.ArraySort(I, AR)


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------------------------- matrices as functions
# MDOT(row re, row im, B re, B im, n; c): the sum over k < n of row[k] B[k, c]
MDOT = Fold('MDOT', [AR, AR, AAR, AAR], [I], lambda a, k, p: (lambda q: (rv(q.re), rv(q.im)))(cmul(Cx(a[0][k], a[1][k]), Cx(a[2][k][p[0]], a[3][k][p[0]]))), out='cx')


def _dims(E, ok, node):
    if not E.valid(ok):
        if not E.branch(ok):
            raise PyExc('ValueError', 'dimensions')


def _mat_op(E, op, a, b, node):
    ma, mb = isinstance(a, Mat), isinstance(b, Mat)
    if not (ma or mb):
        return NotImplemented
    t = type(op).__name__
    for x in (a, b):
        if isinstance(x, Mat):
            x.derived = True
    if ma and mb and t in ('Add', 'Sub'):
        _dims(E, z3.And(iv(a.nr) == iv(b.nr), iv(a.nc) == iv(b.nc)), node)
        return E.new(Mat(a.nr, a.nc, lambda r, c: cadd(to_cx(a.entry(r, c)), to_cx(b.entry(r, c)) if t == 'Add' else cneg(to_cx(b.entry(r, c))))))
    if t == 'Mult' and ma != mb:
        m, x = (a, b) if ma else (b, a)
        if isinstance(x, HeapObj):
            raise Unsupported('product of a matrix and {!r}'.format(x))
        return E.new(Mat(m.nr, m.nc, lambda r, c: cmul(to_cx(x), to_cx(m.entry(r, c)))))
    raise Unsupported('operator {} on matrices'.format(t))


L_.BINOPS.insert(0, _mat_op)


def matmul(E, a, b, node):
    _dims(E, iv(a.nc) == iv(b.nr), node)
    a.derived = b.derived = True
    ar, ai = mat_arrs(a)
    br, bi = mat_arrs(b)
    E.ghost['factors'] = ((ar, ai), (br, bi))
    m = E.new(Mat(a.nr, b.nc, lambda r, c: MDOT([ar[iv(r)], ai[iv(r)], br, bi], iv(a.nc), [iv(c)])))
    m.prod = (a, b)
    return m


def adjoint(E, a):
    a.derived = True
    m = E.new(Mat(a.nc, a.nr, lambda r, c: conj(a.entry(c, r))))
    m.adj_of = a
    return m


def _mat_attr(E, o, attr, node):
    if not isinstance(o, Mat):
        return NotImplemented
    if attr == 'dot':
        return Bound(method(lambda E, o, b, node=None: matmul(E, o, b, node) if isinstance(b, Mat) else _no(b)), o)
    if attr in ('getH', 'conjtransp'):
        return Bound(method(lambda E, o, node=None: adjoint(E, o)), o)
    if attr == 'H':
        return adjoint(E, o)
    if attr == 'shape':
        return (o.nr, o.nc)
    return NotImplemented


def _no(b):
    raise Unsupported('product of a matrix and {!r}'.format(b))


L_.GETATTR.append(_mat_attr)


# --------------------------------------------------------------------- structure constants
def sig(mode, x, y, tol):
    """The bracket of the strings x and y is counted."""
    return z3.And(z3.Not(BNONE(mode, x, y)), mag2(Cx(BRE(mode, x, y), BIM(mode, x, y))) >= tol * tol)


def sc(mode, x, y, S, tol):
    """The coefficient of the string S in the bracket of the strings x and y."""
    on = z3.And(sig(mode, x, y, tol), BSTR(mode, x, y) == S)
    z = z3.RealVal(0)
    return Cx(z3.If(on, BRE(mode, x, y), z), z3.If(on, BIM(mode, x, y), z))


def cif(c, q):
    z = z3.RealVal(0)
    return Cx(z3.If(c, rv(q.re), z), z3.If(c, rv(q.im), z))


class G(object):
    pass


def _C(L):
    b = L['basisC']
    d = b.f['_indices']
    if isinstance(d, CDict):
        return None
    return contents(b)


def _results(g, C, p1, p2, j, i):
    """The extended basis holds exactly the strings of the brackets so far."""
    m, tol = g.mode, g.tol
    upto = lambda a, b: z3.And(0 <= a, a < g.nA, 0 <= b, b < j) if i is None else z3.And(0 <= a, a < g.nA, 0 <= b, z3.Or(b < j, z3.And(b == j, a < i)))
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    x, y = g.A[a], g.B[b]
    if C is None:
        return [('no strings yet', z3.ForAll([a, b], z3.Implies(upto(a, b), z3.Not(sig(m, x, y, tol))), patterns=[BNONE(m, x, y)]))]
    n, arr, idx = C
    return [('the strings of the brackets so far are in the extended basis', z3.ForAll([a, b], z3.Implies(z3.And(upto(a, b), sig(m, x, y, tol)), idx[BSTR(m, x, y)] >= 0), patterns=[BNONE(m, x, y), BSTR(m, x, y)])),
            ('every string of the extended basis is the string of a bracket', fa(n, lambda k: z3.And(upto(p1[k], p2[k]), sig(m, g.A[p1[k]], g.B[p2[k]], tol), arr[k] == BSTR(m, g.A[p1[k]], g.B[p2[k]])), lambda k: arr[k]))]


def _trip_ok(g, nC, ro, co, da):
    q = iv(ro.n)
    return z3.And(iv(co.n) == q, iv(da.n) == q, q >= 0), fa(q, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < nC, 0 <= co.arrs[0][k], co.arrs[0][k] < g.nA), lambda k: [ro.arrs[0][k], co.arrs[0][k]])


def _lists(v):
    return [x if not x.conc else x.as_sym(sh) for x, sh in zip(v.items, (TInt, TInt, TCx))]


def _coo(v, g):
    ro, co, da = v
    return COO([ro.arrs[0], co.arrs[0]] + list(da.arrs), iv(ro.n), [g.r0, g.c0])


def _dict(g, d, C, j):
    """The dictionary holds one entry for each of the first j strings of B."""
    s = z3.FreshConst(SOS, 's')
    nC = z3.IntVal(0) if C is None else C[0]
    if isinstance(d, CDict):
        return [('no entries yet', z3.And(z3.BoolVal(not d.d), j == 0))]
    S = Opq(s, 'OS')
    tr = _lists(d.get(S))
    lens, rng = _trip_ok(g, nC, *tr)
    v = _lists(d.get(Opq(g.T0, 'OS')))
    want = z3.And(g.r0 < nC, g.idxB[g.T0] < j)
    q = sc(g.mode, g.A[g.c0], g.T0, C[1][g.r0], g.tol) if C is not None else Cx(z3.RealVal(0), z3.RealVal(0))
    return [('the keys', z3.ForAll([s], d.has(S) == z3.And(0 <= g.idxB[s], g.idxB[s] < j), patterns=[z3.Select(d.idx, s), g.idxB[s]])),
            ('as many rows, columns and values', z3.ForAll([s], z3.Implies(d.has(S), lens), patterns=[z3.Select(d.idx, s), iv(tr[0].n)])),
            ('indices in range', z3.ForAll([s], z3.Implies(d.has(S), rng), patterns=[z3.Select(d.idx, s)])),
            ('the entry of a string of B', z3.Implies(d.has(Opq(g.T0, 'OS')), cx_eq(_coo(v, g), cif(want, q))))]


def _outer(L):
    g = L.E.ghost['sc']
    C = _C(L)
    j = L.i
    return (binv(L['basisC']) if C is not None else [('an empty basis', iv(L['basisC'].f['op_strings'].length()) == 0)]) + _results(g, C, L.G['p1'], L.G['p2'], j, None) + _dict(g, L['matrix_data'], C, j) + [_fermi(g, j, None)]


def _fermi(g, j, i):
    return ('Fermion strings are rejected', z3.Implies(g.t == code('Fermion'), z3.And(z3.Or(j == 0, g.nA == 0), z3.BoolVal(True) if i is None else i == 0)))


def _inner(L):
    g = L.E.ghost['sc']
    C = _C(L)
    j, i = L.outer.i, L.i
    out = (binv(L['basisC']) if C is not None else [('an empty basis', iv(L['basisC'].f['op_strings'].length()) == 0)]) + _results(g, C, L.G['p1'], L.G['p2'], j, i) + _dict(g, L['matrix_data'], C, j) + [_fermi(g, j, i)]
    tr = [L['inds_os_C'], L['inds_os_A'], L['data']]
    nC = z3.IntVal(0) if C is None else C[0]
    if all(x.conc for x in tr):
        return out + [('no triplets', z3.BoolVal(not any(x.items for x in tr)))] + ([('nothing of this string yet', z3.Implies(z3.And(g.r0 < nC, g.c0 < i), z3.Not(z3.And(sig(g.mode, g.A[g.c0], g.B[j], g.tol), BSTR(g.mode, g.A[g.c0], g.B[j]) == C[1][g.r0]))))] if C is not None else [])
    tr = [x if not x.conc else x.as_sym(sh) for x, sh in zip(tr, (TInt, TInt, TCx))]
    lens, rng = _trip_ok(g, nC, *tr)
    q = sc(g.mode, g.A[g.c0], g.B[j], C[1][g.r0], g.tol) if C is not None else Cx(z3.RealVal(0), z3.RealVal(0))
    return out + [('as many rows, columns and values', lens), ('indices in range', rng), ('the entry so far', cx_eq(_coo(tr, g), cif(z3.And(g.r0 < nC, g.c0 < i), q)))]


def _inner_step(L1, L0):
    n0, n1 = (z3.IntVal(0) if _C(L) is None else _C(L)[0] for L in (L0, L1))
    grew = n1 > n0
    gs = L0.G
    return {'p1': z3.If(grew, z3.Store(gs['p1'], n0, iv(L0.i)), gs['p1']), 'p2': z3.If(grew, z3.Store(gs['p2'], n0, iv(L0.outer.i)), gs['p2'])}


def _inner_hints(L1, L0=None):
    """Triplets of rows below the length of the extended basis say nothing about the next row."""
    g = L1.E.ghost['sc']
    L = L0 if L0 is not None else L1
    out = []
    d = L['matrix_data']
    if isinstance(d, SDict):
        ro, co, da = _lists(d.get(Opq(g.T0, 'OS')))
        out.append(L_COO_NONE.inst(iv(ro.n), ro.arrs[0], co.arrs[0], da.arrs[0], da.arrs[1], g.r0, g.c0))
    tr = [L['inds_os_C'], L['inds_os_A'], L['data']]
    if not any(x.conc for x in tr):
        ro, co, da = tr
        out.append(L_COO_NONE.inst(iv(ro.n), ro.arrs[0], co.arrs[0], da.arrs[0], da.arrs[1], g.r0, g.c0))
    return out


def _conv(L):
    """Second pass: the triplets become matrices."""
    g = L.E.ghost['sc']
    d = L['result']
    C = _C(L)
    j = L.i
    nC = z3.IntVal(0) if C is None else C[0]
    if isinstance(d, CDict):
        return [('no entries yet', z3.And(z3.BoolVal(not d.d), j == 0))]
    s = z3.FreshConst(SOS, 's')
    S = Opq(s, 'OS')
    m = d.get(Opq(g.T0, 'OS'))
    ms = d.get(S)
    q = sc(g.mode, g.A[g.c0], g.T0, C[1][g.r0], g.tol) if C is not None else Cx(z3.RealVal(0), z3.RealVal(0))
    return [('the keys', z3.ForAll([s], d.has(S) == z3.And(0 <= g.idxB[s], g.idxB[s] < j), patterns=[z3.Select(d.idx, s), g.idxB[s]])),
            ('dimensions', z3.ForAll([s], z3.Implies(d.has(S), z3.And(iv(ms.nr) == nC, iv(ms.nc) == g.nA)), patterns=[iv(ms.nr), iv(ms.nc)])),
            ('the matrix of a string of B', z3.Implies(z3.And(d.has(Opq(g.T0, 'OS')), g.r0 < nC), cx_eq(m.entry(g.r0, g.c0), q)))]


@contract
class StructureConstants(Contract):
    """For every string T0 of B, column c0 and row r0: the coefficient of the r0-th string of the
    extended basis in the bracket of the c0-th string of A with T0."""
    mod, qual, props = 'algebra', 'structure_constants', ['C08', 'C22']
    cases = ['commutator matrices', 'commutator triplets', 'anticommutator matrices', 'product matrices']
    only_raises = 0

    def case_name(self, case):
        return case

    def loops_for(self, case):
        gh = {'p1': AI, 'p2': AI}
        inner = Loop(_inner, ghosts=gh, ghost_step=_inner_step, hints=_inner_hints, types={'inds_os_C': TLst(TInt), 'inds_os_A': TLst(TInt), 'data': TLst(TCx)}, label='(strings of A)')
        return [Loop(_outer, ghosts=gh, label='(strings of B)'), inner] + ([Loop(_conv, label='(matrices)')] if case.endswith('matrices') else [])

    def setup(self, E, case):
        mode, kind = case.split()
        a, b = new_basis(E, 'A'), new_basis(E, 'B')
        g = G()
        g.nA, g.A, g.idxA = contents(a)
        g.nB, g.B, g.idxB = contents(b)
        g.mode, g.t, g.tol = z3.IntVal(code(mode)), fresh(I, 'type'), fresh(R, 'tol')
        g.r0, g.c0, g.T0 = fresh(I, 'r0'), fresh(I, 'c0'), fresh(SOS, 'T0')
        E.assume(z3.And(g.tol > 0, 0 <= g.r0, 0 <= g.c0, z3.Or(g.c0 < g.nA, g.nA == 0)))
        E.assume(fa(g.nA, lambda k: OPTYPE(g.A[k]) == g.t, lambda k: g.A[k]))
        E.assume(fa(g.nB, lambda k: OPTYPE(g.B[k]) == g.t, lambda k: g.B[k]))
        E.ghost['sc'] = g
        E.gs.update(p1=fresh(AI, 'p1'), p2=fresh(AI, 'p2'))
        return Ctx([a, b], dict(operation_mode=mode, return_extended_basis=True, return_data_tuple=kind == 'triplets', tol=g.tol), a=a, b=b, g=g, sa=contents(a), sb=contents(b), kind=kind)

    def raises(self, E, c):
        return [('NotImplementedError', z3.And(c.g.t == code('Fermion'), c.g.nA > 0, c.g.nB > 0))]

    def post(self, E, c, res):
        g = c.g
        if not isinstance(res, Lst) or not res.conc or len(res.items) != 2:
            return [('a pair', z3.BoolVal(False))]
        d, bc = res.items
        cd = bc.f['_indices']
        C = None if isinstance(cd, CDict) else contents(bc)
        nC = z3.IntVal(0) if C is None else C[0]
        out = well_formed(bc) + _results(g, C, E.gs['p1'], E.gs['p2'], g.nB, None)
        out += [('the bases are unchanged', z3.And(unchanged(c.a, c.sa), unchanged(c.b, c.sb)))]
        if isinstance(d, CDict):
            return out + [('no strings', z3.And(g.nB == 0, z3.BoolVal(not d.d)))]
        s = z3.FreshConst(SOS, 's')
        out.append(('one entry for every string of B', z3.ForAll([s], d.has(Opq(s, 'OS')) == (g.idxB[s] >= 0), patterns=[g.idxB[s]])))
        v = d.get(Opq(g.T0, 'OS'))
        q = sc(g.mode, g.A[g.c0], g.T0, C[1][g.r0], g.tol) if C is not None else Cx(z3.RealVal(0), z3.RealVal(0))
        on = z3.And(g.idxB[g.T0] >= 0, g.r0 < nC)
        if c.kind == 'matrices':
            out += [('dimensions', z3.Implies(on, z3.And(iv(v.nr) == nC, iv(v.nc) == g.nA))), ('every entry', z3.Implies(on, cx_eq(v.entry(g.r0, g.c0), q)))]
        else:
            out += [('every entry of the triplets', z3.Implies(on, cx_eq(_coo(_lists(v), g), q)))]
        return out


def sc_stub(self, E, args, kw, node):
    a, b, mode, ext, trip, tol = args
    if not isinstance(mode, str) or trip is not False:
        raise Unsupported('mode')
    for x in (a, b):
        if isinstance(x.f['_indices'], CDict):
            sym_basis(E, x)
    nA, A, idxA = contents(a)
    nB, B_, idxB = contents(b)
    # the bases of this development hold strings of one type (an invariant of operators and of their bases)
    if nB is not None and E.branch(z3.And(nA > 0, nB > 0)):
        one = z3.And(fa(nA, lambda k: OPTYPE(A[k]) == OPTYPE(A[0]), lambda k: A[k]), fa(nB, lambda k: OPTYPE(B_[k]) == OPTYPE(A[0]), lambda k: B_[k]))
        if not E.valid(one):
            raise Unsupported('bases of several types')
        if E.branch(OPTYPE(A[0]) == code('Fermion')):
            raise PyExc('NotImplementedError', 'Fermion')
    C = new_basis(E, 'C')
    nC, arr, idx = contents(C)
    m = z3.IntVal(code(mode))
    d = E.new(SDict(TOS, TMat, 'sc'))
    E.assume(d.wf())
    s, r, c, k = z3.FreshConst(SOS, 's'), z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c'), z3.FreshConst(I, 'k')
    E.assume(z3.ForAll([s], d.has(Opq(s, 'OS')) == (idxB[s] >= 0), patterns=[z3.Select(d.idx, s)]))
    M = d.get(Opq(s, 'OS'))
    E.assume(z3.ForAll([s], z3.Implies(idxB[s] >= 0, z3.And(iv(M.nr) == nC, iv(M.nc) == nA)), patterns=[iv(M.nr), iv(M.nc)]))
    q = sc(m, A[c], s, arr[r], rv(tol))
    on = z3.And(idxB[s] >= 0, 0 <= r, r < nC, 0 <= c, c < nA)
    for x, y in ((M.arrs[0], q.re), (M.arrs[1], q.im)):
        E.assume(z3.ForAll([s, r, c], z3.Implies(on, x[r][c] == rv(y)), patterns=[x[r][c]]))
    g = G()
    g.nA, g.A, g.nB, g.B, g.mode, g.tol = nA, A, nB, B_, m, rv(tol)
    p1, p2 = fresh(AI, 'p1'), fresh(AI, 'p2')
    for f in _results(g, (nC, arr, idx), p1, p2, nB, None):
        E.assume(f[1])
    E.ghost['sc call'] = (C, p1, p2, a)
    return E.new(Lst.of([d, C])) if ext else d


StructureConstants.stub = sc_stub
StructureConstants.applies = lambda self, E, args, kw: isinstance(args[0], Obj)

# ------------------------------------------------------------------------ the Liouvillian
# LSUM(B, re, im, n; mode, x, S, tol): the coefficient of S in the bracket of x with the first n
# terms of the operator (strings B, coefficients re + i im)


def _lterm(a, k, p):
    q = cmul(Cx(a[1][k], a[2][k]), sc(p[0], p[1], a[0][k], p[2], p[3]))
    return rv(q.re), rv(q.im)


LSUM = Fold('LSUM', [ASO, AR, AR], [I, SOS, SOS, R], _lterm, out='cx')


def _lv(L):
    E = L.E
    (m, B_, _, bre, bim, _), A, C, nA, mode, r0, c0, tol = E.ghost['liou']
    M = L['liouvillian_matrix']
    nC, arr, idx = contents(L['extended_basis'])
    i = L.i
    return [('dimensions', z3.And(iv(M.nr) == nC, iv(M.nc) == nA)),
            ('the entry so far', z3.Implies(z3.And(r0 < nC, c0 < nA), cx_eq(M.entry(r0, c0), LSUM([B_, bre, bim], i, [mode, A[c0], arr[r0], tol]))))]


SC_TOL = z3.RealVal('1/10000000000000000')


def _one_type(E, snap, t):
    n, arr, idx = snap
    E.assume(fa(n, lambda k: OPTYPE(arr[k]) == t, lambda k: arr[k]))


def _lv_post(c, L, C, v, extra=()):
    (m, B_, _, bre, bim, _) = c.so
    nC, arr, idx = C
    return [('dimensions', z3.And(iv(L.nr) == nC, iv(L.nc) == c.nA)), ('every entry', z3.Implies(z3.And(c.r0 < nC, c.c0 < c.nA), cx_eq(L.entry(c.r0, c.c0), v)))]


@contract
class LiouvilleStrings(Contract):
    """Column c holds the coefficients of the bracket of the c-th string with the operator."""
    mod, qual, props = 'algebra', '_liouvillian_matrix_opstrings', ['C08', 'C10']
    cases = [m + x for m in ('commutator', 'anticommutator', 'product') for x in ('', ' only')]
    only_raises = 0
    loops = [Loop(_lv, label='(terms)')]

    def setup(self, E, case):
        mode = case.split()[0]
        b, op = new_basis(E, 'A'), new_operator(E, 'H')
        so = op_snap(op)
        nA, A, idxA = contents(b)
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(r0 >= 0, c0 >= 0))
        _one_type(E, contents(b), so[5])
        m = z3.IntVal(code(mode))
        E.ghost['liou'] = (so, A, None, nA, m, r0, c0, SC_TOL)
        return Ctx([b, op, mode, not case.endswith('only')], b=b, op=op, sb=contents(b), so=so, nA=nA, A=A, m=m, r0=r0, c0=c0, case=case)

    def raises(self, E, c):
        return [('NotImplementedError', z3.And(c.so[5] == code('Fermion'), c.nA > 0, c.so[0] > 0))]

    def post(self, E, c, res):
        Cb, p1, p2, ab = E.ghost['sc call']
        if c.case.endswith('only'):
            L, C = res, Cb
        else:
            L, C = res
        nC, arr, idx = contents(C)
        n, B_, _, bre, bim, _ = c.so
        g = G()
        g.nA, g.A, g.nB, g.B, g.mode, g.tol = c.nA, c.A, n, B_, c.m, SC_TOL
        return _lv_post(c, L, contents(C), LSUM([B_, bre, bim], n, [c.m, c.A[c.c0], arr[c.r0], SC_TOL])) + well_formed(C) + _results(g, contents(C), p1, p2, n, None) + [
            ('the basis and the operator are unchanged', z3.And(unchanged(c.b, c.sb), op_unchanged(c.op, c.so)))]


# ------------------------------------------------------------------ of a list of operators
from c_oplist import OPS, OLEN, OARR, OIDX, ORE, OIM, OTYP, opterm_snap, TOper, new_oplist

# KSUM(OB, idx, re, im, n; mode, y, S, tol): the coefficient of S in the bracket of an operator,
# given by its index and coefficients, with the string y (over the strings OB)
IDX = z3.ArraySort(SOS, I)


def _kterm(a, k, p):
    v = coef((None, None, p[0], p[1], p[2], None), a[0][k])
    q = cmul(sc(p[3], a[0][k], p[4], p[5], p[6]), v)
    return rv(q.re), rv(q.im)


KSUM = Fold('KSUM', [ASO], [IDX, AR, AR, I, SOS, SOS, R], _kterm, out='cx')
# HSUM: the sum over the terms (y, h) of the operator of h KSUM


def _hterm(a, k, p):
    OB, nOB, idx, re, im, mode, S, tol = p
    q = cmul(Cx(a[1][k], a[2][k]), KSUM([OB], nOB, [idx, re, im, mode, a[0][k], S, tol]))
    return rv(q.re), rv(q.im)


HSUM = Fold('HSUM', [ASO, AR, AR], [ASO, I, IDX, AR, AR, I, SOS, R], _hterm, out='cx')
L_MDOT = Lemma('a row times a column, entry by entry', [AR, AR, AAR, AAR, I, ASO, IDX, AR, AR, I, SOS, SOS, R],
               lambda n, ar, ai, br, bi, c, OB, idx, re, im, mode, y, S, tol: (
                   [fa(n, lambda k: (lambda q, v: z3.And(ar[k] == rv(q.re), ai[k] == rv(q.im), br[k][c] == rv(v.re), bi[k][c] == rv(v.im)))(sc(mode, OB[k], y, S, tol), coef((None, None, idx, re, im, None), OB[k])), lambda k: [ar[k], OB[k]])],
                   cx_eq(MDOT([ar, ai, br, bi], n, [c]), KSUM([OB], n, [idx, re, im, mode, y, S, tol]))),
               uses=lambda n, ar, ai, br, bi, c, OB, idx, re, im, mode, y, S, tol: [mention(ar[n - 1], OB[n - 1])],
               force=lambda n, ar, ai, br, bi, c, OB, idx, re, im, mode, y, S, tol: [(MDOT, (ar, ai, br, bi), n, (c,)), (KSUM, (OB,), n, (idx, re, im, mode, y, S, tol))])


def _ob(L):
    """The basis of all strings of the operators so far."""
    E = L.E
    n, ops = E.ghost['oplist']
    b = L['operators_basis']
    if isinstance(b.f['_indices'], CDict):
        return [('nothing yet', z3.And(L.i == 0, iv(b.f['op_strings'].length()) == 0))]
    m, arr, idx = contents(b)
    j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    return binv(b) + [('the strings of the operators so far', z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < L.i, 0 <= k, k < OLEN(ops[j])), idx[OARR(ops[j])[k]] >= 0), patterns=[OARR(ops[j])[k]])),
                      ('of one type', fa(m, lambda k: OPTYPE(arr[k]) == E.ghost['type'], lambda k: arr[k]))]


def _cols(L, i, j):
    """The coefficient matrix so far: entry (k, c0) for every k."""
    E = L.E
    n, ops = E.ghost['oplist']
    c0 = E.ghost['c0']
    m, arr, idx = contents(L['operators_basis'])
    ro, co, da = L['row_inds'], L['col_inds'], L['data']
    if ro.conc and co.conc and da.conc:
        return [('no triplets', z3.BoolVal(not ro.items and not co.items and not da.items)),
                ('nothing of this operator yet', z3.And(z3.Implies(c0 < i, OLEN(ops[c0]) == 0), z3.BoolVal(True) if j is None else z3.Implies(c0 == i, j == 0)))]
    ro, co, da = ro.as_sym(TInt), co.as_sym(TInt), da.as_sym(TCx)
    q = iv(ro.n)
    k = z3.FreshConst(I, 'k')
    S = opterm_snap(ops[c0])
    p = z3.Select(S[2], arr[k])
    v = coef(S, arr[k])
    seen = c0 < i if j is None else z3.Or(c0 < i, z3.And(c0 == i, p < j))
    ent = COO([ro.arrs[0], co.arrs[0]] + list(da.arrs), q, [k, c0])
    return [('as many rows, columns and values', z3.And(iv(co.n) == q, iv(da.n) == q, q >= 0)),
            ('indices in range', fa(q, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < m, 0 <= co.arrs[0][k], co.arrs[0][k] < n), lambda k: [ro.arrs[0][k], co.arrs[0][k]])),
            ('the column so far', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), cx_eq(ent, cif(seen, v))), patterns=[ent.re, ent.im]))]


def _lo(L):
    E = L.E
    (m, B_, _, bre, bim, _), mode, r0, c0, tol = E.ghost['liou']
    n, ops = E.ghost['oplist']
    M = L['liouvillian_matrix']
    nC, arr, idx = contents(L['extended_basis'])
    nO, OB, _ = contents(L['operators_basis'])
    i = L.i
    S = opterm_snap(ops[c0])
    return [('dimensions', z3.And(iv(M.nr) == nC, iv(M.nc) == n)),
            ('the entry so far', z3.Implies(z3.And(r0 < nC, c0 < n), cx_eq(M.entry(r0, c0), HSUM([B_, bre, bim], i, [OB, nO, S[2], S[3], S[4], mode, arr[r0], tol]))))]


def _lo_hints(L1, L0=None):
    E = L1.E
    L = L0 if L0 is not None else L1
    (m, B_, _, bre, bim, _), mode, r0, c0, tol = E.ghost['liou']
    n, ops = E.ghost['oplist']
    nO, OB, _ = contents(L['operators_basis'])
    nC, arr, idx = contents(L['extended_basis'])
    S = opterm_snap(ops[c0])
    sd, V = L['s_constants'], L['coeffs_operators']
    y = B_[L.i]
    M = sd.get(Opq(y, 'OS'))
    br, bi = mat_arrs(V)
    k = z3.FreshConst(I, 'k')
    ar, ai = M.arrs[0][r0], M.arrs[1][r0]
    return [L_MDOT.inst(nO, ar, ai, br, bi, c0, OB, S[2], S[3], S[4], mode, y, arr[r0], tol)]


@contract
class LiouvilleOperators(Contract):
    """Column c holds the coefficients of the bracket of the c-th operator with the operator."""
    mod, qual, props = 'algebra', '_liouvillian_matrix_operators', ['C08', 'C10']
    cases = ['commutator', 'anticommutator', 'product', 'commutator only']
    only_raises = 0
    loops = [Loop(_ob, label='(operators)'), Loop(lambda L: _cols(L, L.i, None), label='(columns)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}),
             Loop(lambda L: _cols(L, L.outer.i, L.i), label='(terms of an operator)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}),
             Loop(_lo, label='(terms)', hints=_lo_hints)]

    def setup(self, E, case):
        mode = case.split()[0]
        l, op = new_oplist(E), new_operator(E, 'H')
        so = op_snap(op)
        n, ops = iv(l.n), l.arrs[0]
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(r0 >= 0, 0 <= c0, c0 < n))
        E.assume(fa(n, lambda k: OTYP(ops[k]) == so[5], lambda k: ops[k]))
        m = z3.IntVal(code(mode))
        E.ghost['oplist'], E.ghost['c0'], E.ghost['type'] = (n, ops), c0, so[5]
        E.ghost['liou'] = (so, m, r0, c0, SC_TOL)
        return Ctx([l, op, mode, not case.endswith('only')], l=l, op=op, so=so, n=n, ops=ops, m=m, r0=r0, c0=c0, case=case)

    def raises(self, E, c):
        k = z3.FreshConst(I, 'k')
        some = z3.Exists([k], z3.And(0 <= k, k < c.n, OLEN(c.ops[k]) > 0))
        return [('NotImplementedError', z3.And(c.so[5] == code('Fermion'), c.so[0] > 0, some), z3.And(c.so[5] == code('Fermion'), c.so[0] > 0))]

    def post(self, E, c, res):
        Cb, p1, p2, ob = E.ghost['sc call']
        if c.case.endswith('only'):
            L, C = res, Cb
        else:
            L, C = res
        nC, arr, idx = contents(C)
        nO, OB, oidx = contents(ob)
        n, B_, _, bre, bim, _ = c.so
        S = opterm_snap(c.ops[c.c0])
        return [('dimensions', z3.And(iv(L.nr) == nC, iv(L.nc) == c.n)),
                ('every entry', z3.Implies(c.r0 < nC, cx_eq(L.entry(c.r0, c.c0), HSUM([B_, bre, bim], n, [OB, nO, S[2], S[3], S[4], c.m, arr[c.r0], SC_TOL])))),
                ('the operator is over the strings', fa(S[0], lambda k: oidx[S[1][k]] >= 0, lambda k: S[1][k])),
                ('the operators are unchanged', z3.And(op_unchanged(c.op, c.so), iv(c.l.n) == c.n, c.l.arrs[0] == c.ops))] + well_formed(C)


# --------------------------------------------------------------------- dispatch, commutants
class _Bracket(Contract):
    mod = 'algebra'
    only_raises = 1


LRE, LIM = z3.Function('liouvillian_re', I, I, I, R), z3.Function('liouvillian_im', I, I, I, R)
LROWS = z3.Function('liouvillian_rows', I, I)


def _lm(E, kind, ncols, mode, ext, who):
    """The matrix returned by one of the two functions above, as a value."""
    tag = z3.IntVal(code('liouvillian {} {}'.format(kind, mode)))
    E.ghost.setdefault('lm calls', []).append((kind, mode, who))
    E.assume(LROWS(tag) >= 0)
    M = E.new(Mat(LROWS(tag), ncols, lambda r, c: Cx(LRE(tag, iv(r), iv(c)), LIM(tag, iv(r), iv(c)))))
    M.tag = tag
    if not ext:
        return M
    C = new_basis(E, 'ext')
    E.assume(contents(C)[0] == LROWS(tag))
    E.ghost['ext'] = C
    return (M, C)


LiouvilleStrings.stub = lambda self, E, args, kw, node: _lm(E, 'strings', contents(args[0])[0], args[2], args[3], (args[0], args[1]))
LiouvilleOperators.stub = lambda self, E, args, kw, node: _lm(E, 'operators', iv(args[0].n), args[2], args[3], (args[0], args[1]))


@contract
class Liouville(Contract):
    """By the kind of the basis."""
    mod, qual, props = 'algebra', 'liouvillian_matrix', ['C08', 'C10']
    cases = ['basis', 'operators', 'no operators', 'other']
    only_raises = 1

    def setup(self, E, case):
        mode, ext = E.ghost.get('mode', 'anticommutator'), True
        b = new_basis(E, 'A') if case == 'basis' else new_oplist(E) if case == 'operators' else E.new(Lst.of([])) if case == 'no operators' else fresh(I, 'x')
        op = new_operator(E, 'H')
        if case == 'operators':
            E.assume(iv(b.n) > 0)
        return Ctx([b, op, mode, ext], b=b, op=op, case=case)

    def raises(self, E, c):
        return [('IndexError', c.case == 'no operators'), ('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        kind = 'strings' if c.case == 'basis' else 'operators'
        call = E.ghost.get('lm calls')
        M, C = res
        return [('the matrix of the basis', z3.BoolVal(call is not None and len(call) == 1 and call[0][:2] == (kind, 'anticommutator') and call[0][2][0] is c.b and call[0][2][1] is c.op)),
                ('the extended basis', z3.BoolVal(C is E.ghost.get('ext')))]


@contract
class Commutant(Contract):
    """The conjugate transpose of the Liouvillian matrix times the Liouvillian matrix."""
    mod, qual, props = 'algebra', 'commutant_matrix', ['C08', 'C10']
    cases = ['basis', 'operators', 'basis only', 'operators only']

    def setup(self, E, case):
        b = new_basis(E, 'A') if case.startswith('basis') else new_oplist(E)
        if case.startswith('operators'):
            E.assume(iv(b.n) > 0)
        op = new_operator(E, 'H')
        r, c = fresh(I, 'r'), fresh(I, 'c')
        return Ctx([b, op, 'anticommutator', not case.endswith('only')], b=b, op=op, case=case, r=r, c=c)

    def post(self, E, c, res):
        kind = 'strings' if c.case.startswith('basis') else 'operators'
        tag = z3.IntVal(code('liouvillian {} anticommutator'.format(kind)))
        M = res if c.case.endswith('only') else res[0]
        n = contents(c.b)[0] if kind == 'strings' else iv(c.b.n)
        call = E.ghost.get('lm calls')
        # the arrays of the two factors
        ar, ai, br, bi = [fresh(s, 'f') for s in (AR, AR, AAR, AAR)]
        k, l = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'l')
        want = GRAM([], LROWS(tag), [tag, c.r, c.c])
        h = []
        f = E.ghost.get('factors')
        if f is not None:
            (ar, ai), (br, bi) = f
            h = [L_GRAM.inst(LROWS(tag), ar[c.r], ai[c.r], br, bi, tag, c.r, c.c)]
        out = [('of the basis and the operator', z3.BoolVal(call is not None and len(call) == 1 and call[0][:2] == (kind, 'anticommutator') and call[0][2][0] is c.b and call[0][2][1] is c.op)),
               ('dimensions', z3.And(iv(M.nr) == n, iv(M.nc) == n)),
               ('every entry', cx_eq(M.entry(c.r, c.c), want), h)]
        return out if c.case.endswith('only') else out + [('the extended basis', z3.BoolVal(res[1] is E.ghost.get('ext')))]


def _gterm(a, k, p):
    q = cmul(Cx(LRE(p[0], k, p[1]), -LIM(p[0], k, p[1])), Cx(LRE(p[0], k, p[2]), LIM(p[0], k, p[2])))
    return rv(q.re), rv(q.im)


GRAM = Fold('GRAM', [], [I, I, I], _gterm, out='cx')
L_GRAM = Lemma('an entry of the product of the adjoint and the matrix', [AR, AR, AAR, AAR, I, I, I],
               lambda n, ar, ai, br, bi, tag, r, c: (
                   [fa(n, lambda k: z3.And(ar[k] == LRE(tag, k, r), ai[k] == -LIM(tag, k, r), br[k][c] == LRE(tag, k, c), bi[k][c] == LIM(tag, k, c)), lambda k: ar[k])],
                   cx_eq(MDOT([ar, ai, br, bi], n, [c]), GRAM([], n, [tag, r, c]))),
               uses=lambda n, ar, ai, br, bi, tag, r, c: [mention(ar[n - 1])],
               force=lambda n, ar, ai, br, bi, tag, r, c: [(MDOT, (ar, ai, br, bi), n, (c,)), (GRAM, (), n, (tag, r, c))])
