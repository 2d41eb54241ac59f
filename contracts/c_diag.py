"""Contracts of qosy/diagonalization.py: matrices of Pauli operators (C17), configurations, reduced
density matrices and entropies (C18)."""
import z3
from values import *
from values import TMat, mat_arrs, code, CUR
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_bits import BIT, POW2, low, high, differ, mono, zero_bits, bits_of_pow2
from c_basis import new_basis, new_os, SOS, contents, unchanged
from c_opstring import new_string, phase, string_snap, string_unchanged, is_1
from c_operator import OPTYPE, new_operator, op_snap, op_unchanged, cx_eq, AR, AI, COO, L_COO_NONE, L_COO_ONE, coef
from c_oplist import OPS
import c_matrix

CONTRACTS = []


def contract(c):
    CONTRACTS.append(c())
    return c


def is_op(t, *ops):
    return z3.Or([t == code(o) for o in ops])


# ------------------------------------------------------------- a string on a configuration
def _pstep(a, k, p):
    b = BIT(p[0], p[1] - 1 - a[1][k])
    return z3.If(is_op(a[0][k], 'Y'), z3.If(b, z3.IntVal(3), z3.IntVal(1)), z3.If(z3.And(is_op(a[0][k], 'Z'), b), z3.IntVal(2), z3.IntVal(0)))


# the power of i from the factors Y (i or -i) and Z (1 or -1)
PPH = Fold('PPH', [AI, AI], [I, I], _pstep)


def _ap_inv(L):
    """The bits of the labels so far are flipped by X and Y, all others are those of conf."""
    ops, las, n, conf, N, k0 = L.E.ghost['apply']
    d, co = L['new_conf'], L['new_coeff']
    f, k = z3.FreshConst(I, 'f'), z3.FreshConst(I, 'k')
    i = L.i
    dz, cz = iv(d), conf
    e = N - 1 - las[k]
    co = co if isinstance(co, Ph) else to_ph(co)
    return [('a configuration', dz >= 0),
            ('labels fit', fa(i, lambda k: las[k] < N, lambda k: las[k])),
            ('bits of the labels so far', fa(n, lambda k: z3.Implies(las[k] < N, BIT(dz, N - 1 - las[k]) == z3.If(z3.And(k < i, is_op(ops[k], 'X', 'Y')), z3.Not(BIT(cz, N - 1 - las[k])), BIT(cz, N - 1 - las[k]))), lambda k: las[k])),
            ('other bits', z3.ForAll([f], z3.Implies(z3.And(f >= 0, z3.Not(touched(L.E, f, i))), BIT(dz, f) == BIT(cz, f)), patterns=[BIT(dz, f)])),
            ('the phase', (co.k - k0 - PPH([ops, las], i, [conf, N])) % 4 == 0)]


def touched(E, f, i):
    """Bit f belongs to one of the first i labels."""
    ops, las, n, conf, N, k0 = E.ghost['apply']
    p = z3.Select(E.ghost['position'], N - 1 - f)
    return z3.And(0 <= p, p < i)


@contract
class ApplyString(Contract):
    """X and Y flip the bit n - 1 - label; Y contributes i (or -i), Z contributes 1 (or -1)."""
    mod, qual, props = 'diagonalization', '_apply_opstring', ['C17']
    cases = ['Pauli', 'Majorana', 'Fermion']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_ap_inv)] if case == 'Pauli' else []

    def setup(self, E, case):
        k0 = fresh(I, 'k0')
        s = new_string(E, 's', case, Ph(k0, 1.0), text=False)
        las, ops = s.f['orbital_labels'], s.f['orbital_operators']
        n, la, op = iv(las.n), las.arrs[0], ops.arrs[0]
        N, conf = fresh(I, 'num_orbitals'), fresh(I, 'conf')
        pos = fresh(AI, 'pos')
        if case == 'Pauli':
            # the class invariant of Pauli strings: strictly increasing labels
            E.assume(z3.And(n >= 0, fa(n, lambda k: z3.And(la[k] >= 0, pos[la[k]] == k, is_op(op[k], 'X', 'Y', 'Z')), lambda k: la[k])))
            l = z3.FreshConst(I, 'l')
            E.assume(z3.ForAll([l], z3.Implies(z3.And(0 <= pos[l], pos[l] < n), la[pos[l]] == l), patterns=[pos[l]]))
        E.assume(z3.And(N >= 0, 0 <= conf, conf < POW2(N)))
        bits_of_pow2(E, N)
        zero_bits(E)
        E.assume(low(conf, N))
        E.ghost['apply'] = (op, la, n, conf, N, k0)
        E.ghost['position'] = pos
        return Ctx([s, conf, N], s=s, n=n, la=la, op=op, conf=conf, N=N, k0=k0, case=case, snap=string_snap(s))

    def raises(self, E, c):
        return [('NotImplementedError', c.case != 'Pauli'), ('ValueError', z3.And(c.case == 'Pauli', z3.Not(fa(c.n, lambda k: c.la[k] < c.N, lambda k: c.la[k]))))]

    def post(self, E, c, res):
        co, d = res
        co = co if isinstance(co, Ph) else to_ph(co)
        f = fresh(I, 'f')
        p = z3.Select(E.ghost['position'], c.N - 1 - f)
        on = z3.And(0 <= p, p < c.n)
        d = iv(d)
        return [('the bits of the new configuration', z3.Implies(z3.And(0 <= f), BIT(d, f) == z3.If(z3.And(on, is_op(c.op[p], 'X', 'Y')), z3.Not(BIT(c.conf, f)), BIT(c.conf, f))), [mention(c.la[p])]),
                ('a configuration of the orbitals', z3.And(0 <= d, d < POW2(c.N)), [high(d, c.N), mention(c.la[z3.Select(E.ghost['position'], c.N - 1 - HIGH(d, c.N))])]),
                ('the coefficient', (co.k - c.k0 - PPH([c.op, c.la], c.n, [c.conf, c.N])) % 4 == 0),
                ('the string is unchanged', string_unchanged(c.s, c.snap))]


from c_bits import HIGH

# ------------------------------------------------------------------- the matrix of a string
IMG = z3.Function('image_of_configuration', SOS, I, I, I)
APR, API = z3.Function('apply_re', SOS, I, I, R), z3.Function('apply_im', SOS, I, I, R)
FITS = z3.Function('labels_fit', SOS, I, B)
OBITS = ['image']


def fits_axiom(E, N):
    """What the contract of _apply_opstring states about a string whose labels are below N."""
    s, k = z3.FreshConst(SOS, 's'), z3.FreshConst(I, 'k')
    E.assume(z3.ForAll([s, k], z3.Implies(z3.And(FITS(s, N), 0 <= k, k < POW2(N)), z3.And(0 <= IMG(s, k, N), IMG(s, k, N) < POW2(N))), patterns=[IMG(s, k, N)]))


def _apply_stub(self, E, args, kw, node):
    s, conf, N = args
    t = s.t
    if E.branch(OPTYPE(t) != code('Pauli')):
        raise PyExc('NotImplementedError', 'op_type')
    if not E.valid(FITS(t, iv(N))):
        if E.branch(z3.Not(FITS(t, iv(N)))):
            raise PyExc('ValueError', 'negative shift count')
    c = iv(conf)
    return (Cx(APR(t, c, iv(N)), API(t, c, iv(N))), IMG(t, c, iv(N)))


ApplyString.stub = _apply_stub
ApplyString.applies = lambda self, E, args, kw: isinstance(args[0], Opq)


def os_entry(s, N, r, c):
    on = IMG(s, c, N) == r
    return Cx(z3.If(on, APR(s, c, N), z3.RealVal(0)), z3.If(on, API(s, c, N), z3.RealVal(0)))


def _tm_inv(L):
    E = L.E
    s, N = E.ghost['tm']
    ro, co, da = L['row_inds'], L['col_inds'], L['data']
    i = L.i
    ok = ('Pauli strings that fit', z3.Implies(i > 0, z3.And(OPTYPE(s) == code('Pauli'), FITS(s, N))))
    if ro.conc or co.conc or da.conc:
        return [('nothing yet', z3.And(i == 0, iv(ro.length()) == 0, iv(co.length()) == 0, iv(da.length()) == 0))]
    return [ok, ('so many triplets', z3.And(iv(ro.n) == i, iv(co.n) == i, iv(da.n) == i)),
            ('the triplets', fa(i, lambda k: z3.And(ro.arrs[0][k] == IMG(s, k, N), co.arrs[0][k] == k, cx_eq(da.get(k), Cx(APR(s, k, N), API(s, k, N)))), lambda k: [ro.arrs[0][k], co.arrs[0][k], da.arrs[0][k]]))]


@contract
class MatrixOfString(Contract):
    """Column c has one entry: the coefficient of the image of configuration c, at its row."""
    mod, qual, props = 'diagonalization', '_to_matrix_opstring', ['C17']
    cases = ['matrix', 'triplets']
    only_raises = 1
    loops = [Loop(_tm_inv, types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)})]

    def setup(self, E, case):
        s, N = new_os(E, 's'), fresh(I, 'num_orbitals')
        E.assume(N >= 0)
        bits_of_pow2(E, N)
        fits_axiom(E, N)
        E.ghost['tm'] = (s.t, N)
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(0 <= r0, r0 < POW2(N), 0 <= c0, c0 < POW2(N)))
        return Ctx([s, N], dict(return_tuple=True) if case == 'triplets' else {}, s=s.t, N=N, case=case, r0=r0, c0=c0)

    def raises(self, E, c):
        return [('NotImplementedError', OPTYPE(c.s) != code('Pauli')), ('ValueError', z3.And(OPTYPE(c.s) == code('Pauli'), z3.Not(FITS(c.s, c.N))))]

    def post(self, E, c, res):
        m = POW2(c.N)
        if c.case == 'triplets':
            ro, co, da = res
            ro, co, da = ro.as_sym(TInt), co.as_sym(TInt), da.as_sym(TCx)
            return [('so many triplets', z3.And(iv(ro.n) == m, iv(co.n) == m, iv(da.n) == m)),
                    ('the triplets', z3.And(ro.arrs[0][c.c0] == IMG(c.s, c.c0, c.N), co.arrs[0][c.c0] == c.c0, cx_eq(da.get(c.c0), Cx(APR(c.s, c.c0, c.N), API(c.s, c.c0, c.N)))))]
        arrs, n = res.coo
        return [('dimensions', z3.And(iv(res.nr) == m, iv(res.nc) == m)),
                ('every entry', cx_eq(res.entry(c.r0, c.c0), os_entry(c.s, c.N, c.r0, c.c0)),
                 [L_COO_NONE.inst(n, *(arrs + [c.r0, c.c0])), L_COO_ONE.inst(n, *(arrs + [c.r0, c.c0, c.c0])), mention(arrs[0][c.c0])])]


# ---------------------------------------------------------------- the matrix of an operator
# concatenated triplets
L_COO_CAT = Lemma('the entry of concatenated triplets is the sum of the entries', [I] + [AI, AI, AR, AR] * 3 + [I, I],
                  lambda n, m, ra, ca, da, ea, rb, cb, db, eb, rc, cc, dc, ec, r, c: (
                      [m >= 0, fa(m, lambda k: z3.And(rc[k] == ra[k], cc[k] == ca[k], dc[k] == da[k], ec[k] == ea[k]), lambda k: [rc[k], ra[k]]),
                       fa(n, lambda k: z3.And(rc[m + k] == rb[k], cc[m + k] == cb[k], dc[m + k] == db[k], ec[m + k] == eb[k]), lambda k: [rb[k], cb[k]])],
                      cx_eq(COO([rc, cc, dc, ec], m + n, [r, c]), cadd(COO([ra, ca, da, ea], m, [r, c]), COO([rb, cb, db, eb], n, [r, c])))),
                  uses=lambda n, m, ra, ca, da, ea, rb, cb, db, eb, rc, cc, dc, ec, r, c: [L_COO_SAME.inst(m, ra, ca, da, ea, rc, cc, dc, ec, r, c), mention(rb[n - 1])],
                  force=lambda n, m, ra, ca, da, ea, rb, cb, db, eb, rc, cc, dc, ec, r, c: [(COO, (rc, cc, dc, ec), m + n, (r, c)), (COO, (rb, cb, db, eb), n, (r, c))])
L_COO_SAME = Lemma('equal triplets, equal entries', [AI, AI, AR, AR] * 2 + [I, I],
                   lambda n, ra, ca, da, ea, rc, cc, dc, ec, r, c: (
                       [fa(n, lambda k: z3.And(rc[k] == ra[k], cc[k] == ca[k], dc[k] == da[k], ec[k] == ea[k]), lambda k: [rc[k], ra[k]])],
                       cx_eq(COO([rc, cc, dc, ec], n, [r, c]), COO([ra, ca, da, ea], n, [r, c]))),
                   uses=lambda n, ra, ca, da, ea, rc, cc, dc, ec, r, c: [mention(ra[n - 1])],
                   force=lambda n, ra, ca, da, ea, rc, cc, dc, ec, r, c: [(COO, (rc, cc, dc, ec), n, (r, c)), (COO, (ra, ca, da, ea), n, (r, c))])

# MSUM(strings, re, im, n; N, r, c): the sum of the terms' matrices
ASO = z3.ArraySort(I, SOS)


def _mterm(a, k, p):
    q = cmul(Cx(a[1][k], a[2][k]), os_entry(a[0][k], p[0], p[1], p[2]))
    return rv(q.re), rv(q.im)


MSUM = Fold('MSUM', [ASO, AR, AR], [I, I, I], _mterm, out='cx')


def _om_inv(L):
    E = L.E
    (n, arr, idx, re, im, t), N, r0, c0 = E.ghost['om']
    ro, co, da = L['row_inds'], L['col_inds'], L['data']
    m = POW2(N)
    want = MSUM([arr, re, im], L.i, [N, r0, c0])
    if ro.conc and co.conc and da.conc:
        return [('nothing yet', z3.And(L.i == 0, z3.BoolVal(not ro.items and not co.items and not da.items)))]
    ro, co, da = ro.as_sym(TInt), co.as_sym(TInt), da.as_sym(TCx)
    q = iv(ro.n)
    return [('Pauli strings that fit', z3.And(z3.Implies(L.i > 0, t == code('Pauli')), fa(L.i, lambda k: FITS(arr[k], N), lambda k: arr[k]))), ('so many triplets', z3.And(q >= 0, iv(co.n) == q, iv(da.n) == q)),
            ('indices in range', fa(q, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < m, 0 <= co.arrs[0][k], co.arrs[0][k] < m), lambda k: [ro.arrs[0][k], co.arrs[0][k]])),
            ('the entry so far', cx_eq(COO([ro.arrs[0], co.arrs[0]] + list(da.arrs), q, [r0, c0]), want))]


def _om_hints(L1, L0=None):
    E = L1.E
    (n, arr, idx, re, im, t), N, r0, c0 = E.ghost['om']
    f = lambda L: [L[x].as_sym(sh) for x, sh in (('row_inds', TInt), ('col_inds', TInt), ('data', TCx))]
    if L0 is None:
        return []
    after = f(L1)
    out = []
    tr = E.ghost.get('triplets')
    if tr is None:
        return []
    new = [x.as_sym(sh) for x, sh in zip((L1['os_row_inds'], L1['os_col_inds'], L1['new_os_data']), (TInt, TInt, TCx))]
    a = lambda l: [l[0].arrs[0], l[1].arrs[0]] + list(l[2].arrs)
    m = POW2(N)
    out = [L_COO_NONE.inst(m, *(a(new) + [r0, c0])), L_COO_ONE.inst(m, *(a(new) + [r0, c0, c0])), mention(new[0].arrs[0][c0])]
    if not any(L0[x].conc for x in ('row_inds', 'col_inds', 'data')):
        old = f(L0)
        out += [L_COO_CAT.inst(m, iv(old[0].n), *(a(old) + a(new) + a(after) + [r0, c0]))]
    return out


def _ms_stub(self, E, args, kw, node):
    s, N, trip = args
    t = s.t
    if E.branch(OPTYPE(t) != code('Pauli')):
        raise PyExc('NotImplementedError', 'op_type')
    if not E.valid(FITS(t, iv(N))):
        if E.branch(z3.Not(FITS(t, iv(N)))):
            raise PyExc('ValueError', 'negative shift count')
    N = iv(N)
    m = POW2(N)
    if trip is True:
        ls = [E.new(Lst.sym(sh, m, name=nm)) for nm, sh in (('os_rows', TInt), ('os_cols', TInt), ('os_data', TCx))]
        ro, co, da = ls
        E.assume(fa(m, lambda k: z3.And(ro.arrs[0][k] == IMG(t, k, N), co.arrs[0][k] == k, cx_eq(da.get(k), Cx(APR(t, k, N), API(t, k, N)))), lambda k: [ro.arrs[0][k], co.arrs[0][k], da.arrs[0][k]]))
        E.ghost['triplets'] = ls
        return tuple(ls)
    r = TOsMat(N).mk([t])
    r.frozen = False
    return E.new(r)


class TOsMat(Shape):
    """The matrix of a string on N orbitals."""
    sorts = [SOS]

    def __init__(self, N):
        self.N = N

    def mk(self, ts):
        t, N = ts[0], self.N
        m = Mat(POW2(N), POW2(N), lambda r, c: os_entry(t, N, iv(r), iv(c)))
        m.os, m.shape, m.frozen = t, self, True
        return m

    def un(self, v):
        if getattr(v, 'os', None) is None:
            raise Unsupported('not the matrix of a string')
        return [v.os]

    def __eq__(self, o):
        return isinstance(o, TOsMat) and o.N.eq(self.N)

    def __hash__(self):
        return hash('TOsMat')


MatrixOfString.stub = _ms_stub


@contract
class ToMatrix(Contract):
    """The sum of the coefficients times the matrices of the strings."""
    mod, qual, props = 'diagonalization', 'to_matrix', ['C17', 'C19']
    cases = ['operator', 'string', 'other']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_om_inv, hints=_om_hints, types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)})] if case == 'operator' else []

    def setup(self, E, case):
        op = new_operator(E, 'op') if case == 'operator' else new_os(E, 's') if case == 'string' else fresh(I, 'x')
        N, r0, c0 = fresh(I, 'num_orbitals'), fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(N >= 0, 0 <= r0, r0 < POW2(N), 0 <= c0, c0 < POW2(N)))
        bits_of_pow2(E, N)
        fits_axiom(E, N)
        sn = op_snap(op) if case == 'operator' else None
        E.ghost['om'] = (sn, N, r0, c0)
        return Ctx([op, N], op=op, N=N, r0=r0, c0=c0, sn=sn, case=case)

    def raises(self, E, c):
        if c.case == 'other':
            return [('ValueError', True)]
        if c.case == 'string':
            return [('NotImplementedError', OPTYPE(c.op.t) != code('Pauli')), ('ValueError', z3.And(OPTYPE(c.op.t) == code('Pauli'), z3.Not(FITS(c.op.t, c.N))))]
        n, arr, idx, re, im, t = c.sn
        return [('NotImplementedError', z3.And(t != code('Pauli'), n > 0)), ('ValueError', z3.And(t == code('Pauli'), z3.Not(fa(n, lambda k: FITS(arr[k], c.N), lambda k: arr[k]))))]

    def post(self, E, c, res):
        m = POW2(c.N)
        want = os_entry(c.op.t, c.N, c.r0, c.c0) if c.case == 'string' else MSUM(list(c.sn[1:2]) + list(c.sn[3:5]), c.sn[0], [c.N, c.r0, c.c0])
        out = [('dimensions', z3.And(iv(res.nr) == m, iv(res.nc) == m)), ('every entry', cx_eq(res.entry(c.r0, c.c0), want))]
        if c.case == 'operator':
            out.append(('the operator is unchanged', op_unchanged(c.op, c.sn)))
        return out


# -------------------------------------------------------------------- expansion in a basis
# TRC(n; s, N, A re, A im, d): sum over k of conj(<k|S|d>) <k|A|d>;  TRS: the sum over d
AAR = z3.ArraySort(I, AR)


def _dterm(a, k, p):
    s, N, re, im, d = p
    q = cmul(conj(os_entry(s, N, k, d)), Cx(re[k][d], im[k][d]))
    return rv(q.re), rv(q.im)


TRC = Fold('TRC', [], [SOS, I, AAR, AAR, I], _dterm, out='cx')


def _tterm(a, k, p):
    q = TRC([], POW2(p[1]), list(p) + [k])
    return q.re, q.im


TRS = Fold('TRS', [], [SOS, I, AAR, AAR], _tterm, out='cx')


def _trace_os(E, M):
    """The trace of S^dagger A for the matrix S of a string (the diagonal of the product, summed)."""
    p = getattr(M, 'prod', None)
    if p is None:
        return NotImplemented
    a, b = p
    s = getattr(getattr(a, 'adj_of', None), 'os', None)
    if s is None or getattr(b, 'arrs', None) is None:
        return NotImplemented
    re, im = mat_arrs(b)
    N = a.adj_of.shape.N
    return TRS([], POW2(N), [s, N, re, im])


c_matrix.TRACE.append(_trace_os)


def new_matrix(E, m, k, name='A'):
    M = TMat.mk([m, k, fresh(AAR, name + '_re'), fresh(AAR, name + '_im')])
    M.frozen = False
    return E.new(M)


@contract
class ToVector(Contract):
    """The trace overlaps with the strings of the basis, divided by 2**num_orbitals."""
    mod, qual, props = 'diagonalization', 'to_vector', ['C17']
    only_raises = 1

    def setup(self, E, case):
        b, N = new_basis(E, 'B'), fresh(I, 'num_orbitals')
        E.assume(N >= 0)
        bits_of_pow2(E, N)
        fits_axiom(E, N)
        A = new_matrix(E, POW2(N), POW2(N))
        return Ctx([A, b, N], A=A, arrs=A.arrs, b=b, N=N, snap=contents(b), k=fresh(I, 'k'))

    def raises(self, E, c):
        n, arr, idx = c.snap
        k = z3.FreshConst(I, 'k')
        bad = z3.Not(fa(n, lambda k: OPTYPE(arr[k]) == code('Pauli'), lambda k: arr[k]))
        unfit = z3.Not(fa(n, lambda k: z3.And(OPTYPE(arr[k]) == code('Pauli'), FITS(arr[k], c.N)), lambda k: arr[k]))
        return [('NotImplementedError', z3.And(bad, z3.BoolVal(False)), bad), ('ValueError', z3.And(unfit, z3.Not(bad)), unfit)]

    def post(self, E, c, res):
        n, arr, idx = c.snap
        re, im = c.arrs
        t = TRS([], POW2(c.N), [arr[c.k], c.N, re, im])
        d = z3.ToReal(POW2(c.N))
        return [('one number for every string', iv(res.n) == n), ('the overlaps', z3.Implies(z3.And(0 <= c.k, c.k < n), cx_eq(res.get(c.k), Cx(t.re / d, t.im / d)))), ('the basis is unchanged', unchanged(c.b, c.snap))]


@contract
class ToOperator(Contract):
    """The operator with the overlaps as the coefficients of the strings of the basis."""
    mod, qual, props = 'diagonalization', 'to_operator', ['C17']
    only_raises = 0

    def setup(self, E, case):
        c = ToVector.setup(self, E, case)
        n, arr, idx = c.snap
        E.assume(z3.And(n > 0, fa(n, lambda k: z3.And(OPTYPE(arr[k]) == code('Pauli'), FITS(arr[k], c.N)), lambda k: arr[k])))
        return c

    def post(self, E, c, res):
        from c_operator import snap_of
        n, arr, idx = c.snap
        re, im = c.arrs
        d = z3.ToReal(POW2(c.N))
        t = TRS([], POW2(c.N), [arr[c.k], c.N, re, im])
        rs = snap_of(res)
        rng = z3.And(0 <= c.k, c.k < n)
        return [('the strings of the basis', z3.And(rs[0] == n, z3.Implies(rng, rs[1][c.k] == arr[c.k]))), ('the coefficients are the overlaps', z3.Implies(rng, cx_eq(coef(rs, arr[c.k]), Cx(t.re / d, t.im / d)))),
                ('type', rs[5] == code('Pauli')), ('the basis is unchanged', unchanged(c.b, c.snap))]
