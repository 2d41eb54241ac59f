"""Contracts of qosy/conversion.py (C06, C07)."""
import z3
from values import *
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_opstring import new_string, string_snap, string_unchanged, is_in, is_1, is_j, NAB, majorana_odd
from c_basis import new_basis, new_os, SOS, TOS, contents, unchanged
from c_operator import OPTYPE, new_operator, op_snap, op_wf, op_unchanged, snap_of, coef, cx_eq, AR, COO, SPARSE_OF
from c_algebra import canonical, increasing, BRE, BIM, BSTR, BNONE, ASO
from c_transform import RSUM, rule_snap, _entry, _sm_inv

CONTRACTS = []
AI = z3.ArraySort(I, I)
TY = {t: z3.IntVal(code(t)) for t in ('Pauli', 'Majorana', 'Fermion')}


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------ strings named by what they are made of
# When a function under contract builds strings whose contents the specification names, the
# new string is recognised by proving that its operators, labels and type are the expected ones.
def _expected(E, cls, args, kw, node):
    ex = E.ghost.get('expected strings')
    if ex is None or cls.name != 'OperatorString':
        return NotImplemented
    ops, las, ty = (list(args) + [None] * 3)[:3]
    ty = kw.get('op_type', ty)
    pf = args[3] if len(args) > 3 else kw.get('prefactor', 1.0)
    if is_z(pf) or not isinstance(pf, (int, float)) or pf != 1.0:
        raise Unsupported('prefactor')
    ops = Lst.of(list(ops)) if isinstance(ops, tuple) else ops
    las = Lst.of(list(las)) if isinstance(las, tuple) else las
    if not isinstance(las, Lst):
        las = L_._list(E, [las], {}, node)
    no, nl = iv(ops.length()), iv(las.length())
    if not E.valid(no == nl):
        if not E.branch(no == nl):
            raise PyExc('ValueError', 'lengths')
    for s, n, op, la, t in ex(E):
        o_ok = (lambda k: sv(ops.items[k]) if ops.conc else ops.as_sym(TStr).arrs[0][k])
        l_ok = (lambda k: iv(las.items[k]) if las.conc else las.as_sym(TInt).arrs[0][k])
        if ops.conc and las.conc:
            m = len(ops.items)
            goal = z3.And([sv(ty) == t, n == m] + [z3.And(o_ok(k) == op(z3.IntVal(k)), l_ok(k) == la(z3.IntVal(k))) for k in range(m)])
        else:
            so, sl = ops.as_sym(TStr), las.as_sym(TInt)
            k = fresh(I, 'k')
            goal = z3.And(sv(ty) == t, no == n, z3.Implies(z3.And(0 <= k, k < no), z3.And(so.arrs[0][k] == op(k), sl.arrs[0][k] == la(k))))
        if E.valid(goal):
            return Opq(s, 'OS')
    s = new_os(E, 'built')
    E.assume(OPTYPE(s.t) == sv(ty))
    return s


L_.NEW_OBJ.append(_expected)


def _zero_matrix(E, args, kw, node):
    v = args[0]
    if not isinstance(v, tuple) or len(v) != 2 or not all(is_int(x) for x in v):
        return NotImplemented
    z = z3.RealVal(0)
    return E.new(Mat(iv(v[0]), iv(v[1]), lambda r, c: Cx(z, z)))


SPARSE_OF.append(_zero_matrix)

# ----------------------------------------------------------------- Jordan-Wigner (strings)
EMPTY = z3.Function('identity_string', I, SOS)
IMG = z3.Function('jordan_wigner_factor', I, I, SOS)     # image of the operator o on orbital l
JRES = z3.Function('jw_string', I, SOS)                  # the product of the first i images
JRE, JIM = z3.Function('jw_re', I, R), z3.Function('jw_im', I, R)
PRODUCT = z3.IntVal(code('product'))
# a_j = Z_0 .. Z_{j-1} X_j, b_j = Z_0 .. Z_{j-1} Y_j, d_j = Z_j
PAIRS = {'X': 'A', 'Y': 'B', 'Z': 'D'}


def _jw_expected(E):
    src, dst, pairs, tail = E.ghost['jw']
    out = [(EMPTY(TY[dst]), z3.IntVal(0), lambda k: z3.IntVal(0), lambda k: z3.IntVal(0), TY[dst])]
    o, l = E.ghost['jw current']
    for a, b in pairs:
        c = code(b)
        if b == tail:
            out.append((IMG(z3.IntVal(code(a)), l), z3.IntVal(1), lambda k, c=c: z3.IntVal(c), lambda k: l, TY[dst]))
        else:
            out.append((IMG(z3.IntVal(code(a)), l), l + 1, lambda k, c=c: z3.If(k < l, z3.IntVal(code(tail)), z3.IntVal(c)), lambda k: k, TY[dst]))
    return out


def _jw_inv(L):
    E = L.E
    ops, las, p = E.ghost['jw string']
    i = L.i
    E.ghost['jw current'] = (ops[i], las[i])
    c = to_cx(L['total_coeff'])
    r = L['result']
    if not isinstance(r, Opq):
        raise Unsupported('result')
    return [('the string so far', r.t == JRES(i)), ('its type', OPTYPE(r.t) == TY[E.ghost['jw'][1]]), ('the coefficient so far', cx_eq(c, cmul(to_cx(p), Cx(JRE(i), JIM(i)))))]


@contract
class JordanWigner(Contract):
    """The product of the images of the factors, in their order."""
    mod, qual, props = 'conversion', '_jordan_wigner', ['C06']
    cases = ['Pauli', 'Majorana', 'Fermion']
    only_raises = 1

    def loops_for(self, case):
        return [] if case == 'Fermion' else [Loop(_jw_inv, types={'total_coeff': TCx, 'result': TOS})]

    def setup(self, E, case):
        ops = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D'), 'Fermion': ('CDag', 'C')}[case]
        k = fresh(I, 'pf')
        s = new_string(E, 's', case, 1.0 if case == 'Pauli' else Ph(k, 1.0), text=False)
        canonical(E, s, ops)
        E.assume(z3.Or(k == 0, k == 1))
        n, o, l, _, p = string_snap(s)
        E.assume(fa(n, lambda j: l[j] >= 0, lambda j: l[j]))
        E.assume(z3.And(JRE(0) == 1, JIM(0) == 0))
        to = 'Majorana' if case == 'Pauli' else 'Pauli'
        E.assume(JRES(0) == EMPTY(TY[to]))
        E.assume(z3.And([OPTYPE(EMPTY(t)) == t for t in TY.values()]))
        # the images by what they are made of; the products by the contract of product
        j, x, y = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'x'), z3.FreshConst(I, 'y')
        E.assume(z3.ForAll([x, y], OPTYPE(IMG(x, y)) == TY[to], patterns=[IMG(x, y)]))
        img = IMG(o[j], l[j])
        q = BSTR(PRODUCT, JRES(j), img)
        co = cmul(Cx(JRE(j), JIM(j)), Cx(BRE(PRODUCT, JRES(j), img), BIM(PRODUCT, JRES(j), img)))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(JRES(j + 1) == q, JRE(j + 1) == rv(co.re), JIM(j + 1) == rv(co.im))), patterns=[q, BRE(PRODUCT, JRES(j), img)]))
        pairs = [(a, b) if case == 'Pauli' else (b, a) for a, b in PAIRS.items()]
        E.ghost['jw'] = (case, to, pairs, PAIRS['Z'] if case == 'Pauli' else 'Z')
        E.ghost['jw string'] = (o, l, p)
        E.ghost['jw current'] = (z3.IntVal(0), z3.IntVal(0))
        E.ghost['expected strings'] = _jw_expected
        return Ctx([s], s=s, snap=string_snap(s), case=case)

    def raises(self, E, c):
        return [('ValueError', c.case == 'Fermion')]

    def post(self, E, c, res):
        co, r = res
        n, o, l, _, p = c.snap
        return [('the product of the images in the order of the factors', r.t == JRES(n)),
                ('the coefficient', cx_eq(co, cmul(to_cx(p), Cx(JRE(n), JIM(n))))), ('the string is unchanged', string_unchanged(c.s, c.snap))]


# the conversion of one string, as a value
JWR, JWI = z3.Function('jw_coeff_re', SOS, R), z3.Function('jw_coeff_im', SOS, R)
JWS = z3.Function('jw_image', SOS, SOS)


def _opq(self, E, args, kw):
    return isinstance(args[0], Opq)


def _jw_stub(self, E, args, kw, node):
    t = args[0].t
    if not E.branch(z3.Or(OPTYPE(t) == TY['Pauli'], OPTYPE(t) == TY['Majorana'])):
        raise PyExc('ValueError', 'type')
    E.assume(OPTYPE(JWS(t)) == z3.If(OPTYPE(t) == TY['Pauli'], TY['Majorana'], TY['Pauli']))
    return (Cx(JWR(t), JWI(t)), Opq(JWS(t), 'OS'))


JordanWigner.stub, JordanWigner.applies = _jw_stub, _opq


def op_of(E, rid, s, to):
    """The operator with the terms of rule rid for the string s."""
    o = new_operator(E, 'conv', SStr(to) if is_z(to) else to)
    n, arr, idx, re, im, t = op_snap(o)
    N, A, X, RE, IM, T = rule_snap(rid, s)
    E.assume(z3.And(n == N, arr == A, idx == X, re == RE, im == IM))
    return o


# numbers of the "rules": conversion of Majorana strings, Fermion strings, any string to a type
MF = z3.Function('majorana_to_fermion', B, I)
FM = z3.Function('fermion_to_majorana', B, I)
CONV = z3.Function('conversion', I, B, I)


class StringConversion(Contract):
    """Only the use by its callers is described here: the result is a function of the string."""
    mod = 'conversion'


def _fs_stub(src, dst, f):
    def stub(self, E, args, kw, node):
        s, inc = args
        if not E.branch(OPTYPE(s.t) == TY[src]):
            raise PyExc('ValueError', 'type')
        return op_of(E, f(bv(inc)), s.t, dst)
    return stub


MAJ = type('MajStub', (Contract,), dict(mod='conversion', qual='_convert_majorana_string', props=[], stub=_fs_stub('Majorana', 'Fermion', MF), applies=lambda self, E, a, k: isinstance(a[0], Opq)))
FER = type('FerStub', (Contract,), dict(mod='conversion', qual='_convert_fermion_string', props=[], stub=_fs_stub('Fermion', 'Majorana', FM), applies=lambda self, E, a, k: isinstance(a[0], Opq)))
contract(MAJ)
contract(FER)


# Fermion to Pauli: the Jordan-Wigner image of every Majorana term
FPS = Fold('FPS', [ASO, AR, AR], [SOS], lambda a, k, p: (lambda q, on: (z3.If(on, rv(q.re), z3.RealVal(0)), z3.If(on, rv(q.im), z3.RealVal(0))))(
    cmul(Cx(JWR(a[0][k]), JWI(a[0][k])), Cx(a[1][k], a[2][k])), JWS(a[0][k]) == p[0]), out='cx')
L_FPS_NONE = Lemma('a sum over other strings is zero', [ASO, AR, AR, SOS],
                   lambda n, a, re, im, s: ([fa(n, lambda k: JWS(a[k]) != s, lambda k: a[k])], cx_eq(FPS([a, re, im], n, [s]), Cx(z3.RealVal(0), z3.RealVal(0)))),
                   uses=lambda n, a, re, im, s: [mention(a[n - 1])], force=lambda n, a, re, im, s: [(FPS, (a, re, im), n, (s,))])
L_FPS_ONE = Lemma('a sum with one such string is its term', [ASO, AR, AR, SOS, I],
                  lambda n, a, re, im, s, k0: ([0 <= k0, k0 < n, JWS(a[k0]) == s, fa(n, lambda k: z3.Implies(k != k0, JWS(a[k]) != s), lambda k: a[k])],
                                               cx_eq(FPS([a, re, im], n, [s]), cmul(Cx(JWR(a[k0]), JWI(a[k0])), Cx(re[k0], im[k0])))),
                  uses=lambda n, a, re, im, s, k0: [L_FPS_NONE.inst(n - 1, a, re, im, s), mention(a[n - 1])], force=lambda n, a, re, im, s, k0: [(FPS, (a, re, im), n, (s,))])


def _fp_inv(L):
    N, A, X, RE, IM, T = L.E.ghost['majorana']
    pc, ps = L['pauli_coeffs'], L['pauli_op_strings']
    i = L.i
    if pc.conc and ps.conc:
        return [('nothing yet', z3.And(i == 0, z3.BoolVal(not pc.items and not ps.items)))]
    pc, ps = pc.as_sym(TCx), ps.as_sym(TOS)
    return [('lengths', z3.And(iv(pc.n) == i, iv(ps.n) == i)),
            ('the images so far', fa(i, lambda k: z3.And(ps.arrs[0][k] == JWS(A[k]), OPTYPE(ps.arrs[0][k]) == TY['Pauli'], cx_eq(pc.get(k), cmul(Cx(JWR(A[k]), JWI(A[k])), Cx(RE[k], IM[k])))), lambda k: [ps.arrs[0][k]]))]


@contract
class ConvertString(Contract):
    """The conversion of a string, by its type and the requested one."""
    mod, qual, props = 'conversion', '_convert_operator_string', ['C06', 'C07']
    cases = [a + ' to ' + b for a in TY for b in TY] + ['unknown']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_fp_inv)] if case == 'Fermion to Pauli' else []

    def setup(self, E, case):
        a, b = case.split(' to ') if ' to ' in case else ('Pauli', 'Boson')
        s = new_os(E, 's')
        inc = fresh(B, 'inc')
        E.assume(OPTYPE(s.t) == TY[a])
        c = Ctx([s, b, inc], s=s, a=a, b=b, inc=inc, S0=fresh(SOS, 'S0'))
        E.ghost['majorana'] = rule_snap(FM(inc), s.t)
        if case == 'Fermion to Pauli':
            x, y = z3.FreshConst(SOS, 'x'), z3.FreshConst(SOS, 'y')
            E.assume(z3.ForAll([x, y], z3.Implies(z3.And(JWS(x) == JWS(y), OPTYPE(x) == OPTYPE(y)), x == y), patterns=[z3.MultiPattern(JWS(x), JWS(y))]),
                     'different Majorana strings have different Jordan-Wigner images (the mapping is invertible)')
        return c

    def raises(self, E, c):
        return [('NotImplementedError', c.b == 'Boson')]

    def post(self, E, c, res):
        rs = snap_of(res)
        S0, s = c.S0, c.s.t
        z = z3.RealVal(0)
        one = lambda t, q: Cx(z3.If(t == S0, rv(q.re), z), z3.If(t == S0, rv(q.im), z))
        jw = lambda s: (JWS(s), Cx(JWR(s), JWI(s)))
        out = op_wf(res) + [('its type', rs[5] == z3.IntVal(code(c.b)))]
        h = []
        if c.a == c.b:
            want = one(s, Cx(z3.RealVal(1), z))
        elif (c.a, c.b) in (('Pauli', 'Majorana'), ('Majorana', 'Pauli')):
            want = one(*jw(s))
        elif (c.a, c.b) == ('Majorana', 'Fermion'):
            want = coef(rule_snap(MF(c.inc), s), S0)
        elif (c.a, c.b) == ('Fermion', 'Majorana'):
            want = coef(rule_snap(FM(c.inc), s), S0)
        elif (c.a, c.b) == ('Pauli', 'Fermion'):
            t, q = jw(s)
            want = cmul(q, coef(rule_snap(MF(c.inc), t), S0))
        else:
            N, A, X, RE, IM, T = rule_snap(FM(c.inc), s)
            want = FPS([A, RE, IM], N, [S0])
            p = z3.Select(rs[2], S0)
            h = [L_FPS_NONE.inst(N, A, RE, IM, S0), L_FPS_ONE.inst(N, A, RE, IM, S0, p), mention(p, JWS(A[p]))]
        return out + [('the coefficient of any string', cx_eq(coef(rs, S0), want), h)]


def _cs_stub(self, E, args, kw, node):
    s, to, inc = args
    return op_of(E, CONV(sv(to), bv(inc)), s.t, sv(to))


ConvertString.stub, ConvertString.applies = _cs_stub, _opq


def _co_inv(L):
    n, arr, idx, re, im, t = L.E.ghost['op']
    rid, S0, to = L.E.ghost['conv']
    rs = snap_of(L['new_operator'])
    return op_wf(L['new_operator']) + [('type', rs[5] == to), ('the coefficient so far', cx_eq(coef(rs, S0), RSUM([arr, re, im], L.i, [rid, S0])))]


@contract
class ConvertOperator(Contract):
    """Linear extension of the conversion of strings; the operator is unchanged."""
    mod, qual, props = 'conversion', '_convert_operator', ['C06', 'C07']
    loops = [Loop(_co_inv)]

    def setup(self, E, case):
        a = new_operator(E, 'a')
        to, inc, S0 = fresh(I, 'to'), fresh(B, 'inc'), fresh(SOS, 'S0')
        E.ghost['op'] = op_snap(a)
        E.ghost['conv'] = (CONV(to, inc), S0, to)
        return Ctx([a, SStr(to), inc], a=a, sa=op_snap(a), to=to, S0=S0, rid=CONV(to, inc))

    def post(self, E, c, res):
        n, arr, idx, re, im, t = c.sa
        rs = snap_of(res)
        return op_wf(res) + [('every term is converted, linearly', cx_eq(coef(rs, c.S0), RSUM([arr, re, im], n, [c.rid, c.S0]))), ('type', rs[5] == c.to),
                             ('the operator is unchanged', op_unchanged(c.a, c.sa))]


@contract
class Convert(Contract):
    mod, qual, props = 'conversion', 'convert', ['C06', 'C07']
    cases = ['string', 'operator', 'other']
    only_raises = 1

    def setup(self, E, case):
        a = new_os(E, 's') if case == 'string' else new_operator(E, 'a') if case == 'operator' else fresh(I, 'x')
        to, inc = fresh(I, 'to'), fresh(B, 'inc')
        return Ctx([a, SStr(to), inc], a=a, to=to, inc=inc, case=case, sa=op_snap(a) if case == 'operator' else None, S0=fresh(SOS, 'S0'))

    def raises(self, E, c):
        return [('TypeError', c.case == 'other')]

    def post(self, E, c, res):
        rs = snap_of(res)
        rid = CONV(c.to, c.inc)
        if c.case == 'string':
            want = coef(rule_snap(rid, c.a.t), c.S0)
        else:
            n, arr, idx, re, im, t = c.sa
            want = RSUM([arr, re, im], n, [rid, c.S0])
        return [('the converted value', cx_eq(coef(rs, c.S0), want)), ('type', rs[5] == c.to)]


def _conv_op_stub(self, E, args, kw, node):
    a, to, inc = args
    sa = op_snap(a)
    r = new_operator(E, 'conv', SStr(sv(to)))
    rs = op_snap(r)
    s = z3.FreshConst(SOS, 's')
    E.assume(z3.ForAll([s], cx_eq(coef(rs, s), RSUM([sa[1], sa[3], sa[4]], sa[0], [CONV(sv(to), bv(inc)), s])), patterns=[z3.Select(rs[2], s)]))
    return r


ConvertOperator.stub = _conv_op_stub


# ---------------------------------------------------------------------- conversion matrix
def _cm_inv(L, i, j):
    nf, af, m, arr, rid, r0, c0, tol = L.E.ghost['conv matrix']
    ro, co, da = L['row_inds'], L['col_inds'], L['data']
    p, v = conv_entry(rid, af, arr, r0, c0, tol)
    z = z3.RealVal(0)
    seen = c0 < i if j is None else z3.Or(c0 < i, z3.And(c0 == i, p < j))
    want = Cx(z3.If(seen, v.re, z), z3.If(seen, v.im, z))
    k2 = z3.FreshConst(I, 'k')
    out = [('every converted term is in the target basis', z3.And(_all_in(L.E, i), z3.BoolVal(True) if j is None else _all_in_row(L.E, i, j)))]
    if ro.conc and co.conc and da.conc:
        return out + [('nothing yet', cx_eq(want, Cx(z, z))), ('no triplets', z3.BoolVal(not ro.items and not co.items and not da.items))]
    ro, co, da = ro.as_sym(TInt), co.as_sym(TInt), da.as_sym(TCx)
    q = iv(ro.n)
    return out + [('as many columns', iv(co.n) == q), ('as many values', iv(da.n) == q), ('not negative', q >= 0),
                  ('indices in range', fa(q, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < m, 0 <= co.arrs[0][k], co.arrs[0][k] < nf), lambda k: [ro.arrs[0][k], co.arrs[0][k]])),
                  ('the entry so far', cx_eq(COO([ro.arrs[0], co.arrs[0]] + da.arrs, q, [r0, c0]), want))]


def _all_in_row(E, i, j):
    nf, af, m, arr, rid, r0, c0, tol = E.ghost['conv matrix']
    N, A, X, RE, IM, T = rule_snap(rid, af[i])
    return fa(j, lambda k: z3.Implies(RE[k] * RE[k] + IM[k] * IM[k] > tol * tol, z3.Select(E.ghost['target idx'], A[k]) >= 0), lambda k: A[k])


def _all_in(E, i):
    nf, af, m, arr, rid, r0, c0, tol = E.ghost['conv matrix']
    u, k = z3.FreshConst(I, 'u'), z3.FreshConst(I, 'k')
    N, A, X, RE, IM, T = rule_snap(rid, af[u])
    return z3.ForAll([u, k], z3.Implies(z3.And(0 <= u, u < i, 0 <= k, k < N, RE[k] * RE[k] + IM[k] * IM[k] > tol * tol), z3.Select(E.ghost['target idx'], A[k]) >= 0), patterns=[A[k]])


def conv_entry(rid, af, arr, r0, c0, tol):
    N, A, X, RE, IM, T = rule_snap(rid, af[c0])
    p = z3.Select(X, arr[r0])
    on = z3.And(p >= 0, RE[p] * RE[p] + IM[p] * IM[p] > tol * tol)
    return p, Cx(z3.If(on, RE[p], z3.RealVal(0)), z3.If(on, IM[p], z3.RealVal(0)))


@contract
class ConversionMatrix(Contract):
    """Column c holds the coefficients (above the tolerance) of the converted c-th string."""
    mod, qual, props = 'conversion', 'conversion_matrix', ['C07']
    only_raises = 0
    _t = {'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}
    loops = [Loop(lambda L: _cm_inv(L, L.i, None), label='(strings)', types=_t), Loop(lambda L: _cm_inv(L, L.outer.i, L.i), label='(terms of the converted string)', types=_t)]

    def setup(self, E, case):
        bf, bt = new_basis(E, 'F'), new_basis(E, 'T')
        nf, af, idf = contents(bf)
        m, arr, idx = contents(bt)
        E.assume(z3.Or(nf == 0, m > 0))
        r0, c0, tol = fresh(I, 'r0'), fresh(I, 'c0'), fresh(R, 'tol')
        E.assume(z3.And(tol > 0, z3.Or(nf == 0, z3.And(0 <= r0, r0 < m, 0 <= c0, c0 < nf))))
        rid = CONV(OPTYPE(arr[0]), z3.BoolVal(False))
        E.ghost['conv matrix'] = (nf, af, m, arr, rid, r0, c0, tol)
        E.ghost['target idx'] = idx
        return Ctx([bf, bt, tol], bf=bf, bt=bt, sf=contents(bf), st=contents(bt), rid=rid, r0=r0, c0=c0, tol=tol)

    def raises(self, E, c):
        return [('KeyError', z3.Not(_all_in(E, c.sf[0])))]

    def post(self, E, c, res):
        nf, af, idf = c.sf
        m, arr, idx = c.st
        p, v = conv_entry(c.rid, af, arr, c.r0, c.c0, c.tol)
        return [('dimensions', z3.And(iv(res.nr) == m, iv(res.nc) == nf)), ('every entry', z3.Implies(nf > 0, cx_eq(res.entry(c.r0, c.c0), v))),
                ('the bases are unchanged', z3.And(unchanged(c.bf, c.sf), unchanged(c.bt, c.st)))]
