"""Contracts of qosy/algebra.py (C01, C02, C08, C20)."""
import z3
from values import *
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall
import lib as L_
from c_opstring import new_string, string_snap, string_unchanged, is_in, is_1, is_j, NAB, majorana_odd, L_TRI
from c_basis import new_os, SOS, TOS, contents, unchanged, well_formed, oslist, new_basis
from c_operator import OPTYPE, new_operator, op_snap, op_wf, op_unchanged, snap_of, coef, cx_eq, AR
from c_tools import INV, L_STABLE, CG, L_CG_MAX, L_SORTED, even

CONTRACTS = []
AI = z3.ArraySort(I, I)
ID = code('I')


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------------------- products on one orbital
# Two-dimensional representation on one orbital (C20's oracle of the replay layer checks it
# against matrices): for (P, Q, R) = (X, Y, Z) or (A, B, D): PQ = iR, QR = iP, RP = iQ,
# reversed order: -i, squares are 1.
TRIPLES = [('X', 'Y', 'Z'), ('A', 'B', 'D')]


def site_op(a, b):
    """The operator of the product a b on one orbital (I for the identity)."""
    t = z3.IntVal(code('none'))
    for tr in TRIPLES:
        for i in range(3):
            p, q, r = (code(tr[(i + d) % 3]) for d in range(3))
            t = z3.If(z3.Or(z3.And(a == p, b == q), z3.And(a == q, b == p)), z3.IntVal(r), t)
    return z3.If(a == ID, b, z3.If(b == ID, a, z3.If(a == b, z3.IntVal(ID), t)))


def site_phase(a, b):
    """The power of i in the product a b on one orbital."""
    t = z3.IntVal(0)
    for tr in TRIPLES:
        for i in range(3):
            p, q = (code(tr[(i + d) % 3]) for d in range(2))
            t = z3.If(z3.And(a == p, b == q), z3.IntVal(1), z3.If(z3.And(a == q, b == p), z3.IntVal(3), t))
    return t


# arrays: U (orbitals), then for A and B: position of a label (or -1), value, operators
def op_at(idx, vals, ops, l):
    return z3.If(z3.Select(idx, l) >= 0, z3.Select(ops, z3.Select(vals, l)), z3.IntVal(ID))


# the power of i collected on the first n orbitals of U
PHASE = Fold('PHASE', [AI] * 7, [], lambda a, k, p: site_phase(op_at(a[1], a[2], a[3], a[0][k]), op_at(a[4], a[5], a[6], a[0][k])))
L_SAME = Lemma('equal operators on every orbital give no phase', [AI] * 7,
               lambda n, *a: ([fa(n, lambda k: op_at(a[1], a[2], a[3], a[0][k]) == op_at(a[4], a[5], a[6], a[0][k]), lambda k: a[0][k])], PHASE(list(a), n) == 0),
               force=lambda n, *a: [(PHASE, a, n, ())])
L_NAB_EQ = Lemma('equal operators have equal numbers of A and B', [AI, AI],
                 lambda n, a, b: ([fa(n, lambda k: a[k] == b[k], lambda k: a[k])], NAB([a], n) == NAB([b], n)),
                 force=lambda n, a, b: [(NAB, (a,), n, ()), (NAB, (b,), n, ())])


def increasing(v, n):
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), v[a] < v[b]), patterns=[z3.MultiPattern(v[a], v[b])])


# repeating an increasing sequence v of m labels: m(m-1)/2 inversions
# c = v ++ v; the second copy of v[j] comes after the m-1-j greater ones of the first copy
def _doubled(c, m):
    return [increasing(c, m), fa(m, lambda k: c[m + k] == c[k], lambda k: c[k]), fa(2 * m, lambda k: c[k] == c[k - m], lambda k: c[k], lo=m)]


L_CG_UP = Lemma('in an increasing sequence the entries after j are greater', [AI, I, I],
                lambda n, c, m, j: ([increasing(c, m), 0 <= j, j < m, n <= m], CG([c], n, [c[j]]) == z3.If(n <= j + 1, z3.IntVal(0), n - 1 - j)),
                force=lambda n, c, m, j: [(CG, (c,), n, (c[j],))])
L_CG_TAIL = Lemma('the repeated entries before the same one are not greater', [AI, I, I],
                  lambda n, c, m, j: (_doubled(c, m) + [0 <= j, j < m, n <= m + j], CG([c], n, [c[m + j]]) == m - 1 - j),
                  start=lambda c, m, j: m, uses=lambda n, c, m, j: [L_CG_UP.inst(m, c, m, j)],
                  force=lambda n, c, m, j: [(CG, (c,), n, (c[m + j],))])
# twice the inversions of the first m + j entries
L_INV_DOUBLE = Lemma('inversions of a repeated increasing sequence', [AI, I],
                     lambda j, c, m: (_doubled(c, m) + [m >= 0, j <= m], 2 * INV([c], m + j) == j * (2 * m - 1 - j)),
                     uses=lambda j, c, m: [L_SORTED.inst(m, c), L_CG_TAIL.inst(m + j - 1, c, m, j - 1), z3.Implies(j >= 1, (j - 1) * (2 * m - j) + 2 * (m - j) == j * (2 * m - 1 - j))],
                     force=lambda j, c, m: [(INV, (c,), m + j, ())])


L_INV_TWICE = Lemma('an increasing sequence of m labels repeated has m(m-1)/2 inversions', [AI], lambda m, c: (_doubled(c, m), 2 * INV([c], m + m) == m * (m - 1)),
                    induct=False, uses=lambda m, c: [L_INV_DOUBLE.inst(m, c, m), m * (2 * m - 1 - m) == m * (m - 1)])


def canonical(E, s, ops):
    """Increasing labels and operators of the family."""
    f = s.f
    o, l, n = f['orbital_operators'].arrs[0], f['orbital_labels'].arrs[0], iv(f['orbital_labels'].n)
    E.assume(increasing(l, n))
    E.assume(fa(n, lambda k: is_in(o[k], ops), lambda k: o[k]))


def cat(E, a, n, b, m):
    """The spec's own concatenation of two label sequences."""
    c = fresh(AI, 'cat')
    E.assume(fa(n, lambda k: c[k] == a[k], lambda k: [a[k], c[k]]))
    E.assume(fa(m, lambda k: c[n + k] == b[k], lambda k: b[k]))
    k = z3.FreshConst(I, 'k')
    E.assume(z3.ForAll([k], z3.Implies(z3.And(n <= k, k < n + m), c[k] == b[k - n]), patterns=[c[k]]))
    return c


def there(a, n, x, wit):
    """x occurs in a[0:n] (at the given position, if one is given)."""
    if wit is None:
        j = z3.FreshConst(I, 'j')
        return z3.Exists([j], z3.And(0 <= j, j < n, a[j] == x))
    w = wit(x)
    return z3.And(0 <= w, w < n, a[w] == x)


def _op_inv(L):
    g = L.E.ghost
    i = L.i
    U = list(L['possible_labels_C'].as_sym(TInt).arrs)[0]
    ar = [U] + g['maps']
    la, oc = L['labelsC'], L['opsC']
    src, dst = L.G['src'], L.G['dst']
    prod = lambda k: site_op(op_at(ar[1], ar[2], ar[3], U[k]), op_at(ar[4], ar[5], ar[6], U[k]))
    co = to_ph(L['coeff'])
    out = [('the phase so far', (iv(co.k) - PHASE(ar, i)) % 4 == 0 if co is not None and co.s == 1 else z3.BoolVal(False)),
           ('the parity of the number of phases', (iv(L['num_non_trivial_differences']) - PHASE(ar, i)) % 2 == 0)]
    if la.conc and oc.conc:
        out.append(('nothing yet', z3.And(z3.BoolVal(not la.items and not oc.items), i == 0)))
        return out
    la, oc = la.as_sym(TInt), oc.as_sym(TStr)
    m, l, o = iv(la.n), la.arrs[0], oc.arrs[0]
    j, j2 = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'j')
    out += [('the factors so far', z3.And(iv(oc.n) == m, 0 <= m, m <= i, fa(m, lambda j: z3.And(0 <= src[j], src[j] < i, l[j] == U[src[j]], o[j] == prod(src[j]), o[j] != ID), lambda j: [src[j], l[j]]))),
            ('in order', z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src[j] < src[j2]), patterns=[z3.MultiPattern(src[j], src[j2])])),
            ('all of them', fa(i, lambda k: z3.Implies(prod(k) != ID, z3.And(0 <= dst[k], dst[k] < m, src[dst[k]] == k)), lambda k: dst[k]))]
    return out


def _op_step(L1, L0):
    n0, n1 = iv(L0['labelsC'].length()), iv(L1['labelsC'].length())
    src, dst = L0.G['src'], L0.G['dst']
    grew = n1 > n0
    return {'src': z3.If(grew, z3.Store(src, n0, L0.i), src), 'dst': z3.If(grew, z3.Store(dst, L0.i, n0), dst)}


def mag2(q):
    return rv(q.re) * rv(q.re) + rv(q.im) * rv(q.im)


def _unit_like(q, mode):
    return False


@contract
class OperationOpstring(Contract):
    """A B, A B - B A or A B + B A of two Pauli or two Majorana strings."""
    mod, qual, props = 'algebra', '_operation_opstring', ['C01']
    cases = [t + ' ' + m for t in ('Pauli', 'Majorana') for m in ('product', 'commutator', 'anticommutator')] + ['Fermion']
    only_raises = 1
    max_paths = 600
    _loops = [Loop(_op_inv, ghosts={'src': AI, 'dst': AI}, ghost_step=_op_step, types={'opsC': TLst(TStr), 'labelsC': TLst(TInt), 'coeff': TPh(1.0)}, label='(orbitals)')]

    def loops_for(self, case):
        return [] if case == 'Fermion' else self._loops

    def setup(self, E, case):
        ty, mode = (case + ' product').split()[:2]
        ops = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D'), 'Fermion': ('CDag', 'C')}[ty]
        S, P = [], []
        for nm in ('a', 'b'):
            k = fresh(I, 'pf_' + nm)
            s = new_string(E, nm, ty, 1.0 if ty == 'Pauli' else Ph(k, 1.0), text=False)
            canonical(E, s, ops)
            o, n = s.f['orbital_operators'].arrs[0], iv(s.f['orbital_operators'].n)
            if ty == 'Majorana':
                E.assume(k == z3.If(majorana_odd(NAB([o], n)), z3.IntVal(1), z3.IntVal(0)))
            elif ty == 'Fermion':
                E.assume(z3.Or(k == 0, k == 1))
            P.append(z3.IntVal(0) if ty == 'Pauli' else k)
            S.append(s)
        a, b = S
        mp = lambda s: [s.f['_indices_orbital_labels'].idx, s.f['_indices_orbital_labels'].vals[0], s.f['orbital_operators'].arrs[0]]
        E.ghost['maps'] = mp(a) + mp(b)
        E.gs['src'] = E.gs['dst'] = fresh(AI, 'g0')
        c = Ctx([a, b], {'operation_mode': mode}, a=a, b=b, sa=string_snap(a), sb=string_snap(b), ty=ty, mode=mode, maps=E.ghost['maps'], P=P)
        if ty == 'Majorana':
            x, y = a.f['_labels_ab_operators'], b.f['_labels_ab_operators']
            c.lx, c.ly = x, y
            c.nx, c.ny = iv(x.n), iv(y.n)
            c.x, c.y = x.arrs[0], y.arrs[0]
            c.ab, c.ba = cat(E, x.arrs[0], c.nx, y.arrs[0], c.ny), cat(E, y.arrs[0], c.ny, x.arrs[0], c.nx)
        return c

    def raises(self, E, c):
        return [('NotImplementedError', c.ty == 'Fermion')]

    def post(self, E, c, res):
        co, s = res
        n, oa, la, _, _ = c.sa
        m, ob, lb, _, _ = c.sb
        n, m = iv(n), iv(m)
        out = []
        # the orbitals: the labels of A and B in increasing order (the one enumeration)
        U, nu = fresh(AI, 'U'), fresh(I, 'nu')
        env = E.ghost.get('final')
        ar0 = c.maps
        l = z3.FreshConst(I, 'l')
        AT = lambda l: op_at(ar0[0], ar0[1], ar0[2], l)
        BT = lambda l: op_at(ar0[3], ar0[4], ar0[5], l)
        u = E.ghost.get('sorted labels')
        hs = []
        if u is None:
            # no loop was executed: the strings are the same one
            E.assume(z3.BoolVal(True))
            E.assume(nu >= 0)
            E.assume(increasing(U, nu))
            posU = fresh(AI, 'posU')
            E.assume(fa(nu, lambda k: z3.Or(ar0[0][U[k]] >= 0, ar0[3][U[k]] >= 0), lambda k: U[k]))
            E.assume(z3.ForAll([l], z3.Implies(z3.Or(ar0[0][l] >= 0, ar0[3][l] >= 0), z3.And(0 <= posU[l], posU[l] < nu, U[posU[l]] == l)), patterns=[ar0[0][l], ar0[3][l]]))
            hs = [L_SAME.inst(nu, U, *ar0)]
        else:
            U, nu, wit = u
            has = lambda l: z3.Or(ar0[0][l] >= 0, ar0[3][l] >= 0)
            out.append(('the orbitals are the labels of A and B, once, in order', z3.And(increasing(U, nu), fa(nu, lambda k: has(U[k])))))
            l0 = q = fresh(I, 'l1')
            va, vb = ar0[1][q], ar0[4][q]
            out.append(('a label of A or B', z3.Implies(has(q), z3.Or(z3.And(0 <= va, va < n, la[va] == q), z3.And(0 <= vb, vb < m, lb[vb] == q)))))
            if wit is not None and E.ghost.get('label set') is not None:
                out.append(('it is in the union', z3.Implies(has(q), E.ghost['label set'](q))))
            out.append(('every label of A and B is visited', z3.Implies(has(q), there(U, nu, q, wit))))
        ph = PHASE([U] + ar0, nu)
        if u is None:
            out.append(('the same string has the same operators', fa(nu, lambda k: AT(U[k]) == BT(U[k]))))
            out.append(('and no phase', ph == 0, hs))
            hs = []
        if c.ty == 'Majorana':
            N = c.nx + c.ny
            for v, k, parts in E.ghost.get('sorted', []):
                if parts is not None and len(parts) == 2:          # concatenations computed by the code
                    if parts[0] is c.lx and parts[1] is c.ly:
                        c.ab = v
                    elif parts[0] is c.ly and parts[1] is c.lx:
                        c.ba = v
            iab, iba = INV([c.ab], N), INV([c.ba], N)
            if u is None:
                t = z3.FreshConst(I, 't')
                out.append(('the same string has the same fermionic labels', z3.And(c.nx == c.ny, fa(c.nx, lambda k: c.x[k] == c.y[k])), [L_NAB_EQ.inst(n, oa, ob), z3.ForAll([t], L_NAB_EQ.inst(t, oa, ob), patterns=[NAB([oa], t)])]))
                out.append(('the fermionic labels increase', increasing(c.x, c.nx)))
                out.append(('the repeated sequence', z3.And(c.nx >= 0, *_doubled(c.ab, c.nx))))
                out.append(('their inversions when repeated', 2 * INV([c.ab], N) == c.nx * (c.nx - 1), [L_INV_TWICE.inst(c.nx, c.ab)]))
                out.append(('the prefactors are equal', c.P[0] == c.P[1]))
                out.append(('the prefactors cancel the inversions', (c.P[0] + c.P[1] + 2 * iab) % 4 == 0, [L_TRI.inst(c.nx), iab == INV([c.ab], N)]))
            eab = c.P[0] + c.P[1] + 2 * iab + ph
            eba = c.P[0] + c.P[1] + 2 * iba - ph
        else:
            eab, eba = ph, -ph
        one = lambda e: (pick(e, [1, 0, -1, 0]), pick(e, [0, 1, 0, -1]))
        (r1, i1), (r2, i2) = one(eab), one(eba)
        if c.mode == 'product':
            want = (r1, i1)
        elif c.mode == 'commutator':
            want = (r1 - r2, i1 - i2)
        else:
            want = (r1 + r2, i1 + i2)
        q = to_cx(co)
        if s is None:
            out.append(('zero exactly when the operator vanishes', z3.And(rv(want[0]) == 0, rv(want[1]) == 0, rv(q.re) == 0, rv(q.im) == 0), hs))
            out.append(('a product never vanishes', z3.BoolVal(c.mode != 'product')))
        else:
            f = s.f
            oc, lc = f['orbital_operators'].as_sym(TStr), f['orbital_labels'].as_sym(TInt)
            k, x, p = iv(lc.n), lc.arrs[0], oc.arrs[0]
            full = cmul(q, to_cx(f['prefactor']))
            out += [('the coefficient is exact', z3.And(rv(full.re) == want[0], rv(full.im) == want[1]), hs),
                    ('it is not zero', z3.Or(rv(q.re) != 0, rv(q.im) != 0)),
                    ('its magnitude is 1 or 2', z3.BoolVal(True) if _unit_like(q, c.mode) else z3.Or(mag2(q) == 1, mag2(q) == 4)),
                    ('the labels are orbitals visited in order', z3.BoolVal(True) if u is None else z3.And(fa(k, lambda j: z3.And(0 <= E.gs['src'][j], E.gs['src'][j] < nu, x[j] == U[E.gs['src'][j]])), increasing(E.gs['src'], k))),
                    ('the labels increase', increasing(x, k)),
                    ('every factor is the product on its orbital, not the identity', z3.And(iv(oc.n) == k, fa(k, lambda j: z3.And(p[j] == site_op(AT(x[j]), BT(x[j])), p[j] != ID))))]
            j = z3.FreshConst(I, 'j')
            l0 = fresh(I, 'l0') if u is None else l0
            out.append(('every orbital with a nontrivial product is there', z3.Implies(site_op(AT(l0), BT(l0)) != ID, there(x, k, l0, (lambda l: E.gs['dst'][u[2](l)]) if u is not None and u[2] is not None else None))))
            out.append(('its type', z3.BoolVal(f['op_type'] == c.ty)))
        out.append(('the strings are unchanged', z3.And(string_unchanged(c.a, c.sa), string_unchanged(c.b, c.sb))))
        return out


def _record_sort(E, args, kw, node, old=L_.LIB['numpy.sort']):
    r = old(E, args, kw, node)
    if isinstance(r, Lst):
        s = r.as_sym(TInt) if r.conc else r
        if s.shape == TInt:
            if r is not s:
                r.assign(s)
            inv, pos = getattr(getattr(r, 'perm', None), 'inv', None), getattr(args[0], 'pos', None)
            of = getattr(args[0], 'of_set', None)
            E.ghost['label set'] = None if of is None else (lambda l: z3.Select(of, l))
            E.ghost['sorted labels'] = (r.arrs[0], iv(r.n), None if inv is None or pos is None else lambda l: inv[pos[l]])
    return r


L_.LIB['numpy.sort'] = _record_sort


# ------------------------------------------- the contract, for strings held as opaque values
# The bracket of two strings: by the contract of _operation_opstring a function of the mode and
# of the two (unchanged) strings: a coefficient and a string, or none with coefficient zero.
BRE = z3.Function('bracket_re', I, SOS, SOS, R)
BIM = z3.Function('bracket_im', I, SOS, SOS, R)
BNONE = z3.Function('bracket_none', I, SOS, SOS, z3.BoolSort())
BSTR = z3.Function('bracket_string', I, SOS, SOS, SOS)


def br_stub(E, args, kw, node):
    a, b = args[:2]
    mode = code(kw['operation_mode'] if 'operation_mode' in kw else args[2]) if not is_z(kw.get('operation_mode', args[2] if len(args) > 2 else None)) else None
    m = z3.IntVal(mode)
    for t in (a.t, b.t):
        E.assume(z3.Or([OPTYPE(t) == code(x) for x in ('Pauli', 'Majorana', 'Fermion')]), 'the type of a string is one of the three (proved for OperatorString.__init__)')
    if not E.branch(OPTYPE(a.t) == OPTYPE(b.t)):
        raise PyExc('ValueError', 'types')
    if E.branch(OPTYPE(a.t) == code('Fermion')):
        raise PyExc('NotImplementedError', 'Fermion')
    q = Cx(BRE(m, a.t, b.t), BIM(m, a.t, b.t))
    if mode == code('product'):
        E.assume(z3.Not(BNONE(m, a.t, b.t)))
    if E.branch(BNONE(m, a.t, b.t)):
        E.assume(z3.And(rv(q.re) == 0, rv(q.im) == 0))
        return (0.0, None)
    s = BSTR(m, a.t, b.t)
    E.assume(z3.Or(mag2(q) == 1, mag2(q) == 4))
    E.assume(OPTYPE(s) == OPTYPE(a.t))
    return (q, Opq(s, 'OS'))


OperationOpstring.stub = lambda self, E, args, kw, node: br_stub(E, args, kw, node)
OperationOpstring.applies = lambda self, E, args, kw: all(isinstance(x, Opq) for x in args[:2]) and all(isinstance(x, str) for x in list(args[2:3]) + list(kw.values()))


# sum over the first n terms of B of the bracket of a term (z, x) with them, at the string S
# (terms below the tolerance are dropped)
ASO = z3.ArraySort(I, SOS)


def _pair(mode, x, zr, zi, y, wr, wi, S, tol):
    q = Cx(BRE(mode, x, y), BIM(mode, x, y))
    t = cmul(cmul(Cx(zr, zi), Cx(wr, wi)), q)
    on = z3.And(z3.Not(BNONE(mode, x, y)), BSTR(mode, x, y) == S, mag2(t) >= tol * tol)
    return z3.If(on, rv(t.re), z3.RealVal(0)), z3.If(on, rv(t.im), z3.RealVal(0))


ROWSUM = Fold('ROWSUM', [ASO, AR, AR], [I, SOS, R, R, SOS, R], lambda a, k, p: _pair(p[0], p[1], p[2], p[3], a[0][k], a[1][k], a[2][k], p[4], p[5]), out='cx')


def _allsum(a, k, p):
    q = ROWSUM([p[1], p[2], p[3]], p[4], [p[0], a[0][k], a[1][k], a[2][k], p[5], p[6]])
    return q.re, q.im


ALLSUM = Fold('ALLSUM', [ASO, AR, AR], [I, ASO, AR, AR, I, SOS, R], _allsum, out='cx')


def _oo_dict(L, i, j):
    """The collected coefficient of the string S0 so far."""
    g = L.E.ghost
    (n, A, _, are, aim, t), (m, B_, _, bre, bim, _), mode, S0, tol = g['oo']
    d = L['coeffs_of_opstrings']
    tot = ALLSUM([A, are, aim], i, [mode, B_, bre, bim, m, S0, tol])
    if j is not None:
        tot = cadd(tot, ROWSUM([B_, bre, bim], j, [mode, A[i], are[i], aim[i], S0, tol]))
    fermi = ('Fermion strings are rejected', z3.Implies(t == code('Fermion'), z3.And(z3.Or(i == 0, m == 0), z3.BoolVal(True) if j is None else j == 0)))
    if isinstance(d, CDict):
        return [fermi, ('the coefficients so far', z3.And(z3.BoolVal(not d.d), i == 0, z3.BoolVal(True) if j is None else j == 0))]
    s = z3.FreshConst(SOS, 's')
    v = d.get(Opq(S0, 'OS'))
    on = d.has(Opq(S0, 'OS'))
    v = to_cx(v)
    return [fermi, ('the coefficient of any string so far', cx_eq(Cx(z3.If(on, rv(v.re), z3.RealVal(0)), z3.If(on, rv(v.im), z3.RealVal(0))), tot)),
            ('types', z3.ForAll([s], z3.Implies(z3.Select(d.idx, s) >= 0, OPTYPE(s) == t), patterns=[z3.Select(d.idx, s)]))]


def _oo_lists(L):
    d = L['coeffs_of_opstrings']
    co, ss = L['coeffs'], L['op_strings']
    i = L.i
    if co.conc or ss.conc:
        return [('nothing yet', z3.And(i == 0, iv(co.length()) == 0, iv(ss.length()) == 0))]
    keys = d.keys[0] if isinstance(d.keys, (list, tuple)) else d.keys
    return [('lengths', z3.And(iv(co.n) == i, iv(ss.n) == i)),
            ('the strings', fa(i, lambda k: ss.arrs[0][k] == keys[k], lambda k: ss.arrs[0][k])),
            ('the coefficients', fa(i, lambda k: cx_eq(co.get(k), d.get(Opq(keys[k], 'OS'))), lambda k: co.arrs[0][k]))]


@contract
class OperationOperator(Contract):
    """The bilinear extension to operators."""
    mod, qual, props = 'algebra', '_operation_operator', ['C02', 'C20']
    cases = ['product', 'commutator', 'anticommutator']
    only_raises = 0
    _loops = [Loop(lambda L: _oo_dict(L, L.i, None), types={'coeffs_of_opstrings': None}, label='(terms of A)'),
              Loop(lambda L: _oo_dict(L, L.outer.i, L.i), label='(terms of B)'), Loop(_oo_lists, label='(collected terms)')]

    def loops_for(self, case):
        return self._loops

    def setup(self, E, case):
        a, b = new_operator(E, 'a'), new_operator(E, 'b')
        tol = fresh(R, 'tol')
        E.assume(tol > 0)
        sa, sb = op_snap(a), op_snap(b)
        S0 = fresh(SOS, 'S0')
        mode = z3.IntVal(code(case))
        E.ghost['oo'] = (sa, sb, mode, S0, tol)
        return Ctx([a, b], {'operation_mode': case, 'tol': tol}, a=a, b=b, sa=sa, sb=sb, S0=S0, mode=mode, tol=tol)

    def raises(self, E, c):
        n, m, t = c.sa[0], c.sb[0], c.sa[5]
        return [('ValueError', c.sa[5] != c.sb[5]), ('NotImplementedError', z3.And(c.sa[5] == c.sb[5], t == code('Fermion'), n > 0, m > 0))]

    def post(self, E, c, res):
        n, A, _, are, aim, t = c.sa
        m, B_, _, bre, bim, _ = c.sb
        want = ALLSUM([A, are, aim], n, [c.mode, B_, bre, bim, m, c.S0, c.tol])
        rs = snap_of(res)
        return op_wf(res) + [('the coefficient of any string is the sum over all pairs of terms', cx_eq(coef(rs, c.S0), want)),
                             ('type', rs[5] == t), ('operands unchanged', z3.And(op_unchanged(c.a, c.sa), op_unchanged(c.b, c.sb)))]


def oo_stub(self, E, args, kw, node):
    a, b, mode, tol = args
    sa, sb = op_snap(a), op_snap(b)
    if not E.branch(sa[5] == sb[5]):
        raise PyExc('ValueError', 'types')
    if E.branch(z3.And(sa[5] == code('Fermion'), sa[0] > 0, sb[0] > 0)):
        raise PyExc('NotImplementedError', 'Fermion')
    r = new_operator(E, 'bracket', SStr(sa[5]))
    rs = op_snap(r)
    s = z3.FreshConst(SOS, 's')
    want = ALLSUM([sa[1], sa[3], sa[4]], sa[0], [z3.IntVal(code(mode)), sb[1], sb[3], sb[4], sb[0], s, rv(tol)])
    E.assume(z3.ForAll([s], cx_eq(coef(rs, s), want), patterns=[z3.Select(rs[2], s)]))
    E.ghost['bracket call'] = (a, b, mode, r)
    return r


OperationOperator.stub = oo_stub
OperationOperator.applies = lambda self, E, args, kw: all(isinstance(x, Obj) and not isinstance(x.f['_basis'].f['_indices'], CDict) for x in args[:2])


class Dispatch(Contract):
    """product, commutator and anticommutator: strings with strings, operators with operators."""
    mod = 'algebra'
    cases = ['strings', 'operators', 'string and operator', 'operator and string', 'other']
    only_raises = 1

    def setup(self, E, case):
        mk = {'string': lambda n: new_os(E, n), 'operator': lambda n: new_operator(E, n), 'other': lambda n: fresh(I, n)}
        k1, k2 = {'strings': ('string', 'string'), 'operators': ('operator', 'operator'), 'other': ('operator', 'other')}.get(case) or tuple(case.split(' and '))
        a, b = mk[k1]('a'), mk[k2]('b')
        return Ctx([a, b], a=a, b=b, case=case)

    def raises(self, E, c):
        mixed = c.case not in ('strings', 'operators')
        if c.case == 'strings':
            p, q = OPTYPE(c.a.t), OPTYPE(c.b.t)
            return [('ValueError', p != q), ('NotImplementedError', z3.And(p == q, p == code('Fermion')))]
        if mixed:
            return [('ValueError', True)]
        x, y = op_snap(c.a), op_snap(c.b)
        return [('ValueError', x[5] != y[5]), ('NotImplementedError', z3.And(x[5] == y[5], x[5] == code('Fermion'), x[0] > 0, y[0] > 0))]

    def post(self, E, c, res):
        m = z3.IntVal(code(self.qual))
        if c.case == 'strings':
            co, s = res
            none = BNONE(m, c.a.t, c.b.t)
            if s is None:
                return [('the bracket of the strings', z3.And(none, z3.BoolVal(co == 0.0)))]
            return [('the bracket of the strings', z3.And(z3.Not(none), s.t == BSTR(m, c.a.t, c.b.t), cx_eq(co, Cx(BRE(m, c.a.t, c.b.t), BIM(m, c.a.t, c.b.t)))))]
        call = E.ghost.get('bracket call')
        return [('the bracket of the operators', z3.BoolVal(call is not None and call[0] is c.a and call[1] is c.b and call[2] == self.qual and res is call[3]))]


for q, ps in (('product', ['C01', 'C02']), ('commutator', ['C01', 'C02', 'C20']), ('anticommutator', ['C01', 'C02'])):
    contract(type('D' + q, (Dispatch,), dict(qual=q, props=ps)))
