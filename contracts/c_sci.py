"""Contracts of qosy/algorithms.py: truncation and adaptive searches (C22)."""
import z3
from values import *
from values import code, CUR, Shape, mat_arrs
from engine import Contract, Ctx, Loop, PyExc
from spec import fa, mention
import lib as L_
from c_basis import new_basis, SOS, TOS, contents, unchanged, well_formed
from c_operator import OPTYPE, AR, cx_eq, op_wf, op_snap, op_unchanged, new_operator, snap_of, coef

CONTRACTS = []


def contract(c):
    CONTRACTS.append(c())
    return c


def _lemma(E, nm, f, *terms):
    E.oblige('step: ' + nm, f, None, [mention(*terms)] if terms else [])
    return f


# ----------------------------------------------------------------------------- truncation
def _filter(E, args, kw, node):
    """Some function of the vector and the basis."""
    v, b = args
    w = E.new(Lst.sym(v.shape, iv(v.n), np=True, name='filtered'))
    E.ghost.setdefault('filter calls', []).append((v, b, w))
    return w


L_.LIB['verif.filter_fun'] = _filter


def mag(l, k):
    """The magnitude of an entry."""
    if l.shape == TCx:
        x, y = l.arrs[0][k], l.arrs[1][k]
        return L_.absval_t(CUR[0], Cx(x, y))
    return z3.If(l.arrs[0][k] >= 0, l.arrs[0][k], -l.arrs[0][k])


def truncated(E, n, arr, idx, new, w, thr, size):
    """new: the strings with the (at most size) largest coefficients above the threshold, descending."""
    d = new.f['_indices']
    m, narr, nidx = contents(new) if not isinstance(d, CDict) else (z3.IntVal(0), None, None)
    big = lambda q: mag(w, q) > thr
    j0, j1, q0 = fresh(I, 'j0'), fresh(I, 'j1'), fresh(I, 'q0')
    out = [('at most so many strings', m <= size)]
    if narr is None:
        return out
    pos = lambda j: z3.Select(idx, narr[j])
    rng = z3.And(0 <= j0, j0 < m)
    fl, pm = E.ghost.get('filters', []), E.ghost.get('perms', [])
    if fl and pm and fl[-1].shape == TInt:
        # where q0 is in the sorted list, in the filtered list, and in the result
        f, (P, inv) = fl[-1], pm[-1]
        k = n - 1 - inv[q0]
        d = f.dst[k]
        left = z3.And(0 <= q0, q0 < n, big(q0), nidx[arr[q0]] < 0)
        seen = [f.arrs[0][d], f.src[d], P[inv[q0]], f.kept[k], arr[q0]]
        _lemma(E, 'a large coefficient is kept by the threshold', z3.Implies(z3.And(0 <= q0, q0 < n, big(q0)), z3.And(0 <= d, d < iv(f.n), f.src[d] == k, f.arrs[0][d] == q0)), *seen)
        _lemma(E, 'the position of what is left out', z3.Implies(left, d >= m), narr[d], arr[q0], f.arrs[0][d])
        _lemma(E, 'the position of what is not left out', z3.Implies(rng, z3.And(f.arrs[0][j0] == pos(j0), P[n - 1 - f.src[j0]] == pos(j0), 0 <= f.src[j0], f.src[j0] < n)), narr[j0], f.arrs[0][j0], f.src[j0])
        _lemma(E, 'before what is left out', z3.Implies(z3.And(rng, left), f.src[j0] < k), f.src[j0], f.src[d])
    out += [('strings of the basis', z3.Implies(rng, z3.And(0 <= pos(j0), pos(j0) < n))), ('above the threshold', z3.Implies(rng, big(pos(j0)))),
            ('in descending order', z3.Implies(z3.And(0 <= j0, j0 < j1, j1 < m), mag(w, pos(j0)) >= mag(w, pos(j1)))),
            ('the others are smaller', z3.Implies(z3.And(rng, 0 <= q0, q0 < n, big(q0), nidx[arr[q0]] < 0), mag(w, pos(j0)) >= mag(w, q0)), [mention(narr[j0], arr[q0])]),
            ('others are left out only if there are enough', z3.Implies(z3.And(0 <= q0, q0 < n, big(q0), nidx[arr[q0]] < 0), m == size), [mention(arr[q0])])]
    return out


@contract
class TruncateBasis(Contract):
    """The strings with the largest coefficients above the threshold, up to the size limit."""
    mod, qual, props = 'algorithms', '_truncate_basis', ['C22']
    cases = ['complex', 'real', 'filtered', 'default']

    def setup(self, E, case):
        b = new_basis(E, 'A')
        n = contents(b)[0]
        v = E.new(Lst.sym(TReal if case == 'real' else TCx, n, np=True, name='vector'))
        thr, size = fresh(R, 'threshold'), fresh(I, 'max_basis_size')
        E.assume(z3.And(size >= 0, thr >= 0))
        kw = dict(threshold=thr, max_basis_size=size)
        if case == 'filtered':
            kw['filter_fun'] = Lib('verif.filter_fun')
        if case == 'default':
            kw, thr, size = {}, z3.RealVal('1/1000000'), z3.IntVal(100)
        return Ctx([b, v], kw, b=b, v=v, thr=thr, size=size, case=case, snap=contents(b), old=list(v.arrs))

    def post(self, E, c, res):
        w = c.v
        out = [('the basis and the vector are unchanged', z3.And([unchanged(c.b, c.snap)] + [x == y for x, y in zip(c.v.arrs, c.old)]))]
        if c.case == 'filtered':
            f = E.ghost.get('filter calls', [])
            out.append(('the filtered vector', z3.BoolVal(len(f) == 1 and f[0][0] is c.v and f[0][1] is c.b)))
            w = f[0][2]
        n, arr, idx = c.snap
        return out + well_formed(res) + truncated(E, n, arr, idx, res, w, c.thr, c.size)


TruncateBasis.applies = lambda self, E, a, k: len(a) + len(k) >= 2


def _trunc_stub(self, E, args, kw, node):
    b, v, thr, size, f = args
    n, arr, idx = contents(b)
    new = new_basis(E, 'trunc')
    m, narr, nidx = contents(new)
    v = v.as_sym() if v.conc else v
    if f is not None:
        v = _filter(E, [v, b], {}, node)
    E.assume(z3.And(m <= iv(size), fa(m, lambda j: z3.And(0 <= z3.Select(idx, narr[j]), z3.Select(idx, narr[j]) < n, mag(v, z3.Select(idx, narr[j])) > rv(thr)), lambda j: narr[j])))
    E.ghost.setdefault('truncations', []).append((b, v, thr, size, f, new))
    return new


TruncateBasis.stub = _trunc_stub


@contract
class TruncateOperator(Contract):
    """The terms with the strings of the truncated basis."""
    mod, qual, props = 'algorithms', '_truncate_operator', ['C22']
    cases = ['default', 'filtered']
    only_raises = 1

    def setup(self, E, case):
        o = new_operator(E, 'O')
        thr, size = fresh(R, 'threshold'), fresh(I, 'max_basis_size')
        E.assume(z3.And(size >= 0, thr >= 0))
        kw = dict(threshold=thr, max_basis_size=size)
        if case == 'filtered':
            kw['filter_fun'] = Lib('verif.filter_fun')
        return Ctx([o], kw, o=o, snap=op_snap(o), thr=thr, size=size, case=case, s0=fresh(SOS, 's0'))

    def raises(self, E, c):
        tr = E.ghost.get('truncations', [])
        return [('ValueError', contents(tr[0][5])[0] == 0 if len(tr) == 1 else False)]

    def post(self, E, c, res):
        tr = E.ghost.get('truncations', [])
        b, v, thr, size, f, new = tr[0]
        n, arr, idx, re, im, ty = c.snap
        m, narr, nidx = contents(new)
        a, b0 = coef(op_snap(res), c.s0), coef(c.snap, c.s0)
        on = z3.Select(nidx, c.s0) >= 0
        k = fresh(I, 'k')
        return op_wf(res) + [('truncated by its coefficients', z3.And(z3.BoolVal(len(tr) == 1 and b is c.o.f['_basis'] and isinstance(f, Lib) == (c.case == 'filtered')), rv(thr) == c.thr, iv(size) == c.size)),
                             ('the coefficients', z3.And(iv(v.n) == n, z3.Implies(z3.And(0 <= k, k < n), z3.And(v.arrs[0][k] == re[k], v.arrs[1][k] == im[k])) if c.case == 'default' else True)),
                             ('kept coefficients', z3.And(rv(a.re) == z3.If(on, rv(b0.re), z3.RealVal(0)), rv(a.im) == z3.If(on, rv(b0.im), z3.RealVal(0))), [mention(narr[z3.Select(nidx, c.s0)])]),
                             ('the operator is unchanged', op_unchanged(c.o, c.snap))]


# ---------------------------------------------------------------------- adaptive searches
from c_structure import LRE, LIM, LROWS, GRAM, L_GRAM, StructureConstants, Liouville, AAR, _dims
from c_oplist import TOper, OPS, OTYP, OLEN, OARR, ORE, OIM, oper_axioms
ASOS = z3.ArraySort(I, SOS)
LTAG = z3.Function('liouvillian_of', I, ASOS, I)           # of the strings, and the Hamiltonian
# column c of the vectors is a normalized eigenvector of L^dagger L with this eigenvalue, where L is
# the Liouvillian matrix: the eigenvalue is the squared norm of the commutator
EIGEN = z3.Function('squared_norm_of_the_commutator', I, AAR, AAR, I, R, B)


def _infinity(E):
    if 'inf' not in E.ghost:
        E.ghost['inf'] = fresh(R, 'inf')
    return E.ghost['inf']


def searching(self, E, a, k):
    return bool(E.ghost.get('searching'))


def extended(E):
    b = new_basis(E, 'extended')
    n, arr, idx = contents(b)
    E.assume(fa(n, lambda k: OPTYPE(arr[k]) == E.ghost['start'][5], lambda k: arr[k]))
    return b


def _sc_stub(self, E, args, kw, node):
    return (Text(), extended(E))


def _lm_stub(self, E, args, kw, node):
    b, h, mode = args[:3]
    if h is not E.ghost['H'] or mode != 'commutator' or any(args[3:]):
        raise Unsupported('Liouvillian matrix')
    return liouvillian(E, b)


def liouvillian(E, b):
    n, arr, idx = contents(b)
    tag = fresh(I, 'tag')
    E.assume(z3.And(tag == LTAG(n, arr), LROWS(tag) >= 0))
    return E.new(Mat(LROWS(tag), n, lambda r, c: Cx(LRE(tag, iv(r), iv(c)), LIM(tag, iv(r), iv(c)))))


def solved(E, n, arr):
    """The eigensolver was given the real part of L^dagger L; what it returned belongs to it."""
    e = E.ghost['eig'][-1]
    tag = LTAG(n, arr)
    r, c = fresh(I, 'r'), fresh(I, 'c')
    f = E.ghost.get('factors')
    h = []
    if f is not None:
        (ar, ai), (br, bi) = f
        h = [L_GRAM.inst(LROWS(tag), ar[r], ai[r], br, bi, tag, r, c)]
    want = GRAM([], LROWS(tag), [tag, r, c])
    E.oblige('step: the dimensions of the matrix', z3.And(iv(e.A.nr) == n, iv(e.A.nc) == n, z3.BoolVal(e.M is None)))
    E.oblige('step: every entry of the matrix', z3.Implies(z3.And(0 <= r, r < n, 0 <= c, c < n), cx_eq(to_cx(e.A.entry(r, c)), Cx(rv(want.re), z3.RealVal(0)))), None, h)
    k = z3.FreshConst(I, 'k')
    w, (vr, vi) = e.w.arrs[0], mat_arrs(e.V)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < iv(e.w.n)), z3.And(EIGEN(tag, vr, vi, k, w[k]), w[k] >= 0, w[k] < _infinity(E))), patterns=[w[k]]), 'the eigensolver returns normalized eigenvectors of the Hermitian matrix it is given, which has no negative eigenvalues')
    return e


def reported(g, gs, t, w):
    """The operator t is an eigenvector, and w its eigenvalue."""
    k, q = z3.FreshConst(I, 'k'), gs['col']
    return z3.And(EIGEN(LTAG(OLEN(t), OARR(t)), gs['vr'], gs['vi'], q, w), w >= 0, w < g['inf'],
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < OLEN(t)), z3.And(ORE(t)[k] == gs['vr'][k][q], OIM(t)[k] == gs['vi'][k][q])), patterns=[ORE(t)[k]]))


def _same(s, t):
    """The operator with these contents is the operator t."""
    return z3.And(s[0] == OLEN(t), s[1] == OARR(t), s[3] == ORE(t), s[4] == OIM(t), s[5] == OTYP(t))


def _search(L):
    E, g = L.E, L.E.ghost
    ops, ws, best = L['operators'], L['com_norms'], L['best_operator']
    w = L['best_com_norm']
    s = op_snap(best)
    n, arr, idx = contents(L['basis'])
    out = well_formed(L['basis']) + [('strings of one type', fa(n, lambda k: OPTYPE(arr[k]) == g['start'][5], lambda k: arr[k]))]
    if ops.conc or ws.conc:
        return out + [('nothing yet', z3.And(L.i == 0, rv(w) == g['inf'], z3.BoolVal(not ops.items and not ws.items), op_unchanged(best, g['start'])))]
    k0, b, n = g['k0'], L.G['b'], iv(ops.n)
    oa, wa = ops.arrs[0], ws.arrs[0]
    return out + [('an operator and a residual for each step', z3.And(iv(ws.n) == n, 0 <= n, n == L.i if g['every step'] else n <= L.i)),
            ('the residuals are those of the operators', z3.Implies(z3.And(0 <= k0, k0 < n), reported(g, L.G, oa[k0], wa[k0]))),
            ('no residual yet', z3.Implies(n == 0, z3.And(rv(w) == g['inf'], op_unchanged(best, g['start'])))),
            ('the best operator is one of them', z3.Implies(n > 0, z3.And(0 <= b, b < n, wa[b] == rv(w), _same(s, oa[b]), 0 <= rv(w), rv(w) < g['inf']))),
            ('the best operator has the smallest residual', z3.Implies(z3.And(0 <= k0, k0 < n), rv(w) <= wa[k0]))]


def _first_column(L1, e):
    """Which of the vectors that the eigensolver returned is the first one after the selections."""
    try:
        q, m = z3.IntVal(0), L1['evecs']
    except Unsupported:
        perms = L1.E.ghost.get('perms')
        return perms[-1][0][0] if e.which == 'eigsh' and perms else z3.IntVal(0)
    while m is not e.V and getattr(m, 'sel', None) is not None:
        q, m = m.sel[2].at(q), m.sel[0]
    return q


def _search_step(L1, L0):
    E, g = L1.E, L1.E.ghost
    ws = L0['com_norms']
    n0, n1 = iv(ws.length()), iv(L1['com_norms'].length())
    eig = E.ghost.get('eig', [])
    if not eig:
        return {}
    e = eig[-1]
    vr, vi = mat_arrs(e.V)
    q = _first_column(L1, e)
    here = z3.And(n1 > n0, n0 == g['k0'])
    w0, w1 = L0['best_com_norm'], L1['best_com_norm']
    return {'vr': z3.If(here, vr, L0.G['vr']), 'vi': z3.If(here, vi, L0.G['vi']), 'col': z3.If(here, q, L0.G['col']), 'b': z3.If(z3.And(n1 > n0, rv(w1) < rv(w0)), n0, L0.G['b'])}


def _search_hints(L1, L0):
    E = L1.E
    if not E.ghost.get('eig'):
        return []
    n, arr = op_snap(L1['operator'])[:2]
    e = solved(E, n, arr)
    g = E.ghost
    q = _first_column(L1, e)
    w, (vr, vi) = e.w.arrs[0], mat_arrs(e.V)
    s = op_snap(L1['operator'])
    k = fresh(I, 'k')
    _lemma(E, 'the coefficients are a column of the vectors', z3.Implies(z3.And(0 <= k, k < n), z3.And(s[3][k] == vr[k][q], s[4][k] == vi[k][q])), s[3][k], s[4][k], arr[k])
    E.assume(fa(n, lambda k: z3.And(s[3][k] == vr[k][q], s[4][k] == vi[k][q]), lambda k: s[3][k]))       # k was arbitrary
    ws, ops = L1['com_norms'], L1['operators']
    m = iv(ops.n) - 1
    x = ws.arrs[0][m]
    _lemma(E, 'the residual is the eigenvalue of the column', z3.And(x == w[q], EIGEN(LTAG(n, arr), vr, vi, q, x), x >= 0, x < g['inf']), w[q], w[0])
    t = ops.arrs[0][m]
    _lemma(E, 'the operator is recorded', _same(s, t), t)
    return []


class _Fresh(Shape):
    """The value of a variable that is bound to a new object in each iteration."""
    sorts, whole = [], True

    def __init__(self, make):
        self.make = make

    def fresh(self, name):
        return self.make(CUR[0], name)


TB, TO = _Fresh(new_basis), _Fresh(new_operator)


class Search(Contract):
    mod, props = 'algorithms', ['C22']
    only_raises = 1

    def begin(self, E):
        oper_axioms(E)
        g = E.ghost
        g['searching'] = True
        o, H = new_operator(E, 'O'), new_operator(E, 'H')
        N, thr, size = fresh(I, 'num_steps'), fresh(R, 'threshold'), fresh(I, 'max_basis_size')
        E.assume(z3.And(N >= 0, thr >= 0, size >= 0))
        E.assume(sv(o.f['op_type']) == sv(H.f['op_type']))
        g.update(H=H, start=op_snap(o), k0=fresh(I, 'k0'), inf=_infinity(E))
        E.gs.update(vr=fresh(AAR, 'vr'), vi=fresh(AAR, 'vi'), col=fresh(I, 'col'), b=fresh(I, 'b'))
        return Ctx([o, H, N], dict(threshold=thr, max_basis_size=size), o=o, H=H, N=N, snap=op_snap(o), hsnap=op_snap(H))

    def raises(self, E, c):
        return [(x, False, True) for x in ('IndexError', 'ValueError')]        # a basis without strings

    def post(self, E, c, res):
        g = E.ghost
        best, w, ops, ws = res
        out = [('the operators are unchanged', z3.And(op_unchanged(c.o, c.snap), op_unchanged(c.H, c.hsnap)))]
        if ops.conc or ws.conc:
            return out + [('no step', z3.And(z3.BoolVal(not ops.items and not ws.items)))]
        n, oa, wa, k0, b = iv(ops.n), ops.arrs[0], ws.arrs[0], g['k0'], E.gs['b']
        return out + [('an operator and a residual for each step', z3.And(iv(ws.n) == n, n == c.N if g['every step'] else n <= c.N)),
                      ('the residuals are those of the operators', z3.Implies(z3.And(0 <= k0, k0 < n), reported(g, E.gs, oa[k0], wa[k0]))),
                      ('the best operator is one of them', z3.Implies(n > 0, z3.And(0 <= b, b < n, rv(w) == wa[b], _same(op_snap(best), oa[b])))),
                      ('the best operator has the smallest residual', z3.Implies(z3.And(0 <= k0, k0 < n), rv(w) <= wa[k0])),
                      ('without a step, the start', z3.Implies(n == 0, op_unchanged(best, g['start'])))]


TYPES = {'previous_basis': TB, 'previous_previous_basis': _Fresh(lambda E, nm: new_basis(E, nm) if E.branch(fresh(B, 'seen')) else None), 'operators': TLst(TOper), 'com_norms': TLst(TReal), 'basis': TB, 'best_operator': TO, 'best_com_norm': TReal}


@contract
class SearchSimple(Search):
    qual = 'selected_ci_simple'
    cut_for = True
    loops = [Loop(_search, ghosts={'vr': AAR, 'vi': AAR, 'col': I, 'b': I}, ghost_step=_search_step, hints=_search_hints, types=TYPES, label='(steps)')]

    def setup(self, E, case):
        E.ghost['every step'] = True
        return self.begin(E)


def _explore_stub(self, E, args, kw, node):
    """The Liouvillian matrix of the basis, whatever was explored before (not under contract: its
    executable form is searched for a difference)."""
    b, h, xb, xe, xd, labels = args
    if h is not E.ghost['H'] or (xb, xe, xd) != E.ghost.setdefault('record', (xb, xe, xd)):
        raise Unsupported('exploration of another operator')
    if labels is not None:
        return (Text(), extended(E))
    return (liouvillian(E, b), extended(E))


contract(type('ExploreAsSeen', (Contract,), dict(mod='algorithms', qual='_explore', props=[], stub=_explore_stub, applies=searching)))


@contract
class SearchCI(Search):
    qual = 'selected_ci'
    cut_for = True
    cases = ['default', 'record', 'threshold', 'truncation filter']
    loops = [Loop(_search, ghosts={'vr': AAR, 'vi': AAR, 'col': I, 'b': I}, ghost_step=_search_step, hints=_search_hints, types=TYPES, label='(steps)')]

    def setup(self, E, case):
        E.ghost['every step'] = False
        c = self.begin(E)
        if case == 'record':
            r = (new_basis(E, 'explored'), new_basis(E, 'explored_extended'), E.new(Abst('Any', fresh(z3.DeclareSort('Any'), 'record'))))
            c.kwargs['explored_data'] = r
            E.ghost['record'] = r
        if case == 'threshold':
            k1, k2 = fresh(I, 'min_num_evecs'), fresh(I, 'max_num_evecs')
            E.assume(z3.And(1 <= k1, k1 <= k2))
            c.kwargs.update(eval_threshold=fresh(R, 'eval_threshold'), min_num_evecs=k1, max_num_evecs=k2)
        if case == 'truncation filter':
            c.kwargs['filter_trunc_fun'] = Lib('verif.filter_fun')
        return c


for _c, _s in ((StructureConstants, _sc_stub), (Liouville, _lm_stub)):
    def _both(self, E, args, kw, node, new=_s, old=getattr(_c, 'stub')):
        return new(self, E, args, kw, node) if E.ghost.get('searching') else old(self, E, args, kw, node)

    def _either(self, E, a, k, old=getattr(_c, 'applies', None), stubbed=_c.stub is not Contract.stub):
        return bool(E.ghost.get('searching')) or stubbed and (old is None or old(self, E, a, k))
    _c.stub, _c.applies = _both, _either
L_.LIB_CONST['numpy.inf'] = lambda E: _infinity(E) if E.ghost.get('searching') else None
