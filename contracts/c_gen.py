"""Contracts of SymmetricOperatorGenerator in qosy/core.py (C11)."""
import z3
from values import *
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, fa, mention
import lib as L_
from c_basis import new_basis, SOS, TOS, contents, unchanged
from c_operator import OPTYPE, AR, NSQ, coef, cx_eq, op_wf, op_snap, new_operator, snap_of, OpNormalize, OpRemoveZeros
from c_oplist import TOper, OPS, OTYP, OLEN, opterm_snap, oper_axioms
from c_core import Commuting, Invariant
import c_symm

CONTRACTS = []
AOP = z3.ArraySort(I, OPS)
AI = z3.ArraySort(I, I)


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------------------------ symmetries, as opaque objects
TSYM, TNV, TANY = TAbs('Symmetry'), TAbs('NumVecs'), TAbs('Any')
SYS, NVS, ANYS = TSYM.sorts[0], TNV.sorts[0], TANY.sorts[0]
KIND = z3.Function('kind_of_symmetry', SYS, I)            # 0 operator, 1 transformation, else neither


def _symtype(E, v):
    if E.branch(KIND(v.t) == 0):
        return Cls('Operator', 'basis', {})
    return Cls('Transformation', 'transformation', {}) if E.branch(KIND(v.t) == 1) else Lib('builtins.object')


L_.ABST_TYPE['Symmetry'] = _symtype
# a stage: what commuting_operators (kind 0) or invariant_operators (1) returns for its arguments
STAGE = z3.Function('stage', I, I, SYS, I, NVS, R, I)
LID = z3.Function('list_of_operators', I, AOP, I)
STRE, STIM, NCOL = z3.Function('vectors_re', I, I, I, R), z3.Function('vectors_im', I, I, I, R), z3.Function('number_of_vectors', I, I)
PART = z3.Function('returned_with_the_vectors', I, I, ANYS)
SPT, SPAN = z3.Function('sparsified', I, I, I), z3.Function('vectors_spanning_the_same_space', I, I)
ROW = z3.Function('row_of_a_large_entry', I, I, I)


def basis_id(b):
    return z3.IntVal(0) if isinstance(b, Obj) else LID(iv(b.n), b.as_sym(TOper).arrs[0])


def vectors(E, tag, nr, tol):
    """The matrix of the vectors of a stage; each column has an entry larger than tol (assumed:
    the columns are normalized or independent, and tol is a small number)."""
    m = E.new(Mat(nr, NCOL(tag), lambda r, c: Cx(STRE(tag, iv(r), iv(c)), STIM(tag, iv(r), iv(c)))))
    m.stage = tag
    E.assume(NCOL(tag) >= 0)
    return m


def _kind_stub(kind):
    def stub(self, E, args, kw, node):
        b, sym, mode, x, y, tol = args
        full, nv = (x, y) if kind == 0 else (y, x)
        if not isinstance(nv, Abst) or full is not True:
            raise Unsupported('arguments of a stage')
        E.oblige('requires: {}'.format(['an operator', 'a transformation'][kind]), KIND(sym.t) == kind, node)
        tag = fresh(I, 'tag')
        E.assume(tag == STAGE(z3.IntVal(kind), basis_id(b), sym.t, sv(mode), nv.t, rv(tol)))
        E.assume(SPAN(tag) == tag)
        nr = contents(b)[0] if isinstance(b, Obj) else iv(b.n)
        return (vectors(E, tag, nr, rv(tol)),) + tuple(E.new(Abst('Any', PART(tag, i))) for i in (1, 2, 3))
    return stub


for _c, _k in ((Commuting, 0), (Invariant, 1)):
    _c.stub = _kind_stub(_k)
    _c.applies = lambda self, E, args, kw: bool(E.ghost.get('stages'))


def _sparsify_stub(self, E, args, kw, node):
    """sparsify keeps the span (C21)."""
    v, o = (list(args) + [True])[:2]
    o = kw.get('orthogonalize', o)
    if not isinstance(o, bool) or getattr(v, 'stage', None) is None:
        raise Unsupported('sparsify')
    tag = fresh(I, 'tag')
    E.assume(z3.And(tag == SPT(v.stage, z3.IntVal(int(o))), SPAN(tag) == SPAN(v.stage)))
    return vectors(E, tag, v.nr, None)


# (sparsify itself is not under contract: its span is checked by the executable form of C21)
contract(type('SparsifyAsSeen', (Contract,), dict(mod='tools', qual='sparsify', props=[], stub=_sparsify_stub, applies=lambda self, E, a, k: bool(E.ghost.get('stages')))))


def _norm_stub(self, E, args, kw, node):
    """The coefficients are divided by a positive number, their norm (assumed not to be zero)."""
    o = args[0]
    c = o.f['coeffs'].as_sym(TCx) if isinstance(o.f['coeffs'], Lst) and o.f['coeffs'].conc else o.f['coeffs']
    N = fresh(R, 'norm')
    n, re, im = iv(c.n), c.arrs[0], c.arrs[1]
    new = E.new(Lst.sym(TCx, n, np=True, name='normalized'))
    E.assume(z3.And(N > 0, N * N == NSQ([re, im], n)))
    E.assume(fa(n, lambda k: z3.And(new.arrs[0][k] * N == re[k], new.arrs[1][k] * N == im[k]), lambda k: new.arrs[0][k]))
    E.touch(o)
    o.f['coeffs'] = new
    E.gs['norm'] = N
    return None


OpNormalize.stub = _norm_stub
OpNormalize.applies = lambda self, E, a, k: bool(E.ghost.get('stages'))
OpRemoveZeros.applies = lambda self, E, a, k: bool(E.ghost.get('opaque permutations') or E.ghost.get('stages'))


def _rz_stub(self, E, args, kw, node, old=OpRemoveZeros.stub):
    if not isinstance(args[0].f['_basis'].f['_indices'], CDict):
        return old(self, E, args, kw, node)
    o = new_operator(E, 'rz', args[0].f['op_type'])         # nothing to remove
    E.assume(op_snap(o)[0] == 0)
    return o


OpRemoveZeros.stub = _rz_stub


def thr(tag, r, j, tol):
    """The entry of the vectors, zero if its magnitude is at most tol."""
    x, y = STRE(tag, r, j), STIM(tag, r, j)
    on = x * x + y * y > tol * tol
    return z3.If(on, x, z3.RealVal(0)), z3.If(on, y, z3.RealVal(0))


def _cterm(a, k, p):
    q = coef(opterm_snap(a[0][k]), p[2])
    x, y = thr(p[0], k, p[1], p[3])
    z = cmul(Cx(x, y), q)
    return rv(z.re), rv(z.im)


# COMB(ops, n; tag, j, s, tol): the coefficient of s in the sum over k < n of (entry k of column j) * ops[k]
COMB = Fold('COMB', [AOP], [I, I, SOS, R], _cterm, out='cx')


def proj(L):
    l = L['self'].f['projected_output_operators']
    if l.conc:
        if l.items:
            raise Unsupported('operators')
        return z3.IntVal(0), None, None
    return iv(l.n), l.arrs[0], l.arrs[1]


def made(g, tag, j, t, ns, prev, first):
    """The operator t is made from column j of the vectors tag."""
    s0, tol = g['s0'], g['tol']
    x = coef(opterm_snap(t), s0)
    if first:
        n, arr, idx = contents(g['basis'])
        q = z3.Select(idx, s0)
        a, b = thr(tag, q, j, tol)
        return cx_eq(x, Cx(z3.If(q >= 0, a, z3.RealVal(0)), z3.If(q >= 0, b, z3.RealVal(0))))
    n, arr = prev
    A = COMB([arr], n, [tag, j, s0, tol])
    return z3.And(ns > 0, z3.Or(z3.And(rv(x.re) * ns == rv(A.re), rv(x.im) * ns == rv(A.im)), z3.And(rv(x.re) == 0, rv(x.im) == 0, rv(A.re) * rv(A.re) + rv(A.im) * rv(A.im) <= z3.RealVal('1/100000000000000000000'))))


def stage_tag(g, k, bid):
    S = g['sym'][k]
    return STAGE(KIND(S), bid, S, g['modes'][k], g['nv'][k], g['tol'])


def right(g, gs, k0, j0, m, ln, el):
    """Stage k0 is right: its vectors span the space of its symmetry relative to the stage before."""
    FT, ns = gs['FT'], gs['ns']
    tag = FT[k0]
    strings = isinstance(g['basis'], Obj)
    p0 = (iv(g['basis'].n), g['basis'].arrs[0]) if not strings else None
    bid = z3.If(k0 == 0, basis_id(g['basis']), LID(ln[k0 - 1], el[k0 - 1]))
    t = z3.Select(el[k0], j0)
    later = made(g, tag, j0, t, ns, (ln[k0 - 1], el[k0 - 1]), False)
    first = made(g, tag, j0, t, ns, p0, strings)
    rng = z3.And(0 <= k0, k0 < m)
    a = g['others']
    return [('the vectors of a stage', z3.Implies(rng, SPAN(tag) == stage_tag(g, k0, bid))), ('as many operators as vectors', z3.Implies(rng, ln[k0] == NCOL(tag))),
            ('the first operators', z3.Implies(z3.And(rng, k0 == 0, 0 <= j0, j0 < ln[k0]), first)), ('the operators of a later stage', z3.Implies(z3.And(rng, k0 > 0, 0 <= j0, j0 < ln[k0]), later))]


OTHERS = ['projected_superoperators', 'projected_eigenvalues', 'projected_eigenvectors']


def _main(L):
    E, g = L.E, L.E.ghost
    m, ln, el = proj(L)
    if ln is None:
        return [('no stage', z3.BoolVal(True))]
    k, j = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'j')
    t = z3.Select(z3.Select(el, k), j)
    out = [('a stage for each symmetry, until there are no operators', z3.And(0 <= m, z3.Or(m == L.i, z3.And(1 <= m, m < L.i, ln[m - 1] == 0)))),
           ('numbers of operators', fa(m, lambda k: ln[k] >= 0, lambda k: ln[k])),
           ('operators of one type', z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < m, 0 <= j, j < ln[k]), OTYP(t) == g['type']), patterns=[t]))]
    out += right(g, L.G, g['k0'], g['j0'], m, ln, el)
    for i, (nm, at) in enumerate(zip(OTHERS, (1, 2, 3))):
        l = L['self'].f[nm]
        if l.conc:
            continue
        bid = z3.If(g['k0'] == 0, basis_id(g['basis']), LID(ln[g['k0'] - 1], el[g['k0'] - 1]))
        out.append(('what belongs to the vectors: ' + nm, z3.And(iv(l.n) == m, z3.Implies(z3.And(0 <= g['k0'], g['k0'] < m), l.arrs[0][g['k0']] == PART(stage_tag(g, g['k0'], bid), at)))))
    return out


def _main_step(L1, L0):
    m0, m1 = proj(L0)[0], proj(L1)[0]
    FT = L0.G['FT']
    try:
        st = getattr(L1['output_ops'], 'stage', None)
    except Unsupported:             # skipped
        st = None
    grew = m1 > m0
    return {'FT': z3.If(grew, z3.Store(FT, m0, st), FT) if st is not None else FT, 'ns': z3.If(z3.And(grew, m0 == L0.E.ghost['k0']), L1.G['nsj'], L0.G['ns'])}


def _vecs(L):
    """The operators made from the columns so far."""
    E, g = L.E, L.E.ghost
    l = L['projected_output_ops']
    b = L['basis']
    if l.conc:
        return [('no operators', z3.And(L.i == 0, z3.BoolVal(not l.items)))]
    n, arr = iv(l.n), l.arrs[0]
    strings = isinstance(b, Obj)
    return [('an operator for each vector', n == L.i), ('of the type', fa(n, lambda k: OTYP(arr[k]) == g['type'], lambda k: arr[k])),
            ('made from the vectors', z3.Implies(z3.And(0 <= g['j0'], g['j0'] < n), made(g, L['output_ops'].stage, g['j0'], arr[g['j0']], L.G['nsj'], None if strings else (iv(b.n), b.as_sym(TOper).arrs[0]), strings)))]


def _vecs_step(L1, L0):
    N = L1.E.gs.get('norm')
    return {} if N is None else {'nsj': z3.If(L0.i == L0.E.ghost['j0'], N, L0.G['nsj'])}


def _lemma(E, nm, f, *terms):
    E.oblige('step: ' + nm, f, None, [mention(*terms)] if terms else [])
    return f


def _vecs_hints(L1, L0):
    E, g, b, V = L1.E, L1.E.ghost, L0['basis'], L1['output_ops']
    o = L1['proj_op']
    rs = snap_of(o)
    p = z3.Select(rs[2], g['s0'])
    x = coef(rs, g['s0'])
    j = L0.i
    if not isinstance(b, Obj):
        N = E.gs['norm']
        A = COMB([b.as_sym(TOper).arrs[0]], iv(b.n), [V.stage, j, g['s0'], g['tol']])
        return [_lemma(E, 'the coefficient of the normalized operator', z3.And(N > 0, rv(x.re) * N == rv(A.re), rv(x.im) * N == rv(A.im)), rs[3][p], rs[4][p])]
    st = L1['op_strings']
    n, arr, idx = contents(b)
    if st.conc:
        return []
    a, src, dst = st.arrs[0], L1.G['src'], L1.G['dst']
    q = z3.Select(idx, g['s0'])
    W = (STRE(V.stage, q, j), STIM(V.stage, q, j))
    big = W[0] * W[0] + W[1] * W[1] > g['tol'] * g['tol']
    out = [_lemma(E, 'strings of the operator are large entries', z3.Implies(p >= 0, z3.And(p < rs[0], a[p] == g['s0'], src[p] == q, q >= 0, big)), a[p], arr[src[p]], rs[1][p])]
    out.append(_lemma(E, 'large entries are strings of the operator', z3.Implies(z3.And(q >= 0, big), p >= 0), dst[q], a[dst[q]], arr[q], rs[1][dst[q]]))
    return out + [_lemma(E, 'the coefficient of a large entry', z3.Implies(p >= 0, z3.And(rv(x.re) == W[0], rv(x.im) == W[1])), a[p], rs[3][p])]


def _entries(L):
    E, g, b, V = L.E, L.E.ghost, L['basis'], L['output_ops']
    j = L.outer.i
    if not isinstance(b, Obj):
        rs = snap_of(L['proj_op'])
        return op_wf(L['proj_op']) + [('type', rs[5] == g['type']), ('the coefficient so far', cx_eq(coef(rs, g['s0']), COMB([b.as_sym(TOper).arrs[0]], L.i, [V.stage, j, g['s0'], g['tol']])))]
    n, arr, idx = contents(b)
    co, st = L['coeffs'], L['op_strings']
    if co.conc or st.conc:
        return [('nothing yet', z3.And(L.i == 0, z3.BoolVal(not co.items and not st.items)))]
    src, dst = L.G['src'], L.G['dst']
    m = iv(st.n)
    W = lambda r: (STRE(V.stage, r, j), STIM(V.stage, r, j))
    big = lambda r: W(r)[0] * W(r)[0] + W(r)[1] * W(r)[1] > g['tol'] * g['tol']
    k = z3.FreshConst(I, 'k')
    return [('as many coefficients as strings', iv(co.n) == m),
            ('the strings so far', fa(m, lambda k: z3.And(0 <= src[k], src[k] < L.i, dst[src[k]] == k, st.arrs[0][k] == arr[src[k]], co.arrs[0][k] == W(src[k])[0], co.arrs[1][k] == W(src[k])[1], big(src[k])), lambda k: st.arrs[0][k])),
            ('all of the large entries so far', fa(L.i, lambda r: z3.Implies(big(r), z3.And(0 <= dst[r], dst[r] < m, src[dst[r]] == r)), lambda r: [dst[r], arr[r]]))]


def _entries_step(L1, L0):
    if not isinstance(L0['basis'], Obj):
        return {}
    m0, m1 = iv(L0['op_strings'].length()), iv(L1['op_strings'].length())
    grew = m1 > m0
    return {'src': z3.If(grew, z3.Store(L0.G['src'], m0, L0.i), L0.G['src']), 'dst': z3.If(grew, z3.Store(L0.G['dst'], L0.i, m0), L0.G['dst'])}


def _entries_exit(L):
    """A large entry of this column (assumed)."""
    E, V = L.E, L['output_ops']
    if not isinstance(L['basis'], Obj):
        return []
    r, j, tol = fresh(I, 'r'), L.outer.i, E.ghost['tol']
    E.assume(z3.And(0 <= r, r < iv(V.nr), STRE(V.stage, r, j) * STRE(V.stage, r, j) + STIM(V.stage, r, j) * STIM(V.stage, r, j) > tol * tol))
    n, arr, idx = contents(L['basis'])
    return [mention(arr[r], L.G['dst'][r], arr[z3.Select(idx, E.ghost['s0'])], L.G['dst'][z3.Select(idx, E.ghost['s0'])])]


def new_generator(E, basis, N, with_inputs=True):
    o = E.new(Obj(E.repo.mod('core')['SymmetricOperatorGenerator']))
    o.f['basis'] = basis
    for nm in ['superoperators', 'eigenvalues', 'eigenvectors', 'output_operators', 'projected_output_operators'] + OTHERS:
        o.f[nm] = E.new(Lst.of([]))
    o.f['operation_modes'], o.f['input_symmetries'], o.f['num_vecs'] = (E.new(Lst.sym(t, N, name=x)) for t, x in ((TStr, 'modes'), (TSYM, 'symmetries'), (TNV, 'num_vecs')))
    return o


@contract
class Cumulative(Contract):
    """Stage k: the operators made from vectors that span what commuting_operators or
    invariant_operators returns for the operators of stage k - 1 and symmetry k."""
    mod, qual, props = 'core', 'SymmetricOperatorGenerator._generate_cumulative', ['C11']
    cases = ['strings', 'operators', 'strings, not sparsified', 'operators, orthogonal', 'operators, neither']
    only_raises = 0
    cut_for = True
    loops = [Loop(_main, ghosts={'FT': AI, 'ns': R}, ghost_step=_main_step, label='(symmetries)'),
             Loop(_vecs, ghosts={'nsj': R}, ghost_step=_vecs_step, hints=_vecs_hints, label='(vectors)'),
             Loop(_entries, ghosts={'src': AI, 'dst': AI}, ghost_step=_entries_step, exit_hints=_entries_exit, types={'op_strings': TLst(TOS), 'coeffs': TLst(TCx)}, label='(entries)'),
             Loop(_entries, ghosts={'src': AI, 'dst': AI}, ghost_step=_entries_step, exit_hints=_entries_exit, types={'op_strings': TLst(TOS), 'coeffs': TLst(TCx)}, label='(entries)', optional=True)]

    def setup(self, E, case):
        oper_axioms(E)
        g = E.ghost
        g['stages'] = True
        ty = g['type'] = fresh(I, 'type')
        if case.startswith('strings'):
            b = new_basis(E, 'A')
            n, arr, idx = contents(b)
            E.assume(fa(n, lambda k: OPTYPE(arr[k]) == ty, lambda k: arr[k]))
            snap = contents(b)
        else:
            b = E.new(Lst.sym(TOper, fresh(I, 'n'), name='ops'))
            n, arr = iv(b.n), b.arrs[0]
            E.assume(fa(n, lambda k: OTYP(arr[k]) == ty, lambda k: arr[k]))
            snap = (n, arr)
        E.assume(n > 0)
        N, tol = fresh(I, 'N'), fresh(R, 'tol')
        E.assume(z3.And(N >= 0, tol > 0))
        o = new_generator(E, b, N)
        sym, modes, nv = o.f['input_symmetries'].arrs[0], o.f['operation_modes'].arrs[0], o.f['num_vecs'].arrs[0]
        g.update(basis=b, tol=tol, sym=sym, modes=modes, nv=nv, s0=fresh(SOS, 's0'), k0=fresh(I, 'k0'), j0=fresh(I, 'j0'), others=None)
        q = fresh(I, 'bad')
        E.gs.update(FT=fresh(AI, 'FT'), ns=fresh(R, 'ns'), nsj=fresh(R, 'nsj'), src=fresh(AI, 'src'), dst=fresh(AI, 'dst'))
        E.assume(fa(N, lambda k: z3.Or(KIND(sym[k]) == 0, KIND(sym[k]) == 1), lambda k: sym[k]))
        kw = dict(tol=tol)
        kw['sparsification'], kw['orthogonalization'] = {'': (True, False), 'not sparsified': (False, False), 'orthogonal': (True, True), 'neither': (False, True)}[(case + ', ').split(', ')[1]]
        return Ctx([], kw, self_=o, o=o, b=b, N=N, tol=tol, snap=snap, case=case)

    def post(self, E, c, res):
        o, g = c.o, E.ghost
        out = [('the inputs are unchanged', z3.And([z3.BoolVal(o.f['basis'] is c.b)] + [z3.And(iv(o.f[x].n) == c.N, o.f[x].arrs[0] == g[y]) for x, y in (('input_symmetries', 'sym'), ('operation_modes', 'modes'), ('num_vecs', 'nv'))])),
               ('the basis is unchanged', unchanged(c.b, c.snap) if isinstance(c.b, Obj) else z3.And(iv(c.b.n) == c.snap[0], c.b.arrs[0] == c.snap[1]))]
        l = o.f['projected_output_operators']
        if l.conc:
            return out + [('nothing to do', c.N == 0)]
        m, ln, el = iv(l.n), l.arrs[0], l.arrs[1]
        out.append(('every symmetry is imposed, until there are no operators', z3.And(m <= c.N, z3.Or(m == c.N, z3.And(m >= 1, ln[m - 1] == 0)))))
        return out + right(g, E.gs, g['k0'], g['j0'], m, ln, el)


# ------------------------------------------------------------------- the other methods of the class
OUTPUTS = ['superoperators', 'eigenvalues', 'eigenvectors', 'output_operators', 'projected_superoperators', 'projected_eigenvalues', 'projected_eigenvectors', 'projected_output_operators']


@contract
class GenInit(Contract):
    """No symmetries and no results; the lists are independent of each other."""
    mod, qual, props = 'core', 'SymmetricOperatorGenerator.__init__', ['C11']

    def setup(self, E, case):
        b = new_basis(E, 'A')
        o = E.new(Obj(E.repo.mod('core')['SymmetricOperatorGenerator']))
        return Ctx([b], self_=o, o=o, b=b, snap=contents(b))

    def post(self, E, c, res):
        ls = [c.o.f[x] for x in ['operation_modes', 'input_symmetries', 'num_vecs'] + OUTPUTS]
        return [('the basis', z3.And(z3.BoolVal(c.o.f['basis'] is c.b), unchanged(c.b, c.snap))), ('empty lists', z3.And([iv(l.length()) == 0 for l in ls])),
                ('independent lists', z3.BoolVal(len(set(map(id, ls))) == len(ls)))]


@contract
class AddSymmetry(Contract):
    """The symmetry, its mode and its number of vectors are put at the ends of their lists."""
    mod, qual, props = 'core', 'SymmetricOperatorGenerator.add_symmetry', ['C11']
    cases = ['default mode', 'mode']

    def setup(self, E, case):
        N = fresh(I, 'N')
        E.assume(N >= 0)
        o = new_generator(E, new_basis(E, 'A'), N)
        s, v = E.new(Abst('Symmetry', fresh(SYS, 's'))), E.new(Abst('NumVecs', fresh(NVS, 'v')))
        kw = dict(num_vecs=v)
        mode = z3.IntVal(code('commutator'))
        if case == 'mode':
            kw['operation_mode'] = SStr(fresh(I, 'mode'))
            mode = sv(kw['operation_mode'])
        return Ctx([s], kw, self_=o, o=o, N=N, old=[o.f[x].arrs[0] for x in ('input_symmetries', 'operation_modes', 'num_vecs')], new=[s.t, mode, v.t])

    def post(self, E, c, res):
        out = []
        for x, a, t in zip(('input_symmetries', 'operation_modes', 'num_vecs'), c.old, c.new):
            l = c.o.f[x]
            out += [(x, z3.And(iv(l.n) == c.N + 1, l.arrs[0][c.N] == t, fa(c.N, lambda k: l.arrs[0][k] == a[k], lambda k: l.arrs[0][k])))]
        return out + [('no results', z3.And([iv(c.o.f[x].length()) == 0 for x in OUTPUTS]))]


def _dispatch_stub(name):
    def stub(self, E, args, kw, node):
        E.ghost.setdefault('dispatched', []).append((name, list(args), dict(kw)))
        return None
    return stub


Cumulative.stub, Cumulative.applies = _dispatch_stub('cumulative'), lambda self, E, a, k: bool(E.ghost.get('dispatch'))
contract(type('NoncumulativeAsSeen', (Contract,), dict(mod='core', qual='SymmetricOperatorGenerator._generate_noncumulative', props=[], stub=_dispatch_stub('noncumulative'), applies=lambda self, E, a, k: bool(E.ghost.get('dispatch')))))


@contract
class Generate(Contract):
    """By the mode, with the options passed on."""
    mod, qual, props = 'core', 'SymmetricOperatorGenerator.generate', ['C11']
    cases = ['default', 'cumulative', 'noncumulative', 'other']
    only_raises = 1

    def setup(self, E, case):
        E.ghost['dispatch'] = True
        o = new_generator(E, new_basis(E, 'A'), fresh(I, 'N'))
        kw = {} if case == 'default' else dict(mode=case, sparsification=fresh(B, 'sp'), orthogonalization=fresh(B, 'orth'), verbose=False, tol=fresh(R, 'tol'))
        return Ctx([], kw, self_=o, o=o, kw=kw, case=case)

    def raises(self, E, c):
        return [('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        d = E.ghost.get('dispatched', [])
        want = 'cumulative' if c.case == 'default' else c.case
        ok = len(d) == 1 and d[0][0] == want and d[0][1][0] is c.o
        out = [('the mode', z3.BoolVal(ok))]
        if not ok:
            return out
        s, o, v, t = d[0][1][1:5]
        k = c.kw
        return out + [('the options are passed on', z3.And(bv(s) == bv(k.get('sparsification', True)), bv(o) == bv(k.get('orthogonalization', False)), rv(t) == rv(k.get('tol', z3.RealVal('1/10000000000')))))]
