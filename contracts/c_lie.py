"""Contract of generate_lie_algebra for a basis of strings (C20)."""
import z3
from values import *
from engine import Contract, Ctx, Loop
from spec import Lemma, fa
import lib
from c_basis import new_basis, basis_inv, contents, unchanged, well_formed, SOS
from c_operator import OPTYPE
from c_algebra import BNONE, BSTR

CONTRACTS = []
AI = z3.ArraySort(I, I)


def contract(c):
    CONTRACTS.append(c())
    return c


L_IDENTITY = Lemma('a strictly increasing map onto 0..m-1 is the identity', [AI, AI, I, I],
                   lambda n, src, pos, m, N: ([n <= N, fa(N, lambda k: z3.And(0 <= src[k], src[k] < m), lambda k: src[k]), increasing(src, N),
                                               fa(m, lambda j: z3.And(0 <= pos[j], pos[j] < N, src[pos[j]] == j), lambda j: pos[j])],
                                              fa(n, lambda k: src[k] == k, lambda k: src[k])),
                   uses=lambda n, src, pos, m, N: [src[n - 1] >= src[n - 1], pos[n - 1] >= pos[n - 1], src[n - 2] >= src[n - 2]])


def increasing(a, n):
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    return z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n), a[k] < a[k2]), patterns=[z3.MultiPattern(a[k], a[k2])])


def binv(b):
    l, d = b.f['op_strings'], b.f['_indices']
    n, arr, idx = l.n, l.arrs[0], d.idx
    s = z3.FreshConst(SOS, 's')
    return [('the basis is consistent', z3.And(basis_inv(b))),
            ('positions of the strings', z3.And(n >= 0, fa(n, lambda k: idx[arr[k]] == k, lambda k: arr[k]))),
            ('strings at their positions', z3.ForAll([s], z3.Implies(idx[s] >= 0, z3.And(idx[s] < n, arr[idx[s]] == s)), patterns=[idx[s]]))]


MODE = lambda: z3.IntVal(code('commutator'))


def closed(arr, idx, a, b):
    return z3.Or(BNONE(MODE(), arr[a], arr[b]), idx[BSTR(MODE(), arr[a], arr[b])] >= 0)


def comp(L):
    s = L['inds_computed']
    if isinstance(s, CSet):
        if s.items:
            raise Unsupported('pairs')
        return lambda a, b: z3.BoolVal(False)
    return lambda a, b: z3.Select(s.mem, a, b)


def _rows(L, extra):
    g = L.E.ghost
    n0, oa, t = g['generators']
    b = L['lie_algebra']
    n, arr, idx = contents(b)
    C = comp(L)
    x, y = z3.FreshConst(I, 'x'), z3.FreshConst(I, 'y')
    pt = [C(x, y)] if z3.is_select(C(x, y)) else []
    ia = iv(L['indA'])
    p1, p2 = L.G['p1'], L.G['p2']
    both = lambda x, y: z3.Or(C(x, y), C(y, x))
    out = binv(b)
    out += [('the generators come first', z3.And(n >= n0, fa(n0, lambda k: arr[k] == oa[k], lambda k: arr[k]))),
            ('strings of one type', fa(n, lambda k: OPTYPE(arr[k]) == t, lambda k: arr[k])),
            ('commutators of the computed pairs', z3.BoolVal(True) if not pt else z3.ForAll([x, y], z3.Implies(C(x, y), z3.And(0 <= x, x < n, 0 <= y, y < n, closed(arr, idx, x, y))), patterns=pt)),
            ('further elements are commutators of earlier ones', fa(n, lambda k: z3.And(0 <= p1[k], p1[k] < k, 0 <= p2[k], p2[k] < k, z3.Not(BNONE(MODE(), arr[p1[k]], arr[p2[k]])), arr[k] == BSTR(MODE(), arr[p1[k]], arr[p2[k]])), lambda k: p1[k], lo=n0)),
            ('row', z3.And(0 <= ia, ia <= n if extra is None else ia < n)),
            ('all pairs of earlier rows are computed', z3.ForAll([x, y], z3.Implies(z3.And(0 <= y, y <= x, x < ia), both(x, y)), patterns=pt + [BNONE(MODE(), arr[x], arr[y])])),
            ('Fermion strings are rejected', z3.Implies(t == code('Fermion'), z3.And(ia == 0, z3.BoolVal(True) if extra is None else extra == 0))),
            ('no pairs of Fermion strings', z3.BoolVal(True) if not pt else z3.ForAll([x, y], z3.Implies(C(x, y), t != code('Fermion')), patterns=pt)),
            ('nothing comes from nothing', z3.Or(n0 > 0, n == 0))]
    if extra is not None:
        out += [('the first string', L['osA'].t == arr[ia]), ('column', z3.And(0 <= extra, extra <= n)), ('pairs of this row so far are computed', fa(extra, lambda y: both(ia, y), (lambda y: [C(ia, y)]) if pt else None))]
    return out


def _step(L1, L0):
    n0, n1 = contents(L0['lie_algebra'])[0], contents(L1['lie_algebra'])[0]
    grew = n1 > n0
    g = L0.G
    return {'p1': z3.If(grew, z3.Store(g['p1'], n0, iv(L0['indA'])), g['p1']), 'p2': z3.If(grew, z3.Store(g['p2'], n0, iv(L0['indB'])), g['p2'])}


def _first(L):
    """The generators have been added to an empty basis: they are its elements, in order."""
    E = L.E
    n0, oa, t = E.ghost['generators']
    b = L['lie_algebra']
    if not hasattr(b, 'src'):
        return []
    n, arr, idx = contents(b)
    pos = fresh(AI, 'pos')
    j = z3.FreshConst(I, 'j')
    E.assume(z3.ForAll([j], pos[j] == idx[oa[j]], patterns=[pos[j], idx[oa[j]]]))
    return [L_IDENTITY.inst(n, b.src, pos, n0, n), pos[n] >= pos[n], pos[n0] >= pos[n0], arr[n0] == arr[n0]]


@contract
class LieBasis(Contract):
    """generate_lie_algebra(basis): generators first, closed under commutation, and every further
    element is the string of a non-vanishing commutator of two earlier ones."""
    mod, qual, props = 'algebra', 'generate_lie_algebra', ['C20']
    cases = ['basis']
    no_unroll = True
    only_raises = 0

    def loops_for(self, case):
        gh = {'p1': AI, 'p2': AI}
        return [Loop(lambda L: _rows(L, None), ghosts=gh, entry_hints=_first, label='(first element)'),
                Loop(lambda L: _rows(L, iv(L['indB'])), ghosts=gh, ghost_step=_step, label='(second element)')] if case == 'basis' else []

    def setup(self, E, case):
        if case == 'other':
            return Ctx([fresh(I, 'x')], case=case)
        b = new_basis(E, 'gen')
        n, arr, idx = contents(b)
        t = fresh(I, 'type')
        E.assume(fa(n, lambda k: OPTYPE(arr[k]) == t, lambda k: arr[k]))
        E.ghost['generators'] = (n, arr, t)
        E.gs.update(p1=fresh(AI, 'p1'), p2=fresh(AI, 'p2'))
        return Ctx([b], b=b, snap=contents(b), t=t, case=case)

    def raises(self, E, c):
        if c.case == 'other':
            return [('ValueError', True)]
        return [('NotImplementedError', z3.And(c.t == code('Fermion'), c.snap[0] > 0))]

    def post(self, E, c, res):
        n0, oa, idx0 = c.snap
        n, arr, idx = contents(res)
        x, y = z3.FreshConst(I, 'x'), z3.FreshConst(I, 'y')
        p1, p2 = E.gs['p1'], E.gs['p2']
        return well_formed(res) + [
            ('the generators come first', z3.And(n >= n0, fa(n0, lambda k: arr[k] == oa[k]))),
            ('the commutator of any two elements vanishes or is an element', z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < n), z3.Or(closed(arr, idx, x, y), closed(arr, idx, y, x))))),
            ('every further element is a commutator of earlier ones', fa(n, lambda k: z3.And(0 <= p1[k], p1[k] < k, 0 <= p2[k], p2[k] < k, z3.Not(BNONE(MODE(), arr[p1[k]], arr[p2[k]])), arr[k] == BSTR(MODE(), arr[p1[k]], arr[p2[k]])), lo=n0)),
            ('the generators are unchanged', unchanged(c.b, c.snap)), ('the result is a new basis', z3.BoolVal(res is not c.b))]
