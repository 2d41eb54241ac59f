"""Contracts of the functions in qosy/tools.py (C15, C14, C23, C21)."""
import z3
from values import *
from engine import Contract, Ctx, Loop
from spec import Fold, Lemma, fa, forall, fresh

AI = z3.ArraySort(I, I)
CONTRACTS = []


def contract(c):
    CONTRACTS.append(c())
    return c


def intlist(E, name, np=False):
    l = E.new(Lst.sym(TInt, fresh(I, name + '_n'), np=np, name=name))
    E.assume(l.n >= 0)
    return l


def same_list(a, arrs, n):
    """The list a is still the one with the given contents."""
    return z3.And(iv(a.length()) == iv(n), fa(iv(n), lambda k: z3.And([z3.Select(x, k) == z3.Select(y, k) for x, y in zip(a.as_sym().arrs, arrs)])))


# ------------------------------------------------------------------------------- compare
@contract
class Compare(Contract):
    """compare(I, J): shorter first, then lexicographic."""
    mod, qual, props = 'tools', 'compare', ['C15', 'C13']
    loops = [Loop(lambda L: [('the lists agree so far', fa(L.i, lambda k: L['labelsI'].get(k) == L['labelsJ'].get(k)))])]

    def setup(self, E, case):
        a, b = intlist(E, 'a'), intlist(E, 'b')
        return Ctx([a, b], a=a, b=b, a0=(a.n, list(a.arrs)), b0=(b.n, list(b.arrs)))

    def post(self, E, c, res):
        a, b = c.a, c.b
        (n, aa), (m, bb) = c.a0, c.b0
        A, B_ = aa[0], bb[0]
        d = z3.Const('d!cmp', I)
        first = lambda k: z3.And(n == m, 0 <= k, k < n, fa(k, lambda j: z3.Select(A, j) == z3.Select(B_, j)))
        r = iv(res)
        k = z3.FreshConst(I, 'k')
        return [('the result is -1, 0 or 1', z3.Or(r == -1, r == 0, r == 1)),
                ('a shorter list comes first', z3.And(z3.Implies(n < m, r == -1), z3.Implies(n > m, r == 1))),
                ('equal lists give 0', z3.Implies(z3.And(n == m, fa(n, lambda j: z3.Select(A, j) == z3.Select(B_, j))), r == 0)),
                ('the first difference decides', z3.ForAll([k], z3.Implies(first(k), z3.And(z3.Implies(z3.Select(A, k) < z3.Select(B_, k), r == -1), z3.Implies(z3.Select(A, k) > z3.Select(B_, k), r == 1))))),
                ('0 only for equal lists', z3.Implies(r == 0, z3.And(n == m, fa(n, lambda j: z3.Select(A, j) == z3.Select(B_, j))))),
                ('inputs unchanged', z3.And(same_list(a, aa, n), same_list(b, bb, m)))]


# ------------------------------------------------------------------- compose_permutations
@contract
class Compose(Contract):
    """compose_permutations(pA, pB)[k] = pA[pB[k]]."""
    mod, qual, props = 'tools', 'compose_permutations', ['C15', 'C12']

    def setup(self, E, case):
        a, b = intlist(E, 'a'), intlist(E, 'b')
        E.assume(a.n == b.n)
        E.assume(fa(b.n, lambda k: z3.And(0 <= b.get(k), b.get(k) < a.n), lambda k: z3.Select(b.arrs[0], k)))
        return Ctx([a, b], a=a, b=b, a0=(a.n, list(a.arrs)), b0=(b.n, list(b.arrs)))

    def post(self, E, c, res):
        (n, aa), (m, bb) = c.a0, c.b0
        r = res.as_sym()
        return [('length', iv(r.n) == n),
                ('result[k] = permA[permB[k]]', fa(n, lambda k: r.get(k) == z3.Select(aa[0], z3.Select(bb[0], k)))),
                ('inputs unchanged', z3.And(same_list(c.a, aa, n), same_list(c.b, bb, m)))]


# ------------------------------------------------------------------------- inversions
# CG(v, m, x) = #{j < m : v[j] > x};  INV(v, n) = #{j < k < n : v[j] > v[k]}
CG = Fold('CG', [AI], [I], lambda a, k, p: z3.If(z3.Select(a[0], k) > p[0], z3.IntVal(1), z3.IntVal(0)))
INV = Fold('INV', [AI], [], lambda a, k, p: CG([a[0]], k, [z3.Select(a[0], k)]))


def swap2(v, p, q):
    """v with the entries at p and q exchanged."""
    return z3.Store(z3.Store(v, q, z3.Select(v, p)), p, z3.Select(v, q))


L_CG_ADJ = Lemma('CG is unchanged by exchanging two neighbours', [AI, I, I],
                 lambda n, v, p, x: ([p >= 0], CG([swap2(v, p, p + 1)], n, [x]) == CG([v], n, [x])),
                 start=lambda v, p, x: p + 2,
                 force=lambda n, v, p, x: [(CG, (w,), m, (x,)) for w in (v, swap2(v, p, p + 1)) for m in (n, n - 1)])

L_INV_ADJ = Lemma('exchanging two neighbours changes the inversions by one', [AI, I],
                  lambda n, v, p: ([p >= 0], INV([swap2(v, p, p + 1)], n) == INV([v], n) + z3.If(z3.Select(v, p) > z3.Select(v, p + 1), z3.IntVal(-1), z3.If(z3.Select(v, p) < z3.Select(v, p + 1), z3.IntVal(1), z3.IntVal(0)))),
                  start=lambda v, p: p + 2,
                  uses=lambda n, v, p: [L_CG_ADJ.inst(n - 1, v, p, z3.Select(v, n - 1))],
                  force=lambda n, v, p: [(INV, (w,), m, ()) for w in (v, swap2(v, p, p + 1)) for m in (n, n - 1)]
                  + [(CG, (w,), p + 1, (z3.Select(w, p + 1),)) for w in (v, swap2(v, p, p + 1))])

def distinct(v, n):
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    body = z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Select(v, a) != z3.Select(v, b))
    return z3.ForAll([a, b], body, patterns=[z3.MultiPattern(z3.Select(v, a), z3.Select(v, b))]) if z3.is_const(v) else z3.ForAll([a, b], body)


# exchanging any two different entries flips the parity of the inversions
# (induction on the distance, through the neighbour exchange at q)
L_INV_SWAP = Lemma('exchanging two different entries flips the parity of the inversions', [AI, I, I],
                   lambda q, v, p, n: ([p >= 0, q < n, distinct(v, n)],
                                       (INV([swap2(v, p, q)], n) - INV([v], n)) % 2 == 1),
                   start=lambda v, p, n: p + 1)


def _inv_swap_obl():
    """Own induction: the hypothesis is needed for another array, so it is quantified."""
    v = fresh(AI, 'v')
    p, q, n = fresh(I, 'p'), fresh(I, 'q'), fresh(I, 'n')
    stmt = lambda q, v: z3.Implies(z3.And(p >= 0, q > p, q < n, distinct(v, n)), (INV([swap2(v, p, q)], n) - INV([v], n)) % 2 == 1)
    base = ('lemma {} (base)'.format(L_INV_SWAP.name), [p >= 0, p + 1 < n, distinct(v, n), L_INV_ADJ.inst(n, v, p)], stmt(p + 1, v), [])
    # swap(v, p, q+1): if v[p] != v[q], go through u = adj(v, q), w = swap(u, p, q)... with
    # v[q] == v[p] or v[q] == v[q+1] treated through the same three exchanges
    u = swap2(v, q, q + 1)              # moves v[q+1] to q
    w = swap2(u, p, q)                  # now v[q+1] at p, v[p] at q
    z = swap2(w, q, q + 1)              # v[p] at q+1, v[q] at q
    tgt = swap2(v, p, q + 1)
    k = z3.FreshConst(I, 'k')
    ext = [z3.Implies(z3.And(p >= 0, q > p), z == tgt)]
    step = ('lemma {} (step)'.format(L_INV_SWAP.name),
            [p >= 0, q > p, q + 1 < n, distinct(v, n), stmt(q, u), L_INV_ADJ.inst(n, v, q), L_INV_ADJ.inst(n, w, q)] + ext,
            stmt(q + 1, v), [])
    extg = ('lemma {} (three exchanges)'.format(L_INV_SWAP.name), [p >= 0, q > p], z == tgt, [])
    return [base, extg, step]


L_INV_SWAP.obligations = _inv_swap_obl


def sorted_pairs(v, n, skip=None):
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    cond = [0 <= a, a < b, b < n] + ([b != skip] if skip is not None else [])
    return z3.ForAll([a, b], z3.Implies(z3.And(cond), z3.Select(v, a) <= z3.Select(v, b)), patterns=[z3.MultiPattern(z3.Select(v, a), z3.Select(v, b))])


def is_perm(P, Q, n):
    k = z3.FreshConst(I, 'k')
    pk, qk = z3.Select(P, k), z3.Select(Q, k)
    r = z3.And(0 <= k, k < n)
    return z3.And(z3.ForAll([k], z3.Implies(r, z3.And(0 <= pk, pk < n, z3.Select(Q, pk) == k)), patterns=[pk]),
                  z3.ForAll([k], z3.Implies(r, z3.And(0 <= qk, qk < n, z3.Select(P, qk) == k)), patterns=[qk]))


def even(x):
    return x % 2 == 0


# -------------------------------------------------------------------------- sort_sign
def parity_sign(s, inv):
    return z3.And(z3.Implies(even(inv), s == 1), z3.Implies(z3.Not(even(inv)), s == -1))


def rearranged(v, v0, P, n):
    return fa(n, lambda k: z3.Select(v, k) == z3.Select(v0, z3.Select(P, k)), lambda k: [z3.Select(P, k), z3.Select(v, k)])


def _ss_outer(L):
    n = iv(L['vec'].n)
    v, v0 = L['vec'].arrs[0], L.E.ghost['v0']
    i = z3.If(n >= 1, L.i + 1, z3.IntVal(0))
    return [('the length is kept', n == L.E.ghost['n']),
            ('the first entries are sorted', sorted_pairs(v, L.i + 1)),
            ('rearrangement', z3.And(is_perm(L.G['P'], L.G['Q'], n), rearranged(v, v0, L.G['P'], n))),
            ('swaps counts the removed inversions', INV([v0], n) == INV([v], n) + L['swaps'])]


def _ss_inner(L):
    n = iv(L['vec'].n)
    v, v0 = L['vec'].arrs[0], L.E.ghost['v0']
    i, j = L['i'], L['j']
    return [('the length is kept', n == L.E.ghost['n']),
            ('range', z3.And(0 <= j, j <= i, i < n)),
            ('sorted apart from position j', sorted_pairs(v, i + 1, skip=j)),
            ('rearrangement', z3.And(is_perm(L.G['P'], L.G['Q'], n), rearranged(v, v0, L.G['P'], n))),
            ('swaps counts the removed inversions', INV([v0], n) == INV([v], n) + L['swaps'])]


def _ss_ghost(L1, L0):
    P, Q, j = L0.G['P'], L0.G['Q'], L0['j']
    return {'P': swap2(P, j - 1, j), 'Q': z3.Store(z3.Store(Q, z3.Select(P, j), j - 1), z3.Select(P, j - 1), j)}


@contract
class SortSign(Contract):
    """sort_sign(v): sorted rearrangement and (-1)**(number of inversions), integer entries."""
    mod, qual, props = 'tools', 'sort_sign', ['C15', 'C01']
    cases = ['insertionsort', 'mergesort', 'other']
    only_raises = 1

    def loops_for(self, case):
        if case != 'insertionsort':
            return []
        return [Loop(_ss_outer, ghosts={'P': AI, 'Q': AI}, label='(insertion)'),
                Loop(_ss_inner, ghosts={'P': AI, 'Q': AI}, ghost_step=_ss_ghost, label='(sift down)', decreases=lambda L: L['j'],
                     hints=lambda L, L0: [L_INV_ADJ.inst(iv(L['vec'].n), L0['vec'].arrs[0], L0['j'] - 1)])]

    def setup(self, E, case):
        v = intlist(E, 'v')
        E.ghost['v0'], E.ghost['n'] = v.arrs[0], v.n
        ident = fresh(AI, 'id')
        E.assume(forall([I], lambda k: z3.Select(ident, k) == k, lambda k: z3.Select(ident, k)))
        E.gs['P'], E.gs['Q'] = ident, ident
        kw = {} if case == 'insertionsort' else {'method': 'mergesort' if case == 'mergesort' else 'bubblesort'}
        return Ctx([v], kw, v=v, v0=(v.n, list(v.arrs)), case=case)

    def raises(self, E, c):
        return [('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        n, arrs = c.v0
        vec, s = res
        r = vec.as_sym()
        v0 = arrs[0]
        if c.case == 'mergesort':
            src, perm = r.fancy_of
            P, Q = perm.arrs[0], perm.inv
            hints = [L_STABLE.inst(n, v0, Q)]
        else:
            P, Q = E.gs['P'], E.gs['Q']
            hints = [L_SORTED.inst(n, r.arrs[0])]
        return [('length', iv(r.n) == n),
                ('the result is sorted', sorted_pairs(r.arrs[0], n)),
                ('the result is a rearrangement of the input', z3.And(is_perm(P, Q, n), fa(n, lambda k: r.get(k) == z3.Select(v0, z3.Select(P, k))))),
                ('the sign is the parity of the inversions', parity_sign(iv(s), INV([v0], n)), hints),
                ('input unchanged', same_list(c.v, arrs, n))]

    def stub(self, E, args, kwargs, node):
        vec, tol, method = args
        if method not in ('insertionsort', 'mergesort'):
            raise Unsupported('sort_sign method')
        v = vec.as_sym(TInt)
        if v.shape != TInt:
            raise Unsupported('sort_sign of non-integers')
        n = iv(v.n)
        s = Ph(2 * INV([v.arrs[0]], n), 1.0)          # 1 or -1
        E.ghost.setdefault('sorted list', []).append(vec)
        E.ghost.setdefault('sorted', []).append((v.arrs[0], n, getattr(vec, 'cat', None)))
        r = E.new(Lst.sym(TInt, v.n, np=True, name='sorted'))
        E.assume(sorted_pairs(r.arrs[0], n))
        return (r, s)


# a sorted array has no inversions
L_CG_MAX = Lemma('no entry before a maximal one is greater', [AI, I],
                 lambda m, v, x: ([fa(m, lambda k: z3.Select(v, k) <= x, lambda k: z3.Select(v, k))], CG([v], m, [x]) == 0),
                 force=lambda m, v, x: [(CG, (v,), m, (x,))])
L_SORTED = Lemma('a sorted array has no inversions', [AI],
                 lambda n, v: ([sorted_pairs(v, n)], INV([v], n) == 0),
                 uses=lambda n, v: [L_CG_MAX.inst(n - 1, v, z3.Select(v, n - 1))],
                 force=lambda n, v: [(INV, (v,), n, ())])
# the inverse of the stable sorting permutation has the inversions of the array
_agree = lambda m, v, Q, b: fa(m, lambda k: (z3.Select(v, k) > z3.Select(v, b)) == (z3.Select(Q, k) > z3.Select(Q, b)), lambda k: [z3.Select(v, k), z3.Select(Q, k)])
L_CG_SAME = Lemma('arrays ordered alike have the same greater entries', [AI, AI, I],
                  lambda m, v, Q, b: ([fa(m, lambda k: (z3.Select(v, k) > z3.Select(v, b)) == (z3.Select(Q, k) > z3.Select(Q, b)), lambda k: [z3.Select(v, k), z3.Select(Q, k)])],
                                      CG([v], m, [z3.Select(v, b)]) == CG([Q], m, [z3.Select(Q, b)])),
                  force=lambda m, v, Q, b: [(CG, (v,), m, (z3.Select(v, b),)), (CG, (Q,), m, (z3.Select(Q, b),))])


def _alike(n, v, Q):
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), (z3.Select(v, a) > z3.Select(v, b)) == (z3.Select(Q, a) > z3.Select(Q, b))),
                     patterns=[z3.MultiPattern(z3.Select(v, a), z3.Select(v, b)), z3.MultiPattern(z3.Select(Q, a), z3.Select(Q, b))])


L_STABLE = Lemma('arrays ordered alike have the same inversions', [AI, AI],
                 lambda n, v, Q: ([_alike(n, v, Q)], INV([v], n) == INV([Q], n)),
                 uses=lambda n, v, Q: [L_CG_SAME.inst(n - 1, v, Q, n - 1)],
                 force=lambda n, v, Q: [(INV, (v,), n, ()), (INV, (Q,), n, ())])


# -------------------------------------------------------------------------------- sign
def _cyc(P, visited, ind, cur):
    """Values after resolving the visited cycles: at ind the next element of the open cycle."""
    return lambda x: z3.If(x == ind, cur, z3.If(visited.has(x), x, z3.Select(P, x)))


def _sg_common(L, g, gi, n):
    return [('resolved permutation', is_perm(g, gi, n))]


def _vis(L):
    return lib_to_sset(L)


def _memb(v):
    if isinstance(v, CSet):
        return lambda x: z3.Or([x == iv(y) for y in v.items]) if v.items else z3.BoolVal(False)
    return v.has


def _sg_outer(L):
    n, P, Q = L.E.ghost['n'], L.E.ghost['P'], L.E.ghost['Q']
    vis = _memb(L['visited'])
    g, gi = L.G['g'], L.G['gi']
    k = z3.FreshConst(I, 'k')
    s = iv(L['sign'])
    return [('sign', z3.Or(s == 1, s == -1)),
            ('resolved permutation', is_perm(g, gi, n)),
            ('visited positions are fixed, the others untouched', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(g, k) == z3.If(vis(k), k, z3.Select(P, k))), patterns=[z3.Select(g, k)])),
            ('all earlier positions are visited', fa(L.i, lambda k: vis(k))),
            ('visited positions exist', z3.ForAll([k], z3.Implies(vis(k), z3.And(0 <= k, k < n)))),
            ('parity', parity_sign(s, INV([P], n) - INV([g], n))),
            ('parity of the inverse', parity_sign(s, INV([Q], n) - INV([gi], n)))]


def _sg_inner(L):
    n, P, Q = L.E.ghost['n'], L.E.ghost['P'], L.E.ghost['Q']
    vis = _memb(L['visited'])
    g, gi = L.G['g'], L.G['gi']
    k = z3.FreshConst(I, 'k')
    s, ind, cur, cl = iv(L['sign']), L['ind'], L['ind_cycle'], L['cycle_length']
    sg = z3.If(cl % 2 == 0, -s, s)
    return [('sign', z3.And(z3.Or(s == 1, s == -1), cl >= 1)),
            ('positions', z3.And(0 <= ind, ind < n, vis(ind), 0 <= cur, cur < n)),
            ('resolved permutation', is_perm(g, gi, n)),
            ('open cycle', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(g, k) == z3.If(k == ind, cur, z3.If(vis(k), k, z3.Select(P, k)))), patterns=[z3.Select(g, k)])),
            ('all earlier positions are visited', fa(ind, lambda k: vis(k))),
            ('visited positions exist', z3.ForAll([k], z3.Implies(vis(k), z3.And(0 <= k, k < n)))),
            ('parity', parity_sign(sg, INV([P], n) - INV([g], n))),
            ('parity of the inverse', parity_sign(sg, INV([Q], n) - INV([gi], n)))]


def _sg_step(L1, L0):
    """g: exchange positions ind and cur; gi: exchange the positions of the two values."""
    g, gi, ind, cur = L0.G['g'], L0.G['gi'], L0['ind'], L0['ind_cycle']
    a, b = z3.Select(g, ind), z3.Select(g, cur)      # a == cur
    return {'g': swap2(g, z3.If(ind < cur, ind, cur), z3.If(ind < cur, cur, ind)), 'gi': swap2(gi, z3.If(a < b, a, b), z3.If(a < b, b, a))}


def _sg_hints(L1, L0):
    n = L1.E.ghost['n']
    g, gi, ind, cur = L0.G['g'], L0.G['gi'], L0['ind'], L0['ind_cycle']
    a, b = z3.Select(g, ind), z3.Select(g, cur)
    return [L_INV_SWAP.inst(z3.If(ind < cur, cur, ind), g, z3.If(ind < cur, ind, cur), n), L_INV_SWAP.inst(z3.If(a < b, b, a), gi, z3.If(a < b, a, b), n)]


@contract
class Sign(Contract):
    """sign(P) is the parity of the inversions of the permutation P (and of its inverse)."""
    mod, qual, props = 'tools', 'sign', ['C15', 'C01']
    loops = [Loop(_sg_outer, ghosts={'g': AI, 'gi': AI}, label='(cycles)', exit_hints=lambda L: [L_IDENT.inst(L.E.ghost['n'], L.G['g']), L_IDENT.inst(L.E.ghost['n'], L.G['gi'])]),
             Loop(_sg_inner, ghosts={'g': AI, 'gi': AI}, ghost_step=_sg_step, hints=_sg_hints, label='(one cycle)')]

    def setup(self, E, case):
        p = intlist(E, 'perm')
        Q = fresh(AI, 'Q')
        E.assume(is_perm(p.arrs[0], Q, p.n))
        E.ghost.update(n=p.n, P=p.arrs[0], Q=Q)
        E.gs['g'], E.gs['gi'] = p.arrs[0], Q
        return Ctx([p], p=p, p0=(p.n, list(p.arrs)), Q=Q)

    def post(self, E, c, res):
        n, arrs = c.p0
        return [('the sign is the parity of the permutation', parity_sign(iv(res), INV([arrs[0]], n))),
                ('the sign is the parity of the inverse permutation', parity_sign(iv(res), INV([c.Q], n))),
                ('input unchanged', same_list(c.p, arrs, n))]

    def stub(self, E, args, kwargs, node):
        p = args[0].as_sym()
        Q = getattr(args[0], 'inv', None)
        if Q is None:
            raise Unsupported('sign of a list that is not known to be a permutation')
        E.oblige('precondition of sign: a permutation', is_perm(p.arrs[0], Q, iv(p.n)), node)
        s = fresh(I, 'sign')
        E.assume(parity_sign(s, INV([p.arrs[0]], iv(p.n))))
        E.assume(parity_sign(s, INV([Q], iv(p.n))))
        return s


L_IDENT = Lemma('the identity has no inversions', [AI],
                lambda n, v: ([fa(n, lambda k: z3.Select(v, k) == k, lambda k: z3.Select(v, k))], INV([v], n) == 0),
                uses=lambda n, v: [L_CG_MAX.inst(n - 1, v, z3.Select(v, n - 1))],
                force=lambda n, v: [(INV, (v,), n, ())])
