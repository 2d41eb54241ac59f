"""Contracts of the generated bases in qosy/basis.py (C13)."""
import z3
from values import *
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import fa, forall, mention
import lib as L_
from lib import lib
from c_basis import SOS, AOS, well_formed, new_basis, contents, unchanged
from c_operator import OPTYPE
from c_quad import SN, SOPS, SLABS, SPR, SPI
from c_convert import EMPTY

CONTRACTS = []
AI = z3.ArraySort(I, I)
AAI = z3.ArraySort(I, AI)
STR = {'Pauli': ['X', 'Y', 'Z'], 'Majorana': ['A', 'B', 'D']}


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------- itertools (assumed contracts, any length)
# combinations(l, m) and product(l, repeat=m) are functions of the list and m; their elements
# have length m. x "appears" where the specification asks for it (E.ghost['appears']).
CMBN, CMB = z3.Function('number_of_combinations', I, I, AI, I), z3.Function('combinations', I, I, AI, AAI)
CRANK = z3.Function('rank_of_combination', I, I, AI, AI, I)
CPOS = z3.Function('position_in_combination', I, I, AI, I, I, I)
PRDN, PRD = z3.Function('number_of_tuples', I, I, AI, I), z3.Function('tuples', I, I, AI, AAI)
PRANK = z3.Function('rank_of_tuple', I, I, AI, AI, I)
PPOS = z3.Function('position_in_tuple', I, I, AI, I, I, I)


def _nonneg(E, m):
    if not E.valid(iv(m) >= 0):
        if not E.branch(iv(m) >= 0):
            raise PyExc('ValueError', 'itertools')


@lib('itertools.combinations')
def _combinations(E, args, kw, node):
    l, m = args
    if not isinstance(l, Lst) or not is_int(m):
        raise Unsupported('combinations')
    s = l.as_sym(TInt)
    _nonneg(E, m)
    n, m, a = iv(s.n), iv(m), s.arrs[0]
    N, el = CMBN(n, m, a), CMB(n, m, a)
    k, e, f = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'e'), z3.FreshConst(I, 'f')
    P = lambda k, e: CPOS(n, m, a, k, e)
    at = lambda k, e: z3.Select(z3.Select(el, k), e)
    E.assume(N >= 0)
    E.assume(z3.ForAll([k, e], z3.Implies(z3.And(0 <= k, k < N, 0 <= e, e < m), z3.And(0 <= P(k, e), P(k, e) < n, at(k, e) == a[P(k, e)])), patterns=[at(k, e)]))
    E.assume(z3.ForAll([k, e, f], z3.Implies(z3.And(0 <= k, k < N, 0 <= e, e < f, f < m), P(k, e) < P(k, f)), patterns=[z3.MultiPattern(P(k, e), P(k, f))]))
    for mx, x, rank in E.ghost.get('appears', []):
        # a list of m elements of l at ascending positions appears; exactly once if l has no repetition
        rk = CRANK(n, m, a, x)
        if rank is not None:
            known = E.ghost.setdefault('rank in', (n, a))
            if not (known[0].eq(n) and known[1].eq(a)):
                raise Unsupported('combinations of different lists')
            E.assume(z3.Implies(m == mx, rank == rk))
        e1, p1, p2, e2, q1, q2 = (fresh(I, 'w') for _ in range(6))
        missing = z3.And(0 <= e1, e1 < m, fa(n, lambda j: a[j] != x[e1], lambda j: a[j]))
        disorder = z3.And(0 <= e1, e1 < e2, e2 < m, 0 <= p2, p2 <= p1, p1 < n, a[p1] == x[e1], a[p2] == x[e2])
        E.assume(z3.Or(m != mx, missing, disorder, z3.And(0 <= rk, rk < N, fa(m, lambda e: at(rk, e) == x[e], lambda e: [at(rk, e), x[e]]))))
        d = fresh(AI, 'differs')
        repeated = z3.And(0 <= q1, q1 < q2, q2 < n, a[q1] == a[q2])
        E.assume(z3.Or(m != mx, repeated, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.Or(k == rk, z3.And(0 <= d[k], d[k] < m, at(k, d[k]) != x[d[k]]))), patterns=[z3.Select(el, k)])))
    ln = fresh(AI, 'lengths')
    E.assume(forall([I], lambda k: ln[k] == m, lambda k: ln[k]))
    r = Lst.sym(TLst(TInt), N, [ln, el])
    r.tuples = True
    return E.new(r)


def _product(E, args, kw, node, old=L_.LIB.get('itertools.product')):
    m = kw.get('repeat')
    if m is None or not is_z(iv(m)) and not is_z(m):
        if old is None:
            raise Unsupported('itertools.product')
        return old(E, args, kw, node)
    l = args[0]
    if isinstance(l, tuple):
        l = Lst.of(l)
    if not isinstance(l, Lst) or len(args) != 1:
        raise Unsupported('itertools.product')
    _nonneg(E, m)
    s = l.as_sym(TStr)
    n, m, a = iv(s.n), iv(m), s.arrs[0]
    N, el = PRDN(n, m, a), PRD(n, m, a)
    k, e = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'e')
    at = lambda k, e: z3.Select(z3.Select(el, k), e)
    P = lambda k, e: PPOS(n, m, a, k, e)
    among = (lambda t: z3.Or([t == sv(w) for w in l.items])) if l.conc else None
    E.assume(N >= 0)
    E.assume(z3.ForAll([k, e], z3.Implies(z3.And(0 <= k, k < N, 0 <= e, e < m), among(at(k, e)) if among else z3.And(0 <= P(k, e), P(k, e) < n, at(k, e) == a[P(k, e)])), patterns=[at(k, e)]))
    for mx, x in E.ghost.get('tuples appear', []):
        rk, e1 = PRANK(n, m, a, x), fresh(I, 'w')
        missing = z3.And(0 <= e1, e1 < m, z3.Not(among(x[e1])) if among else fa(n, lambda j: a[j] != x[e1], lambda j: a[j]))
        E.assume(z3.Or(m != mx, missing, z3.And(0 <= rk, rk < N, fa(m, lambda e: at(rk, e) == x[e], lambda e: [at(rk, e), x[e]]))))
    E.ghost.setdefault('tuple sources', []).append((n, a))
    ln = fresh(AI, 'lengths')
    E.assume(forall([I], lambda k: ln[k] == m, lambda k: ln[k]))
    return E.new(Lst.sym(TLst(TStr), N, [ln, el]))


L_.LIB['itertools.product'] = _product


# ------------------------------------------------------------ strings built from their parts
def _built(E, cls, args, kw, node):
    """OperatorString(ops, labels, type, prefactor) as a value with factors and labels (the
    constructor is proved in C03): equal strings have equal factors, labels, type and prefactor,
    and the other way round; Pauli and Majorana strings have a prefactor fixed by the rest."""
    if E.ghost.get('strings by parts') is None or cls.name != 'OperatorString':
        return NotImplemented
    names = ['orbital_operators', 'orbital_labels', 'op_type', 'prefactor']
    a = dict(zip(names, args))
    a.update(kw)
    ops, las, ty, pf = [a.get(x) for x in names]
    conv = lambda l, t: Lst.of(list(l)) if isinstance(l, tuple) else l if isinstance(l, Lst) else L_._list(E, [l], {}, node)
    ops, las = conv(ops, TStr).as_sym(TStr), conv(las, TInt).as_sym(TInt)
    n, m = iv(ops.n), iv(las.n)
    if not E.valid(n == m):
        if not E.branch(n == m):
            raise PyExc('ValueError', 'lengths')
    ty = sv(ty)
    fermion = E.valid(ty == code('Fermion'))
    if 'prefactor' in a and not fermion:
        raise Unsupported('prefactor')
    if 'prefactor' in a and not (isinstance(pf, (int, float, complex)) and pf in (1, 1j)):
        raise Unsupported('prefactor')
    pf = complex(a.get('prefactor', 1.0))
    S = fresh(SOS, 'built')
    E.assume(z3.And(SN(S) == n, OPTYPE(S) == ty))
    E.assume(fa(n, lambda e: z3.And(SOPS(S)[e] == ops.arrs[0][e], SLABS(S)[e] == las.arrs[0][e]), lambda e: [SOPS(S)[e], SLABS(S)[e]]))
    if fermion:
        E.assume(z3.And(SPR(S) == rv(pf.real), SPI(S) == rv(pf.imag)))
    for t in E.ghost['strings by parts']:
        d = fresh(I, 'd')
        E.assume(z3.Or(S == t, SN(S) != SN(t), OPTYPE(S) != OPTYPE(t), z3.And(0 <= d, d < n, z3.Or(SOPS(S)[d] != SOPS(t)[d], SLABS(S)[d] != SLABS(t)[d])),
                       z3.And(z3.BoolVal(fermion), z3.Or(SPR(S) != SPR(t), SPI(S) != SPI(t)))))
    E.ghost['built'] = S
    return Opq(S, 'OS')


L_.NEW_OBJ.insert(0, _built)


# ------------------------------------------------------------------------- cluster basis
def inset(s, t):
    if isinstance(s, CSet):
        return z3.Or([sv(x) == t if not isinstance(x, Opq) else x.t == t for x in s.items] or [z3.BoolVal(False)])
    return z3.Select(s.mem, t)


def listed(L):
    """The list of strings: (n, array)."""
    l = L['op_strings'].as_sym(TOS)
    return iv(l.n), l.arrs[0]


def common(L):
    """The list and the set agree, no string is listed twice; what is listed is wanted."""
    n, arr = listed(L)
    s = L['op_strings_set']
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    g = L.E.ghost
    t = z3.FreshConst(SOS, 't')
    pos = L.G['pos']
    out = [('no string twice', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), pos[arr[k]] == k), patterns=[arr[k]])),
           ('the list is in the set', fa(n, lambda k: inset(s, arr[k]), lambda k: arr[k])),
           ('the set is listed', z3.ForAll([t], z3.Implies(inset(s, t), z3.And(0 <= pos[t], pos[t] < n, arr[pos[t]] == t)), patterns=[pos[t]] if isinstance(s, CSet) else [z3.Select(s.mem, t), pos[t]]))]
    for x in g['fixed']:
        out.append(('an unwanted string is not there' + x.nm, z3.Implies(inset(s, x.s), x.wanted)))
        out.append(('the identity' + x.nm, z3.Implies(x.ident, inset(s, x.s))))
    return out


def common_step(L1, L0):
    n0, _ = listed(L0)
    n1, a1 = listed(L1)
    pos = L0.G['pos']
    return {'pos': z3.If(n1 > n0, z3.Store(pos, a1[n0], n0), pos)}


GPOS = {'pos': z3.ArraySort(SOS, I)}
TYP = {'op_strings': TLst(TOS)}


class Fixed(object):
    """An arbitrary fixed string and what the specification says about it."""


def new_fixed(E, nm, s=None):
    x = Fixed()
    x.nm, x.s = nm, s if s is not None else fresh(SOS, 's0')
    E.assume(SN(x.s) >= 0)
    x.n, x.ops, x.las = SN(x.s), SOPS(x.s), SLABS(x.s)
    return x


def iff_all(E, name, n, ok):
    """A truth value W with W == (ok(e) for all e < n)."""
    w, d = fresh(B, name), fresh(I, 'd')
    E.assume(z3.Implies(w, fa(n, lambda e: ok(e)[0], lambda e: ok(e)[1])))
    E.assume(z3.Implies(z3.Not(w), z3.And(0 <= d, d < n, z3.Not(ok(d)[0]))))
    return w


def asc(E, name, n, x):
    w, d, d2 = fresh(B, name), fresh(I, 'd'), fresh(I, 'd')
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    E.assume(z3.Implies(w, z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), x[a] < x[b]), patterns=[z3.MultiPattern(x[a], x[b])])))
    E.assume(z3.Implies(z3.Not(w), z3.And(0 <= d, d < d2, d2 < n, z3.Not(x[d] < x[d2]))))
    return w


class ClusterBase(Contract):
    mod, qual, props = 'basis', 'cluster_basis', ['C13']
    only_raises = 1

    def prepare(self, E, case):
        """The arguments: k (a number or a list of numbers) and different labels."""
        ty = case.split()[0]
        n = fresh(I, 'n')
        lab = E.new(Lst.sym(TInt, n, name='cluster', np='array' in case))
        E.assume(n >= 0)
        A = lab.arrs[0]
        i, j, x = (z3.FreshConst(I, q) for q in 'ijx')
        where = fresh(AI, 'where')
        E.assume(fa(n, lambda k: where[A[k]] == k, lambda k: A[k]))          # no label twice
        inc = fresh(B, 'include_identity') if ty in STR else 'identity' in case
        if 'list' in case or 'array' in case:
            m = fresh(I, 'm')
            kl = E.new(Lst.sym(TInt, m, name='allowed', np='array' in case))
            E.assume(m > 0)
            karr = kl.arrs[0]
            kpos = fresh(AI, 'kpos')
            allowed = lambda q: z3.And(0 <= kpos[q], kpos[q] < m, karr[kpos[q]] == q)
            E.assume(fa(m, lambda p: allowed(karr[p]), lambda p: karr[p]))
            k = kl
        else:
            k = fresh(I, 'k')
            E.assume(k >= 0)
            allowed = lambda q: z3.And(0 <= q, q <= k)
        inl = lambda v: z3.And(0 <= where[v], where[v] < n, A[where[v]] == v)
        E.gs['pos'] = fresh(z3.ArraySort(SOS, I), 'pos')
        g = E.ghost
        g['n'], g['A'], g['type'], g['where'], g['inl'] = n, A, ty, where, inl
        return Ctx([k, lab, ty, inc], ty=ty, n=n, lab=lab, A=A, k=k, karr=karr if isinstance(k, Lst) else None, km=iv(k.n) if isinstance(k, Lst) else None, allowed=allowed, inl=inl, inc=inc)

    def post(self, E, c, res):
        l = res.f['op_strings'].as_sym(TOS)
        n, arr = iv(l.n), l.arrs[0]
        k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
        d = res.f['_indices']
        out = [('a basis', z3.BoolVal(isinstance(res, Obj) and res.cls.name == 'Basis'))]
        out += [(nm, f) for nm, f in well_formed(res)]
        there = lambda s: z3.BoolVal(False) if isinstance(d, CDict) else z3.Select(d.idx, s) >= 0
        for x in E.ghost['fixed']:
            out.append(('exactly the wanted strings' + x.nm, there(x.s) == x.there))
        out += self.more(E, c, res, there)
        out.append(('the labels are unchanged', z3.And(iv(c.lab.n) == c.n, fa(c.n, lambda k: c.lab.as_sym(TInt).arrs[0][k] == c.A[k]))))
        if c.karr is not None:
            out.append(('the numbers are unchanged', z3.And(iv(c.k.n) == c.km, fa(c.km, lambda k: c.k.arrs[0][k] == c.karr[k]))))
        return out

    def more(self, E, c, res, there):
        return []


def _factors(L, m):
    """m = the number of factors is the one of the fixed string, which is wanted."""
    return [(x, z3.And(x.want1, x.n == m)) for x in L.E.ghost['fixed']]


def _crank(L, m, x):
    s = L['cluster'].as_sym(TInt)
    return CRANK(iv(s.n), m, s.arrs[0], x)


def _prank(E, m, x):
    n, a = E.ghost['tuple sources'][-1]
    return PRANK(n, m, a, x)


def _init(L):
    n, arr = listed(L)
    return {'pos': z3.Store(L.G['pos'], arr[0], 0)}


def _sorted_labels(L):
    E, s = L.E, L['cluster'].as_sym(TInt)
    v = z3.FreshConst(I, 'v')
    w = E.ghost['where']
    at = E.ghost['perms'][-1][1][w[v]]
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    S = s.arrs[0]
    return [('the labels are ascending', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < iv(s.n)), S[a] < S[b]), patterns=[z3.MultiPattern(S[a], S[b])])),
            ('every label is in the sorted list', z3.ForAll([v], z3.Implies(E.ghost['inl'](v), z3.And(0 <= at, at < iv(s.n), s.arrs[0][at] == v)), patterns=[w[v]]))]


def _p_outer(L):
    return common(L) + _sorted_labels(L) + [('strings with fewer factors are there' + x.nm, z3.Implies(z3.And(x.want1, x.n <= L.i), inset(L['op_strings_set'], x.s))) for x in L.E.ghost['fixed']]


def _p_mid(L):
    m = iv(L['num_operators'])
    out = common(L)
    for x in L.E.ghost['fixed']:
        out.append(('strings with fewer factors or earlier labels are there' + x.nm, z3.Implies(z3.And(x.want1, z3.Or(x.n < m, z3.And(x.n == m, _crank(L, m, x.las) < L.i))), inset(L['op_strings_set'], x.s))))
    return out


def _p_inner(L):
    m = iv(L['num_operators'])
    out = common(L)
    for x in L.E.ghost['fixed']:
        r = _crank(L, m, x.las)
        out.append(('the strings so far are there' + x.nm, z3.Implies(z3.And(x.want1, z3.Or(x.n < m, z3.And(x.n == m, z3.Or(r < L.outer.i, z3.And(r == L.outer.i, _prank(L.E, m, x.ops) < L.i))))), inset(L['op_strings_set'], x.s))))
    return out


# ------------------------------------------------------------------------ Fermion strings
def fermion_parts(E, c, x):
    """The creation labels (nf of them) and the annihilation labels (nb) of the fixed string,
    and the places kF, kB of the two sets of labels in the enumeration of combinations."""
    cd, an = code('CDag'), code('C')
    x.nf, x.XB = fresh(I, 'nf'), fresh(AI, 'annihilation_labels')
    x.nb = x.n - x.nf
    e = z3.FreshConst(I, 'e')
    # the number of leading creation operators
    E.assume(z3.And(0 <= x.nf, x.nf <= x.n, fa(x.nf, lambda e: x.ops[e] == cd, lambda e: x.ops[e]), z3.Or(x.nf == x.n, x.ops[x.nf] != cd)))
    # the annihilation labels read from the end
    E.assume(z3.ForAll([e], x.XB[e] == x.las[x.n - 1 - e], patterns=[x.XB[e]]))
    E.assume(z3.ForAll([e], x.las[e] == x.XB[x.n - 1 - e], patterns=[x.las[e]]))
    x.kF, x.kB = fresh(I, 'kF'), fresh(I, 'kB')
    form = iff_all(E, 'creation_then_annihilation', x.n, lambda e: (x.ops[e] == z3.If(e < x.nf, cd, an), x.ops[e]))
    ok_las = iff_all(E, 'labels_of_the_cluster', x.n, lambda e: (c.inl(x.las[e]), x.las[e]))
    ok_b = iff_all(E, 'annihilation_labels_of_the_cluster', x.nb, lambda e: (c.inl(x.XB[e]), x.XB[e]))
    x.diag = z3.And(x.nf == x.nb, iff_all(E, 'same_labels', x.nf, lambda e: (x.las[e] == x.XB[e], [x.las[e], x.XB[e]])))
    one, im = z3.And(SPR(x.s) == 1, SPI(x.s) == 0), z3.And(SPR(x.s) == 0, SPI(x.s) == 1)
    x.one, x.im = one, im
    t = OPTYPE(x.s) == code('Fermion')
    x.ident = z3.And(bv(c.inc) if is_z(c.inc) else z3.BoolVal(c.inc), t, x.n == 0, one)
    # different labels of a cluster of n labels are at most n
    x.parts = [('of the type', t), ('creation, then annihilation operators', form), ('an allowed number', z3.And(1 <= x.nf, x.nf <= c.n, c.allowed(x.nf), 0 <= x.nb, x.nb <= x.nf)),
               ('labels of the cluster', ok_las), ('annihilation labels of the cluster', ok_b), ('ascending creation labels', asc(E, 'creation_ascending', x.nf, x.las)), ('descending annihilation labels', asc(E, 'annihilation_descending', x.nb, x.XB)),
               ('one of the three forms', z3.Or(z3.And(x.diag, one), z3.And(x.nb < x.nf, z3.Or(one, im)), z3.And(x.nb == x.nf, z3.Not(x.diag), z3.Or(one, im), x.kB < x.kF)))]
    x.want1 = z3.And([f for _, f in x.parts])
    x.wanted = x.there = z3.Or(x.want1, x.ident)
    E.ghost['appears'] = [(x.nf, x.las, x.kF), (x.nb, x.XB, x.kB)]


def _lemma(E, nm, f, *terms):
    E.oblige('step: ' + nm, f, None, [mention(*terms)] if terms else [])
    return f


def _is_fixed(L1, L0, diag):
    """When the string that was built is the fixed one, its parts are the ones of this iteration."""
    E, m = L0.E, _m(L0)
    jf = L0.i if diag else L0.outer.outer.i
    b, kb = (m, jf) if diag else (L0.outer.i, L0.i)
    out = []
    S = E.ghost['built']
    cl = L0['cluster'].as_sym(TInt)
    N, a = iv(cl.n), cl.arrs[0]
    at = lambda m, k, e: z3.Select(z3.Select(CMB(N, m, a), k), e)
    for x in E.ghost['fixed']:
        eq = S == x.s
        e = fresh(I, 'e')
        rng = z3.And(0 <= e, e < x.n)
        h = [_lemma(E, 'as many factors', z3.Implies(eq, x.n == m + b)),
             _lemma(E, 'as many creation operators', z3.Implies(eq, z3.And(x.nf == m, x.nb == b)), SOPS(S)[m], SOPS(S)[x.nf], x.ops[m], x.ops[x.nf])]
        h.append(_lemma(E, 'the creation labels', z3.Implies(eq, fa(m, lambda e: x.las[e] == at(m, jf, e), lambda e: [x.las[e], at(m, jf, e)]))))
        h.append(_lemma(E, 'the annihilation labels', z3.Implies(eq, fa(b, lambda e: x.XB[e] == at(b, kb, e), lambda e: [x.XB[e], at(b, kb, e)]))))
        h.append(_lemma(E, 'the place of the creation labels', z3.Implies(eq, x.kF == jf), at(m, jf, 0)))
        h.append(_lemma(E, 'the place of the annihilation labels', z3.Implies(eq, x.kB == kb), at(b, kb, 0)))
        h += [_lemma(E, nm, z3.Implies(eq, f)) for nm, f in x.parts]
        out += h
    return out


def _done(L, cond):
    return common(L) + [('the strings so far are there' + x.nm, z3.Implies(z3.And(x.want1, cond(x)), inset(L['op_strings_set'], x.s))) for x in L.E.ghost['fixed']]


def _m(L):
    return iv(L['num_operators_forward'])


def _f_outer(L):
    return _done(L, lambda x: x.nf <= L.i) + _sorted_labels(L)


def _f_diag(L):
    m = _m(L)
    return _done(L, lambda x: z3.Or(x.nf < m, z3.And(x.nf == m, x.diag, x.kF < L.i)))


def _f_forward(L):
    m = _m(L)
    return _done(L, lambda x: z3.Or(x.nf < m, z3.And(x.nf == m, z3.Or(x.diag, x.kF < L.i))))


def _f_number(L):
    m, jf = _m(L), L.outer.i
    return _done(L, lambda x: z3.Or(x.nf < m, z3.And(x.nf == m, z3.Or(x.diag, x.kF < jf, z3.And(x.kF == jf, x.nb < L.i)))))


def _f_backward(L):
    m, b, jf, p = _m(L), L.outer.i, L.outer.outer.i, L['prefactor']
    if p not in (1, 1j):
        raise Unsupported('prefactor')
    sofar = lambda x: z3.And(x.one, x.kB < L.i) if p == 1 else z3.Or(x.one, z3.And(x.im, x.kB < L.i))
    return _done(L, lambda x: z3.Or(x.nf < m, z3.And(x.nf == m, z3.Or(x.diag, x.kF < jf, z3.And(x.kF == jf, z3.Or(x.nb < b, z3.And(x.nb == b, sofar(x))))))))


@contract
class Cluster(ClusterBase):
    """For an arbitrary string: it is in the basis iff it is wanted."""
    cases = ['Pauli k', 'Majorana k', 'Pauli list', 'Majorana list', 'Majorana array', 'Fermion k', 'Fermion k identity', 'Fermion list', 'Fermion list identity', 'unknown type', 'wrong k']
    floops = [Loop(_f_outer, ghosts=GPOS, ghost_init=_init, label='(numbers of creation operators)'),
              Loop(_f_diag, ghosts=GPOS, ghost_step=common_step, hints=lambda L1, L0: _is_fixed(L1, L0, True), label='(equal labels)'),
              Loop(_f_forward, ghosts=GPOS, label='(creation labels)'),
              Loop(_f_number, ghosts=GPOS, label='(numbers of annihilation operators)'),
              Loop(_f_backward, ghosts=GPOS, ghost_step=common_step, hints=lambda L1, L0: _is_fixed(L1, L0, False), label='(annihilation labels)')]
    loops = [Loop(_p_outer, ghosts=GPOS, ghost_init=_init, label='(numbers of factors)'),
             Loop(_p_mid, ghosts=GPOS, label='(labels)'),
             Loop(_p_inner, ghosts=GPOS, ghost_step=common_step, label='(operators)')]

    def loops_for(self, case):
        return self.loops if case.split()[0] in STR else self.floops if 'Fermion' in case else []

    def setup(self, E, case):
        if case in ('unknown type', 'wrong k'):
            c = self.prepare(E, 'Pauli k')
            if case == 'wrong k':
                c.args[0] = fresh(R, 'k')
            else:
                c.args[2] = 'Spin'
            E.ghost['fixed'], E.ghost['strings by parts'] = [], []
            c.bad = True
            return c
        c = self.prepare(E, case)
        c.bad = False
        x = new_fixed(E, '')
        E.ghost['fixed'] = [x]
        E.ghost['strings by parts'] = [x.s]
        if c.ty == 'Fermion':
            fermion_parts(E, c, x)
            return c
        ok_ops = iff_all(E, 'operators_allowed', x.n, lambda e: (z3.Or([x.ops[e] == code(w) for w in STR[c.ty]]), x.ops[e]))
        ok_las = iff_all(E, 'labels_of_the_cluster', x.n, lambda e: (c.inl(x.las[e]), x.las[e]))
        up = asc(E, 'ascending', x.n, x.las)
        t = OPTYPE(x.s) == code(c.ty)
        # (different labels of a cluster of n labels are at most n)
        x.want1 = z3.And(t, 1 <= x.n, x.n <= c.n, c.allowed(x.n), ok_ops, ok_las, up)
        x.ident = z3.And(c.inc, t, x.n == 0)
        x.wanted = x.there = z3.Or(x.want1, x.ident)
        E.ghost['appears'] = [(x.n, x.las, None)]
        E.ghost['tuples appear'] = [(x.n, x.ops)]
        return c


    def raises(self, E, c):
        return [('ValueError', z3.BoolVal(c.bad))]
