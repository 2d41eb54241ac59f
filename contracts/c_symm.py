"""Contracts of qosy/symmetrization.py (C12)."""
import z3
from values import *
from values import CUR
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_basis import new_basis, new_os, SOS, TOS, contents, unchanged
from c_operator import OPTYPE, new_operator, op_snap, op_wf, snap_of, coef, cx_eq, AR, NSQ, OpRemoveZeros, L_NSQ_POS
from c_transform import rule_snap, TRANS, TTR, opaque_rule, Apply, INFO
import c_tools
from c_oplist import TOper, OPS, OLEN, OARR, OIDX, ORE, OIM, OTYP, oper_axioms, opterm_snap

CONTRACTS = []
AI = z3.ArraySort(I, I)
ATR = z3.ArraySort(I, TRANS)
ASO = z3.ArraySort(I, SOS)


def contract(c):
    CONTRACTS.append(c())
    return c


# ------------------------------------------------ permutations of labels, seen through their composition
TPM = TOpq('Perm')
PM = TPM.sorts[0]
COMP = z3.Function('composed', PM, PM, PM)             # compose_permutations (see its contract: k -> a[b[k]])
PT = z3.Function('label_permutation', PM, TRANS)       # the transformation that permutes the labels
PINF = z3.Function('permutation_of', TRANS, PM)
PLEN = z3.Function('permutation_length', PM, I)
PID = z3.Function('identity_permutation', I, PM)
TID = z3.Function('rule_of', TRANS, I)                 # the rule together with its info

L_.OPQ_LEN['Perm'] = lambda E, v, node: PLEN(v.t)
L_.OPQ_LIST['Perm'] = lambda E, v, node: v


def perm_axioms(E):
    p, n = z3.FreshConst(PM, 'p'), z3.FreshConst(I, 'n')
    E.assume(z3.ForAll([p], z3.And(PINF(PT(p)) == p, PLEN(p) >= 0), patterns=[PT(p)]))
    E.assume(z3.ForAll([n], z3.Implies(n >= 0, PLEN(PID(n)) == n), patterns=[PID(n)]))


def _transf_attr(E, o, attr, node):
    if not (isinstance(o, Abst) and o.kind == 'Transf'):
        return NotImplemented
    if attr == 'info':
        return Opq(PINF(o.t), 'Perm')
    m = E.repo.mod('transformation')['Transformation'].methods
    if attr in m:
        return Bound(m[attr], o)
    return NotImplemented


L_.GETATTR.append(_transf_attr)


def _comp_stub(self, E, args, kw, node):
    a, b = args
    E.oblige('the permutations have the same length', PLEN(a.t) == PLEN(b.t), node)
    r = COMP(a.t, b.t)
    E.assume(PLEN(r) == PLEN(b.t))
    return Opq(r, 'Perm')


c_tools.Compose.stub = _comp_stub
c_tools.Compose.applies = lambda self, E, args, kw: all(isinstance(a, Opq) for a in args)


@contract
class LabelPermutation(Contract):
    """label_permutation(p): the permutation rule with the info p."""
    mod, qual, props = 'transformation', 'label_permutation', ['C09', 'C12']

    def setup(self, E, case):
        p = E.new(Lst.sym(TInt, fresh(I, 'n'), name='p'))
        E.assume(p.n >= 0)
        return Ctx([p], p=p, arr=p.arrs[0])

    def post(self, E, c, res):
        f = res.f['rule']
        return [('the permutation rule', z3.BoolVal(isinstance(f, Fn) and f.qual == '_permutation_rule')), ('the permutation', z3.BoolVal(res.f['info'] is c.p)), ('unchanged', c.p.arrs[0] == c.arr)]

    def applies(self, E, args, kw):
        return isinstance(args[0], Opq) or E.ghost.get('opaque permutations', False)

    def stub(self, E, args, kw, node):
        p = args[0]
        if isinstance(p, Opq):
            return E.new(Abst('Transf', PT(p.t)))
        l = p if isinstance(p, Lst) else L_.iter_list(E, p, True)
        n = iv(l.length())
        k = fresh(I, 'k')
        E.oblige('the identity permutation', z3.Implies(z3.And(0 <= k, k < n), iv(l.get(k)) == k), node)
        return E.new(Abst('Transf', PT(PID(n))))


def _apply_stub(self, E, args, kw, node, old=Apply.stub):
    t, s, tol = args
    if isinstance(t, Abst):
        rid = TID(t.t)
        INFO.setdefault(rid.get_id(), None)
        return opaque_rule(rid)(E, [s, None], {}, node)
    return old(self, E, args, kw, node)


Apply.stub = _apply_stub
Apply.props = ['C09', 'C12']


# --------------------------------------------------------------------------- the group sum
def image(t, s):
    return rule_snap(TID(t), s)


# the coefficient of the string S in the sum of the images of s under the first k transformations
GSUM = Fold('GSUM', [ATR], [SOS, SOS], lambda a, k, p: (lambda q: (q.re, q.im))(coef(image(a[0][k], p[0]), p[1])), out='cx')


def _gsum_inv(L):
    s, S0, G, n = L.E.ghost['gsum']
    rs = snap_of(L['symmetrized_op'])
    w = L.G['w']
    out = op_wf(L['symmetrized_op']) + [('type', rs[5] == OPTYPE(s)), ('the coefficient so far', cx_eq(coef(rs, S0), GSUM([G], L.i, [s, S0])))]
    x, k = z3.FreshConst(SOS, 'x'), z3.FreshConst(I, 'k')
    return out + [('its strings are strings of the images so far', z3.ForAll([x], z3.Implies(z3.Select(rs[2], x) >= 0, z3.And(0 <= w[x], w[x] < L.i, z3.Select(image(G[w[x]], s)[2], x) >= 0)), patterns=[z3.Select(rs[2], x)])),
                  ('the strings of the images so far are its strings', z3.Implies(z3.And(0 <= L.E.ghost['k0'], L.E.ghost['k0'] < L.i, z3.Select(image(G[L.E.ghost['k0']], s)[2], S0) >= 0), z3.Select(rs[2], S0) >= 0))]


def _gsum_step(L1, L0):
    r0, r1 = snap_of(L0['symmetrized_op']), snap_of(L1['symmetrized_op'])
    w = L0.G['w']
    x = z3.FreshConst(SOS, 'x')
    return {'w': z3.Lambda([x], z3.If(z3.Select(r0[2], x) >= 0, w[x], L0.i))}


@contract
class SymmetrizeString(Contract):
    """The sum of the images of a string under all transformations of the list."""
    mod, qual, props = 'symmetrization', '_symmetrize_opstring', ['C12']
    loops = [Loop(_gsum_inv, ghosts={'w': z3.ArraySort(SOS, I)}, ghost_step=_gsum_step)]

    def setup(self, E, case):
        s, S0 = new_os(E, 's'), fresh(SOS, 'S0')
        G = E.new(Lst.sym(TTR, fresh(I, 'n'), name='G'))
        E.assume(G.n >= 0)
        E.ghost['gsum'] = (s.t, S0, G.arrs[0], G.n)
        E.ghost['k0'] = fresh(I, 'k0')
        E.gs['w'] = fresh(z3.ArraySort(SOS, I), 'w')
        return Ctx([s, G], s=s, S0=S0, G=G, arr=G.arrs[0], n=G.n)

    def post(self, E, c, res):
        rs = snap_of(res)
        w = E.gs['w']
        x = z3.FreshConst(SOS, 'x')
        k0 = E.ghost['k0']
        return op_wf(res) + [('every coefficient is the sum over the images', cx_eq(coef(rs, c.S0), GSUM([c.arr], c.n, [c.s.t, c.S0]))), ('type', rs[5] == OPTYPE(c.s.t)),
                             ('the strings are strings of the images', z3.ForAll([x], z3.Implies(z3.Select(rs[2], x) >= 0, z3.And(0 <= w[x], w[x] < c.n, z3.Select(image(c.arr[w[x]], c.s.t)[2], x) >= 0)))),
                             ('the strings of the images are its strings', z3.Implies(z3.And(0 <= k0, k0 < c.n, z3.Select(image(c.arr[k0], c.s.t)[2], c.S0) >= 0), z3.Select(rs[2], c.S0) >= 0)),
                             ('the transformations are unchanged', z3.And(iv(c.G.n) == c.n, c.G.arrs[0] == c.arr))]

    def stub(self, E, args, kw, node):
        s, G = args
        G = G.as_sym(TTR)
        o = new_operator(E, 'gsum', SStr(OPTYPE(s.t)))
        sn = op_snap(o)
        x, k = z3.FreshConst(SOS, 'x'), z3.FreshConst(I, 'k')
        n, arr = iv(G.n), G.arrs[0]
        w = fresh(z3.ArraySort(SOS, I), 'w')
        E.assume(z3.ForAll([x], cx_eq(coef(sn, x), GSUM([arr], n, [s.t, x])), patterns=[z3.Select(sn[2], x)]))
        E.assume(z3.ForAll([x], z3.Implies(z3.Select(sn[2], x) >= 0, z3.And(0 <= w[x], w[x] < n, z3.Select(image(arr[w[x]], s.t)[2], x) >= 0)), patterns=[z3.Select(sn[2], x)]))
        E.assume(z3.ForAll([x, k], z3.Implies(z3.And(0 <= k, k < n, z3.Select(image(arr[k], s.t)[2], x) >= 0), z3.Select(sn[2], x) >= 0), patterns=[z3.Select(image(arr[k], s.t)[2], x)]))
        E.gs['last_w'] = w
        return o


# ---------------------------------------------------------------------- symmetrizing a basis
def _perm(G, k):
    return PINF(G[k])


def _group(L, i, j):
    """The list of transformations so far."""
    gen, m, N, k1, r1 = L.E.ghost['gens']
    G, S = L['G'], L['G_set']
    at, q, r = L.G['at'], L.G['q'], L.G['r']
    if G.conc:
        g0 = G.items[0]
        p = z3.FreshConst(PM, 'p')
        only = bv(L_.contains(L.E, S, Opq(p, 'Perm'), None))
        return [('the identity', z3.And(z3.BoolVal(len(G.items) == 1), g0.t == PT(PID(N)))), ('its permutation', z3.ForAll([p], only == (p == PID(N)))), ('start', z3.And(i == 0, bv(j is None or j == 0)))]
    g, n = G.arrs[0], iv(G.n)
    k, rr, p = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'r'), z3.FreshConst(PM, 'p')
    S = L_.to_sset(L.E, S) if isinstance(S, CSet) else S
    mem = lambda p: z3.Select(S.mem, p)
    out = [('the identity comes first', z3.And(n >= 1, g[0] == PT(PID(N)))),
           ('every element permutes the labels', fa(n, lambda k: z3.And(g[k] == PT(_perm(g, k)), PLEN(_perm(g, k)) == N), lambda k: g[k])),
           ('the set holds the elements', fa(n, lambda k: z3.And(mem(_perm(g, k)), at[_perm(g, k)] == k), lambda k: g[k])),
           ('the set holds nothing else', z3.ForAll([p], z3.Implies(mem(p), z3.And(0 <= at[p], at[p] < n, _perm(g, at[p]) == p)), patterns=[mem(p)])),
           ('every other element is an earlier one times a generator', z3.Implies(z3.And(1 <= k1, k1 < n), z3.And(0 <= q[k1], q[k1] < k1, 0 <= r[k1], r[k1] < m, _perm(g, k1) == COMP(_perm(g, q[k1]), PINF(gen[r[k1]]))))),
           ('products of elements and generators are elements', z3.Implies(z3.And(0 <= k1, k1 < n, 0 <= r1, r1 < m, k1 < i if j is None else z3.Or(k1 < i, z3.And(k1 == i, r1 < j))), mem(COMP(_perm(g, k1), PINF(gen[r1])))))]
    if j is not None:
        g0 = L.outer['G'].as_sym(TTR)
        out.append(('earlier elements stay', z3.And(iv(g0.n) <= n, i < iv(g0.n), fa(iv(g0.n), lambda k: g[k] == g0.arrs[0][k], lambda k: g[k]))))
    return out


def _group_step(L1, L0):
    n0, n1 = iv(L0['G'].length()), iv(L1['G'].length())
    gs = L0.G
    g = L1['G'].as_sym(TTR).arrs[0]
    grew = n1 > n0
    return {'at': z3.If(grew, z3.Store(gs['at'], _perm(g, n0), n0), gs['at']), 'q': z3.If(grew, z3.Store(gs['q'], n0, iv(L0.outer.i)), gs['q']), 'r': z3.If(grew, z3.Store(gs['r'], n0, iv(L0.i)), gs['r'])}


NRM = z3.Function('operator_norm', OPS, R)


# ---- remove_zeros and normalize, as seen by callers
def _rz_stub(self, E, args, kw, node):
    a, t = args
    t = rv(t)
    sa = op_snap(a)
    o = new_operator(E, 'rz', a.f['op_type'])
    so = op_snap(o)
    x = z3.FreshConst(SOS, 'x')
    q, z = coef(sa, x), z3.RealVal(0)
    on = q.re * q.re + q.im * q.im > t * t
    E.assume(z3.ForAll([x], z3.And(cx_eq(coef(so, x), Cx(z3.If(on, q.re, z), z3.If(on, q.im, z))), (z3.Select(so[2], x) >= 0) == z3.And(z3.Select(sa[2], x) >= 0, on)), patterns=[z3.Select(so[2], x)]))
    d = fresh(OPS, 'removed')
    E.assume(z3.And(OLEN(d) == so[0], OARR(d) == so[1], OIDX(d) == so[2], ORE(d) == so[3], OIM(d) == so[4], OTYP(d) == so[5]))
    E.assume(NRM(d) == L_.SQRT(NSQ([ORE(d), OIM(d)], OLEN(d))))          # the definition of NRM
    E.gs['last'], E.gs['last_tol'] = d, t
    return o


OpRemoveZeros.stub = _rz_stub
OpRemoveZeros.applies = lambda self, E, args, kw: bool(E.ghost.get('opaque permutations'))

L_NSQ_SCALE = Lemma('scaling scales the sum of squares', [AR, AR, AR, AR, R],
                    lambda n, a, b, c, d, N: ([fa(n, lambda k: z3.And(c[k] * N == a[k], d[k] * N == b[k]), lambda k: [c[k], d[k]])], NSQ([c, d], n) * N * N == NSQ([a, b], n)),
                    uses=lambda n, a, b, c, d, N: [mention(c[n - 1], d[n - 1])],
                    force=lambda n, a, b, c, d, N: [(NSQ, (a, b), n, ()), (NSQ, (c, d), n, ())])

TOLMAX = z3.RealVal('1/10000000000')


def _results(L, i):
    """One normalized group sum for every string that was not visited before and whose sum is not zero."""
    c = L.E.ghost['sym']
    n, arr, idx = c.snap
    res, vis, G = L['symmetrized_basis'], L['visited_op_strings'], L['G']
    g, ng = G.as_sym(TTR).arrs[0], iv(G.length())
    gh = L.G
    L.E.ghost['G'], L.E.ghost['vis'], L.E.ghost['G_set'] = G, vis, L['G_set']
    src, D, dt, proc, vs, ri, vw = (gh[x] for x in ('src', 'D', 'dt', 'proc', 'vs', 'ri', 'vw'))
    S0, k0, jf, j2, kf = c.S0, c.k0, c.jf, c.j2, c.kf      # arbitrary
    k, k2, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k'), z3.FreshConst(SOS, 'x')
    z = z3.RealVal(0)
    if isinstance(vis, CSet):
        seen = lambda x: z3.BoolVal(False)
        first = [('nothing visited', z3.And(z3.BoolVal(not vis.items), i == 0))]
    else:
        seen = lambda x: z3.Select(vis.mem, x)
        first = []
    if res.conc:
        m, R = z3.IntVal(0), None
        first.append(('no results yet', z3.BoolVal(not res.items)))
    else:
        m, R = iv(res.n), res.arrs[0]
    inorb = lambda j: z3.And(0 <= k0, k0 < ng, z3.Select(image(g[k0], arr[j])[2], S0) >= 0)

    def summed(j):
        """D[j] is the group sum of the j-th string, without zero coefficients."""
        q = GSUM([g], ng, [arr[j], S0])
        on = q.re * q.re + q.im * q.im > dt[j] * dt[j]
        return z3.And(0 <= dt[j], dt[j] <= TOLMAX, OTYP(D[j]) == OPTYPE(arr[j]), cx_eq(coef(opterm_snap(D[j]), S0), Cx(z3.If(on, q.re, z), z3.If(on, q.im, z))))

    def norm2(t):
        return NSQ([ORE(t), OIM(t)], OLEN(t))

    def result_of(k, j):
        d, r = opterm_snap(D[j]), opterm_snap(R[k])
        N = NRM(D[j])
        a, b = coef(d, S0), coef(r, S0)
        return z3.And(b.re * N == a.re, b.im * N == a.im, r[5] == d[5])

    out = first
    if isinstance(vis, SSet):
        out += [('visited strings belong to the sum of an earlier string', z3.ForAll([x], z3.Implies(seen(x), z3.And(0 <= vs[x], vs[x] < i, proc[vs[x]], 0 <= vw[x], vw[x] < ng, z3.Select(image(g[vw[x]], arr[vs[x]])[2], x) >= 0)), patterns=[seen(x)]))]
    out += [('a string is treated unless it was visited', fa(i, lambda k: z3.Or(proc[k], z3.And(seen(arr[k]), vs[arr[k]] < k)), lambda k: arr[k])),
            ('the strings of the treated sums are visited', z3.Implies(z3.And(0 <= jf, jf < i, proc[jf], inorb(jf)), seen(S0))),
            ('no string of an earlier sum is treated again', z3.Implies(z3.And(0 <= jf, jf < j2, j2 < i, proc[jf], proc[j2], inorb(jf)), arr[j2] != S0)),
            ('the sum of a treated string runs over the whole group', z3.Implies(z3.And(0 <= jf, jf < i, proc[jf]), summed(jf)))]
    if R is None:
        out.append(('treated strings have a result or a zero sum', z3.Implies(z3.And(0 <= jf, jf < i, proc[jf]), NRM(D[jf]) <= c.tol)))
    else:
        out += [('treated strings have a result or a zero sum', z3.Implies(z3.And(0 <= jf, jf < i, proc[jf]), z3.Or(NRM(D[jf]) <= c.tol, z3.And(0 <= ri[jf], ri[jf] < m, src[ri[jf]] == jf)))),
                ('every result is the normalized sum of a treated string', z3.Implies(z3.And(0 <= kf, kf < m), z3.And(0 <= src[kf], src[kf] < i, proc[src[kf]], ri[src[kf]] == kf, NRM(D[src[kf]]) > c.tol, result_of(kf, src[kf])))),
                ('every result has norm one', z3.Implies(z3.And(0 <= kf, kf < m), norm2(R[kf]) == 1))]
    return out


def _results_step(L1, L0):
    gs = L0.G
    i = L0.i
    E = L1.E
    x = z3.FreshConst(SOS, 'x')
    v0, v1 = L0['visited_op_strings'], L1['visited_op_strings']
    m0, m1 = iv(L0['symmetrized_basis'].length()), iv(L1['symmetrized_basis'].length())
    done = E.gs.get('last') is not None
    old = lambda x: z3.Select(v0.mem, x) if isinstance(v0, SSet) else z3.BoolVal(False)
    out = {'proc': z3.Store(gs['proc'], i, z3.BoolVal(done)), 'vs': z3.Lambda([x], z3.If(old(x), gs['vs'][x], i))}
    if E.gs.get('last_w') is not None:
        out['vw'] = z3.Lambda([x], z3.If(old(x), gs['vw'][x], E.gs['last_w'][x]))
    if done:
        out['D'], out['dt'] = z3.Store(gs['D'], i, E.gs['last']), z3.Store(gs['dt'], i, E.gs['last_tol'])
    out['src'] = z3.If(m1 > m0, z3.Store(gs['src'], m0, i), gs['src'])
    out['ri'] = z3.If(m1 > m0, z3.Store(gs['ri'], i, m0), gs['ri'])
    return out


def _results_hints(L1, L0):
    E = L1.E
    out = []
    t = E.gs.get('last')
    if t is not None:
        out += [L_NSQ_POS.inst(OLEN(t), ORE(t), OIM(t))]
        r = L1['symmetrized_basis']
        if not r.conc:
            rr = r.arrs[0][iv(r.n) - 1]
            out += [L_NSQ_SCALE.inst(OLEN(t), ORE(t), OIM(t), ORE(rr), OIM(rr), L_.SQRT(NSQ([ORE(t), OIM(t)], OLEN(t))))]
    return out


def _visit(L):
    """The strings of the sum so far are visited."""
    v = L['visited_op_strings']
    v0 = L.outer['visited_op_strings']
    n, arr, idx = op_snap(L['symmetrized_op'])[:3]
    x = z3.FreshConst(SOS, 'x')
    old = z3.Select(v0.mem, x) if isinstance(v0, SSet) else z3.BoolVal(False)
    new = bv(L_.contains(L.E, v, Opq(x, 'OS'), None)) if isinstance(v, CSet) else z3.Select(v.mem, x)
    pos = z3.Select(idx, x)
    return [('visited strings', z3.ForAll([x], new == z3.Or(old, z3.And(0 <= pos, pos < L.i)), patterns=[z3.Select(v.mem, x), pos] if isinstance(v, SSet) else [pos]))]


class Done(object):
    """The variables at the end."""

    def __init__(self, d, E):
        self.d, self.E, self.G = d, E, E.gs

    def __getitem__(self, k):
        return self.d[k]


GH = {'src': AI, 'D': z3.ArraySort(I, OPS), 'dt': AR, 'proc': z3.ArraySort(I, B), 'vs': z3.ArraySort(SOS, I), 'vw': z3.ArraySort(SOS, I), 'ri': AI}
GG = {'at': z3.ArraySort(PM, I), 'q': AI, 'r': AI}


@contract
class SymmetrizeBasis(Contract):
    """The group generated by the permutations; for every orbit of strings one normalized sum."""
    mod, qual, props = 'symmetrization', 'symmetrize_basis', ['C12']

    loops = [Loop(lambda L: _group(L, L.i, None), label='(group elements)', ghosts=GG, ghost_step=None),
             Loop(lambda L: _group(L, L.outer.i, L.i) if L.outer is not None else [], label='(generators)', ghosts=GG, ghost_step=_group_step),
             Loop(lambda L: _results(L, L.i), label='(strings)', ghosts=GH, ghost_step=_results_step, hints=_results_hints, types={'symmetrized_basis': TLst(TOper)}),
             Loop(_visit, label='(terms of the sum)')]

    def setup(self, E, case):
        b = new_basis(E, 'B')
        oper_axioms(E)
        perm_axioms(E)
        gen = E.new(Lst.sym(TTR, fresh(I, 'm'), name='gen'))
        m, N = gen.n, fresh(I, 'N')
        ga = gen.arrs[0]
        E.assume(z3.And(m >= 1, N >= 0, fa(m, lambda k: PLEN(PINF(ga[k])) == N, lambda k: ga[k])))
        tol, S0, k0 = fresh(R, 'tol'), fresh(SOS, 'S0'), fresh(I, 'k0')
        E.assume(tol > 0)
        c = Ctx([b, gen], {'tol': tol}, b=b, snap=contents(b), gen=gen, m=m, ga=ga, N=N, tol=tol, S0=S0, k0=k0, jf=fresh(I, 'jf'), j2=fresh(I, 'j2'), kf=fresh(I, 'kf'))
        E.ghost['opaque permutations'] = True
        E.ghost['gens'] = (ga, m, N, fresh(I, 'k1'), fresh(I, 'r1'))
        E.ghost['sym'] = c
        for d in (GH, GG):
            for k, so in d.items():
                E.gs[k] = fresh(so, k)
        E.gs['last'] = E.gs['last_w'] = None
        return c

    def post(self, E, c, res):
        n, arr, idx = c.snap
        if not isinstance(res, Lst) or 'G' not in E.ghost:
            return [('a list of operators', z3.BoolVal(False))]
        L = Done({'G': E.ghost['G'], 'G_set': E.ghost['G_set'], 'symmetrized_basis': res, 'visited_op_strings': E.ghost['vis']}, E)
        return _group(L, iv(E.ghost['G'].length()), None) + _results(L, n) + [('the basis is unchanged', unchanged(c.b, c.snap)), ('the generators are unchanged', z3.And(iv(c.gen.n) == c.m, c.gen.arrs[0] == c.ga))]
