"""Contracts of connected_components and maximal_cliques in qosy/tools.py (C14)."""
import z3
from values import *
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib

CONTRACTS = []
AI = z3.ArraySort(I, I)
NB = z3.Function('adjacent', I, I, B)          # the graph
CORE = z3.Function('in_the_core', I, B)
NBPOS = z3.Function('adjacency_position', I, I, I)


def contract(c):
    CONTRACTS.append(c())
    return c


def graph(E, core=False):
    """Adjacency lists of an undirected graph on n nodes; with core: of a graph whose edges
    lead to nodes of the core, which is undirected (an undirected graph is its own core)."""
    n = fresh(I, 'nodes')
    E.assume(n >= 0)
    adj = E.new(Lst.sym(TLst(TInt), n, name='adj'))
    ln, el = adj.arrs
    i, j, k = (z3.FreshConst(I, x) for x in 'ijk')
    E.assume(fa(n, lambda i: ln[i] >= 0, lambda i: ln[i]))
    e = z3.Select(z3.Select(el, i), k)
    E.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n, 0 <= k, k < ln[i]), z3.And(0 <= e, e < n, NB(i, e))), patterns=[e]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(NB(i, j), 0 <= i, i < n, 0 <= j, j < n), z3.And(0 <= NBPOS(i, j), NBPOS(i, j) < ln[i], z3.Select(z3.Select(el, i), NBPOS(i, j)) == j)), patterns=[NB(i, j)]))
    E.assume(z3.ForAll([i, j], z3.Implies(NB(i, j), z3.And(CORE(j), z3.Implies(CORE(i), NB(j, i)))) if core else NB(i, j) == NB(j, i), patterns=[NB(i, j)]))
    return n, adj


def ll(v, sh=TInt):
    return v.as_sym(sh) if v.conc else v


def has(s, x):
    """x is in the set of integers s (known elements or membership array)."""
    if isinstance(s, CSet):
        return z3.Or([iv(y) == x for y in s.items] + [z3.BoolVal(False)])
    return s.has(x)


# ghost: component and position of a visited node, the node it was reached from
def done_parts(L, g, m, C, vis, n):
    """Completed components 0..m-1 and (optionally) the current one are recorded."""
    ci, pi, pa = g['ci'], g['pi'], g['pa']
    ln, el = C.arrs
    a, b, v, w = (z3.FreshConst(I, x) for x in 'abvw')
    e = z3.Select(z3.Select(el, a), b)
    return [('the nodes of the components so far', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 <= b, b < ln[a]), z3.And(0 <= e, e < n, ci[e] == a, pi[e] == b)), patterns=[e])),
            ('components are not empty', fa(m, lambda a: ln[a] >= 1, lambda a: ln[a])),
            ('nodes after the first are reached from earlier ones', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 < b, b < ln[a]), z3.And(0 <= pa[e], pa[e] < n, ci[pa[e]] == a, pi[pa[e]] < b, NB(pa[e], e))), patterns=[e])),
            ('recorded nodes are where they are recorded', z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n, 0 <= ci[v], ci[v] < m), z3.And(0 <= pi[v], pi[v] < ln[ci[v]], z3.Select(z3.Select(el, ci[v]), pi[v]) == v)), patterns=[ci[v]])),
            ('completed components are closed', z3.ForAll([v, w], z3.Implies(z3.And(0 <= v, v < n, 0 <= w, w < n, NB(v, w), 0 <= ci[v], ci[v] < m), ci[w] == ci[v]), patterns=[NB(v, w)]))]


def vis_is(vis, ci, m, n):
    v = z3.FreshConst(I, 'v')
    return ('visited are the recorded nodes', z3.ForAll([v], z3.And(has(vis, v) == z3.And(0 <= v, v < n, 0 <= ci[v]), z3.Implies(z3.And(0 <= v, v < n), ci[v] < m)), patterns=[ci[v]] + ([z3.Select(vis.mem, v)] if isinstance(vis, SSet) else [])))


def _cc_outer(L):
    g, n = L.G, L.E.ghost['n']
    C = ll(L['connected_components'], TLst(TInt))
    m = iv(C.n)
    out = [('the count', m >= 0)] + done_parts(L, g, m, C, L['visited'], n) + [vis_is(L['visited'], g['ci'], m, n)]
    if L.i is not None:
        out.append(('all nodes so far are recorded', fa(L.i, lambda v: g['ci'][v] >= 0, lambda v: g['ci'][v])))
    return out


def current(L, ci, pi, g, mode, cur, T, TS, off, n, m, vis, frontier):
    """The component being collected: cur (its nodes), T/TS (nodes to visit)."""
    pa, tp = g['pa'], g['tp']
    l, t = iv(cur.n), iv(T.n)
    c, q = cur.arrs[0], T.arrs[0]
    v, w, k = (z3.FreshConst(I, x) for x in 'vwk')
    first = z3.And(z3.BoolVal(True))
    par = lambda x, b: z3.And(0 <= pa[x], pa[x] < n, ci[pa[x]] == m, pi[pa[x]] < b, NB(pa[x], x))
    return [('the nodes of this component', fa(l, lambda b: z3.And(0 <= c[b], c[b] < n, ci[c[b]] == m, pi[c[b]] == b, z3.Implies(b > 0, par(c[b], b))), lambda b: c[b])),
            ('recorded nodes of this component', z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n, ci[v] == m), z3.And(0 <= pi[v], pi[v] < l, c[pi[v]] == v)), patterns=[ci[v]])),
            ('nodes to visit', fa(t, lambda k: z3.And(0 <= q[k], q[k] < n, has(TS, q[k]), ci[q[k]] < 0, tp[q[k]] == off + k, z3.Implies(l > 0, par(q[k], l))), lambda k: q[k])),
            ('the set of nodes to visit', z3.ForAll([v], z3.Implies(has(TS, v), z3.And(0 <= tp[v] - off, tp[v] - off < t, q[tp[v] - off] == v)), patterns=[z3.Select(TS.mem, v) if isinstance(TS, SSet) else tp[v]]))
            ] + frontier


def _cc_while(L):
    g, n, mode = L.G, L.E.ghost['n'], L.E.ghost['mode']
    C = ll(L['connected_components'], TLst(TInt))
    m = iv(C.n)
    cur, T, TS, vis = ll(L['connected_component']), ll(L['to_visit']), L['to_visit_set'], L['visited']
    ci, pi = g['ci'], g['pi']
    l, t = iv(cur.n), iv(T.n)
    off = l if mode == 'BFS' else z3.IntVal(0)
    v, w = (z3.FreshConst(I, x) for x in 'vw')
    node = L.outer.i if L.outer is not None else L['node']
    fr = [('neighbours of this component are visited or waiting', z3.ForAll([v, w], z3.Implies(z3.And(0 <= v, v < n, 0 <= w, w < n, NB(v, w), ci[v] == m), z3.Or(ci[w] == m, has(TS, w))), patterns=[NB(v, w)]))]
    return [('counts', z3.And(m >= 0, l >= 0, t >= 0))] + done_parts(L, g, m, C, vis, n) + [vis_is(vis, ci, m + 1, n)] \
        + current(L, ci, pi, g, mode, cur, T, TS, off, n, m, vis, fr) \
        + [('it starts with the node', z3.Or(z3.And(l == 0, t == 1, T.arrs[0][0] == node), z3.And(l >= 1, ci[node] == m))),
           ('all nodes so far are recorded', fa(node, lambda v: ci[v] >= 0, lambda v: ci[v]))]


def _cc_inner(L):
    """Neighbours of curr_node, which has been visited and appended."""
    g, n, mode = L.G, L.E.ghost['n'], L.E.ghost['mode']
    C = ll(L['connected_components'], TLst(TInt))
    m = iv(C.n)
    cur, T, TS, vis = ll(L['connected_component']), ll(L['to_visit']), L['to_visit_set'], L['visited']
    x = iv(L['curr_node'])
    l = iv(cur.n)
    W = L.outer.G
    ci, pi = z3.Store(W['ci'], x, m), z3.Store(W['pi'], x, l - 1)
    off = l if mode == 'BFS' else z3.IntVal(0)
    v, w, j = (z3.FreshConst(I, y) for y in 'vwj')
    adj = L.E.ghost['adj']
    row = z3.Select(adj.arrs[1], x)
    ci, pi = L.E.ghost.setdefault('upd', {}).setdefault(('c', ci.get_id()), (fresh(AI, 'ci1'), ci))[0], L.E.ghost['upd'].setdefault(('p', pi.get_id()), (fresh(AI, 'pi1'), pi))[0]
    L.E.assume(z3.And(ci == z3.Store(W['ci'], x, m), pi == z3.Store(W['pi'], x, l - 1)))
    node = L.outer.outer.i
    fr = [('neighbours of the other nodes are visited or waiting', z3.ForAll([v, w], z3.Implies(z3.And(0 <= v, v < n, 0 <= w, w < n, NB(v, w), ci[v] == m, v != x), z3.Or(ci[w] == m, has(TS, w))), patterns=[NB(v, w)])),
          ('neighbours so far are visited or waiting', fa(L.i, lambda j: z3.Or(ci[row[j]] >= 0, has(TS, row[j])), lambda j: row[j]))]
    return [('counts', z3.And(iv(T.n) >= 0)), ('predecessors of recorded nodes are kept', z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n, ci[v] >= 0), g['pa'][v] == W['pa'][v]), patterns=[g['pa'][v], ci[v]]))] + [vis_is(vis, ci, m + 1, n)] + current(L, ci, pi, g, mode, cur, T, TS, off, n, m, vis, fr)


def _cc_in_step(L1, L0):
    t0, t1 = iv(ll(L0['to_visit']).n), iv(ll(L1['to_visit']).n)
    grew = t1 > t0
    x, w = iv(L0['curr_node']), iv(L1['neighbor'])
    off = iv(ll(L0['connected_component']).n) if L0.E.ghost['mode'] == 'BFS' else z3.IntVal(0)
    return {'pa': z3.If(grew, z3.Store(L0.G['pa'], w, x), L0.G['pa']), 'tp': z3.If(grew, z3.Store(L0.G['tp'], w, off + t0), L0.G['tp'])}


def _cc_w_step(L1, L0):
    x = iv(L1['curr_node'])
    C = ll(L0['connected_components'], TLst(TInt))
    return {'ci': z3.Store(L0.G['ci'], x, iv(C.n)), 'pi': z3.Store(L0.G['pi'], x, iv(ll(L0['connected_component']).n))}


GH = {'ci': AI, 'pi': AI, 'pa': AI, 'tp': AI}


@contract
class Components(Contract):
    """connected_components: every node once, closed under adjacency, each node reached from an earlier one."""
    mod, qual, props = 'tools', 'connected_components', ['C14']
    cases = ['DFS', 'BFS', 'default']
    no_unroll = True
    loops = [Loop(_cc_outer, ghosts=GH, types={'connected_components': TLst(TLst(TInt))}, label='(nodes)'),
             Loop(_cc_while, ghosts=GH, ghost_init=lambda L: {'tp': z3.Store(L.G['tp'], iv(L['node']), 0)}, ghost_step=_cc_w_step, types={'connected_component': TLst(TInt), 'to_visit': TLst(TInt)}, label='(nodes to visit)'),
             Loop(_cc_inner, ghosts={'pa': AI, 'tp': AI}, ghost_step=_cc_in_step, types={'to_visit': TLst(TInt)}, label='(neighbours)')]

    def setup(self, E, case):
        n, adj = graph(E)
        E.ghost['n'], E.ghost['adj'], E.ghost['mode'] = n, adj, 'DFS' if case == 'default' else case
        for g in GH:
            E.gs[g] = fresh(AI, g)
        E.gs['ci'] = z3.K(I, z3.IntVal(-1))
        return Ctx([adj], {} if case == 'default' else {'mode': case}, n=n, adj=adj, arrs=list(adj.arrs))

    def post(self, E, c, res):
        n, g = c.n, E.gs
        C = ll(res, TLst(TInt))
        ln, el = C.arrs
        m = iv(C.n)
        a, b, v, w = (z3.FreshConst(I, x) for x in 'abvw')
        e = z3.Select(z3.Select(el, a), b)
        ci, pi, pa = g['ci'], g['pi'], g['pa']
        return [('every node is in one component, at one position', fa(n, lambda v: z3.And(0 <= ci[v], ci[v] < m, 0 <= pi[v], pi[v] < ln[ci[v]], z3.Select(z3.Select(el, ci[v]), pi[v]) == v))),
                ('no node occurs twice', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 <= b, b < ln[a]), z3.And(0 <= e, e < n, ci[e] == a, pi[e] == b)))),
                ('no component is empty', fa(m, lambda a: ln[a] >= 1)),
                ('adjacent nodes are in the same component', z3.ForAll([v, w], z3.Implies(z3.And(0 <= v, v < n, 0 <= w, w < n, NB(v, w)), ci[v] == ci[w]))),
                ('every further node of a component is adjacent to an earlier one', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 < b, b < ln[a]), z3.And(ci[pa[e]] == a, pi[pa[e]] < b, NB(pa[e], e))))),
                ('the graph is unchanged', z3.And([x == y for x, y in zip(c.adj.arrs, c.arrs)]))]


# ------------------------------------------------------------------ maximal cliques
# S0 is an arbitrary fixed set of integers; the proofs count the cliques equal to S0.
SETS = z3.ArraySort(I, B)
EQS = z3.Function('lists_exactly_S0', I, AI, B)
CNT = Fold('count_equal_S0', [AI, z3.ArraySort(I, AI)], [], lambda a, k, p: z3.If(EQS(a[0][k], a[1][k]), z3.IntVal(1), z3.IntVal(0)))


def subset(E, a, b):
    """A truth value q with q == (a is a subset of b); a, b: membership as formulas."""
    q, d, x = fresh(B, 'sub'), fresh(I, 'd'), z3.FreshConst(I, 'x')
    pats = [t for t in (a(x), b(x)) if z3.is_select(t)]
    E.assume(z3.Implies(q, z3.ForAll([x], z3.Implies(a(x), b(x)), patterns=pats)))
    E.assume(z3.Implies(z3.Not(q), z3.And(a(d), z3.Not(b(d)))))
    return q


def arbitrary_set(E, n):
    """A set S0 of nodes of the core, and MC = S0 is a maximal clique of the core."""
    S0, MC = fresh(SETS, 'S0'), fresh(B, 'S0_is_a_maximal_clique')
    a, b, w, r = (z3.FreshConst(I, x) for x in 'abwr')
    y = fresh(AI, 'y')
    E.assume(z3.Implies(MC, z3.And(z3.ForAll([a], z3.Implies(S0[a], z3.And(0 <= a, a < n)), patterns=[S0[a]]),
                                   z3.ForAll([a, b], z3.Implies(z3.And(S0[a], S0[b], a != b), NB(a, b)), patterns=[z3.MultiPattern(S0[a], S0[b])]),
                                   z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < n, CORE(w), z3.Not(S0[w])), z3.And(S0[y[w]], z3.Not(NB(w, y[w])))), patterns=[S0[w]]))))
    a0, b0, w0 = fresh(I, 'a0'), fresh(I, 'b0'), fresh(I, 'w0')
    E.assume(z3.Implies(z3.Not(MC), z3.Or(z3.And(S0[a0], z3.Or(a0 < 0, a0 >= n)), z3.And(S0[a0], S0[b0], a0 != b0, z3.Not(NB(a0, b0))),
                                          z3.And(0 <= w0, w0 < n, CORE(w0), z3.Not(S0[w0]), z3.ForAll([r], z3.Implies(S0[r], NB(w0, r)), patterns=[S0[r]])))))
    # a list of different elements lists S0 exactly
    l, el, j, k = fresh(I, 'l'), fresh(AI, 'el'), z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    E.assume(z3.ForAll([a], z3.Implies(S0[a], CORE(a)), patterns=[S0[a]]))
    E.assume(z3.ForAll([a], z3.Not(NB(a, a)), patterns=[NB(a, a)]))
    E.assume(z3.ForAll([a, b], z3.Implies(NB(a, b), z3.And(0 <= a, a < n, 0 <= b, b < n, CORE(b), z3.Implies(CORE(a), NB(b, a)), a != b)), patterns=[NB(a, b)]))
    E.ghost['S0'], E.ghost['MC'], E.ghost['n'] = S0, MC, n
    return S0, MC


def mem(s):
    return (lambda x: has(s, x))


def union(a, b):
    return lambda x: z3.Or(a(x), b(x))


def between(E, R, P):
    """R <= S0 <= R + P"""
    S0 = E.ghost['S0']
    s = lambda x: S0[x]
    return z3.And(subset(E, R, s), subset(E, s, union(R, P)))


def one(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def cnt(L):
    """The number of cliques recorded which are equal to S0."""
    if L.conc:
        if L.items:
            raise Unsupported('cliques')
        return z3.IntVal(0)
    return CNT(L.arrs, L.n)


def eqs_def(E, l, el):
    """The definition of EQS (the list contains exactly the elements of S0, each once) for one list."""
    S0 = E.ghost['S0']
    j, k, x = (z3.FreshConst(I, q) for q in 'jkx')
    q = EQS(l, el)
    at = fresh(AI, 'at')
    rng = lambda i: z3.And(0 <= i, i < l)
    E.assume(z3.Implies(q, z3.And(z3.ForAll([j], z3.Implies(rng(j), z3.And(S0[el[j]], at[el[j]] == j)), patterns=[el[j]]),
                                  z3.ForAll([x], z3.Implies(S0[x], z3.And(rng(at[x]), el[at[x]] == x)), patterns=[S0[x]]))))
    j0, k0, x0 = fresh(I, 'j0'), fresh(I, 'k0'), fresh(I, 'x0')
    E.assume(z3.Implies(z3.Not(q), z3.Or(z3.And(rng(j0), z3.Not(S0[el[j0]])), z3.And(rng(j0), rng(k0), j0 != k0, el[j0] == el[k0]),
                                         z3.And(S0[x0], z3.ForAll([j], z3.Implies(rng(j), el[j] != x0), patterns=[el[j]])))))


def pre_bk(E, R, P, X, n):
    x, y, w, r = (z3.FreshConst(I, q) for q in 'xywr')
    hR, hP, hX = mem(R), mem(P), mem(X)
    pt = lambda s, v: z3.Select(s.mem, v)
    return [('R is a clique', z3.ForAll([x, y], z3.Implies(z3.And(hR(x), hR(y), CORE(x), CORE(y), x != y), NB(x, y)), patterns=[z3.MultiPattern(pt(R, x), pt(R, y))])),
            ('P and X are in the core', z3.ForAll([x], z3.Implies(z3.Or(hP(x), hX(x)), CORE(x)), patterns=[pt(P, x), pt(X, x)])),
            ('R, P and X are nodes', z3.ForAll([x], z3.Implies(z3.Or(hR(x), hP(x), hX(x)), z3.And(0 <= x, x < n)), patterns=[pt(R, x), pt(P, x), pt(X, x)])),
            ('P and X are adjacent to all of R', z3.ForAll([x, y], z3.Implies(z3.And(z3.Or(hP(x), hX(x)), hR(y), CORE(y)), NB(x, y)), patterns=[z3.MultiPattern(pt(P, x), pt(R, y)), z3.MultiPattern(pt(X, x), pt(R, y))])),
            ('P and X are disjoint', z3.ForAll([x], z3.Not(z3.And(hP(x), hX(x))), patterns=[pt(P, x), pt(X, x)])),
            ('nodes adjacent to all of R are in P or X', z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < n, CORE(w)), z3.Or(hP(w), hX(w), z3.Exists([r], z3.And(hR(r), z3.Not(NB(w, r)))))), patterns=[pt(P, w), pt(X, w)]))]


def adjacency(E, n):
    u, x = z3.FreshConst(I, 'u'), z3.FreshConst(I, 'x')
    adj = E.new(Lst.sym(lib.TSet(TInt), n, name='adjsets'))
    m = z3.Select(adj.arrs[0], u)
    E.assume(z3.ForAll([u, x], z3.Implies(z3.And(0 <= u, u < n), z3.Select(m, x) == NB(u, x)), patterns=[z3.Select(m, x)]))
    E.assume(z3.ForAll([u, x], z3.Implies(z3.And(0 <= u, u < n), z3.Select(m, x) == NB(u, x)), patterns=[z3.MultiPattern(m, NB(u, x))]))
    return adj


def _bk_loop(L):
    E, it = L.E, L.it
    P, X, P0, X0 = L['P'], L['X'], E.ghost['P0'], E.ghost['X0']
    adjs = L['adjacency_sets']
    u = iv(L['u'])
    en, pos = it.enum.arrs[0], it.enum.pos
    x = z3.FreshConst(I, 'x')
    gone = lambda x: z3.And(P0[x], pos[x] < L.i, z3.Not(NB(u, x)))
    hit, hp = L.G['hit'], L.G['hp']
    S0, MC = E.ghost['S0'], E.ghost['MC']
    R = L['R']
    x = z3.FreshConst(I, 'x')
    cov = E.ghost.setdefault('between', between(E, mem(R), lambda x: P0[x]))
    return [('P without the branched nodes', z3.ForAll([x], has(P, x) == z3.And(P0[x], z3.Not(gone(x))), patterns=[z3.Select(P.mem, x), P0[x]])),
            ('X with the branched nodes', z3.ForAll([x], has(X, x) == z3.Or(X0[x], gone(x)), patterns=[z3.Select(X.mem, x), X0[x]])),
            ('a branched node of S0', z3.And(z3.Implies(hit, z3.And(0 <= hp, hp < L.i, S0[en[hp]], z3.Not(NB(u, en[hp])))),
                                            z3.Implies(z3.Not(hit), fa(L.i, lambda k: z3.Or(z3.Not(S0[en[k]]), NB(u, en[k])), lambda k: en[k])))),
            ('cliques with a branched node are counted', cnt(L['cliques']) == E.ghost['cnt0'] + one(z3.And(MC, cov, hit))),
            ('the list grows', iv(L['cliques'].n) >= 0)]


def _bk_step(L1, L0):
    S0 = L0.E.ghost['S0']
    v = iv(L1['v'])
    b = z3.And(z3.Not(NB(iv(L0['u']), v)), S0[v])
    return {'hit': z3.Or(L0.G['hit'], b), 'hp': z3.If(L0.G['hit'], L0.G['hp'], L0.i)}


@contract
class BK(Contract):
    """BronKerbosch2(R, P, X): S0 is appended once if it is a maximal clique with R <= S0 <= R + P, else never."""
    mod, qual, props = 'tools', 'maximal_cliques.BronKerbosch2', ['C14']
    recursive = True
    loops = [Loop(_bk_loop, ghosts={'hit': B, 'hp': I}, ghost_init=lambda L: {'hit': z3.BoolVal(False), 'hp': z3.IntVal(0)}, ghost_step=_bk_step, label='(branches)')]

    def setup(self, E, case):
        n = fresh(I, 'nodes')
        E.assume(n >= 0)
        S0, MC = arbitrary_set(E, n)
        adj = adjacency(E, n)
        sets = [E.new(SSet(TInt, name=x)) for x in 'RPX']
        for _, f in pre_bk(E, *(sets + [n])):
            E.assume(f)
        cl = E.new(Lst.sym(TLst(TInt), fresh(I, 'ncliques'), name='cliques'))
        E.assume(cl.n >= 0)
        E.ghost['P0'], E.ghost['X0'], E.ghost['cnt0'] = sets[1].mem, sets[2].mem, cnt(cl)
        E.gs['hit'], E.gs['hp'] = fresh(B, 'hit'), fresh(I, 'hp')
        return Ctx(sets, closure={'adjacency_sets': adj, 'cliques': cl}, R=sets[0], P0=sets[1].mem, cl=cl, c0=cnt(cl), n0=cl.n, a0=list(cl.arrs), MC=MC)

    def post(self, E, c, res):
        eqs_def(E, c.cl.arrs[0][c.n0], z3.Select(c.cl.arrs[1], c.n0))
        return [('S0 is appended once, if it is a maximal clique between R and R + P', cnt(c.cl) == c.c0 + one(z3.And(c.MC, between(E, mem(c.R), lambda x: c.P0[x]))))]

    def stub(self, E, args, kw, node):
        R, P, X = [lib.to_sset(E, x, TInt) for x in args]
        for nm, f in pre_bk(E, R, P, X, E.ghost['n']):
            E.oblige('requires of BronKerbosch2: ' + nm, f, node)
        ce = E.callee.closure
        cl = ce.vars[E.aliases(ce).get('cliques', 'cliques')]
        before = cnt(cl)
        E.touch(cl)
        if cl.conc:
            E.learn_shape(cl, TLst(TInt))
        n = fresh(I, 'ncliques')
        new = Lst.sym(TLst(TInt), n, name='cliques')
        cl.items, cl.shape, cl.n, cl.arrs = None, new.shape, n, new.arrs
        E.assume(n >= 0)
        E.assume(CNT(cl.arrs, n) == before + one(z3.And(E.ghost['MC'], between(E, mem(R), mem(P)))))
        for o in args[1:2]:
            if isinstance(o, SSet):
                E.touch(o)
                o.mem = fresh(o.mem.sort(), 'used')
        return None


def _mc_loop(L):
    E, S0 = L.E, L.E.ghost['S0']
    n = E.ghost['n']
    P, X = L['P'], L['X']
    d = L['degeneracy_ordering']
    at = L.it.get
    x = z3.FreshConst(I, 'x')
    hit, hp, wh = L.G['hit'], L.G['hp'], L.G['when']
    p = z3.Select(P.mem, x)
    out = [('P: the nodes not yet used', z3.ForAll([x], has(P, x) == z3.And(0 <= x, x < n, z3.Or(wh[x] < 0, wh[x] >= L.i)), patterns=[p, wh[x]])),
           ('X: the nodes used', z3.ForAll([x], has(X, x) == z3.And(0 <= x, x < n, 0 <= wh[x], wh[x] < L.i), patterns=([z3.Select(X.mem, x)] if isinstance(X, SSet) else []) + [wh[x]])),
           ('the nodes in this order', fa(L.i, lambda k: z3.And(0 <= iv(at(k)), iv(at(k)) < n, wh[iv(at(k))] == k), lambda k: iv(at(k)))),
           ('when nodes were used', z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(wh[x] < L.i, z3.Implies(wh[x] >= 0, iv(at(wh[x])) == x))), patterns=[wh[x]])),
           ('a used node of S0', z3.And(z3.Implies(hit, z3.And(0 <= hp, hp < L.i, S0[iv(at(hp))])), z3.Implies(z3.Not(hit), fa(L.i, lambda k: z3.Not(S0[iv(at(k))]), lambda k: iv(at(k)))))),
           ('cliques with a used node are counted', cnt(L['cliques']) == one(z3.And(E.ghost['MC'], hit)))]
    return out


def _mc_step(L1, L0):
    S0 = L0.E.ghost['S0']
    v = iv(L1['v'])
    return {'hit': z3.Or(L0.G['hit'], S0[v]), 'hp': z3.If(L0.G['hit'], L0.G['hp'], L0.i), 'when': z3.Store(L0.G['when'], v, L0.i)}


def _mc_exit(L):
    """A member q of S0 (if there is one) has a position in the order."""
    inv, q = getattr(L['degeneracy_ordering'], 'inv', None), L.E.ghost['member']
    return [] if inv is None else [mention(inv[q], iv(L.it.get(inv[q])), L.E.ghost['S0'][0])]


@contract
class Cliques(Contract):
    """maximal_cliques: an arbitrary set S0 (of nodes of the core) is returned once if it is a (non-empty) maximal clique, else never."""
    mod, qual, props = 'tools', 'maximal_cliques', ['C14']
    loops = [Loop(_mc_loop, ghosts={'hit': B, 'hp': I, 'when': AI}, ghost_init=lambda L: {'hit': z3.BoolVal(False), 'hp': z3.IntVal(0), 'when': z3.K(I, z3.IntVal(-1))},
                  ghost_step=_mc_step, types={'cliques': TLst(TLst(TInt))}, label='(nodes)', exit_hints=_mc_exit)]

    def setup(self, E, case):
        n, adj = graph(E, core=True)
        S0, MC = arbitrary_set(E, n)
        E.gs.update(hit=fresh(B, 'hit'), hp=fresh(I, 'hp'), when=fresh(AI, 'when'))
        q = E.ghost['member'] = fresh(I, 'member')
        E.assume(z3.Or(S0[q], subset(E, lambda x: S0[x], lambda x: z3.BoolVal(False))))
        return Ctx([adj], adj=adj, arrs=list(adj.arrs), n=n, MC=MC, S0=S0)

    def post(self, E, c, res):
        return [('S0 is returned once, if it is a maximal clique and not empty', cnt(res) == one(z3.And(c.MC, c.S0[E.ghost['member']]))),
                ('the graph is unchanged', z3.And([x == y for x, y in zip(c.adj.arrs, c.arrs)]))]
