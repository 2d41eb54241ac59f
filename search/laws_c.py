"""Laws for C14-C23 (graphs, signs, lattices, matrices, states, spectra, Lie algebras,
vector-space helpers, adaptive searches, text helpers)."""
import copy, itertools as it
import numpy as np, numpy.linalg as nla, scipy.sparse as ss
import qosy as qy
from qosy import OperatorString, Basis, Operator
from qosy import tools, algorithms
from qosy.lattice import UnitCell, Lattice
from qosy.transformation import Transformation, label_permutation
import oracle as O
from base import law, check, rejects, Bad, Skip, OPS
from laws_a import S, snap, snap_op, snap_basis, rand_op, rand_basis, coeffs_of, check_basis, fermion_parts, ferm_op
from laws_b import nice_H, same_span


# ----------------------------------------------------------------------------- C14
def rand_graph(g, nmax=8):
    n = g.randrange(1, nmax + 1)
    r = g.random()
    p = g.choice([.1, .3, .5, .7, .9])
    adj = [set() for _ in range(n)]
    if r < .15:                                     # disjoint cliques
        for a in range(n):
            for b in range(a):
                if a % 3 == b % 3:
                    adj[a].add(b); adj[b].add(a)
    elif r < .25:                                   # path / cycle
        for a in range(n - 1):
            adj[a].add(a + 1); adj[a + 1].add(a)
        if n > 2 and g.random() < .5:
            adj[0].add(n - 1); adj[n - 1].add(0)
    else:
        for a in range(n):
            for b in range(a):
                if g.random() < p:
                    adj[a].add(b); adj[b].add(a)
    lists = []
    for a in range(n):
        l = list(adj[a])
        g.shuffle(l)
        lists.append(l)
    if g.random() < .3:
        lists = [np.array(l, dtype=int) for l in lists]
    return n, adj, lists


def exact_cliques(n, adj):
    ok = []
    for m in range(1, 2 ** n):
        c = [i for i in range(n) if m >> i & 1]
        if all(b in adj[a] for a in c for b in c if a != b):
            ok.append(frozenset(c))
    return set(c for c in ok if not any(c < d for d in ok))


@law('C14', 900)
def cliques(g):
    n, adj, lists = rand_graph(g, 8 if g.random() < .97 else 11)
    before = [list(map(int, l)) for l in lists]
    got = [[int(x) for x in c] for c in tools.maximal_cliques(lists)]
    check([list(map(int, l)) for l in lists] == before, 'maximal_cliques changed the graph')
    for c in got:
        check(len(set(c)) == len(c), 'clique {} repeats a node', c)
    sets = [frozenset(c) for c in got]
    check(len(set(sets)) == len(sets), 'graph {}: a clique is returned twice: {}', before, got)
    want = exact_cliques(n, adj)
    check(set(sets) == want, 'graph {}: cliques {} but the maximal cliques are {}', before, got, sorted(map(sorted, want)))
    return str(before)


@law('C14', 900)
def components(g):
    n, adj, lists = rand_graph(g, g.choice([8, 12, 40]))
    mode = g.choice([None, 'DFS', 'BFS'])
    before = [list(map(int, l)) for l in lists]
    got = [[int(x) for x in c] for c in (tools.connected_components(lists, mode=mode) if mode else tools.connected_components(lists))]
    check([list(map(int, l)) for l in lists] == before, 'connected_components changed the graph')
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a in range(n):
        for b in adj[a]:
            par[find(a)] = find(b)
    want = {}
    for a in range(n):
        want.setdefault(find(a), []).append(a)
    flat = [x for c in got for x in c]
    check(sorted(flat) == list(range(n)), 'graph {} ({}): components {} do not contain each node once', before, mode, got)
    check(sorted(sorted(c) for c in got) == sorted(want.values()), 'graph {} ({}): components {}', before, mode, got)
    return (str(before), mode)


@law('C14', 20)
def components_mode(g):
    check(rejects(lambda: tools.connected_components([[1], [0]], mode='xyz'), ValueError), 'an invalid search mode was not rejected')
    return None


# ----------------------------------------------------------------------------- C15
def parity(p):
    p = list(p)
    inv = sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])
    return -1 if inv % 2 else 1


@law('C15', 2500)
def sorting(g):
    n = g.size(5, 12) if g.random() < .95 else g.randrange(12, 45)
    r = g.random()
    if r < .4:
        v = list(range(n)); g.shuffle(v)
    elif r < .6:
        v = [g.randrange(0, max(1, n)) for _ in range(n)]
    elif r < .75:
        v = [g.near_literal() - g.randrange(0, 4) for _ in range(n)]
    elif r < .85:
        v = [g.randrange(-5, 5) for _ in range(n)]
    else:
        v = [round(g.uniform(-3, 3), 3) for _ in range(n)]
        v = [float(x) for x in v]
    if g.random() < .08 and all(isinstance(t, int) for t in v):
        v = [t + 10 ** g.choice([6, 9, 12]) * (1 if g.random() < .8 else 0) for t in v]
    distinct = len(set(v)) == len(v)
    x = np.array(v) if g.random() < .6 else list(v)
    method = g.choice(['insertionsort', 'mergesort', None])
    s, sg = tools.sort_sign(x, method=method) if method else tools.sort_sign(x)
    check(list(x) == v, 'sort_sign changed its input')
    check([t for t in s] == sorted(v), 'sort_sign({}) returned {}', v, list(s))
    inv = sum(1 for i in range(n) for j in range(i) if v[j] > v[i])
    check(sg == (-1 if inv % 2 else 1), 'sort_sign({}, {}) returned sign {}', v, method, sg)
    if distinct and n and isinstance(v[0], int):
        check(rejects(lambda: tools.sort_sign(x, method='nosuchsort'), ValueError), 'an invalid sorting method was not rejected')
    return (str(v), method)


@law('C15', 1500)
def permutation_sign(g):
    n = g.size(5, 40)
    p = list(range(n)); g.shuffle(p)
    q = list(range(n)); g.shuffle(q)
    x = np.array(p, dtype=int) if g.random() < .5 else list(p)
    check(tools.sign(x) == parity(p), 'sign({}) = {}', p, tools.sign(x))
    check(list(x) == p, 'sign changed its input')
    c = tools.compose_permutations(g.choice([p, tuple(p), np.array(p, dtype=int)]), g.choice([q, np.array(q, dtype=int)]))
    check([int(t) for t in c] == [p[q[i]] for i in range(n)], 'compose_permutations({}, {}) = {}', p, q, list(c))
    return str(p)


@law('C15', 1500)
def comparison(g):
    n = g.size(3, 7)
    m = n if g.random() < .75 else g.size(3, 7)
    a = [g.randrange(-2, 4) for _ in range(n)]
    b = [g.randrange(-2, 4) for _ in range(m)]
    if g.random() < .6 and n == m:
        k = g.randrange(0, n + 1)
        b = a[:k] + b[k:]
    big = g.near_literal(2000) if g.random() < .2 else 0
    a = [t + big for t in a]; b = [t + big for t in b]
    want = (len(a) > len(b)) - (len(a) < len(b)) or (a > b) - (a < b)
    xa = g.choice([a, tuple(a), np.array(a, dtype=int)])
    xb = g.choice([b, tuple(b), np.array(b, dtype=int)])
    check(tools.compare(xa, xb) == want, 'compare({}, {}) = {}, expected {}', a, b, tools.compare(xa, xb), want)
    check(tools.compare(xb, xa) == -want, 'compare({}, {}) is not antisymmetric', a, b)
    return (str(a), str(b))


# ----------------------------------------------------------------------------- C16
def rand_lattice(g):
    r = g.random()
    if r < .15:
        N = g.randrange(1, 8)
        per = g.random() < .5
        orbs = g.choice([None, [''], ['Up', 'Dn'], ['a', 'b', 'c']])
        lat = qy.lattice.chain(N, periodic=per, orbital_names=orbs)
        return lat, [np.array([1.0])], [(np.zeros(1), orbs or [''])], (N,), (per,)
    if r < .3:
        N = (g.randrange(1, 5), g.randrange(1, 5))
        per = (g.random() < .5, g.random() < .5)
        orbs = g.choice([None, ['Up', 'Dn']])
        lat = qy.lattice.square(*N, periodic_boundaries=g.choice([per, None]) or None, orbital_names=orbs)
        per = tuple(bool(x) for x in lat.periodic_boundaries)
        return lat, [np.array([1.0, 0]), np.array([0, 1.0])], [(np.zeros(2), orbs or [''])], N, per
    if r < .45:
        N = (g.randrange(1, 6), g.randrange(1, 5))
        per = (g.random() < .5, g.random() < .5)
        lat = qy.lattice.kagome(*N, periodic_boundaries=per)
        a1, a2 = np.array([1.0, 0]), np.array([.5, np.sqrt(3) / 2])
        return lat, [a1, a2], [(np.zeros(2), ['']), (a1 / 2, ['']), (a2 / 2, [''])], N, per
    d = g.choice([1, 2, 2, 3])
    if d == 2 and g.random() < .5:
        vecs = [np.array([1.0, 0]), np.array([.5, np.sqrt(3) / 2])]
    else:
        vecs = []
        for i in range(d):
            v = np.zeros(d)
            v[i] = g.choice([1.0, 1.0, 2.0, .5])
            if g.random() < .3:
                for j in range(i):
                    v[j] = g.choice([0.0, .25, -.5])
            vecs.append(v)
    na = g.randrange(1, 4)
    small = g.random() < .15         # atoms close to the corners of the cell
    seen, atoms = set(), []
    for _ in range(na):
        f = tuple(g.choice([0.0, .25, .5, .75, 1 / 3., 2 / 3.] + ([1e-3, 3e-4, 1e-5, .9997] if small else [])) for _ in range(d))
        if f in seen:
            continue
        seen.add(f)
        atoms.append((sum(x * v for x, v in zip(f, vecs)), g.choice([[''], ['Up', 'Dn'], ['x'], ['p', 'q', 'r']])))
    N = tuple(g.randrange(1, 4) for _ in range(d))
    per = tuple(g.random() < .5 for _ in range(d))
    uc = UnitCell(vecs)
    for pos, orbs in atoms:
        if orbs == [''] and g.random() < .5:
            uc.add_atom(pos)
        else:
            uc.add_atom(pos, orbs)
    lat = Lattice(uc, N, periodic_boundaries=per if any(per) or g.random() < .5 else None)
    return lat, vecs, atoms, N, per


@law('C16', 350)
def lattice_law(g):
    lat, vecs, atoms, N, per = rand_lattice(g)
    want = []
    for cell in it.product(*[range(n) for n in N]):
        for pos, orbs in atoms:
            for o in orbs:
                want.append((sum(c * v for c, v in zip(cell, vecs)) + pos, o, cell))
    check(len(lat) == len(want), 'lattice has {} orbitals instead of {}', len(lat), len(want))
    orbs = list(lat)
    for i, ((p, o, c), (wp, wo, wc)) in enumerate(zip(orbs, want)):
        check(np.allclose(p, wp, atol=1e-7) and o == wo and tuple(c) == wc, 'orbital {} is {} {} {}, expected {} {} {}', i, p, o, c, wp, wo, wc)
        check(np.allclose(lat.position(i), wp, atol=1e-7), 'position({}) is {}', i, lat.position(i))
    periods = [n * v for n, v in zip(N, vecs)]
    dim = len(N)

    def images():
        for s in it.product(*[(-1, 0, 1) if per[k] else (0,) for k in range(dim)]):
            yield s, sum((s[k] * periods[k] for k in range(dim)), np.zeros(dim))
    for _ in range(12):
        i = g.randrange(len(want))
        for s, v in images():
            q = want[i][0] + v
            check(lat.index(q, want[i][1]) == i, 'index of orbital {} shifted by {} periods is {}', i, s, lat.index(q, want[i][1]))
    # missing positions and names
    i = g.randrange(len(want))
    check(lat.index(want[i][0], 'nosuchname') == -1, 'a missing orbital name is found')
    allpos = [w[0] + v for w in want for s, v in images()]
    off = np.array([g.choice([0.0, .1, .137, .25, .5]) for _ in range(dim)])
    q = want[i][0] + off
    if min(nla.norm(q - p) for p in allpos) > 1e-4:
        check(lat.index(q, want[i][1]) == -1, 'a missing position is found')
    for k in range(dim):
        if not per[k]:
            q = want[i][0] + periods[k]
            if min(nla.norm(q - p) for p in allpos) > 1e-4:
                check(lat.index(q, want[i][1]) == -1, 'a shift along an open direction is found')
    for _ in range(25):
        i, j = g.randrange(len(want)), g.randrange(len(want))
        d = min(nla.norm(want[i][0] + v - want[j][0]) for s, v in images())
        for a, b in ((i, j), (j, i)):
            check(abs(lat.distance(a, b) - d) < 1e-6, 'distance({}, {}) = {}, expected {}', a, b, lat.distance(a, b), d)
        check(abs(lat.distance(want[i][0], want[j][0]) - d) < 1e-6, 'distance of positions is {}, expected {}', lat.distance(want[i][0], want[j][0]), d)
        check(abs(lat.distance(i, want[j][0]) - d) < 1e-6, 'distance of an orbital and a position')
    return (str(N), str(per), len(want), str(atoms)[:200])


# ----------------------------------------------------------------------------- C17
@law('C17', 500)
def matrices(g):
    n = g.randrange(1, 6) if g.random() < .95 else g.randrange(6, 9)
    p = g.string_parts('Pauli', list(range(n)), n)
    s = S('Pauli', p, g.random() < .3)
    M = qy.to_matrix(s, n)
    W = O.pauli_dense(O.os_value(s), n)
    check(M.shape == W.shape and np.allclose(M.toarray(), W, atol=1e-12), 'matrix of {} on {} orbitals is wrong', s, n)
    A = rand_op(g, 'Pauli', list(range(n)), 5, n)
    before = snap_op(A)
    MA = qy.to_matrix(A, n).toarray()
    sc = max([1.0] + [abs(c) for c in A.coeffs])
    check(snap_op(A) == before, 'to_matrix changed the operator')
    check(np.allclose(MA, O.pauli_dense(O.op_value(A), n), rtol=0, atol=1e-12 * sc), 'matrix of the operator\n{}is wrong', A)
    if n > 5:
        return (n, str(p), str(before)[:200])
    B = rand_op(g, 'Pauli', list(range(n)), 3, n)
    MB = qy.to_matrix(B, n).toarray()
    if len(A) and len(B):
        P = qy.product(A, B)
        sb = max([1.0] + [abs(c) for c in B.coeffs])
        check(np.allclose(qy.to_matrix(P, n).toarray(), MA.dot(MB), rtol=0, atol=1e-9 * sc * sb), 'matrix of a product is not the product of matrices')
    return (n, str(p), str(before)[:200])


@law('C17', 300)
def matrix_overlaps(g):
    n = g.randrange(1, 5)
    A = rand_op(g, 'Pauli', list(range(n)), 6, n)
    B = Basis()
    extra = rand_basis(g, 'Pauli', list(range(n)), 6, n)
    strs = [s for s in A._basis] + [s for s in extra if s not in A._basis]
    g.shuffle(strs)
    if not strs:
        return None
    B = Basis(strs)
    M = qy.to_matrix(A, n)
    sc = max([1.0] + [abs(c) for c in A.coeffs])
    mode = g.random()
    X = M if mode < .5 else (M.toarray() if False else M.tocsc())
    before = snap_basis(B)
    v = qy.to_vector(X, B, n)
    check(snap_basis(B) == before, 'to_vector changed the basis')
    want = [coeffs_of(A).get(snap(s), 0) for s in strs]
    check(np.allclose(v, want, rtol=0, atol=1e-10 * sc), 'to_vector returned {} instead of {}', list(v), want)
    # arbitrary matrices: trace overlaps
    if g.random() < .4:
        R = np.array([[g.cplx() for _ in range(2 ** n)] for _ in range(2 ** n)])
        v = qy.to_vector(ss.csr_matrix(R), B, n)
        for s, x in zip(strs, v):
            t = np.trace(O.pauli_dense(O.os_value(s), n).conj().T.dot(R)) / 2 ** n
            check(abs(x - t) <= 1e-9 * max(1, np.abs(R).max()), 'overlap with {} is {} instead of {}', s, x, t)
    Op = qy.to_operator(X, B, n)
    check(isinstance(Op, Operator) and Op.op_type == 'Pauli', 'to_operator returned {}', type(Op))
    d = coeffs_of(Op)
    check(all(abs(d.get(snap(s), 0) - w) <= 1e-10 * sc for s, w in zip(strs, want)) and len(d) <= len(strs), 'to_operator is wrong')
    return (n, str(want), str(before)[:200])


@law('C17', 30)
def matrix_rejects(g):
    s = S(g.choice(['Majorana', 'Fermion']), (['A'], [0])) if False else S('Majorana', (['A'], [0]))
    check(rejects(lambda: qy.to_matrix(s, 2)), 'a Majorana string has no matrix representation here, but was accepted')
    check(rejects(lambda: qy.to_matrix(3.0, 2)), 'to_matrix of a number was not rejected')
    return None


# ----------------------------------------------------------------------------- C18
def rand_state(g, n):
    return np.array([g.cplx(.2) for _ in range(2 ** n)], dtype=complex)


@law('C18', 500)
def state_permutation(g):
    n = g.randrange(1, 7) if g.random() < .97 else g.randrange(7, 9)
    perm = list(range(n)); g.shuffle(perm)
    T = label_permutation(np.array(perm) if g.random() < .5 else list(perm))
    v = rand_state(g, n)
    v0 = v.copy()
    w = qy.apply_transformation(T, v, n)
    check(np.array_equal(v, v0), 'apply_transformation changed the vector')
    from qosy.diagonalization import apply_transformation_conf
    for conf in range(2 ** n):
        occ = [(conf >> (n - 1 - l)) & 1 for l in range(n)]
        new = sum(occ[l] << (n - 1 - perm[l]) for l in range(n))
        got = apply_transformation_conf(T, conf, n)
        check(got == new, 'configuration {} goes to {} instead of {} under {}', conf, got, new, perm)
        check(abs(w[new] - v[conf]) == 0, 'amplitude of configuration {} is not moved to {} under {}', conf, new, perm)
    # representation of the operator action: U P U^dag
    s = S('Pauli', g.string_parts('Pauli', list(range(n)), n))
    P = T.apply(s)
    lhs = qy.to_matrix(P, n).dot(w)
    rhs = qy.apply_transformation(T, qy.to_matrix(s, n).dot(v), n)
    check(np.allclose(lhs, rhs, rtol=0, atol=1e-9 * max(1, np.abs(v).max())), 'state and operator permutations disagree for {} and {}', perm, s)
    if g.random() < .3:
        check(rejects(lambda: qy.apply_transformation(T, np.zeros(2 ** (n + 1)), n + 1), ValueError), 'a permutation of the wrong length was not rejected')
        check(rejects(lambda: qy.apply_transformation(qy.time_reversal(), v, n)), 'time reversal is not a permutation of configurations')
    return (n, str(perm))


@law('C18', 400)
def density_matrices(g):
    n = g.randrange(1, 7) if g.random() < .95 else g.randrange(7, 9)
    keep = g.subset(range(n))
    traced = [l for l in range(n) if l not in keep]
    v, u = rand_state(g, n), rand_state(g, n)
    v0, u0 = v.copy(), u.copy()
    k = g.choice([keep, tuple(keep), np.array(keep, dtype=int)]) if keep else keep
    def pt(x, y):
        X = x.reshape([2] * n).transpose(keep + traced).reshape(2 ** len(keep), -1)
        Y = y.reshape([2] * n).transpose(keep + traced).reshape(2 ** len(keep), -1)
        return X.dot(Y.conj().T)
    sc = max(1.0, np.abs(v).max(), np.abs(u).max()) ** 2 * 2 ** n
    rho = qy.reduced_density_matrix(v, k, n)
    check(rho.shape == (2 ** len(keep),) * 2, 'reduced density matrix of shape {} for {} kept orbitals', rho.shape, len(keep))
    check(np.allclose(rho, pt(v, v), rtol=0, atol=1e-12 * sc), 'reduced density matrix on {} of {} orbitals is wrong', keep, n)
    t = qy.reduced_density_matrix((v, u), k, n)
    check(np.allclose(t, pt(v, u), rtol=0, atol=1e-12 * sc), 'transition density matrix on {} of {} orbitals is wrong', keep, n)
    check(np.array_equal(v, v0) and np.array_equal(u, u0), 'reduced_density_matrix changed its input')
    nv = nla.norm(v)
    if nv > 1e-6:
        r = pt(v / nv, v / nv)
        for m in (2, 3, 4, 5, g.randrange(6, 12)):
            want = np.log(np.trace(nla.matrix_power(r, m)).real) / (1 - m)
            r0 = r.copy()
            got = qy.renyi_entropy(r, n=m) if m != 2 or g.random() < .5 else qy.renyi_entropy(r)
            check(abs(got - want) < 1e-8, 'Renyi entropy of order {} is {} instead of {}', m, got, want)
            check(np.array_equal(r, r0), 'renyi_entropy changed its input')
    return (n, str(keep), str(v[:3]))


# ----------------------------------------------------------------------------- C19
def pauli_value_dense(op, n):
    return O.pauli_dense(O.to_pauli(O.op_value(op), op.op_type), n)


def herm_op(g, op_type, n, tmax=6, kmax=4):
    return rand_op(g, op_type, list(range(n)), tmax, kmax, cplx=False)


def nice(x):
    return float(x)


@law('C19', 250)
def full_diagonalization(g):
    n = g.randrange(1, 5)
    t = g.choice(['Pauli', 'Majorana', 'Fermion'])
    if t == 'Fermion':
        op = ferm_op(g, list(range(n)), 4)
        op = Operator(np.real(op.coeffs).astype(complex), op._basis.op_strings, 'Fermion')
    else:
        op = herm_op(g, t, n)
    if not len(op):
        return None
    M = pauli_value_dense(op, n)
    if np.abs(M - M.conj().T).max() > 0:
        raise Skip()                 # not Hermitian (i times a diagonal Fermion string)
    sc = max(1.0, np.abs(M).max())
    before = snap_op(op)
    if t == 'Fermion':
        # identity parts are dropped by the conversion
        M = M - np.trace(M) / 2 ** n * np.eye(2 ** n)
    ev, vec = qy.diagonalize(op, n)
    check(snap_op(op) == before, 'diagonalize changed the operator')
    want = nla.eigvalsh(M)
    check(len(ev) == 2 ** n and np.allclose(ev, want, rtol=0, atol=1e-8 * sc), 'eigenvalues {} instead of {}', list(ev), list(want))
    check(np.allclose(M.dot(vec), vec * ev, rtol=0, atol=1e-7 * sc), 'eigenvectors do not belong to the eigenvalues')
    check(np.allclose(vec.conj().T.dot(vec), np.eye(2 ** n), rtol=0, atol=1e-7), 'eigenvectors are not orthonormal')
    if n >= 3 and g.random() < .3 and sc < 100:
        k = g.randrange(1, 4)
        try:
            ev2, vec2 = qy.diagonalize(op, n, num_vecs=k)
        except Exception as e:
            if 'onverge' in type(e).__name__ + str(e):
                return (n, str(before)[:200])
            raise
        check(len(ev2) == k and list(ev2) == sorted(ev2), 'sparse eigenvalues {} are not in ascending order', list(ev2))
        check(abs(ev2[0] - want[0]) < 1e-6 * sc, 'lowest eigenvalue {} instead of {}', ev2[0], want[0])
        check(np.allclose(M.dot(vec2), vec2 * ev2, rtol=0, atol=1e-5 * sc), 'sparse eigenvectors do not belong to the eigenvalues')
    return (n, str(before)[:300])


def hop_op(g, n):
    strs, cs, seen = [], [], set()
    for _ in range(g.randrange(1, 7)):
        i, j = g.randrange(n), g.randrange(n)
        pre = 1.0 if i == j else g.choice([1.0, 1.0, 1j])
        k = (min(i, j), max(i, j), pre)
        if k in seen:
            continue
        seen.add(k)
        strs.append(OperatorString(['CDag', 'C'], [i, j], 'Fermion', pre))
        cs.append(g.real())
    return Operator(np.array(cs, dtype=complex), strs, 'Fermion')


def hop_matrix(op, n):
    h = np.zeros((n, n), dtype=complex)
    for c, s in op:
        i, j = map(int, s.orbital_labels)
        z = c * s.prefactor
        if i == j:
            h[i, i] += z
        else:
            h[i, j] += z
            h[j, i] += np.conj(z)
    return h


@law('C19', 250)
def tight_binding(g):
    n = g.randrange(1, 7)
    op = hop_op(g, n)
    h = hop_matrix(op, n)
    sc = max(1.0, np.abs(h).max())
    before = snap_op(op)
    ev, vec = qy.diagonalize_quadratic_tightbinding(op, n)
    check(snap_op(op) == before, 'the tight-binding solver changed the operator')
    check(np.allclose(ev, nla.eigvalsh(h), rtol=0, atol=1e-9 * sc), 'tight-binding eigenvalues {} instead of {}', list(ev), list(nla.eigvalsh(h)))
    check(np.allclose(h.dot(vec), vec * ev, rtol=0, atol=1e-8 * sc), 'tight-binding eigenvectors do not belong to the eigenvalues')
    check(np.allclose(vec.conj().T.dot(vec), np.eye(n), rtol=0, atol=1e-8), 'tight-binding eigenvectors are not orthonormal')
    if g.random() < .3:
        bad = Operator(np.array([1.0], dtype=complex), [OperatorString(['CDag', 'CDag', 'C', 'C'], [0, 1, 1, 0], 'Fermion')], 'Fermion')
        check(rejects(lambda: qy.diagonalize_quadratic_tightbinding(bad, 2), ValueError), 'an interacting operator was accepted by the tight-binding solver')
    return (n, str(before)[:300])


def quad_op(g, n):
    strs, cs, seen = [], [], set()
    for _ in range(g.randrange(1, 7)):
        i, j = g.randrange(n), g.randrange(n)
        pair = i != j and g.random() < .5
        if pair:
            i, j = min(i, j), max(i, j)
        pre = 1.0 if i == j else g.choice([1.0, 1.0, 1j])
        k = (pair, min(i, j), max(i, j), pre)
        if k in seen:
            continue
        seen.add(k)
        strs.append(OperatorString(['CDag', 'CDag' if pair else 'C'], [i, j], 'Fermion', pre))
        cs.append(g.real())
    return Operator(np.array(cs, dtype=complex), strs, 'Fermion')


def maj_quad(g, n):
    strs, cs, seen = [], [], set()
    r = g.random()
    if r < .2:                                   # Kitaev chain, open or closed, with zero modes
        for i in range(n - 1):
            strs.append(OperatorString(['B', 'A'], [i, i + 1], 'Majorana'))
            cs.append(1.0)
        if g.random() < .3:
            strs.append(OperatorString(['D'], [g.randrange(n)], 'Majorana'))
            cs.append(g.choice([.5, -1.0]))
    else:
        for _ in range(g.randrange(1, 8)):
            i, j = g.randrange(n), g.randrange(n)
            if i == j:
                p = (('D',), (i,))
            else:
                p = ((g.choice('AB'), g.choice('AB')), (min(i, j), max(i, j)))
            if p in seen:
                continue
            seen.add(p)
            strs.append(OperatorString(list(p[0]), list(p[1]), 'Majorana'))
            cs.append(g.choice([1.0, -1.0, 2.0]) if g.random() < .4 else round(g.uniform(-2, 2), 4))
    if not strs:
        strs, cs = [OperatorString(['D'], [0], 'Majorana')], [1.0]
    return Operator(np.array(cs, dtype=complex) * g.choice([1.0, 1.0, 1.0, 1e-3]), strs, 'Majorana')


def half_sums(e):
    return np.array(sorted(sum(s * x / 2 for s, x in zip(sg, e)) for sg in it.product((1, -1), repeat=len(e))))


@law('C19', 250)
def bogoliubov(g):
    n = g.randrange(1, 5)
    op = quad_op(g, n) if g.random() < .6 else maj_quad(g, n)
    M = pauli_value_dense(op, n)
    M = M - np.trace(M) / 2 ** n * np.eye(2 ** n)
    sc = max(1.0, np.abs(M).max())
    before = snap_op(op)
    e, U, V = qy.diagonalize_bdg(op, n)
    check(snap_op(op) == before, 'the BdG solver changed the operator')
    check(len(e) == n and min(e) >= 0, 'excitation energies {}', list(e))
    want = nla.eigvalsh(M)
    check(np.allclose(half_sums(e), want, rtol=0, atol=1e-8 * sc), 'signed half-sums of {} do not give the spectrum {}', list(e), list(want))
    check(np.allclose(U.conj().T.dot(U) + V.conj().T.dot(V), np.eye(n), rtol=0, atol=1e-8), 'Bogoliubov amplitudes are not normalized')
    if g.random() < .2:
        for p in ((['CDag', 'CDag', 'C', 'C'], [0, 1, 1, 0]), (['CDag', 'CDag', 'CDag', 'CDag'], [0, 1, 2, 3])):
            bad = Operator(np.array([1.0], dtype=complex), [OperatorString(*p, 'Fermion')], 'Fermion')
            check(rejects(lambda: qy.diagonalize_bdg(bad, 4), ValueError), 'an interacting operator was accepted by the BdG solver')
        bad = Operator(np.array([1.0], dtype=complex), [OperatorString(['X'], [0], 'Pauli')], 'Pauli')
        check(rejects(lambda: qy.diagonalize_bdg(bad, 1)), 'a Pauli operator was accepted by the BdG solver')
    return (n, str(before)[:300])


@law('C19', 250)
def majorana_quadratic(g):
    n = g.randrange(1, 5)
    op = quad_op(g, n) if g.random() < .3 else maj_quad(g, n)
    M = pauli_value_dense(op, n)
    M = M - np.trace(M) / 2 ** n * np.eye(2 ** n)
    sc = max(1.0, np.abs(M).max())
    before = snap_op(op)
    shift, e, _, Z = qy.diagonalize_quadratic(op, n)
    check(snap_op(op) == before, 'the Majorana solver changed the operator')
    check(len(e) == n, 'excitation energies {}', list(e))
    want = nla.eigvalsh(M)
    got = np.array(sorted(shift + sum(x for s, x in zip(sg, e) if s) for sg in it.product((0, 1), repeat=n)))
    check(np.allclose(got, want, rtol=0, atol=1e-8 * sc), 'shift {} with energies {} gives {} instead of the spectrum {}', shift, list(e), list(got), list(want))
    check(np.allclose(Z.T.dot(Z), np.eye(2 * n), rtol=0, atol=1e-8), 'Majorana eigenvectors are not orthonormal')
    if g.random() < .2:
        for p in ((['A'], [0]), (['D', 'D'], [0, 1]), (['A', 'B', 'A'], [0, 1, 2]), (['A', 'D'], [0, 1])):
            bad = Operator(np.array([1.0], dtype=complex), [OperatorString(*p, 'Majorana')], 'Majorana')
            check(rejects(lambda: qy.diagonalize_quadratic(bad, 3), ValueError), 'the operator {} is not quadratic but was accepted', p)
        bad = Operator(np.array([1.0], dtype=complex), [OperatorString(['X'], [0], 'Pauli')], 'Pauli')
        check(rejects(lambda: qy.diagonalize_quadratic(bad, 1)), 'a Pauli operator was accepted by the Majorana solver')
    return (n, str(before)[:300])


# ----------------------------------------------------------------------------- C20
def bracket_words(p, q, op_type):
    w = O.wmul_for(op_type)
    return O.pclean(O.padd(O.pmul(p, q, w), O.pmul(q, p, w), -1))


@law('C20', 250)
def lie_strings(g):
    t = g.choice(['Pauli', 'Majorana'])
    n = g.randrange(1, 4)
    B = rand_basis(g, t, list(range(n)), 5, 3)
    if not len(B):
        return None
    before = snap_basis(B)
    L = qy.generate_lie_algebra(B)
    check(snap_basis(B) == before, 'generate_lie_algebra changed the generators')
    check(isinstance(L, Basis) and L is not B, 'generate_lie_algebra returned {}', type(L))
    keys = check_basis(L, 'Lie algebra')
    check(keys[:len(B)] == list(before[0]), 'the generators do not come first')
    vals = [list(O.os_value(s).keys())[0] for s in B]
    cur = list(vals)
    S_ = set(cur)
    k = 0
    while k < len(cur):
        for j in range(k + 1):
            r = bracket_words({cur[k]: 1}, {cur[j]: 1}, t)
            for w in r:
                if w not in S_:
                    S_.add(w)
                    cur.append(w)
        k += 1
    got = [list(O.os_value(s).keys())[0] for s in L]
    check(set(got) == S_, 'generators {}: the algebra has {} strings, the closure {}', [str(s) for s in B], len(got), len(S_))
    return str(before[0])


@law('C20', 120)
def lie_operators(g):
    t = g.choice(['Pauli', 'Majorana'])
    n = g.randrange(1, 3)
    ops = []
    for _ in range(g.randrange(1, 4)):
        o = nice_H(g, t, n, 3, 3)
        o.remove_zeros()
        if len(o) and o.norm() > 1e-3:
            ops.append(o)
    if not ops:
        return None
    if g.random() < .3:
        for o in ops:
            o.normalize()
    if len(ops) > 1 and g.random() < .25:
        d = ops[0] * g.choice([1.0, .7, -1.3]) + ops[1] * g.choice([1.0, .3])
        d.remove_zeros()
        if d.norm() > 1e-3:
            ops.insert(g.randrange(0, len(ops) + 1), d)
    before = [snap_op(o) for o in ops]
    n_ops = len(ops)
    L = qy.generate_lie_algebra(ops, tol=1e-10)
    check(len(ops) == n_ops and [snap_op(o) for o in ops] == before, 'generate_lie_algebra changed the generators')
    check(isinstance(L, list) and L is not ops and [snap_op(o) for o in L[:n_ops]] == before, 'the generators do not come first')
    words = {}
    # exact closure
    vals = [O.op_value(o) for o in ops]

    def vec(p):
        for w in p:
            words.setdefault(w, len(words))
        v = np.zeros(16 if n == 2 else 4, dtype=complex)
        for w, c in p.items():
            v[words[w]] = c
        return v
    def extend(Q, p):
        v = vec(p)
        nv = nla.norm(v)
        if nv < 1e-9:
            return False
        v = v / nv
        for _ in range(2):
            for q in Q:
                v = v - np.vdot(q, v) * q
        if nla.norm(v) > 1e-6:
            Q.append(v / nla.norm(v))
            return True
        return False
    Q, cur = [], []
    for p in vals:
        if extend(Q, p):
            cur.append(p)
    k = 0
    while k < len(cur):
        for j in range(k):
            r = bracket_words(cur[k], cur[j], t)
            nr = max([abs(c) for c in r.values()] or [0])
            if nr > 1e-9:
                r = O.pscale(r, 1 / nr)
                if extend(Q, r):
                    cur.append(r)
        k += 1
    # the result
    R = []
    for o in L:
        R.append(vec(O.op_value(o)))
    M = np.array(R).T
    norms = nla.norm(M, axis=0)
    if min(norms) < 1e-300:
        raise Bad('the algebra contains a zero element')
    sv = nla.svd(M / norms, compute_uv=False)
    if np.any((sv > 1e-12) & (sv < 1e-2)):
        raise Skip()                 # numerically ambiguous closure
    rank = nla.matrix_rank(M / norms, tol=1e-5)
    r0 = nla.matrix_rank(M[:, :n_ops] / norms[:n_ops], tol=1e-5)
    check(rank - r0 == len(L) - n_ops, '{} elements beyond the generators but they add {} dimensions', len(L) - n_ops, rank - r0)
    for v in R:
        x = v / nla.norm(v)
        for q in Q:
            x = x - np.vdot(q, x) * q
        check(nla.norm(x) < 1e-4, 'an element lies outside the closure of the generators')
    check(rank == len(Q), 'the algebra has dimension {} but the closure has {}', rank, len(Q))
    return str(before)[:400]


# ----------------------------------------------------------------------------- C21
def int_matrix(g, n, k, cplx, dep):
    """Integer matrix whose column j is independent of the previous ones unless j in dep."""
    cols = []
    while len(cols) < k:
        j = len(cols)
        if j in dep and cols:
            c = sum((g.choice([0, 1, -1, 2, .5]) * x for x in cols), np.zeros(n))
        else:
            c = np.array([g.choice([0, 0, 1, -1, 2, 3]) for _ in range(n)], dtype=complex)
            if cplx:
                c = c + 1j * np.array([g.choice([0, 1, -1, 2]) for _ in range(n)])
            if cplx and g.random() < .5:
                c = c * np.exp(1j * g.uniform(0, 6))
            if nla.norm(c) == 0:
                c[g.randrange(n)] = 1.0
        cols.append(c)
    M = np.array(cols).T.reshape(n, k)
    return M if cplx else M.real.copy()


def gs_ref(M):
    """Indices of the columns independent of their predecessors (well-conditioned cases only)."""
    Q, keep = [], []
    for j in range(M.shape[1]):
        v = M[:, j].astype(complex)
        nv = nla.norm(v)
        if nv < 1e-12:
            continue
        v = v / nv
        for _ in range(2):
            for q in Q:
                v = v - np.vdot(q, v) * q
        r = nla.norm(v)
        if r > 1e-8:
            if r < 1e-3:
                raise Skip()
            Q.append(v / r)
            keep.append(j)
    return Q, keep


@law('C21', 500)
def gram_schmidt_law(g):
    n = g.randrange(1, 9)
    k = g.randrange(1, 9)
    cplx = g.random() < .5
    dep = set(j for j in range(1, k) if g.random() < .3)
    M = int_matrix(g, n, k, cplx, dep)
    if g.random() < .3:
        M = M * g.choice([1e-3, 1e2, 7.0])
    Q, keep = gs_ref(M)
    sparse = g.random() < .4
    X = (ss.csc_matrix(M) if g.random() < .7 else ss.csr_matrix(M)) if sparse else M.copy()
    R = tools.gram_schmidt(X, tol=1e-9)
    check(np.array_equal(X.toarray() if sparse else X, M), 'gram_schmidt changed its input')
    check(ss.issparse(R) == sparse, 'gram_schmidt returned {}', type(R))
    R = R.toarray() if sparse else R
    check(R.shape == (n, len(keep)), 'gram_schmidt of {} returned {} columns, expected {} (independent columns {})', M.tolist(), R.shape[1], len(keep), keep)
    check(np.allclose(R.conj().T.dot(R), np.eye(len(keep)), rtol=0, atol=1e-8), 'gram_schmidt columns are not orthonormal')
    for a, j in enumerate(keep):
        proj = R[:, :a + 1].dot(R[:, :a + 1].conj().T.dot(M[:, j]))
        check(nla.norm(M[:, j] - proj) <= 1e-8 * max(1, nla.norm(M[:, j])), 'partial span {} is not preserved', a)
        check(abs(np.vdot(R[:, a], Q[a])) > 1 - 1e-8, 'column {} of gram_schmidt leaves the partial span', a)
    return (n, k, str(M.tolist())[:200])


@law('C21', 30)
def gram_schmidt_empty(g):
    n, k = g.choice([(0, 0), (3, 0), (0, 0)])
    M = np.zeros((n, k))
    check(tools.gram_schmidt(M).shape == (n, k), 'gram_schmidt of an empty matrix')
    return None


@law('C21', 400)
def intersection_law(g):
    n = g.randrange(1, 8)
    cplx = g.random() < .4
    common = g.randrange(0, min(3, n) + 1)
    a = g.randrange(max(1, common), n + 1)
    b = g.randrange(max(1, common), n + 1)
    C = int_matrix(g, n, common, cplx, set()) if common else np.zeros((n, 0))
    A = np.hstack((C, int_matrix(g, n, a - common, cplx, set()) if a > common else np.zeros((n, 0))))
    B = np.hstack((C, int_matrix(g, n, b - common, cplx, set()) if b > common else np.zeros((n, 0))))

    def mix(M):
        k = M.shape[1]
        R = np.array([[g.uniform(-1, 1) for _ in range(k)] for _ in range(k)])
        return M.dot(R) if abs(nla.det(R)) > .05 else M
    A, B = mix(A), mix(B)
    A, B = A / nla.norm(A, axis=0), B / nla.norm(B, axis=0)
    sa, sb = nla.svd(A, compute_uv=False), nla.svd(B, compute_uv=False)
    if a > n or b > n or sa[-1] < .03 or sb[-1] < .03:
        raise Skip()
    QA, QB = nla.qr(A)[0], nla.qr(B)[0]
    cos = nla.svd(QA.conj().T.dot(QB), compute_uv=False)
    dim = int(np.sum(cos > 1 - 1e-9))
    if np.any((cos > .999) & (cos <= 1 - 1e-9)):
        raise Skip()
    A0, B0 = A.copy(), B.copy()
    R = tools.intersection(A, B)
    check(np.array_equal(A, A0) and np.array_equal(B, B0), 'intersection changed its inputs')
    check(R.shape == (n, dim), 'intersection has {} vectors instead of {}', R.shape[1], dim)
    if dim:
        check(np.allclose(nla.norm(R, axis=0), 1, atol=1e-8), 'intersection vectors are not normalized')
        check(np.allclose(QA.dot(QA.conj().T.dot(R)), R, atol=1e-5) and np.allclose(QB.dot(QB.conj().T.dot(R)), R, atol=1e-5), 'intersection leaves one of the spaces')
        check(nla.matrix_rank(R, tol=1e-4) == dim, 'intersection vectors are dependent')
    check(rejects(lambda: tools.intersection(A, np.zeros((n + 1, 2))), ValueError), 'matrices of different heights were not rejected')
    return (n, a, b, str(A0.tolist())[:150])


@law('C21', 400)
def sparsify_law(g):
    n = g.randrange(1, 9)
    k = g.randrange(1, n + 1)
    cplx = g.random() < .4
    M = int_matrix(g, n, k, cplx, set())
    s = nla.svd(M / nla.norm(M, axis=0), compute_uv=False)
    if s[-1] < .03:
        raise Skip()
    M0 = M.copy()
    orth = g.random() < .5
    R = tools.sparsify(M, orthogonalize=orth) if g.random() < .7 or not orth else tools.sparsify(M)
    check(np.array_equal(M, M0), 'sparsify changed its input')
    check(R.shape == M.shape, 'sparsify returned {} vectors instead of {}', R.shape, M.shape)
    same_span(R, M, 'sparsify', 1e-6)
    if orth and k > 1:
        check(np.allclose(R.conj().T.dot(R), np.eye(k), atol=1e-7), 'sparsified vectors are not orthonormal')
    return (n, k, str(M0.tolist())[:200])


@law('C21', 400)
def duplicates(g):
    kind = g.randrange(3)
    n = g.size(5, 10)
    if kind == 0:
        xs = [np.array([g.randrange(3), g.randrange(2)], dtype=float) for _ in range(n)]
        key, kw = (lambda x: tuple(x)), {}
        if g.random() < .5:
            xs = [x + g.choice([0, 1e-14]) for x in xs]
            key = lambda x: tuple(np.round(x))
    elif kind == 1:
        xs = [g.randrange(-6, 7) for _ in range(n)]
        m = g.choice([2, 3, 4])
        key, kw = (lambda x: x % m), dict(equiv=lambda a, b: (a - b) % m == 0)
    else:
        tol = g.choice([1e-3, .1])
        xs = [float(g.randrange(5)) + g.choice([0, tol / 20]) for _ in range(n)]
        key, kw = (lambda x: round(x)), dict(tol=tol)
    before = list(xs)
    R = tools.remove_duplicates(xs, **kw)
    check(len(xs) == len(before) and all(a is b for a, b in zip(xs, before)), 'remove_duplicates changed its input')
    seen, want = set(), []
    for x in xs:
        if key(x) not in seen:
            seen.add(key(x))
            want.append(x)
    check(len(R) == len(want) and all(np.array_equal(a, b) for a, b in zip(R, want)), 'remove_duplicates({}) = {} instead of {}', before, R, want)
    return (kind, str(before))


# ----------------------------------------------------------------------------- C22
def chain_H(g, n):
    """A small Pauli (or Majorana) Hamiltonian."""
    H = nice_H(g, g.choice(['Pauli', 'Pauli', 'Majorana']), n, 5, 2)
    H.remove_zeros(1e-6)
    return H


def start_op(g, H, n):
    t = H.op_type
    for _ in range(20):
        o = nice_H(g, t, n, 3, 2)
        o.remove_zeros(1e-6)
        if len(o):
            return o
    return None


def residual(H, op):
    p, q = O.op_value(H), O.op_value(op)
    nq = sum(abs(c) ** 2 for c in q.values())
    r = bracket_words(p, q, H.op_type)
    return sum(abs(c) ** 2 for c in r.values()) / nq


def commutator_matrix(B, H, allowed):
    """Exact restricted Liouvillian: string -> column dictionary of string values."""
    cols = []
    for s in B:
        r = {}
        for c, h in H:
            if allowed is not None and not set(map(int, h.orbital_labels)) & allowed:
                continue
            for (cc, word) in [(c, None)]:
                v = bracket_words(O.os_value(s), O.pscale(O.os_value(h), complex(c)), H.op_type)
            r = O.padd(r, v)
        cols.append(O.pclean(r, 1e-12))
    return cols


@law('C22', 250)
def explore_cache(g):
    n = g.randrange(2, 5)
    big = g.random() < .15          # a record that grows well beyond a handful of strings
    H = nice_H(g, g.choice(['Pauli', 'Majorana']), 4, 6, 2) if big else chain_H(g, n)
    if big:
        n = 4
        H.remove_zeros(1e-6)
        full = list(qy.cluster_basis(3, list(range(n)), H.op_type))
        g.shuffle(full)
    if not len(H):
        return None
    snapH = snap_op(H)
    cache = (Basis(), Basis(), dict())
    desc = []
    for step in range(g.randrange(3, 6) if big else g.randrange(1, 5)):
        if big:
            B = Basis(g.sample(full, min(len(full), g.randrange(5, 35))))
        else:
            B = rand_basis(g, H.op_type, list(range(n)), 7, 3)
        if not len(B):
            continue
        allowed = None if g.random() < .5 else set(g.subset(range(n)))
        before = snap_basis(B)
        if g.random() < .5:
            L, E = algorithms._explore(B, H, *cache, allowed_labels=allowed)
        else:
            L, E = algorithms._explore(B, H, *cache, allowed) if allowed is not None else algorithms._explore(B, H, *cache)
        check(snap_basis(B) == before and snap_op(H) == snapH, '_explore changed its inputs')
        check_basis(E, 'extended basis')
        check_basis(cache[0], 'explored basis')
        check(L.shape == (len(E), len(B)), '_explore returned a matrix of shape {} for bases of sizes {} and {}', L.shape, len(E), len(B))
        D = L.toarray()
        cols = commutator_matrix(B, H, allowed)
        ev = [O.os_value(s) for s in E]
        for j in range(len(B)):
            got = {}
            for i in range(len(E)):
                got = O.padd(got, O.pscale(ev[i], D[i, j]))
            check(O.peq(got, cols[j], 1e-9), 'step {} (allowed labels {}): column {} of the cached Liouvillian is {} instead of {}', step, allowed, j, O.pclean(got), cols[j])
        s2, E2 = algorithms._explore(B, H, Basis(), Basis(), dict(), allowed_labels=allowed)
        check(set(snap(s) for s in E2) == set(snap(s) for s in E), 'step {}: the cached extended basis differs from a fresh one', step)
        desc.append((len(B), str(allowed)))
    return (str(snapH)[:200], str(desc))


@law('C22', 400)
def truncation(g):
    B = rand_basis(g, 'Pauli', list(range(4)), 9, 3)
    if not len(B):
        return None
    vals = [k + 1 for k in range(len(B))]
    g.shuffle(vals)
    sc = g.choice([1.0, 1e-3, 1e-6])
    v = np.array([x * sc * g.choice([1, -1, 1j]) for x in vals])
    th = g.choice([0.0, sc * 2.5, sc * .5, sc * 100])
    m = g.choice([1, 2, 3, 5, 100, len(B)])
    before, v0 = snap_basis(B), v.copy()
    R = algorithms._truncate_basis(B, v, threshold=th, max_basis_size=m)
    check(snap_basis(B) == before and np.array_equal(v, v0), '_truncate_basis changed its inputs')
    order = sorted(range(len(B)), key=lambda i: -abs(v[i]))
    want = [snap(B[i]) for i in order if abs(v[i]) > th][:m]
    check(check_basis(R, 'truncated basis') == want, 'truncated basis {} instead of {}', [str(s) for s in R], want)
    if want:
        op = Operator(v, B.op_strings)
        T = algorithms._truncate_operator(op, threshold=th, max_basis_size=m)
        c = coeffs_of(T)
        check(set(c) == set(want) and all(abs(c[snap(B[i])] - v[i]) == 0 for i in order if snap(B[i]) in c), 'truncated operator is wrong')
    return (len(B), str(v0), th, m)


def check_residuals(H, res, what, tol=1e-6):
    best, best_norm, ops, norms = res[:4]
    check(len(ops) == len(norms), '{}: {} operators but {} residuals', what, len(ops), len(norms))
    sc = max(1.0, max(abs(c) for c in H.coeffs)) ** 2 * 4
    for o, r in zip(ops, norms):
        check(abs(o.norm() - 1) < 1e-6, '{}: a returned operator has norm {}', what, o.norm())
        x = residual(H, o)
        check(abs(x - r) <= tol * sc, '{}: reported residual {} but the squared norm of the commutator is {}', what, r, x)
    if norms:
        k = min(abs(x) for x in norms)
        check(abs(abs(best_norm) - k) <= tol * sc, '{}: best residual {} but the smallest is {}', what, best_norm, k)
        check(abs(residual(H, best) - abs(best_norm)) <= tol * sc, '{}: the best operator has residual {} instead of {}', what, residual(H, best), best_norm)


def many_terms(g):
    names = ['X {} X {}'.format(i, i + 1) for i in range(4)] + ['Y {} Y {}'.format(i, i + 1) for i in range(3)] + ['Z {}'.format(i) for i in range(5)]
    return qy.Operator([g.uniform(.2, 1.2) for _ in names], [qy.opstring(t) for t in names])


@law('C22', 90)
def searches(g):
    n = g.randrange(2, 5)
    H = chain_H(g, n)
    o = start_op(g, H, n)
    if o is None or not len(H) or not any(len(s.orbital_labels) for s in H._basis) or not any(len(s.orbital_labels) for s in o._basis):
        return None
    before = (snap_op(H), snap_op(o))
    kind = g.choice(['selected_ci', 'selected_ci', 'sweep', 'sweep', 'simple', 'greedy_simple'])
    steps = g.randrange(1, 4)
    m = g.choice([2, 5, 100])
    if kind in ('simple', 'selected_ci') and g.random() < .5:
        # many steps in a small basis: the residual rises and falls again
        H = many_terms(g)
        o = qy.Operator([1.0], [qy.opstring(g.choice(['Z 2', 'X 0', 'Y 1 Z 2', 'X 0 X 1']))])
        before = (snap_op(H), snap_op(o))
        steps, m = g.randrange(4, 9), g.randrange(3, 13)
    cache = (Basis(), Basis(), dict()) if g.random() < .6 else None
    kw = dict(threshold=g.choice([1e-6, 1e-2]), max_basis_size=m)
    for rep in range(2 if cache else 1):
        try:
            if kind == 'selected_ci':
                res = algorithms.selected_ci(o, H, steps, explored_data=cache, **kw)
            elif kind == 'sweep':
                k2 = dict(kw)
                res = algorithms.selected_ci_sweep(o, H, min(steps, 2), explored_data=cache, **k2)
            elif kind == 'simple':
                res = algorithms.selected_ci_simple(o, H, steps, **kw)
            else:
                res = algorithms.selected_ci_greedy_simple(o, H, steps, explored_data=cache, **kw)
        except Exception as e:
            if kind == 'greedy_simple' and isinstance(e, (TypeError, UnboundLocalError, IndexError, ValueError)):
                raise Skip()          # no new string can be reached
            if 'ARPACK' in type(e).__name__ + str(e) or 'Arpack' in type(e).__name__ or 'singular' in str(e):
                raise Skip()
            if isinstance(e, (IndexError, ValueError)) and ('empty' in str(e) or 'zero-size' in str(e) or 'size 0' in str(e)):
                raise Skip()          # the truncated basis became empty
            raise
        check((snap_op(H), snap_op(o)) == before, '{} changed its inputs', kind)
        check_residuals(H, res, kind, 1e-5)
    return (kind, steps, m, str(before)[:250])


@law('C22', 60)
def greedy_search(g):
    n = g.randrange(2, 5)
    H = chain_H(g, n)
    o = start_op(g, H, n)
    if o is None or not len(H) or not any(len(s.orbital_labels) for s in H._basis):
        return None
    if H.op_type == 'Majorana' and g.random() < .5:
        raise Skip()
    com = H
    if g.random() < .5:
        com = [H]
        for _ in range(g.randrange(0, 3)):
            k = start_op(g, H, n)
            if k is not None:
                com.append(k)
    kw = dict(threshold=g.choice([1e-6, 1e-2]), max_basis_size=g.choice([3, 10, 100]), num_H_terms=g.choice([1, 3, 10]),
              num_O_terms=g.choice([0, 0, 2]), verbose=False)
    if g.random() < .3:
        q = start_op(g, H, n)
        q.normalize()
        kw['orth_ops'] = [q]
    if g.random() < .3:
        kw['num_vecs'] = g.choice([1, 2])
    if g.random() < .5:
        kw['explored_data'] = (Basis(), Basis(), dict())
    steps = g.randrange(1, 4)
    coms = com if isinstance(com, list) else [com]
    before = ([snap_op(x) for x in coms], snap_op(o))
    for rep in range(2 if 'explored_data' in kw else 1):
        try:
            res = algorithms.selected_ci_greedy(o, com, steps, **kw)
        except Exception as e:
            if 'ARPACK' in type(e).__name__ + str(e) or 'Arpack' in type(e).__name__ or 'singular' in str(e):
                raise Skip()
            if isinstance(e, (IndexError, ValueError)) and ('empty' in str(e) or 'zero-size' in str(e) or 'size 0' in str(e) or 'invalid shape' in str(e)):
                raise Skip()
            raise
        check(([snap_op(x) for x in coms], snap_op(o)) == before, 'selected_ci_greedy changed its inputs')
        check_residuals(H, res, 'selected_ci_greedy', 1e-5)
    return (steps, str(before)[:250], str(sorted(kw))[:100])


# ----------------------------------------------------------------------------- C23
WORDS = ['Up', 'Dn', 'a', 'b', 'ab', 'aba', 'x', '(u)', '(d)', 'A', 'AA', '.', '+', 'X 1', '[0]', 'U', 'p']


def ref_replace(text, subs):
    out, i = [], 0
    names = sorted(subs, key=lambda s: -len(s))
    while i < len(text):
        for nme in names:
            if text.startswith(nme, i):
                out.append(subs[nme])
                i += len(nme)
                break
        else:
            out.append(text[i])
            i += 1
    return ''.join(out)


@law('C23', 1500)
def replacing(g):
    k = g.randrange(1, 5)
    names = g.sample(WORDS, k)
    if g.random() < .05:
        names = g.sample(WORDS + ['w{}'.format(i) for i in range(30)], g.randrange(12, 40))
    subs = {nme: g.choice(WORDS + ['', 'zz']) for nme in names}
    text = ''.join(g.choice((names if g.random() < .5 else WORDS) + [' ', 'q', '\\']) for _ in range(g.size(5, 12) if g.random() < .95 else g.randrange(12, 60)))
    s0 = dict(subs)
    got = tools.replace(text, subs)
    check(subs == s0, 'replace changed the substitutions')
    check(got == ref_replace(text, subs), 'replace({!r}, {}) = {!r} instead of {!r}', text, subs, got, ref_replace(text, subs))
    a, b = g.sample(WORDS, 2)
    sw = tools.swap(text, a, b)
    check(sw == ref_replace(text, {a: b, b: a}), 'swap({!r}, {!r}, {!r}) = {!r}', text, a, b, sw)
    plain = ''.join(g.choice(['Up', 'Dn', ' ', '1', 'q']) for _ in range(g.size(5, 12)))
    check(tools.swap(tools.swap(plain, 'Up', 'Dn'), 'Up', 'Dn') == plain, 'swap is not its own inverse on {!r}', plain)
    return (text, str(s0))


@law('C23', 1000)
def arg_sorting(g):
    n = g.size(5, 12) if g.random() < .95 else g.randrange(12, 60)
    kind = g.randrange(3)
    if kind == 0:
        xs = [g.randrange(0, max(1, n)) for _ in range(n)]
    elif kind == 1:
        xs = [tuple(g.randrange(3) for _ in range(g.randrange(3))) for _ in range(n)]
    else:
        xs = [g.choice(WORDS) for _ in range(n)]
    x0 = list(xs)
    want = [i for _, i in sorted((x, i) for i, x in enumerate(xs))]
    got = tools.argsort(xs)
    check(xs == x0, 'argsort changed its input')
    check(list(got) == want, 'argsort({}) = {}', x0, got)
    rev = g.random() < .5
    sg = -1 if rev else 1
    got = tools.argsort(xs, comp=lambda i, j: sg * ((xs[i] > xs[j]) - (xs[i] < xs[j])))
    want = sorted(range(n), key=lambda i: xs[i])
    if rev:
        order = sorted(set(xs), reverse=True)
        want = [i for v in order for i in range(n) if xs[i] == v]
    check(list(got) == want, 'argsort({}, comp) = {} instead of {}', x0, got, want)
    return (kind, str(x0))
