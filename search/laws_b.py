"""Laws for C09-C13 (symmetries, commutants, symmetrization, generated bases)."""
import copy, warnings, itertools as it
import numpy as np, scipy.sparse as ss
import qosy as qy
from qosy import OperatorString, Basis, Operator
from qosy.transformation import Transformation, label_permutation, space_group_symmetry, spin_flip_symmetry, spin_parity_symmetry
import oracle as O
from base import law, check, rejects, Bad, Skip, OPS
from laws_a import S, snap, snap_op, snap_basis, rand_op, rand_basis, coeffs_of, same_coeffs, check_basis, scale_of, canonical, fermion_parts


# ------------------------------------------------------------------- automorphisms
def auto_gamma(p, img, anti=False):
    """Image of a Majorana polynomial under gamma_g -> sign * gamma_g' (anti: conjugate coefficients)."""
    r = {}
    for w, c in p.items():
        c = complex(c).conjugate() if anti else complex(c)
        seq = []
        for x in w:
            s, y = img(x)
            c *= s
            seq.append(y)
        s, w2 = O.gamma_word(seq)
        r[w2] = r.get(w2, 0) + c * s
    return r


def auto_pauli(p, img, anti=False):
    r = {}
    for w, c in p.items():
        c = complex(c).conjugate() if anti else complex(c)
        word = ()
        for (l, o) in w:
            s, l2, o2 = img(l, o)
            k, word = O.pauli_word_mul(word, ((l2, o2),))
            c *= s * k
        r[word] = r.get(word, 0) + c
    return r


class T(object):
    """A transformation of the library together with its exact action."""

    def __init__(self, real, act, name):
        self.real, self.act, self.name = real, act, name


def t_perm(g, n, op_type):
    perm = list(range(n))
    g.shuffle(perm)
    r = g.random()
    info = np.array(perm) if r < .4 else (list(perm) if r < .8 else tuple(perm))
    return T(label_permutation(info), perm_act(perm, op_type), 'perm{}'.format(perm))


def perm_act(perm, op_type):
    if op_type == 'Pauli':
        return lambda p: auto_pauli(p, lambda l, o: (1, perm[l], o))
    return lambda p: auto_gamma(p, lambda x: (1, 2 * perm[x // 2] + x % 2))


def t_ph():
    return T(qy.particle_hole() if hasattr(qy, 'particle_hole') else qy.charge_conjugation(),
             lambda p: auto_gamma(p, lambda x: (-1 if x % 2 else 1, x)), 'PH')


def t_tr(op_type):
    # Pauli: antiunitary i sigma_y K: every factor changes sign and i -> -i (the strings have real coefficients)
    if op_type == 'Pauli':
        return T(qy.time_reversal(), lambda p: auto_pauli(p, lambda l, o: (-1, l, o)), 'TR')
    return T(qy.time_reversal(), lambda p: auto_gamma(p, lambda x: (-1 if x % 2 else 1, x), True), 'TR')


def spin_lattice(g):
    up, dn = g.choice([('Up', 'Dn'), ('Up', 'Dn'), ('(u)', '(d)'), ('a', 'ab')])
    orbs = g.choice([['{0}', '{1}'], ['s{0}', 's{1}', 'p{0}', 'p{1}'], ['{1}', '{0}']])
    names = [o.format(up, dn) for o in orbs]
    N = g.randrange(1, 4)
    lat = qy.lattice.chain(N, periodic=g.random() < .5 and N > 2, orbital_names=names)
    flip = {}
    labels = {}
    for i, (pos, name, cell) in enumerate(lat):
        labels[(cell, name)] = i
    isup = {}
    for i, (pos, name, cell) in enumerate(lat):
        k = names.index(name)
        o = orbs[k]
        partner = orbs.index(o.replace('{0}', '{x}').replace('{1}', '{0}').replace('{x}', '{1}'))
        flip[i] = labels[(cell, names[partner])]
        isup[i] = '{0}' in o
    return lat, up, dn, flip, isup, len(lat)


def apply_checked(tr, x, op_type):
    before = snap(x) if isinstance(x, OperatorString) else snap_op(x)
    r = tr.real.apply(x)
    after = snap(x) if isinstance(x, OperatorString) else snap_op(x)
    check(before == after, 'applying {} changed its input', tr.name)
    check(isinstance(r, Operator) and r.op_type == x.op_type, '{}: wrong kind of result', tr.name)
    check_basis(r._basis, tr.name)
    for s in r._basis:
        canonical(s, tr.name)
    return r


def real_op(g, op_type, pool, tmax=4, kmax=4):
    return rand_op(g, op_type, pool, tmax, kmax, cplx=False)


def rand_T(g, op_type, n):
    r = g.random()
    if r < .6:
        return t_perm(g, n, op_type)
    if r < .8 or op_type == 'Pauli':
        return t_tr(op_type)
    return t_ph()


@law('C09', 2500)
def transformation_rules(g):
    op_type = g.choice(['Pauli', 'Majorana', 'Majorana'])
    n = g.choice([2, 3, 4, 5, 6, 8, 12])
    t = rand_T(g, op_type, n)
    s = S(op_type, g.string_parts(op_type, list(range(n)), n))
    r = apply_checked(t, s, op_type)
    want = t.act(O.os_value(s))
    check(O.peq(O.op_value(r), want), '{} of {} gives\n{}instead of {}', t.name, s, r, O.pclean(want))
    op = real_op(g, op_type, list(range(n)))
    r = apply_checked(t, op, op_type)
    want = {}
    for c, q in op:
        want = O.padd(want, t.act(O.os_value(q)), complex(c))
    check(O.peq(O.op_value(r), want, 1e-9 * scale_of(want)), '{} of\n{}gives\n{}instead of {}', t.name, op, r, O.pclean(want))
    return (t.name, snap(s), snap_op(op))


@law('C09', 800)
def transformation_products(g):
    op_type = g.choice(['Pauli', 'Majorana', 'Majorana'])
    n = g.choice([2, 3, 4, 5, 6])
    ts = [rand_T(g, op_type, n) for _ in range(g.randrange(2, 5))]
    s = S(op_type, g.string_parts(op_type, list(range(n)), n))
    if g.random() < .5:
        real = ts[0].real
        for t in ts[1:]:
            real = real * t.real
        if len(ts) == 3 and g.random() < .5:
            real = ts[0].real * (ts[1].real * ts[2].real)
        want = O.os_value(s)
        for t in ts[::-1]:
            want = t.act(want)
        name = ' * '.join(t.name for t in ts)
    else:
        k = g.randrange(1, 7)
        base = ts[0]
        if len(ts) > 2:
            base = T(ts[0].real * ts[1].real, lambda p: ts[0].act(ts[1].act(p)), '({} * {})'.format(ts[0].name, ts[1].name))
        real = base.real ** k
        want = O.os_value(s)
        for _ in range(k):
            want = base.act(want)
        name = '{} ** {}'.format(base.name, k)
        check(rejects(lambda: base.real ** 0, ValueError) and rejects(lambda: base.real ** (-k)) and rejects(lambda: base.real ** 1.5), 'invalid powers are not rejected')
    r = apply_checked(T(real, None, name), s, op_type)
    check(O.peq(O.op_value(r), want), '{} of {} gives\n{}instead of {}', name, s, r, O.pclean(want))
    # the factors still work on their own
    r = apply_checked(ts[-1], s, op_type)
    check(O.peq(O.op_value(r), ts[-1].act(O.os_value(s))), '{} changed after being multiplied', ts[-1].name)
    return (name, snap(s))


@law('C09', 400)
def spin_transformations(g):
    lat, up, dn, flip, isup, n = spin_lattice(g)
    default = (up, dn) == ('Up', 'Dn') and g.random() < .5
    op_type = 'Majorana'
    s = S(op_type, g.string_parts(op_type, list(range(n)), n))
    kind = g.choice(['flip', 'parity', 'tr'])
    overlap = up in dn or dn in up
    if kind == 'flip':
        real = spin_flip_symmetry(lat) if default else spin_flip_symmetry(lat, up, dn)
        act = lambda p: auto_gamma(p, lambda x: (1, 2 * flip[x // 2] + x % 2))
    elif overlap:
        raise Skip()
    elif kind == 'parity':
        real = spin_parity_symmetry(lat) if default else spin_parity_symmetry(lat, up, dn)
        act = lambda p: auto_gamma(p, lambda x: (1 if isup[x // 2] else -1, x))
    else:
        real = qy.time_reversal(lat) if default else qy.time_reversal((lat, up, dn))
        # a_up -> a_dn, a_dn -> -a_up, b_up -> -b_dn, b_dn -> b_up, i -> -i
        act = lambda p: auto_gamma(p, lambda x: ((1 if isup[x // 2] else -1) * (-1 if x % 2 else 1), 2 * flip[x // 2] + x % 2), True)
    r = apply_checked(T(real, act, kind), s, op_type)
    want = act(O.os_value(s))
    check(O.peq(O.op_value(r), want), '{} ({}/{}) of {} gives\n{}instead of {}', kind, up, dn, s, r, O.pclean(want))
    return (kind, up, snap(s), n)


@law('C09', 150)
def space_group(g):
    d = g.choice([1, 2])
    if d == 1:
        N = g.randrange(2, 7)
        lat = qy.lattice.chain(N, periodic=True)
        R, sh = g.choice([(np.array([[1.]]), np.array([float(g.randrange(-1, 2))])), (np.array([[-1.]]), np.array([0.])), (np.array([[-1.]]), np.array([N - 1.]))])
        nums, per = (N,), (N,)
    else:
        N = g.randrange(2, 4)
        lat = qy.lattice.square(N, N, periodic_boundaries=(True, True))
        R = g.choice([np.array([[0., -1.], [1., 0.]]), np.array([[0., 1.], [1., 0.]]), np.array([[-1., 0.], [0., 1.]]), np.eye(2)])
        sh = np.array([float(g.randrange(-1, 2)), float(g.randrange(0, 2))]) if np.allclose(R, np.eye(2)) else np.zeros(2)
    pos = [np.array(p) for p, _, _ in lat]
    perm = []
    for p in pos:
        q = (R.dot(p) + sh)
        j = [k for k, x in enumerate(pos) if np.allclose((x - q) / N - np.round((x - q) / N), 0, atol=1e-6)]
        perm.append(j[0])
    n = len(pos)
    op_type = g.choice(['Pauli', 'Majorana'])
    s = S(op_type, g.string_parts(op_type, list(range(n)), 5))
    t = T(space_group_symmetry(lat, R, sh), perm_act(perm, op_type), 'space group {} {}'.format(R.tolist(), sh))
    r = apply_checked(t, s, op_type)
    check(O.peq(O.op_value(r), t.act(O.os_value(s))), '{} of {} gives\n{}', t.name, s, r)
    return (t.name, N, snap(s))


def word_matrix(vals, words=None):
    words = sorted(set(w for v in vals for w in v), key=repr) if words is None else words
    ix = {w: i for i, w in enumerate(words)}
    M = np.zeros((len(words), len(vals)), dtype=complex)
    for j, v in enumerate(vals):
        for w, c in v.items():
            M[ix[w], j] = c
    return M, words


def null(M, tol=1e-8):
    if M.shape[1] == 0:
        return np.zeros((0, 0), dtype=complex)
    if M.shape[0] == 0:
        return np.eye(M.shape[1], dtype=complex)
    u, s, vh = np.linalg.svd(M)
    r = int((s > tol).sum())
    return vh[r:].conj().T


def same_span(V, W, what, tol=1e-6):
    """Columns of V and W are both linearly independent and span the same space."""
    check(V.shape[1] == W.shape[1], '{}: found {} operators, there are {}', what, V.shape[1], W.shape[1])
    if V.shape[1] == 0:
        return
    rv = np.linalg.matrix_rank(V, tol)
    check(rv == V.shape[1], '{}: the {} vectors found have rank {}', what, V.shape[1], rv)
    Q, _ = np.linalg.qr(W)
    res = V - Q.dot(Q.conj().T.dot(V))
    check(np.abs(res).max() < tol, '{}: a vector found is not in the space (residual {})', what, np.abs(res).max())


def closed_strings(g, op_type, n, perms, tries=3, kmax=3):
    strs, seen = [], set()
    for _ in range(tries):
        ops, labels = g.string_parts(op_type, list(range(n)), kmax)
        todo = [tuple(zip(labels, ops))]
        while todo:
            w = tuple(sorted(todo.pop()))
            if w in seen:
                continue
            seen.add(w)
            strs.append(w)
            for p in perms:
                todo.append([(p[l], o) for l, o in w])
    g.shuffle(strs)
    return Basis([OperatorString([o for _, o in w], [l for l, _ in w], op_type) for w in strs])


NICE = [1.0, -1.0, .5, 2.0, -.5, 1.5, .7, -1.3]


def nice_H(g, op_type, n, tmax=5, kmax=3):
    op = rand_op(g, op_type, list(range(n)), tmax, kmax, cplx=False)
    return Operator(np.array([g.choice(NICE) for _ in op.coeffs]), list(op._basis.op_strings), op_type)


def basis_or_ops(g, op_type, n, B):
    """Either the basis itself, or linearly independent operators in its span."""
    if g.random() < .6 or len(B) == 0:
        return B, [O.os_value(s) for s in B]
    k = g.randrange(1, min(len(B), 5) + 1)
    for _ in range(20):
        M = np.array([[g.choice([0, 0, 1, -1, .5, 2]) for _ in range(k)] for _ in range(len(B))], dtype=float)
        if np.linalg.matrix_rank(M) == k and np.linalg.cond(M) < 30:
            break
    else:
        raise Skip()
    ops = [Operator(M[np.nonzero(M[:, j])[0], j], [B[int(i)] for i in np.nonzero(M[:, j])[0]], op_type) for j in range(k)]
    return ops, [O.op_value(o) for o in ops]


def cond_null(vals, sym, mode, op_type, act=None):
    """Combinations x of the given operators with sum x_j F(v_j) = 0, F the condition."""
    w = O.wmul_for(op_type)
    out = []
    for v in vals:
        if act is None:
            out.append(O.padd(O.pmul(v, sym, w), O.pmul(sym, v, w), -1 if mode == 'commutator' else 1))
        else:
            out.append(O.padd(act(v), v, -1 if mode == 'commutator' else 1))
    M, _ = word_matrix(out)
    return M


@law('C10', 350)
def commuting(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    n = g.randrange(1, 5)
    H = nice_H(g, op_type, n)
    B = rand_basis(g, op_type, list(range(n)), 10) if g.random() < .6 else qy.cluster_basis(min(n, 2), list(range(n)), op_type, include_identity=g.random() < .5)
    basis, vals = basis_or_ops(g, op_type, n, B)
    if len(vals) == 0:
        raise Skip()
    mode = g.choice(['commutator', 'anticommutator'])
    before = snap_op(H)
    vecs = qy.commuting_operators(basis, H, operation_mode=mode)
    check(snap_op(H) == before, 'commuting_operators changed its operator')
    want = null(cond_null(vals, O.op_value(H), mode, op_type))
    what = 'operators {}ing with\n{}in {}'.format(mode, H, [str(x) for x in basis])
    check(vecs.shape[0] == len(vals), 'shape')
    same_span(vecs, want, what)
    r = qy.commuting_operators(basis, H, operation_mode=mode, return_superoperator=True)
    same_span(r[0], want, what + ' (with superoperator)')
    L = cond_null(vals, O.op_value(H), mode, op_type)
    if L.size:
        check(np.allclose(r[1].toarray(), L.conj().T.dot(L), atol=1e-8), 'superoperator of ' + what)
    return (before, mode, len(vals)) if len(H) else None


def trans_case(g):
    op_type = g.choice(['Pauli', 'Majorana', 'Majorana'])
    n = g.randrange(2, 5)
    t = rand_T(g, op_type, n)
    perms = []
    if t.name.startswith('perm'):
        perms = [eval(t.name[4:])]
    B = closed_strings(g, op_type, n, perms, g.randrange(1, 4))
    return op_type, n, t, B


@law('C10', 350)
def invariant(g):
    op_type, n, t, B = trans_case(g)
    if g.random() < .5:
        basis, vals = B, [O.os_value(s) for s in B]
    else:
        # a list of operators whose span is mapped into itself: invertible combinations of all strings
        k = len(B)
        if k > 8:
            raise Skip()
        for _ in range(20):
            M = np.array([[g.choice([0, 0, 1, -1, .5]) for _ in range(k)] for _ in range(k)], dtype=float)
            if abs(np.linalg.det(M)) > .2 and np.linalg.cond(M) < 30:     # (the accuracy of the eigenvalues goes with the condition number)
                break
        else:
            M = np.eye(k)
        basis = [Operator(M[np.nonzero(M[:, j])[0], j], [B[int(i)] for i in np.nonzero(M[:, j])[0]], op_type) for j in range(k)]
        vals = [O.op_value(o) for o in basis]
    mode = g.choice(['commutator', 'anticommutator', 'commute', 'symmetry', 'antisymmetry', 'Anticommute'])
    m = 'anticommutator' if mode.lower().startswith('anti') else 'commutator'
    vecs = qy.invariant_operators(basis, t.real, operation_mode=mode)
    act = t.act
    M = cond_null(vals, None, m, op_type, lambda p: lin_act(act, p, op_type))
    same_span(vecs, null(M), 'operators {} under {} in {}'.format(mode, t.name, [str(x) for x in basis]))
    if len(vals) >= 4:
        k = g.randrange(1, len(vals) - 2)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            few = qy.invariant_operators(basis, t.real, operation_mode=mode, num_vecs=k)
        check(few.shape[1] == min(k, vecs.shape[1]) and np.linalg.norm(M.dot(few)) < 1e-6 * max(1, np.linalg.norm(few)), 'the {} first operators {} under {} in {}: {} vectors of {}', k, mode, t.name, [str(x) for x in basis], few.shape[1], vecs.shape[1])
    check(rejects(lambda: qy.invariant_operators(basis, t.real, operation_mode='both'), ValueError), 'unknown mode not rejected')
    return (t.name, mode, str([snap(s) for s in B]))


def lin_act(act, p, op_type):
    """Complex-linear extension from Hermitian strings (how the library extends a transformation)."""
    r = {}
    for w, c in p.items():
        pre = 1.0
        if op_type == 'Majorana':
            k = len(w)
            pre = 1j if (k * (k - 1) // 2) % 2 else 1.0
        r = O.padd(r, act({w: pre}), complex(c) / pre)
    return r


@law('C09', 300)
def symmetry_matrices(g):
    op_type, n, t, B = trans_case(g)
    if g.random() < .2:
        B = rand_basis(g, op_type, list(range(n)))       # not closed
        M = qy.symmetry_matrix(B, t.real).toarray()
        check(M.shape == (len(B), len(B)), 'shape')
        for j, s in enumerate(B):
            img = t.act(O.os_value(s))
            for i, q in enumerate(B):
                want = O.trace_inner(O.os_value(q), img, op_type)
                check(abs(M[i, j] - want) < 1e-9, 'symmetry matrix entry {},{} of {} is {} instead of {}', i, j, t.name, M[i, j], want)
        return (t.name, len(B), 'open')
    basis, vals = B, [O.os_value(s) for s in B]
    if g.random() < .4 and 0 < len(B) <= 8:
        k = len(B)
        M0 = np.eye(k) + np.triu(np.array([[g.choice([0, 0, 1, -.5]) for _ in range(k)] for _ in range(k)], dtype=float), 1)
        basis = [Operator(M0[np.nonzero(M0[:, j])[0], j], [B[int(i)] for i in np.nonzero(M0[:, j])[0]], op_type) for j in range(k)]
        vals = [O.op_value(o) for o in basis]
    M = qy.symmetry_matrix(basis, t.real)
    M = M.toarray() if ss.issparse(M) else M
    check(M.shape == (len(vals), len(vals)), 'shape {}', M.shape)
    for j, v in enumerate(vals):
        got = {}
        for i in range(len(vals)):
            got = O.padd(got, vals[i], M[i, j])
        want = lin_act(t.act, v, op_type)
        check(O.peq(got, want, 1e-7), 'column {} of the symmetry matrix of {} represents {} instead of {}', j, t.name, O.pclean(got, 1e-7), O.pclean(want))
    return (t.name, str([snap(s) for s in B]))


# -------------------------------------------------------------------------- C11
@law('C11', 250)
def generator(g):
    op_type = g.choice(['Pauli', 'Majorana', 'Majorana'])
    n = g.randrange(2, 5)
    nsym = g.randrange(1, 4) if g.random() < .85 else g.randrange(4, 6)
    syms, perms = [], []
    for _ in range(nsym):
        if g.random() < .5:
            H = nice_H(g, op_type, n, 3, 2)
            if not len(H):
                H = Operator(np.array([1.0]), [S(op_type, ([OPS[op_type][0]], [0]))], op_type)
            syms.append((H, O.op_value(H), None, str(H)))
        else:
            t = rand_T(g, op_type, n)
            if t.name.startswith('perm'):
                perms.append(eval(t.name[4:]))
            syms.append((t.real, None, t.act, t.name))
    if g.random() < .4 and n <= 3:
        B = qy.cluster_basis(min(n, 2), list(range(n)), op_type)
        B = Basis(g.sample(list(B.op_strings), len(B)))
    else:
        B = closed_strings(g, op_type, n, perms, g.randrange(1, 4), 2)
    if len(B) < 2 or len(B) > 40:
        raise Skip()
    vals = [O.os_value(s) for s in B]
    mode = g.choice(['cumulative', 'noncumulative'])
    gen = qy.SymmetricOperatorGenerator(B)
    modes = []
    for (real, v, act, name) in syms:
        m = g.choice(['commutator', 'commutator', 'anticommutator'])
        modes.append(m)
        gen.add_symmetry(real, operation_mode=m)
    # exact answers
    spaces = []
    M = np.zeros((0, len(B)), dtype=complex)
    for (real, v, act, name), m in zip(syms, modes):
        M = np.vstack([M, cond_null(vals, v, m, op_type, None if act is None else (lambda p, act=act: lin_act(act, p, op_type)))])
        spaces.append(null(M))
    if mode == 'noncumulative' and any(s.shape[1] == 0 for s in spaces):
        raise Skip()        # empty intersections are not representable by the dense helpers
    if mode == 'noncumulative':
        for (real, v, act, name), m in zip(syms, modes):
            if null(cond_null(vals, v, m, op_type, None if act is None else (lambda p, act=act: lin_act(act, p, op_type)))).shape[1] == 0:
                raise Skip()
    kw = dict(sparsification=g.random() < .6, orthogonalization=g.random() < .3, verbose=False)
    if g.random() < .3:
        kw = dict(verbose=False)
    what = '{} generation from {} with {} {}'.format(mode, [s[3] for s in syms], modes, kw)
    sb = snap_basis(B)
    gen.generate(mode=mode, **kw)
    check(snap_basis(B) == sb, '{} changed the basis', what)
    out = gen.projected_output_operators
    for k in range(len(syms)):
        if k >= len(out):
            check(spaces[k].shape[1] == 0, '{}: stage {} is missing', what, k + 1)
            continue
        if mode == 'cumulative':
            V = np.zeros((len(B), len(out[k])), dtype=complex)
            for j, o in enumerate(out[k]):
                for c, s in o:
                    V[B.index(s), j] = c
        else:
            V = np.asarray(out[k])
        if spaces[k].shape[1] == 0 and V.shape[1] == 0:
            continue
        same_span(V, spaces[k], '{}: stage {} over {}'.format(what, k + 1, [str(s) for s in B]), 1e-5)
    return (mode, str(kw), what, sb)


@law('C11', 20)
def generator_rejects(g):
    B = qy.cluster_basis(1, [0, 1], 'Pauli')
    gen = qy.SymmetricOperatorGenerator(B)
    gen.add_symmetry('not a symmetry')
    check(rejects(lambda: gen.generate(mode=g.choice(['cumulative', 'noncumulative']), verbose=False), ValueError), 'invalid symmetry not rejected')
    check(rejects(lambda: gen.generate(mode='other'), ValueError), 'invalid mode not rejected')
    return g.index


# -------------------------------------------------------------------------- C12
def group_closure(perms, n):
    G = {tuple(range(n))}
    todo = list(G)
    while todo:
        x = todo.pop()
        for p in perms:
            y = tuple(p[i] for i in x)
            if y not in G:
                G.add(y)
                todo.append(y)
    return G


@law('C12', 350)
def symmetrize_basis_law(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    n = g.randrange(2, 6)
    perms = []
    for _ in range(g.randrange(1, 4)):
        p = list(range(n))
        r = g.random()
        if r < .3:
            p = p[1:] + p[:1]
        elif r < .5:
            i, j = g.randrange(n), g.randrange(n)
            p[i], p[j] = p[j], p[i]
        else:
            g.shuffle(p)
        perms.append(p)
    if g.random() < .12:             # many generators
        n = g.randrange(4, 6)
        perms = []
        for i in range(n - 1):
            p = list(range(n))
            p[i], p[i + 1] = p[i + 1], p[i]
            perms.append(p)
        perms += [list(range(n)), perms[0]][:g.randrange(0, 3)]
        g.shuffle(perms)
    B = closed_strings(g, op_type, n, perms, g.randrange(1, 4), 3)
    if g.random() < .2 and n < 5:
        B = qy.cluster_basis(2, list(range(n)), op_type)
    if len(B) > 150:
        raise Skip()
    gens = [label_permutation(np.array(p) if g.random() < .5 else list(p)) for p in perms]
    sb = snap_basis(B)
    out = qy.symmetrize_basis(B, gens)
    check(snap_basis(B) == sb, 'symmetrize_basis changed the basis')
    what = 'symmetrizing {} under {}'.format([str(s) for s in B], perms)
    vals = [O.os_value(s) for s in B]
    conds = []
    for v in vals:
        col = {}
        for k, p in enumerate(perms):
            d = O.padd(perm_act(p, op_type)(v), v, -1)
            for w, c in d.items():
                col[(k, w)] = c
        conds.append(col)
    M, _ = word_matrix(conds)
    space = null(M)
    V = np.zeros((len(B), len(out)), dtype=complex)
    used = set()
    for j, o in enumerate(out):
        check(abs(np.linalg.norm(o.coeffs) - 1) < 1e-9, '{}: operator {} is not normalized', what, o)
        for c, s in o:
            check(s in B, '{}: string {} is not in the basis', what, s)
            k = snap(s)
            check(k not in used, '{}: string {} appears twice', what, s)
            used.add(k)
            V[B.index(s), j] = c
    same_span(V, space, what)
    return (op_type, str(perms), len(B))


@law('C12', 60)
def symmetrize_lattice_law(g):
    d = g.choice([1, 2, 2, 2, 3])
    hexa = d == 2 and g.random() < .3
    names = [[''], ['s'], ['s', 'p'], ['Up', 'Dn']]
    if hexa:
        vecs = [np.array([1., 0.]), np.array([.5, np.sqrt(3) / 2])]
        R = lambda a: np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        allg = [R(np.pi / 3), R(2 * np.pi / 3), R(np.pi), np.array([[1., 0.], [0., -1.]])]
    else:
        vecs = [np.eye(d)[i].copy() for i in range(d)]
        allg = [-np.eye(d)]
        if d >= 2:
            m = np.eye(d); m[0, 0] = -1
            sw = np.eye(d); sw[[0, 1]] = sw[[1, 0]]
            rot = np.eye(d); rot[0, 0] = rot[1, 1] = 0; rot[0, 1] = -1; rot[1, 0] = 1
            allg += [m, sw, rot]
        if d == 3:
            allg += [np.roll(np.eye(3), 1, axis=0)]
    gens = g.sample(allg, g.randrange(1, min(3, len(allg)) + 1))
    uc = qy.lattice.UnitCell([v.copy() for v in vecs])
    atoms = []
    orbs0 = list(g.choice(names))      # equivalent atoms carry the same orbitals
    other = g.choice([None, ['d'], ['d', 'f']])
    for _ in range(g.randrange(1, 3)):
        frac = [g.choice([0, 0, .5, .25]) for _ in range(d)]
        pos = sum((f * v for f, v in zip(frac, vecs)), np.zeros(d))
        if any(np.allclose(pos, q) for q, _ in atoms):
            continue
        # ... or none in common
        atoms.append((pos, list(orbs0) if not atoms or not other else list(other)))
        uc.add_atom(pos.copy(), list(atoms[-1][1]))
    lat = qy.lattice.Lattice(uc, (1,) * d, periodic_boundaries=(True,) * d)
    before = [(tuple(p), n) for p, n, _ in lat]
    new = qy.symmetrize_lattice(lat, [x.copy() for x in gens])
    check([(tuple(p), n) for p, n, _ in lat] == before and all(np.allclose(a, b) for a, b in zip(lat.unit_cell.lattice_vectors, vecs)), 'the input lattice changed')
    V = np.array(new.unit_cell.lattice_vectors).T
    inv = np.linalg.inv(V)

    def eq(p, q):
        f = inv.dot(np.array(p) - np.array(q))
        return np.abs(f - np.round(f)).max() < 1e-6
    orbs = [(np.array(p), n) for p, n, _ in new]
    what = 'symmetrizing {} under {}'.format(atoms, [x.tolist() for x in gens])
    for i, (p, n) in enumerate(orbs):
        for q, m in orbs[:i]:
            check(not (n == m and eq(p, q)), '{}: orbital {} at {} appears twice', what, n, p)
        for x in gens:
            check(any(n == m and eq(x.dot(p), q) for q, m in orbs), '{}: the image of orbital {} at {} is missing', what, n, p)
    for p, ns in atoms:
        for n in ns:
            for sh in it.product([0, 1], repeat=d):
                q0 = p + sum((k * v for k, v in zip(sh, vecs)), np.zeros(d))
                check(any(n == m and eq(q0, q) for q, m in orbs), '{}: original orbital {} at {} is missing', what, n, q0)
    return what


# -------------------------------------------------------------------------- C13
def expected_cluster(labels, ks, op_type):
    labels = sorted(labels)
    out = set()
    if op_type != 'Fermion':
        for k in ks:
            if 1 <= k <= len(labels):
                for ls in it.combinations(labels, k):
                    for ops in it.product(OPS[op_type], repeat=k):
                        out.add((op_type, ops, ls))
        return out
    subsets = [c for k in range(len(labels) + 1) for c in it.combinations(labels, k)]
    for cd in subsets:
        if len(cd) not in ks or len(cd) == 0:
            continue
        for cc in subsets:
            if (len(cc), cc) > (len(cd), cd):
                continue
            ops = ('CDag',) * len(cd) + ('C',) * len(cc)
            ls = cd + cc[::-1]
            out.add((op_type, ops, ls, complex(1)))
            if cc != cd:
                out.add((op_type, ops, ls, 1j))
    return out


def got_cluster(B, op_type):
    out = []
    for s in B:
        k = (s.op_type, tuple(str(o) for o in s.orbital_operators), tuple(int(l) for l in s.orbital_labels))
        if op_type == 'Fermion' and len(k[1]):
            k += (complex(s.prefactor),)
        elif op_type != 'Fermion':
            canonical(s, 'generated basis')
        out.append(k)
    return out


def draw_k(g, m):
    r = g.random()
    if r < .6:
        k = g.randrange(1, m + 2)
        return k, set(range(1, k + 1))
    ks = g.subset(range(0, m + 2), g.randrange(1, m + 1))
    if max(ks) == 0:
        ks = [1]
    if r < .8:
        g.shuffle(ks)
        return list(ks), set(ks)
    return np.array(ks), set(ks)


@law('C13', 250)
def cluster(g):
    op_type = g.choice(list(OPS))
    m = g.randrange(1, 5 if op_type != 'Fermion' else 5)
    labels = g.subset(g.label_pool(), m)
    if not labels:
        raise Skip()
    m = len(labels)
    k, ks = draw_k(g, m)
    if op_type == 'Fermion' and m > 3:
        k, ks = min(m, 2), {1, 2}
        if g.random() < .25:
            k, ks = g.choice([(3, {1, 2, 3}), ([3], {3}), ([1, 3], {1, 3})])
    if op_type == 'Majorana' and g.random() < .08:
        labels = g.subset(range(12), g.randrange(6, 9))
        m = len(labels)
        k = [4] if g.random() < .5 else [1, 3]
        ks = set(k)
    g.shuffle(labels)
    inc = g.random() < .4
    given = list(labels) if g.random() < .7 else np.array(labels)
    before = list(given)
    B = qy.cluster_basis(k, given, op_type, include_identity=inc)
    check(list(given) == before, 'cluster_basis changed the labels')
    check_basis(B, 'cluster basis')
    got = got_cluster(B, op_type)
    want = expected_cluster(labels, ks, op_type)
    ident = (op_type, (), ())
    if inc:
        want = want | {ident}
    check(len(set(got)) == len(got), 'cluster_basis({}, {}, {}) repeats a string', k, labels, op_type)
    check(set(got) == want, 'cluster_basis({}, {}, {}): missing {}, unexpected {}', k, labels, op_type, sorted(want - set(got), key=repr)[:4], sorted(set(got) - want, key=repr)[:4])
    return (str(k), tuple(labels), op_type, inc)


@law('C13', 120)
def distance(g):
    op_type = g.choice(['Pauli', 'Majorana', 'Pauli', 'Fermion'])
    r = g.random()
    if r < .4:
        lat = qy.lattice.chain(g.randrange(2, 7), periodic=g.random() < .5)
    elif r < .7:
        lat = qy.lattice.square(g.randrange(2, 4), 2, periodic_boundaries=(g.random() < .5, False))
    elif r < .85:
        lat = qy.lattice.kagome(2, 1, periodic_boundaries=(g.random() < .5, False), orbital_names=[''])
    else:
        lat = qy.lattice.chain(g.randrange(2, 4), orbital_names=['Up', 'Dn'])
    n = len(lat)
    R = g.choice([0.0, .5, 1.0, np.sqrt(2), 1.5, 2.0, 3.0])
    k, ks = draw_k(g, 2)
    if op_type == 'Fermion':
        k, ks = 1, {1}
    allowed = None if g.random() < .6 else g.subset(range(n), g.randrange(1, n + 1))
    kw = {} if allowed is None else {'allowed_orbitals': list(allowed)}
    inc = g.random() < .4
    B = qy.distance_basis(lat, k, R, op_type, include_identity=inc, **kw)
    check_basis(B, 'distance basis')
    al = list(range(n)) if allowed is None else allowed
    D = np.zeros((n, n))
    P = [np.array(p) for p, _, _ in lat]
    shifts = [np.zeros(lat.dim)]
    for i in range(lat.dim):
        if lat.periodic_boundaries[i]:
            v = lat.num_cells[i] * np.array(lat.unit_cell.lattice_vectors[i])
            shifts = [s + z * v for s in shifts for z in (-1, 0, 1)]
    for i in range(n):
        for j in range(n):
            D[i, j] = min(np.linalg.norm(P[i] - P[j] + s) for s in shifts)
    want = set()
    kmax = max(ks)
    for size in range(1, min(len(al), kmax * (2 if op_type == 'Fermion' else 1)) + 1):
        for c in it.combinations(al, size):
            if all(D[i, j] <= R + 1e-10 for i, j in it.combinations(c, 2)):
                want |= expected_cluster(c, ks, op_type)
    if inc and al:
        want |= {(op_type, (), ())}
    got = got_cluster(B, op_type)
    check(set(got) == want and len(set(got)) == len(got), 'distance_basis(n={}, k={}, R={}, {}, allowed={}): missing {}, unexpected {}', n, k, R, op_type, allowed, sorted(want - set(got), key=repr)[:4], sorted(set(got) - want, key=repr)[:4])
    return (n, str(k), R, op_type, str(allowed), inc)
