"""Independent exact oracles for qosy (used by the bounded search / replay layer).

Nothing here imports qosy: strings are passed in as (op_type, prefactor, ops,
labels) tuples or read off the attributes of real objects.

Pauli algebra     : polynomials over canonical Pauli words ((label, op), ...) sorted by label.
Fermion algebra   : polynomials over canonical Majorana monomials (sorted tuples of
                    gamma indices, gamma_{2l} = a_l, gamma_{2l+1} = b_l, gamma^2 = 1).
All coefficients are Python complex numbers; a polynomial is a dict word -> coeff.
"""
import itertools

_PM = {}
for (_a, _b, _c) in ('XYZ', 'YZX', 'ZXY'):
    _PM[(_a, _b)] = (1j, _c)
    _PM[(_b, _a)] = (-1j, _c)


# ---------------------------------------------------------------- Pauli words
def pauli_word_mul(u, v):
    d = dict(u)
    coeff = 1
    for (lab, op) in v:
        if lab in d:
            if d[lab] == op:
                del d[lab]
            else:
                (c, o) = _PM[(d[lab], op)]
                coeff *= c
                d[lab] = o
        else:
            d[lab] = op
    return coeff, tuple(sorted(d.items()))


# ------------------------------------------------------------- gamma monomials
def gamma_word(seq):
    """Sign and canonical form of the product gamma_{s1} gamma_{s2} ..."""
    out = []
    sign = 1
    for g in seq:
        # insert g at the right end, moving left past larger indices
        k = len(out)
        while k > 0 and out[k - 1] > g:
            k -= 1
        if (len(out) - k) % 2:
            sign = -sign
        if k > 0 and out[k - 1] == g:
            out.pop(k - 1)
        else:
            out.insert(k, g)
    return sign, tuple(out)


def gamma_word_mul(u, v):
    return gamma_word(tuple(u) + tuple(v))


# ----------------------------------------------------------------- polynomials
def padd(p, q, s=1):
    r = dict(p)
    for w, c in q.items():
        r[w] = r.get(w, 0) + s * c
    return r


def pscale(p, s):
    return {w: s * c for w, c in p.items()}


def pclean(p, tol=1e-9):
    return {w: c for w, c in p.items() if abs(c) > tol}


def pdist(p, q):
    d = padd(p, q, -1)
    return max([abs(c) for c in d.values()] or [0.0])


def peq(p, q, tol=1e-9):
    return pdist(p, q) <= tol


def pmul(p, q, wmul):
    r = {}
    for u, a in p.items():
        for v, b in q.items():
            s, w = wmul(u, v)
            r[w] = r.get(w, 0) + a * b * s
    return r


def wmul_for(op_type):
    return pauli_word_mul if op_type == 'Pauli' else gamma_word_mul


def pdag_gamma(p):
    r = {}
    for w, c in p.items():
        s, w2 = gamma_word(tuple(reversed(w)))
        r[w2] = r.get(w2, 0) + complex(c).conjugate() * s
    return r


def pdag_pauli(p):
    return {w: complex(c).conjugate() for w, c in p.items()}


def pdag(p, op_type):
    return pdag_pauli(p) if op_type == 'Pauli' else pdag_gamma(p)


ONE = {(): 1}


# ------------------------------------------------------------ value of strings
def A(l):
    return {(2 * l,): 1}


def B(l):
    return {(2 * l + 1,): 1}


def D(l):
    return {(2 * l, 2 * l + 1): -1j}


def C(l):
    return {(2 * l,): 0.5, (2 * l + 1,): 0.5j}


def CDAG(l):
    return {(2 * l,): 0.5, (2 * l + 1,): -0.5j}


_GENS = {'A': A, 'B': B, 'D': D, 'C': C, 'CDag': CDAG}


def raw_value(op_type, ops, labels):
    """Product of the listed orbital operators, in the listed order."""
    ops = [str(o) for o in ops]
    labels = [int(l) for l in labels]
    if op_type == 'Pauli':
        coeff, w = 1, ()
        for o, l in zip(ops, labels):
            c, w = pauli_word_mul(w, ((l, o),))
            coeff *= c
        return {w: coeff}
    if op_type == 'Majorana':
        coeff = 1
        seq = []
        for o, l in zip(ops, labels):
            if o == 'A':
                seq.append(2 * l)
            elif o == 'B':
                seq.append(2 * l + 1)
            else:
                coeff *= -1j
                seq += [2 * l, 2 * l + 1]
        s, w = gamma_word(seq)
        return {w: coeff * s}
    p = dict(ONE)
    for o, l in zip(ops, labels):
        p = pmul(p, _GENS[o](l), gamma_word_mul)
    return p


def string_value(op_type, prefactor, ops, labels):
    """The operator an OperatorString denotes (with '+ H.c.' for Fermion types 2, 3)."""
    p = pscale(raw_value(op_type, ops, labels), complex(prefactor))
    if op_type == 'Fermion':
        ops = [str(o) for o in ops]
        labels = [int(l) for l in labels]
        cd = [l for o, l in zip(ops, labels) if o == 'CDag']
        cc = [l for o, l in zip(ops, labels) if o == 'C']
        if cd != cc[::-1]:
            p = padd(p, pdag_gamma(p))
    return p


def os_value(os):
    return string_value(os.op_type, os.prefactor, os.orbital_operators, os.orbital_labels)


def coeff_os_value(pair):
    """Value of the (coeff, OperatorString-or-None) pairs the algebra functions return."""
    (c, os) = pair
    if os is None:
        if c != 0:
            return None
        return {}
    return pscale(os_value(os), complex(c))


def op_value(op):
    r = {}
    for (c, os) in zip(list(op.coeffs), list(op._basis.op_strings)):
        r = padd(r, os_value(os), complex(c))
    return r


# ---------------------------------------------------------------- Jordan-Wigner
def gamma_to_pauli(p):
    r = {}
    for w, c in p.items():
        coeff, word = c, ()
        for g in w:
            l = g // 2
            v = tuple((k, 'Z') for k in range(l)) + ((l, 'X' if g % 2 == 0 else 'Y'),)
            s, word = pauli_word_mul(word, v)
            coeff = coeff * s
        r[word] = r.get(word, 0) + coeff
    return r


def to_pauli(p, op_type):
    return p if op_type == 'Pauli' else gamma_to_pauli(p)


# ------------------------------------------------------------------ dense maps
def pauli_dense(p, n):
    """Matrix on n orbitals; orbital 0 is the most significant bit."""
    import numpy as np
    M = {'I': np.eye(2, dtype=complex), 'X': np.array([[0, 1], [1, 0]], dtype=complex),
         'Y': np.array([[0, -1j], [1j, 0]], dtype=complex), 'Z': np.diag([1.0 + 0j, -1.0])}
    R = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for w, c in p.items():
        d = dict(w)
        m = np.array([[1.0 + 0j]])
        for l in range(n):
            m = np.kron(m, M[d.get(l, 'I')])
        R += c * m
    return R


def trace_inner(p, q, op_type):
    """tr(p^dag q)/tr(I) for polynomials in an orthonormal word basis."""
    return sum(complex(p[w]).conjugate() * q[w] for w in p if w in q)
