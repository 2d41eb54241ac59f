"""Laws for C01-C08 (strings, bases, operators, conversions, brackets)."""
import copy, itertools as it
import warnings
import numpy as np, scipy.sparse as ss
import qosy as qy
from qosy import OperatorString, Basis, Operator
from qosy.algebra import product, commutator, anticommutator
import oracle as O
from base import law, check, rejects, Bad, Skip, OPS

MODES = {'product': product, 'commutator': commutator, 'anticommutator': anticommutator}


def S(op_type, parts, npy=False):
    ops, labels = parts
    if npy:
        return OperatorString(np.array(ops, dtype=str), np.array(labels, dtype=int), op_type)
    return OperatorString(list(ops), list(labels), op_type)


def snap(s):
    return (s.op_type, complex(s.prefactor), tuple(str(o) for o in s.orbital_operators), tuple(int(l) for l in s.orbital_labels))


def snap_op(o):
    return (o.op_type, tuple(complex(c) for c in o.coeffs), tuple(snap(s) for s in o._basis.op_strings),
            tuple(sorted(((snap(k), v) for k, v in o._basis._indices.items()), key=repr)))


def snap_basis(b):
    return (tuple(snap(s) for s in b.op_strings), tuple(sorted(((snap(k), v) for k, v in b._indices.items()), key=repr)))


def key_of(s):
    return (s.op_type, complex(s.prefactor), tuple(str(o) for o in s.orbital_operators), tuple(int(l) for l in s.orbital_labels))


def check_basis(b, what='basis'):
    """The basis is a faithful ordered set."""
    strings = [b[i] for i in range(len(b))]
    keys = [snap(s) for s in strings]
    check(len(set(keys)) == len(keys), '{} holds a string twice: {}', what, keys)
    check([snap(s) for s in b] == keys, '{}: iteration and indexing disagree', what)
    for i, s in enumerate(strings):
        check(s in b, '{}: element {} is not a member', what, keys[i])
        check(b.index(s) == i, '{}: index of element {} is {}, expected {}', what, keys[i], b.index(s), i)
    return keys


def canonical(s, what):
    labels = [int(l) for l in s.orbital_labels]
    check(all(a < b for a, b in zip(labels, labels[1:])), '{}: labels {} are not increasing', what, labels)
    check(len(labels) == len(s.orbital_operators), '{}: lengths differ', what)
    check(all(str(o) in OPS[s.op_type] for o in s.orbital_operators), '{}: bad factors {}', what, s.orbital_operators)
    want = 1.0
    if s.op_type == 'Majorana':
        n = sum(1 for o in s.orbital_operators if str(o) in 'AB')
        want = 1j if (n * (n - 1) // 2) % 2 else 1.0
    check(s.prefactor == want, '{}: prefactor {} of {} should be {}', what, s.prefactor, s, want)


def pair_case(g, op_type):
    pool = g.label_pool()
    if g.index < 60:
        pool = list(range(3))
    a = g.string_parts(op_type, pool)
    r = g.random()
    if r < .12:
        b = (list(a[0]), list(a[1]))
    elif r < .3 and a[1]:
        b = ([g.choice(OPS[op_type]) for _ in a[0]], list(a[1]))
    else:
        b = g.string_parts(op_type, pool)
    return a, b


def check_bracket(op_type, a, b, mode, npy=False, alias=False):
    A = S(op_type, a, npy)
    B = A if alias else S(op_type, b, npy)
    sa, sb = snap(A), snap(B)
    va, vb = O.os_value(A), O.os_value(B)
    w = O.wmul_for(op_type)
    ab, ba = O.pmul(va, vb, w), O.pmul(vb, va, w)
    want = ab if mode == 'product' else O.padd(ab, ba, -1 if mode == 'commutator' else 1)
    want = O.pclean(want)
    coeff, C = MODES[mode](A, B)
    what = '{} of {} and {}'.format(mode, A, B)
    check(snap(A) == sa and snap(B) == sb, '{} changed an input', what)
    if C is None:
        check(coeff == 0, '{}: no string but coefficient {}', what, coeff)
        check(not want, '{} should be {} but vanishes', what, want)
        return
    check(C.op_type == op_type, '{}: type {}', what, C.op_type)
    canonical(C, what)
    check(bool(want), '{} vanishes, but ({}, {}) was returned', what, coeff, C)
    got = O.pscale(O.os_value(C), complex(coeff))
    check(O.peq(got, want), '{}: returned ({}) {} but the exact value is {}', what, coeff, C, want)


@law('C01', 2500)
def pauli_bracket(g):
    a, b = pair_case(g, 'Pauli')
    m = g.choice(list(MODES))
    check_bracket('Pauli', a, b, m, g.random() < .3, a == b and g.random() < .5)
    return (m, str(a), str(b)) if a[0] and b[0] else None


@law('C01', 3500)
def majorana_bracket(g):
    a, b = pair_case(g, 'Majorana')
    m = g.choice(list(MODES))
    check_bracket('Majorana', a, b, m, g.random() < .3, a == b and g.random() < .5)
    return (m, str(a), str(b)) if a[0] and b[0] else None


_SMALL = {}


def small_strings(op_type, n):
    if (op_type, n) not in _SMALL:
        out = []
        for ops in it.product(('',) + OPS[op_type], repeat=n):
            out.append(([o for o in ops if o], [i for i, o in enumerate(ops) if o]))
        _SMALL[(op_type, n)] = out
    return _SMALL[(op_type, n)]


@law('C01', 128)
def exhaustive_small(g):
    """All pairs of strings on 3 labels (64 x 64), both types, three modes, 64 pairs per case."""
    op_type = ('Pauli', 'Majorana')[(g.index // 64) % 2]
    strs = small_strings(op_type, 3)
    a = strs[g.index % 64]
    for b in strs:
        for m in MODES:
            check_bracket(op_type, a, b, m)
    return (op_type, g.index % 64)


@law('C01', 60)
def fermion_rejected(g):
    A = OperatorString(['CDag', 'C'], [g.randrange(4), g.randrange(4)], 'Fermion')
    B = OperatorString(['CDag', 'C'], [g.randrange(4), g.randrange(4)], 'Fermion')
    for m in MODES:
        check(rejects(lambda: MODES[m](A, B)), '{} of Fermion strings {} and {} was not rejected', m, A, B)
        check(rejects(lambda: MODES[m](A, 3.0)), '{} of a string and a number was not rejected', m)
    return str(A) + str(B)


# -------------------------------------------------------------------------- C02
def rand_op(g, op_type, pool=None, tmax=5, kmax=None, cplx=True, strings=None):
    pool = g.label_pool() if pool is None else pool
    n = g.randrange(0, tmax + 1)
    seen, strs = set(), []
    for _ in range(n):
        p = g.choice(strings) if strings and g.random() < .6 else g.string_parts(op_type, pool, kmax)
        k = str(p)
        if k not in seen:
            seen.add(k)
            strs.append(S(op_type, p))
    cs = [g.cplx() if cplx else g.real() for _ in strs]
    return Operator(np.array(cs, dtype=complex), strs, op_type)


def scale_of(*ps):
    m = 1.0
    for p in ps:
        m *= max([abs(c) for c in p.values()] or [1.0])
    return max(m, 1e-300)


@law('C02', 900)
def operator_bracket(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    pool = g.label_pool()[:g.randrange(1, 7)]
    A = rand_op(g, op_type, pool)
    B = A if g.random() < .15 else rand_op(g, op_type, pool)
    unit = 1.0
    r = g.random()
    if r < .05:                      # many terms
        A, B = rand_op(g, op_type, pool, 16), rand_op(g, op_type, pool, 16)
    elif r < .12:                    # small, but far from vanishing
        unit = 10.0 ** g.randrange(-6, -2)
        A, B = rand_op(g, op_type, pool), rand_op(g, op_type, pool)
        A = Operator([unit * g.choice([1, -1, 2, 1j, .5 - 1j]) for _ in A.coeffs], list(A._basis.op_strings), op_type)
        B = Operator([unit * g.choice([1, -1, 2, 1j, .5 - 1j]) for _ in B.coeffs], list(B._basis.op_strings), op_type)
    mode = g.choice(list(MODES))
    sa, sb = snap_op(A), snap_op(B)
    va, vb = O.op_value(A), O.op_value(B)
    w = O.wmul_for(op_type)
    ab, ba = O.pmul(va, vb, w), O.pmul(vb, va, w)
    want = ab if mode == 'product' else O.padd(ab, ba, -1 if mode == 'commutator' else 1)
    C = MODES[mode](A, B)
    what = '{} of operators\n{}and\n{}'.format(mode, A, B)
    check(isinstance(C, Operator), '{} did not return an operator', what)
    check(snap_op(A) == sa and snap_op(B) == sb, '{} changed an input', what)
    check(C.op_type == op_type, '{}: type {}', what, C.op_type)
    check_basis(C._basis, what)
    check(len(C.coeffs) == len(C._basis), '{}: lengths', what)
    for s in C._basis:
        canonical(s, what)
    got = O.op_value(C)
    check(O.peq(got, want, 1e-9 * max(1.0, scale_of(va, vb)) + 1e-12 if unit == 1.0 else 1e-5 * unit ** 2 + 2e-15), '{}gives\n{}but exactly it is {}', what, C, O.pclean(want))
    # only strings produced by some non-vanishing pair of terms may appear
    made = set()
    for (ca, p) in A:
        for (cb, q) in B:
            if abs(ca * cb) > 1e-17:
                u, v = O.os_value(p), O.os_value(q)
                x = O.pmul(u, v, w)
                if mode != 'product':
                    x = O.padd(x, O.pmul(v, u, w), -1 if mode == 'commutator' else 1)
                made |= set(O.pclean(x))
    for s in C._basis:
        word = next(iter(O.pclean(O.os_value(s))))
        check(word in made, '{}: returned a term {} that no pair of terms produces', what, s)
    return (mode, str(sa), str(sb)) if len(A) and len(B) else None


@law('C02', 80)
def operator_bracket_rejects(g):
    A = rand_op(g, 'Pauli', [0, 1, 2], 2)
    B = rand_op(g, 'Majorana', [0, 1, 2], 2)
    s = S('Pauli', g.string_parts('Pauli', [0, 1]))
    for m in MODES:
        check(rejects(lambda: MODES[m](A, B)), '{} of a Pauli and a Majorana operator was not rejected', m)
        check(rejects(lambda: MODES[m](A, s)), '{} of an operator and a string was not rejected', m)
        check(rejects(lambda: MODES[m](s, A)), '{} of a string and an operator was not rejected', m)
    return snap_op(A), snap_op(B)


# -------------------------------------------------------------------------- C03
def fermion_parts(g, pool, kmax=4, allow_empty=True):
    k = g.randrange(0, kmax + 1)
    cd = g.subset(pool, k)
    cc = list(cd) if g.random() < .3 else g.subset(pool, g.randrange(0, kmax + 1))
    return cd, cc


@law('C03', 1500)
def construct(g):
    op_type = g.choice(list(OPS))
    pool = g.label_pool()
    if op_type == 'Fermion':
        cd, cc = fermion_parts(g, pool)
        ops, labels = ['CDag'] * len(cd) + ['C'] * len(cc), cd + cc[::-1]
    else:
        ops, labels = g.string_parts(op_type, pool, None if g.random() < .8 else 14)
    n = sum(1 for o in ops if o in 'AB') if op_type == 'Majorana' else 0
    fixed = 1j if (n * (n - 1) // 2) % 2 else 1.0
    kw = {}
    if g.random() < .5:
        kw['prefactor'] = g.choice([1, 1.0, 1j, complex(1.0), complex(0, 1), -1, -1j, 2, 0, .5, 1 + 1j, 0.0])
    given = kw.get('prefactor', 1.0)
    as_array = g.random() < .3
    mk = lambda: OperatorString(np.array(ops, dtype=str) if as_array else list(ops), np.array(labels, dtype=int) if as_array else list(labels), op_type, **kw)
    what = 'OperatorString({}, {}, {}, {})'.format(ops, labels, op_type, kw)
    if given not in (1, 1j) and not (op_type == 'Majorana' and fixed == 1j):
        check(rejects(mk, ValueError), '{} should be rejected', what)
        return what
    if op_type == 'Pauli' and given == 1j:
        check(rejects(mk, ValueError), '{} should be rejected', what)
        return what
    s = mk()
    check([str(o) for o in s.orbital_operators] == list(ops) and [int(x) for x in s.orbital_labels] == list(labels) and s.op_type == op_type, '{} stores something else', what)
    want = given if op_type == 'Fermion' else fixed
    check(s.prefactor == want, '{} has prefactor {} but should have {}', what, s.prefactor, want)
    v = O.os_value(s)
    if op_type != 'Fermion':
        sq = O.pmul(v, v, O.wmul_for(op_type))
        check(O.peq(sq, {(): 1}), '{} does not square to the identity', what)
        check(O.peq(O.pdag(v, op_type), v), '{} is not Hermitian', what)
    # two constructions of the same value
    t = OperatorString(list(ops), list(labels), op_type, prefactor=complex(want) if op_type == 'Fermion' else 1.0)
    check(s == t and not (s != t) and hash(s) == hash(t), '{}: equal strings differ or hash differently', what)
    check(str(s) == str(t), '{}: equal strings print differently: {} / {}', what, s, t)
    if ops:
        r = qy.opstring(str(s))
        check(r == s and r.op_type == s.op_type and r.prefactor == s.prefactor and hash(r) == hash(s), '{}: printing and parsing gives {}', what, r)
        r = qy.opstring(str(s), op_type)
        check(r == s, '{}: parsing with the type gives {}', what, r)
        name = ' '.join('{} {}'.format(o, l) for o, l in zip(ops, labels))
        if op_type != 'Fermion' or want == 1:
            r = qy.opstring('  ' + name + ' ')
            check(r == s and hash(r) == hash(s), 'parsing {!r} gives {}', name, r)
        other = g.choice([x for x in OPS if x != op_type])
        check(rejects(lambda: qy.opstring(name, other), ValueError), 'parsing {!r} as {} should be rejected', name, other)
    else:
        r = qy.opstring(g.choice(['I', '1', ' 1.0 ', '']), op_type)
        check(r == s or want != 1, 'parsing the identity gives {}', r)
    check([(str(a), int(b)) for a, b in s] == list(zip(ops, labels)), '{}: iteration', what)
    return what if ops else None


@law('C03', 1500)
def equality(g):
    """Equality decides exactly whether type, prefactor, operators and labels agree."""
    op_type = g.choice(list(OPS))
    pool = g.label_pool()

    def one():
        if op_type == 'Fermion':
            cd, cc = fermion_parts(g, pool, 3)
            return ['CDag'] * len(cd) + ['C'] * len(cc), cd + cc[::-1], g.choice([1.0, 1j])
        if g.random() < .08:             # long strings
            return g.string_parts(op_type, list(range(60)), 40) + (1.0,)
        o, l = g.string_parts(op_type, pool, 5)
        return o, l, 1.0
    a = one()
    r = g.random()
    if r < .3:
        b = (list(a[0]), list(a[1]), a[2])
    elif r < .5:
        b = (list(a[0]), list(a[1]), g.choice([1.0, 1j]) if op_type == 'Fermion' else a[2])
    elif r < .65 and a[0]:
        b = (list(a[0]), list(a[1]), a[2])
        i = g.randrange(len(a[0]))
        if g.random() < .5:
            b[0][i] = g.choice(OPS[op_type])
        else:
            b[1][i] = b[1][i] + g.choice([1, 10, 0, 256, 1000])
    elif r < .75 and a[0]:
        i = g.randrange(len(a[0]))
        b = (list(a[0][:i]), list(a[1][:i]), a[2])
    else:
        b = one()
    sa = OperatorString(list(a[0]), list(a[1]), op_type, prefactor=a[2])
    if r < .05 and not b[0]:
        sb = OperatorString([], [], g.choice(list(OPS)))
    else:
        sb = OperatorString(np.array(b[0], dtype=str), np.array(b[1], dtype=int), op_type, prefactor=b[2])
    same = snap(sa) == snap(sb)
    check(bool(sa == sb) == same, '{} == {} gives {}', snap(sa), snap(sb), sa == sb)
    check(bool(sb == sa) == same and bool(sa != sb) == (not same), '{} and {}: asymmetric comparison', snap(sa), snap(sb))
    if same:
        check(hash(sa) == hash(sb), '{} equals {} but hashes differ', snap(sa), snap(sb))
    check((sb in {sa: 1}) == same, '{} in a dictionary with key {}: wrong', snap(sb), snap(sa))
    return snap(sa), snap(sb)


@law('C03', 300)
def malformed(g):
    op_type = g.choice(list(OPS))
    ops, labels = g.string_parts('Pauli' if op_type == 'Pauli' else op_type, g.label_pool(), 5)
    extra = g.randrange(1, 3)
    if g.random() < .5:
        labels = labels + list(range(5000, 5000 + extra))
    else:
        ops = ops + [OPS[op_type][0]] * extra
    check(rejects(lambda: OperatorString(ops, labels, op_type), ValueError), 'OperatorString({}, {}, {}) was not rejected', ops, labels, op_type)
    name = g.choice(['Q 1', 'X', 'X 1 Y', '2 X 1', 'X 1 Q 2', '', '  ', 'I', '1.0', '-1 X 1', '1j', 'x 1', 'X a', '1.0 Q 3', 'X 1.5', 'CDag 1 Q 2'])
    check(rejects(lambda: qy.opstring(name)), 'parsing {!r} was not rejected', name)
    return str((ops, labels, name))


# -------------------------------------------------------------------------- C04
@law('C04', 500)
def basis_history(g):
    op_type = g.choice(list(OPS))
    big = g.random() < .06           # bases well beyond a handful of strings
    pool = g.label_pool()[:4]

    def rs():
        if op_type == 'Fermion':
            cd, cc = fermion_parts(g, pool, 2)
            return OperatorString(['CDag'] * len(cd) + ['C'] * len(cc), cd + cc[::-1], op_type, prefactor=g.choice([1.0, 1j]))
        return S(op_type, g.string_parts(op_type, pool, 3), g.random() < .2)

    def uniq(n):
        out, seen = [], set()
        for _ in range(n):
            s = rs()
            if snap(s) not in seen:
                seen.add(snap(s))
                out.append(s)
        return out
    objs = []          # (basis, model list of snaps)
    hist = []
    for step in range(g.randrange(2, 12)):
        r = g.random()
        if r < .25 or not objs:
            strs = uniq(g.randrange(0, 40) if big else g.randrange(0, 6))
            if strs and g.random() < .2:
                dup = strs + [OperatorString(strs[-1].orbital_operators.copy(), strs[-1].orbital_labels.copy(), op_type, prefactor=strs[-1].prefactor if op_type == 'Fermion' else 1.0)]
                g.shuffle(dup)
                check(rejects(lambda: Basis(dup), ValueError), 'a basis with a repeated string {} was not rejected', strs[-1])
            b = Basis(list(strs)) if strs or g.random() < .5 else Basis()
            objs.append([b, [snap(s) for s in strs]])
            hist.append('new {}'.format(len(strs)))
        else:
            o = g.choice(objs)
            if g.random() < .5:
                other = g.choice(objs)
                oth, model = other
            else:
                oth = rs()
                if len(o[0]) and g.random() < .3:      # another copy of a string it holds
                    t = o[0][g.randrange(len(o[0]))]
                    oth = OperatorString(t.orbital_operators.copy(), t.orbital_labels.copy(), op_type, prefactor=t.prefactor if op_type == 'Fermion' else 1.0)
                model = [snap(oth)]
            add = [x for x in model if x not in o[1]]
            before_o = snap_basis(o[0]) if isinstance(o[0], Basis) else None
            if g.random() < .5:
                new = o[0] + oth
                hist.append('+')
                check(new is not o[0], '+ returned its left operand')
                check(snap_basis(o[0]) == before_o, '+ changed its left operand')
                objs.append([new, o[1] + add])
            else:
                b = o[0]
                b += oth
                hist.append('+=')
                check(b is o[0], '+= rebound its left operand')
                o[1] = o[1] + add
            if g.random() < .1:
                check(rejects(lambda: o[0] + 'X 1', TypeError), 'adding a text was not rejected')
                bb = o[0]

                def f():
                    bb2 = bb
                    bb2 += 3
                check(rejects(f, TypeError), 'adding a number in place was not rejected')
        for (b, m) in objs:
            keys = check_basis(b, 'basis after {}'.format(hist))
            check(keys == m, 'basis after {} holds {} but should hold {}', hist, keys, m)
            check(len(b) == len(m), 'length')
        s = rs()
        for (b, m) in objs:
            check((s in b) == (snap(s) in m), 'membership of {} is wrong after {}', s, hist)
            if snap(s) in m:
                check(b.index(s) == m.index(snap(s)), 'index of {} is wrong after {}', s, hist)
            else:
                check(rejects(lambda: b.index(s), KeyError), 'index of absent {} was not rejected', s)
    for (b1, m1) in objs[:4]:
        for (b2, m2) in objs[:4]:
            check(bool(b1 == b2) == (m1 == m2), 'equality of bases {} and {} is wrong', m1, m2)
    return str(hist) + str([m for _, m in objs])


# -------------------------------------------------------------------------- C05
def ferm_op(g, pool, tmax):
    seen, strs = set(), []
    for _ in range(g.randrange(0, tmax + 1)):
        cd, cc = fermion_parts(g, pool, 2)
        s = OperatorString(['CDag'] * len(cd) + ['C'] * len(cc), cd + cc[::-1], 'Fermion', prefactor=g.choice([1.0, 1j]))
        if snap(s) not in seen:
            seen.add(snap(s))
            strs.append(s)
    return Operator(np.array([g.cplx() for _ in strs], dtype=complex), strs, 'Fermion')


def coeffs_of(op):
    d = {}
    for c, s in op:
        k = snap(s)
        check(k not in d, 'operator holds string {} twice', k)
        d[k] = complex(c)
    return d


def same_coeffs(got, want, what, tol=1e-12):
    for k in set(got) | set(want):
        a, b = got.get(k, 0), want.get(k, 0)
        check(abs(a - b) <= tol * max(1.0, abs(a), abs(b)), '{}: coefficient of {} is {} but should be {}', what, k, a, b)


@law('C05', 700)
def operator_space(g):
    op_type = g.choice(list(OPS))
    pool = g.label_pool()[:g.randrange(1, 6)]
    mk = (lambda: ferm_op(g, pool, 6)) if op_type == 'Fermion' else (lambda: rand_op(g, op_type, pool, 6, 4))
    objs = [mk() for _ in range(g.randrange(2, 4))]
    if g.random() < .1:              # tiny coefficients count as well
        objs = [Operator(np.array(o.coeffs) * 1e-15, list(o._basis.op_strings), op_type) for o in objs]
    models = [coeffs_of(o) for o in objs]
    hist = []
    for step in range(g.randrange(1, 7)):
        i, j = g.randrange(len(objs)), g.randrange(len(objs))
        a, b = objs[i], objs[j]
        kind = g.choice(['+', '-', '*', 'r*', 'neg', '+=', '-=', 'vec', 'zeros', 'norm', 'normalize'])
        before = [snap_op(o) for o in objs]
        c = g.choice([0, 1, -1, 2.5, 1j, 2 - 1j, g.real(), g.cplx()])
        changed = None
        new = None
        if kind == '+':
            new = a + b
            m = {k: models[i].get(k, 0) + models[j].get(k, 0) for k in set(models[i]) | set(models[j])}
        elif kind == '-':
            new = a - b
            m = {k: models[i].get(k, 0) - models[j].get(k, 0) for k in set(models[i]) | set(models[j])}
        elif kind == '*':
            new = a * c
            m = {k: v * c for k, v in models[i].items()}
        elif kind == 'r*':
            new = c * a
            m = {k: v * c for k, v in models[i].items()}
        elif kind == 'neg':
            new = -a
            m = {k: -v for k, v in models[i].items()}
        elif kind in ('+=', '-='):
            sg = 1 if kind == '+=' else -1
            x = copy.deepcopy(a)          # in-place operations on an unshared operator
            y = x if i == j else b
            if kind == '+=':
                x += y
            else:
                x -= y
            new = x
            m = {k: models[i].get(k, 0) + sg * models[j].get(k, 0) for k in set(models[i]) | set(models[j])}
        elif kind == 'vec':
            strs = list(a._basis.op_strings)
            extra = [s for s in b._basis.op_strings if s not in a._basis]
            allb = strs + extra
            if g.random() < .1 and op_type != 'Fermion':     # a large basis
                have = set(snap(s) for s in allb)
                for s in rand_basis(g, op_type, g.label_pool(), 60, 4):
                    if snap(s) not in have:
                        allb.append(s)
            g.shuffle(allb)
            B = Basis(list(allb))
            v = a.to_vector(B)
            w = a.to_vector(B, fmt='csc')
            check(v.shape == (len(B),) and w.shape == (len(B), 1), 'to_vector has shapes {} {}', v.shape, w.shape)
            for k, s in enumerate(allb):
                want = coeffs_of(a).get(snap(s), 0)
                check(v[k] == want and w[k, 0] == want, 'to_vector: entry {} for {} is {} / {} but should be {}', k, s, v[k], w[k, 0], want)
            if len(a) and len(allb) > 1:
                miss = Basis([s for s in allb if snap(s) != snap(strs[0])])
                check(rejects(lambda: a.to_vector(miss)), 'to_vector over a basis without {} was not rejected', strs[0])
        elif kind == 'zeros':
            tol = g.choice([1e-16, 1e-12, 1e-3, 1.0])
            if g.random() < .15 and op_type != 'Fermion':    # many terms, coefficients around the cutoff
                a = rand_op(g, op_type, g.label_pool(), 24, 4)
                a = Operator([g.choice([1, -1, 1j, -1j]) * tol * g.choice([.5, .9, 1.1, 2.0, 5.0]) for _ in a.coeffs], list(a._basis.op_strings), op_type)
            r = a.remove_zeros(tol) if g.random() < .7 else a.remove_zeros(tol=tol)
            want = [(k, v) for k, v in coeffs_of(a).items() if abs(v) > tol]
            check(list(coeffs_of(r).items()) == want and r.op_type == op_type, 'remove_zeros({}) of\n{}gives\n{}', tol, a, r)
        elif kind == 'norm' and len(a):
            n = a.norm()
            want = np.sqrt(sum(abs(v) ** 2 for v in models[i].values()))
            check(abs(n - want) <= 1e-9 * max(1, want), 'norm of\n{}is {} but should be {}', a, n, want)
            n1, ni = a.norm(order=1), a.norm(order=np.inf)
            check(abs(n1 - sum(abs(v) for v in models[i].values())) <= 1e-9 * max(1, n1), '1-norm')
            check(abs(ni - max(abs(v) for v in models[i].values())) <= 1e-9 * max(1, ni), 'max-norm')
        elif kind == 'normalize' and len(a) and a.norm() > 1e-9:
            x = copy.deepcopy(a)
            x.normalize()
            n = a.norm()
            same_coeffs(coeffs_of(x), {k: v / n for k, v in models[i].items()}, 'normalize')
        check([snap_op(o) for o in objs] == before, 'operation {} changed an operand (history {})', kind, hist)
        hist.append(kind)
        if new is not None:
            check(new.op_type == op_type, '{}: type {}', kind, new.op_type)
            check_basis(new._basis, kind)
            check(len(new.coeffs) == len(new._basis) == len(new), '{}: number of coefficients', kind)
            same_coeffs(coeffs_of(new), m, 'operator {} with {} (history {})'.format(kind, c, hist))
            objs.append(new)
            models.append(coeffs_of(new))
            if g.random() < .3:      # the result is independent of the operands
                now = [snap_op(o) for o in objs[:-1]]
                x, y = g.choice([(a + b, b), (a - b, a), (a * c, b), (c * a, b), (-a, b), (a.remove_zeros(), b)])
                wx = coeffs_of(x)
                wy = coeffs_of(y)
                x += y
                same_coeffs(coeffs_of(x), {k: wx.get(k, 0) + wy.get(k, 0) for k in set(wx) | set(wy)}, 'in-place addition to a result')
                check([snap_op(o) for o in objs[:-1]] == now, 'adding in place to the result of {} changed an operand', kind)
    # in-place addition on a fresh operator must not reach other operators
    a = copy.deepcopy(objs[0])
    b = objs[-1]
    sb = snap_op(b)
    total = dict(coeffs_of(a))
    for _ in range(2):
        a += b
        for k, v in coeffs_of(b).items():
            total[k] = total.get(k, 0) + v
    check(snap_op(b) == sb, '+= changed its right operand')
    same_coeffs(coeffs_of(a), total, 'repeated +=')
    check_basis(a._basis, '+=')
    return str(hist) + str(models[0])


@law('C05', 120)
def fresh_sums(g):
    """Summing from an empty operator; results do not share state with operands."""
    op_type = g.choice(['Pauli', 'Majorana'])
    terms = [rand_op(g, op_type, g.label_pool()[:5], 4, 3) for _ in range(g.randrange(1, 6))]
    snaps = [snap_op(t) for t in terms]
    total = Operator(op_type=op_type)
    model = {}
    for t in terms:
        c = g.cplx()
        total += c * t
        for k, v in coeffs_of(t).items():
            model[k] = model.get(k, 0) + c * v
    same_coeffs(coeffs_of(total), model, 'accumulated sum')
    s2 = total + terms[0]
    s2 += terms[-1]
    s3 = total - terms[0]
    check([snap_op(t) for t in terms] == snaps, 'accumulating a sum changed a term')
    same_coeffs(coeffs_of(total), model, 'sum after further use')
    other = rand_op(g, 'Pauli' if op_type == 'Majorana' else 'Majorana', [0, 1], 2)
    check(rejects(lambda: total + other, ValueError), 'adding different types was not rejected')
    check(rejects(lambda: total - other, ValueError), 'subtracting different types was not rejected')

    def f():
        x = copy.deepcopy(total)
        x += other
    check(rejects(f, ValueError), 'in-place addition of different types was not rejected')
    check(rejects(lambda: Operator(), ValueError), 'an empty operator without a type was not rejected')
    return str(snaps)


# -------------------------------------------------------------------- C06 / C07
def jw_exact(s, op, what):
    src = O.to_pauli(O.os_value(s) if isinstance(s, OperatorString) else O.op_value(s), s.op_type)
    dst = O.to_pauli(O.op_value(op), op.op_type)
    check(O.peq(src, dst, 1e-9 * max(1.0, scale_of(src))), '{} = {} is not the same operator', what, str(op))


@law('C06', 900)
def jordan_wigner_strings(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    to = 'Majorana' if op_type == 'Pauli' else 'Pauli'
    pool = g.label_pool()
    if len(pool) and max(pool) > 400:
        pool = pool[:6]
    s = S(op_type, g.string_parts(op_type, pool, None if g.index % 3 else 4))
    sn = snap(s)
    op = qy.convert(s, to)
    check(op.op_type == to and snap(s) == sn, 'conversion of {}: type or input changed', s)
    for t in op._basis:
        canonical(t, 'conversion of {}'.format(s))
    jw_exact(s, op, 'conversion of {}'.format(s))
    back = qy.convert(op, op_type)
    b = {k: v for k, v in coeffs_of(back).items() if abs(v) > 1e-12}
    check(len(b) == 1 and abs(b.get(sn, 0) - 1) < 1e-9, 'converting {} there and back gives {}', s, back)
    same = qy.convert(s, op_type)
    check({k: v for k, v in coeffs_of(same).items()} == {sn: 1}, 'conversion of {} to its own type gives {}', s, same)
    return sn if s.orbital_labels.size else None


@law('C06', 64)
def jordan_wigner_small(g):
    for op_type, to in (('Pauli', 'Majorana'), ('Majorana', 'Pauli')):
        s = S(op_type, small_strings(op_type, 3)[g.index % 64])
        jw_exact(s, qy.convert(s, to), 'conversion of {}'.format(s))
    return g.index % 64


@law('C06', 300)
def jordan_wigner_operators(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    to = 'Majorana' if op_type == 'Pauli' else 'Pauli'
    op = rand_op(g, op_type, g.label_pool(False), 5, 4)
    sn = snap_op(op)
    r = qy.convert(op, to)
    check(snap_op(op) == sn, 'conversion changed its input')
    check(r.op_type == to, 'type {}', r.op_type)
    check_basis(r._basis, 'converted operator')
    jw_exact(op, r, 'conversion of\n{}'.format(op))
    back = qy.convert(r, op_type)
    same_coeffs(coeffs_of(back), coeffs_of(op), 'converting there and back', 1e-9)
    own = qy.convert(op, op_type)
    same_coeffs(coeffs_of(own), coeffs_of(op), 'converting to its own type')
    return sn if len(op) else None


def exact_up_to_identity(src, dst, include, what):
    d = O.padd(O.to_pauli(*dst), O.to_pauli(*src), -1)
    if not include:
        d.pop((), None)
    m = max([abs(c) for c in d.values()] or [0])
    check(m < 1e-9 * max(1.0, scale_of(src[0])), '{} is not exact (difference {})', what, {k: v for k, v in d.items() if abs(v) > 1e-9})


def ferm_string(g, pool, kmax=3):
    cd, cc = fermion_parts(g, pool, kmax)
    if g.random() < .5:
        # documented order: compare(cdag, c) >= 0
        if (len(cd), cd) < (len(cc), cc):
            cd, cc = cc, cd
    pre = 1.0 if cd == cc else g.choice([1.0, 1j])
    return OperatorString(['CDag'] * len(cd) + ['C'] * len(cc), cd + cc[::-1], 'Fermion', prefactor=pre)


@law('C07', 700)
def fermion_string_conversion(g):
    r = g.random()
    pool = list(range(g.randrange(1, 6))) if r < .7 else sorted(set([0, 1, 2, g.randrange(0, 40), g.near_literal(120)]))
    kind = g.choice(['F->M', 'F->P', 'M->F', 'P->F', 'op'])
    inc = g.random() < .6
    if kind[0] == 'F':
        s = ferm_string(g, pool, 3)
        if not len(s.orbital_labels) and not inc:
            inc = True
        to = 'Majorana' if kind == 'F->M' else 'Pauli'
        sn = snap(s)
        r = qy.convert(s, to, include_identity=inc)
        check(snap(s) == sn, 'conversion changed {}', s)
        check(r.op_type == to, 'type')
        exact_up_to_identity((O.os_value(s), 'Fermion'), (O.op_value(r), to), inc, 'conversion of {} to {} = {}'.format(s, to, r))
        if not inc:
            check(all(len(t.orbital_labels) for t in r._basis), 'conversion of {} has an identity term', s)
        return (sn, to, inc)
    if kind == 'op':
        strs, seen = [], set()
        for _ in range(g.randrange(1, 5) if g.random() < .9 else g.randrange(10, 26)):
            s = ferm_string(g, pool, 2)
            if snap(s) not in seen:
                seen.add(snap(s))
                strs.append(s)
        op = Operator(np.array([g.real(0) if g.random() < .6 else g.cplx() for _ in strs], dtype=complex), strs, 'Fermion')
        to = g.choice(['Majorana', 'Pauli'])
        r = qy.convert(op, to, include_identity=inc)
        exact_up_to_identity((O.op_value(op), 'Fermion'), (O.op_value(r), to), inc, 'conversion of\n{}to {}'.format(op, to))
        back = qy.convert(r, 'Fermion', include_identity=inc)
        exact_up_to_identity((O.op_value(op), 'Fermion'), (O.op_value(back), 'Fermion'), inc, 'converting\n{}to {} and back'.format(op, to))
        return (snap_op(op), to, inc)
    op_type = 'Majorana' if kind == 'M->F' else 'Pauli'
    if op_type == 'Pauli':
        pool = [p for p in pool if p < 5]
    s = S(op_type, g.string_parts(op_type, pool, 4 if g.random() < .93 else 6))
    r = qy.convert(s, 'Fermion', include_identity=inc)
    sn = snap(s)
    for t in r._basis:
        cd = [int(l) for o, l in zip(t.orbital_operators, t.orbital_labels) if o == 'CDag']
        cc = [int(l) for o, l in zip(t.orbital_operators, t.orbital_labels) if o == 'C']
        check(cd == sorted(set(cd)) and cc == sorted(set(cc), reverse=True), 'conversion of {}: {} is not in the documented order', s, t)
        check((len(cd), cd) >= (len(cc), cc[::-1]), 'conversion of {}: {} should be its conjugate', s, t)
    exact_up_to_identity((O.os_value(s), op_type), (O.op_value(r), 'Fermion'), inc, 'conversion of {} to Fermion = {}'.format(s, r))
    if not inc:
        check(all(len(t.orbital_labels) for t in r._basis), 'conversion of {} has an identity term', s)
    return (sn, inc)


@law('C07', 60)
def conversion_matrices(g):
    n = g.choice([1, 2, 2, 3]) if g.index else 3
    labels = list(range(n)) if g.random() < .6 else g.subset(range(7), n)
    ta, tb = g.choice([('Pauli', 'Majorana'), ('Majorana', 'Fermion'), ('Fermion', 'Majorana'), ('Majorana', 'Pauli'), ('Pauli', 'Fermion'), ('Fermion', 'Pauli')])
    if 'Pauli' in (ta, tb):
        labels = list(range(n))
    Ba = qy.cluster_basis(n, labels, ta)
    Bb = qy.cluster_basis(n, labels, tb)
    sa = list(Ba.op_strings)
    sb = list(Bb.op_strings)
    g.shuffle(sa)
    g.shuffle(sb)
    Ba, Bb = Basis(sa), Basis(sb)
    for E0 in ((Basis(), Bb), (Basis(), Basis())):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check(qy.conversion_matrix(*E0).shape == (len(E0[1]), 0), 'conversion matrix of an empty basis')
    M = qy.conversion_matrix(Ba, Bb)
    check(M.shape == (len(Bb), len(Ba)), 'shape {}', M.shape)
    Md = M.toarray()
    for j in range(len(Ba)):
        v = {}
        for i in np.nonzero(Md[:, j])[0]:
            v = O.padd(v, O.os_value(Bb[int(i)]), Md[i, j])
        exact_up_to_identity((O.os_value(Ba[j]), ta), (v, tb), False, 'column {} of the conversion matrix ({})'.format(j, Ba[j]))
    N = qy.conversion_matrix(Bb, Ba).toarray()
    check(np.allclose(Md.dot(N), np.eye(len(Bb))) and np.allclose(N.dot(Md), np.eye(len(Ba))), 'conversion matrices {} -> {} on {} are not inverse', ta, tb, labels)
    return (ta, tb, tuple(labels))


@law('C07', 60)
def conversion_columns(g):
    """Columns of a conversion matrix for strings with many factors."""
    ta, tb = g.choice([('Fermion', 'Majorana'), ('Fermion', 'Pauli'), ('Majorana', 'Fermion'), ('Pauli', 'Fermion'), ('Pauli', 'Majorana')])
    n = g.randrange(4, 7)
    strs, seen = [], set()
    for _ in range(g.randrange(1, 16)):
        s = ferm_string(g, list(range(n)), 3) if ta == 'Fermion' else S(ta, g.string_parts(ta, list(range(n)), 5))
        if snap(s) not in seen and len(s.orbital_labels):
            seen.add(snap(s))
            strs.append(s)
    target = Basis()
    for s in strs:
        target += qy.convert(s, tb)._basis
    rows = list(target.op_strings)
    if not strs or not rows:
        return None
    g.shuffle(rows)
    Ba, Bb = Basis(strs), Basis(rows)
    M = qy.conversion_matrix(Ba, Bb)
    check(M.shape == (len(Bb), len(Ba)), 'shape {}', M.shape)
    Md = M.toarray()
    for j in range(len(Ba)):
        v = {}
        for i in np.nonzero(Md[:, j])[0]:
            v = O.padd(v, O.os_value(Bb[int(i)]), Md[i, j])
        exact_up_to_identity((O.os_value(Ba[j]), ta), (v, tb), False, 'column {} of the conversion matrix ({})'.format(j, Ba[j]))
    return (ta, tb, str(snap_basis(Ba)))


# -------------------------------------------------------------------------- C08
def rand_basis(g, op_type, pool, nmax=8, kmax=3):
    strs, seen = [], set()
    for _ in range(g.randrange(0, nmax + 1)):
        s = S(op_type, g.string_parts(op_type, pool, kmax))
        if snap(s) not in seen:
            seen.add(snap(s))
            strs.append(s)
    return Basis(strs)


def bracket_value(va, vb, mode, op_type):
    """mode of (a, b) as the library orders it: commutator(basis element, operator)."""
    w = O.wmul_for(op_type)
    ab, ba = O.pmul(va, vb, w), O.pmul(vb, va, w)
    return ab if mode == 'product' else O.padd(ab, ba, -1 if mode == 'commutator' else 1)


@law('C08', 300)
def structure_constants_law(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    pool = g.label_pool()[:g.randrange(1, 6)]
    A, B = rand_basis(g, op_type, pool), rand_basis(g, op_type, pool, 4)
    r = g.random()
    if r < .08:
        A, B = rand_basis(g, op_type, list(range(5)), 30, 5), rand_basis(g, op_type, list(range(5)), 8, 5)
    elif r < .16:
        A, B = rand_basis(g, op_type, list(range(12)), 4, 12), rand_basis(g, op_type, list(range(12)), 4, 12)
    elif r < .3:
        B = A
    mode = g.choice(['commutator', 'anticommutator', 'product', None])
    kw = {} if mode is None else {'operation_mode': mode}
    mode = mode or 'commutator'
    sa, sb = snap_basis(A), snap_basis(B)
    res, C = qy.structure_constants(A, B, return_extended_basis=True, **kw)
    check(snap_basis(A) == sa and snap_basis(B) == sb, 'structure_constants changed a basis')
    keys = check_basis(C, 'extended basis')
    for s in C:
        canonical(s, 'extended basis')
    used = set()
    check(len(res) == len(B), 'number of matrices')
    for s in B:
        M = res[s].toarray()
        check(M.shape == (len(C), len(A)), 'shape {}', M.shape)
        for j in range(len(A)):
            v = {}
            for i in np.nonzero(M[:, j])[0]:
                used.add(int(i))
                v = O.padd(v, O.os_value(C[int(i)]), M[i, j])
            want = bracket_value(O.os_value(A[j]), O.os_value(s), mode, op_type)
            check(O.peq(v, want), 'structure constants: column {} for {} and {} ({}) represent {} instead of {}', j, A[j], s, mode, v, O.pclean(want))
    check(used == set(range(len(C))), 'extended basis holds strings that never appear: {}', [keys[i] for i in range(len(C)) if i not in used])
    res2 = qy.structure_constants(A, B, **kw)
    for s in B:
        check((res2[s] != res[s]).nnz == 0 if res[s].shape[0] and res[s].shape[1] else True, 'result depends on return_extended_basis')
    return (sa, sb, mode) if len(A) and len(B) else None


@law('C08', 350)
def liouvillian_law(g):
    op_type = g.choice(['Pauli', 'Majorana'])
    pool = g.label_pool()[:g.randrange(1, 6)]
    H = rand_op(g, op_type, pool, 5, 3)
    mode = g.choice(['commutator', 'anticommutator', None])
    kw = {} if mode is None else {'operation_mode': mode}
    mode = mode or 'commutator'
    r = g.random()
    if r < .08:
        H = rand_op(g, op_type, list(range(5)), 12, 5)
    elif r < .16:
        H = rand_op(g, op_type, list(range(12)), 5, 12)
    if r < .08:
        basis = rand_basis(g, op_type, list(range(5)), 40, 5) if r < .04 else [rand_op(g, op_type, list(range(5)), 6, 4) for _ in range(g.randrange(6, 14))]
        vals = [O.os_value(s) if r < .04 else O.op_value(s) for s in basis]
    elif r < .16:
        basis = rand_basis(g, op_type, list(range(12)), 5, 12)
        vals = [O.os_value(s) for s in basis]
    elif r < .55:
        basis = rand_basis(g, op_type, pool)
        vals = [O.os_value(s) for s in basis]
    else:
        basis = [rand_op(g, op_type, pool, 4, 3) for _ in range(g.randrange(1, 5))]
        vals = [O.op_value(o) for o in basis]
    before = (snap_op(H), snap_basis(basis) if isinstance(basis, Basis) else [snap_op(o) for o in basis])
    L, E = qy.liouvillian_matrix(basis, H, return_extended_basis=True, **kw)
    check((snap_op(H), snap_basis(basis) if isinstance(basis, Basis) else [snap_op(o) for o in basis]) == before, 'liouvillian_matrix changed an input')
    check(L.shape == (len(E), len(vals)), 'shape {}', L.shape)
    check_basis(E, 'extended basis')
    Ld = L.toarray()
    for j, v in enumerate(vals):
        got = {}
        for i in np.nonzero(Ld[:, j])[0]:
            got = O.padd(got, O.os_value(E[int(i)]), Ld[i, j])
        want = bracket_value(v, O.op_value(H), mode, op_type)
        check(O.peq(got, want, 1e-9 * max(1.0, scale_of(v, O.op_value(H)))), 'Liouvillian column {} ({}) represents {} instead of {}', j, mode, got, O.pclean(want))
    L2 = qy.liouvillian_matrix(basis, H, **kw)
    check(np.array_equal(L2.toarray(), Ld), 'the matrix depends on return_extended_basis')
    C1 = qy.commutant_matrix(basis, H, **kw)
    C2, E2 = qy.commutant_matrix(basis, H, return_extended_basis=True, **kw)
    want = Ld.conj().T.dot(Ld)
    tol = 1e-9 * max(1.0, np.abs(want).max() if want.size else 1.0)
    check(C1.shape == want.shape and np.allclose(C1.toarray(), want, atol=tol) and np.allclose(C2.toarray(), want, atol=tol), 'commutant matrix is not L^dag L')
    check(snap_basis(E2) == snap_basis(E), 'extended basis of the commutant matrix')
    return before if len(vals) and len(H) else None
