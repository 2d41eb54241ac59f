"""Contracts of qosy/diagonalization.py on states (C18): permutations of configurations and state
vectors, the reshaping to subsystems, reduced density matrices, Renyi entropies."""
import z3
from values import *
from values import TMat, mat_arrs, CUR
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_bits import BIT, POW2, HIGH, DIFFB, low, high, differ, zero_bits, bits_of_pow2
from c_operator import cx_eq, AR, AI
import c_matrix

CONTRACTS = []


def contract(c):
    CONTRACTS.append(c())
    return c


# -------------------------------------------------------------- permutations of the orbitals
def moved(conf, q, N, f, i):
    """Bit f after the occupations of the labels below i moved; q is the inverse permutation."""
    l = q[N - 1 - f]
    return z3.And(0 <= N - 1 - f, N - 1 - f < N, l < i, BIT(conf, N - 1 - l))


def moved_bits(new, conf, q, N, i):
    f = z3.FreshConst(I, 'f')
    return z3.ForAll([f], z3.Implies(f >= 0, BIT(new, f) == moved(conf, q, N, f, i)), patterns=[BIT(new, f)])


def new_permutation(E, N, case):
    t = E.new(Obj(E.repo.mod('transformation')['Transformation']))
    if case == 'no permutation':
        t.f.update(rule=fresh(I, 'rule'), info=None)
        return t, None, None
    p = E.new(Lst.sym(TInt, fresh(I, 'plen'), name='perm'))
    t.f.update(rule=fresh(I, 'rule'), info=p)
    q, pa, l = fresh(AI, 'inverse'), p.arrs[0], z3.FreshConst(I, 'l')
    E.assume(z3.And(p.n >= 0, fa(p.n, lambda k: z3.And(0 <= pa[k], pa[k] < p.n, q[pa[k]] == k), lambda k: pa[k]),
                    fa(p.n, lambda k: z3.And(0 <= q[k], q[k] < p.n, pa[q[k]] == k), lambda k: q[k])))
    return t, p, q


def base(E, N):
    E.assume(N >= 0)
    bits_of_pow2(E, N)
    zero_bits(E)


def _conf_inv(L):
    E = L.E
    pa, q, N, conf = E.ghost['perm']
    if conf is None:
        conf = iv(L['conf'])
    d = iv(L['new_conf'])
    return [('a configuration', d >= 0), ('the occupations so far', moved_bits(d, conf, q, N, L.i))]


def _conf_hints(L1, L0=None):
    E = L1.E
    pa, q, N, conf = E.ghost['perm']
    if L0 is None:
        return []
    return [mention(pa[L0.i], q[pa[L0.i]])]


def _conf_exit(L):
    return [high(iv(L['new_conf']), L.E.ghost['perm'][2])]


@contract
class PermuteConf(Contract):
    """The occupation of orbital l becomes that of orbital p(l)."""
    mod, qual, props = 'diagonalization', 'apply_transformation_conf', ['C18']
    cases = ['permutation', 'no permutation']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_conf_inv, hints=_conf_hints)] if case == 'permutation' else []

    def setup(self, E, case):
        N, conf = fresh(I, 'num_orbitals'), fresh(I, 'conf')
        base(E, N)
        t, p, q = new_permutation(E, N, case)
        E.assume(z3.And(0 <= conf, conf < POW2(N), low(conf, N)))
        E.ghost['perm'] = (p.arrs[0] if p is not None else None, q, N, conf)
        return Ctx([t, conf, N], t=t, p=p, q=q, N=N, conf=conf, l=fresh(I, 'l'), before=p.arrs[0] if p is not None else None, n=p.n if p is not None else None)

    def raises(self, E, c):
        return [('ValueError', True if c.p is None else c.n != c.N)]

    def post(self, E, c, res):
        d = iv(res)
        f = c.N - 1 - c.before[c.l]
        return [('orbital p(l) is occupied as orbital l was', z3.Implies(z3.And(0 <= c.l, c.l < c.N), BIT(d, f) == BIT(c.conf, c.N - 1 - c.l)), [mention(c.q[c.before[c.l]])]),
                ('a configuration of the orbitals', z3.And(0 <= d, d < POW2(c.N)), [high(d, c.N)]),
                ('the permutation is unchanged', z3.And(c.t.f['info'] is c.p, c.p.arrs[0] == c.before, c.p.n == c.n))]


def _conf_stub(self, E, args, kw, node):
    """A number with the bits of the contract; raises as in the contract."""
    t, conf, N = args
    pa, q, N0, _ = E.ghost['perm']
    info = t.f['info']
    if info is None or E.branch(iv(info.length()) != iv(N)):
        raise PyExc('ValueError', 'not a permutation')
    if q is None or not info.arrs[0].eq(pa):
        raise Unsupported('another permutation')
    d = fresh(I, 'new_conf')
    E.assume(z3.And(d >= 0, moved_bits(d, iv(conf), q, iv(N), iv(N)), high(d, iv(N))))
    E.oblige('a configuration', z3.And(iv(conf) >= 0, iv(conf) < POW2(iv(N))), node)
    return d


PermuteConf.stub = _conf_stub
PermuteConf.applies = lambda self, E, args, kw: 'perm' in E.ghost


def _vec_inv(L):
    pa, q, N, _ = L.E.ghost['perm']
    c0, d0, vre, vim = L.E.ghost['amplitude']
    nv = L['new_vector']
    return [('as many amplitudes', iv(nv.n) == POW2(N)), ('the amplitude', z3.Implies(c0 < L.i, cx_eq(to_cx(nv.get(d0)), Cx(vre[c0], vim[c0]))))]


def _vec_hints(L1, L0=None):
    E = L1.E
    pa, q, N, _ = E.ghost['perm']
    c0, d0, vre, vim = E.ghost['amplitude']
    if L0 is None:
        return []
    conf, new = L0.i, iv(L1['new_conf'])
    e, g = DIFFB(conf, c0), DIFFB(new, d0)
    to = N - 1 - pa[N - 1 - e]
    return [differ(conf, c0), differ(new, d0), low(conf, N), low(c0, N), low(d0, N), high(new, N),
            mention(pa[N - 1 - e], q[pa[N - 1 - e]], BIT(new, to), BIT(d0, to), BIT(conf, e), BIT(c0, e), BIT(new, g), BIT(d0, g), BIT(c0, N - 1 - q[N - 1 - g]), BIT(conf, N - 1 - q[N - 1 - g]))]


@contract
class PermuteVector(Contract):
    """The amplitude of a configuration becomes that of the permuted configuration."""
    mod, qual, props = 'diagonalization', 'apply_transformation', ['C18']
    cases = ['permutation', 'no permutation']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_vec_inv, hints=_vec_hints, label='configurations'), Loop(_conf_inv, hints=_conf_hints, exit_hints=_conf_exit, label='labels', optional=True)] if case == 'permutation' else []

    def setup(self, E, case):
        N = fresh(I, 'num_orbitals')
        base(E, N)
        t, p, q = new_permutation(E, N, case)
        v = E.new(Lst.sym(TCx, POW2(N), name='vector', np=True))
        E.ghost['perm'] = (p.arrs[0] if p is not None else None, q, N, None)
        c0, d0 = fresh(I, 'c0'), fresh(I, 'd0')
        if p is not None:
            # any configuration and its image
            E.assume(z3.And(0 <= c0, c0 < POW2(N), 0 <= d0, d0 < POW2(N), low(c0, N), low(d0, N), moved_bits(d0, c0, q, N, N)))
        E.ghost['amplitude'] = (c0, d0) + tuple(v.arrs)
        return Ctx([t, v, N], t=t, p=p, q=q, N=N, v=v, arrs=list(v.arrs), c0=c0, d0=d0, n=p.n if p is not None else None)

    def raises(self, E, c):
        return [('ValueError', True if c.p is None else c.n != c.N)]

    def post(self, E, c, res):
        return [('as many amplitudes', iv(res.n) == POW2(c.N)), ('the amplitude moves to the permuted configuration', cx_eq(to_cx(res.get(c.d0)), Cx(c.arrs[0][c.c0], c.arrs[1][c.c0]))),
                ('the vector is unchanged', z3.And([a == b for a, b in zip(c.v.arrs, c.arrs)])), ('a new vector', res is not c.v)]


# --------------------------------------------------------------------- reshape to subsystems
def picked(conf, lab, m, N, f, i):
    """Bit f of the configuration of the m labels, after the first i of them are copied."""
    k = m - 1 - f
    return z3.And(0 <= k, k < i, BIT(conf, N - 1 - lab[k]))


def picked_bits(new, conf, lab, m, N, i):
    f = z3.FreshConst(I, 'f')
    return z3.ForAll([f], z3.Implies(f >= 0, BIT(new, f) == picked(conf, lab, m, N, f, i)), patterns=[BIT(new, f)])


def traced_labels(L):
    """The other labels, and the position of each; the configuration c0 that belongs to the chosen
    row and column is fixed as soon as they are known."""
    E = L.E
    if 'traced' in E.ghost:
        return E.ghost['traced']
    l = L['traced_orbital_labels']
    s = E.ghost['sub']
    if l.conc and not l.items:
        lab, pos, m = fresh(AI, 'no_labels'), fresh(AI, 'no_pos'), z3.IntVal(0)
    else:
        l = l.as_sym(TInt)
        lab, m = l.arrs[0], iv(l.n)
        pos = getattr(l, 'dst', None)
        if pos is None:
            raise Unsupported('list of the traced labels')
    E.ghost['traced'] = (lab, pos, m)
    N, c0, a0, b0 = s['N'], s['c0'], s['a0'], s['b0']
    other = lambda k: z3.Or(z3.And(0 <= s['pos'][k], s['pos'][k] < s['m'], s['lab'][s['pos'][k]] == k), z3.And(0 <= pos[k], pos[k] < m, lab[pos[k]] == k))
    valid = lambda k: z3.And(0 <= lab[k], lab[k] < N, pos[lab[k]] == k)
    k0 = fresh(I, 'k0')
    seen = [mention(l.kept[k0], l.src[k0], l.kept[l.src[k0]], pos[k0], s['pos'][k0], lab[k0])] if getattr(l, 'kept', None) is not None else []
    E.oblige('every orbital is kept or traced', z3.Implies(z3.And(0 <= k0, k0 < N), other(k0)), None, seen)
    E.oblige('the traced labels are labels', z3.Implies(z3.And(0 <= k0, k0 < m), valid(k0)), None, seen)
    E.assume(z3.And(fa(N, other, lambda k: [s['pos'][k], pos[k]]), fa(m, valid, lambda k: lab[k])))      # k0 is arbitrary
    E.assume(z3.And(0 <= b0, b0 < POW2(m), low(b0, m), picked_bits(b0, c0, lab, m, N, m)))
    return E.ghost['traced']


def _reshape_inv(L):
    E = L.E
    s = E.ghost['sub']
    lab, pos, m = traced_labels(L)
    C = L['c_ab']
    return [('dimensions', z3.And(iv(C.nr) == POW2(s['m']), iv(C.nc) == POW2(m))),
            ('the entry', z3.Implies(s['c0'] < L.i, cx_eq(to_cx(C.entry(s['a0'], s['b0'])), Cx(s['vre'][s['c0']], s['vim'][s['c0']]))))]


def _reshape_hints(L1, L0=None):
    E = L1.E
    s = E.ghost['sub']
    if L0 is None:
        return []
    lab, pos, m = traced_labels(L1)
    conf, ca, cb = L0.i, iv(L1['conf_a']), iv(L1['conf_b'])
    N, c0, a0, b0, ma = s['N'], s['c0'], s['a0'], s['b0'], s['m']
    out = [differ(conf, c0), low(conf, N), low(c0, N), high(ca, ma), high(cb, m), low(a0, ma), low(b0, m)]
    e = DIFFB(conf, c0)
    l = N - 1 - e
    fa_, fb_ = ma - 1 - s['pos'][l], m - 1 - pos[l]
    out += [mention(s['lab'][s['pos'][l]], lab[pos[l]], BIT(ca, fa_), BIT(a0, fa_), BIT(cb, fb_), BIT(b0, fb_))]
    for x, y, mm, ll in ((ca, a0, ma, s['lab']), (cb, b0, m, lab)):
        d = DIFFB(x, y)
        out += [differ(x, y), mention(BIT(x, d), BIT(y, d), BIT(c0, N - 1 - ll[mm - 1 - d]))]
    return out


def _sub_inv(which):
    def inv(L):
        E = L.E
        s = E.ghost['sub']
        if which == 'a':
            lab, m = s['lab'], s['m']
        else:
            lab, _, m = traced_labels(L)
        d, nl = iv(L['conf_' + which]), iv(L['new_label'])
        return [('a configuration', d >= 0), ('the position', nl == L.i), ('the occupations so far', picked_bits(d, iv(L['conf']), lab, m, s['N'], L.i))]
    return inv


def _sub_hints(which):
    def hints(L1, L0=None):
        return []
    return hints


def _sub_exit(which):
    def f(L):
        s = L.E.ghost['sub']
        m = s['m'] if which == 'a' else traced_labels(L)[2]
        return [high(iv(L['conf_' + which]), m)]
    return f


def new_labels(E, N, name='kept'):
    """Distinct labels of orbitals, in ascending order."""
    l = E.new(Lst.sym(TInt, fresh(I, name + '_n'), name=name))
    la, pos = l.arrs[0], fresh(AI, 'pos')
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    E.assume(z3.And(l.n >= 0, l.n <= N, fa(l.n, lambda k: z3.And(0 <= la[k], la[k] < N, pos[la[k]] == k), lambda k: la[k]),
                    z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < l.n), la[a] < la[b]), patterns=[z3.MultiPattern(la[a], la[b])])))
    k = z3.FreshConst(I, 'k')
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= pos[k], pos[k] < l.n), la[pos[k]] == k), patterns=[pos[k]]))
    bits_of_pow2(E, l.n)
    return l, la, pos


@contract
class Reshape(Contract):
    """Row a, column b holds the amplitude of the configuration with occupations a of the kept
    orbitals (in ascending order) and b of the others (in ascending order)."""
    mod, qual, props = 'diagonalization', '_reshape_vector_subsystems', ['C18']
    loops = [Loop(_reshape_inv, hints=_reshape_hints, label='configurations'), Loop(_sub_inv('a'), hints=_sub_hints('a'), exit_hints=_sub_exit('a'), label='kept'),
             Loop(_sub_inv('b'), hints=_sub_hints('b'), exit_hints=_sub_exit('b'), label='traced')]

    def setup(self, E, case):
        N = fresh(I, 'num_orbitals')
        base(E, N)
        l, la, pos = new_labels(E, N)
        v = E.new(Lst.sym(TCx, POW2(N), name='vector', np=True))
        c0, a0, b0 = fresh(I, 'c0'), fresh(I, 'a0'), fresh(I, 'b0')
        E.assume(z3.And(0 <= c0, c0 < POW2(N), low(c0, N), 0 <= a0, a0 < POW2(l.n), low(a0, l.n), picked_bits(a0, c0, la, l.n, N, l.n)))
        E.ghost['sub'] = dict(N=N, lab=la, pos=pos, m=l.n, c0=c0, a0=a0, b0=b0, vre=v.arrs[0], vim=v.arrs[1])
        return Ctx([v, l, N], N=N, l=l, la=la, m=l.n, v=v, arrs=list(v.arrs), c0=c0, a0=a0, b0=b0)

    def post(self, E, c, res):
        t = E.ghost['traced']
        return [('dimensions', z3.And(iv(res.nr) == POW2(c.m), iv(res.nc) == POW2(t[2]))),
                ('every entry', cx_eq(to_cx(res.entry(c.a0, c.b0)), Cx(c.arrs[0][c.c0], c.arrs[1][c.c0]))),
                ('the arguments are unchanged', z3.And([a == b for a, b in zip(c.v.arrs, c.arrs)] + [c.l.n == c.m, c.l.arrs[0] == c.la]))]


# ---------------------------------------------------------------- reduced density matrices
# JOIN(labels, m, N, a, b): the configuration with occupations a of the m labels and b of the others
JOIN = z3.Function('joined_configuration', AI, I, I, I, I, I)
TRACED = z3.Function('number_of_traced_labels', AI, I, I, I)
AAR = z3.ArraySort(I, AR)


def _rdterm(a, k, p):
    x, y = JOIN(p[0], p[1], p[2], p[3], k), JOIN(p[0], p[1], p[2], p[4], k)
    q = cmul(Cx(a[0][x], a[1][x]), conj(Cx(a[2][y], a[3][y])))
    return rv(q.re), rv(q.im)


# the sum over the configurations b of the traced orbitals of v[r, b] conj(w[c, b])
RDM = Fold('RDM', [AR, AR, AR, AR], [AI, I, I, I, I], _rdterm, out='cx')
from c_structure import MDOT
L_RDM = Lemma('a row times a conjugated row is the partial trace', [AR, AR, AAR, AAR] + [AR] * 4 + [AI, I, I, I, I, I],
              lambda n, x, y, br, bi, v, w, v2, w2, la, m, N, r, c, q: (
                  [fa(n, lambda k: z3.And(x[k] == v[JOIN(la, m, N, r, k)], y[k] == w[JOIN(la, m, N, r, k)], br[k][q] == v2[JOIN(la, m, N, c, k)], bi[k][q] == -w2[JOIN(la, m, N, c, k)]), lambda k: [x[k], JOIN(la, m, N, r, k)])],
                  cx_eq(MDOT([x, y, br, bi], n, [q]), RDM([v, w, v2, w2], n, [la, m, N, r, c]))),
              uses=lambda n, x, y, br, bi, v, w, v2, w2, la, m, N, r, c, q: [mention(x[n - 1])],
              force=lambda n, x, y, br, bi, v, w, v2, w2, la, m, N, r, c, q: [(MDOT, (x, y, br, bi), n, (q,)), (RDM, (v, w, v2, w2), n, (la, m, N, r, c))])


def _reshape_stub(self, E, args, kw, node):
    v, l, N = args
    vs, ls = v.as_sym(TCx), l.as_sym(TInt)
    re, im, la, m, N = vs.arrs[0], vs.arrs[1], ls.arrs[0], iv(ls.n), iv(N)
    E.oblige('a state of the orbitals', iv(vs.n) == POW2(N), node)
    sub = E.ghost['labels']
    E.oblige('distinct labels of orbitals in ascending order', z3.And(la == sub[0], m == sub[1]), node)
    t = TRACED(la, m, N)
    E.assume(t >= 0)
    bits_of_pow2(E, t)
    at = lambda a, b: JOIN(la, m, N, iv(a), iv(b))
    return E.new(Mat(POW2(m), POW2(t), lambda a, b: Cx(re[at(a, b)], im[at(a, b)])))


Reshape.stub = _reshape_stub
Reshape.applies = lambda self, E, args, kw: 'labels' in E.ghost


@contract
class ReducedDensityMatrix(Contract):
    """Entry (r, c) is the sum over the traced configurations of v[r, b] times the conjugate of
    w[c, b]; w is v unless a pair is given."""
    mod, qual, props = 'diagonalization', 'reduced_density_matrix', ['C18']
    cases = ['state', 'pair', 'other']
    only_raises = 1

    def setup(self, E, case):
        N = fresh(I, 'num_orbitals')
        base(E, N)
        l, la, pos = new_labels(E, N)
        E.ghost['labels'] = (la, l.n)
        vs = [E.new(Lst.sym(TCx, POW2(N), name='vector', np=True)) for _ in range(2 if case == 'pair' else 1)]
        v = tuple(vs) if case == 'pair' else vs[0] if case == 'state' else E.new(Lst.sym(TCx, POW2(N), name='vector'))
        r0, c0 = fresh(I, 'r0'), fresh(I, 'c0')
        E.assume(z3.And(0 <= r0, r0 < POW2(l.n), 0 <= c0, c0 < POW2(l.n)))
        return Ctx([v, l, N], N=N, l=l, la=la, m=l.n, vs=vs, arrs=[list(x.arrs) for x in vs], r0=r0, c0=c0, case=case)

    def raises(self, E, c):
        return [('ValueError', c.case == 'other')]

    def post(self, E, c, res):
        v, w = c.arrs[0], c.arrs[-1]
        t = TRACED(c.la, c.m, c.N)
        (ar, ai), (br, bi) = E.ghost['factors']
        n = POW2(t)
        return [('dimensions', z3.And(iv(res.nr) == POW2(c.m), iv(res.nc) == POW2(c.m))),
                ('the partial trace', cx_eq(to_cx(res.entry(c.r0, c.c0)), RDM(v + w, n, [c.la, c.m, c.N, c.r0, c.c0])),
                 [L_RDM.inst(n, ar[c.r0], ai[c.r0], br, bi, v[0], v[1], w[0], w[1], c.la, c.m, c.N, c.r0, c.c0, c.c0)]),
                ('the arguments are unchanged', z3.And([a == b for x, y in zip(c.vs, c.arrs) for a, b in zip(x.arrs, y)] + [c.l.n == c.m, c.l.arrs[0] == c.la]))]


# -------------------------------------------------------------------------- Renyi entropy
# the k-th power of a matrix of dimension d
PWR, PWI = z3.Function('power_re', AAR, AAR, I, I, AAR), z3.Function('power_im', AAR, AAR, I, I, AAR)
TR = Fold('TR', [AAR, AAR], [], lambda a, k, p: (a[0][k][k], a[1][k][k]), out='cx')
LOGRE, LOGIM = z3.Function('log_re', R, R, R), z3.Function('log_im', R, R, R)


def power_axioms(E, re, im, d):
    """M**0 = 1, M**(k+1) = M**k M, on the entries of the matrix."""
    k, r, c = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
    e = PWR(re, im, d, z3.IntVal(0))[r][c]
    f = PWI(re, im, d, z3.IntVal(0))[r][c]
    E.assume(z3.ForAll([r, c], z3.And(e == z3.If(r == c, z3.RealVal(1), z3.RealVal(0)), f == 0), patterns=[e, f]))


def power_step(re, im, d, k):
    r, c = z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
    a, b = PWR(re, im, d, k), PWI(re, im, d, k)
    q = MDOT([a[r], b[r], re, im], d, [c])
    x, y = PWR(re, im, d, k + 1)[r][c], PWI(re, im, d, k + 1)[r][c]
    return z3.ForAll([r, c], z3.And(x == q.re, y == q.im), patterns=[x, y])


L_ROW = Lemma('equal rows, equal products', [AR, AR, AR, AR, AAR, AAR, I],
              lambda n, x, y, u, v, br, bi, c: ([fa(n, lambda k: z3.And(x[k] == u[k], y[k] == v[k]), lambda k: [x[k], u[k]])],
                                               cx_eq(MDOT([x, y, br, bi], n, [c]), MDOT([u, v, br, bi], n, [c]))),
              uses=lambda n, x, y, u, v, br, bi, c: [mention(x[n - 1])],
              force=lambda n, x, y, u, v, br, bi, c: [(MDOT, (x, y, br, bi), n, (c,)), (MDOT, (u, v, br, bi), n, (c,))])
L_TR = Lemma('equal diagonals, equal traces', [AAR] * 4,
             lambda n, x, y, u, v: ([fa(n, lambda k: z3.And(x[k][k] == u[k][k], y[k][k] == v[k][k]), lambda k: [x[k], u[k]])], cx_eq(TR([x, y], n), TR([u, v], n))),
             uses=lambda n, x, y, u, v: [mention(x[n - 1])], force=lambda n, x, y, u, v: [(TR, (x, y), n, ()), (TR, (u, v), n, ())])


def _trace(E, M):
    re, im = mat_arrs(M)
    E.ghost['traced_matrix'] = (re, im)
    return TR([re, im], iv(M.nr))


c_matrix.TRACE.append(_trace)


def _log(E, args, kw, node):
    x = to_cx(args[0])
    return Cx(LOGRE(rv(x.re), rv(x.im)), LOGIM(rv(x.re), rv(x.im)))


L_.LIB['numpy.log'] = _log


def _matrix_power(E, args, kw, node):
    M, n = args
    re, im = mat_arrs(M)
    d = iv(M.nr)
    m = TMat.mk([d, d, PWR(re, im, d, iv(n)), PWI(re, im, d, iv(n))])
    m.frozen = False
    return E.new(m)


L_.LIB['numpy.linalg.matrix_power'] = _matrix_power


def _renyi_inv(L):
    re, im, d = L.E.ghost['rho']
    P = L['rho_product']
    r, c = z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
    e = to_cx(P.entry(r, c))
    w = Cx(PWR(re, im, d, L.i)[r][c], PWI(re, im, d, L.i)[r][c])
    return [('dimensions', z3.And(iv(P.nr) == d, iv(P.nc) == d)),
            ('the power so far', z3.ForAll([r, c], z3.Implies(z3.And(0 <= r, r < d, 0 <= c, c < d), cx_eq(e, w)), patterns=[w.re, w.im] if not is_z(e.re) or z3.is_quantifier(e.re) or not _select(e.re) else [w.re, w.im, e.re, e.im]))]


def _select(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT


def _renyi_hints(L1, L0=None):
    if L0 is None:
        return []
    re, im, d = L1.E.ghost['rho']
    (ar, ai), (br, bi) = L1.E.ghost['factors']
    k = L0.i
    r, c = z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
    u, v = PWR(re, im, d, k)[r], PWI(re, im, d, k)[r]
    q = MDOT([u, v, re, im], d, [c])
    return [power_step(re, im, d, k), z3.ForAll([r, c], L_ROW.inst(d, ar[r], ai[r], u, v, re, im, c), patterns=[q.re, q.im])]


@contract
class Renyi(Contract):
    """log(tr(rho**n)) / (1 - n)."""
    mod, qual, props = 'diagonalization', 'renyi_entropy', ['C18']
    cut_for = True
    cases = ['order', 'default']
    loops = [Loop(_renyi_inv, hints=_renyi_hints, types={'rho_product': TMat}, optional=True)]

    def setup(self, E, case):
        d, n = fresh(I, 'dim'), fresh(I, 'order') if case == 'order' else 2
        re, im = fresh(AAR, 'rho_re'), fresh(AAR, 'rho_im')
        M = TMat.mk([d, d, re, im])
        M.frozen = False
        M = E.new(M)
        E.assume(z3.And(d >= 0, iv(n) >= 2))
        power_axioms(E, re, im, d)
        E.ghost['rho'] = (re, im, d)
        return Ctx([M] + ([n] if case == 'order' else []), M=M, n=n, d=d, re=re, im=im)

    def post(self, E, c, res):
        n = iv(c.n)
        x, y = PWR(c.re, c.im, c.d, n), PWI(c.re, c.im, c.d, n)
        t = TR([x, y], c.d)
        u, v = E.ghost['traced_matrix']
        return [('the Renyi entropy', rv(res) == LOGRE(t.re, t.im) / (1 - z3.ToReal(n)), [L_TR.inst(c.d, u, v, x, y)]),
                ('the matrix is unchanged', z3.And([a == b for a, b in zip(mat_arrs(c.M), (c.re, c.im))]))]
