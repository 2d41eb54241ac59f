"""Contracts of qosy/transformation.py (C09)."""
import z3
from values import *
from values import code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall, mention
import lib as L_
from c_opstring import new_string, string_snap, string_unchanged, is_in, is_1, is_j, NAB, majorana_odd, L_TRI
from c_basis import new_basis, new_os, SOS, TOS, contents, unchanged, basis_inv, sym_basis
from c_operator import OPTYPE, new_operator, op_snap, op_wf, op_unchanged, snap_of, coef, cx_eq, AR, OpInit, OpIadd, COO, L_COO_NONE, L_COO_ONE
from c_algebra import canonical, increasing
from c_tools import INV

CONTRACTS = []
AI = z3.ArraySort(I, I)
AB_ = z3.ArraySort(I, B)


def contract(c):
    CONTRACTS.append(c())
    return c


# -------------------------------------------------------- sums do not depend on the order
SUMG = Fold('SUMG', [AI], [], lambda a, k, p: a[0][k])                       # sum of g
SUMP = Fold('SUMP', [AI, AI], [], lambda a, k, p: a[0][a[1][k]])             # sum of g(p(k))
HIT = Fold('HIT', [AI], [I], lambda a, k, p: z3.If(a[0][k] == p[0], z3.IntVal(1), z3.IntVal(0)))
WSUM = Fold('WSUM', [AI, AI], [I], lambda a, k, p: a[0][k] * HIT([a[1]], p[0], [k]))

# W(m, n+1) = W(m, n) + g(p(n)) when 0 <= p(n) < m (and without it otherwise)
L_W_STEP = Lemma('weighted counts grow by the value hit', [AI, AI, I],
                 lambda m, g, p, n: ([n >= 0], WSUM([g, p], m, [n + 1]) == WSUM([g, p], m, [n]) + z3.If(z3.And(0 <= p[n], p[n] < m), g[p[n]], z3.IntVal(0))),
                 force=lambda m, g, p, n: [(WSUM, (g, p), m, (n + 1,)), (WSUM, (g, p), m, (n,)), (HIT, (p,), n + 1, (m - 1,))])
L_W_ZERO = Lemma('nothing is hit at first', [AI, AI], lambda m, g, p: ([], WSUM([g, p], m, [z3.IntVal(0)]) == 0),
                 force=lambda m, g, p: [(WSUM, (g, p), m, (z3.IntVal(0),)), (HIT, (p,), z3.IntVal(0), (m - 1,))])
L_W_SUM = Lemma('the sum over the positions counts the values hit', [AI, AI, I],
                lambda n, g, p, m: ([fa(n, lambda k: z3.And(0 <= p[k], p[k] < m), lambda k: p[k])], SUMP([g, p], n) == WSUM([g, p], m, [n])),
                uses=lambda n, g, p, m: [L_W_ZERO.inst(m, g, p), L_W_STEP.inst(m, g, p, n - 1), mention(p[n - 1])],
                force=lambda n, g, p, m: [(SUMP, (g, p), n, ())])
L_HIT_ONE = Lemma('a permutation hits every value once', [AI, AI, I, I],
                  lambda n, p, q, v, N: ([n <= N, 0 <= q[v], p[q[v]] == v, fa(N, lambda k: q[p[k]] == k, lambda k: p[k])], HIT([p], n, [v]) == z3.If(q[v] < n, z3.IntVal(1), z3.IntVal(0))),
                  uses=lambda n, p, q, v, N: [mention(p[n - 1])], force=lambda n, p, q, v, N: [(HIT, (p,), n, (v,))])
L_W_PERM = Lemma('a permutation counts every value once', [AI, AI, AI, I],
                 lambda m, g, p, q, N: ([m <= N, fa(N, lambda k: z3.And(0 <= q[k], q[k] < N, p[q[k]] == k), lambda k: q[k]), fa(N, lambda k: q[p[k]] == k, lambda k: p[k])],
                                        WSUM([g, p], m, [N]) == SUMG([g], m)),
                 uses=lambda m, g, p, q, N: [L_HIT_ONE.inst(N, p, q, m - 1, N), mention(q[m - 1])],
                 force=lambda m, g, p, q, N: [(WSUM, (g, p), m, (N,)), (SUMG, (g,), m, ())])
# the numbers of A and B agree under a permutation
L_NAB_G = Lemma('the number of A and B is a sum', [AI, AI], lambda n, ops, g: ([fa(n, lambda k: g[k] == z3.If(is_in(ops[k], ('A', 'B')), 1, 0), lambda k: g[k])], NAB([ops], n) == SUMG([g], n)),
                uses=lambda n, ops, g: [mention(g[n - 1])], force=lambda n, ops, g: [(NAB, (ops,), n, ()), (SUMG, (g,), n, ())])
L_NAB_P = Lemma('the number of A and B of a rearrangement is a sum', [AI, AI, AI, I],
                lambda n, b, g, p, N: ([n <= N, fa(N, lambda k: g[p[k]] == z3.If(is_in(b[k], ('A', 'B')), 1, 0), lambda k: p[k])], NAB([b], n) == SUMP([g, p], n)),
                uses=lambda n, b, g, p, N: [mention(p[n - 1])], force=lambda n, b, g, p, N: [(NAB, (b,), n, ()), (SUMP, (g, p), n, ())])
L_NAB_PERM = Lemma('rearranging the factors keeps the number of A and B', [AI, AI, AI, AI, AI],
                   lambda n, a, b, g, p, q: ([fa(n, lambda k: z3.And(0 <= q[k], q[k] < n, p[q[k]] == k), lambda k: q[k]), fa(n, lambda k: z3.And(0 <= p[k], p[k] < n, q[p[k]] == k), lambda k: p[k]),
                                              fa(n, lambda k: b[k] == a[p[k]], lambda k: p[k]), fa(n, lambda k: g[k] == z3.If(is_in(a[k], ('A', 'B')), 1, 0), lambda k: g[k])],
                                             NAB([a], n) == NAB([b], n)),
                   induct=False, uses=lambda n, a, b, g, p, q: [L_NAB_G.inst(n, a, g), L_NAB_P.inst(n, b, g, p, n), L_W_SUM.inst(n, g, p, n), L_W_PERM.inst(n, g, p, q, n)])


# ------------------------------------------------------------ operators of a single string
def _single(E, args):
    if len(args) < 3:
        return False
    co, ss = args[1], args[2]
    if isinstance(co, tuple):
        return False
    return isinstance(ss, Lst) and ss.conc and len(ss.items) == 1 and isinstance(ss.items[0], Obj) and isinstance(co, Lst) and co.conc and len(co.items) == 1


def op_init_stub(self, E, args, kw, node):
    """Operator([c], [string]) for a string given by its factors."""
    o, co, ss, ty = args
    b = E.new(Obj(E.repo.mod('basis')['Basis']))
    b.f['op_strings'] = E.new(Lst.of([ss.items[0]]))
    b.f['_indices'] = None
    o.f.update(coeffs=E.new(Lst.of([to_cx(co.items[0])], np=True)), _basis=b, op_type=ss.items[0].f['op_type'])
    return None


OpInit.stub = op_init_stub
OpInit.applies = lambda self, E, args, kw: _single(E, args)


def one_term(res, what):
    """(coefficient, string) of an operator of one string; None otherwise."""
    if isinstance(res, Obj) and res.cls.name == 'Operator':
        l = res.f['_basis'].f['op_strings']
        if l.conc and len(l.items) == 1 and isinstance(l.items[0], Obj):
            return res.f['coeffs'].items[0], l.items[0]
    return None


NOP = Fold('NOP', [AI], [I], lambda a, k, p: z3.If(a[0][k] == p[0], z3.IntVal(1), z3.IntVal(0)))
NDN = Fold('NDN', [AI, AI, AB_], [], lambda a, k, p: z3.If(z3.And(is_in(a[0][k], ('A', 'B')), z3.Select(a[2], a[1][k])), z3.IntVal(1), z3.IntVal(0)))
L_TRI2 = Lemma('parity of m(m-1)/2', [I], lambda n, q: ([2 * q == n * (n - 1)], (q % 2 == 1) == majorana_odd(n)), induct=False, uses=lambda n, q: [L_TRI.inst(n)])


class Rule(Contract):
    """A rule that maps a string to plus or minus itself."""
    mod, props = 'transformation', ['C09']
    cases = ['Majorana', 'Pauli', 'Fermion']
    only_raises = 1
    loops = []

    def info(self, E):
        return None

    def setup(self, E, case):
        ops = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D'), 'Fermion': ('CDag', 'C')}[case]
        k = fresh(I, 'pf')
        s = new_string(E, 's', case, 1.0 if case == 'Pauli' else Ph(k, 1.0), text=False)
        canonical(E, s, ops)
        n, o, l, _, _ = string_snap(s)
        if case == 'Majorana':
            E.assume(k == z3.If(majorana_odd(NAB([o], n)), z3.IntVal(1), z3.IntVal(0)))
        else:
            E.assume(z3.Or(k == 0, k == 1))
        info = self.info(E)
        E.ghost['s'] = string_snap(s)
        return Ctx([s, info], s=s, snap=string_snap(s), k=k, case=case, info=info)

    allowed = ('Majorana',)

    def raises(self, E, c):
        return [('ValueError', c.case not in self.allowed)]

    def post(self, E, c, res):
        t = one_term(res, 'rule')
        if t is None:
            return [('one string', z3.BoolVal(False))]
        co, s = t
        n, o, l, _, _ = c.snap
        # the coefficient is sign * conj(prefactor) / prefactor if the rule is antiunitary
        minus, anti = self.minus(c, iv(n), o, l)
        want = minus
        if anti and c.case == 'Majorana':
            want = z3.Xor(minus, c.k == 1)
        co = to_cx(co)
        return [('the string itself', z3.BoolVal(s is c.s)), ('the string is unchanged', string_unchanged(c.s, c.snap)),
                ('the sign is the product of the signs of the factors', z3.And(rv(co.re) == z3.If(want, z3.RealVal(-1), z3.RealVal(1)), rv(co.im) == 0), self.hints(c, iv(n), o))]

    def hints(self, c, n, o):
        return [L_TRI.inst(NAB([o], n))]


def _counts(L):
    n, o, l, _, _ = L.E.ghost['s']
    i = L.i
    return [('factors B so far', iv(L['numBs']) == NOP([o], i, [z3.IntVal(code('B'))])), ('factors A and B so far', iv(L['numABs']) == NAB([o], i)),
            ('factors D so far', iv(L['numDs']) == NOP([o], i, [z3.IntVal(code('D'))]))]


@contract
class TimeReversal(Rule):
    """T: a -> a, b -> -b, i -> -i; Pauli factors change sign."""
    qual = '_time_reversal_rule'
    allowed = ('Majorana', 'Pauli')

    def loops_for(self, case):
        return [Loop(_counts)] if case == 'Majorana' else []

    def minus(self, c, n, o, l):
        if c.case == 'Pauli':
            return n % 2 == 1, True
        return NOP([o], n, [z3.IntVal(code('B'))]) % 2 == 1, True       # D = i a b -> -i a (-b) = D


@contract
class ParticleHole(Rule):
    """a -> a, b -> -b (linear), so D = i a b -> -D."""
    qual = '_particle_hole_rule'

    def loops_for(self, case):
        return [Loop(_counts)] if case == 'Majorana' else []

    def minus(self, c, n, o, l):
        return (NOP([o], n, [z3.IntVal(code('B'))]) + NOP([o], n, [z3.IntVal(code('D'))])) % 2 == 1, False


def _sz_inv(L):
    n, o, l, _, _ = L.E.ghost['s']
    return [('parity of the spin-down factors', (iv(L['num_dn']) - NDN([o, l, L.E.ghost['dn']], L.i)) % 2 == 0)]


@contract
class SpinParity(Rule):
    """a_dn -> -a_dn, b_dn -> -b_dn, everything else unchanged."""
    qual = '_sz_rule'

    def loops_for(self, case):
        return [Loop(_sz_inv)] if case == 'Majorana' else []

    def info(self, E):
        up, dn = E.new(SSet(TInt, name='up')), E.new(SSet(TInt, name='dn'))
        E.ghost['dn'] = dn.mem
        return (up, dn)

    def minus(self, c, n, o, l):
        return NDN([o, l, c.info[1].mem], n) % 2 == 1, False


@contract
class PermutationRule(Contract):
    """Relabeling: the factors with their new labels in increasing order; for fermionic operators
    the sign of the reordering of A and B."""
    mod, qual, props = 'transformation', '_permutation_rule', ['C09']
    cases = ['Majorana', 'Pauli', 'Fermion']
    only_raises = 1

    def setup(self, E, case):
        c = Rule.setup(self, E, case)
        pm = L_.LIB and E.new(Lst.sym(TInt, fresh(I, 'np'), np=False, name='perm'))
        E.assume(pm.n >= 0)
        c.args = [c.s, pm]
        c.pm, c.parr, c.pn = pm, pm.arrs[0], pm.n
        n, o, l, _, _ = c.snap
        # all labels are permuted, to different labels
        E.assume(fa(n, lambda k: z3.And(0 <= l[k], l[k] < pm.n), lambda k: l[k]))
        a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
        P = pm.arrs[0]
        E.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < pm.n), P[a] != P[b]), patterns=[z3.MultiPattern(P[a], P[b])]))
        return c

    def info(self, E):
        return None

    def raises(self, E, c):
        return [('ValueError', c.case == 'Fermion')]

    def post(self, E, c, res):
        t = one_term(res, 'rule')
        if t is None:
            return [('one string', z3.BoolVal(False))]
        co, s = t
        n, o, l, _, _ = c.snap
        n = iv(n)
        f = s.f
        o2, l2 = f['orbital_operators'].as_sym(TStr), f['orbital_labels'].as_sym(TInt)
        P = c.parr
        out = [('the string and the permutation are unchanged', z3.And(string_unchanged(c.s, c.snap), c.pm.arrs[0] == P, iv(c.pm.n) == c.pn)),
               ('its type', z3.BoolVal(f['op_type'] == c.case)), ('as many factors', z3.And(iv(o2.n) == n, iv(l2.n) == n)),
               ('the labels increase', increasing(l2.arrs[0], n))]
        pm = [x for x in E.ghost.get('perms', [])]
        q, qi = pm[-1]
        out.append(('a rearrangement of the factors', z3.And(fa(n, lambda k: z3.And(0 <= q[k], q[k] < n, qi[q[k]] == k)), fa(n, lambda k: z3.And(0 <= qi[k], qi[k] < n, q[qi[k]] == k)))))
        out.append(('every factor with its new label', fa(n, lambda k: z3.And(o2.arrs[0][k] == o[q[k]], l2.arrs[0][k] == P[l[q[k]]]), lambda k: q[k])))
        co = to_cx(co)
        if c.case == 'Pauli':
            return out + [('the coefficient is 1', z3.And(rv(co.re) == 1, rv(co.im) == 0))]
        g = fresh(AI, 'g')
        E.assume(forall([I], lambda k: g[k] == z3.If(is_in(o[k], ('A', 'B')), z3.IntVal(1), z3.IntVal(0)), lambda k: g[k]))
        same = L_NAB_PERM.inst(n, o, o2.arrs[0], g, q, qi)
        out.append(('as many A and B', NAB([o], n) == NAB([o2.arrs[0]], n), [same]))
        v, m, _ = E.ghost['sorted'][-1]
        lst = E.ghost['sorted list'][-1]
        if lst.conc:
            return out + [('no A or B', z3.BoolVal(not lst.items))]
        src, dst = lst.src, lst.dst
        out.append(('the sorted labels are those of the A and B, in order', z3.And(
            fa(m, lambda j: z3.And(0 <= src[j], src[j] < n, is_in(o[src[j]], ('A', 'B')), v[j] == P[l[src[j]]]), lambda j: src[j]), increasing(src, m))))
        k0 = fresh(I, 'k0')
        out.append(('all A and B are among them', z3.Implies(z3.And(0 <= k0, k0 < n, is_in(o[k0], ('A', 'B'))), z3.And(0 <= dst[k0], dst[k0] < m, src[dst[k0]] == k0)), [mention(lst.kept[k0])]))
        odd = INV([v], m) % 2 == 1
        out.append(('the sign is the parity of the reordering', z3.And(rv(co.re) == z3.If(odd, z3.RealVal(-1), z3.RealVal(1)), rv(co.im) == 0), [same]))
        return out


# --------------------------------------------------------------------- operators: a += b
def sym_operator(E, o):
    b = o.f['_basis']
    if isinstance(b.f['_indices'], CDict):
        sym_basis(E, b)
    c = o.f['coeffs']
    if c.conc:
        s = c.as_sym(TCx)
        s.np = True
        c.assign(s)
    return o


def iadd_stub(self, E, args, kw, node):
    """a += b: the coefficients are added; b is unchanged."""
    a, b = args
    if not E.branch(sv(a.f['op_type']) == sv(b.f['op_type'])):
        raise PyExc('ValueError', 'types')
    sym_operator(E, a)
    sym_operator(E, b)
    sa, sb = op_snap(a), op_snap(b)
    new = new_operator(E, 'sum', a.f['op_type'])
    sn = op_snap(new)
    ba, bn = a.f['_basis'], new.f['_basis']
    for k in ('op_strings', '_indices'):
        E.touch(ba.f[k])
        ba.f[k].assign(bn.f[k])
    E.setattr(a, 'coeffs', new.f['coeffs'])
    s = z3.FreshConst(SOS, 's')
    E.assume(z3.ForAll([s], cx_eq(coef(sn, s), cadd(coef(sa, s), coef(sb, s))), patterns=[z3.Select(sn[2], s)]))
    E.assume(z3.ForAll([s], (z3.Select(sn[2], s) >= 0) == z3.Or(z3.Select(sa[2], s) >= 0, z3.Select(sb[2], s) >= 0), patterns=[z3.Select(sn[2], s)]))
    return a


OpIadd.stub = iadd_stub
OpIadd.applies = lambda self, E, args, kw: isinstance(args[1], Obj) and args[1].cls.name == 'Operator' and args[0] is not args[1] and not any(
    isinstance(x, Obj) for o in args[:2] for x in (o.f['_basis'].f['op_strings'].items or [] if o.f['_basis'].f['op_strings'].conc else []))

# ------------------------------------------------- a rule: any function of a string and info
# RARR.. the terms of the operator that rule r gives for a string
ASO = z3.ArraySort(I, SOS)
ASI = z3.ArraySort(SOS, I)
RN = z3.Function('rule_n', I, SOS, I)
RARR = z3.Function('rule_strings', I, SOS, ASO)
RIDX = z3.Function('rule_index', I, SOS, ASI)
RRE = z3.Function('rule_re', I, SOS, AR)
RIM = z3.Function('rule_im', I, SOS, AR)


def rule_snap(r, s):
    return (RN(r, s), RARR(r, s), RIDX(r, s), RRE(r, s), RIM(r, s), OPTYPE(s))


def opaque_rule(rid, log=None):
    def call(E, args, kw, node):
        s, info = args
        if not isinstance(s, Opq):
            raise Unsupported('rule')
        if info is not INFO[rid.get_id()]:
            E.oblige('the rule gets its own info', z3.BoolVal(False), node)
        o = new_operator(E, 'rule', SStr(OPTYPE(s.t)))
        n, arr, idx, re, im, t = op_snap(o)
        N, A, X, RE, IM, T = rule_snap(rid, s.t)
        # the same terms for the same string
        E.assume(z3.And(n == N, arr == A, idx == X, re == RE, im == IM))
        return o
    return call


INFO = {}


def new_rule(E, name):
    rid = fresh(I, name)
    info = E.new(Obj(E.repo.mod('basis')['Basis']))          # some object, passed on unread
    INFO[rid.get_id()] = info
    INFO[id(info)] = rid
    return rid, info, opaque_rule(rid)


RSUM = Fold('RSUM', [ASO, AR, AR], [I, SOS], lambda a, k, p: (lambda q: (rv(q.re), rv(q.im)))(cmul(Cx(a[1][k], a[2][k]), coef(rule_snap(p[0], a[0][k]), p[1]))), out='cx')


def new_transformation(E, name):
    rid, info, rule = new_rule(E, name)
    t = E.new(Obj(E.repo.mod('transformation')['Transformation']))
    t.f.update(rule=rule, info=info)
    return t, rid


def _apply_inv(L):
    n, arr, idx, re, im, t = L.E.ghost['op']
    rid, S0 = L.E.ghost['rule']
    rs = snap_of(L['result'])
    return op_wf(L['result']) + [('type', rs[5] == t), ('the coefficient so far', cx_eq(coef(rs, S0), RSUM([arr, re, im], L.i, [rid, S0])))]


@contract
class Apply(Contract):
    """transformation.apply: linear extension of its rule."""
    mod, qual, props = 'transformation', 'Transformation.apply', ['C09']
    cases = ['operator', 'string', 'other']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_apply_inv)] if case == 'operator' else []

    def setup(self, E, case):
        t, rid = new_transformation(E, 'rid')
        a = new_operator(E, 'a') if case == 'operator' else new_os(E, 's') if case == 'string' else fresh(I, 'x')
        S0 = fresh(SOS, 'S0')
        c = Ctx([a], self_=t, t=t, rid=rid, a=a, case=case, S0=S0, rule=t.f['rule'], info=t.f['info'])
        if case == 'operator':
            c.sa = E.ghost['op'] = op_snap(a)
            E.ghost['rule'] = (rid, S0)
        return c

    def raises(self, E, c):
        return [('TypeError', c.case == 'other')]

    def post(self, E, c, res):
        out = [('the transformation is unchanged', z3.BoolVal(c.t.f['rule'] is c.rule and c.t.f['info'] is c.info))]
        rs = snap_of(res)
        if c.case == 'string':
            return out + [('the result of the rule', z3.And(cx_eq(coef(rs, c.S0), coef(rule_snap(c.rid, c.a.t), c.S0)), rs[5] == OPTYPE(c.a.t)))]
        n, arr, idx, re, im, t = c.sa
        return out + op_wf(res) + [('every term is transformed, linearly', cx_eq(coef(rs, c.S0), RSUM([arr, re, im], n, [c.rid, c.S0]))), ('type', rs[5] == t),
                                   ('a new operator', z3.BoolVal(res is not c.a)), ('the operator is unchanged', op_unchanged(c.a, c.sa))]


def apply_stub(self, E, args, kw, node):
    """A string: the operator that the rule of the transformation gives."""
    t, s, tol = args
    return t.f['rule'](E, [s, t.f['info']], {}, node)


Apply.stub = apply_stub
Apply.applies = lambda self, E, args, kw: isinstance(args[1], Opq)


# --------------------------------------------------------------------------- composition
def _inner(a, k, p):
    q = cmul(Cx(p[0], p[1]), Cx(a[1][k], a[2][k]))
    on = z3.And(a[0][k] == p[2], rv(q.re) * rv(q.re) + rv(q.im) * rv(q.im) > p[3] * p[3])
    return z3.If(on, rv(q.re), z3.RealVal(0)), z3.If(on, rv(q.im), z3.RealVal(0))


INNER = Fold('INNER', [ASO, AR, AR], [R, R, SOS, R], _inner, out='cx')


def _outer(a, k, p):
    N, A, X, RE, IM, T = rule_snap(p[0], a[0][k])
    q = INNER([A, RE, IM], N, [a[1][k], a[2][k], p[1], p[2]])
    return q.re, q.im


OUTER = Fold('OUTER', [ASO, AR, AR], [I, SOS, R], _outer, out='cx')


def _prod_inv(L, i, j):
    r1, r2, s, S0, tol = L.E.ghost['prod']
    N, A, X, RE, IM, T = rule_snap(r1, s)
    tot = OUTER([A, RE, IM], i, [r2, S0, tol])
    if j is not None:
        n, arr, idx, re, im, t = rule_snap(r2, A[i])
        tot = cadd(tot, INNER([arr, re, im], j, [RE[i], IM[i], S0, tol]))
    rs = snap_of(L['result'])
    return op_wf(L['result']) + [('type', rs[5] == T), ('the coefficient so far', cx_eq(coef(rs, S0), tot))]


@contract
class ProductRule(Contract):
    """The rule of a product of transformations: first C, then D on every term (terms with a
    coefficient below the tolerance are dropped)."""
    mod, qual, props = 'transformation', 'Transformation._product_rule', ['C09']
    loops = [Loop(lambda L: _prod_inv(L, L.i, None), label='(terms of the first image)'), Loop(lambda L: _prod_inv(L, L.outer.i, L.i), label='(terms of the second image)')]

    def setup(self, E, case):
        r1, i1, f1 = new_rule(E, 'rid')
        r2, i2, f2 = new_rule(E, 'rid')
        s = new_os(E, 's')
        S0, tol = fresh(SOS, 'S0'), fresh(R, 'tol')
        E.assume(tol > 0)
        # the images have the type of the string
        N, A, X, RE, IM, T = rule_snap(r1, s.t)
        E.ghost['prod'] = (r1, r2, s.t, S0, tol)
        return Ctx([s, (f1, i1, f2, i2)], {'tol': tol}, s=s, r1=r1, r2=r2, S0=S0, tol=tol)

    def post(self, E, c, res):
        N, A, X, RE, IM, T = rule_snap(c.r1, c.s.t)
        rs = snap_of(res)
        return op_wf(res) + [('the second rule is applied to every term of the first image', cx_eq(coef(rs, c.S0), OUTER([A, RE, IM], N, [c.r2, c.S0, c.tol]))), ('type', rs[5] == T)]


@contract
class TransMul(Contract):
    """(D * C) applies C first."""
    mod, qual, props = 'transformation', 'Transformation.__mul__', ['C09']

    def setup(self, E, case):
        a, ra = new_transformation(E, 'rid')
        b, rb = new_transformation(E, 'rid')
        return Ctx([b], self_=a, a=a, b=b, fa=(a.f['rule'], a.f['info']), fb=(b.f['rule'], b.f['info']))

    def post(self, E, c, res):
        rule, info = res.f['rule'], res.f['info']
        ok = isinstance(rule, Fn) and rule.qual == 'Transformation._product_rule' and isinstance(info, tuple) and len(info) == 4
        return [('the rule of a product', z3.BoolVal(ok)), ('the right factor first', z3.BoolVal(ok and all(x is y for x, y in zip(info, c.fb + c.fa)))),
                ('a new transformation', z3.BoolVal(res is not c.a and res is not c.b)),
                ('the factors are unchanged', z3.BoolVal((c.a.f['rule'], c.a.f['info'], c.b.f['rule'], c.b.f['info']) == c.fa + c.fb))]


TRANS = z3.DeclareSort('Transf')
TMUL = z3.Function('compose', TRANS, TRANS, TRANS)
PW = z3.Function('power', TRANS, I, TRANS)
TTR = TAbs('Transf')


def _trans_binop(E, op, a, b, node):
    import ast
    if isinstance(a, Abst) and isinstance(b, Abst) and a.kind == b.kind == 'Transf' and isinstance(op, ast.Mult):
        r = Abst('Transf', TMUL(a.t, b.t))
        return E.new(r)
    return NotImplemented


L_.BINOPS.append(_trans_binop)


def _pow_inv(L):
    return [('the power so far', L['result'].t == PW(L.E.ghost['base'], L.i + 1))]


@contract
class TransPow(Contract):
    """t ** n: t * t * .. * t (n times)."""
    mod, qual, props = 'transformation', 'Transformation.__pow__', ['C09']
    cases = ['number', 'other']
    only_raises = 1

    def loops_for(self, case):
        return [Loop(_pow_inv)] if case == 'number' else []

    def setup(self, E, case):
        t = E.new(Abst('Transf', fresh(TRANS, 't')))
        t.frozen = True
        n = fresh(I, 'n') if case == 'number' else fresh(R, 'x')
        x = t.t
        E.assume(PW(x, 1) == x)
        E.assume(forall([I], lambda k: z3.Implies(k >= 1, PW(x, k + 1) == TMUL(PW(x, k), x)), lambda k: TMUL(PW(x, k), x)))
        E.ghost['base'] = x
        return Ctx([n], self_=t, t=t, n=n, x=x, case=case)

    def raises(self, E, c):
        return [('ValueError', True if c.case == 'other' else c.n <= 0)]

    def post(self, E, c, res):
        return [('the power', res.t == PW(c.x, c.n)), ('the base is unchanged', c.t.t == c.x)]


# ------------------------------------------------------------------------ symmetry matrix
def _entry(rid, arr, r0, c0, tol):
    """The (r0, c0) entry: the coefficient of the r0-th string in the image of the c0-th."""
    N, A, X, RE, IM, T = rule_snap(rid, arr[c0])
    p = z3.Select(X, arr[r0])
    on = lambda p: z3.And(p >= 0, RE[p] * RE[p] + IM[p] * IM[p] > tol * tol)
    return p, Cx(z3.If(on(p), RE[p], z3.RealVal(0)), z3.If(on(p), IM[p], z3.RealVal(0)))


def _sm_inv(L, i, j):
    n, arr, idx, rid, r0, c0, tol = L.E.ghost['sym']
    ro, co, da = L['row_inds'], L['col_inds'], L['data']
    p, v = _entry(rid, arr, r0, c0, tol)
    z = z3.RealVal(0)
    seen = c0 < i if j is None else z3.Or(c0 < i, z3.And(c0 == i, p < j))
    want = Cx(z3.If(seen, v.re, z), z3.If(seen, v.im, z))
    if ro.conc and co.conc and da.conc:
        return [('nothing yet', cx_eq(want, Cx(z, z))), ('no triplets', z3.BoolVal(not ro.items and not co.items and not da.items))]
    ro, co = ro.as_sym(TInt), co.as_sym(TInt)
    m = iv(ro.n)
    da = da.as_sym(TCx)
    return [('as many columns', iv(co.n) == m), ('as many values', iv(da.n) == m), ('not negative', m >= 0),
            ('indices in range', fa(m, lambda k: z3.And(0 <= ro.arrs[0][k], ro.arrs[0][k] < n, 0 <= co.arrs[0][k], co.arrs[0][k] < n), lambda k: [ro.arrs[0][k], co.arrs[0][k]])),
            ('the entry so far', cx_eq(COO([ro.arrs[0], co.arrs[0]] + da.arrs, m, [r0, c0]), want))]


@contract
class SymMatrixStrings(Contract):
    """Column A holds the coefficients of the transformed A-th string (above the tolerance)."""
    mod, qual, props = 'transformation', '_symmetry_matrix_opstrings', ['C09', 'C12']
    loops = [Loop(lambda L: _sm_inv(L, L.i, None), label='(strings)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)}),
             Loop(lambda L: _sm_inv(L, L.outer.i, L.i), label='(terms of the image)', types={'row_inds': TLst(TInt), 'col_inds': TLst(TInt), 'data': TLst(TCx)})]

    def setup(self, E, case):
        b = new_basis(E, 'B')
        t, rid = new_transformation(E, 'rid')
        n, arr, idx = contents(b)
        r0, c0, tol = fresh(I, 'r0'), fresh(I, 'c0'), fresh(R, 'tol')
        E.assume(z3.And(tol > 0, 0 <= r0, r0 < n, 0 <= c0, c0 < n))
        E.ghost['sym'] = (n, arr, idx, rid, r0, c0, tol)
        return Ctx([b, t, tol], b=b, snap=contents(b), t=t, rid=rid, r0=r0, c0=c0, tol=tol)

    def post(self, E, c, res):
        n, arr, idx = c.snap
        p, v = _entry(c.rid, arr, c.r0, c.c0, c.tol)
        return [('dimensions', z3.And(iv(res.nr) == n, iv(res.nc) == n)), ('every entry', cx_eq(res.entry(c.r0, c.c0), v)), ('the basis is unchanged', unchanged(c.b, c.snap))]


# ---------------------------------------------------------- transformations of a lattice
import c_lattice
import c_vec
from c_vec import SV, VC
from c_helpers import Swap

LIDX = z3.Function('lattice_index', SV, I, I)          # lattice.index(position, name)
SWAPF = z3.Function('swapped', I, I, I, I)             # swap(name, a, b)
MTX = z3.DeclareSort('Mtx')
MV = z3.Function('matrix_vector', MTX, SV, SV)


def _mv(E, args, kw, node):
    a, v = args
    if isinstance(a, Abst) and a.kind == 'Mtx' and isinstance(v, Abst) and v.kind == 'Vec':
        return E.new(Abst('Vec', MV(a.t, v.t)))
    return NotImplemented


L_.DOT.append(_mv)
VADD = z3.Function('vector_sum', SV, SV, SV)


def _vadd(E, op, a, b, node):
    import ast
    if E.ghost.get('opaque index') and isinstance(op, ast.Add) and c_vec.is_vec(a) and c_vec.is_vec(b):
        E.assume(VADD(a.t, b.t) == VADD(b.t, a.t))
        return E.new(Abst('Vec', VADD(a.t, b.t)))
    return NotImplemented


L_.BINOPS.insert(0, _vadd)


def _lidx_stub(self, E, args, kw, node):
    s, pos, name = args
    if not isinstance(pos, Abst):
        raise Unsupported('position')
    return LIDX(pos.t, sv(name))          # at least -1, less than the number of orbitals (in setup)


def _lidx_applies(self, E, args, kw):
    return E.ghost.get('opaque index', False)


c_lattice.LatticeIndex.stub = _lidx_stub
c_lattice.LatticeIndex.applies = _lidx_applies
Swap.stub = lambda self, E, args, kw, node: SStr(SWAPF(*[sv(x) for x in args]))
Swap.applies = lambda self, E, args, kw: isinstance(args[0], SStr)


class LatticeSymmetry(Contract):
    mod, props = 'transformation', ['C09']
    only_raises = 1

    def setup(self, E, case):
        s = c_lattice.lattice(E)
        E.ghost['opaque index'] = True
        orb = s.f['_orbitals']
        c = Ctx([s] + self.more(E), s=s, n=iv(orb.n), pos=orb.arrs[0], name=orb.arrs[1], snap=list(orb.arrs))
        self.names(c)
        E.assume(c.n >= 0)
        p, q = z3.FreshConst(SV, 'p'), z3.FreshConst(I, 'q')
        E.assume(z3.ForAll([p, q], z3.And(LIDX(p, q) >= -1, LIDX(p, q) < c.n), patterns=[LIDX(p, q)]))
        return c

    def names(self, c):
        pass

    def unchanged(self, c):
        o = c.s.f['_orbitals']
        return ('the lattice is unchanged', z3.And([iv(o.n) == c.n] + [x == y for x, y in zip(o.arrs, c.snap)]))

    def perm_is(self, info, c):
        info = info.as_sym(TInt)
        return z3.And(iv(info.n) == c.n, fa(c.n, lambda k: info.arrs[0][k] == self.image(c, k), lambda k: info.arrs[0][k]))


class LatticePermutation(LatticeSymmetry):
    def raises(self, E, c):
        return [('ValueError', z3.Not(fa(c.n, lambda k: self.image(c, k) != -1, lambda k: c.pos[k])))]

    def post(self, E, c, res):
        rule, info = res.f['rule'], res.f['info']
        ok = isinstance(rule, Fn) and rule.qual == '_permutation_rule' and isinstance(info, Lst)
        return [('a label permutation', z3.BoolVal(ok)), ('every orbital goes to its image', self.perm_is(info, c) if ok else z3.BoolVal(False)), self.unchanged(c)]


@contract
class SpaceGroup(LatticePermutation):
    """r -> R r + d"""
    qual = 'space_group_symmetry'

    def more(self, E):
        E.ghost['Rm'] = E.new(Abst('Mtx', fresh(MTX, 'R')))
        E.ghost['dv'] = c_lattice.sym_vec(E, 'd')
        return [E.ghost['Rm'], E.ghost['dv']]

    def names(self, c):
        c.R, c.d = c.args[1].t, c.args[2].t

    def image(self, c, k):
        return LIDX(VADD(MV(c.R, c.pos[k]), c.d), c.name[k])


@contract
class SpinFlip(LatticePermutation):
    """Exchanges the orbitals of the two spins."""
    qual = 'spin_flip_symmetry'

    def more(self, E):
        return [SStr(fresh(I, 'up')), SStr(fresh(I, 'dn'))]

    def image(self, c, k):
        return LIDX(c.pos[k], SWAPF(c.name[k], c.args[1].t, c.args[2].t))


@contract
class SpinParitySym(LatticeSymmetry):
    qual = 'spin_parity_symmetry'

    def more(self, E):
        return [SStr(fresh(I, 'up')), SStr(fresh(I, 'dn'))]

    def raises(self, E, c):
        return []

    def post(self, E, c, res):
        rule, info = res.f['rule'], res.f['info']
        ok = isinstance(rule, Fn) and rule.qual == '_sz_rule' and isinstance(info, tuple) and len(info) == 2
        out = [('the spin parity rule', z3.BoolVal(ok)), self.unchanged(c)]
        return out + (sz_info(info, c, c.args[1].t, c.args[2].t) if ok else [])


def sz_info(info, c, up, dn):
    out = []
    for nm, st, t in (('up', info[0], up), ('down', info[1], dn)):
        k0, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
        k = z3.FreshConst(I, 'k')
        if isinstance(st, CSet):
            out.append(('no spin {} orbitals'.format(nm), z3.And(z3.BoolVal(not st.items), fa(c.n, lambda k: z3.Not(L_.INSTR(t, c.name[k]))))))
            continue
        k1 = fresh(I, 'k1')
        ment = mention(*[x[k1] for x in c.snap])
        out += [('all spin {} orbitals'.format(nm), z3.Implies(z3.And(0 <= k1, k1 < c.n, L_.INSTR(t, c.name[k1])), z3.Select(st.mem, LIDX(c.pos[k1], c.name[k1]))), [ment]),
                ('only spin {} orbitals'.format(nm), z3.ForAll([x], z3.Implies(z3.Select(st.mem, x), z3.Exists([k], z3.And(0 <= k, k < c.n, L_.INSTR(t, c.name[k]), x == LIDX(c.pos[k], c.name[k])), patterns=[c.name[k]]))))]
    return out


@contract
class TimeReversalSym(LatticeSymmetry):
    """K without spin; with spin: K, then the spin parity, then the spin flip."""
    qual = 'time_reversal'
    cases = ['spinless', 'lattice', 'names', 'other']

    def more(self, E):
        return []

    def setup(self, E, case):
        c = LatticeSymmetry.setup(self, E, case)
        c.case = case
        c.up, c.dn = z3.IntVal(code('Up')), z3.IntVal(code('Dn'))
        if case == 'spinless':
            c.args = []
        elif case == 'names':
            c.up, c.dn = fresh(I, 'up'), fresh(I, 'dn')
            c.args = [(c.s, SStr(c.up), SStr(c.dn))]
        elif case == 'other':
            c.args = [fresh(I, 'x')]
        return c

    def image(self, c, k):
        return LIDX(c.pos[k], SWAPF(c.name[k], c.up, c.dn))

    def raises(self, E, c):
        if c.case == 'spinless':
            return []
        if c.case == 'other':
            return [('ValueError', True)]
        return [('ValueError', z3.Not(fa(c.n, lambda k: self.image(c, k) != -1, lambda k: c.pos[k])))]

    def post(self, E, c, res):
        rule, info = res.f['rule'], res.f['info']
        isf = lambda f, q: isinstance(f, Fn) and f.qual == q
        if c.case == 'spinless':
            return [('complex conjugation', z3.BoolVal(isf(rule, '_time_reversal_rule')))]
        ok = isf(rule, 'Transformation._product_rule') and isinstance(info, tuple) and len(info) == 4 and isf(info[0], '_time_reversal_rule') and isf(info[2], 'Transformation._product_rule')
        out = [('complex conjugation first', z3.BoolVal(ok)), self.unchanged(c)]
        if ok:
            j = info[3]
            ok2 = isinstance(j, tuple) and len(j) == 4 and isf(j[0], '_sz_rule') and isf(j[2], '_permutation_rule')
            out.append(('then the spin parity, then the spin flip', z3.BoolVal(ok2)))
            if ok2:
                out += sz_info(j[1], c, c.up, c.dn) + [('the spin flip', self.perm_is(j[3], c))]
        return out
