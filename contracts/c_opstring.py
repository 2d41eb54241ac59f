"""Contracts of qosy/operatorstring.py (C03): construction, comparison, names, parsing.

Strings are interned as integers: decimal numerals have negative codes (value recoverable),
all other strings non-negative ones. Text is seen as its sequence of blank-separated words."""
import z3
from values import *
from values import numeral, numeral_value, code
from engine import Contract, Ctx, Loop, PyExc
from spec import Fold, Lemma, fa, forall
import lib as L_

CONTRACTS = []
AI = z3.ArraySort(I, I)
AB_ = z3.ArraySort(I, B)
TYPES = ('Pauli', 'Majorana', 'Fermion')


def contract(c):
    CONTRACTS.append(c())
    return c


def is_in(t, names):
    return z3.Or([t == code(s) for s in names])


# the number of operators A or B among the first n
NAB = Fold('NAB', [AI], [], lambda a, k, p: z3.If(is_in(z3.Select(a[0], k), ('A', 'B')), z3.IntVal(1), z3.IntVal(0)))
L_NAB = Lemma('the filter [.. if op in A, B] keeps as many positions as there are A and B', [AB_, AI],
              lambda n, kept, ops: ([fa(n, lambda k: z3.Select(kept, k) == is_in(z3.Select(ops, k), ('A', 'B')), lambda k: z3.Select(kept, k))], L_.KEPT([kept], n) == NAB([ops], n)),
              force=lambda n, kept, ops: [(L_.KEPT, (kept,), n, ()), (NAB, (ops,), n, ())])


# src numbers the kept positions in increasing order
def _kept_numbered(kept, src, dst, m, n):
    j, j2 = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'j')
    return [fa(m, lambda j: z3.And(0 <= src[j], src[j] < n, kept[src[j]]), lambda j: src[j]),
            z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src[j] < src[j2]), patterns=[z3.MultiPattern(src[j], src[j2])]),
            fa(n, lambda k: z3.Implies(kept[k], z3.And(0 <= dst[k], dst[k] < m, src[dst[k]] == k)), lambda k: kept[k]), m >= 0]


L_RANK = Lemma('the number of kept positions before a kept one is its number', [AB_, AI, AI, I, I],
               lambda k, kept, src, dst, m, n: (_kept_numbered(kept, src, dst, m, n) + [k <= n],
                                                z3.And(0 <= L_.KEPT([kept], k), L_.KEPT([kept], k) <= m, fa(m, lambda j: (src[j] < k) == (j < L_.KEPT([kept], k)), lambda j: src[j]))),
               force=lambda k, kept, src, dst, m, n: [(L_.KEPT, (kept,), k, ())])


def strlist(E, name, np=False):
    l = E.new(Lst.sym(TStr, fresh(I, name + '_n'), np=np, name=name))
    E.assume(l.n >= 0)
    return l


def intlist(E, name, np=False):
    l = E.new(Lst.sym(TInt, fresh(I, name + '_n'), np=np, name=name))
    E.assume(l.n >= 0)
    return l


def new_string(E, name, op_type, prefactor, text=True):
    """An operator string object satisfying the class invariant (what __init__ establishes)."""
    o = E.new(Obj(E.repo.mod('operatorstring')['OperatorString']))
    ops, las = strlist(E, name + '_ops', True), intlist(E, name + '_las', True)
    E.assume(ops.n == las.n)
    las.n = ops.n
    d = E.new(SDict(TInt, TInt, name + '_pos'))
    E.assume(d.wf())
    E.assume(position_map(d, las.arrs[0], las.n))
    o.f.update(orbital_operators=ops, orbital_labels=las, op_type=op_type, prefactor=prefactor, _indices_orbital_labels=d, name=Text())
    if text:
        t = o.f['name']
        t.tokens = strlist(E, name + '_tok')
        E.assume(tokens_ok(t.tokens, prefactor, ops.arrs[0], las.arrs[0], ops.n))
    if op_type == 'Majorana':
        o.f['_labels_ab_operators'] = fermionic_labels(E, ops.arrs[0], las.arrs[0], ops.n)
    return o


def fermionic_labels(E, ops, las, n):
    """The labels of the operators A and B in order (as established by __init__)."""
    ab = E.new(Lst.sym(TInt, NAB([ops], n), np=True, name='ab'))
    src = fresh(AI, 'absrc')
    E.assume(iv(ab.n) >= 0)
    E.assume(z3.And(fermionic(ab.arrs[0], src, ops, las, n)))
    ab.src = src
    return ab


def fermionic(ab, src, ops, las, n):
    m = NAB([ops], n)
    j, j2 = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'j')
    return [fa(n, lambda k: z3.Implies(is_in(ops[k], ('A', 'B')), z3.And(0 <= NAB([ops], k), NAB([ops], k) < m, ab[NAB([ops], k)] == las[k])), lambda k: NAB([ops], k)),
            fa(m, lambda j: z3.And(0 <= src[j], src[j] < n, is_in(ops[src[j]], ('A', 'B')), NAB([ops], src[j]) == j, ab[j] == las[src[j]]), lambda j: [src[j], ab[j]]),
            z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src[j] < src[j2]), patterns=[z3.MultiPattern(src[j], src[j2])])]


def position_map(d, las, n):
    """The dictionary maps every label to (the last of) its positions, and nothing else."""
    if isinstance(d, CDict):
        return z3.And(z3.BoolVal(len(d.d) == 0), n == 0)
    s, k = z3.FreshConst(I, 's'), z3.FreshConst(I, 'k')
    v = z3.Select(d.vals[0], s)
    return z3.And(fa(n, lambda k: z3.And(z3.Select(d.idx, las[k]) >= 0, z3.Select(d.vals[0], las[k]) >= k), lambda k: las[k]),
                  z3.ForAll([s], z3.Implies(z3.Select(d.idx, s) >= 0, z3.And(0 <= v, v < n, las[v] == s)), patterns=[v, z3.Select(d.idx, s)]))


def tokens_ok(tok, prefactor, ops, las, n):
    """The text is '<prefactor> <op> <label> <op> <label> ... '."""
    t = tok.as_sym(TStr)
    a = t.arrs[0]
    if isinstance(prefactor, (int, float, complex)):
        pf = z3.IntVal(code('1j' if prefactor == 1j else '1.0'))
    else:
        pf = z3.If(L_.bv(is_j(prefactor)), z3.IntVal(code('1j')), z3.IntVal(code('1.0')))
    bl = code(' ')
    return z3.And(iv(t.n) == 2 + 4 * n, a[0] == pf, a[1] == bl,
                  fa(n, lambda k: z3.And(a[2 + 4 * k] == ops[k], a[3 + 4 * k] == bl, a[4 + 4 * k] == numeral(las[k]), a[5 + 4 * k] == bl), lambda k: ops[k]))


def is_j(p):
    c = to_cx(p)
    return z3.And(rv(c.re) == 0, rv(c.im) == 1)


def is_1(p):
    c = to_cx(p)
    return z3.And(rv(c.re) == 1, rv(c.im) == 0)


def majorana_odd(nab):
    """Reversing nab operators A, B takes an odd number of exchanges."""
    return nab % 4 >= 2


L_TRI = Lemma('n(n-1)/2 is odd iff n mod 4 is 2 or 3', [], lambda n: ([], (n * (n - 1)) % 4 == z3.If(n % 4 >= 2, z3.IntVal(2), z3.IntVal(0))))


# ------------------------------------------------------------------------- construction
def _pos_inv(L):
    d, las = L['self'].f['_indices_orbital_labels'], L['self'].f['orbital_labels']
    if isinstance(d, CDict):
        return [('nothing yet', z3.And(L.i == 0, z3.BoolVal(len(d.d) == 0)))]
    return [('the labels so far have their positions', position_map(d, las.arrs[0], L.i))]


def _name_inv(L):
    o = L['self']
    return [('the text so far', tokens_ok(L['name_list'], o.f['prefactor'], o.f['orbital_operators'].arrs[0], o.f['orbital_labels'].arrs[0], L.i))]


@contract
class OSInit(Contract):
    """OperatorString(ops, labels, type, prefactor)."""
    mod, qual, props = 'operatorstring', 'OperatorString.__init__', ['C03', 'C01', 'C06', 'C07', 'C13']
    cases = ['Pauli', 'Majorana', 'Fermion', 'default prefactor']
    only_raises = 0
    loops = [Loop(_pos_inv, label='(positions)'), Loop(_name_inv, label='(name)')]

    def setup(self, E, case):
        o = E.new(Obj(E.repo.mod('operatorstring')['OperatorString']))
        ops, las = strlist(E, 'ops'), intlist(E, 'las')
        ty = case if case in TYPES else 'Fermion'
        p = Cx(fresh(R, 'p_re'), fresh(R, 'p_im'))
        kw = {'prefactor': p}
        if case == 'default prefactor':
            kw, p = {}, 1.0
        return Ctx([ops, las, ty], kw, self_=o, o=o, ops=(ops.n, ops.arrs[0]), las=(las.n, las.arrs[0]), ty=ty, p=p, case=case, lists=(ops, las))

    def raises(self, E, c):
        wrong = c.ops[0] != c.las[0]
        unit = z3.Or(is_1(c.p), is_j(c.p))
        if c.ty == 'Pauli':
            bad = z3.Or(wrong, z3.Not(is_1(c.p)))
            return [('ValueError', bad)]
        if c.ty == 'Fermion':
            return [('ValueError', z3.Or(wrong, z3.Not(unit)))]
        # Majorana: the prefactor is recomputed; only prefactors other than 1, 1j may be rejected
        return [('ValueError', wrong, z3.Or(wrong, z3.Not(unit)))]

    def post(self, E, c, res):
        f = c.o.f
        n, ops = c.ops
        las = c.las[1]
        out = [('the operators are the given ones', z3.And(iv(f['orbital_operators'].length()) == n, fa(n, lambda k: f['orbital_operators'].as_sym(TStr).arrs[0][k] == ops[k]))),
               ('the labels are the given ones', z3.And(iv(f['orbital_labels'].length()) == n, fa(n, lambda k: f['orbital_labels'].as_sym(TInt).arrs[0][k] == las[k]))),
               ('they are independent copies', z3.BoolVal(f['orbital_operators'] is not c.lists[0] and f['orbital_labels'] is not c.lists[1])),
               ('the type is the given one', z3.BoolVal(f['op_type'] is c.ty)),
               ('every label is found at its position', position_map(f['_indices_orbital_labels'], las, n)),
               ('the inputs are unchanged', z3.And(iv(c.lists[0].n) == n, iv(c.lists[1].n) == n, fa(n, lambda k: z3.And(c.lists[0].arrs[0][k] == ops[k], c.lists[1].arrs[0][k] == las[k])))),
               ('the prefactor is exactly 1 or 1j', z3.Or(is_1(f['prefactor']), is_j(f['prefactor']))),
               ('the name lists the prefactor, the operators and the labels', tokens_ok(f['name'].tokens, f['prefactor'], ops, las, n) if f['name'].tokens is not None else z3.BoolVal(False))]
        if c.case == 'Pauli' or c.case == 'default prefactor':
            out.append(('the prefactor is 1', is_1(f['prefactor'])))
        elif c.case == 'Fermion':
            out.append(('the prefactor is the given one', is_j(f['prefactor']) == is_j(c.p)))
        elif c.case == 'Majorana':
            ab = f['_labels_ab_operators'].as_sym(TInt)
            src = getattr(ab, 'src', None)
            kept = getattr(ab, 'kept', None)
            h = [L_NAB.inst(n, kept, ops), L_TRI.inst(iv(ab.n))] if kept is not None else []
            if ab.conc or kept is None:
                h = []
            out.append(('the prefactor makes the string Hermitian', is_j(f['prefactor']) == majorana_odd(NAB([ops], n)), h))
            if not ab.conc and kept is not None:
                k, j, j2 = fresh(I, 'k0'), fresh(I, 'j0'), fresh(I, 'j1')
                x, m, N = ab.arrs[0], NAB([ops], n), lambda k: NAB([ops], k)
                rank = lambda k: [L_RANK.inst(k, kept, src, ab.dst, iv(ab.n), n), src[ab.dst[k]] >= src[ab.dst[k]], src[L_.KEPT([kept], k)] >= src[L_.KEPT([kept], k)], L_NAB.inst(k, kept, ops)]
                out += [('the fermionic labels: every A and B at its rank', z3.Implies(z3.And(0 <= k, k < n, is_in(ops[k], ('A', 'B'))), z3.And(iv(ab.n) == m, 0 <= N(k), N(k) < m, x[N(k)] == las[k])), h + rank(k)),
                        ('the fermionic labels: nothing else', z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= src[j], src[j] < n, is_in(ops[src[j]], ('A', 'B')), N(src[j]) == j, x[j] == las[src[j]])), h + rank(src[j])),
                        ('the fermionic labels: in order', z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src[j] < src[j2]), h)]
            else:
                out.append(('the fermionic labels', z3.And(z3.BoolVal(ab.conc and not ab.items), NAB([ops], n) == 0), h))
        return out

    def stub(self, E, args, kw, node):
        """The construction as seen by callers."""
        o, ops, las, ty, p = args
        ops = L_.LIB['numpy.array'](E, [ops], {'dtype': 'str'}, node)
        las = L_.LIB['numpy.array'](E, [las], {'dtype': 'int'}, node)
        if not isinstance(ty, str):
            for t in TYPES:
                if E.branch(E.equal(ty, t)):
                    ty = t
                    break
        so, sl = ops.as_sym(TStr), las.as_sym(TInt)
        for w, s in ((ops, so), (las, sl)):
            if w is not s:
                w.assign(s)
                w.np = True
        n, m = iv(so.n), iv(sl.n)
        if not E.branch(n == m):
            raise PyExc('ValueError', 'line {}'.format(getattr(node, 'lineno', '?')))
        unit = z3.Or(is_1(p), is_j(p))
        bad = z3.Not(is_1(p)) if ty == 'Pauli' else z3.Not(unit) if ty in ('Fermion', 'Majorana') else z3.BoolVal(False)
        if E.branch(bad):
            if ty == 'Majorana':
                raise Unsupported('Majorana string with an arbitrary prefactor')
            raise PyExc('ValueError', 'line {}'.format(getattr(node, 'lineno', '?')))
        if ty == 'Pauli':
            pf = 1.0
        else:
            j = is_j(p) if ty != 'Majorana' else majorana_odd(NAB([so.arrs[0]], n))
            pf = Ph(z3.If(j, z3.IntVal(1), z3.IntVal(0)), 1.0)
        d = E.new(SDict(TInt, TInt, 'pos'))
        E.assume(d.wf())
        E.assume(position_map(d, so_las(sl), n))
        o.f.update(orbital_operators=ops, orbital_labels=las, op_type=ty, prefactor=pf, _indices_orbital_labels=d, name=Text())
        t = o.f['name']
        t.tokens = strlist(E, 'tok')
        E.assume(tokens_ok(t.tokens, pf, so.arrs[0], sl.arrs[0], n))
        if ty == 'Majorana':
            o.f['_labels_ab_operators'] = fermionic_labels(E, so.arrs[0], sl.arrs[0], n)
        return None


def so_las(l):
    return l.arrs[0]


# --------------------------------------------------------------------------- comparison
def phase(E, name):
    k = fresh(I, name)
    E.assume(z3.Or(k == 0, k == 1))
    return Ph(k, 1.0)


def string_snap(o):
    f = o.f
    return (f['orbital_operators'].n, f['orbital_operators'].arrs[0], f['orbital_labels'].arrs[0], f['op_type'], f['prefactor'])


def string_unchanged(o, s):
    n, ops, las, ty, p = s
    f = o.f
    return z3.And(iv(f['orbital_operators'].n) == n, iv(f['orbital_labels'].n) == n,
                  fa(n, lambda k: z3.And(f['orbital_operators'].arrs[0][k] == ops[k], f['orbital_labels'].arrs[0][k] == las[k])),
                  z3.BoolVal(f['op_type'] is ty and f['prefactor'] is p))


@contract
class OSEq(Contract):
    """Equal iff operators, labels, type and prefactor agree."""
    mod, qual, props = 'operatorstring', 'OperatorString.__eq__', ['C03', 'C04']
    only_raises = 0

    def setup(self, E, case):
        a = new_string(E, 'a', SStr(fresh(I, 'ta')), phase(E, 'pa'))
        b = new_string(E, 'b', SStr(fresh(I, 'tb')), phase(E, 'pb'))
        return Ctx([b], self_=a, a=a, b=b, sa=string_snap(a), sb=string_snap(b))

    def stub(self, E, args, kw, node):
        a, b = args
        if not isinstance(b, Obj) or b.cls is not a.cls:
            raise Unsupported('comparison of a string with something else')
        f, g = a.f, b.f
        o1, o2 = f['orbital_operators'].as_sym(TStr), g['orbital_operators'].as_sym(TStr)
        l1, l2 = f['orbital_labels'].as_sym(TInt), g['orbital_labels'].as_sym(TInt)
        n = iv(o1.n)
        x, y, u, v = o1.arrs[0], o2.arrs[0], l1.arrs[0], l2.arrs[0]
        return z3.And(n == iv(o2.n), fa(n, lambda k: z3.And(x[k] == y[k], u[k] == v[k]), lambda k: [x[k], y[k], u[k], v[k]]), bv(E.equal(f['op_type'], g['op_type'])), bv(E.equal(f['prefactor'], g['prefactor'])))

    def post(self, E, c, res):
        n, ops, las, ty, p = c.sa
        m, ops2, las2, ty2, p2 = c.sb
        same = z3.And(n == m, fa(n, lambda k: z3.And(ops[k] == ops2[k], las[k] == las2[k])), sv(ty) == sv(ty2), p.k == p2.k)
        ta, tb = c.a.f['name'].tokens, c.b.f['name'].tokens
        x, y = ta.arrs[0], tb.arrs[0]
        q = z3.FreshConst(I, 'q')
        return [('equal iff operators, labels, type and prefactor agree', bv(res) == same),
                ('equal strings have equal names (and equal hashes)', z3.Implies(same, z3.And(ta.n == tb.n, x[0] == y[0], x[1] == y[1],
                  fa(n, lambda k: z3.And(x[2 + 4 * k] == y[2 + 4 * k], x[3 + 4 * k] == y[3 + 4 * k], x[4 + 4 * k] == y[4 + 4 * k], x[5 + 4 * k] == y[5 + 4 * k]))))),
                ('the strings are unchanged', z3.And(string_unchanged(c.a, c.sa), string_unchanged(c.b, c.sb)))]


@contract
class OSHash(Contract):
    """The hash is a function of the name."""
    mod, qual, props = 'operatorstring', 'OperatorString.__hash__', ['C03', 'C04']

    def setup(self, E, case):
        a = new_string(E, 'a', SStr(fresh(I, 'ta')), phase(E, 'pa'))
        return Ctx([], self_=a, a=a, sa=string_snap(a), t=a.f['name'])

    def post(self, E, c, res):
        return [('the hash of the name', z3.BoolVal(False) if c.t.hash is None else iv(res) == c.t.hash), ('unchanged', z3.And(string_unchanged(c.a, c.sa), z3.BoolVal(c.a.f['name'] is c.t)))]


@contract
class OSStr(Contract):
    mod, qual, props = 'operatorstring', 'OperatorString.__str__', ['C03']

    def setup(self, E, case):
        a = new_string(E, 'a', SStr(fresh(I, 'ta')), phase(E, 'pa'))
        return Ctx([], self_=a, a=a, sa=string_snap(a), t=a.f['name'])

    def post(self, E, c, res):
        return [('the name', z3.BoolVal(res is c.t)), ('unchanged', string_unchanged(c.a, c.sa))]


@contract
class OSIter(Contract):
    mod, qual, props = 'operatorstring', 'OperatorString.__iter__', ['C03', 'C01', 'C17']

    def setup(self, E, case):
        a = new_string(E, 'a', SStr(fresh(I, 'ta')), phase(E, 'pa'))
        return Ctx([], self_=a, a=a, sa=string_snap(a))

    def post(self, E, c, res):
        n, ops, las, ty, p = c.sa
        it = E.iterate(res, None)
        return [('pairs (operator, label) in order', z3.And(iv(it.n) == n, fa(n, lambda k: z3.And(sv(it.get(k)[0]) == ops[k], iv(it.get(k)[1]) == las[k])))), ('unchanged', string_unchanged(c.a, c.sa))]


# ------------------------------------------------------------------------------ parsing
def family(w):
    return z3.If(is_in(w, ('X', 'Y', 'Z')), z3.IntVal(code('Pauli')), z3.If(is_in(w, ('A', 'B', 'D')), z3.IntVal(code('Majorana')), z3.If(is_in(w, ('CDag', 'C')), z3.IntVal(code('Fermion')), z3.IntVal(code('none')))))


@contract
class OpString(Contract):
    """opstring(text, op_type): the text written by OperatorString is read back exactly."""
    mod, qual, props = 'operatorstring', 'opstring', ['C03']
    cases = ['no type', 'with type']
    only_raises = 0
    max_paths = 900

    def setup(self, E, case):
        w = strlist(E, 'w')
        t = Text()
        t.words = w
        E.assume(z3.Not(z3.And(w.n == 1, w.get(0).t == code('1j'))))
        ty = None if case == 'no type' else SStr(fresh(I, 'type'))
        if ty is not None:
            E.assume(is_in(ty.t, TYPES))
        return Ctx([t], {} if ty is None else {'op_type': ty}, w=(w.n, w.arrs[0]), ty=ty)

    def parts(self, c):
        n, w = c.w
        ident = z3.Or(n == 0, z3.And(n == 1, is_in(w[0], ('1', '1.0', 'I'))))
        plain = z3.And(z3.Not(ident), family(w[0]) != code('none'))
        pref = z3.And(z3.Not(ident), n >= 2, is_in(w[0], ('1', '1.0', '1j')), family(w[1]) != code('none'))
        s = z3.If(plain, z3.IntVal(0), z3.IntVal(1))
        return n, w, ident, plain, pref, s

    def raises(self, E, c):
        n, w, ident, plain, pref, s = self.parts(c)
        m = (n - s + 1) / 2                       # operators
        k = z3.FreshConst(I, 'k')
        fam = family(w[s])
        badlabel = z3.Exists([k], z3.And(s < k, k < n, (k - s) % 2 == 1, w[k] >= 0))
        badop = z3.Exists([k], z3.And(s <= k, k < n, (k - s) % 2 == 0, family(w[k]) != fam))
        odd = (n - s) % 2 != 0
        j = z3.And(pref, w[0] == code('1j'))
        must = z3.If(ident, z3.BoolVal(c.ty is None),
                     z3.Or(z3.Not(z3.Or(plain, pref)), odd, badlabel, family(w[s + 2 * (m - 1)]) == code('none'),
                           z3.And(family(w[s + 2 * (m - 1)]) == code('Pauli'), j),
                           z3.BoolVal(False) if c.ty is None else family(w[s + 2 * (m - 1)]) != c.ty.t))
        may = z3.Or(must, z3.And(z3.Not(ident), badop))
        return [('ValueError', must, may)]

    def post(self, E, c, res):
        n, w, ident, plain, pref, s = self.parts(c)
        f = res.f
        m = (n - s) / 2
        o, l = f['orbital_operators'].as_sym(TStr), f['orbital_labels'].as_sym(TInt)
        ty = sv(f['op_type'])
        out = [('the identity of the requested type', z3.Implies(ident, z3.And(iv(o.n) == 0, iv(l.n) == 0, ty == c.ty.t if c.ty is not None else z3.BoolVal(False), is_1(f['prefactor'])))),
               ('operators and labels are the ones written', z3.Implies(z3.Not(ident), z3.And(iv(o.n) == m, iv(l.n) == m, fa(m, lambda k: z3.And(o.arrs[0][k] == w[s + 2 * k], numeral(l.arrs[0][k]) == w[s + 1 + 2 * k]))))),
               ('the type is that of the operators', z3.Implies(z3.Not(ident), ty == family(w[s + 2 * (m - 1)]))),
               ('the prefactor is the one written', z3.Implies(z3.And(z3.Not(ident), ty != code('Majorana')), is_j(f['prefactor']) == z3.And(pref, w[0] == code('1j'))))]
        return out
