"""Contracts of the class Basis in qosy/basis.py (C04). Operator strings are opaque values
here: only their equality matters (C03 proves what that equality is)."""
import z3
from values import *
from engine import Contract, Ctx, Loop
from spec import fa, forall
import lib as L_

CONTRACTS = []
SOS = TOS.sorts[0]
AOS = z3.ArraySort(I, SOS)


def contract(c):
    CONTRACTS.append(c())
    return c


def basis_inv(b):
    """The list and the dictionary of a basis agree; no string occurs twice."""
    l, d = b.f['op_strings'], b.f['_indices']
    if isinstance(d, CDict):
        return [z3.BoolVal(len(d.d) == 0), iv(l.length()) == 0]
    if l.conc:
        return [z3.BoolVal(False)]
    s = z3.FreshConst(SOS, 's')
    return [iv(l.n) == iv(d.n),
            forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < iv(l.n)), z3.Select(d.keys[0], k) == z3.Select(l.arrs[0], k)), lambda k: [z3.Select(l.arrs[0], k), z3.Select(d.keys[0], k)]),
            z3.ForAll([s], z3.Implies(z3.Select(d.idx, s) >= 0, z3.Select(d.vals[0], s) == z3.Select(d.idx, s)), patterns=[z3.Select(d.vals[0], s), z3.Select(d.idx, s)])]


def new_basis(E, name='b'):
    cls = E.repo.mod('basis')['Basis']
    b = E.new(Obj(cls))
    l = E.new(Lst.sym(TOS, fresh(I, name + '_n'), name=name))
    d = E.new(SDict(TOS, TInt, name + 'd'))
    E.assume(d.wf())
    b.f['op_strings'], b.f['_indices'] = l, d
    E.assume(l.n >= 0)
    E.assume(basis_inv(b))
    # consequences of the invariant, in the form the proofs use
    E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < l.n), z3.Select(d.idx, z3.Select(l.arrs[0], k)) == k), lambda k: z3.Select(l.arrs[0], k)))
    E.assume(forall([SOS], lambda s: z3.Implies(z3.Select(d.idx, s) >= 0, z3.And(z3.Select(d.idx, s) < l.n, z3.Select(l.arrs[0], z3.Select(d.idx, s)) == s)), lambda s: z3.Select(d.idx, s)))
    return b


def oslist(E, name):
    l = E.new(Lst.sym(TOS, fresh(I, name + '_n'), name=name))
    E.assume(l.n >= 0)
    return l


def new_os(E, name='os'):
    return Opq(fresh(SOS, name), 'OS')


def contents(b):
    """(n, list array, index array) of a basis: its abstract value."""
    l, d = b.f['op_strings'], b.f['_indices']
    return (l.n, l.arrs[0], d.idx)


def unchanged(b, snap):
    n, arr, idx = snap
    l, d = b.f['op_strings'], b.f['_indices']
    s = z3.FreshConst(SOS, 's')
    return z3.And(iv(l.n) == n, fa(n, lambda k: z3.Select(l.arrs[0], k) == z3.Select(arr, k)),
                  z3.ForAll([s], (z3.Select(d.idx, s) >= 0) == (z3.Select(idx, s) >= 0)))


def well_formed(b):
    """Lookup, membership, iteration and length agree (the property itself)."""
    l, d = b.f['op_strings'], b.f['_indices']
    if isinstance(d, CDict):
        return [('an empty basis', z3.And(z3.BoolVal(len(d.d) == 0), iv(l.length()) == 0))]
    l = l.as_sym(TOS)
    s = z3.FreshConst(SOS, 's')
    n = iv(l.n)
    return [('representation invariant', z3.And(basis_inv(b))),
            ('the element at position i has index i', fa(n, lambda k: z3.And(z3.Select(d.idx, l.arrs[0][k]) >= 0, z3.Select(d.vals[0], l.arrs[0][k]) == k))),
            ('exactly the listed elements are contained', z3.ForAll([s], z3.Implies(z3.Select(d.idx, s) >= 0, z3.And(0 <= z3.Select(d.vals[0], s), z3.Select(d.vals[0], s) < n, l.arrs[0][z3.Select(d.vals[0], s)] == s))))]


# ------------------------------------------------------------------------- construction
def _init_inv(L):
    l, d, i = L.E.ghost['list'], L['self'].f['_indices'], L.i
    a, b = L.G['a'], L.G['b']
    arr = l.arrs[0]
    if isinstance(d, CDict):
        return [('nothing yet', z3.And(i == 0, z3.BoolVal(len(d.d) == 0)))]
    k = z3.FreshConst(I, 'k')
    return [('as many keys as positions, or a repetition', z3.And(0 <= d.n, d.n <= i, z3.Implies(d.n < i, z3.And(0 <= a, a < b, b < i, arr[a] == arr[b])))),
            ('all earlier elements are keys', fa(i, lambda k: z3.Select(d.idx, arr[k]) >= 0, lambda k: arr[k])),
            ('without a repetition the keys are the elements', z3.Implies(d.n == i, z3.And(
                forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < i), z3.And(d.keys[0][k] == arr[k], z3.Select(d.vals[0], arr[k]) == k)), lambda k: [arr[k], d.keys[0][k]]),
                ))),
            ('keys are earlier elements', forall([SOS], lambda s: z3.Implies(z3.Select(d.idx, s) >= 0, z3.And(0 <= z3.Select(d.vals[0], s), z3.Select(d.vals[0], s) < i, arr[z3.Select(d.vals[0], s)] == s)), lambda s: z3.Select(d.idx, s))),
            ]


def _init_step(L1, L0):
    """The first repetition that is met."""
    l, d, i = L0.E.ghost['list'], L0['self'].f['_indices'], L0.i
    if isinstance(d, CDict):
        return {}
    s = l.arrs[0][i]
    rep = z3.And(d.n == i, z3.Select(d.idx, s) >= 0)
    return {'a': z3.If(rep, z3.Select(d.vals[0], s), L0.G['a']), 'b': z3.If(rep, i, L0.G['b'])}


@contract
class BasisInit(Contract):
    """Basis(list): rejected iff a string is repeated; else the representation is consistent."""
    mod, qual, props = 'basis', 'Basis.__init__', ['C04', 'C02', 'C05', 'C13']
    cases = ['list', 'default']

    def loops_for(self, case):
        return [Loop(_init_inv, ghosts={'a': I, 'b': I}, ghost_step=_init_step)] if case == 'list' else []

    def setup(self, E, case):
        o = E.new(Obj(E.repo.mod('basis')['Basis']))
        E.gs['a'] = E.gs['b'] = z3.IntVal(0)
        if case == 'default':
            return Ctx([], self_=o, o=o, l=None)
        l = oslist(E, 'l')
        E.ghost['list'] = l
        E.ghost['pos'] = l.arrs[0], l.n
        return Ctx([l], self_=o, o=o, l=l, arr=l.arrs[0], n=l.n)

    def rep(self, c):
        a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
        return z3.Exists([a, b], z3.And(0 <= a, a < b, b < c.n, c.arr[a] == c.arr[b]))

    def raises(self, E, c):
        return [('ValueError', self.rep(c) if c.l is not None else False)]

    def post(self, E, c, res):
        out = well_formed(c.o)
        if c.l is None:
            return out + [('empty', iv(c.o.f['op_strings'].length()) == 0)]
        l = c.o.f['op_strings']
        return out + [('the given strings in the given order', z3.And(iv(l.n) == c.n, fa(c.n, lambda k: l.arrs[0][k] == c.arr[k])))]

    def stub(self, E, args, kw, node):
        o, l = args
        if l is None or (isinstance(l, Lst) and l.conc and not l.items):
            o.f['op_strings'] = l if l is not None else E.new(Lst.of([]))
            o.f['_indices'] = E.new(CDict())
            return None
        if not isinstance(l, Lst):
            raise Unsupported('Basis of {!r}'.format(l))
        if l.conc:
            s = l.as_sym(TOS)
            l.assign(s)
        n, arr = iv(l.n), l.arrs[0]
        d = E.new(SDict(TOS, TInt, 'bd'))
        a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
        dist = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), arr[a] != arr[b]), patterns=[z3.MultiPattern(arr[a], arr[b])])
        if not E.valid(dist):
            if E.choose(2) == 1:
                w, x = fresh(I, 'w'), fresh(I, 'w')
                E.assume(z3.And(0 <= w, w < x, x < n, arr[w] == arr[x]))
                from engine import PyExc
                raise PyExc('ValueError', 'line {}'.format(getattr(node, 'lineno', '?')))
            E.assume(dist)
        o.f['op_strings'], o.f['_indices'] = l, d
        E.assume(d.wf())
        E.assume(basis_inv(o))
        E.assume(forall([I], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.Select(d.idx, arr[k]) == k), lambda k: arr[k]))
        E.assume(forall([SOS], lambda s: z3.Implies(z3.Select(d.idx, s) >= 0, z3.And(z3.Select(d.idx, s) < n, arr[z3.Select(d.idx, s)] == s)), lambda s: z3.Select(d.idx, s)))
        return None


# ------------------------------------------------------------------------------ queries
class Query(Contract):
    mod, props = 'basis', ['C04']


@contract
class BIndex(Query):
    qual = 'Basis.index'

    def setup(self, E, case):
        b, s = new_basis(E), new_os(E)
        return Ctx([s], self_=b, b=b, s=s, snap=contents(b))

    def raises(self, E, c):
        n, arr, idx = c.snap
        return [('KeyError', z3.Select(idx, c.s.t) < 0)]

    def post(self, E, c, res):
        n, arr, idx = c.snap
        return [('the position of the string', z3.And(0 <= iv(res), iv(res) < n, arr[iv(res)] == c.s.t)), ('unchanged', unchanged(c.b, c.snap))]


@contract
class BContains(Query):
    qual = 'Basis.__contains__'

    def setup(self, E, case):
        b, s = new_basis(E), new_os(E)
        return Ctx([s], self_=b, b=b, s=s, snap=contents(b))

    def post(self, E, c, res):
        n, arr, idx = c.snap
        k = z3.FreshConst(I, 'k')
        return [('contained iff listed', bv(res) == z3.Exists([k], z3.And(0 <= k, k < n, arr[k] == c.s.t))), ('unchanged', unchanged(c.b, c.snap))]

    def exc_hints(self, E, c):
        return []


@contract
class BGetitem(Query):
    qual = 'Basis.__getitem__'

    def setup(self, E, case):
        b, i = new_basis(E), fresh(I, 'i')
        return Ctx([i], self_=b, b=b, i=i, snap=contents(b))

    def raises(self, E, c):
        return [('IndexError', z3.Or(c.i < -c.snap[0], c.i >= c.snap[0]))]

    def post(self, E, c, res):
        n, arr, idx = c.snap
        return [('the string at the position', res.t == arr[z3.If(c.i < 0, c.i + n, c.i)]), ('unchanged', unchanged(c.b, c.snap))]


@contract
class BLen(Query):
    qual = 'Basis.__len__'

    def setup(self, E, case):
        b = new_basis(E)
        return Ctx([], self_=b, b=b, snap=contents(b))

    def post(self, E, c, res):
        return [('the number of strings', iv(res) == c.snap[0]), ('unchanged', unchanged(c.b, c.snap))]


@contract
class BIter(Query):
    qual = 'Basis.__iter__'

    def setup(self, E, case):
        b = new_basis(E)
        return Ctx([], self_=b, b=b, snap=contents(b))

    def post(self, E, c, res):
        n, arr, idx = c.snap
        it = E.iterate(res, None)
        return [('every string once, in order', z3.And(iv(it.n) == n, fa(n, lambda k: it.get(k).t == arr[k]))), ('unchanged', unchanged(c.b, c.snap))]


# ----------------------------------------------------------------------------- additions
def _iadd_inv(L):
    E = L.E
    b = L['self']
    n0, a0, i0 = E.ghost['snap']
    m, oa = E.ghost['other']
    l, d, src = b.f['op_strings'], b.f['_indices'], L.G['src']
    n, arr, i = iv(l.n), l.arrs[0], L.i
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    s = z3.FreshConst(SOS, 's')
    out = [('representation invariant', z3.And(basis_inv(b)))]
    if L.has('ind'):
        out.append(('ind is the length', iv(L['ind']) == n))
    if E.ghost['self is other']:
        # the list is iterated over while it could grow: it does not
        return out + [('nothing is added', z3.And(n == n0, fa(n0, lambda k: arr[k] == a0[k], lambda k: arr[k]),
                       z3.ForAll([s], z3.And((z3.Select(i0, s) >= 0) == (z3.Select(d.idx, s) >= 0)), patterns=[z3.Select(d.idx, s)])))]
    out += [('the old part is kept', z3.And(n >= n0, fa(n0, lambda k: arr[k] == a0[k]))),
            ('the new part comes from the other basis, in its order', z3.And(
                fa(n, lambda k: z3.And(0 <= src[k], src[k] < i, arr[k] == oa[src[k]], z3.Select(i0, arr[k]) < 0), lambda k: src[k], lo=n0),
                z3.ForAll([k, k2], z3.Implies(z3.And(n0 <= k, k < k2, k2 < n), src[k] < src[k2]), patterns=[z3.MultiPattern(src[k], src[k2])]))),
            ('all earlier elements of the other basis are contained', fa(i, lambda k: z3.Select(d.idx, oa[k]) >= 0, lambda k: oa[k])),
            ('old elements are still contained', z3.ForAll([s], z3.Implies(z3.Select(i0, s) >= 0, z3.Select(d.idx, s) >= 0), patterns=[z3.Select(i0, s)]))]
    return out


def _iadd_step(L1, L0):
    l0, l1 = L0['self'].f['op_strings'], L1['self'].f['op_strings']
    src = L0.G['src']
    return {'src': z3.If(iv(l1.n) > iv(l0.n), z3.Store(src, iv(l0.n), L0.i), src)}


def merged(b, snap, other, src):
    """b holds the old strings followed by the new ones of the other basis in their order."""
    n0, a0, i0 = snap
    m, oa = other
    l, d = b.f['op_strings'], b.f['_indices']
    n, arr = iv(l.n), l.arrs[0]
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    return [('the old strings come first, unchanged', z3.And(n >= n0, fa(n0, lambda k: arr[k] == a0[k]))),
            ('then the new ones in the order of the other basis', z3.And(
                fa(n, lambda k: z3.And(0 <= src[k], src[k] < m, arr[k] == oa[src[k]], z3.Select(i0, arr[k]) < 0), lo=n0),
                z3.ForAll([k, k2], z3.Implies(z3.And(n0 <= k, k < k2, k2 < n), src[k] < src[k2]), patterns=[z3.MultiPattern(src[k], src[k2])]))),
            ('every string of the other basis is contained', fa(m, lambda k: z3.Select(d.idx, oa[k]) >= 0))]


@contract
class BIadd(Contract):
    """b += basis or string."""
    mod, qual, props = 'basis', 'Basis.__iadd__', ['C04', 'C05', 'C02']
    only_raises = 1
    cases = ['basis', 'itself', 'string', 'number', 'operator']

    def loops_for(self, case):
        return [Loop(_iadd_inv, ghosts={'src': z3.ArraySort(I, I)}, ghost_step=_iadd_step)] if case in ('basis', 'itself') else []

    def setup(self, E, case):
        b = new_basis(E)
        E.ghost['snap'] = contents(b)
        E.gs['src'] = fresh(z3.ArraySort(I, I), 'src')
        E.ghost['self is other'] = case == 'itself'
        if case == 'basis':
            o = new_basis(E, 'o')
        elif case == 'itself':
            o = b
        elif case == 'string':
            o = new_os(E)
        elif case == 'number':
            o = fresh(I, 'x')
        else:
            o = E.new(Obj(E.repo.mod('basis')['Operator']))
        if case in ('basis', 'itself'):
            E.ghost['other'] = contents(o)[:2]
        return Ctx([o], self_=b, b=b, o=o, case=case, snap=contents(b), osnap=contents(o) if isinstance(o, Obj) and case != 'operator' else None)

    def raises(self, E, c):
        return [('TypeError', c.case in ('number', 'operator'))]

    def exc_post(self, E, c, exc):
        return [('nothing changes', unchanged(c.b, c.snap))]

    def post(self, E, c, res):
        out = [('the same basis object is returned', z3.BoolVal(res is c.b))] + well_formed(c.b)
        if c.case == 'string':
            n0, a0, i0 = c.snap
            l, d = c.b.f['op_strings'], c.b.f['_indices']
            isin = z3.Select(i0, c.o.t) >= 0
            return out + [('the string is appended unless it is there', z3.And(iv(l.n) == z3.If(isin, n0, n0 + 1), fa(n0, lambda k: l.arrs[0][k] == a0[k]), z3.Implies(z3.Not(isin), l.arrs[0][n0] == c.o.t)))]
        if c.case == 'basis':
            out += merged(c.b, c.snap, c.osnap[:2], E.gs['src'])
            out.append(('the other basis is unchanged', unchanged(c.o, c.osnap)))
        else:
            out.append(('nothing to add', unchanged(c.b, c.snap)))
        return out

    def applies(self, E, args, kw):
        return isinstance(args[1], Obj)

    def stub(self, E, args, kw, node):
        b, o = args
        if b is o:
            return b
        if isinstance(b.f['_indices'], CDict):
            for x, sh in ((b.f['op_strings'], TOS), (b.f['_indices'], (TOS, TInt))):
                E.touch(x)
                if getattr(x, 'probe', False):
                    E.learn_shape(x, sh)
            sym_basis(E, b)
        if isinstance(o.f['_indices'], CDict):
            sym_basis(E, o)
        E.touch(b.f['op_strings'])
        E.touch(b.f['_indices'])
        snap = contents(b)
        other = contents(o)[:2]
        nb = new_basis(E, 'm')
        b.f['op_strings'].assign(nb.f['op_strings'])
        b.f['_indices'].assign(nb.f['_indices'])
        src = fresh(z3.ArraySort(I, I), 'src')
        dst = fresh(z3.ArraySort(I, I), 'dst')
        for nm, f in merged_ax(b, snap, other, src):
            E.assume(f)
        b.src = src
        return b


def merged_ax(b, snap, other, src):
    """merged() with patterns, for use as an assumption."""
    n0, a0, i0 = snap
    m, oa = other
    l, d = b.f['op_strings'], b.f['_indices']
    n, arr = iv(l.n), l.arrs[0]
    k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
    return [('', n >= n0), ('', fa(n0, lambda k: arr[k] == a0[k], lambda k: [arr[k], a0[k]])),
            ('', fa(n, lambda k: z3.And(0 <= src[k], src[k] < m, arr[k] == oa[src[k]], z3.Select(i0, arr[k]) < 0), lambda k: arr[k], lo=n0)),
            ('', z3.ForAll([k, k2], z3.Implies(z3.And(n0 <= k, k < k2, k2 < n), src[k] < src[k2]), patterns=[z3.MultiPattern(src[k], src[k2])])),
            ('', fa(m, lambda k: z3.Select(d.idx, oa[k]) >= 0, lambda k: oa[k]))]


def sym_basis(E, b):
    """An empty basis with known contents as one with symbolic contents."""
    l, d = b.f['op_strings'], b.f['_indices']
    if l.conc:
        if l.items:
            raise Unsupported('basis with known contents')
        l.assign(Lst.sym(TOS, z3.IntVal(0), name='e'))
        l.np = False
    if isinstance(d, CDict):
        from engine import become
        e = SDict.empty(TOS, TInt)
        E.assume(e.empty_facts())
        become(d, e)
        E.assume(d.wf())


@contract
class BAdd(Contract):
    """b + basis or string: a new basis; the operands are unchanged."""
    mod, qual, props = 'basis', 'Basis.__add__', ['C04']
    only_raises = 1
    cases = ['basis', 'string', 'number', 'operator']

    def setup(self, E, case):
        b = new_basis(E)
        o = new_basis(E, 'o') if case == 'basis' else new_os(E) if case == 'string' else fresh(I, 'x') if case == 'number' else E.new(Obj(E.repo.mod('basis')['Operator']))
        return Ctx([o], self_=b, b=b, o=o, case=case, snap=contents(b), osnap=contents(o) if case == 'basis' else None)

    def raises(self, E, c):
        return [('TypeError', c.case in ('number', 'operator'))]

    def exc_post(self, E, c, exc):
        return [('nothing changes', unchanged(c.b, c.snap))]

    def post(self, E, c, res):
        n0, a0, i0 = c.snap
        l, d = res.f['op_strings'], res.f['_indices']
        n, arr = iv(l.n), l.as_sym(TOS).arrs[0]
        out = [('a new basis', z3.BoolVal(res is not c.b and res is not c.o and l is not c.b.f['op_strings'] and d is not c.b.f['_indices'] and (c.case != 'basis' or l is not c.o.f['op_strings'])))]
        out += well_formed(res) + [('the operand is unchanged', unchanged(c.b, c.snap))]
        out.append(('the old strings come first, unchanged', z3.And(n >= n0, fa(n0, lambda k: arr[k] == a0[k]))))
        if c.case == 'string':
            isin = z3.Select(i0, c.o.t) >= 0
            return out + [('the string is appended unless it is there', z3.And(n == z3.If(isin, n0, n0 + 1), z3.Implies(z3.Not(isin), arr[n0] == c.o.t)))]
        m, oa, oi = c.osnap
        out.append(('the other operand is unchanged', unchanged(c.o, c.osnap)))
        out.append(('new strings come from the other basis', fa(n, lambda k: z3.And(z3.Select(oi, arr[k]) >= 0, z3.Select(i0, arr[k]) < 0), lo=n0)))
        k, k2 = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'k')
        out.append(('in the order of the other basis', z3.ForAll([k, k2], z3.Implies(z3.And(n0 <= k, k < k2, k2 < n), z3.Select(oi, arr[k]) < z3.Select(oi, arr[k2])))))
        out.append(('every string of the other basis is contained', fa(m, lambda k: z3.Select(d.idx, oa[k]) >= 0)))
        return out


@contract
class BEq(Contract):
    """Bases are equal iff they hold the same strings in the same order."""
    mod, qual, props = 'basis', 'Basis.__eq__', ['C04']

    def setup(self, E, case):
        b, o = new_basis(E), new_basis(E, 'o')
        return Ctx([o], self_=b, b=b, o=o, snap=contents(b), osnap=contents(o))

    def post(self, E, c, res):
        n, arr, _ = c.snap
        m, oa, _ = c.osnap
        same = z3.And(n == m, fa(n, lambda k: arr[k] == oa[k]))
        return [('equal iff the same strings in the same order', bv(res) == same), ('unchanged', z3.And(unchanged(c.b, c.snap), unchanged(c.o, c.osnap)))]
