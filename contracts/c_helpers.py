"""Contracts of the ordering, text and duplicate helpers in qosy/tools.py (C23, C21)."""
import z3
from values import *
from engine import Contract, Ctx, Loop, PyExc
from spec import fa, forall
import lib as L_

CONTRACTS = []
AI = z3.ArraySort(I, I)


def contract(c):
    CONTRACTS.append(c())
    return c


def intlist(E, name, np=False):
    l = E.new(Lst.sym(TInt, fresh(I, name + '_n'), np=np, name=name))
    E.assume(l.n >= 0)
    return l


def permutation_of(r, perm, inv, n):
    k = z3.FreshConst(I, 'k')
    return z3.And(iv(r.n) == n, fa(n, lambda k: z3.And(0 <= r.arrs[0][k], r.arrs[0][k] < n)), fa(n, lambda k: z3.And(0 <= inv[k], inv[k] < n, r.arrs[0][inv[k]] == k)))


CMP = z3.Function('comparison', I, I, I)


@contract
class Argsort(Contract):
    """argsort(list) and argsort(list, comparison of positions): the stable sorting permutation."""
    mod, qual, props = 'tools', 'argsort', ['C23', 'C13']
    cases = ['by value', 'by real value', 'by comparison']

    def setup(self, E, case):
        if case == 'by real value':
            l = E.new(Lst.sym(TReal, fresh(I, 'l_n'), name='l'))
            E.assume(l.n >= 0)
        else:
            l = intlist(E, 'l')
        kw = {}
        if case == 'by comparison':
            a, b, d = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b'), z3.FreshConst(I, 'd')
            # a consistent comparison of positions
            E.assume(z3.ForAll([a, b], z3.And((CMP(a, b) < 0) == (CMP(b, a) > 0)), patterns=[CMP(a, b)]))
            E.assume(z3.ForAll([a, b, d], z3.Implies(z3.And(CMP(a, b) <= 0, CMP(b, d) <= 0), CMP(a, d) <= 0), patterns=[z3.MultiPattern(CMP(a, b), CMP(b, d))]))
            kw['comp'] = lambda E, args, kwargs, node: CMP(iv(args[0]), iv(args[1]))
        return Ctx([l], kw, l=l, arr=l.arrs[0], n=l.n, case=case)

    def post(self, E, c, res):
        if not isinstance(res, Lst) or res.conc:
            r = res.as_sym(TInt)
            return [('length', iv(r.n) == c.n)] + ([('one element', z3.Implies(c.n == 1, r.arrs[0][0] == 0))] if res.conc else [])
        r = res
        inv = getattr(res, 'inv', None)
        if inv is None and getattr(res, 'perm', None) is not None:
            inv = res.perm.inv
        i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
        x, y = r.arrs[0][i], r.arrs[0][j]
        if c.case == 'by comparison':
            gt, eq = CMP(y, x) < 0, z3.And(z3.Not(CMP(y, x) < 0), z3.Not(CMP(x, y) < 0))
        else:
            gt, eq = c.arr[y] < c.arr[x], c.arr[x] == c.arr[y]
        rng = z3.And(0 <= i, i < j, j < c.n)
        return [('the positions, each once', permutation_of(r, None, inv, c.n) if inv is not None else z3.BoolVal(False)),
                ('in order', z3.ForAll([i, j], z3.Implies(rng, z3.Not(gt)))),
                ('equal elements keep their order', z3.ForAll([i, j], z3.Implies(z3.And(rng, eq), x < y))),
                ('the list is unchanged', z3.And(iv(c.l.n) == c.n, fa(c.n, lambda k: c.l.arrs[0][k] == c.arr[k])))]


# ------------------------------------------------------------------- remove_duplicates
OBJ = TOpq('Thing')
ST = OBJ.sorts[0]
EQV = z3.Function('equiv', ST, ST, B)


def _rd_inv(L):
    u, i, src, rep = L['uniques'], L.i, L.G['src'], L.G['rep']
    objs = L.E.ghost['objs']
    if u.conc:
        return [('nothing yet', z3.And(i == 0, z3.BoolVal(not u.items)))]
    n = iv(u.n)
    ua = u.arrs[0]
    k, m = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'm')
    return [('kept objects come from increasing positions', z3.And(0 <= n, n <= i, fa(n, lambda k: z3.And(0 <= src[k], src[k] < i, ua[k] == objs[src[k]]), lambda k: src[k]),
                                                             z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < n), src[k] < src[m]), patterns=[z3.MultiPattern(src[k], src[m])]))),
            ('every object has a kept equivalent one that comes not later', fa(i, lambda k: z3.And(0 <= rep[k], rep[k] < n, src[rep[k]] <= k, z3.Or(src[rep[k]] == k, EQV(objs[k], ua[rep[k]]))), lambda k: rep[k])),
            ('kept objects are not equivalent to earlier kept ones', z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < n), z3.Not(EQV(ua[m], ua[k])))))]


def _rd_step(L1, L0):
    u0, u1, src, rep = L0['uniques'], L1['uniques'], L0.G['src'], L0.G['rep']
    n0 = iv(u0.length())
    n1 = iv(u1.length())
    _, w = L1.E.last_any if getattr(L1.E, 'last_any', None) else (None, None)
    grew = n1 > n0
    return {'src': z3.If(grew, z3.Store(src, n0, L0.i), src), 'rep': z3.Store(rep, L0.i, z3.If(grew, n0, w))}


@contract
class RemoveDuplicates(Contract):
    """remove_duplicates(objects, equiv): the first representatives, in order."""
    mod, qual, props = 'tools', 'remove_duplicates', ['C21', 'C13']
    loops = [Loop(_rd_inv, ghosts={'src': AI, 'rep': AI}, ghost_step=_rd_step, types={'uniques': TLst(OBJ)})]

    def setup(self, E, case):
        l = E.new(Lst.sym(OBJ, fresh(I, 'l_n'), name='l'))
        E.assume(l.n >= 0)
        E.ghost['objs'] = l.arrs[0]
        E.gs['src'] = E.gs['rep'] = fresh(AI, 'g0')
        f = lambda E, args, kwargs, node: EQV(args[0].t, args[1].t)
        return Ctx([l], {'equiv': f}, l=l, arr=l.arrs[0], n=l.n)

    def post(self, E, c, res):
        if res.conc:
            return [('nothing to keep', z3.And(c.n == 0, z3.BoolVal(not res.items)))]
        u, ua, src, rep = iv(res.n), res.arrs[0], E.gs['src'], E.gs['rep']
        k, m = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'm')
        return [('a sublist in order', z3.And(fa(u, lambda k: z3.And(0 <= src[k], src[k] < c.n, ua[k] == c.arr[src[k]])), z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < u), src[k] < src[m])))),
                ('every object is kept or equivalent to an earlier kept one', fa(c.n, lambda k: z3.And(0 <= rep[k], rep[k] < u, z3.Or(src[rep[k]] == k, z3.And(src[rep[k]] < k, EQV(c.arr[k], ua[rep[k]])))))),
                ('no kept object is equivalent to an earlier kept one', z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < u), z3.Not(EQV(ua[m], ua[k]))))),
                ('the list is unchanged', z3.And(iv(c.l.n) == c.n, fa(c.n, lambda k: c.l.arrs[0][k] == c.arr[k])))]


# ---------------------------------------------------------------------- replace and swap
# A regular expression that is an alternation of escaped literals matches, at the leftmost
# position where some literal occurs, the first literal of the alternation that occurs there,
# and sub() replaces all non-overlapping matches from left to right by function results
# (assumed contract of the library re). What is proved is that replace() builds this
# alternation from exactly the keys, longer ones first, and maps every match to its entry.
TKEY = TOpq('Key')
SK = TKEY.sorts[0]
KLEN = z3.Function('length', SK, I)
L_.OPQ_LEN['Key'] = lambda E, o, node=None: KLEN(o.t)


class Regex(object):
    def __init__(self, l):
        self.l = l


def _escape(E, args, kw, node):
    raise Unsupported('re.escape outside map')


L_.LIB['re.escape'] = _escape


def _map(E, args, kw, node):
    f, l = args
    if isinstance(f, Lib) and f.path == 're.escape' and isinstance(l, Lst) and not l.conc and l.shape == TKEY:
        r = l.copy()
        r.escaped = True
        return E.new(r)
    if isinstance(l, Lst) and l.conc:
        return E.new(Lst.of([E.call(f, [x], {}, node) for x in l.items]))
    if isinstance(l, Lst):
        return L_.map_term(E, l.n, lambda k: E.call(f, [l.get(k)], {}, node))
    raise Unsupported('map')


L_.LIB['builtins.map'] = _map


def _join(E, o, l, node):
    if isinstance(l, Lst) and getattr(l, 'escaped', False):
        t = Text()
        t.alternatives = (o, l)
        return t
    return NotImplemented


L_.TEXT_JOIN.append(_join)


def _compile(E, args, kw, node):
    t = args[0]
    alt = getattr(t, 'alternatives', None)
    if alt is None or alt[0] != '|' or len(args) > 1 or kw:
        raise Unsupported('regular expression')
    return Regex(alt[1])


L_.LIB['re.compile'] = _compile


class Match(object):
    def __init__(self, key):
        self.key = key


class Substituted(object):
    """The result of sub(): the alternation, the function of the match, the text."""

    def __init__(self, regex, f, text):
        self.regex, self.f, self.text = regex, f, text


def _attr(E, o, attr, node):
    from lib import Bound, method
    if isinstance(o, Regex) and attr == 'sub':
        return Bound(method(lambda E, o, f, text, node=None: Substituted(o, f, text)), o)
    if isinstance(o, Match) and attr == 'group':
        def group(E, o, i=0, node=None):
            if i != 0:
                raise Unsupported('group')
            return o.key
        return Bound(method(group), o)
    return NotImplemented


L_.GETATTR.append(_attr)


@contract
class Replace(Contract):
    """replace(text, substitutions): one pass, longer names first (given the semantics of re)."""
    mod, qual, props = 'tools', 'replace', ['C23']

    def setup(self, E, case):
        d = E.new(SDict(TKEY, TKEY, 'subs'))
        E.assume(d.wf())
        k = z3.FreshConst(SK, 'k')
        E.assume(z3.ForAll([k], KLEN(k) >= 0, patterns=[KLEN(k)]))
        t = Text()
        E.assume(d.n >= 1)
        return Ctx([t, d], d=d, t=t, snap=(d.n, d.idx, d.vals[0], d.keys[0]))

    def post(self, E, c, res):
        if not isinstance(res, Substituted) or res.text is not c.t:
            return [('the substitution is applied to the text', z3.BoolVal(False))]
        n, idx, vals, keys = c.snap
        l = res.regex.l
        a = l.arrs[0]
        i, j, s = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j'), z3.FreshConst(SK, 's')
        out = [('exactly the keys are searched for', z3.And(iv(l.n) == n, fa(n, lambda k: z3.Select(idx, a[k]) >= 0))),
               ('every key is searched for', fa(n, lambda k: z3.Exists([j], z3.And(0 <= j, j < n, a[j] == keys[k])))),
               ('longer names take precedence', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), KLEN(a[i]) >= KLEN(a[j]))))]
        m = fresh(SK, 'matched')
        E.assume(z3.Select(idx, m) >= 0)
        r = E.call(res.f, [Match(Opq(m, 'Key'))], {}, None)
        out.append(('every match is replaced by its entry', r.t == vals[m] if isinstance(r, Opq) else z3.BoolVal(False)))
        return out

    def stub(self, E, args, kw, node):
        return Replaced(args[0], args[1])


class Replaced(object):
    def __init__(self, text, d):
        self.text, self.d = text, d


@contract
class Swap(Contract):
    """swap(text, A, B) is replace(text, {A: B, B: A})."""
    mod, qual, props = 'tools', 'swap', ['C23']

    def setup(self, E, case):
        t = Text()
        return Ctx([t, 'nameA', 'nameB'], t=t)

    def post(self, E, c, res):
        ok = isinstance(res, Replaced) and res.text is c.t and isinstance(res.d, CDict) and res.d.d == {'nameA': 'nameB', 'nameB': 'nameA'}
        return [('both names are exchanged in one pass', z3.BoolVal(ok))]
