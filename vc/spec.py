"""Specification functions (folds over arrays) and inductive lemmas.

A fold F(arrs, n, params) = sum_{k<n} step(arrs, k, params) is an uninterpreted function
whose definition is instantiated on the ground terms of each query:
  F(.., n) = 0 for n <= 0;  F(.., n) = F(.., n-1) + step(n-1) for n >= 1;
  F(Store(a, i, v), .., n) = F(a, .., n) for i >= n  (a fold does not read its arrays beyond n).
"""
import z3
from values import I, R, B, fresh, Cx, iv, rv, Unsupported

FOLDS = {}


class Fold(object):
    def __init__(self, name, arr_sorts, param_sorts, step, out='int', frees=True):
        """step(arrs, k, params) -> Int/Real term, or (re, im) when out == 'cx'."""
        self.name, self.step, self.out = name, step, out
        self.na, self.np = len(arr_sorts), len(param_sorts)
        o = I if out == 'int' else R
        doms = list(arr_sorts) + [I] + list(param_sorts)
        names = [name + '.re', name + '.im'] if out == 'cx' else [name]
        self.fs = [z3.Function(n, *(doms + [o])) for n in names]
        for f in self.fs:
            if f.name() in FOLDS:
                raise ValueError('fold {} defined twice'.format(name))
            FOLDS[f.name()] = self

    def __call__(self, arrs, n, params=()):
        a = list(arrs) + [iv(n)] + list(params)
        if self.out == 'cx':
            return Cx(self.fs[0](*a), self.fs[1](*a))
        return self.fs[0](*a)

    def steps(self, arrs, k, params):
        r = self.step(arrs, k, params)
        return list(r) if self.out == 'cx' else [r]

    def unfold(self, arrs, n, params=()):
        """Ground instance of the definition at n (guarded by n >= 1)."""
        n = iv(n)
        st = self.steps(arrs, n - 1, params)
        m = z3.simplify(n - 1)
        return [z3.Implies(n >= 1, f(*(list(arrs) + [n] + list(params))) == f(*(list(arrs) + [m] + list(params))) + s)
                for f, s in zip(self.fs, st)]

    def base(self, arrs, n, params=()):
        n = iv(n)
        return [z3.Implies(n <= 0, f(*(list(arrs) + [n] + list(params))) == 0) for f in self.fs]

    def congr(self, arrs, n, params=()):
        """Strips stores at positions >= n."""
        out = []
        args = list(arrs)
        guards = []
        changed = False
        new = []
        for a in args:
            while z3.is_store(a) and a.num_args() == 3:
                guards.append(a.arg(1) >= n)
                a = a.arg(0)
                changed = True
            new.append(a)
        if changed:
            for f in self.fs:
                out.append(z3.Implies(z3.And(guards), f(*(args + [n] + list(params))) == f(*(new + [n] + list(params)))))
            return out, [(self, tuple(new), n, tuple(params))]
        return [], []


def apps(fs):
    """Fold applications without bound variables in the formulas."""
    seen, out, stack = set(), [], list(fs)
    hasvar = {}

    def bound(t):
        k = t.get_id()
        if k not in hasvar:
            if z3.is_var(t):
                hasvar[k] = True
            elif z3.is_quantifier(t):
                hasvar[k] = True           # not looked into
            else:
                hasvar[k] = any(bound(c) for c in t.children())
        return hasvar[k]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            f = FOLDS.get(t.decl().name())
            if f is not None and not bound(t):
                a = t.children()
                out.append((f, tuple(a[:f.na]), a[f.na], tuple(a[f.na + 1:])))
            stack.extend(t.children())
    return out


def plus_const(n):
    """n is syntactically x + c with c >= 1, or a positive numeral."""
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return n.as_long() >= 1
    if z3.is_add(n):
        c = [x for x in n.children() if z3.is_int_value(x)]
        return bool(c) and c[0].as_long() >= 1
    return False


def fold_axioms(formulas, depth=3, force=()):
    """Ground definitional instances for the fold terms in the formulas."""
    out, done = [], set()
    todo = [(x, 0) for x in apps(formulas)] + [(x, 0) for x in force]
    forced = set((x[0].name, tuple(t.get_id() for t in x[1]), z3.simplify(iv(x[2])).get_id(), tuple(t.get_id() for t in x[3])) for x in force)
    keep = []
    while todo:
        (f, arrs, n, params), d = todo.pop()
        n = z3.simplify(iv(n))
        key = (f.name, tuple(t.get_id() for t in arrs), n.get_id(), tuple(t.get_id() for t in params))
        if key in done:
            continue
        done.add(key)
        keep.append((arrs, n, params))
        fs = f.base(arrs, n, params)
        more = []
        if d <= depth:
            c, m = f.congr(arrs, n, params)
            fs = fs + c
            more += m
            if plus_const(n) or key in forced:
                u = f.unfold(arrs, n, params)
                fs = fs + u
                more += apps(u)
        out += fs
        for x in more:
            todo.append((x, d + 1))
    return out


MENTION = {}


def mention(*terms):
    """A formula without content whose terms are ground terms of the query."""
    out = []
    for t in terms:
        so = t.sort()
        f = MENTION.setdefault(so.name() if not isinstance(so, z3.ArraySortRef) else so.sexpr(), z3.Function('mention_{}'.format(len(MENTION)), so, B))
        out.append(z3.Or(f(t), z3.Not(f(t))) if False else f(t))
    return z3.And(out)


def forall(sorts, body, pats=None, names='k'):
    """ForAll with fresh bound names; body and pats are functions of the variables."""
    vs = [z3.FreshConst(s, names) for s in sorts]
    b = body(*vs)
    ps = None
    if pats is not None:
        p = pats(*vs)
        ps = [z3.MultiPattern(*x) if isinstance(x, (list, tuple)) else x for x in (p if isinstance(p, list) else [p])]
    return z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b)


def fa(n, body, pat=None, lo=0, sorts=None):
    """forall lo <= k < n. body(k)"""
    k = z3.FreshConst(I, 'k')
    b = body(k)
    f = z3.Implies(z3.And(lo <= k, k < n), b)
    if pat is not None:
        p = pat(k)
        ps = [z3.MultiPattern(*x) if isinstance(x, (list, tuple)) else x for x in (p if isinstance(p, list) else [p])]
        return z3.ForAll([k], f, patterns=ps)
    return z3.ForAll([k], f)


LEMMAS = {}


class Lemma(object):
    """forall params, n >= start: hyp -> concl, proved by induction on n (or directly)."""

    def __init__(self, name, sorts, stmt, induct=True, start=0, uses=None, force=None):
        """stmt(n, *params) -> (hyps, concl); uses(n, *params) -> formulas (instances of
        other lemmas) available in base (n = start) and step (n -> n + 1)."""
        self.name, self.sorts, self.stmt = name, sorts, stmt
        self.induct, self.start, self.uses, self.force = induct, start, uses, force
        if name in LEMMAS:
            raise ValueError('lemma {} defined twice'.format(name))
        LEMMAS[name] = self

    def start_of(self, ps):
        return self.start(*ps) if callable(self.start) else z3.IntVal(self.start)

    def inst(self, n, *params):
        USED.add(self.name)
        h, c = self.stmt(iv(n), *params)
        return z3.Implies(z3.And([iv(n) >= self.start_of(params)] + list(h)), c)

    def obligations(self):
        """[(name, hypotheses, goal, forced unfoldings)]"""
        ps = [fresh(s, 'p') for s in self.sorts]
        s = self.start_of(ps)
        n = fresh(I, 'n')
        out = []
        if not self.induct:
            h, c = self.stmt(n, *ps)
            u = self.uses(n, *ps) if self.uses else []
            fo = self.force(n, *ps) if self.force else []
            return [('lemma ' + self.name, [n >= s] + list(h) + list(u), c, fo)]
        h, c = self.stmt(s, *ps)
        u = self.uses(s, *ps) if self.uses else []
        fo = self.force(s, *ps) if self.force else []
        out.append(('lemma {} (base)'.format(self.name), list(h) + list(u), c, fo))
        h0, c0 = self.stmt(n, *ps)
        h1, c1 = self.stmt(n + 1, *ps)
        u = self.uses(n + 1, *ps) if self.uses else []
        fo = self.force(n + 1, *ps) if self.force else []
        out.append(('lemma {} (step)'.format(self.name), [n >= s, z3.Implies(z3.And(list(h0) + [z3.BoolVal(True)]), c0)] + list(h1) + list(u), c1, fo))
        return out


USED = set()
