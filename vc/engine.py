"""Symbolic execution of the functions in /repo/qosy, read from the source on every run.

Every path of a function body is executed symbolically; loops over unknown sequences and
unknown while loops are cut by invariants (contracts/*.py); calls of functions under
contract are replaced by their contracts, other qosy functions are executed in place.
"""
import ast, os, time, copy as pycopy
import z3
import values as V
from values import *
import spec
from spec import fold_axioms


class PyExc(Exception):
    """An exception raised by the program under verification."""

    def __init__(self, name, where=''):
        self.name, self.where = name, where


class Infeasible(Exception):
    pass


class PathDone(Exception):
    pass


class Restart(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


EXC_PARENTS = {'NotImplementedError': 'RuntimeError', 'KeyError': 'LookupError', 'IndexError': 'LookupError'}


class Env(object):
    def __init__(self, vars, mod, qual, parent=None):
        self.vars, self.mod, self.qual, self.parent = vars, mod, qual, parent


class Ob(object):
    """Result of one obligation."""

    def __init__(self, name, status, secs, backend, detail=''):
        self.name, self.status, self.secs, self.backend, self.detail = name, status, secs, backend, detail


class Repo(object):
    """The modules of /repo/qosy as syntax trees."""

    def __init__(self, root='/repo/qosy'):
        self.root = root
        self.mods = {}
        self.src = {}

    def mod(self, name):
        if name not in self.mods:
            path = os.path.join(self.root, name + '.py')
            src = open(path).read()
            self.src[name] = src
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src)
            m = {'__name__': name}
            self.mods[name] = m
            self.load(m, tree, name)
        return self.mods[name]

    def load(self, m, tree, name):
        for st in tree.body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    m[a.asname or a.name.split('.')[0]] = Lib(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                if st.level == 1 or (st.module or '').startswith('qosy'):
                    src = self.mod((st.module or '').split('.')[-1]) if st.module else {}
                    for a in st.names:
                        if a.name == '*':
                            for k, v in src.items():
                                if not k.startswith('_'):
                                    m[k] = v
                        elif a.name in src:
                            m[a.asname or a.name] = src[a.name]
                        else:
                            m[a.asname or a.name] = Lib('qosy.?' + a.name)
                else:
                    for a in st.names:
                        m[a.asname or a.name] = Lib(st.module + '.' + a.name)
            elif isinstance(st, ast.FunctionDef):
                m[st.name] = Fn(st, name, st.name)
            elif isinstance(st, ast.ClassDef):
                c = Cls(st.name, name, {})
                for x in st.body:
                    if isinstance(x, ast.FunctionDef):
                        c.methods[x.name] = Fn(x, name, st.name + '.' + x.name)
                m[st.name] = c
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            elif isinstance(st, (ast.Assign, ast.For, ast.If, ast.AugAssign)):
                ex = Engine(self, None)
                ex.begin([])
                ex.block([st], Env(m, name, '<module>'))
            else:
                raise Unsupported('module-level statement {} in {}'.format(type(st).__name__, name))

    def fn(self, modname, qual):
        m = self.mod(modname)
        parts = qual.split('.')
        try:
            if len(parts) == 1:
                f = m[parts[0]]
            elif isinstance(m[parts[0]], Fn):       # a function defined inside a function
                f = m[parts[0]]
                for p in parts[1:]:
                    f = Fn([x for x in f.node.body if isinstance(x, ast.FunctionDef) and x.name == p][0], f.mod, f.qual + '.' + p)
            else:
                f = m[parts[0]].methods[parts[1]]
        except (KeyError, AttributeError, IndexError):
            raise Unsupported('{}.{} does not exist'.format(modname, qual))
        if not isinstance(f, Fn):
            raise Unsupported('{}.{} is not a function'.format(modname, qual))
        return f


class LiveIter(object):
    """Iteration over a list that may grow in the body."""

    def __init__(self, v):
        self.v = v

    @property
    def n(self):
        return self.v.length()

    def get(self, i):
        return self.v.get(i)


class View(object):
    """Access to the program variables for invariants."""

    def __init__(self, E, env, i=None, n=None, extra=None, snap=None):
        self.E, self.env, self.i, self.n = E, env, i, n
        self.snap = snap
        self.x = extra or {}
        self._G = dict(E.gs) if snap is not None else None
        self.outer = E.views[-1] if E.views else None

    @property
    def G(self):
        """Ghost variables."""
        return self._G if self._G is not None else self.E.gs

    def __getitem__(self, name):
        if self.snap is not None and name in self.snap:
            return self.snap[name]
        e = self.env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            other = self.E.aliases(e).get(name)
            if other is not None and self.snap is not None and other in self.snap:
                return self.snap[other]
            if other is not None and other in e.vars:
                return e.vars[other]
            e = e.parent
        raise Unsupported('the invariant speaks about {!r}, which does not exist here'.format(name))

    def has(self, name):
        try:
            self[name]
            return True
        except Unsupported:
            return False


class Lost(object):
    """The value of a variable that a loop binds to unknown objects; any use is an error."""

    def __init__(self, name):
        self.name = name


class Loop(object):
    """Loop specification. inv(L) -> [(name, formula)]; hints(L, L0) -> lemma instances
    for the preservation proof; force(L, L0) -> fold applications to unfold; types:
    name -> Shape of havocked variables; exit_hints(L): instances assumed after the loop."""

    def __init__(self, inv, hints=None, force=None, types=None, exit_hints=None, start=None, decreases=None, label='', entry_hints=None, when=None, ghosts=None, ghost_init=None, ghost_step=None, optional=False):
        self.inv, self.hints, self.force = inv, hints, force
        self.types = types or {}
        self.exit_hints, self.start, self.decreases, self.label = exit_hints, start, decreases, label
        self.entry_hints = entry_hints
        self.when = when
        self.ghosts, self.ghost_init, self.ghost_step, self.optional = ghosts or {}, ghost_init, ghost_step, optional


class Engine(object):
    def __init__(self, repo, contracts, timeout=20.0, deadline=None):
        self.repo, self.contracts = repo, contracts
        self.timeout = timeout
        self.deadline = deadline
        self.obs = []
        self.checked = {}
        self.ctr = None
        self.loop_ord = {}
        self.learned = {}
        self.live_loops = set()
        self.npaths = 0
        self.solver_secs = 0.0
        self.assumed = {}
        self.ghost = {}
        self._aliases = {}
        self.reach = set()
        self.pending, self.canaries = [], []
        self.outer = ()
        self.views = []

    # ------------------------------------------------------------------ path handling
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.pc = []
        self.light = z3.Solver()
        self.light.set('timeout', 1500)
        self.serial = 0
        self.depth = 0
        self.obcount = 0
        self.loops_active = []
        self.ctags = set()
        self.pathcache = None
        self.outer = ()
        self.views = []
        self.gs = {}
        V.reset_fresh()
        self.ghost = {}

    def new(self, o):
        if isinstance(o, HeapObj) and o.serial < 0:
            self.serial += 1
            o.serial = self.serial
        return o

    def assume(self, f, why=None):
        if why is not None:
            self.assumed[why] = self.assumed.get(why, 0) + 1
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)
        if not has_quant(f):
            self.light.add(f)

    def choose(self, n, labels=None):
        """Nondeterministic choice (explored exhaustively)."""
        if len(self.dec) < len(self.prefix):
            d = self.prefix[len(self.dec)]
            self.dec.append(d)
        else:
            for k in range(n - 1, 0, -1):
                self.todo.append(self.dec + [k])
            self.dec.append(0)
            d = 0
        if self.pathcache is not None:
            # in the body of a comprehension: the choice is a value at every position
            self.decide(V.fresh(I, 'choice') == d)
        return d

    def decide(self, c):
        """Assumes a condition that tells this path from others (unlike a fact)."""
        a = len(self.pc)
        self.assume(c)
        self.ctags.update(range(a, len(self.pc)))

    def branch(self, cond):
        """Truth of a condition; forks the path if it is not determined."""
        if isinstance(cond, bool):
            return cond
        if not is_z(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if len(self.dec) < len(self.prefix):
            d = self.prefix[len(self.dec)]
            self.dec.append(d)
            self.decide(c if d == 1 else z3.Not(c))
            return d == 1
        can_t = self.sat(c)
        can_f = self.sat(z3.Not(c))
        if not can_t and not can_f:
            raise Infeasible()
        if can_t and can_f:
            self.todo.append(self.dec + [0])
            self.dec.append(1)
            self.decide(c)
            return True
        d = 1 if can_t else 0
        self.dec.append(d)
        self.decide(c if can_t else z3.Not(c))
        return can_t

    def sat(self, c):
        if has_quant(c):
            return True
        self.light.push()
        self.light.add(c)
        r = self.light.check()
        self.light.pop()
        return r != z3.unsat

    def valid(self, goal, extra=(), budget=4.0):
        """Is the goal provable here? (used to avoid exploring impossible cases)"""
        g = z3.simplify(bv(goal))
        if z3.is_true(g):
            return True
        if not has_quant(g) and not self.sat(z3.Not(g)):
            return True
        st, _, _, _ = self.query(list(self.pc) + list(extra), g, [], budget, quick=True)
        return st == 'proved'

    # -------------------------------------------------------------------- obligations
    def query(self, hyps, goal, force, timeout, quick=False):
        t0 = time.time()
        goal = skolem_goal(goal)
        ax = fold_axioms(list(hyps) + [goal], force=force)
        plans = [('z3', dict(mbqi=False, simple=True), min(timeout, 2.0))]
        if not quick:
            plans += [('z3', dict(mbqi=False), min(timeout, 1.0)), ('cvc5', {}, min(timeout, 5.0)), ('z3', dict(auto=True), min(timeout, 5.0)), ('z3', dict(mbqi=False, seed=7, arith=2), min(timeout, 5.0)),
                      ('cvc5', dict(opts=['--enum-inst']), timeout), ('z3', dict(mbqi=True), timeout), ('z3', dict(mbqi=False, seed=3), timeout), ('cvc5', {}, timeout)]
        st, detail, be = 'unknown', '', 'z3'
        if not quick or True:
            # products of unknowns as uninterpreted applications (a weakening: sound for unsat)
            fs, changed = abstract_products(list(hyps) + ax + [z3.Not(goal)])
            if changed:
                s = z3.SimpleSolver()
                s.set('timeout', 2000)
                s.set('auto_config', False)
                s.set('mbqi', False)
                s.add(fs)
                if s.check() == z3.unsat:
                    dt = time.time() - t0
                    self.solver_secs += dt
                    return 'proved', dt, 'z3', ''
        if not quick and len(hyps) > 14:
            # fewer hypotheses (sound for unsat): the last ones, and the ones about the symbols of the goal
            plans[1:1] = [('z3', dict(mbqi=False, keep=k), min(timeout, 1.0)) for k in (10, 24, 'near')]
        if len(hyps) > 14:
            plans[0:0] = [('z3', dict(mbqi=False, keep='within'), 0.3)]
        for be, opt, to in plans:
            if self.deadline and time.time() > self.deadline:
                detail = 'time budget exhausted'
                break
            if be == 'z3':
                s = z3.SimpleSolver() if opt.get('simple') or 'keep' in opt else z3.Solver()
                s.set('timeout', int(to * 1000))
                if not opt.get('auto'):
                    s.set('auto_config', False)
                    s.set('mbqi', opt.get('mbqi', False))
                if 'seed' in opt:
                    s.set('random_seed', opt['seed'])
                if 'arith' in opt:
                    s.set('arith.solver', opt['arith'])
                if 'keep' in opt:
                    sub = near_hyps(list(hyps), goal, opt['keep'] == 'within') if opt['keep'] in ('near', 'within') else list(hyps)[-opt['keep']:]
                    s.add(sub)
                    s.add(fold_axioms(sub + [goal], force=force))
                else:
                    s.add(hyps)
                    s.add(ax)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    st = 'proved'
                    break
                if 'keep' in opt:
                    continue
                if r == z3.sat:
                    st = 'refuted'
                    try:
                        m = s.model()
                        detail = ', '.join('{} = {}'.format(d.name(), m[d]) for d in m.decls()[:60] if d.arity() == 0)[:3000]
                    except z3.Z3Exception:
                        detail = ''
                    break
                detail = s.reason_unknown()
            else:
                r = run_cvc5(list(hyps) + ax + [z3.Not(goal)], to, opt.get('opts', []))
                if r == 'unsat':
                    st = 'proved'
                    break
        dt = time.time() - t0
        self.solver_secs += dt
        return st, dt, be, detail

    def oblige(self, name, goal, node=None, hints=(), force=()):
        """One proof obligation: the goal must follow from the path condition. It is
        recorded here and discharged at the end (discharge)."""
        where = '{}:{}'.format(self.where, getattr(node, 'lineno', '?')) if node is not None else self.where
        key = (self.outer, tuple(self.dec), self.obcount)
        self.obcount += 1
        full = '{} / {}'.format(where, name)
        if key in self.checked:
            self.assume_goal(goal)
            return
        self.checked[key] = full
        goals = split_goal(bv(goal))
        for k, g1 in enumerate(goals):
            nm = full if len(goals) == 1 else '{} ({})'.format(full, k + 1)
            g1 = z3.simplify(g1) if not has_quant(g1) else g1
            self.pending.append((nm, list(self.pc) + list(hints), g1, list(force)))
        self.assume_goal(goal)

    def assume_goal(self, goal):
        g = bv(goal)
        if not has_quant(g):
            self.light.add(g)
        self.pc.append(g)

    # --------------------------------------------------------------------- verification
    def verify(self, ctr, case):
        """Obligations of all paths of the function of one contract, in one case of its
        precondition (collected in self.pending; to be discharged by discharge())."""
        self.ctr, self.case = ctr, case
        V.CUR[0] = self
        self.loop_ord = {}
        self.learned = {}
        self.live_loops = set()
        self.where = ctr.qual + (' [{}]'.format(ctr.case_name(case)) if ctr.case_name(case) else '')
        fn = self.repo.fn(ctr.mod, ctr.qual)
        restarts = 0
        while True:
            self.pending, self.checked, self.reach, self.canaries = [], {}, set(), []
            try:
                self.explore_all(ctr, case, fn)
                break
            except Restart:
                restarts += 1
                if restarts > 80:
                    raise Unsupported('loop frame does not stabilise')
        for k, lp in enumerate(ctr.loops_for(case)):
            if k not in self.reach and not getattr(lp, 'optional', False):
                self.obs.append(Ob(self.where + ' / loop specification {} is used'.format(k), 'refuted', 0, 'z3', 'no loop of the function was cut with this invariant'))
        return self.pending

    def explore_all(self, ctr, case, fn):
        self.todo = [[]]
        paths = 0
        first = True
        while self.todo:
            prefix = self.todo.pop()
            paths += 1
            self.npaths += 1
            if paths > ctr.max_paths:
                raise Unsupported('more than {} paths'.format(ctr.max_paths))
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            self.begin(prefix)
            try:
                ctx = ctr.setup(self, case)
                if first:
                    first = False
                    self.canaries.append((self.where + ' / precondition is satisfiable', list(self.pc), True))
                try:
                    if getattr(ctx, 'closure', None) is not None:
                        cenv = Env({}, fn.mod, fn.qual.rsplit('.', 1)[0])
                        al = self.aliases(cenv)
                        cenv.vars.update((al.get(x, x), v) for x, v in ctx.closure.items())
                        f2 = Fn(fn.node, fn.mod, fn.qual, cenv)
                        cenv.vars[fn.node.name] = f2
                        res = self.run_fn(f2, ctx.args, ctx.kwargs, ctx.self_)
                    else:
                        res = self.run_fn(fn, ctx.args, ctx.kwargs, ctx.self_)
                    exc = None
                except PyExc as e:
                    exc = e
                if exc is None:
                    raises = ctr.raises(self, ctx)
                    for r_ in raises:
                        if r_[0] != '*':
                            self.oblige('rejects ({})'.format(r_[0]), z3.Not(bv(r_[1])))
                    for it in ctr.post(self, ctx, res):
                        h = it[2] if len(it) > 2 else []
                        self.oblige('ensures ' + it[0], it[1], None, h, it[3] if len(it) > 3 else [])
                    self.canaries.append((self.where + ' / some execution reaches the postcondition', list(self.pc), False))
                else:
                    raises = [r_[-1] for r_ in ctr.raises(self, ctx) if exc.name == r_[0] or r_[0] == '*']
                    goal = z3.Or([bv(c) for c in raises]) if raises else z3.BoolVal(False)
                    self.oblige('no unexpected {} at {}'.format(exc.name, exc.where), goal, None, ctr.exc_hints(self, ctx))
                    for it in ctr.exc_post(self, ctx, exc):
                        self.oblige('on {}: {}'.format(exc.name, it[0]), it[1])
                    if raises and ctr.only_raises:
                        self.canaries.append((self.where + ' / some execution reaches the postcondition', list(self.pc), False))
            except (Infeasible, PathDone):
                pass

    def discharge(self, jobs=1):
        """Decides the pending obligations and the vacuity checks."""
        goals = [(n, h, g, f, 'goal') for n, h, g, f in self.pending]
        pre = [c for c in self.canaries if c[2]]
        ends = [c for c in self.canaries if not c[2]]
        tasks = goals + [(n, h, z3.BoolVal(False), [], 'pre') for n, h, _ in pre]

        def solve(t):
            n, h, g, f, kind = t
            if kind == 'goal':
                st, dt, be, detail = self.query(h, g, f, self.timeout)
                return Ob(n, st, dt, be, detail)
            st, dt, be, detail = self.query(h, g, f, 1.5, quick=True)
            return Ob(n + ' (vacuity check)', 'refuted' if st == 'proved' else 'proved', dt, 'z3', 'the precondition is contradictory' if st == 'proved' else '')
        self.obs += pmap(solve, tasks, jobs)
        # at least one path must reach the end with satisfiable assumptions
        ok, secs = False, 0.0
        for n, h, _ in ends:
            st, dt, be, detail = self.query(h, z3.BoolVal(False), [], 1.5, quick=True)
            secs += dt
            if st != 'proved':
                ok = True
                break
        self.obs.append(Ob(self.where + ' / some execution reaches the postcondition (vacuity check)', 'proved' if ok else 'refuted', secs, 'z3', '' if ok else 'every path is contradictory'))
        return self.obs

    def vacuous(self):
        st, _, _, _ = self.query(list(self.pc), z3.BoolVal(False), [], 1.0, quick=True)
        return st == 'proved'

    # ------------------------------------------------------------------------ functions
    def bind(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        if a.kwarg:
            raise Unsupported('**kwargs in {}'.format(fn.qual))
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            raise PyExc('TypeError', 'too many arguments')
        for n, v in zip(names, args):
            vars[n] = v
        for k, v in kwargs.items():
            if k in vars or k not in names + [x.arg for x in a.kwonlyargs]:
                raise PyExc('TypeError', 'argument ' + k)
            vars[k] = v
        env0 = Env(self.repo.mod(fn.mod), fn.mod, fn.qual)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in vars:
                vars[n] = self.ev(d, env0)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars and d is not None:
                vars[x.arg] = self.ev(d, env0)
        for n in names:
            if n not in vars:
                raise PyExc('TypeError', 'missing argument ' + n)
        return vars

    def run_fn(self, fn, args, kwargs, self_=None):
        if self_ is not None:
            args = [self_] + list(args)
        vars = self.bind(fn, args, kwargs)
        self.depth += 1
        if self.depth > 25:
            raise Unsupported('recursion without a contract in {}'.format(fn.qual))
        env = Env(vars, fn.mod, fn.qual, fn.closure)
        self.frame = env
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env)
            self.block(fn.node.body, env)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1

    def call(self, f, args, kwargs, node=None, env=None):
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + list(args), kwargs, node)
            return f.fn(self, f.self_, args, kwargs, node)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kwargs, node)
        if isinstance(f, Cls):
            c = self.contracts.get((f.mod, f.name)) if self.contracts else None
            if c is not None and c.stub is not None and not self.is_root(c):
                return c.stub(self, args, kwargs, node)
            import lib
            for h in lib.NEW_OBJ:
                r = h(self, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            o = self.new(Obj(f))
            init = f.methods.get('__init__')
            if init is not None:
                self.call_fn(init, [o] + list(args), kwargs, node)
            return o
        if isinstance(f, Lib):
            import lib
            h = lib.LIB.get(f.path)
            if h is None:
                raise Unsupported('library function {}'.format(f.path))
            return h(self, args, kwargs, node)
        if callable(f):
            return f(self, args, kwargs, node)
        raise Unsupported('call of {!r}'.format(f))

    def is_root(self, c):
        return c is self.ctr and not c.recursive

    def call_fn(self, fn, args, kwargs, node):
        c = self.contracts.get((fn.mod, fn.qual)) if self.contracts else None
        if c is not None and c.stub is not None and not self.is_root(c) and c.applies(self, args, kwargs):
            vars = self.bind(fn, args, kwargs)
            self.calls = getattr(self, 'calls', set())
            self.calls.add((fn.mod, fn.qual))
            names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs]
            self.callee = fn
            return c.stub(self, [vars[n] for n in names], {}, node)
        if self.ctr is not None:
            self.inlined = getattr(self, 'inlined', set())
            self.inlined.add((fn.mod, fn.qual))
        return self.run_fn(fn, args, kwargs)

    # ----------------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        t = type(s).__name__
        m = getattr(self, 's_' + t, None)
        if m is None:
            raise Unsupported('statement {} at line {} of {}'.format(t, s.lineno, env.mod))
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split('.')[0]] = Lib(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, env):
        raise Unsupported('import inside a function')

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_FunctionDef(self, s, env):
        env.vars[s.name] = Fn(s, env.mod, env.qual + '.' + s.name, env)

    def s_ClassDef(self, s, env):
        c = Cls(s.name, env.mod, {})
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                c.methods[x.name] = Fn(x, env.mod, env.qual + '.' + s.name + '.' + x.name, env)
            elif not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                raise Unsupported('class body')
        env.vars[s.name] = c

    def s_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise BreakEx()

    def s_Continue(self, s, env):
        raise ContinueEx()

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc('AssertionError', 'line {}'.format(s.lineno))

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if isinstance(e, ast.Name):
            raise PyExc(e.id, 'line {}'.format(s.lineno))
        raise Unsupported('raise of a computed exception')

    def s_Try(self, s, env):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                names = []
                if h.type is not None:
                    names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or e.name in names or 'Exception' in names or EXC_PARENTS.get(e.name) in names:
                    self.block(h.body, env)
                    return
            raise
        self.block(s.orelse, env)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.store(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            old = self.name(s.target.id, env)
            env.vars[s.target.id] = self.inplace(s.op, old, self.ev(s.value, env), s)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            old = self.getattr(o, s.target.attr, s)
            self.setattr(o, s.target.attr, self.inplace(s.op, old, self.ev(s.value, env), s))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            i = self.index(s.target.slice, env)
            old = self.getitem(o, i, s)
            import lib
            if isinstance(o, Lst) and isinstance(i, Lst):
                lib.fancy_iop(self, o, i, s.op, self.ev(s.value, env), s)
                return
            new = self.inplace(s.op, old, self.ev(s.value, env), s)
            self.setitem(o, i, new, s)
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del env.vars[t.id]
            else:
                raise Unsupported('del')

    def s_Nonlocal(self, s, env):
        raise Unsupported('nonlocal')

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs):
                self.store(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v, t)
        else:
            raise Unsupported('assignment target {}'.format(type(t).__name__))

    def unpack(self, v, n, node):
        if isinstance(v, Opt):
            v = self.some(v, node)
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc('ValueError', 'unpack')
            return list(v)
        if isinstance(v, Lst):
            if v.conc:
                if len(v.items) != n:
                    raise PyExc('ValueError', 'unpack')
                return list(v.items)
            if not self.branch(v.n == n):
                raise PyExc('ValueError', 'unpack')
            return [v.get(i) for i in range(n)]
        if isinstance(v, str) and len(v) == n:
            return list(v)
        raise Unsupported('unpacking of {!r}'.format(v))

    def some(self, v, node=None):
        """The value of an Opt that must not be None."""
        if isinstance(v, Opt):
            if self.branch(bv(v.none)):
                raise PyExc('TypeError', 'None at line {}'.format(getattr(node, 'lineno', '?')))
            return v.val
        return v

    # ---------------------------------------------------------------------------- loops
    def s_For(self, s, env):
        src = self.ev(s.iter, env)
        lk = (env.mod, env.qual, s.lineno)
        if isinstance(src, Lst) and lk in self.live_loops:
            # the list grows while it is iterated over
            self.cut(s, env, LiveIter(src))
            return
        it = self.iterate(src, s)
        if isinstance(it, list) and isinstance(src, Iter) and getattr(self.ctr, 'cut_for', False):
            it = src
        if isinstance(it, list):
            for v in it:
                self.store(s.target, v, env)
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
                finally:
                    if isinstance(src, Lst) and (not src.conc or len(src.items) != len(it)):
                        self.live_loops.add(lk)
                        self.loop_ord.clear()
                        raise Restart()
            self.block(s.orelse, env)
            return
        n = it.n
        if not is_z(n):
            if n <= 24 and not getattr(it, 'cut', False) and not getattr(self.ctr, 'cut_for', False):
                for i in range(n):
                    self.store(s.target, it.get(i), env)
                    try:
                        self.block(s.body, env)
                    except ContinueEx:
                        continue
                    except BreakEx:
                        return
                self.block(s.orelse, env)
                return
        if isinstance(src, Lst):
            it.source = src
        self.cut(s, env, it)

    def s_While(self, s, env):
        # a while loop whose condition is known is unrolled
        for _ in range(40):
            if self.loop_known(s) or getattr(self.ctr, 'no_unroll', False):
                break
            v = self.ev_pure(s.test, env)
            if v is None:
                break
            if not v:
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return
        self.cut(s, env, None)

    def loop_known(self, s):
        return (s.lineno, s.col_offset) in self.loop_ord

    def ev_pure(self, e, env):
        """Value of a condition if it is determined without forking, else None."""
        try:
            v = self.cond_term(e, env)
        except Unsupported:
            return None
        if isinstance(v, bool):
            return v
        c = z3.simplify(v)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    def cond_term(self, e, env):
        """Condition as a term, without forking (comparisons of integers and lengths only)."""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            saved = len(self.dec)
            a, b = self.simple(e.left, env), self.simple(e.comparators[0], env)
            r = self.compare(e.ops[0], a, b, e)
            return r if isinstance(r, bool) else bv(r)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        raise Unsupported('condition')

    def simple(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
            v = self.name(e.args[0].id, env)
            if isinstance(v, Lst):
                return v.length()
        raise Unsupported('condition')

    def loop_spec(self, s):
        key = (s.lineno, s.col_offset)
        if key not in self.loop_ord:
            self.loop_ord[key] = len(self.loop_ord)
        k = self.loop_ord[key]
        specs = self.ctr.loops_for(self.case)
        if k >= len(specs):
            raise Unsupported('no invariant for the loop at line {}'.format(s.lineno))
        self.reach.add(k)
        return specs[k]

    def touch(self, o):
        """The object is about to be mutated: it must be in the frame of every enclosing cut loop."""
        if getattr(o, 'frozen', False):
            raise Unsupported('mutation of an element stored inside a container')
        for (key, serial0, frame) in self.loops_active:
            if o.serial <= serial0 and o.serial not in frame:
                if key[0] == 'pure':
                    raise Unsupported('side effect in an expression')
                self.learned.setdefault(key, {'objs': set(), 'shapes': {}, 'vars': {}})['objs'].add(o.serial)
                raise Restart()

    def sqrt_axioms(self):
        if not getattr(self, 'sqrt_done', None) is self.pc:
            self.sqrt_done = self.pc
            import lib
            x = z3.FreshConst(R, 'x')
            q = lib.SQRT(x)
            self.assume(z3.ForAll([x], z3.Implies(x >= 0, z3.And(q >= 0, q * q == x)), patterns=[q]))

    def learn_shape(self, o, shape):
        for (key, serial0, frame) in self.loops_active:
            if o.serial in frame and o.serial <= serial0:
                self.learned[key]['shapes'][o.serial] = shape
                raise Restart()

    def aliases(self, env):
        """Variables of the function that were renamed since the invariants were written."""
        key = (env.mod, env.qual)
        if key not in self._aliases:
            import names
            try:
                self._aliases[key] = names.aliases(env.mod, env.qual, self.repo.fn(*key).node)
            except Unsupported:
                self._aliases[key] = {}
        return self._aliases[key]

    def cut(self, s, env, it):
        if self.ctr is None:
            raise Unsupported('unknown loop at module level')
        sp = self.loop_spec(s)
        al = self.aliases(env)
        types = dict((al.get(x, x), t) for x, t in sp.types.items())
        key = (s.lineno, self.outer, tuple(self.dec))
        L = self.learned.setdefault(key, {'objs': set(), 'shapes': {}, 'vars': {}})
        n = iv(it.n) if it is not None else None
        if n is not None:
            self.assume(n >= 0) if not z3.is_int_value(n) else None
        assigned = sorted(assigned_names(s))
        extra = {}
        if sp.start:
            extra = sp.start(View(self, env, z3.IntVal(0), n)) or {}
        v0 = View(self, env, z3.IntVal(0), n, extra)
        v0.it = it
        if sp.ghost_init:
            self.gs.update(sp.ghost_init(v0))
        eh = list(sp.entry_hints(v0)) if sp.entry_hints else []
        for item in sp.inv(v0):
            self.oblige('loop {} {}: invariant holds on entry: {}'.format(s.lineno, sp.label, item[0]), item[1], s, eh)
        # arbitrary iteration
        serial0 = self.serial
        objs = self.reachable_objs(env, L['objs'])
        shapes0 = {}
        for nm in L.get('lost', ()):
            env.vars[nm] = Lost(nm)
        before = dict(env.vars)
        for nm in assigned:
            if nm in env.vars:
                old = env.vars[nm]
                if isinstance(old, Lost):
                    continue
                sh = types.get(nm) or L['vars'].get(nm)
                if isinstance(old, HeapObj) and sh is None:
                    continue            # mutated objects are handled through their identity
                if isinstance(old, (Fn, Cls, Lib)) or (isinstance(old, (Text,)) and sh is None):
                    continue
                if old is None and sh is None:
                    shapes0[nm] = None
                    continue
                if sh is None:
                    sh = shape_of(old)
                shapes0[nm] = sh
                if isinstance(sh, TLst):
                    env.vars[nm] = self.new(Lst.sym(sh.t, fresh(I, nm + '_n'), np=sh.np, name=nm))
                    self.assume(env.vars[nm].n >= 0)
                else:
                    env.vars[nm] = sh.fresh(nm)
        loopvars = set()
        if it is not None:
            loopvars = target_names(s.target)
        for o in objs:
            self.havoc(o, L, sp, env)
        if it is not None and getattr(it, 'source', None) is not None and any(o is it.source for o in objs):
            it = LiveIter(it.source)    # the list may change while it is iterated over
        live = isinstance(it, LiveIter)
        if live:
            n = iv(it.n)
        frame = set(o.serial for o in objs)
        for g, so in sp.ghosts.items():
            self.gs[g] = so.fresh('g_' + g) if isinstance(so, V.Shape) else fresh(so, 'g_' + g)
        body = self.choose(2) == 0
        if it is not None:
            i = fresh(I, 'i') if True else None
        else:
            i = fresh(I, 'it')
        view = View(self, env, i, n, extra)
        view.it = it
        self.assume(i >= 0)
        if body:
            if it is not None:
                self.assume(i < n)
            for item in sp.inv(view):
                self.assume(bv(item[1]))
            snap = snapshot(env)
            view0 = View(self, env, i, n, extra, snap)
            view0.it = it
            dec0 = None
            if it is None:
                if not self.truth(self.ev(s.test, env)):
                    raise PathDone()
                if sp.decreases:
                    dec0 = sp.decreases(view)
            else:
                self.store(s.target, it.get(i), env)
            self.loops_active.append((key, serial0, frame))
            self.views.append(view0)
            broke = False
            try:
                self.block(s.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
            finally:
                self.loops_active.pop()
                self.views.pop()
            for nm in assigned:
                old = before.get(nm)
                if isinstance(old, HeapObj) and nm not in shapes0 and env.vars.get(nm) is not old:
                    # the variable is bound to another object: its value after an iteration is unknown
                    try:
                        import lib
                        v = env.vars.get(nm)
                        L['vars'][nm] = lib.comp_shape(v) if isinstance(v, (SSet, CSet)) else shape_of(v)
                    except Unsupported:
                        L.setdefault('lost', set()).add(nm)
                    raise Restart()
            for nm, sh in shapes0.items():
                v = env.vars.get(nm)
                if getattr(sh, 'whole', False) or isinstance(v, HeapObj) and not isinstance(v, (Lst, Abst, Mat)):
                    continue
                if v is None and sh is None:
                    continue
                s2 = None if v is None else shape_of(v)
                if s2 != sh:
                    if sh is None:
                        j = TOpt(s2)
                    elif s2 is None:
                        j = sh if isinstance(sh, TOpt) else TOpt(sh)
                    else:
                        j = join(sh, s2, None, v)
                        if isinstance(j, TPh) and not isinstance(sh, TPh):
                            j = j
                    if j != sh:
                        L['vars'][nm] = j
                        raise Restart()
            if broke:
                for nm in list(env.vars):
                    pass
                return
            view1 = View(self, env, i + 1, iv(it.n) if live else n, extra)
            view1.it = it
            if sp.ghost_step:
                for g, t in sp.ghost_step(view1, view0).items():
                    if is_z(t) and not z3.is_const(t):
                        c = fresh(t.sort(), 'g_' + g)
                        self.assume(c == t)
                        t = c
                    self.gs[g] = t
            hints = list(sp.hints(view1, view0)) if sp.hints else []
            force = list(sp.force(view1, view0)) if sp.force else []
            for item in sp.inv(view1):
                self.oblige('loop {} {}: invariant is preserved: {}'.format(s.lineno, sp.label, item[0]), item[1], s, hints, force)
            if dec0 is not None:
                d1 = sp.decreases(view1)
                self.oblige('loop {} {}: terminates'.format(s.lineno, sp.label), z3.And(d1 < dec0, dec0 >= 0), s, hints, force)
            raise PathDone()
        # after the loop
        if it is not None:
            self.assume(i >= n if live else i == n)
            for nm in loopvars:
                if nm not in env.vars or True:
                    env.vars.pop(nm, None) if nm not in shapes0 else None
        for item in sp.inv(view):
            self.assume(bv(item[1]))
        if sp.exit_hints:
            self.assume(list(sp.exit_hints(view)))
        if it is None:
            if self.truth(self.ev(s.test, env)):
                raise PathDone()
        for nm in assigned:
            if nm not in shapes0 and nm in env.vars and nm not in loopvars and not isinstance(env.vars[nm], HeapObj):
                pass
        self.block(s.orelse, env)

    def reachable_objs(self, env, serials):
        """The heap objects with the given serial numbers, reachable from the environment."""
        out, seen = [], set()

        def walk(v):
            if isinstance(v, HeapObj):
                if id(v) in seen:
                    return
                seen.add(id(v))
                if v.serial in serials:
                    out.append(v)
                if isinstance(v, Obj):
                    for x in v.f.values():
                        walk(x)
                elif isinstance(v, Lst) and v.conc:
                    for x in v.items:
                        walk(x)
                elif isinstance(v, CDict):
                    for x in v.d.values():
                        walk(x)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
            elif isinstance(v, Fn) and v.closure is not None and id(v) not in seen:
                seen.add(id(v))
                for x in v.closure.vars.values():
                    walk(x)
        e = env
        while e is not None:
            for v in list(e.vars.values()):
                if not isinstance(v, (Fn, Cls, Lib)) or isinstance(v, Fn):
                    walk(v)
            e = e.parent
        for f in self.frames_of(env):
            for v in list(f.vars.values()):
                walk(v)
        return out

    def frames_of(self, env):
        return [self.ghost['roots']] if 'roots' in self.ghost else []

    def havoc(self, o, L, sp, env):
        if isinstance(o, Lst):
            sh = None
            al = self.aliases(env)
            for nm, t in [(al.get(x, x), t) for x, t in sp.types.items()]:
                if env.vars.get(nm) is o and isinstance(t, TLst):
                    sh = t.t
            if sh is None:
                sh = L['shapes'].get(o.serial)
            if o.conc:
                if sh is None:
                    if not o.items:
                        o.probe = True
                        return
                    sh = join_all([shape_of(x) for x in o.items])
                o.items = None
            else:
                sh = sh or o.shape
            fixed = None
            if getattr(o, 'fixed', False):
                fixed = o.n
            o.shape = sh
            o.n = fixed if fixed is not None else fresh(I, 'len')
            o.arrs = [fresh(z3.ArraySort(I, s), 'h') for s in sh.sorts]
            if fixed is None:
                self.assume(o.n >= 0)
        elif isinstance(o, SSet):
            o.mem = fresh(o.mem.sort(), 'hs')
        elif isinstance(o, SDict):
            d = SDict(o.kshape, o.vshape, 'hd')
            o.assign(d)
            self.assume(o.wf())
        elif isinstance(o, CSet):
            sh = L['shapes'].get(o.serial)
            if sh is None:
                if not o.items:
                    o.probe = True
                    return
                sh = join_all([shape_of(x) for x in o.items])
            become(o, SSet(sh))
        elif isinstance(o, CDict):
            sh = L['shapes'].get(o.serial)
            if sh is None:
                if not o.d:
                    o.probe = True
                    return
                raise Unsupported('a dictionary with known keys is changed in a loop')
            d = SDict(sh[0], sh[1], 'hd')
            become(o, d)
            self.assume(o.wf())
        elif isinstance(o, Mat):
            o.havoc(self) if hasattr(o, 'havoc') else (_ for _ in ()).throw(Unsupported('matrix changed in a loop'))
        elif isinstance(o, Abst):
            o.t = fresh(o.t.sort(), 'h')
        elif isinstance(o, Obj):
            for k, v in list(o.f.items()):
                if isinstance(v, HeapObj):
                    sh = L.get('attrs', {}).get((o.serial, k))
                    if sh is not None:          # bound to other objects in the loop
                        o.f[k] = self.new(Lst.sym(sh.t, fresh(I, k + '_n'), np=sh.np, name=k)) if isinstance(sh, TLst) else sh.fresh(k)
                        if isinstance(sh, TLst):
                            self.assume(o.f[k].n >= 0)
                    continue
                if (o.serial, k) not in L.get('fields', ()):
                    continue
                try:
                    o.f[k] = shape_of(v).fresh(k)
                except Unsupported:
                    pass
        else:
            raise Unsupported('object {} changed in a loop'.format(type(o).__name__))

    def iterate(self, v, node):
        """Known list of values, or an Iter."""
        if isinstance(v, Opt):
            v = self.some(v, node)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Iter):
            if not is_z(v.n) and v.n <= 64 and not getattr(v, 'cut', False):
                return [v.get(i) for i in range(v.n)]
            return v
        if isinstance(v, Lst):
            if v.conc:
                return list(v.items)
            arrs, sh = list(v.arrs), v.shape       # a snapshot: the list must not change length
            if getattr(v, 'np', False) or True:
                return Iter(v.n, lambda i: sh.mk([z3.Select(a, iv(i)) for a in arrs]))
        if isinstance(v, CSet):
            return list(v.items)
        if isinstance(v, CDict):
            return list(v.d.keys())
        if isinstance(v, SDict):
            keys, sh = list(v.keys), v.kshape
            return Iter(v.n, lambda i: sh.mk([z3.Select(a, iv(i)) for a in keys]))
        if isinstance(v, SSet):
            import lib
            return lib.set_iter(self, v)
        if isinstance(v, Obj):
            m = v.cls.methods.get('__iter__')
            if m is not None:
                return self.iterate(self.call_fn(m, [v], {}, node), node)
        if isinstance(v, Opq):
            import lib
            h = lib.OPQ_ITER.get(v.kind)
            if h:
                return self.iterate(h(self, v), node)
        if isinstance(v, Abst):
            import lib
            h = lib.ABST_ITER.get(v.kind)
            if h:
                return h(self, v)
        raise Unsupported('iteration over {!r}'.format(v))

    # ---------------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression {} at line {} of {}'.format(type(e).__name__, getattr(e, 'lineno', '?'), env.mod))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def name(self, nm, env):
        v = self.name_(nm, env)
        if isinstance(v, Lost):
            raise Unsupported('variable {} is bound to different objects in a loop'.format(nm))
        return v

    def name_(self, nm, env):
        x = env
        while x is not None:
            if nm in x.vars:
                return x.vars[nm]
            x = x.parent
        m = self.repo.mods[env.mod]
        if nm in m:
            return m[nm]
        import lib
        if 'builtins.' + nm in lib.LIB or nm in lib.TYPES:
            return Lib('builtins.' + nm)
        raise PyExc('NameError', nm)

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_List(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, env), e)
                if not isinstance(it, list):
                    raise Unsupported('starred unknown list')
                out += it
            else:
                out.append(self.ev(x, env))
        return self.new(Lst.of(out))

    def e_Set(self, e, env):
        return self.new(CSet([self.ev(x, env) for x in e.elts]))

    def e_Dict(self, e, env):
        d = self.new(CDict())
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k, env)
            if is_z(kk) or isinstance(kk, (SStr, Opq)):
                raise Unsupported('dictionary display with unknown keys')
            d.d[kk] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        return Text()

    def e_Lambda(self, e, env):
        return Fn(e, env.mod, env.qual + '.<lambda>', env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, e)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            try:
                self.name(e.func.id, env)
                import lib
                return lib.any_all(self, e.func.id, e.args[0], env)
            except PyExc:
                raise
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, env), e)
                if not isinstance(it, list):
                    if isinstance(f, Lib) and f.path == 'itertools.product' and len(e.args) == 1:
                        args.append(it)
                        continue
                    raise Unsupported('starred unknown list')
                args += it
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw, e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not is_z(v) else False
            if not isand and t:
                return v if not is_z(v) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if is_bool(v) and is_z(v):
                return z3.Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, HeapObj):
                if isinstance(v, Obj) and '__neg__' in v.cls.methods:
                    return self.call_fn(v.cls.methods['__neg__'], [v], {}, e)
                return self.binop(ast.Mult(), -1, v, e)
            if isinstance(v, Opq):
                import lib
                return lib.opq_neg(self, v, e)
            return self.binop(ast.Mult(), -1, v, e) if not isinstance(v, (int, float, complex)) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        r = True
        for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, env)
            r = self.compare(op, left, right, e)
            if k < len(e.ops) - 1:
                if not self.truth(r):
                    return False
            left = right
        return r

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.index(e.slice, env), e)

    def index(self, sl, env):
        if isinstance(sl, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return slice(f(sl.lower), f(sl.upper), f(sl.step))
        if isinstance(sl, ast.Tuple):
            return tuple(self.index(x, env) for x in sl.elts)
        return self.ev(sl, env)

    def e_ListComp(self, e, env):
        import lib
        return lib.comprehension(self, e, env)

    def e_GeneratorExp(self, e, env):
        import lib
        return lib.comprehension(self, e, env)

    def e_SetComp(self, e, env):
        import lib
        l = lib.comprehension(self, e, env)
        return lib.LIB['builtins.set'](self, [l], {}, e)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    # ------------------------------------------------------------------------- operators
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if is_z(v):
            return self.branch(bv(v))
        if v is None:
            return False
        if isinstance(v, (int, float, complex, str, tuple)):
            return bool(v)
        if isinstance(v, Opt):
            if self.branch(bv(v.none)):
                return False
            return self.truth(v.val)
        if isinstance(v, Lst):
            if v.np and not (v.conc and len(v.items) == 1):
                raise Unsupported('truth of an array')
            n = v.length()
            return self.branch(iv(n) != 0) if is_z(n) else n != 0
        if isinstance(v, (Cx, Ph)):
            c = to_cx(v)
            return self.branch(z3.Or(rv(c.re) != 0, rv(c.im) != 0))
        if isinstance(v, (Fn, Cls, Lib)):
            return True
        if isinstance(v, Obj):
            m = v.cls.methods.get('__len__')
            if m is not None:
                return self.truth(self.call_fn(m, [v], {}, None))
            return True
        if isinstance(v, CSet):
            return bool(v.items)
        if isinstance(v, CDict):
            return bool(v.d)
        if isinstance(v, SDict):
            return self.branch(v.n != 0)
        raise Unsupported('truth of {!r}'.format(v))

    def equal(self, a, b, node=None):
        """a == b as bool or term."""
        if a is b and isinstance(a, (Opq, Text, Cls, Lib, Fn)):
            return True
        if isinstance(a, Opt) or isinstance(b, Opt):
            if b is None:
                return bv(a.none)
            if a is None:
                return bv(b.none)
            if isinstance(a, Opt) and isinstance(b, Opt):
                return z3.Or(z3.And(bv(a.none), bv(b.none)), z3.And(z3.Not(bv(a.none)), z3.Not(bv(b.none)), bv(self.equal(a.val, b.val))))
            if isinstance(a, Opt):
                return z3.And(z3.Not(bv(a.none)), bv(self.equal(a.val, b)))
            return z3.And(z3.Not(bv(b.none)), bv(self.equal(a, b.val)))
        if a is None or b is None:
            return a is b
        num = lambda x: is_int(x) or is_real(x) or is_bool(x) or isinstance(x, (complex, Cx, Ph))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return sv(a) == sv(b)
        if num(a) and num(b):
            if not any(is_z(x) or isinstance(x, (Cx, Ph)) for x in (a, b)):
                return a == b
            pa, pb = to_ph(a) if not isinstance(a, Cx) else None, to_ph(b) if not isinstance(b, Cx) else None
            if pa is not None and pb is not None and not is_z(pa.s) and not is_z(pb.s):
                if pa.s != pb.s:
                    return False
                d = pa.k - pb.k
                return d % 4 == 0
            if (isinstance(a, Ph) and z0(b)) or (isinstance(b, Ph) and z0(a)):
                return False
            if is_int(a) and is_int(b) or (is_int(a) and is_bool(b)) or (is_bool(a) and is_int(b)):
                return iv(a) == iv(b)
            if is_bool(a) and is_bool(b):
                return bv(a) == bv(b)
            if isinstance(a, (complex, Cx, Ph)) or isinstance(b, (complex, Cx, Ph)):
                x, y = to_cx(a), to_cx(b)
                return z3.And(rv(x.re) == rv(y.re), rv(x.im) == rv(y.im))
            return rv(a) == rv(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return z3.And([bv(r) for r in rs])
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.kind != b.kind:
                return False
            return a.t == b.t
        if isinstance(a, Lib) and isinstance(b, Lib):
            return a.path == b.path
        if isinstance(a, (Cls, Lib, Fn)) or isinstance(b, (Cls, Lib, Fn)):
            return a is b
        if isinstance(a, Obj) and '__eq__' in a.cls.methods:
            return self.call_fn(a.cls.methods['__eq__'], [a, b], {}, node)
        if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)) and (num(a) or num(b)):
            return False
        if isinstance(a, Text) or isinstance(b, Text):
            if isinstance(a, Text) and isinstance(b, Text) and a.t is not None and b.t is not None:
                return a.t == b.t
            raise Unsupported('comparison of text')
        if isinstance(a, Lst) and isinstance(b, Lst):
            import lib
            return lib.lst_equal(self, a, b, node)
        if isinstance(a, SDict) and isinstance(b, SDict):
            import lib
            return lib.dict_equal(self, a, b)
        if isinstance(a, SSet) and isinstance(b, SSet) and a.shape == b.shape:
            return a.mem == b.mem
        if isinstance(a, Lst) or isinstance(b, Lst):
            import lib
            if (isinstance(a, Lst) and a.np) or (isinstance(b, Lst) and b.np):
                return lib.np_compare(self, ast.Eq(), a, b, node)
            if isinstance(a, Lst) != isinstance(b, Lst) and (num(a) or num(b)):
                return False
        raise Unsupported('comparison of {!r} and {!r}'.format(a, b))

    def compare(self, op, a, b, node):
        import lib
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                x = a if b is None else b
                r = bv(x.none) if isinstance(x, Opt) else x is None
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, (Cls, Lib)) or isinstance(b, (Cls, Lib)):
                r = lib.same_type(a, b)
            elif isinstance(a, HeapObj) and isinstance(b, HeapObj):
                r = a is b
            else:
                raise Unsupported('is')
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = lib.contains(self, b, a, node)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if (isinstance(a, Lst) and a.np) or (isinstance(b, Lst) and b.np):
            return lib.np_compare(self, op, a, b, node)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, node)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else z3.Not(bv(r))
            return r
        a, b = self.some(a, node), self.some(b, node)
        if isinstance(a, lib.Abs) or isinstance(b, lib.Abs):
            return lib.abs_compare(op, a, b)
        if not is_z(a) and not is_z(b) and isinstance(a, (int, float, str, tuple)) and isinstance(b, (int, float, str, tuple)):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[type(op).__name__]()
            except TypeError:
                raise Unsupported('comparison')
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            x, y = iv(a), iv(b)
        elif (is_int(a) or is_real(a) or is_bool(a)) and (is_int(b) or is_real(b) or is_bool(b)):
            if isinstance(a, float) and a == float('inf') or isinstance(b, float) and b == float('inf'):
                lt = not (isinstance(a, float) and a == float('inf'))
                return lt if isinstance(op, (ast.Lt, ast.LtE)) else not lt
            x, y = rv(a), rv(b)
        elif isinstance(a, Obj):
            nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[type(op).__name__]
            if nm not in a.cls.methods:
                raise PyExc('TypeError', 'ordering')
            return self.call_fn(a.cls.methods[nm], [a, b], {}, node)
        elif isinstance(a, Ph) or isinstance(b, Ph):
            raise Unsupported('ordering of complex numbers')
        else:
            raise Unsupported('ordering of {!r} and {!r}'.format(a, b))
        return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[type(op).__name__]()

    def inplace(self, op, a, b, node):
        import lib
        if isinstance(a, Opt):
            a = self.some(a, node)
        if isinstance(a, Lst):
            if a.np:
                r = self.binop(op, a, b, node)
                self.touch(a)
                a.assign(r)
                return a
            if isinstance(op, ast.Add):
                lib.extend(self, a, b, node)
                return a
            raise Unsupported('in-place operator on a list')
        if isinstance(a, Obj):
            nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(type(op).__name__)
            if nm in a.cls.methods:
                return self.call_fn(a.cls.methods[nm], [a, b], {}, node)
        if isinstance(a, Abst):
            r = self.binop(op, a, b, node)
            self.touch(a)
            a.t = r.t
            return a
        if isinstance(a, Opq):
            r = lib.opq_inplace(self, op, a, b, node)
            if r is not NotImplemented:
                return r
        if isinstance(a, Mat) and hasattr(lib, 'mat_inplace'):
            return lib.mat_inplace(self, op, a, b, node)
        return self.binop(op, a, b, node)

    def binop(self, op, a, b, node):
        import lib
        return lib.binop(self, op, a, b, node)

    def getattr(self, o, attr, node):
        import lib
        if isinstance(o, Opt):
            o = self.some(o, node)
        if isinstance(o, Obj):
            if attr in o.f:
                return o.f[attr]
            if attr in o.cls.methods:
                return Bound(o.cls.methods[attr], o)
            if attr == '__class__':
                return o.cls
            raise PyExc('AttributeError', '{} at line {}'.format(attr, getattr(node, 'lineno', '?')))
        if isinstance(o, Cls):
            if attr in o.methods:
                return o.methods[attr]
            if attr == '__name__':
                return o.name
        if isinstance(o, Lib):
            c = lib.LIB_CONST.get(o.path + '.' + attr)
            c = c(self) if c is not None else None
            return Lib(o.path + '.' + attr) if c is None else c
        return lib.getattribute(self, o, attr, node)

    def setattr(self, o, attr, v):
        if isinstance(o, Opt):
            o = self.some(o)
        if isinstance(o, Obj):
            old = o.f.get(attr)
            if attr in o.f and not isinstance(v, HeapObj):
                for (key, serial0, frame) in self.loops_active:
                    if o.serial <= serial0 and key[0] != 'pure':
                        fl = self.learned.setdefault(key, {'objs': set(), 'shapes': {}, 'vars': {}}).setdefault('fields', set())
                        if (o.serial, attr) not in fl:
                            fl.add((o.serial, attr))
                            self.learned[key]['objs'].add(o.serial)
                            raise Restart()
                self.touch(o)
            elif isinstance(v, HeapObj) and attr in o.f and v is not old:
                for (key, serial0, frame) in self.loops_active:
                    if o.serial <= serial0:
                        if key[0] == 'pure':
                            raise Unsupported('side effect in an expression')
                        lr = self.learned.setdefault(key, {'objs': set(), 'shapes': {}, 'vars': {}})
                        sh = shape_of(v)
                        at = lr.setdefault('attrs', {})
                        if at.get((o.serial, attr)) != sh:
                            at[(o.serial, attr)] = sh
                            lr['objs'].add(o.serial)
                            raise Restart()
            o.f[attr] = v
            return
        raise Unsupported('attribute assignment on {!r}'.format(o))

    def getitem(self, o, i, node):
        import lib
        if isinstance(o, Opt):
            o = self.some(o, node)
        return lib.getitem(self, o, i, node)

    def setitem(self, o, i, v, node):
        import lib
        lib.setitem(self, o, i, v, node)


# ------------------------------------------------------------------------------ helpers
NLI = z3.Function('product', I, I, I)
NLR = z3.Function('productr', R, R, R)


def abstract_products(fs):
    """The formulas with ground products of unknowns replaced by uninterpreted terms."""
    subs, seen, hasvar = {}, set(), {}

    def bound(t):
        k = t.get_id()
        if k not in hasvar:
            hasvar[k] = z3.is_var(t) or z3.is_quantifier(t) or any(bound(c) for c in t.children())
        return hasvar[k]

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        for c in t.children():
            walk(c)
        if z3.is_mul(t) and not bound(t):
            cs = [c for c in t.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))]
            ks = [c for c in t.children() if z3.is_int_value(c) or z3.is_rational_value(c)]
            if len(cs) >= 2:
                cs.sort(key=lambda c: c.get_id())
                f = NLI if t.sort() == I else NLR
                r = cs[0]
                for c in cs[1:]:
                    r = f(r, c)
                for c in ks:
                    r = c * r
                subs[t.get_id()] = (t, r)
    for f in fs:
        walk(f)
    if not subs:
        return fs, False
    subs.clear()
    seen.clear()
    hasvar.clear()
    fs = [z3.simplify(f, som=True) if not has_quant(f) else f for f in fs]
    for f in fs:
        walk(f)
    # innermost first, repeatedly
    pairs = list(subs.values())
    return [z3.substitute(f, *pairs) for f in fs], True


def near_hyps(hyps, goal, within=False):
    """The hypotheses that share a symbol with the goal (within: and have no other ones)."""
    memo = {}

    def syms(f):
        k = f.get_id()
        if k not in memo:
            out, stack, seen = set(), [f], set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_quantifier(t):
                    stack.append(t.body())
                elif z3.is_app(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(t.decl().name())
                    stack.extend(t.children())
            memo[k] = out
        return memo[k]
    want = syms(goal)
    if within:
        return [h for h in hyps if syms(h) and syms(h) <= want]
    return [h for h in hyps if syms(h) & want]


def has_quant(f):
    seen, st = set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        st.extend(t.children())
    return False


def pmap(f, tasks, jobs):
    """Parallel map over forked workers (solver terms are inherited, results are plain)."""
    if jobs <= 1 or len(tasks) <= 1:
        return [f(t) for t in tasks]
    import multiprocessing as mp, pickle
    ctx = mp.get_context('fork')
    nxt = ctx.Value('i', 0)
    jobs = min(jobs, len(tasks))
    pipes, procs = [], []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                while True:
                    with nxt.get_lock():
                        k = nxt.value
                        nxt.value += 1
                    if k >= len(tasks):
                        break
                    out.append((k, f(tasks[k])))
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump(out, fh)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        pipes.append(r)
        procs.append(pid)
    res = [None] * len(tasks)
    for r, pid in zip(pipes, procs):
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            for k, v in pickle.loads(data):
                res[k] = v
        except Exception:
            pass
    return [x if x is not None else f(t) for x, t in zip(res, tasks)]


def skolem_goal(g):
    """The goal for arbitrary constants in place of its outer universal variables."""
    if z3.is_quantifier(g) and g.is_forall():
        return skolem_goal(z3.substitute_vars(g.body(), *reversed([z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())])))
    if z3.is_implies(g):
        b = skolem_goal(g.arg(1))
        return g if b.eq(g.arg(1)) else z3.Implies(g.arg(0), b)
    if z3.is_and(g) or z3.is_or(g):
        xs = [skolem_goal(x) for x in g.children()]
        return g if all(x.eq(y) for x, y in zip(xs, g.children())) else (z3.And(xs) if z3.is_and(g) else z3.Or(xs))
    return g


def split_goal(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in split_goal(c)]
    return [g]


def become(o, new):
    s = o.serial
    o.__class__ = new.__class__
    o.__dict__.clear()
    o.__dict__.update(new.__dict__)
    o.serial = s


def assigned_names(s):
    out = set()
    for st in (s.body + s.orelse):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    # names bound in comprehensions are local to them
    comp = set()
    for st in (s.body + s.orelse):
        for n in ast.walk(st):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in n.generators:
                    for m in ast.walk(g.target):
                        if isinstance(m, ast.Name):
                            comp.add((m.id, m.lineno, m.col_offset))
    plain = set()
    for st in (s.body + s.orelse):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.id, n.lineno, n.col_offset) not in comp:
                plain.add(n.id)
    if isinstance(s, ast.For):
        plain |= target_names(s.target)
    return plain


def target_names(t):
    return set(n.id for n in ast.walk(t) if isinstance(n, ast.Name))


def snap_value(v, memo):
    if isinstance(v, HeapObj):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            o = Obj(v.cls)
            memo[id(v)] = o
            for k, x in v.f.items():
                o.f[k] = snap_value(x, memo)
            return o
        if isinstance(v, CSet):
            c = CSet(v.items)
        elif isinstance(v, CDict):
            c = CDict(v.d.items())
        elif isinstance(v, Mat):
            c = pycopy.copy(v)
        else:
            c = v.copy()
        memo[id(v)] = c
        return c
    return v


def snapshot(env):
    memo = {}
    out = {}
    e = env
    while e is not None:
        for k, v in e.vars.items():
            if k not in out:
                out[k] = snap_value(v, memo)
        e = e.parent
    return out


def run_cvc5(fs, timeout, opts=()):
    import subprocess, tempfile, shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    s = z3.Solver()
    s.add(fs)
    try:
        txt = s.to_smt2()
    except z3.Z3Exception:
        return 'unknown'
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit={}'.format(int(timeout * 1000))] + list(opts) + ['-'], input='(set-logic ALL)\n' + txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'


class Ctx(object):
    """Arguments of one verification case plus whatever the contract wants to remember."""

    def __init__(self, args, kwargs=None, self_=None, **kw):
        self.args, self.kwargs, self.self_ = args, kwargs or {}, self_
        self.__dict__.update(kw)


class Contract(object):
    mod = qual = None
    props = ()
    cases = [None]
    loops = ()
    recursive = False
    max_paths = 400
    only_raises = 0
    bounded = None            # text of the bound, if the contract is checked only up to a bound
    stub = None
    trusted = None

    def case_name(self, case):
        return '' if case is None else str(case)

    def loops_for(self, case):
        return self.loops

    def setup(self, E, case):
        raise NotImplementedError

    def post(self, E, ctx, res):
        return []

    def raises(self, E, ctx):
        return []

    def exc_hints(self, E, ctx):
        return []

    def exc_post(self, E, ctx, exc):
        return []

    def applies(self, E, args, kwargs):
        return True
