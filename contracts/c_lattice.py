"""Contracts of qosy/lattice.py (C16). Positions are vectors of an unspecified number of
dimensions (c_vec.py); atoms, names and cells are unbounded."""
import z3
from values import *
from engine import Contract, Ctx, Loop
from spec import Fold, Lemma, fa, forall, mention
import lib
import c_vec
from c_vec import TVec, SV, VC, VNAME, VNORM, ext

CONTRACTS = []
AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)
AV = z3.ArraySort(I, SV)
AAI = z3.ArraySort(I, AI)

ORBS = Fold('ORBS', [AI], [], lambda a, k, p: a[0][k])                      # names of the atoms before
# component c of the origin of a cell: sum of coordinate times lattice vector
ORIGIN = Fold('ORIGIN', [AI, AV], [I], lambda a, k, p: rmul(rv(a[0][k]), VC(a[1][k], p[0])), out='real')
# component c of a sum of periods: signs (-1, 0, 1), numbers of cells, lattice vectors
PERIODS = Fold('PERIODS', [AI, AI, AV], [I], lambda a, k, p: signed(a[0][k], rmul(rv(a[1][k]), VC(a[2][k], p[0]))), out='real')


def signed(s, x):
    return z3.If(s == 0, z3.RealVal(0), z3.If(s == 1, x, -x))


L_PERIODS = Lemma('a sum of periods reads only the first signs', [AI, AI, AI, AV, I],
                  lambda n, s, t, N, lat, c: ([fa(n, lambda k: s[k] == t[k], lambda k: s[k])], PERIODS([s, N, lat], n, [c]) == PERIODS([t, N, lat], n, [c])))


def contract(c):
    CONTRACTS.append(c())
    return c


def clean(tol, x):
    return z3.If(z3.Or(x > tol, -x > tol), x, z3.RealVal(0))


def symlist(E, sh, n, name, np=False):
    l = E.new(Lst.sym(sh, n, name=name, np=np))
    E.assume(l.n >= 0)
    return l


def unit_cell(E, dim):
    u = E.new(Obj(E.repo.mod('lattice')['UnitCell']))
    na = fresh(I, 'atoms')
    u.f['lattice_vectors'] = symlist(E, TVec, dim, 'lat')
    u.f['atom_positions'] = symlist(E, TVec, na, 'atom')
    u.f['atom_orbitals'] = symlist(E, TLst(TStr), na, 'names')
    E.assume(fa(na, lambda a: u.f['atom_orbitals'].arrs[0][a] >= 0, lambda a: u.f['atom_orbitals'].arrs[0][a]))
    return u


def cell_parts(g):
    u = g['unit_cell']
    return u.f['lattice_vectors'].arrs[0], u.f['atom_positions'].arrs[0], u.f['atom_orbitals'].arrs[0], u.f['atom_orbitals'].arrs[1], u.f['atom_orbitals'].n


TORB = TTup(TVec, TStr, TLst(TInt))


def orbitals_ok(E, self_, g, oc, oa, oo, ST, ncell):
    """What is known about the orbitals so far; oc, oa, oo: cell, atom and name of orbital k."""
    l, d = self_.f['_orbitals'], self_.f['_indices_orbitals']
    lat, atom, nl, names, na = cell_parts(g)
    dim, tol, prec = g['vec'], rv(self_.f['tol']), iv(self_.f['precision'])
    nt, tl, cells, _ = g['tuples']
    if l.conc:
        return [('no orbitals yet', z3.BoolVal(not l.items and (not isinstance(d, CDict) or not d.d)))]
    n = iv(l.n)
    if isinstance(d, CDict):
        return [('no orbitals yet', z3.And(n == 0, z3.BoolVal(not d.d)))] if not getattr(d, 'probe', False) else []
    pos, nm, cn, cc = l.arrs
    c, k = z3.FreshConst(I, 'c'), z3.FreshConst(I, 'k')
    p, q = z3.FreshConst(I, 'p'), z3.FreshConst(I, 'q')
    rng = z3.And(0 <= k, k < n)
    idx, val = z3.Select(d.idx, p, q), z3.Select(d.vals[0], p, q)
    key = lambda a, k: z3.Select(a, VNAME(pos[k], prec), nm[k])
    return [('orbitals come from a cell, an atom and a name, in this order',
             z3.ForAll([k], z3.Implies(rng, z3.And(0 <= oc[k], oc[k] < ncell, 0 <= oa[k], oa[k] < na, 0 <= oo[k], oo[k] < nl[oa[k]], k == ST[oc[k]] + ORBS([nl], oa[k]) + oo[k])), patterns=[oc[k], oa[k], oo[k], pos[k]])),
            ('positions', z3.ForAll([k, c], z3.Implies(z3.And(rng, 0 <= c, c < dim), VC(pos[k], c) == clean(tol, ORIGIN([cells[oc[k]], lat], dim, [c]) + VC(atom[oa[k]], c))), patterns=[VC(pos[k], c)])),
            ('names and cells', z3.ForAll([k], z3.Implies(rng, z3.And(nm[k] == names[oa[k]][oo[k]], cn[k] == dim, cc[k] == cells[oc[k]])), patterns=[nm[k], cc[k], pos[k]])),
            ('registered numbers belong to the name', z3.ForAll([p, q], z3.Implies(idx >= 0, z3.And(0 <= val, val < n, VNAME(pos[val], prec) == p, nm[val] == q)), patterns=[idx, val])),
            ('every orbital is registered (the last one of its name)', z3.ForAll([k], z3.Implies(rng, z3.And(key(d.idx, k) >= 0, key(d.vals[0], k) >= k)), patterns=[VNAME(pos[k], prec), key(d.idx, k)]))]


def starts(ST, ncell, per):
    return ('the first orbitals of the cells', z3.And(ST[0] == 0, fa(ncell, lambda c: ST[c + 1] == ST[c] + per, lambda c: [ST[c + 1]])))


def _count(L):
    l = L['self'].f['_orbitals']
    return iv(l.length())


def _inv(level):
    def inv(L):
        E, self_ = L.E, L['self']
        g = E.ghost
        gs = E.gs
        oc, oa, oo, ST = (gs[x] for x in ('oc', 'oa', 'oo', 'ST'))
        _, atom, nl, names, na = cell_parts(g)
        v = L
        i = [L.i]
        while v.outer is not None:
            v = v.outer
            i.insert(0, v.i)
        c = i[0]
        per = ORBS([nl], na)
        cnt = ST[c] + (ORBS([nl], i[1]) if level > 0 else 0) + (i[2] if level > 1 else 0)
        out = [starts(ST, c, per), ('the number of orbitals so far', _count(L) == cnt)]
        lim = c if level == 0 else c + 1
        return out + orbitals_ok(E, self_, g, oc, oa, oo, ST, lim)
    return inv


def _step_cells(L1, L0):
    return {'ST': z3.Store(L0.G['ST'], L0.i + 1, _count(L1))}


def _step_names(L1, L0):
    k = _count(L0)
    g = L0.G
    return {'oc': z3.Store(g['oc'], k, L0.outer.outer.i), 'oa': z3.Store(g['oa'], k, L0.outer.i), 'oo': z3.Store(g['oo'], k, L0.i)}


def _dims(L):
    E = L.E
    lat = cell_parts(E.ghost)[0]
    cell = L['coords_cell'].arrs[0]
    p = L['pos'].t
    c = z3.FreshConst(I, 'c')
    return [('origin of the cell so far', z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < E.ghost['vec']), VC(p, c) == ORIGIN([cell, lat], L.i, [c])), patterns=[VC(p, c)]))]


def _bnd(L):
    E, g = L.E, L.E.ghost
    lat = cell_parts(g)[0]
    self_ = L['self']
    N = self_.f['num_cells'].arrs[0]
    per = self_.f['periodic_boundaries'].arrs[0]
    l = self_.f['_boundary_vectors']
    l = l.as_sym() if l.conc else l
    n, bv_ = iv(l.n), l.arrs[0]
    SG, p0, s0 = L.G['SG'], L.G['p0'], g['signs']
    return [('there is a boundary vector', n >= 1)] + boundary_ok(g, L.i, n, bv_, SG, N, lat, per) + any_signs(g, L.i, n, bv_, p0, s0, N, lat, per)


def boundary_ok(g, i, n, bv_, SG, N, lat, per):
    b, c, v = (z3.FreshConst(I, x) for x in 'bcv')
    return [('signs', z3.ForAll([b, v], z3.Implies(z3.And(0 <= b, b < n, 0 <= v, v < i), z3.And(-1 <= SG[b][v], SG[b][v] <= 1, z3.Implies(z3.Not(per[v]), SG[b][v] == 0))), patterns=[SG[b][v]])),
            ('boundary vectors are signed sums of periods', z3.ForAll([b, c], z3.Implies(z3.And(0 <= b, b < n, 0 <= c, c < g['vec']), VC(bv_[b], c) == PERIODS([SG[b], N, lat], i, [c])), patterns=[VC(bv_[b], c)]))]


def valid_signs(s0, i, per):
    return fa(i, lambda v: z3.And(-1 <= s0[v], s0[v] <= 1, z3.Implies(z3.Not(per[v]), s0[v] == 0)), lambda v: s0[v])


def any_signs(g, i, n, bv_, p0, s0, N, lat, per):
    c = z3.FreshConst(I, 'c')
    return [('every signed sum of periods is a boundary vector', z3.Implies(g['signs_ok'], z3.And(0 <= p0, p0 < n, z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < g['vec']), VC(bv_[p0], c) == PERIODS([s0, N, lat], i, [c])), patterns=[VC(bv_[p0], c)]))))]


def _bnd_step(L1, L0):
    E, g = L0.E, L0.E.ghost
    S0, s0, i = L0.G['SG'], g['signs'], L0.i
    l0, l1 = L0['self'].f['_boundary_vectors'], L1['self'].f['_boundary_vectors']
    n0, n1 = iv(l0.length()), iv(l1.length())
    S1 = fresh(AAI, 'SG')
    b = z3.FreshConst(I, 'b')
    src = lambda b: z3.If(b < n0, b, z3.If(b < 2 * n0, b - n0, b - 2 * n0))
    sg = lambda b: z3.If(b < n0, 0, z3.If(b < 2 * n0, 1, -1))
    E.assume(z3.ForAll([b], S1[b] == z3.Store(S0[src(b)], i, sg(b)), patterns=[S1[b]]))
    p0 = L0.G['p0']
    return {'SG': S1, 'p0': z3.If(s0[i] == 0, p0, z3.If(s0[i] == 1, p0 + n0, p0 + 2 * n0))}


def _bnd_hints(L1, L0):
    """A sum over the first i signs does not see the new sign."""
    E = L1.E
    lat = cell_parts(E.ghost)[0]
    N = L1['self'].f['num_cells'].arrs[0]
    l0 = L0['self'].f['_boundary_vectors']
    n0, i = iv(l0.length()), L0.i
    S0, S1 = L0.G['SG'], L1.G['SG']
    b, c = z3.FreshConst(I, 'b'), z3.FreshConst(I, 'c')
    src = z3.If(b < n0, b, z3.If(b < 2 * n0, b - n0, b - 2 * n0))
    return [z3.ForAll([b, c], L_PERIODS.inst(i, S1[b], S0[src], N, lat, c), patterns=[PERIODS([S1[b], N, lat], i, [c])])]


@contract
class LatticeInit(Contract):
    """Lattice(unit_cell, num_cells, periodic_boundaries): the orbitals and boundary vectors."""
    mod, qual, props = 'lattice', 'Lattice.__init__', ['C16']
    cases = ['open', 'with boundary flags']
    loops = [Loop(_inv(0), ghosts={'oc': AI, 'oa': AI, 'oo': AI, 'ST': AI}, ghost_step=_step_cells, label='(cells)'),
             Loop(_inv(1), ghosts={'oc': AI, 'oa': AI, 'oo': AI}, label='(atoms)'),
             Loop(_dims, label='(lattice vectors)'),
             Loop(_inv(2), ghosts={'oc': AI, 'oa': AI, 'oo': AI}, ghost_step=_step_names, label='(names)'),
             Loop(_bnd, ghosts={'SG': AAI, 'p0': I}, ghost_init=lambda L: {'SG': z3.K(I, z3.K(I, z3.IntVal(0))), 'p0': z3.IntVal(0)}, ghost_step=_bnd_step, hints=_bnd_hints, label='(boundary vectors)')]

    def setup(self, E, case):
        dim = fresh(I, 'dim')
        E.assume(dim >= 0)
        c_vec.start(E, dim)
        u = E.ghost['unit_cell'] = unit_cell(E, dim)
        N = symlist(E, TInt, dim, 'num_cells')
        E.ghost['any_tuple'] = fresh(AI, 'any_cell')
        s0 = E.ghost['signs'] = fresh(AI, 'signs')
        E.ghost['signs_ok'] = fresh(B, 'signs_ok')
        E.gs.update(oc=fresh(AI, 'oc'), oa=fresh(AI, 'oa'), oo=fresh(AI, 'oo'), ST=z3.K(I, z3.IntVal(0)), SG=fresh(AAI, 'SG'), p0=fresh(I, 'p0'))
        self_ = E.new(Obj(E.repo.mod('lattice')['Lattice']))
        args = [self_, u, N]
        if case == 'open':
            per = z3.K(I, z3.BoolVal(False))
            kw = {}
        else:
            flags = symlist(E, TBool, dim, 'periodic')
            per = flags.arrs[0]
            kw = {'periodic_boundaries': flags}
        E.assume(E.ghost['signs_ok'] == valid_signs(s0, dim, per))
        return Ctx(args, kw, s=self_, u=u, N=N, per=per, dim=dim, snap=[x.arrs[0] for x in u.f.values()] + [N.arrs[0]])

    def applies(self, E, args, kw):
        return 'building' in E.ghost

    def stub(self, E, args, kw, node):
        E.ghost['built'] = args[1:]
        return None

    def post(self, E, c, res):
        g, gs, s = E.ghost, E.gs, c.s
        if 'tuples' not in g:
            return [('the cells are enumerated', z3.BoolVal(False))]
        lat, atom, nl, names, na = cell_parts(g)
        nt, tl, cells, fd = g['tuples']
        oc, oa, oo, ST = (gs[x] for x in ('oc', 'oa', 'oo', 'ST'))
        N = c.N.arrs[0]
        at, q = g['any_tuple_at'], g['any_tuple']
        v, k, m = (z3.FreshConst(I, x) for x in 'vkm')
        out = orbitals_ok(E, s, g, oc, oa, oo, ST, nt)
        if s.f['_orbitals'].conc:
            out = [('no orbitals', z3.Or(nt == 0, ORBS([nl], na) == 0))]
        else:
            out.append(('one orbital for every cell, atom and name', iv(s.f['_orbitals'].n) == ST[nt]))
        out += [starts(ST, nt, ORBS([nl], na)),
                ('every cell within the numbers of cells is used', z3.Implies(fa(c.dim, lambda v: z3.And(0 <= q[v], q[v] < N[v]), lambda v: q[v]), z3.And(0 <= at, at < nt, fa(c.dim, lambda v: cells[at][v] == q[v], lambda v: q[v])))),
                ('only these cells are used', z3.ForAll([k, v], z3.Implies(z3.And(0 <= k, k < nt, 0 <= v, v < c.dim), z3.And(0 <= cells[k][v], cells[k][v] < N[v])))),
                ('cells are in lexicographic order', z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < nt), z3.And(0 <= fd(k, m), fd(k, m) < c.dim, cells[k][fd(k, m)] < cells[m][fd(k, m)]))))]
        bl = s.f['_boundary_vectors']
        bl = bl.as_sym() if bl.conc else bl
        SG, p0, s0 = gs['SG'], gs['p0'], g['signs']
        out += boundary_ok(g, c.dim, iv(bl.n), bl.arrs[0], SG, N, lat, c.per) + any_signs(g, c.dim, iv(bl.n), bl.arrs[0], p0, s0, N, lat, c.per)
        out += [('the arguments are unchanged', z3.And([x == y for x, y in zip([x.arrs[0] for x in c.u.f.values()] + [c.N.arrs[0]], c.snap)])),
                ('the dimension', iv(s.f['dim']) == c.dim)]
        return out


# ------------------------------------------------------------------------------- queries
def lattice(E):
    """A lattice: its boundary vectors, orbitals and their registered numbers."""
    dim = fresh(I, 'dim')
    E.assume(dim >= 0)
    c_vec.start(E, dim)
    s = E.new(Obj(E.repo.mod('lattice')['Lattice']))
    s.f['dim'] = dim
    s.f['tol'] = fresh(R, 'tol')
    E.assume(s.f['tol'] > 0)
    s.f['precision'] = fresh(I, 'precision')
    s.f['_orbitals'] = symlist(E, TORB, fresh(I, 'norb'), 'orb')
    d = s.f['_indices_orbitals'] = E.new(SDict(TTup(TStr, TStr), TInt, 'ind'))
    E.assume(d.wf())
    p, q = z3.FreshConst(I, 'p'), z3.FreshConst(I, 'q')
    v = z3.Select(d.vals[0], p, q)
    E.assume(z3.ForAll([p, q], z3.Implies(z3.Select(d.idx, p, q) >= 0, z3.And(0 <= v, v < s.f['_orbitals'].n)), patterns=[v]))
    b = s.f['_boundary_vectors'] = symlist(E, TVec, fresh(I, 'nbv'), 'bv')
    E.assume(b.n >= 1)
    return s


def images(E, comp):
    """A vector for every boundary vector b, with components comp(b, c)."""
    f = z3.Function('image!{}'.format(E.serial), I, SV)
    b, c = z3.FreshConst(I, 'b'), z3.FreshConst(I, 'c')
    E.assume(z3.ForAll([b, c], z3.Implies(z3.And(0 <= c, c < E.ghost['vec']), VC(f(b), c) == comp(b, c)), patterns=[VC(f(b), c)]))
    return f


def sym_vec(E, name):
    return E.new(Abst('Vec', fresh(SV, name)))


@contract
class LatticeIndex(Contract):
    """index(position, name): the number registered for the first periodic image that has one, else -1."""
    mod, qual, props = 'lattice', 'Lattice.index', ['C16']

    def loops_for(self, case):
        def inv(L):
            key, d, nm = L.E.ghost['key'], L['self'].f['_indices_orbitals'], L.E.ghost['name']
            return [('earlier images are not registered', fa(L.i, lambda b: z3.Not(key(b)[0]), lambda b: L.E.ghost['img'](b)))]
        return [Loop(inv, label='(boundary vectors)')]

    def setup(self, E, case):
        s = lattice(E)
        pos, nm = sym_vec(E, 'position'), SStr(fresh(I, 'orbital_name'))
        bvs, d, tol = s.f['_boundary_vectors'].arrs[0], s.f['_indices_orbitals'], s.f['tol']
        t0 = pos.t
        img = images(E, lambda b, c: clean(tol, VC(t0, c) + VC(bvs[b], c)))
        E.ghost['img'] = E.ghost['expected_vector'] = img
        idx, vals = d.idx, d.vals[0]
        key = lambda b: (z3.Select(idx, VNAME(img(b), s.f['precision']), nm.t) >= 0, z3.Select(vals, VNAME(img(b), s.f['precision']), nm.t))
        E.ghost['key'], E.ghost['name'] = key, nm
        return Ctx([s, pos, nm], s=s, key=key, n=s.f['_boundary_vectors'].n, img=img, pos=pos, t0=t0)

    def post(self, E, c, res):
        r = iv(res)
        b, b2 = z3.FreshConst(I, 'b'), z3.FreshConst(I, 'b')
        none = fa(c.n, lambda b: z3.Not(c.key(b)[0]))
        found = z3.Exists([b], z3.And(0 <= b, b < c.n, c.key(b)[0], r == c.key(b)[1], fa(b, lambda k: z3.Not(c.key(k)[0]))), patterns=[c.img(b)])
        return [('the number of the first registered image, or -1', z3.Or(z3.And(r == -1, none), found)),
                ('the position is unchanged', c.pos.t == c.t0)]


@contract
class LatticeDistance(Contract):
    """distance(a, b): the smallest norm over the periodic images."""
    mod, qual, props = 'lattice', 'Lattice.distance', ['C16', 'C13']
    cases = ['two orbitals', 'orbital and position', 'position and orbital', 'two positions']

    def setup(self, E, case):
        s = lattice(E)
        ok = {'two orbitals': (1, 1), 'orbital and position': (1, 0), 'position and orbital': (0, 1), 'two positions': (0, 0)}[case]
        args, vecs = [], []
        for o, nm in zip(ok, 'ab'):
            if o:
                k = fresh(I, 'orb_' + nm)
                E.assume(z3.And(0 <= k, k < s.f['_orbitals'].n))
                args.append(k)
                vecs.append(s.f['_orbitals'].arrs[0][k])
            else:
                v = sym_vec(E, 'position_' + nm)
                args.append(v)
                vecs.append(v.t)
        bvs = s.f['_boundary_vectors'].arrs[0]
        img = images(E, lambda b, c: VC(vecs[0], c) + VC(bvs[b], c) - VC(vecs[1], c))
        u, v = z3.FreshConst(SV, 'u'), z3.FreshConst(SV, 'v')
        E.assume(z3.ForAll([u, v], ext(E, u, v), patterns=[z3.MultiPattern(VNORM(u), VNORM(v))]))
        return Ctx([s] + args, s=s, img=img, n=s.f['_boundary_vectors'].n, vecs=vecs, args_=args)

    def post(self, E, c, res):
        r = rv(res)
        b = z3.FreshConst(I, 'b')
        return [('no image is closer', fa(c.n, lambda b: r <= VNORM(c.img(b)))),
                ('it is the distance of an image', z3.Exists([b], z3.And(0 <= b, b < c.n, r == VNORM(c.img(b)))))] + \
            [('the positions are unchanged', a.t == v) for a, v in zip(c.args_, c.vecs) if isinstance(a, Abst)]


@contract
class LatticePosition(Contract):
    mod, qual, props = 'lattice', 'Lattice.position', ['C16']

    def setup(self, E, case):
        s = lattice(E)
        k = fresh(I, 'k')
        E.assume(z3.And(0 <= k, k < s.f['_orbitals'].n))
        return Ctx([s, k], s=s, k=k)

    def post(self, E, c, res):
        return [('the position of the orbital', res.t == c.s.f['_orbitals'].arrs[0][c.k])]


@contract
class LatticeLen(Contract):
    mod, qual, props = 'lattice', 'Lattice.__len__', ['C16']

    def setup(self, E, case):
        s = lattice(E)
        return Ctx([s], s=s)

    def post(self, E, c, res):
        return [('the number of orbitals', iv(res) == c.s.f['_orbitals'].n)]


# ------------------------------------------------------------------------ constructions
def built(E, res, n_args=4):
    """The arguments the lattice was built with: (lattice vectors, positions, names, cells, boundaries)."""
    a = E.ghost.get('built')
    if a is None or not isinstance(res, Obj) or res.cls.name != 'Lattice':
        return None
    u = a[0]
    l, p, o = (u.f[x] for x in ('lattice_vectors', 'atom_positions', 'atom_orbitals'))
    return l.as_sym(TVec) if l.conc and l.items else l, p, o, a[1], a[2], a[3]


def components(E, t, vals):
    return z3.And([VC(t, z3.IntVal(i)) == rv(x) for i, x in enumerate(vals)])


def same(E, x, y):
    """The very same object, or an equal value."""
    if x is y:
        return z3.BoolVal(True)
    if isinstance(x, (Lst, Abst, Obj)) or isinstance(y, (Lst, Abst, Obj)) or x is None or y is None:
        return z3.BoolVal(False)
    return bv(E.equal(x, y))


@contract
class Cubic(Contract):
    """cubic(d, num_cells, ...): unit lattice vectors, one atom at the origin with the given names."""
    mod, qual, props = 'lattice', 'cubic', ['C16']
    cases = ['names and boundaries', 'default names', 'default boundaries']

    def loops_for(self, case):
        def inv(L):
            l = L['lattice_vectors']
            if l.conc:
                return [('none yet', z3.And(L.i == 0, z3.BoolVal(not l.items)))]
            v, c = z3.FreshConst(I, 'v'), z3.FreshConst(I, 'c')
            return [('unit vectors', z3.And(iv(l.n) == L.i, z3.ForAll([v, c], z3.Implies(z3.And(0 <= v, v < L.i, 0 <= c, c < L.E.ghost['vec']), VC(l.arrs[0][v], c) == z3.If(v == c, z3.RealVal(1), z3.RealVal(0))), patterns=[VC(l.arrs[0][v], c)])))]
        return [Loop(inv, types={'lattice_vectors': TLst(TVec)}, label='(dimensions)')]

    def setup(self, E, case):
        d = fresh(I, 'd')
        E.assume(d >= 1)
        c_vec.start(E, d)
        E.ghost['building'] = True
        N = symlist(E, TInt, d, 'num_cells')
        kw = {}
        if case != 'default boundaries':
            kw['periodic_boundaries'] = symlist(E, TBool, d, 'periodic')
        if case != 'default names':
            kw['orbital_names'] = symlist(E, TStr, fresh(I, 'nnames'), 'names')
        return Ctx([d, N], kw, d=d, N=N, kw_=kw)

    def post(self, E, c, res):
        b = built(E, res)
        if b is None:
            return [('a lattice is built', z3.BoolVal(False))]
        l, p, o, N, per, prec = b
        v, k = z3.FreshConst(I, 'v'), z3.FreshConst(I, 'k')
        out = [('unit lattice vectors', z3.And(iv(l.length()) == c.d, z3.ForAll([v, k], z3.Implies(z3.And(0 <= v, v < c.d, 0 <= k, k < c.d), VC(l.arrs[0][v], k) == z3.If(v == k, z3.RealVal(1), z3.RealVal(0)))))),
               ('one atom at the origin', z3.And(z3.BoolVal(p.conc and len(p.items) == 1), fa(c.d, lambda k: VC(p.items[0].t, k) == 0))),
               ('the numbers of cells', same(E, N, c.N)), ('the default precision', z3.BoolVal(prec == 8))]
        nm = c.kw_.get('orbital_names')
        out.append(('the names of its orbitals', z3.BoolVal(o.conc and len(o.items) == 1 and (o.items[0] is nm if nm is not None else isinstance(o.items[0], Lst) and o.items[0].conc and o.items[0].items == ['']))))
        pb = c.kw_.get('periodic_boundaries')
        if pb is not None:
            out.append(('the boundaries', same(E, per, pb)))
        elif isinstance(per, Lst):
            q = per.as_sym(TBool)
            out.append(('open boundaries', z3.And(iv(q.n) == c.d, fa(c.d, lambda k: z3.Not(q.arrs[0][k])))))
        else:
            out.append(('open boundaries', z3.BoolVal(isinstance(per, tuple) and not any(per))))
        return out

    def applies(self, E, args, kw):
        return 'via cubic' in E.ghost

    def stub(self, E, args, kw, node):
        E.ghost['cubic'] = args
        E.ghost['cubic_result'] = r = E.new(Obj(E.repo.mod('lattice')['Lattice']))
        return r


@contract
class Square(Contract):
    mod, qual, props = 'lattice', 'square', ['C16']

    def setup(self, E, case):
        E.ghost['via cubic'] = True
        a = [fresh(I, 'N1'), fresh(I, 'N2')]
        pb, nm = symlist(E, TBool, z3.IntVal(2), 'periodic'), symlist(E, TStr, fresh(I, 'nnames'), 'names')
        return Ctx(a, {'periodic_boundaries': pb, 'orbital_names': nm}, a=a, pb=pb, nm=nm)

    def post(self, E, c, res):
        q = E.ghost.get('cubic')
        if q is None or res is not E.ghost['cubic_result']:
            return [('a cubic lattice', z3.BoolVal(False))]
        d, N, pb, nm = q
        Ns = list(N) if isinstance(N, tuple) else N.items
        return [('two dimensions', iv(d) == 2), ('the numbers of cells', z3.And(z3.BoolVal(len(Ns) == 2), iv(Ns[0]) == c.a[0], iv(Ns[1]) == c.a[1])), ('the boundaries', same(E, pb, c.pb)), ('the names', same(E, nm, c.nm))]


@contract
class Chain(Contract):
    mod, qual, props = 'lattice', 'chain', ['C16']

    def setup(self, E, case):
        E.ghost['via cubic'] = True
        n, per, nm = fresh(I, 'N'), fresh(B, 'periodic'), symlist(E, TStr, fresh(I, 'nnames'), 'names')
        return Ctx([n], {'periodic': per, 'orbital_names': nm}, n=n, per=per, nm=nm)

    def post(self, E, c, res):
        q = E.ghost.get('cubic')
        if q is None or res is not E.ghost['cubic_result']:
            return [('a cubic lattice', z3.BoolVal(False))]
        d, N, pb, nm = q
        Ns, ps = (list(x) if isinstance(x, tuple) else x.items for x in (N, pb))
        return [('one dimension', iv(d) == 1), ('the number of cells', z3.And(z3.BoolVal(len(Ns) == 1), iv(Ns[0]) == c.n)), ('the boundary', z3.And(z3.BoolVal(len(ps) == 1), bv(ps[0]) == c.per)), ('the names', same(E, nm, c.nm))]


@contract
class Kagome(Contract):
    """kagome(N1, N2, ...): triangular Bravais lattice, three atoms halfway along the lattice vectors."""
    mod, qual, props = 'lattice', 'kagome', ['C16']
    cases = ['boundaries', 'default boundaries']

    def setup(self, E, case):
        c_vec.start(E, z3.IntVal(2))
        E.ghost['building'] = True
        n = [fresh(I, 'N1'), fresh(I, 'N2')]
        nm = symlist(E, TStr, fresh(I, 'nnames'), 'names')
        kw = {'orbital_names': nm}
        if case == 'boundaries':
            kw['periodic_boundaries'] = symlist(E, TBool, z3.IntVal(2), 'periodic')
        return Ctx(n, kw, n=n, nm=nm, pb=kw.get('periodic_boundaries'))

    def post(self, E, c, res):
        b = built(E, res)
        if b is None or not b[1].conc or len(b[1].items) != 3:
            return [('a lattice with three atoms is built', z3.BoolVal(False))]
        l, p, o, N, per, prec = b
        s = 3.0 ** 0.5 / 2.0
        Ns = list(N) if isinstance(N, tuple) else N.items
        out = [('lattice vectors', z3.And(iv(l.length()) == 2, components(E, l.arrs[0][0], [1, 0]), components(E, l.arrs[0][1], [0.5, s]))),
               ('atoms', z3.And(components(E, p.items[0].t, [0, 0]), components(E, p.items[1].t, [0.5, 0]), components(E, p.items[2].t, [0.25, s / 2.0]))),
               ('names', z3.BoolVal(o.conc and len(o.items) == 3 and all(x is c.nm for x in o.items))),
               ('the numbers of cells', z3.And(z3.BoolVal(len(Ns) == 2), iv(Ns[0]) == c.n[0], iv(Ns[1]) == c.n[1]))]
        if c.pb is not None:
            out.append(('the boundaries', same(E, per, c.pb)))
        else:
            out.append(('open boundaries', z3.BoolVal(isinstance(per, tuple) and len(per) == 2 and not any(per))))
        return out
