"""Lists of operators: an element is known through functions of a term of the sort Oper."""
import z3
from values import *
from values import CUR, Shape, SHAPE_OF
from spec import fa, mention
from c_basis import SOS, TOS
from c_operator import OPTYPE, AR, coef, op_snap, snap_of

CONTRACTS = []
OPS = z3.DeclareSort('Oper')
OLEN = z3.Function('oper_terms', OPS, I)
OARR = z3.Function('oper_strings', OPS, z3.ArraySort(I, SOS))
OIDX = z3.Function('oper_index', OPS, z3.ArraySort(SOS, I))
ORE, OIM = z3.Function('oper_re', OPS, AR), z3.Function('oper_im', OPS, AR)
OTYP = z3.Function('oper_type', OPS, I)


def opterm_snap(t):
    return (OLEN(t), OARR(t), OIDX(t), ORE(t), OIM(t), OTYP(t))


class _TOper(Shape):
    sorts = [OPS]

    def mk(self, ts):
        t = ts[0]
        E = CUR[0]
        m = E.repo.mod('basis')
        o, b = Obj(m['Operator']), Obj(m['Basis'])
        n = OLEN(t)
        d = SDict(TOS, TInt, 'od')
        d.n, d.keys, d.idx, d.vals = n, [OARR(t)], OIDX(t), [OIDX(t)]
        b.f['op_strings'], b.f['_indices'] = Lst.sym(TOS, n, [OARR(t)], frozen=True), d
        d.frozen = b.frozen = o.frozen = True
        o.f['_basis'], o.f['coeffs'], o.f['op_type'] = b, Lst.sym(TCx, n, [ORE(t), OIM(t)], np=True, frozen=True), SStr(OTYP(t))
        o.oterm = t
        return o

    def un(self, v):
        if isinstance(v, Obj) and v.cls.name == 'Operator':
            return [oper_term(v)]
        raise Unsupported('not an operator: {!r}'.format(v))

    def __repr__(self):
        return 'Oper'


TOper = _TOper()
SHAPE_OF.append(lambda v: TOper if isinstance(v, Obj) and v.cls.name == 'Operator' else None)


def oper_term(o):
    """The term that stands for the present value of an operator."""
    t = getattr(o, 'oterm', None)
    if t is not None:
        return t
    E = CUR[0]
    t = fresh(OPS, 'oper')
    n, arr, idx, re, im, ty = (snap_of if isinstance(o.f['_basis'].f['_indices'], CDict) else op_snap)(o)
    E.assume(z3.And(OLEN(t) == iv(n), OARR(t) == arr, OIDX(t) == idx, ORE(t) == re, OIM(t) == im, OTYP(t) == ty))
    return t


def oper_axioms(E):
    """Class invariant of the operators in lists."""
    t, k, s = z3.FreshConst(OPS, 't'), z3.FreshConst(I, 'k'), z3.FreshConst(SOS, 's')
    n, arr, idx, re, im, ty = opterm_snap(t)
    E.assume(z3.ForAll([t], n >= 0, patterns=[n]))
    E.assume(z3.ForAll([t, k], z3.Implies(z3.And(0 <= k, k < n), z3.And(idx[arr[k]] == k, OPTYPE(arr[k]) == ty)), patterns=[arr[k]]))
    E.assume(z3.ForAll([t, s], z3.Implies(idx[s] >= 0, z3.And(idx[s] < n, arr[idx[s]] == s)), patterns=[idx[s]]))


def new_oplist(E, name='ops', shape=None):
    oper_axioms(E)
    l = E.new(Lst.sym(TOper, fresh(I, name + '_n'), name=name))
    E.assume(l.n >= 0)
    return l
