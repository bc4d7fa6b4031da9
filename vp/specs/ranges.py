"""Shared vocabulary for contracts about element ranges."""
import z3
import ir
from values import *
from engine import *
from execu import *

ORIG = z3.Function("orig", ISORT, ISORT)
_i, _j = z3.Ints("i j")


class Kind:
    """element type of an instantiation: opaque class or integer"""

    def __init__(s, name, size, cls=None, width=None, cppname=None, key=None):
        s.name, s.size, s.cls, s.width = name, size, cls, width
        s.cpp = cppname or name
        s.K = key or (lambda v: KEY(v))

    def junkfree(s):
        return s.cls is not None


ELEM = Kind("Elem", 24, cls="Elem")
U64C = Kind("unsigned long", 8, width=64)


def mk_region(V, st, kind, name="A", extra=0):
    n = z3.FreshInt("n_" + name)
    st.assume(n >= 0, n < (1 << 40))
    r = V.new_region(st, name, Lin.of(n).scale(kind.size), 'ext', 'arr', kind.size)
    rs = st.wrs(r)
    A = z3.FreshConst(ARR, name)
    rs.arrs[(0, kind.size)] = A
    if kind.cls:
        rs.ety[(0, kind.size)] = ('elem', kind.cls)
        rs.live[(0, kind.size)] = z3.K(ISORT, z3.BoolVal(True))
    else:
        rs.ety[(0, kind.size)] = ('int', kind.width)
    r.ghost['count'] = True
    r.ghost['kind'] = kind
    return r, n, A


def P(reg, kind, idx):
    return PV(reg, Lin.of(idx).scale(kind.size))


def forall1(f, trig):
    return z3.ForAll([_i], f(_i), patterns=[trig(_i)] if not isinstance(trig(_i), list) else trig(_i))


def all_in(lo, hi, A, f):
    """forall lo<=i<hi: f(A[i])"""
    return z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), f(z3.Select(A, _i))), patterns=[z3.Select(A, _i)])


def all_idx(lo, hi, A, f):
    """forall lo<=i<hi: f(i) triggered on A[i]"""
    return z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), f(_i)), patterns=[z3.Select(A, _i)])


def pairs(cond, A, f):
    """forall i<j with cond(i,j): f(A[i],A[j])"""
    a, b = z3.Select(A, _i), z3.Select(A, _j)
    return z3.ForAll([_i, _j], z3.Implies(z3.And(_i < _j, cond(_i, _j)), f(a, b)), patterns=[z3.MultiPattern(a, b)])


def sorted_in(lo, hi, A, le):
    return pairs(lambda i, j: z3.And(lo <= i, j < hi), A, le)


def same_outside(A, B, lo, hi):
    """B equals A outside [lo,hi)"""
    return z3.ForAll([_i], z3.Implies(z3.Or(_i < lo, _i >= hi), z3.Select(B, _i) == z3.Select(A, _i)), patterns=[z3.Select(B, _i)])


def same_in(A, B, lo, hi):
    return z3.ForAll([_i], z3.Implies(z3.And(_i >= lo, _i < hi), z3.Select(B, _i) == z3.Select(A, _i)), patterns=[z3.Select(B, _i)])


def nojunk(lo, hi, A):
    return all_in(lo, hi, A, lambda v: v != JUNK)


PERMN = [0]


def perm_lemma(A, B, lo, hi, both=False):
    """consequence of: B is A rearranged inside [lo,hi) (equal counts of every value + equal outside).
    Existence of the permutation is the (trusted) permutation lemma."""
    PERMN[0] += 1
    p = z3.Function("perm%d" % PERMN[0], ISORT, ISORT)
    q = z3.Function("invp%d" % PERMN[0], ISORT, ISORT)
    out = [z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), z3.And(lo <= p(_i), p(_i) < hi, z3.Select(B, _i) == z3.Select(A, p(_i)))), patterns=[z3.Select(B, _i)])]
    if both:
        out.append(z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), z3.And(lo <= q(_i), q(_i) < hi, z3.Select(A, _i) == z3.Select(B, q(_i)))), patterns=[z3.Select(A, _i)]))
    return out


PRELUDE = [X != JUNK,
           z3.ForAll([_i, _j], z3.And((CMPI(_i, _j) < 0) == (KEY(_i) < KEY(_j)), (CMPI(_i, _j) == 0) == (KEY(_i) == KEY(_j))), patterns=[CMPI(_i, _j)])]


def cmp_handler(kind, neg=False):
    def h(V, st, a, ins):
        x = V.elem_at(st, a[-2], kind.cls, kind.size, ins)
        y = V.elem_at(st, a[-1], kind.cls, kind.size, ins)
        if st.dead:
            return None
        if kind.cls:
            V.not_junk(st, x, y, ins)
        e = CMPI(x, y)
        st.assume(e >= -(1 << 31), e < (1 << 31), (e < 0) == (KEY(x) < KEY(y)), (e == 0) == (KEY(x) == KEY(y)))
        return IV(32, Lin.of(e), True)
    return h


def eq_handler(kind):
    def h(V, st, a, ins):
        x = V.elem_at(st, a[-2], kind.cls, kind.size, ins)
        y = V.elem_at(st, a[-1], kind.cls, kind.size, ins)
        if st.dead:
            return None
        if kind.cls:
            V.not_junk(st, x, y, ins)
        return B1(KEY(x) == KEY(y))
    return h


PRED = z3.Function("pred", ISORT, z3.BoolSort())


def pred_handler(kind):
    def h(V, st, a, ins):
        x = V.elem_at(st, a[-1], kind.cls, kind.size, ins)
        if st.dead:
            return None
        if kind.cls:
            V.oblige(st, "predicate does not look at a moved-from element", x != JUNK, 'lifetime', ins)
        return B1(PRED(x))
    return h


class Ctx:
    def __init__(s, **kw):
        s.__dict__.update(kw)
