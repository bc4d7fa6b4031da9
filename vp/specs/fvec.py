"""The class invariant of FixedVector<Elem,N> and its loops: exactly the slots 0..num_entries-1 of the inline
storage hold live elements and num_entries <= N."""
import z3
from values import *
from engine import *
from execu import *
from specs.ranges import all_in
_i = z3.Int("i")
SZ = 24
K = (0, SZ)


class FV_:
    """a FixedVector given by its address; N from the window set on its storage"""

    def __init__(s, V, st, p, cap=None):
        s.V, s.st, s.reg = V, st, p.reg
        w = p.reg.ghost.get('awin')
        if not w:
            raise KeyError("storage of the FixedVector is not known")
        s.cap = (w[1] - w[0]) // SZ
        s.noff = w[1]

    @property
    def A(s):
        s.V.arr_comp(s.st, s.reg, 0, SZ, ('elem', 'Elem'))
        return s.st.rs(s.reg).arrs[K]

    @property
    def live(s):
        s.A
        return s.st.rs(s.reg).live[K]

    @property
    def n(s):
        c = s.st.rs(s.reg).cells.get(s.noff)
        if c is None or isinstance(c[1], Undef):
            raise KeyError("number of entries has no value")
        return s.V.as_u(s.st, c[1]).z()


def livepat(lv, cond):
    return z3.ForAll([_i], z3.Select(lv, _i) == cond, patterns=[z3.Select(lv, _i)])


def wf(V, st, p):
    try:
        f = FV_(V, st, p)
        n = f.n
    except KeyError as e:
        return [("fixed vector: members are initialised", z3.BoolVal(False))]
    return [("fixed vector: never more entries than its capacity", z3.And(n >= 0, n <= f.cap)),
            ("fixed vector: exactly the entries are live", livepat(f.live, z3.And(0 <= _i, _i < n)))]


def h_window(V, st, a, ins):
    """vp_fixed_window(p, bytes): the bytes at p are an array of element slots"""
    n = a[1].const if isinstance(a[1], IV) else None
    if n is None or a[0].off.const != 0:
        raise Tool("window is not constant")
    a[0].reg.ghost['awin'] = (0, n, SZ)


def h_fixed(V, st, a, ins):
    """vp_fixed(p): arbitrary reachable state"""
    p = a[0]
    f = FV_(V, st, p)
    n = z3.FreshInt("num")
    st.assume(n >= 0, n <= f.cap)
    rs = st.wrs(p.reg)
    A, lv = z3.FreshConst(ARR, "fixed"), z3.FreshConst(BARR, "flive")
    rs.arrs[K], rs.live[K], rs.ety[K] = A, lv, ('elem', 'Elem')
    st.assume(livepat(lv, z3.And(0 <= _i, _i < n)))
    st.assume(z3.ForAll([_i], z3.And(A[_i] != JUNK, A[_i] >= 0, A[_i] < (1 << 62)), patterns=[A[_i]]))
    rs.cells[f.noff] = (8, IV(64, Lin.of(n)))


def h_wf(V, st, a, ins):
    for lab, g in wf(V, st, a[0]):
        V.oblige(st, "class invariant: " + lab, g, 'post', ins)


def config(V):
    V.on("^vp_fixed_window$", h_window)
    V.on("^vp_fixed$", h_fixed)
    V.on("^vp_fixed_wf$", h_wf)


def th(v, name='this'):
    return FV_(v.V, v.st, v.p(name))


def same(A, B, lo, hi):
    return z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), z3.Select(A, _i) == z3.Select(B, _i)), patterns=[z3.Select(A, _i)])


CL = r"FixedVector<Elem, \d+[a-z]*>"


def loops():
    out = []

    def inv_destroy(v):
        f, e = th(v), th(v.entry)
        i = v.u('i')
        return [("index in range", z3.And(0 <= i, i <= f.n)),
                ("entries before the index are destroyed", livepat(f.live, z3.And(z3.Select(e.live, _i), z3.Or(_i < 0, _i >= i))))]
    out.append(LoopSpec(CL + "::destroy_contents", inv_destroy, variant=lambda v: th(v).n - v.u('i'), names=('i',), tag='destroy_contents'))

    def inv_swipe(v):
        f, e, o, oe = th(v), th(v.entry), th(v, 'o'), th(v.entry, 'o')
        i = v.u('i')
        return [("index in range", z3.And(0 <= i, i <= o.n)),
                ("taken entries", same(f.A, oe.A, z3.IntVal(0), i)),
                ("exactly they are live here", livepat(f.live, z3.Or(z3.And(0 <= _i, _i < i), z3.Select(e.live, _i)))),
                ("the rest is untouched", same(o.A, oe.A, i, o.n)),
                ]
    out.append(LoopSpec(CL + "::swipe_from", inv_swipe, variant=lambda v: th(v, 'o').n - v.u('i'), names=('i',), tag='swipe_from'))

    def inv_insert(v):
        f, e = th(v), th(v.entry)
        i, loc = v.u('i'), v.u('loc')
        n = f.n
        A, B = f.A, e.A
        return [("index in range", z3.And(loc <= i, i <= n - 2)),
                ("entries from the index on are shifted by one", z3.ForAll([_i], z3.Implies(z3.And(i < _i, _i < n - 1), z3.Select(A, _i) == z3.Select(B, _i - 1)), patterns=[z3.Select(A, _i)])),
                ("the last entry stays", z3.Select(A, n - 1) == z3.Select(B, n - 1)),
                ("entries before the index are untouched", same(A, B, z3.IntVal(0), i)),
                ("live entries stay live", livepat(f.live, z3.Select(e.live, _i)))]
    out.append(LoopSpec(CL + "::insert", inv_insert, variant=lambda v: v.u('i') - v.u('loc'), names=('i', 'loc'), tag='insert'))

    def inv_del(v):
        f, e = th(v), th(v.entry)
        i, i0 = v.u('i'), v.entry.u('i')
        n = f.n
        A, B = f.A, e.A
        return [("index in range", z3.And(i0 <= i, i <= n)),
                ("entries before the index are shifted back", z3.ForAll([_i], z3.Implies(z3.And(i0 - 1 <= _i, _i < i - 1), z3.Select(A, _i) == z3.Select(B, _i + 1)), patterns=[z3.Select(A, _i)])),
                ("entries before the deleted one are untouched", same(A, B, z3.IntVal(0), i0 - 1)),
                ("entries after the index are untouched", same(A, B, i, n)),
                ("live entries stay live", livepat(f.live, z3.Select(e.live, _i)))]
    out.append(LoopSpec(CL + "::delete_at", inv_del, variant=lambda v: th(v).n - v.u('i'), names=('i',), tag='delete_at'))

    def inv_mapp(v):
        f, e, o, oe = th(v), th(v.entry), th(v, 'o'), th(v.entry, 'o')
        b = v.V.pidx(v.st, v.p('__begin'))
        n = f.n
        return [("one entry per source element", z3.And(n == e.n + b, 0 <= b, b <= o.n)),
                ("old entries are kept", same(f.A, e.A, z3.IntVal(0), e.n)),
                ("new entries are the source's", z3.ForAll([_i], z3.Implies(z3.And(e.n <= _i, _i < n), z3.Select(f.A, _i) == z3.Select(oe.A, _i - e.n)), patterns=[z3.Select(f.A, _i)])),
                ("the rest of the source is untouched", same(o.A, oe.A, b, o.n)),
                ("exactly the entries are live", livepat(f.live, z3.And(0 <= _i, _i < n)))]
    out.append(LoopSpec(CL + "::move_append", inv_mapp, variant=lambda v: th(v, 'o').n - v.V.pidx(v.st, v.p('__begin')), names=(), tag='move_append'))
    return out
