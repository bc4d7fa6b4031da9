"""Well-formed UTF-8 (Unicode Standard, table 3-7) and the contract of is_valid_utf8."""
import z3
from values import *
from engine import *
from execu import *
from task import Contract, Task
from specs.ranges import Ctx

BYTES = z3.ArraySort(ISORT, z3.BitVecSort(8))
# UV(A, n, p): the bytes p..n-1 of A are well-formed UTF-8
UV = z3.Function("well_formed_from", BYTES, ISORT, ISORT, z3.BoolSort())


def rng(b, lo, hi):
    return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))


def seq(b, k):
    """b[0..k-1] is one well-formed sequence"""
    if k == 1:
        return z3.ULE(b[0], 0x7F)
    if k == 2:
        return z3.And(rng(b[0], 0xC2, 0xDF), rng(b[1], 0x80, 0xBF))
    c = [rng(x, 0x80, 0xBF) for x in b[1:]]
    if k == 3:
        return z3.And(c[1], z3.Or(z3.And(b[0] == 0xE0, rng(b[1], 0xA0, 0xBF)), z3.And(rng(b[0], 0xE1, 0xEC), c[0]),
                                  z3.And(b[0] == 0xED, rng(b[1], 0x80, 0x9F)), z3.And(rng(b[0], 0xEE, 0xEF), c[0])))
    return z3.And(c[1], c[2], z3.Or(z3.And(b[0] == 0xF0, rng(b[1], 0x90, 0xBF)), z3.And(rng(b[0], 0xF1, 0xF3), c[0]), z3.And(b[0] == 0xF4, rng(b[1], 0x80, 0x8F))))


def unfold(A, n, p):
    """definition of UV at p (for 0 <= p <= n)"""
    b = [z3.Select(A, p + j) for j in range(4)]
    steps = z3.Or(*[z3.And(p + k <= n, seq(b[:k], k), UV(A, n, p + k)) for k in (1, 2, 3, 4)])
    return z3.Implies(z3.And(0 <= p, p <= n), UV(A, n, p) == z3.If(p == n, z3.BoolVal(True), steps))


def bytes_of(V, st, p):
    V.arr_comp(st, p.reg, 0, 1, ('int', 8)) if st.rs(p.reg).kind == 'arr' else V.to_arr(st, p.reg, 1)
    return st.rs(p.reg).arrs[(0, 1)]


class IsValid(Contract):
    fn = r"pystd2026::\(anonymous namespace\)::is_valid_utf8\("

    def __init__(s, nul=False):
        s.nul = nul
        s.name = "is_valid_utf8" + (" (NUL terminated)" if nul else "")

        def inv(v):
            t = v.T
            i = v.u('i')
            return [("position in range", z3.And(0 <= i, i <= t.n)),
                    ("everything before it is well-formed", UV(t.A, t.n, t.lo) == UV(t.A, t.n, t.lo + i))]
        s.loops = [LoopSpec(r"::is_valid_utf8\(", inv, variant=lambda v: v.T.n - v.u('i'), names=('i',), tag='is_valid_utf8',
                            lemma=lambda v: [unfold(v.T.A, v.T.n, v.u('i'))])]

    def setup(s, V, st):
        n = z3.FreshInt("n")
        st.assume(n >= 0, n < (1 << 40))
        r = V.new_region(st, "input", Lin.of(n) + (1 if s.nul else 0), 'ext', 'arr', 1)
        V.arr_comp(st, r, 0, 1, ('int', 8))
        A = st.rs(r).arrs[(0, 1)]
        if s.nul:
            i = z3.Int("i")
            st.assume(z3.Select(A, n) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(A, i) != 0), patterns=[z3.Select(A, i)]))
            r.ghost['strlen'] = Lin.of(n)
        V.ctx = Ctx(reg=r, n=n, A=A, lo=z3.IntVal(0))
        return [PV(r, 0), IV(64, (1 << 64) - 1 if s.nul else Lin.of(n))]

    def bind(s, V, st, args):
        c = Ctx(reg=args[0].reg)
        c.A = bytes_of(V, st, args[0])
        c.lo = args[0].off.z()
        n = V.as_u(st, args[1])
        if n.const == (1 << 64) - 1:
            if 'strlen' not in c.reg.ghost or args[0].off.const != 0:
                raise Tool("is_valid_utf8 without length")
            n = c.reg.ghost['strlen']
        c.n = n.z() + c.lo
        c.room = c.reg.size.z()
        return c

    def pre(s, V, st, c):
        return [("bytes are readable", z3.And(c.lo >= 0, c.lo <= c.n, c.n <= c.room))] if hasattr(c, 'room') else []

    def frame(s, V, st, c):
        return B1(z3.FreshConst(z3.BoolSort(), "valid"))

    def post(s, V, old, new, c, ret):
        b = ret.b if isinstance(ret, B1) else V.as_u(new, ret).z() != 0
        return [("true exactly for well-formed UTF-8", b == UV(c.A, c.n, c.lo))]

    def allowed(s, V, c):
        return set()


def h_utf8(V, st, a, ins):
    """vp_utf8(p, n): the n bytes at p are well-formed"""
    A = bytes_of(V, st, a[0])
    n = V.as_u(st, a[1]).z()
    return B1(UV(A, n + a[0].off.z(), a[0].off.z()))


def h_seq(V, st, a, ins):
    """vp_seq(p, k): the k bytes at p are one well-formed sequence"""
    k = V.as_u(st, a[1]).const
    b = [V.to_bv(st, V.load(st, PV(a[0].reg, a[0].off + j), __import__('ir').Ty('int', w=8, size=1), ins), 8) for j in range(k)]
    return B1(seq(b, k))


def h_append(V, st, a, ins):
    """CString::operator+=(const char*): contract (proved in C12): appends the bytes before the NUL"""
    import ir
    V.used_contracts.add("CString::operator+=(const char*)")
    outs = []
    cur = st
    for k in range(5):
        v = V.to_bv(cur, V.load(cur, PV(a[1].reg, a[1].off + k), ir.Ty('int', w=8, size=1), ins), 8)
        t = cur.copy()
        t.assume(v == 0)
        if V.feasible(t):
            t.g['appended'] = [V.to_bv(t, V.load(t, PV(a[1].reg, a[1].off + j), ir.Ty('int', w=8, size=1), ins), 8) for j in range(k)]
            outs.append(Outcome(t, 'ret', a[0]))
        cur.assume(v != 0)
        if not V.feasible(cur):
            return outs
    V.fail(cur, "the appended text is terminated", 'safety', ins)
    return outs


def h_napp(V, st, a, ins):
    return IV(64, len(st.g['appended']) if 'appended' in st.g else 99)


def h_app(V, st, a, ins):
    k = V.as_u(st, a[0]).const
    return BVV(8, st.g['appended'][k])


def h_cp(V, st, a, ins):
    return BVV(32, z3.FreshConst(z3.BitVecSort(32), "cp"))


def h_str(V, st, a, ins):
    return None


def config(V):
    V.bvbytes = True
    V.on("^vp_utf8$", h_utf8)
    V.on("^vp_seq$", h_seq)
    V.on("^vp_cp$", h_cp)
    V.on("^vp_appended_n$", h_napp)
    V.on("^vp_appended$", h_app)
    V.on(r"pystd2026::CString::operator\+=\(char const\*\)", h_append)
    V.assumptions.add("CString::operator+=(const char*) is used through its contract (appends the bytes before the NUL), decided in C12")
