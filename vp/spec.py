"""Specification functions: contracts written as C++ functions over the real code (see harness/vp.hpp)."""
import re
import z3
import ir
from values import *
from engine import *
from engine import _nm
from execu import *
from task import Contract, Task
from specs.ranges import PRELUDE, mk_region, Kind, Ctx, perm_lemma

VALS = [0]


def cstr_of(V, st, p):
    """text of a constant string argument"""
    r = p.reg
    V.init_global(st, r)
    out = []
    o = p.off.const
    rs = st.rs(r)
    while True:
        v = V.load(st, PV(r, o), ir.Ty('int', w=8, size=1), None)
        c = v.const
        if not c:
            break
        out.append(chr(c))
        o += 1
    return "".join(out)


def boolz(V, st, v):
    if isinstance(v, B1):
        return v.b
    return V.as_u(st, v).z() != 0


def any_int(w, sg):
    def h(V, st, a, ins):
        return V.fresh_int(st, w, "x", sg)
    return h


def any_bv(w):
    def h(V, st, a, ins):
        if V.bvbytes:
            return BVV(w, z3.FreshConst(z3.BitVecSort(w), "x"))
        return V.fresh_int(st, w, "x", False)
    return h


def any_fp(w):
    def h(V, st, a, ins):
        return FV(w, z3.FreshConst(z3.BitVecSort(w), "fp"))
    return h


def h_assume(V, st, a, ins):
    st.assume(boolz(V, st, a[0]))
    if not V.feasible(st):
        st.dead = True
        return []


def h_assert(V, st, a, ins):
    if isinstance(a[0], Undef):
        V.fail(st, "contract: %s (the value is undefined)" % cstr_of(V, st, a[1]), 'post', ins)
        return []
    V.oblige(st, "contract: " + cstr_of(V, st, a[1]), boolz(V, st, a[0]), 'post', ins)


def h_aborts(V, st, a, ins):
    st.g['aborts'] = boolz(V, st, a[0])


def h_throw(V, st, a, ins):
    st.g['throws'] = boolz(V, st, a[0])


def h_split(V, st, a, ins):
    n = V.as_u(st, a[1]).const
    x = V.as_u(st, a[0])
    V.oblige(st, "case split is complete", z3.And(x.z() >= 0, x.z() < n), 'post', ins)
    if st.dead:
        return []
    outs = []
    for k in range(n):
        t = st.copy() if k < n - 1 else st
        t.assume(x.z() == k)
        if V.feasible(t):
            outs.append(Outcome(t, 'ret', IV(64, k)))
    return outs


ELK = Kind("Elem", 24, cls="Elem")


def bounded(V, st, a):
    n = V.as_u(st, a)
    st.assume(n.z() < (1 << 40))
    return n


def h_elems(V, st, a, ins):
    n = bounded(V, st, a[0])
    r = V.new_region(st, "elems", n.scale(24), 'ext', 'arr', 24)
    rs = st.wrs(r)
    A = z3.FreshConst(ARR, "elems")
    rs.arrs[(0, 24)] = A
    rs.ety[(0, 24)] = ('elem', 'Elem')
    rs.live[(0, 24)] = z3.K(ISORT, z3.BoolVal(True))
    i = z3.Int("i")
    st.assume(z3.ForAll([i], z3.And(A[i] != JUNK, A[i] >= 0, A[i] < (1 << 62)), patterns=[A[i]]))
    return PV(r, 0)


def h_ints(sz):
    def h(V, st, a, ins):
        n = bounded(V, st, a[0])
        r = V.new_region(st, "buf", n.scale(sz), 'ext', 'arr', sz)
        V.arr_comp(st, r, 0, sz, ('int', 8 * sz))
        rs = st.wrs(r)
        A = rs.arrs[(0, sz)]
        if not (sz == 1 and V.bvbytes):
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.And(A[i] >= 0, A[i] < (1 << (8 * sz))), patterns=[A[i]]))
        r.ghost['named'] = True
        return PV(r, 0)
    return h


def h_cstr(V, st, a, ins):
    n = bounded(V, st, a[0])
    r = V.new_region(st, "cstr", n + 1, 'ext', 'arr', 1)
    V.arr_comp(st, r, 0, 1, ('int', 8))
    A = st.wrs(r).arrs[(0, 1)]
    i = z3.Int("i")
    if V.bvbytes:
        st.assume(A[n.z()] == z3.BitVecVal(0, 8))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.z()), A[i] != z3.BitVecVal(0, 8)), patterns=[A[i]]))
    else:
        st.assume(A[n.z()] == 0)
        st.assume(z3.ForAll([i], z3.And(A[i] >= 0, A[i] < 256, z3.Implies(z3.And(0 <= i, i < n.z()), A[i] != 0)), patterns=[A[i]]))
    r.ghost['strlen'] = n
    r.ghost['named'] = True
    return PV(r, 0)


def h_ghost(V, st, a, ins):
    st.g['ghost:' + cstr_of(V, st, a[0])] = V.as_u(st, a[1]).z()


def h_ghostp(V, st, a, ins):
    st.g['ghost:' + cstr_of(V, st, a[0])] = a[1]


def h_val(cls):
    def h(V, st, a, ins):
        v = V.elem_get(st, a[0], cls, ins, "value")
        st.assume(z3.Or(v == JUNK, z3.And(v >= 0, v < (1 << 62))))
        # a moved-from object has no value to compare with
        V.oblige(st, "the object inspected is not moved from", v != JUNK, 'post', ins)
        return IV(64, Lin.of(v))
    return h


def h_moved(cls):
    def h(V, st, a, ins):
        v = V.elem_get(st, a[0], cls, ins, "value")
        return B1(v == JUNK)
    return h


def h_any(cls):
    def h(V, st, a, ins):
        v = z3.FreshInt("e")
        st.assume(v != JUNK, v >= 0, v < (1 << 62))
        V.elem_set(st, a[0], cls, v, ins, True, "arbitrary element")
    return h


def h_default(V, st, a, ins):
    d = z3.Int("default_Elem")
    st.assume(d != JUNK, d >= 0, d < (1 << 62))
    return IV(64, Lin.of(d))


def install(V):
    V.prelude = list(PRELUDE)
    V.opaque = {"Elem": 24, "Other": 16}
    d = z3.Int("default_Elem")
    V.base_assume = [d != JUNK, d >= 0, d < (1 << 62)]
    for nm, w, sg in (("u8", 8, False), ("u16", 16, False), ("u32", 32, False), ("u64", 64, False), ("i32", 32, True), ("i64", 64, True)):
        V.on("^vp_%s$" % nm, any_int(w, sg))
    V.on("^vp_char$", any_bv(8))
    V.on("^vp_bool$", lambda V, st, a, ins: B1(z3.FreshConst(z3.BoolSort(), "b")))
    V.on("^vp_f32$", any_fp(32))
    V.on("^vp_f64$", any_fp(64))
    V.on("^vp_assume$", h_assume)
    V.on("^vp_assert$", h_assert)
    V.on("^vp_aborts_if$", h_aborts)
    V.on("^vp_may_throw$", h_throw)
    V.on("^vp_split$", h_split)
    V.on("^vp_elems$", h_elems)
    V.on("^vp_bytes$", h_ints(1))
    V.on("^vp_u32s$", h_ints(4))
    V.on("^vp_u64s$", h_ints(8))
    V.on("^vp_cstr$", h_cstr)
    V.on("^vp_ghost$", h_ghost)
    V.on("^vp_ghostp$", h_ghostp)
    V.on("^vp_val\\(Elem", h_val("Elem"))
    V.on("^vp_val\\(Other", h_val("Other"))
    V.on("^vp_moved\\(Elem", h_moved("Elem"))
    V.on("^vp_moved\\(Other", h_moved("Other"))
    V.on("^vp_elem\\(\\)", h_any("Elem"))
    V.on("^vp_other\\(\\)", h_any("Other"))
    V.on("^vp_default_elem$", h_default)


class SpecFn(Contract):
    """one spec_* function: its body states the contract"""

    def __init__(s, name, loops=(), leaks=True):
        s.name = name
        s.fn = r"^%s\(" % re.escape(name)
        s.loops = loops
        s.leaks = leaks

    def setup(s, V, st):
        V.ctx = Ctx()
        if V.base_assume:
            st.assume(*V.base_assume)
        return []

    def noleak(s, st):
        out = []
        if not s.leaks:
            return out
        exc = set()
        todo = [r for r in st.mem if regions_by_id[r].heap == 'exc']
        while todo:
            r = todo.pop()
            if r in exc or r not in st.mem:
                continue
            exc.add(r)      # what an exception object owns is released when it is destroyed
            todo += [v.reg.id for _, v in st.mem[r].cells.values() if isinstance(v, PV) and v.reg is not None]
        for r in st.mem:
            reg = regions_by_id[r]
            if ('allocd', r) in st.g and st.mem[r].alive and r not in exc:
                out.append(("every allocated block is released (%s, %s bytes)" % (reg.name, reg.size), z3.BoolVal(False)))
                break
        else:
            out.append(("every allocated block is released", z3.BoolVal(True)))
        return out

    may_not_return = True

    def post(s, V, old, new, c, ret):
        ab = new.g.get('must_abort')
        return s.noleak(new)

    def post_throw(s, V, old, new, c):
        return [("an exception leaves only where the contract says so", new.g.get('throws', z3.BoolVal(False)))] + s.noleak(new)

    def post_abort(s, V, old, new, c, why):
        return [("the program is stopped (%s) only where the contract says so" % why, new.g.get('aborts', z3.BoolVal(False)))]


def spec_names(path):
    t = open(path).read()
    return re.findall(r"^(?:void|extern \"C\" void) (spec_\w+)\(", t, re.M)


def spec_tasks(path, loops=(), config=None, uses=(), budget=200, only=None, leaks=True, cost=1):
    def conf_of(n):
        def conf(V):
            install(V)
            V.task_name = n
            if config:
                config(V)
        return conf
    out = []
    for n in spec_names(path):
        if only and not re.search(only, n):
            continue
        t = Task(SpecFn(n, loops, leaks), uses=uses, config=conf_of(n), budget=budget, name=n)
        t.cost = cost
        out.append(t)
    return out
