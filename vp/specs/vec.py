"""The class invariant of Vector<Elem> and the loops of its operations.
Representation: buffer (null exactly when the capacity is 0) is the start of a heap block of capacity*24 bytes
in which exactly the slots 0..num_entries-1 hold live elements; num_entries <= capacity."""
import re
import z3
from values import *
from engine import *
from engine import _nm
from execu import *
from specs.ranges import all_in, all_idx
from values import fresh_lin

_i = z3.Int("i")
SZ = 24
CLS = "Elem"


class Vec:
    """a Vector object given by the pointers to its three members"""

    def __init__(s, pb, pc, pn):
        s.pb, s.pc, s.pn = pb, pc, pn

    @staticmethod
    def at(p):
        return Vec(PV(p.reg, p.off), PV(p.reg, p.off + 8), PV(p.reg, p.off + 16))

    def cells(s, st):
        return {(p.reg.id, p.off.c) for p in (s.pb, s.pc, s.pn)}

    def _get(s, V, st, p):
        return V.load(st, p, __import__('ir').Ty('int', w=64, size=8), None)

    def buf(s, st):
        c = st.rs(s.pb.reg).cells.get(s.pb.off.c)
        v = c[1] if c else None
        return v if isinstance(v, PV) else NULL

    def _int(s, V, st, p):
        c = st.rs(p.reg).cells.get(p.off.c)
        if c is None or isinstance(c[1], Undef):
            raise KeyError("vector member has no value")
        return V.as_u(st, c[1]).z()

    def cap(s, V, st):
        return s._int(V, st, s.pc)

    def n(s, V, st):
        return s._int(V, st, s.pn)

    def norm(s, V, st):
        """a buffer of constant size is treated as an array as well"""
        b = s.buf(st)
        if b.reg is not None and b.reg.heap == 'malloc' and st.rs(b.reg).alive:
            if st.rs(b.reg).kind == 'obj':
                V.to_arr(st, b.reg, SZ)
            if (0, SZ) not in st.rs(b.reg).arrs:
                V.arr_comp(st, b.reg, 0, SZ, ('elem', CLS))
            if (0, SZ) not in st.rs(b.reg).live:
                t = st.wrs(b.reg)
                t.ety[(0, SZ)] = ('elem', CLS)
                t.live[(0, SZ)] = z3.K(z3.IntSort(), z3.BoolVal(False))

    def A(s, V, st):
        """contents (None for a null buffer)"""
        b = s.buf(st)
        if b.reg is None:
            return None
        s.norm(V, st)
        V.arr_comp(st, b.reg, 0, SZ, ('elem', CLS)) if st.rs(b.reg).kind == 'arr' else None
        return st.rs(b.reg).arrs.get((0, SZ))

    def live(s, V, st):
        s.norm(V, st)
        b = s.buf(st)
        return st.rs(b.reg).live.get((0, SZ))

    def wf(s, V, st):
        """the class invariant"""
        try:
            cap, n = s.cap(V, st), s.n(V, st)
        except KeyError:
            return [("vector members are initialised", z3.BoolVal(False))]
        b = s.buf(st)
        out = [("vector: size within capacity", z3.And(n >= 0, n <= cap, cap < (1 << 60)))]
        if b.reg is None:
            return out + [("vector: null buffer has no capacity", z3.And(b.off.z() == 0, cap == 0, n == 0))]
        rs = st.rs(b.reg)
        if not rs.alive or b.reg.heap != 'malloc':
            return [("vector: buffer is an allocated block", z3.BoolVal(False))]
        out += [("vector: buffer is the start of a block of its capacity", z3.And(b.off.z() == 0, b.reg.size.z() >= cap * SZ))]
        if rs.kind == 'obj':
            # constant size block: cells
            if rs.cells:
                # opaque cells at constant offsets
                cnt = sum(1 for o, (z, v) in rs.cells.items() if isinstance(v, EV))
                ok = all(isinstance(v, EV) and z == SZ for o, (z, v) in rs.cells.items()) and sorted(rs.cells) == [SZ * k for k in range(len(rs.cells))]
                out.append(("vector: exactly the entries are live", z3.And(z3.BoolVal(ok), n == cnt)))
            else:
                out.append(("vector: exactly the entries are live", n == 0))
            return out
        lv = rs.live.get((0, SZ))
        if lv is None:
            out.append(("vector: exactly the entries are live", n == 0))
            return out
        out.append(("vector: exactly the entries are live", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < cap), z3.Select(lv, _i) == (_i < n)), patterns=[z3.Select(lv, _i)])))
        return out

    def havoc(s, V, st, null=True):
        """arbitrary state satisfying the invariant; returns the list of cases"""
        old = s.buf(st)
        if old.reg is not None:
            st.wrs(old.reg).alive = False
        outs = []
        if null:
            t = st.copy()
            t.wrs(s.pb.reg).cells[s.pb.off.c] = (8, NULL)
            t.wrs(s.pc.reg).cells[s.pc.off.c] = (8, IV(64, 0))
            t.wrs(s.pn.reg).cells[s.pn.off.c] = (8, IV(64, 0))
            outs.append(t)
        cap, n = z3.FreshInt("cap"), z3.FreshInt("num")
        st.assume(cap >= 1, cap < (1 << 40), n >= 0, n <= cap)
        r = V.new_region(st, "vecbuf", Lin.of(cap).scale(SZ), 'malloc', 'arr', SZ)
        r.ghost['align'] = 16
        r.ghost['named'] = True
        st.g[('allocd', r.id)] = True
        rs = st.wrs(r)
        rs.arrs[(0, SZ)] = z3.FreshConst(ARR, "vec")
        rs.ety[(0, SZ)] = ('elem', CLS)
        lv = z3.FreshConst(BARR, "vlive")
        rs.live[(0, SZ)] = lv
        st.assume(z3.ForAll([_i], z3.Select(lv, _i) == z3.And(0 <= _i, _i < n), patterns=[z3.Select(lv, _i)]))
        st.wrs(s.pb.reg).cells[s.pb.off.c] = (8, PV(r, 0))
        st.wrs(s.pc.reg).cells[s.pc.off.c] = (8, IV(64, Lin.of(cap)))
        st.wrs(s.pn.reg).cells[s.pn.off.c] = (8, IV(64, Lin.of(n)))
        outs.append(st)
        return outs


def h_vec(V, st, a, ins):
    """vp_vec(buffer, capacity, entries): the vector is in an arbitrary reachable state"""
    v = Vec(a[0], a[1], a[2])
    outs = v.havoc(V, st)
    res = []
    for t in outs:
        A = v.A(V, t)
        if A is not None:
            t.assume(z3.ForAll([_i], z3.And(A[_i] != JUNK, A[_i] >= 0, A[_i] < (1 << 62)), patterns=[A[_i]]))
        if V.feasible(t):
            res.append(Outcome(t, 'ret', None))
    return res


def h_vec_wf(V, st, a, ins):
    v = Vec(a[0], a[1], a[2])
    for lab, g in v.wf(V, st):
        V.oblige(st, "class invariant: " + lab, g, 'post', ins)


def config(V):
    V.on("^vp_vec$", h_vec)
    V.on("^vp_vec_wf$", h_vec_wf)


def this(v, name='this'):
    return Vec.at(v.p(name))


def val(v, A, i):
    return z3.Select(A, i)


def eq_upto(A, B, n):
    """A[i]==B[i] for 0<=i<n"""
    return z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < n), z3.Select(A, _i) == z3.Select(B, _i)), patterns=[z3.Select(A, _i)])


def eq_shift(A, d, B, s0, n):
    """A[d+k]==B[s0+k] for 0<=k<n"""
    return z3.ForAll([_i], z3.Implies(z3.And(d <= _i, _i < d + n), z3.Select(A, _i) == z3.Select(B, _i - d + s0)), patterns=[z3.Select(A, _i)])


CL = r"Vector<Elem>"


def loops():
    out = []

    # deallocate_objects: destroys 0..n-1 in place
    def inv_dealloc(v):
        w = this(v)
        i = v.u('i')
        n = w.n(v.V, v.st)
        o = [("index in range", z3.And(0 <= i, i <= n))]
        if w.buf(v.st).reg is None:
            return o
        lv = w.live(v.V, v.st)
        if lv is None:
            return o
        l0 = w.live(v.V, v.entry.st)
        o.append(("entries before the index are destroyed", z3.ForAll([_i], z3.Select(lv, _i) == z3.And(z3.Select(l0, _i), z3.Or(_i < 0, _i >= i)), patterns=[z3.Select(lv, _i)])))
        return o
    out.append(LoopSpec(CL + r"::deallocate_objects", inv_dealloc, variant=lambda v: this(v).n(v.V, v.st) - v.u('i'), names=('i',), tag='deallocate_objects'))

    # reserve: growth of the request
    def inv_res(v):
        nc, e = v.u('new_capacity'), v.entry.u('new_capacity')
        return [("the request only grows", z3.And(nc >= e, z3.Or(nc == e, nc < 2 * 2 * v.u('current_capacity')), nc >= 1))]
    out.append(LoopSpec(CL + r"::reserve", inv_res, variant=lambda v: 2 * v.u('current_capacity') - v.u('new_capacity'), names=('new_capacity', 'current_capacity'), tag='reserve'))

    # resize_capacity_to: moves the entries over
    def inv_rct(v):
        w = this(v)
        V, st = v.V, v.st
        i = v.u('i')
        n = w.n(V, st)
        o = [("index in range", z3.And(0 <= i, i <= n))]
        nb = v.p('new_buf')
        if w.buf(st).reg is None:
            return o + [("nothing to move", n == 0)]
        A0, l0 = w.A(V, v.entry.st), w.live(V, v.entry.st)
        A, lv = w.A(V, st), w.live(V, st)
        nrs = st.rs(nb.reg)
        if nrs.kind == 'obj':
            V.to_arr(st, nb.reg, SZ)
        if (0, SZ) not in st.rs(nb.reg).arrs:
            V.arr_comp(st, nb.reg, 0, SZ, ('elem', CLS))
        if (0, SZ) not in st.rs(nb.reg).live:
            t = st.wrs(nb.reg)
            t.ety[(0, SZ)] = ('elem', CLS)
            t.live[(0, SZ)] = z3.K(z3.IntSort(), z3.BoolVal(False))
        nrs = st.rs(nb.reg)
        nb.reg.ghost['named'] = True
        B, lb = nrs.arrs[(0, SZ)], nrs.live[(0, SZ)]
        o += [("moved entries are in the new buffer", eq_upto(B, A0, i)),
              ("new buffer holds exactly them", z3.ForAll([_i], z3.Select(lb, _i) == z3.And(0 <= _i, _i < i), patterns=[z3.Select(lb, _i)])),
              ("they are gone from the old buffer", z3.ForAll([_i], z3.Select(lv, _i) == z3.And(z3.Select(l0, _i), z3.Or(_i < 0, _i >= i)), patterns=[z3.Select(lv, _i)])),
              ("the other entries are unchanged", z3.ForAll([_i], z3.Implies(_i >= i, z3.Select(A, _i) == z3.Select(A0, _i)), patterns=[z3.Select(A, _i)]))]
        return o
    out.append(LoopSpec(CL + r"::resize_capacity_to", inv_rct, variant=lambda v: this(v).n(v.V, v.st) - v.u('i'), names=('i', 'new_buf'), tag='resize_capacity_to'))

    # clear: pops from the end
    def inv_clear(v):
        w, e = this(v), this(v.entry)
        return [("the size only shrinks", w.n(v.V, v.st) <= e.n(v.V, v.entry.st)),
                ("the capacity stays", w.cap(v.V, v.st) == e.cap(v.V, v.entry.st))]
    out.append(LoopSpec(CL + r"::clear", inv_clear, variant=lambda v: this(v).n(v.V, v.st), tag='clear', vecs=lambda v: [this(v)]))

    # append: entries of the source follow the old ones
    def inv_append(v):
        V, st = v.V, v.st
        w, e = this(v), this(v.entry)
        p, q = v.p('start'), v.entry.p('start')
        n, n0 = w.n(V, st), e.n(V, v.entry.st)
        k = n - n0
        o = [("one entry per source element", v.V.pidx(st, p) == v.V.pidx(v.entry.st, q) + k), ("within the source", z3.And(k >= 0, V.pidx(st, p) <= v.idx('end')))]
        A, A0 = w.A(V, st), e.A(V, v.entry.st)
        if A is None:
            return o
        S = st.rs(p.reg).arrs[(0, SZ)]
        if A0 is not None:
            o.append(("old entries are kept", eq_upto(A, A0, n0)))
        o.append(("new entries are the source's", eq_shift(A, n0, S, V.pidx(v.entry.st, q), k)))
        return o
    out.append(LoopSpec(CL + r"::append<", inv_append, variant=lambda v: v.idx('end') - v.idx('start'), names=('start', 'end'), tag='append', vecs=lambda v: [this(v)]))
    out.append(LoopSpec(CL + r"::Vector<", inv_append, variant=lambda v: v.idx('end') - v.idx('start'), names=('start', 'end'), tag='range constructor', vecs=lambda v: [this(v)]))

    # copy constructor
    def inv_copy(v):
        V, st = v.V, v.st
        w, o_ = this(v), Vec.at(v.p('o'))
        n = w.n(V, st)
        b = v.p('__begin')
        idx = V.pidx(st, b) if b.reg is not None else z3.IntVal(0)
        o = [("one entry per source element", n == idx), ("within the source", n <= o_.n(V, st))]
        A, S = w.A(V, st), o_.A(V, st)
        if A is None or S is None:
            return o
        o.append(("entries are the source's", eq_upto(A, S, n)))
        return o
    out.append(LoopSpec(CL + r"::Vector\(pystd2026::Vector<Elem> const&\)", inv_copy, variant=lambda v: Vec.at(v.p('o')).n(v.V, v.st) - this(v).n(v.V, v.st), tag='copy constructor', vecs=lambda v: [this(v)]))

    # operator==
    def inv_eq(v):
        V, st = v.V, v.st
        w, o_ = this(v), Vec.at(v.p('o'))
        i = v.u('i')
        o = [("index in range", z3.And(0 <= i, i <= w.n(V, st)))]
        A, B = w.A(V, st), o_.A(V, st)
        if A is None or B is None:
            return o
        o.append(("equal so far", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < i), KEY(z3.Select(A, _i)) == KEY(z3.Select(B, _i))), patterns=[z3.Select(A, _i)])))
        return o
    out.append(LoopSpec(CL + r"::operator==", inv_eq, variant=lambda v: this(v).n(v.V, v.st) - v.u('i'), names=('i',), tag='operator=='))

    # append_with_default
    def inv_awd(v):
        V, st = v.V, v.st
        w, e = this(v), this(v.entry)
        i = v.u('i')
        n, n0 = w.n(V, st), e.n(V, v.entry.st)
        o = [("one entry per step", z3.And(i >= 0, i <= v.u('num_copies'), n == n0 + i)), ("the capacity is kept", w.cap(V, st) == e.cap(V, v.entry.st))]
        A, A0 = w.A(V, st), e.A(V, v.entry.st)
        if A is None:
            return o
        if A0 is not None:
            o.append(("old entries are kept", eq_upto(A, A0, n0)))
        o.append(("new entries are default values", all_in(n0, n, A, lambda x: x == z3.Int("default_Elem"))))
        return o
    out.append(LoopSpec(CL + r"::append_with_default", inv_awd, variant=lambda v: v.u('num_copies') - v.u('i'), names=('i', 'num_copies'), tag='append_with_default', vecs=lambda v: [this(v)]))
    return out
