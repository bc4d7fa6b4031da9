"""The class invariant of pystd2026::Bytes (and of the strings built on it).
Representation: buf.ptr, buf.array_size, bufsize at offsets 0, 8, 16.  buf.ptr is null exactly when array_size is 0 and nothing
was allocated, otherwise it is the start of a heap block of array_size bytes; bufsize <= array_size."""
import z3
from values import *
from engine import *
from execu import *
from engine import _nm

_i = z3.Int("i")
NONE = z3.Const("no_bytes", ARR)
I64 = __import__('ir').Ty('int', w=64, size=8)
I8 = __import__('ir').Ty('int', w=8, size=1)
PTR = __import__('ir').Ty('ptr', size=8)


class BytesObj:
    null = True

    def __init__(s, pb, pc=None, pn=None):
        s.pb = PV(pb.reg, pb.off)
        s.pc = PV(pb.reg, pb.off + 8)
        s.pn = PV(pb.reg, pb.off + 16)

    def cells(s, st):
        return {(p.reg.id, p.off.c) for p in (s.pb, s.pc, s.pn)}

    def buf(s, st):
        c = st.rs(s.pb.reg).cells.get(s.pb.off.c)
        v = c[1] if c else None
        return v if isinstance(v, PV) else NULL

    def _int(s, V, st, p):
        c = st.rs(p.reg).cells.get(p.off.c)
        if c is None or isinstance(c[1], (Undef, PV)):
            raise KeyError("member has no value")
        return V.as_u(st, c[1]).z()

    def cap(s, V, st):
        return s._int(V, st, s.pc)

    def n(s, V, st):
        return s._int(V, st, s.pn)

    def A(s, V, st):
        b = s.buf(st)
        if b.reg is None:
            return NONE
        if st.rs(b.reg).kind == 'obj':
            V.to_arr(st, b.reg, 1)
        else:
            V.arr_comp(st, b.reg, 0, 1, ('int', 8))
        return st.rs(b.reg).arrs[(0, 1)]

    def wf(s, V, st):
        try:
            cap, n = s.cap(V, st), s.n(V, st)
        except KeyError:
            return [("members of the byte buffer are initialised", z3.BoolVal(False))]
        b = s.buf(st)
        out = [("byte buffer: size within capacity", z3.And(n >= 0, n <= cap, cap <= (1 << 46)))]
        if b.reg is None:
            return out + [("byte buffer: without storage there is no capacity", z3.And(b.off.z() == 0, cap == 0, n == 0))]
        rs = st.rs(b.reg)
        if not rs.alive or b.reg.heap not in ('malloc', 'new', 'newarr'):
            return [("byte buffer: storage is an allocated block", z3.BoolVal(False))]
        return out + [("byte buffer: storage is the start of a block of its capacity", z3.And(b.off.z() == 0, b.reg.size.z() == cap))]

    def havoc(s, V, st, null=None):
        old = s.buf(st)
        heap = old.reg.heap if old.reg is not None else 'newarr'
        if old.reg is not None:
            st.wrs(old.reg).alive = False
        outs = []
        if s.null if null is None else null:
            t = st.copy()
            t.wrs(s.pb.reg).cells[s.pb.off.c] = (8, NULL)
            t.wrs(s.pc.reg).cells[s.pc.off.c] = (8, IV(64, 0))
            t.wrs(s.pn.reg).cells[s.pn.off.c] = (8, IV(64, 0))
            outs.append(t)
        cap, n = z3.FreshInt("cap"), z3.FreshInt("size")
        st.assume(cap >= 0, cap <= (1 << 46), n >= 0, n <= cap)
        r = V.new_region(st, "buffer", Lin.of(cap), heap, 'arr', 1)
        r.ghost['align'] = 16
        r.ghost['named'] = True
        st.g[('allocd', r.id)] = True
        V.arr_comp(st, r, 0, 1, ('int', 8))
        rs = st.wrs(r)
        rs.arrs[(0, 1)] = z3.FreshConst(ARR, "bytes")
        st.wrs(s.pb.reg).cells[s.pb.off.c] = (8, PV(r, 0))
        st.wrs(s.pc.reg).cells[s.pc.off.c] = (8, IV(64, Lin.of(cap)))
        st.wrs(s.pn.reg).cells[s.pn.off.c] = (8, IV(64, Lin.of(n)))
        outs.append(st)
        return outs


def h_obj(null):
    def h(V, st, a, ins):
        """vp_bytesobj(p): the Bytes object at p is in an arbitrary reachable state"""
        o = BytesObj(a[0])
        res = []
        for t in o.havoc(V, st, null):
            if V.feasible(t):
                res.append(Outcome(t, 'ret', None))
        return res
    return h


def h_wf(V, st, a, ins):
    o = BytesObj(a[0])
    for lab, g in o.wf(V, st):
        V.oblige(st, "class invariant: " + lab, g, 'post', ins)


def nulfree(A, o, n):
    return z3.ForAll([_i], z3.Implies(z3.And(o <= _i, _i < o + n), A[_i] != 0), patterns=[A[_i]])


def h_cstrobj(V, st, a, ins):
    """vp_cstrobj(p): the CString object at p is in an arbitrary reachable state (contents without NUL, then one NUL)"""
    o = BytesObj(a[0])
    t, = o.havoc(V, st, False)
    A, n = o.A(V, t), o.n(V, t)
    t.assume(n >= 1, A[n - 1] == 0, nulfree(A, 0, n - 1))
    o.buf(t).reg.ghost['strlen'] = Lin.of(n) - 1
    return [Outcome(t, 'ret', None)]


def h_cstrwf(V, st, a, ins):
    o = BytesObj(a[0])
    w = o.wf(V, st)
    for lab, g in w:
        V.oblige(st, "class invariant: " + lab, g, 'post', ins)
    if st.dead:
        return
    A, n = o.A(V, st), o.n(V, st)
    V.oblige(st, "class invariant: a terminator follows the contents", z3.And(n >= 1, A[n - 1] == 0), 'post', ins)
    V.oblige(st, "class invariant: no NUL inside the contents", nulfree(A, 0, n - 1), 'post', ins)


def h_append(V, st, a, ins):
    """contract of Bytes::append(char): one byte more; the storage may be replaced (proved: spec_bytes_append)"""
    V.used_contracts.add("Bytes::append(char)")
    o = BytesObj(a[0])
    for lab, g in o.wf(V, st):
        V.oblige(st, "precondition of Bytes::append(char): " + lab, g, 'precondition', ins)
    if st.dead:
        return []
    n, cap = o.n(V, st), o.cap(V, st)
    c = V.as_u(st, a[1]).z()
    return grown(V, st, o, [(n, c)], ins)


def grown(V, st, o, puts, ins, outs=None):
    """one byte more; puts: the bytes written"""
    n, cap = o.n(V, st), o.cap(V, st)
    outs = outs or []
    t = st.copy()
    if o.buf(t).reg is not None:
        t.assume(n + 1 <= cap)
        if V.feasible(t):
            b = o.buf(t)
            for i, c in puts:
                V.store(t, PV(b.reg, Lin.of(i)), IV(8, Lin.of(c)), I8, ins)
            V.store(t, o.pn, IV(64, Lin.of(n) + 1), I64, ins)
            outs.append(Outcome(t, 'ret', None))
    A = o.A(V, st)
    cap2 = z3.FreshInt("cap")
    old = o.buf(st)
    if old.reg is not None:
        st.wrs(old.reg).alive = False
        st.wlog.append((old.reg.id, 'alive'))
    st.assume(cap2 > n, cap2 <= (1 << 46))
    r = V.new_region(st, "buffer", Lin.of(cap2), old.reg.heap if old.reg is not None else 'newarr', 'arr', 1)
    r.ghost['align'] = 16
    r.ghost['named'] = True
    st.g[('allocd', r.id)] = True
    V.arr_comp(st, r, 0, 1, ('int', 8))
    B = z3.FreshConst(ARR, "bytes")
    st.wrs(r).arrs[(0, 1)] = B
    if old.reg is not None:
        st.assume(z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < (n if len(puts) == 1 else n - 1)), B[_i] == A[_i]), patterns=[B[_i]]))
    st.assume(*[B[i] == c for i, c in puts])
    V.store(st, o.pb, PV(r, 0), PTR, ins)
    V.store(st, o.pc, IV(64, Lin.of(cap2)), I64, ins)
    V.store(st, o.pn, IV(64, Lin.of(n) + 1), I64, ins)
    outs.append(Outcome(st, 'ret', None))
    return outs


def h_cstr_append(V, st, a, ins):
    """contract of CString::append(char): NUL is reported, another character goes before the terminator (proved: spec_cstr_append_char)"""
    V.used_contracts.add("CString::append(char)")
    o = BytesObj(a[0])
    for lab, g in o.wf(V, st):
        V.oblige(st, "precondition of CString::append(char): " + lab, g, 'precondition', ins)
    if st.dead:
        return []
    n = o.n(V, st)
    V.oblige(st, "precondition of CString::append(char): the string is not empty inside", n >= 1, 'precondition', ins)
    c = V.as_u(st, a[1]).z()
    t = st.copy()
    t.assume(c == 0)
    outs = []
    if V.feasible(t):
        outs.append(Outcome(t, 'throw', (PV(None, 1), 'PyException')))
    st.assume(c != 0)
    if not V.feasible(st):
        return outs
    return grown(V, st, o, [(n - 1, c), (n, z3.IntVal(0))], ins, outs)


def config(V):
    if V.task_name not in ("spec_bytes_append", "spec_cstr_append_char"):
        V.on(r"^pystd2026::CString::append\(char\)$", h_cstr_append)
    if V.task_name != "spec_bytes_append":
        V.on(r"^pystd2026::Bytes::append\(char\)$", h_append)
    V.on("^vp_bytesobj$", h_obj(True))
    V.on("^vp_bytesbuf$", h_obj(False))
    V.on("^vp_bytes_wf$", h_wf)
    V.on("^vp_cstrobj$", h_cstrobj)
    V.on("^vp_cstr_wf$", h_cstrwf)


def find(V, st, rec):
    """byte buffers that the loop reallocates: (pointer, size, size) cells of which the loop changes the pointer"""
    out = []
    rec_entry = rec.entry
    for w in sorted(rec.mods, key=str):
        if w[1] != 'c' or w[3] != 8:
            continue
        rid, _, off, _ = w
        cells = rec_entry.mem[rid].cells
        e = cells.get(off)
        e = e[1] if e else None
        if not isinstance(e, PV):
            continue
        ks = [k for k in rec.kinds.get(w, []) if isinstance(k, PV)]
        heap = [k for k in ks + [e] if k.reg is not None and k.reg.heap in ('malloc', 'new', 'newarr') and k.off.const == 0]
        others = [k for k in ks if k.reg is not e.reg]
        if not others or not heap:
            continue
        a, b = cells.get(off + 8), cells.get(off + 16)
        if not a or not b or not isinstance(a[1], IV) or not isinstance(b[1], IV) or a[0] != 8 or b[0] != 8:
            continue
        o = BytesObj(PV(regions_by_id[rid], off))
        o.null = e.reg is None
        if e.reg is not None and e.reg.heap not in ('malloc', 'new', 'newarr'):
            continue
        out.append(o)
    return out
