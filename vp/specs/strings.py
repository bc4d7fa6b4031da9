"""Byte strings: helpers for the contracts of the string classes."""
import z3
from values import *
from engine import *
from execu import *


def byte_arr(V, st, p):
    rs = st.rs(p.reg)
    if rs.kind == 'arr':
        V.arr_comp(st, p.reg, 0, 1, ('int', 8))
    else:
        V.to_arr(st, p.reg, 1)
    return st.rs(p.reg).arrs[(0, 1)]


def h_range_eq(V, st, a, ins):
    """vp_range_eq(a, b, n): for every k < n: a[k] == b[k]"""
    n = V.as_u(st, a[2]).z()
    if a[0].reg is None or a[1].reg is None:
        return B1(n == 0)
    A, B = byte_arr(V, st, a[0]), byte_arr(V, st, a[1])
    k = z3.Int("k_eq")
    return B1(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), A[k + a[0].off.z()] == B[k + a[1].off.z()])))


def h_ws(V, st, a, ins):
    A = byte_arr(V, st, a[0])
    c = A[a[0].off.z() + V.as_u(st, a[1]).z()]
    return B1(z3.Or(c == 32, c == 9, c == 10, c == 13))


def h_at(V, st, a, ins):
    """vp_at(p, i): the byte p[i] (any index)"""
    A = byte_arr(V, st, a[0])
    return IV(8, Lin.of(A[a[0].off.z() + V.as_u(st, a[1]).z()]))


def h_strncmp(lim, stop):
    """strncmp / strcmp / memcmp: the sign of the first difference, reading no further than that (or the first NUL)"""
    def h(V, st, a, ins):
        r = V.fresh_int(st, 32, "cmp", True)
        n = V.as_u(st, a[2]).z() if lim else None
        if n is not None and V.quick(st, n == 0):
            return IV(32, 0)
        if a[0].reg is None or a[1].reg is None:
            V.oblige(st, "null pointer is only compared over no bytes", n == 0 if n is not None else z3.BoolVal(False), 'safety', ins)
            return IV(32, 0)
        A, B = byte_arr(V, st, a[0]), byte_arr(V, st, a[1])
        p, q = a[0].off.z(), a[1].off.z()
        d = z3.FreshInt("first_difference")
        k = z3.Int("k_cmp")
        same = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), z3.And(A[k + p] == B[k + q], *([A[k + p] != 0] if stop else []))))
        st.assume(d >= 0, same)
        end = z3.Or(*([n == d] if lim else []), A[d + p] != B[d + q], *([z3.And(A[d + p] == 0, B[d + q] == 0)] if stop else []))
        if lim:
            st.assume(d <= n)
        # how far it reads
        lim_a = a[0].reg.size.z() - p
        lim_b = a[1].reg.size.z() - q
        st.assume(end, A[d + p] >= 0, A[d + p] < 256, B[d + q] >= 0, B[d + q] < 256)
        m = n if lim and not stop else (d + (z3.If(d == n, 0, 1) if lim else 1))
        if lim and stop:
            V.oblige(st, "compared bytes are readable", z3.And(z3.Or(d == n, d < lim_a), z3.Or(d == n, d < lim_b), d <= lim_a, d <= lim_b), 'safety', ins)
        else:
            V.oblige(st, "compared bytes are readable", z3.And(p >= 0, q >= 0, m <= lim_a, m <= lim_b), 'safety', ins)
        z = r.lin.z()
        diff = A[d + p] - B[d + q]
        done = z3.BoolVal(False) if not lim else d == n
        st.assume(z3.If(done, z == 0, z3.And((z < 0) == (diff < 0), (z > 0) == (diff > 0))))
        return r
    return h


def case(lo, hi, by):
    def h(V, st, a, ins):
        c = V.as_s(st, a[0]).z()
        return IV(32, Lin.of(z3.If(z3.And(c >= lo, c <= hi), c + by, c)), True)
    return h


def config(V):
    V.autoloops = True
    V.fast_fail = False
    V.on("^vp_ws$", h_ws)
    V.on("^vp_at$", h_at)
    V.on("^strncmp$", h_strncmp(True, True))
    V.on("^strcmp$", h_strncmp(False, True))
    V.on("^memcmp$", h_strncmp(True, False))
    V.on("^toupper$", case(97, 122, -32))
    V.on("^tolower$", case(65, 90, 32))
    V.assumptions.add("strlen, strcmp, strncmp, memcmp, toupper and tolower (C locale) are used through their contracts")
    V.on("^vp_range_eq$", h_range_eq)
    V.on("^vp_hasnul$", h_hasnul)
    V.on("^vp_hasbyte$", lambda V, st, a, ins: h_hasnul(V, st, a[:2], ins, V.as_u(st, a[2]).z()))
    from specs import bytesobj
    bytesobj.config(V)


def h_hasnul(V, st, a, ins, c=0):
    if a[0].reg is None:
        return B1(z3.BoolVal(False))
    A = byte_arr(V, st, a[0])
    n, o = V.as_u(st, a[1]).z(), a[0].off.z()
    k = z3.Int("k_nul")
    return B1(z3.Exists([k], z3.And(0 <= k, k < n, A[k + o] == c)))
