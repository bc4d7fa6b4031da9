"""What a glob component matches, and the contract of glob_matches.

G(A, n, B, m, t, p): the name A[t..n-1] has the form of the pattern B[p..m-1]:
 an empty pattern matches the empty rest, * matches the rest from some later (or the same) position on, except that at the
 start of the name it matches nothing that begins with a dot, ? matches one character, anything else itself."""
import z3
from values import *
from engine import *
from execu import *
from task import Contract, Task
from specs import strings
from specs.ranges import Ctx

AS = z3.ArraySort(ISORT, ISORT)
G = z3.Function("glob", AS, ISORT, AS, ISORT, ISORT, ISORT, z3.BoolSort())
W = z3.Function("glob_star_end", AS, ISORT, AS, ISORT, ISORT, ISORT, ISORT)


def unfold(A, n, B, m, t, p):
    k = z3.Int("k_glob")
    g = lambda i, j: G(A, n, B, m, i, j)
    w = W(A, n, B, m, t, p)
    star = z3.FreshConst(z3.BoolSort(), "star")
    sdef = z3.And(z3.Implies(star, z3.And(t <= w, w <= n, g(w, p + 1))),
                  z3.ForAll([k], z3.Implies(z3.And(t <= k, k <= n, g(k, p + 1)), star), patterns=[g(k, p + 1)]))
    one = z3.And(t < n, g(t + 1, p + 1))
    body = z3.If(p == m, t == n, z3.If(B[p] == 42, z3.And(z3.Not(z3.And(t == 0, n > 0, A[0] == 46)), star), z3.If(B[p] == 63, one, z3.And(t < n, A[t] == B[p], one))))
    return z3.And(sdef, z3.Implies(z3.And(0 <= t, t <= n, 0 <= p, p <= m), g(t, p) == body))


def cstr(V, st, name):
    n = z3.FreshInt(name + "_len")
    st.assume(n >= 0, n < (1 << 40))
    r = V.new_region(st, name, Lin.of(n) + 1, 'ext', 'arr', 1)
    V.arr_comp(st, r, 0, 1, ('int', 8))
    A = st.rs(r).arrs[(0, 1)]
    i = z3.Int("i_cstr")
    st.assume(A[n] == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), A[i] != 0), patterns=[A[i]]))
    r.ghost['strlen'] = Lin.of(n)
    return r


class GlobMatches(Contract):
    fn = r"pystd2026::\(anonymous namespace\)::glob_matches\(char const\*, unsigned long, char const\*, unsigned long\)$"
    name = "glob_matches(text, offset, pattern, offset)"
    recursive = True

    def __init__(s):
        def inv(v):
            c = v.T
            gap = v.u('gap')
            k = z3.Int("k_inv")
            g = G(c.A, c.n, c.B, c.m, k, c.p + 1)
            return [("position in range", z3.And(gap >= 0, c.t + gap <= c.n)),
                    ("no earlier end of the star matches", z3.ForAll([k], z3.Implies(z3.And(c.t <= k, k < c.t + gap), z3.Not(g)), patterns=[g]))]
        s.loops = [LoopSpec(r"::glob_matches\(", inv, variant=lambda v: v.T.n - v.T.t - v.u('gap'), names=('gap',), tag='glob_matches')]

    def setup(s, V, st):
        a, b = cstr(V, st, "text"), cstr(V, st, "pattern")
        c = s.bind(V, st, [PV(a, 0), IV(64, Lin.of(z3.FreshInt("text_offset"))), PV(b, 0), IV(64, Lin.of(z3.FreshInt("pattern_offset")))])
        V.ctx = c
        st.assume(*[unfold(c.A, c.n, c.B, c.m, i, j) for i, j in ((c.t, c.p), (c.t, c.p + 1), (c.n, c.p), (c.n, c.p + 1))])
        return [PV(a, 0), IV(64, Lin.of(c.t)), PV(b, 0), IV(64, Lin.of(c.p))]

    def bind(s, V, st, args):
        for q in (args[0], args[2]):
            if 'strlen' not in q.reg.ghost or q.off.const != 0:
                raise Tool("glob_matches of something other than two C strings")
        c = Ctx(reg=args[0].reg)
        c.A, c.B = strings.byte_arr(V, st, args[0]), strings.byte_arr(V, st, args[2])
        c.n, c.m = args[0].reg.ghost['strlen'].z(), args[2].reg.ghost['strlen'].z()
        c.t, c.p = V.as_u(st, args[1]).z(), V.as_u(st, args[3]).z()
        if hasattr(V.ctx, 'm'):
            V.oblige(st, "recursion of glob_matches terminates: less is left", c.n - c.t + c.m - c.p < V.ctx.n - V.ctx.t + V.ctx.m - V.ctx.p, 'termination')
        return c

    def pre(s, V, st, c):
        return [("offsets inside the texts", z3.And(0 <= c.t, c.t <= c.n, 0 <= c.p, c.p <= c.m))]

    def frame(s, V, st, c):
        return B1(z3.FreshConst(z3.BoolSort(), "matches"))

    def post(s, V, old, new, c, ret):
        b = ret.b if isinstance(ret, B1) else V.as_u(new, ret).z() != 0
        return [("true exactly when the name has the form of the pattern", b == G(c.A, c.n, c.B, c.m, c.t, c.p))]

    def allowed(s, V, c):
        return set()


def h_glob(V, st, a, ins):
    z = z3.IntVal(0)
    A, B = strings.byte_arr(V, st, a[0]), strings.byte_arr(V, st, a[2])
    n, m = V.as_u(st, a[1]).z(), V.as_u(st, a[3]).z()
    st.assume(*[unfold(A, n, B, m, i, j) for i, j in ((z, z), (z, z + 1))])
    return B1(G(A, n, B, m, z, z))


def config(V):
    strings.config(V)
    V.on("^vp_glob$", h_glob)
