"""C26: arbitrary option tables; callees as contracts written in harness/args.cpp"""
import z3
from values import *
from engine import *
from execu import *
from specs import strings


def h_table(V, st, a, ins):
    n = V.as_u(st, a[0])
    sz = V.as_u(st, a[1]).const
    r = V.new_region(st, "table", n.scale(sz), 'ext', 'arr', sz)
    r.ghost['named'] = True
    return PV(r, 0)


def h_argv(V, st, a, ins):
    n = V.as_u(st, a[0])
    S = z3.FreshInt("texts_size")
    st.assume(S > 0, S < (1 << 40))
    b = V.new_region(st, "texts", Lin.of(S), 'ext', 'arr', 1)
    A = V.arr_comp(st, b, 0, 1, ('int', 8))
    b.ghost['named'] = True
    b.ghost['texts'] = z3.Function("text_length!%d" % b.id, ISORT, ISORT)
    i = z3.Int('i')
    st.assume(A[S - 1] == 0, z3.ForAll([i], z3.And(A[i] >= 0, A[i] < 256), patterns=[A[i]]))
    r = V.new_region(st, "argv", n.scale(8), 'ext', 'arr', 8)
    r.ghost['named'] = True
    arr = z3.FreshConst(ARR, "argv")
    rs = st.wrs(r)
    rs.arrs[(0, 8)] = arr

    def dec(V, st, code):
        st.assume(code >= 0, code < S)
        return PV(b, Lin.of(code))

    def enc(V, st, v):
        raise Tool("argv is written")
    rs.ety[(0, 8)] = ('ptr', dec, enc)
    return PV(r, 0)


def h_strlen(V, st, a, ins):
    p = a[0]
    if p.reg is None or 'texts' not in p.reg.ghost:
        n = cstr_len(V, st, p, ins)
        return None if n is None else IV(64, n)
    # the text ends at the first NUL from here on; there is one
    o = p.off.z()
    S = p.reg.size.z()
    V.oblige(st, "the text starts inside its memory", z3.And(0 <= o, o < S), 'safety', ins)
    A = V.arr(st, p.reg, 0, 1)
    n = p.reg.ghost['texts'](o)
    i = z3.Int("i_len")
    st.assume(n >= 0, o + n < S, A[o + n] == 0, z3.ForAll([i], z3.Implies(z3.And(o <= i, i < o + n), A[i] != 0), patterns=[A[i]]))
    return IV(64, Lin.of(n))


def config(V):
    strings.config(V)
    V.on("^vp_table$", h_table)
    t = V.task_name
    if "matched" in t:
        V.on("^exit$", "exit")
        V.on("strtol$", "stub_strtol")
        V.on(r"::ParseResult::find\(", "stub_find_value")
    if "find" in t:
        V.on(r"CString::operator==\(pystd2026::CStringView const&\)", "stub_name_eq")
    if "process" in t:
        V.on("^exit$", "exit")
        V.on(r"::ArgParse::find_long_argument\(", "stub_find")
        V.on(r"::ArgParse::find_short_argument\(", "stub_find_short")
        V.on(r"::ArgParse::argument_matched\(", "stub_matched")
    if "parse" in t:
        V.on("^strlen$", h_strlen)
        V.on("^exit$", "stub_exit")
        V.on("^vp_argv$", h_argv)
        for f, g in (("create_value_obj", "values"), ("process_long_argument", "long"), ("process_short_argument", "short"), ("print_help_and_exit", "help")):
            V.on(r"::ArgParse::%s\(" % f, "stub_" + g)
        V.on(r"::CStringView::operator==\(char const\*\)", "stub_view_eq")
        V.on(r"::CStringView::starts_with\(char const\*\)", "stub_starts_with")
        V.on(r"::CString::CString\(pystd2026::CStringView const&\)", "stub_cstring")
        V.on(r"::CString::CString\(char const\*, unsigned long\)", "stub_cstring_p")
        V.on(r"Vector<pystd2026::CString>::push_back\(pystd2026::CString&&\)", "stub_push")
    V.assumptions.add("strtol is used through the contract written in harness/args.cpp")
