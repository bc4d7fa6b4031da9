"""C17: the conversion tables as sorted arrays, and their evaluation against the Unicode Character Database."""
import re
import time
import unicodedata
import z3
from values import *
from engine import *
from execu import *
from specs import strings

TABLES = {"uppercasing_multi": 16, "lowercasing_multi": 16, "uppercasing_single": 8, "lowercasing_single": 8}


def sorted_table(A, n):
    i, j = z3.Ints("i_tab j_tab")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), A[i] < A[j]), patterns=[z3.MultiPattern(A[i], A[j])])


def h_tab(stride):
    def h(V, st, r):
        w = st.wrs(r)
        w.kind, w.stride, w.base = 'arr', stride, 0
        r.ghost['named'] = True
        for o in range(0, stride, 4):
            A = V.arr_comp(st, r, o, 4, ('int', 32))
            i = z3.Int("i_tab")
            st.assume(z3.ForAll([i], z3.And(A[i] >= 0, A[i] < (1 << 32)), patterns=[A[i]]))
        n = r.size.c // stride
        st.assume(sorted_table(V.arr(st, r, 0), n))
        V.assumptions.add("the initialiser of %s is strictly sorted (decided in the table evaluation task)" % r)
    return h


def h_absent(V, st, a, ins):
    V.init_global(st, a[0].reg)
    A = V.arr(st, a[0].reg, 0)
    n = V.as_u(st, a[1]).z()
    k = z3.Int("k_abs")
    return B1(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), A[k] != V.as_u(st, a[3]).z()), patterns=[A[k]]))


def loops():
    def inv(v):
        f, n = v.p('first'), v.s_('count')
        reg = f.reg
        v.V.init_global(v.st, reg)
        stride = v.st.rs(reg).stride
        A = v.A(reg)
        F = v.idx('first')
        off = f.off.z()
        val = v.field(v.p('value'), 0)
        N = reg.size.c // stride
        k = z3.Int("k_inv")
        it = v.p('it')
        return [("result follows the remaining part", z3.BoolVal(False) if it.reg is not None and it.reg is not reg else z3.Or(n > 0, z3.And(it.off.z() == off))),
                ("remaining part in range", z3.And(F >= 0, n >= 0, F + n <= N, off == F * stride)),
                ("everything before is less", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < F), A[k] < val), patterns=[A[k]])),
                ("everything after is not less", z3.ForAll([k], z3.Implies(z3.And(F + n <= k, k < N), A[k] >= val), patterns=[A[k]]))]
    return [LoopSpec(r"::lower_bound<", inv, variant=lambda v: v.s_('count'), names=('first', 'count', 'it'), tag='lower_bound')]


def config(V):
    strings.config(V)
    V.table_hooks = [("%s$|%sE$" % (t, t), h_tab(s)) for t, s in TABLES.items()]
    V.on("^vp_absent$", h_absent)
    if "text" in V.task_name:
        V.on(r"ValidU8Iterator::operator\*\(\)", "stub_deref")
        V.on(r"ValidU8Iterator::operator\+\+\(\)", "stub_inc")
        V.on(r"ValidU8Iterator::operator!=\(", "stub_ne")
        k, o = ("upper", "lower") if "upper" in V.task_name else ("lower", "upper")
        V.on(r"pystd2026::%scase_unicode\(" % k, "stub_map")
        V.on(r"pystd2026::%scase_unicode\(" % o, "stub_wrong")
        V.on(r"U8String::append_codepoint\(", "stub_append")
        V.on(r"U8String::reserve\(", "stub_reserve")
        V.assumptions.add("iterating over a valid text and appending a codepoint are used through the contracts in harness/casing.cpp (proved of the real functions in C15 and C16)")


def leaves(c, ty, out):
    if c.kind == 'agg':
        for i, e in enumerate(c.v):
            leaves(e, ty.els[i] if ty.k == 'struct' else ty.el, out)
    elif c.kind == 'zero':
        if ty.k in ('struct', 'array'):
            for e in (ty.els if ty.k == 'struct' else [ty.el] * ty.n):
                leaves(c, e, out)
        else:
            out.append(0)
    elif c.kind == 'int':
        out.append(c.v if not hasattr(c.v, 'as_long') else c.v.as_long())
    else:
        raise Tool("table entry of kind " + c.kind)


class TableTask:
    """the initialisers in the bitcode, entry by entry, against the Unicode Character Database (complete: the tables are finite)"""
    name = "the conversion tables are the Unicode ones"
    cost = 1
    budget = 100

    def run(s, prog, log=None):
        t0 = time.time()
        res = dict(task=s.name, fn="tables", obligs=[], error=None, stats={}, assumptions=["Python's unicodedata (version %s) is the Unicode Character Database" % unicodedata.unidata_version], contracts=[], inlined=[], exits=None)

        def say(name, ok, detail=''):
            res['obligs'].append(dict(name="tables: " + name, status='ok' if ok else 'failed', how='evaluation', t=round(time.time() - t0, 3), where='src/pystd2026_tables.cpp', kind='post', detail=detail, model=detail or None))
        try:
            tabs = {}
            for t, stride in TABLES.items():
                gv = next((g for m in prog.mods for n, g in m.globals.items() if "pystd2026" in n and re.search(t + "(E)?$", n) and g.init), None)
                if gv is None:
                    raise Tool("table not found: " + t)
                out = []
                leaves(gv.mod.ginit(gv), gv.ty, out)
                w = stride // 4
                tabs[t] = [tuple(x & 0xffffffff for x in out[i:i + w]) for i in range(0, len(out), w)]
                ks = [e[0] for e in tabs[t]]
                bad = next(("entry %d (%#x) does not follow %#x" % (i, b, a) for i, (a, b) in enumerate(zip(ks, ks[1:])) if a >= b), '')
                say("%s is strictly sorted" % t, not bad, bad)
            for d, f in (("upper", str.upper), ("lower", str.lower)):
                have = {e[0]: (e[1], 0, 0) for e in tabs[d + "casing_single"] if e[0] >= 128}
                have.update({e[0]: e[1:] for e in tabs[d + "casing_multi"] if e[0] >= 128})
                want = {}
                for cp in range(128, 0x110000):
                    if not 0xd800 <= cp < 0xe000:
                        m = [ord(x) for x in f(chr(cp))]
                        if m != [cp]:
                            want[cp] = tuple(m + [0] * (3 - len(m)))
                bad = [c for c in sorted(set(have) | set(want)) if have.get(c, (c, 0, 0)) != want.get(c, (c, 0, 0))]
                say("every codepoint's %scase mapping" % d, not bad, "" if not bad else "U+%04X maps to %s, not %s" % (bad[0], have.get(bad[0], (bad[0], 0, 0)), want.get(bad[0], (bad[0], 0, 0))))
        except Tool as e:
            res['error'] = "tool: %s" % e
        res['time'] = time.time() - t0
        return res
