"""The class invariant of HashMap and the loops of its operations (C10)."""
import re
import z3
from values import *
from engine import *
from execu import *
from specs import strings

H = z3.Function("hash_of_key", ISORT, ISORT)
HOME = z3.Function("home_slot", ISORT, ISORT, ISORT)
KY = z3.Function("key", ISORT, ISORT)   # what == compares
i, j = z3.Ints("i_map j_map")


def has(S, x):
    return S[x] % 4 == 1


def free(S, x):
    return S[x] % 4 == 0


def on(h, t, x):
    """x is on the way from h to t (t not included), going round"""
    return z3.And(z3.Or(x >= h, x < t), z3.Or(h > t, z3.And(x >= h, x < t)))


def upto(h, t, x):
    return z3.Or(on(h, t, x), x == t)


def md_of(V, st, p):
    return V.arr(st, p.reg, 0, 1)


def keys_of(V, st, p):
    return V.arr(st, p.reg, 0)


def inv_bloom(S, K, N):
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, has(S, i)), (S[i] / 4) % 64 == H(KY(K[i])) % 64), patterns=[S[i]])


def inv_path(S, K, N):
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < N, 0 <= j, j < N, has(S, i), on(HOME(H(KY(K[i])), N), i, j)), z3.Not(free(S, j))), patterns=[z3.MultiPattern(S[i], S[j])])


def inv_distinct(S, K, N):
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N, has(S, i), has(S, j)), KY(K[i]) != KY(K[j])), patterns=[z3.MultiPattern(K[i], K[j])])


def inv_live(S, L, N):
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), L[i] == has(S, i)), patterns=[L[i]])


def h_md(V, st, a, ins):
    n = V.as_u(st, a[0])
    V.pow2.append(n)
    r = V.new_region(st, "metadata", n, 'newarr', 'arr', 1)
    S = V.arr_comp(st, r, 0, 1, ('int', 8))
    r.ghost['named'] = True
    V.mapregs["metadata"] = r
    st.assume(z3.ForAll([i], z3.And(S[i] >= 0, S[i] < 256, S[i] % 4 <= 2), patterns=[S[i]]))
    x = z3.Int("h_map")
    st.assume(z3.ForAll([x], z3.And(0 <= HOME(x, n.z()), HOME(x, n.z()) < n.z()), patterns=[HOME(x, n.z())]), z3.ForAll([x], z3.And(H(x) >= 0, H(x) < (1 << 64)), patterns=[H(x)]))
    return PV(r, 0)


def h_elems(cls, size):
    def h(V, st, a, ins):
        n = V.as_u(st, a[0])
        S = md_of(V, st, a[1])
        r = V.new_region(st, "keys" if cls == "Elem" else "values", n.scale(size), 'newarr', 'arr', size)
        V.mapregs["keys" if cls == "Elem" else "values"] = r
        rs = st.wrs(r)
        A = z3.FreshConst(ARR, r.name)
        rs.arrs[(0, size)] = A
        rs.ety[(0, size)] = ('elem', cls)
        L = z3.FreshConst(BARR, "live_" + r.name)
        rs.live[(0, size)] = L
        st.assume(z3.ForAll([i], z3.And(A[i] != JUNK, A[i] >= 0, A[i] < (1 << 62)), patterns=[A[i]]), inv_live(S, L, n.z()))
        if cls == "Other":
            V.values0 = A
        if cls == "Elem":
            st.assume(inv_bloom(S, A, n.z()), inv_path(S, A, n.z()), inv_distinct(S, A, n.z()))
        return PV(r, 0)
    return h


def h_inv(f):
    def h(V, st, a, ins):
        return B1(f(md_of(V, st, a[0]), keys_of(V, st, a[1]), V.as_u(st, a[2]).z()))
    return h


def h_inv_live(V, st, a, ins):
    rs = st.rs(a[1].reg)
    return B1(inv_live(md_of(V, st, a[0]), next(iter(rs.live.values())), V.as_u(st, a[2]).z()))


def h_absent(V, st, a, ins):
    S, K, N = md_of(V, st, a[0]), keys_of(V, st, a[1]), V.as_u(st, a[2]).z()
    k = V.as_u(st, a[3]).z()
    return B1(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, has(S, i)), KY(K[i]) != k), patterns=[K[i]]))


def h_all_empty(V, st, a, ins):
    S, N = md_of(V, st, a[0]), V.as_u(st, a[1]).z()
    return B1(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), free(S, i)), patterns=[S[i]]))


def h_slot(V, st, a, ins):
    return IV(8, Lin.of(md_of(V, st, a[0])[V.as_u(st, a[1]).z()] % 4))


def h_key(f):
    def h(V, st, a, ins):
        return IV(64, Lin.of(f(keys_of(V, st, a[0])[V.as_u(st, a[1]).z()])))
    return h


def h_target(V, st, a, ins):
    V.target = V.as_u(st, a[0]).z()


def ctl(V, st):
    """metadata, keys, size of the table"""
    g = V.mapregs
    return V.arr(st, g["metadata"], 0, 1), V.arr(st, g["keys"], 0), g["metadata"].size.z()


def loops():
    def inv(v):
        S, K, N = ctl(v.V, v.st)
        s, t = v.u('slot'), v.V.target
        kv = v.V.key_of(v)
        h = HOME(H(kv), N)
        out = [("slot in the table", z3.And(0 <= s, s < N)),
               ("the search has not passed the slot where it must end", upto(h, t, s))]
        if v.V.gapless:
            out.append(("every slot passed is in use", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, on(h, s, j)), z3.Not(free(S, j))), patterns=[S[j]])))
        return out

    def var(v):
        S, K, N = ctl(v.V, v.st)
        s, t = v.u('slot'), v.V.target
        return z3.If(s <= t, t - s, t - s + N)

    def dinv(v):
        t = v.p('this')
        n, x = v.field(t, 8), v.u('i')
        out = [("position in the table", z3.And(0 <= x, x <= n))]
        md = v.field(t, 0, 'p')
        if md.reg is None:
            return out
        S = v.V.arr_comp(v.st, md.reg, 0, 1, ('int', 8))
        for what, off, size, cls in (("keys", 16, 24, "Elem"), ("values", 40, 16, "Other")):
            r = v.field(t, off, 'p').reg
            v.V.arr_comp(v.st, r, 0, size, ('elem', cls))
            L = v.st.rs(r).live[(0, size)]
            out.append(("the %s before it are destroyed, the others live" % what, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), L[i] == z3.And(i >= x, has(S, i))), patterns=[L[i]])))
        return out

    def ginv(v):
        S, K, N = ctl(v.V, v.st)
        x = v.u('i')
        q, seen, calls = (v.V.load_global(v.st, n) for n in ("q_", "seen", "calls"))
        A = v.V.arr(v.st, v.V.mapregs["values"], 0)
        return [("position in the table", z3.And(0 <= x, x <= N)),
                ("exactly the occupied slots before it were taken over", seen == z3.If(z3.And(q < x, has(S, q)), 1, 0)),
                ("entries are counted", z3.And(calls == v.field(v.p('this'), v.V.off_entries), calls <= x)),
                ("values behind it are untouched", z3.ForAll([j], z3.Implies(z3.And(x <= j, j < N), A[j] == v.V.values0[j]), patterns=[A[j]]))]

    def ainv(v):
        S, K, N = ctl(v.V, v.st)
        o, t = v.field(v.p('this'), 8), v.V.target
        return [("position in the table", z3.And(t < o, o <= N)),
                ("no entry is passed", z3.ForAll([i], z3.Implies(z3.And(t < i, i < o), z3.Not(has(S, i))), patterns=[S[i]]))]
    return [LoopSpec(r"::MapData::deallocate_contents\(", dinv, variant=lambda v: v.field(v.p('this'), 8) - v.u('i'), names=('i',), tag='deallocate_contents'),
            LoopSpec(r"::HashMap<Elem, Other, Ctl>::grow\(", ginv, variant=lambda v: ctl(v.V, v.st)[2] - v.u('i'), names=('i',), tag='grow'),
            LoopSpec(r"HashMapIterator<Elem, Other, Ctl>::advance\(", ainv, variant=lambda v: ctl(v.V, v.st)[2] - v.field(v.p('this'), 8), names=(), tag='advance'),
            LoopSpec(r"::HashMap<Elem, Other, Ctl>::(lookup|remove|insert_internal)\(", inv, variant=var, names=('slot',), tag='probe')]


def h_owned(V, st, a, ins):
    for r in V.mapregs.values():
        st.g[('allocd', r.id)] = True


def load_global(V):
    def g(st, name):
        r = next(r for r in V.gregs.values() if re.search("(^|[^a-z])%s$" % name, r.ghost['gv'].name) or r.ghost['gv'].name == "_ZL%d%s" % (len(name), name))
        return V.as_u(st, st.rs(r).cells[0][1]).z()
    return g


def config(V):
    V.load_global = load_global(V)
    V.off_entries = 72
    V.on("^vp_owned$", h_owned)
    strings.config(V)
    V.target = None
    d = z3.Int("default_Other")
    V.base_assume = V.base_assume + [d != JUNK, d >= 0, d < (1 << 62)]
    V.bitfields = True
    V.arr_new = True
    V.mapregs = {}
    V.gapless = "insert" in V.task_name

    def key_of(v):
        p = v.p('key')
        return KY(V.elem_get(v.st, p, "Elem", None, "key"))
    V.key_of = key_of
    V.on("^vp_mapmd$", h_md)
    V.on("^vp_mapkeys$", h_elems("Elem", 24))
    V.on("^vp_mapvals$", h_elems("Other", 16))
    for n, f in (("bloom", inv_bloom), ("path", inv_path), ("distinct", inv_distinct)):
        V.on("^vp_inv_%s$" % n, h_inv(f))
    V.on("^vp_inv_live$", h_inv_live)
    V.on("^vp_absent_key$", h_absent)
    V.on("^vp_all_empty$", h_all_empty)
    V.on("^vp_hash$", lambda V, st, a, ins: IV(64, Lin.of(H(V.as_u(st, a[0]).z()))))
    V.on("^vp_home$", lambda V, st, a, ins: IV(64, Lin.of(HOME(V.as_u(st, a[0]).z(), V.as_u(st, a[1]).z()))))
    V.on("^vp_slot$", h_slot)
    V.on("^vp_key$", h_key(KY))
    V.on("^vp_value$", h_key(lambda x: x))
    V.on("^vp_keyof$", lambda V, st, a, ins: IV(64, Lin.of(KY(V.elem_get(st, a[0], "Elem", ins, "key")))))
    V.on("^vp_target$", h_target)
    t = V.task_name
    if "top" in t:
        V.on(r"::HashMap<.*::lookup\(", "stub_lookup")
        V.on(r"::HashMap<.*::grow\(", "stub_grow")
        V.on(r"::HashMap<.*::insert_internal\(", "stub_insert_internal")
    if t.startswith("spec_set"):
        for n in ("contains", "insert", "remove", "size", "clear"):
            V.on(r"::HashMap<Elem, unsigned char, Ctl>::%s\(" % n, "stub_set_" + n)
        return
    if t == "spec_map_grow":
        V.on(r"::HashMap<.*::insert_internal\(", "stub_reinsert")
    if t == "spec_map_slot":
        V.bvbytes = True
        V.on("^vp_bv64$", lambda V, st, a, ins: BVV(64, z3.FreshConst(z3.BitVecSort(64), "hash")))
        return
    V.on(r"::hash_for\(", "stub_hash")
    V.on(r"::hash_to_slot\(", "stub_home")
    V.on(r"::mod_mask\(", "stub_mask")


def lemmas():
    """an empty slot exists when fewer slots are in use than there are"""
    cnt = z3.Function("slots_in_use", ISORT, ISORT)   # ... below a position
    S = z3.Array("S", ISORT, ISORT)
    k, n = z3.Ints("k n")
    used = z3.Function("used", ISORT, z3.BoolSort())
    D = [cnt(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, cnt(k + 1) == cnt(k) + z3.If(used(k), 1, 0)), patterns=[cnt(k + 1)])]
    full = lambda x: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < x), used(k)), patterns=[used(k)])
    P = lambda x: z3.Implies(full(x), cnt(x) == x)
    out = [("a table of no slots has none in use", D, P(z3.IntVal(0))),
           ("if all slots below a position are in use, that many are (step)", D + [n >= 0, P(n)], P(n + 1)),
           ("so a table with fewer slots in use than it has contains an empty one", D + [n >= 0, P(n), cnt(n) < n], z3.Not(full(n)))]
    e, t, N = z3.Ints("e t N")
    out.append(("below the load limit two more slots than are in use remain", [e >= 0, t >= 0, N >= 16, (e + t) * 100 / N < 77], e + t + 2 <= N))
    out.append(("after doubling, or rebuilding a table that is mostly tombstones, too", [e >= 0, t >= 0, N >= 16, e + t < N, n == z3.If(t > e, N, 2 * N)], e + 2 <= n))
    return out
