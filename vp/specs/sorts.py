"""Contracts of the sorting algorithms (C01, C02)."""
from specs.ranges import *
from specs.ranges import _i, _j
import re
from task import Contract, Task

HB = 1 << 40
# counting the bits of the element count: how many rounds does not matter for correctness
ROUNDS = LoopSpec(r"lambda.*::operator\(\)", lambda v: [("halving", v.u('num_elements') >= 0)], variant=lambda v: v.u('num_elements'), names=('num_elements', 'num_rounds'), tag='max_rounds')


def carried(V, st):
    """facts of the form `every element of the range satisfies P` that a task carries from step to step"""
    out = []
    for lab, reg, lo, hi, g, P_ in tuple(getattr(V.ctx, 'carry', ())) + st.g.get('carry', ()):
        out.append((lab, z3.Implies(g, all_in(lo, hi, V.arr(st, reg), P_))))
    return out


class RangeC(Contract):
    """function over [begin,end) of a region; arguments ... begin, end [, cmp]"""
    kind = ELEM
    stable = False
    writes = True
    slack = 0            # slots before begin that may be read
    argb, arge = 0, 1
    ncmp = 2
    junk_ok = False
    sname = ""

    def __init__(s, kind=ELEM, stable=False, **kw):
        s.kind = kind
        s.stable = stable
        for k, v in kw.items():
            setattr(s, k, v)
        s.name = s.sname + "<" + kind.name + (",stable" if stable else "") + ">"
        s.loops = s.mkloops()

    def mkloops(s):
        return []

    # order in force
    def le(s, a, b):
        K = s.kind.K
        if s.stable:
            return z3.Or(K(a) < K(b), z3.And(K(a) == K(b), ORIG(a) <= ORIG(b)))
        return K(a) <= K(b)

    def kle(s, a, b):
        return s.kind.K(a) <= s.kind.K(b)

    def setup(s, V, st):
        reg, n, A = mk_region(V, st, s.kind)
        lo, hi = z3.FreshInt("lo"), z3.FreshInt("hi")
        st.assume(0 <= lo, lo <= hi, hi <= n)
        c = Ctx(reg=reg, n=n, lo=lo, hi=hi, A0=A, kind=s.kind, le=s.le)
        V.ctx = c
        args = [P(reg, s.kind, lo), P(reg, s.kind, hi)]
        args += s.more(V, st, c)
        low = s.lowest(V, st, c)
        sz = s.kind.size
        st.win[reg.id] = (low * sz, hi * sz)
        return args

    def lowest(s, V, st, c):
        return c.lo

    def more(s, V, st, c):
        return [PV(V.new_region(st, "cmp", 1, 'ext'), 0)] if s.ncmp else []

    def bind(s, V, st, args):
        b, e = args[s.argb], args[s.arge]
        if b.reg is not e.reg:
            raise Tool("%s called with iterators into different arrays" % s.name)
        c = Ctx(reg=b.reg, lo=V.pidx(st, b), hi=V.pidx(st, e), kind=s.kind, le=s.le)
        c.n = V.pidx(st, PV(b.reg, b.reg.size))
        c.A0 = V.arr(st, b.reg)
        c.args = args
        return c

    def shape(s, V, st, c):
        out = [("begin <= end", c.lo <= c.hi), ("range inside its array", z3.Implies(c.lo < c.hi, z3.And(0 <= s.lowest(V, st, c), c.hi <= c.n)))]
        w = st.win.get(c.reg.id)
        if w is not None:
            sz = s.kind.size
            out.append(("range inside the caller's permitted range", z3.Implies(c.lo < c.hi, z3.And(w[0] <= s.lowest(V, st, c) * sz, c.hi * sz <= w[1]))))
        return out

    def pre(s, V, st, c):
        out = s.shape(V, st, c)
        A = V.arr(st, c.reg)
        if s.kind.cls:
            lv = st.rs(c.reg).live[(0, s.kind.size)]
            if not z3.is_K(lv):
                out.append(("elements are alive", z3.ForAll([_i], z3.Implies(z3.And(s.lowest(V, st, c) <= _i, _i < c.hi), z3.Select(lv, _i)), patterns=[z3.Select(lv, _i)])))
            if not s.junk_ok:
                out.append(("no moved-from element", nojunk(c.lo, c.hi, A)))
        if s.stable:
            out.append(("original positions increase", pairs(lambda i, j: z3.And(c.lo <= i, j < c.hi), A, lambda a, b: ORIG(a) < ORIG(b))))
        return out

    def frame(s, V, st, c):
        if not s.writes:
            return s.fresh_ret(V, st, c)
        A1 = z3.FreshConst(ARR, "A")
        V.set_arr(st, c.reg, A1, 0, s.kind.size)
        return s.fresh_ret(V, st, c)

    def fresh_ret(s, V, st, c):
        return None

    def perm_posts(s, V, old, new, c):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        out = [("nothing outside the range changes", same_outside(A0, A1, c.lo, c.hi)),
               ("same multiset of elements", CNT(A1) == CNT(A0))]
        if s.kind.cls:
            out.append(("no moved-from element left", nojunk(c.lo, c.hi, A1)))
        return out

    def assume_extra(s, V, old, new, c, ret):
        if not s.writes:
            return []
        return perm_lemma(V.arr(old, c.reg), V.arr(new, c.reg), c.lo, c.hi)

    def after(s, V, st, c):
        if s.writes:
            for lab, g in carried(V, st):
                V.oblige(st, "carried: " + lab, g, 'lemma')

    def sorted_post(s, V, new, c):
        return [("range is sorted", sorted_in(c.lo, c.hi, V.arr(new, c.reg), s.le))]

    def allowed(s, V, c):
        return {c.reg.id} if s.writes else set()


def conf(kind):
    def f(V):
        V.prelude = list(PRELUDE)
        V.on(r"^Pred::operator\(\)", pred_handler(kind))
        if kind.cls:
            V.opaque = {kind.cls: kind.size}
            V.on(r"^Cmp::compare\(", cmp_handler(kind))
            V.on(r"^Cmp::equal\(", eq_handler(kind))
        else:
            V.on(r"^CmpI::compare\(", cmp_handler(kind))
            V.on(r"^CmpI::equal\(", eq_handler(kind))
        V.assumptions.add("the comparator is a strict weak order given by integer keys; it neither throws nor modifies elements")
    return f


def T(kind):
    return r"\*" if kind else ""


class MinElement(RangeC):
    sname = "min_element"
    writes = False

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::min_element<(%s\*), \1, Cmp" % re.escape(s.kind.cpp) + r"I?>\([^']*$"

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            m, st = v.idx('minloc'), v.idx('start')
            K = s.kind.K
            return [("minloc < start <= stop", z3.And(t.lo <= m, m < st, st <= t.hi)),
                    ("minloc is a minimum so far", all_in(t.lo, st, A, lambda x: K(A[m]) <= K(x))),
                    ("minloc is the first minimum", all_in(t.lo, m, A, lambda x: K(A[m]) < K(x)))]
        return [LoopSpec(r"::min_element<", inv, variant=lambda v: v.T.hi - v.idx('start'), names=('minloc', 'start'), tag='min_element')]

    def fresh_ret(s, V, st, c):
        c.ret = z3.FreshInt("min")
        return P(c.reg, s.kind, c.ret)

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        K = s.kind.K
        return [("result is begin for an empty range", z3.Implies(c.lo == c.hi, r == c.lo)),
                ("result is in the range", z3.Implies(c.lo < c.hi, z3.And(c.lo <= r, r < c.hi))),
                ("result is a minimum", z3.Implies(c.lo < c.hi, all_in(c.lo, c.hi, A, lambda x: K(A[r]) <= K(x)))),
                ("result is the first minimum", z3.Implies(c.lo < c.hi, all_in(c.lo, r, A, lambda x: K(A[r]) < K(x))))]


class MaxElement(MinElement):
    sname = "max_element"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::max_element<(%s\*), \1, Cmp" % re.escape(s.kind.cpp) + r"I?>\([^']*$"

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            m, st = v.idx('maxloc'), v.idx('start')
            K = s.kind.K
            return [("maxloc < start <= stop", z3.And(t.lo <= m, m < st, st <= t.hi)),
                    ("maxloc is a maximum so far", all_in(t.lo, st, A, lambda x: K(A[m]) >= K(x))),
                    ("maxloc is the first maximum", all_in(t.lo, m, A, lambda x: K(A[m]) > K(x)))]
        return [LoopSpec(r"::max_element<", inv, variant=lambda v: v.T.hi - v.idx('start'), names=('maxloc', 'start'), tag='max_element')]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        K = s.kind.K
        return [("result is begin for an empty range", z3.Implies(c.lo == c.hi, r == c.lo)),
                ("result is in the range", z3.Implies(c.lo < c.hi, z3.And(c.lo <= r, r < c.hi))),
                ("result is a maximum", z3.Implies(c.lo < c.hi, all_in(c.lo, c.hi, A, lambda x: K(A[r]) >= K(x)))),
                ("result is the first maximum", z3.Implies(c.lo < c.hi, all_in(c.lo, r, A, lambda x: K(A[r]) > K(x))))]


class RotateLast(RangeC):
    sname = "rotate_last_to_front"
    ncmp = 0
    junk_ok = True

    def __init__(s, kind=ELEM, stable=False, **kw):
        RangeC.__init__(s, kind, False, **kw)

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::rotate_last_to_front<%s\*>\(" % re.escape(s.kind.cpp)

    def mkloops(s):
        def inv(v):
            t = v.T
            A, A0 = v.A(t.reg), t.A0
            c, p = v.idx('current'), v.idx('previous')
            sc = v.ev('scratch')
            return [("previous is just before current", p == c - 1),
                    ("current in range", z3.And(t.lo <= c, c < t.hi)),
                    ("scratch holds the last element", sc == A0[t.hi - 1]),
                    ("shifted part", z3.ForAll([_i], z3.Implies(z3.And(c < _i, _i < t.hi), A[_i] == A0[_i - 1]), patterns=[A[_i]])),
                    ("unshifted part", z3.ForAll([_i], z3.Implies(z3.Or(_i < c, _i >= t.hi), A[_i] == A0[_i]), patterns=[A[_i]])),
                    ("element count", CNT(A) - ind(A[c]) + ind(sc) == CNT(A0))]
        return [LoopSpec(r"::rotate_last_to_front<", inv, variant=lambda v: v.idx('current') - v.T.lo, names=('current', 'previous', 'scratch'), tag='rotate_last_to_front')]

    def post(s, V, old, new, c, ret):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        return [("nothing outside the range changes", same_outside(A0, A1, c.lo, c.hi)),
                ("last element is first", z3.Implies(c.hi - c.lo >= 1, A1[c.lo] == A0[c.hi - 1])),
                ("others move up by one", z3.ForAll([_i], z3.Implies(z3.And(c.lo < _i, _i < c.hi), A1[_i] == A0[_i - 1]), patterns=[A1[_i]])),
                ("same multiset of elements", CNT(A1) == CNT(A0))]


class RotateFirst(RotateLast):
    sname = "rotate_first_to_back"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::rotate_first_to_back<%s\*>\(" % re.escape(s.kind.cpp)

    def mkloops(s):
        def inv(v):
            t = v.T
            A, A0 = v.A(t.reg), t.A0
            c, p = v.idx('current'), v.idx('next')
            sc = v.ev('scratch')
            return [("next is just after current", p == c + 1),
                    ("current in range", z3.And(t.lo <= c, c < t.hi)),
                    ("scratch holds the first element", sc == A0[t.lo]),
                    ("shifted part", z3.ForAll([_i], z3.Implies(z3.And(t.lo <= _i, _i < c), A[_i] == A0[_i + 1]), patterns=[A[_i]])),
                    ("unshifted part", z3.ForAll([_i], z3.Implies(z3.Or(_i < t.lo, _i > c), A[_i] == A0[_i]), patterns=[A[_i]])),
                    ("element count", CNT(A) - ind(A[c]) + ind(sc) == CNT(A0))]
        return [LoopSpec(r"::rotate_first_to_back<", inv, variant=lambda v: v.T.hi - v.idx('current'), names=('current', 'next', 'scratch'), tag='rotate_first_to_back')]

    def post(s, V, old, new, c, ret):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        return [("nothing outside the range changes", same_outside(A0, A1, c.lo, c.hi)),
                ("first element is last", z3.Implies(c.hi - c.lo >= 1, A1[c.hi - 1] == A0[c.lo])),
                ("others move down by one", z3.ForAll([_i], z3.Implies(z3.And(c.lo <= _i, _i < c.hi - 1), A1[_i] == A0[_i + 1]), patterns=[A1[_i]])),
                ("same multiset of elements", CNT(A1) == CNT(A0))]


class HasSentinel(RangeC):
    """[begin,end) with a smallest element at begin-1 or at begin"""
    sname = "insertion_sort_has_sentinel"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::insertion_sort_has_sentinel<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def setup(s, V, st):
        args = RangeC.setup(s, V, st)
        c = V.ctx
        c.sent = z3.FreshInt("sent")
        st.assume(c.sent >= 0, z3.Or(c.sent == c.lo - 1, c.sent == c.lo))
        st.win[c.reg.id] = (z3.If(c.lo < c.hi, c.sent, c.lo) * s.kind.size, c.hi * s.kind.size)
        return args

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        g = st.g.get('sentinel')
        c.sent = g(st, c) if g else (c.lo - 1)
        return c

    def lowest(s, V, st, c):
        return c.sent if hasattr(c, 'sent') else c.lo

    def pre(s, V, st, c):
        out = RangeC.pre(s, V, st, c)
        A = V.arr(st, c.reg)
        K = s.kind.K
        out.append(("sentinel exists", z3.Implies(c.lo < c.hi, z3.And(c.sent >= 0, z3.Or(c.sent == c.lo - 1, c.sent == c.lo)))))
        out.append(("sentinel is no larger than any element", z3.Implies(c.lo < c.hi, all_in(c.lo, c.hi, A, lambda x: K(A[c.sent]) <= K(x)))))
        if s.kind.cls:
            out.append(("sentinel is not moved from", z3.Implies(c.lo < c.hi, A[c.sent] != JUNK)))
        return out

    def mkloops(s):
        K = s.kind.K

        def outer(v):
            t = v.T
            A, A0 = v.A(t.reg), t.A0
            ce = v.idx('current_element')
            out = [("current element in range", z3.And(t.lo < ce, ce <= t.hi)),
                   ("prefix is sorted", sorted_in(t.lo, ce, A, s.le)),
                   ("rest is untouched", z3.ForAll([_i], z3.Implies(z3.Or(_i < t.lo, _i >= ce), A[_i] == A0[_i]), patterns=[A[_i]])),
                   ("sentinel is untouched", A[t.sent] == A0[t.sent]),
                   ("sentinel bounds the range", all_in(t.lo, t.hi, A, lambda x: K(A0[t.sent]) <= K(x))),
                   ("element count", CNT(A) == CNT(A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            if s.stable:
                out.append(("inserted elements come from before", pairs(lambda i, j: z3.And(t.lo <= i, i < ce, ce <= j, j < t.hi), A, lambda a, b: ORIG(a) < ORIG(b))))
            return out

        def inner(v):
            t = v.T
            A, E = v.A(t.reg), v.entry.A(t.reg)
            c, p, le = v.idx('current'), v.idx('previous'), v.idx('last_element')
            sc = v.ev('scratch')
            return [("previous is just before current", p == c - 1),
                    ("current in range", z3.And(t.sent <= p, c <= le)),
                    ("scratch unchanged", sc == v.entry.ev('scratch')),
                    ("shifted part", z3.ForAll([_i], z3.Implies(z3.And(c < _i, _i <= le), z3.And(A[_i] == E[_i - 1], K(sc) < K(A[_i]))), patterns=[A[_i]])),
                    ("unshifted part", z3.ForAll([_i], z3.Implies(z3.Or(_i < c, _i > le), A[_i] == E[_i]), patterns=[A[_i]])),
                    ("element count", CNT(A) - ind(A[c]) == CNT(E) - ind(E[le]))]
        return [LoopSpec(r"::linear_insert_has_sentinel<", inner, variant=lambda v: v.idx('current'), names=('current', 'previous', 'scratch', 'last_element'), tag='linear_insert_has_sentinel'),
                LoopSpec(r"::insertion_sort_has_sentinel<", outer, variant=lambda v: v.T.hi - v.idx('current_element'), names=('current_element',), tag='insertion_sort_has_sentinel')]

    def post(s, V, old, new, c, ret):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c) + [("sentinel untouched", z3.Implies(c.lo < c.hi, A1[c.sent] == A0[c.sent]))]


class ShellPass(RangeC):
    """shell_sort_single_iteration: every element is no larger than the one a gap later"""
    sname = "shell_sort_single_iteration"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::shell_sort_single_iteration<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        c.gap = z3.FreshInt("gap")
        st.assume(c.gap >= 1, c.gap < (1 << 40))
        return [IV(64, Lin.of(c.gap)), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        c.gap = V.as_u(st, args[2]).z()
        return c

    def pre(s, V, st, c):
        return RangeC.pre(s, V, st, c) + [("gap is positive", c.gap >= 1)]

    def mkloops(s):
        K = s.kind.K

        def outer(v):
            t = v.T
            A, i = v.A(t.reg), v.u('i')
            n = t.hi - t.lo
            out = [("index", z3.And(t.gap <= i, z3.Or(i == t.gap, i <= n))),
                   ("prefix is ordered at the gap", z3.ForAll([_i], z3.Implies(z3.And(t.lo + t.gap <= _i, _i < t.lo + i), K(A[_i - t.gap]) <= K(A[_i])), patterns=[A[_i]])),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out

        def inner(v):
            t = v.T
            A, i, j = v.A(t.reg), v.u('i'), v.u('j')
            sc, g = v.ev('scratch'), t.gap
            h = t.lo + j
            out = [("index", z3.And(0 <= j, j <= i, i < t.hi - t.lo, g <= i)),
                   ("scratch unchanged", sc == v.entry.ev('scratch')),
                   ("ordered at the gap around the hole", z3.ForAll([_i], z3.Implies(z3.And(t.lo + g <= _i, _i <= t.lo + i, _i != h, _i - g != h), K(A[_i - g]) <= K(A[_i])), patterns=[A[_i]])),
                   ("scratch is below the element after the hole", z3.Implies(j + g <= i, K(sc) < K(A[h + g]))),
                   ("neighbours of the hole are ordered", z3.Implies(z3.And(j + g <= i, j >= g), K(A[h - g]) <= K(A[h + g]))),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)),
                   ("element count", CNT(A) - ind(A[h]) + ind(sc) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element but the hole", z3.ForAll([_i], z3.Implies(z3.And(t.lo <= _i, _i < t.hi, _i != h), A[_i] != JUNK), patterns=[A[_i]])))
                out.append(("scratch is not moved from", sc != JUNK))
            return out
        return [LoopSpec(r"::shell_sort_single_iteration<", outer, variant=lambda v: v.T.hi - v.T.lo - v.u('i'), names=('i',), tag='shell pass', nth=0),
                LoopSpec(r"::shell_sort_single_iteration<", inner, variant=lambda v: v.u('j'), names=('j', 'i', 'scratch'), tag='shell insert', nth=1)]

    def post(s, V, old, new, c, ret):
        A, K = V.arr(new, c.reg), s.kind.K
        return [("every element is no larger than the one a gap later", z3.ForAll([_i], z3.Implies(z3.And(c.lo + c.gap <= _i, _i < c.hi), K(A[_i - c.gap]) <= K(A[_i])), patterns=[A[_i]]))] + s.perm_posts(V, old, new, c)


    def after(s, V, st, c):
        """lemma: after a pass with gap 4 the first four elements bound all others; the induction step is an obligation"""
        RangeC.after(s, V, st, c)
        g = z3.simplify(c.gap)
        if not (z3.is_int_value(g) and g.as_long() == 4):
            return
        A, K = V.arr(st, c.reg), s.kind.K
        m, j = z3.FreshInt("least"), z3.FreshInt("j")
        first = [K(A[c.lo + i]) for i in range(4)]
        st.assume(z3.Or(*[m == x for x in first]), *[m <= x for x in first])
        t = st.copy()
        t.assume(c.lo + 4 <= j, j < c.hi, m <= K(A[j - 4]))
        V.oblige(t, "lemma the first four elements bound the others, induction step", m <= K(A[j]), 'lemma')
        st.assume(z3.Implies(c.hi - c.lo >= 4, all_in(c.lo, c.hi, A, lambda x: m <= K(x))))


class ShellSort(RangeC):
    sname = "shell_sort"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::shell_sort<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        V.realfp = True
        V.assumptions.add("double arithmetic on integers below 2^53 is exact up to a relative error of 2^-52 (IEEE 754)")
        st.g['sentinel'] = lambda st, c: c.lo
        return RangeC.more(s, V, st, c)

    def mkloops(s):
        def same(v):
            t = v.T
            A = v.A(t.reg)
            out = [("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out

        def first(v):
            b = v.u('biggap')
            return [("gap in range", z3.And(1577 <= b, b <= (1 << 43)))]

        def passes(v):
            b = v.u('biggap')
            return [("gap in range", z3.And(1 <= b, b <= (1 << 43)))] + same(v)
        return [LoopSpec(r"::shell_sort<", first, variant=lambda v: z3.If(v.u('biggap') < v.T.hi - v.T.lo, v.T.hi - v.T.lo - v.u('biggap'), 0), names=('biggap',), tag='shell gap search', nth=0),
                LoopSpec(r"::shell_sort<", passes, variant=lambda v: v.u('biggap'), names=('biggap',), tag='shell big gaps', nth=1)]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


class InsertionSort(RangeC):
    sname = "insertion_sort"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::insertion_sort<(%s\*), \1, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


def heap_prop(A, lo, hi, s0, K, ex=None):
    a, b = A[_i], A[_j]
    cond = z3.And(s0 <= _i, _j < hi, z3.Or(_j - lo == 2 * (_i - lo) + 1, _j - lo == 2 * (_i - lo) + 2))
    if ex is not None:
        cond = z3.And(cond, _i != ex)
    return z3.ForAll([_i, _j], z3.Implies(cond, K(a) >= K(b)), patterns=[z3.MultiPattern(a, b)])


class Heapify(RangeC):
    sname = "heapify"
    recursive = True

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::heapify<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def setup(s, V, st):
        RangeC.setup(s, V, st)
        c = V.ctx
        c.loc, c.hs = z3.FreshInt("loc"), z3.FreshInt("hs")
        st.assume(c.lo <= c.loc, c.loc < c.hi, c.lo <= c.hs, c.hs <= c.loc)
        h = V.new_region(st, "hi", 16, 'ext')
        V.put_cell(st, h, 0, 8, P(c.reg, s.kind, c.lo))
        V.put_cell(st, h, 8, 8, P(c.reg, s.kind, c.hi))
        st.wlog.clear()
        return [PV(h, 0), P(c.reg, s.kind, c.loc), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        h = args[0]
        b, e = V.peek(st, h), V.peek(st, PV(h.reg, h.off + 8))
        c = RangeC.bind(s, V, st, [b, e])
        c.loc = V.pidx(st, args[1])
        if hasattr(V.ctx, 'hs') and re.search(s.fn, st.frames[-1].fn.dem):
            c.hs = V.ctx.hs
            V.oblige(st, "recursion of heapify goes down", c.loc > V.ctx.loc, 'termination')
        else:
            c.hs = c.loc
        return c

    def pre(s, V, st, c):
        A = V.arr(st, c.reg)
        K = s.kind.K
        out = RangeC.pre(s, V, st, c)
        gp = z3.ForAll([_i, _j], z3.Implies(z3.And(c.hs <= _i, _j < c.hi, z3.Or(c.loc - c.lo == 2 * (_i - c.lo) + 1, c.loc - c.lo == 2 * (_i - c.lo) + 2),
                                                   z3.Or(_j - c.lo == 2 * (c.loc - c.lo) + 1, _j - c.lo == 2 * (c.loc - c.lo) + 2)), K(A[_i]) >= K(A[_j])), patterns=[z3.MultiPattern(A[_i], A[_j])])
        return out + [("location in range", z3.And(c.lo <= c.loc, c.loc < c.hi, c.lo <= c.hs, c.hs <= c.loc)),
                      ("heap below except at the location", heap_prop(A, c.lo, c.hi, c.hs, K, c.loc)),
                      ("children of the location fit below its parent", gp)]

    def post(s, V, old, new, c, ret):
        return [("heap property restored", heap_prop(V.arr(new, c.reg), c.lo, c.hi, c.hs, s.kind.K))] + s.perm_posts(V, old, new, c)


class BuildHeap(RangeC):
    sname = "build_heap"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::build_heap<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def setup(s, V, st):
        RangeC.setup(s, V, st)
        c = V.ctx
        h = V.new_region(st, "hi", 16, 'ext')
        V.put_cell(st, h, 0, 8, P(c.reg, s.kind, c.lo))
        V.put_cell(st, h, 8, 8, P(c.reg, s.kind, c.hi))
        st.wlog.clear()
        return [PV(h, 0), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        h = args[0]
        return RangeC.bind(s, V, st, [V.peek(st, h), V.peek(st, PV(h.reg, h.off + 8))])

    def pre(s, V, st, c):
        return RangeC.pre(s, V, st, c) + [("at least one element", c.hi - c.lo >= 1)]

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            i = v.s_('i')
            out = [("index in range", z3.And(-1 <= i, 2 * (i + 1) <= t.hi - t.lo)),
                   ("heap property above i", heap_prop(A, t.lo, t.hi, t.lo + i + 1, s.kind.K)),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)),
                   ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out
        return [LoopSpec(r"::build_heap<", inv, variant=lambda v: v.s_('i') + 1, names=('i',), tag='build_heap')]

    def post(s, V, old, new, c, ret):
        return [("heap property", heap_prop(V.arr(new, c.reg), c.lo, c.hi, c.lo, s.kind.K))] + s.perm_posts(V, old, new, c)


def root_max(V, st, A, lo, hi, K):
    """lemma: in a heap the root is a maximum (by induction on the index); the induction step is an obligation"""
    j = z3.FreshInt("j")
    p = z3.FreshInt("p")
    t = st.copy()
    t.assume(lo < j, j < hi, z3.Or(j - lo == 2 * (p - lo) + 1, j - lo == 2 * (p - lo) + 2), p >= lo, p < j)
    t.assume(K(A[lo]) >= K(A[p]))     # induction hypothesis at the parent
    V.oblige(t, "lemma heap root is maximal, induction step", K(A[lo]) >= K(A[j]), 'lemma')
    return [all_in(lo, hi, A, lambda x: K(A[lo]) >= K(x))]


class Heapsort(RangeC):
    sname = "heapsort"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::heapsort<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def mkloops(s):
        K = s.kind.K

        def inv(v):
            t = v.T
            A = v.A(t.reg)
            i = v.u('i')
            m = t.lo + i
            out = [("index in range", z3.And(16 <= i, t.lo + i < t.hi)),
                   ("heap property of the rest", heap_prop(A, t.lo, m + 1, t.lo, K)),
                   ("suffix is sorted", sorted_in(m + 1, t.hi, A, s.le)),
                   ("heap is below the suffix", pairs(lambda a, b: z3.And(t.lo <= a, a <= m, m < b, b < t.hi), A, s.kle)),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)),
                   ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out

        def lemma(v):
            t = v.T
            return root_max(v.V, v.st, v.A(t.reg), t.lo, t.lo + v.u('i') + 1, K)
        return [LoopSpec(r"::heapsort<", inv, variant=lambda v: v.u('i'), names=('i', 'original_heap'), tag='heapsort', lemma=lemma)]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


def eval_pred(V, st, kind, closure, fnrx):
    """the boolean function a closure computes, as a python function value -> z3 Bool, evaluated in state st"""
    x = z3.FreshInt("pv")
    t = st.copy()
    if kind.cls:
        r = V.new_region(t, "pv", kind.size, 'ext')
        t.wrs(r).cells[0] = (kind.size, EV(kind.cls, x))
    else:
        r = V.new_region(t, "pv", kind.size, 'ext')
        t.wrs(r).cells[0] = (kind.size, IV(kind.width, Lin.of(x)))
        t.assume(x >= 0, x < (1 << kind.width))
    t.assume(x != JUNK)
    names = V.prog.find(fnrx)
    if len(names) != 1:
        raise Tool("closure operator not found: %s (%d)" % (fnrx, len(names)))
    n0 = len(t.facts)
    save = V.obligs
    V.obligs = []
    outs = V.call_function(t, names[0], [closure, PV(r, 0)])
    bad = [o for o in V.obligs if o.status != 'ok']
    V.obligs = save + bad
    if any(o.kind != 'ret' or not isinstance(o.val, B1) for o in outs) or not outs:
        raise Tool("predicate is not a simple expression")
    if len(outs) > 1:       # several exclusive paths
        paths = [(z3.And(*[f for f in o.st.facts[n0:]]) if len(o.st.facts) > n0 else z3.BoolVal(True), o.val.b) for o in outs]
        e = z3.Or(*[z3.And(p, b) for p, b in paths])
        side = z3.Or(*[p for p, _ in paths])
        return lambda v: z3.substitute(e, (x, v)), lambda v: z3.substitute(side, (x, v))
    e = outs[0].val.b
    side = z3.And(*[f for f in outs[0].st.facts[n0:]]) if len(outs[0].st.facts) > n0 else z3.BoolVal(True)
    # auxiliary symbols created during the evaluation are functions of x; the comparator result is cmpi(x,y), already one
    return lambda v: z3.substitute(e, (x, v)), lambda v: z3.substitute(side, (x, v))


class Partition(RangeC):
    sname = "partition"
    ncmp = 0
    predrx = r"^Pred::operator\(\)"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::partition<%s\*, Pred>\(" % re.escape(s.kind.cpp) if not getattr(s, 'lam', None) else s.lam

    def more(s, V, st, c):
        c.pred = PRED
        return [PV(V.new_region(st, "pred", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        if getattr(s, 'lam', None):
            p, side = eval_pred(V, st, s.kind, args[2], s.lamop)
            c.closure = args[2]
            v = z3.FreshInt("chk")
            c.chk = (v, p(v))
            c.pred = p
            V_ = z3.Int("v")
            cm = z3.substitute(side(V_), (V_, v))
            st.assume(cm)
        else:
            c.pred = PRED
        return c

    def frame(s, V, st, c):
        A1 = z3.FreshConst(ARR, "A")
        V.set_arr(st, c.reg, A1, 0, s.kind.size)
        if getattr(s, 'lam', None):
            # the predicate must not depend on what partition rearranges
            t = st.copy()
            A0 = c.A0
            t.assume(same_outside(A0, A1, c.lo, c.hi))
            p2, side = eval_pred(V, t, s.kind, c.closure, s.lamop)
            v, e = c.chk
            t.assume(side(v))
            V.oblige(t, "predicate does not depend on the rearranged elements", p2(v) == e, 'precondition')
        c.ret = z3.FreshInt("split")
        return P(c.reg, s.kind, c.ret)

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        return [("result is in the range", z3.And(c.lo <= r, r <= c.hi)),
                ("elements before the boundary satisfy the predicate", all_in(c.lo, r, A, lambda x: c.pred(x))),
                ("elements from the boundary on do not", all_in(r, c.hi, A, lambda x: z3.Not(c.pred(x))))] + s.perm_posts(V, old, new, c)

    def mkloops(s):
        def common(v, A):
            t = v.T
            out = [("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out

        def fin(v):
            t = v.T
            A = v.A(t.reg)
            f = v.idx('first')
            return [("in range", z3.And(t.lo <= f, f <= t.hi)), ("all before satisfy", all_in(t.lo, f, A, lambda x: t.pred(x)))]

        def down(v):
            t = v.T
            A = v.A(t.reg)
            lo, hi = v.idx('lo'), v.idx('hi')
            return [("in range", z3.And(t.lo <= lo, lo <= hi, hi < t.hi)),
                    ("lo is out of place", z3.Not(t.pred(A[lo]))),
                    ("all before lo satisfy", all_in(t.lo, lo, A, lambda x: t.pred(x))),
                    ("all after hi do not", all_in(hi + 1, t.hi, A, lambda x: z3.Not(t.pred(x))))] + common(v, A)

        def outer(v):
            t = v.T
            A = v.A(t.reg)
            lo, hi = v.idx('lo'), v.idx('hi')
            return [("in range", z3.And(t.lo <= lo, lo < hi, hi < t.hi)),
                    ("all up to lo satisfy", all_in(t.lo, lo + 1, A, lambda x: t.pred(x))),
                    ("all from hi do not", all_in(hi, t.hi, A, lambda x: z3.Not(t.pred(x))))] + common(v, A)

        def up(v):
            t = v.T
            A = v.A(t.reg)
            lo, hi = v.idx('lo'), v.idx('hi')
            return [("in range", z3.And(t.lo <= lo, lo < hi, hi < t.hi)),
                    ("all up to lo satisfy", all_in(t.lo, lo + 1, A, lambda x: t.pred(x))),
                    ("all from hi do not", all_in(hi, t.hi, A, lambda x: z3.Not(t.pred(x))))]

        def dn2(v):
            t = v.T
            A = v.A(t.reg)
            lo, hi = v.idx('lo'), v.idx('hi')
            return [("in range", z3.And(t.lo < lo, lo <= hi, hi < t.hi)),
                    ("all before lo satisfy", all_in(t.lo, lo, A, lambda x: t.pred(x))),
                    ("lo is out of place", z3.Not(t.pred(A[lo]))),
                    ("all from hi do not", all_in(hi, t.hi, A, lambda x: z3.Not(t.pred(x))))]
        rx = r"::partition<"
        return [LoopSpec(r"::find_if_not<", fin, variant=lambda v: v.T.hi - v.idx('first'), names=('first',), tag='find_if_not'),
                LoopSpec(rx, down, variant=lambda v: v.idx('hi'), names=('lo', 'hi'), nth=0, tag='partition trim'),
                LoopSpec(rx, outer, variant=lambda v: v.idx('hi') - v.idx('lo'), names=('lo', 'hi'), nth=1, tag='partition'),
                LoopSpec(rx, up, variant=lambda v: v.idx('hi') - v.idx('lo'), names=('lo', 'hi'), nth=2, tag='partition up'),
                LoopSpec(rx, dn2, variant=lambda v: v.idx('hi'), names=('lo', 'hi'), nth=3, tag='partition down')]


class PickPivot(RangeC):
    sname = "pick_qsort_pivot_median"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::pick_qsort_pivot_median<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        c.num = z3.FreshInt("num")
        return [IV(64, Lin.of(c.num)), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        c.num = V.as_u(st, args[2]).z()
        return c

    def pre(s, V, st, c):
        return RangeC.pre(s, V, st, c) + [("at least as many elements as median points", z3.And(2 <= c.num, c.num <= 64, c.num <= c.hi - c.lo))]

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            i = v.u('i')
            out = [("index", z3.And(1 <= i, i <= t.num)), ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out
        return [LoopSpec(r"::pick_qsort_pivot_median<", inv, variant=lambda v: v.T.num - v.u('i'), names=('i', 'step'), tag='pick_qsort_pivot_median')]

    def post(s, V, old, new, c, ret):
        return [("median points are sorted", sorted_in(c.lo, c.lo + c.num, V.arr(new, c.reg), s.le))] + s.perm_posts(V, old, new, c)


class MedianCount(Contract):
    name = "qsort_median_count"
    fn = r"pystd2026::qsort_median_count\("

    def setup(s, V, st):
        n, d = V.fresh_int(st, 64, "n"), V.fresh_int(st, 64, "d")
        V.ctx = Ctx(num=n.lin.z())
        return [n, d]

    def bind(s, V, st, args):
        return Ctx(num=V.as_u(st, args[0]).z())

    def frame(s, V, st, c):
        return V.fresh_int(st, 64, "median")

    def post(s, V, old, new, c, ret):
        r = V.as_u(new, ret).z()
        return [("odd and small", z3.And(r >= 3, r <= 21, r % 2 == 1)), ("at most a third of a range that is partitioned", z3.Implies(c.num >= 17, 3 * r <= c.num))]

    def allowed(s, V, c):
        return set()


class DoIntrosort(RangeC):
    sname = "do_introsort"
    recursive = True

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::do_introsort<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        c.lm = z3.FreshConst(z3.BoolSort(), "leftmost")
        c.depth, c.deg, c.maxr = [z3.FreshInt(n) for n in ("depth", "deg", "maxr")]
        for x in (c.depth, c.deg, c.maxr):
            st.assume(x >= 0, x < (1 << 63))
        st.assume(z3.Or(c.lm, c.lo >= 1))
        K = s.kind.K
        c.carry = [("sentinel bounds the range", c.reg, c.lo, c.hi, z3.Not(c.lm), lambda x: K(c.A0[c.lo - 1]) <= K(x))]
        if s.kind.cls:
            c.carry.append(("no moved-from element", c.reg, s.lowest(V, st, c), c.hi, c.lo < c.hi, lambda x: x != JUNK))
        return [B1(c.lm), IV(64, Lin.of(c.depth)), IV(64, Lin.of(c.deg)), IV(64, Lin.of(c.maxr)), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def lowest(s, V, st, c):
        return z3.If(c.lm, c.lo, c.lo - 1)

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        c.lm = args[2].b if isinstance(args[2], B1) else V.as_u(st, args[2]).z() != 0
        c.depth, c.deg, c.maxr = [V.as_u(st, a).z() for a in args[3:6]]
        if hasattr(V.ctx, 'lm'):
            V.oblige(st, "recursion of do_introsort terminates: the range shrinks", c.hi - c.lo < V.ctx.hi - V.ctx.lo, 'termination')
        return c

    def pre(s, V, st, c):
        out = RangeC.pre(s, V, st, c)
        A = V.arr(st, c.reg)
        K = s.kind.K
        out.append(("sentinel before a non-leftmost range", z3.Implies(z3.And(z3.Not(c.lm), c.lo < c.hi), all_in(c.lo, c.hi, A, lambda x: K(A[c.lo - 1]) <= K(x)))))
        if s.kind.cls:
            out.append(("sentinel is not moved from", z3.Implies(z3.And(z3.Not(c.lm), c.lo < c.hi), A[c.lo - 1] != JUNK)))
        return out

    def mkloops(s):
        K = s.kind.K

        def swaploop(v):
            t = v.T
            A, E = v.A(t.reg), v.entry.A(t.reg)
            i, h = v.u('i'), v.u('half_median')
            f, to = v.idx('from_loc'), v.idx('to_loc')
            out = [("index", z3.And(0 <= i, i <= h)),
                   ("swapped", z3.ForAll([_i], z3.And(z3.Implies(z3.And(f <= _i, _i < f + i), A[_i] == E[_i - f + to]), z3.Implies(z3.And(to <= _i, _i < to + i), A[_i] == E[_i - to + f])), patterns=[A[_i]])),
                   ("others unchanged", z3.ForAll([_i], z3.Implies(z3.Not(z3.Or(z3.And(f <= _i, _i < f + i), z3.And(to <= _i, _i < to + i))), A[_i] == E[_i]), patterns=[A[_i]])),
                   ("element count", CNT(A) == CNT(E))]
            return out + carried(v.V, v.st)

        def gobble(v):
            t = v.T
            A = v.A(t.reg)
            rb, sp, lv = v.idx('right_begin'), v.idx('split_point'), v.idx('last_value_point')
            return [("in range", z3.And(sp <= rb, rb <= t.hi)), ("equal to the pivot", all_in(sp, rb, A, lambda x: K(x) == K(A[lv]))),
                    ("left part is below the pivot", all_in(t.lo, lv, A, lambda x: K(x) <= K(A[lv]))),
                    ("right part is above the pivot", all_in(sp, t.hi, A, lambda x: K(x) >= K(A[lv])))] + carried(v.V, v.st)

        def pivots(v):
            t = v.T
            A = v.A(t.reg)
            rb, sp, lv = v.idx('right_begin'), v.idx('split_point'), v.idx('last_value_point')
            pv = A[lv]
            v.st.g['carry'] = (("left part is below the pivot", t.reg, t.lo, lv, z3.BoolVal(True), lambda x: K(x) <= K(pv)),
                               ("right part is above the pivot", t.reg, sp, t.hi, z3.BoolVal(True), lambda x: K(x) >= K(pv)),
                               ("equal run is equal to the pivot", t.reg, lv, rb, z3.BoolVal(True), lambda x: K(x) == K(pv)))
            return []
        return [LoopSpec(r"::do_introsort<", swaploop, variant=lambda v: v.u('half_median') - v.u('i'), names=('i', 'from_loc', 'to_loc'), tag='do_introsort swap', nth=0),
                LoopSpec(r"::do_introsort<", gobble, variant=lambda v: v.T.hi - v.idx('right_begin'), names=('right_begin', 'split_point'), nth=1, tag='do_introsort equal run', lemma=pivots)]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


class Introsort(RangeC):
    sname = "introsort"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::introsort<%s\*, CmpI?>\([^']*$" % re.escape(s.kind.cpp)

    def mkloops(s):
        return [ROUNDS]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)
