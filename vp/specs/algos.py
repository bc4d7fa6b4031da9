"""Contracts of the searching, selecting and rearranging algorithms (C04, C05, C06)."""
from specs.sorts import *
from specs.ranges import _i, _j

PT = r"^[\w\s*&]*pystd2026::"


class LowerBound(RangeC):
    sname = "lower_bound"
    writes = False

    @property
    def fn(s):
        return PT + r"lower_bound<(%s)\*, \1, CmpI?>\(" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        r = V.new_region(st, "value", s.kind.size, 'ext')
        c.val = z3.FreshInt("value")
        if s.kind.cls:
            V.put_cell(st, r, 0, s.kind.size, EV(s.kind.cls, c.val))
            st.assume(c.val != JUNK)
        else:
            st.assume(c.val >= 0, c.val < (1 << s.kind.width))
            V.put_cell(st, r, 0, s.kind.size, IV(s.kind.width, Lin.of(c.val)))
        st.wlog.clear()
        return [PV(r, 0), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def pre(s, V, st, c):
        return RangeC.pre(s, V, st, c) + [("range is sorted", sorted_in(c.lo, c.hi, V.arr(st, c.reg), s.kle))]

    def fresh_ret(s, V, st, c):
        return P(c.reg, s.kind, z3.FreshInt("found"))

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        if s.kind.cls:
            raise Tool("lower_bound of an opaque class by contract")
        c.val = V.as_u(st, V.load(st, args[2], ir.Ty('int', w=s.kind.width, size=s.kind.size), None)).z()
        return c

    def mkloops(s):
        K = s.kind.K

        def inv(v):
            t = v.T
            A = v.A(t.reg)
            f, n, it = v.idx('first'), v.s_('count'), v.idx('it')
            return [("remaining part in range", z3.And(t.lo <= f, n >= 0, f + n <= t.hi)),
                    ("everything before is less", all_in(t.lo, f, A, lambda x: K(x) < K(t.val))),
                    ("everything after is not less", all_in(f + n, t.hi, A, lambda x: K(x) >= K(t.val))),
                    ("result follows the remaining part", z3.Or(n > 0, it == f))]
        return [LoopSpec(r"::lower_bound<", inv, variant=lambda v: v.s_('count'), names=('first', 'count', 'it'), tag='lower_bound')]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        K = s.kind.K
        return [("result is in the range or its end", z3.And(c.lo <= r, r <= c.hi)),
                ("every earlier element is less than the value", all_in(c.lo, r, A, lambda x: K(x) < K(c.val))),
                ("no element from the result on is less", all_in(r, c.hi, A, lambda x: K(x) >= K(c.val)))]


class FindIf(RangeC):
    sname = "find_if"
    writes = False
    ncmp = 0
    neg = False

    @property
    def fn(s):
        return PT + r"%s<%s\*, Pred>\(" % (s.sname, re.escape(s.kind.cpp))

    def more(s, V, st, c):
        return [PV(V.new_region(st, "pred", 1, 'ext'), 0)]

    def hit(s, x):
        return z3.Not(PRED(x)) if s.neg else PRED(x)

    def mkloops(s):
        def inv(v):
            t = v.T
            f = v.idx('first')
            return [("position in range", z3.And(t.lo <= f, f <= t.hi)),
                    ("no match so far", all_in(t.lo, f, v.A(t.reg), lambda x: z3.Not(s.hit(x))))]
        return [LoopSpec(r"::%s<" % s.sname, inv, variant=lambda v: v.T.hi - v.idx('first'), names=('first',), tag=s.sname)]

    def fresh_ret(s, V, st, c):
        return P(c.reg, s.kind, z3.FreshInt("found"))

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        return [("result is in the range or its end", z3.And(c.lo <= r, r <= c.hi)),
                ("nothing before the result matches", all_in(c.lo, r, A, lambda x: z3.Not(s.hit(x)))),
                ("the result matches unless it is the end", z3.Implies(r < c.hi, s.hit(A[r])))]


class FindIf2(FindIf):
    """the overload for a begin and an end of different types"""
    @property
    def fn(s):
        return PT + r"find_if<(%s)\*, \1\*, Pred>\(" % re.escape(s.kind.cpp)

    def __init__(s, kind=ELEM, **kw):
        FindIf.__init__(s, kind, **kw)
        s.name = "find_if(begin,end,callable)<%s>" % kind.name

    def mkloops(s):
        def inv(v):
            t = v.T
            f = v.idx('start')
            return [("position in range", z3.And(t.lo <= f, f <= t.hi)),
                    ("no match so far", all_in(t.lo, f, v.A(t.reg), lambda x: z3.Not(s.hit(x))))]
        return [LoopSpec(r"::find_if<", inv, variant=lambda v: v.T.hi - v.idx('start'), names=('start',), tag='find_if')]


class FindIfNot(FindIf):
    sname = "find_if_not"
    neg = True


class Find(RangeC):
    """find(begin, end, value): equality of the opaque class is equality of keys"""
    sname = "find"
    writes = False
    ncmp = 0

    @property
    def fn(s):
        return PT + r"find<(%s)\*, \1\*, \1>\(" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        c.val = z3.FreshInt("value")
        if s.kind.cls:
            r = V.new_region(st, "value", s.kind.size, 'ext')
            V.put_cell(st, r, 0, s.kind.size, EV(s.kind.cls, c.val))
            st.assume(c.val != JUNK)
            st.wlog.clear()
            return [PV(r, 0)]
        st.assume(c.val >= 0, c.val < (1 << s.kind.width))
        return [IV(s.kind.width, Lin.of(c.val))]

    def same(s, x, c):
        return KEY(x) == KEY(c.val) if s.kind.cls else x == c.val

    def mkloops(s):
        def inv(v):
            t = v.T
            f = v.idx('start')
            return [("position in range", z3.And(t.lo <= f, f <= t.hi)),
                    ("no match so far", all_in(t.lo, f, v.A(t.reg), lambda x: z3.Not(s.same(x, t))))]
        return [LoopSpec(r"::find<", inv, variant=lambda v: v.T.hi - v.idx('start'), names=('start',), tag='find')]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        return [("result is in the range or its end", z3.And(c.lo <= r, r <= c.hi)),
                ("nothing before the result is equal", all_in(c.lo, r, A, lambda x: z3.Not(s.same(x, c)))),
                ("the result is equal unless it is the end", z3.Implies(r < c.hi, s.same(A[r], c)))]


class IsSorted(RangeC):
    sname = "is_sorted"
    writes = False

    @property
    def fn(s):
        return PT + r"is_sorted<(%s\*), \1, CmpI?>\(" % re.escape(s.kind.cpp)

    def mkloops(s):
        K = s.kind.K

        def inv(v):
            t = v.T
            i, p = v.idx('i'), v.idx('previous')
            A = v.A(t.reg)
            return [("position in range", z3.And(t.lo < i, i <= t.hi, p == i - 1)),
                    ("neighbours are ordered so far", z3.ForAll([_i], z3.Implies(z3.And(t.lo <= _i, _i + 1 < i), K(A[_i]) <= K(A[_i + 1])), patterns=[A[_i]])),
                    ("the prefix is sorted", sorted_in(t.lo, i, A, s.kle))]
        return [LoopSpec(r"::is_sorted<", inv, variant=lambda v: v.T.hi - v.idx('i'), names=('i', 'previous'), tag='is_sorted')]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        b = V.as_u(new, ret).z() != 0 if not isinstance(ret, B1) else ret.b
        w = z3.FreshInt("w")
        K = s.kind.K
        return [("true only for a sorted range", z3.Implies(b, sorted_in(c.lo, c.hi, A, s.kle))),
                ("false only for an unsorted range", z3.Implies(z3.And(c.lo <= c.hi, sorted_in(c.lo, c.hi, A, s.kle)), b))]


class Rotate(RangeC):
    sname = "rotate"
    ncmp = 0
    recursive = True
    arge = 2

    @property
    def fn(s):
        return PT + r"rotate<%s\*>\(" % re.escape(s.kind.cpp)

    def setup(s, V, st):
        a = RangeC.setup(s, V, st)
        c = V.ctx
        c.mid = z3.FreshInt("mid")
        st.assume(c.lo <= c.mid, c.mid <= c.hi)
        return [a[0], P(c.reg, s.kind, c.mid), a[1]]

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        c.mid = V.pidx(st, args[1])
        if isinstance(V.old, State) and getattr(V.ctx, 'isrotate', False) and re.search(s.fn, st.frames[-1].fn.dem):
            V.oblige(st, "recursion of rotate terminates: the range shrinks", c.hi - c.lo < V.ctx.hi - V.ctx.lo, 'termination')
        return c

    def pre(s, V, st, c):
        c.isrotate = True
        return RangeC.pre(s, V, st, c) + [("middle inside the range", z3.And(c.lo <= c.mid, c.mid <= c.hi))]

    def fresh_ret(s, V, st, c):
        return P(c.reg, s.kind, c.lo + c.hi - c.mid)

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            i, n = v.s_('i'), v.s_('NUM_SWAPS')
            m = t.mid
            out = [("index", z3.And(0 <= i, i <= n)),
                   ("swapped blocks", z3.ForAll([_i], z3.And(z3.Implies(z3.And(t.lo <= _i, _i < t.lo + i), A[_i] == t.A0[_i - t.lo + m]), z3.Implies(z3.And(m <= _i, _i < m + i), A[_i] == t.A0[_i - m + t.lo])), patterns=[A[_i]])),
                   ("others unchanged", z3.ForAll([_i], z3.Implies(z3.Not(z3.Or(z3.And(t.lo <= _i, _i < t.lo + i), z3.And(m <= _i, _i < m + i))), A[_i] == t.A0[_i]), patterns=[A[_i]])),
                   ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out
        return [LoopSpec(r"::rotate<", inv, variant=lambda v: v.s_('NUM_SWAPS') - v.s_('i'), names=('i', 'NUM_SWAPS'), tag='rotate')]

    def post(s, V, old, new, c, ret):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        L, R = c.mid - c.lo, c.hi - c.mid
        r = V.pidx(new, ret)
        return [("result is the new position of the old first element", r == c.lo + R),
                ("right part comes first", z3.ForAll([_i], z3.Implies(z3.And(c.lo <= _i, _i < c.lo + R), A1[_i] == A0[_i + L]), patterns=[A1[_i]])),
                ("left part follows", z3.ForAll([_i], z3.Implies(z3.And(c.lo + R <= _i, _i < c.hi), A1[_i] == A0[_i - R]), patterns=[A1[_i]]))] + s.perm_posts(V, old, new, c)

    def assume_extra(s, V, old, new, c, ret):
        return []


class StablePartition(RangeC):
    """stability: the elements' original positions (ghost) increase in the range before the call"""
    sname = "stable_partition"
    ncmp = 0

    def __init__(s, kind=ELEM, **kw):
        RangeC.__init__(s, kind, True)

    @property
    def fn(s):
        return PT + r"stable_partition<%s\*, Pred>\(" % re.escape(s.kind.cpp)

    def more(s, V, st, c):
        return [PV(V.new_region(st, "pred", 1, 'ext'), 0)]

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            b, p = v.idx('segment_begin'), v.idx('scan_point')
            o = lambda x, y: ORIG(x) < ORIG(y)
            out = [("positions in range", z3.And(t.lo <= b, b <= p, p <= t.hi)),
                   ("prefix satisfies the predicate", all_in(t.lo, b, A, lambda x: PRED(x))),
                   ("middle does not", all_in(b, p, A, lambda x: z3.Not(PRED(x)))),
                   ("prefix in original order", pairs(lambda i, j: z3.And(t.lo <= i, j < b), A, o)),
                   ("middle in original order", pairs(lambda i, j: z3.And(b <= i, j < p), A, o)),
                   ("processed part precedes the rest", pairs(lambda i, j: z3.And(t.lo <= i, i < p, p <= j, j < t.hi), A, o)),
                   ("rest in original order", pairs(lambda i, j: z3.And(p <= i, j < t.hi), A, o)),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out
        return [LoopSpec(r"::stable_partition<", inv, variant=lambda v: v.T.hi - v.idx('scan_point'), names=('segment_begin', 'scan_point'), tag='stable_partition')]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        o = lambda x, y: ORIG(x) < ORIG(y)
        return [("result is in the range", z3.And(c.lo <= r, r <= c.hi)),
                ("elements before the boundary satisfy the predicate", all_in(c.lo, r, A, lambda x: PRED(x))),
                ("elements from the boundary on do not", all_in(r, c.hi, A, lambda x: z3.Not(PRED(x)))),
                ("satisfying elements keep their order", pairs(lambda i, j: z3.And(c.lo <= i, j < r), A, o)),
                ("other elements keep their order", pairs(lambda i, j: z3.And(r <= i, j < c.hi), A, o))] + s.perm_posts(V, old, new, c)


class NthBase(RangeC):
    def more(s, V, st, c):
        c.nth = z3.FreshInt("nth")
        st.assume(c.nth >= 0, c.nth < (1 << 64))
        return [IV(64, Lin.of(c.nth)), PV(V.new_region(st, "cmp", 1, 'ext'), 0)]

    def bind(s, V, st, args):
        c = RangeC.bind(s, V, st, args)
        c.nth = V.as_u(st, args[2]).z()
        return c

    def fresh_ret(s, V, st, c):
        return P(c.reg, s.kind, c.lo + c.nth)

    throws = True

    def post_throw(s, V, old, new, c):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        return [("error only for an out-of-range position", c.nth >= c.hi - c.lo), ("nothing changed", A1 == A0)]

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        K = s.kind.K
        return [("position is in range", c.nth < c.hi - c.lo),
                ("result is position n", r == c.lo + c.nth),
                ("no larger element before", all_in(c.lo, r, A, lambda x: K(x) <= K(A[r]))),
                ("no smaller element after", all_in(r, c.hi, A, lambda x: K(x) >= K(A[r])))] + s.perm_posts(V, old, new, c)


class NthHeap(NthBase):
    sname = "nth_element_heap"

    @property
    def fn(s):
        return PT + r"nth_element_heap<%s\*, CmpI?>\(" % re.escape(s.kind.cpp)

    def mkloops(s):
        K = s.kind.K

        def inv(v):
            t = v.T
            A = v.A(t.reg)
            it = v.idx('it')
            m = t.lo + t.nth + 1
            out = [("position in range", z3.And(m <= it, it <= t.hi)),
                   ("heap property of the small heap", heap_prop(A, t.lo, m, t.lo, K)),
                   ("scanned elements are not below the root", all_in(m, it, A, lambda x: K(x) >= K(A[t.lo]))),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out

        def lemma(v):
            t = v.T
            return root_max(v.V, v.st, v.A(t.reg), t.lo, t.lo + t.nth + 1, K)
        return [LoopSpec(r"::nth_element_heap<", inv, variant=lambda v: v.T.hi - v.idx('it'), names=('it',), tag='nth_element_heap', lemma=lemma)]


class NthElement(NthBase):
    sname = "nth_element"

    @property
    def fn(s):
        return PT + r"nth_element<%s\*, CmpI?>\(" % re.escape(s.kind.cpp)

    def mkloops(s):
        K = s.kind.K

        def inv(v):
            t = v.T
            A = v.A(t.reg)
            b, e, n = v.idx('begin'), v.idx('end'), v.u('nth')
            out = [("remaining part in range", z3.And(t.lo <= b, e <= t.hi, b + n == t.lo + t.nth, n < e - b)),
                   ("nothing before is larger", pairs(lambda i, j: z3.And(t.lo <= i, i < b, b <= j, j < t.hi), A, s.kle)),
                   ("nothing after is smaller", pairs(lambda i, j: z3.And(t.lo <= i, i < e, e <= j, j < t.hi), A, s.kle)),
                   ("rounds", v.u('round') >= 0),
                   ("nothing outside the range changes", same_outside(t.A0, A, t.lo, t.hi)), ("element count", CNT(A) == CNT(t.A0))]
            if s.kind.cls:
                out.append(("no moved-from element", nojunk(t.lo, t.hi, A)))
            return out
        return [ROUNDS, LoopSpec(r"::nth_element<", inv, variant=lambda v: v.idx('end') - v.idx('begin'), names=('begin', 'end', 'nth', 'round', 'scratch'), tag='nth_element')]


class PartialSort(NthBase):
    sname = "partial_sort"

    @property
    def fn(s):
        return PT + r"partial_sort<%s\*, CmpI?>\(" % re.escape(s.kind.cpp)

    def post(s, V, old, new, c, ret):
        return NthBase.post(s, V, old, new, c, ret) + [("everything before position n is sorted", sorted_in(c.lo, c.lo + c.nth, V.arr(new, c.reg), s.kle))]


def nth_partition(k):
    pl = Partition(k)
    pl.lam = r"^[\w\s*&]*pystd2026::partition<%s\*, (?!Pred)" % re.escape(k.cpp)
    pl.lamop = r"nth_element<%s\*, CmpI?>\(.*'lambda'.*const&\)::operator\(\)" % re.escape(k.cpp)
    return pl
