"""Contracts of radix_sort (C03).  Range contents are arrays of bit vectors here."""
import re
import z3
from specs.sorts import *
from specs.ranges import _i, _j

CPP = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long"}


def ikind(w):
    return Kind("uint%d" % w, w // 8, width=w, cppname=CPP[w], key=lambda v: v)


def defcmp(cls):
    """the same contract for the default comparator"""
    class D(cls):
        @property
        def fn(s):
            f = cls.fn.fget(s)
            return f.replace("CmpI?", r"pystd2026::DefaultComparator<%s>" % re.escape(s.kind.cpp))
    D.__name__ = cls.__name__
    return D


class InsertionDefault(RangeC):
    """insertion_sort(begin, end)"""
    sname = "insertion_sort(default comparator)"
    ncmp = 0

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::insertion_sort<(%s\*), \1>\([^']*$" % re.escape(s.kind.cpp)

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


# ---------------------------------------------------------------- bit vector view
def AS(w):
    return z3.ArraySort(ISORT, z3.BitVecSort(w))


def CNTB(A):
    return z3.Function("cntb%d" % A.sort().range().size(), A.sort(), ISORT)(A)


class BVC(RangeC):
    ncmp = 0

    def setup(s, V, st):
        w = s.kind.width
        n = z3.FreshInt("n")
        st.assume(n >= 0, n < (1 << 40))
        r = V.new_region(st, "A", Lin.of(n).scale(s.kind.size), 'ext', 'arr', s.kind.size)
        rs = st.wrs(r)
        A = z3.FreshConst(AS(w), "A")
        rs.arrs[(0, s.kind.size)] = A
        rs.ety[(0, s.kind.size)] = ('bv', w)
        lo, hi = z3.FreshInt("lo"), z3.FreshInt("hi")
        st.assume(0 <= lo, lo <= hi, hi <= n)
        c = Ctx(reg=r, n=n, lo=lo, hi=hi, A0=A, kind=s.kind, le=s.le)
        V.ctx = c
        args = [P(r, s.kind, lo), P(r, s.kind, hi)] + s.more(V, st, c)
        sz = s.kind.size
        st.win[r.id] = (lo * sz, hi * sz)
        return args

    def more(s, V, st, c):
        return []

    def le(s, a, b):
        return z3.ULE(a, b)

    def frame(s, V, st, c):
        A1 = z3.FreshConst(AS(s.kind.width), "A")
        V.set_arr(st, c.reg, A1, 0, s.kind.size)
        return s.fresh_ret(V, st, c)

    def perm_posts(s, V, old, new, c):
        A0, A1 = V.arr(old, c.reg), V.arr(new, c.reg)
        return [("nothing outside the range changes", same_outside(A0, A1, c.lo, c.hi)),
                ("same multiset of elements", CNTB(A1) == CNTB(A0))]


class InsertionBV(BVC, InsertionDefault):
    sname = "insertion_sort(default comparator, bit vectors)"
    fn = InsertionDefault.fn

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


def eval_pred_bv(V, st, kind, closure, fnrx):
    x = z3.FreshConst(z3.BitVecSort(kind.width), "pv")
    t = st.copy()
    r = V.new_region(t, "pv", kind.size, 'ext')
    t.wrs(r).cells[0] = (kind.size, BVV(kind.width, x))
    names = V.prog.find(fnrx)
    if len(names) != 1:
        raise Tool("closure operator not found: %s (%d)" % (fnrx, len(names)))
    n0 = len(t.facts)
    save = V.obligs
    V.obligs = []
    outs = V.call_function(t, names[0], [closure, PV(r, 0)])
    bad = [o for o in V.obligs if o.status != 'ok']
    V.obligs = save + bad
    if len(outs) != 1 or outs[0].kind != 'ret' or not isinstance(outs[0].val, B1):
        raise Tool("predicate is not a simple expression")
    e = outs[0].val.b
    side = outs[0].st.facts[n0:]
    if side:
        raise Tool("predicate has side conditions: %s" % side)
    return lambda v: z3.substitute(e, (x, v))


class PartitionBV(BVC):
    sname = "partition(lambda, bit vectors)"

    def __init__(s, kind):
        BVC.__init__(s, kind)

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::partition<%s\*, (?!Pred)" % re.escape(s.kind.cpp)

    @property
    def lamop(s):
        return r"do_radix_sort<%s, .*'lambda'.*::operator\(\)" % re.escape(s.kind.cpp)

    def bind(s, V, st, args):
        c = BVC.bind(s, V, st, args)
        c.pred = eval_pred_bv(V, st, s.kind, args[2], s.lamop)
        return c

    def fresh_ret(s, V, st, c):
        c.ret = z3.FreshInt("split")
        return P(c.reg, s.kind, c.ret)

    def post(s, V, old, new, c, ret):
        A = V.arr(new, c.reg)
        r = V.pidx(new, ret)
        return [("result is in the range", z3.And(c.lo <= r, r <= c.hi)),
                ("elements before the boundary satisfy the predicate", all_in(c.lo, r, A, lambda x: c.pred(x))),
                ("elements from the boundary on do not", all_in(r, c.hi, A, lambda x: z3.Not(c.pred(x))))] + s.perm_posts(V, old, new, c)


class DoRadix(BVC):
    """one round, given that all elements agree on the bits above it and on the bits outside the mask"""
    recursive = True

    def __init__(s, kind, rnd=None):
        s.rnd = rnd
        s.sname = "do_radix_sort" + ("" if rnd is None else "[round %d]" % rnd)
        BVC.__init__(s, kind)

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::do_radix_sort<%s, %s\*>\([^']*$" % (re.escape(s.kind.cpp), re.escape(s.kind.cpp))

    def more(s, V, st, c):
        w = s.kind.width
        m = z3.FreshConst(z3.BitVecSort(w), "mask")
        c.mask, c.rnd = m, s.rnd
        return [BVV(w, m), IV(64, s.rnd)]

    def bind(s, V, st, args):
        c = BVC.bind(s, V, st, args)
        c.mask = V.to_bv(st, args[2], s.kind.width)
        c.rnd = args[3].const if isinstance(args[3], IV) else None
        if c.rnd is None:
            raise Tool("round is not constant")
        if hasattr(V.ctx, 'rnd') and V.ctx.rnd is not None:
            V.oblige(st, "recursion of do_radix_sort terminates: the round grows", z3.BoolVal(c.rnd > V.ctx.rnd), 'termination')
        return c

    def known(s, c):
        """bits known to agree"""
        w = s.kind.width
        high = ((1 << w) - 1) & ~((1 << (w - min(c.rnd, w))) - 1)
        return ~c.mask | z3.BitVecVal(high, w)

    def pre(s, V, st, c):
        A = V.arr(st, c.reg)
        k = s.known(c)
        return RangeC.pre(s, V, st, c) + [("the round is not past the last bit", z3.BoolVal(0 <= c.rnd <= s.kind.width)),
                                          ("all elements agree on the bits already processed and outside the mask",
                                           all_in(c.lo, c.hi, A, lambda x: x & k == z3.Select(A, c.lo) & k))]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


class Radix(BVC):
    sname = "radix_sort"

    @property
    def fn(s):
        return r"^[\w\s*&]*pystd2026::radix_sort<%s\*>\([^']*$" % re.escape(s.kind.cpp)

    def mkloops(s):
        def inv(v):
            t = v.T
            A = v.A(t.reg)
            it = v.idx('it')
            w = s.kind.width
            one, zero = v.V.to_bv(v.st, v.val('one_bits'), w), v.V.to_bv(v.st, v.val('zero_bits'), w)
            return [("position in range", z3.And(t.lo <= it, it <= t.hi)),
                    ("every one bit is recorded", all_in(t.lo, it, A, lambda x: x & ~one == 0)),
                    ("every zero bit is recorded", all_in(t.lo, it, A, lambda x: ~x & ~zero == 0))]
        return [LoopSpec(r"::radix_sort<", inv, variant=lambda v: v.T.hi - v.idx('it'), names=('it', 'one_bits', 'zero_bits'), tag='radix_sort')]

    def post(s, V, old, new, c, ret):
        return s.sorted_post(V, new, c) + s.perm_posts(V, old, new, c)


def bvconf(V):
    V.assumptions.add("in the bit vector view of a range, 'same multiset' is an uninterpreted count per array; insertion_sort and partition are proved in the integer view (this check, C04) and used here in the bit vector view of the same memory")
