"""Overloads without a comparator and on spans: the wrapper of the harness calls the overload, which is inlined down to
the function with the comparator; that one enters by its contract, which is discharged for DefaultComparator as well."""
from specs.algos import *
from specs.radix import defcmp, ikind

U = ikind(64)


def over(cls, fname, drop=True):
    """the contract of cls for the wrapper fname; drop: the wrapper takes no comparator"""
    class O(cls):
        fn = r"^%s\(" % fname
        sname = fname
        lam = None
        recursive = False

        def mkloops(s):
            return []

        def more(s, V, st, c):
            a = cls.more(s, V, st, c)
            return a[:-1] if drop else a
    O.__name__ = cls.__name__
    return O(U)


def D(cls):
    return defcmp(cls)(U)


def lam(outer):
    p = Partition(U)
    p.lam = r"^[\w\s*&]*pystd2026::partition<%s\*, (?!Pred)" % re.escape(U.cpp)
    p.lamop = outer + r"<%s\*, pystd2026::DefaultComparator<%s>\s*>\(.*'lambda'.*const&\)::operator\(\)" % (re.escape(U.cpp), re.escape(U.cpp))
    return p


def sorting():
    me, hs, iz, rl = D(MinElement), D(HasSentinel), D(InsertionSort), RotateLast(U)
    hf, bh, hp = D(Heapify), D(BuildHeap), D(Heapsort)
    pp, di, it = D(PickPivot), D(DoIntrosort), D(Introsort)
    mc = MedianCount()
    out = [(me, [], 1), (hs, [], 2), (iz, [me, rl, hs], 2), (hf, [], 3), (bh, [hf], 1), (hp, [hf, bh, iz], 3), (pp, [iz], 3),
           (di, [mc, pp, lam("do_introsort"), iz, hs, hp], 100), (it, [di, iz], 2)]
    sp, ss = D(ShellPass), D(ShellSort)
    out += [(sp, [], 3), (ss, [iz, me, hs, sp], 50), (over(ShellSort, "ov_shell"), [ss], 1)]
    for c, n, f in ((InsertionSort, "insertion", iz), (Heapsort, "heapsort", hp), (Introsort, "introsort", it)):
        out += [(over(c, "ov_" + n), [f], 1), (over(c, "ov_%s_span" % n), [f], 1)]
    return out


def selecting():
    me, hs, iz, rl, mx = D(MinElement), D(HasSentinel), D(InsertionSort), RotateLast(U), D(MaxElement)
    hf, bh = D(Heapify), D(BuildHeap)
    nh, ne, it, ps = D(NthHeap), D(NthElement), D(Introsort), D(PartialSort)
    return [(me, [], 1), (mx, [], 1), (hs, [], 2), (iz, [me, rl, hs], 2), (hf, [], 3), (bh, [hf], 1), (nh, [hf, bh, mx], 3),
            (ne, [iz, nh, lam("nth_element")], 5), (ps, [ne, it], 2),
            (over(MinElement, "ov_min"), [me], 1), (over(NthHeap, "ov_nth"), [nh], 1), (over(PartialSort, "ov_partial"), [ps], 1),
            (over(NthElement, "ov_nth_span", False), [NthElement(U)], 1)]


def searching():
    lb = D(LowerBound)
    return [(lb, [], 1), (over(LowerBound, "ov_lower"), [lb], 1)]


def moving():
    return [(over(Partition, "ov_partition_span", False), [Partition(U)], 1), (over(Rotate, "ov_rotate_span", False), [Rotate(U)], 1)]


def tasks(l, Task):
    out = []
    for c, u, cost in l:
        t = Task(c, uses=u, config=conf(U), budget=600 if cost > 50 else 300)
        t.cost = cost
        out.append(t)
    return out
