"""Comparison sorts."""
import os, re
from task import Task
from specs.sorts import *
from build import HERE
from specs import overloads


def modules():
    return [(os.path.join(HERE, "harness/sorts.cpp"), "sorts")]


def tasks(tier):
    out = []
    for k in (ELEM, U64C):
        me, rl, hs, iz = MinElement(k), RotateLast(k), HasSentinel(k), InsertionSort(k)
        hf, bh, hp = Heapify(k), BuildHeap(k), Heapsort(k)
        pa, pl = Partition(k), Partition(k)
        pl.lam = r"^[\w\s*&]*pystd2026::partition<%s\*, (?!Pred)" % (re.escape(k.cpp))
        pl.lamop = r"do_introsort<%s\*, CmpI?>\(.*'lambda'.*::operator\(\)" % re.escape(k.cpp)
        pp, di, it = PickPivot(k), DoIntrosort(k), Introsort(k)
        ts = [(me, [], 1), (rl, [], 1), (hs, [], 2), (iz, [me, rl, hs], 2), (hf, [], 3), (bh, [hf], 1), (hp, [hf, bh, iz], 3), (pa, [], 3), (pp, [iz], 3), (MedianCount(), [], 1), (di, [MedianCount(), pp, pl, iz, hs, hp], 100), (it, [di, iz], 2), (ShellPass(k), [], 3), (ShellSort(k), [iz, me, hs, ShellPass(k)], 5)]
        for c, u, cost in ts:
            t = Task(c, uses=u, config=conf(k), budget=600 if cost > 50 else 300)
            t.cost = cost
            out.append(t)
    return out + overloads.tasks(overloads.sorting(), Task)


def hunts(tier):
    return [dict(name="sorts", src="sorts.cpp", secs=15,
                 functions=["mergesort", "merge_with_block_size", "merge_pass", "merge_preprocess", "indirect_sort", "default-comparator and Span overloads on other element types"],
                 bound="all key sequences over 8 values to length 4 and over 3 values to length 6, all lengths to 400, adversarial comparators, random inputs to length 9000 for the stated seconds")]


NOTE = ("Proved for every input, element type and consistent comparator: insertion_sort, heapsort, introsort, shell_sort (gap passes, gap computation in double arithmetic, final sentinel insertion) and all their helpers; the same once more for DefaultComparator on 64 bit integers, with the overloads without comparator and on Span. "
        "mergesort and indirect_sort are bounded stand-ins (executable oracle), not proved.")
