"""nth_element, partial_sort, min_element, max_element."""
import os
from task import Task
from specs.algos import *
from build import HERE
from specs import overloads


def modules():
    return [(os.path.join(HERE, "harness/algos.cpp"), "algos")]


def tasks(tier):
    out = []
    for k in (ELEM, U64C):
        me, mx, rl, hs, iz = MinElement(k), MaxElement(k), RotateLast(k), HasSentinel(k), InsertionSort(k)
        hf, bh, hp = Heapify(k), BuildHeap(k), Heapsort(k)
        pl = nth_partition(k)
        nh, ne = NthHeap(k), NthElement(k)
        it = Introsort(k)
        for c, u in [(ne, [iz, nh, pl]), (nh, [hf, bh, mx]), (PartialSort(k), [ne, it]), (mx, []), (me, []), (pl2(k), []), (hf, []), (bh, [hf]), (rl, []), (hs, []), (iz, [me, rl, hs])]:
            out.append(Task(c, uses=u, config=conf(k)))
    return out + overloads.tasks(overloads.selecting(), Task)


def pl2(k):
    return Partition(k)


def hunts(tier):
    return [dict(name="select", src="select.cpp", secs=12, functions=["overloads on other element types"],
                 bound="all key sequences over 4 values to length 6 and every n, random ranges to length 3000 for the stated seconds")]


ASSUME = ["introsort is used by its contract, which C01 discharges"]
NOTE = ("Proved for every range, comparator and element type: nth_element, nth_element_heap, partial_sort, min_element, max_element and the helpers they call "
        "(insertion sort, heap construction, partition); introsort enters partial_sort by its contract, whose obligations are discharged by check C01. "
        "The overloads without comparator and the Span overload of nth_element are proved for 64 bit integers, with every helper once more under DefaultComparator.")
