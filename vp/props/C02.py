"""Stability of insertion_sort, mergesort, indirect_stable_sort."""
import os
from task import Task
from specs.sorts import *
from build import HERE


def modules():
    return [(os.path.join(HERE, "harness/sorts.cpp"), "sorts")]


def tasks(tier):
    out = []
    for k in (ELEM, U64C):
        me, rl = MinElement(k), RotateLast(k)
        hs, iz = HasSentinel(k, stable=True), InsertionSort(k, stable=True)
        for c, u in [(me, []), (rl, []), (hs, []), (iz, [me, rl, hs])]:
            out.append(Task(c, uses=u, config=conf(k)))
    return out


def hunts(tier):
    return [dict(name="stable", src="sorts.cpp", secs=15, defs=["STABLE"], functions=["mergesort", "indirect_stable_sort", "their merge helpers"],
                 bound="all key sequences over 8 values to length 4 and over 3 values to length 6, all lengths to 400, random inputs to length 9000 for the stated seconds")]


NOTE = ("Proved for every range, comparator and element type: insertion_sort (and its helpers, with a ghost giving each element's original position). "
        "mergesort and indirect_stable_sort are bounded stand-ins, not proved.")
