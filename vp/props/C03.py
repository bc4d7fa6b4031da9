"""Radix and bucket sort."""
import os
from task import Task
from specs.radix import *
from build import HERE

WIDTHS = (8, 16, 32, 64)


def modules():
    return [(os.path.join(HERE, "harness/ints.cpp"), "ints")]


def tasks(tier):
    out = []
    for w in WIDTHS:
        k = ikind(w)
        me, rl, hs, iz = [defcmp(c)(k) if c is not RotateLast else c(k) for c in (MinElement, RotateLast, HasSentinel, InsertionSort)]
        pa, top = Partition(k), InsertionDefault(k)
        for c, u in [(me, []), (rl, []), (hs, []), (iz, [me, rl, hs]), (pa, []), (top, [iz])]:
            out.append(Task(c, uses=u, config=conf(k)))
        ib, pb, anyr = InsertionBV(k), PartitionBV(k), DoRadix(k)
        for r in range(w + 1):
            out.append(Task(DoRadix(k, r), uses=[ib, pb, anyr], config=bvconf))
        out.append(Task(Radix(k), uses=[ib, anyr], config=bvconf))
    return out


def hunts(tier):
    return [dict(name="ints", src="ints.cpp", secs=8, functions=["bucketsort", "do_bucketsort", "radix_sort(Span)"],
                 bound="twelve value patterns for every length to 79 and selected lengths to 66000, all widths, then random for the stated seconds")]


NOTE = ("Proved for every range of 8, 16, 32 and 64 bit integers: radix_sort and do_radix_sort (every round separately, recursion by contract), the insertion sort with the default comparator and the partition they use. "
        "bucketsort and the Span overload are bounded stand-ins (executable oracle), not proved.")
