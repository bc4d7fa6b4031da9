"""partition, stable_partition, rotate."""
import os
from task import Task
from specs.algos import *
from build import HERE
from specs import overloads


def modules():
    return [(os.path.join(HERE, "harness/algos.cpp"), "algos")]


def tasks(tier):
    out = []
    for k in (ELEM, U64C):
        fi, fn, ro, pa = FindIf(k), FindIfNot(k), Rotate(k), Partition(k)
        rl, rf = RotateLast(k), RotateFirst(k)
        for c, u in [(fi, []), (fn, []), (ro, []), (StablePartition(k), [fi, fn, ro]), (pa, []), (rl, []), (rf, [])]:
            out.append(Task(c, uses=u, config=conf(k)))
    return out + overloads.tasks(overloads.moving(), Task)


def hunts(tier):
    return [dict(name="rearr", src="rearr.cpp", secs=12, functions=["stable_partition", "partition", "rotate_first_to_back", "rotate_last_to_front (other element types)"],
                 bound="all predicate/key patterns to length 10, every split point, random ranges to length 4000 for the stated seconds")]


NOTE = ("Proved for every range, predicate and element type: partition, find_if, find_if_not, rotate (recursive), stable_partition (with a ghost for original positions), "
        "rotate_first_to_back and rotate_last_to_front. The Span overloads of partition and rotate are proved over the contracts of the functions they forward to.")
