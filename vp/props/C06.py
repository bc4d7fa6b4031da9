"""Searches over ranges."""
import os
from task import Task
from specs.algos import *
from build import HERE
from specs import overloads


def modules():
    return [(os.path.join(HERE, "harness/algos.cpp"), "algos")]


def tasks(tier):
    return [Task(c(k), config=conf(k)) for k in (ELEM, U64C) for c in (LowerBound, FindIf, FindIf2, FindIfNot, Find, IsSorted)] + overloads.tasks(overloads.searching(), Task)


def hunts(tier):
    return [dict(name="search", src="search.cpp", secs=10, functions=["searches on other element types"],
                 bound="all key sequences over 4 values to length 7 and every searched value, random ranges for the stated seconds")]


NOTE = ("Proved for every range, comparator/predicate and element type: lower_bound, find, find_if, find_if_not, is_sorted. "
        "The overload of lower_bound without comparator is proved for 64 bit integers, both overloads of find_if for every type. Assumes only that operator== of the element type agrees with its key.")
