"""CStringView"""
from simple import define
from specs import strings
define(globals(), "strview", None, [("strings", 4, ["C13"], "random pairs of texts of up to 70 bytes in exactly sized heap blocks for the stated seconds")],
       "Proved for every view of every length (the readable memory ends right behind the view) and every argument: construction, indexing, front, find of a byte and of a view (first occurrence, complete search), starts_with, equality, ordering, substr, overlaps, the hash feed, split (pieces in order, maximal, only separators between) and ZStringView. Loop invariants are inferred from the loops and then proved like written ones. So are upper and lower, over the contract of CString::append(char) that C12 discharges.",
       config=strings.config, budget=240)

import os
from build import HERE
from spec import spec_tasks
_m, _t = modules, tasks
_src = os.path.join(HERE, "harness/cstring.cpp")
EXTRA = {"cstring": ["-fno-access-control"]}


def modules():
    return _m() + [(_src, "cstring")]


def tasks(tier):
    return _t(tier) + spec_tasks(_src, only="cstr_(upper|lower)", config=strings.config, budget=240)
