"""Codepoints"""
from simple import define
from specs import utf8
define(globals(), "utf8", r"iter|reverse|encode", [("utf8", 5, ["C16"], "selected codepoints, random texts of up to 11 codepoints for the stated seconds")],
       "Proved for every well-formed sequence: decoding by *it, ++, it++, -- and the reverse iterator give exactly the codepoint and move by exactly its bytes, reading nothing else (a whole string is a sequence of such steps); for every 32 bit value append_codepoint appends exactly the well-formed encoding or throws. Views are proved equal to views and texts exactly with the same bytes. U8String::substr, pop_front and pop_back are bounded (executable oracle).",
       config=utf8.config, priv=True)

import os
from build import HERE
from spec import spec_tasks
from specs import strings
_m, _t = modules, tasks
_src = os.path.join(HERE, "harness/u8view.cpp")
EXTRA["u8view"] = ["-fno-access-control"]


def modules():
    return _m() + [(_src, "u8view")]


def tasks(tier):
    return _t(tier) + spec_tasks(_src, config=strings.config, budget=240)
