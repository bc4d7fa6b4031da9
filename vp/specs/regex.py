"""C27: what PCRE2 reports is taken from the contracts in harness/regex.cpp"""
import z3
from values import *
from engine import *
from execu import *
from specs import strings


def h_valid(V, st, a, ins):
    n = V.as_u(st, a[1]).z()
    if a[0].reg is None:
        V.oblige(st, "the bytes are readable", n == 0, 'safety', ins)
    else:
        V.oblige(st, "the bytes are readable", z3.And(a[0].off.z() >= 0, a[0].off.z() + n <= a[0].reg.size.z()), 'safety', ins)
    return B1(z3.BoolVal(True))


def config(V):
    strings.config(V)
    V.on(r"::is_valid_utf8\(", h_valid)
    V.assumptions.add("PCRE2 functions are used through the contracts written in harness/regex.cpp; the slices they report of a well-formed text, and their messages, are well-formed")
