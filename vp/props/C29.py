"""formatted output"""
from simple import define
from specs import strings
from values import *
import ir

I32 = ir.Ty('int', w=32, size=4)
I64 = ir.Ty('int', w=64, size=8)


def va_start(V, st, a, ins):
    """a fresh argument list: the first word says how much of it was used"""
    p = a[0]
    for off, ty in ((0, I32), (4, I32), (8, I64), (16, I64)):
        V.store(st, PV(p.reg, p.off + off), IV(ty.w, 0), ty, ins)


def va_copy(V, st, a, ins):
    for off, ty in ((0, I32), (4, I32), (8, I64), (16, I64)):
        V.store(st, PV(a[0].reg, a[0].off + off), V.load(st, PV(a[1].reg, a[1].off + off), ty, ins), ty, ins)


def config(V):
    strings.config(V)
    V.on(r"^llvm\.va_start", va_start)
    V.on(r"^llvm\.va_copy", va_copy)
    V.on(r"^llvm\.va_end", lambda V, st, a, ins: None)
    V.assumptions.add("vsnprintf is used through the contract written in harness/format.cpp: the text it writes is the C library's business")


define(globals(), "format", None, [("format", 5, [], "random formats, arguments and lengths up to 30000 bytes, against vsnprintf, for the stated seconds")],
       "Proved over the contract of vsnprintf for every text it may produce: cformat_with_cb delivers it once and whole and uses every argument list once, cformat and format_append (to a CString, to any container of bytes) hold exactly it; failures are reported, and a text of INT_MAX-1 bytes or more ends the program.", config=config, priv=True, budget=240)
