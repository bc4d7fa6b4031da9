"""Invariant of the block-wise reading loop of Path::load_bytes (C32)."""
import z3
from values import *
from engine import *
from specs.bytesobj import BytesObj

_i = z3.Int("i")


def glob(v, name):
    for k, r in v.V.gregs.items():
        if k[0] == name:
            return v.V.peek(v.st, PV(r, 0))
    raise KeyError(name)


def loops():
    def obj(v):
        for r in v.f.allocas:
            if r.ty is not None and r.ty.name and r.ty.name.endswith("::Bytes") and v.st.rs(r).cells:
                return BytesObj(PV(r, 0))
        raise KeyError("no byte buffer is filled")

    def inv(v):
        V, st = v.V, v.st
        o = obj(v)
        n, A = o.n(V, st), o.A(V, st)
        pos, size, data = V.as_u(st, glob(v, "_ZL3pos")).z(), V.as_u(st, glob(v, "_ZL4size")).z(), glob(v, "_ZL4data")
        D = V.arr(st, data.reg, 0, 1)
        d = data.off.z()
        ok = lambda x: V.as_u(st, x).z() == 0
        return [("what was read so far is what the file starts with", z3.And(n == pos, 0 <= pos, pos <= size, z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < n), A[_i] == D[_i + d]), patterns=[A[_i]]))),
                ("neither the end of the file nor an error was seen", z3.And(ok(glob(v, "_ZL6at_eof")), ok(glob(v, "_ZL3err"))))]
    return [LoopSpec(r"::Path::load_bytes\(", inv, variant=lambda v: V_size(v), tag='load_bytes', vecs=lambda v: [obj(v)])]


def V_size(v):
    V, st = v.V, v.st
    return V.as_u(st, glob(v, "_ZL4size")).z() - V.as_u(st, glob(v, "_ZL3pos")).z()
