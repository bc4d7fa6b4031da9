"""SimpleHash as a fold over the fed bytes."""
import z3
from values import *
from engine import *
from execu import *
from specs import strings, utf8

B64 = z3.BitVecSort(64)
# FOLD(A, p, s, i): the value after the bytes A[p..p+i-1] were fed to a hash of value s
FOLD = z3.Function("hash_fold", utf8.BYTES, ISORT, B64, ISORT, B64)


def unfold(A, p, s, i):
    return z3.And(FOLD(A, p, s, z3.IntVal(0)) == s,
                  FOLD(A, p, s, i + 1) == ((13 * FOLD(A, p, s, i)) ^ z3.ZeroExt(56, z3.Select(A, p + i))))


def h_fold(V, st, a, ins):
    s = V.to_bv(st, a[2], 64)
    A = utf8.bytes_of(V, st, a[0])
    V.fold = (A, a[0].off.z(), s)
    st.assume(unfold(A, a[0].off.z(), s, z3.IntVal(0)))
    return BVV(64, FOLD(A, a[0].off.z(), s, V.as_u(st, a[1]).z()))


def loops():
    def inv(v):
        A, p, s = v.V.fold
        i = v.u('i')
        val = v.V.to_bv(v.st, v.field(v.p('this'), 0, None), 64)
        return [("position in range", z3.And(0 <= i, i <= v.u('bufsize'))), ("the fold of the bytes so far", val == FOLD(A, p, s, i))]
    return [LoopSpec(r"SimpleHash::feed_bytes\(", inv, variant=lambda v: v.u('bufsize') - v.u('i'), names=('i', 'bufsize'), tag='SimpleHash::feed_bytes',
                     lemma=lambda v: [unfold(*v.V.fold, v.u('i'))])]


def config(V):
    strings.config(V)
    if V.task_name.startswith("spec_hash_simple"):
        V.bvbytes = True
    V.on("^vp_bv64$", lambda V, st, a, ins: BVV(64, z3.FreshConst(B64, "hash")))
    V.on("^vp_fold$", h_fold)
