"""Values of the symbolic executor: linear integers, machine integers, pointers, floats, aggregates."""
import z3

_atoms = {}      # ast id -> z3 Int expr (kept alive)
boolatoms = {}   # ast id of If(b,1,0) -> b


def atom_key(e):
    k = e.get_id()
    if k not in _atoms:
        _atoms[k] = e
    return k


class Lin:
    """c + sum coeff*atom, exact mathematical integer."""
    __slots__ = ("c", "t", "_z", "_h")

    def __init__(s, c=0, t=()):
        s.c = c
        s.t = t           # tuple sorted of (key, coeff), coeff != 0
        s._z = None

    @staticmethod
    def of(e):
        if isinstance(e, Lin):
            return e
        if isinstance(e, int):
            return Lin(e)
        return lin_of_z3(e)

    @property
    def const(s):
        return s.c if not s.t else None

    def z(s):
        if s._z is None:
            if not s.t:
                s._z = z3.IntVal(s.c)
            else:
                parts = []
                for k, co in s.t:
                    a = _atoms[k]
                    parts.append(a if co == 1 else z3.IntVal(co) * a)
                if s.c != 0:
                    parts.append(z3.IntVal(s.c))
                s._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return s._z

    def __add__(s, o):
        o = Lin.of(o)
        if not o.t:
            return Lin(s.c + o.c, s.t) if o.c else s
        if not s.t:
            return Lin(s.c + o.c, o.t)
        d = dict(s.t)
        for k, co in o.t:
            v = d.get(k, 0) + co
            if v:
                d[k] = v
            else:
                d.pop(k, None)
        return Lin(s.c + o.c, tuple(sorted(d.items())))

    def __neg__(s):
        return Lin(-s.c, tuple((k, -c) for k, c in s.t))

    def __sub__(s, o):
        return s + (-Lin.of(o))

    def scale(s, n):
        if n == 0:
            return Lin(0)
        if n == 1:
            return s
        return Lin(s.c * n, tuple((k, c * n) for k, c in s.t))

    def divisible(s, n):
        return s.c % n == 0 and all(c % n == 0 for _, c in s.t)

    def divexact(s, n):
        return Lin(s.c // n, tuple((k, c // n) for k, c in s.t))

    def tz(s):
        """number of trailing zero bits known syntactically (of the linear form)."""
        r = 64
        for x in [s.c] + [c for _, c in s.t]:
            if x:
                r = min(r, (x & -x).bit_length() - 1)
        return r

    def same(s, o):
        return s.c == o.c and s.t == o.t

    def __repr__(s):
        return str(s.z())


def lin_of_z3(e):
    if z3.is_int_value(e):
        return Lin(e.as_long())
    if z3.is_add(e):
        r = Lin(0)
        for ch in e.children():
            r = r + lin_of_z3(ch)
        return r
    if z3.is_sub(e):
        ch = e.children()
        r = lin_of_z3(ch[0])
        for c in ch[1:]:
            r = r - lin_of_z3(c)
        return r
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return -lin_of_z3(e.arg(0))
    if z3.is_mul(e) and e.num_args() == 2:
        if z3.is_int_value(e.arg(0)):
            return lin_of_z3(e.arg(1)).scale(e.arg(0).as_long())
        if z3.is_int_value(e.arg(1)):
            return lin_of_z3(e.arg(0)).scale(e.arg(1).as_long())
    return Lin(0, ((atom_key(e), 1),))


def fresh_lin(name):
    return Lin(0, ((atom_key(z3.FreshInt(name)), 1),))


class IV:
    """machine integer of width w; lin is its canonical value, signed if sg else unsigned. Constants are kept unsigned."""
    __slots__ = ("w", "lin", "sg")

    def __init__(s, w, lin, sg=False):
        if isinstance(lin, int):
            lin = Lin(lin)
        if not lin.t:
            lin = Lin(lin.c % (1 << w))
            sg = False
        s.w, s.lin, s.sg = w, lin, sg

    @property
    def const(s):
        return s.lin.const

    def sconst(s):
        c = s.lin.c
        return c - (1 << s.w) if c >> (s.w - 1) else c

    def __repr__(s):
        return "i%d%s(%r)" % (s.w, 's' if s.sg else '', s.lin)


class BVV:
    """machine integer kept as a bit-vector term."""
    __slots__ = ("w", "bv")

    def __init__(s, w, bv):
        s.w, s.bv = w, bv

    const = None

    def __repr__(s):
        return "bv%d(%s)" % (s.w, s.bv)


class B1:
    """i1"""
    __slots__ = ("b",)

    def __init__(s, b):
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        s.b = b

    def __repr__(s):
        return "i1(%s)" % s.b


class PV:
    """pointer: region (None: absolute address, 0 is null) and byte offset."""
    __slots__ = ("reg", "off")

    def __init__(s, reg, off=0):
        s.reg = reg
        s.off = Lin.of(off)

    def __repr__(s):
        return "ptr(%s+%r)" % (s.reg.name if s.reg else 'null', s.off)


NULL = PV(None, 0)


class FV:
    """float/double by its bits."""
    __slots__ = ("w", "bits")

    def __init__(s, w, bits):
        s.w, s.bits = w, bits

    @property
    def fp(s):
        return z3.fpBVToFP(s.bits, z3.Float32() if s.w == 32 else z3.Float64())


class RV(FV):
    """a double together with the real number it approximates (under the condition ok)"""
    __slots__ = ("real", "ok")

    def __init__(s, bits, real, ok):
        FV.__init__(s, 64, bits)
        s.real, s.ok = real, ok


class EV:
    """content of an opaque element slot: the identity of its value."""
    __slots__ = ("cls", "val")

    def __init__(s, cls, val):
        s.cls, s.val = cls, val

    def __repr__(s):
        return "E(%s)" % s.val


class AG:
    __slots__ = ("vs",)

    def __init__(s, vs):
        s.vs = vs

    def __repr__(s):
        return "AG(%r)" % (s.vs,)


class Undef:
    __slots__ = ("ty",)

    def __init__(s, ty=None):
        s.ty = ty

    def __repr__(s):
        return "undef"


UNDEF = Undef()
