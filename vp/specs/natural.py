"""The natural order of two texts and the loop contract of natural_order.

NO(A, n, B, m, p, q) compares A[p..n-1] with B[q..m-1], by this recursive definition:
 an exhausted text comes first; where both have a digit their digit runs are compared as numbers (without leading zeros the
 longer run is greater, runs of the same length compare as text) and equal ones skipped; a digit comes before anything else;
 other bytes compare by value."""
import z3
from values import *
from engine import *
from execu import *
from specs import strings

AS = z3.ArraySort(ISORT, ISORT)
NO = z3.Function("natural_order_from", AS, ISORT, AS, ISORT, ISORT, ISORT, ISORT)
ZE = z3.Function("end_of_zeros", AS, ISORT, ISORT, ISORT)
DE = z3.Function("end_of_digits", AS, ISORT, ISORT, ISORT)
FD = z3.Function("first_difference_of", AS, ISORT, AS, ISORT, ISORT, ISORT)


def dig(c):
    return z3.And(c >= 48, c <= 57)


def run(A, n, p):
    """what defines the ends of a run of zeros / digits that starts at p (0 <= p <= n)"""
    k = z3.Int("k_run")
    z, d = ZE(A, n, p), DE(A, n, p)
    return z3.Implies(z3.And(0 <= p, p <= n), z3.And(
        p <= z, z <= n, z3.ForAll([k], z3.Implies(z3.And(p <= k, k < z), A[k] == 48), patterns=[A[k]]), z3.Or(z == n, A[z] != 48),
        p <= d, d <= n, z3.ForAll([k], z3.Implies(z3.And(p <= k, k < d), dig(A[k])), patterns=[A[k]]), z3.Or(d == n, z3.Not(dig(A[d])))))


def diff(A, p, B, q, l):
    """what defines the first difference of two runs of l bytes"""
    k = z3.Int("k_dif")
    d = FD(A, p, B, q, l)
    return z3.Implies(l >= 0, z3.And(0 <= d, d <= l, z3.Or(d == l, A[p + d] != B[q + d]), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), A[p + k] == B[q + k]), patterns=[A[p + k]])))


def cmp(x, y, rest):
    return z3.If(x < y, -1, z3.If(x > y, 1, rest))


def unfold(A, n, B, m, p, q):
    """definition of NO at p, q"""
    a, b = A[p], B[q]
    z1, z2, d1, d2 = ZE(A, n, p), ZE(B, m, q), DE(A, n, p), DE(B, m, q)
    l1, l2 = d1 - z1, d2 - z2
    f = FD(A, z1, B, z2, l1)
    nums = cmp(l1, l2, z3.If(f < l1, cmp(A[z1 + f], B[z2 + f], 0), NO(A, n, B, m, d1, d2)))
    body = z3.If(p == n, z3.If(q == m, 0, -1), z3.If(q == m, 1, z3.If(
        dig(a), z3.If(dig(b), nums, -1), z3.If(dig(b), 1, cmp(a, b, NO(A, n, B, m, p + 1, q + 1))))))
    return z3.And(run(A, n, p), run(B, m, q), diff(A, z1, B, z2, l1),
                  z3.Implies(z3.And(0 <= p, p <= n, 0 <= q, q <= m), NO(A, n, B, m, p, q) == body))


def h_natural(V, st, a, ins):
    n, m = V.as_u(st, a[1]).z(), V.as_u(st, a[3]).z()
    A, B = strings.byte_arr(V, st, a[0]), strings.byte_arr(V, st, a[2])
    V.nat = (A, n, B, m)
    st.assume(unfold(A, n, B, m, z3.IntVal(0), z3.IntVal(0)))
    r = NO(A, n, B, m, z3.IntVal(0), z3.IntVal(0))
    # the definition only has these values (by induction over it)
    st.assume(z3.Or(r == -1, r == 0, r == 1))
    return IV(32, Lin.of(r), True)


def loops():
    def inv(v):
        A, n, B, m = v.V.nat
        i, j = v.u('i_left'), v.u('i_right')
        z = z3.IntVal(0)
        return [("positions in range", z3.And(0 <= i, i <= n, 0 <= j, j <= m)),
                ("what was skipped does not decide the order", NO(A, n, B, m, z, z) == NO(A, n, B, m, i, j))]
    out = [LoopSpec(r"::natural_order\(", inv, variant=lambda v: v.V.nat[1] - v.u('i_left') + v.V.nat[3] - v.u('i_right'), names=('i_left', 'i_right'), nth=0, tag='natural_order',
                    lemma=lambda v: [unfold(*v.V.nat, v.u('i_left'), v.u('i_right'))])]
    for k, (name, side, end) in enumerate((('i_left', 0, ZE), ('i_right', 2, ZE), ('i_left', 0, DE), ('i_right', 2, DE)), 1):
        def inv2(v, name=name, side=side, end=end):
            A, n = v.V.nat[side:side + 2]
            i, e = v.u(name), v.entry.u(name)
            k = z3.Int("k_inv")
            return [("position in range", z3.And(e <= i, i <= n)),
                    ("inside the run", z3.ForAll([k], z3.Implies(z3.And(e <= k, k < i), A[k] == 48 if end is ZE else dig(A[k])), patterns=[A[k]]))]

        out.append(LoopSpec(r"::natural_order\(", inv2, variant=lambda v, name=name, side=side: v.V.nat[side + 1] - v.u(name), names=(name,), nth=k, tag='natural_order run %d' % k))
    return out


def config(V):
    strings.config(V)
    V.on("^vp_natural$", h_natural)


def lemmas():
    """(name, facts, goal): one induction step each, over the number of bytes left; the hypotheses are for the positions the definition refers to"""
    A, B, C = z3.Consts("A B C", AS)
    n, m, l, p, q, r = z3.Ints("n m l p q r")
    rng = z3.And(0 <= p, p <= n, 0 <= q, q <= m, 0 <= r, r <= l)
    u = lambda X, a, Y, b, i, j: unfold(X, a, Y, b, i, j)
    sgn = lambda X, a, Y, b, i, j: z3.And(NO(X, a, Y, b, i, j) >= -1, NO(X, a, Y, b, i, j) <= 1)
    succ = lambda i, X, a: (i + 1, DE(X, a, i))
    out = []
    # the definition only yields -1, 0 and 1
    hyp = [sgn(A, n, B, m, i, j) for i, j in zip(succ(p, A, n), succ(q, B, m))]
    out.append(("values are -1, 0 and 1", [rng, u(A, n, B, m, p, q)] + hyp, sgn(A, n, B, m, p, q)))
    # a digit run is not empty, so the recursion ends
    out.append(("the recursion ends", [rng, run(A, n, p), p < n, dig(A[p])], DE(A, n, p) > p))
    anti = lambda i, j: NO(A, n, B, m, i, j) == -NO(B, m, A, n, j, i)
    out.append(("antisymmetric", [rng, u(A, n, B, m, p, q), u(B, m, A, n, q, p)] + [anti(i, j) for i, j in zip(succ(p, A, n), succ(q, B, m))], anti(p, q)))

    def tra(i, j, k):
        x, y, z = NO(A, n, B, m, i, j), NO(B, m, C, l, j, k), NO(A, n, C, l, i, k)
        return z3.Implies(z3.And(x <= 0, y <= 0), z3.And(z <= 0, (z == 0) == z3.And(x == 0, y == 0)))
    facts = [rng, u(A, n, B, m, p, q), u(B, m, C, l, q, r), u(A, n, C, l, p, r)] + [tra(i, j, k) for i, j, k in zip(succ(p, A, n), succ(q, B, m), succ(r, C, l))]
    some = z3.Or(p == n, q == m, r == l)
    dg = z3.And(z3.Not(some), dig(A[p]), dig(B[q]), dig(C[r]))
    l1, l2, l3 = [DE(X, e, i) - ZE(X, e, i) for X, e, i in ((A, n, p), (B, m, q), (C, l, r))]
    same = z3.And(l1 == l2, l2 == l3)
    z1, z2, z3_ = ZE(A, n, p), ZE(B, m, q), ZE(C, l, r)
    f12, f23, f13 = FD(A, z1, B, z2, l1), FD(B, z2, C, z3_, l1), FD(A, z1, C, z3_, l1)
    for lab, f in (("one text is exhausted", [some]), ("not all at a digit", [z3.Not(some), z3.Not(dg)]), ("numbers of different length", [dg, z3.Not(same)]),
                   ("numbers, first pair differs first", [dg, same, f12 < f23]), ("numbers, second pair differs first", [dg, same, f12 > f23]), ("numbers, both pairs differ at once", [dg, same, f12 == f23])):
        out.append(("transitive: " + lab, facts + f, tra(p, q, r)))
    return out
