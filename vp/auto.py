"""Loop invariants inferred from the loop body: for loops that no contract annotates.

The body is executed once from an arbitrary iteration; what the paths back to the loop head have in common (which variables
advance by how much, which conditions the iteration established, which array slot it wrote) becomes a candidate invariant
"every earlier iteration did the same".  Candidates that are not inductive are dropped.  Nothing here is trusted: the
surviving invariant is proved initially and preserved like a written one, and a variant must be found that decreases."""
import re
import time
import z3
import inst
from values import *
from engine import *
from engine import _nm


def consts(e, memo={}):
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    out = {}
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo.extend(x.children())
    memo[k] = (e, out)
    return out


PIN = {}


def eid(e):
    """identity of a term that stays valid (the term is kept alive)"""
    e = z3.simplify(e)
    PIN[e.get_id()] = e
    return e.get_id()


def serial(c):
    m = re.search(r"!(\d+)$", c.decl().name())
    return int(m.group(1)) if m else -1


def isnew(c, mark):
    return serial(c) > mark


class Slot:
    """one modified cell or array of the loop, with the symbol that stands for its value at the loop head"""

    def __init__(s, w, head, V=None, obj=None):
        s.V, s.obj = V, obj
        s.w = w
        s.rid = w[0]
        s.kind = None
        if w[1] == 'c':
            v = head.mem[w[0]].cells.get(w[2])
            v = v[1] if v else None
            if isinstance(v, IV) and len(v.lin.t) == 1 and v.lin.t[0][1] == 1 and v.lin.c == 0:
                s.kind, s.sg, s.width = 'int', v.sg, v.w
                s.sym = v.lin.z()
            elif isinstance(v, PV) and v.reg is not None and len(v.off.t) == 1:
                s.kind, s.reg, s.c0, s.co = 'ptr', v.reg, v.off.c, v.off.t[0][1]
                s.sym = Lin(0, ((v.off.t[0][0], 1),)).z()
            elif isinstance(v, B1) and z3.is_const(v.b):
                s.kind, s.sym = 'bool', v.b
            elif isinstance(v, BVV) and z3.is_const(v.bv):
                s.kind, s.sym = 'bv', v.bv
            elif isinstance(v, EV):
                s.kind, s.sym = 'ev', v.val
        elif w[1] == 'v':
            A = s.obj.A(s.V, head)
            if z3.is_const(A):
                s.kind, s.sym = 'arr', A
        elif w[1] == 'a':
            A = head.mem[w[0]].arrs.get((w[2], w[3]))
            if A is not None and z3.is_const(A):
                s.kind, s.sym = 'arr', A

    def term(s, V, st):
        """value in state st, None if it has no such value there"""
        if s.w[1] == 'v':
            return s.obj.A(V, st) if s.kind else None
        if s.kind == 'arr':
            return st.mem[s.rid].arrs.get((s.w[2], s.w[3])) if s.rid in st.mem else None
        if s.rid not in st.mem:
            return None
        c = st.mem[s.rid].cells.get(s.w[2])
        if c is None:
            return None
        v = c[1]
        try:
            if s.kind == 'int':
                if not isinstance(v, (IV, B1, BVV)):
                    return None
                return (V.as_s(st, v) if s.sg else V.as_u(st, v)).z()
            if s.kind == 'ptr':
                if not isinstance(v, PV) or v.reg is not s.reg:
                    return None
                o = v.off - s.c0
                return o.divexact(s.co).z() if o.divisible(s.co) else None
            if s.kind == 'bool':
                return v.b if isinstance(v, B1) else V.as_u(st, v).z() != 0
            if s.kind == 'bv':
                return V.to_bv(st, v, s.sym.size())
            if s.kind == 'ev':
                return v.val if isinstance(v, EV) else None
        except Tool:
            return None
        return None


class AutoSpec:
    havoc = None
    lemma = None
    names = ()
    auto = True

    def __init__(s, fn):
        s.vecs = None
        s.tag = "inferred, " + re.sub(r"\(.*", "", fn.dem)[-60:]
        s.fn = fn
        s.cands = []
        s.slots = []
        s.var = None
        s.novar = None

    def sub(s, V, st, e):
        m = []
        ids = consts(e)
        for sl in s.slots:
            if sl.sym.get_id() in ids:
                t = sl.term(V, st)
                if t is None:
                    return None
                m.append((sl.sym, t))
        return z3.substitute(e, *m) if m else e

    def inv(s, view):
        out = []
        for lab, e in s.cands:
            g = s.sub(view.V, view.st, e)
            out.append((lab, z3.BoolVal(False) if g is None else g))
        return out

    def variant(s, view):
        if s.var is None:
            return z3.IntVal(0)
        return s.sub(view.V, view.st, s.var)


class Mixed(AutoSpec):
    """a written loop contract together with inferred relations between the variables (for rewritten loops)"""

    def __init__(s, fn, base, alias):
        AutoSpec.__init__(s, fn)
        s.base, s.alias = base, alias
        s.havoc, s.lemma, s.names = base.havoc, base.lemma, base.names
        s.tag = base.tag

    def written(s, view):
        return s.base.inv(view)

    def inv(s, view):
        return AutoSpec.inv(s, view) + list(s.base.inv(view))

    def variant(s, view):
        if s.base.variant:
            return s.base.variant(view)
        return AutoSpec.variant(s, view)


def probe(V, st, f):
    """does the loop head test something symbolic?"""
    s = st.copy()
    V.dry += 1
    depth = len(s.frames)
    hdr = f.blk
    save = V.nofail
    try:
        for _ in range(600):
            g = s.frames[-1]
            if _ and len(s.frames) == depth and g.blk == hdr and g.ip == f.ip:
                return False
            ins = g.fn.blocks[g.blk].ins[g.ip]
            if ins.op == 'br' and len(ins.ops) >= 1 and ins.ops[0] is not None:
                c = V.val(s, g, ins.ops[0])
                if not isinstance(c, B1):
                    return True
                e = z3.simplify(c.b)
                if not (z3.is_true(e) or z3.is_false(e)):
                    return True
                blocks = f.fn.loops[hdr]
                if len(s.frames) == depth and any(t not in blocks for t in g.fn.blocks[g.blk].succs):
                    return False  # whether the loop goes on is known
            if ins.op == 'switch':
                c = V.val(s, g, ins.ops[0])
                return getattr(c, 'const', None) is None
            if ins.op in ('ret', 'resume', 'unreachable') and len(s.frames) <= depth:
                return False
            if ins.op == 'br' and g.fn is f.fn and len(s.frames) == depth and ins.x is not None:
                pass
            r = V.step(s, g, ins, 0)
            if r is not None:
                r = [x for x in r if isinstance(x, State) and not x.dead]
                if len(r) != 1:
                    return True
                s = r[0]
            if s.dead:
                return False
        return True
    except Tool:
        return True
    finally:
        V.dry -= 1
        V.nofail = save


def mkslots(V, s, rec):
    out = [Slot(w, s) for w in rec.mods]
    if rec.spec.vecs:
        for o in rec.vecs:
            have = {x.w for x in out}
            for p in (o.pn, o.pc):
                w = (p.reg.id, 'c', p.off.c, 8)
                if w not in have:
                    out.append(Slot(w, s))
            out.append(Slot((o.pb.reg.id, 'v', o.pb.off.c), s, V, o))
    return out


def run_body(V, st, rec, spec):
    """one arbitrary iteration under the current candidates: [(head, back states)]"""
    res = []
    V.dry += 1
    rec.dry = True
    try:
        for s in V.havoc_loop(st, rec):
            mark = serial(z3.FreshInt("mark"))
            fr = s.frames[-1]
            h0 = s.copy()
            spec.slots_now = mkslots(V, s, rec)
            # candidates are stated over the symbols of spec.slots
            for lab, e in spec.cands:
                g = spec.sub(V, s, e)
                if g is not None:
                    s.assume(g)
            if isinstance(spec, Mixed):
                for lab, g in spec.written(View(V, s, fr, rec)):
                    s.assume(g)
            head = s.copy()
            fr.loops.append(rec)
            rec.wstart = len(s.wlog)
            rec.backs = []
            if V.feasible(s):
                V.run([s], 0)
            res.append((head, list(rec.backs), mark, spec.slots_now))
    finally:
        V.dry -= 1
        rec.dry = False
    return res


def cheap(V, st, g, secs=2, strong=False):
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    if not is_quant(g) and V.quick(st, g):
        return True
    if z3.is_and(g):
        return all(cheap(V, st, c, secs, strong) for c in g.children())
    if strong:
        secs = 8
    try:
        fs = st.facts + st.qfacts + V.prelude
        if len(fs) > 50 and inst.Inst(fs, g, budget=1, recent=(25, 14)).prove()[0] == 'unsat':
            return True
        if inst.Inst(fs, g, budget=secs).prove()[0] == 'unsat':
            return True
    except (ValueError, z3.Z3Exception):
        pass
    if not strong:
        return False
    for o in ({'smt.mbqi': False, 'auto_config': False}, {}):
        s = z3.Solver()
        s.set("timeout", 6000)
        for k, v in o.items():
            s.set(k, v)
        s.add(*st.facts, *st.qfacts, *V.prelude)
        s.add(z3.Not(g))
        r = str(s.check())
        if r != 'unknown':
            return r == 'unsat'
    return False


def known(e):
    """range facts of array contents hold everywhere"""
    if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        return z3.is_select(a) and z3.is_int_value(b) or z3.is_select(b) and z3.is_int_value(a)
    return False


def selects(e, out):
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x):
            out[x.get_id()] = x
        todo.extend(x.children())
    return out


def rel(r, e):
    a = r.arg(0) if z3.is_select(r.arg(0)) else r.arg(1)
    return a.get_id() in selects(e, {})


def atoms(e, out, pos=True):
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_NOT:
        atoms(e.arg(0), out, not pos)
    elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        for c in e.children():
            atoms(c, out, pos)
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2 and z3.is_int(e.arg(0)):
        out.append((e.arg(0), e.arg(1)))


def has_sel(e):
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_ITE)):
            return True
        todo.extend(x.children())
    return False


def houdini(V, st, rec, spec):
    """drop candidates that do not hold initially or are not preserved; returns the last bodies"""
    dbg = V.log if __import__('os').environ.get('AUTOLOG') else None
    def ok0(l, e):
        g = spec.sub(V, st, e)
        r = g is not None and cheap(V, st, g)
        if not r and dbg:
            dbg("  dropped initially: %s: %s" % (l, str(e).replace("\n", " ")[:200]))
        return r
    spec.cands = [(l, e) for l, e in spec.cands if ok0(l, e)]
    for rnd in range(12):
        bodies = run_body(V, st, rec, spec)
        bad = set()
        for head, backs, mark, sl in bodies:
            for b in backs:
                for i, (l, e) in enumerate(spec.cands):
                    if i in bad:
                        continue
                    g = spec.sub(V, b, e)
                    if g is None or not cheap(V, b, g, strong=l.startswith("every earlier")):
                        bad.add(i)
                        if dbg:
                            dbg("  dropped: %s: %s" % (l, str(e).replace("\n", " ")[:1500]))
        if not bad:
            return bodies
        spec.cands = [c for i, c in enumerate(spec.cands) if i not in bad]
    spec.cands = []
    return run_body(V, st, rec, spec)


def closure(V, head, b, mark, slots, hold, prim, noquant=False):
    """what the iteration that ended in b established, as a formula over the primary variable and loop invariant symbols"""
    new = b.facts[len(head.facts):] + b.qfacts[len(head.qfacts):]
    syms = {s.sym.get_id(): s for s in slots if s.kind}
    # definitions of fresh symbols
    out = []
    ranges = [e for e in new if known(e)]
    for e in new:
        ok = not known(e) and not (is_quant(e) and noquant)
        for i, c in consts(e).items():
            if i in syms and syms[i] is not prim and i not in hold:
                ok = False
        if ok:
            out.append(z3.substitute(e, *[(syms[i].sym, hold[i]) for i in hold]) if hold else e)
    out = [x for x in (z3.simplify(e) if not is_quant(e) else e for e in out) if not z3.is_true(x)]
    if not out:
        return None
    # what is known of the array contents it mentions
    sels = {}
    for e in out:
        if not is_quant(e):
            selects(e, sels)
    more = []
    for e in ranges:
        t = z3.substitute(e, *[(syms[i].sym, hold[i]) for i in hold]) if hold else e
        a = t.arg(0) if z3.is_select(t.arg(0)) else t.arg(1)
        if a.get_id() in sels:
            more.append(t)
    out = [z3.And(e, *[r for r in more if rel(r, e)]) if not is_quant(e) and any(rel(r, e) for r in more) else e for e in out]
    f = z3.And(*out) if len(out) > 1 else out[0]
    # eliminate fresh symbols
    fresh = [c for i, c in consts(f).items() if isnew(c, mark) and i not in syms]
    fresh = [c for c in fresh if c.get_id() != prim.sym.get_id()]
    if fresh:
        keep = []
        parts = list(out)
        changed = True
        # substitute equalities
        m = True
        while m:
            m = False
            for e in parts:
                if z3.is_eq(e):
                    for a, t in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                        if any(a.get_id() == c.get_id() for c in fresh) and a.get_id() not in consts(t):
                            parts = [z3.substitute(x, (a, t)) for x in parts if x is not e]
                            fresh = [c for c in fresh if c.get_id() != a.get_id()]
                            m = True
                            break
                if m:
                    break
        # symbols only constrained by their own range carry nothing
        again = True
        while again:
            again = False
            for c in list(fresh):
                use = [e for e in parts if c.get_id() in consts(e)]
                if all(len([x for x in consts(e)]) == 1 for e in use):
                    parts = [e for e in parts if c.get_id() not in consts(e)]
                    fresh = [x for x in fresh if x.get_id() != c.get_id()]
                    again = True
        if not parts:
            return None
        f = z3.And(*parts) if len(parts) > 1 else parts[0]
        fresh = [c for c in fresh if c.get_id() in consts(f)]
        if fresh:
            vs = [z3.Const("w_%d" % j, c.sort()) for j, c in enumerate(fresh)]
            f = z3.Exists(vs, z3.substitute(f, *zip(fresh, vs)))
    return f


def stores(t, base):
    out = []
    while True:
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            out.append((t.arg(1), t.arg(2)))
            t = t.arg(0)
        elif t.get_id() != base.get_id() and t.get_id() in NAMED:
            t = NAMED[t.get_id()][1]
        else:
            break
    return list(reversed(out)) if t.get_id() == base.get_id() else None


def coef(idx, x):
    """idx = x + c or -x + c: (sign, c)"""
    l = lin_of_z3(z3.simplify(idx))
    k = atom_key(x)
    d = dict(l.t)
    if d.get(k) in (1, -1):
        return d[k], l - Lin(0, ((k, d[k]),))
    return None


def grown(V, st, s, a0, sts, byw, hold, hp, prim, nums, ent, x0, d, k, mark, sl):
    """candidates about the contents of a byte buffer that the loop extends"""
    out = []
    A = s.sym
    nslot = [q for q in nums if q.w[0] == s.w[0] and q.w[1] == 'c' and q.w[2] == s.w[2] + 16]
    if not nslot:
        return out
    n, n0 = nslot[0].sym, ent[nslot[0].sym.get_id()]
    for c in (0, 1):
        out.append(("the old contents are kept", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0 - c), z3.Select(A, k) == z3.Select(a0, k)), patterns=[z3.Select(A, k)])))
        out.append(("what remains is unchanged", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - c), z3.Select(A, k) == z3.Select(a0, k)), patterns=[z3.Select(A, k)])))
        out.append(("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - c), z3.Select(A, k) != 0), patterns=[z3.Select(A, k)])))
    out.append(("the last byte stays", z3.And(n >= 1, z3.Select(A, n - 1) == z3.Select(a0, n0 - 1))))
    out.append(("the last byte is NUL", z3.And(n >= 1, z3.Select(A, n - 1) == 0)))
    ha = byw[s.w].sym
    m = [(byw[q.w].sym, hold[byw[q.w].sym.get_id()]) for q in nums if byw[q.w].sym.get_id() in hold]
    seen = set()
    for t in sts:
        for idx, val in t:
            idx, val = (z3.substitute(idx, *m), z3.substitute(val, *m)) if m else (idx, val)
            p = coef(idx, hp.sym)
            if p is None or ha.get_id() in consts(val):
                continue
            sg, cc = p
            it = (k - cc.z()) if sg == 1 else (cc.z() - k)
            if any(q.kind and q.sym.get_id() in consts(val) and q is not hp for q in sl) or any(isnew(y, mark) and y.get_id() != hp.sym.get_id() for y in consts(val).values()):
                continue
            inr = z3.And(x0 <= it, it < prim.sym) if d == 1 else z3.And(prim.sym < it, it <= x0)
            e = z3.ForAll([k], z3.Implies(inr, z3.Select(A, k) == z3.substitute(val, (hp.sym, it))), patterns=[z3.Select(A, k)])
            if eid(e) not in seen:
                seen.add(eid(e))
                out.append(("what earlier iterations wrote", e))
    return out


def infer(V, st, rec, spec):
    deadline = time.time() + 60
    b0 = run_body(V, st, rec, spec)
    # arrays first touched inside the loop exist (with arbitrary contents) before it
    again = False
    for w in rec.mods:
        if w[1] == 'a' and w[0] in st.mem and st.mem[w[0]].kind == 'arr' and (w[2], w[3]) not in st.mem[w[0]].arrs:
            for _, backs, _, _ in b0:
                for b in backs:
                    if (w[2], w[3]) in b.mem[w[0]].ety and (w[2], w[3]) not in st.mem[w[0]].arrs:
                        ety = b.mem[w[0]].ety[(w[2], w[3])]
                        if ety[0] in ('int', 'bv', 'fp'):
                            r = regions_by_id[w[0]]
                            if st.mem[w[0]].stride is None:
                                st.wrs(r).stride = b.mem[w[0]].stride
                            V.arr_comp(st, r, w[2], w[3], ety)
                            t = rec.entry.wrs(r)
                            t.stride = st.rs(r).stride
                            t.arrs[(w[2], w[3])] = st.rs(r).arrs[(w[2], w[3])]
                            t.ety[(w[2], w[3])] = ety
                            again = True
    if again:
        b0 = run_body(V, st, rec, spec)
    if len(b0) != 1 and not spec.vecs:
        V.log and V.log("auto: %d heads" % len(b0))
        return
    head, backs, mark, slots = b0[-1]
    spec.slots = [s for s in slots if s.kind]
    ent = {s.sym.get_id(): s.term(V, st) for s in spec.slots}
    if not backs:
        return
    nums = [s for s in spec.slots if s.kind in ('int', 'ptr') and ent[s.sym.get_id()] is not None]

    def deltas(bodies, slots_):
        dl = {}
        for s in slots_:
            ds = set()
            for hd, bk, mk, sl in bodies:
                for b in bk:
                    t = s.term(V, b)
                    h = s.term(V, hd)
                    d = None
                    if t is not None and h is not None:
                        l = z3.simplify(t - h)
                        if z3.is_int_value(l):
                            d = l.as_long()
                        else:
                            for g in (1, -1, 0):
                                if V.quick(b, t == h + g):
                                    d = g
                                    break
                    ds.add(d)
            dl[s] = list(ds)[0] if len(ds) == 1 else None
        return dl

    # ---- basic candidates: direction, bounds, linear relations
    dl = deltas(b0, nums)
    c = []
    inv_terms = []
    for hd, bk, mk, sl in b0:
        for b in bk:
            at = []
            for e in b.facts[len(hd.facts):]:
                atoms(e, at)
            for l, r in at:
                for a, t in ((l, r), (r, l)):
                    inv_terms.append((a, t))
    for s in nums:
        x, x0 = s.sym, ent[s.sym.get_id()]
        c.append(("%s only grows" % _nm(regions_by_id[s.rid]), x >= x0))
        c.append(("%s only shrinks" % _nm(regions_by_id[s.rid]), x <= x0))
        bounds = {}
        for a, t in inv_terms:
            ids = consts(t)
            if any(q.sym.get_id() in ids for q in spec.slots) or any(isnew(y, mark) for y in ids.values()):
                continue
            if x.get_id() in consts(a):
                p = coef(a, x)
                if p is None:
                    continue
                t = t - p[1].z() if p[0] == 1 else p[1].z() - t
                bounds[eid(t)] = z3.simplify(t)
        if s.kind == 'ptr' and not s.reg.size.const == 0 and s.reg.size.divisible(s.co):
            t = (s.reg.size - s.c0)
            if t.divisible(s.co):
                t = t.divexact(s.co).z()
                bounds[eid(t)] = t
        for t in bounds.values():
            c.append(("%s stays below its bound" % _nm(regions_by_id[s.rid]), x <= t))
            c.append(("%s stays above its bound" % _nm(regions_by_id[s.rid]), x >= t))
            c.append(("%s stays above its bound" % _nm(regions_by_id[s.rid]), x >= t - 1))
            c.append(("%s stays below its bound" % _nm(regions_by_id[s.rid]), z3.Or(x == x0, x < t)))
    for i, s in enumerate(nums):
        for q in nums[:i]:
            x, y = s.sym, q.sym
            x0, y0 = ent[x.get_id()], ent[y.get_id()]
            c.append(("advance together", x - x0 == y - y0))
            c.append(("advance in opposite directions", x - x0 == y0 - y))
            if s.kind == q.kind and (s.kind == 'int' or s.reg is q.reg):
                c.append(("order of two variables", x <= y))
                c.append(("order of two variables", x >= y))
    # strings: the position stays before the terminator
    for s in nums:
        if s.kind == 'ptr' and 'strlen' in s.reg.ghost and s.co == 1:
            c.append(("position within the string", s.sym + s.c0 <= s.reg.ghost['strlen'].z()))
        if s.kind == 'int':
            for rid in st.mem:
                rg = regions_by_id[rid]
                if 'strlen' in rg.ghost:
                    c.append(("position within the string", s.sym <= rg.ghost['strlen'].z()))
    for s in spec.slots:
        if s.kind == 'bool':
            t = ent[s.sym.get_id()]
            if t is not None:
                c.append(("flag keeps its value", s.sym == t))
    # what holds of the new value itself
    for s in nums:
        x0 = ent[s.sym.get_id()]
        ds = []
        for hd, bk, mk, sl in b0:
            old = {q.sym.get_id() for q in sl if q.kind}
            for b in bk:
                t = s.term(V, b)
                if t is None or not (z3.is_const(t) and isnew(t, mk)):
                    ds.append(None)
                    continue
                es = []
                for e in b.facts[len(hd.facts):]:
                    ids = consts(e)
                    if t.get_id() in ids and not any(i != t.get_id() and (i in old or isnew(y, mk)) for i, y in ids.items()) and has_sel(e) and not known(e):
                        es.append(e)
                ds.append(z3.substitute(z3.simplify(z3.And(*es)), (t, s.sym)) if es else None)
        if ds and all(e is not None for e in ds):
            c.append(("what the last iteration found", z3.Or(s.sym == x0, *{e.get_id(): e for e in ds}.values())))
    seen = set()
    spec.cands = []
    for l, e in c:
        k = eid(e)
        if k not in seen:
            seen.add(k)
            spec.cands.append((l, e))
    bodies = houdini(V, st, rec, spec)
    # ---- every earlier iteration did the same
    def remap(hd_slots, e):
        """from the symbols of one execution to those of the candidates"""
        m = []
        for a in hd_slots:
            for s in spec.slots:
                if s.w == a.w and a.kind:
                    m.append((a.sym, s.sym))
        return z3.substitute(e, *m) if m else e
    dl = deltas(bodies, nums)
    prims = [s for s in nums if dl[s] in (1, -1)]
    if prims and (len(bodies) == 1 or spec.vecs):
        head, backs, mark, sl = bodies[-1]
        prim = prims[0]
        for p in prims:
            if p.kind == 'int':
                prim = p
                break
        byw = {s.w: s for s in sl if s.kind}
        hp = byw[prim.w]
        x0 = ent[prim.sym.get_id()]
        d = dl[prim]
        hold = {}
        for s in nums:
            if s is not prim and dl[s] is not None:
                y0 = ent[s.sym.get_id()]
                hold[byw[s.w].sym.get_id()] = y0 + dl[s] * d * (hp.sym - x0)
        real = [s for s in sl if s.kind]
        cl = [closure(V, head, b, mark, real, hold, hp) for b in backs]
        if any(e is not None and is_quant(e) for e in cl):
            cl = [closure(V, head, b, mark, real, hold, hp, True) for b in backs]
        extra = []
        k = z3.Int("k_it")
        rngk = (lambda x: z3.And(x0 <= k, k < x)) if d == 1 else (lambda x: z3.And(x < k, k <= x0))
        if all(e is not None for e in cl) and cl:
            C = z3.Or(*cl) if len(cl) > 1 else cl[0]
            x = prim.sym
            one = z3.Or(x == x0, z3.substitute(C, (hp.sym, x - d)))
            if not is_quant(one):
                extra.append(("the previous iteration went on", one))
            parts = list(C.children()) if z3.is_and(C) else [C]
            for e in parts:
                if not has_sel(e):
                    continue
                if hp.sym.get_id() in consts(e):
                    extra.append(("every earlier iteration went on", z3.ForAll([k], z3.Implies(rngk(x), z3.substitute(e, (hp.sym, k))))))
        # arrays: slots written by earlier iterations
        for s in spec.slots:
            if s.kind != 'arr':
                continue
            a0 = ent[s.sym.get_id()]
            ha = byw[s.w].sym
            if a0 is None:
                continue
            sts = [stores(s.term(V, b), ha) for b in backs]
            if s.w[1] == 'v':
                extra += grown(V, st, s, a0, [t for t in sts if t is not None], byw, hold, hp, prim, nums, ent, x0, d, k, mark, sl)
                continue
            if any(t is None or len(t) > 1 for t in sts):
                continue
            if len({str(t) for t in sts}) == 1 and len(sts[0]) == 1:
                idx, val = sts[0][0]
                m = [(byw[q.w].sym, hold[byw[q.w].sym.get_id()]) for q in nums if byw[q.w].sym.get_id() in hold]
                idx, val = z3.substitute(idx, *m) if m else idx, z3.substitute(val, *m) if m else val
                p = coef(idx, hp.sym)
                if p is None:
                    continue
                # idx = sg*x + c  =>  x = sg*(k - c)
                sg, cc = p
                it = (k - cc.z()) if sg == 1 else (cc.z() - k)
                val = z3.substitute(val, (ha, a0))
                others = [q for q in sl if q.kind and q.sym.get_id() in consts(val) and q is not hp]
                if others or any(isnew(y, mark) and y.get_id() != hp.sym.get_id() for y in consts(val).values()):
                    val = None
                inr = z3.And(x0 <= it, it < prim.sym) if d == 1 else z3.And(prim.sym < it, it <= x0)
                if val is not None:
                    extra.append(("what earlier iterations wrote", z3.ForAll([k], z3.Implies(inr, z3.Select(s.sym, k) == z3.substitute(val, (hp.sym, it))), patterns=[z3.Select(s.sym, k)])))
                extra.append(("the rest is untouched", z3.ForAll([k], z3.Implies(z3.Not(inr), z3.Select(s.sym, k) == z3.Select(a0, k)), patterns=[z3.Select(s.sym, k)])))
            elif all(len(t) == 0 for t in sts):
                extra.append(("unchanged", z3.ForAll([k], z3.Select(s.sym, k) == z3.Select(a0, k), patterns=[z3.Select(s.sym, k)])))
        if extra:
            spec.cands += [(l, remap(sl, e)) for l, e in extra]
            bodies = houdini(V, st, rec, spec)
    # ---- variant
    tries = []
    for s in nums:
        for q in nums:
            if s is not q and (s.kind == 'int' and q.kind == 'int' or s.kind == q.kind == 'ptr' and s.reg is q.reg):
                tries.append(s.sym - q.sym)
        tries.append(s.sym - ent[s.sym.get_id()])
        tries.append(ent[s.sym.get_id()] - s.sym)
        if s.kind == 'int':
            tries.append(s.sym)
        for l, e in spec.cands:
            if z3.is_le(e) and e.arg(0).get_id() == s.sym.get_id():
                tries.append(e.arg(1) - s.sym)
            if z3.is_ge(e) and e.arg(0).get_id() == s.sym.get_id():
                tries.append(s.sym - e.arg(1))
        for hd, bk, mk, sl in bodies:
            at = []
            for b in bk:
                for e in b.facts[len(hd.facts):]:
                    atoms(e, at)
            for l, r in at:
                for a, t in ((l, r), (r, l)):
                    a, t = remap(sl, a), remap(sl, t)
                    if a.get_id() != s.sym.get_id() and s.sym.get_id() in consts(a):
                        p = coef(a, s.sym)
                        if p is not None:
                            t = z3.simplify(t - p[1].z() if p[0] == 1 else p[1].z() - t)
                            a = s.sym
                    if a.get_id() == s.sym.get_id() and not any(isnew(y, mark) for y in consts(t).values()) and s.sym.get_id() not in consts(t):
                        tries.append(t - s.sym)
                        tries.append(s.sym - t)
    seen = set()
    for t in tries:
        if eid(t) in seen:
            continue
        seen.add(eid(t))
        ok = True
        for hd, bk, mk, sl in bodies:
            h = spec.sub(V, hd, t)
            for b in bk:
                v = spec.sub(V, b, t)
                if v is None or h is None or not V.quick(b, z3.And(h >= 0, v < h)):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            spec.var = t
            break
    if V.log:
        V.log("auto %s: %d candidates %s variant %s" % (spec.tag, len(spec.cands), [l for l, _ in spec.cands], spec.var))
        if __import__('os').environ.get('AUTOLOG'):
            for l, e in spec.cands:
                V.log("     %s: %s" % (l, str(e).replace("\n", " ")[:300]))
