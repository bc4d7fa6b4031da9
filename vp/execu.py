"""Instruction stepping, control flow, loops, calls and builtin contracts."""
import copy
import itertools
import re
import z3
import ir
from values import *
from engine import *
from engine import _nm
import auto

MAXALLOC = 1 << 46


class Exec(V):
    # ------------------------------------------------------------ driver
    def call_function(self, st, name, args, base_inline=True):
        """run the body of function `name` from state st; returns list of Outcome"""
        fn = self.prog.func(name)
        if fn is None:
            raise Tool("no body for " + name)
        fr = Frame(fn)
        self.bind_args(st, fr, args, {})
        depth = len(st.frames)
        st.frames.append(fr)
        return self.run([st], depth)

    def bind_args(self, st, fr, args, byval):
        fn = fr.fn
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else UNDEF
            if i in fn.byval and isinstance(a, PV):
                ty = fn.byval[i]
                r = self.new_region(st, p.name or "byval", ty.size, 'stack')
                r.ty = ty
                fr.allocas.append(r)
                self.memcpy(st, PV(r, 0), a, Lin(ty.size), None)
                a = PV(r, 0)
                fr.an[p.name] = r
            fr.vals[p.id] = a

    def run(self, sts, base):
        outs = []
        work = list(sts)
        while work:
            st = work.pop()
            if st.dead:
                continue
            try:
                r = self.advance(st, base)
            except Tool as e:
                if self.dry:
                    raise
                if self.log:
                    self.log("TOOL %s at %s" % (e, self.where(st)))
                o = Oblig()
                o.name, o.kind, o.where, o.status, o.how, o.time, o.detail, o.model = "verifier reaches every instruction", 'tool', self.where(st), 'tool', str(e), 0, str(e), None
                self.obligs.append(o)
                continue
            for x in r:
                if isinstance(x, Outcome):
                    if not x.st.dead:
                        outs.append(x)
                        self.stats['paths'] += 1
                elif not x.dead:
                    work.append(x)
        return outs

    def advance(self, st, base):
        while True:
            if st.dead:
                return []
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.ip]
            self.stats['instrs'] += 1
            r = self.step(st, f, ins, base)
            if r is not None:
                return r

    # ------------------------------------------------------------ control flow
    def goto(self, st, target):
        """returns None to continue in st, or a list of states/outcomes"""
        f = st.frames[-1]
        depth = len(st.frames) - 1
        while f.loops and target not in f.loops[-1].blocks:
            rec = f.loops.pop()
            if rec.dry:
                st.dead = True
                return []
        if f.loops and f.loops[-1].hdr == target:
            rec = f.loops[-1]
            self.jump(st, f, target)
            return self.backedge(st, rec)
        if target in f.fn.loops:
            inside = f.blk in f.fn.loops[target]
            spec = self.find_spec(st, f, target)
            if spec is None and self.autoloops:
                f2 = st.copy()
                self.jump(f2, f2.frames[-1], target)
                if auto.probe(self, f2, f2.frames[-1]):
                    spec = auto.AutoSpec(f.fn)
            if spec is None:
                if inside:
                    f.counts[target] = f.counts.get(target, 0) + 1
                else:
                    f.counts[target] = 0
                if f.counts[target] > self.unroll_limit:
                    raise Tool("loop without invariant in %s" % f.fn.dem[:160])
                self.jump(st, f, target)
                return None
            return self.enter_loop(st, f, target, spec)
        self.jump(st, f, target)
        return None

    def jump(self, st, f, target):
        prev = f.blk
        f.prev = prev
        f.blk = target
        f.ip = 0
        B = f.fn.blocks[target]
        vals = []
        for ins in B.ins:
            if ins.op != 'phi':
                break
            for pb, o in ins.x:
                if pb == prev:
                    vals.append((ins.id, self.val(st, f, o)))
                    break
            f.ip += 1
        for i, v in vals:
            f.vals[i] = v

    def find_spec(self, st, f, hdr):
        hdrs = sorted(f.fn.loops)
        nth = hdrs.index(hdr)
        cands = []
        for sp in self.loopspecs:
            if sp.fn.search(f.fn.dem):
                if sp.nth is not None and sp.nth != nth:
                    continue
                v = View(self, st, f)
                if all(v.has(n) for n in sp.names):
                    return auto.Mixed(f.fn, sp, {}) if self.mixed and not sp.vecs and not getattr(sp, 'unroll', False) else sp
        return self.renamed(st, f, hdr, nth)

    def renamed(self, st, f, hdr, nth):
        """fallback for refactored code: the spec of this function with renamed locals, if its invariant then holds at the start"""
        v = View(self, st, f)
        local = None
        for sp in self.loopspecs:
            if not sp.names or not sp.fn.search(f.fn.dem) or sp.nth is not None and sp.nth != nth:
                continue
            missing = [n for n in sp.names if not v.has(n)]
            if not missing:
                continue
            if local is None:
                local = self.stored_locals(f, hdr)
            free = [n for n in local if n not in sp.names]
            key = (f.fn.name, hdr, id(sp))
            if key not in self.renames:
                best = None
                for pick in itertools.islice(itertools.permutations(free, len(missing)), 12):
                    kinds = itertools.product(*[(n, ('ptr', n), ('down', n)) for n in pick]) if len(pick) == 1 else [pick]
                    for how in kinds:
                        alias = dict(zip(missing, how))
                        k = self.fits(st, f, sp, alias)
                        if k is not None and (best is None or k > best[0]):
                            best = k, alias
                self.renames[key] = best and best[1]
            if self.renames[key]:
                if not sp.vecs:
                    return auto.Mixed(f.fn, sp, self.renames[key])
                s2 = copy.copy(sp)
                s2.alias = self.renames[key]
                return s2
        return None

    def stored_locals(self, f, hdr):
        ids = {i: n for n, i in f.an.items()}
        out = []
        for b in f.fn.loops[hdr]:
            for ins in f.fn.blocks[b].ins:
                if ins.op == 'store':
                    t = f.vals.get(getattr(ins.ops[1], 'id', None))
                    if isinstance(t, PV) and t.reg in ids and ids[t.reg] not in out:
                        out.append(ids[t.reg])
        return [n[:-5] if n.endswith('.addr') else n for n in out]

    def fits(self, st, f, sp, alias):
        try:
            probe = st.copy()
            f2 = probe.frames[-1]
            rec = LoopRec()
            rec.spec, rec.entry, rec.depth, rec.mods = sp, probe, len(probe.frames) - 1, set()
            rec.ord = rec.var0 = rec.vecs = None
            v = View(self, probe, f2, rec, alias)
            if sp.vecs:
                rec.vecs = sp.vecs(v)
            known = 0
            for lab, g in sp.inv(v):
                g = z3.BoolVal(g) if isinstance(g, bool) else g
                if self.prove(probe, g)[0] == 'ok':
                    known += 1
                elif not self.feasible(probe, g):
                    return None
            if sp.variant:
                sp.variant(v)
            return known
        except (KeyError, AttributeError, TypeError, z3.Z3Exception):
            return None

    def enter_loop(self, st, f, hdr, spec):
        depth = len(st.frames) - 1
        self.jump(st, f, hdr)
        rec = LoopRec()
        rec.hdr = hdr
        rec.fn = f.fn
        rec.blocks = f.fn.loops[hdr]
        rec.spec = spec
        rec.depth = depth
        rec.entry = st.copy()
        rec.mods = set()
        rec.kinds = {}
        rec.dry = False
        rec.backs = []
        rec.var0 = None
        rec.ord = None
        rec.alias = {}
        tag = spec.tag
        # initially
        view = View(self, st, f, rec)
        if spec.vecs:
            rec.vecs = spec.vecs(view)
            for vc in rec.vecs:
                for lab, g in vc.wf(self, st):
                    self.oblige(st, "loop invariant initially: %s [%s]" % (lab, tag), g, 'invariant')
        for lab, g in spec.inv(view):
            self.oblige(st, "loop invariant initially: %s [%s]" % (lab, tag), g, 'invariant')
        if st.dead:
            return []
        # modified set
        guard = 0
        while True:
            guard += 1
            if guard > 8:
                raise Tool("modified set of loop does not stabilise")
            self.dry += 1
            rec.dry = True
            rec.backs = []
            save_obl = len(self.obligs)
            try:
                for s in self.havoc_loop(st, rec):
                    fr = s.frames[-1]
                    for lab, g in spec.inv(View(self, s, fr, rec)):
                        s.assume(g)
                    if spec.lemma:
                        s.assume(*spec.lemma(View(self, s, fr, rec)))
                    fr.loops.append(rec)
                    rec.wstart = len(s.wlog)
                    self.run([s], 0)
            finally:
                self.dry -= 1
                rec.dry = False
            new = set()
            for b in rec.backs:
                for w in b.wlog[rec.wstart:]:
                    if w[0] in rec.entry.mem:
                        new.add(w)
                for w in new:
                    if w[1] == 'c':
                        rs = b.mem[w[0]]
                        c = rs.cells.get(w[2])
                        rec.kinds.setdefault(w, [])
                        rec.kinds[w].append(c[1] if c else None)
            if getattr(spec, 'auto', False) and not spec.vecs:
                from specs import bytesobj
                old, rec.mods = rec.mods, rec.mods | new
                vs = bytesobj.find(self, st, rec)
                rec.mods = old
                if vs:
                    spec.vecs = lambda view: vs
                    rec.vecs = vs
                    for vc in vs:
                        for lab, g in vc.wf(self, st):
                            self.oblige(st, "loop invariant initially: %s [%s]" % (lab, tag), g, 'invariant')
                    continue
            if spec.vecs and getattr(spec, 'auto', False):
                gone = {vc.buf(rec.entry).reg.id for vc in rec.vecs if vc.buf(rec.entry).reg is not None}
                rec.mods = {w for w in rec.mods if w[0] not in gone}
                new = {w for w in new if w[0] not in gone}
            if new <= rec.mods and guard > 1:
                break
            stable = new <= rec.mods
            rec.mods |= new
            if stable and not new:
                break
        if getattr(spec, 'auto', False):
            auto.infer(self, st, rec, spec)
            for lab, g in spec.inv(view):
                self.oblige(st, "loop invariant initially: %s [%s]" % (lab, tag), g, 'invariant')
        states = self.havoc_loop(st, rec)
        res = []
        for s in states:
            fr = s.frames[-1]
            vw = View(self, s, fr, rec)
            for lab, g in spec.inv(vw):
                s.assume(g)
            if spec.lemma:
                s.assume(*spec.lemma(vw))
            r2 = rec
            if len(states) > 1:
                r2 = LoopRec()
                for sl in LoopRec.__slots__:
                    if sl != 'id':
                        try:
                            setattr(r2, sl, getattr(rec, sl))
                        except AttributeError:
                            pass
            if spec.variant:
                r2.var0 = spec.variant(vw)
            fr.loops.append(r2)
            r2.wstart = len(s.wlog)
            if self.feasible(s):
                res.append(s)
        return res

    def havoc_loop(self, st, rec):
        s = st.copy()
        out = [s]
        by = {}
        skip = set()
        if rec.spec.vecs:
            for vc in rec.vecs:
                skip |= vc.cells(st)
        for w in rec.mods:
            if not (w[1] == 'c' and (w[0], w[2]) in skip):
                by.setdefault(w[0], []).append(w)
        for rid in sorted(by):
            reg = regions_by_id[rid]
            for w in sorted(by[rid], key=str):
                if w[1] == 'c':
                    _, _, off, size = w
                    ent = rec.entry.mem[rid].cells.get(off)
                    kinds = [k for k in rec.kinds.get(w, [])]
                    nxt = []
                    for t in out:
                        nxt += self.havoc_cell(t, reg, off, size, ent[1] if ent else None, kinds, rec)
                    out = nxt
                elif w[1] == 'a':
                    for t in out:
                        rs = t.wrs(reg)
                        k = (w[2], w[3])
                        if k in rs.arrs:
                            rs.arrs[k] = z3.FreshConst(rs.arrs[k].sort(), _nm(reg))
                            t.wlog.append(w)
                        elif rs.kind == 'obj':
                            # the body turns the object into an array
                            self.to_arr(t, reg, w[3])
                            rs = t.wrs(reg)
                            rs.arrs[k] = z3.FreshConst(rs.arrs[k].sort(), _nm(reg))
                            t.wlog.append(w)
                elif w[1] == 'l':
                    for t in out:
                        rs = t.wrs(reg)
                        k = (w[2], w[3])
                        if k in rs.live:
                            rs.live[k] = z3.FreshConst(BARR, "live_" + _nm(reg))
                            t.wlog.append(w)
                elif w[1] == 'alive':
                    if not rec.spec.vecs or reg not in [vc.buf(rec.entry).reg for vc in rec.vecs]:
                        raise Tool("loop frees a block that existed before it")
        if rec.spec.havoc:
            for t in out:
                rec.spec.havoc(View(self, t, t.frames[rec.depth], rec))
        if rec.spec.vecs:
            for vc in rec.vecs:
                if any(w[1] == 'c' and (w[0], w[2]) in vc.cells(st) for w in rec.mods) or any(w[0] == (vc.buf(st).reg.id if vc.buf(st).reg else -1) for w in rec.mods):
                    nxt = []
                    for t in out:
                        nxt += vc.havoc(self, t)
                    out = nxt
        return out

    def havoc_cell(self, st, reg, off, size, ent, kinds, rec):
        rs = st.wrs(reg)
        w = (reg.id, 'c', off, size)
        if ent is None or (isinstance(ent, Undef)):
            rs.cells.pop(off, None)
            st.wlog.append(w)
            return [st]
        if any(k is None for k in kinds):
            # absent at the end of the body: an element destroyed, treat as not comparable
            if isinstance(ent, EV):
                raise Tool("element lifetime differs between loop iterations (%s+%s)" % (reg, off))
            rs.cells.pop(off, None)
            st.wlog.append(w)
            return [st]
        st.wlog.append(w)
        nm = _nm(reg)
        if isinstance(ent, EV):
            rs.cells[off] = (size, EV(ent.cls, z3.FreshInt(nm)))
            return [st]
        if isinstance(ent, FV):
            rs.cells[off] = (size, FV(ent.w, z3.FreshConst(z3.BitVecSort(ent.w), nm)))
            return [st]
        allv = [ent] + kinds
        if any(isinstance(v, BVV) for v in allv):
            wd = [v.w for v in allv if isinstance(v, (BVV, IV))][0]
            if any(isinstance(v, IV) and v.const is None for v in allv):
                l = self.fresh_int(st, wd, nm)
                rs.cells[off] = (size, l)
            else:
                rs.cells[off] = (size, BVV(wd, z3.FreshConst(z3.BitVecSort(wd), nm)))
            return [st]
        if isinstance(ent, (IV, B1)) and not any(isinstance(v, PV) for v in allv):
            wd = ent.w if isinstance(ent, IV) else 1
            if isinstance(ent, B1) and all(isinstance(v, B1) for v in allv):
                rs.cells[off] = (size, B1(z3.FreshConst(z3.BoolSort(), nm)))
                return [st]
            sg = any(isinstance(v, IV) and v.sg for v in allv)
            rs.cells[off] = (size, self.fresh_int(st, wd, nm, sg))
            return [st]
        if any(isinstance(v, PV) for v in allv):
            regs = []
            for v in allv:
                if isinstance(v, IV):
                    v = self.i2p(st, v.lin)
                if not isinstance(v, PV):
                    raise Tool("loop variable %s holds mixed kinds" % nm)
                if v.reg not in regs:
                    regs.append(v.reg)
            outs = []
            for j, rg in enumerate(regs):
                t = st if j == len(regs) - 1 else st.copy()
                if rg is not None and rg.id not in rec.entry.mem:
                    if rec.spec.havoc:
                        continue
                    raise Tool("loop stores a pointer to memory allocated in the loop (%s)" % nm)
                if rg is None:
                    p = NULL
                elif rg.heap == 'func':
                    p = PV(rg, 0)
                else:
                    ps = [v for v in allv if isinstance(v, PV) and v.reg is rg]
                    rr = t.rs(rg)
                    stride = rr.stride if rr.kind == 'arr' and rr.stride else 1
                    if all(v.off.const is not None and v.off.c == ps[0].off.c for v in ps):
                        p = ps[0]
                    elif rr.kind == 'obj' and rg.ghost.get('awin') and all((v.off - rg.ghost['awin'][0]).divisible(rg.ghost['awin'][2]) for v in ps):
                        p = PV(rg, fresh_lin(nm).scale(rg.ghost['awin'][2]) + rg.ghost['awin'][0])
                    elif all((v.off - rr.base).divisible(stride) for v in ps):
                        p = PV(rg, fresh_lin(nm).scale(stride) + rr.base)
                    else:
                        p = PV(rg, fresh_lin(nm))
                t.wrs(reg).cells[off] = (size, p)
                outs.append(t)
            return outs
        raise Tool("cannot havoc %r in %s" % (ent, reg))

    def backedge(self, st, rec):
        if rec.dry:
            rec.backs.append(st)
            st.dead = True
            return []
        spec = rec.spec
        f = st.frames[-1]
        view = View(self, st, f, rec)
        if spec.vecs:
            keep = set()
            for vc in rec.vecs:
                for lab, g in vc.wf(self, st):
                    self.oblige(st, "loop invariant preserved: %s [%s]" % (lab, spec.tag), g, 'invariant')
                b = vc.buf(st).reg
                if b is not None:
                    keep.add(b.id)
            if st.dead:
                return []
            for r in st.mem:
                if r not in rec.entry.mem and ('allocd', r) in st.g and st.mem[r].alive and r not in keep:
                    self.oblige(st, "no block allocated in the loop body is lost [%s]" % spec.tag, z3.BoolVal(False), 'lifetime')
                    break
        for w in st.wlog[rec.wstart:]:
            if w[0] in rec.entry.mem and w not in rec.mods and not (spec.vecs and (w[1] == 'alive' and w[0] in [vc.buf(rec.entry).reg.id for vc in rec.vecs if vc.buf(rec.entry).reg is not None] or len(w) > 2 and (w[0], w[2]) in set().union(*[vc.cells(st) for vc in rec.vecs]))):
                raise Tool("internal: write outside the havocked set %r" % (w,))
        if spec.lemma:
            st.assume(*spec.lemma(view))
        for lab, g in spec.inv(view):
            self.oblige(st, "loop invariant preserved: %s [%s]" % (lab, spec.tag), g, 'invariant')
        if spec.variant is not None and rec.var0 is not None:
            v = spec.variant(view)
            if isinstance(v, tuple):
                v0 = rec.var0
                dec = z3.BoolVal(False)
                for j in reversed(range(len(v))):
                    dec = z3.Or(z3.And(v0[j] >= 0, v[j] < v0[j]), z3.And(v[j] == v0[j], dec))
                self.oblige(st, "loop terminates: variant decreases [%s]" % spec.tag, dec, 'termination')
            else:
                self.oblige(st, "loop terminates: variant decreases [%s]" % spec.tag, z3.And(rec.var0 >= 0, v < rec.var0), 'termination')
        st.dead = True
        return []

    # ------------------------------------------------------------ step
    def branch(self, st, cond, t1, t2):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return self.goto(st, t1)
        if z3.is_false(cond):
            return self.goto(st, t2)
        a = self.feasible(st, cond)
        b = self.feasible(st, z3.Not(cond))
        if a and b:
            s2 = st.copy()
            st.assume(cond)
            s2.assume(z3.Not(cond))
            r1 = self.goto(st, t1)
            r2 = self.goto(s2, t2)
            return (r1 if r1 is not None else [st]) + (r2 if r2 is not None else [s2])
        if a:
            st.assume(cond)
            return self.goto(st, t1)
        if b:
            st.assume(z3.Not(cond))
            return self.goto(st, t2)
        st.dead = True
        return []

    def step(self, st, f, ins, base):
        op = ins.op
        if op == 'load':
            p = self.val(st, f, ins.ops[0])
            if isinstance(p, Undef):
                self.defd(st, p, ins, "pointer")
                return []
            f.vals[ins.id] = self.load(st, p, ins.ty, ins)
            f.ip += 1
            return None
        if op == 'store':
            v = self.val(st, f, ins.ops[0])
            p = self.val(st, f, ins.ops[1])
            if isinstance(p, Undef):
                self.defd(st, p, ins, "pointer")
                return []
            o = ins.ops[0]
            self.store(st, p, v, o.ty, ins)
            f.ip += 1
            return None
        if op == 'alloca':
            n = self.val(st, f, ins.ops[0])
            nm = ins.name or "tmp"
            sz = Lin(ins.x.size)
            if n.const != 1:
                sz = self.as_u(st, n).scale(ins.x.size)
            r = self.new_region(st, nm, sz, 'stack')
            r.ty = ins.x
            f.allocas.append(r)
            f.an[nm] = r
            f.vals[ins.id] = PV(r, 0)
            f.ip += 1
            return None
        if op == 'getelementptr':
            vs = [self.val(st, f, o) for o in ins.ops]
            if isinstance(vs[0], Undef):
                self.defd(st, vs[0], ins, "pointer")
                return []
            f.vals[ins.id] = self.gep(st, ins.x, vs)
            f.ip += 1
            return None
        if op == 'br':
            if not ins.ops:
                return self.goto(st, ins.x[0])
            c = self.val(st, f, ins.ops[0])
            if isinstance(c, Undef):
                self.defd(st, c, ins, "branch condition")
                return []
            return self.branch(st, c.b, ins.x[0], ins.x[1])
        if op in ('call', 'invoke'):
            return self.do_call(st, f, ins, base)
        if op == 'ret':
            v = self.val(st, f, ins.ops[0]) if ins.ops else None
            return self.do_ret(st, v, base)
        if op == 'icmp':
            a = self.val(st, f, ins.ops[0])
            b = self.val(st, f, ins.ops[1])
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.defd(st, UNDEF, ins, "compared value")
                return []
            f.vals[ins.id] = B1(z3.simplify(self.icmp(st, ins.x, a, b, ins)))
            f.ip += 1
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.val(st, f, ins.ops[0])
            b = self.val(st, f, ins.ops[1])
            if op == 'and' and isinstance(a, Undef) and self.bitfields and getattr(b, 'const', None) is not None:
                a = self.fresh_int(st, ins.ty.w, "unset_bits")   # clears a bit-field of a byte whose other bits were never set
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.defd(st, UNDEF, ins, "operand")
                return []
            f.vals[ins.id] = self.binop(st, ins, op, a, b, ins.ty.w)
            f.ip += 1
            return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = self.val(st, f, ins.ops[0])
            if isinstance(a, Undef):
                f.vals[ins.id] = Undef(ins.ty)
                f.ip += 1
                return None
            ty = ins.ty
            if op == 'zext':
                if isinstance(a, B1):
                    r = IV(ty.w, Lin.of(self.b1_int(a)))
                elif isinstance(a, BVV):
                    r = BVV(ty.w, z3.ZeroExt(ty.w - a.w, a.bv))
                else:
                    r = IV(ty.w, self.as_u(st, a))
            elif op == 'sext':
                if isinstance(a, B1):
                    r = IV(ty.w, -Lin.of(self.b1_int(a)), True)
                elif isinstance(a, BVV):
                    r = BVV(ty.w, z3.SignExt(ty.w - a.w, a.bv))
                else:
                    l = self.as_s(st, a)
                    r = IV(ty.w, l, True)
            elif op == 'trunc':
                r = self.trunc(st, a, ty.w)
            elif op == 'ptrtoint':
                r = IV(64, self.p2i(st, a)) if isinstance(a, PV) else a
            elif op == 'inttoptr':
                r = self.i2p(st, a.lin) if isinstance(a, IV) else a
            else:
                r = a
            f.vals[ins.id] = r
            f.ip += 1
            return None
        if op == 'select':
            c = self.val(st, f, ins.ops[0])
            a = self.val(st, f, ins.ops[1])
            b = self.val(st, f, ins.ops[2])
            cb = z3.simplify(c.b)
            if z3.is_true(cb) or z3.is_false(cb):
                f.vals[ins.id] = a if z3.is_true(cb) else b
                f.ip += 1
                return None
            if isinstance(a, IV) and isinstance(b, IV):
                x, y = self.as_u(st, a), self.as_u(st, b)
                f.vals[ins.id] = IV(a.w, Lin.of(z3.If(cb, x.z(), y.z())))
                f.ip += 1
                return None
            s2 = st.copy()
            st.assume(cb)
            s2.assume(z3.Not(cb))
            f.vals[ins.id] = a
            s2.frames[-1].vals[ins.id] = b
            f.ip += 1
            s2.frames[-1].ip += 1
            return [s for s in (st, s2) if self.feasible(s)]
        if op == 'switch':
            v = self.val(st, f, ins.ops[0])
            if isinstance(v, Undef):
                self.defd(st, v, ins, "switch value")
                return []
            dflt, cases = ins.x
            if isinstance(v, IV) and v.const is not None:
                for c, t in cases:
                    if c == v.const:
                        return self.goto(st, t)
                return self.goto(st, dflt)
            out = []
            rest = []
            for c, t in cases:
                e = self.icmp(st, 'eq', v, IV(v.w, c), ins)
                rest.append(z3.Not(e))
                if self.feasible(st, e):
                    s = st.copy()
                    s.assume(e)
                    r = self.goto(s, t)
                    out += r if r is not None else [s]
            if self.feasible(st, z3.And(*rest)):
                st.assume(z3.And(*rest))
                r = self.goto(st, dflt)
                out += r if r is not None else [st]
            return out
        if op == 'unreachable':
            self.fail(st, "control does not reach 'unreachable'", 'safety', ins)
            return []
        if op == 'extractvalue':
            a = self.val(st, f, ins.ops[0])
            for i in ins.x:
                a = a.vs[i] if isinstance(a, AG) else UNDEF
            f.vals[ins.id] = a
            f.ip += 1
            return None
        if op == 'insertvalue':
            a = self.val(st, f, ins.ops[0])
            v = self.val(st, f, ins.ops[1])
            f.vals[ins.id] = self.insval(a, v, ins.x, ins.ty)
            f.ip += 1
            return None
        if op == 'landingpad':
            f.vals[ins.id] = st.g['lpad']
            f.ip += 1
            return None
        if op == 'resume':
            return self.unwind(st, base, resume=True)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            f.vals[ins.id] = self.fpop(st, f, ins, op)
            f.ip += 1
            return None
        if op == 'phi':
            raise Tool("phi in the middle of a block")
        raise Tool("instruction " + op)

    def insval(self, a, v, idx, ty):
        n = len(ty.els) if ty.k == 'struct' else ty.n
        vs = list(a.vs) if isinstance(a, AG) else [UNDEF] * n
        if len(idx) == 1:
            vs[idx[0]] = v
        else:
            sub = ty.els[idx[0]] if ty.k == 'struct' else ty.el
            vs[idx[0]] = self.insval(vs[idx[0]], v, idx[1:], sub)
        return AG(vs)

    def realof(self, v):
        """(real value, condition) of a double with a known real reading"""
        if isinstance(v, RV):
            return v.real, v.ok
        if isinstance(v, FV) and v.w == 64:
            b = z3.simplify(v.bits)
            if z3.is_bv_value(b):
                import struct, math
                from fractions import Fraction
                x = struct.unpack('<d', b.as_long().to_bytes(8, 'little'))[0]
                if math.isfinite(x):
                    x = Fraction(x)
                    return z3.RealVal("%d/%d" % (x.numerator, x.denominator)), z3.BoolVal(True)
        return None

    def realop(self, st, ins, op, vs):
        """double arithmetic on integers below 2^53 read as reals with the rounding error IEEE 754 guarantees"""
        if op == 'uitofp' and ins.ty.size == 8 and isinstance(vs[0], IV):
            l = self.as_u(st, vs[0]).z()
            g = z3.Function("i2f64", ISORT, z3.BitVecSort(64))
            return RV(g(l), z3.ToReal(l), l < (1 << 53))
        r = [self.realof(v) for v in vs]
        if any(x is None for x in r) or not any(isinstance(v, RV) for v in vs):
            return None
        ok = z3.And(*[x[1] for x in r])
        if op in ('fmul', 'fdiv'):
            a, b = r[0][0], r[1][0]
            if not z3.is_rational_value(b) and (op == 'fdiv' or not z3.is_rational_value(a)):
                return None
            x = a * b if op == 'fmul' else a / b
            z = z3.FreshReal("fl")
            eps = z3.RealVal("1/%d" % (1 << 52))
            ok = z3.And(ok, x >= 0, z3.Or(x == 0, x >= z3.RealVal("1/1000000000000")), x <= z3.RealVal(10 ** 30))
            st.assume(z3.Implies(ok, z3.And(z >= x * (1 - eps), z <= x * (1 + eps))))
            return RV(z3.FreshConst(z3.BitVecSort(64), "fp"), z, ok)
        if op == 'fcmp' and ins.x in ('oeq', 'one', 'olt', 'ole', 'ogt', 'oge', 'ueq', 'une', 'ult', 'ule', 'ugt', 'uge'):
            a, b = r[0][0], r[1][0]
            t = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[ins.x[1:]]
            q = z3.FreshBool("fcmp")
            st.assume(z3.Implies(ok, q == t))
            return B1(q)
        if op == 'fptoui':
            w = ins.ty.w
            a = r[0][0]
            self.oblige(st, "float to integer conversion in range", z3.And(ok, a >= 0, a < (1 << w)), 'arith', ins)
            e = z3.FreshInt("f2i")
            st.assume(e >= 0, e < (1 << w), z3.ToReal(e) <= a, a < z3.ToReal(e) + 1)
            return IV(w, Lin.of(e))
        return None

    def fpop(self, st, f, ins, op):
        vs = [self.val(st, f, o) for o in ins.ops]
        if getattr(self, 'realfp', False):
            v = self.realop(st, ins, op, vs)
            if v is not None:
                return v
        rm = z3.RNE()
        S = {32: z3.Float32(), 64: z3.Float64()}
        if any(isinstance(v, Undef) for v in vs):
            self.defd(st, UNDEF, ins, "operand")
            return UNDEF
        if op == 'fneg':
            w = vs[0].w
            return FV(w, vs[0].bits ^ z3.BitVecVal(1 << (w - 1), w))
        if op == 'fcmp':
            a, b = vs[0].fp, vs[1].fp
            p = ins.x
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
                    'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}
            if p == 'ord':
                return B1(z3.Not(un))
            if p == 'uno':
                return B1(un)
            if p[0] == 'o':
                return B1(z3.And(z3.Not(un), base[p[1:]]()))
            return B1(z3.Or(un, base[p[1:]]()))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = vs[0].fp, vs[1].fp
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
            return self.fp_fresh(st, r, vs[0].w)
        if op in ('uitofp', 'sitofp'):
            w = ins.ty.size * 8
            v = vs[0]
            if isinstance(v, IV) and v.const is not None:
                c = v.const if op == 'uitofp' else v.sconst()
                return self.fp_fresh(st, z3.fpToFP(rm, z3.RealVal(c), S[w]), w)
            # abstract conversion: monotone on integers is all that may be used
            g = z3.Function("i2f%d" % w, ISORT, z3.BitVecSort(w))
            l = self.as_u(st, v) if op == 'uitofp' else self.as_s(st, v)
            st.g['i2f'] = True
            return FV(w, g(l.z()))
        if op in ('fptoui', 'fptosi'):
            v = vs[0]
            b = z3.simplify(v.bits)
            if z3.is_bv_value(b):
                import struct
                x = struct.unpack('<f' if v.w == 32 else '<d', b.as_long().to_bytes(v.w // 8, 'little'))[0]
                return IV(ins.ty.w, int(x))
            g = z3.Function("f2i%d" % v.w, z3.BitVecSort(v.w), ISORT)
            e = g(v.bits)
            w = ins.ty.w
            if op == 'fptoui':
                st.assume(e >= 0, e < (1 << w))
                return IV(w, Lin.of(e))
            st.assume(e >= -(1 << (w - 1)), e < (1 << (w - 1)))
            return IV(w, Lin.of(e), True)
        if op in ('fptrunc', 'fpext'):
            w = ins.ty.size * 8
            return self.fp_fresh(st, z3.fpToFP(rm, vs[0].fp, S[w]), w)
        raise Tool(op)

    def fp_fresh(self, st, fp, w):
        b = z3.FreshConst(z3.BitVecSort(w), "fp")
        s = z3.simplify(fp)
        if z3.is_fp_value(s) and not z3.is_fp(s) is False:
            bv = z3.simplify(z3.fpToIEEEBV(s))
            if z3.is_bv_value(bv):
                return FV(w, bv)
        st.assume(z3.fpBVToFP(b, z3.Float32() if w == 32 else z3.Float64()) == fp)
        return FV(w, b)

    # ------------------------------------------------------------ calls and returns
    def pop_frame(self, st, normal):
        f = st.frames.pop()
        for r in f.allocas:
            rs = st.mem.get(r.id)
            if rs is None:
                continue
            if normal:
                for o, (sz, v) in rs.cells.items():
                    if isinstance(v, EV):
                        self.oblige(st, "every local element is destroyed on return (%s)" % _nm(r), z3.BoolVal(False), 'lifetime')
                        break
                for k, lv in rs.live.items():
                    i = z3.Int("i")
                    w = r.ghost.get('awin')
                    n = (w[1] - w[0]) // w[2] if w else self.pidx(st, PV(r, r.size))
                    self.oblige(st, "every local element is destroyed on return (%s)" % _nm(r), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.Select(lv, i))), patterns=[z3.Select(lv, i)]), 'lifetime')
            del st.mem[r.id]
            st.own.discard(r.id)
        return f

    def do_ret(self, st, v, base):
        f = st.frames[-1]
        for rec in f.loops:
            if rec.dry:
                st.dead = True
                return []
        self.pop_frame(st, True)
        if st.dead:
            return []
        if len(st.frames) <= base:
            return [Outcome(st, 'ret', v)]
        g = st.frames[-1]
        ins = f.call
        if ins.ty.k != 'void':
            g.vals[ins.id] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.x['normal'])
        g.ip += 1
        return None

    def unwind(self, st, base, resume=False):
        """propagate st.exc from the current point"""
        first = True
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.ip]
            if not (first and resume) and ins.op == 'invoke':
                ub = f.fn.blocks[ins.x['unwind']]
                lp = [i for i in ub.ins if i.op == 'landingpad'][0]
                cleanup, clauses = lp.x
                sel = None
                ti = st.exc[1]
                for c in clauses:
                    if c.kind == 'null':
                        sel = IV(32, 1)
                        break
                    if c.kind == 'gref' and c.v == ti:
                        sel = self.typeid(c.v)
                        break
                if sel is None and cleanup:
                    sel = IV(32, 0)
                if sel is not None:
                    r = self.goto(st, ins.x['unwind'])
                    st.g['lpad'] = AG([st.exc[0], sel])
                    return r if r is not None else [st]
            for rec in f.loops:
                if rec.dry:
                    st.dead = True
                    return []
            if 'noexcept' in f.counts:
                return [Outcome(st, 'abort', 'exception leaves noexcept function')]
            self.pop_frame(st, False)
            first = False
            if len(st.frames) <= base:
                return [Outcome(st, 'throw', st.exc)]

    def typeid(self, name):
        return IV(32, 2 + (hash_str(name) % 100000))

    def do_call(self, st, f, ins, base):
        callee = ins.x['callee']
        if isinstance(callee, ir.Const) and callee.kind == 'gref':
            name = callee.v
        else:
            p = self.val(st, f, callee)
            if isinstance(p, PV) and p.reg is not None and p.reg.heap == 'func':
                name = p.reg.fname
            else:
                h = st.g.get('indirect')
                if h is None:
                    raise Tool("indirect call through %r" % (p,))
                args = [self.val(st, f, o) if o is not None else None for o in ins.ops]
                return self.finish_call(st, ins, h(self, st, p, args, ins), base)
        args = [self.val(st, f, o) if o is not None else None for o in ins.ops]
        h = self.handler(name, f.fn.mod)
        if h is None and self.nested:   # recursive calls by contract, the first one by its body
            dem = self.prog.dem(name)
            for rx, stub in self.nested:
                if rx.search(dem) and any(rx.search(g.fn.dem) for g in st.frames):
                    h = stub
        if isinstance(h, str):      # the contract of the callee, written as a function of the harness
            self.used_contracts.add(self.prog.dem(name))
            fn = self.prog.func(h)
        elif h is not None:
            r = h(self, st, args, ins)
            return self.finish_call(st, ins, r, base)
        else:
            fn = self.prog.func(name, f.fn.mod)
        if fn is None:
            raise Tool("call to unknown function %s" % self.prog.dem(name))
        if len(st.frames) > self.depth_limit:
            raise Tool("call depth limit (recursion without contract?) in %s" % fn.dem[:120])
        if sum(1 for g in st.frames if g.fn is fn) > 12:
            raise Tool("recursion without contract: %s" % fn.dem[:120] + str([g.fn.dem[:60] for g in st.frames][:4]))
        self.inlined.add(fn.dem)
        fr = Frame(fn, ins)
        self.bind_args(st, fr, args, ins.x['byval'])
        if st.dead:
            return []
        st.frames.append(fr)
        return None

    def finish_call(self, st, ins, r, base):
        """r: Value | None | list of Outcome"""
        if not isinstance(r, list):
            if st.dead:
                return []
            g = st.frames[-1]
            if ins.ty.k != 'void':
                g.vals[ins.id] = r if r is not None else UNDEF
            if ins.op == 'invoke':
                return self.goto(st, ins.x['normal'])
            g.ip += 1
            return None
        out = []
        for o in r:
            s = o.st
            if s.dead:
                continue
            if o.kind == 'ret':
                x = self.finish_call(s, ins, o.val, base)
                out += x if x is not None else [s]
            elif o.kind == 'throw':
                s.exc = o.val
                out += self.unwind(s, base)
            else:
                out.append(o)
        return out

    def handler(self, name, mod):
        if name in self.cc:
            return self.cc[name]
        dem = self.prog.dem(name)
        h = None
        for rx, hh in self.contracts:
            if rx.search(dem) or rx.search(name):
                h = hh
                break
        if h is None:
            h = self.opaque_handler(dem)
        if h is None:
            for rx, hh in BUILTINS:
                if rx.match(dem) or rx.match(name):
                    h = hh
                    break
        self.cc[name] = h
        return h

    def on(self, rx, h):
        self.contracts.append((re.compile(rx), h))
        self.cc.clear()

    def on_nested(self, rx, h):
        self.nested.append((re.compile(rx), h))

    def opaque_handler(self, dem):
        m = re.match(r"(\w+)::(~?)(\w+)\((.*)\)$", dem)
        if m and m.group(1) in self.opaque and m.group(3) == m.group(1):
            cls = m.group(1)
            if m.group(2):
                return lambda V, st, a, ins: V.elem_destroy(st, a[0], cls, ins)
            par = m.group(4)
            if par == "":
                return lambda V, st, a, ins: V.elem_set(st, a[0], cls, z3.Int("default_" + cls), ins, True, "constructor")
            if par == cls + " const&":
                def cc(V, st, a, ins):
                    v = V.elem_get(st, a[1], cls, ins, "copy constructor source")
                    if not st.dead:
                        V.elem_set(st, a[0], cls, v, ins, True, "copy constructor")
                return cc
            if par == cls + "&&":
                def mc(V, st, a, ins):
                    v = V.elem_get(st, a[1], cls, ins, "move constructor source")
                    if not st.dead:
                        V.elem_set(st, a[0], cls, v, ins, True, "move constructor")
                        V.elem_set(st, a[1], cls, JUNK, ins, False, "move constructor source")
                return mc
            if par in ("int", "unsigned long"):
                def ic(V, st, a, ins):
                    g = z3.Function("mk_" + cls, ISORT, ISORT)
                    V.elem_set(st, a[0], cls, g(V.as_s(st, a[1]).z()), ins, True, "constructor")
                return ic
        m = re.match(r"(\w+)::operator=\((.*)\)$", dem)
        if m and m.group(1) in self.opaque:
            cls = m.group(1)
            if m.group(2) == cls + " const&":
                def ca(V, st, a, ins):
                    v = V.elem_get(st, a[1], cls, ins, "copy assignment source")
                    if not st.dead:
                        V.elem_set(st, a[0], cls, v, ins, False, "copy assignment")
                    return a[0]
                return ca
            if m.group(2) == cls + "&&":
                def ma(V, st, a, ins):
                    v = V.elem_get(st, a[1], cls, ins, "move assignment source")
                    if not st.dead:
                        V.elem_set(st, a[0], cls, v, ins, False, "move assignment")
                        V.elem_set(st, a[1], cls, JUNK, ins, False, "move assignment source")
                    return a[0]
                return ma
        m = re.match(r"(\w+)::operator(==|<|>|<=|>=|!=)\((\w+) const&\) const$", dem)
        if m and m.group(1) in self.opaque and m.group(1) == m.group(3):
            cls, o = m.group(1), m.group(2)

            def rel(V, st, a, ins):
                x = V.elem_get(st, a[0], cls, ins, "comparison operand")
                y = V.elem_get(st, a[1], cls, ins, "comparison operand")
                V.not_junk(st, x, y, ins)
                if o in ('==', '!='):
                    g = z3.Function("eq_" + cls, ISORT, ISORT, z3.BoolSort())
                    e = g(x, y)
                    ax = [z3.Implies(e, KEY(x) == KEY(y)), z3.Implies(x == y, e)]
                    if getattr(V, 'eq_is_key', True):
                        ax = [e == (KEY(x) == KEY(y))]
                    st.assume(*ax)
                    return B1(e if o == '==' else z3.Not(e))
                kx, ky = KEY(x), KEY(y)
                return B1({'<': kx < ky, '>': kx > ky, '<=': kx <= ky, '>=': kx >= ky}[o])
            return rel
        return None

    def not_junk(self, st, x, y, ins):
        self.oblige(st, "comparison does not look at a moved-from element", z3.And(x != JUNK, y != JUNK), 'lifetime', ins)

    def elem_at(self, st, pv, cls, size, ins):
        """element value at pv: opaque class or integer of the given size"""
        if cls:
            return self.elem_get(st, pv, cls, ins, "comparison operand")
        v = self.load(st, pv, ir.Ty('int', w=8 * size, size=size), ins)
        if st.dead:
            return z3.IntVal(0)
        if isinstance(v, Undef):
            self.defd(st, v, ins)
            return z3.IntVal(0)
        return self.as_u(st, v).z()


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


# ---------------------------------------------------------------- builtins
BUILTINS = []


def builtin(rx):
    def d(h):
        BUILTINS.append((re.compile(rx + r"$"), h))
        return h
    return d


@builtin(r"llvm\.(dbg|lifetime|invariant|assume|experimental|donothing|prefetch).*")
def _nop(V, st, a, ins):
    return None


@builtin(r"llvm\.expect.*")
def _expect(V, st, a, ins):
    return a[0]


@builtin(r"llvm\.is\.constant.*")
def _isc(V, st, a, ins):
    return B1(False)


@builtin(r"llvm\.memcpy.*|memcpy")
def _memcpy(V, st, a, ins):
    V.memcpy(st, a[0], a[1], V.as_u(st, a[2]), ins)
    return a[0]


@builtin(r"llvm\.memmove.*|memmove")
def _memmove(V, st, a, ins):
    V.memcpy(st, a[0], a[1], V.as_u(st, a[2]), ins, move=True)
    return a[0]


@builtin(r"llvm\.memset.*|memset")
def _memset(V, st, a, ins):
    V.memset(st, a[0], a[1], V.as_u(st, a[2]), ins)
    return a[0]


def alloc(V, st, n, heap, name="heap", zero=False):
    V.assumptions.add("memory allocation succeeds (requests beyond the address space are not granted)")
    st.assume(n.z() <= MAXALLOC)
    if n.const is not None and n.c <= 4096 and not (heap == 'newarr' and V.arr_new):
        r = V.new_region(st, name, n, heap)
    else:
        r = V.new_region(st, name, n, heap, 'arr', None)
    st.mem[r.id].zero = zero
    r.ghost['align'] = 16
    st.g[('allocd', r.id)] = True
    return PV(r, 0)


@builtin(r"malloc")
def _malloc(V, st, a, ins):
    return alloc(V, st, V.as_u(st, a[0]), 'malloc')


@builtin(r"aligned_alloc")
def _aalloc(V, st, a, ins):
    return alloc(V, st, V.as_u(st, a[1]), 'malloc')


@builtin(r"calloc")
def _calloc(V, st, a, ins):
    x, y = V.as_u(st, a[0]), V.as_u(st, a[1])
    return alloc(V, st, V.lin_op('mul', x, y), 'malloc', zero=True)


@builtin(r"operator new\(unsigned long\)|_Znwm")
def _new(V, st, a, ins):
    return alloc(V, st, V.as_u(st, a[0]), 'new')


@builtin(r"operator new\[\]\(unsigned long\)|_Znam")
def _newa(V, st, a, ins):
    return alloc(V, st, V.as_u(st, a[0]), 'newarr')


@builtin(r"operator new\(unsigned long, void\*\)")
def _pnew(V, st, a, ins):
    return a[1]


def release(V, st, p, kind, ins):
    if isinstance(p, Undef):
        V.defd(st, p, ins, "freed pointer")
        return
    if p.reg is None:
        if p.off.const == 0:
            return
        V.oblige(st, "free of a heap block", p.off.z() == 0, 'lifetime', ins)
        return
    rs = st.mem.get(p.reg.id)
    if rs is None:
        raise Tool("free of unknown region")
    if p.reg.heap not in kind:
        V.fail(st, "release matches the allocation (%s released as %s)" % (p.reg.heap, kind[0]), 'lifetime', ins)
        return
    V.oblige(st, "release of the start of the block", p.off.z() == 0, 'lifetime', ins)
    if not rs.alive:
        V.fail(st, "block is released only once", 'lifetime', ins)
        return
    if st.dead:
        return
    for o, (sz, v) in rs.cells.items():
        if isinstance(v, EV):
            V.fail(st, "no live element in a released block", 'lifetime', ins)
            return
    for k, lv in rs.live.items():
        i = z3.Int("i")
        n = V.pidx(st, PV(p.reg, p.reg.size))
        V.oblige(st, "no live element in a released block", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.Select(lv, i))), patterns=[z3.Select(lv, i)]), 'lifetime', ins)
    rs = st.wrs(p.reg)
    rs.alive = False
    st.wlog.append((p.reg.id, 'alive'))


@builtin(r"free")
def _free(V, st, a, ins):
    release(V, st, a[0], ('malloc',), ins)


@builtin(r"operator delete\(void\*(, unsigned long)?\)")
def _del(V, st, a, ins):
    release(V, st, a[0], ('new',), ins)


@builtin(r"operator delete\[\]\(void\*(, unsigned long)?\)")
def _dela(V, st, a, ins):
    release(V, st, a[0], ('newarr',), ins)


@builtin(r"abort|std::terminate\(\)|__clang_call_terminate|_exit|exit")
def _abort(V, st, a, ins):
    return [Outcome(st, 'abort', 'abort')]


@builtin(r"__assert_fail")
def _assertfail(V, st, a, ins):
    return [Outcome(st, 'abort', 'assert')]


@builtin(r"llvm\.trap|llvm\.ubsantrap")
def _trap(V, st, a, ins):
    V.fail(st, "trap is unreachable", 'safety', ins)
    return []


@builtin(r"printf|puts|fprintf|fputs|fflush|putchar|perror|fwrite|fputc")
def _print(V, st, a, ins):
    return V.fresh_int(st, 32, "printed", True)


@builtin(r"pystd202[56]::bootstrap_throw\(char const\*\)")
def _bthrow(V, st, a, ins):
    return [Outcome(st, 'throw', (PV(None, 1), 'PyException'))]


@builtin(r"pystd202[56]::internal_failure\(char const\*\)")
def _ifail(V, st, a, ins):
    return [Outcome(st, 'abort', 'internal_failure')]


@builtin(r"pystd202[56]::PyException::PyException\((char const\*|pystd202[56]::\w+( const&|&&)?)\)")
def _pyexc(V, st, a, ins):
    return None


@builtin(r"pystd202[56]::PyException::~PyException\(\)")
def _pyexcd(V, st, a, ins):
    return None


@builtin(r"__cxa_allocate_exception")
def _caexc(V, st, a, ins):
    return PV(V.new_region(st, "exception", V.as_u(st, a[0]), 'exc'), 0)


@builtin(r"__cxa_free_exception")
def _cfexc(V, st, a, ins):
    return None


@builtin(r"__cxa_throw")
def _cthrow(V, st, a, ins):
    ti = a[1].reg.name.split('#')[0] if a[1].reg is not None else '?'
    return [Outcome(st, 'throw', (a[0], ti))]


@builtin(r"__cxa_begin_catch")
def _cbc(V, st, a, ins):
    return a[0]


@builtin(r"__cxa_end_catch")
def _cec(V, st, a, ins):
    return None


@builtin(r"llvm\.eh\.typeid\.for.*")
def _tid(V, st, a, ins):
    return V.typeid(a[0].reg.name.split('#')[0])


@builtin(r"__cxa_guard_acquire")
def _cga(V, st, a, ins):
    return IV(32, 1)


@builtin(r"__cxa_guard_release|__cxa_atexit")
def _cgr(V, st, a, ins):
    return IV(32, 0)


@builtin(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)")
def _wov(V, st, a, ins):
    nm = ins.x['callee'].v
    m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", nm)
    w = int(m.group(3))
    M = 1 << w
    if m.group(1) == 'u':
        x, y = V.as_u(st, a[0]), V.as_u(st, a[1])
        r = V.lin_op(m.group(2), x, y)
        ov = z3.Or(r.z() < 0, r.z() >= M)
    else:
        x, y = V.as_s(st, a[0]), V.as_s(st, a[1])
        r = V.lin_op(m.group(2), x, y)
        ov = z3.Or(r.z() < -(M >> 1), r.z() >= (M >> 1))
    if V.quick(st, z3.Not(ov)):
        return AG([IV(w, r, m.group(1) == 's'), B1(False)])
    return AG([V.mk(st, w, r), B1(ov)])


@builtin(r"llvm\.(umin|umax|smin|smax)\.i(\d+)")
def _minmax(V, st, a, ins):
    m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", ins.x['callee'].v)
    w = int(m.group(2))
    x, y = (V.as_u(st, a[0]), V.as_u(st, a[1])) if m.group(1)[0] == 'u' else (V.as_s(st, a[0]), V.as_s(st, a[1]))
    c = x.z() < y.z() if m.group(1).endswith('min') else x.z() > y.z()
    return IV(w, Lin.of(z3.If(c, x.z(), y.z())), m.group(1)[0] == 's')


@builtin(r"llvm\.is\.fpclass\.f(32|64)")
def _fpclass(V, st, a, ins):
    m = a[1].const
    x = a[0].fp
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    q = z3.Extract(22, 22, a[0].bits) if a[0].w == 32 else z3.Extract(51, 51, a[0].bits)
    nan = z3.fpIsNaN(x)
    t = [z3.And(nan, q == 0), z3.And(nan, q == 1), z3.And(neg, z3.fpIsInf(x)), z3.And(neg, z3.fpIsNormal(x)), z3.And(neg, z3.fpIsSubnormal(x)), z3.And(neg, z3.fpIsZero(x)),
         z3.And(pos, z3.fpIsZero(x)), z3.And(pos, z3.fpIsSubnormal(x)), z3.And(pos, z3.fpIsNormal(x)), z3.And(pos, z3.fpIsInf(x))]
    if m == 3:
        return B1(nan)
    return B1(z3.Or(*[t[k] for k in range(10) if m >> k & 1]))


def byte_ne0(V, r, A, i):
    return A[i] != (z3.BitVecVal(0, 8) if z3.is_bv_sort(A.range()) else 0)


def cstr_len(V, st, p, ins):
    """length of the C string at p: contract of strlen"""
    if p.reg is None:
        V.fail(st, "strlen of a null pointer", 'safety', ins)
        return None
    r = p.reg
    if r.heap in ('const_str', 'global'):
        V.init_global(st, r)
    rs = st.rs(r)
    if not rs.alive:
        V.fail(st, "strlen of a released block", 'safety', ins)
        return None
    if 'gv' in r.ghost and r.ghost['gv'].const and p.off.const is not None:
        c = r.ghost['gv'].mod.ginit(r.ghost['gv'])
        if c.kind == 'str' and 0 <= p.off.const < len(c.v) and 0 in list(c.v)[p.off.const:]:
            return Lin(list(c.v)[p.off.const:].index(0))
    if rs.kind == 'obj' and p.off.const is not None:
        n = 0
        while True:
            v = V.load(st, PV(r, p.off + n), ir.Ty('int', w=8, size=1), ins)
            if st.dead:
                return None
            if isinstance(v, Undef):
                V.defd(st, v, ins, "string byte")
                return None
            c = V.as_u(st, v)
            if c.const is None:
                if V.quick(st, c.z() == 0):
                    return Lin(n)
                if not V.quick(st, c.z() != 0):
                    raise Tool("strlen of a partly symbolic object")
            elif c.const == 0:
                return Lin(n)
            n += 1
    if 'strlen' in r.ghost and not any(w[0] == r.id for w in st.wlog):
        e = r.ghost['strlen']
        V.oblige(st, "string starts before its terminator", z3.And(p.off.z() >= 0, p.off.z() <= e.z()), 'safety', ins)
        return e - p.off
    if rs.kind == 'arr' and rs.stride == 1:
        # a terminator must be known to exist: the ghost of the last write, or a provable one
        A = V.arr(st, r, 0, 1)
        cand = [x for x in st.g.get(('nul', r.id), ())]
        for e in cand:
            z = z3.BitVecVal(0, 8) if z3.is_bv_sort(A.sort().range()) else z3.IntVal(0)
            if V.quick(st, z3.And(A[e.z()] == z, p.off.z() <= e.z(), e.z() < r.size.z())):
                n = z3.FreshInt("strlen")
                i = z3.Int("i")
                st.assume(n >= 0, p.off.z() + n <= e.z(), A[p.off.z() + n] == z)
                st.assume(z3.ForAll([i], z3.Implies(z3.And(p.off.z() <= i, i < p.off.z() + n), A[i] != z), patterns=[A[i]]))
                return Lin.of(n)
    raise Tool("strlen of %s: no terminator known" % r)


@builtin(r"strlen")
def _strlen(V, st, a, ins):
    n = cstr_len(V, st, a[0], ins)
    return None if n is None else IV(64, n)
