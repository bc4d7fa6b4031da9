"""vcir: path-wise symbolic execution of LLVM IR with loop invariants and function contracts."""
import re
import time
import subprocess
import tempfile
import os
import z3
import ir
import inst
from values import *

ISORT = z3.IntSort()
ARR = z3.ArraySort(ISORT, ISORT)
BARR = z3.ArraySort(ISORT, z3.BoolSort())
CNT = z3.Function("cnt", ARR, ISORT)     # number of slots holding the skolem value X (finite-difference axioms, see prelude)
X = z3.Int("x_skolem")
JUNK = z3.Int("moved_from")              # the unspecified value left in a moved-from element
KEY = z3.Function("key", ISORT, ISORT)   # comparator key of a value
CMPI = z3.Function("cmpi", ISORT, ISORT, ISORT)


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def ind(v):
    """1 if v is the skolem value"""
    return z3.If(v == X, z3.IntVal(1), z3.IntVal(0))


class Tool(Exception):
    """construct outside the verifier's reach"""


class Region:
    n = 0

    def __init__(s, name, size, heap):
        Region.n += 1
        s.id = Region.n
        s.name = "%s#%d" % (name, s.id)
        s.size = Lin.of(size)
        s.heap = heap
        s.fname = None
        s.addr = None
        s.ty = None
        s.ghost = {}

    def __repr__(s):
        return s.name


class RS:
    """state of a region"""
    __slots__ = ("alive", "kind", "cells", "stride", "base", "arrs", "ety", "live", "zero")

    def __init__(s, kind='obj', stride=None, base=0):
        s.alive = True
        s.kind = kind
        s.cells = {}
        s.stride = stride
        s.base = base
        s.arrs = {}
        s.ety = {}
        s.live = {}
        s.zero = False

    def copy(s):
        r = RS.__new__(RS)
        r.alive, r.kind, r.stride, r.base, r.zero = s.alive, s.kind, s.stride, s.base, s.zero
        r.cells = dict(s.cells)
        r.arrs = dict(s.arrs)
        r.ety = dict(s.ety)
        r.live = dict(s.live)
        return r


class Frame:
    __slots__ = ("fn", "blk", "ip", "prev", "vals", "allocas", "loops", "call", "counts", "an")

    def __init__(s, fn, call=None):
        s.fn = fn
        s.blk = 0
        s.ip = 0
        s.prev = None
        s.vals = {}
        s.allocas = []
        s.loops = []
        s.call = call
        s.counts = {}
        s.an = {}

    def copy(s):
        r = Frame.__new__(Frame)
        r.fn, r.blk, r.ip, r.prev, r.call = s.fn, s.blk, s.ip, s.prev, s.call
        r.vals = dict(s.vals)
        r.allocas = list(s.allocas)
        r.loops = list(s.loops)
        r.counts = dict(s.counts)
        r.an = s.an if not s.an else dict(s.an)
        return r


class State:
    __slots__ = ("frames", "mem", "own", "facts", "qfacts", "exc", "g", "wlog", "win", "dead", "trace")

    def __init__(s):
        s.frames = []
        s.mem = {}
        s.own = set()
        s.facts = []
        s.qfacts = []
        s.exc = None
        s.g = {}
        s.wlog = []
        s.win = {}
        s.dead = False
        s.trace = []

    def copy(s):
        r = State.__new__(State)
        r.frames = [f.copy() for f in s.frames]
        r.mem = dict(s.mem)
        r.own = set()
        s.own = set()
        r.facts = list(s.facts)
        r.qfacts = list(s.qfacts)
        r.exc = s.exc
        r.g = dict(s.g)
        r.wlog = list(s.wlog)
        r.win = dict(s.win)
        r.dead = s.dead
        r.trace = list(s.trace)
        return r

    def rs(s, reg):
        return s.mem[reg.id]

    def wrs(s, reg):
        r = s.mem[reg.id]
        if reg.id not in s.own:
            r = r.copy()
            s.mem[reg.id] = r
            s.own.add(reg.id)
        return r

    def assume(s, *es):
        for e in es:
            if isinstance(e, bool):
                e = z3.BoolVal(e)
            if z3.is_true(e):
                continue
            if z3.is_false(e):
                s.dead = True
            if is_quant(e):
                s.qfacts.append(e)
            else:
                s.facts.append(e)


_qc = {}


def is_quant(e):
    k = e.get_id()
    r = _qc.get(k)
    if r is None:
        r = _isq(e)
        _qc[k] = (r, e)
        return r
    return r[0]


def _isq(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


class Outcome:
    __slots__ = ("st", "kind", "val")

    def __init__(s, st, kind, val=None):
        s.st, s.kind, s.val = st, kind, val


class Oblig:
    __slots__ = ("name", "status", "how", "time", "where", "detail", "model", "kind")


class LoopSpec:
    def __init__(s, fn, inv, variant=None, names=(), nth=None, havoc=None, lemma=None, unroll=False, tag=None, vecs=None):
        s.fn = re.compile(fn)
        s.inv = inv
        s.variant = variant
        s.names = names
        s.nth = nth
        s.havoc = havoc
        s.lemma = lemma
        s.vecs = vecs
        s.tag = tag or fn


class LoopRec:
    __slots__ = ("id", "hdr", "blocks", "spec", "entry", "depth", "dry", "mods", "backs", "wstart", "var0", "fn", "kinds", "ord", "alias", "vecs")
    n = 0

    def __init__(s):
        LoopRec.n += 1
        s.id = LoopRec.n


class View:
    """what an invariant / contract sees of a state"""

    def __init__(s, V, st, frame=None, rec=None, alias=None):
        s.V, s.st, s.f, s.rec = V, st, frame, rec
        s.alias = alias if alias is not None else getattr(rec.spec, 'alias', {}) if rec is not None else {}

    @property
    def entry(s):
        return View(s.V, s.rec.entry, s.rec.entry.frames[s.rec.depth], s.rec, s.alias)

    @property
    def T(s):
        return s.V.ctx

    def region_of(s, name):
        name = s.alias.get(name, name)
        if isinstance(name, tuple):
            raise KeyError("%s is only a count here" % (name,))
        an = s.f.an
        for cand in (name, name + ".addr"):
            if cand in an:
                return an[cand]
        # clang appends numbers to repeated names
        best = None
        for k, r in an.items():
            if re.fullmatch(re.escape(name) + r"\d+", k):
                if s.rec is not None and s.rec.mods and any(w[0] == r.id for w in s.rec.mods):
                    return r
                best = best or r
        if best is None:
            raise KeyError("no local %s in %s" % (name, s.f.fn.dem))
        return best

    def has(s, name):
        try:
            s.region_of(name)
            return True
        except KeyError:
            return False

    def val(s, name):
        r = s.region_of(name)
        rs = s.st.rs(r)
        c = rs.cells.get(0)
        if c is None:
            raise KeyError("local %s has no value" % name)
        return c[1]

    def i(s, name):
        if isinstance(s.alias.get(name), tuple):
            return s.progress(name)
        v = s.val(name)
        return s.V.as_z(s.st, v)

    def progress(s, name):
        """a counter of the contract which the code expresses by a pointer or a counter running down"""
        how, cand = s.alias[name]
        e, old = s.rec.entry, View(s.V, s.rec.entry, s.rec.entry.frames[s.rec.depth], s.rec, {})
        if how == 'ptr':
            a, b = old.p(cand), s.p(cand)
            if a.reg is not b.reg:
                raise KeyError("%s points elsewhere" % cand)
            return s.V.pidx(s.st, b) - s.V.pidx(e, a)
        a, b = old.val(cand), s.val(cand)
        if isinstance(a, PV) or isinstance(b, PV):
            raise KeyError("%s is a pointer" % cand)
        a, b = s.V.as_u(e, a).z(), s.V.as_u(s.st, b).z()
        return a - b if how == 'down' else b - a

    def u(s, name):
        if isinstance(s.alias.get(name), tuple):
            return s.progress(name)
        return s.V.as_u(s.st, s.val(name)).z()

    def s_(s, name):
        if isinstance(s.alias.get(name), tuple):
            return s.progress(name)
        return s.V.as_s(s.st, s.val(name)).z()

    def p(s, name):
        v = s.val(name)
        if not isinstance(v, PV):
            raise KeyError("%s is not a pointer" % name)
        return v

    def idx(s, name):
        return s.V.pidx(s.st, s.p(name))

    def ev(s, name):
        v = s.val(name)
        return s.V.evz(v)

    def A(s, reg, sub=0, size=None):
        return s.V.arr(s.st, reg, sub, size)

    def field(s, pv, off, kind='u'):
        """cell at pv+off of an object region"""
        v = s.V.peek(s.st, PV(pv.reg, pv.off + off))
        if kind == 'u':
            return s.V.as_u(s.st, v).z()
        if kind == 's':
            return s.V.as_s(s.st, v).z()
        return v


class V:
    """one verification run over one program"""

    def __init__(self, prog, log=None):
        self.prog = prog
        self.contracts = []       # (regex, handler)
        self.cc = {}
        self.loopspecs = []
        self.obligs = []
        self.dry = 0
        self.ctx = None
        self.opaque = {}
        self.opq_re = None
        self.gregs = {}
        self.log = log
        self.qf = z3.Solver()
        self.qf.set("timeout", 1500)
        self.qstack = []
        self.pcache = {}
        self.stats = dict(qf=0, full=0, qft=0.0, fullt=0.0, paths=0, instrs=0, cvc5=0, inst=0, recent=0)
        self.count_ghost = True
        self.depth_limit = 120
        self.unroll_limit = 70
        self.deadline = None
        self.maxfail = 4
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.specfail = []
        self.t_full = 20000
        self.t_inst = 10
        self.fast_fail = True
        self.bvbytes = False
        self.table_hooks = []
        self.bitfields = False
        self.arr_new = False
        self.nested = []
        self.pow2 = []          # lengths known to be powers of two
        self.autoloops = False
        self.renames = {}
        self.mixed = False
        self.task_name = ""
        self.elem_cmp_junk = True
        self.prelude = []
        self.base_assume = None
        self.failed_names = set()
        self.int_elem = {}   # region id -> True when ints counted as elements
        self.funcs_done = []
        self.nofail = False
        self.termok = False
        self.stop_on_fail = True

    # ---------------------------------------------------------------- solving
    def sync(self, st):
        fs = st.facts
        qs = self.qstack
        n = 0
        m = min(len(fs), len(qs))
        while n < m and qs[n] is fs[n]:
            n += 1
        if len(qs) > n:
            self.qf.pop(len(qs) - n)
            del qs[n:]
        for e in fs[n:]:
            self.qf.push()
            self.qf.add(e)
            qs.append(e)

    def qcheck(self, st, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Tool("time budget of the task exceeded")
        self.sync(st)
        t = time.time()
        self.stats['qf'] += 1
        r = self.qf.check(*extra)
        self.stats['qft'] += time.time() - t
        return str(r)

    def quick(self, st, goal):
        """is goal entailed by the quantifier-free facts? (sound yes, incomplete no)"""
        if isinstance(goal, bool):
            return goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return self.qcheck(st) == 'unsat'
        if is_quant(goal):
            return False
        return self.qcheck(st, z3.Not(goal)) == 'unsat'

    def feasible(self, st, cond=None):
        if cond is not None:
            cond = z3.simplify(cond)
            if z3.is_false(cond):
                return False
            if is_quant(cond):
                return True
            return self.qcheck(st, cond) != 'unsat'
        return self.qcheck(st) != 'unsat'

    def where(self, st, ins=None):
        if ins is not None and ins.line:
            return "%s:%d" % (os.path.basename(ins.file), ins.line)
        for f in reversed(st.frames):
            i = f.fn.blocks[f.blk].ins[min(f.ip, len(f.fn.blocks[f.blk].ins) - 1)]
            if i.line:
                return "%s:%d" % (os.path.basename(i.file), i.line)
        return "?"

    def oblige(self, st, name, goal, kind='safety', ins=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.dry:
            st.assume(goal)
            return True
        if st.dead:
            return True
        o = Oblig()
        o.name, o.kind = name, kind
        o.where = self.where(st, ins)
        o.detail = ""
        o.model = None
        t = time.time()
        st_, how, model = self.prove(st, goal)
        o.time = time.time() - t
        o.status, o.how = st_, how
        if st_ != 'ok':
            o.model = model
            o.detail = str(goal)[:2000]
            if self.log:
                self.log("FAILED %s [%s] %s (%s)" % (name, o.where, how, str(goal)[:300]))
        elif self.log and o.time > 2:
            self.log("slow %.1fs %s [%s] %s" % (o.time, name, o.where, how))
        self.obligs.append(o)
        st.assume(goal)
        if st_ != 'ok':
            self.nfail = getattr(self, 'nfail', 0) + 1
            if self.nfail >= self.maxfail:
                raise Tool("stopped after %d failed obligations" % self.nfail)
        return st_ == 'ok'

    def fail(self, st, name, kind='safety', ins=None):
        """an obligation that this point is unreachable"""
        self.oblige(st, name, z3.BoolVal(False), kind, ins)
        st.dead = True

    def prove(self, st, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'ok', 'trivial', None
        if not is_quant(goal) and self.quick(st, goal):
            return 'ok', 'z3-qf', None
        if z3.is_and(goal):
            hows = None
            for c in goal.children():
                s_, h, m = self.prove(st, c)
                if s_ != 'ok':
                    return s_, h, m
                hows = h
            return 'ok', hows, None
        return self.full_prove(st.facts + st.qfacts + self.prelude, goal)

    def full_prove(self, facts, goal):
        t0 = time.time()
        if os.environ.get("VP_DUMP"):
            s = z3.Solver()
            s.add(*facts)
            s.add(z3.Not(goal))
            open("%s/q%d.smt2" % (os.environ["VP_DUMP"], self.stats['full']), "w").write(s.to_smt2())
        self.stats['full'] += 1
        res = None
        model = None
        try:
            try:
                r = (None, 0)
                if len(facts) > 50:
                    r = inst.Inst(facts, goal, budget=3, recent=(25, 14)).prove()
                    if r[0] == 'unsat':
                        self.stats['recent'] += 1
                if r[0] != 'unsat':
                    r = inst.Inst(facts, goal, budget=self.t_inst).prove()
                if r[0] == 'unsat':
                    self.stats['inst'] += 1
                    return 'ok', 'z3 (instantiated)', None
                if r[0] == 'sat' and self.fast_fail:
                    return 'cex', 'instantiation saturated', None
            except (ValueError, z3.Z3Exception) as e:
                if self.log:
                    self.log("inst: %s" % e)
            for (opts, to) in (({'auto_config': False, 'smt.mbqi': False}, self.t_full // 2), ({}, self.t_full), ({'auto_config': False, 'smt.mbqi': False, 'smt.arith.solver': 2, 'smt.random_seed': 7}, self.t_full)):
                s = z3.Solver()
                s.set("timeout", to)
                for k, v in opts.items():
                    s.set(k, v)
                s.add(*facts)
                s.add(z3.Not(goal))
                r = str(s.check())
                if r == 'unsat':
                    return 'ok', 'z3', None
                if r == 'sat' and not opts:
                    model = s.model()
                    return 'cex', 'z3 sat', model
                if r == 'sat':
                    # mbqi off: "sat" is only a candidate unless there are no quantifiers
                    model = s.model()
                if self.deadline and time.time() > self.deadline:
                    return 'unknown', 'timeout', model
                # cvc5 in between
                if not opts.get('smt.mbqi', True) and 'smt.random_seed' not in opts:
                    r = self.cvc5(s, 8)
                    if r == 'unsat':
                        return 'ok', 'cvc5', None
        finally:
            self.stats['fullt'] += time.time() - t0
        return 'unknown', 'z3 unknown, cvc5 unknown', model

    def cvc5(self, s, secs):
        self.stats['cvc5'] += 1
        txt = "(set-logic ALL)\n" + s.to_smt2()
        txt = txt.replace("(set-info :status unknown)", "")
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            nm = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), nm], capture_output=True, text=True, timeout=secs + 5)
            out = p.stdout.strip().split("\n")[-1] if p.stdout.strip() else "unknown"
        except Exception:
            out = "unknown"
        finally:
            os.unlink(nm)
        return out

    # ---------------------------------------------------------------- integer views
    def as_u(self, st, v):
        if isinstance(v, B1):
            return Lin.of(self.b1_int(v))
        if isinstance(v, BVV):
            return self.bv2lin(st, v)
        if isinstance(v, PV):
            return self.p2i(st, v)
        if not isinstance(v, IV):
            raise Tool("integer expected, got %r" % (v,))
        if not v.sg:
            return v.lin
        if self.quick(st, v.lin.z() >= 0):
            return v.lin
        z = v.lin.z()
        return Lin.of(z3.If(z < 0, z + (1 << v.w), z))

    def as_s(self, st, v):
        if isinstance(v, B1):
            return Lin.of(self.b1_int(v))
        if isinstance(v, BVV):
            e = z3.BV2Int(v.bv, True)
            return Lin.of(e)
        if isinstance(v, PV):
            return self.p2i(st, v)
        if not isinstance(v, IV):
            raise Tool("integer expected, got %r" % (v,))
        if v.sg:
            return v.lin
        if not v.lin.t:
            return Lin(v.sconst())
        z = v.lin.z()
        h = 1 << (v.w - 1)
        if self.quick(st, z < h):
            return v.lin
        return Lin.of(z3.If(z >= h, z - (1 << v.w), z))

    def as_z(self, st, v):
        """natural mathematical value"""
        if isinstance(v, IV):
            return v.lin.z()
        if isinstance(v, B1):
            return self.b1_int(v)
        if isinstance(v, BVV):
            return self.bv2lin(st, v).z()
        raise Tool("integer expected")

    def bool_of(self, v):
        """the condition b when v is syntactically b ? 1 : 0"""
        if v.const in (0, 1):
            return z3.BoolVal(v.const == 1)
        l = v.lin
        if len(l.t) == 1 and l.t[0][0] in boolatoms:
            if l.c == 0 and l.t[0][1] == 1:
                return boolatoms[l.t[0][0]]
            if l.c == 1 and l.t[0][1] == -1:
                return z3.Not(boolatoms[l.t[0][0]])
        return None

    def b1_int(self, v):
        if z3.is_true(v.b):
            return z3.IntVal(1)
        if z3.is_false(v.b):
            return z3.IntVal(0)
        e = b2i(v.b)
        boolatoms[atom_key(e)] = v.b
        return e

    def bv2lin(self, st, v):
        e = z3.BV2Int(v.bv)
        return Lin.of(e)

    def mk(self, st, w, lin):
        """IV from an arbitrary mathematical integer, reduced mod 2^w"""
        if not lin.t:
            return IV(w, lin)
        z = lin.z()
        M = 1 << w
        if self.quick(st, z3.And(z >= 0, z < M)):
            return IV(w, lin, False)
        h = M >> 1
        if self.quick(st, z3.And(z >= -h, z < h)):
            return IV(w, lin, True)
        if self.quick(st, z3.And(z >= -M, z < 2 * M)):
            return IV(w, Lin.of(z3.If(z < 0, z + M, z3.If(z >= M, z - M, z))), False)
        return IV(w, Lin.of(z % M), False)

    def num(self, v, w):
        """coerce a value to IV"""
        if isinstance(v, IV):
            return v
        if isinstance(v, B1):
            return IV(w, Lin.of(self.b1_int(v)))
        return v

    def to_bv(self, st, v, w):
        if isinstance(v, BVV):
            return v.bv
        if isinstance(v, IV) and v.const is not None:
            return z3.BitVecVal(v.const, w)
        if isinstance(v, B1):
            return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return z3.Int2BV(self.as_u(st, v).z(), w)

    def fresh_int(self, st, w, name, sg=False):
        l = fresh_lin(name)
        z = l.z()
        if sg:
            st.assume(z >= -(1 << (w - 1)), z < (1 << (w - 1)))
        else:
            st.assume(z >= 0, z < (1 << w))
        return IV(w, l, sg)

    # ---------------------------------------------------------------- pointers
    def p2i(self, st, pv):
        if pv.reg is None:
            return pv.off
        r = pv.reg
        if r.addr is None:
            a = z3.Int("addr_%s" % r.name)
            r.addr = a
            addr_region[atom_key(a)] = r
        k = ('addr', r.id)
        if k not in st.g:
            st.g[k] = True
            a = r.addr
            st.assume(a >= 4096, a + r.size.z() < (1 << 47))
            al = r.ghost.get('align', 0)
            if al:
                q = z3.Int("addrq_%s" % r.name)
                st.assume(a == al * q)
            for k2 in [k2 for k2 in st.g if isinstance(k2, tuple) and k2[0] == 'addr' and k2[1] != r.id]:
                o = regions_by_id.get(k2[1])
                if o is not None:
                    st.assume(z3.Or(a + r.size.z() < o.addr, o.addr + o.size.z() < a))
            regions_by_id[r.id] = r
        return Lin.of(r.addr) + pv.off

    def i2p(self, st, lin):
        for k, c in lin.t:
            if c == 1 and k in addr_region:
                r = addr_region[k]
                return PV(r, lin - Lin.of(_atoms_get(k)))
        return PV(None, lin)

    def pidx(self, st, pv):
        """element index of a pointer into an array region"""
        rs = st.rs(pv.reg)
        w = pv.reg.ghost.get('awin')
        if w and rs.kind == 'obj':
            o = pv.off - w[0]
            return o.divexact(w[2]).z() if o.divisible(w[2]) else o.z() / w[2]
        stride = rs.stride or 1
        o = pv.off - rs.base
        if o.divisible(stride):
            return o.divexact(stride).z()
        return o.z() / stride

    def new_region(self, st, name, size, heap, kind='obj', stride=None, base=0):
        r = Region(name, size, heap)
        rs = RS(kind, stride, base)
        st.mem[r.id] = rs
        st.own.add(r.id)
        regions_by_id[r.id] = r
        return r

    # ---------------------------------------------------------------- memory
    def check_access(self, st, pv, size, what, ins):
        if not isinstance(pv, PV):
            raise Tool("memory access through %r" % (pv,))
        if pv.reg is None:
            self.fail(st, "%s: pointer is not null" % what, 'safety', ins)
            return False
        r = pv.reg
        if r.heap == 'func':
            raise Tool("access to function")
        rs = st.mem.get(r.id)
        if rs is None:
            raise Tool("region %s unknown in this state" % r)
        if not rs.alive:
            self.fail(st, "%s: %s is alive" % (what, _nm(r)), 'safety', ins)
            return False
        off = pv.off
        hi = r.size - size - off
        if not (off.const is not None and hi.const is not None and off.c >= 0 and hi.c >= 0):
            self.oblige(st, "%s in bounds of %s" % (what, _nm(r)), z3.And(off.z() >= 0, hi.z() >= 0), 'safety', ins)
        w = st.win.get(r.id)
        if w is not None:
            self.oblige(st, "%s inside the permitted range of %s" % (what, _nm(r)), z3.And(off.z() >= w[0], off.z() + size <= w[1]), 'frame', ins)
        return not st.dead

    def locate(self, st, pv, size):
        """-> ('c', off) or ('a', idxLin, sub)"""
        r = pv.reg
        rs = st.rs(r)
        if rs.kind == 'obj':
            w = r.ghost.get('awin')
            if w and (pv.off.const is None or w[0] <= pv.off.c < w[1]):
                o = pv.off - w[0]
                if pv.off.const is None or pv.off.c + size > w[1]:
                    self.oblige(st, "access inside the array member of %s" % _nm(r), z3.And(o.z() >= 0, o.z() + size <= w[1] - w[0]), 'safety')
                if all(c % w[2] == 0 for _, c in o.t):
                    sub = o.c % w[2]
                    return ('a', (o - sub).divexact(w[2]), sub)
                if self.quick(st, o.z() % w[2] == 0):
                    return ('a', Lin.of(o.z() / w[2]), 0)
                raise Tool("access of %s at an offset that is not a multiple of its stride" % r)
            if pv.off.const is not None:
                return ('c', pv.off.c)
            self.to_arr(st, r, size)
            rs = st.rs(r)
        if rs.stride is None:
            rs = st.wrs(r)
            rs.stride = size
        o = pv.off - rs.base
        if all(c % rs.stride == 0 for _, c in o.t):
            sub = o.c % rs.stride
            return ('a', (o - sub).divexact(rs.stride), sub)
        # symbolic part not syntactically divisible: introduce quotient if provable
        z = o.z()
        if self.quick(st, z % rs.stride == 0):
            return ('a', Lin.of(z / rs.stride), 0)
        raise Tool("access of %s at an offset that is not a multiple of its stride %s" % (r, rs.stride))

    def to_arr(self, st, r, size):
        rs = st.wrs(r)
        stride = size
        if r.ty is not None and r.ty.k == 'array':
            stride = r.ty.el.size
        old = rs.cells
        rs.kind = 'arr'
        rs.stride = stride
        rs.base = 0
        rs.cells = {}
        isbv = False
        for off, (sz, v) in old.items():
            if sz != stride or off % stride:
                raise Tool("cannot turn %s into an array" % r)
        a = None
        cls = None
        for off, (sz, v) in sorted(old.items()):
            if isinstance(v, EV):
                cls = v.cls
        if cls:
            if not all(isinstance(v, EV) for _, v in old.values()):
                raise Tool("opaque array conversion")
            a = z3.FreshConst(ARR, r.name)
            lv = z3.K(ISORT, z3.BoolVal(False))
            for off, (sz, v) in sorted(old.items()):
                a = z3.Store(a, off // stride, self.evz(v))
                lv = z3.Store(lv, off // stride, z3.BoolVal(True))
            rs.arrs[(0, stride)] = a
            rs.ety[(0, stride)] = ('elem', cls)
            rs.live[(0, stride)] = lv
            return a
        if stride == 1 and self.bvbytes:
            a = z3.FreshConst(z3.ArraySort(ISORT, z3.BitVecSort(8)), r.name)
            rs.ety[(0, 1)] = ('bv', 8)
            for off, (sz, v) in sorted(old.items()):
                a = z3.Store(a, off, self.to_bv(st, v, 8))
        else:
            a = z3.FreshConst(ARR, r.name) if not rs.zero else z3.K(ISORT, z3.IntVal(0))
            rs.ety[(0, stride)] = ('int', stride * 8)
            for off, (sz, v) in sorted(old.items()):
                a = z3.Store(a, off // stride, self.as_u(st, v).z())
        rs.arrs[(0, stride)] = a

    def arr(self, st, reg, sub=0, size=None):
        rs = st.rs(reg)
        if rs.kind != 'arr':
            raise Tool("%s is not an array" % reg)
        if size is None:
            for (s, sz) in rs.arrs:
                if s == sub:
                    return rs.arrs[(s, sz)]
            raise Tool("no array component at %d in %s" % (sub, reg))
        return rs.arrs[(sub, size)]

    def set_arr(self, st, reg, a, sub=0, size=None):
        rs = st.wrs(reg)
        if size is None:
            for (s, sz) in rs.arrs:
                if s == sub:
                    size = sz
        rs.arrs[(sub, size)] = a
        st.wlog.append((reg.id, 'a', sub, size))

    def named(self, st, r, a):
        """name an array term, so that quantified facts about it keep usable patterns"""
        if not r.ghost.get('count') and not r.ghost.get('named'):
            return a
        c = z3.FreshConst(a.sort(), _nm(r))
        st.assume(c == a)
        NAMED[c.get_id()] = (c, a)
        return c

    def arr_comp(self, st, reg, sub, size, ety):
        """array component (sub,size) of reg; created when first used"""
        rs = st.rs(reg)
        k = (sub, size)
        if k in rs.arrs:
            return rs.arrs[k]
        for (s, sz) in rs.arrs:
            if s < sub + size and sub < s + sz:
                raise Tool("mixed-size access to %s: have %s want %s" % (reg, (s, sz), k))
        rs = st.wrs(reg)
        if ety[0] == 'bv' or (ety[0] == 'int' and size == 1 and self.bvbytes):
            ety = ('bv', size * 8)
            a = z3.FreshConst(z3.ArraySort(ISORT, z3.BitVecSort(size * 8)), _nm(reg)) if not rs.zero else z3.K(ISORT, z3.BitVecVal(0, size * 8))
        elif ety[0] == 'fp':
            a = z3.FreshConst(z3.ArraySort(ISORT, z3.BitVecSort(size * 8)), _nm(reg))
        else:
            a = z3.FreshConst(ARR, _nm(reg)) if not (rs.zero and ety[0] == 'int') else z3.K(ISORT, z3.IntVal(0))
        rs.arrs[k] = a
        rs.ety[k] = ety
        if ety[0] == 'elem' and k not in rs.live:
            rs.live[k] = z3.K(ISORT, z3.BoolVal(False))
        return a

    def peek(self, st, pv):
        rs = st.rs(pv.reg)
        c = rs.cells.get(pv.off.const)
        return c[1] if c else UNDEF

    def put_cell(self, st, r, off, size, v):
        rs = st.wrs(r)
        c = rs.cells
        if off not in c or c[off][0] != size:
            for o in [o for o, (sz, _) in c.items() if o < off + size and off < o + sz]:
                sz, old = c[o]
                if isinstance(old, EV):
                    raise Tool("raw store over a live element in %s" % r)
                if o < off or o + sz > off + size:
                    parts = self.split_cell(st, o, sz, old)
                    del c[o]
                    c.update(parts)
            for oo in [oo for oo, (s2, _) in c.items() if oo < off + size and off < oo + s2]:
                del c[oo]
        c[off] = (size, v)
        st.wlog.append((r.id, 'c', off, size))

    def split_cell(self, st, o, sz, v):
        """split an integer cell into bytes"""
        out = {}
        if isinstance(v, Undef):
            return out
        z = self.as_u(st, v)
        for i in range(sz):
            out[o + i] = (1, IV(8, Lin.of((z.z() / (1 << (8 * i))) % 256) if z.const is None else Lin((z.c >> (8 * i)) & 255)))
        return out

    def load(self, st, pv, ty, ins):
        size = ty.size if not (ty.k == 'int' and ty.w < 8) else 1
        if ty.k in ('struct', 'array'):
            vs = []
            els = ty.els if ty.k == 'struct' else [ty.el] * ty.n
            offs = ty.offs if ty.k == 'struct' else [k * ty.el.size for k in range(ty.n)]
            for e, o in zip(els, offs):
                vs.append(self.load(st, PV(pv.reg, pv.off + o), e, ins))
            return AG(vs)
        if not self.check_access(st, pv, size, "read", ins):
            return UNDEF
        r = pv.reg
        if r.heap == 'global':
            self.init_global(st, r)
        loc = self.locate(st, pv, size)
        rs = st.rs(r)
        if loc[0] == 'c':
            off = loc[1]
            c = rs.cells.get(off)
            if c is not None and c[0] == size:
                return self.coerce(st, c[1], ty, r, off)
            if c is None and rs.zero and not any(o < off + size and off < o + sz for o, (sz, _) in rs.cells.items()):
                return self.zero_of(ty)
            if r.heap == 'const_str' or c is not None or any(o < off + size and off < o + sz for o, (sz, _) in rs.cells.items()):
                return self.load_mixed(st, r, off, size, ty)
            return Undef(ty)
        _, idx, sub = loc
        if ty.k == 'ptr':
            k = (sub, size)
            if k not in rs.arrs or rs.ety[k][0] != 'ptr':
                raise Tool("load of a pointer from array %s" % r)
            return self.load_ptr_elem(st, r, rs, k, idx)
        for k2 in rs.arrs:
            if k2[0] == sub and k2[1] != size and rs.ety[k2][0] in ('int', 'bv') and rs.stride == 1 and size > 1:
                # little endian multi-byte read of a byte array
                if rs.ety[k2][0] == 'bv':
                    return BVV(size * 8, z3.Concat(*[z3.Select(rs.arrs[k2], (idx + j).z()) for j in reversed(range(size))]))
                tot = Lin(0)
                for j in range(size):
                    e = z3.Select(rs.arrs[k2], (idx + j).z())
                    st.assume(e >= 0, e < 256)
                    tot = tot + Lin.of(e).scale(1 << (8 * j))
                return IV(size * 8, tot)
        a = self.arr_comp(st, r, sub, size, ('fp', size * 8) if ty.k in ('float', 'double') else ('int', size * 8))
        e = z3.Select(a, idx.z())
        ek = st.rs(r).ety[(sub, size)]
        if ek[0] == 'bv':
            return self.coerce(st, BVV(size * 8, z3.simplify(e)), ty, r, 0)
        if ek[0] == 'fp':
            return self.coerce(st, FV(size * 8, e), ty, r, 0)
        if ek[0] == 'elem':
            raise Tool("raw read of an opaque element")
        e = z3.simplify(e) if z3.is_store(a) or z3.is_K(a) else e
        if not z3.is_int_value(e):
            st.assume(e >= 0, e < (1 << (8 * size)))
        return self.coerce(st, IV(size * 8, Lin.of(e)), ty, r, 0)

    def load_ptr_elem(self, st, r, rs, k, idx):
        tgt = rs.ety[k][1]
        return tgt(self, st, z3.Select(rs.arrs[k], idx.z()))

    def zero_of(self, ty):
        if ty.k == 'int':
            return IV(ty.w, 0) if ty.w > 1 else B1(False)
        if ty.k == 'ptr':
            return NULL
        if ty.k in ('float', 'double'):
            return FV(ty.size * 8, z3.BitVecVal(0, ty.size * 8))
        raise Tool("zero of %r" % ty)

    def coerce(self, st, v, ty, r, off):
        """reinterpret a stored value as type ty (same size)"""
        if ty.k == 'int':
            if isinstance(v, IV):
                if ty.w == v.w:
                    return v
                if ty.w < v.w:
                    return self.trunc(st, v, ty.w)
            if isinstance(v, B1):
                return v if ty.w == 1 else IV(ty.w, Lin.of(self.b1_int(v)))
            if isinstance(v, BVV):
                return v if v.w == ty.w else self.trunc(st, v, ty.w)
            if isinstance(v, FV):
                return BVV(v.w, v.bits)
            if isinstance(v, PV):
                return IV(64, self.p2i(st, v))
            if isinstance(v, Undef):
                return v
        elif ty.k == 'ptr':
            if isinstance(v, PV):
                return v
            if isinstance(v, (IV,)):
                return self.i2p(st, v.lin)
            if isinstance(v, Undef):
                return v
        elif ty.k in ('float', 'double'):
            if isinstance(v, FV):
                return v
            if isinstance(v, Undef):
                return v
            return FV(ty.size * 8, self.to_bv(st, v, ty.size * 8))
        raise Tool("cannot read %r as %r in %s" % (v, ty, r))

    def load_mixed(self, st, r, off, size, ty):
        rs = st.rs(r)
        cells = rs.cells
        # sub-part of a larger integer cell
        for o, (sz, v) in cells.items():
            if o <= off and off + size <= o + sz:
                if isinstance(v, Undef):
                    return Undef(ty)
                if isinstance(v, EV):
                    raise Tool("raw read inside an opaque element in %s" % r)
                z = self.as_u(st, v)
                sh = 8 * (off - o)
                if z.const is not None:
                    x = IV(size * 8, Lin((z.c >> sh) & ((1 << (8 * size)) - 1)))
                else:
                    x = IV(size * 8, Lin.of((z.z() / (1 << sh)) % (1 << (8 * size))))
                return self.coerce(st, x, ty, r, off)
        # composition of smaller cells
        tot = Lin(0)
        p = off
        while p < off + size:
            c = cells.get(p)
            if c is None:
                if rs.zero:
                    p += 1
                    continue
                return Undef(ty)
            sz, v = c
            if p + sz > off + size or isinstance(v, (EV,)):
                raise Tool("mixed read in %s" % r)
            if isinstance(v, Undef):
                return Undef(ty)
            tot = tot + self.as_u(st, v).scale(1 << (8 * (p - off)))
            p += sz
        return self.coerce(st, IV(size * 8, tot), ty, r, off)

    def store(self, st, pv, v, ty, ins):
        if ty.k in ('struct', 'array'):
            els = ty.els if ty.k == 'struct' else [ty.el] * ty.n
            offs = ty.offs if ty.k == 'struct' else [k * ty.el.size for k in range(ty.n)]
            for k, (e, o) in enumerate(zip(els, offs)):
                x = v.vs[k] if isinstance(v, AG) else UNDEF
                if isinstance(x, Undef):
                    continue
                self.store(st, PV(pv.reg, pv.off + o), x, e, ins)
            return
        size = ty.size if not (ty.k == 'int' and ty.w < 8) else 1
        if not self.check_access(st, pv, size, "write", ins):
            return
        r = pv.reg
        if r.heap in ('global', 'const_str') and r.ghost.get('const'):
            self.fail(st, "write to constant %s" % r, 'safety', ins)
            return
        if r.heap == 'global':
            self.init_global(st, r)
        loc = self.locate(st, pv, size)
        if loc[0] == 'c':
            self.put_cell(st, r, loc[1], size, v)
            return
        _, idx, sub = loc
        if isinstance(v, Undef):
            raise Tool("store of undefined value into array")
        if isinstance(v, PV):
            if v.reg is None and v.off.const == 0 and (sub, size) not in st.rs(r).arrs:
                v = IV(64, 0)
            elif (sub, size) in st.rs(r).arrs and st.rs(r).ety[(sub, size)][0] == 'ptr':
                code = st.rs(r).ety[(sub, size)][2](self, st, v)
                a = z3.Store(st.rs(r).arrs[(sub, size)], idx.z(), code)
                self.set_arr(st, r, a, sub, size)
                return
            else:
                raise Tool("store of a pointer into array %s" % r)
        a = self.arr_comp(st, r, sub, size, ('fp', size * 8) if isinstance(v, FV) else ('int', size * 8))
        ek = st.rs(r).ety[(sub, size)]
        if ek[0] in ('bv', 'fp'):
            z = v.bits if isinstance(v, FV) else self.to_bv(st, v, size * 8)
            a2 = z3.Store(a, idx.z(), z)
        elif ek[0] == 'elem':
            raise Tool("raw write over opaque element")
        else:
            z = self.as_u(st, v).z()
            a2 = self.named(st, r, z3.Store(a, idx.z(), z))
            if self.count_ghost and r.ghost.get('count'):
                st.assume(CNT(a2) == CNT(a) + ind(z) - ind(z3.Select(a, idx.z())))
        self.set_arr(st, r, a2, sub, size)

    # ---- opaque elements
    def elem_slot(self, st, pv, cls, ins, what):
        size = self.opaque[cls]
        if not self.check_access(st, pv, size, what, ins):
            return None
        r = pv.reg
        loc = self.locate(st, pv, size)
        if loc[0] == 'a':
            self.arr_comp(st, r, loc[2], size, ('elem', cls))
        return loc

    def elem_live(self, st, pv, cls, loc):
        rs = st.rs(pv.reg)
        size = self.opaque[cls]
        if loc[0] == 'c':
            c = rs.cells.get(loc[1])
            return z3.BoolVal(c is not None and isinstance(c[1], EV))
        lv = rs.live[(loc[2], size)]
        return z3.simplify(z3.Select(lv, loc[1].z()))

    def elem_get(self, st, pv, cls, ins, what="element read"):
        loc = self.elem_slot(st, pv, cls, ins, what)
        if loc is None:
            return z3.FreshInt("dead")
        self.oblige(st, "%s: element is constructed" % what, self.elem_live(st, pv, cls, loc), 'lifetime', ins)
        if st.dead:
            return z3.FreshInt("dead")
        rs = st.rs(pv.reg)
        if loc[0] == 'c':
            return rs.cells[loc[1]][1].val
        return z3.Select(rs.arrs[(loc[2], self.opaque[cls])], loc[1].z())

    def elem_set(self, st, pv, cls, val, ins, construct, what="element write"):
        loc = self.elem_slot(st, pv, cls, ins, what)
        if loc is None:
            return
        lv = self.elem_live(st, pv, cls, loc)
        size = self.opaque[cls]
        if construct:
            self.oblige(st, "%s: no live element in the slot" % what, z3.Not(lv), 'lifetime', ins)
        else:
            self.oblige(st, "%s: element is constructed" % what, lv, 'lifetime', ins)
        if st.dead:
            return
        r = pv.reg
        rs = st.wrs(r)
        if loc[0] == 'c':
            off = loc[1]
            if off in rs.cells and isinstance(rs.cells[off][1], EV):
                rs.cells[off] = (size, EV(cls, val))
            else:
                for o in [o for o, (sz, _) in rs.cells.items() if o < off + size and off < o + sz]:
                    if isinstance(rs.cells[o][1], EV):
                        raise Tool("overlapping elements")
                    del rs.cells[o]
                rs.cells[off] = (size, EV(cls, val))
            st.wlog.append((r.id, 'c', off, size))
            return
        k = (loc[2], size)
        a = rs.arrs[k]
        a2 = self.named(st, r, z3.Store(a, loc[1].z(), val))
        if self.count_ghost and r.ghost.get('count'):
            st.assume(CNT(a2) == CNT(a) + ind(val) - ind(z3.Select(a, loc[1].z())))
        rs.arrs[k] = a2
        st.wlog.append((r.id, 'a', loc[2], size))
        if construct:
            rs.live[k] = z3.Store(rs.live[k], loc[1].z(), z3.BoolVal(True))
            st.wlog.append((r.id, 'l', loc[2], size))

    def elem_destroy(self, st, pv, cls, ins):
        loc = self.elem_slot(st, pv, cls, ins, "destructor")
        if loc is None:
            return
        self.oblige(st, "destructor: element is constructed", self.elem_live(st, pv, cls, loc), 'lifetime', ins)
        if st.dead:
            return
        rs = st.wrs(pv.reg)
        size = self.opaque[cls]
        if loc[0] == 'c':
            rs.cells.pop(loc[1], None)
            st.wlog.append((pv.reg.id, 'c', loc[1], size))
        else:
            k = (loc[2], size)
            rs.live[k] = z3.Store(rs.live[k], loc[1].z(), z3.BoolVal(False))
            st.wlog.append((pv.reg.id, 'l', loc[2], size))

    def evz(self, v):
        if isinstance(v, EV):
            return v.val
        if isinstance(v, IV):
            return v.lin.z()
        if isinstance(v, FV):
            return z3.BV2Int(v.bits)
        raise KeyError("no element value in %r" % (v,))

    # ---- bulk
    def memcpy(self, st, dst, src, n, ins, move=False):
        """n: Lin"""
        if n.const == 0:
            return
        if n.const is None and self.quick(st, n.z() == 0):
            return
        if n.const is None:
            # zero-size copies may use any pointer
            if not self.quick(st, n.z() > 0):
                if dst.reg is None or src.reg is None:
                    self.oblige(st, "memcpy with a null pointer copies nothing", n.z() == 0, 'safety', ins)
                    return
        if not self.check_access_n(st, src, n, "memcpy source", ins):
            return
        if not self.check_access_n(st, dst, n, "memcpy destination", ins):
            return
        if src.reg is dst.reg and not move:
            d = dst.off - src.off
            if d.const is None or d.c != 0:
                self.oblige(st, "memcpy operands do not overlap", z3.Or(d.z() >= n.z(), -d.z() >= n.z()), 'safety', ins)
        for p in (src, dst):
            if p.reg.heap == 'global':
                self.init_global(st, p.reg)
        if dst.reg.ghost.get('const'):
            self.fail(st, "write to constant", 'safety', ins)
            return
        rss, rsd = st.rs(src.reg), st.rs(dst.reg)
        ws, wd = self.inwin(st, src), self.inwin(st, dst)
        for p, w in ((src, ws), (dst, wd)):
            if w:
                self.oblige(st, "copy stays inside the array member of %s" % _nm(p.reg), z3.And(p.off.z() >= w[0], (p.off + n).z() <= w[1]), 'safety', ins)
        if not ws and not wd and rss.kind == 'obj' and rsd.kind == 'obj' and n.const is not None and src.off.const is not None and dst.off.const is not None:
            so, do, k = src.off.c, dst.off.c, n.c
            items = []
            for o, (sz, v) in rss.cells.items():
                if o >= so and o + sz <= so + k:
                    if isinstance(v, EV):
                        raise Tool("memcpy of opaque element")
                    items.append((o - so + do, sz, v))
                elif o < so + k and so < o + sz:
                    if isinstance(v, EV):
                        raise Tool("memcpy of part of opaque element")
                    for oo, (s2, vv) in self.split_cell(st, o, sz, v).items():
                        if so <= oo < so + k:
                            items.append((oo - so + do, s2, vv))
            w = st.wrs(dst.reg)
            for o in [o for o, (sz, _) in w.cells.items() if o < do + k and do < o + sz]:
                sz, old = w.cells[o]
                if isinstance(old, EV):
                    raise Tool("memcpy over opaque element")
                if o < do or o + sz > do + k:
                    w.cells.update(self.split_cell(st, o, sz, old))
            for o in [o for o, (sz, _) in w.cells.items() if o < do + k and do < o + sz]:
                del w.cells[o]
            if rss.zero:
                covered = set()
                for o, sz, v in items:
                    covered.update(range(o, o + sz))
                if not rsd.zero:
                    for b in range(do, do + k):
                        if b not in covered:
                            w.cells[b] = (1, IV(8, 0))
            st.wlog.append((dst.reg.id, 'c', do, k))
            for o, sz, v in items:
                w.cells[o] = (sz, v)
                st.wlog.append((dst.reg.id, 'c', o, sz))
            return
        if n.const is not None and n.c <= 64 and (rss.kind == 'obj' or rsd.kind == 'obj'):
            # element by element
            step = None
            for rs, p in ((rss, src), (rsd, dst)):
                if rs.kind == 'arr' and rs.stride:
                    k = min([z for _, z in rs.arrs]) if rs.stride > 8 and rs.arrs else rs.stride
                    step = k if step is None else min(step, k)
            step = step or 1
            if n.c % step == 0 and step in (1, 2, 4, 8):
                ty = ir.Ty('int', w=8 * step, size=step)
                vals = [self.load(st, PV(src.reg, src.off + j), ty, ins) for j in range(0, n.c, step)]
                for j, v in zip(range(0, n.c, step), vals):
                    if isinstance(v, Undef):
                        v = self.fresh_int(st, 8 * step, "undef")
                    self.store(st, PV(dst.reg, dst.off + j), v, ty, ins)
                return
        for p, w in ((src, ws), (dst, wd)):
            rs = st.rs(p.reg)
            if w:
                pass
            elif rs.kind == 'obj':
                self.to_arr(st, p.reg, 1)
            elif rs.stride is None:
                o = st.rs(dst.reg if p is src else src.reg)
                ow = wd if p is src else ws
                st.wrs(p.reg).stride = (ow[2] if ow else o.stride) or 1
        rss, rsd = st.rs(src.reg), st.rs(dst.reg)
        sd = ws[2] if ws else rss.stride
        if sd != (wd[2] if wd else rsd.stride):
            raise Tool("memcpy between different strides")
        if not n.divisible(sd):
            raise Tool("memcpy of a partial element")
        nn = n.divexact(sd).z()
        s0 = self.pidx(st, src)
        d0 = self.pidx(st, dst)
        comps = [k for k in rss.arrs] or [(0, sd)]
        for k in comps:
            ek = rss.ety.get(k, rsd.ety.get(k, ('int', k[1] * 8)))
            if ek[0] == 'elem':
                raise Tool("memcpy of opaque elements")
            a = self.arr_comp(st, src.reg, k[0], k[1], ek)
            b = self.arr_comp(st, dst.reg, k[0], k[1], ek)
            if st.rs(dst.reg).ety[k][0] != st.rs(src.reg).ety[k][0]:
                raise Tool("memcpy between different representations")
            c = z3.FreshConst(b.sort(), _nm(dst.reg))
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.Select(c, i) == z3.If(z3.And(d0 <= i, i < d0 + nn), z3.Select(a, i - d0 + s0), z3.Select(b, i)), patterns=[z3.Select(c, i)]))
            self.set_arr(st, dst.reg, c, k[0], k[1])

    def inwin(self, st, p):
        w = p.reg.ghost.get('awin')
        if w and st.rs(p.reg).kind == 'obj' and (p.off.const is None or w[0] <= p.off.c < w[1] or p.off.c == w[1]):
            return w
        return None

    def check_access_n(self, st, pv, n, what, ins):
        if pv.reg is None:
            self.fail(st, "%s: pointer is not null" % what, 'safety', ins)
            return False
        r = pv.reg
        rs = st.mem[r.id]
        if not rs.alive:
            self.fail(st, "%s: %s is alive" % (what, _nm(r)), 'safety', ins)
            return False
        self.oblige(st, "%s in bounds of %s" % (what, _nm(r)), z3.Or(n.z() == 0, z3.And(pv.off.z() >= 0, (pv.off + n - r.size).z() <= 0)), 'safety', ins)
        w = st.win.get(r.id)
        if w is not None:
            self.oblige(st, "%s inside the permitted range of %s" % (what, _nm(r)), z3.Or(n.z() == 0, z3.And(pv.off.z() >= w[0], (pv.off + n).z() <= w[1])), 'frame', ins)
        return not st.dead

    def memset(self, st, dst, c, n, ins):
        if n.const == 0:
            return
        if not self.check_access_n(st, dst, n, "memset", ins):
            return
        rs = st.rs(dst.reg)
        if rs.kind == 'obj' and n.const is not None and dst.off.const is not None and isinstance(c, IV) and c.const is not None:
            w = st.wrs(dst.reg)
            do, k = dst.off.c, n.c
            for o in [o for o, (sz, _) in w.cells.items() if o < do + k and do < o + sz]:
                if isinstance(w.cells[o][1], EV):
                    raise Tool("memset over opaque element")
                if o < do or o + w.cells[o][0] > do + k:
                    raise Tool("memset splits a cell")
                del w.cells[o]
            st.wlog.append((dst.reg.id, 'c', do, k))
            if do == 0 and c.const == 0 and dst.reg.size.const == k:
                w.zero = True
                return
            p = do
            while p < do + k:
                sz = 8 if p % 8 == 0 and p + 8 <= do + k else 1
                w.cells[p] = (sz, IV(8 * sz, int.from_bytes(bytes([c.const & 255]) * sz, 'little')))
                p += sz
            return
        if rs.kind == 'obj':
            self.to_arr(st, dst.reg, 1)
            rs = st.rs(dst.reg)
        if rs.stride is None:
            st.wrs(dst.reg).stride = 1
            rs = st.rs(dst.reg)
        sd = rs.stride
        if not n.divisible(sd):
            raise Tool("memset of a partial element")
        nn = n.divexact(sd).z()
        d0 = self.pidx(st, dst)
        for k in list(rs.arrs) or [(0, sd)]:
            ek = rs.ety.get(k, ('int', k[1] * 8))
            b = self.arr_comp(st, dst.reg, k[0], k[1], ek)
            ek = st.rs(dst.reg).ety[k]
            if ek[0] == 'elem':
                raise Tool("memset of opaque elements")
            if ek[0] == 'bv' and k[1] == 1:
                val = z3.Extract(7, 0, self.to_bv(st, c, 32)) if isinstance(c, IV) and c.w == 32 else self.to_bv(st, c, 8)
            else:
                if isinstance(c, IV) and c.const is not None:
                    val = z3.IntVal(int.from_bytes(bytes([c.const & 255]) * k[1], 'little'))
                elif k[1] == 1:
                    val = (self.as_u(st, c) if c.w == 8 else Lin.of(self.as_u(st, c).z() % 256)).z()
                else:
                    raise Tool("memset")
            cc = z3.FreshConst(b.sort(), _nm(dst.reg))
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.Select(cc, i) == z3.If(z3.And(d0 <= i, i < d0 + nn), val, z3.Select(b, i)), patterns=[z3.Select(cc, i)]))
            self.set_arr(st, dst.reg, cc, k[0], k[1])

    # ---- globals
    def global_ref(self, st, name, mod):
        f = self.prog.func(name, mod)
        key = (name, None)
        if f is not None or (mod is not None and name in mod.decls) or any(name in m.decls for m in self.prog.mods):
            g = self.gregs.get(name)
            if g is None:
                g = Region(name, 0, 'func')
                g.fname = name
                self.gregs[name] = g
            return PV(g, 0)
        gv = self.prog.gvar(name, mod)
        if gv is None:
            raise Tool("unknown global " + name)
        key = (name, id(gv.mod) if gv.name.startswith(".str") or gv.name.startswith("__const") else None)
        g = self.gregs.get(key)
        if g is None:
            g = Region(name, gv.ty.size, 'global')
            g.ty = gv.ty
            g.ghost['gv'] = gv
            g.ghost['const'] = gv.const
            self.gregs[key] = g
            regions_by_id[g.id] = g
        if g.id not in st.mem:
            st.mem[g.id] = RS('obj')
        return PV(g, 0)

    def init_global(self, st, r):
        if ('ginit', r.id) in st.g:
            return
        st.g[('ginit', r.id)] = True
        gv = r.ghost['gv']
        if not gv.init or (not gv.const and not r.ghost.get('useinit')):
            return
        if r.ghost.get('noinit'):
            return
        h = next((h for n, h in self.table_hooks if re.search(n, gv.name)), None)
        if h:
            h(self, st, r)
            return
        c = gv.mod.ginit(gv)
        if r.size.c > 20000:
            raise Tool("large global %s" % r)
        w = st.wrs(r)
        self.flat(st, w, 0, c, gv.ty, gv.mod)

    def flat(self, st, w, off, c, ty, mod):
        if c.kind == 'str':
            data = c.v
            for i, ch in enumerate(data):
                w.cells[off + i] = (1, IV(8, ch))
        elif c.kind == 'agg':
            for i, e in enumerate(c.v):
                if ty.k == 'struct':
                    self.flat(st, w, off + ty.offs[i], e, ty.els[i], mod)
                else:
                    self.flat(st, w, off + i * ty.el.size, e, ty.el, mod)
        elif c.kind == 'zero':
            if ty.k == 'array':
                for i in range(ty.n):
                    self.flat(st, w, off + i * ty.el.size, Const0(ty.el), ty.el, mod)
            else:
                for i, e in enumerate(ty.els):
                    self.flat(st, w, off + ty.offs[i], Const0(e), e, mod)
        elif c.kind == 'undef':
            pass
        else:
            w.cells[off] = (ty.size, self.cval(st, c, mod))

    # ---------------------------------------------------------------- operands
    def cval(self, st, c, mod):
        k = c.kind
        if k == 'int':
            return IV(c.ty.w, c.v) if c.ty.w > 1 else B1(bool(c.v))
        if k == 'null':
            return NULL
        if k == 'fp':
            w = c.ty.size * 8
            import struct
            b = struct.pack('<f' if w == 32 else '<d', c.v)
            return FV(w, z3.BitVecVal(int.from_bytes(b, 'little'), w))
        if k == 'undef':
            return Undef(c.ty)
        if k == 'gref':
            return self.global_ref(st, c.v, mod)
        if k == 'zero':
            ty = c.ty
            els = ty.els if ty.k == 'struct' else [ty.el] * ty.n
            return AG([self.cval(st, Const0(e), mod) for e in els])
        if k == 'agg':
            return AG([self.cval(st, e, mod) for e in c.v])
        if k == 'expr':
            op = c.v[0]
            vs = [self.cval(st, o, mod) for o in c.ops]
            if op == 'getelementptr':
                return self.gep(st, c.v[1], vs)
            if op in ('bitcast', 'addrspacecast'):
                return vs[0]
            if op == 'ptrtoint':
                return IV(64, self.p2i(st, vs[0]))
            if op == 'inttoptr':
                return self.i2p(st, vs[0].lin)
            if op in ('sub', 'add'):
                return self.mk(st, c.ty.w, self.as_u(st, vs[0]) - self.as_u(st, vs[1]) if op == 'sub' else self.as_u(st, vs[0]) + self.as_u(st, vs[1]))
        raise Tool("constant %r" % c)

    def val(self, st, f, o):
        if isinstance(o, ir.Ref):
            return f.vals[o.id]
        return self.cval(st, o, f.fn.mod)

    def defd(self, st, v, ins, what="value"):
        if isinstance(v, Undef):
            self.fail(st, "%s is initialised before use" % what, 'safety', ins)
            return False
        return True

    def gep(self, st, ty, vs):
        p = vs[0]
        if isinstance(p, Undef):
            raise Tool("gep on undefined pointer")
        off = p.off
        cur = ty
        for j, ix in enumerate(vs[1:]):
            if isinstance(ix, IV):
                il = ix.lin if ix.lin.t else Lin(ix.sconst())
                if ix.w < 64 and ix.lin.t and not ix.sg:
                    il = self.as_s(st, ix)
            elif isinstance(ix, Undef):
                raise Tool("gep with undefined index")
            else:
                il = self.as_s(st, ix)
            if j == 0:
                off = off + il.scale(ty.size)
            elif cur.k == 'struct':
                off = off + cur.offs[il.c]
                cur = cur.els[il.c]
            else:
                cur = cur.el
                off = off + il.scale(cur.size)
        return PV(p.reg, off)

    # ---------------------------------------------------------------- arithmetic
    def binop(self, st, ins, op, a, b, w):
        if isinstance(a, B1) and isinstance(b, B1) and w == 1:
            if op == 'and':
                return B1(z3.And(a.b, b.b))
            if op == 'or':
                return B1(z3.Or(a.b, b.b))
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(b.b):
                    return B1(z3.Not(a.b))
                return B1(z3.Xor(a.b, b.b))
        if isinstance(a, PV):
            a = IV(64, self.p2i(st, a))
        if isinstance(b, PV):
            b = IV(64, self.p2i(st, b))
        if op in ('and', 'or', 'xor') and isinstance(a, IV) and isinstance(b, IV):
            p, q = self.bool_of(a), self.bool_of(b)
            if p is not None and q is not None and not (a.const is not None and b.const is not None):
                r = z3.simplify(z3.And(p, q) if op == 'and' else z3.Or(p, q) if op == 'or' else z3.Xor(p, q))
                return IV(w, Lin.of(self.b1_int(B1(r))))
        if isinstance(a, (FV,)) or isinstance(b, (FV,)):
            raise Tool("int op on float")
        if (isinstance(a, BVV) or isinstance(b, BVV)) and all(isinstance(x, BVV) or (isinstance(x, IV) and x.const is not None) or op in ('and', 'or', 'xor', 'shl', 'lshr') for x in (a, b)):
            return self.bvop(st, ins, op, a, b, w)
        if isinstance(a, BVV):
            a = IV(w, self.bv2lin(st, a))
            st.assume(a.lin.z() >= 0, a.lin.z() < (1 << w))
        if isinstance(b, BVV):
            b = IV(w, self.bv2lin(st, b))
            st.assume(b.lin.z() >= 0, b.lin.z() < (1 << w))
        a, b = self.num(a, w), self.num(b, w)
        M = 1 << w
        h = M >> 1
        if op in ('add', 'sub', 'mul'):
            nuw, nsw = ins.x if ins is not None and ins.x else (False, False)
            if nsw:
                x, y = self.as_s(st, a), self.as_s(st, b)
                r = self.lin_op(op, x, y)
                if r.const is None or not (-h <= r.c < h):
                    self.oblige(st, "no signed overflow in %s" % op, z3.And(r.z() >= -h, r.z() < h), 'safety', ins)
                return IV(w, r, True) if r.t else IV(w, r)
            if not a.sg and not b.sg:
                # unsigned first; a constant close to 2^w is a negative number
                y = b.lin
                if not y.t and y.c >= h and op in ('add', 'mul'):
                    y = Lin(y.c - M)
                x = a.lin
                if not x.t and x.c >= h and op in ('mul',):
                    x = Lin(x.c - M)
                return self.mk(st, w, self.lin_op(op, x, y))
            x = a.lin if a.lin.t else Lin(a.sconst())
            y = b.lin if b.lin.t else Lin(b.sconst())
            return self.mk(st, w, self.lin_op(op, x, y))
        if op in ('udiv', 'urem'):
            x, y = self.as_u(st, a), self.as_u(st, b)
            if y.const == 0 or y.const is None:
                self.oblige(st, "division by zero", y.z() != 0, 'safety', ins)
                if st.dead:
                    return UNDEF
            q, r = self.divmod(st, x, y)
            return IV(w, q if op == 'udiv' else r)
        if op in ('sdiv', 'srem'):
            x, y = self.as_s(st, a), self.as_s(st, b)
            if y.const is None or y.c == 0:
                self.oblige(st, "division by zero", y.z() != 0, 'safety', ins)
                if st.dead:
                    return UNDEF
            if y.const is None or y.c == -1:
                self.oblige(st, "no overflow in division", z3.Not(z3.And(x.z() == -h, y.z() == -1)), 'safety', ins)
            if x.const is not None and y.const is not None:
                q = abs(x.c) // abs(y.c)
                q = q if (x.c < 0) == (y.c < 0) else -q
                return IV(w, Lin(q if op == 'sdiv' else x.c - q * y.c), True)
            if y.const is not None and x.divisible(y.c):
                return IV(w, x.divexact(y.c), True) if op == 'sdiv' else IV(w, 0)
            if self.quick(st, z3.And(x.z() >= 0, y.z() > 0)):
                q, r = self.divmod(st, x, y)
            else:
                ax = Lin.of(z3.If(x.z() < 0, -x.z(), x.z()))
                ay = Lin(abs(y.c)) if y.const is not None else Lin.of(z3.If(y.z() < 0, -y.z(), y.z()))
                q0, r0 = self.divmod(st, ax, ay)
                neg = z3.Xor(x.z() < 0, y.z() < 0)
                q = Lin.of(z3.If(neg, -q0.z(), q0.z()))
                r = Lin.of(z3.If(x.z() < 0, -r0.z(), r0.z()))
            return IV(w, q if op == 'sdiv' else r, True)
        if op in ('shl', 'lshr', 'ashr'):
            k = self.as_u(st, b)
            if k.const is None or k.c >= w:
                self.oblige(st, "shift amount is smaller than the width", k.z() < w, 'safety', ins)
                if st.dead:
                    return UNDEF
            if k.const is None:
                p2 = Lin.of(self.pow2(st, k.z(), w))
            else:
                p2 = Lin(1 << k.c)
            if op == 'shl':
                nuw, nsw = ins.x if ins is not None and ins.x else (False, False)
                if nsw:
                    x = self.as_s(st, a)
                    r = self.lin_op('mul', x, p2)
                    # C++20: defined, clang emits nsw only when it may; keep as obligation-free wrap
                    return self.mk(st, w, r)
                x = self.as_u(st, a)
                return self.mk(st, w, self.lin_op('mul', x, p2))
            if op == 'lshr':
                x = self.as_u(st, a)
            else:
                x = self.as_s(st, a)
            if p2.const is not None:
                if x.const is not None:
                    return IV(w, Lin(x.c >> k.c))
                if x.divisible(p2.c):
                    return IV(w, x.divexact(p2.c), op == 'ashr')
                return IV(w, Lin.of(x.z() / p2.c), op == 'ashr')
            q, r = self.divmod(st, x, p2)
            return IV(w, q, op == 'ashr')
        if op == 'and':
            if a.const is not None:
                a, b = b, a
            if b.const is not None:
                return self.and_mask(st, a, b.const, w)
            for x, y in ((a, b), (b, a)):
                for n in self.pow2:
                    if (y.lin - n + 1).const == 0:   # a mask of a power of two
                        z = self.as_u(st, x).z()
                        if self.quick(st, z3.And(z >= 0, z <= n.z())):
                            return IV(w, Lin.of(z3.If(z == n.z(), 0, z)))
                        return IV(w, Lin.of(z % n.z()))
            return IV(w, self.and_uf(st, self.as_u(st, a), self.as_u(st, b), w))
        if op == 'or':
            if a.const is not None:
                a, b = b, a
            x, y = self.as_u(st, a), self.as_u(st, b)
            if b.const is not None:
                m = self.and_mask(st, IV(w, x), b.const, w)
                return self.mk(st, w, x + b.const - m.lin)
            for (p, q) in ((x, y), (y, x)):
                t = p.tz()
                if t and t < w and self.quick(st, q.z() < (1 << t)):
                    return IV(w, x + y)
            n = self.and_uf(st, x, y, w)
            return IV(w, x + y - n)
        if op == 'xor':
            if a.const is not None:
                a, b = b, a
            x, y = self.as_u(st, a), self.as_u(st, b)
            if b.const is not None:
                if b.const == M - 1:
                    if a.sg:
                        return IV(w, Lin(-1) - a.lin, True)
                    return IV(w, Lin(M - 1) - x)
                m = self.and_mask(st, IV(w, x), b.const, w)
                return self.mk(st, w, x + b.const - m.lin.scale(2))
            n = self.and_uf(st, x, y, w)
            return IV(w, x + y - n.scale(2))
        raise Tool("op " + op)

    def lin_op(self, op, x, y):
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if y.const is not None:
            return x.scale(y.c)
        if x.const is not None:
            return y.scale(x.c)
        return Lin.of(x.z() * y.z())

    def divmod(self, st, x, y):
        """floor division of nonnegative x by positive y"""
        if y.const is not None:
            if x.const is not None:
                return Lin(x.c // y.c), Lin(x.c % y.c)
            if x.divisible(y.c):
                return x.divexact(y.c), Lin(0)
            q = Lin.of(x.z() / y.c)
            return q, x - q.scale(y.c)
        q = fresh_lin("quot")
        r = fresh_lin("rem")
        xz, yz, qz, rz = x.z(), y.z(), q.z(), r.z()
        st.assume(z3.Implies(z3.And(xz >= 0, yz > 0), z3.And(xz == qz * yz + rz, rz >= 0, rz < yz, qz >= 0, qz <= xz)))
        return q, r

    def and_mask(self, st, a, m, w):
        M = 1 << w
        x = self.as_u(st, a)
        if x.const is not None:
            return IV(w, x.c & m)
        if m == 0:
            return IV(w, 0)
        if m == M - 1:
            return IV(w, x)
        runs = []
        i = 0
        while i < w:
            if m >> i & 1:
                j = i
                while j < w and m >> j & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        # complement cheaper?
        z = x.z()
        t = x.tz()
        tot = Lin(0)
        for lo, hi in runs:
            if self.quick(st, z < (1 << hi)):
                part = Lin.of(z / (1 << lo)) if lo else x
                if lo and x.divisible(1 << lo):
                    part = x.divexact(1 << lo)
            else:
                part = z / (1 << lo) if lo else z
                part = Lin.of(part % (1 << (hi - lo)))
            tot = tot + part.scale(1 << lo)
        return IV(w, tot)

    def and_uf(self, st, x, y, w):
        f = z3.Function("and%d" % w, ISORT, ISORT, ISORT)
        e = f(x.z(), y.z())
        st.assume(e >= 0, e <= x.z(), e <= y.z())
        return Lin.of(e)

    def pow2(self, st, k, w):
        f = z3.Function("pow2", ISORT, ISORT)
        e = f(k)
        st.assume(e >= 1, e < (1 << w) if w > 1 else e >= 1)
        st.assume(z3.Or(*[z3.And(k == j, e == (1 << j)) for j in range(w)]))
        return e

    def bvop(self, st, ins, op, a, b, w):
        x, y = self.to_bv(st, a, w), self.to_bv(st, b, w)
        if op in ('add', 'sub', 'mul'):
            nuw, nsw = ins.x if ins is not None and ins.x else (False, False)
            if nsw:
                chk = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                       'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                       'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
                self.oblige(st, "no signed overflow in %s" % op, chk, 'safety', ins)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, "division by zero", y != 0, 'safety', ins)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        elif op in ('shl', 'lshr', 'ashr'):
            if not (isinstance(b, IV) and b.const is not None and b.const < w):
                self.oblige(st, "shift amount is smaller than the width", z3.ULT(y, w), 'safety', ins)
            r = x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        else:
            r = x ^ y
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return IV(w, r.as_long())
        return BVV(w, r)

    def trunc(self, st, v, w):
        if isinstance(v, BVV):
            r = z3.simplify(z3.Extract(w - 1, 0, v.bv))
            if w == 1:
                return B1(r == 1)
            return BVV(w, r)
        if isinstance(v, B1):
            return v if w == 1 else IV(w, Lin.of(self.b1_int(v)))
        if w == 1:
            if v.const is not None:
                return B1(bool(v.const & 1))
            if len(v.lin.t) == 1 and v.lin.c == 0 and v.lin.t[0][1] == 1 and v.lin.t[0][0] in boolatoms:
                return B1(boolatoms[v.lin.t[0][0]])
            z = v.lin.z()
            if self.quick(st, z3.And(z >= 0, z <= 1)):
                return B1(z == 1)
            return B1(z % 2 == 1)
        if v.const is not None:
            return IV(w, v.const)
        return self.mk(st, w, v.lin)

    def icmp(self, st, pred, a, b, ins):
        if isinstance(a, PV) or isinstance(b, PV):
            return self.pcmp(st, pred, a, b, ins)
        if isinstance(a, B1) and isinstance(b, B1):
            if pred == 'eq':
                return a.b == b.b
            if pred == 'ne':
                return a.b != b.b
            a, b = IV(1, Lin.of(self.b1_int(a))), IV(1, Lin.of(self.b1_int(b)))
        if (isinstance(a, BVV) or isinstance(b, BVV)) and all(isinstance(x, BVV) or (isinstance(x, IV) and x.const is not None) for x in (a, b)):
            w = a.w
            x, y = self.to_bv(st, a, w), self.to_bv(st, b, w)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                    'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        if pred in ('eq', 'ne'):
            if isinstance(a, IV) and isinstance(b, IV):
                if a.sg == b.sg and (a.lin.t and b.lin.t):
                    x, y = a.lin, b.lin
                elif a.sg and not b.lin.t:
                    x, y = a.lin, Lin(b.sconst())
                elif b.sg and not a.lin.t:
                    x, y = Lin(a.sconst()), b.lin
                elif not a.sg and not b.sg:
                    x, y = a.lin, b.lin
                else:
                    x, y = self.as_u(st, a), self.as_u(st, b)
            else:
                x, y = self.as_u(st, a), self.as_u(st, b)
            if x.same(y):
                r = z3.BoolVal(True)
            else:
                d = x - y
                r = z3.BoolVal(d.c == 0) if not d.t else x.z() == y.z()
                if d.t and len(d.t) == 1 and d.t[0][0] in boolatoms and abs(d.t[0][1]) == 1:
                    bb = boolatoms[d.t[0][0]]
                    s = d.t[0][1]
                    if d.c == 0:
                        r = z3.Not(bb)
                    elif d.c == -s:
                        r = bb
            return r if pred == 'eq' else z3.Not(r)
        if pred[0] == 's':
            x, y = self.as_s(st, a), self.as_s(st, b)
        else:
            x, y = self.as_u(st, a), self.as_u(st, b)
        return _cmp(pred[1:], x, y)

    def pcmp(self, st, pred, a, b, ins):
        if isinstance(a, IV):
            a = self.i2p(st, a.lin)
        if isinstance(b, IV):
            b = self.i2p(st, b.lin)
        if a.reg is b.reg:
            x, y = a.off, b.off
        elif pred in ('eq', 'ne'):
            # distinct objects never compare equal (offsets within [0,size], blocks separated)
            if a.reg is None or b.reg is None:
                n, o = (a, b) if a.reg is None else (b, a)
                if n.off.const == 0 and o.off.const is not None:
                    return z3.BoolVal(pred == 'ne')
                x, y = self.p2i(st, a), self.p2i(st, b)
            else:
                return z3.BoolVal(pred == 'ne')
        else:
            x, y = self.p2i(st, a), self.p2i(st, b)
        if pred == 'eq' or pred == 'ne':
            d = x - y
            r = z3.BoolVal(d.c == 0) if not d.t else x.z() == y.z()
            return r if pred == 'eq' else z3.Not(r)
        return _cmp(pred[1:], x, y)


def _cmp(p, x, y):
    d = x - y
    if not d.t:
        c = d.c
        return z3.BoolVal({'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p])
    X_, Y_ = x.z(), y.z()
    return {'lt': X_ < Y_, 'le': X_ <= Y_, 'gt': X_ > Y_, 'ge': X_ >= Y_}[p]


def Const0(ty):
    if ty.k == 'int':
        return ir.Const('int', ty, 0)
    if ty.k == 'ptr':
        return ir.Const('null', ty)
    if ty.k in ('float', 'double'):
        return ir.Const('fp', ty, 0.0)
    return ir.Const('zero', ty)


def _nm(r):
    return r.name.split('#')[0]


addr_region = {}
regions_by_id = {}
NAMED = {}  # names given to array terms
import values as _v


def _atoms_get(k):
    return _v._atoms[k]
