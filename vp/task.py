"""Contracts, tasks and their execution."""
import ctypes
import os
import select
import signal
import time
import traceback
import re
import z3
import ir
from values import *
from engine import *
from execu import *


def die_with_parent():
    """a child must not outlive the job that waits for it"""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def forked_check(sol, secs):
    """satisfiability in a child process that is ended after secs seconds: z3's own time limit is not always obeyed"""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        try:
            os.write(b, str(sol.check()).encode())
        finally:
            os._exit(0)
    os.close(b)
    r = 'unknown'
    if select.select([a], [], [], secs)[0]:
        r = os.read(a, 100).decode() or 'unknown'
    os.close(a)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return r


class Contract:
    """A function contract.
    setup(V, st)        -> args      builds an arbitrary state satisfying the precondition's shape; sets V.ctx
    pre(V, st, c)       -> [(label, formula)]   precondition, assumed when verifying, checked at calls
    post(V, old, new, c, ret) -> [(label, formula)]  postcondition, checked when verifying, assumed at calls
    bind(V, st, args)   -> ctx                    how a call's arguments map to the contract's variables
    frame(V, st, c)     havocs what the call may modify; returns the fresh return value
    """
    name = ""
    fn = ""            # regex on the demangled name
    loops = ()
    throws = False     # exceptional exits allowed?

    def assume_extra(s, V, old, new, c, ret):
        return []

    def after(s, V, st, c):
        """cuts proved right after a call"""

    def setup(s, V, st):
        raise NotImplementedError

    def pre(s, V, st, c):
        return []

    def post(s, V, old, new, c, ret):
        return []

    def post_throw(s, V, old, new, c):
        return [("no exception", z3.BoolVal(False))]

    def post_abort(s, V, old, new, c, why):
        return [("program is not aborted (%s)" % why, z3.BoolVal(False))]

    def bind(s, V, st, args):
        raise NotImplementedError

    def frame(s, V, st, c):
        raise NotImplementedError

    def apply(s):
        def h(V, st, args, ins):
            V.used_contracts.add(s.name)
            c = s.bind(V, st, args)
            for lab, g in s.pre(V, st, c):
                V.oblige(st, "precondition of %s: %s" % (s.name, lab), g, 'precondition', ins)
            if st.dead:
                return []
            outs = []
            if s.throws:
                t = st.copy()
                t.assume(*[g for _, g in s.post_throw(V, st, t, c)])
                if V.feasible(t):
                    outs.append(Outcome(t, 'throw', (PV(None, 1), 'PyException')))
            old = st.copy()
            ret = s.frame(V, st, c)
            st.assume(*[g for _, g in s.post(V, old, st, c, ret)])
            st.assume(*s.assume_extra(V, old, st, c, ret))
            s.after(V, st, c)
            outs.append(Outcome(st, 'ret', ret))
            return outs
        return h

    def allowed(s, V, c):
        """region ids the function may write (None: not checked)"""
        return None


class Task:
    """one function (instantiation) to verify against its contract"""

    def __init__(s, contract, uses=(), config=None, modules=(), pick=None, name=None, budget=300):
        s.c = contract
        s.uses = uses
        s.config = config
        s.modules = modules
        s.pick = pick
        s.name = name or contract.name
        s.budget = budget

    def run(s, prog, log=None):
        res = s.run1(prog, log, False)

        def good(r):
            return not r['error'] and all(o['status'] == 'ok' for o in r['obligs'])
        # rewritten code may have loops, or variables of loops, the contract says nothing about: try to find their invariants
        if not good(res) and res['time'] < 90:
            again = s.run1(prog, log, True)
            if good(again):
                again['retried'] = True
                return again
        return res

    def run1(s, prog, log, infer):
        res = dict(task=s.name, fn=None, obligs=[], error=None)
        t0 = time.time()
        V = Exec(prog, log)
        V.deadline = t0 + s.budget
        try:
            names = prog.find(s.c.fn)
            if s.pick:
                names = [n for n in names if re.search(s.pick, prog.dem(n))]
            if not names:
                raise Tool("function under contract not found: %s" % s.c.fn)
            name = sorted(names, key=len)[0]
            res['fn'] = prog.dem(name)
            if s.config:
                s.config(V)
            V.autoloops = V.autoloops or infer
            V.mixed = infer
            for u in s.uses:
                V.on(u.fn, u.apply())
            if s.c.fn not in [u.fn for u in s.uses] and getattr(s.c, 'recursive', False):
                V.on(s.c.fn, s.c.apply())
            V.loopspecs = list(s.c.loops) + list(V.loopspecs)
            st = State()
            st.assume(X != JUNK)
            args = s.c.setup(V, st)
            c = V.ctx
            pre = s.c.pre(V, st, c)
            st.assume(*[g for _, g in pre])
            if not V.feasible(st):
                V.fail(st, "precondition is satisfiable", 'vacuity')
            old = st.copy()
            V.old = old
            c.old = old
            outs = V.call_function(st, name, args)
            kinds = dict(ret=0, throw=0, abort=0)
            for o in outs:
                kinds[o.kind] += 1
            for o in outs:
                if o.kind == 'ret':
                    for lab, g in s.c.post(V, old, o.st, c, o.val):
                        V.oblige(o.st, "postcondition: " + lab, g, 'post')
                elif o.kind == 'throw':
                    for lab, g in s.c.post_throw(V, old, o.st, c):
                        V.oblige(o.st, "exceptional postcondition: " + lab, g, 'post')
                else:
                    for lab, g in s.c.post_abort(V, old, o.st, c, o.val):
                        V.oblige(o.st, "abort: " + lab, g, 'post')
                al = s.c.allowed(V, c)
                if al is not None:
                    for w in o.st.wlog:
                        if w[0] in old.mem and w[0] not in al:
                            V.oblige(o.st, "frame: %s is not modified" % regions_by_id[w[0]], z3.BoolVal(False), 'frame')
                            break
            # vacuity: some return must be reachable
            ok = False
            live = [o for o in outs if not o.st.dead] or outs
            vac = getattr(s.c, 'may_not_return', False)
            reach = False
            for o in outs:
                if o.kind == 'ret' or vac:
                    st2 = o.st
                    saved = (st2.facts, st2.qfacts)
                    sol = z3.Solver()
                    sol.set("timeout", 1500)
                    sol.add(*(o.st.facts + o.st.qfacts + V.prelude))
                    r = forked_check(sol, 3)
                    if r != 'unsat':
                        reach = True
                        break
            failed = any(o.status not in ('ok',) for o in V.obligs)
            if not reach and not failed:
                o = Oblig()
                o.name, o.kind, o.where, o.status, o.how, o.time, o.detail, o.model = "a normal exit is reachable (vacuity guard)", 'vacuity', res['fn'][:80], 'vacuous', 'all exits infeasible', 0, '', None
                V.obligs.append(o)
            res['exits'] = kinds
        except Tool as e:
            res['error'] = "tool: %s" % e
        except KeyError as e:
            res['error'] = "tool: %s" % e
            if log:
                traceback.print_exc()
        except Exception as e:
            res['error'] = "internal: %s: %s" % (type(e).__name__, e)
            res['tb'] = traceback.format_exc()
            if log:
                traceback.print_exc()
        for o in V.obligs:
            md = None
            if o.model is not None:
                try:
                    md = str(o.model)[:3000]
                except Exception:
                    md = None
            res['obligs'].append(dict(name=o.name, status=o.status, how=o.how, t=round(o.time, 3), where=o.where, kind=o.kind, detail=o.detail, model=md))
        res['time'] = time.time() - t0
        res['stats'] = V.stats
        res['assumptions'] = sorted(V.assumptions)
        res['contracts'] = sorted(V.used_contracts)
        res['inlined'] = sorted(V.inlined)
        return res


class LemmaTask:
    """mathematical lemmas over the definitions used in contracts: each is one formula, decided by z3"""

    def __init__(s, name, lemmas, budget=120):
        s.name, s.lemmas, s.budget, s.cost = name, lemmas, budget, 1

    def run(s, prog, log=None):
        t0 = time.time()
        res = dict(task=s.name, fn="lemma", obligs=[], error=None, stats={}, assumptions=[], contracts=[], inlined=[], exits=None)
        for name, facts, goal in s.lemmas():
            t = time.time()

            def check(fs, ms, seed=0):
                sol = z3.SimpleSolver() if seed % 3 == 2 else z3.Solver()
                sol.set("timeout", ms)
                sol.set("smt.random_seed", seed)
                if seed % 3 == 1:
                    sol.set("smt.mbqi", False)
                sol.add(*fs)
                return forked_check(sol, ms / 1000 + 3)
            for k in range(12):
                r = check(list(facts) + [z3.Not(goal)], 3000 + 500 * k, k)
                if r == 'unsat':
                    break
            # hypotheses that contradict each other would prove anything
            if r == 'unsat' and check(facts, 5000) == 'unsat':
                r = 'vacuous'
            res['obligs'].append(dict(name="lemma: " + name, status='ok' if r == 'unsat' else 'unknown', how='z3', t=round(time.time() - t, 3), where='', kind='lemma', detail='', model=None))
        res['time'] = time.time() - t0
        return res
