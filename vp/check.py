"""check.py <property>: discharge every contract obligation of one property on /repo's current tree."""
import sys, os, time, json, importlib, multiprocessing, subprocess, traceback, hashlib, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build

T0 = time.time()
CAP = float(os.environ.get("VP_CAP", "600"))


def run_task(a):
    i, mods, budget = a
    import z3
    import ir
    t = TASKS[i]
    try:
        prog = ir.Program(mods)
        t.budget = min(budget, max(20, CAP - 60 - (time.time() - T0)))
        lg = None
        if os.environ.get("VP_LOG"):
            lf = open(os.path.join(os.environ["VP_LOG"], t.name + ".log"), "w")
            lg = lambda *x: print(*x, file=lf, flush=True)
        r = t.run(prog, log=lg)
    except Exception as e:
        r = dict(task=t.name, fn=None, obligs=[], error="tool: %s: %s" % (type(e).__name__, e), tb=traceback.format_exc(), time=0, stats={}, assumptions=[], contracts=[], inlined=[])
    r['budget'] = t.budget
    return i, r


def run_hunt(h):
    """compile and run one executable oracle against the real code"""
    t = time.time()
    src = os.path.join(HERE, "hunt", h['src'])
    tmp = None
    exe = os.path.join(build.BUILD, "hunt.%s.%d" % (h['name'], os.getpid()))
    res = dict(name=h['name'], functions=h.get('functions', []), bound=h.get('bound', ''), cases=0, samples=[], fail=None, known=[], error=None, src=h['src'], defs=list(h.get('defs', [])))
    try:
        repo_src = [os.path.join(build.REPO, "src", s) for s in h.get('repo', ["pystd2026.cpp", "pystd2026_tables.cpp", "pystd_common.cpp"])]
        cmd = ["clang++-20"] + build.flags() + ["-g", "-O1", "-fno-omit-frame-pointer"] + h.get('san', ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute"]) + ["-D" + d for d in h.get('defs', [])] + ["-I" + os.path.join(HERE, "hunt"), src] + repo_src + ["-o", exe] + h.get('libs', [])
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        if p.returncode:
            res['error'] = "hunter does not compile: " + p.stderr[:1500]
            return res
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:color=never" % h.get('leaks', 1)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:color=never"
        secs = h.get('secs', 12)
        tmp = tempfile.mkdtemp(prefix="vpscratch.")
        env["TMPDIR"] = tmp
        if os.environ.get("VERIF_TIER") == "thorough":
            secs *= 8
        env["HUNT_SECS"] = str(secs)
        env["HUNT_SEED"] = os.environ.get("VERIF_SEED", "1")
        try:
            p = subprocess.run([exe], capture_output=True, timeout=secs * 4 + 120, env=env, cwd=build.BUILD)
            out = p.stdout.decode('latin1')
            err = p.stderr.decode('latin1')
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('latin1')
            err = "timeout: the program did not finish (case in progress: see the last CASE line)"
            rc = 124
        for l in out.split("\n"):
            if l.startswith("CASES "):
                res['cases'] = int(l.split()[1])
            elif l.startswith("SAMPLE ") and len(res['samples']) < 5:
                res['samples'].append(l[7:300])
        fl = [l for l in out.split("\n") if l.startswith("FAIL ")]
        if rc != 0 or fl:
            cur = [l for l in (out + "\n" + err).split("\n") if l.startswith("CASE ")]
            res['fail'] = (fl[0] if fl else "FAIL program ended with status %s" % rc) + ("\nlast case: " + cur[-1] if cur else "") + "\n" + err[:6000]
        res['cmd'] = " ".join(cmd)
    except Exception as e:
        res['error'] = "%s: %s" % (type(e).__name__, e)
    finally:
        if os.path.exists(exe):
            os.unlink(exe)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    res['time'] = time.time() - t
    return res


TASKS = []


def child(fn, arg, path):
    import threading, pickle
    if os.environ.get("VP_LOG"):
        import faulthandler, signal
        faulthandler.register(signal.SIGUSR1, all_threads=True)
    out = []
    threading.stack_size(512 << 20)
    t = threading.Thread(target=lambda: out.append(fn(arg)))
    t.start()
    t.join()
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(out[0], f)
    os.rename(tmp, path)
    os._exit(0)


def cpu(pid):
    """processor time used by one of our own jobs and its finished children"""
    try:
        x = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return sum(int(v) for v in x[11:15])
    except (OSError, IndexError, ValueError):
        return -1


def schedule(jobs, cpus):
    """jobs: list of (key, fn, arg); one process each, a crashed one is run again; returns {key: result}"""
    import pickle, signal
    res, run, todo = {}, {}, list(jobs)
    stop_at = CAP
    tries = {}
    again = {}
    seen = {}
    looked = time.time()
    while todo or run:
        if time.time() - looked > 5:
            # a proof process that uses no processor time hangs in the solver: start it again
            looked = time.time()
            for p_ in list(run):
                if run[p_][0][0] != 't':
                    continue
                c = cpu(p_)
                if c > seen.get(p_, (-1, 0))[0]:
                    seen[p_] = (c, looked)
                elif looked - seen[p_][1] > 40:
                    os.kill(p_, signal.SIGKILL)
                if looked - run[p_][4] > TASKS[run[p_][2][0]].budget * 1.3 + 60:
                    os.kill(p_, signal.SIGKILL)
        while todo and len(run) < cpus and time.time() - T0 < stop_at:
            key, fn, arg = todo.pop(0)
            path = os.path.join(build.BUILD, "job.%d.%s.%d" % (os.getpid(), key, tries.get(key, 0)))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                from task import die_with_parent
                die_with_parent()
                try:
                    child(fn, arg, path)
                except BaseException:
                    traceback.print_exc()
                os._exit(3)
            run[pid] = (key, fn, arg, path, time.time())
        if time.time() - T0 >= stop_at:
            for pid in run:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            for pid in run:
                res.setdefault(run[pid][0], again.get(run[pid][0]))
            break
        pid, stt = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            continue
        if pid not in run:
            continue
        key, fn, arg, path, _ = run.pop(pid)
        if os.path.exists(path):
            with open(path, "rb") as f:
                res[key] = pickle.load(f)
            os.unlink(path)
            if key[0] == 't' and key not in again and stop_at == CAP and time.time() - T0 < CAP / 3 and len(again) < 12:
                r = res[key][1]
                if r['error'] or any(o['status'] != 'ok' for o in r['obligs']):
                    # solvers are limited by time: one more try when the machine may be less busy
                    again[key] = res.pop(key)
                    todo.append((key, fn, arg))
                    continue
            if key in again and any(o['status'] != 'ok' for o in res[key][1]['obligs'] or [dict(status='none')]) and again[key][1]['obligs']:
                res[key] = again[key]
            if key[0] == 'h' and res[key].get('fail'):
                # a failing input of the real code: give the proofs a little more time, then stop
                stop_at = min(stop_at, time.time() - T0 + 25)
        else:
            tries[key] = tries.get(key, 0) + 1
            if tries[key] < 3:
                todo.insert(0, (key, fn, arg))
            else:
                res[key] = again.get(key)
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(build.BUILD, exist_ok=True)
    viol = []      # (text, has_input)
    mod = importlib.import_module("props." + pid)
    mods = []
    err = None
    try:
        for src, tag in mod.modules():
            mods.append(build.bitcode(src, "%s_%s" % (pid, tag), getattr(mod, 'EXTRA', {}).get(tag, ())))
    except Exception as e:
        err = "%s" % e
    TASKS[:] = mod.tasks(tier)
    hunts = mod.hunts(tier) if hasattr(mod, 'hunts') else []
    results, hres = [], []
    jobs = [("h%d" % i, run_hunt, h) for i, h in enumerate(hunts)]
    if err is None:
        jobs += [("t%d" % i, run_task, (i, mods, TASKS[i].budget)) for i in sorted(range(len(TASKS)), key=lambda i: -getattr(TASKS[i], 'cost', 1))]
    done = schedule(jobs, min(8, os.cpu_count() or 4))
    for i, t in enumerate(TASKS if err is None else []):
        r = done.get("t%d" % i)
        results.append(r[1] if r else dict(task=t.name, fn=None, obligs=[], error="tool: no result (time budget exhausted or the verifier process died)", time=0, stats={}, assumptions=[], contracts=[], inlined=[]))
    for i, h in enumerate(hunts):
        hres.append(done.get("h%d" % i) or dict(name=h['name'], src=h['src'], functions=h.get('functions', []), bound='', cases=0, samples=[], fail=None, known=[], error="did not finish", time=0))
    for m in mods:
        if os.path.exists(m):
            os.unlink(m)
    results = [r for r in results if r is not None]
    obl = disc = 0
    fails = []
    if err:
        fails.append(("harness", "the verified code cannot be compiled to bitcode: " + err[:2000]))
    by = {}
    kinds = {}
    for r in results:
        for o in r['obligs']:
            obl += 1
            if o['status'] == 'ok':
                disc += 1
                by[o['how']] = by.get(o['how'], 0) + 1
                kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            else:
                fails.append((r['task'], "obligation `%s` at %s: %s (%s)\n   %s\n   model: %s" % (o['name'], o['where'], o['status'], o['how'], o['detail'], o['model'])))
        if r['error']:
            fails.append((r['task'], "no verdict: %s" % r['error']))
        elif not r['obligs']:
            fails.append((r['task'], "no obligations were generated"))
    hf = [h for h in hres if h['fail']]
    herr = [h for h in hres if h['error']]
    for h in herr:
        # a stand-in that cannot run decides nothing about the functions it covers
        fails.append((h['name'], "bounded check did not run: " + h['error']))
    level = getattr(mod, 'LEVEL', 'proof')
    tasks_out = [dict(contract=r['task'], function=r['fn'], obligations=len(r['obligs']), discharged=sum(o['status'] == 'ok' for o in r['obligs']), seconds=round(r.get('time', 0), 1), contracts_used_for_calls=r.get('contracts', []), exits=r.get('exits'), inlined=len(r.get('inlined', []))) for r in results]
    assume = sorted(set(a for r in results for a in r.get('assumptions', [])) | set(getattr(mod, 'ASSUME', [])))
    from specs_trusted import TRUSTED
    cov = dict(obligations=obl, discharged=disc, checker_cmd="python3-vt vp/check.py %s" % pid,
               trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
               functions_under_contract=sorted(set(r['fn'] for r in results if r['fn'])),
               repo_functions_verified=sorted(set(x for r in results for x in r.get('inlined', []) + [r['fn'] or ''] if 'pystd20' in x))[:600],
               contracts=tasks_out, discharged_by=by, obligations_by_kind=kinds,
               solver_seconds=round(sum(r.get('stats', {}).get('qft', 0) + r.get('stats', {}).get('fullt', 0) for r in results), 1),
               executed_helpers=sorted(set(x for r in results for x in r.get('inlined', []) if 'pystd20' not in x))[:200],
               bounded_standins=[dict(name=h['name'], functions=h['functions'], bound=h['bound'], cases=h['cases'], samples=h['samples'], seconds=round(h.get('time', 0), 1), label="bounded check on the compiled code, not counted as proved") for h in hres])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - T0, 1), violations=1 if (fails or hf) else 0)
    if level in ('exploration', 'other'):
        cov.update(evaluations=sum(h['cases'] for h in hres), distinct_nontrivial=sum(h['cases'] for h in hres), rule="see bounded_standins", samples=[x for h in hres for x in h['samples']][:10], explanation=getattr(mod, 'EXPLAIN', ''))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d contracts, %d bounded stand-ins (%d cases), %.1fs" % (pid, obl, disc, len(results), len(hres), sum(h['cases'] for h in hres), time.time() - T0))
    if os.environ.get("VP_V"):
        for t in tasks_out:
            print("  ", t['contract'], t['obligations'], t['discharged'], t['seconds'], t['exits'])
    if not fails and not hf:
        return 0
    rd = os.path.join(ROOT, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s.txt" % pid)
    with open(path, "w") as f:
        f.write("property %s\n" % pid)
        for h in hf:
            f.write("\n== failing input on the real code (%s), found by %s\n%s\n" % (h['name'], h['src'], h['fail']))
            f.write("rebuild: %s\nrun with HUNT_SEED=%d HUNT_SECS=%s\n" % (h.get('cmd', ''), seed, os.environ.get('HUNT_SECS', '60')))
        for t, x in fails:
            f.write("\n== contract %s: %s\n" % (t, x))
    for t, x in fails[:12]:
        print("FAILED", t, x.split("\n")[0][:300])
    for h in hf:
        print("FAILING INPUT", h['name'], h['fail'].split("\n")[0][:300])
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if hf else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1]
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".txt")
        open(path, "w").write("the verifier failed\n" + traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
