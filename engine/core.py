"""Check driver: builds LLVM IR from /repo's current sources, runs verification
tasks in parallel, decides, replays counterexamples natively, writes evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, traceback, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
import z3
from run import *
import run as runmod

DEFS = ["-DDRJIT_BUILD=1", "-DDRJIT_DYNAMIC_LLVM=1", "-DDRJIT_DYNAMIC_CUDA=1", "-DDRJIT_ENABLE_CUDA=1", "-DDRJIT_ENABLE_OPTIX=1", "-DLZ4LIB_VISIBILITY=", "-DNDEBUG"]
INCS = [f"-I{REPO}/include", f"-I{REPO}", f"-I{REPO}/src", f"-I{REPO}/ext/lz4", f"-I{VERIF}/stubs/tsl_native", f"-I{VERIF}/stubs/nanothread/include", f"-I{VERIF}/harness"]
PASSES = "function(sroa,early-cse,simplifycfg,loop-simplify)"

class Task:
    def __init__(s, name, fn, ir, limit=300, kind="verify", **kw):
        s.name, s.fn, s.ir, s.limit, s.kind, s.kw = name, fn, ir, limit, kind, kw

class Ctx:
    """handed to a verification task"""
    def __init__(s, mod, tier, task):
        s.mod, s.tier, s.task = mod, tier, task
        s.execs, s.notes, s.assumptions, s.covers = [], [], [], {}
    def exec(s, **kw):
        full = kw.pop("full_ms", 60000 if s.tier == "quick" else 300000)
        quick = kw.pop("quick_ms", 3000)
        ex = Exec(s.mod, prover=Prover(quick_ms=quick, full_ms=full), **kw)
        s.execs.append(ex)
        return ex
    def cover(s, ex, st, name):
        """reachability guard: the path condition behind the postcondition is satisfiable"""
        s.covers[name] = s.covers.get(name, False) or ex.pv.feasible(st.pc, ms=10000)
    def assume(s, txt):
        if txt not in s.assumptions: s.assumptions.append(txt)

def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), "timeout"

class Suite:
    def __init__(s, pid, title):
        s.pid, s.title = pid, title
        s.irs = {}; s.tasks = []; s.natives = []; s.assumptions = []; s.functions_note = []; s.known = []
        s.prejobs = []
        s.trusted = ["clang 18 front end and the IR passes " + PASSES, "the symbolic executor in /verif/engine", "z3", "cvc5"]
    def ir(s, name, src, flags=(), passes=PASSES, opt="-O0"):
        s.irs[name] = (src, list(flags), passes, opt)
    def task(s, name, fn, ir, **kw): s.tasks.append(Task(name, fn, ir, **kw))
    def native(s, src, flags=(), args=(), always=True, name=None, timeout=200, sources=(), cxx="g++"):
        """native driver: replays / searches failing inputs against the compiled real code; exit 1 + 'CE:' lines"""
        s.natives.append(dict(src=src, flags=list(flags), args=list(args), always=always, name=name or os.path.basename(src), timeout=timeout, sources=list(sources), cxx=cxx))

    def native_full(s, src, flags=("-fsanitize=address",), timeout=300, defs=()):
        """native driver linked with every source file of the library and the system's libLLVM (real code generation)"""
        s.natives.append(dict(src=src, flags=list(flags), args=[], always=True, name=os.path.basename(src), timeout=timeout, sources=[], cxx="clang++", full=True, defs=list(defs)))
    def build_full(s, n, tmp):
        """compile all of src/*.cpp in parallel, then link the driver against them"""
        import glob
        d = f"{tmp}/full_{abs(hash(' '.join(n['flags'])))}"; os.makedirs(d, exist_ok=True)
        key = tuple(n["flags"])
        fl = ["-std=c++17", "-O1", "-gline-tables-only", "-w", *DEFS, *INCS, f"-I{REPO}/resources", *n["flags"]]
        srcs = [f for f in sorted(glob.glob(f"{REPO}/src/*.cpp")) if "metal_" not in f]
        jobs = [["clang++", *fl, "-c", f, "-o", f"{d}/{os.path.basename(f)}.o"] for f in srcs]
        jobs += [["clang", "-O1", "-w", "-DLZ4LIB_VISIBILITY=", "-c", f"{REPO}/ext/lz4/lz4.c", "-o", f"{d}/lz4.o"]]
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        jobs.insert(0, ["clang++", *fl, f"-I{VERIF}/native", *n["defs"], "-c", f"{VERIF}/native/{n['src']}", "-o", f"{d}/driver_{n['name']}.o"])
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as p: rs = list(p.map(lambda j: sh(j, timeout=600), jobs))
        for j, (rc, o, e) in zip(jobs, rs):
            if rc: return None, e[-3000:]
        out = f"{d}/{n['name']}.exe"
        cmd = ["clang++", *n["flags"], *[j[-1] for j in jobs], "-o", out, "-lpthread", "-ldl", "-rdynamic"]
        rc, o, e = sh(cmd, timeout=600)
        return (out, ["<all of /repo/src compiled with>", *fl, f"{VERIF}/native/{n['src']}"]) if rc == 0 else (None, e[-4000:])
    # ---------------------------------------------------------------
    def build_ir(s, name, tmp):
        src, flags, passes, opt = s.irs[name]
        raw, out = f"{tmp}/{name}.raw.bc", f"{tmp}/{name}.bc"
        cmd = ["clang++", "-std=c++17", opt, "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-emit-llvm", "-c", *DEFS, *flags, *INCS, f"{VERIF}/harness/{src}", "-o", raw]
        rc, o, e = sh(cmd)
        if rc != 0: return None, "compile: " + e[-3000:]
        rc, o, e = sh(["/usr/lib/llvm-18/bin/opt", f"-passes={passes}", raw, "-o", out])
        if rc != 0: return None, "opt: " + e[-2000:]
        return out, None
    def main(s):
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: tier = "thorough"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        only = [a.split("=", 1)[1] for a in sys.argv if a.startswith("--only=")]
        verbose = "-v" in sys.argv
        t0 = time.time()
        tmp = tempfile.mkdtemp(prefix=f"vf_{s.pid}_")
        try: rc = s.run(tier, seed, only, verbose, tmp, t0)
        finally: shutil.rmtree(tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(rc)
    def run(s, tier, seed, only, verbose, tmp, t0):
        from concurrent.futures import ThreadPoolExecutor
        pool = ThreadPoolExecutor(8)
        irf = {n: pool.submit(s.build_ir, n, tmp) for n in s.irs}
        natf = [(n, pool.submit(s.build_native, n, tmp)) for n in s.natives if n["always"]] if "--nonative" not in sys.argv else []
        mods, errs = {}, {}
        for n, f in irf.items():
            p, e = f.result()
            if e: errs[n] = e
            else:
                try: mods[n] = ir.Module(p)
                except Exception as ex: errs[n] = "IR reader: " + repr(ex)
        results = []
        native_res = []
        nat_run = [(n, pool.submit(s.run_native, n, f, tier, seed)) for n, f in natf]
        queue = [t for t in s.tasks if not only or any(o in t.name for o in only)]
        queue = [t for t in queue if tier == "thorough" or not t.kw.get("thorough_only")]
        results = s.run_tasks(queue, mods, errs, tier, tmp, verbose)
        for n, f in nat_run: native_res.append(f.result())
        return s.decide(results, native_res, tier, seed, t0, tmp, verbose, only)
    def run_tasks(s, queue, mods, errs, tier, tmp, verbose):
        out, live, crashed = [], [], {}
        queue = list(queue)
        ncpu = int(os.environ.get("VERIF_JOBS", "8"))
        while queue or live:
            while queue and len(live) < ncpu:
                t = queue.pop(0)
                if t.ir in errs:
                    out.append(dict(task=t.name, kind=t.kind, error="extraction: " + errs[t.ir], obs=[], covers={}, called=[], contracted=[], assumptions=[], time={}, count={}, secs=0)); continue
                path = f"{tmp}/res_{len(out) + len(live) + len(queue)}_{abs(hash(t.name))}.json"
                pid = os.fork()
                if pid == 0:
                    try: s.child(t, mods[t.ir], tier, path)
                    except BaseException:
                        try: traceback.print_exc()
                        except BaseException: pass
                    os._exit(0)
                live.append((t, pid, time.time(), path))
            time.sleep(0.02)
            nl = []
            for t, pid, ts, path in live:
                lim = t.limit * (4 if tier == "thorough" else 1)
                r, wst = os.waitpid(pid, os.WNOHANG)
                if r == 0 and time.time() - ts < lim + 30: nl.append((t, pid, ts, path)); continue
                if r == 0:
                    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                if os.path.exists(path):
                    d = json.load(open(path))
                elif r and crashed.get(t.name, 0) < 4:       # the verifier process itself crashed (solver): run the task again
                    crashed[t.name] = crashed.get(t.name, 0) + 1; queue.insert(0, t); print(f"note: verifier process of {t.name!r} ended with status {wst}, repeated", file=sys.stderr); continue
                else:
                    d = dict(task=t.name, kind=t.kind, error="no result (time limit or crash of the verifier process)", obs=[], covers={}, called=[], contracted=[], assumptions=[], time={}, count={}, secs=time.time() - ts)
                out.append(d)
                if verbose:
                    bad = [o for o in d["obs"] if o["status"] != "proved"]
                    print(f"  [{d['secs']:.1f}s] {t.name}: {len(d['obs'])} obligations, {len(bad)} open" + (f", ERROR {d["error"][-3000:]}" if d["error"] else ""), flush=True)
                    for o in bad[:6]: print("      ", o["status"], o["name"], "|", (o["detail"] or "")[:600], "|", o["where"])
                    for k, v in d["covers"].items():
                        if not v: print("       cover not reached:", k)
            live = nl
        return out
    def child(s, t, mod, tier, path):
        import faulthandler; faulthandler.enable(all_threads=True)
        t0 = time.time()
        lim = t.limit * (4 if tier == "thorough" else 1)
        c = Ctx(mod, tier, t)
        err = None
        try:
            def on_alarm(*a): raise Budget("time limit")
            signal.signal(signal.SIGALRM, on_alarm); signal.alarm(int(lim))
            t.fn(c)
        except (Unsupported, Budget) as e: err = f"{type(e).__name__}: {e}"
        except Exception as e: err = "exception: " + traceback.format_exc()[-9000:]
        signal.alarm(0)
        obs, covers, called, contracted, tm, cnt = [], dict(c.covers), set(), set(), {"z3": 0, "cvc5": 0}, {"z3": 0, "cvc5": 0, "syntactic": 0}
        for ex in c.execs:
            obs += [o.asdict() for o in ex.obs]
            for k, v in ex.covers.items(): covers[k] = covers.get(k, False) or v
            called |= ex.called; contracted |= ex.contracted
            for k in tm: tm[k] += ex.pv.time[k]
            for k in cnt: cnt[k] += ex.pv.count[k]
        d = dict(task=t.name, kind=t.kind, error=err, obs=obs, covers={k: bool(v) for k, v in covers.items()}, called=sorted(called), contracted=sorted(contracted),
                 assumptions=c.assumptions, time=tm, count=cnt, secs=time.time() - t0, notes=c.notes)
        json.dump(d, open(path + ".t", "w"), default=str); os.rename(path + ".t", path)
    # ---------------------------------------------------------------
    def build_native(s, n, tmp):
        if n.get("full"): return s.build_full(n, tmp)
        out = f"{tmp}/nat_{abs(hash(n['name'] + ' '.join(n['flags'])))}"
        cmd = [n["cxx"], "-std=c++17", "-O1", "-g", "-w", *DEFS, *INCS, f"-I{VERIF}/native", *n["flags"], f"{VERIF}/native/{n['src']}", *n["sources"], "-o", out, "-lpthread", "-ldl", "-no-pie", "-fno-pie", "-Wl,--unresolved-symbols=ignore-all"]
        rc, o, e = sh(cmd, timeout=600)
        return (out, cmd) if rc == 0 else (None, e[-4000:])
    def run_native(s, n, fut, tier, seed):
        exe, cmd = fut.result() if hasattr(fut, "result") else fut
        if exe is None: return dict(name=n["name"], ok=None, out="build failed: " + str(cmd), ce=[], cmd="")
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=6000", UBSAN_OPTIONS="halt_on_error=1:exitcode=66")
        lim = n["timeout"] * (4 if tier == "thorough" else 1)
        wd = tempfile.mkdtemp(prefix="vfn_")
        try: rc, o, e = sh([exe, *n["args"]], timeout=lim, env=env, cwd=wd)
        finally: shutil.rmtree(wd, ignore_errors=True)
        ce = [l[3:].strip() for l in o.splitlines() if l.startswith("CE:")]
        cnt = [l for l in o.splitlines() if l.startswith("COUNT:")]
        if rc not in (0, 1, 124) and not ce: ce = [f"program crashed (exit status {rc}): " + (o[-500:] + e[-3000:])]
        if rc == 124 and not ce: return dict(name=n["name"], ok=None, out="timeout " + o[-500:], ce=[], cmd=" ".join(cmd), counts=cnt)
        return dict(name=n["name"], ok=(rc == 0 and not ce), out=o[-2000:] + e[-1500:], ce=ce, cmd=" ".join(cmd), counts=cnt)
    def load_known(s):
        r = []
        p = f"{VERIF}/known_findings.json"
        if os.path.exists(p):
            for k in json.load(open(p)).get("findings", []):
                if k["property"] == s.pid and not k.get("fixed"): r.append(k)
        return r
    def decide(s, results, nats, tier, seed, t0, tmp, verbose, only):
        ver = [r for r in results if r["kind"] != "canary"]
        can = [r for r in results if r["kind"] == "canary"]
        obs = [o for r in ver for o in r["obs"]]
        disch = [o for o in obs if o["status"] == "proved"]
        problems = []
        for r in ver:
            if r["error"]: problems.append(dict(task=r["task"], obligation=f"verification of {r['task']} completes", status="undecided", detail=r["error"]))
            for o in r["obs"]:
                if o["status"] != "proved": problems.append(dict(task=r["task"], obligation=o["name"], status=o["status"], detail=o["detail"], where=o["where"]))
            if not r["error"] and not r["obs"]: problems.append(dict(task=r["task"], obligation="obligations are generated", status="vacuous", detail="no obligation generated"))
            for k, v in r["covers"].items():
                if not v: problems.append(dict(task=r["task"], obligation="cover: " + k, status="vacuous", detail="not reachable"))
        for r in can:
            if r["error"] or not any(o["status"] != "proved" for o in r["obs"]):
                problems.append(dict(task=r["task"], obligation="canary (a deliberately wrong contract) is rejected", status="vacuous", detail=r["error"] or "accepted"))
        known = s.load_known()
        kf = set()
        def is_known(txt):
            for k in known:
                if k["match"] in txt:
                    kf.add((k["id"], k["what"])); return True
            return False
        problems = [p for p in problems if not is_known(f"{p['task']} :: {p['obligation']}")]
        def nat_ces(res): return [(n, c) for n in res for c in n["ce"] if not is_known(n["name"] + " :: " + c)]
        natprob = [n for n in nats if n["ok"] is None]
        ces = nat_ces(nats)
        if problems and not ces:
            # counterexample search against the compiled real code
            rest = [n for n in s.natives if not n["always"]]
            for n in rest:
                r = s.run_native(n, s.build_native(n, tmp), tier, seed)
                nats.append(r)
            ces = nat_ces(nats)
        viol = 0
        for k, w in sorted(kf): print(f"KNOWN-FINDING: property={s.pid} {w}")
        outdir = f"{VERIF}/out"; os.makedirs(outdir, exist_ok=True)
        bad = bool(problems or ces or natprob)
        if bad:
            viol = 1
            path = f"{outdir}/{s.pid}.replay.txt"
            with open(path, "w") as f:
                f.write(f"property {s.pid}: {s.title}\n")
                f.write("\n== failed obligations ==\n")
                for p in problems: f.write(json.dumps(p, indent=1, default=str) + "\n")
                f.write("\n== failing inputs found on the compiled real code ==\n")
                for n, c in ces: f.write(f"driver {n['name']}: {c}\n   reproduce: {n['cmd']} && VERIF_SEED={seed} VERIF_TIER={tier} <exe>\n")
                f.write("\n== native drivers ==\n")
                for n in nats: f.write(json.dumps(n, indent=1, default=str) + "\n")
            for p in problems[:12]: print(f"FAILED-OBLIGATION {s.pid}: [{p['task']}] {p['obligation']} ({p['status']}) {str(p.get('detail') or '')[:300]}")
            for n, c in ces[:5]: print(f"FAILING-INPUT {s.pid}: {n['name']}: {c[:400]}")
            for n in natprob: print(f"NATIVE-DRIVER {s.pid}: {n['name']}: {n['out'][-600:]}")
            print(f"VIOLATION property={s.pid} replay={path}" + ("" if ces else " no-failing-input-found"))
        called = sorted({c for r in ver for c in r["called"]})
        contracted = sorted({c for r in ver for c in r["contracted"]})
        real = [c for c in called if c not in contracted]
        ev = dict(property=s.pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=viol,
                  assumptions=sorted(set(s.assumptions + [a for r in ver for a in r["assumptions"]])),
                  coverage=dict(obligations=len(obs), discharged=len(disch), checker_cmd=f"checks/{s.pid}.py (LLVM IR of /repo -> verification conditions -> z3/cvc5)",
                    trusted_base=s.trusted,
                    functions_symbolically_executed=real[:400], functions_replaced_by_contract=contracted,
                    per_backend={k: sum(r["count"].get(k, 0) for r in ver) for k in ("z3", "cvc5", "syntactic")},
                    solver_seconds={k: round(sum(r["time"].get(k, 0) for r in ver), 2) for k in ("z3", "cvc5")},
                    tasks=[dict(task=r["task"], obligations=len(r["obs"]), discharged=sum(o["status"] == "proved" for o in r["obs"]), secs=round(r["secs"], 2), covers=r["covers"]) for r in ver],
                    canaries=[dict(task=r["task"], rejected=any(o["status"] != "proved" for o in r["obs"])) for r in can],
                    bounded_stand_ins=[dict(driver=n["name"], result=n["ok"], counts=n.get("counts", [])) for n in nats],
                    known_findings=sorted(w for k, w in kf)))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        if not only: json.dump(ev, open(f"{VERIF}/evidence/{s.pid}.json", "w"), indent=1, default=str)
        if verbose or not bad:
            print(f"{s.pid}: {len(disch)}/{len(obs)} obligations discharged in {len(ver)} tasks, {len(can)} canaries, native {[(n['name'], n['ok']) for n in nats]}, {time.time() - t0:.1f}s")
        if verbose:
            for n in nats: print("native", n["name"], n["ok"], n["out"][-400:])
        return 1 if bad else 0
