#!/usr/bin/env python3
"""Driver: python3 run.py setup | check <id> [--tier quick|thorough] | one <harness> ...   See DESIGN.md."""
import hashlib, json, os, subprocess, sys, time, tempfile, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
E = os.path.join(V, "engine"); H = os.path.join(V, "harness"); B = os.path.join(V, "build")
CXX = "clang++"
BASE = ["-O1", "-I" + os.path.join(REPO, "src"), "-I" + E, "-I" + H, "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_CGRAPH_SILENCE_", "-fno-vectorize",
        "-fno-slp-vectorize", "-fno-threadsafe-statics", "-gline-tables-only", "-fno-access-control", "-w"]

def sh(cmd, timeout=600, env=None, quiet=False):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")

def must(cmd, what, timeout=600):
    rc, o = sh(cmd, timeout)
    if rc:
        print("ERROR: %s failed\n%s" % (what, o[-4000:])); sys.exit(2)
    return o

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

LOCKS = {}; LOCKG = threading.Lock()
def once(path, make):
    """builds path atomically unless it exists (the name carries the content hash)"""
    with LOCKG: lk = LOCKS.setdefault(path, threading.Lock())
    with lk:
        if not os.path.exists(path):
            tmp = path + ".%d.tmp" % os.getpid(); make(tmp); os.replace(tmp, path)
    return path

def engine_files(*n): return [os.path.join(E, x) for x in n]

def tools():
    os.makedirs(B, exist_ok=True); t = {}
    def engine(out):
        cx = [x for x in must(["llvm-config-18", "--cxxflags"], "llvm-config").split() if not x.startswith("-std=")]
        ld = must(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "bitwriter"], "llvm-config").split()
        must(["g++", "-std=c++17", "-O2", *cx, "-fexceptions", "-w", os.path.join(E, "symex.cpp"), "-o", out, *ld, "-lz3"], "engine build")
    mf = ["-std=c++17", "-O1", "-I" + E, "-fno-threadsafe-statics", "-fno-vectorize", "-fno-slp-vectorize", "-fno-access-control", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only"]
    def model(src): return lambda out: must([CXX, *mf, "-emit-llvm", "-c", os.path.join(E, src), "-o", out], "model build")
    jobs = {
        "symex": (os.path.join(B, "symex-" + fhash(engine_files("symex.cpp", "symex.h"))), engine),
        "model_sym": (os.path.join(B, "model_sym-%s.bc" % fhash(engine_files("model_sym.cpp", "sym.h"))), model("model_sym.cpp")),
        "model_common": (os.path.join(B, "model_common-%s.bc" % fhash(engine_files("model_common.cpp", "sym.h"))), model("model_common.cpp")),
        "rt": (os.path.join(B, "rt-%s.o" % fhash(engine_files("replay_rt.cpp", "sym.h"))), lambda o: must([CXX, "-O1", "-w", "-I" + E, "-c", os.path.join(E, "replay_rt.cpp"), "-o", o], "replay runtime")),
        "rta": (os.path.join(B, "rta-%s.o" % fhash(engine_files("replay_rt.cpp", "sym.h"))), lambda o: must([CXX, "-O1", "-w", "-fsanitize=address", "-DREPLAY_ASAN", "-I" + E, "-c", os.path.join(E, "replay_rt.cpp"), "-o", o], "replay runtime")),
    }
    with ThreadPoolExecutor(5) as ex:
        for k, f in [(k, ex.submit(once, *v)) for k, v in jobs.items()]: t[k] = f.result()
    return t

def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".h", ".inl", ".hpp", ".c"))]
    return out

def build(t, harness, std, defs, extra=()):
    """compiles the whole library and the harness from the current tree to one bitcode module (content-addressed)"""
    src = os.path.join(H, harness + ".cpp"); deps = repo_sources() + [os.path.join(H, f) for f in os.listdir(H) if os.path.isfile(os.path.join(H, f)) and (f.endswith(".h") or f == harness + ".cpp")] + [os.path.join(E, "sym.h"), t["model_common"]]
    inc = os.path.join(H, "include")
    if os.path.isdir(inc): deps += [os.path.join(inc, f) for f in os.listdir(inc)]
    key = fhash(deps, "|".join([std, *defs, *extra, *BASE])); out = os.path.join(B, "%s-%s.bc" % (harness, key))
    def mk(o):
        d = tempfile.mkdtemp(dir=B); u = os.path.join(d, "unity.cpp")
        with open(u, "w") as f:
            for c in sorted(x for x in repo_sources() if x.endswith(".cpp")): f.write('#include "%s"\n' % c)
            f.write('#include "%s"\n' % src)
        cc = [CXX, "-std=" + std, *extra, *BASE, *["-D" + x for x in defs], "-emit-llvm", "-c"]
        rc, o1 = sh([*cc, u, "-o", d + "/u.bc"], 900)
        if rc:                                                                   # names of two source files may clash in one unit: compile them one by one
            units = sorted(x for x in repo_sources() if x.endswith(".cpp")) + [src]
            with ThreadPoolExecutor(8) as ex: list(ex.map(lambda iu: must([*cc, iu[1], "-o", "%s/p%d.bc" % (d, iu[0])], "compiling " + iu[1]), list(enumerate(units))))
            must(["llvm-link-18", *["%s/p%d.bc" % (d, i) for i in range(len(units))], "-o", d + "/u.bc"], "linking " + harness)
        must(["llvm-link-18", d + "/u.bc", t["model_common"], "-o", o], "linking " + harness); shutil.rmtree(d)
    return once(out, mk)

def instrumented(t, bc, racy, work):
    """the library and harness with switch points at the racy accesses, linked with the models; shared between runs with the same racy set"""
    txt = "\n".join(racy) + "\n"; k = os.path.join(work, "i-" + fhash([bc], txt)); rf = k + ".txt"; al = k + ".bc"
    with LOCKG: open(rf, "w").write(txt)
    def mk(o):
        must([t["symex"], bc, "--instrument", o + ".ui", "--racy-file", rf], "instrumenting")
        must(["llvm-link-18", o + ".ui", t["model_sym"], "-o", o], "linking the models"); os.unlink(o + ".ui")
    return once(al, mk), rf

def symex(t, bc, out, args, timeout):
    rc, o = sh([t["symex"], bc, "--out", out, "--timeout", str(timeout), *args], timeout + 180)
    if rc or not os.path.exists(out): return {"complete": False, "error": o[-1500:], "violations": [], "reach": [], "functions": []}
    return json.load(open(out))

def native(t, bc, rf, work, asan):
    exe = rf[:-4] + ("-asan" if asan else "-replay")
    def mk(o):
        n = o + ".bc"; must([t["symex"], bc, "--instrument", n, "--racy-file", rf, "--opt", "asan=1" if asan else "rename=1"], "instrumenting for replay")
        fl = ["-fsanitize=address"] if asan else []
        rc, out = sh([CXX, "-O1" if asan else "-O0", "-w", *fl, n, t["rta" if asan else "rt"], "-o", o, "-lpthread"], 300); os.unlink(n)
        if rc: print("replay build failed:", out[-1500:]); open(o, "w").close()
    once(exe, mk)
    return exe if os.path.getsize(exe) else None

def replay_text(v, opts, clock):
    L = ["opt %s %d" % (k, x) for k, x in opts.items()] + (["clock"] if clock else []) + ["in %d" % x[1] for x in v["inputs"]]
    for s in v["sched"].split():
        e, _, n = s.partition("x"); L.append("s %s %s" % (e, n or 1))
    return "\n".join(L) + "\n"

def run_replay(exe, path, limit):
    env = dict(os.environ, REPLAY_FILE=path, REPLAY_LIMIT=str(limit))
    try: rc, o = sh(["setarch", "-R", exe], limit + 30, env)
    except subprocess.TimeoutExpired: return 1, "REPLAY hang: no progress"
    if rc < 0 or rc >= 128: return 1, "REPLAY terminate: signal %d\n%s" % (rc, o[-600:])
    return rc, o[-1500:]

def confirm(t, v, bc, rf, work, opts, clock, path):
    """replays a counterexample against the real code; true if it reproduces"""
    open(path, "w").write(replay_text(v, opts, clock)); kind = v["kind"]; log = ""
    for asan in ([True, False] if kind == "memory" else [False]):
        exe = native(t, bc, rf, work, asan)
        if not exe: continue
        rc, o = run_replay(exe, path, 25); m = re.search(r"REPLAY (\w+)", o); got = m.group(1) if m else ("memory" if "AddressSanitizer" in o else "?")
        log += "[%s] rc=%d %s\n" % ("asan" if asan else "plain", rc, o)
        if rc == 1 and (got == kind or kind == "memory" or (kind in ("ub", "arithmetic") and got in ("terminate", "memory", "arithmetic", "ub"))): return True, log, asan
    return False, log, False

def load_known():
    p = os.path.join(V, "known-findings.json")
    return [k for k in json.load(open(p)) if k.get("status") == "known"] if os.path.exists(p) else []

def run_one(t, prop, r, tier, deadline, verbose=False, work=None, procs=8, validate=True):
    """one harness configuration -> result dict"""
    q = dict(r); q.update(r.get(tier, {})); name = q["h"]; own = work is None; t0 = time.time()
    if own: work = tempfile.mkdtemp(prefix="w-%s-" % name, dir=B)
    uid = hashlib.sha256((name + json.dumps(q, sort_keys=True, default=str)).encode()).hexdigest()[:6]
    try:
        bc = build(t, name, q.get("std", "c++11"), q.get("defs", []), q.get("extra", [])); left = lambda: deadline - time.time()
        opts = q.get("opts", {}); known = [k for k in load_known() if k["property"] == prop and k.get("harness", name) == name]; delays = q.get("delays", 2)
        common = sum([["--opt", "%s=%d" % kv] for kv in opts.items()], []) + sum([["--known", k["key"]] for k in known], []) + q.get("flags", [])
        clock = "--clock-advance" in common; racy = []; al, rf = instrumented(t, bc, racy, work)
        if q.get("race", True) and delays > 0:
            for it in range(q.get("race_iters", 2)):
                d = symex(t, al, work + "/race-%s.json" % uid, ["--race", "--delays", str(q.get("race_delays", 1)), "--procs", str(procs), *common], max(5, min(q.get("race_s", 20), left())))
                new = sorted(set(racy) | set(d.get("racy", [])))
                if new == racy: break
                racy = new; al, rf = instrumented(t, bc, racy, work)
        d = symex(t, al, work + "/main-%s.json" % uid, ["--delays", str(delays), "--procs", str(procs), *common], max(20, min(q.get("timeout", 120 if tier == "quick" else 800), left())))
        d["harness"] = name; d["bounds"] = {"delays": q.get("delays", 2), **opts}; d["racy_points"] = len(racy); d["confirmed"] = []; d["unconfirmed"] = []; d["known_hit"] = []; d["validated"] = 0; d["validate_failed"] = []
        rd = os.path.join(B, "replays"); os.makedirs(rd, exist_ok=True); tag = uid
        for i, v in enumerate(d["violations"]):
            if "inputs" not in v or "sched" not in v: continue
            path = os.path.join(rd, "%s-%s-%s-%d.replay" % (prop, name, tag, i)); ok, log, asan = confirm(t, v, bc, rf, work, opts, clock, path)
            key = "%s: %s" % (v["kind"], v["msg"]); kn = [k for k in known if k["key"] in key]
            open(path, "a").write("".join("# %s\n" % l for l in (["harness %s" % name, "violation " + key, "where " + v["where"]] + v.get("threads", []) + log.splitlines())))
            if verbose: print("   ", key, "->", "reproduced" if ok else "NOT reproduced", log[-400:])
            if kn: d["known_hit"].append((kn[0], ok)); continue
            (d["confirmed"] if ok else d["unconfirmed"]).append({"key": key, "where": v["where"], "replay": path, "inputs": v["inputs"][:40]})
        smp = d.get("samples", []); exe = native(t, bc, rf, work, False) if smp and validate and q.get("validate", True) and not d["confirmed"] and left() > 15 else None
        if exe:
            for i, s in enumerate(smp):
                path = os.path.join(work, "ok%s-%d.replay" % (uid, i)); open(path, "w").write(replay_text(s, opts, clock)); rc, o = run_replay(exe, path, 25)
                if rc == 0: d["validated"] += 1
                else: d["validate_failed"].append(o[-300:])
        miss = [x for x in q.get("reach", ["end"]) if x not in d.get("reach", [])]; d["missing_reach"] = miss; d["wall"] = time.time() - t0
        return d
    finally:
        own and (os.environ.get("KEEP") or shutil.rmtree(work, ignore_errors=True))

def check(prop, tier):
    import checks
    t0 = time.time(); t = tools(); cfg = checks.CHECKS[prop]; budget = cfg.get("budget", {"quick": 240, "thorough": 820})[tier]
    runs = [r for r in cfg["runs"] if tier in r.get("tiers", ("quick", "thorough"))]; res = []; deadline = t0 + budget; work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=B); stop = []
    par = 4 if tier == "quick" else 2; order = sorted(range(len(runs)), key=lambda i: -runs[i].get("delays", 0)); first = {}
    for i in order: first.setdefault((runs[i]["h"], tuple(runs[i].get("defs", [])), runs[i].get("delays", 0) > 0), i)
    def job(i):
        if stop: return None
        d = run_one(t, prop, runs[i], tier, deadline if tier == "quick" else min(deadline, time.time() + max(60, (deadline - time.time()) * par / max(1, len(runs) - len(res)))), False, work, 4, i in first.values())
        res.append(d)
        print("%s: paths=%s states=%s queries=%s solver=%ss complete=%s reach=%s validated=%s wall=%.1fs%s" % (d["harness"], d.get("paths"), d.get("states"), d.get("queries"), d.get("solver_s"), d.get("complete"), ",".join(x for x in d.get("reach", []) if not x.startswith("bound:")), d["validated"], d["wall"], (" INCONCLUSIVE " + str(d.get("error", d.get("unsupported_msgs")))[:600]) if not d.get("complete") and not d["violations"] else ""), flush=True)
        if d["confirmed"]: stop.append(1)
        return d
    try:
        with ThreadPoolExecutor(par) as ex:
            for f in [ex.submit(job, i) for i in order]: f.result()
    finally: shutil.rmtree(work, ignore_errors=True)
    vio = [c for d in res for c in d["confirmed"]]; unc = [c for d in res for c in d["unconfirmed"]]
    S = lambda k: sum(int(d.get(k) or 0) for d in res)
    cov = {"states": S("states") + S("paths"), "transitions": S("sched_points") + S("choices"), "traces_validated_against_impl": S("validated") + len(vio),
           "samples": [{"harness": d["harness"], "inputs": s["inputs"][:30], "schedule": s["sched"][:300]} for d in res for s in d.get("samples", [])[:2]] or [{"violation": v["key"], "inputs": v["inputs"]} for v in vio] or [{"harness": d["harness"], "note": "no path completed"} for d in res],
           "functions_encoded": sorted({f[:160] for d in res for f in d.get("functions", [])}), "function_count": S("src_functions"), "instructions_executed": S("steps"), "paths": S("paths"), "paths_pruned_as_visited": S("pruned"),
           "queries_discharged": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_answered_by_model_reuse": S("cache"), "solver_s": round(sum(float(d.get("solver_s") or 0) for d in res), 3),
           "assertions_evaluated": S("asserts"), "assertions_symbolic": S("asserts_symbolic"), "schedule_deviations_explored": S("delays_used"),
           "harnesses": [{"harness": d["harness"], "bounds": d["bounds"], "bound_notes": [x for x in d.get("reach", []) if x.startswith("bound:")], "complete_within_bounds": d.get("complete"), "reachability_witness_missing": d.get("missing_reach"), "unsupported": d.get("unsupported_msgs"), "timeouts": d.get("timeouts"), "solver_unknown": d.get("unknown"), "error": d.get("error"), "racy_switch_points": d.get("racy_points"), "validated_natively": d.get("validated"), "validation_failures": d.get("validate_failed"), "wall_s": round(d["wall"], 1)} for d in res],
           "exhaustive": all(d.get("complete") for d in res), "unreproduced_counterexamples": [u["key"] for u in unc]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": checks.ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(vio)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    seen = set()
    for d in res:
        for k, ok in d["known_hit"]:
            if k["key"] not in seen: seen.add(k["key"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in unc: print("NOTE: a counterexample did not reproduce against the real code and is not reported: " + u["key"])
    for d in res:
        if d["missing_reach"] and not d["confirmed"]: print("NOTE: %s did not reach %s" % (d["harness"], d["missing_reach"]))
    for v in vio: print("violated: %s\n   at %s\n   inputs %s" % (v["key"], v["where"], v["inputs"]))
    for v in vio[:1]: print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    return 1 if vio else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]: tools(); print("engine ready"); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a[:1] == ["check"]: return check(a[1], tier)
    if a[:1] == ["one"]:   # developer mode: one harness with ad-hoc parameters
        import checks
        t = tools(); r = {"h": a[1], "opts": {}, "defs": [], "flags": []}; prop = "C00"
        for c, cf in checks.CHECKS.items():
            for x in cf["runs"]:
                if x["h"] == a[1]: r.update(x); r.update(x.get(tier, {})); prop = c; break
        r.pop("quick", None); r.pop("thorough", None)
        for x in a[2:]:
            k, _, v = x.partition("=")
            if k.startswith("-D"): r["defs"] = r.get("defs", []) + [x[2:]]
            elif k.startswith("--"): r["flags"] = r.get("flags", []) + ([k, v] if v else [k])
            elif k in ("delays", "timeout", "race", "race_s", "race_delays", "race_iters"): r[k] = int(v)
            elif k == "std": r[k] = v
            else: r["opts"] = dict(r.get("opts", {}), **{k: int(v)})
        d = run_one(t, prop, r, tier, time.time() + 800, True); fn = d.pop("functions", [])
        for k, v in d.items():
            if k not in ("violations", "samples", "racy", "racy_at"): print("  %s: %s" % (k, str(v)[:700]))
        for v in d["violations"]: print(v["kind"], v["msg"], "\n  ", v["where"], v.get("inputs")); [print("     ", x[:400]) for x in v.get("threads", [])]
        return 1 if d["confirmed"] else 0
    print(__doc__); return 2
sys.path.insert(0, V)
if __name__ == "__main__": sys.exit(main())
