#!/usr/bin/env python3
"""Driver of the solver-based checks.
  check.py check <property> [--tier quick|thorough]      the registered command
  check.py run <scenario> [-v] [symx options...]         one scenario, for development
  check.py replay <scenario> <schedule file>             run a reported schedule against the real code, natively
  check.py list [property]
Everything is rebuilt from /repo's working tree (VF_REPO overrides the location) on every run."""
import sys, os, threading, subprocess, json, tempfile, shutil, time, re, resource
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import scenarios as SC
CLANG = "clang-18"; HARN = os.path.join(HERE, "harness"); SYMX = os.path.join(HERE, "build", "symx")
LIBD = os.path.join(REPO, "libconcurrent")
BASE = ["-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-std=gnu89", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin-memcmp", "-I" + os.path.join(LIBD, "includes"), "-I" + LIBD, "-I" + REPO, "-I" + HARN]
KEEP = "vf_setup,vf_thread,vf_final,vf_always,vf_nthreads,vf_memcpy,vf_memset,vf_memmove"
JOBS = int(os.environ.get("VF_JOBS", "8"))

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

def ensure_symx():
    src = [os.path.join(HERE, "symx", f) for f in os.listdir(os.path.join(HERE, "symx"))]
    if os.path.exists(SYMX) and all(os.path.getmtime(s) <= os.path.getmtime(SYMX) for s in src): return
    r = sh(["bash", os.path.join(HERE, "symx", "build.sh")])
    if r.returncode or not os.path.exists(SYMX): sys.stderr.write(r.stdout + r.stderr); sys.exit(2)

class Builder:
    """compiles the library (per set of library defines) and the harnesses to LLVM IR"""
    def __init__(self, d): self.d = d; self.libs = {}; self.pool = ThreadPoolExecutor(JOBS); self.errors = []
    def undef(self, names):
        """a copy of the project's config.h without the given options -> its directory"""
        d = os.path.join(self.d, "cfg_" + "_".join(names)); os.makedirs(d, exist_ok=True); f = os.path.join(d, "config.h")
        if not os.path.exists(f):
            t = open(os.path.join(LIBD, "config.h")).read()
            for n in names: t = re.sub(r"(?m)^[ \t]*#[ \t]*define[ \t]+%s\b.*$" % n, "", t)
            open(f + ".tmp%d" % threading.get_ident(), "w").write(t); os.replace(f + ".tmp%d" % threading.get_ident(), f)
        return d
    def cc(self, src, out, defs, opt):
        un = sorted(x[1:] for x in defs if x.startswith("!")); defs = [x for x in defs if not x.startswith("!")]
        r = sh([CLANG, opt] + (["-I" + self.undef(un)] if un else []) + BASE + ["-D" + x for x in defs] + ["-emit-llvm", "-c", src, "-o", out])
        if r.returncode: self.errors.append(src + ": " + r.stderr[-2000:]); return None
        return out
    def lib(self, defs, opt):
        key = (tuple(defs), opt)
        if key not in self.libs:
            d = os.path.join(self.d, "lib%d" % len(self.libs)); os.mkdir(d); fs = []
            for sub in ("concurrent", "primitives"):
                for root, _, names in os.walk(os.path.join(LIBD, sub)):
                    for n in sorted(names):
                        if n.endswith(".c"): fs.append(os.path.join(root, n))
            self.libs[key] = [x for x in self.pool.map(lambda f: self.cc(f, os.path.join(d, os.path.relpath(f, LIBD).replace("/", "_")[:-2] + ".bc"), defs, opt), fs) if x]
        return self.libs[key]
    def build(self, s):
        """-> path of the prepared module"""
        opt = s.get("opt", "-O0"); ld = s.get("libdefs", []); libs = self.lib(ld, opt)
        p = os.path.join(self.d, s["name"]); defs = list(s.get("defs", [])) + list(ld)
        m = self.cc(os.path.join(HARN, s["src"]), p + ".h.bc", defs, opt); rt = self.cc(os.path.join(HARN, "vf_rt.c"), p + ".rt.bc", defs, "-O0")
        if not m or not rt: return None
        drop = s.get("without", [])
        libs = [l for l in libs if os.path.basename(l) not in drop]
        r = sh(["llvm-link-18", m, rt] + libs + ["-o", p + ".0.bc"])
        if r.returncode: r = sh(["llvm-link", m, rt] + libs + ["-o", p + ".0.bc"])
        if r.returncode: self.errors.append(s["name"] + ": " + r.stderr[-2000:]); return None
        for a, b, kind in ((".0.bc", ".1.bc", "prep"), (".1.bc", ".2.bc", "opt"), (".2.bc", ".bc", "prep")):
            if kind == "prep": r = sh([SYMX, "prep", p + a, p + b])
            else: r = sh(["opt", "-passes=internalize,globaldce,function(sroa,instsimplify,simplifycfg,adce),globaldce", "-internalize-public-api-list=" + KEEP, p + a, "-o", p + b])
            if r.returncode: self.errors.append(s["name"] + ": " + r.stderr[-2000:]); return None
        return p + ".bc"
    def native(self, s, bc, out):
        """the same module, with yield points, compiled natively under AddressSanitizer; the schedule drives it"""
        ins = out + ".ins.bc"; r = sh([SYMX, "instrument", bc, ins])
        if r.returncode: return r.stderr
        r = sh([CLANG, "-O0", "-c", "-fsanitize=address", "-mcx16", ins, "-o", out + ".o"])
        if r.returncode: return r.stderr
        r = sh([CLANG, "-O0", "-w", "-fsanitize=address"] + ["-D" + x for x in s.get("rtdefs", [])] + [os.path.join(HARN, "replay_rt.c"), out + ".o", "-o", out, "-lpthread"])
        return r.stderr if r.returncode else None

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (int(os.environ.get("VF_MEM_GB", "14")) << 30,) * 2)

def symx_check(s, bc, extra=(), timeout=None, sched=None, smt=None, only=None, witness=None):
    o = dict(s.get("opts", {})); cmd = [SYMX, "check", bc]
    for k, v in o.items():
        if v is True: cmd.append("--" + k)
        elif v is not False and v is not None: cmd += ["--" + k, str(v)]
    if only: cmd += ["--only", only]
    if timeout: cmd += ["--time", str(int(timeout))]
    if sched: cmd += ["--schedule", sched]
    if smt: cmd += ["--smt", smt]
    if witness: cmd += ["--witness", witness]
    cmd += list(extra); t = time.time()
    try: r = sh(cmd, timeout=(timeout + 30) if timeout else None, preexec_fn=limits)
    except subprocess.TimeoutExpired: return {"status": "timeout", "error": "no answer within %d s" % timeout, "wall": time.time() - t}
    try: j = json.loads(r.stdout)
    except Exception: j = {"status": "error", "error": "engine ended with %d: %s" % (r.returncode, r.stderr[-300:])}
    j["stderr"] = r.stderr; j["wall"] = time.time() - t; return j

def cbmc_check(s, d, timeout):
    """decide a sequential scenario with CBMC (used where floating point is involved)"""
    srcs = [os.path.join(HARN, s["src"])] + [os.path.join(LIBD, f) for f in s["cbmc"]]
    inc = ["-I" + os.path.join(LIBD, "includes"), "-I" + LIBD, "-I" + HARN] + ["-D" + x for x in list(s.get("defs", [])) + list(s.get("libdefs", []))]
    cmd = ["cbmc", "--json-ui", "--trace", "--sat-solver", "cadical", "--no-standard-checks", "--unwind", "70", "--unwinding-assertions"] + inc + srcs; t = time.time()
    try: r = sh(cmd, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired: return {"status": "timeout", "error": "no answer within %d s" % timeout, "wall": time.time() - t}
    out = {"status": "error", "wall": time.time() - t, "sat_time": time.time() - t}
    try: j = json.loads(r.stdout)
    except Exception: out["error"] = "CBMC: " + (r.stdout + r.stderr)[-300:]; return out
    res = [x["result"] for x in j if "result" in x]
    if not res: out["error"] = "CBMC: " + "; ".join(x.get("messageText", "") for x in j if x.get("messageType") == "ERROR")[-300:]; return out
    out["status"] = "ok"; out["obligations"] = [{"msg": x["description"], "kind": "assert", "sat": {"SUCCESS": 0, "FAILURE": 1}.get(x["status"], -1)} for x in res[0]]
    if any(o["sat"] < 0 for o in out["obligations"]): out.update(status="error", error="undecided")
    out["verdict_queries"] = len(res[0]); out["functions"] = {f: 1 for f in s.get("functions", [])}; out["covers"] = {}
    bad = [x for x in res[0] if x["status"] == "FAILURE"]
    if bad:
        val = {}
        for st in bad[0].get("trace", []):
            m = re.match(r"cb_in\[(\d+)l*\]", str(st.get("lhs", ""))) if st.get("stepType") == "assignment" else None
            if m: val[int(m.group(1))] = int(st["value"].get("binary", "0"), 2)
        out["inputs"] = [val.get(i, 0) for i in range(max(list(val) + [0]) + 1)]
        out["violation"] = {"kind": "assert", "msg": bad[0]["description"]}
        exe = os.path.join(d, s["name"] + ".native"); c = sh([CLANG, "-O1", "-w", "-std=gnu89", "-DREPLAY"] + inc + srcs + ["-o", exe, "-lm"])
        if c.returncode: out["replay"] = {"exit": None, "output": "native build failed: " + c.stderr[-300:], "confirmed": False}
        else:
            q = sh([exe] + [str(x) for x in out["inputs"]], timeout=60); out["replay"] = {"exit": q.returncode, "output": q.stdout.strip()[-200:], "confirmed": q.returncode == 10}
    return out

def replay(b, s, bc, sched, viol):
    exe = os.path.join(b.d, s["name"] + ".native"); e = b.native(s, bc, exe)
    if e: return None, "native build failed: " + e[-500:]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=12:allocator_may_return_null=1")
    args = [exe, sched]
    if viol.get("kind") == "wait": args.append("wait")
    try: r = sh(args, timeout=120, env=env)
    except subprocess.TimeoutExpired: return None, "native replay did not end"
    out = (r.stdout + r.stderr)
    msg = "\n".join([l for l in out.splitlines() if "REPLAY" in l or "ERROR: AddressSanitizer" in l][:4])
    return r.returncode, msg or out[-300:]

def judge(kind, rc):
    if kind == "assert": return rc in (10, 12)
    if kind == "deadlock": return rc in (10, 11, 12)
    if kind == "wait": return rc in (11, 14, 15)
    if kind == "memory": return rc in (10, 12)
    return False

def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def do_check(prop, tier):
    t0 = time.time(); ensure_symx(); budget = int(os.environ.get("VF_BUDGET", 780 if tier == "quick" else 6 * 3600)); first = os.environ.get("VF_FIRST"); stop = []
    scs = [s for s in SC.SCENARIOS if prop in s["props"] and (tier == "thorough" or s.get("tier", "quick") == "quick")]
    if not scs: print("no scenario for", prop); return 2
    d = tempfile.mkdtemp(prefix="vf_%s_" % prop); b = Builder(d); results = []; violations = []; knownhits = []; smtres = []
    try:
        for key in {(tuple(s.get("libdefs", [])), s.get("opt", "-O0")) for s in scs if "cbmc" not in s}: b.lib(list(key[0]), key[1])
        witnesses = {s["name"] for s in [s for s in scs if "cbmc" not in s][:: max(1, len(scs) // 6)]}
        def one(s):
            res = {"scenario": s["name"], "bounds": bounds(s)}
            if stop: res.update(status="skipped", error="a violation was found already"); return s, res, None
            if time.time() - t0 > budget: res.update(status="skipped", error="time budget of the check used up"); return s, res, None
            tl = min(s.get("time", 300 if tier == "quick" else 3600), max(20, budget - (time.time() - t0)))
            if "cbmc" in s:
                j = cbmc_check(s, d, tl); res.update(j)
                if j.get("inputs"): open(os.path.join(d, s["name"] + ".sched"), "w").write("\n".join("in %d %d" % (i, x) for i, x in enumerate(j["inputs"])) + "\n")
                return s, res, None
            bc = b.build(s)
            if not bc: res.update(status="error", error="build failed: " + "; ".join(b.errors)[-600:]); return s, res, None
            sched = os.path.join(d, s["name"] + ".sched"); smt = os.path.join(d, s["name"] + ".smt2") if s.get("smt") else None
            wit = os.path.join(d, s["name"] + ".wit") if s["name"] in witnesses else None
            j = symx_check(s, bc, timeout=tl, sched=sched, smt=smt, only=SC.ONLY.get(prop), witness=wit); res.update({k: v for k, v in j.items() if k not in ("stderr",)})
            if smt and os.path.exists(smt) and os.path.getsize(smt) < 60e6:
                for name, c in (("z3-new", ["z3-new", "-T:100", smt]), ("cvc5", ["cvc5", "--tlimit=100000", smt])):
                    try: rr = sh(c, timeout=120); ans = rr.stdout.strip().split("\n")[0]
                    except Exception as x: ans = "no answer"
                    res.setdefault("cross_check", {})[name] = ans
                os.unlink(smt)
            if wit and os.path.exists(wit): # one execution the solver chose, run natively: it must complete there as well
                rc, msg = replay(b, s, bc, wit, {}); res["witness_native"] = {"exit": rc, "output": msg}
            if j.get("violation"):
                v = j["violation"]; rc, msg = replay(b, s, bc, sched, v); res["replay"] = {"exit": rc, "output": msg, "confirmed": judge(v["kind"], rc)}
                if first and judge(v["kind"], rc): stop.append(1)
            return s, res, bc
        order = sorted(scs, key=lambda s: s.get("cost", 1) if first else -s.get("cost", 1))
        with ThreadPoolExecutor(JOBS) as ex: outs = list(ex.map(one, order))
        for s, res, bc in outs:
            results.append(res)
            if res.get("violation"):
                v = res["violation"]; sched = os.path.join(d, s["name"] + ".sched")
                if not res["replay"]["confirmed"]: continue
                kf = [k for k in known() if k.get("status") == "known" and k["property"] == prop and k["scenario"] == s["name"] and k["what"] == v["msg"]]
                if kf: knownhits.append((s, v)); continue
                rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True); p = os.path.join(rd, "%s-%s.sched" % (prop, s["name"])); shutil.copy(sched, p); violations.append((s, v, p, res["replay"]))
        write_evidence(prop, tier, scs, results, violations, time.time() - t0)
        for r in sorted(results, key=lambda r: r["scenario"]):
            st = r.get("status"); nob = len(r.get("obligations", [])); extra = ""
            if r.get("violation"): extra = " VIOLATED: %s [replay %s: %s]" % (r["violation"]["msg"], "confirmed" if r["replay"]["confirmed"] else "NOT confirmed", r["replay"]["output"])
            miss = [k for k, v in r.get("covers", {}).items() if v != 1]
            print("  %-34s %-11s %5.1fs  obligations=%d nodes=%s%s%s%s" % (r["scenario"], st, r.get("wall", 0), nob, r.get("formula_nodes"), " cut" if r.get("loop_cut_feasible") else "", (" unreached:" + ",".join(miss)) if miss else "", extra or (" " + r.get("error", ""))[:300]))
        for s, v in knownhits: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, v["msg"], s["name"]))
        for s, v, p, rp in violations: print("%s: %s" % (s["name"], v["msg"])); print("VIOLATION property=%s replay=%s" % (prop, p))
        if violations: return 1
        if not any(r.get("status") == "ok" for r in results): print("no scenario could be decided"); return 2
        return 0
    finally: shutil.rmtree(d, ignore_errors=True)

def bounds(s):
    o = s.get("opts", {}); b = {"harness": s["src"], "defines": " ".join(list(s.get("defs", [])) + list(s.get("libdefs", []))), "symbolic_rounds": o.get("rounds", 2), "closing_rounds": o.get("closing", 2), "retry_unwind": o.get("unwind", 3), "ir": s.get("opt", "-O0")}
    if o.get("tso"): b["memory_model"] = "x86-TSO"
    return b

def write_evidence(prop, tier, scs, results, violations, wall):
    ok = [r for r in results if r.get("status") == "ok"]; fns = {}
    for r in ok:
        for f, n in r.get("functions", {}).items():
            if not f.startswith("vf_"): fns[f] = fns.get(f, 0) + n
    def tot(k): return sum(int(r.get(k, 0) or 0) for r in ok)
    oblig = [(r["scenario"], o) for r in ok for o in r.get("obligations", [])]
    cov = {
        "states": tot("symbolic_states"), "transitions": tot("instructions"),
        "traces_validated_against_impl": sum(1 for r in results if r.get("replay", {}).get("confirmed")) + sum(1 for r in results if r.get("witness_native", {}).get("exit") == 0),
        "native_witnesses": {r["scenario"]: dict(r["witness_native"], engine=r.get("witness_in_engine")) for r in results if r.get("witness_native")},
        "samples": [{"scenario": r["scenario"], "bounds": r["bounds"], "obligations": [o["msg"] + ": " + {0: "unsat", 1: "SAT", -1: "unknown"}[o["sat"]] for o in r.get("obligations", [])][:12], "witnesses": {k: {1: "reachable", 0: "UNREACHABLE", -1: "unknown"}[v] for k, v in r.get("covers", {}).items()}} for r in ok][:40],
        "explanation": "Bounded symbolic execution of the LLVM IR compiled from the current sources; inputs and the scheduler's choices are symbolic, every obligation is a satisfiability query. 'states' counts merged symbolic states, 'transitions' symbolically executed instructions.",
        "scenarios": len(results), "scenarios_decided": len(ok),
        "undecided": [{"scenario": r["scenario"], "status": r.get("status"), "error": r.get("error")} for r in results if r.get("status") != "ok"],
        "obligations": len(oblig), "discharged": sum(1 for _, o in oblig if o["sat"] == 0),
        "verdict_queries": tot("verdict_queries"), "prune_queries": tot("prune_queries"), "prune_queries_solver": tot("prune_sat") + tot("prune_unsat") + tot("prune_unknown"),
        "solver_time_s": round(sum(r.get("sat_time", 0) for r in ok), 2), "formula_nodes": tot("formula_nodes"), "preemption_points": tot("preemption_points"),
        "functions_encoded": sorted(fns), "retry_loops_cut": sorted({l for r in ok for l in r.get("cut_loops", [])}),
        "cross_check_smt": [{"scenario": r["scenario"], **r["cross_check"]} for r in ok if r.get("cross_check")],
        "unconfirmed_counterexamples": [{"scenario": r["scenario"], "what": r["violation"]["msg"], "replay": r["replay"]} for r in results if r.get("violation") and not r["replay"]["confirmed"]],
        "per_scenario_time_s": {r["scenario"]: round(r.get("wall", 0), 1) for r in results},
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": SC.ASSUMPTIONS + SC.PROP_ASSUMPTIONS.get(prop, []), "wall_s": round(wall, 1), "violations": len(violations)}
    if not os.environ.get("VF_NOEV"): os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

def find(name):
    for s in SC.SCENARIOS:
        if s["name"] == name: return s
    sys.exit("no scenario " + name)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return do_check(a[1], tier if tier in ("quick", "thorough") else "quick")
    if a[0] == "list":
        for s in SC.SCENARIOS:
            if len(a) < 2 or a[1] in s["props"]: print(s["name"], s["props"], s.get("tier", "quick"), bounds(s))
        return 0
    ensure_symx()
    if a[0] == "run" and "cbmc" in find(a[1]):
        with tempfile.TemporaryDirectory() as d: print(json.dumps(cbmc_check(find(a[1]), d, 3600), indent=1))
        return 0
    if a[0] == "run":
        s = dict(find(a[1])); d = tempfile.mkdtemp(prefix="vfrun_"); keep = "--keep" in a; b = Builder(d); extra = [x for x in a[2:] if x not in ("--keep", "-v")]
        defs = [x[2:] for x in extra if x.startswith("-D")]; extra = [x for x in extra if not x.startswith("-D")]
        if defs: s["defs"] = [x for x in s.get("defs", []) if x.split("=")[0] not in [y.split("=")[0] for y in defs]] + defs
        try:
            bc = b.build(s)
            if not bc: print("\n".join(b.errors)); return 2
            sched = os.path.join(d, "sched"); j = symx_check(s, bc, extra=extra + (["--verbose"] if "-v" in a else []), timeout=3600, sched=sched)
            if "-v" in a: sys.stderr.write(j.get("stderr", ""))
            print(j.get("status"), j.get("error"), "wall %.1f" % j["wall"], {k: j.get(k) for k in ("passes", "shared_words", "instructions", "symbolic_states", "formula_nodes", "max_set", "sat_time", "sym_time", "total_time", "complete_runs_feasible", "loop_cut_feasible", "unfinished_progress_feasible", "cut_loops", "covers")})
            for o in j.get("obligations", []): print("   ", {0: "unsat", 1: "SAT", -1: "unknown"}[o["sat"]], o["kind"], o["msg"])
            if j.get("violation"):
                rc, msg = replay(b, s, bc, sched, j["violation"]); print("violation:", j["violation"]["msg"], "engine-confirmed:", j["violation"]["confirmed_in_engine"], "| native:", rc, msg, "=> confirmed" if judge(j["violation"]["kind"], rc) else "=> NOT CONFIRMED")
                shutil.copy(sched, "/tmp/last.sched")
            if keep: print("kept", d)
        finally:
            if not keep: shutil.rmtree(d, ignore_errors=True)
        return 0
    if a[0] == "replay":
        s = find(a[1]); d = tempfile.mkdtemp(prefix="vfreplay_"); b = Builder(d)
        try:
            bc = b.build(s); kind = "wait" if "--wait" in a else "assert"; rc, msg = replay(b, s, bc, a[2], {"kind": kind}); print(msg); return 0 if rc == 0 else 1
        finally: shutil.rmtree(d, ignore_errors=True)
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
