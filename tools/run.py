#!/usr/bin/env python3
"""Runs the check of one property: executes its harnesses symbolically over /repo's current code, replays every counterexample
on a native (ASan) build of the same code, validates sampled paths natively, writes evidence/<id>.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
sys.path.insert(0, os.path.join(VERIF, "harness"))
import specs
def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=<(.*?)> (.*)", l.strip())
            if m: out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3), "hit": False})
    return out
def run_job(job, tier, seed, tmp, units):
    name = job["name"]; d = os.path.join(tmp, "job_" + name); os.makedirs(d, exist_ok=True)
    t = job.get("time", 60) if tier == "quick" else job.get("ttime", job.get("time", 60) * 4)
    params = dict(job.get("params", {}))
    if tier == "thorough": params.update(job.get("tparams", {}))
    cmd = [build.engine_path()] + units[job["h"]] + ["--out=" + d, "--max-time=%d" % t, "--query-timeout=%d" % job.get("qtimeout", 10000), "--max-findings=%d" % job.get("max_findings", 16), "--samples=%d" % job.get("samples", 6),]
    if "search" in job: cmd.append("--search=" + job["search"])
    if "max_steps" in job: cmd.append("--max-steps=%d" % job["max_steps"])
    if "max_alloc" in job: cmd.append("--max-alloc=%d" % job["max_alloc"])
    for k, v in params.items(): cmd.append("--param=%s=%d" % (k, v))
    t0 = time.time()
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=t * 2 + 120)
    except subprocess.TimeoutExpired: return {"job": job, "error": "engine did not stop in time"}
    sj = os.path.join(d, "summary.json")
    if not os.path.exists(sj): return {"job": job, "error": "engine failed: rc=%s %s" % (r.returncode, (r.stderr or r.stdout)[-1500:])}
    s = json.load(open(sj)); s["stderr"] = r.stderr[-4000:]
    if r.returncode < 0: return {"job": job, "error": "engine crashed: rc=%s %s" % (r.returncode, r.stderr[-500:])}
    return {"job": job, "sum": s, "dir": d, "params": params, "elapsed": time.time() - t0, "stopped": r.returncode}
ASAN = "detect_leaks=0:exitcode=99:malloc_fill_byte=170:max_malloc_fill_size=1000000000:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:alloc_dealloc_mismatch=1"
def replay(exe, params, cases, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, TZ="UTC")
    cmd = [exe, "--timeout=%d" % timeout] + ["--param=%s=%d" % kv for kv in params.items()] + cases
    wd = tempfile.mkdtemp(prefix="vreplay")
    try:
        try: r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env, cwd=wd, timeout=timeout * len(cases) + 60)
        except subprocess.TimeoutExpired: return {}, "timeout"
    finally: shutil.rmtree(wd, ignore_errors=True)
    res, buf = {}, []
    for l in r.stdout.splitlines():
        m = re.match(r"CASE (\S+) (signal|exit) (\d+)$", l)
        if m: res[m.group(1)] = (m.group(2), int(m.group(3)), "\n".join(buf)); buf = []
        else: buf.append(l)
    return res, r.stderr
def reproduced(res):
    kind, code, out = res
    if kind == "signal": return True
    return code not in (0, 2, 42, 43, 45)
def describe(case):
    out = []
    for l in open(case):
        p = l.split()
        if l.startswith("S ") and len(p) >= 4:
            b = bytes.fromhex(p[3])
            out.append("%s=%s" % (p[1], ("0x%x" % int.from_bytes(b, "little")) if int(p[2]) == 8 else repr(b)))
    return " ".join(out)[:700]
def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for a in sys.argv[2:]:
        if a.startswith("--tier="): tier = a[7:]
    only = [a[6:] for a in sys.argv[2:] if a.startswith("--job=")]
    t0 = time.time(); spec = specs.PROPS[pid]; jobs = [j for j in spec["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (not only or j["name"] in only)]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); ev = os.path.join(VERIF, "evidence", pid + ".json")
    try: os.unlink(ev)
    except OSError: pass
    tmp = os.path.join(build.BUILD, "run", pid); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    build.engine(); units, sel = {}, {}
    for h in sorted({j["h"] for j in jobs}): units[h], sel[h], _ = build.harness_bc(h)
    par = int(os.environ.get("VERIF_JOBS", "8"))
    with ThreadPoolExecutor(par) as ex: results = list(ex.map(lambda j: run_job(j, tier, seed, tmp, units), jobs))
    errors, violations, unconfirmed, known = [], [], [], [k for k in load_known() if k["property"] == pid]
    exes = {}; tot = {}; functions = set(); asserts = {}; reached = {}; unsupported = {}; samples = []; validated = 0; val_bad = []; job_ev = []
    complete = True
    for res in results:
        job = res["job"]
        if "error" in res: errors.append(job["name"] + ": " + res["error"]); continue
        s = res["sum"]; h = job["h"]
        if h not in exes: exes[h] = build.harness_native(h, tmp)
        for k in ("paths", "steps", "forks", "paths_assume_false", "paths_error", "paths_incomplete", "assert_checks", "assert_proved", "assert_unknown", "mem_checks", "mem_proved", "queries", "z3_calls", "cache_hits", "domain_hits", "unknowns", "pending", "bad_models"): tot[k] = tot.get(k, 0) + s.get(k, 0)
        tot["solver_s"] = tot.get("solver_s", 0) + s["solver_s"]; functions.update(s["functions"])
        for k, v in s["asserts"].items(): asserts[k] = asserts.get(k, 0) + v
        for k, v in s["reached"].items(): reached[k] = reached.get(k, 0) + v
        for k, v in s["unsupported"].items(): unsupported[job["name"] + ": " + k] = v
        jc = not s["timeout"] and not s["pending"] and not s["limit_hit"] and not s["paths_incomplete"]; complete = complete and jc
        job_ev.append({"job": job["name"], "harness": h, "params": res["params"], "paths": s["paths"], "steps": s["steps"], "asserts": s["assert_checks"], "asserts_proved": s["assert_proved"], "z3_calls": s["z3_calls"], "solver_s": round(s["solver_s"], 2), "wall_s": round(s["wall_s"], 2), "exhausted": jc, "open_branches": s["pending"], "findings": len(s["findings"])})
        for r in job.get("reach", []):
            if not s["reached"].get(r): errors.append("%s: vacuous, never reached '%s'" % (job["name"], r)) if not s["findings"] else None
        fc = [f["case"] for f in s["findings"]]
        rr, err = replay(exes[h], res["params"], fc, job.get("rtimeout", 15)) if fc else ({}, "")
        for f in s["findings"]:
            r = rr.get(f["case"]); where = f["where"]; key = "%s/%s@%s" % (job["name"], f["label"], re.sub(r" \(.*", "", where))
            if not r or not reproduced(r): unconfirmed.append({"job": job["name"], "kind": f["kind"], "label": f["label"], "where": where, "native": list(r[:2]) if r else err[-300:], "note": r[2][-300:] if r else ""}); continue
            kn = [k for k in known if k["key"] == "%s/%s" % (job["name"], f["label"]) or k["key"] == "%s/%s" % (h, f["label"])]
            if kn:
                for k in kn: k["hit"] = True
                continue
            violations.append({"job": job["name"], "h": h, "params": res["params"], "f": f, "native": "%s %d" % r[:2], "out": r[2]})
        sc = sorted([os.path.join(res["dir"], n) for n in os.listdir(res["dir"]) if n.startswith("sample")])[:job.get("samples", 6)]
        if sc:
            rr, err = replay(exes[h], res["params"], sc)
            for c in sc:
                r = rr.get(c)
                if r and r[0] == "exit" and r[1] == 0: validated += 1
                else: val_bad.append({"job": job["name"], "native": list(r) if r else err[-300:], "input": describe(c)})
            if len(samples) < 12: samples.append("%s: %s" % (job["name"], describe(sc[-1])))
    for k in known:
        if k["hit"]: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    out_rep = os.path.join(VERIF, "build", "violations", pid); shutil.rmtree(out_rep, ignore_errors=True)
    for i, v in enumerate(violations):
        os.makedirs(out_rep, exist_ok=True); rp = os.path.join(out_rep, "%s_%d.case" % (re.sub(r"\W", "_", v["job"]), i))
        with open(rp, "w") as o:
            o.write("# property %s, job %s, harness %s\n# %s: %s at %s\n# native: %s\n# replay: python3 tools/replay.py %s\n" % (pid, v["job"], v["h"], v["f"]["kind"], v["f"]["label"], v["f"]["where"], v["native"], rp))
            for k, x in v["params"].items(): o.write("P %s %d\n" % (k, x))
            o.write(open(v["f"]["case"]).read())
        v["replay"] = rp
        print("VIOLATION property=%s replay=%s" % (pid, rp)); print("  [%s] %s: %s at %s (native: %s)\n  input: %s" % (v["job"], v["f"]["kind"], v["f"]["label"], v["f"]["where"], v["native"], describe(rp)))
    for u in unconfirmed: print("UNCONFIRMED (not reported) [%s] %s: %s at %s native=%s %s" % (u["job"], u["kind"], u["label"], u["where"], u["native"], u["note"]))
    for b in val_bad[:5]: print("SAMPLE MISMATCH [%s] %s input: %s" % (b["job"], b["native"], b["input"]))
    for k, v in unsupported.items(): print("unsupported [%s] x%d" % (k, v))
    rf = sorted(f for f in functions if not f.startswith("_GLOBAL__") and not f.startswith("__cxx_global"))
    cov = {"states": tot.get("paths", 0), "transitions": tot.get("steps", 0), "traces_validated_against_impl": validated, "samples": samples or ["none"],
           "explanation": "states = execution paths of the real code decided symbolically (each stands for all inputs satisfying its path condition); transitions = LLVM IR instructions executed symbolically; every assertion and memory access on a path is decided for all values of the symbolic inputs by domain reasoning or z3",
           "exhaustive": bool(complete), "bounds": spec["bounds"], "functions_encoded": rf, "functions_encoded_count": len(rf), "assertion_queries": tot.get("assert_checks", 0), "assertions_proved": tot.get("assert_proved", 0), "assertions_unknown": tot.get("assert_unknown", 0), "memory_checks": tot.get("mem_checks", 0), "solver_queries": tot.get("queries", 0), "z3_calls": tot.get("z3_calls", 0), "decided_by_domains": tot.get("domain_hits", 0), "solver_unknown": tot.get("unknowns", 0), "solver_s": round(tot.get("solver_s", 0), 2), "forks": tot.get("forks", 0), "open_branches_at_time_limit": tot.get("pending", 0), "paths_cut_by_assumptions": tot.get("paths_assume_false", 0), "asserts_by_label": asserts, "reach_witnesses": reached, "jobs": job_ev, "unsupported": unsupported, "unconfirmed_counterexamples": unconfirmed, "sample_mismatches": val_bad, "known_findings": [k["what"] for k in known if k["hit"]]}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, open(ev, "w"), indent=1)
    print("%s %s: %d paths, %d steps, %d/%d assertions proved, %d z3 calls (%.1fs), %d traces validated, %s, %.1fs" % (pid, tier, tot.get("paths", 0), tot.get("steps", 0), tot.get("assert_proved", 0), tot.get("assert_checks", 0), tot.get("z3_calls", 0), tot.get("solver_s", 0), validated, "exhausted" if complete else "time bounded", time.time() - t0))
    if "-v" in sys.argv:
        for j in job_ev: print("   ", j)
    if violations: sys.exit(1)
    if errors:
        for e in errors: print("ERROR " + e)
        sys.exit(2)
    shutil.rmtree(tmp, ignore_errors=True); sys.exit(0)
if __name__ == "__main__":
    try: main()
    except build.BuildError as e: print("ERROR build: %s" % e); sys.exit(2)
