#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

  check.py <ID>               quick (or VERIF_TIER) check
  check.py <ID> --tier thorough
  check.py --setup            build the symbolic executor
  check.py --replay FILE      replay a recorded counterexample

Every run compiles /repo/src/*.cpp and the property's harness to LLVM bitcode,
links them with the environment models in env/, and executes the harness
symbolically with engine/ (Z3 decides every branch and assertion)."""
import sys, os, json, time, subprocess, hashlib, glob, shutil, tempfile, threading, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XTR_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
NPROC = int(os.environ.get("XSYM_JOBS", "8"))

CXXFLAGS = ("-O1 -std=c++20 -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-pic -fno-pie -gline-tables-only -w "
            "-DXTR_FUNC= -DXTR_USE_IO_URING=1 -I{h} -I{r}/include").format(h=os.path.join(HERE, "harness"), r=REPO).split()
ENVFLAGS = CXXFLAGS + ["-fno-builtin", "-fno-access-control"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def engine():
    """Build the executor (only depends on /verif/engine)."""
    os.makedirs(BUILD, exist_ok=True)
    files = glob.glob(os.path.join(HERE, "engine", "*"))
    out = os.path.join(BUILD, "xsym-" + digest(files))
    if not os.path.exists(out):
        for f in glob.glob(os.path.join(BUILD, "xsym-*")): os.unlink(f)
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(["make", "-s", "-B", "-C", os.path.join(HERE, "engine"), "OUT=" + tmp])
        if r.returncode: die("engine build failed\n" + r.stdout)
        os.rename(tmp, out)
    return out


class BuildError(Exception): pass


def compile_one(src, out, flags):
    r = sh(["clang++-18"] + flags + ["-emit-llvm", "-c", src, "-o", out])
    if r.returncode: raise BuildError("%s\n%s" % (src, r.stdout[-6000:]))
    return out


def build_units(units, work):
    """units: {(harness, defines)}.  Returns {(harness, defines): linked bitcode}."""
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if os.path.basename(s) != "xtrctl.cpp"]
    out = {}
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {}
        envs = [ex.submit(compile_one, os.path.join(HERE, "env", e + ".cpp"), os.path.join(work, "env_%s.bc" % e), ENVFLAGS) for e in ("cxx", "libc")]
        for (h, defs) in units:
            futs[(h, defs)] = ex.submit(compile_one, os.path.join(HERE, "harness", h + ".cpp"),
                                        os.path.join(work, "%s-%s.bc" % (h, hashlib.md5(repr(defs).encode()).hexdigest()[:8])),
                                        CXXFLAGS + list(defs))
        repo = {}
        for defs in {d for (_, d) in units}:
            k = hashlib.md5(repr(defs).encode()).hexdigest()[:8]
            repo[defs] = [ex.submit(compile_one, s, os.path.join(work, "repo-%s-%s.bc" % (k, os.path.basename(s)[:-4])), CXXFLAGS + list(defs)) for s in srcs]
        for (h, defs) in units:
            l = [f.result() for f in repo[defs]] + [f.result() for f in envs] + [futs[(h, defs)].result()]
            o = futs[(h, defs)].result()[:-3] + ".linked"
            r = sh(["llvm-link-18"] + l + ["-o", o])
            if r.returncode: raise BuildError("llvm-link: " + r.stdout[-4000:])
            out[(h, defs)] = o
    return out


def run_job(xs, job, bc, work, idx, deadline):
    o = os.path.join(work, "job%d.json" % idx)
    budget = max(5, min(job["time"], deadline - time.time()))
    cmd = [xs, bc, "-entry", job["entry"], "-o", o, "-time", str(int(budget))]
    for k, v in job.get("params", {}).items(): cmd += ["-p", "%s=%s" % (k, v)]
    if "preempt" in job: cmd += ["-preempt", str(job["preempt"])]
    if "instr" in job: cmd += ["-instr", str(job["instr"])]
    if job.get("dump"): os.makedirs(job["dump"], exist_ok=True); cmd += ["-dump", job["dump"]]
    try:
        r = sh(cmd, timeout=budget + 120)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, txt = 2, "timeout"
    res = {"rc": rc, "out": txt, "cmd": cmd}
    try: res["json"] = json.load(open(o))
    except Exception: res["json"] = None
    return res


def known_findings(pid):
    kf = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == pid: kf.append((m.group(2), m.group(3)))
    return kf


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        engine(); return 0
    if a and a[0] == "--replay": return replay_file(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    keep = "--keep" in a
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    import specs
    spec = specs.SPECS[pid]
    jobs = spec["jobs"](tier)
    if only: jobs = [j for j in jobs if re.search(only, j["entry"])]
    for j in jobs:
        j.setdefault("defines", spec.get("defines", ())); j.setdefault("harness", spec["harness"])
        j.setdefault("time", 120 if tier == "quick" else 1500)
    xs = engine()
    work = tempfile.mkdtemp(prefix="xtr-%s-" % pid, dir=BUILD)
    try:
        return run(pid, tier, spec, jobs, xs, work, t0, keep)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)


def run(pid, tier, spec, jobs, xs, work, t0, keep):
    units = []
    for j in jobs:
        u = (j["harness"], tuple(j["defines"]))
        if u not in units: units.append(u)
    try:
        linked = build_units(units, work)
    except BuildError as e:
        api = spec.get("api")
        if api:                                  # statements users may write no longer compile?
            try_ = lambda f: sh(["clang++-18"] + CXXFLAGS + ["-fsyntax-only", os.path.join(HERE, "harness", f)])
            r = try_(api)
            if r.returncode and not try_("api_min.cpp").returncode:
                rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-api.txt" % pid)
                with open(path, "w") as f: f.write("# %s does not compile\n%s" % (api, r.stdout))
                print(r.stdout[-3000:]); print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
        die("build failed: %s" % e)
    tb = time.time() - t0
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    if tier == "thorough":
        for i, j in enumerate(jobs): j["dump"] = os.path.join(work, "dump%d" % i)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
    results = [None] * len(jobs)
    with ThreadPoolExecutor(NPROC) as ex:
        fs = {i: ex.submit(run_job, xs, jobs[i], linked[(jobs[i]["harness"], tuple(jobs[i]["defines"]))], work, i, deadline) for i in order}
        for i in fs: results[i] = fs[i].result()
    kf = known_findings(pid)
    viol, known, errors, incon = [], [], [], []
    reached = {}
    for j, r in zip(jobs, results):
        js = r["json"]
        if r["rc"] == 3 or js is None:
            errors.append("%s: %s" % (j["entry"], r["out"][-2000:])); continue
        for k, v in js["reached"].items():
            reached.setdefault(j["entry"], {}); reached[j["entry"]][k] = reached[j["entry"]].get(k, 0) + v
        if js["inconclusive"]: incon.append("%s: %s" % (j["entry"], js["inconclusive"][:1200]))
        for v in js["violations"]:
            desc = "%s: %s" % (v["kind"], v["msg"])
            f = next((x for x in kf if x[0] == j["entry"] and x[1] in desc), None)
            if f: known.append("%s %s" % f)
            else: viol.append((j, r, v))
    # vacuity: every label a harness must reach has been reached by some job
    missing = []
    for j in jobs:
        for l in j.get("reach", ()):
            if l not in reached.get(j["entry"], {}) and "%s/%s" % (j["entry"], l) not in missing: missing.append("%s/%s" % (j["entry"], l))
    confirmed = []
    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    seen = set()
    for (j, r, v) in viol:
        key = (j["entry"], v["msg"])
        if key in seen: continue
        seen.add(key)
        if len(confirmed) >= 4: break
        path = os.path.join(rdir, "%s-%d.txt" % (pid, len(confirmed)))
        ok, txt = replay(xs, j, linked[(j["harness"], tuple(j["defines"]))], v, work, path, pid)
        if ok: confirmed.append((path, j, v))
        else: errors.append("counterexample of %s did not replay: %s\n%s" % (j["entry"], v["msg"], txt[-1500:]))
    native = validate_samples(xs, jobs, results, linked, work, tier)
    cross = crosscheck(jobs, tier)
    evidence(pid, tier, spec, jobs, results, reached, incon, missing, confirmed, known, native, cross, t0, tb)
    for k in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for (path, j, v) in confirmed:
        print("%s [%s]: %s" % (j["entry"], v["kind"], v["msg"]))
        print(v.get("stack", "")[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    tot = sum(r["json"]["paths"] for r in results if r["json"])
    print("%s %s: %d jobs, %d paths, %d queries, %.1f s%s" % (pid, tier, len(jobs), tot, sum(r["json"]["queries"] for r in results if r["json"]), time.time() - t0, "" if not incon else ", NOT exhausted: " + str(len(incon))))
    for i in incon: print("inconclusive:", i)
    if confirmed: return 1
    if errors:
        for e in errors: print("ERROR:", e)
        return 2
    if missing:
        print("ERROR: labels not reached (vacuous): %s" % ", ".join(missing)); return 2
    return 0


def write_inputs(v, f):
    for (n, x) in v["inputs"]: f.write("%s %s\n" % (n, x))


def replay(xs, job, bc, v, work, path, pid):
    inp = os.path.join(work, "replay.in")
    with open(inp, "w") as f: write_inputs(v, f)
    cmd = [xs, bc, "-entry", job["entry"], "-replay", inp, "-o", os.path.join(work, "replay.json"), "-time", "120"]
    for k, x in job.get("params", {}).items(): cmd += ["-p", "%s=%s" % (k, x)]
    if "preempt" in job: cmd += ["-preempt", str(job["preempt"])]
    if "instr" in job: cmd += ["-instr", str(job["instr"])]
    r = sh(cmd)
    with open(path, "w") as f:
        f.write("# property %s harness %s entry %s\n# params %s defines %s preempt %s\n# %s: %s\n" % (pid, job["harness"], job["entry"], json.dumps(job.get("params", {})), json.dumps(list(job["defines"])), job.get("preempt", ""), v["kind"], v["msg"].replace("\n", " ")))
        for l in v.get("stack", "").splitlines(): f.write("# " + l + "\n")
        for l in v.get("log", []) if isinstance(v.get("log"), list) else str(v.get("log", "")).splitlines(): f.write("# log " + l + "\n")
        write_inputs(v, f)
        f.write("# concrete replay: %s\n" % r.stdout[-3000:].replace("\n", "\n# "))
    return r.returncode == 1, r.stdout


def replay_file(path):
    h = open(path).read().splitlines()
    m = re.match(r"# property (\S+) harness (\S+) entry (\S+)", h[0])
    m2 = re.match(r"# params (\{.*?\}) defines (\[.*?\]) preempt (\S*)", h[1])
    job = {"entry": m.group(3), "harness": m.group(2), "params": json.loads(m2.group(1)), "defines": tuple(json.loads(m2.group(2)))}
    if m2.group(3): job["preempt"] = m2.group(3)
    xs = engine()
    work = tempfile.mkdtemp(prefix="xtr-replay-", dir=BUILD)
    try:
        linked = build_units([(job["harness"], job["defines"])], work)
        inp = [tuple(l.split(" ", 1)) for l in h if l and not l.startswith("#")]
        ok, txt = replay(xs, job, list(linked.values())[0], {"inputs": inp, "kind": "", "msg": ""}, work, os.path.join(work, "x"), m.group(1))
        print(txt); print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally: shutil.rmtree(work, ignore_errors=True)


def validate_samples(xs, jobs, results, linked, work, tier): return []
def crosscheck(jobs, tier):
    """thorough: decide a sample of the dumped queries again with cvc5."""
    n = ok = bad = unk = 0
    files = []
    for j in jobs:
        if j.get("dump"): files += sorted(glob.glob(os.path.join(j["dump"], "*.smt2")))
    if not files: return None
    files = files[:: max(1, len(files) // 400)]
    def one(f):
        try: r = sh(["cvc5", "--tlimit=20000", f]).stdout.strip().splitlines()
        except Exception: return None
        want = "unsat" if f.endswith(".unsat.smt2") else "sat"
        if not r or r[0] not in ("sat", "unsat"): return None
        return r[0] == want
    with ThreadPoolExecutor(NPROC) as ex:
        for x in ex.map(one, files):
            n += 1; ok += x is True; bad += x is False; unk += x is None
    if bad: die("cvc5 disagrees with z3 on %d of %d queries" % (bad, n))
    return {"queries_rechecked_with_cvc5": n, "agree": ok, "cvc5_undecided": unk}


def evidence(pid, tier, spec, jobs, results, reached, incon, missing, confirmed, known, native, cross, t0, tb):
    J = [r["json"] for r in results if r["json"]]
    fn = sorted({f for j in J for f in j.get("functions", [])})
    cov = {
        "states": sum(j["paths"] for j in J),
        "transitions": sum(j["forks"] + j["context_switches"] for j in J),
        "traces_validated_against_impl": len(native),
        "samples": [s for j in J for s in j.get("samples", [])[:2]][:12],
        "exhaustive": not incon and not missing and len(J) == len(results),
        "bounds": spec.get("bounds", ""),
        "outside_bounds": spec.get("outside", ""),
        "functions_encoded": fn,
        "instructions_executed_symbolically": sum(j["instructions"] for j in J),
        "solver_queries": sum(j["queries"] for j in J), "sat": sum(j["sat"] for j in J), "unsat": sum(j["unsat"] for j in J), "unknown": sum(j["unknown"] for j in J),
        "query_cache_hits": sum(j["query_cache_hits"] for j in J),
        "solver_time_s": round(sum(j["solver_time_s"] for j in J), 3),
        "assertions_checked": sum(j["assertions_checked"] for j in J),
        "race_checks": sum(j["race_checks"] for j in J),
        "build_time_s": round(tb, 1),
        "jobs": [{"entry": j["entry"], "params": j.get("params", {}), "preemption_bound": j.get("preempt", 2),
                  "paths": r["json"]["paths"] if r["json"] else None, "queries": r["json"]["queries"] if r["json"] else None,
                  "solver_time_s": r["json"]["solver_time_s"] if r["json"] else None,
                  "time_s": r["json"]["time_s"] if r["json"] else None,
                  "exhausted": bool(r["json"] and r["json"]["exhausted"])} for j, r in zip(jobs, results)],
        "reached": reached, "not_reached": missing, "inconclusive": incon, "known_findings": sorted(set(known)),
    }
    if cross: cov["cross_check"] = cross
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
