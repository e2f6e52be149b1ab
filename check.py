#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property on /repo's working tree
   check.py --replay <file>                  run a recorded counterexample against the real code
   check.py --setup                          build the framework itself

Per run: compile the harness crate together with /repo's crates (working tree) to one
whole-program LLVM module, execute every harness of the property symbolically
(/verif/symex), have the solver decide every assertion / panic / memory access on every
path, run the inputs of sampled paths and every counterexample natively, write evidence."""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "target")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTFLAGS="", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
QUICK_BUDGET = float(os.environ.get("VERIF_BUDGET", "700"))
THOROUGH_BUDGET = float(os.environ.get("VERIF_BUDGET", "3600"))
FAIL = {10: "assertion violated", 11: "panic", 12: "memory fault", 13: "did not terminate", 14: "trap"}


def die(msg, code=2):
    print("check: " + msg, flush=True)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "symex"))
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "symex"), env=env)
    if r.returncode:
        die("symex does not build\n" + r.stdout)
    r = run(["gcc", "-O1", "-w", "-rdynamic", "-o", os.path.join(BUILD, "runner"), os.path.join(HERE, "runner.c"), "-ldl", "-lpthread"])
    if r.returncode:
        die("runner does not build\n" + r.stdout)


SYMEX = os.path.join(BUILD, "symex", "release", "symex")
RUNNER = os.path.join(BUILD, "runner")


HOOKED = {"C40", "C41"}  # properties about items only visible with /repo's `--cfg verif_hooks`


def build_ir(prop, profile):
    """profile: 'release' (debug assertions and overflow checks on) or 'rel' (off)"""
    td = os.path.join(BUILD, prop)
    env = dict(ENV, CARGO_TARGET_DIR=td)
    if prop in HOOKED:
        env["RUSTFLAGS"] = "--cfg verif_hooks"
    r = run(["cargo", "rustc", "--offline", "-q", "--profile", profile, "--features", prop.lower(), "--lib", "--",
             "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            cwd=os.path.join(HERE, "harness"), env=env)
    if r.returncode:
        die("the harness does not compile against /repo\n" + r.stdout[-6000:])
    return os.path.join(td, profile, "deps", "vharness.ll"), os.path.join(td, profile, "libvharness.so")


def source_doc(prop):
    p = os.path.join(HERE, "harness", "src", prop.lower() + ".rs")
    return " ".join(l[3:].strip() for l in open(p) if l.startswith("//!"))


def uses_rel(prop):
    p = os.path.join(HERE, "harness", "src", prop.lower() + ".rs")
    return re.search(r"\bc\d+_[qt][rb]_", open(p).read()) is not None


def harnesses(ll, prop, kinds):
    out = []
    pat = prop.lower() + r"_([a-z]+)_\w+"
    for l in open(ll):
        if l.startswith("define "):
            m = re.search(r"@(" + pat + r")\(", l)
            if m and m.group(2) in kinds:
                out.append(m.group(1))
        elif l.startswith("@c"):
            # harnesses the compiler found to be identical code: run the code once
            m = re.match(r"@(" + pat + r") = .*alias .*ptr @(\w+)", l)
            if m and m.group(2) in kinds:
                out.append(m.group(3))
    return sorted(set(out))


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def symex(ll, h, budget, extra=(), stop=None):
    cmd = [SYMEX, "--time", "%.0f" % budget, "--hard", "%.0f" % budget, *extra, ll, h]
    tmp = os.path.join(BUILD, "tmp")
    os.makedirs(tmp, exist_ok=True)
    end = time.time() + budget + 60
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit,
                          env=dict(ENV, SYMEX_TMP=tmp), start_new_session=True)
    while True:
        try:
            out, err = pr.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            halted = stop and time.time() > stop[0]
            if halted or time.time() > end:
                os.killpg(pr.pid, 9)
                pr.communicate()
                return {"harness": h, "status": "skipped"} if halted else {"harness": h, "status": "unknown", "unknown": "timeout"}
    try:
        return json.loads(out)
    except ValueError:
        return {"harness": h, "status": "unknown", "unknown": "executor died (rc=%d): %s" % (pr.returncode, err[-600:])}


def reproduce(ll, so, h, v):
    """run a counterexample against the real code: (it fails there too, how, output)"""
    if v["sched"]:
        c = symex(ll, h, 120, ["--concrete", ",".join(v["inputs"]), "--sched", ",".join(map(str, v["sched"]))])
        return c["status"] == "violation", "concrete re-execution of the schedule on the IR", ""
    rc, out = native(so, h, v["inputs"], 30 if v["kind"] == "limit" else 20)
    rep, how = rc in FAIL, "native run: " + FAIL.get(rc, "exit %d" % rc)
    if not rep and v["kind"] in ("memory", "ub"):
        c = symex(ll, h, 120, ["--concrete", ",".join(v["inputs"])])
        rep = c["status"] == "violation" and c["violation"]["kind"] in ("memory", "ub")
        how = "concrete re-execution on the IR (undefined behaviour, not observable natively)"
    return rep, how, out


def native(so, h, inputs, secs=20):
    r = run([RUNNER, so, h, ",".join(inputs), str(secs)], preexec_fn=limit)
    return r.returncode, r.stdout.strip()


def known(prop):
    """harness -> text for the recorded, unrepaired defects of this property"""
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == prop and e.get("status") == "known":
                out[e["harness"]] = e["what"]
    return out


def replay_file(path):
    d = json.load(open(path))
    build_tools()
    ll, so = build_ir(d["property"], d["profile"])
    if d.get("sched"):
        v = symex(ll, d["harness"], 300, ["--concrete", ",".join(d["inputs"]), "--sched", ",".join(map(str, d["sched"]))])
        print(json.dumps(v.get("violation", {"status": v["status"]})))
        sys.exit(1 if v["status"] == "violation" else 0)
    rc, out = native(so, d["harness"], d["inputs"])
    print(out)
    print("native run: exit %d (%s)" % (rc, FAIL.get(rc, "no violation")))
    sys.exit(1 if rc in FAIL else 0)


def main():
    if sys.argv[1:2] == ["--setup"]:
        build_tools()
        return
    if sys.argv[1:2] == ["--replay"]:
        replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    build_tools()
    kn = known(prop)
    jobs = []
    profs = {"release": ["q", "qb", "k"] + (["t", "tb"] if tier == "thorough" else [])}
    if uses_rel(prop):
        profs["rel"] = ["qr", "qb"] + (["tr", "tb"] if tier == "thorough" else [])
    art = {}
    for prof, kinds in profs.items():
        ll, so = build_ir(prop, prof)
        art[prof] = (ll, so)
        for h in harnesses(ll, prop, kinds):
            if only is None or only in h:
                jobs.append((prof, h))
    if not jobs:
        die("no harness found for " + prop)
    t_build = time.time() - t0
    results, stop = [], []

    def job(p, h):
        if stop and time.time() > stop[0]:
            return {"harness": h, "status": "skipped"}
        r = symex(art[p][0], h, max(30, budget - (time.time() - t0)), stop=stop)
        if r["status"] == "violation":
            r["rep"] = reproduce(*art[p], h, r["violation"])
            if r["rep"][0] and h not in kn:
                stop.append(time.time() + 10)  # enough for a verdict: what is running may finish soon, nothing new starts
        return r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        left = budget - t_build
        futs = {ex.submit(job, p, h): (p, h) for p, h in jobs}
        for f in cf.as_completed(futs):
            p, h = futs[f]
            r = f.result()
            r["profile"] = p
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print("  %-8s %-34s %s %.1fs paths=%s queries=%s solver=%.1fs%s" % (
                    p, h, r["status"], r.get("wall_s", 0), r.get("paths"), r.get("queries"), r.get("solver_s", 0),
                    " " + r["unknown"][:300] if "unknown" in r else ""), flush=True)
                if "violation" in r:
                    print("     ", json.dumps(r["violation"])[:900], flush=True)
    results.sort(key=lambda r: (r["harness"], r["profile"]))

    bad, problems, validated, samples, known_seen, undecided = [], [], 0, [], [], []
    for r in results:
        prof, h = r["profile"], r["harness"]
        so = art[prof][1]
        if r["status"] == "violation":
            v = r["violation"]
            rep, how, out = r["rep"]
            if not rep:
                problems.append("%s: counterexample %s did not reproduce (%s)" % (h, v, how))
                continue
            if h in kn:
                known_seen.append(h)
                continue
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            path = os.path.join(HERE, "replay", "%s_%s_%s.json" % (prop, h, prof))
            json.dump({"property": prop, "harness": h, "profile": prof, "kind": v["kind"], "what": v["msg"],
                       "inputs": v["inputs"], "sched": v["sched"], "stack": v["stack"], "reproduced": how, "native_output": out,
                       "how_to_replay": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
            bad.append((path, h, v, how))
            continue
        if r["status"] == "skipped":
            continue
        if r["status"] != "ok":
            undecided.append("%s: %s" % (h, r.get("unknown")))
            continue
        if h in kn:
            problems.append("%s: recorded as a known finding but holds now" % h)
        miss = sorted(set(r["static_covers"]) - set(r["covers"]))
        if miss:
            problems.append("%s: vacuous, cover lines %s unreachable" % (h, miss))
        if r["asserts_trivial"] + r["asserts_solved"] + r["panic_checks"] == 0:
            problems.append("%s: vacuous, nothing was asserted" % h)
        for pan, inp in r["samples"]:
            rc, out = native(so, h, inp)
            if rc != (20 if pan else 0):
                problems.append("%s: executor and native run disagree on inputs %s (native exit %d, %s)" % (h, inp, rc, out[-200:]))
                break
            validated += 1
        for pan, inp in r["samples"][:1]:
            samples.append({"harness": h, "inputs": inp, "ends": "permitted panic" if pan else "all assertions hold"})

    def tot(k):
        return sum(r.get(k, 0) or 0 for r in results)
    fns = sorted({re.sub(r"<.*", "", f) for r in results for f in r.get("functions", []) if not f.startswith(("core::", "alloc::", "std::"))})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("paths_panic_ok"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "Symbolic execution of the LLVM IR of /repo's working tree. states = complete symbolic paths "
                           "(each stands for every input satisfying its path condition), transitions = IR instructions "
                           "executed symbolically; every assertion, reachable panic and memory access on every path was decided by the solver.",
            "harnesses": [{k: r.get(k) for k in ("harness", "profile", "status", "paths", "paths_panic_ok", "merges", "asserts_trivial",
                                                 "asserts_solved", "mem_checks", "panic_checks", "queries", "sat", "unsat", "hard",
                                                 "solver_s", "wall_s")} for r in results],
            "functions_encoded": fns, "bounds": source_doc(prop),
            "assertions_decided": tot("asserts_solved") + tot("asserts_trivial"),
            "solver_queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "solver_s": round(tot("solver_s"), 2), "build_s": round(t_build, 2),
            "known_findings_seen": known_seen, "problems": problems[:20],
            "undecided": undecided[:20],
        },
        "assumptions": ["rustc/LLVM 1.99.1 front end and optimiser (the IR is what is compiled to native code)",
                        "the executor's IR semantics (cross-checked natively on the sampled paths)",
                        "z3 / kissat verdicts; bounds stated in coverage.bounds"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for h in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[h]))
    for path, h, v, how in bad[:6]:
        print("%s: %s; inputs %s; %s" % (h, v["msg"], ",".join(v["inputs"]), how))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for p in problems:
        print("PROBLEM " + p)
    for p in undecided:
        print("UNDECIDED " + p)
    if len(undecided) == len(results) or (undecided and os.environ.get("VERIF_STRICT")):
        problems.append("undecided harnesses")
    print("%s %s: %d harnesses, %d paths, %d queries, %.1fs solver, %.1fs wall (build %.1fs), %d violations, %d problems, %d undecided" % (
        prop, tier, len(results), tot("paths"), tot("queries"), tot("solver_s"), ev["wall_s"], t_build, len(bad), len(problems), len(undecided)))
    sys.exit(1 if bad else 2 if problems else 0)


if __name__ == "__main__":
    main()
