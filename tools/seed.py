#!/usr/bin/env python3
"""seed.py SPEC.py: make the planted bugs of a spec (list BUGS) in a scratch copy of /repo, confirm each (compiles, tests pass,
demo fails with it and passes without), write /verif/seeded/<id>/. --run [ids]: run the property's check against each in /repo."""
import json, os, shutil, subprocess, sys
V = "/verif"; W = "/tmp/seedrepo"; TD = "/tmp/seedtarget"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
def sh(cmd, cwd, env=None, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
DEMO = '''#!/bin/bash
# cwd: a checkout of the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
numeric-traits = { path = "$repo/crates/traits" }
numeric-bits = { path = "$repo/crates/bits" }
numeric-ints = { path = "$repo/crates/ints"@FEAT@ }
numeric-reals = { path = "$repo/crates/reals" }
numeric-compounds = { path = "$repo/crates/compounds" }
numeric-static-iter = { path = "$repo/crates/static-iter" }
numeric-utils = { path = "$repo/crates/utils" }
@DEPS@TOML
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings@FLAGS@"
cargo build --offline -q @PROFILE@ || exit 3
timeout 60 "$d/target/@DIR@/demo"
'''
def make(b):
    id = b["id"]
    sh("git checkout -q -- . && git clean -fdq", W)
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        n = s.count(old)
        if n != b.get("count", 1): return f"{id}: old text occurs {n} times in {f}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", W)[1]
    env = dict(ENV, CARGO_TARGET_DIR=TD)
    rc, out = sh("cargo test --workspace --all-features --offline 2>&1 | grep -E 'test result|FAILED|failed|^error|panicked' ; exit ${PIPESTATUS[0]}", W, env)
    bad = [l for l in out.splitlines() if "FAILED" in l or l.startswith("error") or "... FAILED" in l]
    if bad: return f"{id}: tests fail: {bad[:6]}"
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.rs"), "w").write(b["demo"])
    rel = b.get("release")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FEAT@", ', features = ["rand"]' if b.get("rand") else "").replace("@DEPS@", 'rand = "0.9"\n' if b.get("rand") else "").replace("@FLAGS@", " --cfg verif_hooks" if b.get("hooks") else "").replace("@PROFILE@", "--release" if rel else "").replace("@DIR@", "release" if rel else "debug"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    rb, ob = sh(f"bash {d}/demo.sh", W)
    sh("git checkout -q -- .", W)
    rg, og = sh(f"bash {d}/demo.sh", W)
    if rg != 0 or rb == 0 or rb == 3:
        return f"{id}: demo unchanged={rg} patched={rb}\n{og[-1500:]}\n----\n{ob[-800:]}"
    return f"{id}: ok"
def runbug(id):
    d = os.path.join(V, "seeded", id); m = json.load(open(d + "/meta.json"))
    assert sh("git status --porcelain --untracked-files=no", "/repo")[1].strip() == ""
    rc, o = sh(f"git apply {d}/patch.diff", "/repo")
    if rc: return f"{id}: does not apply"
    try:
        import time; t = time.time()
        rc, o = sh(f"python3 check.py {m['property']} quick", V, t=1000)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        why = [l for l in o.splitlines() if "inputs" in l][:1]
        return f"{id} ({m['property']}): rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {time.time()-t:.0f}s {why} {o[-400:] if rc != 1 else ''}"
    finally:
        sh("git checkout -q -- .", "/repo")
if sys.argv[1] == "--run":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    rf = V + "/tools/seeded_results.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    for i in ids:
        r = runbug(i); print(r, flush=True)
        res[i] = "Caught by its check." if "CAUGHT" in r else "Not caught."
    json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
else:
    if not os.path.exists(W): sh(f"git clone -q /repo {W}", "/tmp")
    else: sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    for b in ns["BUGS"]:
        if sel and b["id"] not in sel: continue
        print(make(b), flush=True)
