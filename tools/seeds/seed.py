#!/usr/bin/env python3
"""Planted bugs: seed.py make ID... writes /verif/seeded/ID, seed.py try ID...
builds, demonstrates, tests and checks it in a scratch copy."""
import glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.abspath(os.path.join(HERE, "..", ".."))
SPECS = {}
def S(id, prop, edits, demo, needs, breaks, **files):
    assert id not in SPECS, id
    SPECS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files)
for f in sorted(glob.glob(os.path.join(HERE, "spec_*.py"))):
    exec(compile(open(f).read(), f, "exec"))
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
  GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOSUMDB="off", CGO_ENABLED="1", TZ="UTC")
def sh(cmd, cwd, timeout=1800, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
def scratch(tag):
    d = f"/tmp/seedwork/{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), d], check=True)
    return d
def make(id):
    s = SPECS[id]
    d = scratch("make-" + id)
    original = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=d, capture_output=True, text=True).stdout.strip()
    for f, old, new in s["edits"]:
        t = open(os.path.join(d, f)).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(os.path.join(d, f), "w").write(t.replace(old, new))
    r = sh("gofmt -l $(git diff --name-only)", d)
    if r.stdout.strip(): print(id, "gofmt:", r.stdout)
    out = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(sh(["git", "diff"], d).stdout)
    shutil.copy(os.path.join(HERE, "lib.sh"), os.path.join(out, "lib.sh"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s["demo"].lstrip("\n"))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for n, t in s["files"].items():
        open(os.path.join(out, n.replace("_go", ".go").replace("_sh", ".sh").replace("_py",".py")), "w").write(t.lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    # lines of the original repository?
    orig = other = 0
    cur, line = None, 0
    for l in sh(["git", "diff", "-U0"], d).stdout.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            blame = [b.split(" ")[0].lstrip("^") for b in sh(["git", "blame", "-l", "HEAD", "--", cur], d).stdout.splitlines()]
        elif l.startswith("@@"): line = int(l.split("-")[1].split(",")[0].split(" ")[0])
        elif l.startswith("-") and not l.startswith("---"):
            if original.startswith(blame[line - 1]): orig += 1
            else: other += 1
            line += 1
    if not orig or other: print(id, f"original lines changed: {orig}, lines of fixes changed: {other}", flush=True)
    shutil.rmtree(d)
    return orig
def tryit(id, tests=True, checks=True, seeds=("1",)):
    s = SPECS[id]
    d = scratch("try-" + id)
    out = os.path.join(ROOT, "seeded", id)
    demo = f"/tmp/seedwork/demo-{id}"
    shutil.rmtree(demo, ignore_errors=True); shutil.copytree(out, demo)
    res = {}
    r = sh(["bash", demo + "/demo.sh"], d)
    res["clean"] = r.returncode
    if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:])
    r = sh(["git", "apply", out + "/patch.diff"], d)
    if r.returncode: print(id, "NO APPLY", r.stdout)
    r = sh("go build ./...", d); res["build"] = r.returncode
    if r.returncode: print(id, "BUILD", r.stdout[-1500:])
    r = sh(["bash", demo + "/demo.sh"], d); res["demo"] = r.returncode
    if r.returncode != 1: print(id, "DEMO", r.returncode, r.stdout[-800:])
    if tests:
        r = sh("go test -vet=off ./... 2>&1 | grep -v 'no test files'", d); res["tests"] = "FAIL" if "FAIL" in r.stdout else "ok"
        if res["tests"] != "ok": print(id, "TESTS", [l for l in r.stdout.splitlines() if "[FAIL]" in l or l.startswith("FAIL") or l.startswith("--- FAIL")][:6])
    if checks:
        props = s["prop"] if isinstance(s["prop"], list) else [s["prop"]]
        for p in props:
            for seed in seeds:
                r = sh(["bash", ROOT + "/check.sh", p, "quick"], ROOT, VH_REPO=d, VERIF_SEED=seed, VH_EVIDENCE="/tmp/seedwork/ev")
                res[f"{p}/{seed}"] = "caught" if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout else f"MISSED rc={r.returncode}"
                if r.returncode == 1:
                    res[f"{p}/{seed}"] += " " + "; ".join(l.strip()[:110] for l in r.stdout.splitlines() if l.startswith("  "))[:230]
                elif r.returncode: print(r.stdout[-600:])
    shutil.rmtree(d); shutil.rmtree(demo)
    print(id, json.dumps(res), flush=True)
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]: ids = list(SPECS)
    for id in ids:
        if cmd == "make": make(id)
        elif cmd == "try": make(id); tryit(id)
        elif cmd == "demo": make(id); tryit(id, tests=False, checks=False)
        elif cmd == "check": make(id); tryit(id, tests=False)
