#!/usr/bin/env python3
"""campaign.py WORKER WORKERS PERFILE OUT [FILES]: runs the checks against sampled mutants of the sources."""
import os, random, subprocess, sys, shutil, time
ROOT = "/tmp/mutverif"
MAP = {
 "rules/archive.go":"C13","rules/bind.go":"C13","rules/blocklist.go":"C02","rules/decompression-bomb.go":"C13","rules/directory-traversal.go":"C13","rules/errors.go":"C11",
 "rules/fileperms.go":"C03","rules/hardcoded_credentials.go":"C08","rules/http_serve.go":"C01","rules/implicit_aliasing.go":"C13 C18","rules/integer_overflow.go":"C13","rules/pprof.go":"C02",
 "rules/rand.go":"C01","rules/readfile.go":"C10 C18","rules/rsa.go":"C01","rules/rulelist.go":"C16 C23 C01","rules/slowloris.go":"C13","rules/sql.go":"C09","rules/ssh.go":"C01","rules/ssrf.go":"C10","rules/subproc.go":"C10",
 "rules/tempfiles.go":"C13","rules/templates.go":"C01","rules/tls.go":"C07","rules/tls_config.go":"C07","rules/unsafe.go":"C01","rules/weakcrypto.go":"C01","rules/weakcryptohash.go":"C01","rules/weakdepricatedcryptohash.go":"C01",
 "analyzers/analyzers_set.go":"C16","analyzers/analyzerslist.go":"C16","analyzers/conversion_overflow.go":"C04 C05 C20","analyzers/hardcoded_nonce.go":"C12 C20","analyzers/slice_bounds.go":"C06 C20","analyzers/util.go":"C04 C12 C21",
 "issue/issue.go":"C23 C24 C21","call_list.go":"C42 C01 C11","config.go":"C27","errors.go":"C20 C17","helpers.go":"C42 C01 C30 C09 C10 C13 C03 C08 C19 C35","import_tracker.go":"C42 C01 C03 C10",
 "report.go":"C24 C15","resolve.go":"C42 C09 C10 C12 C20","rule.go":"C39 C16 C18","analyzer.go":"C39 C43 C14 C15 C29 C16 C18 C19 C20 C33 C38 C36 C17",
 "autofix/ai.go":"C28","cmd/tlsconfig/tlsconfig.go":"C40","cmd/tlsconfig/tls_version.go":"C40","cmd/gosecutil/tools.go":"C41","cmd/vflag/flag.go":"C16",
 "cmd/gosec/main.go":"C43 C33 C27 C30 C15 C16 C31 C22 C29 C19 C20","cmd/gosec/sort_issues.go":"C22","report/formatter.go":"C24 C31 C15",
}
def checks(f):
    if f in MAP: return MAP[f].split()
    if f.startswith("report/sarif"): return ["C26","C24","C25","C31"]
    return ["C24","C25","C31"]
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
  GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOSUMDB="off", CGO_ENABLED="1", TZ="UTC", VERIF_SEED="1")
w, ws, per, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
files = sys.argv[5:] or list(MAP) + ["report/junit/formatter.go","report/sarif/builder.go","report/sarif/formatter.go","report/sonar/formatter.go","report/sonar/types.go","report/text/writer.go","report/golint/writer.go","report/csv/writer.go","report/junit/types.go"]
d = f"/tmp/mutwork/{os.path.basename(out)}-{w}"
shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/mutwork", exist_ok=True)
subprocess.run(["git","clone","-q","/repo",d],check=True)
jobs = []
for f in files:
    ms = subprocess.run(["/tmp/mutate", "/repo/"+f], capture_output=True, text=True).stdout.splitlines()
    rng = random.Random("c3" + f)
    rng.shuffle(ms)
    jobs += [(f, m.split("\t")) for m in ms[:per]]
random.Random("jobs").shuffle(jobs)
for k, (f, (n, line, what)) in enumerate(jobs):
    if k % ws != w: continue
    src = subprocess.run(["/tmp/mutate", "/repo/"+f, n], capture_output=True, text=True).stdout
    p = os.path.join(d, f)
    orig = open(p).read()
    open(p, "w").write(src)
    t0 = time.time()
    r = subprocess.run("go build -o /dev/null ./cmd/gosec", shell=True, cwd=d, env=ENV, capture_output=True)
    verdict = "nocompile"
    if r.returncode == 0:
        verdict = "SURVIVED"
        for c in checks(f):
            r = subprocess.run(["bash", ROOT+"/check.sh", c, "quick"], env=dict(ENV, VH_REPO=d), capture_output=True, text=True)
            if r.returncode == 1: verdict = "caught " + c; break
            if r.returncode != 0: verdict = f"rc{r.returncode} {c}"; break
    open(p, "w").write(orig)
    with open(out, "a") as g: g.write(f"{verdict}\t{f}:{line}\t#{n}\t{what}\t{time.time()-t0:.0f}s\n")
