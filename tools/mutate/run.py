#!/usr/bin/env python3
"""Mutation runs.  run.py tests ALL OUT: which mutants build and pass the existing tests.
run.py checks SURVIVORS OUT VERIF: which of them the checks (of the copy VERIF of /verif) catch."""
import json, os, subprocess, sys, shutil, threading, queue, tempfile, time
GO = "/opt/veriftools/go1.24.13/bin"
ENV = dict(os.environ, PATH=GO + ":" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
ENV.pop("GOROOT", None)
CHECKS = {
 "demo.go": "C23", "starbow.go": "C26 C23",
 "internal/bitbucket/bitbucket.go": "C17 C18 C19 C20 C10 C27",
 "internal/bufmap/bufmap.go": "C03 C04 C02 C01 C24 C27",
 "internal/collation/compile.go": "C08 C07 C29 C12 C15 C27",
 "internal/collation/measure.go": "C07 C08 C10 C11",
 "internal/collation/schema.go": "C09 C28 C07 C08 C12 C15 C14 C18 C27",
 "internal/hash/fnv/fnv.go": "C21 C27",
 "internal/incmap/incmap.go": "C05 C24",
 "internal/query/rough.go": "C12 C15 C27",
 "internal/seqlock/seqlock.go": "C06 C04 C24 C27",
 "internal/server/server.go": "C13 C15 C14 C26 C24 C25 C16 C23",
 "internal/stats/stats.go": "C22 C27",
 "internal/storage/storage.go": "C09 C28 C16 C14 C15 C23",
 "internal/summary/bloom/bloom.go": "C20 C18 C19 C27",
 "internal/summary/hll/hll.go": "C10 C18 C19 C11",
 "internal/summary/stat64/stats.go": "C22 C07 C27",
}
mode, inp, out = sys.argv[1:4]
muts = [json.loads(l) for l in open(inp)]
done = set()
if os.path.exists(out):
    done = {l.split("\t")[0] for l in open(out)}
q = queue.Queue()
for i, m in enumerate(muts):
    k = m["file"] + ":" + str(m["Start"]) + "-" + str(m["End"]) + m["Text"].replace("\n", " ")[:60]
    if k not in done: q.put((k, m))
lock = threading.Lock()
f = open(out, "a")
def worker():
    t = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    subprocess.run(f"git clone -q /repo {t}/repo", shell=True)
    repo = t + "/repo"
    try:
        while True:
            try: k, m = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(repo, m["file"])
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["Start"]] + m["Text"].encode() + src[m["End"]:])
            try:
                if mode == "tests":
                    r = subprocess.run("go build ./... ", shell=True, cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    res = "nobuild"
                    if r.returncode == 0:
                        try:
                            r = subprocess.run("timeout -k 1 40 go test -vet=off -timeout 30s -skip TestWithBytesDoesNotAllocate ./...", shell=True, cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                            res = "killed" if r.returncode else "survived"
                        except Exception as e: res = "killed"
                else:
                    res = "MISSED"
                    for c in CHECKS[m["file"]].split():
                        env = dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
                        t0 = time.time()
                        try:
                            r = subprocess.run(["timeout", "-k", "5", "800", "python3", sys.argv[4] + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                            rc = r.returncode
                        except Exception: rc = -1
                        if rc == 1: res = "caught " + c + " %d" % (time.time() - t0); break
                        if rc: res = "ERROR %s %d %s" % (c, rc, r.stdout[-200:].replace("\n", " ")); break
            finally:
                open(p, "wb").write(src)
            with lock:
                f.write(k + "\t" + res + "\t" + json.dumps(m) + "\n"); f.flush()
    finally:
        shutil.rmtree(t)
n = int(os.environ.get("WORKERS", "8"))
ts = [threading.Thread(target=worker) for _ in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
