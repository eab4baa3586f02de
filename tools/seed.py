#!/usr/bin/env python3
"""Makes and tries planted bugs.

  seed.py make FILE [ID...]   FILE is a python file defining SEEDS (see below); writes
                              seeded/<id>/ after confirming that the change builds, passes
                              the tests, and that the demonstration tells the two trees apart
  seed.py try [ID...]         runs the check of each seed's property on the changed tree
                              (--also C01,C02 for more checks, --all for every check)

A seed is a dict: id, prop, edits [(file, old, new)...], pkg, demo (go test source with
TestSeed), needs, breaks.  No check reads seeded/.
"""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")
GO = "/opt/veriftools/go1.24.13/bin"
ENV = dict(os.environ, PATH=GO + ":" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
ENV.pop("GOROOT", None)

DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken; run in the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
if [ -d /opt/veriftools/go1.24.13/bin ]; then export PATH=/opt/veriftools/go1.24.13/bin:$PATH; fi
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%%s/%(dir)szz_seed_test.go":"%%s/seed_demo.go.txt"}}' "$PWD" "$D" > "$T/o.json"
timeout 250 go test -overlay "$T/o.json" -run '^TestSeed$' -count=1 -vet=off ./%(dir)s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)

def scratch(patch=None):
    t = tempfile.mkdtemp(prefix="seed_")
    r = sh(f"git clone -q /repo {t}/repo")
    assert r.returncode == 0, r.stdout
    if patch:
        r = sh(f"git apply {patch}", cwd=f"{t}/repo")
        assert r.returncode == 0, r.stdout
    return t, f"{t}/repo"

def make(s):
    t, repo = scratch()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            src = open(p).read()
            n = src.count(old)
            if n != 1:
                print(s["id"], "EDIT matches", n, "times:", f, repr(old[:60])); return False
            open(p, "w").write(src.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        r = sh("go build ./... && go vet ./... ; go build ./...", cwd=repo)
        if r.returncode:
            print(s["id"], "does not build", r.stdout); return False
        base = json.load(open("/opt/vp/BASELINE.json"))
        for n in range(6):
            r = sh("GOMAXPROCS=%d go test -count=1 -skip %s ./... | grep -v 'no test files'" % (8 if n % 2 else 3, "TestWithBytesDoesNotAllocate" if "summary/" in diff else "DoesNotAllocate"), cwd=repo)
            r.returncode = "FAIL" in r.stdout
            if r.returncode: break
        if r.returncode:
            print(s["id"], "existing tests fail:", r.stdout[-600:]); return False
        d = os.path.join(SD, s["id"])
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        dr = s["pkg"].strip("./")
        dr = dr + "/" if dr else ""
        open(f"{d}/demo.sh", "w").write(DEMO % {"dir": dr})
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/seed_demo.go.txt", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        bad = [sh(f"{d}/demo.sh", cwd=repo) for _ in range(s.get("reps", 3))]
        sh("git checkout -q -- .", cwd=repo)
        good = [sh(f"{d}/demo.sh", cwd=repo) for _ in range(2)]
        okb = all(b.returncode != 0 for b in bad); okg = all(g.returncode == 0 for g in good)
        built = all("build failed" not in b.stdout for b in bad)
        if not (okb and okg and built):
            print(s["id"], "DEMO", [b.returncode for b in bad], [g.returncode for g in good], bad[0].stdout[-800:], good[0].stdout[-800:])
            return False
        print(s["id"], "ok", "|", bad[0].stdout.strip().splitlines()[0:3])
        return True
    finally:
        shutil.rmtree(t)

def attempt(i, checks):
    t, repo = scratch(os.path.join(SD, i, "patch.diff"))
    try:
        out = []
        for c in checks:
            import time
            t0 = time.time()
            env = dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["python3", f"{V}/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            first = [l for l in r.stdout.splitlines() if l.strip()][:3]
            out.append((c, r.returncode, len(v), round(time.time() - t0), "" if r.returncode == 1 else r.stdout[-300:] if r.returncode else ""))
        return out
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        ns = {}
        exec(open(a[1]).read(), ns)
        for s in ns["SEEDS"]:
            if len(a) > 2 and s["id"] not in a[2:]: continue
            make(s)
    else:
        also = []
        ids = []
        allc = False
        i = 1
        while i < len(a):
            if a[i] == "--also": also = a[i+1].split(","); i += 1
            elif a[i] == "--all": allc = True
            else: ids.append(a[i])
            i += 1
        for i in ids or sorted(os.listdir(SD)):
            p = json.load(open(f"{SD}/{i}/meta.json"))["property"]
            cs = ["C%02d" % n for n in range(1, 28)] if allc else [p] + also
            res = attempt(i, cs)
            print(i, "CAUGHT" if any(x[0] == p and x[1] == 1 for x in res) else "MISSED", res, flush=True)
