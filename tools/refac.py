#!/usr/bin/env python3
"""refac.py FILE [BATCH...] [--checks C01,..]: applies each batch of behaviour-keeping edits to a scratch
clone, runs the tests and then the checks, which have to stay quiet."""
import sys, os, subprocess, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import scratch, sh, ENV, V
ns = {}
exec(open(sys.argv[1]).read(), ns)
a = sys.argv[2:]
checks = ["C%02d" % n for n in range(1, 30)]
if "--checks" in a:
    i = a.index("--checks"); checks = a[i+1].split(","); del a[i:i+2]
for name in a or ns["BATCHES"]:
    t, repo = scratch()
    try:
        for f, old, new in ns["BATCHES"][name]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: print(name, "EDIT matches", s.count(old), f, repr(old[:70])); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        r = sh("go test -count=1 -skip TestWithBytesDoesNotAllocate ./... | grep -v 'no test files'", cwd=repo)
        if "FAIL" in r.stdout or "rror" in r.stdout: print(name, "TESTS", r.stdout[-1500:]); continue
        for c in checks:
            t0 = time.time()
            r = subprocess.run(["python3", f"{V}/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            print(name, c, "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else "ALARM", r.returncode, round(time.time()-t0), "" if r.returncode == 0 else r.stdout[:1500], flush=True)
    finally:
        shutil.rmtree(t)
