#!/usr/bin/env python3
"""Runs the check of one property of iand/starbow.

usage: check.py C01 [--tier quick|thorough] [--replay FILE] [--keep]

Copies the Go sources of /repo's working tree to a scratch module, adds the
shims, the worker library and the property's harness, rewrites the copy for the
controlled scheduler where the property needs it, builds and runs the workers,
merges what they report and writes evidence/<id>.json.

exit 0: the property held on everything explored
exit 1: violated (VIOLATION line); 2: the check could not run
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/iand/starbow"
GOBIN = "/opt/veriftools/go1.24.13/bin"
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

START = time.time()


def goenv():
    e = dict(os.environ)
    e.update(PATH=GOBIN + ":" + e.get("PATH", "/usr/bin:/bin"), HOME="/root", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="0",
             GO111MODULE="on", GOWORK="off")
    for k in ("GOROOT", "GOOS", "GOARCH", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


class CheckError(Exception):
    pass


def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy_sources(dst):
    n = 0
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith((".", "_")) and d not in ("testdata", "vendor", "zz")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            p = os.path.join(root, f)
            src = open(p, encoding="utf-8", errors="surrogateescape").read()
            head = re.split(r"^package\s", src, maxsplit=1, flags=re.M)[0]
            if re.search(r"^//\s*\+build\s+ignore|^//go:build\s+ignore", head, re.M):
                continue
            q = os.path.join(dst, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w", encoding="utf-8", errors="surrogateescape").write(src)
            n += 1
    mod = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(r"^go\s+(\d+)\.(\d+)", mod, re.M)
    if not m:
        mod += "\ngo 1.21\n"
    elif (int(m.group(1)), int(m.group(2))) < (1, 21):
        mod = mod[:m.start()] + "go 1.21" + mod[m.end():]
    open(os.path.join(dst, "go.mod"), "w").write(mod)
    gs = os.path.join(REPO, "go.sum")
    if os.path.exists(gs):
        shutil.copy(gs, dst)
    return n


def build(cid, cfg, scratch, info):
    """Builds the worker binary; returns its path."""
    levels = ["full", "nord", "imports"] if cfg.get("instr") else [None]
    instr_bin = os.path.join(scratch, "instr.bin")
    if cfg.get("instr"):
        t = os.path.join(scratch, "instr")
        shutil.copytree(os.path.join(HERE, "instr"), t)
        rc, out = run(["go", "build", "-o", instr_bin, "."], t)
        if rc:
            raise CheckError("instrumenter does not build:\n" + out)
    errs = []
    for lv in levels:
        m = os.path.join(scratch, "m_" + str(lv))
        os.makedirs(m)
        info["source_files"] = copy_sources(m)
        z = os.path.join(m, "internal", "zz")
        shutil.copytree(os.path.join(HERE, "zz"), z)
        h = os.path.join(HERE, "h", cfg.get("h", cid.lower()))
        if lv:
            rc, out = run(["go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "./..."], m)
            exp = os.path.join(scratch, "exports.txt")
            open(exp, "w").write("\n".join(l for l in out.split("\n") if len(l.split()) == 2 and l.split()[1].startswith("/")))
            if rc:
                raise CheckError("the repository does not build:\n" + out)
            rc, out = run([instr_bin, "-dir", m, "-exports", exp, "-level", lv], m)
            if rc:
                errs.append("instr %s: %s" % (lv, out))
                continue
            info["instrumentation"] = lv + ": " + out.strip()
        if cfg.get("mainpkg"):
            shutil.copytree(h, os.path.join(z, "hx"), ignore=shutil.ignore_patterns("root"))
            for f in os.listdir(os.path.join(h, "root")):
                shutil.copy(os.path.join(h, "root", f), os.path.join(m, f))
            target = "."
        else:
            shutil.copytree(h, os.path.join(z, "hx"))
            target = "./internal/zz/hx"
        if cfg.get("prepare"):
            try:
                cfg["prepare"](m)
            except ValueError as e:
                raise CheckError(str(e))
        exe = os.path.join(scratch, "worker")
        rc, out = run(["go", "build", "-o", exe, target], m)
        if rc == 0:
            return exe
        errs.append("build (%s):\n%s" % (lv, out))
        info.setdefault("instrumentation_errors", []).append("%s: %s" % (lv, out[:1500]))
    raise CheckError("\n".join(errs))


def limits(gb=12):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def worker(exe, cfg, tier, shard, n, scratch, deadline, known, replay=None, tag=""):
    out = os.path.join(scratch, "out.%s%d.json" % (tag, shard))
    case = os.path.join(scratch, "case.%s%d" % (tag, shard))
    errp = os.path.join(scratch, "err.%s%d" % (tag, shard))
    for f in (out, case):
        if os.path.exists(f):
            os.remove(f)
    wd = os.path.join(scratch, "wd.%s%d" % (tag, shard))
    os.makedirs(wd, exist_ok=True)
    e = goenv()
    e.update(VW_SHARD=str(shard), VW_N=str(n), VW_TIER=tier, VW_OUT=out, VW_CASE=case, VW_DEADLINE=str(deadline), VW_KNOWN=json.dumps(known),
             VW_REPO=REPO, VW_PROP=cfg["id"], VW_DIR=wd, GOMAXPROCS=str(cfg.get("procs", 1)), TMPDIR=wd, GOTRACEBACK="single",
             GOMEMLIMIT="3GiB", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VW_HANG=str(cfg.get("hang", 60)))
    if replay is not None:
        e["VW_REPLAY"] = replay
    else:
        e.pop("VW_REPLAY", None)
    with open(errp, "wb") as ef:
        p = subprocess.Popen([exe], env=e, cwd=wd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, preexec_fn=lambda: limits(cfg.get("as_gb", 12)))
    try:
        rc = p.wait(timeout=deadline + 400)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    err = open(errp, errors="replace").read()
    res = None
    if rc == 0 and os.path.exists(out):
        res = json.load(open(out))
    c = ""
    if os.path.exists(case):
        raw = open(case, "rb").read()
        try:
            c = raw[9:9 + int(raw[:8])].decode("utf-8", "replace")
        except ValueError:
            c = ""
    return rc, res, err, c


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    cid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay_file = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--replay":
            replay_file = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        i += 1
    cfg = dict(CHECKS[cid], id=cid)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [k for k in kf["findings"] if k["property"] == cid and k["status"] == "open"]
    known_keys = [k["key"] for k in known]
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % cid.lower())
    try:
        info = {}
        exe = build(cid, cfg, scratch, info)
        build_s = time.time() - START
        deadline = cfg.get(tier + "_s", 100 if tier == "quick" else 700)
        deadline = max(20, min(deadline, (600 if tier == "quick" else 3600 * 3) - build_s))
        if replay_file:
            rp = json.load(open(replay_file))
            rc, res, err, c = worker(exe, cfg, rp.get("tier", tier), 0, 1, scratch, deadline, [], replay=rp["case"])
            bad = (res or {}).get("violations") or []
            if res is None:
                print("worker ended with %s\n%s" % (rc, err[-3000:]))
                print("VIOLATION property=%s replay=%s" % (cid, replay_file))
                return 1
            for v in bad:
                print("%s\n%s" % (v["case"], v["msg"]))
            if bad:
                print("VIOLATION property=%s replay=%s" % (cid, replay_file))
                return 1
            print("replay of %s: no violation" % rp["case"])
            return 0

        n = cfg.get("workers", 8)
        outs = [None] * n

        def go(i):
            outs[i] = worker(exe, cfg, tier, i, n, scratch, deadline, known_keys)
        ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]

        violations, results, errors, known_seen = [], [], [], []
        for i, (rc, res, err, case) in enumerate(outs):
            if res is not None:
                confirmed = []
                for v in res.get("violations") or []:
                    if v["key"] == "hang" and any(x["key"] == "hang" for x in violations):
                        continue  # one is enough, they take a minute each
                    if v["key"] == "hang":
                        rc2, res2, err2, _ = worker(exe, cfg, tier, 0, 1, scratch, deadline, [], replay=v["case"], tag="r%d_" % i)
                        vs2 = (res2 or {}).get("violations") or []
                        if not vs2 and res2 is not None:
                            errors.append("worker %d: no progress in %s, not reproduced" % (i, v["case"]))
                            continue
                        v["msg"] += " (again when replayed alone)"
                    confirmed.append(v)
                res["violations"] = confirmed
                results.append(res)
                violations += confirmed
                known_seen += res.get("known") or []
                continue
            # The worker died: a crash of the code under test, if it happens again on the same case.
            rep = None
            if case and rc not in (-9, "timeout"):
                rep = worker(exe, cfg, tier, 0, 1, scratch, deadline, [], replay=case, tag="r%d_" % i)
            if rep is not None and rep[1] is None and rep[0] not in (-9, "timeout"):
                tail = err[-6000:]
                m = re.search(r"(fatal error:.*|panic:.*|runtime: .*)", tail)
                violations.append(dict(key="crash", case=case, msg="the process died: %s" % (m.group(1) if m else tail[-500:]), detail=tail[:6000], confirmed="2/2"))
            elif rep is not None and rep[1] is not None and rep[1].get("violations"):
                violations += rep[1]["violations"]
            else:
                # once more: the shard as a whole
                again = worker(exe, cfg, tier, i, n, scratch, deadline, known_keys, tag="a%d_" % i)
                if again[1] is not None:
                    results.append(again[1])
                    violations += again[1].get("violations") or []
                    known_seen += again[1].get("known") or []
                elif again[0] == rc and rc not in (-9, "timeout") and again[3] == case and re.search(r"fatal error:|^panic:", err, re.M):
                    violations.append(dict(key="crash", case=case, msg="the process died: " + err[-1500:], confirmed="2/2"))
                else:
                    errors.append("worker %d ended with %s: %s" % (i, rc, err[-3000:]))

        # violations whose key is listed (a hang or crash can match a listed key too)
        fresh, seen_keys = [], set()
        for v in violations:
            if v["key"] in known_keys:
                known_seen.append(v)
            else:
                fresh.append(v)
        for v in known_seen:
            seen_keys.add(v["key"])

        ev = evidence(cid, cfg, tier, results, fresh, known_seen, info, build_s)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (cid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=True)
        os.replace(tmp, os.path.join(HERE, "evidence", cid + ".json"))

        for k in known:
            if k["key"] in seen_keys:
                print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
        c = ev["coverage"]
        print("%s %s: %s evaluations, %s nontrivial, %s states, exhaustive=%s, %.1fs" % (
            cid, tier, c.get("evaluations"), c.get("distinct_nontrivial"), c.get("states", "-"), c.get("exhaustive"), time.time() - START))
        for e in errors:
            print("note:", e[:3000])
        if fresh:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            fresh.sort(key=lambda v: (len(v["case"]), v["case"]))
            seen = set()
            for v in fresh:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                name = "%s_%s.json" % (cid, re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:40])
                path = os.path.join(HERE, "replays", name)
                json.dump(dict(property=cid, tier=tier, **v), open(path, "w"), indent=1)
                print("  case: %s\n  %s\n  confirmed %s" % (v["case"][:500], v["msg"][:2500], v.get("confirmed")))
                print("VIOLATION property=%s replay=%s" % (cid, path))
            return 1
        if errors and len(results) < n:
            return 2
        return 0
    except CheckError as e:
        print("check could not run: %s" % e)
        return 2
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def evidence(cid, cfg, tier, results, violations, known_seen, info, build_s):
    def tot(k):
        return sum(r.get(k) or 0 for r in results)
    inf, notes, samples, outcomes = {}, {}, [], {}
    for r in results:
        for k, v in (r.get("info") or {}).items():
            inf[k] = max(inf.get(k, 0), v) if k.startswith("max_") else inf.get(k, 0) + v
        for k, v in (r.get("notes") or {}).items():
            notes.setdefault(k, v)
        for k, v in (r.get("outcomes") or {}).items():
            outcomes[k] = outcomes.get(k, 0) + v
    for r in results:
        for s in r.get("samples") or []:
            if len(samples) < 12:
                samples.append(s[:600])
    exhaustive = bool(results) and all(r.get("exhaustive") for r in results)
    cov = {"evaluations": tot("evals"), "distinct_nontrivial": tot("nontrivial") or None, "rule": cfg["rule"], "samples": samples,
           "exhaustive": exhaustive, "cases": tot("cases"), "bounds": cfg.get("bounds", ""), "counts": inf}
    if outcomes:
        cov["distinct_outcomes"] = len(outcomes)
        cov["distinct_nontrivial"] = tot("nontrivial") or len(outcomes)
        cov["outcome_samples"] = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:10])
    if cov["distinct_nontrivial"] is None:
        cov["distinct_nontrivial"] = cov["cases"]
    if cfg["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"))
    if notes:
        cov["notes"] = notes
    if info:
        cov["build"] = info
    cov["build_s"] = round(build_s, 1)
    if known_seen:
        cov["known_findings_seen"] = sorted({v["key"] for v in known_seen})
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return {"property": cid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
            "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - START, 2), "violations": len(violations)}


if __name__ == "__main__":
    sys.exit(main())
