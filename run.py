#!/usr/bin/env python3
"""Runs the check of one property.

  run.py --setup                     build both test binaries once (fills the build cache)
  run.py C03 [--tier quick|thorough] decide a property
  run.py C03 --replay FILE           re-run one recorded case

Exit status: 0 property held, 1 violation (VIOLATION line printed), 2 check error.
"""
import argparse, copy, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
RACE = {"C11", "C19", "C25", "C31", "C32"}  # decided with the race detector on


def env_go():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly", GOSUMDB="off",
             GO111MODULE="on", CGO_ENABLED="1")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class CheckError(Exception):
    pass


def build(scratch, race):
    out = os.path.join(scratch, "harness.race" if race else "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    env = env_go()
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out
        # an unusable build cache must not decide anything: retry with a private one
        env["GOCACHE"] = os.path.join(scratch, "gocache")
    raise CheckError("build failed:\n" + p.stdout[-6000:])


FATAL = re.compile(r"^(fatal error: (?:concurrent map|sync: |all goroutines are asleep|stack overflow|unexpected signal).*"
                   r"|runtime: goroutine stack exceeds.*|panic: .*|SIGSEGV.*|unexpected fault address.*)", re.M)


def child(binary, prop, out, shard, nshards, args, replay=None, timeout=800, deadline=300):
    os.makedirs(out, exist_ok=True)
    e = env_go()
    e.update(VH_PROP=prop, VH_OUT=out, VH_SHARD=str(shard), VH_NSHARDS=str(nshards), VERIF_TIER=args.tier,
             VERIF_SEED=str(args.seed), VH_DEADLINE=str(deadline), VH_SCALE=str(args.scale),
             GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2",
             GOTRACEBACK="all", GOMAXPROCS=str(args.procs), TMPDIR=out)
    e["VH_DICT"] = os.pathsep.join(re.findall(r"^replace .* => (\S+)", open(os.path.join(HARNESS, "go.mod")).read(), re.M))
    if args.part:
        e["VH_PART"] = args.part
    if replay:
        e["VH_REPLAY"] = replay
    log = open(os.path.join(out, "log"), "wb")
    p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=out, env=e, stdout=log, stderr=log)
    p.out, p.limit = out, time.time() + timeout
    return p


def finish(p):
    """Waits for a child; returns its result dict."""
    try:
        p.wait(timeout=max(1, p.limit - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"done": False, "error": "time limit of the worker process", "parts": [], "violation": None}
    log = open(os.path.join(p.out, "log"), errors="replace").read()
    try:
        r = json.load(open(os.path.join(p.out, "result.json")))
        if r.get("done"):
            r["parts"] = r.get("parts") or []
            v = r.get("violation")
            if v and v["kind"] == "race":
                i = log.rfind("WARNING: DATA RACE")
                v["message"] += "\n" + log[i:i + 5000]
            return r
    except (OSError, ValueError):
        pass
    m = FATAL.search(log)
    if m and "github.com/webability-go/xcore" in log[m.start():]:
        raw = open(os.path.join(p.out, "current.json"), "rb").read()
        head, _, rest = raw.partition(b"\n")
        prop, part, n = head.decode().split()
        case = json.loads(rest[:int(n)])
        return {"done": True, "error": "", "parts": [], "violation": {
            "property": prop, "part": part, "kind": "fatal", "message": log[m.start():m.start() + 4000], "case": case}}
    return {"done": False, "error": "worker ended with status %s:\n%s" % (p.returncode, log[-3000:]), "parts": [], "violation": None}


def deletions(x):
    """Structurally smaller versions of a JSON value: array elements removed."""
    if isinstance(x, list):
        n = len(x)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield x[:i] + x[i + size:]
            size //= 2
        for i, e in enumerate(x):
            for s in deletions(e):
                yield x[:i] + [s] + x[i + 1:]
    elif isinstance(x, dict):
        for k, e in x.items():
            for s in deletions(e):
                y = dict(x)
                y[k] = s
                yield y


def shrink_outside(binary, v, scratch, args, seconds):
    """Shrinks a case whose failure ends the process (deadlock, fatal error)."""
    end = time.time() + seconds
    best = v
    n = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in deletions(best["case"]):
            if time.time() > end:
                break
            n += 1
            c = dict(best, case=cand)
            f = os.path.join(scratch, "cand.json")
            json.dump(c, open(f, "w"))
            out = os.path.join(scratch, "cand%d" % n)
            r = finish(child(binary, v["property"], out, 0, 1, args, replay=f, timeout=40))
            shutil.rmtree(out, ignore_errors=True)
            if r.get("violation") and r["violation"]["kind"] == v["kind"]:
                best = dict(r["violation"], case=cand)
                progress = True
                break
    return best


def replay_name(v):
    h = hashlib.sha256(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s-%s.json" % (v["property"], v["part"], h))


def known(v):
    """True if the violation is a recorded known finding (same property, part and case)."""
    try:
        k = json.load(open(os.path.join(HERE, "known_findings.json")))
    except OSError:
        return None
    for f in k.get("findings", []):
        if f["property"] == v["property"] and f.get("part") == v["part"] and f.get("case") == v["case"]:
            return f
    return None


def run(args):
    prop = args.property
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="xcoreverif-")
    procs = []
    try:
        binary = build(scratch, prop in RACE)
        if args.replay:
            r = finish(child(binary, prop, os.path.join(scratch, "r"), 0, 1, args, replay=os.path.abspath(args.replay), timeout=300))
            if r.get("violation"):
                print(r["violation"]["message"])
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(args.replay)))
                return 1
            if not r["done"] or r["error"]:
                raise CheckError(r["error"])
            print("case passes")
            return 0
        n = args.shards
        limit = 3000 if args.tier == "thorough" else 760
        deadline = 2400 if args.tier == "thorough" else 240
        procs = [child(binary, prop, os.path.join(scratch, "s%d" % i), i, n, args, timeout=limit, deadline=deadline) for i in range(n)]
        results = [finish(p) for p in procs]
        procs = []
        viol = [r["violation"] for r in results if r.get("violation")]
        errors = [r["error"] for r in results if not r["done"] or r["error"]]
        reports, code = [], 0
        if viol:
            v = min(viol, key=lambda v: (v["kind"] in ("deadlock", "fatal", "hang"), len(json.dumps(v["case"]))))
            if v["kind"] in ("deadlock", "fatal"):
                v = shrink_outside(binary, v, scratch, args, 60)
            k = known(v)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                f = replay_name(v)
                json.dump(v, open(f, "w"), indent=1, ensure_ascii=False)
                print("kind: %s, part: %s" % (v["kind"], v["part"]))
                print(v["message"][:6000])
                print("VIOLATION property=%s replay=%s" % (prop, f))
                reports.append({"part": v["part"], "kind": v["kind"], "message": v["message"][:1500], "replay": f})
                code = 1
        elif errors:
            raise CheckError(errors[0])
        evidence(prop, args, results, reports, time.time() - t0)
        return code
    finally:
        for p in procs:
            p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(prop, args, results, reports, wall):
    parts = {}
    for r in results:
        for p in r["parts"]:
            a = parts.setdefault(p["part"], dict(rule=p["rule"], evaluations=0, discards=0, skipped=0, labels={}, samples=[], hashes=set()))
            a["evaluations"] += p["evaluations"]
            a["discards"] += p["discards"]
            a["skipped"] += p["skipped_by_deadline"]
            a["hashes"].update(p["hashes"] or [])
            for k, v in (p["labels"] or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            if len(a["samples"]) < 6:
                a["samples"] += (p["samples"] or [])[:2]
    samples = []
    for name, a in sorted(parts.items()):
        samples += ["%s: %s" % (name, s) for s in a["samples"][:4]]
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in parts.values()),
            "distinct_nontrivial": sum(len(a["hashes"]) for a in parts.values()),
            "rule": "distinct (by hash of the case) cases per part for which: " + "; ".join("[%s] %s" % (n, a["rule"]) for n, a in sorted(parts.items())),
            "samples": samples or ["(none: the violation ended the search)"],
            "parts": {n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["hashes"]), "outside_domain": a["discards"],
                          "skipped_by_deadline": a["skipped"], "labels": dict(sorted(a["labels"].items()))} for n, a in sorted(parts.items())},
            "workers": len(results),
        },
        "wall_s": round(wall, 2),
        "assumptions": ["race detector build: %s" % (prop in RACE)],
        "violations": len(reports),
    }
    if reports:
        ev["coverage"]["violation_reports"] = reports
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--scale", type=int, default=100, help="percentage of the cases of the tier")
    ap.add_argument("--part", default="")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    args = ap.parse_args()
    try:
        if args.setup:
            scratch = tempfile.mkdtemp(prefix="xcoreverif-")
            try:
                build(scratch, False)
                build(scratch, True)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            return 0
        if not args.property:
            ap.error("property id needed")
        race = args.property in RACE
        args.shards = args.shards or (4 if race else 8)
        args.procs = args.procs or (4 if race else 2)
        return run(args)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
