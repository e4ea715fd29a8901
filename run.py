#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                      build the harness in both profiles
  run.py check C01 quick|thorough   decide one property on /repo's current tree
  run.py replay FILE                re-run the case of a VIOLATION

A check builds the harness (which has a path dependency on /repo) in two profiles, runs the
exploration in each, writes evidence/<id>.json, and exits 0 (held), 1 (VIOLATION line printed)
or 2 (no verdict: build error, tool failure).
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
PROFILES = ["checked", "release"]
LEVEL = "model_checking"
LIMIT_AS = 28 << 30
# The terms of a manager are never freed: the thorough exploration of histories is split over
# several processes, run one after the other, each taking the chunks c = k modulo n.
SHARDS = {("C07", "thorough"): 6}


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build(profiles):
    procs = []
    for p in profiles:
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", p,
               "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"),
               "--target-dir", os.path.join(BUILD, p)]
        procs.append((p, subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    ok = True
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            ok = False
            print("BUILD FAILED (profile %s)\n%s" % (p, out[-6000:]))
    return ok


def binary(profile):
    return os.path.join(BUILD, profile, profile, "mc")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT_AS, LIMIT_AS))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def mc(profile, prop, tier, out, extra=(), timeout=None):
    """-> (returncode or None on timeout, result dict or None)"""
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary(profile), prop, "--tier", tier, "--out", out] + list(extra)
    try:
        r = subprocess.run(cmd, preexec_fn=limits, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = None
    res = None
    try:
        with open(out) as f:
            res = json.load(f)
    except (OSError, ValueError):
        pass
    return rc, res


def explore(profile, prop, tier, out, extra, timeout):
    """All shards of an exploration -> as mc"""
    n = SHARDS.get((prop, tier), 1)
    total = None
    for k in range(n):
        rc, res = mc(profile, prop, tier, out, list(extra) + ["--shard", str(k), str(n)], timeout)
        if rc not in (0, 1) or res is None:
            return rc, None
        if total is None:
            total = res
        else:
            for key in ("cases", "states", "transitions", "traces", "undecided", "wall_s"):
                total[key] += res[key]
            total["capped"] = total["capped"] or res["capped"]
            total["rss_mb"] = max(total["rss_mb"], res["rss_mb"])
            total["violations"] += res["violations"]
            total["samples"] += [x for x in res["samples"] if x not in total["samples"]]
            for f, g in zip(total["families"], res["families"]):
                for key in ("done", "cases", "states", "transitions", "traces", "undecided", "wall_s"):
                    f[key] += g[key]
        if rc == 1:
            return rc, total
    return 0, total


def after_crash(profile, prop, tier, out, deadline):
    """The process died (stack overflow, abort, out of memory). Find the chunk by re-running
    alone each chunk that was in progress."""
    cands = []
    d = os.path.dirname(out)
    base = os.path.basename(out) + ".progress."
    for f in sorted(os.listdir(d)):
        if f.startswith(base):
            try:
                line = open(os.path.join(d, f)).readline()
            except OSError:
                continue
            m = re.match(r"(.{60})\s*(\d+)$", line.rstrip("\n"))
            if m:
                cands.append((m.group(1).strip(), int(m.group(2))))
    for fam, chunk in cands:
        if time.time() > deadline:
            break
        rc, res = mc(profile, prop, tier, out, ["--only", fam, str(chunk)],
                     timeout=max(5, deadline - time.time()))
        if rc is not None and rc < 0:
            return {"family": fam, "chunk": chunk, "sub": 0, "desc": "(case in this chunk)",
                    "detail": "the process dies with signal %d (%s)" % (
                        -rc, signal.Signals(-rc).name)}
        if res and res.get("violations"):
            return res["violations"][0]
    return None


def known_findings():
    """Lines `known: property=<id> case=<family>#<desc>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(C\d+) case=(.*)$", line.rstrip("\n"))
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if not build(PROFILES):
        return 2
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    # the whole check must end within 900 s in the quick tier
    budget = 330 if tier == "quick" else 1500
    results = {}
    violations = []
    failed = False
    for prof in PROFILES:
        out = os.path.join(work, prof + ".json")
        rc, res = explore(prof, prop, tier, out, ["--deadline", str(budget), "--hang",
                                                  "90" if tier == "quick" else "400"],
                          timeout=budget + 250)
        if rc in (0, 1) and res is not None:
            results[prof] = res
            for v in res["violations"]:
                violations.append((prof, v))
        else:
            v = after_crash(prof, prop, tier, out, time.time() + 120)
            if v:
                violations.append((prof, v))
            else:
                print("NO VERDICT: the exploration of %s (%s) ended with %s" % (prop, prof, rc))
                failed = True
        if violations:
            break
    shutil.rmtree(work, ignore_errors=True)
    known = known_findings()
    real = []
    for prof, v in violations:
        key = "%s#%s" % (v["family"], v["desc"])
        if (prop, key) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, key))
        else:
            real.append((prof, v))
    paths = []
    for prof, v in real[:3]:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s-%d.json" % (prop, prof, v["family"], v["chunk"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "profile": prof, **v}, f, indent=1)
            f.write("\n")
        paths.append(path)
        print("%s: %s" % (v["family"], v["desc"]))
        print("  -> %s [%s build]" % (v["detail"], prof))
    evidence(prop, tier, seed, results, real, time.time() - t0, t_build)
    if paths:
        print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
        return 1
    if failed:
        return 2
    r = results[PROFILES[0]]
    print("%s: held on everything explored (%d cases, %d states, %d transitions per profile; %.0f s)" % (
        prop, r["cases"], r["states"], r["transitions"], time.time() - t0))
    return 0


def evidence(prop, tier, seed, results, real, wall, t_build):
    rs = list(results.values())

    def low(k):
        return min([r[k] for r in rs], default=0)

    cov = {
        "states": low("states"),
        "transitions": low("transitions"),
        # oracle traces replayed through end-user entry points; where every case is itself such
        # a trace (call sequences compared with the reference), the number of cases
        "traces_validated_against_impl": low("traces") or low("cases"),
        "samples": (rs[0]["samples"] if rs else []) or ["(no case ran)"],
        "exhaustive": bool(len(rs) == len(PROFILES) and not real
                           and all(not r["capped"] and r["undecided"] == 0 for r in rs)),
        "undecided_cases": max([r["undecided"] for r in rs], default=0),
        "counts_are": "per build profile (the smaller of the two runs)",
        "build_profiles": {p: {"wall_s": r["wall_s"], "cases": r["cases"],
                               "deadline_hit": r["capped"], "rss_mb": r["rss_mb"]}
                           for p, r in results.items()},
        "families": [{k: f[k] for k in ("name", "bound", "chunks", "done", "cases", "states",
                                        "transitions", "undecided")}
                     for f in (rs[0]["families"] if rs else [])],
        "notes": rs[0]["notes"] if rs else [],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": [
              "the reference model in /verif/harness is the meaning of the property (it is cross-checked by brute force where stated in DESIGN.md)",
              "nothing is claimed outside the bounds of the listed families",
          ],
          "wall_s": round(wall, 2), "violations": len(real)}
    while len(json.dumps(ev)) > 50000 and len(cov["samples"]) > 3:
        cov["samples"] = cov["samples"][: len(cov["samples"]) // 2]
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay(path):
    r = json.load(open(path))
    if not build([r["profile"]]):
        return 2
    out = os.path.join(BUILD, "replay-%d.json" % os.getpid())
    rc, res = mc(r["profile"], r["property"], r["tier"], out,
                 ["--only", r["family"], str(r["chunk"])], timeout=800)
    for f in os.listdir(BUILD):
        if f.startswith(os.path.basename(out)):
            os.remove(os.path.join(BUILD, f))
    if rc is None or rc < 0:
        print("reproduced: the process %s" % ("does not end" if rc is None else "dies with signal %d" % -rc))
        return 1
    for v in (res or {}).get("violations", []):
        print("%s: %s\n  -> %s" % (v["family"], v["desc"], v["detail"]))
    if rc == 0:
        print("not reproduced")
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return 0 if build(PROFILES) else 2
    if a[:1] == ["check"] and len(a) >= 2:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
