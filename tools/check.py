#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: builds the harnesses of one property from /repo's working tree, runs them, writes evidence.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from propdb import PROPS
CHECKS = {p["id"]: p for p in PROPS}

VERIF = vbuild.VERIF
LEVEL = "exploration"


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s key=" % pid):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def run_cpp(pid, h, tier, seed, budget, known):
    b = vbuild.Builder(h["name"], cxx=h.get("cxx", "g++"), flags=h.get("flags", ["-O1", "-g1"]), repo_flags=h.get("repo_flags", ()), std=h.get("std", "-std=c++17"))
    binary = b.build(h["src"] + ["lib/pbt_main.cpp"], hint=h.get("hint"), libs=h.get("libs", ["-lpthread"]),
                     shim_src=h.get("shim", ("shim/src/json.cpp",)), extra=h.get("extra", ()))
    out = os.path.join(vbuild.BUILD, "%s-%s.json" % (pid, h["name"]))
    if os.path.exists(out):
        os.remove(out)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    cmd = [binary, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", rd, "--id", pid, "--budget", str(budget)]
    if "workers" in h:
        cmd += ["--workers", str(h["workers"])]
    if h.get("only"):
        cmd += ["--only", h["only"]]
    env = dict(os.environ)
    env["VERIF_KNOWN"] = " ".join(known)
    env["VERIF_ID"] = pid
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0:halt_on_error=1:abort_on_error=1")
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    if r.returncode not in (0, 1):
        raise RuntimeError("harness %s ended with %d" % (h["name"], r.returncode))
    return json.load(open(out)), r.returncode


def run_py(pid, h, tier, seed, budget, known):
    out = os.path.join(vbuild.BUILD, "%s-%s.json" % (pid, h["name"]))
    os.makedirs(vbuild.BUILD, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    env = dict(os.environ)
    env.update(VERIF_KNOWN=" ".join(known), VERIF_ID=pid, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_REPLAYS=rd, VERIF_BUDGET=str(budget),
               PYTHONDONTWRITEBYTECODE="1", VERIF_REPO_DIR=vbuild.REPO)
    r = subprocess.run(["python3-vt", os.path.join(VERIF, h["src"][0])], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    if r.returncode not in (0, 1):
        raise RuntimeError("harness %s ended with %d" % (h["name"], r.returncode))
    return json.load(open(out)), r.returncode


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    known = known_findings(pid)
    t0 = time.time()
    reports, rc = [], 0
    harnesses = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    total_share = sum(h.get("share", 1) for h in harnesses)
    budget = spec.get("thorough_s", 420) if tier == "thorough" else spec.get("quick_s", 45)
    if os.environ.get("VERIF_BUDGET_S"):
        budget = float(os.environ["VERIF_BUDGET_S"])
    build_s = 0
    for h in harnesses:
        runner = run_py if h.get("kind") == "py" else run_cpp
        rep, code = runner(pid, h, tier, seed, budget * h.get("share", 1) / total_share, known)
        reports.append((h, rep))
        if code == 1:
            rc = 1
            break
    props = [dict(p, harness=h["name"]) for h, r in reports for p in r["props"]]
    hit = {}
    for p in props:
        for k, n in p.get("known", {}).items():
            hit[k] = hit.get(k, 0) + n
    for k in hit:
        if k not in known:
            # a harness marked something as known which the file does not list: that is a violation
            path = os.path.join(VERIF, "replays", "%s-unlisted-%s.txt" % (pid, k))
            open(path, "w").write("finding %s is not listed in known_findings.txt\n" % k)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
    for k, n in sorted(hit.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, k, known[k]))
    samples = []
    for p in props:
        for s in p["samples"][:3]:
            samples.append("%s: %s" % (p["name"], s))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", LEVEL),
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in props),
            "distinct_nontrivial": sum(p["distinct"] for p in props),
            "rule": spec["rule"],
            "samples": samples or ["(none)"],
            "discarded": sum(p.get("discarded", 0) for p in props),
            "per_property": [{k: p[k] for k in ("name", "harness", "evaluations", "distinct", "planned", "wall_s", "labels", "counts") if k in p} for p in props],
            "unreproduced_failures": sum(r.get("unreproduced", 0) for _, r in reports),
            "known_findings_hit": hit,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": rc,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + pid + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except (vbuild.BuildError, RuntimeError, KeyError) as e:
        sys.stderr.write("check failed: %s\n" % (str(e)[:6000],))
        code = 3
    sys.exit(code)
