#!/usr/bin/env python3
"""seed.py ID [--check]: validates one planted change in a scratch copy of /repo (development helper).

Confirms: patch applies, build.sh and the stable tests pass with it (scratch copy mounted as /repo is not possible, so the
change is applied to /repo itself, and undone), demo.sh passes without and fails with it; with --check also runs the property's check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
meta = json.load(open(os.path.join(d, "meta.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def demo():
    r = sh("cp -r %s /tmp/seeddemo && rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json; cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh" % d)
    sh("rm -rf /tmp/seeddemo")
    return r


assert sh("git -C /repo status --porcelain").stdout.strip() == ""
t = time.time()
fast = "--fast" in sys.argv
if not fast:
    r = demo()
    print("clean demo:", r.returncode, "%.0f s" % (time.time() - t))
    if r.returncode:
        print(r.stdout[-3000:])
        sys.exit(1)
r = sh("git -C /repo apply %s/patch.diff" % d)
if r.returncode:
    print("patch:", r.stdout)
    sys.exit(1)
try:
    if not fast:
        r = sh("bash /opt/vp/build.sh")
        print("build:", r.returncode)
        if r.returncode:
            print(r.stdout[-3000:])
        sh("bash /opt/vp/test.sh /tmp/seed-t.json")
        t = json.load(open("/tmp/seed-t.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        missing = [x for x in b["stable"] if x not in t["passed"]]
        print("stable tests missing:", missing[:5])
        r = demo()
        print("patched demo:", r.returncode, r.stdout[-600:])
    if "--check" in sys.argv or fast:
        t0 = time.time()
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh("python3 tools/check.py %s" % meta["property"], cwd=V, env=env)
        print("check:", r.returncode, "%.0f s" % (time.time() - t0), "\n" + r.stdout[-1500:])
finally:
    sh("git -C /repo checkout -- .")
