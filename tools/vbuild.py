#!/usr/bin/env python3
"""Builds one harness from /repo's working tree: compiles the harness, the repo units it needs and the shim.

The units come from a committed hint list (hints/<name>.txt, repo-relative). When the link reports undefined
references (a refactoring moved code to another unit), every non-test unit of the repository is compiled into an
archive and the link is repeated, so the check does not depend on how the code is split over files.
"""
import hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

EXCLUDE = re.compile(
    r"(_test\.cpp$|_mock\.cpp$|mock|(^|/)tests?/|(^|/)qnx|test_doubles|_fake\.cpp$|/fake/|test_resources|"
    r"/doc/|/example|benchmark|test_helper|test_types|main\.cpp$|fixture|/mocking/|performance|attributes_test)")


class BuildError(Exception):
    pass


def all_units():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "score")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.relpath(os.path.join(root, f), REPO)
                if not EXCLUDE.search(p):
                    out.append(p)
    return out


def _deps_newer(dfile, obj):
    try:
        ot = os.stat(obj).st_mtime_ns
        txt = open(dfile).read().replace("\\\n", " ")
        deps = txt.split(":", 1)[1].split()
        for d in deps:
            if os.stat(d).st_mtime_ns > ot:
                return True
        return False
    except (OSError, IndexError):
        return True


class Builder:
    def __init__(self, name, cxx="g++", flags=("-O1", "-g1"), std="-std=c++17", repo_flags=()):
        self.name, self.cxx, self.flags, self.std = name, cxx, list(flags), std
        self.repo_flags = list(repo_flags)
        self.dir = os.path.join(BUILD, "obj")
        os.makedirs(self.dir, exist_ok=True)
        self.inc = ["-I", REPO, "-I", os.path.join(VERIF, "shim/include"), "-I", os.path.join(VERIF, "lib")]

    def compile(self, src, extra=()):
        """src: absolute or repo-relative path. Returns (obj, error-or-None)."""
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        as_repo = path.startswith(REPO + "/") or "-DAS_REPO" in extra
        cmd = [self.cxx, self.std, *self.flags, *(self.repo_flags if as_repo else ()), *extra, "-w", *self.inc, "-c", path]
        key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:16]
        obj = os.path.join(self.dir, os.path.basename(path) + "." + key + ".o")
        d = obj + ".d"
        if os.path.exists(obj) and not _deps_newer(d, obj):
            return obj, None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-MD", "-MF", d, "-o", tmp], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            return None, "%s\n%s" % (src, r.stdout[:4000])
        os.replace(tmp, obj)
        return obj, None

    def compile_many(self, srcs, tolerate=False):
        objs, errs = [], []
        with ThreadPoolExecutor(JOBS) as ex:
            for obj, err in ex.map(lambda s: self.compile(*s) if isinstance(s, tuple) else self.compile(s), srcs):
                if obj:
                    objs.append(obj)
                else:
                    errs.append(err)
        if errs and not tolerate:
            raise BuildError("\n".join(errs[:3]))
        return objs

    def link(self, objs, out, libs, archive=None):
        cmd = [self.cxx, *self.flags, "-o", out, *objs] + ([archive] if archive else []) + list(libs)
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    def build(self, harness_srcs, hint=None, extra=(), libs=("-lpthread",), shim_src=("shim/src/json.cpp",), allow_all=True, unresolved_ok=False):
        """Returns path of the binary."""
        # "repo:" marks a harness file that instantiates the repository's templates and gets the repository's flags
        hs = [(os.path.join(VERIF, h[5:]), tuple(extra) + ("-DAS_REPO",)) if h.startswith("repo:") else (os.path.join(VERIF, h), tuple(extra)) for h in harness_srcs]
        sh = [os.path.join(VERIF, s) for s in shim_src]
        hint_file = os.path.join(VERIF, "hints", (hint or self.name) + ".txt")
        units = []
        if os.path.exists(hint_file):
            units = [l.strip() for l in open(hint_file) if l.strip() and not l.startswith("#")]
            units = [u for u in units if os.path.exists(os.path.join(REPO, u))]
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        tagk = hashlib.sha1((self.cxx + " ".join(self.flags) + " ".join(self.repo_flags)).encode()).hexdigest()[:6]
        out = os.path.join(BUILD, "bin", self.name + "." + tagk)
        # harness, shim and hinted units in one parallel batch
        nsep = len(hs) + len(sh)
        objs = self.compile_many(hs + sh + units)
        r = self.link(objs, out, libs)
        if r.returncode and allow_all and ("undefined reference" in r.stdout or "undefined symbol" in r.stdout):
            rest = [u for u in all_units() if u not in units]
            robjs = self.compile_many(rest, tolerate=True)
            ar = out + ".rest.a"
            if os.path.exists(ar):
                os.remove(ar)
            with open(out + ".rsp", "w") as f:
                f.write("\n".join(robjs))
            subprocess.run(["ar", "rcs", ar, "@" + out + ".rsp"], check=True)
            mapf = out + ".map"
            r = self.link(objs, out, list(libs) + ["-Wl,-Map=" + mapf], ar)
            if r.returncode == 0 and os.environ.get("VERIF_UPDATE_HINTS"):
                pulled = set(re.findall(r"\.rest\.a\(([^)]+\.cpp)\.[0-9a-f]+\.o\)", open(mapf).read()))
                o2u = {}
                for u in rest:
                    cmd = [self.cxx, self.std, *self.flags, *self.repo_flags, "-w", *self.inc, "-c", os.path.join(REPO, u)]
                    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:16]
                    o2u[os.path.basename(u) + "." + key] = u
                pulledk = set(re.findall(r"\.rest\.a\(([^)]+\.cpp\.[0-9a-f]+)\.o\)", open(mapf).read()))
                add = sorted(o2u[p] for p in pulledk if p in o2u)
                os.makedirs(os.path.dirname(hint_file), exist_ok=True)
                with open(hint_file, "w") as f:
                    f.write("\n".join(sorted(set(units) | set(add))) + "\n")
                print("hints updated: %d units" % (len(units) + len(add)))
        if r.returncode:
            raise BuildError(r.stdout[:6000])
        return out
