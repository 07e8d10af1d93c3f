#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tool/dev/bugs/*.py and (with --verify) prove each
one in a scratch copy: it builds, the stable tests pass, the demo passes without it
and fails with it.  usage: plant.py [--verify] [id ...]"""
import glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = os.path.join(ROOT, "seeded")
COPY = "/tmp/plant/repo"

DEMO = r'''#!/bin/bash
# run with cwd = the repository, after the build; compiles demo.cpp against it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
g++ -std=c++17 -O0 -w %(flags)s -I"$D" -I. -Isrc -Isrc/Io -Isrc/Ainur -Isrc/AST \
  -DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -DUSE_BOOST %(threads)s \
  -isystem /usr/include/hdf5/serial "$D/demo.cpp" %(lib)s \
  -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -llapack -lblas -lpthread %(libs)s -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tool/dev/bugs/*.py"))):
        g = {}
        exec(open(f).read(), g)
        out += g["BUGS"]
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out


def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")


def write(b):
    wt = "/tmp/plant/wt"
    if not os.path.isdir(wt):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh("git clone -q /repo %s" % wt)
    sh("git fetch -q && git reset -q --hard origin/HEAD && git checkout -q .", wt)
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d matches in %s: %r" % (b["id"], s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEED, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git diff", wt).stdout)
    if "demo_sh" in b:
        open(d + "/demo.sh", "w").write(b["demo_sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % dict(
            flags=b.get("flags", ""), libs=b.get("libs", ""),
            lib=b.get("lib", "_build/psimaglite/src/libpsimaglite.a"),
            threads=b.get("threads", "-DUSE_PTHREADS")))
        open(d + "/demo.cpp", "w").write(b["demo"])
    for n, t in b.get("files", {}).items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)


def verify(b):
    """In /repo itself (the build has absolute paths): apply, build, test, demo, undo."""
    d = os.path.join(SEED, b["id"])
    r0 = sh("bash %s/demo.sh" % d, "/repo")
    if r0.returncode:
        return "demo FAILS on unchanged tree: " + r0.stdout[-800:]
    if sh("git -C /repo status --porcelain").stdout.strip():
        return "repo dirty"
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        return "does not apply " + r.stdout
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "build fails " + r.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/plant/out.json")
        res = json.load(open("/tmp/plant/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        r1 = sh("bash %s/demo.sh" % d, "/repo")
        st = {}
        def stable():
            b_ = base.get("stable") or base.get("passed") or base.get("tests")
            return b_
        bad = missing(res, base)
        if bad:
            return "TESTS FAIL: " + str(bad)[:400]
        if r1.returncode == 0:
            return "demo passes with the patch"
        return "ok rc=%d %s" % (r1.returncode, r1.stdout.strip().replace("\n", " | ")[-120:])
    finally:
        sh("git -C /repo checkout -- .")


def names(x):
    out = set()
    if isinstance(x, list):
        for e in x:
            out.add(e if isinstance(e, str) else e.get("name") or e.get("id"))
    elif isinstance(x, dict):
        out = set(x)
    return out


def missing(res, base):
    for k in ("stable", "passed", "pass", "tests", "stable_tests"):
        if k in base:
            b = names(base[k])
            break
    for k in ("passed", "pass", "stable"):
        if k in res:
            p = names(res[k])
            break
    return sorted(b - p)


if __name__ == "__main__":
    a = sys.argv[1:]
    v = "--verify" in a
    ids = [x for x in a if not x.startswith("--")]
    for b in bugs():
        if ids and b["id"] not in ids:
            continue
        write(b)
        if v:
            print(b["id"], verify(b), flush=True)
    if v:
        sh("bash /opt/vp/build.sh")
