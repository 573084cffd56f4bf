#!/usr/bin/env python3
"""Make and confirm planted bugs: plant.py FILE... [--check] [--only ID]
Each FILE defines SEEDS = [dict(id, property, edits=[(path, old, new)], needs, breaks, group, demo)].
demo is the body of main() (C++), or, with py=True, a Python script run with cwd = the repository.
Confirms in a scratch copy that the change builds, passes the stable tests and fails the demo."""
import json, os, runpy, shutil, subprocess, sys, tarfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant-repo"
DEMO_SH = r'''#!/bin/bash
# cwd: the repository. Builds what it needs of it, with the stand-ins of kit.tgz, in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/kit" && tar xzf "$D/kit.tgz" -C "$T/kit" || exit 2
VERIF_REPO="$PWD" VERIF_BUILD="$T/build" python3 - "$T/kit" "$D/demo.cc" <<'P' || exit 3
import sys
sys.path.insert(0, sys.argv[1] + "/tools")
import vbuild
vbuild.gen_protos()
print(vbuild.build_exe("demo", [sys.argv[2]], ("-I" + sys.argv[1] + "/drivers",), (), "%s"))
P
timeout 100 "$T/build/bin/demo" "$T/out.ndjson" 1
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def kit(path):
    with tarfile.open(path, "w:gz") as t:
        def clean(i):
            i.mtime, i.uid, i.gid, i.uname, i.gname = 0, 0, 0, "", ""
            return None if "__pycache__" in i.name else i
        for p in ("shim", "tools/vbuild.py", "tools/pch.h", "drivers/drv.h", "drivers/mpc.h"):
            t.add(VERIF + "/" + p, p, filter=clean)


def one(s, check):
    t0 = time.time()
    d = "%s/seeded/%s" % (VERIF, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if not os.path.exists(SCRATCH):
        sh("cp -a /repo %s" % SCRATCH)
    sh("git -C %s checkout -q -f . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SCRATCH, SCRATCH, SCRATCH))
    for f, old, new in s["edits"]:
        p = SCRATCH + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return "edit of %s matches %d times" % (f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    patch = sh("git -C %s diff" % SCRATCH).stdout
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s.get("py"):
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 %s -B "$D/demo.py"\n' % s["py"])
    else:
        kit(d + "/kit.tgz")
        open(d + "/demo.cc", "w").write(s.get("pre", "") + PRE + s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH % s.get("group", "core"))
    os.chmod(d + "/demo.sh", 0o755)
    # builds and passes with the change (the build always reads /repo, so apply there)
    if sh("git -C /repo status --porcelain").stdout.strip():
        return "/repo is not clean"
    clean = sh("bash %s/demo.sh" % d, cwd="/repo")
    if clean.returncode:
        return "demo fails on the unchanged tree (%d): %s" % (clean.returncode, (clean.stdout + clean.stderr)[-3000:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        return "patch does not apply: " + r.stderr
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build: " + b.stdout[-2000:]
        out = "/tmp/plant-test.json"
        sh("bash /opt/vp/test.sh " + out)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(out))
        want = set(map(str, base.get("stable", base.get("passed", []))))
        if not want <= set(map(str, res["passed"])):
            return "stable tests fail: %s" % (want - set(map(str, res["passed"])))
        bad = sh("bash %s/demo.sh" % d, cwd="/repo")
        if bad.returncode in (0, 3):
            return "demo ended with %d on the changed tree: %s" % (bad.returncode, (bad.stdout + bad.stderr)[-3000:])
        msg = "ok demo(%d): %s" % (bad.returncode, (bad.stdout + bad.stderr).strip()[-150:])
        if check:
            c = sh("python3 checks/run.py %s" % s["property"], cwd=VERIF, timeout=900)
            hit = "VIOLATION property=%s " % s["property"] in c.stdout
            msg += " | CHECK %s rc=%d" % ("CAUGHT" if hit and c.returncode == 1 else "MISSED", c.returncode)
            if not hit:
                msg += " " + (c.stdout + c.stderr)[-800:]
        return msg + " (%.0fs)" % (time.time() - t0)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        for s in runpy.run_path(f)["SEEDS"]:
            if only and s["id"] not in only:
                continue
            print(s["id"], s["property"], one(s, "--check" in sys.argv), flush=True)
