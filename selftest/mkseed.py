#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from selftest/seeds.py and confirms each planted change in a
scratch copy of /repo (bind-mounted over /repo in a private mount namespace): it builds, passes the stable
tests, its demonstration succeeds without and fails with the change; then reports whether the check catches it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS        # noqa: E402

DEMO_SH = """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 {flags} -I"$d" -I/repo/include -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 \\
    "$d/demo.cpp" -L/repo/_build/lib -lNeoFOAM -Wl,-rpath,/repo/_build/lib -lpthread -o "$w/demo" || exit 3
cd "$w" && timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(s):
    d = tempfile.mkdtemp(prefix="nfs_")
    repo = d + "/repo"
    out = os.path.join(VERIF, "seeded", s["id"])
    try:
        sh("cp -a /repo " + repo)
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.cpp", "w") as f:
            f.write(s["demo"])
        for n, t in s.get("files", {}).items():
            os.makedirs(os.path.dirname(out + "/" + n), exist_ok=True)
            open(out + "/" + n, "w").write(t)
        with open(out + "/demo.sh", "w") as f:
            f.write(DEMO_SH.format(flags=s.get("flags", "")))
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        demo = d + "/demo"
        shutil.copytree(out, demo)
        ns = "unshare -m bash -c 'mount --bind %s /repo && cd /repo && " % repo
        r0 = sh(ns + "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh'" % demo)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "BADEDIT %s (%d)" % (f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C %s diff" % repo).stdout
        open(out + "/patch.diff", "w").write(diff)
        rb = sh(ns + "bash /opt/vp/test.sh %s/out.json'" % d)
        try:
            res = json.load(open(d + "/out.json"))
        except (OSError, ValueError):
            return s["id"], "NO TESTS " + rb.stderr[-800:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base["stable"]
        miss = set(stable) - set(res["passed"]) if isinstance(stable, list) else res["failed"]
        r1 = sh(ns + "bash %s/demo.sh'" % demo)
        rest = sh("cd %s && git checkout -q -- . && git apply --check %s/patch.diff" % (repo, out))
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            open(p, "w").write(t.replace(old, new))
        env = dict(os.environ, NF_REPO=repo, NF_EVIDENCE=d + "/ev", NF_CACHE=d + "/cache")
        c = subprocess.run([sys.executable, VERIF + "/check.py", s["prop"]], env=env, capture_output=True, text=True)
        caught = c.returncode == 1 and "VIOLATION property=%s " % s["prop"] in c.stdout
        valid = r0.returncode == 0 and r1.returncode not in (0, 3) and not miss and rest.returncode == 0
        msg = "%s %s" % ("valid" if valid else "INVALID", "caught" if caught else "MISSED")
        if not valid:
            msg += " r0=%d r1=%d miss=%s apply=%d %s" % (r0.returncode, r1.returncode, sorted(miss)[:3], rest.returncode,
                                                       (r0.stderr + r1.stderr)[-600:])
        if not caught:
            msg += "\n" + (c.stdout + c.stderr)[-800:]
        return s["id"], msg
    finally:
        shutil.rmtree(d)


def main():
    pat = sys.argv[1:]
    ss = [s for s in SEEDS if not pat or any(re.search(p, s["id"]) for p in pat)]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, ss):
            print("%-28s %s" % (i, m), flush=True)


main()
