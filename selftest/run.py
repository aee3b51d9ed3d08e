#!/usr/bin/env python3
"""Development aid: applies source edits to scratch copies of /repo and runs the checks on them.

Each edit names the properties expected to report it (empty: an edit that keeps the behaviour, on
which every check has to stay quiet).  Not used by any check."""
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def edits():
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("edits_") and f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            out += m.EDITS
    return out


def one(e, props, build):
    name, changes, expect = e
    d = tempfile.mkdtemp(prefix="nfm_")
    try:
        repo = os.path.join(d, "repo")
        os.mkdir(repo)
        for x in ("include", "src"):
            shutil.copytree("/repo/" + x, repo + "/" + x)
        for f, old, new in changes:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "BADEDIT %s" % f, "", expect
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        # the scratch copy is laid over /repo in a mount namespace of its own, so that the exports of
        # translation units the edit does not touch can be shared
        cache = os.path.join(d, "cache")
        if os.path.isdir(os.path.join(VERIF, "build", "cache")):
            shutil.copytree(os.path.join(VERIF, "build", "cache"), cache, copy_function=os.link)
        env = dict(os.environ, NF_EVIDENCE=os.path.join(d, "ev"), NF_CACHE=cache)
        got = {}
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", 'mount --bind "$1" /repo && shift && exec "$@"', "-", repo,
                            sys.executable, os.path.join(VERIF, "check.py")] + props, env=env, capture_output=True, text=True)
        txt = r.stdout + r.stderr
        viol = set(re.findall(r"VIOLATION property=(\w+)", txt))
        broken = re.findall(r"ANALYSIS BROKEN.*", txt)
        und = re.findall(r"(\w+): \d+ obligations, \d+ discharged, ([1-9]\d*) undecided", txt)
        detail = "\n".join(l for l in txt.splitlines() if l.startswith("  "))
        if broken or (r.returncode not in (0, 1)):
            return name, "BROKEN", txt[-1500:], expect
        if os.environ.get("NF_PARSED") and "not parsed" in txt:
            return name, "UNPARSED", "error: ", expect
        return name, viol, (und, detail), expect
    finally:
        shutil.rmtree(d)


def main():
    pat = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    sys.path.insert(0, VERIF)
    from nfa import rules
    core = set(os.environ.get("NF_PROPS", "").split(",")) - {""}
    props = sorted(core or rules.RULES)
    es = [e for e in edits() if not pat or any(re.search(p, e[0]) for p in pat)]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for name, viol, info, expect in ex.map(lambda e: one(e, props, False), es):
            if isinstance(viol, str):
                print("%-28s %s %s" % (name, viol, info))
                bad += 1
                continue
            exp = set(expect)
            und, detail = info
            if not exp:
                state = "quiet" if not viol else "FALSE ALARM " + ",".join(sorted(viol))
            elif viol & exp:
                state = "caught by " + ",".join(sorted(viol))
            else:
                state = "MISSED (expected %s, got %s)" % (",".join(sorted(exp)), ",".join(sorted(viol)) or "nothing")
            if not state.startswith(("quiet", "caught")):
                bad += 1
            print("%-28s %s%s" % (name, state, "  undecided: " + ",".join("%s:%s" % u for u in und) if und else ""))
            if verbose or state.startswith(("FALSE", "MISSED")):
                print(detail[:1500])
    print("%d edits, %d unexpected" % (len(es), bad))


if __name__ == "__main__":
    main()
