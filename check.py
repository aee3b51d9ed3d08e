#!/usr/bin/env python3
"""check.py ID: decides one property statically from /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading                                   # noqa: E402
threading.stack_size(512 * 1024 * 1024)
from nfa.engine import Broken, load                # noqa: E402
from nfa.report import Report                      # noqa: E402
from nfa.absint import Undecided                   # noqa: E402


def run(pid, tier):
    from nfa import rules
    if pid not in rules.RULES:
        raise Broken("no rule for " + pid)
    rep = Report(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    for f in rules.RULES[pid]:
        try:
            f(rep)
        except Undecided as e:
            rep.limit = True
            rep.undecided("budget", f.__name__, "", str(e))
        except Broken as e:
            from nfa import engine
            sk = engine.skipped()
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if not sk and tb.tb_frame.f_code.co_filename.endswith("engine.py"):
                raise
            # an interface is gone, or a file outside the build does not parse: what rests on it cannot be decided
            rep.limit = True
            rep.undecided("parse", f.__name__, "", "%s%s" % (e, "; files that do not parse: " + "; ".join(sk) if sk else ""))
        except Exception as e:      # a construct the analysis cannot handle decides nothing
            rep.limit = True
            rep.undecided("limit", f.__name__, "", "%s: %s" % (type(e).__name__, traceback.format_exc()[-600:]))
    from nfa import engine
    for x in engine.skipped():
        print("%s: not parsed, and left out: %s" % (pid, x))
    return rep.finish()


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    rc = [2]

    def go():
        worst = 0
        for pid in ids:
            try:
                r = run(pid, tier)
            except Broken as e:
                print("%s: ANALYSIS BROKEN: %s" % (pid, e))
                r = 2
            worst = max(worst, r)
        rc[0] = worst
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
