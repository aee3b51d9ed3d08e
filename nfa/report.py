"""Obligations, verdicts, known findings and the evidence file of one property."""
import json
import os
import time

from .engine import VERIF, Broken

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[7:].split(" | ")
                d = dict(p.split("=", 1) for p in parts[0].split())
                out.setdefault(d["property"], {})[d["key"]] = parts[1] if len(parts) > 1 else ""
    except OSError:
        pass
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obl = []         # dicts
        self.fns = {}
        self.rules = {}
        self.assumptions = []
        self.minimum = {}     # rule -> least number of instances
        self.paths = 0
        self.labs = []
        self.limit = False

    def note_fn(self, f):
        self.fns[f.q + "@" + f.where] = 1

    def rule(self, rid, text, least=1):
        self.rules[rid] = text
        self.minimum[rid] = least

    def ok(self, rid, what, site=""):
        self.obl.append({"rule": rid, "what": what, "site": site, "st": "ok"})

    def undecided(self, rid, what, site="", why=""):
        self.obl.append({"rule": rid, "what": what, "site": site, "st": "undecided", "why": why})

    def bad(self, rid, what, site, detail="", path=(), key=None):
        """key: stable identity used for the known-findings file"""
        self.obl.append({"rule": rid, "what": what, "site": site, "st": "violated", "detail": detail,
                         "path": list(path), "key": key or (rid + ":" + what)})

    def finish(self):
        counts = {}
        for o in self.obl:
            counts[o["rule"]] = counts.get(o["rule"], 0) + 1
        for r, least in self.minimum.items():
            if counts.get(r, 0) < least and not self.limit:
                raise Broken("rule %s matched %d instances, at least %d expected" % (r, counts.get(r, 0), least))
        known = known_findings().get(self.prop, {})
        viol, kn = [], []
        for o in self.obl:
            if o["st"] != "violated":
                continue
            k = o["key"].replace(" ", "_")
            (kn if k in known else viol).append(o)
        nk = {o["key"].replace(" ", "_") for o in kn}
        ok = sum(1 for o in self.obl if o["st"] == "ok")
        und = [o for o in self.obl if o["st"] == "undecided"]
        samples = [{"rule": o["rule"], "obligation": o["what"], "site": o["site"], "verdict": o["st"]}
                   for o in self.obl[:3] + self.obl[len(self.obl) // 2:len(self.obl) // 2 + 3] + self.obl[-2:]]
        for lab in self.labs:
            for f in lab.I.covered:
                f = lab.P.funcs.get(f, f) if isinstance(f, str) else f
                if hasattr(f, "q") and lab.P.repo in (f.file or ""):
                    self.note_fn(f)
        seen = []
        for s in samples:
            if s not in seen:
                seen.append(s)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source: each obligation applies one rule to one "
                               "construct (function, call site, path or class).",
                "obligations": len(self.obl), "discharged": ok,
                "undecided": len(und),
                "rules": self.rules,
                "obligations_per_rule": counts,
                "functions_analysed": sorted(self.fns),
                "paths": self.paths,
                "undecided_list": [{k: o.get(k) for k in ("rule", "what", "site", "why")} for o in und][:60],
                "all_obligations": ["%s | %s | %s | %s" % (o["st"], o["rule"], o["what"], o["site"]) for o in self.obl][:600],
                "samples": seen,
                "exhaustive": not und,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        evdir = os.environ.get("NF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, self.prop + ".json")
        rp = os.path.join(evdir, self.prop + ".violations.txt")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        if os.path.exists(rp):
            os.unlink(rp)
        for k in sorted(nk):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k] or k))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %d functions" % (
            self.prop, len(self.obl), ok, len(und), len(viol), len(kn), len(self.fns)))
        if viol:
            with open(rp, "w") as f:
                for o in viol:
                    f.write("rule %s: %s\n" % (o["rule"], self.rules.get(o["rule"], "")))
                    f.write("  construct: %s\n  obligation: %s\n  found: %s\n" % (o["site"], o["what"], o["detail"]))
                    for p in o["path"]:
                        f.write("    path: %s\n" % p)
                    f.write("  key: %s\n\n" % o["key"].replace(" ", "_"))
            for o in viol[:10]:
                print("  %s %s: %s -- %s" % (o["site"], o["rule"], o["what"], o["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        return 0
