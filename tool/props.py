"""The one source of properties.jsonl and MANIFEST.json: python3 tool/props.py rewrites both."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

TECH = "abstract interpretation of clang's typed AST (path-sensitive heap and exception effects), rules on the summaries"
NOTE = ("Every path of the analysed member functions (and of the repository functions they call, in any file) is "
        "interpreted symbolically-abstractly over clang's type-checked AST, for arbitrary objects and arguments; the "
        "resulting effect summary is compared with the stated law. Trusted: clang's AST, the models of the standard "
        "library in nfa/stdmodels.py. A path the abstraction cannot decide is reported as undecided in the evidence, "
        "never as a violation.")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, claim=None, na=None, state=(), observe=(), note=None, tech=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    PROPS.append((d, na, note, tech))


def main():
    from nfa import rules
    ids = [d["id"] for d, _, _, _ in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for d, _, _, _ in PROPS:
            assert len(d["title"]) <= 80, d["title"]
            for a in d["anchors"]["files"]:
                assert os.path.exists("/repo/" + a), a
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, why, note, tech in PROPS:
        if why:
            na.append({"property": d["id"], "reason": why})
            continue
        if d["id"] not in rules.RULES:
            print("no rule yet:", d["id"])
            na.append({"property": d["id"], "reason": "no check built yet"})
            continue
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"],
                       "technique": tech or TECH, "level": "other", "level_note": note or NOTE})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Known and fixed defects: known_findings.txt. nfx (tool/) dumps clang's AST; "
                  "nfa/ interprets it."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props
    import props_core           # noqa: F401
    import props_fv             # noqa: F401
    import props_par            # noqa: F401
    import props_dsl            # noqa: F401
    import props_more           # noqa: F401
    props.main()
