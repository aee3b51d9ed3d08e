#!/usr/bin/env python3
"""Development aid: first-order mutants of source files, and which of them the checks report.

usage: mutate.py PROPS FILE... ; NF_PROPS=C01,... restricts the checks.  Mutants that do not compile
(as the analysis sees it) are dropped.  Not used by any check."""
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

SWAPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" < ", " > "), (" <= ", " < "), (" > ", " >= "), (" > ", " < "), (" >= ", " > "), ("&&", "||"), ("||", "&&"),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("++", "--"), ("--", "++"), ("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*="), ("true", "false"), ("false", "true"),
         (".begin()", ".end()"), (".end()", ".begin()"), (".first", ".second"), (".second", ".first"), (".at(", "[@("), ("!", ""), ("insert_or_assign", "emplace"), ("emplace", "insert_or_assign"),
         (".size()", ".size() + 1"), (".size()", ".size() - 1"), ("std::move(", "("), ("continue;", "break;"), ("break;", "continue;"), ("nullptr", "this"),
         ("std::max", "std::min"), ("std::min", "std::max"), (" + 1", ""), (" - 1", ""), ("front()", "back()"), ("back()", "front()"), ("&& ", "&& !"), ("if (", "if (!("), ("throw ", "return; throw "),
         ("[i]", "[i + 1]"), ("[0]", "[1]"), ("const auto&", "auto"), (" & ", " | "), ("type()", "name()"), ("name()", "type()"), ("name", "key"), ("key", "name"), ("own", "neigh"), ("owner", "neighbour"), ("neighbour", "owner")]
NUM = re.compile(r"(?<![\w.\"])(\d+(?:\.\d+)?)(?![\w.\"])")


def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    incomment = False
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        if incomment:
            if "*/" in code:
                incomment = False
            continue
        if code.strip().startswith("/*"):
            incomment = "*/" not in code
            continue
        s = code.strip()
        if not s or s.startswith(("#", "*", "template", "using ", "namespace", "class ", "struct ", "public", "private", "protected")):
            continue
        seen = set()

        def out(new, what):
            if new != l and new not in seen:
                seen.add(new)
                return [("%s:%d %s" % (f.rsplit("/", 1)[-1], n + 1, what), n, new)]
            return []
        for a, b in SWAPS:
            i = code.find(a)
            while i >= 0:
                if a == "!" and code[i:i + 2] == "!=" or a in ("==",) and code[i:i + 3] == "===":
                    i = code.find(a, i + 1)
                    continue
                if a in ("own", "owner", "neighbour") and not re.match(r"\b%s\b" % a, code[i:]):
                    i = code.find(a, i + 1)
                    continue
                new = code[:i] + b + code[i + len(a):]
                if b == "[@(":
                    j = balanced(code, i + 3)
                    new = None if j is None else code[:i] + "[" + code[i + 4:j] + "]" + code[j + 1:]
                if b == "if (!(":
                    j = balanced(code, i + 3)
                    new = None if j is None else code[:i] + "if (!(" + code[i + 4:j] + "))" + code[j + 1:]
                if new is not None:
                    yield from out(new, "`%s` -> `%s` @%d" % (a.strip(), b.strip(), i))
                i = code.find(a, i + 1)
        for m in NUM.finditer(code):
            v = m.group(1)
            for w in (("1" if v == "0" else "0", "2" if v == "1" else None) if "." not in v else ("0.0" if float(v) else "1.0",)):
                if w:
                    yield from out(code[:m.start()] + w + code[m.end():], "%s -> %s" % (v, w))
        # statements left out
        if s.endswith(";") and not s.startswith(("return", "}", "const auto", "auto ", "using", "typedef")) and s.count("(") == s.count(")"):
            yield from out(code[:len(code) - len(code.lstrip())] + ";", "deleted")
        # two arguments swapped
        for m in re.finditer(r"\(([\w.>\-\[\]]+), ([\w.>\-\[\]]+)\)", code):
            yield from out(code[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + code[m.end():], "arguments swapped")
        for m in re.finditer(r"\{([\w.>\-\[\]]+), ([\w.>\-\[\]]+)\}", code):
            yield from out(code[:m.start()] + "{%s, %s}" % (m.group(2), m.group(1)) + code[m.end():], "elements swapped")
        # initialisers
        for m in re.finditer(r"(\w+_)\(([^()]+)\)", code):
            yield from out(code[:m.start()] + m.group(1) + "()" + code[m.end():], "initialiser emptied")


def balanced(s, i):
    d = 0
    for j in range(i, len(s)):
        d += {"(": 1, ")": -1}.get(s[j], 0)
        if d == 0:
            return j
    return None


def compiles(f, n, new):
    lines = open("/repo/" + f).read().split("\n")
    lines[n] = new
    return "\n".join(lines)


def one(job, props):
    f, (name, n, new) = job
    old = "\n".join(open("/repo/" + f).read().split("\n"))
    src = compiles(f, n, new)
    # the edit as a whole-file replacement
    r = run.one((name, [(f, old, src)], ["C00"]), props, False)
    return name, new.strip(), r


def main():
    os.environ["NF_PARSED"] = "1"
    def props(f):
        """the properties anchored in the file, or those asked for"""
        if os.environ.get("NF_PROPS"):
            return sorted(set(os.environ["NF_PROPS"].split(",")))
        import json
        ps = [json.loads(l) for l in open(os.path.join(run.VERIF, "properties.jsonl"))]
        return sorted(p["id"] for p in ps if f in p["anchors"]["files"]) or sorted(p["id"] for p in ps)
    for f in sys.argv[1:]:
        print(f, " ".join(props(f)))
    jobs = [(f, m) for f in sys.argv[1:] for m in mutants(f)]
    print(len(jobs), "mutants", flush=True)
    k = {"caught": 0, "uncompilable": 0, "MISSED": 0}
    with ThreadPoolExecutor(int(os.environ.get("NF_JOBS", "7"))) as ex:
        for name, new, (_, viol, info, _) in ex.map(lambda j: one(j, props(j[0])), jobs):
            if isinstance(viol, str):
                st = "uncompilable"
                if "error:" not in info and "rror" not in info:
                    print("BROKEN", name, info[-300:])
            elif viol:
                st = "caught"
            else:
                st = "MISSED"
                print("MISSED %s   %s   %s" % (name, new[:150], ",".join("%s:%s" % u for u in info[0])), flush=True)
            k[st] += 1
    print(k)


if __name__ == "__main__":
    main()
