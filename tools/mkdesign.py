#!/usr/bin/env python3
"""DESIGN.md: fixed text, and tables taken from properties.jsonl, bin/table.py, spec/, seeded/, known-findings.json"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from table import TABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = json.load(open(os.path.join(V, "known-findings.json")))["findings"]
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))}
def head(mod):
    out = []
    for l in open(os.path.join(V, "spec", mod + ".tla")).read().split("\n")[1:12]:
        if l.startswith("(*"): out.append(re.sub(r"\s+", " ", l.strip("(*) ")))
        elif out or not l.strip().startswith("("):
            if out: break
    return " ".join(out)
def cfg(c):
    t = open(os.path.join(V, "spec", c)).read()
    m = re.search(r"CONSTANTS?(.*?)(INVARIANT|PROPERT|CHECK_DEADLOCK|$)", t, re.S)
    return re.sub(r"\s+", " ", m.group(1)).strip() if m else ""
out = [open(os.path.join(V, "tools", "design-head.md")).read().rstrip(), ""]
W = out.append
text = {}
cur = None
for l in open(os.path.join(V, "tools", "design-props.md")):
    m = re.match(r"^## (\w\d\d)$", l.strip())
    if m: cur = m.group(1); text[cur] = []
    elif cur: text[cur].append(l.rstrip())
W("## Property by property\n")
W("*Machine*: what TLC explores exhaustively, with the bounds of the quick / thorough configuration.  *Episodes*: what is recorded from the real code and validated.  *Seeds*: planted bugs of this property, all of which its check reports.\n")
for p in props:
    i = p["id"]; t = TABLE.get(i)
    W("### %s — %s\n" % (i, p["title"]))
    for l in text.get(i, []): W(l)
    while out[-1] == "": out.pop()
    W("")
    if not t: W("Not claimed.\n"); continue
    for m in t.get("mc", []):
        c, ct = cfg(m["cfg"]), cfg(m.get("cfg_thorough", m["cfg"]))
        W("- *Machine* `%s` (%s%s): %s" % (m["module"], c or "no constants", "" if c == ct else " / " + ct, head(m["module"])))
    W("- *Oracle of the traces* `%s`: %s" % (t["trace"], head(t["trace"]) or "(the machine above, driven by the recorded events)"))
    r = t["rule"].rstrip("."); W("- *Episodes* (%s): %s." % (", ".join(sorted({d["src"] for d in t["drivers"]})), r))
    s = [k for k, m in seeds.items() if m["property"] == i]
    if s: W("- *Seeds*: " + ", ".join("`%s`" % k for k in s))
    W("")
W("## Genuine defects found\n")
W("All were first reported by a check on the original tree (or by writing the specification and failing to instantiate the real code for it), shown on the real code, and repaired in one minimal `fix:` commit each, unless marked known.  The same list, with keys, is in `known-findings.json`.\n")
for k in known: W("- %s %s: %s" % (k["property"], ("`%s`" % k["commit"]) if k["status"] == "fixed" else "**known, not repaired** (key `%s`)" % k["key"], k["what"]))
W("")
W("## Planted bugs\n")
W("Each is `seeded/<id>` with patch, demonstration and meta; every one compiles, passes the 4909 stable tests, and is reported by the check named.\n")
W("| id | check | what it needs in order to show |\n|---|---|---|")
for k, m in seeds.items(): W("| %s | %s | %s |" % (k, m["property"], re.sub(r"\s+", " ", m["needs"]).replace("|", "\\|")))
W("")
W(open(os.path.join(V, "tools", "design-tail.md")).read().rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
