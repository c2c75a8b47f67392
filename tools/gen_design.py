#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_tail.md, props.json, na.json, contracts and seeded."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(H + "/props.json")); NA = json.load(open(H + "/na.json"))
T = {j["id"]: j for j in map(json.loads, open(H + "/properties.jsonl"))}
o = []
for k, v in P.items():
    o.append("### %s %s\n" % (k, T[k]["title"]))
    o.append("*Contracts.* " + v["note"] + "\n")
    o.append("*Owned.* " + ", ".join("`%s`" % x for x in v.get("own", [])) + ("; lemmas " + ", ".join("`%s`" % x for x in v["laws"]) if v.get("laws") else "") + "\n")
    o.append("*Bounded companion.* " + v.get("bounded", "the functions are run by the real crate on enumerated and seeded inputs against an independent oracle") + ".\n")
    if v.get("assumptions"): o.append("*Assumed.* " + "; ".join(v["assumptions"]) + ".\n")
    if v.get("not_covered"): o.append("*Not covered.* " + "; ".join(v["not_covered"]) + ".\n")
    o.append("*Beyond the tests.* " + T[k]["why_tests_cant"] + "\n")
subst = []
for f in sorted(glob.glob(H + "/contracts/*.vrs")):
    for l in open(f):
        m = re.match(r"//@subst (.*)", l)
        if m: subst.append("* `%s`: `%s`" % (os.path.basename(f), m.group(1).strip()))
K = open(H + "/known_findings.txt").read()
R = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
seeds = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(f)); i = f.split("/")[-2]
    seeds.append((j["property"], "| %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), R.get(i, "not run"))))
tail = open(H + "/tools/design_tail.md").read()
for a, b in (("@SUBST@", "\n".join(subst) + "\n"), ("@PROPS@", "\n" + "\n".join(o)), ("@NA@", "\n".join("* **%s %s**: %s" % (k, T[k]["title"], v) for k, v in NA.items())),
             ("@NFIXED@", str(len(re.findall(r"(?m)^fixed:", K)))), ("@NOPEN@", str(len(re.findall(r"(?m)^open:", K)))), ("@SEEDS@", "\n".join(x[1] for x in sorted(seeds)) + "\n")):
    tail = tail.replace(a, b)
open(H + "/DESIGN.md", "w").write(open(H + "/tools/design_head.md").read() + tail)
