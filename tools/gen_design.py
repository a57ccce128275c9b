#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property from claims.py, properties.jsonl and seeded/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/claims.py").read(), ns)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = json.load(open(V + "/known_findings.json"))
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in ns["CLAIMS"]:
        t, note = ns["CLAIMS"][i]
        out.append("*Method:* %s. *Anchors:* %s." % (t, ", ".join("`%s`" % f for f in p["anchors"]["files"])))
        out.append("*What is decided:* " + note.replace(ns["TRUST"], "").replace(ns["PYTRUST"], "").strip())
        out.append("*Quantifier:* %s. *Beyond tests:* %s" % (p["quantifier"]["text"], p["why_tests_cant"]))
        fx = [f for f in known["fixed"] if "property=%s " % i in f]
        if fx:
            out.append("*Defects found and repaired:* " + "; ".join(f.split("property=%s " % i)[1] for f in fx) + ".")
        for f in known["findings"]:
            if f["property"] == i:
                out.append("*Known finding:* " + f["what"] + ".")
        if i in seeds:
            out.append("*Planted bugs, each caught by this check:* " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in seeds[i]) + ".")
        else:
            out.append("*Planted bugs:* in the battery only" + (" (the anchored modules do not link in this sandbox, so no demonstration can run)." if i in ("C19", "C21", "C23", "C08") else "."))
    else:
        out.append("Not applicable: " + ns["NA"].get(i, "no check yet."))
    out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines")
