#!/usr/bin/env python3
"""Rewrites the generated table in DESIGN.md from units/ and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
na = json.load(open(os.path.join(V, "not_applicable.json")))
out = ["<!-- generated by gen_design.py -->"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    d = os.path.join(V, "units", p["id"])
    fs = sorted(f for f in os.listdir(d) if f.endswith(".c")) if os.path.isdir(d) else []
    if not fs: out.append("Not claimed: " + na.get(p["id"], "no contract for the functions this property depends on has been discharged yet") + "."); continue
    for f in fs:
        t = open(os.path.join(d, f)).read()
        kv = {}
        for k, v in re.findall(r"^//@ ([\w-]+): *(.*)$", t, re.M): kv.setdefault(k, []).append(v)
        n = len(kv.get("variant", [1]))
        kind = kv.get("kind", ["proof"])[0]
        out.append("* `%s` (%s%s): %s.%s%s%s" % (f[:-2], kind, ", %d variants" % n if n > 1 else "", kv["desc"][0].rstrip("."),
            " *Functions:* " + ", ".join(" ".join(kv.get("functions", [""])).split()) + ".",
            " *Bound:* " + kv["bound"][0] + "." if "bound" in kv else "",
            " *Assumed:* " + "; ".join(kv["trusted"]) + "." if "trusted" in kv else ""))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
i = s.find("<!-- generated by gen_design.py -->"); j = s.find("<!-- end generated -->")
body = "\n".join(out) + "\n<!-- end generated -->"
if i < 0: s = s.replace("@TABLE@", body)
else: s = s[:i] + body + s[j + len("<!-- end generated -->"):]
open(p, "w").write(s)
