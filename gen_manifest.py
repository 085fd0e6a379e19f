#!/usr/bin/env python3
"""Writes MANIFEST.json from units/ and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
na = json.load(open(os.path.join(V, "not_applicable.json")))
checks, notapp = [], []
for p in props:
    d = os.path.join(V, "units", p["id"])
    files = sorted(f for f in os.listdir(d) if f.endswith(".c")) if os.path.isdir(d) else []
    if not files:
        notapp.append({"property": p["id"], "reason": na.get(p["id"], "no contract for the functions this property depends on has been discharged yet")}); continue
    proofs, bounds, trusted, fns = 0, [], [], set()
    for f in files:
        t = open(os.path.join(d, f)).read()
        kind = (re.findall(r"^//@ kind: *(\w+)", t, re.M) or ["proof"])[0]
        vs = re.findall(r"^//@ variant: *(.*)$", t, re.M) or [""]
        for v in vs:
            k = (re.findall(r"kind=(\w+)", v) or [kind])[0]
            if k == "proof": proofs += 1
            else:
                b = (re.findall(r"bound=(\S+)", v) or re.findall(r"^//@ bound: *(.*)$", t, re.M) or ["?"])[0].replace(",", " ")
                if b not in bounds: bounds.append(b)
        for x in re.findall(r"^//@ trusted: *(.*)$", t, re.M):
            for y in x.split(";"):
                if y.strip() and y.strip() not in trusted: trusted.append(y.strip())
        for x in re.findall(r"^//@ functions: *(.*)$", t, re.M): fns.update(x.split())
    note = "Contracts on %d real functions; " % len(fns)
    note += ("%d unit(s) hold for all inputs of the stated shape and all iterations (complete unwinding or loop contracts)" % proofs) if proofs else "no unit is unbounded"
    if bounds: note += "; bounded stand-ins (not counted as proved): " + "; ".join(bounds[:8]) + ("; ..." if len(bounds) > 8 else "")
    if trusted: note += ". Assumed: " + "; ".join(trusted)
    note += ". malloc does not fail; sequential execution unless the unit says otherwise."
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " --tier thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "contract-based deductive verification of the real C code (CBMC code contracts: goto-cc, goto-instrument --dfcc, cbmc), counterexamples replayed natively",
                   "level": "proof" if proofs else "other", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -c \"import shutil; assert all(shutil.which(x) for x in ('cbmc','goto-cc','goto-instrument','gcc'))\"", "checks": checks, "not_applicable": notapp,
     "notes": "No hooks in /repo are needed: contracts live in units/ and are compiled together with /repo's current sources on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(notapp), "not applicable")
