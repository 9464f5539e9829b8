#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one table.

Run by hand after editing the table; the three files are committed.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

TECH = ("bounded symbolic execution of the compiled crate (Kani/CBMC, SAT decides every assertion), "
        "counterexamples replayed natively")


def P(id, title, statement, over, text, why, files, mech, bounds, note, crate="core", observe=None, timeout=None,
      level="model_checking", state=None, **cfg):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["hook_needed"] = None
    c = {"crate": crate, "bounds": bounds, "level": level}
    if timeout:
        c["timeout"] = timeout
    c.update(cfg)
    PROPS.append(({"id": id, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": anchors}, c, note))


def N(prop, reason):
    NA.append((prop, reason))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        # "at most three sentences"
        n = sum(p["statement"].count(x) for x in (". ", "; ")) + 1
        assert p["statement"].count(". ") <= 2, (p["id"], n)
        f.write(json.dumps(p) + "\n")
    for p, reason in NA:
        f.write(json.dumps(p) + "\n")
json.dump({p["id"]: c for p, c, _ in PROPS}, open(os.path.join(V, "checks.json"), "w"), indent=1)
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH,
        "level": c["level"],
        "level_note": note + " Bounds: " + c["bounds"] +
        " Trusted: Kani/CBMC/CaDiCaL and the model of the `trackable` crate (error kinds kept, messages dropped).",
    } for p, c, note in PROPS],
    "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
    "notes": "No hooks: the harness crates under harness/ use only bytecodec's public API.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
