#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, state=(), observe=(), note=""):
    assert len(title) <= 80, title
    P.append((pid, title, statement, over, quant, why, files, mechanism, state, observe, note))


exec(open(os.path.join(ROOT, "tools", "texts.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid, title, st, over, quant, why, files, mech, state, observe, note in P:
        f.write(json.dumps({
            "id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None}}) + "\n")

with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 tools/vp.py setup",
        "checks": [{
            "property": p[0],
            "quick_cmd": "python3 tools/vp.py check %s" % p[0],
            "thorough_cmd": "python3 tools/vp.py check %s --tier thorough" % p[0],
            "evidence_file": "evidence/%s.json" % p[0],
            "technique": "TLA+ specification checked with TLC; behaviours generated by TLC replayed into the real code"
                         + (" and recordings of the real code checked against the specification with TLC"
                            if p[0] in ("P01", "P02", "P03") else ""),
            "level": "model_checking",
            "level_note": p[10],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: everything is observed through the library's public interface, compiled from a mirror of "
                 "/repo's working tree (see DESIGN.md, 'Building').",
    }, f, indent=1)
    f.write("\n")
