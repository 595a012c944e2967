"""Writes properties.jsonl and MANIFEST.json from the list below.

A property is claimed when dst/checks/<id>.py exists; `na` holds the reasons of
the properties that are not claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe, level_note, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": observe, "hook_needed": None},
        "_note": level_note})


exec(open(os.path.join(V, "tools", "props.py")).read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "dst/checks", p["id"].lower() + ".py"))
            or p["id"] in NA]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in have:
        if p["id"] in NA:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over %s"
                         % ", ".join(p["quantifier"]["over"]),
            "level": "exploration", "level_note": p["_note"]})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())
                            if any(p["id"] == k for p in have)]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
