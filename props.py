#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os

GVN = "gated value numbering over the syntax tree, compared with a reference value"
NOTE = ("Every obligation is decided for all inputs of the anchored functions (real arithmetic, numpy/scipy as documented). "
        "An edit whose value the analysis cannot model is reported as undecided in the evidence, not as a violation.")


def P(id, title, statement, over, text, why, files, mech, observe=(), technique=GVN, note=NOTE, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), technique=technique, note=note, na=na)


PROPS = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "state": [], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"],
        })
    json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
               "notes": "All checks parse /repo/freegs and never import or execute it; only the Python standard library is used."},
              open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
