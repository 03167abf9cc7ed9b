"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, **({"state": state} if state else {}), observe_at=observe),
                  _technique=technique, _note=note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

TECH = "bounded symbolic execution of the real functions (z3 proxies, path forking, SMT verdict per path)"
NOTE = "Every assertion is decided by z3 for all values within the bounds listed in the evidence file; counterexamples are replayed on the unpatched code. Trusted: z3, CPython, pytket, the listed stand-ins; floats are read as reals."
if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes": "See DESIGN.md. known_findings.txt lists recorded and fixed defects."}
    for p in have:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
                            "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": p["_technique"] or TECH,
                            "level": "model_checking", "level_note": p["_note"] or NOTE})
    for p in P:
        if p not in have:
            m["not_applicable"].append({"property": p["id"], "reason": "no check is registered for it yet"})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "checks of", len(P))
