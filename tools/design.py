"""DESIGN.md from tools/design_text.md: fills in the harnesses, fixes and planted bugs of each property.
Run: /opt/venv/bin/python tools/design.py"""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
bugs = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
fixes = {}
for line in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        fixes.setdefault(m[1], []).append((m[2], m[3]))


def section(pid):
    mod = importlib.import_module("checks." + pid.lower())
    out = ["", "| harness | bounds (what lies beyond them is outside the claim) |", "|---|---|"]
    for h in mod.HARNESSES:
        st = f" Stand-in: {'; '.join(h.stubs)}." if h.stubs else ""
        out.append(f"| `{h.name}` | {h.bounds}{st} |")
    out += ["", "Assumptions: " + "; ".join(mod.ASSUMPTIONS) + "."]
    if pid in fixes:
        out += ["", "Repaired: " + "; ".join(f"{w} (`{c}`)" for c, w in fixes[pid]) + "."]
    if pid in bugs:
        out += ["", "Planted, caught: " + "; ".join(f"`{b}` ({m['what_it_breaks']})" for b, m in bugs[pid]) + "."]
    return "\n".join(out)


text = open(os.path.join(HERE, "tools", "design_text.md")).read()
titles = {json.loads(x)["id"]: json.loads(x)["title"] for x in open(os.path.join(HERE, "properties.jsonl"))}
for pid in titles:
    assert "{{%s}}" % pid in text, pid
text = re.sub(r"^### (Q\d+)$", lambda m: f"### {m[1]} {titles[m[1]]}", text, flags=re.M)
text = re.sub(r"\{\{(Q\d+)\}\}", lambda m: section(m[1]), text)
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
