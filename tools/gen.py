"""python3-vt tools/gen.py: writes properties.jsonl and MANIFEST.json from dpa/rules/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dpa.rules.registry import RULES, NA

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, r in sorted(list(RULES.items()) + list(NA.items())):
        assert len(r["title"]) <= 80, (pid, len(r["title"]))
        f.write(json.dumps({
            "id": pid, "title": r["title"], "statement": r["statement"], "quantifier": {"over": r["over"], "text": r["qtext"]},
            "why_tests_cant": r["why"],
            "anchors": {"files": r["files"], "state": r["state"], "mechanism": r["mech"], "observe_at": r["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt -m dpa.frontend",
     "checks": [{"property": pid, "quick_cmd": "python3-vt -m dpa.check %s" % pid, "thorough_cmd": "python3-vt -m dpa.check %s --tier thorough" % pid,
                 "technique": r["technique"], "level": "other", "level_note": r["note"]} for pid, r in sorted(RULES.items())],
     "not_applicable": [{"property": pid, "reason": r["reason"]} for pid, r in sorted(NA.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

H = open(os.path.join(V, "tools", "design_head.md")).read()
out = [H, "## 2. Properties\n"]
for pid, r in sorted(RULES.items()):
    out += ["### %s — %s\n" % (pid, r["title"]), r["statement"] + "\n",
            "* *Decided by*: " + r["technique"] + ". " + r["rule"], "* *Bounds*: " + r["note"] + ".",
            "* *Why tests cannot*: " + r["why"] + ".", "* *Assumes*: " + " ".join(r["assumptions"]), "* *Module*: `dpa/rules/%s.py`\n" % r["module"]]
out += ["## 3. Not applicable to this family\n"]
for pid, r in sorted(NA.items()):
    out.append("* **%s — %s**: %s" % (pid, r["title"], r["reason"]))
if not NA:
    out.append("None of the properties listed.")
out += ["\n## 4. Genuine defects found\n", "Each was confirmed on the code (the differing value graph names the entry, and the function was read), repaired by a `fix:` commit in /repo, "
        "and the 18 stable tests pass with all of them.\n"]
for line in open(os.path.join(V, "known-findings.txt")):
    if line.startswith("fixed:"):
        p, c, t = line.split(" ", 3)[1:]
        out.append("* `%s` (%s): %s" % (c, p.split("=")[1], t.strip()))
    elif line.startswith("finding:"):
        out.append("* recorded, not repaired: " + line.split(" ", 1)[1].strip())
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("## 7. Planted bugs\n\nEach compiles, passes the existing tests and comes with a demonstration; `tools/bugs/*.txt` is the source and `tools/trybug.sh` confirms them. "
           "All are caught by the check of their property unless said otherwise.\n")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    mj = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(mj):
        m = json.load(open(mj))
        out.append("* `%s` (%s): %s. Needs: %s." % (d, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
