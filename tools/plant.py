"""Generates seeded/<id>/ from tools/bugs/<id>.txt. Format of a bug file:

property: C05
needs: ...
breaks: ...
file: src/private/X.cpp        (one or more of file/old/new groups)
<<<<
old text
====
new text
>>>>
demo:
C++ text of demo.cpp up to the end of the file
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "tools", "bugs")
REPO = "/repo"


def one(i):
    t = open(os.path.join(B, i + ".txt")).read()
    head, demo = t.split("\ndemo:\n", 1)
    meta = {k: re.search(r"^%s:\s*(.*)$" % k, head, re.M).group(1) for k in ("property", "needs", "breaks")}
    edits = re.findall(r"^file: (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n>>>>", head, re.M | re.S)
    assert edits, i
    w = "/tmp/plant-%s" % i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "--shared", REPO, w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
    shutil.rmtree(w)
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    for h in sorted(x for x in os.listdir(B) if x.endswith(".h")):
        if h == "common.h" or "\"%s\"" % h in demo:
            shutil.copy(os.path.join(B, h), os.path.join(d, h))
    for h in ("viz", "matio"):
        if '"%s.h"' % h in demo:
            shutil.copytree(B + "/" + h, d, dirs_exist_ok=True)
    shutil.copy(B + "/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"])


ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(B) if f.endswith(".txt"))
for i in ids:
    one(i)
    print("planted", i)
