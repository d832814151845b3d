"""Writes sections 4 and 5 of DESIGN.md (fixes, planted bugs) from
known_findings.json and seeded/*/meta.json.  usage: tools/py tools/mkdesign.py"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(H + "/DESIGN.md").read()
a, b = "<!-- begin generated -->", "<!-- end generated -->"
out = ["", "## 4. Defects found and repaired", "",
       "Every entry was found by the named check on the original tree, or "
       "while writing it, and is a `fix:` commit in /repo; the check reports "
       "it again if it returns. There are no open findings.", "",
       "| property | commit | what failed |", "|---|---|---|"]
k = json.load(open(H + "/known_findings.json"))
for e in k["findings"]:
    if e["status"] == "fixed":
        out.append("| %s | %s | %s |" % (e["property"], e.get("commit", "")[:8],
                   e.get("what", "").replace("|", "/").replace("\n", " ")))
out += ["", "## 5. Planted bugs", "",
        "Each lies in `seeded/`, was written from the text of a property and "
        "the code, and was confirmed in a scratch copy (tests pass, "
        "demonstration differs). `tools/py tools/plant.py ID --check` repeats "
        "that and runs the property's check. All are caught by the quick "
        "check of their property.", "",
        "| bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)),
               m["property"], " ".join(str(m["needs"]).split()).replace("|", "/")))
out.append("")
i, j = txt.index(a) + len(a), txt.index(b)
open(H + "/DESIGN.md", "w").write(txt[:i] + "\n".join(out) + txt[j:])
