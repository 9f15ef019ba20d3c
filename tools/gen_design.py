"""DESIGN.md = tools/design.md + planted bugs + findings and fixes"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(os.path.join(HERE, "tools", "design.md")).read()
res = json.load(open(os.path.join(HERE, "tools", "plant_results.json")))
out = ["## 4. Planted bugs (`seeded/`) and what catches them", "",
       "Each was verified in a scratch copy: applies, builds, passes the stable tests, demo fails with it and passes without it. \"Caught by\" lists the rules of the",
       "property's own check, then other checks that report it as well (where all checks were run).", "",
       "| plant | breaks | caught by | also |", "|---|---|---|---|"]
missed = []
for pid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", pid, "meta.json")))
    r = res.get(pid, {})
    own = r.get(meta["property"], {})
    hit = " ".join(own.get("rules", [])) if own.get("exit") == 1 else "**missed**"
    if own.get("exit") != 1:
        missed.append(pid)
    out.append("| %s | %s | %s | %s |" % (pid, meta["what_it_breaks"].replace("|", "/").replace("\n", " "), hit, " ".join(c for c in sorted(r) if c != meta["property"] and r[c]["exit"] == 1)))
out += ["", "Missed: %s." % (", ".join(missed) or "none"), "",
        "## 5. Findings", "", "Known findings (recorded, not repaired; `known_findings.json`, generated by `tools/gen_known.py`):", ""]
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out += ["* %s `%s` %s" % (f["property"], f["construct"], f["what"]) for f in kf["findings"]]
out += ["", "A repair would need another node name for NaN keys, i.e. a change of the file format for a key that is rarely meant; left to the maintainers.", "",
        "Repaired by `fix:` commits in /repo (a fixed entry suppresses nothing):", ""]
out += ["* " + x[len("fixed: "):] for x in kf["fixed"]]
open(os.path.join(HERE, "DESIGN.md"), "w").write(txt.replace("@@TABLE@@", "\n".join(out)))
