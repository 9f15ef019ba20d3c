"""python3 -m hk.run <property id> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from . import base
    rep = base.Report(pid)
    status = 0
    err = None
    try:
        mod = importlib.import_module("hk.checks." + pid.lower())
        rep.doc = (mod.__doc__ or "").strip()
        mod.check(rep, tier)
    except base.Broken as e:
        err = "anchor missing: %s" % e
        status = 2
    except SyntaxError as e:
        err = "source does not parse: %s" % e
        status = 2
    except Exception:
        err = traceback.format_exc()
        status = 2
    kf = known()
    fresh, listed = [], []
    for v in rep.violations:
        hit = [f for f in kf["findings"] if f["property"] == pid and f["rule"] == v["rule"] and f["construct"] == v["construct"]]
        (listed if hit else fresh).append((v, hit))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    counts = {}
    for r, s, verdict in rep.obligations:
        c = counts.setdefault(r, {"holds": 0, "violated": 0, "not_decided": 0})
        c["holds" if verdict == "holds" else "violated" if verdict == "VIOLATED" else "not_decided"] += 1
    coverage = {
        "explanation": "Static analysis of /repo's current source: " + (rep.doc.split("\n\n")[0] if getattr(rep, "doc", "") else ""),
        "rules": rep.rules,
        "functions_analysed": sorted(rep.analysed),
        "functions": len(rep.analysed),
        "call_sites": len(rep.call_sites),
        "paths": rep.paths,
        "obligations": len(rep.obligations),
        "obligations_by_rule": counts,
        "discharged": sorted({"%s: %s" % (r, s) for r, s, v in rep.obligations if v == "holds"})[:400],
        "not_decided": sorted({"%s: %s (%s)" % (r, s, v) for r, s, v in rep.obligations if v.startswith("not decided")})[:100],
        "notes": rep.notes,
    }
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=coverage, wall_s=round(time.time() - t0, 3),
              violations=[dict(v, known=bool(h)) for v, h in fresh + listed])
    if err:
        ev["error"] = err
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v, h in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, h[0]["what"]))
    if fresh:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s, repeat with: cd %s && python3 -m hk.run %s\n\n" % (pid, HERE, pid))
            for v, _ in fresh:
                f.write("rule %s: %s\n  construct: %s\n  at: %s\n  %s\n" % (v["rule"], rep.rules.get(v["rule"], ""), v["construct"], v["location"], v["message"]))
                for t in v["trace"]:
                    f.write("    path: %s\n" % t)
                f.write("\n")
        for v, _ in fresh:
            print("%s [%s] %s: %s" % (v["location"], v["rule"], v["construct"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err or not any(v == "holds" for _, _, v in rep.obligations):
        sys.stderr.write((err or "nothing could be decided") + "\n")
        if not any(v == "holds" for _, _, v in rep.obligations):
            return status or 2
    und = sum(v.startswith("not decided") for _, _, v in rep.obligations)
    print("%s: %d obligations over %d functions, %d paths: holds%s (%.1f s)" % (pid, len(rep.obligations), len(rep.analysed), rep.paths, ", %d not decided" % und if und else "", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
