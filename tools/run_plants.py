"""run_plants.py [--all] [ids]: applies every planted bug to a scratch copy of /repo and runs its property's check (--all: every check);
results are kept in tools/plant_results.json, from which gen_design.py makes the table in DESIGN.md"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(HERE, "tools", "plant_results.json")
ALL = ["C%02d" % n for n in range(1, 23)]


def one(pid, everything):
    meta = json.load(open(os.path.join(HERE, "seeded", pid, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        shutil.copytree("/repo/hickle", d + "/repo/hickle", ignore=shutil.ignore_patterns("tests", "__pycache__"))
        shutil.copytree(os.path.join(HERE, "hk"), d + "/verif/hk", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(os.path.join(HERE, "known_findings.json"), d + "/verif")
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d + "/repo", os.path.join(HERE, "seeded", pid, "patch.diff")], check=True, cwd="/")
        out = {}
        for c in [meta["property"]] + [x for x in ALL if x != meta["property"]] if everything else [meta["property"]]:
            r = subprocess.run([sys.executable, "-m", "hk.run", c], cwd=d + "/verif", env=dict(os.environ, HICKLE_REPO=d + "/repo", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            rules = sorted({l.split("[")[1].split("]")[0] for l in r.stdout.splitlines() if "[" + c + "." in l and not l.startswith("KNOWN")})
            out[c] = dict(exit=r.returncode, rules=rules)
        return pid, meta["property"], out
    finally:
        shutil.rmtree(d)


def main():
    everything = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    with ThreadPoolExecutor(8) as ex:
        for pid, prop, out in ex.map(lambda p: one(p, everything), ids):
            old = res.get(pid, {}) if not everything else {}
            res[pid] = {**old, **out}
            print(pid, prop, out[prop]["exit"], " ".join(out[prop]["rules"]), "| also", " ".join(c for c in out if c != prop and out[c]["exit"]), flush=True)
    json.dump({k: res[k] for k in sorted(res) if os.path.isdir(os.path.join(HERE, "seeded", k))}, open(RES, "w"), indent=0)


main()
