"""python3 tools/plant.py [ids...]: build seeded/<id>/ from tools/plants.py, verifying each bug in a scratch copy.

Not used by any check."""
import difflib, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '#!/bin/sh\n# exit 0: property held, nonzero: broken.  Run with cwd = repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''import gc, os, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np, h5py, hickle
from hickle import lookup, helpers
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP, True)
def P(name): return os.path.join(TMP, name)
def fail(msg): print("FAIL", msg); sys.exit(1)
def roundtrip(obj, **kw):
    p = P("rt.hkl")
    hickle.dump(obj, p, mode="w", **kw)
    return hickle.load(p)
def module(name, code):
    with open(P(name + ".py"), "w") as f: f.write(code)
    if TMP not in sys.path: sys.path.insert(0, TMP)
    import importlib; importlib.invalidate_caches()
    return importlib.import_module(name)
'''


def tests(repo):
    w = tempfile.mkdtemp(prefix="plant-test")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", TMPDIR=w)
    bad = []
    for extra in ([], ["--enable-compression"]):
        r = subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x"] + extra, cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            bad.append(r.stdout[-600:])
    shutil.rmtree(w, True)
    return bad


def main(ids):
    for p in PLANTS:
        out = os.path.join(VERIF, "seeded", p["id"])
        if ids and p["id"] not in ids or not ids and os.path.exists(out):
            continue
        scratch = tempfile.mkdtemp(prefix="plant")
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo)
        patch = ""
        try:
            files = {}
            for f, old, new in p["edits"]:
                path = os.path.join(repo, "hickle", f)
                files.setdefault(f, open(path).read())
                s = open(path).read()
                assert s.count(old) == 1, (p["id"], f, s.count(old), old)
                open(path, "w").write(s.replace(old, new))
            for f in files:
                patch += subprocess.run(["git", "diff", "--", "hickle/" + f], cwd=repo, capture_output=True, text=True).stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(patch)
            open(os.path.join(out, "demo.py"), "w").write(HEAD + p["demo"])
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            clean = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
            broken = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd=repo, capture_output=True, text=True)
            bad = tests(repo)
            ok = clean.returncode == 0 and broken.returncode != 0 and not bad
            msg = "" if ok else "clean=%s broken=%s tests=%s\n%s" % (clean.returncode, broken.returncode, bad, (clean.stdout + clean.stderr)[-500:])
            caught = []
            env = dict(os.environ, HICKLE_REPO=repo)
            for c in p.get("run", [p["property"]]):
                if os.path.exists(os.path.join(VERIF, "hk", "checks", c.lower() + ".py")):
                    r = subprocess.run(["python3", "-m", "hk.run", c], cwd=VERIF, env=env, capture_output=True, text=True)
                    caught.append("%s:%d" % (c, r.returncode))
            print(p["id"], "OK" if ok else "REJECTED", caught, broken.stdout.strip()[-150:] or broken.stderr.strip()[-150:], msg, flush=True)
            if not ok:
                shutil.rmtree(out)
        finally:
            shutil.rmtree(scratch)


main(sys.argv[1:])
