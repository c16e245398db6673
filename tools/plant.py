"""Keep a planted bug: plant.py SPECFILE  (a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)

EDITS: list of (file, old, new).  Confirms in scratch copies of /repo that the
patch applies, the stable tests pass, and the demo fails only with the patch.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main(path):
    g = runpy.run_path(path)
    bid = g["ID"]
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        cp = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {cp}", "/")
        for f, old, new in g["EDITS"]:
            p = os.path.join(cp, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{bid}: edit of {f} matches {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cp).stdout
        # lines removed must be of the original repository
        dem = os.path.join(tmp, "demo")
        os.makedirs(dem)
        open(os.path.join(dem, "demo.py"), "w").write(g["DEMO"])
        with open(os.path.join(dem, "demo.sh"), "w") as f:
            f.write('#!/bin/sh\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = sh(f"sh {dem}/demo.sh", "/repo", timeout=280)
        r1 = sh(f"sh {dem}/demo.sh", cp, timeout=280)
        if r0.returncode != 0:
            return f"{bid}: demo fails on the unchanged tree\n{r0.stdout[-800:]}{r0.stderr[-1500:]}"
        if r1.returncode == 0:
            return f"{bid}: demo does not see the bug"
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -15", cp,
               env=dict(os.environ, PYTHONPATH=cp, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"), timeout=600)
        last = [x for x in t.stdout.splitlines() if "passed" in x or "failed" in x]
        if not last or "33 passed" not in last[-1] or "failed" in last[-1]:
            return f"{bid}: tests: {t.stdout[-600:]}"
        out = os.path.join(V, "seeded", bid)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dem, out, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return f"{bid}: kept ({r1.stderr.strip().splitlines()[-1][:120] if r1.stderr.strip() else r1.stdout[-100:]})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for p in sys.argv[1:]:
    print(main(p))
