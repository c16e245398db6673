"""Run the checks against planted bugs in scratch copies: trybugs.py [BUG[:PROP,...]] ..."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(spec):
    bid, _, props = spec.partition(":")
    meta = json.load(open(f"{V}/seeded/{bid}/meta.json"))
    props = props.split(",") if props else [meta["property"]]
    tmp = tempfile.mkdtemp(prefix="trybug-")
    res = []
    try:
        cp = tmp + "/repo"
        subprocess.run(f"mkdir {cp} && cp -a /repo/calkulate {cp}/ && cd {cp} && patch -s -p1 < {V}/seeded/{bid}/patch.diff",
                       shell=True, check=True)
        shutil.copytree(V, tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        for p in props:
            r = subprocess.run(["python3", tmp + "/verif/checks/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, CALK_REPO=cp))
            first = [x for x in r.stdout.splitlines() if "failing" in x][:1]
            res.append(f"{bid} {p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'BROKEN ' + r.stderr[-300:]} {first[0][:170] if first else ''}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return "\n".join(res)


specs = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded"))
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, specs):
        print(r, flush=True)
