"""Common machinery of the checks: TLC runs, driver runs, verdicts, evidence.

Runs under any Python 3 (standard library only).  The code under test is only
imported by harness/worker.py, which runs under the repository's own Python.
"""

import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CALK_REPO", "/repo")
PY = os.environ.get("CALK_PYTHON", "/opt/venv/bin/python")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def build_java():
    """Compile java/*.java into build/ unless it is up to date."""
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    outs = [os.path.join(BUILD, os.path.basename(s)[:-5] + ".class") for s in srcs]
    newest = max(os.path.getmtime(s) for s in srcs)
    if all(os.path.exists(o) and os.path.getmtime(o) >= newest for o in outs):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="javac-", dir=BUILD)
    try:
        r = subprocess.run(
            ["javac", "-nowarn", "-cp", f"{JAR}:{DEPS}", "-d", tmp, *srcs],
            capture_output=True, text=True,
        )
        if r.returncode:
            raise MachineryError("javac failed:\n" + r.stderr)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class TlcResult:
    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def ok(self):
        return self.code == 0 and "Error:" not in self.out

    def lines(self, tag):
        """Values printed by PrintT(<<tag, json>>)."""
        res = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, self.out, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
        return res


def tlc(module, cfg=None, env=None, workers=CORES, timeout=600, extra=(), scratch=None,
        heap="4g", check=True):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or module.cfg)."""
    build_java()
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix="calkverif-")
    path = None
    for d in ("", "gen", "model", "trace"):
        p = os.path.join(SPEC, d, module + ".tla")
        if os.path.exists(p):
            path = p
    if path is None:
        raise MachineryError("no module " + module)
    cfgp = os.path.join(os.path.dirname(path), (cfg or module) + ".cfg")
    lib = ":".join(os.path.join(SPEC, d) if d else SPEC for d in ("", "gen", "model", "trace"))
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", f"-DTLA-Library={lib}",
           "-cp", f"{BUILD}:{JAR}:{DEPS}", "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp, *extra, path]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=meta, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC timeout on {module}") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    res = TlcResult(r.stdout + r.stderr, r.returncode, time.time() - t0)
    if check and not res.ok():
        raise MachineryError(f"TLC failed on {module} (exit {r.returncode}):\n{res.out[-6000:]}")
    return res


def read_nd(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def write_nd(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


def generate(module, scratch, seed, cfg=None, env=None, name="scen.json", timeout=300):
    """Scenarios enumerated by a generator module (Scenarios in its cfg), as a list."""
    out = os.path.join(scratch, name)
    ev = {"OUT": out}
    ev.update(env or {})
    res = tlc(module, cfg=cfg, env=ev, workers=1, scratch=scratch, timeout=timeout,
              extra=["-seed", str(seed)])
    with open(out) as f:
        sc = json.load(f)
    # TLC writes the empty function as []; a canonical order (sets have none), then stable ids
    for s in sc:
        for k in ("opts",):
            if s.get(k) == []:
                s[k] = {}
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    for i, s in enumerate(sc):
        s["id"] = i + 1
    return sc, res


def drive(driver, scenarios, scratch, seed, tier, timeout=800, workers=None):
    """Replay scenarios on the real code in parallel; returns the events."""
    n = max(1, min(workers or CORES, len(scenarios)))
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), PYTHONPATH=REPO,
               VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONWARNINGS="default")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    for w in range(n):
        part = scenarios[w::n]
        inp = os.path.join(scratch, f"in{w}.ndjson")
        outp = os.path.join(scratch, f"out{w}.ndjson")
        write_nd(inp, part)
        open(outp, "w").close()
        wd = os.path.join(scratch, f"w{w}")
        os.makedirs(wd, exist_ok=True)
        log = open(os.path.join(scratch, f"log{w}"), "wb")
        p = subprocess.Popen(
            [PY, os.path.join(VERIF, "harness", "worker.py"), driver, inp, outp, wd],
            env=env, cwd=wd, stdout=log, stderr=subprocess.STDOUT)
        procs.append((p, part, outp, log, os.path.join(scratch, f"log{w}")))
    deadline = time.time() + timeout
    events = []
    for p, part, outp, log, logp in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for q in procs:
                q[0].kill()
                q[0].wait()
            raise MachineryError(f"driver {driver} did not finish in {timeout} s")
        log.close()
        got = {}
        for line in open(outp):
            try:
                e = json.loads(line)
                got[e["id"]] = e
            except ValueError:
                pass
        tail = open(logp, errors="replace").read()[-2000:]
        if p.returncode == 77:
            raise MachineryError("driver error:\n" + tail)
        for s in part:
            if s["id"] not in got:
                got[s["id"]] = {"id": s["id"], "died": f"driver ended ({p.returncode}) before or in this scenario: "
                                + tail[-300:], "scn": s}
            events.append(got[s["id"]])
    events.sort(key=lambda e: e["id"])
    return events


def validate(module, events, scratch, cfg=None, env=None, timeout=850, name="trace.ndjson", workers=CORES):
    """Check recorded events against a trace specification.

    Returns (violations, skips, TlcResult): lists of (event id, clauses)."""
    path = os.path.join(scratch, name)
    todo = list(events)
    seen, viol, skips = set(), [], []
    for attempt in range(6):
        write_nd(path, todo)
        ev = {"TRACE": path}
        ev.update(env or {})
        res = tlc(module, cfg=cfg, env=ev, scratch=scratch, timeout=timeout, workers=workers, check=False)
        for v in res.lines("VERDICT"):
            if v["id"] in seen:
                continue
            seen.add(v["id"])
            bad = sorted(c for c in v["bad"] if not c.startswith("~"))
            notes = sorted(c for c in v["bad"] if c.startswith("~"))
            mach = [c for c in bad if c.startswith("MACHINERY")]
            if mach:
                raise MachineryError(f"{module}: event {v['id']}: {mach}")
            if bad:
                viol.append((v["id"], bad))
            if notes:
                skips.append((v["id"], notes))
        missing = {e["id"] for e in events} - seen
        if not missing:
            break
        # TLC could not even evaluate the specification on some outcome (for
        # instance one of the wrong shape): that line is rejected, the others are
        # still judged.
        m = re.findall(r"^/?\\?\s*l = (-?\d+)", res.out, re.M)
        i = int(m[-1]) - 1 if m else -1
        if "Evaluating invariant Verdict failed" not in res.out or not (0 <= i < len(todo)):
            raise MachineryError(f"{module}: no verdict for events {sorted(missing)[:5]}\n{res.out[-3000:]}")
        seen.add(todo[i]["id"])
        viol.append((todo[i]["id"], ["not_evaluable: " + res.out[res.out.find("Error:"):][:600]]))
        todo = [e for e in todo if e["id"] not in seen]
    else:
        pass
    return viol, skips, res


# ----------------------------------------------------------------- outcome
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return {"findings": []}


class Check:
    """One property check: collects what was covered and what failed."""

    def __init__(self, prop, level, argv):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            self.tier = "thorough"
        if "--quick" in argv:
            self.tier = "quick"
        os.environ["VERIF_TIER"] = self.tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"calkverif-{prop}-")
        self.states = self.transitions = 0
        self.traces = 0
        self.cov = {}
        self.samples = []
        self.viol = []          # (key, clauses, payload)
        self.skips = 0
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_model(self, name, res):
        self.states += res.distinct
        self.transitions += res.generated
        self.cov.setdefault("models", {})[name] = {"distinct_states": res.distinct, "generated": res.generated}

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a design module; a violated invariant here is an
        error of the specification, not of the code."""
        res = tlc(module, cfg=cfg, scratch=self.scratch, **kw)
        self.add_model(cfg or module, res)
        return res

    def run(self, gen, driver, trace, gencfg=None, tracecfg=None, name=None, timeout=None):
        """Generate scenarios, replay them on the code, validate the trace."""
        cfg = gencfg or self.prop
        sc, res = generate(gen, self.scratch, self.seed, cfg=cfg)
        ev = drive(driver, sc, self.scratch, self.seed, self.tier, timeout=timeout or (800 if self.tier == "quick" else 6000))
        self.conform(name or driver.split(":")[-1], trace, ev, cfg=tracecfg or self.prop)
        if ev:
            e = ev[len(ev) // 2]
            self.samples.append({"scenario": e.get("scn"), "options": e.get("c"), "salinity": e.get("S")})
        return sc, ev

    def conform(self, name, module, events, scenarios=None, cfg=None, env=None, nontrivial=None):
        """Validate events and collect violations."""
        viol, skips, res = validate(module, events, self.scratch, cfg=cfg, env=env,
                                    name=f"trace-{name}.ndjson")
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(events)
        self.skips += len(skips)
        d = self.cov.setdefault("conformance", {}).setdefault(
            name, {"events": 0, "skipped_as_ambiguous": 0, "violating": 0})
        d["events"] += len(events)
        d["skipped_as_ambiguous"] += len(skips)
        d["violating"] += len(viol)
        byid = {e["id"]: e for e in events}
        for i, bad in viol:
            self.viol.append((f"{name}:{i}", bad, byid[i]))
        return viol, skips

    def finish(self):
        findings = [f for f in known_findings()["findings"] if f["property"] == self.prop]
        real, known = [], {}
        for key, bad, ev in self.viol:
            tag = ev.get("case", key)
            hit = None
            for f in findings:
                if f["case"] == tag and set(bad) <= set(f["clauses"]):
                    hit = f
            if hit:
                known[hit["case"]] = hit
            else:
                real.append((key, bad, ev))
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov["states"] = self.states
        cov["transitions"] = self.transitions
        cov["traces_validated_against_impl"] = self.traces
        cov["scenarios_skipped_as_ambiguous"] = self.skips
        cov["samples"] = self.samples[:3]
        evd = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
               "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
               "violations": len(real)}
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        replay = None
        if real:
            rdir = os.path.join(edir, "replay")
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, f"{self.prop}.json")
            with open(replay, "w") as f:
                json.dump([{"key": k, "failing_clauses": b, "event": e} for k, b, e in real[:10]], f,
                          indent=1, default=str)
        with open(os.path.join(edir, f"{self.prop}.json"), "w") as f:
            json.dump(evd, f, indent=1, default=str)
        for f in known.values():
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        for k, b, e in real[:10]:
            print(f"  failing {k}: clauses {b}" + (f" {e['died'][-300:]}" if "died" in e else ""))
        print(f"{self.prop} [{self.tier}] {self.traces} executions validated, {self.states} states, "
              f"{self.skips} skipped, {len(real)} violating, {wall:.1f} s")
        if real:
            print(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        return 0


def main(prop, level, body):
    ck = Check(prop, level, sys.argv[1:])
    try:
        body(ck)
        code = ck.finish()
    except MachineryError as x:
        print(f"MACHINERY ERROR in {prop}: {x}", file=sys.stderr)
        code = 2
    finally:
        if "--keep" in sys.argv:
            print("scratch:", ck.scratch)
        else:
            shutil.rmtree(ck.scratch, ignore_errors=True)
    sys.exit(code)
