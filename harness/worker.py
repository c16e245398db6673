"""Replays scenarios on the code under test (runs under the repository's Python).

usage: worker.py DRIVER IN.ndjson OUT.ndjson WORKDIR
"""

import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise Timeout("scenario took too long")


def limit_cpu(seconds):
    """CPU time, so that a busy machine is no verdict."""
    signal.setitimer(signal.ITIMER_PROF, seconds)


def main():
    name, inp, outp, wd = sys.argv[1:5]
    with open(inp) as f:
        scns = [json.loads(x) for x in f if x.strip()]
    out = open(outp, "a")
    limit = int(os.environ.get("SCN_TIMEOUT", "120"))
    signal.signal(signal.SIGPROF, on_alarm)
    import drvlib

    try:
        drv = getattr(importlib.import_module(name.split(":")[0]), (name.split(":") + ["run"])[1])
    except drvlib.CodeError as x:
        for s in scns:
            out.write(json.dumps({"id": s["id"], "scn": s, "died": f"import: {x}"}) + "\n")
        return 0
    for s in scns:
        d = os.path.join(wd, f"s{s['id']}")
        os.makedirs(d, exist_ok=True)
        old = os.getcwd()
        try:
            limit_cpu(limit)
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ev = drv(s, d)
            limit_cpu(0)
            ev["id"] = s["id"]
            ev["scn"] = s
            line = json.dumps(drvlib.jsonable(ev))
        except Timeout:
            line = json.dumps({"id": s["id"], "scn": s, "died": "timeout"})
        except drvlib.CodeError as x:
            limit_cpu(0)
            line = json.dumps({"id": s["id"], "scn": s, "died": str(x)})
        except Exception:
            limit_cpu(0)
            tb = traceback.format_exc()
            print(tb)
            line = json.dumps({"id": s["id"], "scn": s, "died": tb[-600:]})
        finally:
            limit_cpu(0)
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
        out.write(line + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
