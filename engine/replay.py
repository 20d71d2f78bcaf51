"""Run harnesses concretely on the real code (executed by /opt/venv python)."""
from __future__ import annotations

import ast
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_job(job, gs, limit=60):
    from engine import cx as cxm
    mod = importlib.import_module("checks." + job["module"])
    fn = getattr(mod, job["fn"])
    env = {k: cxm.dec(v) for k, v in job["env"].items()}
    tmp = tempfile.mkdtemp(prefix="gsply_replay_")
    c = cxm.ConcreteCx(env, gs, tmp)
    out = {"id": job["id"]}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(c, **ast.literal_eval(job["params"]))
        out["status"] = "ok"
    except cxm.AssumptionFailed:
        out["status"] = "assumption"
    except Timeout:
        out["status"] = "hang"
        out["exc"] = f"no result after {limit} s"
    except Exception as e:
        out["status"] = "exception"
        out["exc"] = f"{type(e).__name__}: {e}"[:400]
        out["tb"] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        shutil.rmtree(tmp, ignore_errors=True)
    out["failed"] = [l for l, ok in c.checks if not ok]
    out["nchecks"] = len(c.checks)
    out["observed"] = [(n, [cxm.enc(x) for x in v]) for n, v in c.observed]
    return out


def main(inp, outp):
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    jobs = json.load(open(inp))
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            done.add(json.loads(l)["id"])
    import logging
    logging.disable(logging.CRITICAL)
    import gsply
    with open(outp, "a") as f:
        for j in jobs:
            if j["id"] in done:
                continue
            f.write("")
            with open(outp + ".cur", "w") as g:
                g.write(str(j["id"]))
            # the first job of a kernel pays for its compilation
            r = run_job(j, gsply, limit=j.get("limit", 150))
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
