"""Run one property's harnesses, replay models on the real code, write evidence."""
from __future__ import annotations

import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


class H:
    """a harness instance"""

    def __init__(self, name, fn, params=None, mode="uf", torch=False, budget=120, timeout=20, paths=400, witnesses=3,
                 escalate=(), int_relax=True, obs="exact", feas=2.0, note="", assume_feasible=False, limit=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.mode, self.torch, self.budget, self.timeout, self.paths = mode, torch, budget, timeout, paths
        self.witnesses, self.escalate, self.int_relax, self.obs, self.feas = witnesses, escalate, int_relax, obs, feas
        self.note = note
        self.assume_feasible = assume_feasible
        self.limit = limit


def run_harness(h, seed, scale=1.0):
    from . import ir, loader
    from .cx import SymCx, enc
    from .engine import Engine
    eng = Engine(mode=h.mode, timeout=h.timeout * scale, max_paths=int(h.paths * scale), budget_s=h.budget * scale,
                 seed=seed, feas_timeout=h.feas, int_relax=h.int_relax, escalate=h.escalate, witnesses=h.witnesses,
                 with_torch=h.torch, assume_feasible=h.assume_feasible)
    if h.limit:
        ir.State.step_limit = h.limit
    res = eng.explore(lambda cx: h.fn(cx, **h.params), lambda e: SymCx(e, e.gs))

    def pack(env):
        out = {}
        for k, v in env.items():
            if k.startswith("uninit!"):
                continue
            dt = ir._sym_info[k][0]
            if ir.is_float(dt):
                out[k] = enc(ir.NP[dt](v))
            elif dt == "bool":
                out[k] = ["b", int(bool(v))]
            else:
                out[k] = enc(v)
        return out
    for c in res.candidates:
        c["env"] = pack(c["env"])
        c["alts"] = [pack(a) for a in c.get("alts", [])][:5]
    for w in res.witnesses:
        w["env"] = pack(w["env"])
    for w in res.probes:
        w["env"] = pack(w["env"])
    return {"name": h.name, "res": res, "encoded": dict(loader.ENCODED), "sources": dict(loader.SOURCES)}


def _child(h, seed, scale, out):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(100000)
    try:
        r = run_harness(h, seed, scale)
    except BaseException as e:  # noqa
        import traceback
        r = {"name": h.name, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-4000:]}
    with open(out + ".tmp", "wb") as f:
        pickle.dump(r, f)
    os.rename(out + ".tmp", out)


def run_all(hs, seed, scale, nproc, deadline):
    tmp = tempfile.mkdtemp(prefix="verif_run_")
    ctx = mp.get_context("fork")
    results = {}
    queue = list(enumerate(hs))
    live = {}
    try:
        while queue or live:
            while queue and len(live) < nproc:
                i, h = queue.pop(0)
                out = os.path.join(tmp, f"{i}.pkl")
                if time.time() > deadline:
                    results[i] = {"name": h.name, "error": "not started: check's time budget used up"}
                    continue
                p = ctx.Process(target=_child, args=(h, seed, scale, out))
                p.start()
                live[i] = (p, h, out, time.time() + h.budget * scale + h.timeout * scale * 2 + 60)
            for i in list(live):
                p, h, out, lim = live[i]
                if os.path.exists(out):
                    p.join(5)
                    with open(out, "rb") as f:
                        results[i] = pickle.load(f)
                    del live[i]
                elif not p.is_alive():
                    p.join()
                    if os.path.exists(out):
                        continue
                    results[i] = {"name": h.name, "error": f"worker died (exit {p.exitcode})"}
                    del live[i]
                elif time.time() > min(lim, deadline + 30):
                    p.kill()
                    p.join()
                    results[i] = {"name": h.name, "error": "hard time limit"}
                    del live[i]
            time.sleep(0.02)
    finally:
        for p, *_ in live.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return [results[i] for i in range(len(hs))]


def replay(jobs, boundscheck=False, timeout=500):
    """run jobs on the real code; returns id -> result"""
    if not jobs:
        return {}
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    inp, outp = os.path.join(tmp, "in.json"), os.path.join(tmp, "out.jsonl")
    json.dump(jobs, open(inp, "w"))
    env = dict(os.environ, TORCHDYNAMO_DISABLE="1")
    env.update(NUMBA_CACHE_DIR=os.path.join(tmp, "nb"), PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO,
               MALLOC_PERTURB_="90", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="4", NUMBA_NUM_THREADS="4", TMPDIR=tmp)
    if boundscheck:
        env["NUMBA_BOUNDSCHECK"] = "1"
    env.pop("PYTHONPATH", None)
    crashes = {}
    end = time.time() + timeout
    try:
        for _ in range(12):
            try:
                p = subprocess.run([VENV, os.path.join(HERE, "engine", "replay.py"), inp, outp], env=env, cwd=tmp,
                                   capture_output=True, text=True, timeout=max(10, end - time.time()))
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -999, "timeout"
            if rc == 0:
                break
            if not os.path.exists(outp + ".cur"):
                return {"error": err[-3000:]}
            cur = json.loads(open(outp + ".cur").read() or "0")
            have = {json.loads(l)["id"] for l in open(outp)}
            if cur in have:
                return {"error": err[-3000:]}
            with open(outp, "a") as f:
                f.write(json.dumps({"id": cur, "status": "hang" if rc == -999 else "crash", "exc": f"process ended with {rc}: {err[-300:]}",
                                    "failed": [], "nchecks": 0, "observed": []}) + "\n")
            if rc == -999:
                break
        out = {}
        if os.path.exists(outp):
            for l in open(outp):
                r = json.loads(l)
                out[r["id"]] = r
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_parallel(jobs, nproc=4, timeout=500):
    from concurrent.futures import ThreadPoolExecutor
    oob = [j for j in jobs if j.get("bounds")]
    rest = [j for j in jobs if not j.get("bounds")]
    parts = []
    if rest:
        k = max(1, min(nproc, len(rest) // 12))
        parts += [(rest[i::k], False) for i in range(k)]
    if oob:
        parts.append((oob, True))
    out = {}
    with ThreadPoolExecutor(max(1, len(parts))) as ex:
        for r in ex.map(lambda a: replay(a[0], a[1], timeout), parts):
            out.update(r)
    return out


def _close(a, b, obs):
    if a == b:
        return True
    if obs == "exact" or a[0] != b[0] and {a[0], b[0]} - {"f", "d", "i", "b"}:
        # a NaN's payload is not preserved by every instruction
        return _nan(a) and _nan(b)
    from .cx import dec
    x, y = float(dec(a)), float(dec(b))
    if a[0] in "ib" and b[0] in "ib":
        return abs(x - y) <= obs.get("int", 1)
    if x != x or y != y:
        return x != x and y != y
    return abs(x - y) <= obs.get("abs", 1e-5) + obs.get("rel", 1e-4) * max(abs(x), abs(y)) or x == y


def _nan(e):
    from .cx import dec
    return e[0] in "hfd" and dec(e) != dec(e)


def load_known():
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=ID harness=GLOB label=GLOB :: text
                head, _, text = l[6:].partition("::")
                d = dict(kv.split("=", 1) for kv in head.split())
                d["text"] = text.strip()
                out.append(d)
    return out


def main(pid, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    modname = pid.lower()
    mod = importlib.import_module("checks." + modname)
    hs = mod.harnesses(tier)
    if only:
        hs = [h for h in hs if fnmatch.fnmatch(h.name, only)]
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    limit = 560 if tier == "quick" else 6 * 3600
    scale = 1.0 if tier == "quick" else 4.0
    from . import loader
    loader.preload()
    results = run_all(hs, seed, scale, nproc, t0 + limit)
    byname = {h.name: h for h in hs}
    # ---- replays
    jobs, meta = [], {}

    def add(h, env, kind, extra, bounds=False):
        i = len(jobs)
        jobs.append({"id": i, "module": modname, "fn": h.fn.__name__, "params": repr(h.params), "env": env, "bounds": bounds})
        meta[i] = (h, kind, extra)
    for r in results:
        if "res" not in r:
            continue
        h = byname[r["name"]]
        for k, c in enumerate(r["res"].candidates):
            b = "KernelOOB" in c["label"]
            for e in [c["env"]] + c.get("alts", []):
                add(h, e, "cand", (r["name"], k, c), b)
        for w in r["res"].witnesses:
            add(h, w["env"], "wit", w)
        for w in r["res"].probes:
            add(h, w["env"], "probe", w)
    rr = replay_parallel(jobs, timeout=(300 if tier == "quick" else 3000))
    rep_err = rr.pop("error", None)
    if rep_err:
        print("REPLAY-ERROR", rep_err[-1500:])
    viol, spurious, mism, validated, obs_n = {}, {}, [], 0, 0
    confirmed = set()
    for i, (h, kind, x) in meta.items():
        o = rr.get(i)
        if o is None:
            if kind == "cand":
                spurious.setdefault((x[0], x[1]), (h, x[2], "not replayed"))
            continue
        bad = list(o["failed"])
        if o["status"] in ("exception", "hang", "crash"):
            bad.append(f"{o['status']} {o.get('exc')}")
        if o["status"] == "assumption":
            if kind == "cand":
                spurious.setdefault((x[0], x[1]), (h, x[2], "input outside the assumptions after rounding"))
            continue
        if kind != "cand" and (o["status"] == "hang" or o["status"] == "crash" and "-9:" in o["exc"]):
            # slow or short of memory: says nothing about the property
            continue
        if bad:
            lab = bad[0]
            viol.setdefault((h.name, _lab(lab)), (h, lab, jobs[i], o, kind))
            if kind == "cand":
                confirmed.add((x[0], x[1]))
        elif kind == "cand":
            spurious.setdefault((x[0], x[1]), (h, x[2], "model does not reproduce on the real code"))
        elif kind == "wit":
            got = dict((n, v) for n, v in o["observed"])
            ok = True
            for n, vals in x["observed"]:
                g = got.get(n)
                obs_n += len(vals)
                if g is None or len(g) != len(vals) or not all(_close(list(a), list(b), h.obs) for a, b in zip(vals, g)):
                    ok = False
                    mism.append((h.name, n, (list(map(tuple, vals))[:6], None if g is None else g[:6])))
                    if os.environ.get("VERIF_DEBUG"):
                        for a, b in zip(vals, g or []):
                            if not _close(list(a), list(b), h.obs):
                                print("  MISMATCH", h.name, n, a, b)
                                break
                    break
            if ok:
                validated += 1
    # ---- report
    known = load_known()
    nviol, out_lines = 0, []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    knownhit = []
    for (hn, lab), (h, full, job, o, kind) in viol.items():
        k = next((k for k in known if k["property"] == pid and fnmatch.fnmatchcase(hn, k["harness"])
                  and fnmatch.fnmatchcase(lab, k["label"])), None)
        if k:
            knownhit.append((k, hn, lab))
            continue
        nviol += 1
        if nviol > 40:
            continue
        p = os.path.join(rdir, f"{pid}-{nviol}.json")
        json.dump({"property": pid, "harness": hn, "label": full, "job": job, "result": o,
                   "replay": f"{VENV} {HERE}/engine/replay1.py {p}"}, open(p, "w"), indent=1)
        out_lines.append(f"VIOLATION property={pid} replay={p}")
        out_lines.append(f"  harness={hn} fails: {full}")
        if o.get("tb") and os.environ.get("VERIF_DEBUG"):
            out_lines.append(o["tb"])
    seen = set()
    for k, hn, lab in knownhit:
        if k["text"] not in seen:
            seen.add(k["text"])
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    und = []
    decided = 0
    for r in results:
        if "error" in r:
            und.append(f"{r['name']}: {r['error']}")
            if os.environ.get("VERIF_DEBUG"):
                print(r.get("tb", ""))
            continue
        res = r["res"]
        bad = False
        for k, w in res.undecided[:4]:
            und.append(f"{r['name']}: {k}: {w}")
            bad = True
        for (hn, kk), (h, c, why) in spurious.items():
            if hn == r["name"] and (hn, kk) not in confirmed:
                und.append(f"{hn}: {c['label']}: {why}")
                bad = True
        if not res.witnesses and not res.candidates and not bad:
            und.append(f"{r['name']}: no reachable path (vacuous)")
            bad = True
        if any(m[0] == r["name"] for m in mism):
            bad = True
        if not bad:
            decided += 1
    for m in mism:
        und.append(f"{m[0]}: encoding disagrees with the real code on '{m[1]}': {str(m[2])[:300]}")
    for u in und:
        print("UNDECIDED", pid, u)
    for l in out_lines:
        print(l)
    if os.environ.get("VERIF_DEBUG"):
        for r in sorted((r for r in results if "res" in r), key=lambda r: -r["res"].wall)[:12]:
            print(f"  {r['name']}: {r['res'].wall:.1f}s {r['res'].stats}")
    tot = {}
    enc_fns, srcs = {}, {}
    for r in results:
        if "res" in r:
            for k, v in r["res"].stats.items():
                tot[k] = tot.get(k, 0) + v
            for k, v in r["encoded"].items():
                enc_fns[k] = enc_fns.get(k, 0) + v
            srcs.update(r["sources"])
    labels = sorted({l for r in results if "res" in r for l in r["res"].labels})
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0) + tot.get("obligations", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": r["name"], "paths": r["res"].stats["paths"], "obligations": r["res"].stats["obligations"],
                         "wall_s": round(r["res"].wall, 2),
                         "witness": dict(list(r["res"].witnesses[0]["env"].items())[:6]) if r["res"].witnesses else None}
                        for r in results if "res" in r][:40],
            "harnesses": len(hs), "harnesses_decided": decided,
            "functions_encoded": sorted(enc_fns), "source_sha256": srcs,
            "bounds": getattr(mod, "BOUNDS", ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "queries_discharged": tot.get("queries", 0), "queries_unsat": tot.get("unsat", 0),
            "queries_sat": tot.get("sat", 0), "queries_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2), "obligations": tot.get("obligations", 0),
            "obligation_labels": labels, "values_compared_with_real_code": obs_n, "replays": len(jobs),
            "undecided": und[:60], "known_findings": sorted(seen),
            "spurious_models": [f"{k[0]}: {v[1]['label']}" for k, v in spurious.items() if k not in confirmed][:20],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: {decided}/{len(hs)} harnesses decided, {tot.get('paths', 0)} paths, {tot.get('obligations', 0)} obligations, "
          f"{tot.get('queries', 0)} queries ({tot.get('solver_s', 0):.1f}s solver), {validated} traces validated, "
          f"{nviol} violations, {wall:.0f}s")
    if nviol:
        return 1
    if decided == 0:
        print("ERROR: nothing decided")
        return 2
    return 0


def _lab(l):
    import re
    return re.sub(r"/tmp/\S*", "/tmp/..", re.sub(r"\s+", " ", l))[:160]


COMMON_ASSUMPTIONS = [
    "numpy/numba/python library semantics as modelled by engine/npshim.py, rt.py (differentially validated on every witness)",
    "parallel loops are executed sequentially (iterations independent)",
    "the z3 verdicts are trusted",
]
