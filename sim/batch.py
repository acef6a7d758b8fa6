"""Runs inside an interpreter with vectorbt imported (JIT on or off).  Executes scenarios over seeds with
forked workers, or replays / minimises one case.

  python -m sim.batch run PROP MODE TIER SEED OUT.json [scale]
  python -m sim.batch replay FILE
"""
import faulthandler
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

from . import core
from .core import H, Ctx, Rng, execute, minimise

_real_time = time.monotonic
_real_perf = time.perf_counter


class WallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise WallTimeout()


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def scn_seed(vseed, prop, scn, i):
    return H("vbtsim", vseed, prop, scn, i)


def run_one(scn, case, seed):
    """execute() under a generous wall watchdog (a run takes milliseconds; the watchdog only catches real hangs)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(scn.timeout)
    try:
        ctx, v, herr = execute(scn, case, seed)
    except WallTimeout:
        ctx = Ctx(seed)
        v, herr = core.Violation("hang", f"run did not finish within {scn.timeout} s of wall time"), None
    finally:
        signal.alarm(0)
    if v is None and herr is not None and "WallTimeout" in herr:
        v, herr = core.Violation("hang", f"run did not finish within {scn.timeout} s of wall time"), None
    if v is not None and v.cls == "unexpected-WallTimeout":
        v = core.Violation("hang", f"run did not finish within {scn.timeout} s of wall time")
    return ctx, v, herr


def gen_case(scn, seed):
    return json.loads(json.dumps(scn.gen(Rng(seed))))


def worker(w, nw, scns, counts, vseed, prop, known, deadline, conn):
    res = dict(runs=0, faults={}, probes={}, sim_time=0.0, states=set(), digests=set(), nontrivial=set(),
               violations=[], known={}, herrs=[], samples=[], per={}, capped=False, logs=[])
    keep_logs = os.environ.get("VBT_SIM_LOGS")
    try:
        for scn in scns:
            n = counts[scn.name]
            nviol = 0
            t0 = _real_perf()
            done = 0
            for i in range(w, n, nw):
                if _real_time() > deadline:
                    res["capped"] = True
                    break
                seed = scn_seed(vseed, prop, scn.name, i)
                try:
                    case = gen_case(scn, seed)
                except Exception:
                    res["herrs"].append(f"gen {scn.name} {i}: " + traceback.format_exc()[-2000:])
                    break
                ctx, v, herr = run_one(scn, case, seed)
                done += 1
                res["runs"] += 1
                for k, c in ctx.faults.items():
                    res["faults"][k] = res["faults"].get(k, 0) + c
                for k, c in ctx.probes.items():
                    kk = f"{scn.name}.{k}"
                    res["probes"][kk] = res["probes"].get(kk, 0) + c
                res["sim_time"] += ctx.sim_time
                res["states"] |= ctx.states
                d = ctx.digest()
                if keep_logs:
                    res["logs"].append((scn.name, i, d))
                if ctx.faults or ctx.probes:
                    res["nontrivial"].add(d)
                res["digests"].add(d)
                if i < 2 and len(res["samples"]) < 6:
                    res["samples"].append(dict(scenario=scn.name, seed=seed, case=scn.sample(case), events=ctx.n_events,
                                               digest=d, faults=ctx.faults))
                if herr is not None:
                    res["herrs"].append(f"run {scn.name} {i} seed {seed}: {herr}")
                    if len(res["herrs"]) > 3:
                        break
                if v is not None:
                    k = match_known(known, scn.name, v)
                    if k is not None:
                        res["known"][k] = res["known"].get(k, 0) + 1
                        continue
                    res["violations"].append((scn.name, i, seed, v.cls, v.msg[:4000], case))
                    nviol += 1
                    if nviol >= int(os.environ.get("VBT_SIM_ALL", "1")):
                        break
            res["per"][scn.name] = (done, _real_perf() - t0)
    except BaseException:
        res["herrs"].append("worker: " + traceback.format_exc()[-2000:])
    conn.write(pickle.dumps(res))
    conn.close()


def match_known(known, scn, v):
    for k in known:
        if k.get("scenario") in (None, scn) and k["class"] == v.cls and all(s in v.msg for s in k.get("contains", [])):
            return k["id"]
    return None


def load_known(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == prop]


def cmd_run(prop, mode, tier, vseed, out, scale=1.0, budget=None):
    t_start = _real_time()
    mod = load(prop)
    scns = [s for s in mod.SCENARIOS if bool(s.jit) == (mode == "jit")]
    only = os.environ.get("VBT_SIM_ONLY")
    if only:
        scns = [s for s in scns if s.name in only.split(",")]
    counts = {s.name: max(1, int((s.quick if tier == "quick" else s.thorough) * scale)) for s in scns}
    budget = float(budget or (540 if tier == "quick" else 840))
    deadline = t_start + budget
    nw = int(os.environ.get("VBT_SIM_WORKERS") or 0) or max(1, min(8, len(os.sched_getaffinity(0))))
    warm = getattr(mod, "warm", None)
    if warm is not None:
        warm(mode)
    known = load_known(prop)
    procs = []
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(w, nw, scns, counts, vseed, prop, known, deadline, os.fdopen(wr, "wb"))
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    results, died = [], []
    for w, (pid, r) in enumerate(procs):
        buf = b""
        with os.fdopen(r, "rb") as f:
            buf = f.read()
        _, st = os.waitpid(pid, 0)
        try:
            results.append(pickle.loads(buf))
        except Exception:
            died.append((w, st))
    agg = dict(prop=prop, mode=mode, runs=0, faults={}, probes={}, sim_time=0.0, states=0, distinct=0, nontrivial=0,
               violations=[], known={}, herrs=[], samples=[], per={}, capped=False, died=[], counts=counts, nworkers=nw)
    states, digests, nontriv = set(), set(), set()
    logs = []
    for r in results:
        agg["runs"] += r["runs"]
        for k in ("faults", "probes", "known"):
            for a, c in r[k].items():
                agg[k][a] = agg[k].get(a, 0) + c
        agg["sim_time"] += r["sim_time"]
        states |= r["states"]
        digests |= r["digests"]
        nontriv |= r["nontrivial"]
        agg["violations"] += r["violations"]
        agg["herrs"] += r["herrs"]
        agg["samples"] += r["samples"]
        agg["capped"] |= r["capped"]
        logs += r["logs"]
        for s, (d, t) in r["per"].items():
            a = agg["per"].setdefault(s, [0, 0.0])
            a[0] += d
            a[1] += t
    agg["states"] = len(states)
    agg["distinct"] = len(digests)
    agg["nontrivial"] = len(nontriv)
    if os.environ.get("VBT_SIM_LOGS"):
        agg["logs"] = sorted(logs)
    for w, st in died:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        agg["died"].append((w, sig, st))
    agg["samples"].sort(key=lambda s: (s["scenario"], s["seed"]))
    order = {s.name: k for k, s in enumerate(scns)}
    agg["violations"].sort(key=lambda v: (order[v[0]], v[1]))
    if os.environ.get("VBT_SIM_ALL"):
        hist = {}
        for v in agg["violations"]:
            hist.setdefault((v[0], v[3]), []).append(v)
        for (sn, cl), vs in sorted(hist.items()):
            vs.sort(key=lambda v: len(json.dumps(v[5])))
            agg["herrs"].append(f"HIST {sn} {cl} x{len(vs)}: {vs[0][4][:1500]}\n   case {json.dumps(vs[0][5])[:1500]}")
        agg["violations"] = []
    # minimise the first violation
    if agg["violations"]:
        name, i, seed, cls, msg, case = agg["violations"][0]
        scn = [s for s in scns if s.name == name][0]
        t_end = min(_real_time() + (60 if tier == "quick" else 120), deadline + 60)
        best, iters = case, 0
        if cls != "hang":
            signal.signal(signal.SIGALRM, _alarm)
            try:
                best, iters = minimise(scn, case, seed, cls, t_end, _real_time)
            except BaseException:
                pass
        ctx, v, herr = run_one(scn, best, seed)
        if v is None or v.cls != cls:
            best = case
            ctx, v, herr = run_one(scn, best, seed)
        agg["minimised"] = dict(property=prop, scenario=name, index=i, verif_seed=vseed, seed=seed, mode=mode, cls=cls,
                                msg=(v.msg if v else msg)[:4000], case=best, original_case=case, iterations=iters,
                                digest=ctx.digest(), events=ctx.tail,
                                reproduced=bool(v is not None and v.cls == cls))
    agg["wall"] = _real_time() - t_start
    agg["real"] = sorted({x for k in scns for x in k.real} | set(getattr(mod, "REAL", ())))
    agg["stub"] = sorted({x for k in scns for x in k.stub} | set(getattr(mod, "STUB", ())))
    agg["state_measure"] = getattr(mod, "STATE", None)
    agg["assumptions"] = list(getattr(mod, "ASSUMPTIONS", ()))
    with open(out, "w") as f:
        json.dump(agg, f)


def cmd_replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    scn = [s for s in mod.SCENARIOS if s.name == rep["scenario"]][0]
    ctx, v, herr = run_one(scn, rep["case"], rep["seed"])
    print(f"replay property={rep['property']} scenario={rep['scenario']} seed={rep['seed']}")
    for line in ctx.tail:
        print("  ", line)
    if herr:
        print("HARNESS-ERROR", herr)
        return 2
    if v is None:
        print("no violation; digest", ctx.digest())
        return 0
    same = v.cls == rep["cls"] and ctx.digest() == rep["digest"]
    print(f"violation class={v.cls} digest={ctx.digest()} identical={'yes' if same else 'no'}")
    print(v.msg)
    return 1


if __name__ == "__main__":
    faulthandler.enable()
    a = sys.argv[1:]
    if a[0] == "run":
        cmd_run(a[1], a[2], a[3], int(a[4]), a[5], *(float(x) for x in a[6:]))
        sys.stdout.flush()
        os._exit(0)
    elif a[0] == "replay":
        rc = cmd_replay(a[1])
        sys.stdout.flush()
        os._exit(rc)
