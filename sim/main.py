"""Supervisor: launches batch interpreters (JIT off / on) over /repo's working tree, aggregates, writes evidence,
prints VIOLATION / KNOWN-FINDING lines.  Imports nothing of vectorbt itself."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VBT_REPO", "/repo")


def env_for(mode, scratch):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "VBT_REPO", "VBT_SIM_ONLY", "VBT_SIM_LOGS",
                                                      "VBT_SIM_WORKERS", "VBT_SIM_ALL", "VERIF_SEED", "VERIF_TIER")}
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    e.update(HOME=home, TZ="UTC", PYTHONHASHSEED=os.environ.get("VBT_SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", NUMBA_NUM_THREADS="1",
             NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             TMPDIR=scratch, PYTHONPATH=VERIF + os.pathsep + REPO, VBT_SIM_MODE=mode, VBT_SIM_SCRATCH=scratch,
             PYTHONWARNINGS="ignore")
    if mode == "nojit":
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def git_clean():
    return None


def main(argv):
    if argv and argv[0] == "replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        scratch = tempfile.mkdtemp(prefix="vbtsim-")
        try:
            return subprocess.call([sys.executable, "-m", "sim.batch", "replay", os.path.abspath(argv[1])], cwd=VERIF,
                                   env=env_for(rep["mode"], scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if argv and argv[0] == "setup":  # nothing to build: the checks import the working tree; only see that it imports
        scratch = tempfile.mkdtemp(prefix="vbtsim-")
        try:
            return subprocess.call([sys.executable, "-c", "import vectorbt; print('vectorbt', vectorbt.__file__)"], cwd=VERIF,
                                   env=env_for("nojit", scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = os.environ.get("VBT_SIM_SCALE", "1")
    scratch = tempfile.mkdtemp(prefix="vbtsim-")
    os.chmod(scratch, 0o755)
    t0 = time.monotonic()
    try:
        return check(prop, tier, seed, scale, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def modes_of(prop):
    src = os.path.join(VERIF, "sim", "props", prop.lower() + ".py")
    if not os.path.exists(src):
        print("no such property check:", prop)
        sys.exit(2)
    with open(src) as f:
        txt = f.read()
    return ["nojit"] + (["jit"] if "jit=True" in txt else [])


def check(prop, tier, seed, scale, scratch, t0):
    wall_cap = 780 if tier == "quick" else 880
    jobs = []
    for mode in modes_of(prop):
        out = os.path.join(scratch, f"out-{mode}.json")
        d = os.path.join(scratch, mode)
        os.makedirs(d)
        log = open(os.path.join(scratch, f"log-{mode}.txt"), "w+")
        pr = subprocess.Popen([sys.executable, "-m", "sim.batch", "run", prop, mode, tier, str(seed), out, scale],
                              cwd=VERIF, env=env_for(mode, d), stdout=log, stderr=subprocess.STDOUT)
        jobs.append((mode, out, log, pr))
    aggs, herrs = [], []
    crashed = None
    for mode, out, log, pr in jobs:
        try:
            rc = pr.wait(timeout=max(1, wall_cap - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            pr.kill()
            rc = "timeout"
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                aggs.append(json.load(f))
            if os.environ.get("VBT_SIM_LOGS"):
                with open(os.environ["VBT_SIM_LOGS"], "a") as f:
                    f.writelines(json.dumps([mode] + e) + "\n" for e in aggs[-1].get("logs", []))
        else:
            log.seek(0)
            herrs.append(f"batch {mode} ended with {rc}: " + log.read()[-3000:])
    viol = None
    for a in aggs:
        herrs += a["herrs"]
        for w, sig, st in a["died"]:
            if sig in (4, 6, 7, 8, 11):
                crashed = (a["mode"], w, sig)
            else:
                herrs.append(f"worker {w} of {a['mode']} died with status {st}")
        if a.get("minimised") and viol is None:
            viol = a["minimised"]
    write_evidence(prop, tier, seed, aggs, viol, time.monotonic() - t0)
    for a in aggs:
        for s, (n, t) in sorted(a["per"].items()):
            print(f"[{prop}] {a['mode']} {s}: {n} runs, {t:.1f} cpu-s")
    faults, probes = {}, {}
    for a in aggs:
        for k, v in a["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in a["probes"].items():
            probes[k] = probes.get(k, 0) + v
    print(f"[{prop}] faults {json.dumps(faults, sort_keys=True)}")
    if os.environ.get("VBT_SIM_VERBOSE"):
        print(f"[{prop}] probes {json.dumps(probes, sort_keys=True)}")
    known_hits = {}
    for a in aggs:
        for k, n in a["known"].items():
            known_hits[k] = known_hits.get(k, 0) + n
    kpath = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kpath):
        with open(kpath) as f:
            for k in json.load(f).get("known", []):
                if k["property"] == prop:
                    print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} (hit in {known_hits.get(k['id'], 0)} runs)")
    if viol is not None:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{viol['scenario']}-{viol['seed']:016x}.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        # replay in a fresh process
        d = os.path.join(scratch, "replay")
        os.makedirs(d)
        try:
            r = subprocess.run([sys.executable, "-m", "sim.batch", "replay", path], cwd=VERIF, env=env_for(viol["mode"], d),
                               capture_output=True, text=True, timeout=200)
            same = "identical=yes" in r.stdout
        except subprocess.TimeoutExpired:
            same = viol["cls"] == "hang"
        print(f"[{prop}] class={viol['cls']} scenario={viol['scenario']} seed={viol['seed']} minimise-iterations={viol['iterations']} "
              f"fresh-process-replay={'identical' if same else 'DIFFERENT'}")
        print("  " + viol["msg"].replace("\n", "\n  ")[:2500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if crashed is not None:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-crash.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, mode=crashed[0], worker=crashed[1], signal=crashed[2], verif_seed=seed), f)
        print(f"[{prop}] process killed by signal {crashed[2]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if herrs:
        seen = set()
        for h in herrs:
            key = h[-160:]
            if key in seen or len(seen) >= 12:
                continue
            seen.add(key)
            print("HARNESS-ERROR", h if h.startswith("HIST") else h[:150] + " ... " + h[-900:])
        return 2
    tot = sum(a["runs"] for a in aggs)
    if tot == 0:
        print("HARNESS-ERROR no runs")
        return 2
    print(f"[{prop}] held on {tot} runs, {sum(a['distinct'] for a in aggs)} distinct, {time.monotonic() - t0:.1f} s")
    return 0


def write_evidence(prop, tier, seed, aggs, viol, wall):
    def union(key):
        return sorted({x for a in aggs for x in a.get(key, [])})

    runs = sum(a["runs"] for a in aggs)
    faults, probes = {}, {}
    for a in aggs:
        for k, v in a["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in a["probes"].items():
            probes[k] = probes.get(k, 0) + v
    samples = []
    for a in aggs:
        samples += a["samples"]
    slim = []
    for s in samples:
        t = json.dumps(s)
        if len(t) > 6000:
            s = dict(s, case=t[:3000] + "...")
        slim.append(s)
        if len(slim) >= 5:
            break
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=runs,
                  distinct_nontrivial=sum(a["nontrivial"] for a in aggs),
                  rule="a case is one seeded simulated run; it is non-trivial when at least one fault or probe fired, "
                       "and distinct when its event-log digest differs from those seen by the same worker",
                  samples=slim,
                  runs_per_hour=round(runs / wall * 3600) if wall else 0,
                  seeds_per_hour=round(runs / wall * 3600) if wall else 0,
                  runs_per_scenario={f"{a['mode']}:{s}": n for a in aggs for s, (n, t) in sorted(a["per"].items())},
                  simulated_seconds=round(sum(a["sim_time"] for a in aggs), 3),
                  faults_injected=faults,
                  probes_hit=probes,
                  distinct_event_logs=sum(a["distinct"] for a in aggs),
                  distinct_states=sum(a["states"] for a in aggs),
                  state_measure=next((a["state_measure"] for a in aggs if a.get("state_measure")),
                                     "distinct abstract states recorded by the scenario (hash of the model state after each step)"),
                  components_real=union("real"),
                  components_stubbed=union("stub"),
                  wall_cap_reached=any(a["capped"] for a in aggs),
                  workers={a["mode"]: a["nworkers"] for a in aggs},
                  known_findings_hit={k: n for a in aggs for k, n in a["known"].items()},
              ),
              assumptions=union("assumptions"),
              wall_s=round(wall, 2),
              violations=0 if viol is None else 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(_plain(ev), f, indent=1, allow_nan=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


def _plain(x):
    """NaN and infinity as text, so that the evidence file is strict JSON."""
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return str(x)
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
