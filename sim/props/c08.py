"""C08: a feed that dies at a bar, or whose later bars are replaced, must leave everything up to that bar unchanged.
One seeded program of public functions is executed on the whole feed and again on the interrupted one."""
import numpy as np
import pandas as pd

from .. import pf, prog
from ..core import Scenario

REAL = ["indicators.basic", "indicators.factory", "generic accessors", "returns accessors", "signals accessors and generators", "portfolio simulators and reports",
        "drawdowns, ranges, trades, positions records"]
STUB = ["market feed (cut, dead, stalled, spiking, replayed backwards)"]
STATE = "step x fault x position of the cut x outcome"


def gen(rng):
    T, N = rng.pick(8, 14, 20, 30), rng.pick(1, 2, 3)
    case = dict(T=T, N=N, feed=prog.gen_arrays(rng, T, N, rng.pick(0, 0, 0.1, 0.3), rng.pick(0, 0, 0.05)), groups=sorted(rng.pick(0, 0, 1) for _ in range(N)))
    case["steps"] = prog.gen_program(rng, rng.randint(3, 8))
    ks = {rng.randint(1, T - 1) for _ in range(2)}
    if rng.chance(0.3):  # assets listed late: nothing is known of them at first
        for c in range(N):
            late = rng.pick(0, 1, 2, T // 3)
            for f in case["feed"].values():
                for i in range(late):
                    f[i][c] = float("nan")
            if late:
                ks.add(rng.randint(1, late))
    ks = sorted(ks)
    case["faults"] = [[k, m, prog.gen_arrays(rng, T, N, 0.1, 0.3) if m == "other" else None] for k in ks
                      for m in [rng.pick("cut", "cut", "dead", "stall", "spike", "other", "reverse", "crash")]]
    return case


def disturb(arrs, k, mode, other):
    out = {}
    for f, v in arrs.items():
        v = [list(r) for r in v]
        if mode == "cut":
            out[f] = v[:k]
            continue
        for i in range(k, len(v)):
            for c in range(len(v[i])):
                if mode == "dead":
                    v[i][c] = float("nan")
                elif mode == "stall":
                    v[i][c] = arrs[f][k - 1][c]
                elif mode == "spike":
                    v[i][c] = v[i][c] * (100.0 if i == k else 1.0)
                elif mode == "crash":
                    v[i][c] = v[i][c] * 0.01
                elif mode == "reverse":
                    v[i][c] = arrs[f][len(v) - 1 - (i - k)][c]
                elif mode == "other" and other:
                    v[i][c] = other[f][i][c]
        out[f] = v
    return out


def frame_of(case, arrs):
    N = case["N"]
    return prog.Feed(arrs, ["s%d" % c for c in range(N)], case["groups"])


def prefix(o, k, index):
    if o.how in ("cell", "group"):
        return np.asarray(o.val.values[:k])
    if o.how == "bin":
        # complete bins only
        idx = o.val.index
        step = idx.freq if getattr(idx, "freq", None) is not None else (idx[1] - idx[0] if len(idx) > 1 else None)
        if step is None:
            return np.zeros((0, 0))
        keep = [j for j in range(len(idx)) if idx[j] + step <= index[0] + k * (index[1] - index[0])]
        return np.asarray(o.val.values[keep])
    if o.how in ("rec", "grec"):
        return np.array(sorted(r for r in o.val if r[1] < k), dtype=float)
    raise AssertionError(o.how)


def same(a, b):
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool((a == b).all())
    return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))


def run(case, ctx):
    T, N = case["T"], case["N"]
    case["groups"] = (case["groups"] + [9] * N)[:N]
    base = frame_of(case, case["feed"])
    full = prog.run_program(case["steps"], base)
    for name, outs, err in full:
        if err is not None:
            ctx.probe("step refused: " + name)
            ctx.ev("refused", name, type(err).__name__, str(err)[:80])
    for k, mode, other in case["faults"]:
        if not 0 < k < T:
            continue
        ctx.fault("feed " + mode)
        ctx.tick(T * 4 * 3600)
        part = prog.run_program(case["steps"], frame_of(case, disturb(case["feed"], k, mode, other)))
        for n, ((name, a, ea), (_, b, eb)) in enumerate(zip(full, part)):
            if a is prog.FAILED or b is prog.FAILED:
                ctx.probe("step not comparable")
                if (a is prog.FAILED) != (b is prog.FAILED):
                    ctx.probe("refused on one side: " + name)
                continue
            ctx.state(name, mode, k * 4 // T, case["N"])
            ctx.check(len(a) == len(b), "lookahead", f"step {n} {name}: {len(a)} outputs, {len(b)} when the feed is {mode} at {k}")
            for x, y in zip(a, b):
                u, v = prefix(x, k, base.index), prefix(y, k, base.index)
                ctx.ev(n, name, x.name, mode, k, u)
                if not same(u, v):
                    ctx.fail("lookahead-" + name, f"step {n} {name}.{x.name} {case['steps'][n][2]} up to bar {k} changes when the feed is {mode} from bar {k}:\nwhole:\n{u}\n{mode}:\n{v}")


def warm(mode):
    import vectorbt  # noqa


SCENARIOS = [Scenario("feeds", gen, run, 900, 20000, real=REAL, stub=STUB, timeout=240)]
