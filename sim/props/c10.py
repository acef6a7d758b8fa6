"""C10: a fixed seed reproduces every random result, whatever ran before, and random generators honour their contract.

A run is a schedule over the process-wide generators (Python, NumPy and, when compiled, the JIT state): noise draws, foreign
seedings, unseeded calls and a few seeded calls of the library, each made several times.  Every repetition has to return what
the first one returned; every result is checked against the contract of its generator."""
import random

import numpy as np
import pandas as pd

from ..core import Scenario

REAL = ["signals.accessors generate_random*", "signals.generators RAND..RPROBNX", "signals.factory, indicators.factory seeding", "signals.nb random kernels",
        "portfolio.base from_orders, from_signals, from_order_func, from_random_signals", "portfolio.nb rejection and call sequences", "data.custom GBMData", "generic shuffle", "utils.random_"]
STUB = ["wall clock (GBMData gets explicit dates)"]
STATE = "call kind x parameters class x noise before the call x outcome"

SEEDS = (0, 1, 2, 42, 1000, 2 ** 31, 2 ** 32 - 1)


def gen_seed(r):
    return r.pick(*SEEDS) if r.random() < 0.5 else r.randint(0, 2 ** 32 - 1)


def gen_mask(r, T, N):
    p = r.pick(0.1, 0.3, 0.6)
    return [[bool(r.random() < p) for _ in range(N)] for _ in range(T)]


def gen_prob(r, T, N):
    m = r.pick("scalar", "cols", "full", "exact", "exact")
    v = lambda: r.pick(0.0, 1.0, 0.5, 0.2, 0.9, round(r.random(), 3))
    if m == "scalar":
        return v()
    if m == "cols":
        return [[v() for _ in range(N)]]
    if m == "full":
        return [[v() for _ in range(N)] for _ in range(T)]
    p = r.pick(0.2, 0.5, 0.8)
    return [[float(r.random() < p) for _ in range(N)] for _ in range(T)]


def waits(r):
    a, b = r.pick(0, 1, 1, 1, 2, 3), r.pick(0, 1, 1, 1, 2, 4)
    return (a, b) if a or b else (1, 1)


def gen_n(r, T, N):
    hi = max(1, T // 2)
    if r.random() < 0.4:
        return r.randint(0, hi)
    return [r.randint(0, hi) for _ in range(N)]


CALLS = {}


def call(name, gen, jit=True, weight=1):
    def deco(fn):
        CALLS[name] = (gen, fn, jit, weight)
        return fn
    return deco


def arr(x, N):
    return np.asarray(x) if isinstance(x, list) else x


def full(p, T, N):
    return np.broadcast_to(np.asarray(p, dtype=float), (T, N))


# ------------------------------------------------------------------ contracts
def no_prob(ctx, what, out, p):
    """Where the probability is zero nothing may be set."""
    if np.any(out & (p <= 0)):
        ctx.fail("probability-zero", f"{what}: signal where the probability is 0: {np.argwhere(out & (p <= 0)).tolist()}")


def chain_n(ctx, what, en, ex, ns, ew, xw):
    T = en.shape[0]
    for c in range(en.shape[1]):
        e, x, n = np.flatnonzero(en[:, c]), np.flatnonzero(ex[:, c]), int(ns[c])
        room = n == 0 or T >= (ew + xw) * (n - 1) + xw + 1
        if room:
            if len(e) != n or len(x) != n:
                ctx.fail("number-of-signals", f"{what}: column {c} asked for {n} pairs in {T} rows with waits {ew}/{xw}, got entries {e.tolist()} exits {x.tolist()}")
        elif len(e) > n or len(x) > n:
            ctx.fail("number-of-signals", f"{what}: column {c} asked for {n}, got {len(e)} and {len(x)}")
        order(ctx, what, c, e, x, ew, xw)


def order(ctx, what, c, e, x, ew, xw):
    """Entry, exit, entry, exit ... with the waits respected."""
    if len(x) > len(e) or len(e) > len(x) + 1:
        ctx.fail("alternation", f"{what}: column {c}: entries {e.tolist()} exits {x.tolist()}")
    for k in range(len(x)):
        if x[k] - e[k] < xw:
            ctx.fail("exit-wait", f"{what}: column {c}: entry {e[k]} exit {x[k]} wait {xw}")
        if k + 1 < len(e) and e[k + 1] - x[k] < ew:
            ctx.fail("entry-wait", f"{what}: column {c}: exit {x[k]} entry {e[k + 1]} wait {ew}")


def chain_prob(ctx, what, en, ex, pe, px, ew, xw):
    """Both pick_first: replay the chain; what was chosen has to be possible and no certain row may be skipped."""
    T = en.shape[0]
    for c in range(en.shape[1]):
        e, x = list(np.flatnonzero(en[:, c])), list(np.flatnonzero(ex[:, c]))
        at, turn = 0, 0
        while at < T:
            left, p = (e, pe) if turn == 0 else (x, px)
            certain = [i for i in range(at, T) if p[i, c] >= 1]
            if not left:
                if certain:
                    ctx.fail("probability-one", f"{what}: column {c}: certain {'entry' if turn == 0 else 'exit'} at {certain[0]} missing; entries {np.flatnonzero(en[:, c]).tolist()} exits {np.flatnonzero(ex[:, c]).tolist()} waits {ew}/{xw}")
                break
            i = left.pop(0)
            if i < at:
                ctx.fail("wait", f"{what}: column {c}: {'entry' if turn == 0 else 'exit'} at {i} before {at} (waits {ew}/{xw}) entries {np.flatnonzero(en[:, c]).tolist()} exits {np.flatnonzero(ex[:, c]).tolist()}")
            if certain and i > certain[0]:
                ctx.fail("probability-one", f"{what}: column {c}: certain row {certain[0]} skipped, next at {i}")
            if p[i, c] <= 0:
                ctx.fail("probability-zero", f"{what}: column {c}: signal at {i} with probability 0")
            at = i + (xw if turn == 0 else ew)
            turn = 1 - turn
        if e or x:
            ctx.fail("extra-signals", f"{what}: column {c}: signals left after the chain ended: {e} {x}")


def exits_of(ctx, what, en, ex, p, wait, until_next, skip):
    """Exits generated after given entries; p None means exactly one per entry."""
    T = en.shape[0]
    for c in range(en.shape[1]):
        e, x = np.flatnonzero(en[:, c]).tolist(), np.flatnonzero(ex[:, c]).tolist()
        desc = f"{what}: column {c}: entries {e} exits {x} wait {wait} until_next {until_next} skip {skip}"
        if p is not None and any(p[i, c] <= 0 for i in x):
            ctx.fail("probability-zero", desc)
        if until_next or skip:
            left, last = list(x), -1
            for k, i in enumerate(e):
                if skip and i <= last:
                    continue
                lo, hi = i + wait, (e[k + 1] if until_next and k + 1 < len(e) else T)
                if hi <= lo:
                    continue
                certain = [j for j in range(lo, hi) if p is None or p[j, c] >= 1]
                if left and left[0] < lo:
                    ctx.fail("exit-before", desc + f": exit {left[0]} belongs to no entry")
                if left and left[0] < hi:
                    j = left.pop(0)
                    if p is not None and certain and j > certain[0]:
                        ctx.fail("probability-one", desc + f": certain row {certain[0]} skipped")
                    last = j
                    if until_next and left and left[0] < hi:
                        ctx.fail("two-exits", desc + f": two exits between entries {i} and {hi}")
                else:
                    if certain:
                        ctx.fail("missing-exit", desc + f": no exit in [{lo}, {hi})")
                    if skip and not until_next:
                        break
            if left:
                ctx.fail("exit-without-entry", desc + f": {left}")
        else:
            # every entry draws from [entry + wait, T): exits can coincide
            if x and (not e or min(x) < e[0] + wait):
                ctx.fail("exit-before", desc)
            if len(x) > len(e):
                ctx.fail("two-exits", desc)
            for i in e:
                certain = [j for j in range(i + wait, T) if p is None or p[j, c] >= 1]
                if certain and not any(i + wait <= j for j in x):
                    ctx.fail("missing-exit", desc + f": entry {i}")


def frame_ok(ctx, what, obj, T, N):
    v = obj.values
    v = v.reshape(len(v), -1)
    if v.dtype != bool or v.shape != (T, N):
        ctx.fail("shape", f"{what}: {v.dtype} {v.shape} instead of bool {(T, N)}")
    return v


# ------------------------------------------------------------------ signals
def g_random(r):
    T, N = r.pick(1, 2, 5, 12, 12), r.randint(1, 3)
    by_n = r.random() < 0.5
    return dict(T=T, N=N, n=([r.randint(0, T + 1) for _ in range(N)] if r.random() < 0.6 else r.randint(0, T)) if by_n else None,
                prob=None if by_n else gen_prob(r, T, N), first=bool(not by_n and r.random() < 0.4))


@call("generate_random", g_random, weight=2)
def _(p, seed, ctx):
    import vectorbt  # noqa
    T, N = p["T"], p["N"]
    kw = dict(n=arr(p["n"], N)) if p["n"] is not None else dict(prob=arr(p["prob"], N), pick_first=p["first"])
    out = pd.DataFrame.vbt.signals.generate_random((T, N), seed=seed, **kw)
    if ctx is not None:
        v = frame_ok(ctx, "generate_random", out, T, N)
        if p["n"] is not None:
            want = [min(T, int(k)) for k in np.broadcast_to(p["n"], N)]
            if v.sum(axis=0).tolist() != want:
                ctx.fail("number-of-signals", f"generate_random n={p['n']} rows={T}: got {v.sum(axis=0).tolist()}")
        else:
            q = full(p["prob"], T, N)
            no_prob(ctx, "generate_random", v, q)
            for c in range(N):
                got, sure = np.flatnonzero(v[:, c]), np.flatnonzero(q[:, c] >= 1)
                if p["first"]:
                    if len(got) > 1 or (len(sure) and (not len(got) or got[0] > sure[0])):
                        ctx.fail("pick-first", f"generate_random pick_first: column {c}: {got.tolist()}, certain rows {sure.tolist()}")
                elif not set(sure) <= set(got):
                    ctx.fail("probability-one", f"generate_random: column {c}: certain rows {sure.tolist()}, got {got.tolist()}")
    return out


def g_stat(r):
    return dict(prob=r.pick(0.1, 0.3, 0.5, 0.7, 0.9), n=r.pick(50, 200), what=r.pick("prob", "n", "reject", "exit", "gbm"))


@call("frequency", g_stat, weight=1)
def _(p, seed, ctx):
    """Large draws: the frequency and position of signals stay within six standard deviations of what was asked."""
    import vectorbt as vbt
    T = 2000
    off = None
    if p["what"] == "prob":
        out = pd.DataFrame.vbt.signals.generate_random((T, 1), prob=p["prob"], seed=seed)
        off = (out.values.mean() - p["prob"]) / np.sqrt(p["prob"] * (1 - p["prob"]) / T)
    elif p["what"] == "n":
        out = pd.DataFrame.vbt.signals.generate_random((T, 1), n=p["n"], seed=seed)
        off = (np.flatnonzero(out.values).mean() - (T - 1) / 2) / (T / np.sqrt(12 * p["n"]))
    elif p["what"] == "reject":
        out = pd.DataFrame(vbt.Portfolio.from_orders(np.full(T, 1.0), np.full(T, 0.001), reject_prob=p["prob"], seed=seed, init_cash=1e6).order_records["idx"])
        off = ((1 - len(out) / T) - p["prob"]) / np.sqrt(p["prob"] * (1 - p["prob"]) / T)
    elif p["what"] == "exit":
        en = pd.DataFrame(np.arange(T) % 20 == 0)
        out = en.vbt.signals.generate_random_exits(seed=seed)
        d = np.flatnonzero(out.values) - np.flatnonzero(en.values)
        off = (d.mean() - 10) / (np.sqrt((19 ** 2 - 1) / 12) / np.sqrt(len(d)))
    else:
        from vectorbt.data.custom import generate_gbm_paths
        out = pd.DataFrame(generate_gbm_paths(100.0, 0.0, 0.05, T, T, 1, seed=seed))
        r = np.diff(np.log(out.values[:, 0]))
        off = (r.mean() + 0.5 * 0.05 ** 2) / (0.05 / np.sqrt(T))
        if ctx is not None and abs(r.std() / 0.05 - 1) > 0.15:
            ctx.fail("frequency", f"GBM volatility {r.std()} instead of 0.05")
    if ctx is not None and abs(off) > 6:
        ctx.fail("frequency", f"{p}: {off} standard deviations away")
    return out


def g_both(r):
    T, N = r.pick(1, 3, 6, 12, 20, 40), r.randint(1, 3)
    by_n = r.random() < 0.6
    ew, xw = waits(r)
    d = dict(T=T, N=N, ew=ew, xw=xw, n=None, pe=None, px=None, ef=True, xf=True)
    if by_n:
        hi = max(1, (T + 1) // max(1, ew + xw))
        d["n"] = [r.randint(0, hi + (r.random() < 0.1)) for _ in range(N)] if r.random() < 0.7 else r.randint(0, hi)
    else:
        d.update(pe=gen_prob(r, T, N), px=gen_prob(r, T, N), ef=r.random() < 0.85, xf=r.random() < 0.85)
    return d


def both_contract(ctx, what, en, ex, p):
    T, N = en.shape
    if p["n"] is not None:
        chain_n(ctx, what, en, ex, np.broadcast_to(p["n"], N), p["ew"], p["xw"])
    else:
        pe, px = full(p["pe"], T, N), full(p["px"], T, N)
        no_prob(ctx, what + " entries", en, pe)
        no_prob(ctx, what + " exits", ex, px)
        if p["ef"] and p["xf"]:
            chain_prob(ctx, what, en, ex, pe, px, p["ew"], p["xw"])


@call("generate_random_both", g_both, weight=3)
def _(p, seed, ctx):
    import vectorbt  # noqa
    T, N = p["T"], p["N"]
    kw = dict(n=arr(p["n"], N)) if p["n"] is not None else dict(entry_prob=arr(p["pe"], N), exit_prob=arr(p["px"], N), entry_pick_first=p["ef"], exit_pick_first=p["xf"])
    out = pd.DataFrame.vbt.signals.generate_random_both((T, N), seed=seed, entry_wait=p["ew"], exit_wait=p["xw"], **kw)
    if ctx is not None:
        both_contract(ctx, "generate_random_both", frame_ok(ctx, "entries", out[0], T, N), frame_ok(ctx, "exits", out[1], T, N), p)
    return out


def feasible(p):
    if p["n"] is None:
        return True
    T, ew, xw = p["T"], p["ew"], p["xw"]
    return all(n == 0 or T >= (ew + xw) * (n - 1) + xw + 1 for n in np.broadcast_to(p["n"], p["N"]))


def g_exits(r):
    T, N = r.pick(1, 3, 6, 12, 20), r.randint(1, 3)
    return dict(T=T, N=N, entries=gen_mask(r, T, N), prob=gen_prob(r, T, N) if r.random() < 0.6 else None, wait=r.pick(0, 1, 1, 2, 4), until=r.random() < 0.6, skip=r.random() < 0.4)


@call("generate_random_exits", g_exits, weight=2)
def _(p, seed, ctx):
    import vectorbt  # noqa
    T, N = p["T"], p["N"]
    en = pd.DataFrame(np.array(p["entries"], dtype=bool).reshape(T, N))
    out = en.vbt.signals.generate_random_exits(prob=arr(p["prob"], N), wait=p["wait"], until_next=p["until"], skip_until_exit=p["skip"], seed=seed)
    if ctx is not None:
        v = frame_ok(ctx, "exits", out, T, N)
        exits_of(ctx, "generate_random_exits", en.values, v, None if p["prob"] is None else full(p["prob"], T, N), p["wait"], p["until"], p["skip"])
    return out


def g_factory(r):
    d = g_both(r)
    d["T"] = max(2, d["T"])
    d.update(which=r.pick("RAND", "RANDX", "RANDNX", "RPROB", "RPROBX", "RPROBCX", "RPROBNX"), entries=gen_mask(r, d["T"], d["N"]))
    T, N = d["T"], d["N"]
    hi = max(1, (T + 1) // max(1, d["ew"] + d["xw"]))
    d["ns"] = [r.randint(0, hi - 1) for _ in range(r.randint(1, 3))]
    d["probs"] = [[r.pick(0.0, 1.0, 0.3, 0.7), r.pick(0.0, 1.0, 0.3, 0.7)] for _ in range(r.randint(1, 3))]
    d["wait"], d["until"], d["skip"] = r.pick(0, 1, 1, 2), r.random() < 0.6, r.random() < 0.4
    return d


@call("factory", g_factory, weight=3)
def _(p, seed, ctx):
    import vectorbt as vbt
    T, N, which = p["T"], p["N"], p["which"]
    cls = getattr(vbt, which)
    en = pd.DataFrame(np.array(p["entries"], dtype=bool).reshape(T, -1)[:, :N])
    shape = dict(input_shape=(T, N))
    cols = lambda f, k: f.values.reshape(T, -1)[:, k * N:(k + 1) * N]
    if which == "RAND":
        o = cls.run(n=list(p["ns"]), seed=seed, **shape)
        if ctx is not None:
            for k, n in enumerate(p["ns"]):
                got = cols(o.entries, k).sum(axis=0).tolist()
                if got != [min(T, n)] * N:
                    ctx.fail("number-of-signals", f"RAND n={p['ns']}: set {k} has {got}")
        return o.entries
    if which == "RANDNX":
        o = cls.run(n=list(p["ns"]), entry_wait=p["ew"], exit_wait=p["xw"], seed=seed, **shape)
        if ctx is not None:
            for k, n in enumerate(p["ns"]):
                chain_n(ctx, "RANDNX", cols(o.entries, k), cols(o.exits, k), [n] * N, p["ew"], p["xw"])
        return o.entries, o.exits
    if which == "RANDX":
        o = cls.run(en, wait=p["wait"], until_next=p["until"], skip_until_exit=p["skip"], seed=seed)
        if ctx is not None:
            exits_of(ctx, "RANDX", en.values, cols(o.exits, 0), None, p["wait"], p["until"], p["skip"])
        return o.exits
    probs = [a for a, _ in p["probs"]]
    if which == "RPROB":
        o = cls.run(prob=probs, seed=seed, **shape)
        if ctx is not None:
            for k, q in enumerate(probs):
                v = cols(o.entries, k)
                no_prob(ctx, "RPROB", v, np.full(v.shape, q))
                if q >= 1 and not v.all():
                    ctx.fail("probability-one", f"RPROB prob={probs}: set {k}: {v.tolist()}")
        return o.entries
    if which == "RPROBX":
        o = cls.run(en, prob=probs, wait=p["wait"], until_next=p["until"], skip_until_exit=p["skip"], seed=seed)
        if ctx is not None:
            for k, q in enumerate(probs):
                exits_of(ctx, "RPROBX", en.values, cols(o.exits, k), np.full((T, N), q), p["wait"], p["until"], p["skip"])
        return o.exits
    if which == "RPROBCX":
        o = cls.run(en, prob=probs, entry_wait=p["ew"], exit_wait=p["xw"], seed=seed)
        if ctx is not None:
            for k, q in enumerate(probs):
                chain_prob(ctx, "RPROBCX", cols(o.new_entries, k), cols(o.exits, k), en.values.astype(float), np.full((T, N), q), p["ew"], p["xw"])
        return o.new_entries, o.exits
    o = cls.run(entry_prob=probs, exit_prob=[b for _, b in p["probs"]], entry_wait=p["ew"], exit_wait=p["xw"], seed=seed, **shape)
    if ctx is not None:
        for k, (a, b) in enumerate(p["probs"]):
            chain_prob(ctx, "RPROBNX", cols(o.entries, k), cols(o.exits, k), np.full((T, N), a), np.full((T, N), b), p["ew"], p["xw"])
    return o.entries, o.exits


# ------------------------------------------------------------------ portfolios
def prices(p):
    rnd = random.Random(p["feed"])
    return pd.DataFrame([[round(rnd.uniform(5, 15), 2) for _ in range(p["N"])] for _ in range(p["T"])])


def g_pf(r):
    T, N = r.pick(3, 6, 12), r.randint(1, 4)
    return dict(T=T, N=N, feed=r.randint(0, 10 ** 6), n=r.randint(0, T // 2), by=r.pick("n", "n", "prob"), probs=[r.pick(0.0, 1.0, 0.3, 0.7), r.pick(0.0, 1.0, 0.3, 0.7)],
                source=r.pick("arg", "arg", "settings"), reject=r.pick(0.0, 0.0, 0.3, 0.7, 1.0), groups=sorted(r.pick(0, 0, 1) for _ in range(N)), seq=r.pick("random", "random", "default"),
                kind=r.pick("orders", "signals"), size=[[r.pick(-1.0, 1.0, 2.0, 0.5) for _ in range(N)] for _ in range(T)], en=gen_mask(r, T, N), ex=gen_mask(r, T, N), flex=bool(r.random() < 0.4),
                rowwise=bool(r.random() < 0.3))


def with_seed(p, seed, fn):
    """Give the seed as an argument or through the settings."""
    import vectorbt as vbt
    if seed is None or p.get("source") != "settings":
        return fn(dict(seed=seed))
    old = vbt.settings["portfolio"]["seed"]
    vbt.settings["portfolio"]["seed"] = seed
    try:
        return fn({})
    finally:
        vbt.settings["portfolio"]["seed"] = old


def orders_of(pf):
    return pd.DataFrame({k: pf.order_records[k] for k in pf.order_records.dtype.names})


@call("from_random_signals", g_pf)
def _(p, seed, ctx):
    import vectorbt as vbt
    kw = dict(n=p["n"]) if p["by"] == "n" else (dict(prob=p["probs"][0]) if p["feed"] % 2 else dict(entry_prob=p["probs"][0], exit_prob=p["probs"][1]))
    pf = with_seed(p, seed, lambda s: vbt.Portfolio.from_random_signals(prices(p), reject_prob=p["reject"], **kw, **s))
    o = orders_of(pf)
    if ctx is not None:
        if p["reject"] == 1 and len(o):
            ctx.fail("reject-one", f"orders despite rejection probability 1: {o.to_dict('records')}")
        if p["by"] == "n" and p["reject"] == 0 and p["n"] * 2 <= p["T"]:
            got = [int((o["col"] == c).sum()) for c in range(p["N"])]
            if got != [2 * p["n"]] * p["N"]:
                ctx.fail("number-of-signals", f"from_random_signals n={p['n']}: orders per column {got}")
    return o


@call("call_seq", g_pf, weight=2)
def _(p, seed, ctx):
    import vectorbt as vbt
    close = prices(p)
    kw = dict(group_by=np.array(p["groups"]), cash_sharing=True, call_seq=p["seq"], attach_call_seq=True, reject_prob=p["reject"], init_cash=30.0)

    def make(s):
        if p["kind"] == "orders":
            return vbt.Portfolio.from_orders(close, np.array(p["size"]), **kw, **s)
        return vbt.Portfolio.from_signals(close, np.array(p["en"]), np.array(p["ex"]), **kw, **s)
    pf = with_seed(p, seed, make)
    seq, o = pf.call_seq, orders_of(pf)
    if ctx is not None:
        v = seq.values.reshape(p["T"], -1)
        at = 0
        for g in sorted(set(p["groups"])):
            k = p["groups"].count(g)
            for i in range(p["T"]):
                if sorted(v[i, at:at + k]) != list(range(k)):
                    ctx.fail("call-sequence", f"row {i} group {g}: {v[i, at:at + k].tolist()} is no permutation")
                if p["seq"] == "default" and v[i, at:at + k].tolist() != list(range(k)):
                    ctx.fail("call-sequence", f"default sequence row {i}: {v[i].tolist()}")
            at += k
        if p["reject"] == 1 and len(o):
            ctx.fail("reject-one", "orders despite rejection probability 1")
    return seq, o


def _order_py(c, size):
    from vectorbt.portfolio import nb
    if np.random.uniform(0, 1) < 0.2 or random.random() < 0.2:
        return nb.order_nothing_nb()
    return nb.order_nb(size=size * np.random.choice(np.array([-1.0, 1.0, 2.0])), price=c.close[c.i, c.col], reject_prob=0.2)


def _flex_py(c, size):
    from vectorbt.portfolio import nb
    col = c.from_col + int(np.random.randint(0, c.to_col - c.from_col))
    if c.call_idx >= 2:
        return -1, nb.order_nothing_nb()
    return col, nb.order_nb(size=size * random.choice([-1.0, 1.0, 2.0]), price=c.close[c.i, col], reject_prob=0.2)


@call("from_order_func", g_pf)
def _(p, seed, ctx):
    import vectorbt as vbt
    def make(s):
        return vbt.Portfolio.from_order_func(prices(p), _flex_py if p["flex"] else _order_py, 1.0, flexible=p["flex"], row_wise=p["rowwise"], use_numba=False, group_by=np.array(p["groups"]),
                                             cash_sharing=True, init_cash=30.0, max_orders=p["T"] * p["N"] * 4 + 10, **({} if p["flex"] else dict(call_seq=p["seq"])), **s)
    return orders_of(with_seed(p, seed, make))


# ------------------------------------------------------------------ data and columns
@call("gbm", lambda r: dict(T=r.pick(2, 5, 12), I=r.pick(1, 1, 3), symbols=r.pick(1, 2, 3), own=r.random() < 0.5, S0=r.pick(1.0, 100.0), sigma=r.pick(0.0, 0.05, 0.3)))
def _(p, seed, ctx):
    import vectorbt as vbt
    syms = ["a", "b", "c"][:p["symbols"]]
    s = vbt.symbol_dict({k: seed + j if seed < 2 ** 32 - 3 else seed - j for j, k in enumerate(syms)}) if p["own"] and seed is not None else seed
    d = vbt.GBMData.download(syms, start="2020-01-01", end=str(pd.Timestamp("2020-01-01") + pd.Timedelta(days=p["T"] - 1)), freq="1D", S0=p["S0"], sigma=p["sigma"], I=p["I"], seed=s)
    out = {k: pd.DataFrame(d.data[k]) for k in syms}
    if ctx is not None:
        for k, f in out.items():
            if f.shape != (p["T"], p["I"]) or not (f.values > 0).all():
                ctx.fail("synthetic-data", f"symbol {k}: shape {f.shape} for {p['T']} rows {p['I']} paths: {f.values.tolist()}")
            if p["sigma"] == 0 and not (abs(f.values - p["S0"]) < 1e-9 * p["S0"]).all():
                ctx.fail("synthetic-data", f"no volatility, yet the price moves: {f.values.tolist()}")
        if not p["own"]:
            for k in syms[1:]:
                if not (out[k].values == out[syms[0]].values).all():
                    ctx.fail("same-seed", f"symbols {syms[0]} and {k} share one seed and differ")
        elif p["sigma"] > 0 and len(syms) > 1 and (out[syms[0]].values == out[syms[1]].values).all():
            ctx.fail("own-seed", "symbols with different seeds are equal")
    return list(out.values())


@call("shuffle", lambda r: dict(T=r.pick(1, 4, 9), N=r.randint(1, 3), feed=r.randint(0, 10 ** 6), series=r.random() < 0.3))
def _(p, seed, ctx):
    import vectorbt  # noqa
    x = prices(p)
    x = x[0] if p["series"] else x
    out = x.vbt.shuffle(seed=seed)
    if ctx is not None:
        a, b = np.sort(x.values.reshape(p["T"], -1), axis=0), np.sort(out.values.reshape(p["T"], -1), axis=0)
        if a.shape != b.shape or not (a == b).all():
            ctx.fail("shuffle", f"values changed: {x.values.tolist()} -> {out.values.tolist()}")
    return out


def _noise_func(x, k):
    return x + k * np.random.normal(size=x.shape) + random.random()


@call("indicator", lambda r: dict(T=r.pick(1, 4, 9), N=r.randint(1, 3), feed=r.randint(0, 10 ** 6), ks=[r.randint(0, 3) for _ in range(r.randint(1, 3))], per=r.random() < 0.3))
def _(p, seed, ctx):
    import vectorbt as vbt
    ind = vbt.IndicatorFactory(input_names=["x"], param_names=["k"], output_names=["out"]).from_apply_func(_noise_func)
    return ind.run(prices(p), p["ks"], seed=seed).out


@call("set_seed", lambda r: dict(k=r.randint(1, 5)))
def _(p, seed, ctx):
    from vectorbt.utils.random_ import set_seed
    if seed is not None:
        set_seed(seed)
    out = [random.random() for _ in range(p["k"])] + [float(x) for x in np.random.uniform(size=p["k"])] + [float(np.random.standard_normal())]
    return pd.Series(out), pd.DataFrame.vbt.signals.generate_random((8, 1), n=3)


# ------------------------------------------------------------------ schedule
def noise(k, a):
    """One disturbance of the process-wide generators."""
    import vectorbt  # noqa
    if k == "py":
        [random.random() for _ in range(a)]
    elif k == "np":
        np.random.uniform(size=a)
    elif k == "normal":
        [np.random.standard_normal() for _ in range(a)]
    elif k == "jit":
        pd.DataFrame.vbt.signals.generate_random((a + 1, 1), n=1)
    elif k == "seedpy":
        random.seed(a)
    elif k == "seednp":
        np.random.seed(a)
    elif k == "seedjit":
        pd.DataFrame.vbt.signals.generate_random((3, 1), n=1, seed=a)
    elif k == "seedall":
        from vectorbt.utils.random_ import set_seed
        set_seed(a)


NOISE = ("py", "np", "normal", "jit", "seedpy", "seednp", "seedjit", "seedall")


def gen(rng):
    return gen_from(rng, list(CALLS))


def gen_jit(rng):
    return gen_from(rng, [k for k in CALLS if CALLS[k][2]])


def gen_from(rng, names):
    pool = [n for n in names for _ in range(CALLS[n][3])]
    calls = []
    for _ in range(rng.randint(2, 4)):
        n = rng.pick(*pool)
        calls.append([n, CALLS[n][0](rng), gen_seed(rng)])
    if rng.random() < 0.3:
        calls[-1][2] = calls[0][2]
    order = [i for i in range(len(calls)) for _ in range(rng.randint(2, 3))]
    rng.shuffle(order)
    sched = []
    for i in order:
        for _ in range(rng.pick(0, 1, 2, 3)):
            sched.append(["noise", rng.pick(*NOISE), rng.randint(1, 9)])
        if rng.random() < 0.25:
            sched.append(["free", rng.randint(0, len(calls) - 1)])
        sched.append(["call", i])
    return dict(calls=calls, sched=sched)


def canon(v):
    if isinstance(v, (tuple, list)):
        return [canon(x) for x in v]
    return [list(map(str, v.index)), [str(c) for c in v.columns] if isinstance(v, pd.DataFrame) else str(v.name), [repr(x) for x in np.asarray(v).ravel().tolist()]]


def invoke(c, seed, ctx):
    try:
        return canon(CALLS[c[0]][1](c[1], seed, ctx)), None
    except (ValueError, TypeError, IndexError, AssertionError, KeyError, ZeroDivisionError) as e:
        return None, e


def run(case, ctx):
    import vectorbt  # noqa
    random.seed(7)
    np.random.seed(7)
    first, since = {}, []
    for step in case["sched"]:
        if step[0] == "noise":
            noise(step[1], step[2])
            ctx.fault("noise " + step[1])
            since.append(step[1])
            continue
        if step[1] >= len(case["calls"]):
            continue
        c = case["calls"][step[1]]
        if step[0] == "free":
            invoke(c, None, None)
            ctx.fault("unseeded call")
            since.append("free")
            continue
        ctx.tick(60)
        got, err = invoke(c, c[2], ctx)
        ctx.state(c[0], c[1].get("which"), sorted(set(since))[:3], err is None)
        ctx.ev(step[1], c[0], c[2], got if err is None else type(err).__name__)
        since = []
        if err is not None:
            ok = c[0] in ("generate_random_both", "factory") and not feasible(dict(c[1], n=c[1]["n"] if c[0] == "generate_random_both" else max(c[1]["ns"]))) and isinstance(err, ValueError)
            if not ok:
                ctx.fail("refused", f"{c[0]} {c[1]} seed {c[2]}: {err!r}")
            ctx.probe("more signals asked than fit")
        key = step[1]
        if key not in first:
            first[key] = (got, type(err))
            continue
        if first[key] != (got, type(err)):
            ctx.fail("not-reproduced", f"{c[0]} {c[1]} seed {c[2]}: first {first[key]}, now {got if err is None else err!r}")


def shrink(case):
    for i in range(len(case["sched"])):
        yield dict(case, sched=case["sched"][:i] + case["sched"][i + 1:])


def warm(mode):
    if mode == "jit":
        from ..core import Ctx, Rng  # noqa
        for k in range(40):
            c = gen_jit(Rng(k))
            for x in c["calls"]:
                invoke(x, x[2], None)


SCENARIOS = [
    Scenario("seeds", gen, run, 900, 40000, shrink=shrink, real=REAL, stub=STUB),
    Scenario("compiled", gen_jit, run, 240, 8000, shrink=shrink, jit=True, real=REAL, stub=STUB),
]
