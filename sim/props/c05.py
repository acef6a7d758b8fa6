"""C05: signals and stop orders.  Entry/exit signals and an OHLC feed drive the real Portfolio.from_signals; a
bar-by-bar state machine (sim/pf.py run_signals) decides which order each bar must give, and the reference venue executes
it.  Faults: missing and partial bars, corrupt bars, venue outages, callbacks that raise."""
import copy

import numpy as np
import pandas as pd

from .. import pf
from ..core import Scenario, close as eq
from ..pf import NAN, INF
from . import c01, c02

import vectorbt as vbt
from vectorbt.portfolio import enums as en

REAL = ["Portfolio.from_signals", "portfolio.nb simulate_from_signals/simulate_from_signal_func and its signal and stop helpers"]
STUB = ["OHLC feed", "signal stream", "venue rejections"]
STATE = "order outcome x side x position before x stop kind that fired"

ENUMS = dict(accumulate=en.AccumulationMode, upon_long_conflict=en.ConflictMode, upon_short_conflict=en.ConflictMode,
             upon_dir_conflict=en.DirectionConflictMode, upon_opposite_entry=en.OppositeEntryMode, stop_entry_price=en.StopEntryPrice,
             stop_exit_price=en.StopExitPrice, upon_stop_exit=en.StopExitMode, upon_stop_update=en.StopUpdateMode,
             direction=en.Direction, size_type=en.SizeType)


def ohlc(rng, close, gaps, corrupt):
    T, N = len(close), len(close[0])
    out = dict(open=[], high=[], low=[])
    prev = [None] * N
    for i in range(T):
        row = dict(open=[], high=[], low=[])
        for c in range(N):
            x = close[i][c]
            p = prev[c] if prev[c] is not None else (x if x == x else 10.0)
            o = max(0.25, p + rng.pick(0, 0, 0, 0.25, -0.25, 0.5, -0.5, 2, -2))
            ref = x if x == x else o
            h = max(o, ref) + rng.pick(0, 0, 0.25, 0.5, 1, 3)
            l = max(0.25, min(o, ref) - rng.pick(0, 0, 0.25, 0.5, 1, 3))
            if rng.chance(corrupt):
                h, l = l, h
            if x != x and rng.chance(0.8):
                o = h = l = NAN
            for k, v in (("open", o), ("high", h), ("low", l)):
                row[k].append(NAN if rng.chance(gaps) else v)
            if x == x:
                prev[c] = x
        for k in row:
            out[k].append(row[k])
    return out


def mode(rng, T, N, n, base):
    """A mode argument, mostly one value for the run."""
    x = rng.random()
    if x < 0.7:
        return dict(m="s", v=rng.randrange(n))
    if x < 0.85:
        return dict(m="c", v=[rng.randrange(n) for _ in range(N)])
    return dict(m="f", d=rng.randrange(n), v=c01.sparse(rng, T, N, 0.4, lambda: rng.randrange(n)))


def gen(rng, dyn=False, maxT=20):
    T = rng.pick(3, 5, 8, 12, maxT)
    share = rng.chance(0.3)
    groups = [rng.randint(1, 3) for _ in range(rng.randint(1, 2))] if share else [1] * rng.randint(1, 3)
    N = sum(groups)
    exact = rng.chance(0.75)
    close = pf.gen_feed(rng, T, N, gaps=rng.pick(0, 0, 0.05, 0.2), wild=rng.pick(0, 0, 0, 0.05), grid=exact)
    feats = [f for f in ("fees", "fixed", "slip", "min", "max", "gran", "lock", "part", "outage", "price", "valp", "log") if rng.chance(0.2)]
    F = c01.gen_orders(rng, T, N, feats, 0.5)
    F.pop("size_type", None)
    k = rng.pick("amount", "amount", "amount", "value", "pct", "inf", "mixed")
    vals = dict(amount=(0.5, 1, 1, 2, 3, 10), value=(5, 10, 50, 100), pct=(0.1, 0.5, 1.0, 0.25), inf=(INF,), mixed=(1, 2, INF, NAN, 0, 0.5))[k]
    F["size"] = c01.field(rng, T, N, lambda: float(rng.pick(*vals)), float(vals[0]))
    if k in ("value", "pct"):
        F["size_type"] = dict(m="s", v=1 if k == "value" else 2)
    if rng.chance(0.01):
        F["size_type"] = dict(m="s", v=rng.pick(3, 4, 5))
    if rng.chance(0.01):
        F["size"] = dict(m="f", d=1.0, v=[[rng.randrange(T), rng.randrange(N), -1.0]])
    ls = rng.chance(0.5)
    den = rng.pick(0.1, 0.3, 0.6)
    for n in ("entries", "exits") + (("short_entries", "short_exits") if ls else ()):
        F[n] = dict(m="f", d=False, v=c01.sparse(rng, T, N, den * rng.pick(0.3, 1, 1), lambda: True)) if rng.chance(0.93) else dict(m="s", v=rng.chance(0.5))
    if not ls:
        F["direction"] = mode(rng, T, N, 3, 2)
    for n, e in ENUMS.items():
        if n not in ("direction", "size_type") and rng.chance(0.5):
            F[n] = mode(rng, T, N, len(e), 0)
    if rng.chance(0.7):
        steps = (0.125, 0.25, 0.5, 0.0625, 0.03125, 0.125, 0.25, INF, NAN, 0.0) if exact else (0.1, 0.05, 0.02, 0.3, INF, NAN)
        if rng.chance(0.8):
            F["sl_stop"] = c01.field(rng, T, N, lambda: rng.pick(*steps), NAN, 0.8)
            if rng.chance(0.6):
                F["sl_trail"] = c01.field(rng, T, N, lambda: rng.chance(0.7), False, 0.7)
        if rng.chance(0.7):
            F["tp_stop"] = c01.field(rng, T, N, lambda: rng.pick(*steps), NAN, 0.8)
        if rng.chance(0.02):
            F["sl_stop"] = dict(m="f", d=0.25, v=[[rng.randrange(T), rng.randrange(N), -0.125]])
    c = dict(groups=groups, share=share, cash=[float(rng.pick(100, 100, 1000, 10, 55.5)) for _ in range(len(groups) if share else N)],
             close=close, fields=F, ffill=not rng.chance(0.1), uv=rng.chance(0.25), ls=ls)
    if rng.chance(0.7):
        o = ohlc(rng, close, rng.pick(0, 0, 0.1), rng.pick(0, 0, 0, 0.05))
        for n in o:
            if rng.chance(0.85):
                c[n] = o[n]
    if rng.chance(0.1):
        c["use_stops"] = rng.chance(0.7)
    c["names"] = rng.chance(0.3)
    c["seqkind"] = rng.pick("default", "reversed", "custom", "auto", "auto") if share else "default"
    if c["seqkind"] == "custom":
        c["perm"] = [[rng.sample(range(n), n) for n in groups] for _ in range(T)]
    c["engine_dyn"] = False
    if dyn:
        c["engine_dyn"] = True
        c["adj"] = rng.pick(None, "keep", "entry", "entry", "script", "script", "step")
        c["sigfun"] = rng.chance(0.7) or c["adj"] is None
        if c["adj"] == "entry":
            F["upon_stop_update"] = dict(m="s", v=2)
            c.pop("use_stops", None)
            if "sl_stop" not in F and "tp_stop" not in F:
                F["sl_stop"] = dict(m="s", v=0.25)
        if c["adj"] == "script":
            c["script"] = [[i, k, rng.pick(None, NAN, 0.125, 0.25, 0.5, 0.0625, 0.0), rng.pick(None, True, False), rng.pick(None, NAN, 0.125, 0.25, 0.5)]
                           for i in range(T) for k in range(N) if rng.chance(0.3)]
        c["fail"] = [rng.random(), rng.pick("value", "flag")] if rng.chance(0.2) else None
    return c


class Flag(Exception):
    pass


def arg(case, n):
    v = pf.given(case, n)
    e = ENUMS.get(n)
    if case.get("names") and e is not None and np.ndim(v) == 0 and n != "size_type":
        v = e._fields[int(v)]
    return v


def call(case, hooks=None, **kw):
    T, N = pf.dims(case)
    cols = list("abcdefghijklmnop"[:N])
    df = lambda k: pd.DataFrame(pf.close_arr(case, k), columns=cols)
    if case.get("full"):  # one compiled specialisation for all runs
        args = {n: pf.dense(case, n) for n in pf.ORDER_FIELDS + ("val_price",) + pf.SIG_FIELDS}
    else:
        args = {n: arg(case, n) for n in pf.ORDER_FIELDS + ("val_price",)}
        args.update({n: arg(case, n) for n in pf.SIG_FIELDS if n in case["fields"] or n == "upon_opposite_entry"})
    for k in ("open", "high", "low"):
        if case.get(k) is not None:
            args[k] = df(k)
    if case.get("ls"):
        args.pop("direction", None)
        for n in ("short_entries", "short_exits"):
            args.setdefault(n, False)
    for n in ("entries", "exits"):
        args.setdefault(n, False)
    if not case.get("ls"):
        for n in ("short_entries", "short_exits"):
            args.pop(n, None)
    if case["share"]:
        kw.setdefault("group_by", np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]]))
        kw["cash_sharing"] = True
        k = case.get("seqkind", "default")
        kw.setdefault("call_seq", c02.call_seq_arg(dict(case, kind=k)))
        kw["attach_call_seq"] = True
    if case.get("use_stops") is not None:
        kw["use_stops"] = bool(case["use_stops"])
    if hooks is not None:
        hooks(args, kw)
    return vbt.Portfolio.from_signals(df("close"), init_cash=np.asarray(pf.init_cash(case)), ffill_val_price=case.get("ffill", True),
                                      update_value=case.get("uv", False), **{**args, **kw})


def reference(ctx, case, seq, **kw):
    spans = pf.accounts(case)
    T, N = pf.dims(case)
    k = case.get("seqkind", "default")

    def follow(i, lo, hi, vals):
        s = seq[i, lo:hi].tolist() if seq is not None else pf.asc_order(vals)
        v = [vals[x] for x in s if not pf.isnan(vals[x])]
        for x, y in zip(v, v[1:]):
            ctx.check(x <= y or eq(x, y, 1e-7, 1e-7), "auto-not-ascending",
                      lambda: f"bar {i} columns {lo}..{hi}: processed {s} with order values {[vals[x] for x in s]}")
        return s

    if k == "reversed":
        seqs = [[list(range(hi - lo))[::-1] for lo, hi in spans] for _ in range(T)]
    elif k == "custom":
        seqs = [[c02.local(case, i, a, hi - lo) for a, (lo, hi) in enumerate(spans)] for i in range(T)]
    else:
        seqs = None
    return pf.run_signals(case, seqs=seqs, auto=case["share"] and k == "auto", ffill=case.get("ffill", True), update_value=case.get("uv", False),
                          seq_out=follow, **kw)


def account(ctx, case, ref):
    c01.account(ctx, case, ref)
    for k in ("open", "high", "low"):
        if case.get(k) is not None:
            n = int(np.isnan(pf.close_arr(case, k)).sum())
            if n:
                ctx.fault("missing-" + k, n)
    if case.get("high") is not None and case.get("low") is not None:
        n = int((pf.close_arr(case, "high") < pf.close_arr(case, "low")).sum())
        if n:
            ctx.fault("corrupt-bar", n)
    fired = {(i, c): k for i, c, k in ref.stops}
    for i, c, k in ref.stops:
        ctx.probe("stop-" + k)
    for l in ref.logs:
        b, a = l["before"][1], l["after"][1]
        ctx.state("sig", l["result"]["status"], l["result"]["info"], (b > 0) - (b < 0), (a > 0) - (a < 0), abs(a) > abs(b), fired.get((l["idx"], l["col"])))


def judge(ctx, case, ref, port, err, msg):
    if ref.tie:
        ctx.probe("decided-by-rounding")
        return
    if ref.big > 1e9:
        ctx.probe("amounts-beyond-float-precision")
        return
    if ref.error is not None:
        auto = case["share"] and case.get("seqkind") == "auto"
        ctx.check(err == ref.error.kind or (auto and err is not None), "error-missing" if err is None else "error-kind",
                  f"the contract requires {ref.error}, got {err} {msg}")
        return
    ctx.check(err is None, "error-unexpected", f"{err}: {msg}")
    c01.invariants(ctx, port.log_records)
    c01.cmp_records(ctx, port.order_records, ref.fills, big=ref.big)
    c01.cmp_logs(ctx, port.log_records, ref.logs, big=ref.big)


def run(case, ctx):
    port, err, msg = c01.attempt(lambda: call(case))
    seq = port.call_seq.values if port is not None and case["share"] else None
    ref = reference(ctx, case, seq)
    account(ctx, case, ref)
    ctx.ev("ran", err, [f[:2] for f in ref.fills][:50])
    judge(ctx, case, ref, port, err, msg)


# ------------------------------------------------------------------ dynamic callbacks
def run_dynamic(case, ctx):
    """The same history with signals and stops coming from callbacks."""
    T, N = pf.dims(case)
    F = {n: pf.dense(case, n).tolist() for n in pf.SIG_FIELDS + ("direction",)}
    adj = case.get("adj")
    script = {(i, c): (a, b, d) for i, c, a, b, d in case.get("script", [])}
    seen, want = [], []
    stop = None

    def see(*x):
        seen.append(x)
        if stop is not None and len(seen) - 1 == stop:
            raise (ValueError if case["fail"][1] == "value" else Flag)("scripted")

    def step(pos, valp, at, sl, trail):
        p = (valp - at) / at if at == at and at else NAN
        return (0.125, True) if p >= 0.5 else (0.25, True) if p >= 0.25 else (sl, trail)

    def signal(c, *a):
        see("signal", c.i, c.col, c.position_now, c.val_price_now)
        e, x = F["entries"][c.i][c.col], F["exits"][c.i][c.col]
        if case.get("ls"):
            return e, x, F["short_entries"][c.i][c.col], F["short_exits"][c.i][c.col]
        d = F["direction"][c.i][c.col]
        return (e, x, False, False) if d == pf.LONG else (False, False, e, x) if d == pf.SHORT else (e, False, x, False)

    def adjust_sl(c, *a):
        see("adjust_sl", c.i, c.col, c.position_now, c.val_price_now, c.init_i, c.init_price, c.curr_i, c.curr_price, c.curr_stop, float(c.curr_trail))
        if adj == "entry":
            return (F["sl_stop"][c.init_i][c.col], F["sl_trail"][c.init_i][c.col]) if c.init_i >= 0 else (NAN, False)
        if adj == "step":
            return step(c.position_now, c.val_price_now, c.init_price, c.curr_stop, c.curr_trail)
        s, t, _ = script.get((c.i, c.col), (None, None, None))
        return (c.curr_stop if s is None else s), (c.curr_trail if t is None else t)

    def adjust_tp(c, *a):
        see("adjust_tp", c.i, c.col, c.position_now, c.val_price_now, c.init_i, c.init_price, c.curr_stop)
        if adj == "entry":
            return F["tp_stop"][c.init_i][c.col] if c.init_i >= 0 else NAN
        p = script.get((c.i, c.col), (None, None, None))[2]
        return c.curr_stop if p is None else p

    def hooks(args, kw):
        if case.get("sigfun"):
            for n in ("entries", "exits", "short_entries", "short_exits", "direction"):
                args.pop(n, None)
            kw["signal_func_nb"] = signal
        if adj is not None:
            kw["adjust_sl_func_nb"] = adjust_sl
            kw["adjust_tp_func_nb"] = adjust_tp
        if adj == "entry":
            for n in ("sl_stop", "sl_trail", "tp_stop"):
                args.pop(n, None)

    def model(i, c, st):
        if adj == "step":
            b = books(c)
            st.sl, st.trail = step(0, b, st.sl_at, st.sl, st.trail)
        elif adj == "script":
            s, t, p = script.get((i, c), (None, None, None))
            st.sl = st.sl if s is None else s
            st.trail = st.trail if t is None else t
            st.tp = st.tp if p is None else p

    def books(c):
        return want[-1][4]  # the valuation price the callback is shown

    port, err, msg = c01.attempt(lambda: call(case, hooks))
    seq = port.call_seq.values if port is not None and case["share"] else None
    first = list(seen)
    ref = reference(ctx, case, seq, adjust=model if adj is not None else None, seen=want)
    account(ctx, case, ref)
    ctx.ev("ran", err, adj, len(first), [f[:2] for f in ref.fills][:50])
    judge(ctx, case, ref, port, err, msg)
    if ref.tie or ref.big > 1e9:
        return
    if not case.get("sigfun"):
        want = [w for w in want if w[0] != "signal"]
    if adj != "entry" and not (ref.error is not None and case["share"]):
        for k in range(max(len(first), len(want))):
            g, w = (first[k] if k < len(first) else None), (want[k] if k < len(want) else None)
            ctx.check(g is not None and w is not None and g[:3] == w[:3], "callback-order", lambda: f"call {k} is {g}, expected {w}")
            ctx.check(all(eq(float(a), float(b), 1e-8, 1e-9) for a, b in zip(g[3:], w[3:])), "callback-state", lambda: f"call {k} shows {g}, expected {w}")
    if adj in (None, "keep", "entry") and port is not None:
        p2, e2, m2 = c01.attempt(lambda: call(case))
        ctx.check(e2 is None, "static-run-fails", f"{e2} {m2}")
        for n in ("order_records", "log_records"):
            a, b = getattr(port, n), getattr(p2, n)
            ctx.check(len(a) == len(b) and all(np.array_equal(a[f], b[f], equal_nan=a[f].dtype.kind == "f") for f in a.dtype.names), "dynamic-differs-from-arrays",
                      lambda: f"{n}: {a.tolist()} with callbacks, {b.tolist()} with arrays")
    if case.get("fail") is not None and port is not None and first:
        stop = min(len(first) - 1, int(case["fail"][0] * len(first)))
        seen.clear()
        got = None
        ctx.fault("callback-raises")
        try:
            call(case, hooks)
        except Exception as e:
            got = e
        ctx.check(got is not None and got.args == ("scripted",) and type(got) is (ValueError if case["fail"][1] == "value" else Flag), "callback-error-lost",
                  f"scripted error at call {stop} arrived as {got!r}")
        ctx.check(same_calls(seen, first[:stop + 1]), "callback-order", "calls before the failure differ")


def same_calls(a, b):
    return len(a) == len(b) and all(x[:3] == y[:3] and np.array_equal(np.array(x[3:], dtype=float), np.array(y[3:], dtype=float), equal_nan=True) for x, y in zip(a, b))


def gen_dyn(rng):
    return gen(rng, dyn=True, maxT=14)


def gen_jit(rng):
    c = gen(rng, maxT=30)
    c["full"] = True
    c.pop("use_stops", None)
    for n in ("open", "high", "low"):
        c.setdefault(n, [[NAN] * len(r) for r in c["close"]])
    return c


def warm(mode):
    """Compile once, before the workers are forked."""
    if mode == "jit":
        from ..core import Rng

        done = set()
        for k in range(200):
            c = gen_jit(Rng(k))
            key = (c["ls"], pf.dims(c)[1] > 1)
            if key not in done:
                done.add(key)
                c01.attempt(lambda: call(c))


SCENARIOS = [
    Scenario("arrays", gen, run, 2200, 40000, real=REAL, stub=STUB),
    Scenario("dynamic", gen_dyn, run_dynamic, 900, 14000, real=REAL, stub=STUB),
    Scenario("compiled", gen_jit, run, 300, 6000, jit=True, real=REAL, stub=STUB),
]
