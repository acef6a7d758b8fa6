"""C04: one order history, every simulator.  The same plan is executed as arrays, by an order function column-wise and
row-wise, by a flexible order function column-wise and row-wise, as signals, and compiled; all histories must agree.
Fault: record storage of any size from zero upward (an allocation limit), which may only ever end in an error."""
import numpy as np
import pandas as pd

from .. import pf
from ..core import Scenario, close as eq, Rng
from ..pf import NAN, INF
from . import c01, c02

import vectorbt as vbt
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import NoOrder
from vectorbt._settings import settings  # noqa
from numba import njit

REAL = ["Portfolio.from_orders / from_order_func / from_signals", "portfolio.nb simulate, simulate_row_wise, flex_simulate, flex_simulate_row_wise, "
        "simulate_from_orders, simulate_from_signals"]
STUB = ["market feed", "venue rejections", "order functions that replay the plan"]
STATE = "simulator x storage (ample, exact, short) x outcome"

FLOATS = ("size", "price", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity", "reject_prob")
FLAGS = ("lock_cash", "allow_partial", "raise_reject", "log")


@njit
def pre_seg(c, P, S, V, seq):
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = V[c.i, col]
    return (P, S)


@njit
def make(P, S, i, col):
    return nb.order_nb(
        size=P[0, i, col], price=P[1, i, col], size_type=S[0, i, col], direction=S[1, i, col], fees=P[2, i, col], fixed_fees=P[3, i, col],
        slippage=P[4, i, col], min_size=P[5, i, col], max_size=P[6, i, col], size_granularity=P[7, i, col], reject_prob=P[8, i, col],
        lock_cash=S[2, i, col] == 1, allow_partial=S[3, i, col] == 1, raise_reject=S[4, i, col] == 1, log=S[5, i, col] == 1)


@njit
def order_func(c, P, S):
    return make(P, S, c.i, c.col)


@njit
def flex_pre(c, P, S, V, seq):
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = V[c.i, col]
    return (P, S, seq)


@njit
def flex_func(c, P, S, seq):
    if c.call_idx >= c.group_len:
        return -1, NoOrder
    col = c.from_col + seq[c.i, c.from_col + c.call_idx]
    return col, make(P, S, c.i, col)


@njit
def auto_pre_seg(c, P, S, V, seq):
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = V[c.i, col]
    n = c.to_col - c.from_col
    nb.sort_call_seq_nb(c, P[0, c.i, c.from_col:c.to_col].copy(), S[0, c.i, c.from_col:c.to_col].copy(), S[1, c.i, c.from_col:c.to_col].copy(), np.empty(n), False)
    return (P, S)


@njit
def auto_flex_pre(c, P, S, V, seq):
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = V[c.i, col]
    n = c.to_col - c.from_col
    out = np.arange(n)
    nb.sort_call_seq_out_nb(c, P[0, c.i, c.from_col:c.to_col].copy(), S[0, c.i, c.from_col:c.to_col].copy(), S[1, c.i, c.from_col:c.to_col].copy(), np.empty(n), out, False)
    seq[c.i, c.from_col:c.to_col] = out
    return (P, S, seq)


def gen_auto(rng):
    """Shared cash and an automatic call sequence: every simulator has to rank the orders alike."""
    while True:
        c = gen(rng)
        if c["share"] and max(c["groups"]) > 1:
            break
    c["kind"] = "auto"
    if rng.chance(0.6):  # little cash, an order on most bars, valuation away from the fill price: the ranking decides who gets filled
        T, N = pf.dims(c)
        F = c["fields"]
        cell = lambda f: [[i, j, f()] for i in range(T) for j in range(N)]
        signs = (1, 1, 1, -1)
        F["size"] = dict(m="f", d=NAN, v=cell(lambda: float(rng.pick(1, 2, 3, 5, 8) * rng.pick(*signs))))
        if c["sig"]:
            F["size_type"] = dict(m="s", v=rng.pick(0, 0, 1))
            if F["size_type"]["v"]:
                F["size"]["v"] = [[i, j, v * 8] for i, j, v in F["size"]["v"]]
        F["price"] = dict(m="f", d=INF, v=cell(lambda: float(rng.pick(1, 2, 3, 4, 8))))
        F["val_price"] = dict(m="f", d=INF, v=cell(lambda: float(rng.pick(1, 2, 3, 4, 8))))
        c["cash"] = [float(rng.pick(10, 20, 40)) for _ in c["cash"]]
    return c


def gen(rng, maxT=12):
    share = rng.chance(0.5)
    c = c01.gen(rng, share=share, maxT=maxT)
    T, N = pf.dims(c)
    if rng.chance(0.5):  # orders that signals can express
        F = c["fields"]
        F.pop("direction", None)
        st = F.get("size_type")
        k = rng.pick(0, 0, 1, 2)
        F["size_type"] = dict(m="s", v=k)
        vals = {0: (0.5, 1, 2, 3, 10, INF), 1: (1, 10, 50, 100), 2: (0.1, 0.5, 1.0)}[k]
        F["size"]["v"] = [[i, j, float(rng.pick(*vals) * rng.pick(1, -1))] for i, j, v in F["size"]["v"]]
        c["sig"] = True
    else:
        c["sig"] = False
    c["kind"] = rng.pick("default", "reversed", "custom") if share else "default"
    if c["kind"] == "custom":
        c["perm"] = [[rng.sample(range(n), n) for n in c["groups"]] for _ in range(T)]
    c["seed"] = rng.randint(0, 99)
    c["limit"] = [rng.pick(0, -1, -1, 0, 1, -2, -99, 3), rng.pick(0, -1, 0, 1, -2, -99, 3)]
    c["numba_off"] = rng.chance(0.5)
    return c


def gen_jit(rng):
    c = gen(rng)
    c["full"] = True
    if pf.dims(c)[1] == 1:
        c["groups"] = [2] if c["share"] else [1, 1]
        c["perm"] = [[[1, 0]] for _ in c["close"]] if c["share"] else None
    return c


def plan(case):
    """Arrays of the plan and the valuation price the array-based simulator documents."""
    T, N = pf.dims(case)
    D = {n: pf.dense(case, n) for n in pf.ORDER_FIELDS + ("val_price",)}
    close = pf.close_arr(case)
    prev = np.vstack([np.full((1, N), np.nan), close[:-1]])
    price = np.where(D["price"] == INF, close, np.where(D["price"] == -INF, prev, D["price"]))
    val = np.where(D["val_price"] == INF, price, np.where(D["val_price"] == -INF, prev, D["val_price"]))
    if case.get("ffill", True):
        val = pd.DataFrame(val).ffill().values  # order functions see the previous close by default; arrays keep the last known valuation price
    P = np.array([D[n] for n in FLOATS])
    P[1] = price
    S = np.array([D["size_type"], D["direction"]] + [D[n] for n in FLAGS]).astype(np.int64)
    return P, S, np.ascontiguousarray(val)


def seq_matrix(case):
    T, N = pf.dims(case)
    k = case.get("kind", "default")
    k = "default" if k == "auto" else k
    spans = pf.accounts(case)
    out = np.zeros((T, N), dtype=np.int64)
    for i in range(T):
        for a, (lo, hi) in enumerate(spans):
            n = hi - lo
            out[i, lo:hi] = list(range(n)) if k == "default" else list(range(n))[::-1] if k == "reversed" else c02.local(case, i, a, n)
    return out


def seq_arg(case):
    return "auto" if case.get("kind") == "auto" else seq_matrix(case)


def update(case):
    """Revaluation at fills, unless gaps in the valuation prices make its carry-over differ by design."""
    return bool(case.get("uv", False) and not np.isnan(plan(case)[2]).any() and not np.isnan(pf.close_arr(case)).any()
                and not np.isnan(pf.dense(case, "price")).any())


def base_kw(case):
    kw = dict(init_cash=np.asarray(pf.init_cash(case)), ffill_val_price=case.get("ffill", True), update_value=update(case))
    if case["share"]:
        kw["group_by"] = np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]])
        kw["cash_sharing"] = True
    return kw


def frame(case):
    return pd.DataFrame(pf.close_arr(case), columns=list("abcdefghijklmnop"[:pf.dims(case)[1]]))


def by_arrays(case, **kw):
    args = {n: (pf.dense(case, n) if case.get("full") else pf.given(case, n)) for n in pf.ORDER_FIELDS + ("val_price",)}
    return vbt.Portfolio.from_orders(frame(case), **args, call_seq=seq_arg(case), **base_kw(case), **kw)


def by_func(case, flexible, row, **kw):
    P, S, V = plan(case)
    seq = seq_matrix(case)
    auto = case.get("kind") == "auto"
    pre = (auto_flex_pre if auto else flex_pre) if flexible else auto_pre_seg if auto else pre_seg
    if not flexible:
        kw["call_seq"] = seq
    if case.get("numba_off") and not case.get("full"):
        kw["use_numba"] = False
    return vbt.Portfolio.from_order_func(frame(case), flex_func if flexible else order_func, flexible=flexible, row_wise=row,
                                         pre_segment_func_nb=pre, pre_segment_args=(P, S, V, seq), **base_kw(case), **kw)


def by_signals(case, **kw):
    args = {n: (pf.dense(case, n) if case.get("full") else pf.given(case, n)) for n in pf.ORDER_FIELDS + ("val_price",) if n not in ("direction", "size")}
    size = pf.dense(case, "size")
    return vbt.Portfolio.from_signals(frame(case), entries=size > 0, exits=size < 0, size=np.abs(size), direction=np.full(size.shape, 2), accumulate=np.ones(size.shape, dtype=int),
                                      call_seq=seq_arg(case), **args, **base_kw(case), **kw)


SIMS = [("order function", lambda c, **k: by_func(c, False, False, **k)), ("order function row-wise", lambda c, **k: by_func(c, False, True, **k)),
        ("flexible order function", lambda c, **k: by_func(c, True, False, **k)), ("flexible order function row-wise", lambda c, **k: by_func(c, True, True, **k)),
        ("signals", by_signals), ("arrays", by_arrays)]


def hist(port):
    """Order and log history per column group, free of ids."""
    o = port.order_records
    place = {int(r["id"]): (int(r["col"]), int(r["idx"])) for r in o}
    rows = [(int(r["col"]), int(r["idx"]), float(r["size"]), float(r["price"]), float(r["fees"]), int(r["side"])) for r in o]
    logs = []
    for r in port.log_records:
        d = [r[n].item() for n in r.dtype.names if n not in ("id", "order_id")]
        j = int(r["order_id"])
        logs.append((int(r["col"]), int(r["idx"]), d + [None if j < 0 else place.get(j)]))
    return rows, logs


def exact(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def series(port):
    return [port.cash().values, port.assets().values, port.value().values]


def compare(ctx, name, base, other, row, signals):
    (o1, l1), (o2, l2) = base[0], hist(other)
    if row:
        # time-major storage: compare inside each account, where the processing order is the same
        k = lambda x: (x[0], x[1])
        o1, o2, l1, l2 = (sorted(x, key=k) for x in (o1, o2, l1, l2))
    ctx.check(exact(o1, o2), "orders-differ", lambda: f"{name}: {first(o2, o1)}")
    if not signals:
        ctx.check(exact(l1, l2), "logs-differ", lambda: f"{name}: {first(l2, l1)}")
    ids = other.order_records["id"]
    ctx.check(np.array_equal(ids, np.arange(len(ids))), "order-ids", f"{name}: {ids.tolist()}")
    for x, y, what in zip(base[1], series(other), ("cash", "assets", "value")):
        ctx.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), "state-differs", lambda: f"{name}: {what} {y.tolist()} against {x.tolist()}")


def first(a, b):
    for k in range(max(len(a), len(b))):
        x, y = (a[k] if k < len(a) else None), (b[k] if k < len(b) else None)
        if not exact(x, y):
            return f"entry {k} is {x}, arrays give {y}"
    return "?"


def run(case, ctx):
    auto = case.get("kind") == "auto"
    signals_ok = case.get("sig") and not np.any(pf.dense(case, "size") == 0)
    if auto and signals_ok:  # an unknown order value has no rank
        signals_ok = not (np.isnan(pf.dense(case, "size")).any() or np.isnan(plan(case)[2]).any())
    port, err, msg = c01.attempt(lambda: by_arrays(case))
    ref = pf.run_orders(case, seqs=[[case_seq(case, i, a) for a in range(len(pf.accounts(case)))] for i in range(len(case["close"]))],
                        ffill=case.get("ffill", True), update_value=update(case))
    c01.account(ctx, case, ref)
    base = None if port is None else (hist(port), series(port))
    need = (len(port.order_records), len(port.log_records)) if port is not None else None
    ctx.ev("arrays", err, need)
    if not auto and ref.big <= 1e9 and ref.error is None and port is not None:
        c01.cmp_records(ctx, port.order_records, ref.fills, big=ref.big)
    for name, f in SIMS:
        if name == "signals" and not signals_ok:
            continue
        row = "row-wise" in name
        if name != "arrays":
            p, e, m = c01.attempt(lambda: f(case))
            ctx.check((e is None) == (err is None), "outcome-differs", lambda: f"{name}: {e} {m}, arrays: {err} {msg}")
            if e is not None and not row:
                ctx.check(e == err, "error-differs", f"{name}: {e} {m}, arrays: {err} {msg}")
            if p is not None:
                compare(ctx, name, base, p, row, name == "signals")
            ctx.state(name, "ample", e)
        if need is None:
            continue
        # bounded storage
        mo, ml = max(0, need[0] + case["limit"][0]), max(0, need[1] + case["limit"][1])
        if name == "signals":
            ml = None
        p, e, m = c01.attempt(lambda: f(case, max_orders=mo, max_logs=ml))
        short = mo < need[0] or (ml is not None and max(1, ml) < need[1])
        ctx.fault("storage-short" if short else "storage-ample")
        ctx.state(name, "short" if short else "exact" if mo == need[0] else "ample", e)
        ctx.ev(name, mo, ml, e)
        if short:
            ctx.check(e == "IndexError", "storage-overrun", lambda: f"{name} needs {need[0]} order and {need[1]} log records, got {mo} and {ml}: "
                      f"{e} {m}" + ("" if p is None else f", {len(p.order_records)} orders and {len(p.log_records)} logs returned"))
        else:
            ctx.check(e is None, "storage-refused", lambda: f"{name} needs {need[0]} order and {need[1]} log records, got {mo} and {ml}: {e} {m}")
            compare(ctx, name, base, p, row, name == "signals")


def case_seq(case, i, a):
    lo, hi = pf.accounts(case)[a]
    return seq_matrix(case)[i, lo:hi].tolist()


def warm(mode):
    if mode == "jit":
        for share in (False, True):
            for k in range(300):
                c = gen_jit(Rng(k))
                if c["share"] == share and c.get("sig") and c["ffill"]:
                    for name, f in SIMS:
                        c01.attempt(lambda: f(c))
                    p, _, _ = c01.attempt(lambda: by_arrays(c))
                    if p is not None:
                        series(p)
                        break


SCENARIOS = [
    Scenario("simulators", gen, run, 500, 9000, real=REAL, stub=STUB),
    Scenario("ranked", gen_auto, run, 300, 6000, real=REAL, stub=STUB),
    Scenario("compiled", gen_jit, run, 120, 2500, jit=True, real=REAL, stub=STUB),
]
