"""C01: orders on a simulated venue.  The real Portfolio.from_orders runs over a seeded feed and order stream; the
reference venue (sim/pf.py) replays the stream, and every fill, log row and refusal must agree.  Faults: missing
ticks, zero and infinite ticks, venue outages (reject probability 1), wild price jumps."""
import numpy as np

from .. import pf
from ..core import Scenario, close as eq
from ..pf import NAN, INF

import vectorbt as vbt  # noqa
from vectorbt.portfolio.enums import RejectedOrderError

REAL = ["Portfolio.from_orders", "portfolio.dispatch", "portfolio.nb simulate_from_orders/execute_order/buy/sell"]
STUB = ["market feed", "venue rejections", "order stream"]


def sparse(rng, T, N, p, val):
    return [[i, c, val()] for i in range(T) for c in range(N) if rng.chance(p)]


def field(rng, T, N, val, base, full=0.4):
    """A field in a random shape."""
    x = rng.random()
    if x < 0.35:
        return dict(m="s", v=val())
    if x < 0.45:
        return dict(m="c", v=[val() for _ in range(N)])
    if x < 0.55:
        return dict(m="r", v=[val() for _ in range(T)])
    return dict(m="f", d=base, v=sparse(rng, T, N, full, val))


def gen_orders(rng, T, N, feats, density=0.6):
    F = {}
    sizes = {
        "amount": lambda: rng.pick(0.5, 1, 2, 3, 10, 100, -0.5, -1, -2, -3, -10, -100, 0, INF, -INF, 0.001, 1.7, -1.7),
        "value": lambda: rng.pick(1, 10, 50, 100, 500, -1, -10, -50, -100, -500, 0, INF, -INF),
        "pct": lambda: rng.pick(0.1, 0.5, 1.0, -0.1, -0.5, -1.0, 0.25, 0, 1.5, -1.5, 2.0),
        "tamount": lambda: rng.pick(0, 0, 1, 2, 5, -1, -2, -5, 20, -20, INF, -INF),
        "tvalue": lambda: rng.pick(0, 0, 10, 50, 100, -10, -50, -100, 300, -300),
        "tpct": lambda: rng.pick(0, 0, 0.1, 0.5, 1, -0.1, -0.5, -1, 2, -2, 0.33)}
    codes = dict(amount=0, value=1, pct=2, tamount=3, tvalue=4, tpct=5)
    kinds = [rng.pick(*sizes)] if rng.chance(0.4) else [rng.pick(*sizes) for _ in range(3)]
    if "plain" in feats:
        kinds = ["amount"]
    sz, st = [], []
    for i in range(T):
        for c in range(N):
            if rng.chance(density):
                k = rng.pick(*kinds)
                sz.append([i, c, float(sizes[k]())])
                if codes[k]:
                    st.append([i, c, codes[k]])
    F["size"] = dict(m="f", d=NAN, v=sz)
    if st:
        if len(set(kinds)) == 1:
            F["size_type"] = dict(m="s", v=codes[kinds[0]])
        else:
            F["size_type"] = dict(m="f", d=0, v=st)
    if "direction" in feats:
        x = rng.random()
        if x < 0.5:
            F["direction"] = dict(m="s", v=rng.pick(0, 1))
        elif x < 0.9:
            F["direction"] = dict(m="c", v=[rng.pick(0, 1, 2) for _ in range(N)])
        else:
            F["direction"] = dict(m="f", d=2, v=sparse(rng, T, N, 0.1, lambda: rng.pick(0, 1)))
    if "fees" in feats:
        F["fees"] = field(rng, T, N, lambda: rng.pick(0.0, 0.01, 0.1, 0.001, 0.5, 0.25, -0.01), 0.0)
    if "fixed" in feats:
        F["fixed_fees"] = field(rng, T, N, lambda: rng.pick(0.0, 1.0, 0.1, 10.0, 100.0, 0.5), 0.0, 0.3)
    if "slip" in feats:
        F["slippage"] = field(rng, T, N, lambda: rng.pick(0.0, 0.01, 0.1, 0.001), 0.0)
    if "min" in feats:
        F["min_size"] = field(rng, T, N, lambda: rng.pick(0.0, 1.0, 2.0, 0.5, 10.0), 0.0)
    if "max" in feats:
        F["max_size"] = field(rng, T, N, lambda: rng.pick(INF, 1.0, 2.0, 0.5, 10.0, 50.0), INF)
    if "gran" in feats:
        F["size_granularity"] = field(rng, T, N, lambda: rng.pick(NAN, 1.0, 0.5, 2.0, 0.25), NAN)
    if "lock" in feats:
        F["lock_cash"] = field(rng, T, N, lambda: rng.chance(0.7), False, 0.7)
    if "part" in feats:
        F["allow_partial"] = field(rng, T, N, lambda: rng.chance(0.3), True, 0.5)
    if "outage" in feats:
        F["reject_prob"] = dict(m="f", d=0.0, v=sparse(rng, T, N, rng.pick(0.05, 0.3), lambda: 1.0))
    if "raise" in feats:
        F["raise_reject"] = dict(m="f", d=False, v=sparse(rng, T, N, 0.1, lambda: True)) if rng.chance(0.7) else dict(m="s", v=True)
    if "price" in feats:
        F["price"] = field(rng, T, N, lambda: rng.pick(INF, -INF, 1.0, 2.0, 5.0, 10.0, 3.3, NAN), INF)
    if "valp" in feats:
        F["val_price"] = field(rng, T, N, lambda: rng.pick(INF, -INF, 1.0, 2.0, 5.0, 10.0, 7.7), INF)
    if "log" in feats:
        F["log"] = field(rng, T, N, lambda: rng.chance(0.5), True)
    else:
        F["log"] = dict(m="s", v=True)
    if "settings" in feats:
        F["min_size"] = dict(m="s", v=1e-8)
    return F


ALL = ["direction", "fees", "fixed", "slip", "min", "max", "gran", "lock", "part", "outage", "price", "valp", "log", "settings"]


def gen(rng, share=False, maxT=30, maxN=3):
    T = rng.pick(3, 5, 8, 12, 20, maxT)
    groups = [rng.randint(1, 3) for _ in range(rng.randint(1, 2))] if share else [1] * rng.randint(1, maxN)
    N = sum(groups)
    feats = [f for f in ALL if rng.chance(0.35)]
    if rng.chance(0.08):
        feats.append("raise")
    if rng.chance(0.2):
        feats.append("plain")
    c = dict(groups=groups, share=share, cash=[float(rng.pick(100, 100, 1000, 10, 0, 1e6, 55.5)) for _ in range(len(groups) if share else N)],
             close=pf.gen_feed(rng, T, N, gaps=rng.pick(0, 0, 0.05, 0.3), wild=rng.pick(0, 0, 0.1), grid=rng.chance(0.7)),
             fields=gen_orders(rng, T, N, feats, rng.pick(0.2, 0.6, 1.0)), ffill=not rng.chance(0.15), uv=rng.chance(0.3))
    if rng.chance(0.05):
        i, k = rng.randrange(T), rng.randrange(N)
        c["close"][i][k] = rng.pick(0.0, INF)
    if rng.chance(0.05):
        c["cash"] = [INF]
    return c


def call(case, **kw):
    """Run the real Portfolio.from_orders on a case."""
    import pandas as pd

    T, N = pf.dims(case)
    close = pd.DataFrame(pf.close_arr(case), columns=list("abcdefghijklmnop"[:N]))
    args = {n: (pf.dense(case, n) if case.get("full") else pf.given(case, n)) for n in pf.ORDER_FIELDS + ("val_price",)}
    if case["share"]:
        kw.setdefault("group_by", np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]]))
        kw["cash_sharing"] = True
    return vbt.Portfolio.from_orders(close, init_cash=np.asarray(pf.init_cash(case)), ffill_val_price=case.get("ffill", True),
                                     update_value=case.get("uv", False), **{**args, **kw})


def attempt(f):
    """(result, kind of error)"""
    try:
        return f(), None, None
    except RejectedOrderError as e:
        return None, "RejectedOrderError", str(e)
    except (ValueError, IndexError) as e:
        return None, type(e).__name__, str(e)


def cmp_records(ctx, recs, fills, what="order", big=0.0):
    tol = max(1e-9, 1e-12 * big)
    ctx.check(len(recs) == len(fills), f"{what}-count",
              lambda: f"{len(recs)} records, reference has {len(fills)} fills; first difference at {first_diff(recs, fills)}")
    for k, (r, f) in enumerate(zip(recs, fills)):
        got = (int(r["col"]), int(r["idx"]), float(r["size"]), float(r["price"]), float(r["fees"]), int(r["side"]))
        ok = got[:2] == f[:2] and got[5] == f[5] and eq(got[2], f[2], 1e-8, tol / max(f[3], 1e-6)) and eq(got[3], f[3]) and eq(got[4], f[4], 1e-8, tol)
        ctx.check(ok, f"{what}-fill", lambda: f"record {k} (col, bar, size, price, fees, side) is {got}, reference {f}")
        ctx.check(int(r["id"]) == k, f"{what}-id", lambda: f"record {k} has id {int(r['id'])}")


def first_diff(recs, fills):
    for k in range(max(len(recs), len(fills))):
        a = tuple(recs[k].tolist()) if k < len(recs) else None
        b = fills[k] if k < len(fills) else None
        if a is None or b is None or a[1] != b[0] or a[2] != b[1] or not eq(a[3], b[2]):
            return f"{k}: record (id, col, idx, size, price, fees, side) {a}, reference (col, idx, size, price, fees, side) {b}"
    return None


LOGF = ("cash", "position", "debt", "free_cash", "val_price", "value")


def cmp_logs(ctx, logs, ref, big=0.0):
    tol = max(1e-8, 1e-12 * big)
    ctx.check(len(logs) == len(ref), "log-count", lambda: f"{len(logs)} log rows, reference {len(ref)}")
    for k, (r, l) in enumerate(zip(logs, ref)):
        where = lambda n: f"log {k} (bar {l['idx']}, column {l['col']}): {n} is {r[n] if n in r.dtype.names else '?'}"
        ctx.check(int(r["id"]) == k and int(r["col"]) == l["col"] and int(r["idx"]) == l["idx"] and int(r["group"]) == l["group"],
                  "log-place", lambda: f"log {k} is {r}, reference bar {l['idx']} column {l['col']} group {l['group']}")
        for n, want in zip(LOGF, l["before"]):
            ctx.check(eq(float(r[n]), want, 1e-8, tol), "log-state-before", lambda: f"{where(n)}, reference {want}")
        for n, want in zip(LOGF, l["after"]):
            ctx.check(eq(float(r["new_" + n]), want, 1e-8, tol), "log-state-after", lambda: f"{where('new_' + n)}, reference {want}")
        for n in pf.ORDER_FIELDS:
            ctx.check(eq(float(r["req_" + n]), float(l["order"][n])), "log-request", lambda: f"{where('req_' + n)}, reference {l['order'][n]}")
        res = l["result"]
        ctx.check(int(r["res_status"]) == res["status"] and int(r["res_status_info"]) == res["info"], "log-status",
                  lambda: f"log {k} (bar {l['idx']}, column {l['col']}): status {r['res_status']}/{r['res_status_info']}, reference {res}; request {l['order']}, before {l['before']}")
        for n in ("size", "price", "fees"):
            ctx.check(eq(float(r["res_" + n]), res[n], 1e-8, tol), "log-result", lambda: f"{where('res_' + n)}, reference {res[n]}")
        ctx.check(int(r["res_side"]) == res["side"], "log-result", lambda: f"{where('res_side')}, reference {res['side']}")
        ctx.check(int(r["order_id"]) == l["order_id"], "log-order-id", lambda: f"{where('order_id')}, reference {l['order_id']}")


def invariants(ctx, logs):
    """Conservation and limits, read off the log alone (independent of the reference)."""
    for r in logs:
        g = lambda n: float(r[n])
        at = f"bar {int(r['idx'])} column {int(r['col'])}"
        scale = max(1.0, abs(g("cash")) if np.isfinite(g("cash")) else 1.0, abs(g("free_cash")) if np.isfinite(g("free_cash")) else 1.0)
        tol = 1e-7 * scale
        if int(r["res_status"]) != pf.FILLED:
            for n in LOGF[:4]:
                ctx.check(eq(g(n), g("new_" + n), 1e-9, 1e-9), "refused-order-moves-state", f"{at}: {n} {g(n)} -> {g('new_' + n)}")
            ctx.check(eq(g("value"), g("new_value")), "refused-order-moves-state", at)
            ctx.check(int(r["order_id"]) == -1, "refused-order-recorded", at)
            continue
        s, p, fee = g("res_size"), g("res_price"), g("res_fees")
        sgn = 1 if int(r["res_side"]) == pf.BUY else -1
        ctx.check(s > 0 and p == p and fee == fee, "fill-invalid", f"{at}: filled size {s} price {p} fees {fee}")
        slip = 1 + sgn * g("req_slippage")
        ctx.check(eq(p, g("req_price") * slip), "fill-price", f"{at}: {p} for {g('req_price')} slippage {g('req_slippage')}")
        if np.isfinite(g("cash")):
            ctx.check(abs(g("new_cash") - (g("cash") - sgn * s * p - fee)) <= tol + 1e-9 * s * p, "cash-not-conserved",
                      f"{at}: cash {g('cash')} -> {g('new_cash')}, side {sgn} size {s} price {p} fees {fee}")
        ctx.check(abs(g("new_position") - (g("position") + sgn * s)) <= 1e-9 * max(1, abs(g("position")), s), "assets-not-conserved",
                  f"{at}: position {g('position')} -> {g('new_position')}, side {sgn} size {s}")
        ctx.check(g("new_cash") >= -1e-9, "cash-negative", f"{at}: {g('new_cash')}")
        ctx.check(eq(fee, s * p * g("req_fees") + g("req_fixed_fees"), 1e-7, tol), "fill-fees", f"{at}: {fee}")
        ctx.check(s <= g("req_max_size") * (1 + 1e-9), "fill-over-max", f"{at}: {s} > {g('req_max_size')}")
        ctx.check(s >= g("req_min_size") * (1 - 1e-8) - 1e-9, "fill-under-min", f"{at}: {s} < {g('req_min_size')}")
        gran = g("req_size_granularity")
        if gran == gran:
            ctx.check(abs(s / gran - round(s / gran)) < 1e-6, "fill-off-granularity", f"{at}: {s} of {gran}")
        d = int(r["req_direction"])
        if d == pf.LONG:
            ctx.check(g("new_position") >= 0, "long-only-short", f"{at}: {g('new_position')}")
        if d == pf.SHORT:
            ctx.check(g("new_position") <= 0, "short-only-long", f"{at}: {g('new_position')}")
        if bool(r["req_lock_cash"]) and np.isfinite(g("free_cash")):
            # buying, or selling more than is held, may not take free cash below zero
            uses = sgn > 0 or s > max(g("position"), 0) * (1 + 1e-9)
            if uses:
                ctx.check(g("new_free_cash") >= min(0.0, g("free_cash")) - tol, "locked-cash-spent",
                          f"{at}: free cash {g('free_cash')} -> {g('new_free_cash')}; position {g('position')} -> {g('new_position')} debt {g('debt')}")
        ctx.check(g("new_debt") >= 0 and (g("new_position") < 0 or g("new_debt") <= 1e-7 * max(1, g("debt"))), "debt-without-short",
                  f"{at}: debt {g('new_debt')} position {g('new_position')}")
        if g("new_position") < 0 and g("position") >= 0:
            ctx.check(eq(g("new_debt"), -g("new_position") * p, 1e-7, 1e-7), "debt-wrong", f"{at}: {g('new_debt')} position {g('new_position')} price {p}")


def account(ctx, case, ref):
    T, N = pf.dims(case)
    ctx.tick(T * 86400.0)
    gaps = int(np.isnan(pf.close_arr(case)).sum())
    if gaps:
        ctx.fault("missing-tick", gaps)
    bad = int((~np.isnan(pf.close_arr(case)) & ((pf.close_arr(case) <= 0) | np.isinf(pf.close_arr(case)))).sum())
    if bad:
        ctx.fault("corrupt-tick", bad)
    for l in ref.logs:
        r = l["result"]
        if r["status"] == pf.REJECTED and r["info"] == pf.R_RANDOM:
            ctx.fault("venue-reject")
        ctx.probe(f"outcome-{r['status']}-{r['info']}")
        o, b = l["order"], l["before"]
        ctx.state(r["status"], r["info"], o["size_type"], o["direction"], o["lock_cash"], o["allow_partial"], (b[1] > 0) - (b[1] < 0),
                  (l["after"][1] > 0) - (l["after"][1] < 0), o["fees"] != 0, o["fixed_fees"] != 0, o["max_size"] < INF,
                  o["size_granularity"] == o["size_granularity"], b[3] < 0)
    if ref.error is not None:
        ctx.probe("error-" + ref.error.kind)


def run(case, ctx):
    ref = pf.run_orders(case, ffill=case.get("ffill", True), update_value=case.get("uv", False))
    account(ctx, case, ref)
    port, err, msg = attempt(lambda: call(case))
    ctx.ev("ran", err, [f[:2] for f in ref.fills][:50])
    if ref.error is not None:
        ctx.check(err == ref.error.kind, "error-missing" if err is None else "error-kind",
                  f"the contract requires {ref.error}, got {err} {msg}")
        return
    ctx.check(err is None, "error-unexpected", f"{err}: {msg}")
    invariants(ctx, port.log_records)
    if ref.big > 1e9:
        ctx.probe("amounts-beyond-float-precision")  # rounding decides; the invariants above still hold
        return
    cmp_records(ctx, port.order_records, ref.fills, big=ref.big)
    cmp_logs(ctx, port.log_records, ref.logs, big=ref.big)


def gen_shared(rng):
    return gen(rng, share=True)


def gen_long(rng):
    c = gen(rng, share=rng.chance(0.3), maxT=30)
    T = 120
    N = sum(c["groups"])
    feats = [f for f in ALL if rng.chance(0.3)]
    c["close"] = pf.gen_feed(rng, T, N, gaps=rng.pick(0, 0.05), wild=0.02, grid=rng.chance(0.5))
    c["fields"] = gen_orders(rng, T, N, feats, 0.8)
    return c


SCENARIOS = [
    Scenario("columns", gen, run, 2400, 40000, real=REAL, stub=STUB),
    Scenario("shared", gen_shared, run, 800, 12000, real=REAL, stub=STUB),
    Scenario("long-history", gen_long, run, 200, 4000, real=REAL, stub=STUB),
]
