"""C06: accounting reconstructed from records.  Each run simulates a history (arrays, signals or a recording order
function; missing ticks, venue outages, shared cash, any processing order), takes the state in force at every bar's end
from the reference venue or from a probe inside the simulation, and then reads the portfolio's reports in a seeded order."""
import numpy as np
import pandas as pd

from .. import pf
from ..core import Scenario, Rng
from ..pf import NAN, INF
from . import c01, c02, c03, c05

import vectorbt as vbt

REAL = ["Portfolio.cash/assets/asset_value/value/returns/total_profit/init_cash and flows", "portfolio.nb reconstruction", "all simulators"]
STUB = ["market feed", "venue rejections", "order plan / strategy"]
STATE = "source x cash mode x grouping read x report"


def finish(rng, c, T, N):
    c["fillna"] = not rng.chance(0.3)
    c["read"] = rng.randint(0, 10 ** 6)
    c["gb"] = None
    if not c["share"]:
        x = rng.random()
        if x < 0.3:
            c["gb"] = "all"
        elif x < 0.7:
            c["gb"] = sorted(rng.randrange(N) for _ in range(N))
    c["regroup"] = rng.chance(0.4)
    return c


def gen(rng):
    src = rng.pick("arrays", "arrays", "shared", "shared", "signals", "calls", "flexible")
    if src == "arrays":
        c = c01.gen(rng)
    elif src == "shared":
        c = c02.gen(rng)
        if c["kind"] == "random":
            c["kind"] = "auto"
    elif src == "signals":
        c = c05.gen(rng)
    else:
        c = c03.gen(rng, src == "flexible")
        c.update(cpost=True, fail=None, fillpos=False, valps=[], max_orders=None, max_logs=None)
        if c.get("mask") is not None and rng.chance(0.5):
            c["mask"] = None
    c["src"] = src
    if src in ("arrays", "shared", "signals"):
        c["auto_cash"] = rng.pick(None, None, None, "auto", "autoalign")
    if rng.chance(0.3):  # the last ticks are missing for some column
        k = rng.randrange(sum(c["groups"]))
        n = rng.randint(1, max(1, len(c["close"]) // 2))
        for row in c["close"][-n:]:
            row[k] = NAN
    if rng.chance(0.02):
        k = rng.randrange(sum(c["groups"]))
        for row in c["close"]:
            row[k] = NAN
    return finish(rng, c, len(c["close"]), sum(c["groups"]))


def simulate(case, ctx):
    """(portfolio, end-of-bar cash [T, accounts], free, pos [T, N], scale, call seq) or None."""
    T, N = pf.dims(case)
    src = case["src"]
    kw = dict(fillna_close=case["fillna"])
    auto = case.get("auto_cash")
    if auto:
        case = dict(case, cash=[INF])
        kw["init_cash"] = auto
    if src in ("arrays", "shared", "signals"):
        seq = None
        if src == "shared":
            kw.update(call_seq=c02.call_seq_arg(case), attach_call_seq=True)
        f = c05.call if src == "signals" else c01.call
        def go():
            if src == "signals":
                return f(case, hooks=lambda args, k: k.update(fillna_close=case["fillna"]) or (args.update(init_cash=auto) if auto else None))
            return f(case, **kw)
        if auto and src == "signals":
            go = lambda: with_auto(case, auto)
        elif auto:
            go = lambda: auto_orders(case, kw)
        port, err, msg = c01.attempt(go)
        if port is None:
            ctx.probe("no-portfolio")
            return None
        if src == "shared" or (src == "signals" and case["share"]):
            seq = port.call_seq.values
        if src == "signals":
            ref = c05.reference(ctx, case, seq)
        elif src == "shared":
            seqs = [[seq[i, lo:hi].tolist() for lo, hi in pf.accounts(case)] for i in range(T)]
            ref = pf.run_orders(case, seqs=seqs, ffill=case.get("ffill", True), update_value=case.get("uv", False))
        else:
            ref = pf.run_orders(case, ffill=case.get("ffill", True), update_value=case.get("uv", False))
        c01.account(ctx, case, ref)
        if ref.error is not None or getattr(ref, "tie", False) or ref.big > 1e9:
            ctx.probe("history-not-comparable")
            return None
        cash = [[a[0] for a in b[0]] for b in ref.bars]
        free = [[a[1] for a in b[0]] for b in ref.bars]
        pos = [b[1] for b in ref.bars]
        return port, np.array(cash, float).reshape(T, -1), np.array(free, float).reshape(T, -1), np.array(pos, float).reshape(T, N), ref.big, seq
    # probe inside the simulation
    A = len(pf.accounts(case))
    cash, free, pos = np.full((T, A), NAN), np.full((T, A), NAN), np.full((T, N), NAN)
    big = [0.0]

    class Probe(c03.Recorder):
        def rec(self, name, c, place, args):
            pass

        def post_segment(self, c, *a):
            if case["share"]:
                cash[c.i, c.group], free[c.i, c.group] = c.last_cash[c.group], c.last_free_cash[c.group]
            else:
                s = slice(c.from_col, c.to_col)
                cash[c.i, s], free[c.i, s] = c.last_cash[s], c.last_free_cash[s]
            pos[c.i, c.from_col:c.to_col] = c.last_position[c.from_col:c.to_col]
            for x in (c.last_cash, c.last_position, c.last_free_cash):
                big[0] = max(big[0], float(np.nanmax(np.abs(x))))

    inp = c03.inputs(case)
    port, err, msg = c01.attempt(lambda: c03.call(case, Probe(case), inp, fillna_close=case["fillna"]))
    if port is None or not big[0] <= 1e9:
        ctx.probe("no-portfolio" if port is None else "history-not-comparable")
        return None
    ctx.tick(T * 86400.0)
    ctx.fault("missing-tick", int(np.isnan(pf.close_arr(case)).sum()))
    o = port.order_records
    for r in o:
        ctx.state("fill", int(r["side"]))
    return port, cash, free, pos, big[0], None


def auto_orders(case, kw):
    T, N = pf.dims(case)
    args = {n: pf.given(case, n) for n in pf.ORDER_FIELDS + ("val_price",)}
    kw = dict(kw)
    if case["share"]:
        kw["group_by"] = np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]])
        kw["cash_sharing"] = True
    return vbt.Portfolio.from_orders(pd.DataFrame(pf.close_arr(case), columns=list("abcdefghijklmnop"[:N])), ffill_val_price=case.get("ffill", True),
                                     update_value=case.get("uv", False), **{**args, **kw})


def with_auto(case, auto):
    real = vbt.Portfolio.from_signals

    def patched(close, init_cash=None, **k):
        return real(close, init_cash=auto, fillna_close=case["fillna"], **k)

    class Shim:
        Portfolio = type("P", (), dict(from_signals=staticmethod(patched)))

    old = c05.vbt
    c05.vbt = Shim
    try:
        return c05.call(case)
    finally:
        c05.vbt = old


def flows(port, T, N):
    """Replay of the order records: cash flow, free-cash flow and asset flows per bar and column."""
    cf, ff = np.zeros((T, N)), np.zeros((T, N))
    af, lf, sf = np.zeros((T, N)), np.zeros((T, N)), np.zeros((T, N))
    end = np.zeros((T, N))
    pos, debt = [0.0] * N, [0.0] * N
    last = 0
    for r in port.order_records[np.argsort(port.order_records["idx"], kind="stable")]:
        c, i, s, p, fee = int(r["col"]), int(r["idx"]), float(r["size"]), float(r["price"]), float(r["fees"])
        d = s if int(r["side"]) == pf.BUY else -s
        old, new = pos[c], pf.addz(pos[c], d)
        cf[i, c] += -d * p - fee
        ff[i, c] += -d * p - fee
        if d > 0 and old < 0:
            back = debt[c] * min(s, -old) / -old
            debt[c] = pf.addz(debt[c], -back)
            ff[i, c] += 2 * back
        elif d < 0 and new < 0:
            short = min(s, -new)
            debt[c] += short * p
            ff[i, c] -= 2 * short * p
        af[i, c] += d
        lf[i, c] += max(new, 0) - max(old, 0)
        sf[i, c] += max(-new, 0) - max(-old, 0)
        pos[c] = new
        end[i:, c] = new
    return cf, ff, af, lf, sf, end


def spans_of(gb):
    out, lo = [], 0
    for k in range(1, len(gb) + 1):
        if k == len(gb) or gb[k] != gb[lo]:
            out.append((lo, k))
            lo = k
    return out


def squeeze(a, spans):
    return np.stack([a[:, lo:hi].sum(axis=1) for lo, hi in spans], axis=1)


def two(x):
    a = np.asarray(x)
    return a.reshape(len(a), -1).astype(float)


def one(x):
    return np.atleast_1d(np.asarray(x)).astype(float)


def same(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol + 1e-8 * np.abs(b))
    return bool(ok.all())


def run(case, ctx):
    sim = simulate(case, ctx)
    if sim is None:
        return
    port, cash, free, pos, big, seq = sim
    T, N = pf.dims(case)
    auto = case.get("auto_cash")
    share = case["share"]
    own = pf.accounts(case)
    close = pf.close_arr(case)
    if not np.isfinite(close[~np.isnan(close)]).all():
        return
    mark = pd.DataFrame(close).ffill().bfill().values if case["fillna"] else close
    pmax = float(np.nanmax(np.abs(close))) if np.isfinite(close).any() else 1.0
    tol = 1e-7 + 1e-10 * big * max(1.0, 1.0) + 1e-9 * big
    vtol = tol * max(1.0, pmax)
    cf, ff, af, lf, sf, end = flows(port, T, N)
    av = np.where(end == 0, 0.0, end * mark)
    ctx.check(same(end, pos, tol), "assets-replay", lambda: f"positions replayed from the orders {end.tolist()}, simulated {pos.tolist()}")

    # groupings: (argument, spans, label)
    groups = []
    cols = [(k, k + 1) for k in range(N)]
    gb0 = np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]])
    grouped_sim = share or case["src"] in ("calls", "flexible")
    groups.append((None, spans_of(gb0) if grouped_sim else cols, "default"))
    groups.append((False, cols, "columns"))
    if case["gb"] is not None and not share:
        gb = np.zeros(N, int) if case["gb"] == "all" else np.array((sorted(case["gb"]) + [N] * N)[:N])
        groups.append((True if case["gb"] == "all" else gb, spans_of(gb), "given"))
    views = [("", port, groups)]
    if case.get("regroup") and case["gb"] is not None and not share:
        gb = groups[-1][0]
        views.append(("regrouped ", port.regroup(gb), [(None, groups[-1][1], "default"), (False, cols, "columns")]))

    want = {}
    for arg, spans, label in groups:
        w = {}
        grouped = [s for s in spans] != cols or (label != "columns" and (label == "given" or grouped_sim))
        gcf = squeeze(cf, spans)
        if auto:
            m = np.cumsum(gcf, axis=0).min(axis=0)
            init = np.where(m < 0, -m, 1.0)
            near0 = np.abs(m) <= tol  # rounding decides between own cash and none
            if auto == "autoalign":
                init = np.full(len(spans), init.max())
            w["skip_init"] = bool(near0.any())
        elif share:
            ic = pf.init_cash(case)
            init = np.array([ic[next(a for a, (lo, hi) in enumerate(own) if lo <= s[0] < hi)] for s in spans])
        else:
            ic = np.array(pf.init_cash(case))
            init = np.array([ic[lo:hi].sum() for lo, hi in spans])
        w["init"] = init
        w["cash_flow"], w["free_flow"] = gcf, squeeze(ff, spans)
        w["asset_value"] = squeeze(av, spans)
        w["mask"] = np.stack([(end[:, lo:hi] != 0).any(axis=1) for lo, hi in spans], axis=1)
        w["cover"] = np.array([(end[:, lo:hi] != 0).mean() for lo, hi in spans])
        lastv = np.where(end[-1] == 0, 0.0, end[-1] * mark[-1])
        w["profit"] = np.array([cf[:, lo:hi].sum() + lastv[lo:hi].sum() for lo, hi in spans])
        w["sim"] = None
        if not auto and (spans == own or not share):
            # the simulated state itself
            w["sim"] = (squeeze(cash, spans) if not share else cash, squeeze(free, spans) if not share else free)
        want[label] = w

    def t2(x):
        return two(x)

    def bad(what, got, exp):
        return f"{what}: {np.asarray(got).tolist()}, expected {np.asarray(exp).tolist()}"

    jobs = []
    for vn, p, gl in views:
        for arg, spans, label in gl:
            w = want["given" if vn and label == "default" else label]
            k = {} if arg is None else dict(group_by=arg)
            tag = f"{vn}{label}"

            def j_init(p=p, k=k, w=w, tag=tag):
                init = one(p.get_init_cash(**k))
                if w.get("skip_init"):
                    return
                ctx.check(same(init, w["init"], tol), "init-cash", lambda: bad(f"{tag} init_cash", init, w["init"]))

            def j_flow(p=p, k=k, w=w, tag=tag):
                g = t2(p.cash_flow(**k))
                ctx.check(same(g, w["cash_flow"], tol), "cash-flow", lambda: bad(f"{tag} cash_flow", g, w["cash_flow"]))
                g = t2(p.cash_flow(free=True, **k))
                ctx.check(same(g, w["free_flow"], tol), "free-cash-flow", lambda: bad(f"{tag} cash_flow(free)", g, w["free_flow"]))

            def j_cash(p=p, k=k, w=w, tag=tag):
                g, f, init = t2(p.cash(**k)), t2(p.cash(free=True, **k)), one(p.get_init_cash(**k))
                e = init + np.cumsum(w["cash_flow"], axis=0)
                ctx.check(same(g, e, tol), "cash-not-sum-of-flows", lambda: bad(f"{tag} cash", g, e))
                e2 = init + np.cumsum(w["free_flow"], axis=0)
                ctx.check(same(f, e2, tol), "free-cash-not-sum-of-flows", lambda: bad(f"{tag} cash(free)", f, e2))
                if w["sim"] is not None:
                    ctx.check(same(g, w["sim"][0], tol), "cash-not-simulated", lambda: bad(f"{tag} cash", g, w["sim"][0]))
                    ctx.check(same(f, w["sim"][1], tol), "free-cash-not-simulated", lambda: bad(f"{tag} cash(free)", f, w["sim"][1]))
                if auto:
                    ctx.check(bool((g >= -tol).all()), "auto-cash-negative", lambda: bad(f"{tag} cash with init_cash={auto}", g, ">= 0"))

            def j_av(p=p, k=k, w=w, tag=tag):
                g = t2(p.asset_value(**k))
                ctx.check(same(g, w["asset_value"], vtol), "asset-value", lambda: bad(f"{tag} asset_value", g, w["asset_value"]))
                m = t2(p.position_mask(**k))
                ctx.check(np.array_equal(m, w["mask"]), "position-mask", lambda: bad(f"{tag} position_mask", m, w["mask"]))
                m = one(p.position_coverage(**k))
                ctx.check(same(m, w["cover"], 0), "position-coverage", lambda: bad(f"{tag} position_coverage", m, w["cover"]))

            def j_value(p=p, k=k, w=w, tag=tag):
                v, g = t2(p.value(**k)), t2(p.cash(**k))
                e = g + w["asset_value"]
                ctx.check(same(v, e, vtol), "value", lambda: bad(f"{tag} value", v, e))

            def j_ret(p=p, k=k, w=w, tag=tag):
                v, init, r = t2(p.value(**k)), one(p.get_init_cash(**k)), t2(p.returns(**k))
                prev = np.vstack([init, v[:-1]])
                e = np.array([[pf.ret_of(float(a), float(b)) for a, b in zip(x, y)] for x, y in zip(prev, v)])
                ok = same(r, e, 1e-9)
                ctx.check(ok, "returns", lambda: bad(f"{tag} returns", r, e))
                for c in range(v.shape[1]):
                    if np.isfinite(v[:, c]).all() and np.isfinite(init[c]) and (v[:, c] > 1e-6 * big).all() and init[c] > 1e-6 * big and init[c] > 0:
                        end_ = init[c] * np.prod(1 + r[:, c])
                        ctx.check(same([end_], [v[-1, c]], vtol), "returns-do-not-compound", lambda: bad(f"{tag} {c}", [end_], [v[-1, c]]))
                a, cfl, ar = t2(p.asset_value(**k)), t2(p.cash_flow(**k)), t2(p.asset_returns(**k))
                prev = np.vstack([np.zeros(a.shape[1]), a[:-1]])
                e = np.array([[pf.ret_of(float(x), float(y)) for x, y in zip(q, z)] for q, z in zip(prev, a + cfl)])
                ctx.check(same(ar, e, 1e-9), "asset-returns", lambda: bad(f"{tag} asset_returns", ar, e))

            def j_profit(p=p, k=k, w=w, tag=tag):
                g = one(p.total_profit(**k))
                ctx.check(same(g, w["profit"], vtol), "total-profit", lambda: bad(f"{tag} total_profit", g, w["profit"]))
                v, init = t2(p.value(**k)), one(p.get_init_cash(**k))
                if np.isfinite(init).all():
                    ctx.check(same(v[-1] - init, g, vtol + 1e-9 * np.abs(init).max()), "profit-not-change-of-value", lambda: bad(f"{tag} final value - initial cash", v[-1] - init, g))
                    fv, tr = one(p.final_value(**k)), one(p.total_return(**k))
                    ctx.check(same(fv, v[-1], vtol + 1e-9 * np.abs(init).max()), "final-value", lambda: bad(f"{tag} final_value", fv, v[-1]))
                    with np.errstate(all="ignore"):
                        e = g / init
                    ctx.check(same(tr, e, 1e-9), "total-return", lambda: bad(f"{tag} total_return", tr, e))

            def j_bench(p=p, k=k, w=w, tag=tag, spans=spans, label=label):
                b, init = t2(p.benchmark_value(**k)), one(p.get_init_cash(**k))
                with np.errstate(all="ignore"):
                    e = np.stack([sum(mark[:, c] / mark[0, c] for c in range(lo, hi)) * (x / (hi - lo)) for (lo, hi), x in zip(spans, init)], axis=1)
                if np.isfinite(init).all():
                    ctx.check(same(b, e, 1e-8 * max(1.0, np.abs(init).max())), "benchmark-value", lambda: bad(f"{tag} benchmark_value", b, e))

            for f in (j_init, j_flow, j_cash, j_av, j_value, j_ret, j_profit, j_bench):
                jobs.append((f"{tag} {f.__name__[2:]}", f))

    def j_assets():
        for d, e, pe in (("both", af, end), ("longonly", lf, np.maximum(end, 0)), ("shortonly", sf, np.maximum(-end, 0))):
            g = t2(port.asset_flow(direction=d))
            ctx.check(same(g, e, tol), "asset-flow", lambda: bad(f"asset_flow({d})", g, e))
            a = t2(port.assets(direction=d))
            ctx.check(same(a, pe, tol), "assets", lambda: bad(f"assets({d})", a, pe))
            v, e2 = t2(port.asset_value(direction=d, group_by=False)), np.where(pe == 0, 0, pe * mark)
            ctx.check(same(v, e2, vtol), "asset-value", lambda: bad(f"asset_value({d})", v, e2))

    def j_order():
        """Cash and value in the order in which the simulation went through the columns."""
        c, v = t2(port.cash(group_by=False, in_sim_order=True)), t2(port.value(group_by=False, in_sim_order=True))
        init = one(port.init_cash)
        ec, ev = np.full((T, N), NAN), np.full((T, N), NAN)
        er = np.full((T, N), NAN)
        for a, (lo, hi) in enumerate(own):
            now, prev = init[a], init[a]
            val = {}
            for i in range(T):
                for k in range(hi - lo):
                    col = lo + int(seq[i, lo + k])
                    now += cf[i, col]
                    val[col] = av[i, col]
                    ec[i, col] = now
                    ev[i, col] = now + sum(val.values())
                    er[i, col] = pf.ret_of(prev, ev[i, col])
                    prev = ev[i, col]
        ctx.check(same(c, ec, tol), "cash-in-sim-order", lambda: bad("cash in simulation order", c, ec))
        if not np.isnan(av).any():
            ctx.check(same(v, ev, vtol), "value-in-sim-order", lambda: bad(f"value in simulation order {seq.tolist()}", v, ev))
            r = t2(port.returns(group_by=False, in_sim_order=True))
            if np.isfinite(init).all() and (ev > 1e-3 * max(big, 1e-9)).all():
                ctx.check(same(r, er, 1e-7), "returns-in-sim-order", lambda: bad("returns in simulation order", r, er))

    jobs.append(("assets", j_assets))
    if share and seq is not None:
        jobs.append(("sim-order", j_order))
    rng = Rng(case["read"])
    rng.shuffle(jobs)
    for name, f in jobs:
        ctx.ev("read", name)
        ctx.state(case["src"], auto, case["fillna"], share, name)
        f()


def gen_jit(rng):
    c = gen(rng)
    while c["src"] in ("signals", "calls", "flexible"):
        c = gen(rng)
    c["full"] = True
    c["auto_cash"] = None
    if c["share"] and c.get("kind") in ("default", "reversed"):
        c["kind"] = "custom"
        c["perm"] = [[rng.sample(range(n), n) for n in c["groups"]] for _ in c["close"]]
    return c


def warm(mode):
    """Compile every specialisation before the workers fork."""
    from ..core import execute

    if mode == "jit":
        todo = {(False, "gb"), (False, None), (True, None)}
        for k in range(400):
            c = gen_jit(Rng(k))
            key = (c["share"], "gb" if c["gb"] is not None else None)
            if key in todo:
                ctx, v, e = execute(SCENARIOS[1], c, k)
                if v is None and e is None and not ctx.probes.get("no-portfolio"):
                    todo.discard(key)
            if not todo:
                break


SCENARIOS = [
    Scenario("reports", gen, run, 1300, 30000, real=REAL, stub=STUB),
    Scenario("compiled", gen_jit, run, 150, 3000, jit=True, real=REAL, stub=STUB),
]
