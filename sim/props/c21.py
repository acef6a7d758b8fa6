"""C21: stats of one object as a history of calls that share caches.

Every call computes several metrics that share a cache of resolved attributes, on an object that keeps its own cache between
calls.  The simulator draws the calls, the order of the metrics, settings given for one metric or for all of them, reads of
cached attributes in between, and metrics that raise.  Each row is compared with the same metric computed alone, without any
caching, on an object built anew that carries the frequency or mapping itself."""
import warnings

import numpy as np
import pandas as pd

from ..core import Scenario
from .. import objs

REAL = ["generic.stats_builder", "utils.attr_ AttrResolver", "base.array_wrapper resolve_self", "portfolio, records, returns, signals, generic, data metrics", "utils.decorators caches"]
STUB = ["feeds"]
KINDS = ["portfolio", "portfolio", "portfolio", "returns", "returns", "trades", "positions", "orders", "logs", "drawdowns", "ranges", "mapped", "data", "signals", "generic"]
FREQS = ["1h", "2D", "D", "s"]
STEP = dict(D=86400, h=3600, s=1, ms=0.001, min=60)
STEP.update({"1h": 3600, "2D": 2 * 86400, "3s": 3})
OF_INDEX = dict(days=86400, tz=43200, s=1, min=60)  # other indexes have no fixed frequency


class Boom(Exception):
    pass


# ------------------------------------------------------------------ objects
def build(d, freq=None, year_freq=None, mapping=None):
    import vectorbt as vbt
    kind = d["kind"]
    if freq is not None:
        d = dict(d, freq=freq)
    if kind in ("returns", "signals", "generic"):
        f = objs.frame(d)
        if kind == "returns":
            bm = objs.frame(d, "side") * 0.05 if d["bm"] else None
            r = f.pct_change(fill_method=None).vbt.returns(freq=d["freq"], benchmark_rets=bm, **(dict(year_freq=year_freq or d["year"]) if year_freq or d["year"] else {}))
            return r
        if kind == "signals":
            return (f > d["thr"]).vbt.signals(freq=d["freq"])
        mp = mapping or d["map"]
        return f.round(0).vbt(freq=d["freq"], **(dict(mapping=mp) if mp else {}))
    if kind == "data":
        o = objs.build(d)
    else:
        o = objs.build(d)
    if d["freq"] is not None and kind == "data":
        o = o.replace(wrapper=o.wrapper.replace(freq=d["freq"]))
    return o


# custom metrics: what they resolve and how
def c_returns(returns):
    return returns.std()


def c_trades(trades):
    return trades.count()


def c_trade_sum(trades, group_by):
    return trades.pnl.sum(group_by=group_by)


def c_open(self, incl_open):
    return len(self.wrapper.index) + (0.5 if incl_open else 0.0)


def c_freq(self, to_timedelta):
    return f"{self.wrapper.freq}/{to_timedelta}"


def c_name(metric_name, column, group_by):
    return f"{column}/{group_by}"


def c_dict(self):
    return dict(a=float(self.wrapper.shape_2d[0]), b=float(self.wrapper.shape_2d[1]))


def c_boom(self):
    raise Boom()


def c_settings(self, s):
    return f"{s.get('mark')}/{s.get('trades_type')}/{s.get('incl_open')}/{s.get('use_asset_returns')}"


def c_value(value):
    return value.max()


def c_acc(returns_acc):
    return returns_acc.total()


CUSTOM = dict(
    ret=dict(calc_func=c_returns, resolve_returns=True),
    trades=dict(calc_func=c_trades, resolve_trades=True),
    tsum=dict(calc_func=c_trade_sum, resolve_trades=True),
    open=dict(calc_func=c_open, pass_incl_open=True),
    freq=dict(calc_func=c_freq),
    name=dict(calc_func=c_name),
    dict=dict(calc_func=c_dict),
    boom=dict(calc_func=c_boom),
    raw=dict(calc_func=c_settings, resolve_calc_func=False),
    value=dict(calc_func=c_value, resolve_value=True),
    acc=dict(calc_func=c_acc, resolve_returns_acc=True),
    ravg=dict(calc_func="returns.mean"),
    vmax=dict(calc_func="value.vbt.max"),
    psum=dict(calc_func="trades.pnl.sum"),
    aret=dict(calc_func="asset_returns.std"),
    # the same attribute with and without arguments in its path
    av=dict(calc_func=["asset_value", "sum"]),
    avl=dict(calc_func=[("asset_value", (), dict(direction="longonly")), "sum"]),
    avs=dict(calc_func=[("asset_value", ("shortonly",)), "sum"]),
    cf=dict(calc_func="cash_flow.sum"),
    cff=dict(calc_func=[("cash_flow", (), dict(free=True)), "sum"]),
    rat=dict(calc_func=[("returns", (), dict(in_sim_order=False)), "min"]),
)
KIN = [("av", "avl", "avs"), ("cf", "cff"), ("rat", "ravg", "ret")]
GENERIC = ["freq", "name", "dict", "boom", "raw"]


# ------------------------------------------------------------------ generation
def gen_settings(rng, d, one):
    s = {}
    kind = d["kind"]
    opts = ["freq", "freq"]
    if kind == "portfolio":
        opts += ["year_freq", "use_asset_returns", "use_asset_returns", "trades_type", "trades_type", "incl_open", "incl_open", "incl_unrealized", "required_return", "risk_free"]
    elif kind == "returns":
        opts += ["year_freq", "year_freq", "required_return", "risk_free"]
    elif kind in ("trades", "positions"):
        opts += ["incl_open", "incl_unrealized"]
    elif kind == "drawdowns":
        opts += ["incl_active"]
    elif kind in ("generic", "mapped"):
        opts += ["incl_all_keys"] if one else ["mapping", "incl_all_keys"]
    for k in rng.sample(opts, rng.pick(0, 1, 1, 2, min(3, len(opts)))):
        s[k] = dict(freq=lambda: rng.pick(*FREQS), year_freq=lambda: rng.pick("252 days", "365 days", "10 days"), use_asset_returns=lambda: rng.chance(0.7),
                    trades_type=lambda: rng.pick("entrytrades", "exittrades", "positions", 0, 1, 2), incl_open=lambda: rng.chance(0.6),
                    incl_unrealized=lambda: rng.chance(0.5), required_return=lambda: rng.pick(0.01, -0.02), risk_free=lambda: 0.01,
                    incl_active=lambda: rng.chance(0.5), mapping=lambda: rng.pick(0, 1), incl_all_keys=lambda: rng.chance(0.5))[k]()
    if one and rng.chance(0.15):
        s["group_by"] = rng.pick(True, False)
    if one and rng.chance(0.08):
        s["use_caching"] = False
    if one and rng.chance(0.05):
        s["to_timedelta"] = False
    if one and rng.chance(0.1):
        s["agg_func"] = rng.pick("max", "min")
    if one and rng.chance(0.1):
        s["mark"] = rng.randint(0, 3)
    return s


def gen(rng):
    d = objs.gen_spec(rng, KINDS)
    d["n"], d["extra"], d["columns"] = rng.randint(3, 14), None, rng.pick("range", "str")
    d["k"] = rng.pick(1, 2, 3, 3)
    d["ndim"] = 1 if d["k"] == 1 and rng.chance(0.6) else 2
    d["vals"] = [[round(rng.uniform(1, 9), 2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["side"] = [[rng.pick(0, 1, -1, 1, -2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["bm"], d["year"], d["thr"], d["map"] = rng.chance(0.6), rng.pick(None, "100 days"), rng.uniform(2, 7), rng.pick(None, {"1": "one", "2": "two", "5": "five"})
    if d["index"] == "multi" or rng.chance(0.35):
        d["index"] = rng.pick("days", "W", "W-WED", "MS", "ME", "B", "QS", "s", "min", "lost")
    if rng.chance(0.15):
        d["freq"] = rng.pick("s", "ms", "min", "3s", "h")
    names = GENERIC + [k for k in CUSTOM if k not in GENERIC] * (2 if d["kind"] == "portfolio" else 0)
    calls = []
    for _ in range(rng.pick(1, 2, 2, 3)):
        ms = []
        for _ in range(rng.randint(1, 7)):
            what = rng.pick(*names) if rng.chance(0.3) else rng.randint(0, 60)
            if what == "boom" and rng.chance(0.7):
                what = 3
            ms.append([what, gen_settings(rng, d, True) if rng.chance(0.35) else {}])
            kin = next((f for f in KIN if what in f), None)
            if kin and rng.chance(0.6):
                ms.append([rng.pick(*kin), {}])
        if rng.chance(0.3):  # same metric twice, with other settings
            ms.insert(rng.randint(0, len(ms)), [rng.choice(ms)[0], gen_settings(rng, d, True)])
        calls.append(dict(ms=ms, settings=gen_settings(rng, d, False) if rng.chance(0.4) else {}, group_by=rng.weighted([(None, 6), (True, 1), (False, 1)]),
                          column=rng.pick(None, None, None, 0, 1), agg=rng.pick("mean", "mean", "max", None, None), reads=rng.sample(range(8), rng.pick(0, 0, 1, 2))))
    return dict(d=d, calls=calls, caching=rng.chance(0.85), bars=rng.chance(0.4))


AGG = dict(mean=np.mean, max=np.max, min=np.min)
MAPS = [{1: "uno", 2: "due", 5: "cinque"}, {3.0: "x", 4.0: "y"}]
READS = ["trades", "returns_acc", "drawdowns", "orders", "value", "returns", "positions", "asset_returns"]


def concrete(s):
    s = dict(s)
    if "agg_func" in s:
        s["agg_func"] = AGG[s["agg_func"]]
    if "mapping" in s:
        s["mapping"] = MAPS[s["mapping"]]
    return s


def norm(v):
    if v is None or v is pd.NaT or v is pd.NA:
        return "nan"
    if isinstance(v, (pd.Timedelta, np.timedelta64)):
        v = pd.Timedelta(v)
        return "nan" if v is pd.NaT else ("td", v.value)
    if isinstance(v, (bool, np.bool_, int, float, np.integer, np.floating)):
        v = float(v)
        return "nan" if v != v else v
    return str(v)


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)
    if isinstance(a, tuple) and isinstance(b, tuple):  # averages of durations are floats rounded to ns
        return abs(a[1] - b[1]) <= 2
    return a == b


def trades_of(p, gb, o):
    t = p.get_trades(group_by=gb)
    return t if o.get("incl_open") else t.closed


def acc_of(p, gb, o):
    from vectorbt import settings
    return p.get_returns_acc(group_by=gb, year_freq=o.get("year_freq", settings.returns["year_freq"]), use_asset_returns=bool(o.get("use_asset_returns")))


def req(o):
    r = dict(risk_free=o.get("risk_free", 0.0), required_return=o.get("required_return", 0.0))
    return r


# what a metric says of a portfolio, asked for directly
DIRECT = dict(
    total_return=lambda p, gb, o: p.total_return(group_by=gb) * 100,
    start_value=lambda p, gb, o: p.get_init_cash(group_by=gb),
    end_value=lambda p, gb, o: p.final_value(group_by=gb),
    benchmark_return=lambda p, gb, o: p.benchmark_returns(group_by=gb).vbt.returns.total() * 100,
    max_gross_exposure=lambda p, gb, o: p.gross_exposure(group_by=gb).max() * 100,
    total_fees_paid=lambda p, gb, o: p.get_orders(group_by=gb).fees.sum(),
    max_dd=lambda p, gb, o: -p.get_drawdowns(group_by=gb).max_drawdown() * 100,
    total_trades=lambda p, gb, o: trades_of(p, gb, o).count(),
    total_closed_trades=lambda p, gb, o: p.get_trades(group_by=gb).closed.count(),
    total_open_trades=lambda p, gb, o: trades_of(p, gb, o).open.count(),
    open_trade_pnl=lambda p, gb, o: trades_of(p, gb, o).open.pnl.sum(),
    win_rate=lambda p, gb, o: trades_of(p, gb, o).win_rate() * 100,
    best_trade=lambda p, gb, o: trades_of(p, gb, o).returns.max() * 100,
    worst_trade=lambda p, gb, o: trades_of(p, gb, o).returns.min() * 100,
    avg_winning_trade=lambda p, gb, o: trades_of(p, gb, o).winning.returns.mean() * 100,
    avg_losing_trade=lambda p, gb, o: trades_of(p, gb, o).losing.returns.mean() * 100,
    profit_factor=lambda p, gb, o: trades_of(p, gb, o).profit_factor(),
    expectancy=lambda p, gb, o: trades_of(p, gb, o).expectancy(),
    sharpe_ratio=lambda p, gb, o: acc_of(p, gb, o).sharpe_ratio(risk_free=req(o)["risk_free"]),
    calmar_ratio=lambda p, gb, o: acc_of(p, gb, o).calmar_ratio(),
    omega_ratio=lambda p, gb, o: acc_of(p, gb, o).omega_ratio(**req(o)),
    sortino_ratio=lambda p, gb, o: acc_of(p, gb, o).sortino_ratio(required_return=req(o)["required_return"]),
)


def direct(ctx, p, name, o, kw, rr, i):
    if name not in DIRECT or not rr or ("group_by" in o and kw["agg_func"] is None):
        return
    gb = o.get("group_by", kw["group_by"])
    v = DIRECT[name](p, gb, o)
    got = rr[f"m{i}"]
    agg = o.get("agg_func", kw["agg_func"])
    if isinstance(v, pd.Series) and p.wrapper.get_ndim(group_by=gb) == 2:
        if kw["column"] is not None:
            v = v.loc[kw["column"]] if kw["column"] in v.index else v.iloc[0]
        elif kw["agg_func"] is not None and agg is not None:
            v = agg(v)
        elif kw["agg_func"] is None:
            v = v.tolist()
    elif isinstance(v, pd.Series):
        v = v.iloc[0]
    v = [norm(x) for x in v] if isinstance(v, list) else norm(v)
    same = len(v) == len(got) and all(eq(a, b) for a, b in zip(v, got)) if isinstance(v, list) and isinstance(got, list) else (
        eq(v, got) if not isinstance(got, list) else all(eq(v, x) for x in got))
    ctx.check(same, "not-the-method", f"{name} with {o} {kw}: stats says {got}, the object {v}")
    ctx.probe("direct")


def durations(ctx, case, alone, name, base, s, g, kw, rr, step, i):
    """Durations are numbers of bars times the frequency, or bars if there is no fixed frequency."""
    flat = [(t, x) for t, v in rr.items() for x in (v if isinstance(v, list) else [v])]
    if step is None:
        ctx.check(not any(isinstance(x, tuple) for _, x in flat), "made-up-frequency", f"{flat} of an index without a fixed frequency")
    if name == "period":
        n = float(len(alone.wrapper.index))
        want = ("td", round(n * step * 10**9)) if step is not None and s.get("to_timedelta", True) else n
        ctx.check(all(eq(x, want) for _, x in flat), "wrong-period", f"period {flat}, expected {want}")
    if not case["bars"] or step is None or "to_timedelta" in s or not any(isinstance(x, tuple) for _, x in flat):
        return
    out = rows(alone.stats(metrics=[name if base is None else (name, base)], settings=g, metric_settings={name: dict(s, to_timedelta=False)}, silence_warnings=True, **kw))
    bars = [(t, x) for t, v in out.items() for x in (v if isinstance(v, list) else [v])]
    ctx.check(len(bars) == len(flat), "wrong-rows", f"{flat} as durations, {bars} in bars")
    for (t, x), (_, b) in zip(flat, bars):
        if isinstance(x, tuple) and isinstance(b, float):
            ctx.check(abs(x[1] - b * step * 1e9) <= max(2000, 1e-9 * abs(x[1])), "wrong-duration", f"{name} {t}: {x[1] / 1e9} s, but {b} bars of {step} s")
            ctx.probe("duration")


def rows(out):
    """Result of stats() as {title: value or list of values}."""
    if out is None:
        return {}
    if isinstance(out, pd.DataFrame):
        return {t: [norm(x) for x in out[t].tolist()] if out[t].dtype.kind != "m" else [norm(x) for x in out[t]] for t in out.columns}
    return {t: norm(out[t]) for t in out.index}


def run(case, ctx):
    from vectorbt import settings
    d = case["d"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        settings.caching["enabled"] = case["caching"]
        try:
            play(case, ctx, settings)
        finally:
            settings.caching["enabled"] = True


def play(case, ctx, settings):
    d = dict(case["d"])
    if d["map"]:
        d["map"] = {float(k): v for k, v in d["map"].items()}
    obj = build(d)
    names = sorted(obj.metrics)
    defaults = {n: sorted(obj.metrics[n]) for n in names}
    ctx.check(hasattr(obj, "stats"), "no-stats", d["kind"])
    for j, call in enumerate(case["calls"]):
        for r in call["reads"]:
            a = getattr(obj, READS[r], None)
            if callable(a):
                try:
                    a()
                except TypeError:
                    pass
        grouped_cols = len(obj.wrapper.get_columns(group_by=call["group_by"])) if obj.wrapper.ndim == 2 else 1
        column = None
        if call["column"] is not None and obj.wrapper.get_ndim(group_by=call["group_by"]) == 2 and not any("group_by" in s for _, s in call["ms"]):
            column = obj.wrapper.get_columns(group_by=call["group_by"])[call["column"] % grouped_cols]
        entries = []
        for i, (what, s) in enumerate(call["ms"]):
            if isinstance(what, int):
                name = names[what % len(names)]
                base = None
            else:
                name, base = "my_" + what, CUSTOM[what]
            entries.append((name, base, dict(concrete(s), title=f"m{i}")))
        count = {}
        metrics, msettings = [], {}
        for name, base, s in entries:
            total = sum(1 for e in entries if e[0] == name)
            full = name
            if total > 1:
                full = f"{name}_{count.get(name, 0)}"
                count[name] = count.get(name, 0) + 1
            metrics.append(name if base is None else (name, base))
            msettings[full] = s
        kw = dict(column=column, group_by=call["group_by"], agg_func=AGG.get(call["agg"]))
        err = got = None
        try:
            got = obj.stats(metrics=metrics, settings=concrete(call["settings"]), metric_settings=msettings, silence_warnings=True, **kw)
        except Exception as e:
            err = e
            if isinstance(e, Boom):
                ctx.fault("metric-failure")
        # every metric alone, nothing cached, the frequency carried by the object
        expect, exp_err, lost = {}, [], 0
        settings.caching["enabled"] = False
        try:
            for i, (name, base, s) in enumerate(entries):
                s = dict(s)
                g = concrete(call["settings"])
                mk = {}
                freq = s.pop("freq", None) or g.get("freq")
                g.pop("freq", None)
                if freq is not None:
                    mk["freq"] = freq
                if d["kind"] == "returns":
                    y = s.pop("year_freq", None) or g.pop("year_freq", None)
                    g.pop("year_freq", None)
                    if y:
                        mk["year_freq"] = y
                if d["kind"] == "generic":
                    m = s.pop("mapping", None) or g.pop("mapping", None)
                    g.pop("mapping", None)
                    if m:
                        mk["mapping"] = m
                s.pop("use_caching", None)
                if mk:
                    ctx.probe("own-" + "-".join(sorted(mk)))
                alone = build(d, **mk)
                try:
                    out = alone.stats(metrics=[name if base is None else (name, base)], settings=g, metric_settings={name: s}, silence_warnings=True, **kw)
                except Exception as e:
                    exp_err.append((i, e))
                    continue
                rr = rows(out)
                if freq is None:
                    freq = d["freq"]
                step = STEP[freq] if freq is not None else 3600 if d["kind"] == "data" else OF_INDEX.get(d["index"])
                if step is not None and d["index"] in ("s", "min", "tz", "days") and freq is None and d["n"] < 3 and d["kind"] != "data":
                    step = None
                if step is None and d["index"] not in OF_INDEX:
                    ctx.fault("no-fixed-frequency")
                if d["kind"] == "portfolio" and base is None:
                    direct(ctx, alone, name, {**g, **{k: v for k, v in obj.metrics[name].items() if k == "incl_open"}, **s}, kw, rr, i)
                durations(ctx, case, alone, name, base, s, g, kw, rr, step, i)
                lost += not rr
                expect.update(rr)
        finally:
            settings.caching["enabled"] = case["caching"]
        what = f"call {j} of {d['kind']}: metrics {[(n, s) for n, _, s in entries]} settings {call['settings']} {kw}"
        ctx.ev(j, type(err).__name__, sorted(expect.items(), key=str))
        ctx.state(d["kind"], len(entries), type(err).__name__, bool(call["settings"]), call["agg"], column is not None)
        ctx.tick(1)
        if err is not None:
            ctx.check(any(type(e) is type(err) for _, e in exp_err), "only-together", f"{what}: raises {type(err).__name__}: {str(err)[:200]}, none of the metrics does alone")
            ctx.probe("raised")
        else:
            ctx.check(not exp_err, "only-alone", f"{what}: metric m{exp_err[0][0] if exp_err else ''} raises {exp_err[0][1]!r:.200} when alone" if exp_err else "")
            have = rows(got)
            ctx.check(set(have) == set(expect), "wrong-rows", f"{what}: rows {sorted(have)}, expected {sorted(expect)}")
            for t in have:
                a, b = have[t], expect[t]
                ok = (len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))) if isinstance(a, list) and isinstance(b, list) else eq(a, b)
                ctx.check(ok, "wrong-value", f"{what}: {t} is {a}, {b} when computed alone")
        now = {n: sorted(obj.metrics[n]) for n in obj.metrics}
        ctx.check(now == defaults, "metrics-changed", f"{what}: metrics of the object changed")


def shrink(case):
    for j, c in enumerate(case["calls"]):
        if len(case["calls"]) > 1:
            yield dict(case, calls=case["calls"][:j] + case["calls"][j + 1:])
        put = lambda x: dict(case, calls=case["calls"][:j] + [dict(c, **x)] + case["calls"][j + 1:])
        for i in range(len(c["ms"])):
            if len(c["ms"]) > 1:
                yield put(dict(ms=c["ms"][:i] + c["ms"][i + 1:]))
            for k in c["ms"][i][1]:
                yield put(dict(ms=c["ms"][:i] + [[c["ms"][i][0], {a: b for a, b in c["ms"][i][1].items() if a != k}]] + c["ms"][i + 1:]))
        for k in c["settings"]:
            yield put(dict(settings={a: b for a, b in c["settings"].items() if a != k}))
        for x in (dict(group_by=None), dict(column=None), dict(agg="mean"), dict(reads=[])):
            if any(c[k] != v for k, v in x.items()):
                yield put(x)
    d = case["d"]
    for k, v in (("freq", None), ("group", None), ("index", "range"), ("columns", "range"), ("nan", False), ("mapping", None), ("bm", False), ("year", None), ("map", None)):
        if d[k] != v:
            yield dict(case, d=dict(d, **{k: v}))


# ------------------------------------------------------------------ type of trades given as a setting
def gen_types(rng):
    d = objs.gen_spec(rng, ["portfolio"])
    d["n"], d["k"], d["ndim"], d["extra"], d["index"], d["columns"], d["nan"], d["group"] = rng.randint(5, 14), 1, 1, None, "days", "range", False, None
    d["vals"] = [[round(rng.uniform(1, 9), 2)] for _ in range(d["n"])]
    d["side"] = [[rng.pick(1, 1, -1, 2, -2)] for _ in range(d["n"])]
    return dict(d=d, own=rng.randrange(3), type=rng.randrange(3), metric=rng.pick("total_trades", "total_closed_trades", "win_rate"), how=rng.pick("settings", "metric"))


def run_types(case, ctx):
    from vectorbt.portfolio.enums import TradesType
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = objs.build(case["d"]).replace(trades_type=case["own"])
        m = case["metric"]
        name = TradesType._fields[case["type"]]
        kw = dict(settings=dict(trades_type=name)) if case["how"] == "settings" else dict(metric_settings={m: dict(trades_type=name)})
        alone = lambda t: rows(objs.build(case["d"]).replace(trades_type=t).stats(m))
        got, want, own = rows(p.stats(m, **kw)), alone(case["type"]), alone(case["own"])
        title = list(want)[0]
        ctx.ev(got, want)
        ctx.state(case["own"], case["type"], m, eq(got[title], want[title]))
        if not eq(got[title], want[title]):
            ctx.fail("trades-type-ignored" if eq(got[title], own[title]) else "wrong-trades-type",
                     f"{m} with trades_type={name} of a portfolio of {TradesType._fields[case['own']]} is {got[title]}, that of a portfolio of {name} is {want[title]}")


# ------------------------------------------------------------------ subplots of one figure
def shrink_plots(case):
    for j, c in enumerate(case["calls"]):
        if len(case["calls"]) > 1:
            yield dict(case, calls=case["calls"][:j] + case["calls"][j + 1:])
        for i in range(len(c["ms"])):
            if len(c["ms"]) > 1:
                yield dict(case, calls=case["calls"][:j] + [dict(c, ms=c["ms"][:i] + c["ms"][i + 1:])] + case["calls"][j + 1:])


def gen_plots(rng):
    d = objs.gen_spec(rng, ["portfolio"])
    d["n"], d["extra"], d["columns"], d["index"] = rng.randint(3, 9), None, rng.pick("range", "str"), rng.pick("range", "days", "hours")
    d["k"] = rng.pick(1, 2, 3)
    d["ndim"] = 1 if d["k"] == 1 and rng.chance(0.6) else 2
    d["vals"] = [[round(rng.uniform(1, 9), 2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["side"] = [[rng.pick(0, 1, -1, 1, -2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["bm"], d["year"], d["map"] = False, None, None
    calls = []
    for _ in range(rng.pick(1, 1, 2)):
        ms = []
        for _ in range(rng.randint(1, 4)):
            s = {}
            if rng.chance(0.3):
                s[rng.pick("column", "use_asset_returns", "direction", "free", "freq")] = rng.randint(0, 2)
            ms.append([rng.pick("boom") if rng.chance(0.04) else rng.randint(0, 40), s])
        calls.append(dict(ms=ms, column=rng.randint(0, 2), group_by=rng.pick(None, None, None, False), settings={} if rng.chance(0.7) else dict(use_asset_returns=True)))
    return dict(d=d, calls=calls)


def plot_settings(s, cols):
    out = {}
    for k, v in s.items():
        if k == "column":
            if len(cols) > 1:
                out[k] = cols[v % len(cols)]
        elif k == "use_asset_returns":
            out[k] = bool(v)
        elif k == "direction":
            out[k] = ["both", "longonly", "shortonly"][v]
        elif k == "free":
            out[k] = bool(v)
        else:
            out[k] = FREQS[v]
    return out


def plain(v):
    return None if v is None else [norm(x) for x in np.asarray(v).ravel().tolist()]


def traces(fig, i):
    """What the i-th subplot shows."""
    x = "" if i == 0 else str(i + 1)
    out = [[t.type, t.name, plain(t.x), plain(t.y), plain(getattr(t, "customdata", None))] for t in fig.data if (t.xaxis or "x") == "x" + x]
    shapes = [[h.type, norm(h.x0) if (h.xref or "x") != "paper" else None, norm(h.x1) if (h.xref or "x") != "paper" else None, norm(h.y0) if (h.yref or "y")[:1] == "y" and "domain" not in h.yref else None]
              for h in fig.layout.shapes if ("x" + x) == h.xref or ("y" + x) == h.yref]
    ax = fig.layout["yaxis" + x]
    return dict(traces=out, shapes=shapes, ytitle=ax.title.text, fmt=ax.tickformat)


def boom_plot(self, fig):
    raise Boom()


ONE = lambda p, v, o: p.select_one_from_obj(v, p.wrapper.regroup(o["group_by"]), column=o["column"]) if isinstance(v, pd.DataFrame) else v
SHOWS = dict(
    cash=lambda p, o: ONE(p, p.cash(group_by=o["group_by"], free=o.get("free", False)), o),
    cash_flow=lambda p, o: ONE(p, p.cash_flow(group_by=o["group_by"], free=o.get("free", False)), o),
    asset_value=lambda p, o: ONE(p, p.asset_value(group_by=o["group_by"], direction=o.get("direction", "both")), o),
    value=lambda p, o: ONE(p, p.value(group_by=o["group_by"]), o),
    underwater=lambda p, o: ONE(p, p.drawdown(group_by=o["group_by"]), o),
    gross_exposure=lambda p, o: ONE(p, p.gross_exposure(group_by=o["group_by"], direction=o.get("direction", "both")), o),
    net_exposure=lambda p, o: ONE(p, p.net_exposure(group_by=o["group_by"]), o),
    assets=lambda p, o: ONE(p, p.assets(direction=o.get("direction", "both")), dict(o, group_by=False)),
    asset_flow=lambda p, o: ONE(p, p.asset_flow(direction=o.get("direction", "both")), dict(o, group_by=False)),
)


def run_plots(case, ctx):
    from vectorbt import settings
    d = case["d"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = build(d)
        names = sorted(p.subplots)
        for j, call in enumerate(case["calls"]):
            gb = call["group_by"]
            multi = p.wrapper.get_ndim(group_by=gb) == 2
            cols = list(p.wrapper.get_columns(group_by=gb))
            column = cols[call["column"] % len(cols)] if multi else None
            entries, count = [], {}
            for what, s in call["ms"]:
                base = dict(title="Boom", plot_func=boom_plot) if what == "boom" else None
                entries.append(("boom" if base else names[what % len(names)], base, plot_settings(s, cols)))
            subplots, ps = [], {}
            for name, base, s in entries:
                full = name
                if sum(1 for e in entries if e[0] == name) > 1:
                    full = f"{name}_{count.get(name, 0)}"
                    count[name] = count.get(name, 0) + 1
                subplots.append(name if base is None else (name, base))
                ps[full] = s
            kw = dict(column=column, group_by=gb, settings=dict(call["settings"]), silence_warnings=True)
            err = fig = None
            try:
                fig = p.plots(subplots=subplots, subplot_settings=ps, **kw)
            except Exception as e:
                err = e
                if isinstance(e, Boom):
                    ctx.fault("subplot-failure")
            alone, errs = [], []
            settings.caching["enabled"] = False
            try:
                for name, base, s in entries:
                    s = dict(s)
                    q = build(d, **({"freq": s.pop("freq")} if "freq" in s else {}))
                    try:
                        f = q.plots(subplots=[name if base is None else (name, base)], subplot_settings={name: s}, **kw)
                    except Exception as e:
                        errs.append(e)
                        continue
                    if f is not None and len(f.layout.annotations):
                        a = traces(f, 0)
                        alone.append((name, f.layout.annotations[0].text, a))
                        o = dict(dict(column=column, group_by=gb), **s)
                        if name in SHOWS:
                            y = [norm(x) for x in np.asarray(SHOWS[name](q, o), dtype=float).tolist()]
                            ctx.check(any(t[3] is not None and len(t[3]) == len(y) and all(eq(u, v) for u, v in zip(t[3], y)) for t in a["traces"]), "not-the-series",
                                      f"subplot {name} with {o}: no trace shows {y}: {[t[3] for t in a['traces']]}")
                            ctx.probe("direct")
            finally:
                settings.caching["enabled"] = True
            what = f"call {j}: subplots {[(n, s) for n, _, s in entries]} {kw}"
            ctx.ev(j, type(err).__name__, alone)
            ctx.state("plots", sorted({n for n, _, _ in entries}), type(err).__name__, multi)
            ctx.tick(1)
            if err is not None:
                ctx.check(any(type(e) is type(err) for e in errs), "only-together", f"{what}: raises {type(err).__name__}: {str(err)[:200]}, no subplot does alone")
                continue
            ctx.check(not errs, "only-alone", f"{what}: {errs} when alone")
            if not alone:
                continue
            have = [a.text for a in fig.layout.annotations if a.text in {t for _, t, _ in alone}]
            ctx.check(have == [t for _, t, _ in alone], "wrong-titles", f"{what}: titles {have}, expected {[t for _, t, _ in alone]}")
            total = 0
            for i, (name, title, a) in enumerate(alone):
                b = traces(fig, i)
                total += len(b["traces"])
                ctx.check(b == a, "wrong-subplot", f"{what}: subplot {i} ({name}) shows {b}\nalone it shows {a}")
            ctx.check(total == len(fig.data), "stray-trace", f"{what}: {len(fig.data)} traces, {total} on the subplots")


# ------------------------------------------------------------------ which metrics are computed: tags, filters, templates, aggregation
TAGS = [None, "a", ["a", "b"], "c", ["b", "c"]]
WANT = ["all", "all", "all", "a", ["a", "c"], "a and not b", "not c", "zzz"]
AGGS = dict(mean=np.mean, max=np.max, min=np.min, first=lambda v: v.iloc[0])


def gen_choice(rng):
    d = objs.gen_spec(rng, ["portfolio", "trades", "generic", "orders"])
    d["n"], d["extra"], d["columns"], d["index"] = rng.randint(3, 6), None, rng.pick("range", "str"), rng.pick("range", "days")
    d["k"] = rng.pick(1, 2, 3, 3)
    d["ndim"] = 1 if d["k"] == 1 and rng.chance(0.6) else 2
    d["vals"] = [[round(rng.uniform(1, 9), 2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["side"] = [[rng.pick(0, 1, -1, 1, -2) for _ in range(d["k"])] for _ in range(d["n"])]
    d["bm"], d["year"], d["map"], d["thr"] = False, None, None, 5.0
    calls = []
    for _ in range(rng.pick(1, 2, 3)):
        ms = []
        for i in range(rng.randint(1, 6)):
            flag = lambda: rng.pick(None, None, True, False)
            ms.append(dict(name=f"m{rng.randint(0, 3) if rng.chance(0.3) else i + 4}", tags=rng.pick(*TAGS), checks=[[f, rng.random() < 0.4] for f in rng.sample(["fa", "fb", "fc"], rng.pick(0, 0, 1, 1, 2))], own=flag(), over=flag(), kind=rng.pick("scalar", "per", "per", "dict", "rep"),
                           title=rng.pick("plain", "plain", "name", "word", "none", "same"), agg=rng.pick("unset", "unset", "unset", None, "max", "first"), over_title=rng.random() < 0.15, word=rng.pick(None, None, "own"), boom=rng.random() < 0.03))
        calls.append(dict(ms=ms, flag=rng.pick(None, True, False), tags=rng.pick(*WANT), agg=rng.pick("mean", "mean", "first", None), column=rng.pick(None, None, 0, 1), group_by=rng.pick(None, None, None, True, False), boom_filter=rng.random() < 0.04, silent=rng.random() < 0.5, plots=rng.random() < 0.25))
    return dict(d=d, calls=calls)


def tag_match(want, have):
    if want == "all":
        return True
    have = [] if have is None else [have] if isinstance(have, str) else have
    if not have:
        return False
    out = False
    for w in [want] if isinstance(want, str) else want:
        out = out or (w in have if w.isidentifier() else eval(w, {}, {x: x in have for x in "abc"}))
    return out


def run_choice(case, ctx):
    from vectorbt.utils.template import Rep, Sub
    d = case["d"]
    obj = build(d)
    for j, call in enumerate(case["calls"]):
        gb = call["group_by"]
        if gb is not None and d["kind"] == "generic" and d["ndim"] == 1:
            gb = None
        ndim = obj.wrapper.get_ndim(group_by=gb)
        cols = list(obj.wrapper.get_columns(group_by=gb))
        column = cols[call["column"] % len(cols)] if call["column"] is not None and ndim == 2 else None
        plots = call["plots"]
        if plots and ndim == 2:
            column = cols[(call["column"] or 0) % len(cols)]
        given = []
        if call["boom_filter"]:  # which of several filters is asked first is left open
            call = dict(call, ms=[dict(m, checks=[c for c in m["checks"] if c[0] == "fa"] or m["checks"]) for m in call["ms"]])

        def make(i, m):
            def calc(self, metric_name=None, flag=None, k=None, column=None, group_by=None, word=None, **kw):
                given.append((i, metric_name, flag, k, column, group_by))
                if m["boom"]:
                    raise Boom()
                if m["kind"] in ("scalar", "rep"):
                    return float(k)
                v = pd.Series([float(k + c) for c in range(len(cols))], index=self.wrapper.get_columns(group_by=group_by)) if ndim == 2 else float(k)
                return v if m["kind"] == "per" else {"x": v, 7: float(k)}

            def plot(self, subplot_name=None, flag=None, k=None, column=None, group_by=None, word=None, fig=None, add_trace_kwargs=None, **kw):
                given.append((i, subplot_name, flag, k, column, group_by))
                if m["boom"]:
                    raise Boom()
                fig.add_scatter(x=[0, 1], y=[k, k], name=f"trace{i}", **{a: b for a, b in (add_trace_kwargs or {}).items()})
            s = dict(calc_func=calc, k=Rep("base_k") if m["kind"] == "rep" else 10 * (i + 1))
            if plots:
                s["plot_func"] = plot
                del s["calc_func"]
            title = dict(plain=f"t{i}", name=Sub("$%s of ${word}" % ("subplot_name" if plots else "metric_name")), word=Rep("word"), none=None, same="same")[m["title"]]
            if plots and m["title"] == "none":
                title = f"t{i}"
            s["title"] = title
            if m["tags"] is not None:
                s["tags"] = m["tags"]
            for f, inv in m["checks"]:
                s[("inv_" if inv else "") + "check_" + f] = True
            if m["own"] is not None:
                s["flag"] = m["own"]
            if m["agg"] != "unset":
                s["agg_func"] = AGGS.get(m["agg"])
            if m["word"]:
                s["template_mapping"] = dict(word=m["word"])
            return s
        total = {}
        for m in call["ms"]:
            total[m["name"]] = total.get(m["name"], 0) + 1
        count, metrics, over, plan = {}, [], {}, []
        for i, m in enumerate(call["ms"]):
            full = m["name"]
            if total[full] > 1:
                full = f"{full}_{count.get(m['name'], 0)}"
                count[m["name"]] = count.get(m["name"], 0) + 1
            metrics.append((m["name"], make(i, m)))
            o = {}
            if m["over"] is not None:
                o["flag"] = m["over"]
            if m["over_title"]:
                o["title"] = f"over{i}"
            if o:
                over[full] = o
            plan.append((full, m))
        kept_metrics = [(a, dict(b)) for a, b in metrics]

        def boom_filter(self, s):
            raise Boom()
        name_key = "subplot_name" if plots else "metric_name"
        filters = dict(fa=dict(filter_func=boom_filter if call["boom_filter"] else lambda self, s: bool(s.get("flag")), warning_message=Sub("%s needs a flag" % ("$" + name_key)), inv_warning_message=Sub("%s has a flag" % ("$" + name_key))),
                       fb=dict(filter_func=lambda self, s: bool(self.wrapper.grouper.is_grouped(group_by=s["group_by"]))), fc=dict(filter_func=Rep("chooser")))
        chooser = lambda self, s: (s["k"] // 10) % 2 == 1
        # what has to come out
        expect, warned, want_given, boom = {}, [], [], False
        shown = []
        grouped = bool(obj.wrapper.grouper.is_grouped(group_by=gb))
        word0 = "w"
        chosen = []
        for i, (full, m) in enumerate(plan):
            if not tag_match(call["tags"], m["tags"]):
                continue
            flag = m["over"] if m["over"] is not None else m["own"] if m["own"] is not None else call["flag"]
            k = 77 if m["kind"] == "rep" else 10 * (i + 1)
            removers = []
            for f, inv in m["checks"]:
                if f == "fa" and call["boom_filter"]:
                    boom = True
                    continue
                true = dict(fa=bool(flag), fb=grouped, fc=(k // 10) % 2 == 1)[f]
                if true == inv:
                    removers.append((f, inv))
            if removers:
                if len(removers) == 1 and removers[0][0] == "fa":
                    warned.append(f"{full} has a flag" if removers[0][1] else f"{full} needs a flag")
                elif len(removers) > 1:
                    warned.append(None)
                continue
            chosen.append((i, full, m, flag, k))
        if boom:
            chosen = []
        for i, full, m, flag, k in chosen:
            want_given.append((i, full, flag, k, column, gb))
            if m["boom"]:
                boom = True
                break
            word = m["word"] or word0
            title = f"over{i}" if m["over_title"] else dict(plain=f"t{i}", name=f"{full} of {word}", word=word, none=f"t{i}" if plots else None, same="same")[m["title"]]
            if plots:
                shown.append((i, title, k))
                continue
            per = [float(k + c) for c in range(len(cols))] if ndim == 2 else float(k)
            vals = {None: float(k)} if m["kind"] in ("scalar", "rep") else {None: per} if m["kind"] == "per" else {"x": per, "7": float(k)}
            for kk, v in vals.items():
                t = title if kk is None else kk if title is None else f"{title}: {kk}"
                if isinstance(v, list):
                    a = call["agg"] if m["agg"] == "unset" else m["agg"]
                    if column is not None:
                        v = v[cols.index(column)]
                    elif call["agg"] is not None and a is not None:
                        v = dict(mean=np.mean, max=max, min=min, first=lambda x: x[0])[a](v)
                    elif call["agg"] is not None:
                        continue
                expect[t] = v
        kw = dict(column=column, group_by=gb, tags=call["tags"], filters=filters, template_mapping=dict(word=word0, base_k=77, chooser=chooser), settings={} if call["flag"] is None else dict(flag=call["flag"]), silence_warnings=call["silent"])
        what = f"call {j} {'plots' if plots else 'stats'}: {[(f, {a: b for a, b in m.items()}) for f, m in plan]} {dict((a, b) for a, b in call.items() if a != 'ms')}"
        err = out = None
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                if plots:
                    out = obj.plots(subplots=metrics, subplot_settings=over, **kw)
                else:
                    out = obj.stats(metrics=metrics, metric_settings=over, agg_func=AGGS.get(call["agg"]), **kw)
            except Boom as e:
                err = e
        got_warned = [str(x.message) for x in log if "flag" in str(x.message)]
        ctx.ev(j, plots, type(err).__name__, sorted(map(str, expect)), len(chosen))
        ctx.state("choice", plots, ndim, len(chosen), call["agg"], column is None, boom)
        ctx.tick(1)
        ctx.check((err is not None) == boom, "failure-lost", f"{what}: a function {'raised' if boom else 'did not raise'}, the call {'did' if err else 'did not'}")
        ctx.check([(a, dict(b)) for a, b in metrics] == kept_metrics, "settings-changed", f"{what}: the metrics passed were changed")
        ctx.check([g for g in given] == want_given, "wrong-arguments", f"{what}: functions were called with (i, name, flag, k, column, group_by) {given}, expected {want_given}")
        if None not in warned and not boom:
            ctx.check(got_warned == ([] if call["silent"] else warned), "warnings", f"{what}: warned {got_warned}, expected {warned}")
        if boom:
            ctx.fault("choice-failure")
            continue
        if not chosen:
            ctx.check(out is None, "nothing-left", f"{what}: {out}")
            ctx.fault("nothing-left")
            continue
        if plots:
            have = [(tr.name, list(tr.y)) for tr in out.data]
            ctx.check(have == [(f"trace{i}", [k, k]) for i, _, k in shown], "wrong-subplot", f"{what}: traces {have}, expected {shown}")
            titles = [a.text for a in out.layout.annotations]
            ctx.check(titles == [str(x) for _, x, _ in shown], "wrong-titles", f"{what}: titles {titles}, expected {shown}")
            axes = [tr.xaxis or "x" for tr in out.data]
            ctx.check(axes == ["x" + (str(i + 1) if i else "") for i in range(len(shown))], "stray-trace", f"{what}: axes {axes}")
            continue
        if not expect and ndim == 2 and column is None and call["agg"] is None:
            continue
        if isinstance(out, pd.DataFrame):
            ctx.check(ndim == 2 and column is None and call["agg"] is None and list(out.index) == cols, "wrong-shape", f"{what}: a frame with index {list(out.index)}")
            have = {t: out[t].tolist() for t in out.columns}
            want = {t: v if isinstance(v, list) else [v] * len(cols) for t, v in expect.items()}
        else:
            ctx.check(ndim == 1 or column is not None or call["agg"] is not None, "wrong-shape", f"{what}: a series")
            have, want = {t: v for t, v in zip(out.index, out.tolist())}, expect
            name = obj.wrapper.get_name(group_by=gb) if ndim == 1 else column if column is not None else "agg_func_" + AGGS[call["agg"]].__name__
            ctx.check(out.name == name, "wrong-shape", f"{what}: named {out.name}, expected {name}")
        key = lambda x: "nan" if x is None or x != x else x
        ctx.check([key(x) for x in have] == [key(x) for x in want] and all(np.allclose(list(have.values())[i], v) for i, v in enumerate(want.values())), "wrong-choice", f"{what}: {have}, expected {want}")


SCENARIOS = [Scenario("stats", gen, run, 400, 8000, shrink=shrink, real=REAL, stub=STUB),
             Scenario("plots", gen_plots, run_plots, 60, 1500, shrink=shrink_plots, real=REAL + ["generic.plots_builder, portfolio plots, generic.plotting"], stub=STUB),
             Scenario("choice", gen_choice, run_choice, 500, 12000, real=REAL + ["utils.tags", "utils.template", "generic.plots_builder"], stub=["metrics, subplots and filters with known results"]),
             Scenario("trades type", gen_types, run_types, 40, 400, real=REAL, stub=STUB)]
STATE = "kind of object x number of metrics x outcome x settings x aggregation"
