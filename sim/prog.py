"""Random analysis programs over a price feed: each step applies one public function to earlier values.  Used by the
checks that compare two executions of one program on related feeds (feed cut or replaced, columns corrupted)."""
import numpy as np
import pandas as pd

from .core import Violation
from .pf import gen_feed

FREQ = "4h"


class Out:
    """One output of a step.  how: 'cell' (bar x column frame), 'group' (bar x group frame), 'bin' (resampled frame),
    'rec' (closed records: rows (col, end bar, fields...)), 'col' (one value per column)."""

    __slots__ = ("name", "how", "val", "kind", "groups")

    def __init__(self, name, how, val, kind=None, groups=None):
        self.name, self.how, self.val, self.kind, self.groups = name, how, val, kind, groups


class Feed:
    def __init__(self, arrs, names, groups, offset=0):
        T = len(arrs["close"])
        self.index = pd.date_range("2021-03-01", periods=T, freq=FREQ)
        self.names = list(names)
        self.groups = list(groups)
        self.T, self.N = T, len(names)
        for k, v in arrs.items():
            setattr(self, k, self.frame(v))

    def frame(self, v):
        return pd.DataFrame(np.array(v, dtype=float).reshape(self.T, self.N), index=self.index, columns=pd.Index(self.names, name="sym"))

    def like(self, v, dtype=None):
        return pd.DataFrame(np.asarray(v), index=self.index, columns=pd.Index(self.names, name="sym"), dtype=dtype)


OPS = {}


def op(name, needs, gen, weight=1):
    def deco(fn):
        OPS[name] = (needs, gen, fn, weight)
        return fn
    return deco


def split(feed, frame, name, kind):
    """Columns of a multi-parameter output, one frame per parameter combination."""
    N = feed.N
    a = frame.values
    n = a.shape[1] // N
    return [Out(f"{name}[{j}]" if n > 1 else name, "cell", feed.like(a[:, j * N:(j + 1) * N]), kind) for j in range(n)]


def indicator(feed, obj, names, kind="F"):
    out = []
    for n in names:
        out += split(feed, getattr(obj, n), n, kind)
    return out


def w(rng, *more):
    return rng.pick(1, 2, 3, 4, 5, 7, *more)


def some(rng, fn):
    return [fn() for _ in range(2)] if rng.chance(0.35) else fn()


# ------------------------------------------------------------------ indicators
@op("MA", "F", lambda r: dict(window=some(r, lambda: w(r)), ewm=r.chance(0.4)), 2)
def _(f, x, p):
    import vectorbt as vbt
    return indicator(f, vbt.MA.run(x, **p), ["ma"])


@op("MSTD", "F", lambda r: dict(window=some(r, lambda: w(r)), ewm=r.chance(0.4)))
def _(f, x, p):
    import vectorbt as vbt
    return indicator(f, vbt.MSTD.run(x, **p), ["mstd"])


@op("BBANDS", "F", lambda r: dict(window=some(r, lambda: w(r)), ewm=r.chance(0.4), alpha=r.pick(1, 2.0, 0.5)))
def _(f, x, p):
    import vectorbt as vbt
    return indicator(f, vbt.BBANDS.run(x, **p), ["middle", "upper", "lower", "percent_b", "bandwidth"])


@op("RSI", "F", lambda r: dict(window=some(r, lambda: w(r)), ewm=r.chance(0.4)))
def _(f, x, p):
    import vectorbt as vbt
    return indicator(f, vbt.RSI.run(x, **p), ["rsi"])


@op("STOCH", "HLC", lambda r: dict(k_window=some(r, lambda: w(r)), d_window=w(r), d_ewm=r.chance(0.4)))
def _(f, h, l, c, p):
    import vectorbt as vbt
    return indicator(f, vbt.STOCH.run(h, l, c, **p), ["percent_k", "percent_d"])


@op("MACD", "F", lambda r: dict(fast_window=w(r), slow_window=some(r, lambda: w(r)), signal_window=w(r), macd_ewm=r.chance(0.4), signal_ewm=r.chance(0.4)))
def _(f, x, p):
    import vectorbt as vbt
    return indicator(f, vbt.MACD.run(x, **p), ["macd", "signal", "hist"])


@op("ATR", "HLC", lambda r: dict(window=some(r, lambda: w(r)), ewm=r.chance(0.5)))
def _(f, h, l, c, p):
    import vectorbt as vbt
    return indicator(f, vbt.ATR.run(h, l, c, **p), ["tr", "atr"])


@op("OBV", "FV", lambda r: {})
def _(f, x, v, p):
    import vectorbt as vbt
    return indicator(f, vbt.OBV.run(x, v), ["obv"])


@op("MA_crossed", "F", lambda r: dict(a=w(r), b=w(r), wait=r.pick(0, 0, 1, 2), above=r.chance(0.5)), 2)
def _(f, x, p):
    import vectorbt as vbt
    a, b = vbt.MA.run_combs(x, window=[p["a"], p["b"] + 1], r=2, short_names=["fast", "slow"])
    y = getattr(a, "ma_crossed_above" if p["above"] else "ma_crossed_below")(b, wait=p["wait"])
    return split(f, y, "crossed", "B")


def _custom(a, b, k):
    out = np.full(a.shape, np.nan)
    for i in range(k, len(a)):
        out[i] = a[i] - b[i - k]
    return out


@op("factory", "FF", lambda r: (lambda pc: dict(k=r.pick(0, 1, 3) if pc else some(r, lambda: r.pick(0, 1, 3)), per_column=pc, cacheless=r.chance(0.5)))(r.chance(0.4)))
def _(f, x, y, p):
    import vectorbt as vbt
    I = vbt.IndicatorFactory(class_name="X", short_name="x", input_names=["a", "b"], param_names=["k"], output_names=["o"])
    if p["cacheless"]:
        I = I.from_apply_func(_custom, per_column=p["per_column"], numba_loop=False)
    else:
        def custom(a, b, k):
            return np.column_stack([_custom(a, b, q) for q in k])
        I = I.from_custom_func(custom) if not p["per_column"] else I.from_apply_func(_custom, per_column=True)
    return indicator(f, I.run(x, y, k=p["k"]), ["o"])


# ------------------------------------------------------------------ generic accessor
def minp(r):
    return r.pick(None, 1, 2)


for _n in ("rolling_mean", "rolling_min", "rolling_max"):
    @op(_n, "F", lambda r: dict(window=w(r), minp=minp(r)))
    def _(f, x, p, _n=_n):
        m = min(p["minp"], p["window"]) if p["minp"] else None
        return [Out(_n, "cell", getattr(x.vbt, _n)(p["window"], minp=m), "F")]

for _n in ("expanding_mean", "expanding_min", "expanding_max"):
    @op(_n, "F", lambda r: dict(minp=r.pick(1, 2, 4)))
    def _(f, x, p, _n=_n):
        return [Out(_n, "cell", getattr(x.vbt, _n)(minp=p["minp"]), "F")]


@op("rolling_std", "F", lambda r: dict(window=w(r) + 1, minp=minp(r), ddof=r.pick(0, 1)))
def _(f, x, p):
    return [Out("rolling_std", "cell", x.vbt.rolling_std(**p), "F")]


@op("expanding_std", "F", lambda r: dict(minp=r.pick(1, 2, 4), ddof=r.pick(0, 1)))
def _(f, x, p):
    return [Out("expanding_std", "cell", x.vbt.expanding_std(**p), "F")]


@op("ewm_mean", "F", lambda r: dict(span=w(r), minp=r.pick(0, 1, 2), adjust=r.chance(0.5)))
def _(f, x, p):
    p["minp"] = min(p["minp"], p["span"])
    return [Out("ewm_mean", "cell", x.vbt.ewm_mean(**p), "F")]


@op("ewm_std", "F", lambda r: dict(span=w(r), minp=r.pick(0, 1, 2), adjust=r.chance(0.5), ddof=r.pick(0, 1)))
def _(f, x, p):
    p["minp"] = min(p["minp"], p["span"])
    return [Out("ewm_std", "cell", x.vbt.ewm_std(**p), "F")]


@op("fshift", "F", lambda r: dict(n=r.pick(0, 1, 2, 5)))
def _(f, x, p):
    return [Out("fshift", "cell", x.vbt.fshift(p["n"]), "F")]


@op("diff", "F", lambda r: dict(n=r.pick(1, 2, 5)))
def _(f, x, p):
    return [Out("diff", "cell", x.vbt.diff(p["n"]), "F"), Out("pct_change", "cell", x.vbt.pct_change(p["n"]), "F")]


@op("fill", "F", lambda r: {})
def _(f, x, p):
    return [Out("ffill", "cell", x.vbt.ffill(), "F"), Out("fillna", "cell", x.vbt.fillna(0.5), "F")]


@op("cum", "F", lambda r: {})
def _(f, x, p):
    return [Out("cumsum", "cell", x.vbt.cumsum(), "F"), Out("cumprod", "cell", x.vbt.cumprod(), "F")]


@op("product", "F", lambda r: {})
def _(f, x, p):
    return [Out("drawdown", "cell", x.vbt.drawdown(), "F"), Out("to_returns", "cell", x.vbt.to_returns(), "F")]


@op("rolling_apply", "F", lambda r: dict(window=w(r), minp=minp(r), expanding=r.chance(0.4), matrix=r.chance(0.3)))
def _(f, x, p):
    fn = (lambda i, a: np.nansum(a, axis=0)) if p["matrix"] else (lambda i, col, a: np.nansum(a))
    if p["expanding"]:
        y = x.vbt.expanding_apply(fn, minp=p["minp"] or 1, on_matrix=p["matrix"])
    else:
        m = min(p["minp"], p["window"]) if p["minp"] else None
        y = x.vbt.rolling_apply(p["window"], fn, minp=m, on_matrix=p["matrix"])
    return [Out("apply", "cell", y, "F")]


@op("resample", "F", lambda r: dict(freq=r.pick("8h", "12h", "1D"), what=r.pick(0, 1, 2)))
def _(f, x, p):
    fn = [lambda i, col, a: np.nanmean(a), lambda i, col, a: a[-1], lambda i, col, a: np.nanmax(a)][p["what"]]
    return [Out("resample", "bin", x.vbt.resample_apply(p["freq"], fn))]


@op("arith", "FF", lambda r: dict(what=r.pick("+", "-", "*", "/", "max")))
def _(f, x, y, p):
    k = p["what"]
    v = x + y if k == "+" else x - y if k == "-" else x * y if k == "*" else x / y if k == "/" else x.vbt.combine(y, combine_func=np.maximum)
    return [Out("arith", "cell", v, "F")]


# ------------------------------------------------------------------ returns
ROLL = ("rolling_total", "rolling_annualized", "rolling_annualized_volatility", "rolling_calmar_ratio", "rolling_omega_ratio",
        "rolling_sharpe_ratio", "rolling_downside_risk", "rolling_sortino_ratio", "rolling_tail_ratio", "rolling_common_sense_ratio",
        "rolling_value_at_risk", "rolling_cond_value_at_risk", "rolling_max_drawdown")
BENCH = ("rolling_information_ratio", "rolling_beta", "rolling_alpha", "rolling_capture", "rolling_up_capture", "rolling_down_capture")


@op("returns", "P", lambda r: dict(window=w(r, 10), minp=r.pick(None, 1, 2), m=r.pick(*ROLL), start=r.pick(0, 1, 100)), 3)
def _(f, x, p):
    acc = x.vbt.to_returns().vbt.returns(freq=FREQ)
    return [Out(p["m"], "cell", getattr(acc, p["m"])(window=p["window"], minp=p["minp"]), "F"),
            Out("cumulative", "cell", acc.cumulative(start_value=p["start"]), "F"),
            Out("drawdown", "cell", acc.drawdown(), "F"), Out("daily", "bin", acc.daily())]


@op("benchmark", "PP", lambda r: dict(window=w(r, 10) + 1, minp=r.pick(None, 1, 2), m=r.pick(*BENCH)), 2)
def _(f, x, y, p):
    acc = x.vbt.to_returns().vbt.returns(freq=FREQ, benchmark_rets=y.vbt.to_returns())
    return [Out(p["m"], "cell", getattr(acc, p["m"])(window=p["window"], minp=p["minp"]), "F")]


# ------------------------------------------------------------------ signals
@op("crossed", "FF", lambda r: dict(wait=r.pick(0, 0, 1, 2)), 2)
def _(f, x, y, p):
    return [Out("above", "cell", x.vbt.crossed_above(y, wait=p["wait"]), "B"), Out("below", "cell", x.vbt.crossed_below(y, wait=p["wait"]), "B")]


@op("compare", "FF", lambda r: {})
def _(f, x, y, p):
    return [Out("gt", "cell", x > y, "B")]


@op("logic", "BB", lambda r: dict(what=r.pick("AND", "OR", "XOR")))
def _(f, a, b, p):
    return [Out(p["what"], "cell", getattr(a.vbt.signals, p["what"])(b), "B")]


@op("clean", "BB", lambda r: dict(entry_first=r.chance(0.5)))
def _(f, a, b, p):
    x, y = a.vbt.signals.clean(b, entry_first=p["entry_first"])
    return [Out("entries", "cell", x, "B"), Out("exits", "cell", y, "B")]


@op("rank", "BB", lambda r: dict(reset=r.chance(0.5), allow_gaps=r.chance(0.5), after_false=r.chance(0.3), n=r.pick(0, 1, 2)), 2)
def _(f, a, b, p):
    s = a.vbt.signals
    rb = b if p["reset"] else None
    k = dict(reset_by=rb, after_false=p["after_false"])
    return [Out("pos_rank", "cell", s.pos_rank(allow_gaps=p["allow_gaps"], **k)), Out("partition_pos_rank", "cell", s.partition_pos_rank(**k)),
            Out("first", "cell", s.first(allow_gaps=p["allow_gaps"], **k), "B"), Out("nth", "cell", s.nth(p["n"], **k), "B"),
            Out("from_nth", "cell", s.from_nth(p["n"], **k), "B")]


@op("shift_signals", "B", lambda r: dict(n=r.pick(1, 2)))
def _(f, a, p):
    return [Out("fshift", "cell", a.vbt.signals.fshift(p["n"]), "B")]


def stop_gen(r):
    chain = r.chance(0.35)
    until = r.chance(0.6)
    skip = not until and r.chance(0.6)
    return dict(chain=chain, until_next=until, skip_until_exit=skip, pick_first=True if skip or chain else r.chance(0.7),
                entry_wait=r.pick(0, 1, 2), exit_wait=r.pick(0, 1, 2) if not chain else 1)


@op("stop_exits", "BP", lambda r: dict(stop_gen(r), stop=r.pick(-0.05, -0.2, 0.1, 0.02), trailing=r.chance(0.4)), 2)
def _(f, e, x, p):
    y = e.vbt.signals.generate_stop_exits(x, **p)
    y = y if isinstance(y, tuple) else (y,)
    return [Out(f"stop{i}", "cell", v, "B") for i, v in enumerate(y)]


@op("ohlc_stop_exits", "BO", lambda r: dict(stop_gen(r), sl_stop=r.pick(float("nan"), 0.05, 0.2), sl_trail=r.chance(0.4), tp_stop=r.pick(float("nan"), 0.05, 0.2),
                                            reverse=r.chance(0.3), is_open_safe=r.chance(0.5)), 2)
def _(f, e, o, p):
    out = {}
    y = e.vbt.signals.generate_ohlc_stop_exits(o["open"], o["high"], o["low"], o["close"], out_dict=out, **p)
    y = y if isinstance(y, tuple) else (y,)
    ex = y[-1].values
    return [Out(f"stop{i}", "cell", v, "B") for i, v in enumerate(y)] + \
        [Out("stop_price", "cell", f.like(np.where(ex, out["stop_price"].values, np.nan)), "F")]


@op("STX", "BP", lambda r: dict(which=r.pick("STX", "STCX"), stop=some(r, lambda: r.pick(-0.05, -0.2, 0.1)), trailing=r.chance(0.4)))
def _(f, e, x, p):
    import vectorbt as vbt
    cls = getattr(vbt, p["which"])
    y = cls.run(e, x, p["stop"], trailing=p["trailing"])
    return indicator(f, y, ["exits"] if p["which"] == "STX" else ["new_entries", "exits"], "B")


@op("OHLCSTX", "BO", lambda r: dict(which=r.pick("OHLCSTX", "OHLCSTCX"), sl_stop=some(r, lambda: r.pick(0.05, 0.2)), tp_stop=r.pick(float("nan"), 0.1),
                                    sl_trail=r.chance(0.4), reverse=r.chance(0.3)))
def _(f, e, o, p):
    import vectorbt as vbt
    cls = getattr(vbt, p.pop("which"))
    y = cls.run(e, o["open"], o["high"], o["low"], o["close"], **p)
    return indicator(f, y, ["exits", "stop_price"] if hasattr(y, "entries") and not hasattr(y, "new_entries") else ["new_entries", "exits", "stop_price"], "B?")


@op("choice_exits", "BB", lambda r: dict(wait=r.pick(0, 1, 2), until_next=r.chance(0.6), pick_first=r.chance(0.6), both=r.chance(0.4), entry_wait=r.pick(0, 1, 2)))
def _(f, a, b, p):
    av, bv = a.values, b.values

    def chooser(m):
        def choose(lo, hi, col, *args):
            return lo + np.flatnonzero(m[lo:hi, col])
        return choose
    if p["both"]:
        x, y = pd.DataFrame.vbt.signals.generate_both(
            (f.T, f.N), entry_choice_func=chooser(av), exit_choice_func=chooser(bv), entry_wait=max(1, p["entry_wait"]), exit_wait=max(1, p["wait"]),
            entry_pick_first=True, exit_pick_first=True, index=f.index, columns=pd.Index(f.names, name="sym"))
        return [Out("en", "cell", x, "B"), Out("ex", "cell", y, "B")]
    y = a.vbt.signals.generate_exits(chooser(bv), wait=p["wait"], until_next=p["until_next"], pick_first=p["pick_first"])
    return [Out("ex", "cell", y, "B"), Out("ex2", "cell", y, "B")]


# ------------------------------------------------------------------ records
def records(acc, end, closed=True):
    r = acc.values
    if closed and "status" in r.dtype.names:
        r = r[r["status"] == 1]
    names = [n for n in r.dtype.names if n not in ("id", "parent_id", "col")]
    return [(int(x["col"]), int(x[end])) + tuple(float(x[n]) for n in names) for x in r]


@op("drawdowns", "F", lambda r: {})
def _(f, x, p):
    return [Out("drawdowns", "rec", records(x.vbt.get_drawdowns(), "end_idx")), Out("ranges", "rec", records(x.vbt.get_ranges(), "end_idx"))]


@op("signal_ranges", "BB", lambda r: dict(from_other=r.chance(0.5)))
def _(f, a, b, p):
    s = a.vbt.signals
    return [Out("between", "rec", records(s.between_ranges(), "end_idx")), Out("between_two", "rec", records(s.between_ranges(other=b, from_other=p["from_other"]), "end_idx")),
            Out("partition", "rec", records(s.partition_ranges(), "end_idx")), Out("between_partitions", "rec", records(s.between_partition_ranges(), "end_idx"))]


# ------------------------------------------------------------------ portfolios
def pf_gen(r):
    return dict(sharing=r.chance(0.4), grouped=r.chance(0.6), auto=r.chance(0.4), fees=r.pick(0.0, 0.01), slippage=r.pick(0.0, 0.01), cash=r.pick(100.0, 1000.0, 20.0),
                kind=r.pick("signals", "signals", "orders", "orders", "func", "holding", "dir_signals"), size=r.pick("inf", 1.0, 3.5), st=r.pick("amount", "value", "percent", "targetamount", "targetvalue", "targetpercent"),
                sl=r.pick(None, 0.05, 0.2), trail=r.chance(0.4), tp=r.pick(None, 0.1), ohlc=r.chance(0.5), acc=r.chance(0.4), direction=r.pick("longonly", "shortonly", "both"),
                ffill=r.chance(0.7), upd=r.chance(0.3), upval=r.chance(0.2), price=r.pick("close", "open", "inf", "prev", "limit"), val=r.pick(None, None, "prev", "open"), use_limits=r.chance(0.2), log=r.chance(0.2), more=more_signals(r))


def more_signals(r):
    out = {}
    for k, vals in (("stop_entry_price", ("ValPrice", "Price", "FillPrice", "Close")), ("stop_exit_price", ("StopLimit", "StopMarket", "Price", "Close")),
                    ("upon_stop_exit", ("Close", "CloseReduce", "Reverse", "ReverseReduce")), ("upon_stop_update", ("Keep", "Override", "OverrideNaN")),
                    ("upon_long_conflict", ("Ignore", "Entry", "Exit", "Adjacent", "Opposite")), ("upon_short_conflict", ("Ignore", "Entry", "Exit", "Adjacent", "Opposite")),
                    ("upon_dir_conflict", ("Ignore", "Long", "Short", "Adjacent", "Opposite"))):
        if r.chance(0.25):
            out[k] = r.pick(*vals)
    return out


SIZED = ("percent", "targetpercent")


def make_pf(f, en, ex, x, o, p):
    """(portfolio, cash sharing)"""
    import vectorbt as vbt
    from vectorbt.portfolio.enums import NoOrder
    kw = dict(freq=FREQ, init_cash=p["cash"])
    if p["grouped"]:
        kw["group_by"] = np.array(f.groups)
        kw["cash_sharing"] = p["sharing"]
    share = p["grouped"] and p["sharing"]
    if p["kind"] != "func":
        kw.update(fees=p["fees"], slippage=p["slippage"], ffill_val_price=p["ffill"], update_value=p["upval"])
        if p["price"] == "open":
            kw["price"] = o["open"]
        elif p["price"] == "inf":
            kw["price"] = np.inf
        elif p["price"] == "prev":
            kw["price"] = -np.inf
        elif p["price"] == "limit":  # a venue price that is known before the asset has a close
            kw.update(price=11.0, fillna_close=False)  # the documented backward fill of closes would value it with the first one
        if p.get("val") and p["kind"] in ("signals", "orders", "dir_signals"):
            kw["val_price"] = -np.inf if p["val"] == "prev" else o["open"]
        if p["use_limits"]:
            kw.update(max_size=2.0, min_size=0.1, size_granularity=0.25)
    if p.get("log") and p["kind"] in ("signals", "orders", "dir_signals"):
        kw["log"] = True
    if share and p["auto"] and p["kind"] in ("signals", "orders", "dir_signals"):
        kw["call_seq"] = "auto"
    close = o["close"]
    if p["kind"] in ("signals", "dir_signals"):
        if p["kind"] == "signals":
            kw["direction"] = p["direction"]
            kw["upon_opposite_entry"] = "reverse" if p["upd"] else "close"
            a = dict(entries=en, exits=ex)
        else:
            a = dict(entries=en, exits=ex, short_entries=ex.vbt.signals.fshift(1), short_exits=en.vbt.signals.fshift(1))
            kw.pop("direction", None)
        if p["st"] in ("amount", "value") or p["st"] in SIZED[:1]:
            kw["size_type"] = p["st"]
            kw["size"] = {"amount": np.inf if p["size"] == "inf" else p["size"], "value": 15.0, "percent": 0.5}[p["st"]]
        kw["accumulate"] = p["acc"]
        if p["st"] == "percent":
            kw["accumulate"] = False
        if p["sl"]:
            kw.update(sl_stop=p["sl"], sl_trail=p["trail"])
        if p["tp"]:
            kw.update(tp_stop=p["tp"])
        if p["ohlc"]:
            kw.update(open=o["open"], high=o["high"], low=o["low"])
        kw.update(p.get("more") or {})
        pf = vbt.Portfolio.from_signals(close, **a, **kw)
    elif p["kind"] == "orders":
        s = x.values
        st = p["st"]
        if st in ("amount", "targetamount"):
            s = np.where(np.isfinite(s), np.clip(s, -4, 4), np.nan)
        elif st in ("value", "targetvalue"):
            s = np.where(np.isfinite(s), np.clip(s * 3, -30, 30), np.nan)
        else:
            s = np.where(np.isfinite(s), np.clip(s / 10, -0.8, 0.8), np.nan)
        s = np.where(en.values | ex.values, s, np.nan)
        if st == "percent":
            s = np.abs(s)
            kw["direction"] = "longonly"
        else:
            kw["direction"] = "both"
        pf = vbt.Portfolio.from_orders(close, f.like(s), size_type=st, **kw)
    elif p["kind"] == "func":
        env, exv, cl = en.values, ex.values, close.values
        fees = p["fees"]

        def order(c):
            # acts on what it has seen so far
            past = c.close[:c.i + 1, c.col]
            if exv[c.i, c.col] and c.position_now != 0:
                return vbt.portfolio.nb.order_nb(size=-c.position_now, price=c.close[c.i, c.col], fees=fees)
            if env[c.i, c.col]:
                return vbt.portfolio.nb.order_nb(size=1.0 if past[-1] > np.nanmean(past) else 0.5, price=c.close[c.i, c.col], fees=fees)
            return NoOrder
        kw.pop("freq")
        pf = vbt.Portfolio.from_order_func(close, order, row_wise=p["upd"], use_numba=False, ffill_val_price=p["ffill"], freq=FREQ, **kw)
    else:
        kw.pop("cash_sharing", None)
        share = False
        kw.pop("update_value", None)
        pf = vbt.Portfolio.from_holding(close, **kw)
    return pf, share


@op("portfolio", "BBFO", pf_gen, 6)
def _(f, en, ex, x, o, p):
    pf, share = make_pf(f, en, ex, x, o, p)
    out = [Out("assets", "cell", pf.assets(), "F"), Out("asset_flow", "cell", pf.asset_flow()), Out("asset_value", "cell", pf.asset_value(group_by=False), "F"),
           Out("orders", "rec", records(pf.orders, "idx", False)), Out("trades", "rec", records(pf.exit_trades, "exit_idx")),
           Out("entry_trades", "rec", records(pf.entry_trades, "exit_idx")), Out("positions", "rec", records(pf.positions, "exit_idx"))]
    for d in ("longonly", "shortonly"):
        out += [Out("assets_" + d, "cell", pf.assets(direction=d), "F"), Out("asset_flow_" + d, "cell", pf.asset_flow(direction=d)),
                Out("asset_value_" + d, "cell", pf.asset_value(direction=d, group_by=False), "F")]
    gn = [list(pf.wrapper.get_columns(group_by=None if p["grouped"] else False)), f.groups] if p["grouped"] else None
    acc = [("cash", pf.cash()), ("free_cash", pf.cash(free=True)), ("value", pf.value()), ("returns", pf.returns()), ("cash_flow", pf.cash_flow()),
           ("cumulative", pf.cumulative_returns()), ("drawdown", pf.drawdown()), ("gross", pf.gross_exposure()), ("net", pf.net_exposure()),
           ("gross_long", pf.gross_exposure(direction="longonly")), ("free_cash_flow", pf.cash_flow(free=True)), ("asset_returns", pf.asset_returns())]
    if p["kind"] != "holding":
        acc.append(("in_sim", pf.value(in_sim_order=True) if share else pf.value()))
    if not share:
        acc.append(("per_col", pf.value(group_by=False)))
    for n, v in acc:
        if isinstance(v, pd.Series):
            v = v.to_frame()
        if p["grouped"] and n != "per_col":
            out.append(Out(n, "group", v, groups=gn))
        else:
            out.append(Out(n, "cell", v, "P" if n in ("value", "per_col") else "F"))
    out.append(Out("dd_records", "rec" if not p["grouped"] else "grec", records(pf.drawdowns, "end_idx")))
    return out


# ------------------------------------------------------------------ programs
POS = ("close", "high", "low")


def gen_program(rng, n, only=None, avoid=()):
    names = [k for k in OPS if (only is None or k in only) and k not in avoid]
    out = []
    for _ in range(n):
        k = rng.weighted([(x, OPS[x][3]) for x in names])
        out.append([k, [rng.randrange(1000) for _ in range(4)], OPS[k][1](rng)])
    return out


def gen_arrays(rng, T, N, gaps, wild):
    close = gen_feed(rng, T, N, gaps, wild)
    o, h, l, v = [], [], [], []
    for i in range(T):
        ro, rh, rl, rv = [], [], [], []
        for c in range(N):
            x = close[i][c]
            p = close[i - 1][c] if i and close[i - 1][c] == close[i - 1][c] else x
            if x != x:
                a = b = d = float("nan")
            else:
                a = round((p + x) / 2, 6)
                b = round(max(a, x) * rng.pick(1, 1, 1.02, 1.1), 6)
                d = round(min(a, x) * rng.pick(1, 1, 0.98, 0.9), 6)
            ro.append(a), rh.append(b), rl.append(d), rv.append(float(rng.pick(0, 1, 5, 10, 100)))
        o.append(ro), h.append(rh), l.append(rl), v.append(rv)
    return dict(open=o, high=h, low=l, close=close, volume=v)


FAILED = "failed"


def run_program(steps, feed):
    """[(op name, outputs or FAILED, exception)] per step."""
    base = dict(F=[feed.close, feed.open, feed.high, feed.low, feed.volume], P=[feed.close, feed.high, feed.low, feed.open],
                B=[feed.close > feed.open, feed.volume > 5, feed.close < feed.close.shift(1), feed.low > feed.low.shift(2)], V=[feed.volume])
    ohlc = dict(open=feed.open, high=feed.high, low=feed.low, close=feed.close)
    fixed = dict(H=feed.high, L=feed.low, C=feed.close)
    res = []

    def pick(kind, ref):
        n = len(base[kind])
        k = ref % (n + 2 * len(res)) - n
        if k < 0:
            return base[kind][k + n]
        k %= len(res)
        while k >= 0:
            outs = res[k][1]
            if outs is FAILED:
                return FAILED
            mine = [o.val for o in outs if o.how == "cell" and o.kind is not None and (o.kind == kind or (kind == "F" and o.kind == "P"))]
            if mine:
                return mine[ref // 7 % len(mine)]
            k -= 1
        return base[kind][ref % n]

    for name, refs, params in steps:
        if name not in OPS:
            continue
        needs, _, fn, _ = OPS[name]
        args = []
        for j, kind in enumerate(needs):
            args.append(ohlc if kind == "O" else fixed[kind] if kind in fixed else pick(kind, refs[j % len(refs)] if refs else 0))
        if any(a is FAILED for a in args):
            res.append((name, FAILED, None))
            continue
        before = [a.copy() if isinstance(a, pd.DataFrame) else None for a in args]
        try:
            outs, err = fn(feed, *args, dict(params)), None
        except Exception as e:  # noqa
            outs, err = FAILED, e
        for a, b in zip(args, before):
            if b is not None and not a.equals(b):
                raise Violation("input-changed", f"{name} {params} changed its input")
        res.append((name, outs, err))
    return res
