"""C12: repeated updates of Data objects from feeds that revise, lag, skip and fail, under a simulated clock."""
import contextlib

import numpy as np
import pandas as pd

from ..core import Scenario, Violation, close
from ..seams import SimClock, patched_clock
from . import c11

EPOCH = 1_600_000_000  # seconds


class Injected(Exception):
    pass


def value(sym, ts, ver, c):
    return (hash_(sym) % 50) + ts * 1.25 + ver * 0.001 + c * 1000.0


def hash_(s):
    return sum(ord(ch) * (i + 1) for i, ch in enumerate(s))


def gen_feed(rng):
    nsym = rng.weighted([(1, 4), (2, 5), (3, 3)])
    kind = rng.weighted([("dt", 6), ("int", 2), ("array", 2)])
    if kind == "array":
        nsym = rng.pick(1, 2)
    syms = ["A", "B", "C"][:nsym]
    n0 = rng.randint(1, 8)
    ver = 0
    first = {}
    for s in syms:
        ts = list(range(n0))
        if kind != "array" and nsym > 1 and rng.chance(0.3):
            ts = [t for t in ts if rng.chance(0.8)] or [0]
        first[s] = ts
    ops = []
    last = n0 - 1
    for _ in range(rng.randint(1, 7)):
        ver += 1
        grow = rng.weighted([(0, 1), (1, 5), (rng.randint(2, 4), 3)])
        rep = {}
        for s in syms:
            lo = last - rng.weighted([(0, 6), (1, 2), (rng.randint(1, 6), 2)])
            lo = max(0, lo)
            lag = rng.weighted([(0, 7), (1, 2), (2, 1)]) if nsym > 1 else 0
            ts = list(range(lo, last + grow + 1 - lag))
            if rng.chance(0.25):
                ts = [t for t in ts if rng.chance(0.7)]
            rep[s] = ts
        if kind == "array":
            ln = rng.randint(1, grow + 2)
            rep = {s: [None] * ln for s in syms}
            last = last + ln - 1
        op = dict(rep=rep, ver=ver, dt=rng.pick(1, 60, 3600, 86400, 86400 * 120), fail=None, nan=rng.chance(0.1),
                  via=rng.pick("update", "update", "updater"), perm=rng.chance(0.2), stale=rng.chance(0.1),
                  extra=[] if not rng.chance(0.15) else (list(syms) if rng.chance(0.6) else [rng.choice(syms)]))
        if rng.chance(0.15):
            op["fail"] = rng.choice(syms)
        elif kind != "array":
            mx = max([t for s in syms for t in rep[s]], default=last)
            last = max(last, mx)
        if kind == "array" and op["fail"]:
            last = last - len(rep[syms[0]]) + 1
        ops.append(op)
    tz = rng.pick(None, None, "conv-utc", "conv-dst", "loc", "naive", "set-dst")
    series = rng.chance(0.3)
    cols = {s: [1] if series else [0, 1, 2] for s in syms}
    if kind != "array" and not series and rng.chance(0.3):  # symbols that don't offer the same columns
        for s in syms:
            cols[s] = "series" if rng.chance(0.2) else [c for c in range(3) if c == 1 or rng.chance(0.6)]
    return dict(kind=kind, syms=syms, first=first, ops=ops, cols=cols, unnamed=rng.chance(0.3),
                missing_columns=rng.pick("nan", "drop", "raise"), missing=rng.weighted([("nan", 5), ("drop", 3), ("raise", 1)]),
                series=series, tz=tz if kind == "dt" else None, step=rng.pick(60, 3600, 86400),
                unit=rng.pick("ns", "us", "ms"))


class Feed:
    """Holds the reply of the current step, keyed by symbol."""
    cur = None
    ctx = None
    case = None

    @classmethod
    def reply(cls, symbol):
        op = cls.cur
        case = cls.case
        if op.get("fail") == symbol:
            cls.ctx.fault("feed-failure")
            raise Injected("injected feed failure")
        ts = op["rep"][symbol]
        n = len(ts)
        own = [1] if case["cols"][symbol] == "series" else case["cols"][symbol]
        base = op.get("base", 0)
        vals = np.empty((n, len(own)))
        for i, t in enumerate(ts):
            for j, c in enumerate(own):
                vals[i, j] = value(symbol, base + i if t is None else t, op["ver"], c)
        if op.get("nan") and n:
            vals[n // 2, 0] = np.nan
        if case["kind"] == "array":
            return vals[:, 0] if case["series"] else vals
        if case["kind"] == "dt":
            idx = pd.DatetimeIndex(pd.to_datetime([EPOCH + t * case["step"] for t in ts], unit="s")).as_unit(case["unit"])
            if case["tz"] not in ("loc", "naive"):
                idx = idx.tz_localize("UTC")
        else:
            idx = pd.Index(ts, dtype="int64")
        if case["series"] or case["cols"][symbol] == "series":
            unnamed = case["unnamed"] and case["series"]
            return pd.Series(vals[:, 0], index=idx, name=None if unnamed else "Close")
        df = pd.DataFrame(vals, index=idx, columns=[NAMES[c] for c in own])
        if symbol in op.get("extra", ()):
            df["Extra"] = 1.0
        if op.get("perm"):
            df = df[list(df.columns)[::-1]]
        return df


def instants(case, index):
    if case["kind"] == "dt":
        i = index
        if not isinstance(i, pd.DatetimeIndex):
            raise Violation("index-type", f"datetime index became {type(i).__name__} of {i.dtype}: {list(i)[:3]}..{list(i)[-2:]}")
        if i.tz is not None:
            i = i.tz_convert("UTC").tz_localize(None)
        off = LOC_OFF if case["tz"] == "loc" else 0
        return [int((v + off - EPOCH) // case["step"]) for v in i.as_unit("s").asi8]
    return [int(v) for v in index]


NAMES = ["Open", "Close", "Volume"]
LOC_OFF = 2 * 3600  # fixed +02:00 localisation: instants move back by two hours


def table(case, obj, cols):
    out = {}
    idx = instants(case, obj.index)
    a = obj.to_frame().values if isinstance(obj, pd.Series) else (
        obj.values if case["kind"] == "array" else obj[[NAMES[c] for c in cols]].values)
    for i, t in enumerate(idx):
        out[t] = [float(x) for x in a[i]]
    return idx, out


def snap(data):
    return {s: (list(map(str, df.index)), repr(df.values.tolist())) for s, df in data.data.items()}


def same_snap(a, b):
    return repr(a) == repr(b)


@contextlib.contextmanager
def restored(d, key, v):
    try:
        yield
    finally:
        d[key] = v


def run_feed(case, ctx):
    import vectorbt as vbt

    class FeedData(vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, **kwargs):
            return Feed.reply(symbol)

        def update_symbol(self, symbol, **kwargs):
            ctx.check(kwargs.get("tag") == Feed.cur.get("tag", {}).get(symbol), "wrong-kwargs", f"update_symbol({symbol}) got {kwargs}")
            return Feed.reply(symbol)

    clock = SimClock(ctx, EPOCH + 86400 * 30)
    Feed.ctx, Feed.case = ctx, case
    first = dict(rep=case["first"], ver=0)
    if case["kind"] == "array":
        first = dict(rep=case["first"], ver=0)
    Feed.cur = first
    kw = dict(missing_index=case["missing"])
    if case["tz"] == "conv-utc":
        kw["tz_convert"] = "UTC"
    elif case["tz"] == "conv-dst":
        kw["tz_convert"] = "America/New_York"
    elif case["tz"] == "loc":
        kw["tz_localize"] = 2.0
    kw["missing_columns"] = case["missing_columns"]
    zone = "America/New_York" if case["tz"] in ("conv-dst", "set-dst") else "UTC"
    syms = case["syms"]
    own = {s: [1] if case["cols"][s] == "series" else case["cols"][s] for s in syms}

    def align_cols(extra=()):
        """Columns of the aligned data, or None if the policy is to raise."""
        sets = [set(own[s]) | ({3} if s in extra and case["cols"][s] != "series" and not case["series"] else set()) for s in syms]
        if case["kind"] == "array" or len(syms) == 1:
            return sorted(sets[0])
        if all(x == sets[0] for x in sets):
            return sorted(sets[0])
        ctx.fault("different-columns")
        if case["missing_columns"] == "raise":
            return None
        return sorted(set.union(*sets) if case["missing_columns"] == "nan" else set.intersection(*sets))

    cols = align_cols()
    ncol = len(cols or ())

    def rows(op, s, base):
        out = {}
        ts = op["rep"][s]
        for i, t in enumerate(ts):
            tt = base + i if t is None else t
            r = {c: value(s, tt, op["ver"], c) for c in own[s]}
            if op.get("nan") and i == len(ts) // 2:
                r[own[s][0]] = float("nan")
            out[tt] = [r.get(c, float("nan")) for c in cols]
        return out

    def align(model):
        sets = [set(m) for m in model.values()]
        mism = any(x != sets[0] for x in sets)
        if case["missing"] == "raise" and mism:
            return None
        if case["missing"] == "drop":
            idx = set.intersection(*sets)
        else:
            idx = set.union(*sets)
        return {s: {t: model[s].get(t, [float("nan")] * ncol) for t in sorted(idx)} for s in model}

    def compare(data, model, what):
        for s in syms:
            obj = data.data[s]
            if isinstance(obj, pd.DataFrame) and case["kind"] != "array":
                ctx.check(sorted(map(str, obj.columns)) == sorted(NAMES[c] for c in cols), "wrong-columns",
                          f"{what} {s}: columns {list(obj.columns)}, expected {[NAMES[c] for c in cols]}")
            if case["series"]:
                named = None if case["unnamed"] or case["kind"] == "array" else "Close"
                ctx.check(isinstance(obj, pd.Series) and obj.name == named, "wrong-name",
                          f"{what} {s}: {type(obj).__name__} named {getattr(obj, 'name', '?')!r}, expected a Series named {named!r}")
            if case["kind"] == "dt" and len(obj):
                hours = {-4, -5} if zone != "UTC" else {0}  # zones become fixed offsets
                ctx.check(obj.index.tz is not None and all(x.utcoffset().total_seconds() / 3600 in hours for x in obj.index), "wrong-timezone",
                          f"{what} {s}: index in {obj.index.tz}, expected {zone}")
            idx, tab = table(case, obj, cols)
            ctx.check(all(a < b for a, b in zip(idx, idx[1:])), "not-ordered", f"{what} {s}: index {idx}")
            ctx.check(set(idx) == set(model[s]), "wrong-rows", f"{what} {s}: rows {idx}, expected {sorted(model[s])}")
            for t in idx:
                ctx.check(all(close(a, b) for a, b in zip(tab[t], model[s][t])), "wrong-value",
                          f"{what} {s}: row {t} is {tab[t]}, expected {model[s][t]}")
            ctx.check(data.wrapper.index.equals(data.data[s].index), "wrapper-index", f"{what}: wrapper index differs from data of {s}")
        # the same data through get()
        if len(syms) == 1:
            g = data.get()
            ctx.check(g.equals(data.data[syms[0]]), "get", "get() differs from data")
        else:
            cc = data.concat()
            for name, fr in cc.items():
                for s in syms:
                    src = data.data[s] if isinstance(data.data[s], pd.Series) else data.data[s][name]
                    ctx.check(np.array_equal(np.asarray(fr[s].values, dtype=float), np.asarray(src.values, dtype=float), equal_nan=True),
                              "concat", f"{what}: concat()[{name}][{s}] differs from data")

    from vectorbt import settings
    default = settings["data"]["tz_convert"]
    if case["tz"] == "set-dst":  # the default of the settings at the time of the download also holds for updates
        settings["data"]["tz_convert"] = zone
    with patched_clock(clock), restored(settings["data"], "tz_convert", default):
        model0 = {s: rows(first, s, 0) for s in syms} if cols is not None else None
        exp = align(model0) if cols is not None else None
        try:
            data = FeedData.download(list(syms), **kw)
        except ValueError as e:
            ctx.check(exp is None, "unexpected-raise", f"download raised {e!r}")
            ctx.probe("raise-policy")
            return
        ctx.check(exp is not None, "missing-raise", "mismatching index accepted under 'raise'")
        if any(len(m) == 0 for m in exp.values()):
            return
        compare(data, exp, "download")
        settings["data"]["tz_convert"] = default
        model = exp
        history = [(data, snap(data))]
        updater = vbt.DataUpdater(data)
        for k, op in enumerate(case["ops"]):
            clock.advance(op["dt"])
            base = (max(model[syms[0]]) if case["kind"] == "array" else 0)
            cur = dict(op, base=base)
            cur["tag"] = {s: k if s == syms[0] else None for s in syms} if k % 2 else {s: None for s in syms}
            Feed.cur = cur
            kwargs = dict(tag=vbt.symbol_dict({syms[0]: k})) if k % 2 else {}
            src, smodel = data, model
            if op["stale"] and len(history) > 1 and case["kind"] != "array":
                pass
            new = {s: rows(op, s, base) for s in syms}
            chunk_mismatch = any(set(new[s]) != set(new[syms[0]]) for s in syms)
            if case["missing"] == "drop":  # rows that not every symbol has are dropped from the update itself
                common = set.intersection(*[set(new[s]) for s in syms])
                new = {s: {t: r for t, r in new[s].items() if t in common} for s in syms}
            merged = {s: {**smodel[s], **new[s]} for s in syms}
            for s in syms:
                if set(new[s]) & set(smodel[s]):
                    ctx.probe("overlap")
                if new[s] and min(new[s]) < max(smodel[s]):
                    ctx.probe("deep-overlap")
            if chunk_mismatch:
                ctx.fault("lagging-symbol")
            if op.get("extra") and not case["series"]:
                ctx.fault("extra-column")
            new_cols = align_cols(op["extra"])
            exp = align(merged) if new_cols is not None else None
            try:
                if op["via"] == "updater":
                    updater = vbt.DataUpdater(src)
                    updater.update(**kwargs)
                    res = updater.data
                    ctx.check(updater.config["data"] is res, "updater-config", "updater config does not hold the updated data")
                else:
                    res = src.update(**kwargs)
                err = None
            except Injected as e:
                err, res = e, None
                ctx.check(op["fail"] is not None, "unexpected-raise", repr(e))
            except ValueError as e:
                err, res = e, None
                ctx.check(op["fail"] is not None or (case["missing"] == "raise" and chunk_mismatch) or new_cols is None, "unexpected-raise", repr(e))
                ctx.probe("raise-policy")
            ctx.ev("op", k, type(err).__name__)
            if op["fail"] is not None:
                ctx.check(err is not None, "error-lost", "a failing symbol did not reach the caller")
            elif err is None:
                ctx.check(exp is not None, "missing-raise", "mismatching index accepted under 'raise'")
                ctx.check(res is not src, "in-place", "update returned the same object")
                compare(res, exp, f"update {k}")
                data, model = res, exp
                history.append((data, snap(data)))
                ctx.state("upd", {s: len(model[s]) for s in syms}, case["missing"])
            if err is not None and op["via"] == "updater":
                ctx.check(updater.data is src and updater.config["data"] is src, "failed-update-visible", "failed update changed the updater")
            for j, (d, sn) in enumerate(history):
                ctx.check(same_snap(snap(d), sn), "old-object-changed", f"update {k} changed object {j}")
            if any(len(m) == 0 for m in model.values()):
                return


# ------------------------------------------------------------------ real exchange classes, repeated updates
def gen_exch(rng):
    base = c11.gen(rng)
    base["faults"], base["short"] = {}, []
    base["sms"], base["skind"] = base["bars"][0] if base["bars"] else 0, rng.pick("ms", "pd", "py")
    base["ems"] = None
    if len(base["bars"]) < 3:
        step = c11.TF[base["tf"]]
        a = (base["bars"] or [1_500_000_000_000 // step * step])[0]
        base["bars"] = [a + i * step for i in range(6)]
        base["sms"] = a
    step = c11.TF[base["tf"]]
    last = base["bars"][-1]
    t = last
    for _ in range(rng.randint(0, 30)):
        t += step * (1 if rng.chance(0.85) else rng.randint(2, 5))
        base["bars"].append(t)
    k = rng.randint(1, len(base["bars"]) - 1)
    base["now"] = base["bars"][k] + rng.randrange(step)
    base["limit"] = rng.pick(1, 2, 3, 7, 500)
    base["zone"] = rng.choice(c11.ZONES)
    base["tzc"] = rng.pick(None, None, base["zone"])
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append(dict(dt=rng.pick(0, 1, step / 1000 * rng.random(), step / 1000 * rng.randint(1, 6), 86400 * 100),
                        fault=rng.weighted([(None, 6), (1, 1), (2, 1), (0, 1)])))
    base["ops"] = ops
    base["symbols"] = ["A"]
    return base


def run_exch(case, ctx):
    import ccxt
    import vectorbt as vbt

    clock = SimClock(ctx, case["now"] / 1000.0)
    ex = c11.Exchange(ctx, clock, case)
    api = case["api"]
    errs = dict(fatal=Injected)
    ex.error = lambda k: errs.get(k, Injected)("injected")
    seen = []

    class Client:
        def get_klines(self, symbol=None, interval=None, limit=500, startTime=None, endTime=None):
            seen.append((interval, limit, startTime or 0))
            rows = ex.request(symbol, startTime or 0, endTime, limit)
            return [[r[0], str(r[1]), str(r[2]), str(r[3]), str(r[4]), str(r[5]), r[0] + ex.tf - 1, str(r[5] * 100.0),
                     int(r[5]) * 3, str(r[5] / 2), str(r[5] * 50.0), "0"] for r in rows]

    class CX:
        has = {"fetchOHLCV": True}
        timeframes = {k: k for k in c11.TF}

        def fetch_ohlcv(self, symbol, timeframe="1m", since=None, limit=None, params={}):
            seen.append((timeframe, limit, since or 0))
            return [list(r) for r in ex.request(symbol, since or 0, None, limit)]

    start = c11.to_arg(case["skind"], case["sms"], case["zone"])
    kw = dict(start=start, limit=case["limit"], delay=None, show_progress=False)
    if case["tzc"]:
        kw["tz_convert"] = case["tzc"]
    with patched_clock(clock):
        t0 = ex.now_ms()
        if api == "binance":
            data = vbt.BinanceData.download("A", client=Client(), interval=case["tf"], **kw)
        else:
            data = vbt.CCXTData.download("A", exchange=CX(), timeframe=case["tf"], retries=1, **kw)
        for k, op in enumerate([None] + case["ops"]):
            if op is not None:
                if len(data.data["A"]) == 0:
                    return
                clock.advance(op["dt"])
                t0 = ex.now_ms()
                before = snap(data)
                if op["fault"] is not None:
                    ex.faults[len(ex.log) + op["fault"]] = "fatal"
                n0, nlog = len(seen), len(ex.log)
                last = int(data.data["A"].index[-1].timestamp() * 1000)
                try:
                    data2 = data.update()
                except Injected:
                    ctx.check(any(not r["ok"] for r in ex.log[nlog:]), "error-without-fault", "update raised")
                    ctx.check(same_snap(before, snap(data)), "old-object-changed", "failed update changed the object")
                    ctx.probe("update-failed")
                    ex.faults.clear()
                    continue
                ex.faults.clear()
                ctx.check(same_snap(before, snap(data)), "old-object-changed", "update changed the object it was called on")
                asked = [since for _, _, since in seen[n0:] if since]
                ctx.check(all(t >= last for t in asked), "asked-for-old-bars", f"update asked for bars from {asked}, although {last} is the last bar")
                for tf, lim, _ in seen[n0:]:
                    ctx.check(tf == case["tf"] and lim in (1, case["limit"]), "wrong-kwargs", f"update asked for {tf} with limit {lim}")
                data = data2
            df = data.data["A"]
            t1 = ex.now_ms()
            if len(df) == 0:
                return
            i = df.index if df.index.tz is None else df.index.tz_convert("UTC")
            got = [int(v) for v in i.as_unit("ms").asi8]
            ctx.check(all(a < b for a, b in zip(got, got[1:])), "not-ordered", f"step {k}: {got}")
            lat = sum(case["latency"]) * 1000 * 4 + 1
            must = [b for b in ex.bars if case["sms"] <= b < t0]
            may = {b for b in ex.bars if case["sms"] <= b <= t1}
            ctx.check(set(must) <= set(got), "incomplete", f"step {k}: missing {sorted(set(must) - set(got))[:4]}")
            ctx.check(set(got) <= may, "out-of-range", f"step {k}: extra {sorted(set(got) - may)[:4]}")
            for j, g in enumerate(got):
                vals = [float(df[c].iloc[j]) for c in ["Open", "High", "Low", "Close", "Volume"]]
                sv = ex.served.get(("A", g), [])
                ctx.check(bool(sv) and all(close(a, b) for a, b in zip(vals, sv[-1][1:])), "stale-value",
                          f"step {k}: bar {g} is {vals}, newest served {sv[-1] if sv else None}")
            ctx.probe("update-checked")
            ctx.state("x", len(got), k)


REAL = ['vectorbt.data.base Data.update and symbol alignment', 'vectorbt.data.custom']
STUB = ['feed servers', 'clock']

SCENARIOS = [
    Scenario("feed", gen_feed, run_feed, quick=1200, thorough=60000),
    Scenario("exchange", gen_exch, run_exch, quick=1200, thorough=60000),
]
warm = c11.warm
