"""C11: paginated exchange downloads against a simulated exchange, network and clock."""
import datetime as dt
import math

from ..core import Scenario, close
from ..seams import SimClock, patched_clock

TF = {"1m": 60_000, "15m": 900_000, "1h": 3_600_000, "1d": 86_400_000}
ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Tokyo", "Australia/Sydney"]


class Injected(Exception):
    pass


class Exchange:
    """Single source of truth: bars with per-bar values; the open bar keeps changing until it closes."""

    def __init__(self, ctx, clock, case):
        self.ctx, self.clock, self.case = ctx, clock, case
        self.tf = TF[case["tf"]]
        self.bars = sorted(case["bars"])  # open times in ms
        self.log = []
        self.served = {}
        self.faults = {int(k): v for k, v in case["faults"].items()}
        self.latency = case["latency"]

    def now_ms(self):
        return int(self.clock.wall * 1000)

    def row(self, ts):
        now = self.now_ms()
        live = ts + self.tf > now
        ver = now // 1000 if live else 0
        base = 100 + (ts // self.tf) % 97 + (0.001 * (ver % 1000) if live else 0)
        return (ts, base, base + 2, base - 1, base + 0.5, 10 + (ts // self.tf) % 13)

    def request(self, symbol, since, until, limit):
        ctx = self.ctx
        ctx.step(20, what="exchange requests")
        k = len(self.log)
        lat = self.latency[k % len(self.latency)] if self.latency else 0.0
        self.clock.advance(lat)
        t = self.clock.mono
        f = self.faults.get(k)
        ctx.ev("req", k, symbol, since, until, limit, f)
        if f is not None:
            self.log.append(dict(t=t, since=since, limit=limit, ok=False, kind=f, n=0, symbol=symbol))
            ctx.fault(f"net-{f}")
            raise self.error(f)
        now = self.now_ms()
        cap = self.case["cap"]
        eff = min(limit or cap, cap)
        if k in self.case["short"]:
            eff = max(2, eff // 2) if eff > 1 else 1
            ctx.fault("short-page")
        out = []
        for ts in self.bars:
            if ts < since or ts > now:
                continue
            if until is not None and ts > until:
                continue
            out.append(self.row(ts))
            if len(out) >= eff:
                break
        for r in out:
            self.served.setdefault((symbol, r[0]), []).append(r)
        self.log.append(dict(t=t, since=since, limit=limit, ok=True, kind=None, n=len(out), symbol=symbol))
        self.ctx.state("srv", len(out), eff, k if k < 6 else 6)
        return out


def to_arg(kind, ms, zone):
    import pandas as pd
    import numpy as np

    ts = pd.Timestamp(ms, unit="ms", tz="UTC")
    if kind == "ms":
        return int(ms)
    if kind == "s":
        return float(ms) / 1000.0
    if kind == "pd":
        return ts.tz_convert(zone)
    if kind == "py":
        return ts.tz_convert(zone).to_pydatetime()
    if kind == "pyutc":
        return ts.to_pydatetime().replace(tzinfo=dt.timezone.utc)
    if kind == "naive":  # process zone is UTC
        return ts.to_pydatetime().replace(tzinfo=None)
    if kind == "np":
        return np.datetime64(ms, "ms")
    if kind == "str":
        return ts.strftime("%Y-%m-%d %H:%M:%S UTC")
    raise ValueError(kind)


def gen(rng):
    tf = rng.pick("1m", "15m", "1h", "1d")
    step = TF[tf]
    # anchor anywhere between 2002 and 2024, aligned to the timeframe
    anchor = rng.randrange(1_012_000_000_000, 1_700_000_000_000) // step * step
    n = rng.weighted([(0, 1), (1, 1), (rng.randint(2, 12), 6), (rng.randint(13, 60), 4)])
    bars, t = [], anchor
    gap = rng.pick(0.0, 0.1, 0.4)
    for _ in range(n):
        bars.append(t)
        t += step
        while rng.chance(gap):
            t += step * rng.pick(1, 1, 2, 7)
    last = bars[-1] if bars else anchor
    live = rng.chance(0.3)
    now = last + (step // 2 if live else step * rng.randint(1, 5000) + 12345)
    if live and rng.chance(0.5):
        for j in range(1, 4):
            bars.append(last + j * step)  # appear while the download runs
    span = max(step, last - anchor)
    start = rng.weighted([("zero", 3), ("before", 2), ("inside", 5), ("after", 1)])
    sms = {"zero": 0, "before": anchor - step * rng.randint(1, 40), "after": last + step * 2,
           "inside": anchor + rng.randrange(0, span + 1) // 1000 * 1000}[start]
    if start == "inside" and rng.chance(0.6) and bars:
        sms = rng.choice(bars)
    skind = "ms" if start == "zero" else rng.pick("ms", "pd", "py", "pyutc", "naive", "str", "np", "s")
    end = rng.weighted([("now", 4), ("inside", 5), ("exact", 3), ("future", 1)])
    ems = {"now": None, "inside": max(0, anchor + rng.randrange(0, span + step) // 1000 * 1000),
           "exact": rng.choice(bars) if bars else anchor, "future": last + step * 100}[end]
    api = rng.pick("binance", "ccxt")
    limit = rng.weighted([(1, 1), (2, 2), (rng.randint(2, 10), 5), (500, 3)])
    cap = rng.weighted([(1000, 5), (rng.randint(2, 8), 3)])
    nreq = 6 + int(len(bars) / max(1, min(limit, cap) - 1))
    faults = {}
    retries = rng.pick(1, 2, 3, 3, 5)
    fk = rng.weighted([("none", 4), ("sparse", 4), ("burst", 3), ("fatal", 1)])
    kinds = ["timeout", "unavailable", "ratelimit", "exchange"] if api == "ccxt" else ["api", "conn"]
    if fk == "sparse":
        for _ in range(rng.randint(1, 4)):
            faults[str(rng.randrange(nreq))] = rng.choice(kinds)
    elif fk == "burst":
        b = rng.randrange(nreq)
        for j in range(rng.randint(1, retries + 1)):
            faults[str(b + j)] = rng.choice(kinds)
    elif fk == "fatal":
        faults[str(rng.randrange(nreq))] = rng.pick("fatal", "interrupt")
    return dict(api=api, tf=tf, bars=bars, now=now, sms=sms, skind=skind, ems=ems,
                ekind=rng.pick("ms", "pd", "py", "pyutc", "naive", "str", "np"),
                zone=rng.choice(ZONES), limit=limit, cap=cap, delay=rng.pick(None, 0, 100, 500), retries=retries,
                faults=faults, short=[rng.randrange(nreq) for _ in range(rng.pick(0, 0, 1, 3))],
                latency=[rng.pick(0.0, 0.05, 0.3, 5.0) for _ in range(3)], symbols=rng.pick(["A"], ["A"], ["A", "B"]))


def run(case, ctx):
    import ccxt
    import pandas as pd
    import vectorbt as vbt

    clock = SimClock(ctx, case["now"] / 1000.0)
    ex = Exchange(ctx, clock, case)
    api = case["api"]
    errs = dict(timeout=ccxt.RequestTimeout, unavailable=ccxt.ExchangeNotAvailable, ratelimit=ccxt.RateLimitExceeded,
                exchange=ccxt.ExchangeError, api=Injected, conn=ConnectionError, fatal=Injected, interrupt=KeyboardInterrupt)
    ex.error = lambda k: errs[k](f"injected {k}")

    class Client:
        def get_klines(self, symbol=None, interval=None, limit=500, startTime=None, endTime=None):
            ctx.check(interval == case["tf"], "wrong-interval", f"asked for {interval}")
            rows = ex.request(symbol, startTime or 0, endTime, limit)
            return [[r[0], str(r[1]), str(r[2]), str(r[3]), str(r[4]), str(r[5]), r[0] + ex.tf - 1, str(r[5] * 100.0),
                     int(r[5]) * 3, str(r[5] / 2), str(r[5] * 50.0), "0"] for r in rows]

    class CX:
        has = {"fetchOHLCV": True}
        timeframes = {k: k for k in TF}

        def fetch_ohlcv(self, symbol, timeframe="1m", since=None, limit=None, params={}):
            ctx.check(timeframe == case["tf"], "wrong-interval", f"asked for {timeframe}")
            ctx.check(params == given, "wrong-params", f"params {params}, expected {given}")
            return [list(r) for r in ex.request(symbol, since or 0, None, limit)]

    given = dict(price="mark") if case["now"] % 2 else {}
    start_ms = case["sms"]
    kw = dict(start=to_arg(case["skind"], start_ms, case["zone"]), delay=case["delay"], limit=case["limit"], show_progress=False)
    if case["skind"] in ("naive", "s", "str") and start_ms == 0:
        kw["start"] = 0
    if case["ems"] is not None:
        kw["end"] = to_arg(case["ekind"], case["ems"], case["zone"])
    if case["symbols"][0] is None or not case["symbols"]:
        return
    t_begin = ex.now_ms()
    syms = list(case["symbols"])
    with patched_clock(clock):
        try:
            if api == "binance":
                data = vbt.BinanceData.download(syms, client=Client(), interval=case["tf"], **kw)
            else:
                data = vbt.CCXTData.download(syms, exchange=CX(), timeframe=case["tf"], retries=case["retries"], **(dict(params=dict(given)) if given else {}), **kw)
            err = None
        except (ccxt.BaseError, Injected, ConnectionError, KeyboardInterrupt) as e:
            if "injected" not in str(e):
                raise
            data, err = None, e
    t_end = ex.now_ms()
    log = ex.log
    ctx.ev("outcome", type(err).__name__, len(log))
    retr = case["retries"]
    if err is not None:
        ctx.check(log and not log[-1]["ok"], "error-without-fault", f"{err!r} although the last request succeeded")
        tail = 0
        for r in reversed(log):
            if r["ok"] or r["kind"] in ("fatal", "interrupt") or (r["since"], r["limit"], r["symbol"]) != (
                    log[-1]["since"], log[-1]["limit"], log[-1]["symbol"]):
                break
            tail += 1
        if api == "ccxt" and log[-1]["kind"] not in ("fatal", "interrupt"):
            ctx.check(tail >= retr, "gave-up-early", f"raised after {tail} failed attempts, retry limit {retr}")
        ctx.probe("error-reached-caller")
        return
    ctx.check(not any(r["kind"] == "interrupt" for r in log), "interrupt-swallowed", "an interrupt was swallowed")
    # delivered: compare with the exchange's own books
    n_fail = sum(not r["ok"] for r in log)
    for s in syms:
        df = data.data[s]
        got = [int(t) for t in (df.index.tz_convert("UTC").as_unit("ms").asi8 if isinstance(df.index, pd.DatetimeIndex) else df.index)]
        e_hi = case["ems"] if case["ems"] is not None else t_end
        e_lo = case["ems"] if case["ems"] is not None else t_begin
        must = [b for b in ex.bars if start_ms <= b < e_lo and b <= t_begin]
        may = [b for b in ex.bars if start_ms <= b < e_hi and b <= t_end]
        if len(syms) > 1 and case["ems"] is None:
            may_set = set(may)
        else:
            may_set = set(may)
        ctx.check(all(a < b for a, b in zip(got, got[1:])), "not-ordered", f"{s}: timestamps {got[:20]} not strictly increasing")
        miss = [b for b in must if b not in set(got)]
        extra = [g for g in got if g not in may_set]
        ctx.check(not miss, "incomplete", f"{s}: {len(miss)} bars of the range missing, first {miss[:3]}; got {len(got)} of {len(must)}")
        ctx.check(not extra, "out-of-range", f"{s}: bars outside the requested range: {extra[:3]}, start {start_ms}, end {e_hi}")
        cols = ["Open", "High", "Low", "Close", "Volume"]
        for i, g in enumerate(got):
            vals = [float(df[c].iloc[i]) for c in cols]
            if all(v != v for v in vals) and len(syms) > 1:
                continue  # aligned row of a bar that only the other symbol's later download saw
            ok = any(all(close(v, w) for v, w in zip(vals, r[1:])) for r in ex.served.get((s, g), []))
            ctx.check(ok, "wrong-value", f"{s}: bar {g} has {vals}, exchange served {ex.served.get((s, g))}")
        if not got:
            ctx.probe("empty")
    # request ledger
    eff = max(1, min(case["limit"] or 10**9, case["cap"]))
    if case["short"]:
        eff = max(1, min(eff, max(2, eff // 2)))
    pages = 0
    for s in syms:
        pages += math.ceil(len(ex.bars) / max(1, eff - 1)) + 4
    ctx.check(len(log) <= pages + n_fail + 1, "too-many-requests", f"{len(log)} requests, at most {pages + n_fail + 1} expected")
    if case["delay"]:
        for s in syms:
            lg = [r for r in log if r["symbol"] == s]
            first_ok = next((i for i, r in enumerate(lg) if r["ok"]), len(lg))
            for a, b in zip(lg[first_ok + 1:], lg[first_ok + 2:]):
                ctx.check(b["t"] - a["t"] >= case["delay"] / 1000.0 - 1e-6, "no-delay", f"requests {b['t'] - a['t']:.3f} s apart, delay {case['delay']} ms")
            ctx.probe("delay-checked")
    if len(log) > 3:
        ctx.probe("multi-page")
    if n_fail:
        ctx.probe("recovered-from-fault")

# ---------------------------------------------------------------- brokers (real alpaca-py over a simulated transport; Yahoo's ticker)
COLS = ["Open", "High", "Low", "Close", "Volume"]
EXZONE = ["America/New_York", "Europe/Berlin", "Asia/Tokyo", "UTC"]


def gen_broker(rng):
    api = rng.pick("alpaca", "alpaca", "yahoo")
    tf = rng.pick("1m", "15m", "1h", "1d")
    step = TF[tf]
    anchor = rng.randrange(1_262_304_000_000, 1_700_000_000_000) // step * step
    n = rng.pick(1, 2, rng.randint(3, 10), rng.randint(11, 40))
    hist, t = [], anchor
    for _ in range(n):
        hist.append(t)
        t += step * rng.pick(1, 1, 1, 2, 5)
    syms = rng.pick(["A"], ["A"], ["A", "B"], ["X/USD"], ["X/USD", "A"], ["A", "B", "X/USD"]) if api == "alpaca" else rng.pick(["A"], ["A", "B"])
    bars = {}
    for k in syms:
        b = list(hist)
        if len(syms) > 1 and rng.chance(0.5):  # a symbol that was listed later, or misses bars
            b = [x for x in b if x >= rng.choice(hist) and rng.chance(0.9)] or hist[-1:]
        bars[k] = b
    future = []
    if len(syms) == 1:
        for j in range(rng.pick(0, 0, 1, 3, 6)):
            t += step * rng.pick(1, 1, 2)
            future.append(t)
        bars[syms[0]] = bars[syms[0]] + future
    last = hist[-1]
    now = last + rng.pick(step // 2, step, step * 3)
    start = rng.pick("before", "inside", "bar", "none" if api == "yahoo" else "before", "after" if api == "yahoo" else "inside")
    sms = dict(before=anchor - step * rng.randint(1, 9), inside=anchor + rng.randrange(0, last - anchor + 1) // 1000 * 1000, bar=rng.choice(hist),
               none=None, after=last + step // 2)[start]
    end = rng.pick("now", "inside", "bar", "future")
    ems = dict(now=None, inside=anchor + rng.randrange(0, last - anchor + step) // 1000 * 1000, bar=rng.choice(hist), future=last + step * 50)[end]
    nreq = 4 + len(syms) * 4
    faults = {}
    for _ in range(rng.pick(0, 0, 1, 2, 6)):
        faults[str(rng.randrange(nreq))] = rng.pick("429", "504", "500", "conn", "429") if api == "alpaca" else rng.pick("conn", "interrupt")
    if rng.chance(0.15):
        b = rng.randrange(nreq)
        for j in range(4):
            faults[str(b + j)] = "429"
    kinds = ("ms", "pd", "py", "pyutc", "naive", "str", "np", "np", "s")
    return dict(broker=api, tf=tf, bars=bars, now=now, sms=sms, skind=rng.choice(kinds), ems=ems, ekind=rng.choice(kinds), zone=rng.choice(ZONES),
                limit=rng.pick(1, rng.randint(2, 12), 500, 500), page=rng.pick(2, 3, 7, 10000), faults=faults, symbols=syms,
                zones=[rng.choice(EXZONE) for _ in syms], waits=[rng.pick(0, step // 2, step, step * 4) for _ in range(rng.pick(0, 1, 2, 3))] if len(syms) == 1 else [])


def brow(ts, step, now):
    live = ts + step > now
    k = (ts // step) % 97
    return (100.0 + k, 102.0 + k, 99.0 + k, 100.5 + k + (0.25 * (now // 1000 % 7) if live else 0.0), float(10 + k))


def run_broker(case, ctx):
    import pandas as pd
    import requests
    import alpaca.common.rest as arest
    import vectorbt as vbt

    api, step, syms = case["broker"], TF[case["tf"]], list(case["symbols"])
    clock = SimClock(ctx, case["now"] / 1000.0)
    now_ms = lambda: int(clock.wall * 1000)
    faults = {int(k): v for k, v in case["faults"].items()}
    log = []  # (symbol, fault or None)
    unit = {"m": "Min", "h": "Hour", "d": "Day"}[case["tf"][-1]]

    def upcoming(sym):
        k = len(log)
        f = faults.get(k)
        log.append((sym, f))
        ctx.ev("req", k, sym, f)
        ctx.step(5, what="broker requests")
        if f is not None:
            ctx.fault(f"net-{f}")
        return f

    def rows(sym, lo, hi):
        return [b for b in case["bars"][sym] if (lo is None or b >= lo) and b <= now_ms() and (hi is None or b <= hi)]

    class Response:
        def __init__(self, code, body):
            self.status_code, self.body = code, body
            self.text = "x" if code == 200 else '{"message": "injected %d"}' % code

        def json(self):
            return self.body

        def raise_for_status(self):
            if self.status_code >= 400:
                raise requests.exceptions.HTTPError(f"injected {self.status_code}", response=self)

    class Session:
        def request(self, method, url, params=None, **kw):
            sym = params["symbols"]
            f = upcoming(sym)
            if f == "conn":
                raise requests.exceptions.ConnectionError("injected conn")
            if f is not None:
                return Response(int(f), None)
            ctx.check(("crypto" in url) == ("/" in sym), "wrong-endpoint", f"{sym}: {url}")
            tf = params["timeframe"]
            ctx.check(str(tf) == case["tf"][:-1] + unit, "wrong-interval", f"asked for {tf}")
            ms = lambda x: None if x is None else int(pd.Timestamp(x).tz_convert("UTC").value // 10**6)
            lo, hi = ms(params.get("start")), ms(params.get("end"))
            out = rows(sym, lo, hi)
            off = int(params.get("page_token") or 0)
            size = min(case["page"], int(params.get("limit") or 10000))
            page = out[off:off + size]
            if off + size < len(out):
                ctx.fault("split-page")
            body = {"bars": {sym: [dict(t=pd.Timestamp(b, unit="ms", tz="UTC").isoformat().replace("+00:00", "Z"), n=3, vw=1.25,
                                        **dict(zip("ohlcv", brow(b, step, now_ms())))) for b in page]},
                    "next_page_token": str(off + size) if off + size < len(out) else None}
            ctx.state(api, len(page), off > 0, f)
            return Response(200, body)

    given = dict(session="mine") if len(case["tf"]) % 2 else {}

    class Ticker:
        def __init__(self, symbol, **kw):
            self.symbol = symbol
            ctx.check(kw == given, "wrong-kwargs", f"Ticker({symbol}, {kw}), expected {given}")

        def history(self, period=None, start=None, end=None, **kw):
            f = upcoming(self.symbol)
            if f == "interrupt":
                raise KeyboardInterrupt("injected interrupt")
            if f is not None:
                raise ConnectionError("injected conn")
            ctx.check(kw.get("interval") == case["tf"], "wrong-interval", f"asked for {kw}")
            ms = lambda x: None if x is None else int(round(x.timestamp() * 1000))
            hi = ms(end)
            out = [b for b in rows(self.symbol, ms(start), None) if hi is None or b < hi]
            idx = pd.DatetimeIndex(pd.to_datetime(out, unit="ms", utc=True)).tz_convert(case["zones"][syms.index(self.symbol)])
            idx.name = "Date"
            d = pd.DataFrame([brow(b, step, now_ms()) for b in out], index=idx, columns=COLS, dtype=float)
            d["Dividends"] = 0.0
            ctx.state(api, len(out), f)
            return d

    kw = dict(show_progress=False)
    if case["sms"] is not None:
        kw["start"] = to_arg(case["skind"], case["sms"], case["zone"])
    if case["ems"] is not None:
        kw["end"] = to_arg(case["ekind"], case["ems"], case["zone"])
    if api == "alpaca":
        cls = vbt.AlpacaData
        kw.update(timeframe=case["tf"], limit=case["limit"], api_key="k", secret_key="s")
    else:
        cls = vbt.YFData
        kw.update(interval=case["tf"])
        if given:
            kw["ticker_kwargs"] = dict(given)
    import yfinance
    saved = arest.Session, arest.time, yfinance.Ticker
    arest.Session, yfinance.Ticker = Session, Ticker

    class Time:
        sleep = staticmethod(clock.sleep)
    arest.time = Time

    def attempt(f):
        k = len(log)
        try:
            return f(), None, log[k:]
        except (requests.exceptions.RequestException, ConnectionError, KeyboardInterrupt) as e:
            if "injected" not in str(e):
                raise
            return None, e, log[k:]
        except Exception as e:
            if "injected" in str(e):
                return None, e, log[k:]
            raise

    def expected(sym, lo, hi, limit):
        out = [b for b in rows(sym, lo, None) if hi is None or (b <= hi if api == "alpaca" else b < hi)]
        return out[:limit] if api == "alpaca" else out

    def judge(data, want, what):
        for sym in syms:
            df = data.data[sym]
            ctx.ev("rows", what, sym, len(df), sorted(want[sym])[-1:])
            ctx.check(isinstance(df.index, pd.DatetimeIndex) and df.index.tz is not None, "no-time-index", lambda: f"{what}: index of {sym} is {df.index[:3]!r}")
            got = [int(x) for x in df.index.tz_convert("UTC").as_unit("ms").asi8]
            ctx.check(all(a < b for a, b in zip(got, got[1:])), "not-ordered", f"{what} {sym}: {got[:20]}")
            ctx.check(list(df.columns[:5]) == COLS, "columns", f"{what}: {list(df.columns)}")
            known = {g: [float(x) for x in df[COLS].iloc[i]] for i, g in enumerate(got)}
            have = {g: v for g, v in known.items() if not all(x != x for x in v)}
            miss = [b for b in want[sym] if b not in have]
            extra = [g for g in have if g not in want[sym]]
            ctx.check(not miss, "incomplete", f"{what} {sym}: missing {miss[:3]}, got {len(have)} of {len(want[sym])}")
            ctx.check(not extra, "out-of-range", f"{what} {sym}: {extra[:3]} were not asked for or not served")
            ctx.check(len(syms) > 1 or len(known) == len(have), "empty-rows", f"{what}: {known}")
            for g, v in have.items():
                ctx.check(list(v) == list(want[sym][g]), "wrong-value", f"{what} {sym}: bar {g} has {v}, the server's last word was {want[sym][g]}")

    try:
        with patched_clock(clock):
            t0 = now_ms()
            want = {k: expected(k, case["sms"], case["ems"] if case["ems"] is not None else (t0 if api == "alpaca" else None), case["limit"]) for k in syms}
            data, err, seen = attempt(lambda: cls.download(syms, **kw))
            bad = [f for _, f in seen if f is not None]
            ctx.ev("outcome", type(err).__name__, len(log))
            if err is not None:
                ctx.check(seen and seen[-1][1] is not None, "error-without-fault", f"{err!r}")
                ctx.probe("error-reached-caller")
                return
            ctx.check(not any(f in ("500", "conn", "interrupt") for f in bad), "fault-swallowed", f"{bad}")
            if bad:
                ctx.probe("recovered-from-fault")
            if now_ms() != t0:  # waiting for the server moved the clock: the newest bars may or may not be in
                return
            full = {k: {b: brow(b, step, t0) for b in want[k]} for k in syms}
            judge(data, full, "download")
            for j, w in enumerate(case["waits"]):
                clock.advance(w / 1000.0)
                sym = syms[0]
                if not full[sym]:
                    break
                t0 = now_ms()
                hi = case["ems"] if case["ems"] is not None else (t0 if api == "alpaca" else None)
                more = expected(sym, max(full[sym]), hi, case["limit"])
                data2, err, seen = attempt(lambda: data.update())
                ctx.ev("update", j, type(err).__name__)
                if err is not None:
                    ctx.check(seen and seen[-1][1] is not None, "error-without-fault", f"update: {err!r}")
                    continue
                ctx.check(not any(f in ("500", "conn", "interrupt") for _, f in seen), "fault-swallowed", f"{seen}")
                if now_ms() != t0:
                    return
                data = data2
                full[sym].update({b: brow(b, step, t0) for b in more})
                judge(data, full, f"update {j}")
                ctx.probe("updated")
    finally:
        arest.Session, arest.time, yfinance.Ticker = saved


REAL = ['vectorbt.data.custom downloaders (Binance, CCXT) and their pagination/retry loops']
STUB = ['exchange client and network', 'clock/sleep']

SCENARIOS = [
    Scenario("exchange", gen, run, quick=6000, thorough=150000),
    Scenario("brokers", gen_broker, run_broker, quick=800, thorough=30000,
             real=["AlpacaData, YFData, alpaca-py client (requests, paging, retries)"], stub=["HTTP transport", "Yahoo ticker", "clock/sleep"]),
]


def warm(mode):
    import ccxt  # noqa
    import dateparser  # noqa
    import vectorbt  # noqa
