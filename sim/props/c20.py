"""C20: signal generators that react to a feed, and everything derived from signals, against bar-by-bar state machines.

"stops": a feed with missing bars, gaps and spikes reaches the stop generators (accessor and indicator, independent or
chained) together with a schedule of entries; an independent machine walks the same bars one at a time.
"callbacks": user choice functions follow a script, return nothing, too early or too late bars, or raise.
"ranges": ranges, ranks, cleaning and counts of two signal streams with resets."""
import numpy as np
import pandas as pd

from ..core import Scenario

REAL = ["signals.nb", "signals.accessors", "signals.generators (STX, STCX, OHLCSTX, OHLCSTCX)", "signals.factory", "signals.dispatch", "generic.ranges.Ranges"]
STUB = ["market feed (missing bars and fields, gaps, spikes, stalls)", "schedule of entries", "user choice functions (scripted, empty, out of range, raising)"]
STATE = "generator x flags x kind of stop hit x feed fault x outcome"
NAN = float("nan")


def A(x, dtype=float):
    return np.array([[NAN if v is None else v for v in r] for r in x], dtype=dtype)


# ------------------------------------------------------------------ the machines
def walk_ts(P, e, lo, hi, c, first):
    """Yields hits of the stop of the entry at bar e among the bars lo..hi-1."""
    ts, stop, trail = P["ts"], P["stop"][e, c], P["trailing"][e, c]
    ref = ts[e, c]
    if stop != stop:
        return
    for i in range(lo, hi):
        p = ts[i, c]
        level = ref * (1 + stop)
        if (p >= level) if stop >= 0 else (p <= level):
            yield i, NAN, -1
            if first:
                return
        if trail and ((p < ref) if stop >= 0 else (p > ref)):
            ref = p


SL, TR, TP = 0, 1, 2


def walk_ohlc(P, e, lo, hi, c, first):
    sl, trail, tp, rev = P["sl_stop"][e, c], P["sl_trail"][e, c], P["tp_stop"][e, c], P["reverse"][e, c]
    if sl < 0 or tp < 0:
        raise ValueError("stop")
    entry = best = P["open"][e, c]
    sign = -1 if rev else 1
    for i in range(lo, hi):
        o, h, l, k = (P[f][i, c] for f in ("open", "high", "low", "close"))
        if o != o:
            o = k
        if l != l:
            l = min(o, k)
        if h != h:
            h = max(o, k)
        if i == e and not P["is_open_safe"]:
            h = l = k
        against, along = (h, l) if rev else (l, h)
        hit = None
        if sl == sl:
            level = (best if trail else entry) * (1 - sign * sl)
            if sign * against <= sign * level:
                hit = i, level, TR if trail else SL
        if hit is None and tp == tp:
            level = entry * (1 + sign * tp)
            if sign * along >= sign * level:
                hit = i, level, TP
        if hit:
            yield hit
            if first:
                return
        if sign * along > sign * best:
            best = along


def independent(entries, walk, wait, until_next, skip, first):
    """Every entry gets its exits. -> exits, {(i, c): (price, type)}"""
    T, N = entries.shape
    ex, out = np.zeros((T, N), bool), {}
    for c in range(N):
        rows = [i for i in range(T) if entries[i, c]]
        busy = -1
        for n, e in enumerate(rows):
            if skip and e <= busy:
                continue
            hi = rows[n + 1] if until_next and n + 1 < len(rows) else T
            if e + wait >= hi:
                continue
            hits = list(walk(e, e + wait, hi, c, first))
            for i, p, k in hits:
                ex[i, c] = True
                out[i, c] = (p, k)
            if hits:
                busy = hits[-1][0]
            elif skip and not until_next:
                break  # still waiting for its exit
    return ex, out


def chained(entries, walk, entry_wait, exit_wait, first):
    T, N = entries.shape
    if entry_wait == 0 and exit_wait == 0:
        raise ValueError("waits")
    en, ex, out = np.zeros((T, N), bool), np.zeros((T, N), bool), {}
    for c in range(N):
        start = 0
        while True:
            e = next((i for i in range(start, T) if entries[i, c]), None)
            if e is None:
                break
            en[e, c] = True
            if e + exit_wait >= T:
                break
            hits = list(walk(e, e + exit_wait, T, c, first))
            if not hits:
                break
            for i, p, k in hits:
                ex[i, c] = True
                out[i, c] = (p, k)
            start = hits[-1][0] + entry_wait
    return en, ex, out


# ------------------------------------------------------------------ stops
def gen_feed(rng, T, N):
    """OHLC in eighths; a list of faults per column."""
    arrs = {f: [[None] * N for _ in range(T)] for f in ("open", "high", "low", "close")}
    faults = {}
    for c in range(N):
        p = rng.randint(60, 200)
        pm, pf, pg = rng.pick(0, 0, 0.1, 0.3), rng.pick(0, 0, 0.15), rng.pick(0, 0.1, 0.2)
        vol = rng.pick(1, 4, 12)
        for i in range(T):
            o = p
            if rng.chance(pg):
                o = max(8, p + rng.randint(-60, 60))
                faults["gap"] = faults.get("gap", 0) + 1
            k = max(8, o + rng.randint(-vol, vol))
            h, l = max(o, k) + rng.randint(0, vol), max(4, min(o, k) - rng.randint(0, vol))
            if rng.chance(0.03):
                l = 4
                faults["spike"] = faults.get("spike", 0) + 1
            if rng.chance(0.03):
                h = 4 * h
                faults["spike"] = faults.get("spike", 0) + 1
            bar = dict(open=o / 8, high=h / 8, low=l / 8, close=k / 8)
            if rng.chance(pm):
                bar = {}
                faults["missing-bar"] = faults.get("missing-bar", 0) + 1
            elif rng.chance(pf):
                for f in ("open", "high", "low"):
                    if rng.chance(0.5):
                        bar[f] = None
                faults["missing-field"] = faults.get("missing-field", 0) + 1
            for f in bar:
                arrs[f][i][c] = bar[f]
            p = k
    return arrs, faults


def gen_flex(rng, T, N, vals):
    """A value given per frame, per column, per row or per element."""
    how = rng.weighted([("frame", 3), ("col", 2), ("row", 2), ("elem", 2)])
    if how == "frame":
        return [[rng.pick(*vals)]]
    if how == "col":
        return [[rng.pick(*vals) for _ in range(N)]]
    if how == "row":
        return [[rng.pick(*vals)] for _ in range(T)]
    return [[rng.pick(*vals) for _ in range(N)] for _ in range(T)]


STOPS = [None, 0.0, 0.125, 0.25, 0.5]


def gen_stops(rng):
    T, N = rng.pick(1, 4, 8, 16, 24), rng.pick(1, 1, 2, 3)
    feed, faults = gen_feed(rng, T, N)
    pe = rng.pick(0.1, 0.3, 0.6, 1.0)
    case = dict(T=T, N=N, feed=feed, faults=faults, entries=[[int(rng.chance(pe)) for _ in range(N)] for _ in range(T)],
                kind=rng.pick("ts", "ohlc", "ohlc"), via=rng.pick("accessor", "accessor", "indicator"), chain=rng.chance(0.4),
                entry_wait=rng.pick(0, 1, 1, 2), exit_wait=rng.pick(0, 1, 1, 2, 3), until_next=rng.chance(0.5), skip=rng.chance(0.5),
                first=rng.chance(0.75), safe=rng.chance(0.5), flat=rng.chance(0.5), prefill=rng.chance(0.3))
    k = 1 if case["via"] == "accessor" else rng.pick(1, 2, 3)
    case["params"] = []
    for _ in range(k):
        if case["kind"] == "ts":
            case["params"].append(dict(stop=gen_flex(rng, T, N, [None, -0.125, -0.25, -0.5, 0.125, 0.25, 0.0]), trailing=gen_flex(rng, T, N, [0, 1])))
        else:
            bad = [-0.125] if rng.chance(0.04) else []
            case["params"].append(dict(sl_stop=gen_flex(rng, T, N, STOPS + bad), sl_trail=gen_flex(rng, T, N, [0, 1]), tp_stop=gen_flex(rng, T, N, STOPS + bad),
                                       reverse=gen_flex(rng, T, N, [0, 0, 1])))
    return case


def wrap(arr, case, idx):
    if case["N"] == 1 and case["flat"]:
        return pd.Series(arr[:, 0], index=idx)
    return pd.DataFrame(arr, index=idx, columns=list("abc")[:case["N"]])


def v2(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def flexarg(case, x, dtype):
    a = A(x, float)
    a = a.astype(dtype)
    if a.shape == (1, 1):
        return a[0, 0].item()
    if case["N"] == 1 and case["flat"]:
        return a[:, 0]
    return a


def run_stops(case, ctx):
    import vectorbt as vbt
    T, N, kind = case["T"], case["N"], case["kind"]
    idx = pd.RangeIndex(T)
    entries = np.array(case["entries"], bool).reshape(T, N)
    feed = {f: A(a).reshape(T, N) for f, a in case["feed"].items()}
    for f, n in case["faults"].items():
        ctx.fault(f, n)
    expect = []
    for p in case["params"]:
        P = dict(feed, ts=feed["close"], is_open_safe=case["safe"])
        for n, x in p.items():
            P[n] = np.broadcast_to(A(x), (T, N))
        walk = walk_ts if kind == "ts" else walk_ohlc
        w = lambda *a, P=P, walk=walk: walk(P, *a)
        try:
            if case["chain"]:
                expect.append(chained(entries, w, case["entry_wait"], case["exit_wait"], case["first"]))
            else:
                ex, out = independent(entries, w, case["exit_wait"], case["until_next"], case["skip"], case["first"])
                expect.append((entries, ex, out))
        except ValueError as e:
            expect.append(e)
    obj = wrap(entries, case, idx)
    bars = {f: wrap(a, case, idx) for f, a in feed.items()}
    before = {f: a.copy() for f, a in bars.items()}
    dt = dict(trailing=bool, sl_trail=bool, reverse=bool)
    params = [{n: flexarg(case, x, dt.get(n, float)) for n, x in p.items()} for p in case["params"]]
    bad = [e for e in expect if isinstance(e, Exception)]
    got = []
    prior = None
    try:
        if case["via"] == "accessor":
            kw = dict(entry_wait=case["entry_wait"], exit_wait=case["exit_wait"], until_next=case["until_next"], skip_until_exit=case["skip"],
                      pick_first=case["first"], chain=case["chain"])
            if kind == "ts":
                r = obj.vbt.signals.generate_stop_exits(bars["close"], **params[0], **kw)
                price = typ = None
            else:
                out = {}
                if case["prefill"]:
                    prior = (np.full((T, N), 7.5), np.full((T, N), 9))
                    out = dict(stop_price=wrap(prior[0].copy(), case, idx), stop_type=wrap(prior[1].copy(), case, idx))
                r = obj.vbt.signals.generate_ohlc_stop_exits(bars["open"], bars["high"], bars["low"], bars["close"], is_open_safe=case["safe"], out_dict=out, **params[0], **kw)
                price, typ = v2(out["stop_price"]), v2(out["stop_type"])
            en, ex = (v2(r[0]), v2(r[1])) if case["chain"] else (entries, v2(r))
            got.append((en, ex, price, typ))
        else:
            kw = dict(pick_first=case["first"])
            if case["chain"]:
                kw.update(entry_wait=case["entry_wait"], exit_wait=case["exit_wait"])
            else:
                kw.update(wait=case["exit_wait"], until_next=case["until_next"], skip_until_exit=case["skip"])
            if kind == "ohlc":
                kw.update(is_open_safe=case["safe"])
            lists = {n: [p[n] for p in params] for n in params[0]}
            cls = dict(ts=(vbt.STX, vbt.STCX), ohlc=(vbt.OHLCSTX, vbt.OHLCSTCX))[kind][case["chain"]]
            ins = [bars["close"]] if kind == "ts" else [bars[f] for f in ("open", "high", "low", "close")]
            r = cls.run(obj, *ins, **lists, **kw)
            K = len(params)
            cut = lambda x, k: v2(x)[:, k * N:(k + 1) * N]
            ens = r.new_entries if case["chain"] else None
            if v2(r.exits).shape != (T, N * K):
                ctx.fail("shape", f"{cls.__name__} with {K} combinations of {N} columns gives exits of shape {v2(r.exits).shape}")
            for k in range(K):
                got.append((entries if ens is None else cut(ens, k), cut(r.exits, k)) + ((None, None) if kind == "ts" else (cut(r.stop_price, k), cut(r.stop_type, k))))
    except ValueError as e:
        ctx.ev("rejected", str(e)[:40])
        if not bad:
            if case["chain"] and "Infinite loop" in str(e) and (case["entry_wait"] == 0 or case["exit_wait"] == 0):
                ctx.probe("loop-refused")
                return
            ctx.fail("refused", f"valid request raises {type(e).__name__}: {e}")
        ctx.state(kind, case["via"], case["chain"], "rejected")
        return
    if bad:
        ctx.fail("accepted", f"a request with {bad[0]} out of range is accepted")
    for f in bars:
        if not bars[f].equals(before[f]):
            ctx.fail("input-changed", f"{f} of the caller has been changed")
    if not np.array_equal(v2(obj), entries):
        ctx.fail("input-changed", "entries of the caller have been changed")
    for k, ((en, ex, price, typ), (xen, xex, out)) in enumerate(zip(got, expect)):
        what = f"{kind} {case['via']} chain={case['chain']} combination {k} {case['params'][k]} wait=({case['entry_wait']},{case['exit_wait']}) until_next={case['until_next']} skip={case['skip']} first={case['first']} safe={case['safe']}"
        ctx.ev(k, xen.astype(int).tolist(), xex.astype(int).tolist())
        if en.dtype != bool or not np.array_equal(en, xen):
            ctx.fail("entries", f"{what}: entries\n{en.astype(int)}\ninstead of\n{xen.astype(int)}")
        if ex.dtype != bool or not np.array_equal(ex, xex):
            ctx.fail("exits", f"{what}: exits\n{ex.astype(int)}\ninstead of\n{xex.astype(int)}")
        kinds = set()
        for (i, c), (p, t) in out.items():
            kinds.add(t)
            if price is not None:
                if abs(price[i, c] - p) > 1e-9:
                    ctx.fail("stop-price", f"{what}: stop price {price[i, c]} instead of {p} at bar {i} of column {c}")
                if typ[i, c] != t:
                    ctx.fail("stop-type", f"{what}: stop type {typ[i, c]} instead of {t} at bar {i} of column {c}")
        if price is not None:
            for i in range(T):
                for c in range(N):
                    if (i, c) not in out:
                        if prior is not None:
                            ok = price[i, c] == 7.5 and typ[i, c] == 9
                        else:
                            ok = np.isnan(price[i, c]) and typ[i, c] == -1
                        if not ok:
                            ctx.fail("stop-leftover", f"{what}: bar {i} of column {c} has no exit but stop price {price[i, c]} and type {typ[i, c]}")
        for t in kinds or {None}:
            ctx.state(kind, case["via"], case["chain"], case["first"], case["until_next"], case["skip"], t)
    ctx.tick(T)


# ------------------------------------------------------------------ user choice functions
class Boom(Exception):
    pass


def gen_script(rng, T):
    """What a choice function does at its n-th call: offsets from from_i."""
    out = []
    for _ in range(rng.randint(1, 8)):
        k = rng.weighted([("pick", 10), ("many", 4), ("none", 1), ("early", 0.3), ("late", 0.3), ("raise", 0.3)])
        out.append([k, sorted({rng.randint(0, 4) for _ in range(rng.randint(1, 4))})])
    return out


def gen_callbacks(rng):
    T, N = rng.pick(1, 5, 10, 20), rng.pick(1, 2, 3)
    pe = rng.pick(0.1, 0.3, 0.6)
    return dict(T=T, N=N, what=rng.pick("generate", "exits", "exits", "both", "both"), entry=[gen_script(rng, T) for _ in range(N)], exit=[gen_script(rng, T) for _ in range(N)],
                entries=[[int(rng.chance(pe)) for _ in range(N)] for _ in range(T)], waits=[rng.pick(0, 1, 1, 2), rng.pick(0, 1, 1, 2)],
                first=[rng.chance(0.6), rng.chance(0.6)], until_next=rng.chance(0.5), skip=rng.chance(0.5))


class Chooser:
    """Scripted choice function; remembers how it was called."""

    def __init__(self, scripts, T):
        self.scripts, self.T, self.calls, self.pos = scripts, T, [], {}

    def plan(self, lo, hi, c, pos):
        s = self.scripts[c]
        k, off = s[pos % len(s)]
        if k == "raise":
            raise Boom("callback")
        if k == "none":
            return []
        if k == "early":
            return [lo - 1]
        if k == "late":
            return [hi]
        r = [lo + o for o in off if lo + o < hi]
        return r[:1] if k == "pick" else r

    def __call__(self, lo, hi, c, *args):
        pos = self.pos.get(c, 0)
        self.pos[c] = pos + 1
        self.calls.append((int(lo), int(hi), int(c)) + args)
        return np.array(self.plan(lo, hi, c, pos), dtype=np.int64)


def model_call(ch, lo, hi, c, args, first):
    idxs = Chooser.__call__(ch, lo, hi, c, *args).tolist()
    if not idxs:
        return []
    if first:
        idxs = idxs[:1]
    if any(i < lo or i >= hi for i in idxs):
        raise ValueError("out of range")
    return idxs


def model(case, E, X):
    T, N = case["T"], case["N"]
    en, ex = np.zeros((T, N), bool), np.zeros((T, N), bool)
    if case["what"] == "generate":
        for c in range(N):
            for i in model_call(E, 0, T, c, ("u",), case["first"][0]):
                en[i, c] = True
    elif case["what"] == "exits":
        entries = np.array(case["entries"], bool).reshape(T, N)
        ex, _ = independent(entries, lambda e, lo, hi, c, first: [(i, NAN, -1) for i in model_call(X, lo, hi, c, ("u",), first)], case["waits"][1], case["until_next"], case["skip"], case["first"][1])
    else:
        if not any(case["waits"]):
            raise ValueError("waits")
        for c in range(N):
            prev, n, same = -1, 0, 0
            while True:
                side = n % 2
                lo = 0 if n == 0 else prev + case["waits"][side]
                if lo >= T:
                    break
                idxs = model_call((E, X)[side], lo, T, c, (("u",), ("w",))[side], case["first"][side])
                if not idxs:
                    break
                for i in idxs:
                    (en, ex)[side][i, c] = True
                prev, n = idxs[-1], n + 1
    return en, ex


def run_callbacks(case, ctx):
    import vectorbt as vbt  # noqa
    T, N, what = case["T"], case["N"], case["what"]
    E, X = Chooser(case["entry"], T), Chooser(case["exit"], T)
    mE, mX = Chooser(case["entry"], T), Chooser(case["exit"], T)
    try:
        want = model(case, mE, mX)
    except (ValueError, Boom) as e:
        want = e
    names = list("abc")[:N]
    entries = pd.DataFrame(np.array(case["entries"], bool).reshape(T, N), columns=names)
    en = ex = np.zeros((T, N), bool)
    try:
        if what == "generate":
            en = pd.DataFrame.vbt.signals.generate((T, N), E, "u", pick_first=case["first"][0], columns=names).values
        elif what == "exits":
            ex = entries.vbt.signals.generate_exits(X, "u", wait=case["waits"][1], until_next=case["until_next"], skip_until_exit=case["skip"], pick_first=case["first"][1]).values
        else:
            r = pd.DataFrame.vbt.signals.generate_both((T, N), E, ("u",), X, ("w",), entry_wait=case["waits"][0], exit_wait=case["waits"][1],
                                                       entry_pick_first=case["first"][0], exit_pick_first=case["first"][1], columns=names)
            en, ex = r[0].values, r[1].values
        got = None
    except (ValueError, Boom) as e:
        got = e
    ctx.ev(what, type(got).__name__, E.calls, X.calls)
    for s in case["entry"] + case["exit"]:
        for k, _ in s:
            if k in ("none", "early", "late", "raise"):
                ctx.fault("choice-" + k)
    ctx.state(what, case["first"], case["waits"], type(want).__name__ if isinstance(want, Exception) else "ok")
    if E.calls != mE.calls or X.calls != mX.calls:
        # a loop at one bar may be refused at any point
        if isinstance(got, ValueError) and "Infinite loop" in str(got):
            return
        ctx.fail("calls", f"{what} called choice functions with {E.calls} / {X.calls} instead of {mE.calls} / {mX.calls}")
    if isinstance(want, Exception):
        if got is None:
            ctx.fail("not-raised", f"{what}: {type(want).__name__} ({want}) does not reach the caller; entries {en.tolist()} exits {ex.tolist()}")
        if isinstance(want, Boom) != isinstance(got, Boom):
            ctx.fail("wrong-error", f"{what}: {got!r} instead of {want!r}")
        return
    if got is not None:
        if "Infinite loop" in str(got) and what == "both" and 0 in case["waits"]:
            return
        ctx.fail("refused", f"{what}: valid choices raise {got!r}")
    if not np.array_equal(en, want[0]):
        ctx.fail("entries", f"{what}: entries {en.astype(int).tolist()} instead of {want[0].astype(int).tolist()}")
    if not np.array_equal(ex, want[1]):
        ctx.fail("exits", f"{what}: exits {ex.astype(int).tolist()} instead of {want[1].astype(int).tolist()}")
    ctx.tick(T)


# ------------------------------------------------------------------ ranges, ranks, cleaning
def gen_ranges(rng):
    T, N = rng.pick(1, 2, 5, 10, 20), rng.pick(1, 2, 3)
    st = lambda: [[int(rng.chance(p)) for p in ps] for _ in range(T)]
    out = dict(T=T, N=N)
    for n in ("a", "b", "r"):
        ps = [rng.pick(0.0, 0.1, 0.3, 0.5, 0.8, 1.0) for _ in range(N)]
        out[n] = st()
    out["nth"] = rng.randint(-4, 4)
    return out


def partitions(x):
    """[(first, last)] of runs of True."""
    out = []
    for i, v in enumerate(x):
        if v:
            if out and out[-1][1] == i - 1:
                out[-1] = (out[-1][0], i)
            else:
                out.append((i, i))
    return out


def run_ranges(case, ctx):
    import vectorbt as vbt  # noqa
    T, N = case["T"], case["N"]
    names = list("abc")[:N]
    a, b, r = (np.array(case[k], bool).reshape(T, N) for k in "abr")
    fa, fb = pd.DataFrame(a, columns=names), pd.DataFrame(b, columns=names)
    S = fa.vbt.signals

    def cmp_ranges(name, got, want):
        recs = got.records_arr
        g = [(int(x["id"]), int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in recs]
        w = [(n,) + x for n, x in enumerate(want)]
        ctx.ev(name, g)
        ctx.state(name, min(len(w), 6))
        if g != w:
            ctx.fail(name, f"{name} of\n{a.astype(int).T.tolist()} and {b.astype(int).T.tolist()}: (id, col, start, end, status) {g} instead of {w}")
        d = got.duration.values.tolist()
        if d != [x[2] - x[1] + (x[3] == 0) for x in want]:  # an open range includes its last bar
            ctx.fail(name + "-duration", f"{name}: durations {d} of {g}")

    ia, ib = [np.flatnonzero(a[:, c]).tolist() for c in range(N)], [np.flatnonzero(b[:, c]).tolist() for c in range(N)]
    cmp_ranges("between", S.between_ranges(), [(c, x, y, 1) for c in range(N) for x, y in zip(ia[c], ia[c][1:])])
    cmp_ranges("between-two", S.between_ranges(other=fb), [(c, x, min(y for y in ib[c] if y >= x), 1) for c in range(N) for x in ia[c] if any(y >= x for y in ib[c])])
    cmp_ranges("between-two-other", S.between_ranges(other=fb, from_other=True), [(c, max(x for x in ia[c] if x <= y), y, 1) for c in range(N) for y in ib[c] if any(x <= y for x in ia[c])])
    parts = [partitions(a[:, c]) for c in range(N)]
    cmp_ranges("partition", S.partition_ranges(), [(c, x, y + 1 if y + 1 < T else T - 1, 1 if y + 1 < T else 0) for c in range(N) for x, y in parts[c]])
    cmp_ranges("between-partition", S.between_partition_ranges(), [(c, x[1], y[0], 1) for c in range(N) for x, y in zip(parts[c], parts[c][1:])])

    def same(name, got, want, detail=""):
        got, want = np.asarray(got), np.asarray(want)
        ctx.ev(name, want.tolist())
        if got.shape != want.shape or not np.array_equal(got.astype(float), want.astype(float), equal_nan=True):
            ctx.fail(name, f"{name} {detail} of {a.astype(int).T.tolist()} (b {b.astype(int).T.tolist()}, reset {r.astype(int).T.tolist()}):\n{got.T.tolist()}\ninstead of\n{want.T.tolist()}")

    for reset in (None, r):
        for after_false in (False, True):
            sig = {g: np.full((T, N), -1) for g in (False, True)}
            par = np.full((T, N), -1)
            for c in range(N):
                ps = [p for p in parts[c] if not (after_false and p[0] == 0)]
                for p in ps:
                    for i in range(p[0], p[1] + 1):
                        last = 0
                        if reset is not None:
                            last = max([j for j in range(i + 1) if reset[j, c]], default=0)
                        for g in (False, True):
                            lo = last if g else max(last, p[0])
                            sig[g][i, c] = sum(1 for q in ps for j in range(q[0], q[1] + 1) if lo <= j <= i) - 1
                        par[i, c] = sum(1 for q in ps if q[0] <= i and q[1] >= last) - 1
            kw = dict(after_false=after_false, reset_by=None if reset is None else pd.DataFrame(reset, columns=names))
            for g in (False, True):
                same("pos-rank", S.pos_rank(allow_gaps=g, **kw), sig[g], f"allow_gaps={g} after_false={after_false} reset={reset is not None}")
                n = abs(case["nth"])
                same("first", S.first(allow_gaps=g, **kw), sig[g] == 0)
                same("nth", S.nth(n, allow_gaps=g, **kw), sig[g] == n)
                same("from-nth", S.from_nth(n, allow_gaps=g, **kw), sig[g] >= n)
                m = S.pos_rank(allow_gaps=g, as_mapped=True, **kw)
                w = [(c, i, sig[g][i, c]) for c in range(N) for i in range(T) if sig[g][i, c] >= 0]
                same("mapped-rank", np.array([m.col_arr, m.idx_arr, m.values]).T.reshape(-1, 3), np.array(w, dtype=int).reshape(-1, 3))
            same("partition-rank", S.partition_pos_rank(**kw), par, f"after_false={after_false} reset={reset is not None}")

    # cleaning: alternate, drop bars with both
    for entry_first in (True, False):
        x, y = np.zeros((T, N), bool), np.zeros((T, N), bool)
        for c in range(N):
            want = "entry" if entry_first else None
            for i in range(T):
                if a[i, c] and b[i, c]:
                    continue
                if a[i, c] and want in ("entry", None):
                    x[i, c], want = True, "exit"
                elif b[i, c] and want in ("exit", None):
                    y[i, c], want = True, "entry"
        g = S.clean(fb, entry_first=entry_first)
        same("clean-entries", g[0], x, f"entry_first={entry_first}")
        same("clean-exits", g[1], y, f"entry_first={entry_first}")
    for n in (case["nth"],):
        w = [(ia[c][n] if -len(ia[c]) <= n < len(ia[c]) else np.nan) for c in range(N)]
        same("nth-index", S.nth_index(n, wrap_kwargs=dict(to_index=False)), w, f"n={n}")
    same("norm-avg-index", np.round(np.asarray(S.norm_avg_index(), dtype=float), 9), np.round([(np.mean(ia[c]) / (T - 1) * 2 - 1) if T > 1 and ia[c] else np.nan for c in range(N)], 9))
    same("total", S.total(), [len(x) for x in ia])
    same("rate", np.round(np.asarray(S.rate(), dtype=float), 12), np.round([len(x) / T for x in ia], 12))
    same("total-partitions", S.total_partitions(), [len(p) for p in parts])
    same("partition-rate", np.round(np.asarray(S.partition_rate(), dtype=float), 12), np.round([len(p) / len(x) if x else np.nan for p, x in zip(parts, ia)], 12))
    for n, f in (("AND", a & b), ("OR", a | b), ("XOR", a ^ b)):
        same(n, getattr(S, n)(fb), f)
    ctx.tick(T)


def warm(mode):
    import vectorbt  # noqa


SCENARIOS = [
    Scenario("stops", gen_stops, run_stops, 1600, 60000, real=REAL, stub=STUB),
    Scenario("callbacks", gen_callbacks, run_callbacks, 800, 30000, real=REAL, stub=STUB),
    Scenario("ranges", gen_ranges, run_ranges, 300, 12000, real=REAL, stub=STUB),
]
