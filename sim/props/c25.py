"""C25: metrics of a return stream and their rolling forms, against the published definitions evaluated on exactly the bars
they cover.

"returns": an accessor over returns with late listings, gaps, stalls, wipe-outs and a benchmark goes through a history of
metrics, rolling metrics, resampling, selections and drawdowns, with own defaults and annualisations."""
import math
import warnings

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario
from .c24 import NAN, bars, cells, find_drawdowns, mean, nan, near, ok, quantile, std

import vectorbt as vbt

REAL = ["returns.nb", "returns.accessors", "returns.dispatch", "generic.nb", "generic.drawdowns", "base.array_wrapper"]
STUB = ["return stream and benchmark (late listings, gaps, stalls, wipe-outs)"]
FREE = "free"  # what's left is rounding


def gen_stream(rng, n, k):
    cols, kinds = [], []
    for _ in range(k):
        scale = rng.pick(0.01, 0.05, 0.3)
        v = [0.0 if rng.random() < 0.1 else round(rng.uniform(-scale, scale), 4) for _ in range(n)]
        kind = rng.pick("none", "none", "none", "late", "gaps", "gap", "dead", "stall", "up", "wipe", "empty", "first")
        i, j = sorted([rng.randint(0, n), rng.randint(0, n)])
        if kind == "late":
            v[:i] = [None] * i
        elif kind == "gap":
            v[i:j] = [None] * (j - i)
        elif kind == "gaps":
            v = [None if rng.random() < 0.3 else x for x in v]
        elif kind == "dead":
            v[i:] = [None] * (n - i)
        elif kind == "stall":
            v[i:j] = [0.0] * (j - i)
        elif kind == "up":
            v = [abs(x) for x in v]
        elif kind == "wipe" and i < n:
            v[i] = -1.0
            v[i + 1:] = [0.0] * (n - i - 1)
        elif kind == "empty" and k > 1:
            v = [None] * n
        elif kind == "first" and n:
            v[0] = None
        cols.append(v)
        kinds.append(kind)
    return [list(r) for r in zip(*cols)], kinds


OPS = ["metric"] * 6 + ["rolling"] * 6 + ["cum", "resample", "dd", "select", "value"]
PLAIN = ["total", "annualized", "annualized_volatility", "calmar_ratio", "omega_ratio", "sharpe_ratio", "downside_risk", "sortino_ratio", "information_ratio", "beta", "alpha", "tail_ratio", "common_sense_ratio",
         "value_at_risk", "cond_value_at_risk", "capture", "up_capture", "down_capture", "max_drawdown"]
BENCH = ("information_ratio", "beta", "alpha", "capture", "up_capture", "down_capture")
OPTS = dict(annualized_volatility=("levy_alpha", "ddof"), omega_ratio=("risk_free", "required_return"), sharpe_ratio=("risk_free", "ddof"), downside_risk=("required_return",), sortino_ratio=("required_return",),
            information_ratio=("ddof",), alpha=("risk_free",), value_at_risk=("cutoff",), cond_value_at_risk=("cutoff",))
VALUES = dict(levy_alpha=(2.0, 1.5), ddof=(0, 1, 2), risk_free=(0.0, 0.001, -0.01), required_return=(0.0, 0.01, 0.1), cutoff=(0.05, 0.2, 0.5, 0.9), start_value=(0.0, 1.0, 100.0), window=(2, 3, 5, 40), minp=(None, 1, 2))
DEFAULTS = dict(levy_alpha=2.0, ddof=1, risk_free=0.0, required_return=0.0, cutoff=0.05, start_value=0.0, window=10, minp=None)


def gen(rng):
    n, k = rng.pick(1, 2, 5, 9, 14, 25), rng.pick(1, 2, 3)
    vals, kinds = gen_stream(rng, n, k)
    one = rng.random() < 0.3  # one benchmark for all columns
    bench, bk = gen_stream(rng, n, 1 if one else k)
    own = {q: rng.pick(*VALUES[q]) for q in VALUES if rng.random() < 0.25}
    if own.get("minp") is not None and own["minp"] > own.get("window", 10):
        own.pop("minp")
    return dict(vals=vals, kinds=kinds + bk, bench=bench, series=k == 1 and rng.random() < 0.5, freq=rng.pick("1D", "1D", "12h", "7D"), year=rng.pick("365 days", "252 days", "12h", "1D", None), own=own,
                index=rng.pick("days", "days", "range"), ops=[[rng.pick(*OPS), rng.randint(0, 10**6)] for _ in range(rng.randint(3, 10))])


def shrink(case):
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i in range(len(case["vals"])):
        if len(case["vals"]) > 1:
            yield dict(case, vals=case["vals"][:i] + case["vals"][i + 1:], bench=case["bench"][:i] + case["bench"][i + 1:])
    for q in case["own"]:
        yield dict(case, own={a: b for a, b in case["own"].items() if a != q})


# ------------------------------------------------------------------ definitions: v returns, b benchmark, A years' worth of bars
def div(a, b):
    return float(np.float64(a) / np.float64(b))


def power(a, b):
    return float(np.float64(a) ** np.float64(b))


def growth(v):
    g = 1.0
    for x in ok(v):
        g *= 1 + x
    return g


def annual(v, A):
    return power(growth(v), A / len(v)) - 1 if len(v) else NAN


def curve(v):
    g, out = 1.0, []
    for x in v:
        g = g if nan(x) else g * (1 + x)
        out.append(g)
    return out


def downs(v):
    top, out = -math.inf, []
    for x in curve(v):
        top = max(top, x)
        out.append(div(x, top) - 1)
    return out


def tiny(x, scale):
    return abs(x) <= 1e-9 * max(scale, 1e-300)


def over(top, sd, scale):
    """top per unit of risk; no risk gives infinity, risk within rounding gives neither."""
    if nan(sd):
        return NAN
    return FREE if tiny(sd, scale) else top / sd


def metric(name, v, b, A, o):
    big = max([abs(x) for x in ok(v)], default=0.0)
    if name == "total":
        return growth(v) - 1
    if name == "annualized":
        return annual(v, A)
    if name == "annualized_volatility":
        return std(ok(v), o["ddof"]) * A ** (1 / o["levy_alpha"]) if len(v) >= 2 else NAN
    if name == "max_drawdown":
        return NAN if any(nan(x) for x in downs(v)) else min(downs(v))
    if name == "calmar_ratio":
        d = metric("max_drawdown", v, b, A, o)
        return NAN if d == 0 or nan(d) else FREE if tiny(d, 1.0) else annual(v, A) / abs(d)
    if name == "omega_ratio":
        bar = o["required_return"] if A == 1 else power(1 + o["required_return"], 1 / A) - 1
        ex = [x - o["risk_free"] - bar for x in ok(v)]
        if any(x and abs(x) < 1e-12 for x in ex):
            return FREE
        lost = -math.fsum(x for x in ex if x < 0)
        return math.inf if lost == 0 else math.fsum(x for x in ex if x > 0) / lost
    if name == "sharpe_ratio":
        if len(v) < 2:
            return NAN
        ex = [x - o["risk_free"] for x in ok(v)]
        r = over(mean(ex), std(ex, o["ddof"]), big + abs(o["risk_free"]) + 1e-6)
        return r if r == FREE else r * math.sqrt(A)
    if name in ("downside_risk", "sortino_ratio"):
        ex = [x - o["required_return"] for x in ok(v)]
        risk = math.sqrt(mean([min(x, 0.0) ** 2 for x in ex]) * A) if ex else NAN
        if name == "downside_risk":
            return risk
        if len(v) < 2 or nan(risk):
            return NAN
        if any(x and abs(x) < 1e-12 for x in ex):
            return FREE
        return math.inf if risk == 0 else mean(ex) * A / risk
    if name == "information_ratio":
        if len(v) < 2:
            return NAN
        ex = ok([x - y for x, y in zip(v, b)])
        return over(mean(ex), std(ex, o["ddof"]), max([abs(x) for x in ex], default=0) + big + 1e-6)
    if name in ("beta", "alpha"):
        if len(v) < 2:
            return NAN
        both = [(x, y) for x, y in zip(v, b) if not nan(x) and not nan(y)]
        if not both:
            return NAN
        m = mean([y for _, y in both])
        var, cov = mean([(y - m) ** 2 for _, y in both]), mean([(y - m) * x for x, y in both])
        if var < 1e-26:
            return FREE
        if name == "beta":
            return cov / var
        rf = o["risk_free"]
        return power(mean([x - rf - cov / var * (y - rf) for x, y in both]) + 1, A) - 1
    if name in ("tail_ratio", "common_sense_ratio"):
        if not ok(v):
            return NAN
        hi, lo = abs(quantile(ok(v), 0.95)), abs(quantile(ok(v), 0.05))
        r = math.inf if lo == 0 else FREE if lo < 1e-12 else hi / lo
        return r if name == "tail_ratio" or r == FREE else float(np.float64(r) * (1 + annual(v, A)))
    if name == "value_at_risk":
        return quantile(ok(v), o["cutoff"]) if ok(v) else NAN
    if name == "cond_value_at_risk":
        if len(ok(v)) < len(v):
            return FREE  # whether missing returns count isn't stated
        return mean(sorted(v)[:int((len(v) - 1) * o["cutoff"]) + 1]) if v else NAN
    if name in ("capture", "up_capture", "down_capture"):
        if name != "capture":
            on = [(x, y) for x, y in zip(v, b) if (y > 0 if name == "up_capture" else y < 0)]
            v, b = [x for x, _ in on], [y for _, y in on]
        if not v:
            return NAN
        x, y = annual(v, A), annual(b, A)
        return math.inf if y == 0 else FREE if tiny(y, 1.0) else div(x, y)
    raise AssertionError(name)


def compare(ctx, x, y, what):
    if y == FREE or (isinstance(y, float) and abs(y) > 1e12 and abs(y) != math.inf):
        return
    ctx.check(near(x, y, 1e-9 + 1e-7 * abs(y) if not nan(y) and abs(y) != math.inf else 0), "wrong-value", lambda: f"{what}: {x}, expected {y}")


def run(case, ctx):
    import random
    n, k = len(case["vals"]), len(case["vals"][0])
    frame = lambda v: pd.DataFrame(np.array([[NAN if x is None else x for x in r] for r in v], dtype=float), index=objs.axis(case["index"], n), columns=[f"c{i}" for i in range(len(v[0]))])
    obj, bench = frame(case["vals"]), frame(case["bench"])
    wide = pd.DataFrame(np.repeat(bench.to_numpy(), k, axis=1), index=obj.index, columns=obj.columns) if bench.shape[1] < k else bench
    if case["series"]:
        obj, bench = obj.iloc[:, 0], bench.iloc[:, 0]
    elif bench.shape[1] < k:
        bench = bench.iloc[:, 0] if len(case["ops"]) % 2 else bench
    for kind in case["kinds"]:
        if kind != "none":
            ctx.fault("stream-" + kind)
    kept = obj.copy(), bench.copy()
    own = {**DEFAULTS, **case["own"]}
    A = pd.Timedelta(case["year"] or "365 days") / pd.Timedelta(case["freq"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        kw = dict(freq=case["freq"], defaults=case["own"] or None)
        if case["year"]:
            kw["year_freq"] = case["year"]
        late = random.Random(len(case["ops"]) + n).random() < 0.4  # the benchmark comes with the call
        acc = obj.vbt.returns(**kw) if late else obj.vbt.returns(benchmark_rets=bench, **kw)
        V = [obj.to_numpy().reshape(n, k)[:, j].tolist() for j in range(k)]
        B = [wide.to_numpy()[:, j].tolist() for j in range(k)]
        labels, flat, index = ["c0"] if case["series"] else list(obj.columns), case["series"], list(obj.index)
        for step, (op, seed) in enumerate(case["ops"]):
            r = random.Random(seed)
            ctx.tick(1)
            what = f"step {step} {op}"
            if op in ("metric", "rolling"):
                name = r.choice(PLAIN)
                given = {q: r.choice(VALUES[q]) for q in OPTS.get(name, ()) if r.random() < 0.5}
                o = {**own, **given}
                args = dict(given)
                if name in BENCH and late:
                    args["benchmark_rets"] = bench if len(labels) == k else wide[labels] if not flat else wide[labels[0]]
                if op == "metric":
                    out = getattr(acc, name)(**args)
                    ctx.check(not isinstance(out, pd.DataFrame) and (flat or list(out.index) == labels), "wrong-shape", lambda: f"{what} {name}: {out}")
                    for j, x in enumerate([out] if flat else out.tolist()):
                        compare(ctx, x, metric(name, V[j], B[j], A, o), f"{what} {name}({given}) of column {labels[j]!r}, {A} bars a year, defaults {case['own']}; {V[j]} against {B[j] if name in BENCH else None}")
                else:
                    m = len(index)
                    if r.random() < 0.8:
                        args["window"] = o["window"] = r.choice([1, 2, 3, 5, m, m + 1])
                        if r.random() < 0.6:
                            args["minp"] = o["minp"] = r.choice([1, 2, o["window"]])
                    w, minp = o["window"], o["minp"]
                    minp = w if minp is None else minp
                    if minp > w:
                        continue
                    out = cells(getattr(acc, "rolling_" + name)(**args))
                    ctx.check(out.shape == (m, len(labels)), "wrong-shape", lambda: f"{what} {name}: {out.shape}")
                    for j in range(len(labels)):
                        for i in range(m):
                            a = max(0, i + 1 - w)
                            v, b = V[j][a:i + 1], B[j][a:i + 1]
                            y = NAN if len(ok(v)) < minp else metric(name, v, b, A, o)
                            compare(ctx, out[i, j], y, f"{what} rolling_{name}({args.get('window')}, minp={args.get('minp')}, {given}) of column {labels[j]!r} bar {i}, {A} bars a year, defaults {case['own']}; {v} against {b if name in BENCH else None}")
                ctx.ev(step, name)
                ctx.state(op, name, len(index) > 8, flat, any(nan(x) for v in V for x in v), bool(given))
                continue
            ctx.ev(step, op)
            ctx.state(op, len(index) > 8, flat, any(nan(x) for v in V for x in v))
            if op == "cum":
                how = r.choice(["cumulative", "drawdown"])
                start = r.choice(VALUES["start_value"]) if r.random() < 0.5 else None
                s = own["start_value"] if start is None else start
                out = cells(acc.cumulative(start_value=start) if how == "cumulative" else acc.drawdown())
                want = [[x - 1 if s == 0 else x * s for x in curve(v)] if how == "cumulative" else downs(v) for v in V]
                for j, w in enumerate(want):
                    for i, y in enumerate(w):
                        compare(ctx, out[i, j], y, f"{what} {how}({start}) of column {labels[j]!r} bar {i}; {V[j]}")
            elif op == "resample" and case["index"] == "days" and len(index) and all(y > x for x, y in zip(index, index[1:])):
                size = r.choice([1, 2, 3, 7])
                out = acc.resample_total_return(f"{size}D")
                start = index[0].normalize()
                bins = [(x - start).days // size for x in index]
                ctx.check(list(out.index) == [start + pd.Timedelta(days=size * q) for q in range(bins[-1] + 1)], "wrong-shape", lambda: f"{what}({size}D): {list(out.index)}")
                got = cells(out)
                for j, v in enumerate(V):
                    for q in range(bins[-1] + 1):
                        part = [x for x, z in zip(v, bins) if z == q]
                        compare(ctx, got[q, j], growth(part) - 1 if part else NAN, f"{what} resample_total_return({size}D) of column {labels[j]!r} bin {q}; {v} at {index}")
            elif op == "dd":
                rec = acc.get_drawdowns() if r.random() < 0.5 else acc.drawdowns
                x = rec.records_arr
                want = [(j, d["peak_idx"], d["valley_idx"], d["end_idx"], d["status"]) for j, v in enumerate(V) for d in find_drawdowns([float(y) for y in cells(acc.cumulative(start_value=1.0))[:, j]])]
                got = [(int(a["col"]), int(a["peak_idx"]), int(a["valley_idx"]), int(a["end_idx"]), int(a["status"])) for a in x]
                ctx.check(got == want, "wrong-records", lambda: f"{what}: {got}, expected {want}")
                worst = rec.max_drawdown()
                for j, y in enumerate([worst] if flat else worst.tolist()):
                    z = metric("max_drawdown", V[j], None, A, own)
                    compare(ctx, y, NAN if z == 0 else z, f"{what}: max_drawdown of the records of {labels[j]!r}")
            elif op == "select" and not late:
                if not flat and r.random() < 0.6:
                    js = r.sample(range(len(labels)), r.randint(1, len(labels)))
                    if len(index) == 1 and len(js) == 1:
                        continue  # refused: a single cell doesn't tell what was selected
                    if len(js) == 1 and r.random() < 0.5:
                        acc, flat = acc.iloc[:, js[0]], True
                    else:
                        acc = acc.iloc[:, js]
                    V, B, labels = [V[j] for j in js], [B[j] for j in js], [labels[j] for j in js]
                else:
                    a = r.randrange(len(index))
                    b = r.randint(a + 1, len(index))
                    if b == a + 1 and (flat or len(labels) == 1):
                        continue
                    acc = acc.iloc[a:b]
                    V, B, index = [v[a:b] for v in V], [v[a:b] for v in B], index[a:b]
                ctx.check(list(acc.obj.index) == index and (flat or list(acc.obj.columns) == labels), "wrong-shape", lambda: f"{what}: {acc.obj}")
            elif op == "value":
                # the returns of a value process that may be zero, negative or missing
                val = [[r.choice([0.0, 1.0, 2.0, 5.0, -2.0, -0.5, 0.25, 100.0, NAN]) for _ in labels] for _ in index]
                init = [r.choice([NAN, 1.0, 100.0, 0.0]) for _ in labels]
                df = pd.DataFrame(val, index=pd.Index(index), columns=labels)
                out = cells(type(acc.obj.to_frame() if flat else acc.obj)(df).vbt.returns.from_value(df, init_value=np.array(init)).obj)
                for j in range(len(labels)):
                    last = init[j]
                    for i in range(len(index)):
                        x = val[i][j]
                        y = (0.0 if x == 0 else NAN if nan(x) else math.copysign(math.inf, x)) if last == 0 else (x - last) / abs(last)
                        compare(ctx, out[i, j], y, f"{what} from_value of {[z[j] for z in val]} starting from {init[j]} bar {i}")
                        last = x
        ctx.check(obj.equals(kept[0]) and bench.equals(kept[1]), "feed-changed", "the returns or the benchmark were changed")


# ------------------------------------------------------------------ deflated Sharpe ratio
def gen_deflated(rng):
    n, k = rng.pick(5, 9, 20), rng.pick(2, 3, 5)
    vals, kinds = gen_stream(rng, n, k)
    return dict(vals=vals, kinds=kinds, var=rng.pick(None, 0.5, 4.0), trials=rng.pick(None, 2, 10, 100), rf=rng.pick(None, 0.001, -0.01))


def shrink_deflated(case):
    for i in range(len(case["vals"])):
        if len(case["vals"]) > 3:
            yield dict(case, vals=case["vals"][:i] + case["vals"][i + 1:])
    for q in ("var", "trials", "rf"):
        if case[q] is not None:
            yield dict(case, **{q: None})


def run_deflated(case, ctx):
    from statistics import NormalDist
    N = NormalDist()
    n, k = len(case["vals"]), len(case["vals"][0])
    df = pd.DataFrame(np.array([[NAN if x is None else x for x in r] for r in case["vals"]], dtype=float), index=objs.axis("days", n), columns=[f"c{i}" for i in range(k)])
    for kind in case["kinds"]:
        if kind != "none":
            ctx.fault("stream-" + kind)
    args = {q: v for q, v in dict(var_sharpe=case["var"], nb_trials=case["trials"], risk_free=case["rf"]).items() if v is not None}
    o = {**DEFAULTS, **args}
    A = 365.0
    cols = [df.iloc[:, j].tolist() for j in range(k)]
    sr = [metric("sharpe_ratio", v, None, A, o) for v in cols]
    ctx.tick(n)
    ctx.ev(sorted(args))
    ctx.state(n, k, case["var"], case["trials"], case["rf"])
    if any(x == FREE for x in sr):
        return
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        out = df.vbt.returns(freq="1D").deflated_sharpe_ratio(**args)
        var = case["var"] if case["var"] is not None else NAN if any(nan(x) for x in sr) else std(sr, o["ddof"]) ** 2
        trials = case["trials"] or k
        bar = math.sqrt(var / A) * ((1 - np.euler_gamma) * N.inv_cdf(1 - 1 / trials) + np.euler_gamma * N.inv_cdf(1 - 1 / (trials * math.e))) if not nan(var) else NAN
        for j, v in enumerate(cols):
            est = sr[j] / math.sqrt(A)
            x = [0.0 if nan(y) else y for y in v]
            m = mean(x)
            m2, m3, m4 = [mean([(y - m) ** q for y in x]) for q in (2, 3, 4)]
            if nan(est) or nan(bar):
                ctx.check(nan(out.iloc[j]), "wrong-value", lambda: f"deflated_sharpe_ratio({args}) of column {j}: {out.iloc[j]}, expected nothing")
                continue
            if m2 < 1e-14:
                continue
            skew, kurt = m3 / m2 ** 1.5, m4 / m2 ** 2

            def dsr(kurt):
                d = 1 - skew * est + (kurt - 1) / 4 * est ** 2
                return FREE if abs(d) < 1e-9 else NAN if d < 0 else N.cdf((est - bar) * math.sqrt(n - 1) / math.sqrt(d))
            good, other, got = dsr(kurt), dsr(kurt - 3), out.iloc[j]
            if FREE in (good, other) or near(got, good, 1e-6):
                continue
            # the formula takes the kurtosis of the normal distribution as 3
            ctx.check(not near(got, other, 1e-6), "excess-kurtosis", lambda: f"deflated_sharpe_ratio({args}) of column {j}: {got}, expected {good}: the excess kurtosis stands in for the kurtosis; {v}")
            ctx.fail("wrong-value", f"deflated_sharpe_ratio({args}) of column {j}: {got}, expected {good}; {v}")


SCENARIOS = [Scenario("returns", gen, run, 1500, 40000, shrink=shrink, real=REAL, stub=STUB),
             Scenario("deflated", gen_deflated, run_deflated, 150, 4000, shrink=shrink_deflated, real=REAL, stub=STUB)]
