"""C24: what is computed from a feed bar by bar: rolling, expanding and exponential statistics, fills, shifts, crossings,
reductions, drawdowns and the built-in indicators, against definitions that look at each bar's own window again.

"stream": a feed (late listings, gaps, stalls, spikes, delistings) and everything derived from it go through a history of
such calls; user functions are logged and some raise. "drawdowns": a machine walks the bars and writes the records.
"indicators": the built-in indicators over several parameters at once."""
import math
import warnings

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario

import vectorbt as vbt

NAN = float("nan")
REAL = ["generic.nb", "generic.accessors", "generic.dispatch", "generic.drawdowns", "indicators.basic", "indicators.nb", "indicators.factory", "base.column_grouper"]
STUB = ["market feed (late listings, gaps, stalls, spikes, delistings)", "user functions (logged, raising)"]


class Boom(Exception):
    pass


def nan(x):
    return x != x


def ok(v):
    return [x for x in v if x == x]


# ------------------------------------------------------------------ feeds
def gen_feed(rng, n=None, k=None, flat=0.15):
    n, k = n or rng.pick(1, 2, 4, 8, 12, 20, 30), k or rng.pick(1, 1, 2, 3, 4)
    cols, kinds = [], []
    for _ in range(k):
        step = 0.0 if rng.random() < flat else rng.pick(0.1, 1.0, 3.0)
        x, v = rng.pick(1.0, 10.0, 50.0, 1000.0), []
        for i in range(n):
            v.append(round(x, 2))
            x = max(0.5, x + (rng.pick(-1, 0, 1) * step if rng.random() < 0.4 else rng.uniform(-step, step)))
        kind = rng.pick("none", "none", "late", "gap", "gaps", "gaps", "dead", "stall", "spike", "empty", "zero", "first")
        i, j = sorted([rng.randint(0, n), rng.randint(0, n)])
        if kind == "late":
            v[:i] = [None] * i
        elif kind == "gap":
            v[i:j] = [None] * (j - i)
        elif kind == "gaps":
            v = [None if rng.random() < 0.35 else x for x in v]
        elif kind == "dead":
            v[i:] = [None] * (n - i)
        elif kind == "stall" and i < n:
            v[i:j] = [v[i]] * (j - i)
        elif kind == "spike" and i < n:
            v[i] = v[i] * rng.pick(1e3, 1e5, -1.0)
        elif kind == "empty" and k > 1:
            v = [None] * n
        elif kind == "zero" and i < n:
            v[i] = 0.0
        elif kind == "first":
            v[1:j] = [None] * len(v[1:j])
        cols.append(v)
        kinds.append(kind)
    return dict(vals=[list(r) for r in zip(*cols)], kinds=kinds, index=rng.pick("days", "range", "days", "str"), one=k == 1 and rng.random() < 0.5)


def feed(f):
    a = np.array([[NAN if x is None else x for x in r] for r in f["vals"]], dtype=float)
    index = objs.axis(f["index"], len(a))
    df = pd.DataFrame(a, index=index, columns=[f"c{i}" for i in range(a.shape[1])])
    return df.iloc[:, 0] if f["one"] else df


class Feed:
    def __init__(self, obj, seen=None):
        self.obj = obj
        a = obj.to_numpy().astype(float)
        self.a = (a[:, None] if a.ndim == 1 else a).copy()
        self.cols = [self.a[:, j].tolist() for j in range(self.a.shape[1])]
        self.index = list(obj.index)
        self.labels = [obj.name] if obj.ndim == 1 else list(obj.columns)
        big = max([abs(x) for x in self.a.ravel() if x == x], default=1.0)
        self.big = max(big, 1e-300)

    def unchanged(self):
        a = self.obj.to_numpy().astype(float)
        return np.array_equal(a[:, None] if a.ndim == 1 else a, self.a, equal_nan=True)


def cells(out):
    a = np.asarray(out.to_numpy(), dtype=object)
    return a[:, None] if a.ndim == 1 else a


def near(x, y, tol):
    if y == "nothing":  # the spread of one value: nothing, or nothing up to rounding
        return nan(x) or x == 0
    if y == "free":
        return True
    if x is None or y is None or nan(x) or nan(y):
        return (x is None or nan(x)) and (y is None or nan(y))
    return x == y or abs(x - y) <= tol + 1e-9 * max(abs(x), abs(y))


def check(ctx, f, out, want, what, tol=0.0, index=None, labels=None, one=False):
    """want: a list per column."""
    index = f.index if index is None else index
    labels = f.labels if labels is None else labels
    ctx.check(isinstance(out, pd.Series if f.obj.ndim == 1 or one else pd.DataFrame) and list(out.index) == index and ([out.name] if out.ndim == 1 else list(out.columns)) == labels, "wrong-shape",
              lambda: f"{what}: {type(out).__name__} with index {list(out.index)} and columns {[out.name] if out.ndim == 1 else list(out.columns)}, expected {index}, {labels}")
    got = cells(out)
    for c, w in enumerate(want):
        for i, y in enumerate(w):
            x = got[i, c]
            ctx.check(near(x, y, tol[c][i] if isinstance(tol, list) else tol), "wrong-value", lambda: f"{what}: column {labels[c]!r} bar {i}: {x}, expected {y}; feed {f.cols[c] if c < len(f.cols) else None}")


def reduced(ctx, f, out, want, what, labels=None, tol=0.0):
    labels = f.labels if labels is None else labels
    if isinstance(out, pd.Series):
        ctx.check(list(out.index) == labels, "wrong-shape", lambda: f"{what}: labels {list(out.index)}, expected {labels}")
        got = out.tolist()
    else:
        got = [out]
    ctx.check(len(got) == len(want), "wrong-shape", lambda: f"{what}: {got}, expected {want}")
    for x, y, l in zip(got, want, labels):
        if isinstance(y, (int, float)) or y is None:
            good = (x is None or nan(x) or x is pd.NaT) if y is None else near(x, y, tol)
        else:
            good = x == y
        ctx.check(good, "wrong-value", lambda: f"{what}: {l!r}: {x}, expected {y}; feed {f.cols}")


# ------------------------------------------------------------------ definitions
def mean(v):
    return math.fsum(v) / len(v) if v else NAN


def std(v, ddof):
    if len(v) <= ddof:
        return NAN
    m = mean(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - ddof))


def stat(name, v, ddof=1):
    v = ok(v)
    if name == "std":
        return std(v, ddof)
    if not v:
        return NAN
    return dict(min=min, max=max, mean=mean)[name](v)


def windows(v, w):
    return [v[max(0, i + 1 - w):i + 1] for i in range(len(v))]


def rolling(name, v, w, minp, ddof=1):
    return [stat(name, x, ddof) if len(ok(x)) >= minp else NAN for x in windows(v, w)]


def tolerance(f, name):
    """Running sums carry the rounding errors of everything they have seen."""
    out = []
    for c in f.cols:
        seen, t = 0.0, []
        for x in c:
            seen = max(seen, 0.0 if nan(x) else abs(x))
            t.append(1e-12 * seen * len(c) if name == "mean" else 2e-6 * seen if name == "std" else 0.0)
        out.append(t)
    return out


def ewm(name, v, span, minp, adjust, ddof=1):
    """Exponential weights count bars, missing ones as well; the deviation is the unbiased one (pandas' default), whatever ddof."""
    alpha = 2.0 / (span + 1)
    out = []
    for i in range(len(v)):
        first = next((j for j in range(i + 1) if v[j] == v[j]), None)
        if first is None or len(ok(v[:i + 1])) < max(minp, 1):
            out.append(NAN)
            continue
        if adjust:
            seen = max(j for j in range(i + 1) if v[j] == v[j])
            ws = [(1 - alpha) ** max(0, seen - j) for j in range(i + 1)]
            pts = [(ws[j], v[j]) for j in range(i + 1) if v[j] == v[j]]
        else:
            pts = []
            last = None
            for j in range(first, i + 1):
                if last is None:
                    if v[j] == v[j]:
                        pts, last = [(1.0, v[j])], j
                    continue
                if v[j] == v[j]:
                    # the old weights have shrunk with every bar since the last value
                    keep = (1 - alpha) ** (j - last)
                    tot = keep + alpha
                    pts = [(wt * keep / tot, x) for wt, x in pts] + [(alpha / tot, v[j])]
                    last = j
        s = math.fsum(wt for wt, _ in pts)
        m = math.fsum(wt * x for wt, x in pts) / s
        if name == "mean":
            out.append(m)
            continue
        var = math.fsum(wt * (x - m) ** 2 for wt, x in pts) / s
        if ddof:
            s2 = math.fsum((wt / s) ** 2 for wt, _ in pts)
            if 1 - s2 <= 1e-14 or len(pts) < 2:
                out.append("nothing")
                continue
            if 1 - s2 < 1e-6:
                out.append("free")  # all weight on one value: what's left is rounding
                continue
            var /= 1 - s2
        out.append(math.sqrt(max(var, 0.0)))
    return out


def groups_of(gb, k):
    """(labels, buckets of column numbers)"""
    labels = list(dict.fromkeys(gb))
    return labels, [[j for j in range(k) if gb[j] == g] for g in labels]


# ------------------------------------------------------------------ stream
STREAM = ["roll", "roll", "roll", "expand", "expand", "ewm", "ewm", "fill", "shift", "cum", "rapply", "rapply", "gapply", "gapply", "map", "reduce", "reduce", "stats", "stats", "idx", "counts", "dd", "cross", "mapped", "flat", "squeeze", "along"]


def gen_stream(rng):
    f = gen_feed(rng)
    return dict(feed=f, ops=[[rng.pick(*STREAM), rng.randint(0, 5), rng.randint(0, 10**6)] for _ in range(rng.randint(3, 12))])


def shrink_stream(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    f = case["feed"]
    for i in range(len(f["vals"])):
        if len(f["vals"]) > 1:
            yield dict(case, feed=dict(f, vals=f["vals"][:i] + f["vals"][i + 1:]))
    if len(f["vals"][0]) > 1:
        for j in range(len(f["vals"][0])):
            yield dict(case, feed=dict(f, vals=[r[:j] + r[j + 1:] for r in f["vals"]]))


def gb_of(r, k):
    """A grouping of k columns: groups next to each other."""
    how = r.choice(["one", "each", "two", "two"])
    if how == "one":
        return ["g"] * k
    if how == "each":
        return [f"g{j}" for j in range(k)]
    cut = r.randint(0, k)
    return ["a"] * cut + ["b"] * (k - cut)


class Script:
    """A logged user function that may raise at a call."""

    def __init__(self, boom):
        self.calls, self.boom = [], boom

    def hit(self, *key):
        self.calls.append(key)
        if self.boom is not None and len(self.calls) == self.boom:
            raise Boom()


def value(v):
    """What the user functions return: depends on every element and its place."""
    return float(sum((i + 1) * x for i, x in enumerate(v) if x == x)) + 0.5 * len(v)


def t(v):
    return tuple(None if nan(x) else float(x) for x in v)


def scripted(ctx, r, what, n_calls, call):
    """Run call(script); raising is passed through and nothing else happens."""
    s = Script(r.randint(1, max(1, n_calls)) if r.random() < 0.12 and n_calls else None)
    try:
        out = call(s)
    except Boom:
        ctx.fault("function-raises")
        ctx.check(s.boom is not None and len(s.calls) == s.boom, "wrong-calls", f"{what}: called on after it raised")
        return None, s
    ctx.check(s.boom is None or len(s.calls) < s.boom, "failure-lost", f"{what}: the function raised, the call did not")
    return out, s


def run_stream(case, ctx):
    import random
    ctx.k = len(case["feed"]["vals"][0])
    pool = [Feed(feed(case["feed"]))]
    for kind in case["feed"]["kinds"]:
        if kind != "none":
            ctx.fault("feed-" + kind)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for step, (op, which, seed) in enumerate(case["ops"]):
            r = random.Random(seed)
            f = pool[which % len(pool)]
            what = f"step {step} {op} on feed {which % len(pool)}"
            out = OPS[op](ctx, f, r, what)
            ctx.tick(1)
            ctx.ev(step, op, out is not None)
            ctx.state(op, len(f.index) > 8, len(f.cols), f.obj.ndim, bool(np.isnan(f.a).any()))
            ctx.check(all(x.unchanged() for x in pool), "feed-changed", f"{what}: a feed was changed")
            if out is not None and len(pool) < 6 and np.isfinite(out.to_numpy(dtype=float)).any() and not np.isinf(out.to_numpy(dtype=float)).any():
                new = Feed(out)
                if new.big < 1e12:
                    pool.append(new)


def refused(ctx, call, what):
    try:
        out = call()
    except ValueError:
        ctx.fault("refused")
        return
    ctx.fail("accepted", f"{what}: accepted, gives {out}")


def s_roll(ctx, f, r, what):
    name = r.choice(["min", "max", "mean", "std"])
    n = len(f.index)
    w = r.choice([1, 2, 3, 5, 8, n, n + 2])
    minp = r.choice([None, None, 0, 1, 2, w, w + 1])
    ddof = r.choice([0, 1, 1]) if name == "std" else 1
    kw = dict(ddof=ddof) if name == "std" else {}
    what += f" rolling_{name}({w}, minp={minp}, {kw})"
    call = lambda: getattr(f.obj.vbt, "rolling_" + name)(w, minp=minp, **kw)
    m = w if minp is None else minp
    if m > w:
        return refused(ctx, call, what)
    out = call()
    check(ctx, f, out, [rolling(name, c, w, m, ddof) for c in f.cols], what, tolerance(f, name))
    return out


def s_expand(ctx, f, r, what):
    name = r.choice(["min", "max", "mean", "std"])
    minp = r.choice([0, 1, 1, 2, 3, 5, 40])
    ddof = r.choice([0, 1, 1]) if name == "std" else 1
    kw = dict(ddof=ddof) if name == "std" else {}
    out = getattr(f.obj.vbt, "expanding_" + name)(minp=minp, **kw)
    check(ctx, f, out, [rolling(name, c, len(c), minp, ddof) for c in f.cols], what + f" expanding_{name}(minp={minp}, {kw})", tolerance(f, name))
    return out


def s_ewm(ctx, f, r, what):
    name, span = r.choice(["mean", "std"]), r.choice([1, 2, 3, 5, 10])
    minp = r.choice([0, 1, 2, span, span + 1])
    adjust, ddof = r.random() < 0.5, r.choice([0, 1, 1]) if name == "std" else 1
    kw = dict(ddof=ddof) if name == "std" else {}
    holes = any(nan(x) for c in f.cols for x in c[next((i for i, y in enumerate(c) if not nan(y)), 0):])
    # weights across a gap without adjustment are pandas' own affair (they changed in version 3), hence only the own engine's
    if r.random() < 0.5 or minp > span or (holes and not adjust):
        kw["wrap_kwargs"] = {}  # by the own engine, whatever pandas can do
    what += f" ewm_{name}({span}, minp={minp}, adjust={adjust}, {kw})"
    call = lambda: getattr(f.obj.vbt, "ewm_" + name)(span, minp=minp, adjust=adjust, **kw)
    m = minp
    if m > span:
        return refused(ctx, call, what)
    out = call()
    tol = [[1e-10 * f.big] * len(c) for c in f.cols] if name == "mean" else [[3e-7 * f.big] * len(c) for c in f.cols]
    check(ctx, f, out, [ewm(name, c, span, m, adjust) for c in f.cols], what, tol)
    return out


def s_fill(ctx, f, r, what):
    how = r.choice(["ffill", "bfill", "fillna", "rebase"])
    if how == "fillna":
        x = r.choice([0.0, -1.0, 7.0])
        out, want = f.obj.vbt.fillna(x), [[x if nan(y) else y for y in c] for c in f.cols]
    else:
        want = []
        for c in f.cols:
            c = list(c)
            for back in ([False] if how == "ffill" else [True] if how == "bfill" else [False, True]):
                order = range(len(c) - 1, -1, -1) if back else range(len(c))
                last = NAN
                for i in order:
                    if nan(c[i]):
                        c[i] = last
                    last = c[i]
            want.append(c)
        if how == "rebase":
            base = r.choice([1.0, 100.0])
            if any(c[0] == 0 for c in want):
                return None
            want = [[x / c[0] * base for x in c] for c in want]
            out = f.obj.vbt.rebase(base)
        else:
            out = getattr(f.obj.vbt, how)()
    check(ctx, f, out, want, what + " " + how)
    return out


def s_shift(ctx, f, r, what):
    how, n = r.choice(["fshift", "bshift", "diff", "pct_change"]), r.choice([1, 1, 2, 3, len(f.index), len(f.index) + 1])
    fill = r.choice([NAN, 0.0, -3.0])
    want = []
    for c in f.cols:
        at = lambda i: c[i] if 0 <= i < len(c) else None
        if how == "fshift":
            w = [fill if i - n < 0 else c[i - n] for i in range(len(c))]
        elif how == "bshift":
            w = [fill if i + n >= len(c) else c[i + n] for i in range(len(c))]
        elif how == "diff":
            w = [NAN if i - n < 0 else c[i] - c[i - n] for i in range(len(c))]
        else:
            w = [NAN if i - n < 0 else float(np.float64(c[i]) / np.float64(c[i - n])) - 1 for i in range(len(c))]
        want.append(w)
    out = getattr(f.obj.vbt, how)(n, **(dict(fill_value=fill) if how in ("fshift", "bshift") else {}))
    check(ctx, f, out, want, what + f" {how}({n})")
    return out


def s_cum(ctx, f, r, what):
    how = r.choice(["cumsum", "cumprod", "product"])
    want = []
    for c in f.cols:
        acc, w = 0.0 if how == "cumsum" else 1.0, []
        for x in c:
            if not nan(x):
                acc = acc + x if how == "cumsum" else acc * x
            w.append(acc)
        want.append(w)
    if max(abs(x) for c in want for x in c) > 1e200:
        return None
    if how == "product":
        reduced(ctx, f, f.obj.vbt.product(), [w[-1] for w in want], what + " product")
        return None
    out = getattr(f.obj.vbt, how)()
    check(ctx, f, out, want, what + " " + how, tolerance(f, "mean"))
    return out if how == "cumsum" else None


def s_rapply(ctx, f, r, what):
    n, k = f.a.shape
    expand, matrix = r.random() < 0.4, r.random() < 0.35
    if matrix and np.isnan(f.a).any():
        matrix = False  # how missing values of several columns count together isn't stated
    w = n if expand else r.choice([1, 2, 3, 5, n, n + 1])
    minp = r.choice([None, 0, 1, 2, w]) if not expand else r.choice([1, 0, 2, None])
    m = w if minp is None else minp
    what += f" {'expanding' if expand else f'rolling({w})'}_apply(minp={minp}, on_matrix={matrix})"
    if matrix:
        due = [(i, t(f.a[max(0, i + 1 - w):i + 1].ravel())) for i in range(n) if min(i + 1, w) >= m]
    else:
        due = [(i, j, t(x)) for j, c in enumerate(f.cols) for i, x in enumerate(windows(c, w)) if len(ok(x)) >= m]

    def call(s):
        def one(i, col, a):
            s.hit(int(i), int(col), t(a))
            return value(a)

        def many(i, a):
            s.hit(int(i), t(a.ravel()))
            return np.array([value(a[:, j]) + j for j in range(a.shape[1])])
        fn = many if matrix else one
        return f.obj.vbt.expanding_apply(fn, minp=minp, on_matrix=matrix) if expand else f.obj.vbt.rolling_apply(w, fn, minp=minp, on_matrix=matrix)
    out, s = scripted(ctx, r, what, len(due), call)
    ctx.check(s.calls == due[:len(s.calls)] and (out is None or len(s.calls) == len(due)), "wrong-calls", lambda: f"{what}: called with {s.calls}, expected {due}")
    if out is None:
        return None
    cnt = lambda x: len(x) if matrix else len(ok(x))
    check(ctx, f, out, [[value(x) + (j if matrix else 0) if cnt(x) >= m else NAN for x in windows(c, w)] for j, c in enumerate(f.cols)], what)
    return out


def s_gapply(ctx, f, r, what):
    n, k = f.a.shape
    matrix = r.random() < 0.4
    days = isinstance(f.obj.index, pd.DatetimeIndex)
    holes = []
    if days and r.random() < 0.6:
        # bars fall into bins by their time; bins without bars stay empty
        size = r.choice([1, 2, 3, 4])
        keep = sorted(r.sample(range(n), r.randint(1, n)))
        obj = f.obj.iloc[keep]
        start = obj.index[0].normalize()
        bin_of = [(x - start).days // size for x in obj.index]
        bins = list(range(bin_of[-1] + 1))
        keys = [start + pd.Timedelta(days=size * b) for b in bins]
        call0 = lambda fn: obj.vbt.resample_apply(f"{size}D", fn, on_matrix=matrix)
        what += f" resample_apply({size}D, bars {keep}, on_matrix={matrix})"
        holes = [b for b in bins if b not in bin_of]
    else:
        keep = list(range(n))
        by = [r.choice(["u", "v", "w"]) for _ in range(n)]
        keys = sorted(set(by))
        bins = list(range(len(keys)))
        bin_of = [keys.index(x) for x in by]
        obj = f.obj
        call0 = lambda fn: obj.vbt.groupby_apply(np.array(by), fn, on_matrix=matrix)
        what += f" groupby_apply({by}, on_matrix={matrix})"
    a = f.a[keep]
    rows = {b: [i for i, x in enumerate(bin_of) if x == b] for b in bins}
    full = [b for b in bins if b not in holes]
    due = [(tuple(rows[b]), t(a[rows[b]].ravel())) for b in full] if matrix else [(tuple(rows[b]), j, t(a[rows[b], j])) for j in range(k) for b in full]

    def call(s):
        def one(idxs, col, x):
            s.hit(tuple(int(i) for i in idxs), int(col), t(x))
            return value(x)

        def many(idxs, x):
            s.hit(tuple(int(i) for i in idxs), t(x.ravel()))
            return np.array([value(x[:, j]) + j for j in range(x.shape[1])])
        return call0(many if matrix else one)
    out, s = scripted(ctx, r, what, len(due), call)
    if out is None:
        return None
    key = lambda c: tuple(str(x) for x in c)
    ctx.check(sorted(s.calls, key=key) == sorted(due, key=key), "wrong-calls", lambda: f"{what}: called with {s.calls}, expected {due}")
    check(ctx, f, out, [[NAN if b in holes else value(a[rows[b], j]) + (j if matrix else 0) for b in bins] for j in range(k)], what, index=keys)
    if holes:
        ctx.probe("empty-bins")
    return None


def s_map(ctx, f, r, what):
    how = r.choice(["applymap", "filter", "areduce"])
    n, k = f.a.shape
    pts = [(i, j, c[i]) for j, c in enumerate(f.cols) for i in range(n) if not nan(c[i])]

    def call(s):
        def m(i, col, x):
            s.hit(int(i), int(col), float(x))
            return x * 2 + i

        def keep(i, col, x):
            s.hit(int(i), int(col), float(x))
            return (i + col) % 2 == 0

        def ap(col, a):
            s.hit(int(col), t(a))
            return a[~np.isnan(a)] * 3

        def red(col, a):
            return value(a) + col
        if how == "areduce":
            return f.obj.vbt.apply_and_reduce(ap, red)
        return f.obj.vbt.applymap(m) if how == "applymap" else f.obj.vbt.filter(keep)
    due = [(j, t(c)) for j, c in enumerate(f.cols)] if how == "areduce" else pts
    out, s = scripted(ctx, r, what + " " + how, len(due), call)
    ctx.check(s.calls == due[:len(s.calls)] and (out is None or len(s.calls) == len(due)), "wrong-calls", lambda: f"{what} {how}: called with {s.calls}, expected {due}")
    if out is None:
        return None
    if how == "areduce":
        reduced(ctx, f, out, [value([3 * x for x in ok(c)]) + j for j, c in enumerate(f.cols)], what + " apply_and_reduce")
        return None
    want = [[NAN if nan(x) else x * 2 + i if how == "applymap" else x if (i + j) % 2 == 0 else NAN for i, x in enumerate(c)] for j, c in enumerate(f.cols)]
    check(ctx, f, out, want, what + " " + how)
    return out


def s_along(ctx, f, r, what):
    axis = r.choice([0, 1])

    def call(s):
        def fn(i, a):
            s.hit(int(i), t(a))
            return a * 2 + i
        return f.obj.vbt.apply_along_axis(fn, axis=axis)
    due = [(j, t(c)) for j, c in enumerate(f.cols)] if axis == 0 else [(i, t(x)) for i, x in enumerate(f.a)]
    out, s = scripted(ctx, r, what, len(due), call)
    ctx.check(s.calls == due[:len(s.calls)] and (out is None or len(s.calls) == len(due)), "wrong-calls", lambda: f"{what} {axis}: called with {s.calls}, expected {due}")
    if out is None:
        return None
    check(ctx, f, out, [[x * 2 + (j if axis == 0 else i) for i, x in enumerate(c)] for j, c in enumerate(f.cols)], f"{what} axis {axis}")
    return None


def flatten(f, js, order):
    n = len(f.index)
    return [f.cols[j][i] for i in range(n) for j in js] if order == "C" else [f.cols[j][i] for j in js for i in range(n)]


def s_reduce(ctx, f, r, what):
    n, k = f.a.shape
    gb = gb_of(r, k) if f.obj.ndim == 2 and r.random() < 0.6 else None
    arr, flat, order = r.random() < 0.4, r.random() < 0.5, r.choice(["C", "F"])
    idx = r.random() < 0.3 and (gb is None or flat)
    raw = r.random() < 0.5
    labels, buckets = (f.labels, [[j] for j in range(k)]) if gb is None else groups_of(gb, k)
    what += f" reduce(array={arr}, flatten={flat}, order={order}, idx={idx}, raw={raw}, group_by={gb})"
    cat = [flatten(f, js, order if flat and gb is not None else "C") for js in buckets]
    due = [(g, t(v)) for g, v in enumerate(cat)]

    def call(s):
        def fn(col, a):
            s.hit(int(col), t(a.ravel()))
            v = a.ravel()
            if idx:
                return np.array([0, len(v) - 1]) if arr else len(v) // 2
            return np.array([value(v), float(col)]) if arr else value(v)
        return f.obj.vbt.reduce(fn, returns_array=arr, returns_idx=idx, flatten=flat, order=order, to_index=not raw, group_by=gb)
    out, s = scripted(ctx, r, what, len(due), call)
    ctx.check(s.calls == due[:len(s.calls)] and (out is None or len(s.calls) == len(due)), "wrong-calls", lambda: f"{what}: called with {s.calls}, expected {due}")
    if out is None:
        return None

    def place(g, p):
        i = p if gb is None else p // len(buckets[g]) if order == "C" else p % n
        return i if raw else f.index[i]
    if arr:
        want = [[place(g, 0), place(g, len(v) - 1)] if idx else [value(v), float(g)] for g, v in enumerate(cat)]
        got = cells(out)
        ctx.check(got.shape == (2, len(want)) and (out.ndim == 1 or list(out.columns) == labels), "wrong-shape", lambda: f"{what}: {out}")
        for g, w in enumerate(want):
            for i, y in enumerate(w):
                ctx.check(near(got[i, g], y, 0) if isinstance(y, (int, float)) else got[i, g] == y, "wrong-value", lambda: f"{what}: {out}, expected {want}")
    else:
        reduced(ctx, f, out, [place(g, len(v) // 2) if idx else value(v) for g, v in enumerate(cat)], what, labels)
    return None


def quantile(v, q):
    v = sorted(v)
    p = (len(v) - 1) * q
    a = int(math.floor(p))
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (p - a)


def s_stats(ctx, f, r, what):
    n, k = f.a.shape
    gb = gb_of(r, k) if f.obj.ndim == 2 and r.random() < 0.6 else None
    labels, buckets = (f.labels, [[j] for j in range(k)]) if gb is None else groups_of(gb, k)
    cat = [ok(flatten(f, js, "C")) for js in buckets]
    name = r.choice(["min", "max", "mean", "median", "std", "sum", "count", "describe"])
    ddof = r.choice([0, 1])
    kw = dict(ddof=ddof) if name in ("std", "describe") else {}
    what += f" {name}({kw}, group_by={gb})"
    fn = dict(min=lambda v: min(v, default=NAN), max=lambda v: max(v, default=NAN), mean=mean, median=lambda v: quantile(v, 0.5) if v else NAN, std=lambda v: std(v, ddof), sum=math.fsum, count=len)
    tol = 1e-12 * f.big * n
    if name == "describe":
        out = f.obj.vbt.describe(group_by=gb, ddof=ddof)
        rows = ["count", "mean", "std", "min", "25%", "50%", "75%", "max"]
        ctx.check(list(out.index) == rows and (out.ndim == 1 or list(out.columns) == labels), "wrong-shape", lambda: f"{what}: {out}")
        got = cells(out)
        for g, v in enumerate(cat):
            want = [float(len(v)), mean(v), std(v, ddof), *([min(v), *[quantile(v, q) for q in (0.25, 0.5, 0.75)], max(v)] if v else [NAN] * 5)]
            for i, y in enumerate(want):
                ctx.check(near(got[i, g], y, tol), "wrong-value", lambda: f"{what}: {rows[i]} of {labels[g]!r} is {got[i, g]}, expected {y}; {v}")
        return None
    out = getattr(f.obj.vbt, name)(group_by=gb, **kw)
    reduced(ctx, f, out, [fn[name](v) for v in cat], what, labels, tol)
    return None


def s_idx(ctx, f, r, what):
    n, k = f.a.shape
    gb = gb_of(r, k) if f.obj.ndim == 2 and r.random() < 0.5 else None
    labels, buckets = (f.labels, [[j] for j in range(k)]) if gb is None else groups_of(gb, k)
    name, order = r.choice(["idxmin", "idxmax"]), r.choice(["C", "F"])
    want = []
    for js in buckets:
        pts = [(i, j) for i in range(n) for j in js] if order == "C" else [(i, j) for j in js for i in range(n)]
        pts = [p for p in pts if not nan(f.cols[p[1]][p[0]])]
        if not pts:
            want.append(None)
            continue
        best = (min if name == "idxmin" else max)(f.cols[j][i] for i, j in pts)
        want.append(f.index[next(i for i, j in pts if f.cols[j][i] == best)])
    if gb is not None and None in want:
        return None  # refused: a group without any value has no place to name
    out = getattr(f.obj.vbt, name)(group_by=gb, order=order)
    reduced(ctx, f, out, want, what + f" {name}(group_by={gb}, order={order})", labels)
    return None


def s_counts(ctx, f, r, what):
    n, k = f.a.shape
    obj = (f.obj % r.choice([2.0, 3.0, 5.0])).round(0).abs()
    cols = Feed(obj).cols
    gb = gb_of(r, k) if obj.ndim == 2 and r.random() < 0.5 else None
    labels, buckets = (f.labels, [[j] for j in range(k)]) if gb is None else groups_of(gb, k)
    flags = {q: r.random() < 0.5 for q in ("normalize", "sort_uniques", "sort", "ascending", "dropna")}
    kw = {}
    keys = []
    for i in range(n):  # in the order of appearance, row by row
        for c in cols:
            x = "nan" if nan(c[i]) else c[i]
            if x not in keys:
                keys.append(x)
    if r.random() < 0.4:
        kw = dict(mapping={float(x): f"v{x}" for x in range(6)}, incl_all_keys=r.random() < 0.5)
        if kw["incl_all_keys"]:
            keys += [float(x) for x in range(6) if float(x) not in keys]
    if flags["dropna"]:
        keys = [x for x in keys if x != "nan"]
    if flags["sort_uniques"]:
        keys = sorted(x for x in keys if x != "nan") + [x for x in keys if x == "nan"]
    times = {x: [sum((nan(y) if x == "nan" else y == x) for j in b for y in cols[j]) for b in buckets] for x in keys}
    if flags["sort"]:
        keys = sorted(keys, key=lambda x: sum(times[x]) * (1 if flags["ascending"] else -1))
    total = sum(sum(v) for v in times.values())
    if flags["normalize"] and not total:
        return None
    out = obj.vbt.value_counts(group_by=gb, **flags, **kw)
    got = ["nan" if x is None or x != x else x for x in out.index]
    names = [x if not kw or x == "nan" else f"v{int(x)}" for x in keys]
    ctx.check(got == names, "wrong-labels", lambda: f"{what} value_counts(group_by={gb}, {flags}, {kw}): labels {got}, expected {names}; {cols}")
    ctx.check((list(out.columns) if out.ndim == 2 else [out.name]) == labels, "wrong-labels", lambda: f"{what} value_counts(group_by={gb}, {flags}): columns {out}, expected {labels}")
    a = cells(out)
    for i, x in enumerate(keys):
        w = [y / total if flags["normalize"] else y for y in times[x]]
        ctx.check(all(near(p, q, 1e-12) for p, q in zip(a[i].tolist(), w)), "wrong-value", lambda: f"{what} value_counts(group_by={gb}, {flags}): {x} has {a[i].tolist()}, expected {w}; {cols}")
    return None


def s_dd(ctx, f, r, what):
    want = []
    for c in f.cols:
        top, w = NAN, []
        for x in c:
            top = x if nan(top) else top if nan(x) else max(top, x)
            w.append(float(np.float64(x) / np.float64(top)) - 1)
        want.append(w)
    check(ctx, f, f.obj.vbt.drawdown(), want, what + " drawdown")
    return None


def s_cross(ctx, f, r, what):
    wait, above = r.choice([0, 0, 1, 2]), r.random() < 0.5
    lag = r.choice([0, 1, 2])
    other = f.obj.shift(lag) if lag else f.obj * 0 + (f.obj.iloc[0] if f.obj.ndim == 1 else f.obj.iloc[0].to_numpy())
    b = other.to_numpy()
    b = b[:, None] if b.ndim == 1 else b
    want = []
    for j, c in enumerate(f.cols):
        w, below, since = [], False, None
        for i, x in enumerate(c):
            y = b[i, j]
            d = (x - y) * (1 if above else -1)
            if nan(d):
                below, since = False, None
            elif d > 0:
                since = (0 if since is None else since + 1) if below else None
            else:
                since = None
                below = below or d < 0
            w.append(since == wait and not nan(d) and d > 0)
        want.append(w)
    out = f.obj.vbt.crossed_above(other, wait=wait) if above else f.obj.vbt.crossed_below(other, wait=wait)
    got = cells(out)
    for j in range(len(want)):
        ctx.check(got[:, j].tolist() == want[j], "wrong-value", lambda: f"{what} crossed {'above' if above else 'below'}(wait={wait}): {got[:, j].tolist()}, expected {want[j]}; {f.cols[j]} against {b[:, j].tolist()}")
    return None


def s_mapped(ctx, f, r, what):
    drop = r.random() < 0.6
    m = f.obj.vbt.to_mapped(dropna=drop)
    want = [(j, i, x) for j, c in enumerate(f.cols) for i, x in enumerate(c) if not (drop and nan(x))]
    got = list(zip(m.col_arr.tolist(), m.idx_arr.tolist(), m.values.tolist()))
    ctx.check(len(got) == len(want) and all(a[:2] == b[:2] and near(a[2], b[2], 0) for a, b in zip(got, want)), "wrong-value", lambda: f"{what}: {got}, expected {want}")
    if len(want):
        back = m.to_pd()
        check(ctx, f, back, f.cols, what + " to_mapped().to_pd()")
    return None


def s_flat(ctx, f, r, what):
    n, k = f.a.shape
    if f.obj.ndim == 1:
        return None
    gb, order = gb_of(r, k), r.choice(["C", "F"])
    labels, buckets = groups_of(gb, k)
    width = max(len(b) for b in buckets)
    pad = lambda b: b + [None] * (width - len(b))
    at = lambda i, j: NAN if j is None else f.cols[j][i]
    want = [[at(i, j) for i in range(n) for j in pad(b)] if order == "C" else [at(i, j) for j in pad(b) for i in range(n)] for b in buckets]
    out = f.obj.vbt.flatten_grouped(group_by=gb, order=order)
    index = [x for x in f.index for _ in range(width)] if order == "C" else f.index * width
    if isinstance(f.obj.index, pd.RangeIndex):
        index = list(range(n * width))
    check(ctx, f, out, want, what + f" flatten_grouped({gb}, {order})", index=index, labels=labels, one=len(labels) == 1)
    return None


def s_squeeze(ctx, f, r, what):
    n, k = f.a.shape
    if f.obj.ndim == 1:
        return None
    gb = gb_of(r, k)
    labels, buckets = groups_of(gb, k)
    due = [(i, g, t(f.a[i, b])) for g, b in enumerate(buckets) for i in range(n)]

    def call(s):
        def fn(i, group, a):
            s.hit(int(i), int(group), t(a))
            return value(a) + i
        return f.obj.vbt.squeeze_grouped(fn, group_by=gb)
    out, s = scripted(ctx, r, what, len(due), call)
    ctx.check(s.calls == due[:len(s.calls)] and (out is None or len(s.calls) == len(due)), "wrong-calls", lambda: f"{what}: called with {s.calls}, expected {due}")
    if out is None:
        return None
    check(ctx, f, out, [[value(f.a[i, b]) + i for i in range(n)] for b in buckets], what + f" squeeze_grouped({gb})", labels=labels, one=len(labels) == 1)
    return None


OPS = dict(roll=s_roll, expand=s_expand, ewm=s_ewm, fill=s_fill, shift=s_shift, cum=s_cum, rapply=s_rapply, gapply=s_gapply, map=s_map, along=s_along, reduce=s_reduce, stats=s_stats, idx=s_idx, counts=s_counts,
           dd=s_dd, cross=s_cross, mapped=s_mapped, flat=s_flat, squeeze=s_squeeze)


# ------------------------------------------------------------------ drawdowns and ranges
DD = ["fields", "fields", "derived", "derived", "reduce", "reduce", "active", "side", "mask", "mask", "coverage", "coverage", "stats", "columns"]


def gen_records(rng):
    f = gen_feed(rng, n=rng.pick(1, 3, 6, 10, 16, 24, 40), flat=0.05)
    kind = rng.pick("drawdowns", "drawdowns", "ranges")
    if kind == "drawdowns" or rng.random() < 0.5:
        # values that come back to where they were, exactly
        f["vals"] = [[None if x is None else float(round(x)) for x in r] for r in f["vals"]]
    what = rng.pick("nan", "bool", "int", "value") if kind == "ranges" else "nan"
    if kind == "ranges":
        p, k = rng.pick(0.1, 0.4, 0.8), len(f["vals"][0])
        f["vals"] = [[None if rng.random() < p else float(rng.randint(0, 3)) for _ in range(k)] for _ in f["vals"]]
    return dict(feed=f, kind=kind, what=what, ops=[[rng.pick(*DD), rng.randint(0, 10**6)] for _ in range(rng.randint(2, 8))])


def find_drawdowns(v):
    """Walk the bars: a peak is the last bar not below any bar before; below it a drawdown runs until a bar is back at the peak."""
    out, peak, run = [], None, None
    for i, x in enumerate(v):
        if nan(x):
            continue
        if peak is None or (run is None and x >= peak[1]):
            peak = (i, x)
        elif run is None:
            run = (i, x)
        elif x >= peak[1]:
            out.append(dict(peak_idx=peak[0], start_idx=peak[0] + 1, valley_idx=run[0], end_idx=i, peak_val=peak[1], valley_val=run[1], end_val=x, status=1))
            peak, run = (i, x), None
        elif x < run[1]:
            run = (i, x)
    if run is not None:
        out.append(dict(peak_idx=peak[0], start_idx=peak[0] + 1, valley_idx=run[0], end_idx=len(v) - 1, peak_val=peak[1], valley_val=run[1], end_val=ok(v)[-1], status=0))
    return out


def find_ranges(v, gap):
    out, start = [], None
    for i, x in enumerate(v):
        hole = nan(x) if nan(gap) else x == gap
        if not hole and start is None:
            start = i
        if hole and start is not None:
            out.append(dict(start_idx=start, end_idx=i, status=1))
            start = None
    if start is not None:
        out.append(dict(start_idx=start, end_idx=len(v) - 1, status=0))
    return out


def ratio(a, b):
    return float(np.float64(a) / np.float64(b))


DERIVED = {
    "drawdown": lambda d: ratio(d["valley_val"] - d["peak_val"], d["peak_val"]),
    "recovery_return": lambda d: ratio(d["end_val"] - d["valley_val"], d["valley_val"]),
    "decline_duration": lambda d: d["valley_idx"] - d["start_idx"] + 1,
    "recovery_duration": lambda d: d["end_idx"] - d["valley_idx"],
    "recovery_duration_ratio": lambda d: (d["end_idx"] - d["valley_idx"]) / (d["valley_idx"] - d["start_idx"] + 1),
    "duration": lambda d: d["end_idx"] - d["start_idx"] + (d["status"] == 0),
}


def bars(d):
    return range(d["start_idx"], d["end_idx"] + (d["status"] == 0))


def run_records(case, ctx):
    import random
    dd = case["kind"] == "drawdowns"
    obj = feed(case["feed"])
    for kind in case["feed"]["kinds"]:
        if kind != "none":
            ctx.fault("feed-" + kind)
    gap = NAN
    if case["what"] == "bool":
        obj = obj.notna()
        gap = False
    elif case["what"] == "int":
        obj = obj.fillna(-1).astype(int)
        gap = -1
    elif case["what"] == "value":
        gap = 1.0
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        f = Feed(obj)
        if dd:
            rec = vbt.Drawdowns.from_ts(obj) if len(case["ops"]) % 2 else obj.vbt.get_drawdowns()
        else:
            rec = vbt.Ranges.from_ts(obj, **(dict(gap_value=gap) if case["what"] == "value" else {}))
        want = [find_drawdowns(c) if dd else find_ranges(c, gap) for c in f.cols]
        n, k = f.a.shape
        labels = list(f.labels)
        fields = [*(["peak_idx"] if dd else []), "start_idx", *(["valley_idx"] if dd else []), "end_idx", *(["peak_val", "valley_val", "end_val"] if dd else []), "status"]
        for step, (op, seed) in enumerate(case["ops"]):
            r = random.Random(seed)
            side = r.choice([None, None, 0, 1])
            name = {None: None, 0: "active" if dd else "open", 1: "recovered" if dd else "closed"}[side]
            x = rec if name is None else getattr(rec, name)
            w = [[d for d in c if side is None or d["status"] == side] for c in want]
            all_w = [(j, d) for j, c in enumerate(w) for d in c]
            what = f"step {step} {op} {case['kind']} ({case['what']}) side {name}; {f.cols}"
            ctx.tick(1)
            ctx.ev(step, op, len(all_w))
            ctx.state(case["kind"], op, min(len(all_w), 4), side, k, bool(all_w) and all_w[-1][1]["status"])
            gb = gb_of(r, k) if r.random() < 0.5 and k > 1 else None
            glabels, buckets = (labels, [[j] for j in range(k)]) if gb is None else groups_of(gb, k)
            grouped = [[d for j in b for d in w[j]] for b in buckets]

            def per(got, exp, tag, tol=0.0, names=None, none=NAN):
                names = glabels if names is None else names
                if isinstance(got, pd.Series):
                    ctx.check(list(got.index) == names, "wrong-shape", lambda: f"{what} {tag}: labels {list(got.index)}, expected {names}")
                got = got.tolist() if isinstance(got, pd.Series) else [got]
                ctx.check(len(got) == len(exp) and all(near(a, b, tol) for a, b in zip(got, exp)), "wrong-value", lambda: f"{what} {tag}(group_by={gb}): {got}, expected {exp}")

            if op == "fields":
                a = x.records_arr if hasattr(x, "records_arr") else x.values
                got = [(int(z["col"]), *[z[q].item() for q in fields]) for z in a]
                exp = [(j, *[d[q] for q in fields]) for j, d in all_w]
                ctx.check(len(got) == len(exp) and all(all(near(p, q, 0) for p, q in zip(y, z)) for y, z in zip(got, exp)), "wrong-records", lambda: f"{what}: {fields} are {got}, expected {exp}")
            elif op == "derived":
                q = r.choice(list(DERIVED)) if dd else "duration"
                m = getattr(x, q)
                got, exp = list(zip(m.col_arr.tolist(), m.values.tolist())), [(j, float(DERIVED[q](d))) for j, d in all_w]
                ctx.check(len(got) == len(exp) and all(a[0] == b[0] and near(a[1], b[1], 0) for a, b in zip(got, exp)), "wrong-value", lambda: f"{what} {q}: {got}, expected {exp}")
            elif op == "reduce":
                q, how = r.choice(["drawdown", "recovery_return", "duration"]) if dd else "duration", r.choice(["avg", "max"])
                vals = [[float(DERIVED[q](d)) for d in g] for g in grouped]
                worst = min if q == "drawdown" else max
                exp = [NAN if not v else mean(v) if how == "avg" else worst(v) for v in vals]
                if not all(abs(y) < 1e300 for v in vals for y in v):
                    continue
                kw = dict(wrap_kwargs=dict(to_timedelta=False)) if q == "duration" else {}
                per(getattr(x, f"{how}_{q}")(group_by=gb, **kw), exp, f"{how}_{q}", 1e-12 * max([1.0, *[abs(y) for v in vals for y in v]]))
            elif op == "active" and dd:
                q = r.choice(["active_drawdown", "active_duration", "active_recovery", "active_recovery_return", "active_recovery_duration"])
                kw = dict(wrap_kwargs=dict(to_timedelta=False)) if "duration" in q else {}
                last = [next((d for d in c if d["status"] == 0), None) for c in want]
                fn = dict(active_drawdown=lambda d: ratio(d["end_val"] - d["peak_val"], d["peak_val"]), active_duration=DERIVED["duration"], active_recovery=lambda d: ratio(d["end_val"] - d["valley_val"], d["peak_val"] - d["valley_val"]),
                          active_recovery_return=DERIVED["recovery_return"], active_recovery_duration=DERIVED["recovery_duration"])[q]
                per(getattr(rec, q)(**kw), [NAN if d is None else float(fn(d)) for d in last], q, 0.0, labels)
            elif op == "side":
                per(x.count(group_by=gb), [float(len(g)) for g in grouped], "count")
            elif op == "mask":
                got = cells(x.to_mask(group_by=gb))
                exp = [[any(i in bars(d) for d in g) for i in range(n)] for g in grouped]
                ctx.check(got.shape == (n, len(exp)) and all(got[:, j].tolist() == e for j, e in enumerate(exp)), "wrong-value", lambda: f"{what} to_mask(group_by={gb}): {got.T.tolist()}, expected {exp}")
            elif op == "coverage":
                over, norm = r.random() < 0.4, r.random() < 0.6
                exp = []
                for b, g in zip(buckets, grouped):
                    times = [sum(i in bars(d) for d in g) for i in range(n)]
                    hit, twice = sum(y > 0 for y in times), sum(y > 1 for y in times)
                    exp.append(NAN if not g else float(ratio(twice, hit) if norm and over else hit / (n * len(b)) if norm else twice if over else hit))
                per(x.coverage(overlapping=over, normalize=norm, group_by=gb), exp, f"coverage({over}, {norm})")
            elif op == "stats":
                st = rec.stats(agg_func=None, metrics=["total_records", *(["coverage", "total_recovered", "total_active", "max_dd", "avg_dd", "active_dd", "max_return"] if dd else [])])
                st = st.to_frame().T if isinstance(st, pd.Series) else st
                for j, c in enumerate(want):
                    got = st.iloc[j].to_dict()
                    rec_, act = [d for d in c if d["status"] == 1], [d for d in c if d["status"] == 0]
                    hit = len({i for d in c for i in bars(d)})
                    exp = {"Total Records": len(c)}
                    if dd:
                        exp["Coverage [%]"] = 100.0 * hit / n if c else NAN
                        worst = [-100 * DERIVED["drawdown"](d) for d in rec_]
                        back = [100 * DERIVED["recovery_return"](d) for d in rec_]
                        exp.update({"Total Recovered Drawdowns": len(rec_), "Total Active Drawdowns": len(act), "Max Drawdown [%]": max(worst, default=NAN), "Avg Drawdown [%]": mean(worst),
                                    "Active Drawdown [%]": -100 * ratio(act[0]["end_val"] - act[0]["peak_val"], act[0]["peak_val"]) if act else NAN, "Max Recovery Return [%]": max(back, default=NAN)})
                    big = max([1.0, *[abs(y) for y in exp.values() if y == y and abs(y) != math.inf]])
                    for q, y in exp.items():
                        ctx.check(q in got and (near(got[q], y, 1e-12 * big) or abs(y) == math.inf), "wrong-value", lambda: f"{what}: {q!r} of {labels[j]!r} is {got.get(q)}, expected {y}")
            elif op == "columns" and obj.ndim == 2:
                pick = [r.randrange(k) for _ in range(r.randint(1, 3))]
                if len(set(pick)) < len(pick):
                    continue
                rec, want, labels, k = rec.iloc[pick], [want[j] for j in pick], [labels[j] for j in pick], len(pick)
                f.cols = [f.cols[j] for j in pick]
            ctx.check(np.array_equal(obj.to_numpy().astype(float).reshape(f.a.shape), f.a, equal_nan=True), "feed-changed", lambda: f"{what}: the feed was changed")


def shrink_records(case):
    yield from shrink_stream(case)


# ------------------------------------------------------------------ indicators
def gen_indicators(rng):
    n = rng.pick(1, 4, 9, 16, 30)
    f = gen_feed(rng, n=n, k=rng.pick(1, 2, 3))
    # on a grid of quarters running sums are exact; a bar is either there or not
    f["vals"] = [[None if x is None else round(max(0.5, min(abs(x), 4096.0)) * 4) / 4 for x in r] for r in f["vals"]]
    f["kinds"] = [x for x in f["kinds"] if x not in ("zero",)]
    k = len(f["vals"][0])
    hi = [[rng.pick(0, 0, 0.25, 1.5) for _ in range(k)] for _ in range(n)]
    lo = [[rng.pick(0, 0, 0.25, 0.5) for _ in range(k)] for _ in range(n)]
    vol = [[rng.randint(0, 50) for _ in range(k)] for _ in range(n)]
    return dict(feed=f, hi=hi, lo=lo, vol=vol, runs=[[rng.pick("MA", "MSTD", "BBANDS", "RSI", "STOCH", "MACD", "ATR", "OBV"), rng.randint(0, 10**6)] for _ in range(rng.randint(1, 4))])


def shrink_indicators(case):
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
    f = case["feed"]
    for i in range(len(f["vals"])):
        if len(f["vals"]) > 1:
            cut = lambda a: a[:i] + a[i + 1:]
            yield dict(case, feed=dict(f, vals=cut(f["vals"])), hi=cut(case["hi"]), lo=cut(case["lo"]), vol=cut(case["vol"]))


def average(v, w, e, adjust):
    return ewm("mean", v, w, w, adjust) if e else rolling("mean", v, w, w)


def deviation(v, w, e, adjust, ddof):
    return ewm("std", v, w, w, adjust) if e else rolling("std", v, w, w, ddof)


def div(a, b):
    return float(np.float64(a) / np.float64(b))


def run_indicators(case, ctx):
    import random
    close = feed(case["feed"])
    shape = (len(case["feed"]["vals"]), len(case["feed"]["vals"][0]))
    like = lambda x: close * 0 + (np.array(x, dtype=float).reshape(shape) if close.ndim == 2 else np.array(x, dtype=float)[:, 0])
    high, low = close + like(case["hi"]), (close - like(case["lo"])).clip(lower=0.25)
    low = low.where(low <= close, close)
    vol = close * 0 + like(case["vol"])
    vol = vol.fillna(3.0)
    F, H, L, V = Feed(close), Feed(high), Feed(low), Feed(vol)
    for kind in case["feed"]["kinds"]:
        if kind != "none":
            ctx.fault("feed-" + kind)
    n = shape[0]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for step, (ind, seed) in enumerate(case["runs"]):
            r = random.Random(seed)
            m = r.choice([1, 1, 2, 3])
            win = lambda: [r.choice([1, 2, 3, 5, n, n + 1]) for _ in range(m)]
            yes = lambda: [r.random() < 0.5 for _ in range(m)]
            adjust, ddof = r.random() < 0.5, r.choice([0, 1])
            ins, p, kw = (close,), {}, {}
            if ind in ("MA", "MSTD", "BBANDS", "RSI", "ATR"):
                p = dict(window=win(), ewm=yes())
                kw = dict(adjust=adjust)
            if ind in ("MSTD", "BBANDS"):
                kw["ddof"] = ddof
            if ind == "BBANDS":
                p["alpha"] = [r.choice([0.5, 1, 2, 3.0]) for _ in range(m)]
            if ind == "ATR":
                ins = (high, low, close)
            if ind == "STOCH":
                ins, p, kw = (high, low, close), dict(k_window=win(), d_window=win(), d_ewm=yes()), dict(adjust=adjust)
            if ind == "MACD":
                p, kw = dict(fast_window=win(), slow_window=win(), signal_window=win(), macd_ewm=yes(), signal_ewm=yes()), dict(adjust=adjust)
            if ind == "OBV":
                ins, m = (close, vol), 1
            sets = [{q: v[i] for q, v in p.items()} for i in range(m)]
            short = r.random() < 0.4
            p2 = {q: v[0] if len(set(map(str, v))) == 1 and r.random() < 0.7 else v for q, v in p.items()}
            out = getattr(vbt, ind).run(*ins, **p2, **kw, short_name="x") if short else getattr(vbt, ind).run(*ins, **p2, **kw)
            if not any(isinstance(v, list) for v in p2.values()):
                sets = sets[:1]  # single values throughout: one run
            what = f"step {step} {ind}.run({p2}, {kw})"
            ctx.tick(n)
            ctx.ev(step, ind, m)
            ctx.state(ind, m, adjust, n > 8, bool(np.isnan(F.a).any()))
            want = {}
            put = lambda q, v: want.setdefault(q, []).append(v)
            for s in sets if p else [{}]:
                for c, h, l, v in zip(F.cols, H.cols, L.cols, V.cols):
                    if ind == "MA":
                        put("ma", average(c, s["window"], s["ewm"], adjust))
                    elif ind == "MSTD":
                        put("mstd", deviation(c, s["window"], s["ewm"], adjust, ddof))
                    elif ind == "BBANDS":
                        a, d = average(c, s["window"], s["ewm"], adjust), deviation(c, s["window"], s["ewm"], adjust, ddof)
                        free = [z in ("nothing", "free") for z in d]
                        up = [y if q else y + s["alpha"] * z for q, y, z in zip(free, a, d)]
                        dn = [y if q else y - s["alpha"] * z for q, y, z in zip(free, a, d)]
                        put("middle", a)
                        put("upper", ["free" if q else y for q, y in zip(free, up)])
                        put("lower", ["free" if q else y for q, y in zip(free, dn)])
                        put("bandwidth", ["free" if q or abs(z) < 1e-9 else (x - y) / z for q, x, y, z in zip(free, up, dn, a)])
                        put("percent_b", ["free" if q or (not nan(x) and abs(x - y) < 1e-3) else (z - y) / (x - y) for q, x, y, z in zip(free, up, dn, c)])
                    elif ind == "RSI":
                        d = [NAN] + [y - x for x, y in zip(c, c[1:])]
                        up = average([y if nan(y) else max(y, 0.0) for y in d], s["window"], s["ewm"], adjust)
                        dn = average([y if nan(y) else max(-y, 0.0) for y in d], s["window"], s["ewm"], adjust)
                        put("rsi", [100 - div(100, 1 + div(x, y)) for x, y in zip(up, dn)])
                    elif ind == "STOCH":
                        lo, hi = rolling("min", l, s["k_window"], s["k_window"]), rolling("max", h, s["k_window"], s["k_window"])
                        k_ = [div(100 * (x - y), z - y) for x, y, z in zip(c, lo, hi)]
                        put("percent_k", k_)
                        put("percent_d", average(k_, s["d_window"], s["d_ewm"], adjust))
                    elif ind == "MACD":
                        a, b = average(c, s["fast_window"], s["macd_ewm"], adjust), average(c, s["slow_window"], s["macd_ewm"], adjust)
                        d = [x - y for x, y in zip(a, b)]
                        g = average(d, s["signal_window"], s["signal_ewm"], adjust)
                        put("macd", d)
                        put("signal", g)
                        put("hist", [x - y for x, y in zip(d, g)])
                    elif ind == "ATR":
                        tr = [max([x - y, *([abs(x - c[i - 1]), abs(y - c[i - 1])] if i and not nan(c[i - 1]) else [])]) if not nan(x) else NAN for i, (x, y) in enumerate(zip(h, l))]
                        put("tr", tr)
                        put("atr", average(tr, s["window"], s["ewm"], adjust))
                    elif ind == "OBV":
                        acc, w = 0.0, []
                        for i, y in enumerate(v):
                            acc += -y if i and c[i] < c[i - 1] else y
                            w.append(acc)
                        put("obv", w)
            for q, cols in want.items():
                got = cells(getattr(out, q))
                ctx.check(got.shape == (n, len(cols)), "wrong-shape", lambda: f"{what} {q}: {got.shape}, expected {(n, len(cols))}")
                for j, w in enumerate(cols):
                    base = max([1.0, *[abs(y) for y in F.cols[j % shape[1]] if y == y]])
                    tol = 1e-7 * base if ind in ("MSTD", "BBANDS") else 1e-7
                    if q in ("bandwidth", "percent_b"):
                        tol = 1e-3
                    for i, y in enumerate(w):
                        ctx.check(near(got[i, j], y, tol), "wrong-value", lambda: f"{what} {q}: parameters {sets[j // shape[1]] if p else None} column {j % shape[1]} bar {i}: {got[i, j]}, expected {y}; {F.cols[j % shape[1]]}")
            if p:
                # the columns say which parameters they belong to
                one = getattr(out, next(iter(want)))
                for q, v in p.items():
                    lev = f"{'x' if short else out.short_name}_{q}"
                    if isinstance(one, pd.DataFrame) and lev in one.columns.names:
                        got = [float(y) for y in one.columns.get_level_values(lev)]
                        exp = [float(s[q]) for s in sets for _ in range(shape[1])]
                        ctx.check(got == exp, "wrong-labels", lambda: f"{what}: level {lev}: {got}, expected {exp}")
                    elif isinstance(one, pd.DataFrame):
                        ctx.fail("wrong-labels", f"{what}: no level {lev} in {list(one.columns.names)}")
            ctx.check(all(x.unchanged() for x in (F, H, L, V)), "feed-changed", f"{what}: a feed was changed")


SCENARIOS = [
    Scenario("stream", gen_stream, run_stream, 1200, 40000, shrink=shrink_stream, real=REAL, stub=STUB),
    Scenario("records", gen_records, run_records, 900, 30000, shrink=shrink_records, real=REAL, stub=STUB),
    Scenario("indicators", gen_indicators, run_indicators, 500, 20000, shrink=shrink_indicators, real=REAL, stub=STUB),
]
