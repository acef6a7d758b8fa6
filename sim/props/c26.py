"""C26: what looks ahead on purpose and what cuts the past for it: label generators and splitters.

"labels": generators over several parameter sets and element-wise thresholds on feeds with gaps and delistings, against
walks over the bars. "splits": range, rolling, expanding and user-written splitters, whole or into sets."""
import math
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario
from .c24 import NAN, Feed, average, cells, deviation, feed, gen_feed, nan, near, rolling, shrink_stream

import vectorbt as vbt
from vectorbt.generic import splitters
from vectorbt.labels.enums import TrendMode

REAL = ["labels.nb", "labels.generators", "labels.dispatch", "generic.splitters", "generic.accessors", "indicators.factory"]
STUB = ["market feed (late listings, gaps, stalls, spikes, delistings)", "user-written splitters (uneven, raising)"]
GENS = ["FMEAN", "FSTD", "FMIN", "FMAX", "FIXLB", "MEANLB", "LEXLB", "LEXLB", "TRENDLB", "TRENDLB", "TRENDLB", "BOLB", "BOLB"]
MODES = ["Binary", "BinaryCont", "BinaryContSat", "PctChange", "PctChangeNorm"]
THS = [0.0173, 0.0517, 0.1031, 0.2519, -0.0713, 0.7013]


def gen_labels(rng):
    gen = rng.pick(*GENS)
    f = gen_feed(rng, n=rng.pick(1, 3, 8, 15, 30), k=rng.pick(1, 2, 3))
    f["vals"] = [[None if x is None else round(max(0.5, abs(x)), 2) for x in r] for r in f["vals"]]
    if gen in ("LEXLB", "TRENDLB"):
        f["vals"] = [[1.0 + i if x is None else x for x in r] for i, r in enumerate(f["vals"])]
        f["kinds"] = [x for x in f["kinds"] if x in ("none", "stall", "spike")]
    return dict(gen=gen, feed=f, seed=rng.randint(0, 10**6))


def extrema(v, pos, neg):
    """A low counts once the price has risen by the threshold set at the low, a high once it has fallen by that set at the high."""
    out, at, looking = [0] * len(v), 0, None
    for i in range(1, len(v)):
        p, q = abs(pos[at]), abs(neg[at])
        rises, falls = v[i] >= v[at] * (1 + p), v[i] <= v[at] * (1 - q)
        if looking != "high" and rises and not (looking == "low" and v[i] < v[at]):
            out[at], at, looking = -1, i, "high"
        elif looking != "low" and falls and not (looking == "high" and v[i] > v[at]):
            out[at], at, looking = 1, i, "low"
        elif (looking == "high" and v[i] > v[at]) or (looking == "low" and v[i] < v[at]):
            at = i
    if looking:
        out[at] = 1 if looking == "high" else -1
    return out


def trend(v, pos, neg, mode):
    ex = extrema(v, pos, neg)
    at = [i for i, x in enumerate(ex) if x]
    out = [NAN] * len(v)
    for a, b in zip(at, at[1:]):
        lo, hi, up = min(v[a:b + 1]), max(v[a:b + 1]), v[b] > v[a]
        p, q = abs(pos[a]), abs(neg[a])
        for i in range(a, b):
            x = v[i]
            if mode == "Binary":
                out[i] = float(up)
            elif mode == "BinaryCont":
                out[i] = 1 - (x - lo) / (hi - lo)
            elif mode == "PctChange":
                out[i] = (v[b] - x) / x
            elif mode == "PctChangeNorm":
                out[i] = (v[b] - x) / (v[b] if up else x)
            elif up:
                edge = hi / (1 + p)
                out[i] = 1.0 if hi >= lo * (1 + p) and x <= edge else 1 - (x - edge) / (hi - edge)
            else:
                edge = lo / (1 - q)
                out[i] = 0.0 if lo <= hi * (1 - q) and x >= edge else 1 - (x - lo) / (edge - lo)
    return out


def breakout(v, w, pos, neg, wait):
    out = []
    for i, x in enumerate(v):
        y = 0.0
        for j in range(i + wait, min(i + wait + w, len(v))):
            if pos[i] and v[j] >= x * (1 + abs(pos[i])):
                y = 1.0
                break
            if neg[i] and v[j] <= x * (1 - abs(neg[i])):
                y = -1.0
                break
        out.append(y)
    return out


def ahead(fn, v, wait):
    """fn looks at the window that ends at a bar; here it begins there, wait bars later."""
    x = fn(v[::-1])[::-1]
    return [x[i + wait] if i + wait < len(x) else NAN for i in range(len(x))]


def run_labels(case, ctx):
    import random
    r = random.Random(case["seed"])
    gen = case["gen"]
    obj = feed(case["feed"])
    f = Feed(obj)
    n, k = f.a.shape
    for kind in case["feed"]["kinds"]:
        if kind != "none":
            ctx.fault("feed-" + kind)
    m = r.choice([1, 1, 2, 3])
    one = isinstance(obj, pd.Series)
    wait = r.choice([0, 1, 1, 2, 3])
    adjust, ddof = r.random() < 0.5, r.choice([0, 1])
    pick = lambda vals: [r.choice(vals) for _ in range(m)]
    windows = [1, 2, 3, 5, n, n + 1]

    def threshold(zero):
        """(what the user passes, per bar and column)"""
        how = r.choice(["one", "one", "bars", "columns", "each"])
        v = lambda: r.choice(THS + ([0.0] if zero else []))
        if how == "one" or n == 1 or k == 1 and how == "columns":
            x = v()
            return x, [[x] * n for _ in range(k)]
        if how == "bars":
            x = [v() for _ in range(n)]
            return np.array(x) if one else np.array(x)[:, None], [x] * k
        if how == "columns":
            x = [v() for _ in range(k)]
            return np.array(x)[None, :], [[y] * n for y in x]
        x = [[v() for _ in range(n)] for _ in range(k)]
        return np.array(x[0]) if one else np.array(x).T.copy(), x

    p, kw = {}, {}
    if gen in ("FMEAN", "FSTD", "MEANLB"):
        p, kw = dict(window=pick(windows), ewm=pick([False, True])), dict(wait=wait, adjust=adjust)
        if gen == "FSTD":
            kw["ddof"] = ddof
    elif gen in ("FMIN", "FMAX"):
        p, kw = dict(window=pick(windows)), dict(wait=wait)
    elif gen == "FIXLB":
        p = dict(n=pick([1, 2, 5, n, n + 1]))
    else:
        zero = gen == "BOLB" or r.random() < 0.03
        p = dict(pos_th=[threshold(zero) for _ in range(m)], neg_th=[threshold(zero) for _ in range(m)])
        if gen == "TRENDLB":
            p["mode"] = pick(MODES)
        if gen == "BOLB":
            p["window"], kw = pick(windows), dict(wait=wait)
    given = {q: [x[0] if isinstance(x, tuple) else getattr(TrendMode, x) if q == "mode" and r.random() < 0.5 else x for x in v] for q, v in p.items()}
    given = {q: v[0] if m == 1 else v for q, v in given.items()}
    what = f"{gen}.run({given}, {kw})"
    ctx.tick(n)
    ctx.ev(gen, m, wait)
    ctx.state(gen, m, wait, n > 8, k, bool(np.isnan(f.a).any()), str(p.get("mode")))
    lists = {q: [x[1] if isinstance(x, tuple) else x for x in v] for q, v in p.items()}
    none = gen in ("LEXLB", "TRENDLB") and n > 1 and any(0.0 in {x[0] for x in lists[q][s]} for q in ("pos_th", "neg_th") for s in range(m))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            out = getattr(vbt, gen).run(obj, **given, **kw)
        except ValueError as e:
            ctx.check("hreshold cannot be 0" in str(e) and any(0.0 in y for q in ("pos_th", "neg_th") for x in lists.get(q, []) for y in x), "refused", lambda: f"{what}: {e!r}")
            ctx.fault("refused")
            return
    ctx.check(not none, "accepted", f"{what}: accepted a threshold of zero")
    got = cells(getattr(out, gen.lower() if gen[0] == "F" and gen != "FIXLB" else "labels"))
    ctx.check(got.shape == (n, m * k), "wrong-shape", lambda: f"{what}: {got.shape}, expected {(n, m * k)}")
    for s in range(m):
        a = {q: v[s] for q, v in lists.items()}
        for j, v in enumerate(f.cols):
            tol = 1e-7
            if gen == "FMEAN":
                w = ahead(lambda x: average(x, a["window"], a["ewm"], adjust), v, wait)
            elif gen == "FSTD":
                w, tol = ahead(lambda x: deviation(x, a["window"], a["ewm"], adjust, ddof), v, wait), 1e-6
            elif gen in ("FMIN", "FMAX"):
                w = ahead(lambda x: rolling(gen[1:].lower(), x, a["window"], a["window"]), v, wait)
            elif gen == "MEANLB":
                w = [(y - x) / x for x, y in zip(v, ahead(lambda x: average(x, a["window"], a["ewm"], adjust), v, wait))]
            elif gen == "FIXLB":
                w = [(v[i + a["n"]] - x) / x if i + a["n"] < n else NAN for i, x in enumerate(v)]
            elif gen == "LEXLB":
                w = extrema(v, a["pos_th"][j], a["neg_th"][j])
            elif gen == "TRENDLB":
                w = trend(v, a["pos_th"][j], a["neg_th"][j], a["mode"])
            else:
                w = breakout(v, a["window"], a["pos_th"][j], a["neg_th"][j], wait)
            big = max([1.0, *[abs(x) for x in v if x == x]])
            for i, y in enumerate(w):
                ctx.check(near(got[i, s * k + j], y, tol * (big if gen[0] == "F" else 1.0)), "wrong-value", lambda: f"{what}: set {s} column {j} bar {i}: {got[i, s * k + j]}, expected {y}; {v}")
    ctx.check(f.unchanged(), "feed-changed", f"{what}: the feed was changed")


def shrink_labels(case):
    yield from shrink_rows(case)


def shrink_rows(case):
    f = case["feed"]
    for i in range(len(f["vals"])):
        if len(f["vals"]) > 1:
            yield dict(case, feed=dict(f, vals=f["vals"][:i] + f["vals"][i + 1:]))


# ------------------------------------------------------------------ splits
class Boom(Exception):
    pass


def gen_splits(rng):
    return dict(feed=gen_feed(rng, n=rng.pick(1, 2, 5, 9, 16, 30), k=rng.pick(1, 2, 3)), ops=[rng.randint(0, 10**6) for _ in range(rng.randint(1, 5))])


def shrink_splits(case):
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    yield from shrink_rows(case)


def spread(m, n):
    """n of m ranges, spread evenly: for each, the positions that count as nearest."""
    if n == 1:
        return [{0}]
    out = []
    for i in range(n):
        x = Fraction(i * (m - 1), n - 1)
        lo = math.floor(x)
        out.append({lo, lo + 1} if x - lo == Fraction(1, 2) else {lo if x - lo < Fraction(1, 2) else lo + 1})
    return out


def run_splits(case, ctx):
    import random
    obj = feed(case["feed"])
    f = Feed(obj)
    n, k = f.a.shape
    for kind in case["feed"]["kinds"]:
        if kind != "none":
            ctx.fault("feed-" + kind)
    for step, seed in enumerate(case["ops"]):
        r = random.Random(seed)
        how = r.choice(["range", "range", "rolling", "rolling", "expanding", "bounds", "own"])
        size = r.choice([1, 2, 3, 5, n, n + 1, 0.5, 0.25, 0.9])
        want_n = r.choice([None, 1, 2, 3, 7])
        min_len = r.choice([1, 1, 2, 4])
        sets = r.choice([None, None, (1,), (0.5,), (1, 1), (2, 0.3), (0.4, 0.4)])
        left = r.random() < 0.6
        kw = {}
        choices = None  # per split: the (start, end) pairs that are right
        if how in ("range", "rolling"):
            name = "range_len" if how == "range" else "window_len"
            given = r.random() < 0.7 or want_n is None
            length = size if given else n // want_n
            if given:
                kw[name] = size
            if 0 < length < 1:
                length = math.floor(length * n)
            all_ = [(a, a + length - 1) for a in range(n - length + 1) if length >= min_len and length > 0]
            kw["min_len"] = min_len
        elif how == "expanding":
            all_ = [(0, b) for b in range(n) if b + 1 >= min_len]
            kw["min_len"] = min_len
        elif how == "bounds":
            m = r.randint(1, 4)
            pairs = [tuple(sorted((r.randrange(n), r.randrange(n)))) for _ in range(m)]
            labels = r.random() < 0.5
            for q, z in (("start_idxs", 0), ("end_idxs", 1)):
                kw[q] = pd.Index([f.index[p[z]] for p in pairs]) if labels else [p[z] for p in pairs]
            kw["min_len"] = min_len
            all_ = [p for p in pairs if p[1] - p[0] + 1 >= min_len]
        else:
            all_ = []
        if how != "own":
            if want_n is not None:
                kw["n"] = want_n
            if sets is not None:
                kw.update(set_lens=sets, left_to_right=left)
        what = f"step {step} {how} split of {n} bars ({kw})"
        ctx.tick(1)
        fails = False
        if how == "own":
            # a splitter written by the user: any positions in any order, maybe failing midway
            parts = [tuple(sorted(r.sample(range(n), r.randint(1, n))) for _ in range(2)) for _ in range(r.randint(1, 4))]
            boom = r.randrange(len(parts)) if r.random() < 0.2 else None

            class Own:
                def split(self, X, **kwargs):
                    ctx.check(list(X) == list(range(n)), "wrong-calls", lambda: f"{what}: the splitter was given {list(X)}")
                    for i, p in enumerate(parts):
                        if i == boom:
                            raise Boom()
                        yield tuple(np.array(x) for x in p)
            expected = [[{tuple(x)} for x in p] for p in parts]
            fails = may = boom is not None
            call = lambda: obj.vbt.split(Own())
        else:
            picks = [{i} for i in range(len(all_))] if want_n is None else spread(len(all_), want_n) if all_ and want_n <= len(all_) else None
            fails = may = not all_ or picks is None
            expected = []
            each = None if fails or sets is None or r.random() < 0.7 else [(sets[:-1] + (r.choice([1, 2, 0.3]),), r.random() < 0.5) for _ in picks]
            if each:
                kw.update(set_lens=[x for x, _ in each], left_to_right=[x for _, x in each])
                what = f"step {step} {how} split of {n} bars ({kw})"
            for at, c in enumerate([] if fails else picks):
                alts = None
                if each:
                    sets, left = each[at]
                for i in c:
                    a, b = all_[i]
                    ln = b - a + 1
                    parts = [ln]
                    if sets is not None:
                        parts = [math.floor(x * ln) if 0 < x < 1 else x for x in sets]
                        if 0 in parts or sum(parts) >= ln:
                            may = True
                            continue
                        rest = ln - sum(parts)
                        parts = parts + [rest] if left else [rest] + parts
                    alts = alts or [set() for _ in parts]
                    for q, x in enumerate(parts):
                        alts[q].add(tuple(range(a, a + x)))
                        a += x
                if alts is None:
                    fails = True
                    break
                expected.append(alts)
            split = {"range": "range_split", "rolling": "rolling_split", "expanding": "expanding_split", "bounds": "range_split"}[how]
            call = (lambda: getattr(obj.vbt, split)(**kw)) if r.random() < 0.7 else (lambda: obj.vbt.split({"range": splitters.RangeSplitter, "rolling": splitters.RollingSplitter, "expanding": splitters.ExpandingSplitter, "bounds": splitters.RangeSplitter}[how](), **kw))
        named = r.random() < 0.3 and not fails
        if named:
            keys = [f"k{i}" for i in range(len(expected))]
            keys_arg = pd.Index(keys, name="fold") if len(keys) == 1 or r.random() < 0.5 else list(keys)  # an unnamed level of one label is left out
            call = lambda: (obj.vbt.split(Own(), keys=keys_arg) if how == "own" else getattr(obj.vbt, split)(**kw, keys=keys_arg))
            what += f" keys {keys_arg}"
        ctx.ev(step, how, fails)
        ctx.state(how, n > 8, k, str(sets), want_n, fails)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = call()
        except Boom:
            ctx.check(how == "own" and fails, "failure-lost", what)
            ctx.fault("splitter-raises")
            continue
        except (ValueError, AssertionError) as e:
            ctx.check(may, "refused", lambda: f"{what}: {e!r}")
            ctx.fault("refused")
            continue
        ctx.check(not fails, "accepted", lambda: f"{what}: accepted, gives {res}")
        n_sets = len(expected[0])
        res = [res] if n_sets == 1 else list(res)
        ctx.check(len(res) == n_sets, "wrong-sets", lambda: f"{what}: {len(res)} sets, expected {n_sets}")
        for q, (df, idx) in enumerate(res):
            ctx.check(len(idx) == len(expected) and df.shape[1] == len(expected) * k, "wrong-splits", lambda: f"{what}: {len(idx)} splits in {df.shape[1]} columns, expected {len(expected)} of {k}")
            first = list(df.columns.get_level_values(0))
            ctx.check(first == [keys[i] if named else i for i in range(len(expected)) for _ in range(k)] and [x.name for x in idx] == [keys[i] if named else f"split_{i}" for i in range(len(expected))] and (k == 1 or list(df.columns.get_level_values(-1)) == f.labels * len(expected)), "wrong-labels", lambda: f"{what}: columns {list(df.columns)}")
            got = cells(df)
            ctx.check(list(df.index) == list(range(max(len(x) for x in idx))), "wrong-labels", lambda: f"{what}: index {list(df.index)}")
            for i, alts in enumerate(expected):
                have = list(idx[i])
                ok_ = [p for p in alts[q] if [f.index[z] for z in p] == have]
                ctx.check(bool(ok_), "wrong-bars", lambda: f"{what}: split {i} set {q} covers {have}, expected positions {alts[q]}")
                for j in range(k):
                    col = got[:, i * k + j]
                    w = [f.cols[j][z] for z in ok_[0]] + [NAN] * (len(got) - len(ok_[0]))
                    ctx.check(all(near(x, y, 0) for x, y in zip(col, w)), "wrong-value", lambda: f"{what}: split {i} set {q} column {j}: {list(col)}, expected {w}")
        ctx.check(f.unchanged(), "feed-changed", f"{what}: the feed was changed")


SCENARIOS = [Scenario("labels", gen_labels, run_labels, 2500, 60000, shrink=shrink_labels, real=REAL, stub=STUB),
             Scenario("splits", gen_splits, run_splits, 900, 30000, shrink=shrink_splits, real=REAL, stub=STUB)]
