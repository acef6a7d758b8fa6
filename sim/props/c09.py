"""C09: columns are isolated.  "feeds" corrupts, drops, reorders or adds the feeds of some assets of a random program and
compares every result of the other assets; "selections" interleaves reads, selections and regroupings of one object and
compares each read with a fresh object computed on the selected columns alone."""
import numpy as np
import pandas as pd

from .. import prog
from ..core import Scenario

REAL = ["indicators.basic", "indicators.factory", "generic accessors", "returns accessors", "signals accessors and generators", "portfolio simulators and reports",
        "records, mapped arrays, column mapper", "base.indexing, base.array_wrapper, base.column_grouper"]
STUB = ["market feed (corrupted, missing, reordered and added columns)"]
STATE = "step or read x fault or selection x number of columns x outcome"


# ------------------------------------------------------------------ corrupted feeds
def gen_feeds(rng):
    T, N = rng.pick(6, 10, 16, 24), rng.pick(2, 3, 4, 5)
    case = dict(T=T, N=N, feed=prog.gen_arrays(rng, T, N, rng.pick(0, 0, 0.1, 0.3), rng.pick(0, 0, 0.05)), groups=sorted(rng.pick(0, 0, 1, 2) for _ in range(N)))
    case["steps"] = prog.gen_program(rng, rng.randint(3, 8))
    case["faults"] = []
    for _ in range(2):
        m = rng.pick("dead", "spike", "other", "zero", "const", "late", "drop", "drop", "reorder", "reorder", "duplicate")
        case["faults"].append([m, sorted(rng.sample(range(N), rng.randint(1, N - 1))), rng.randint(0, T - 1),
                               prog.gen_arrays(rng, T, N, 0.1, 0.3) if m == "other" else None, [rng.random() for _ in range(N)]])
    return case


def shares(steps):
    return any(s[0] == "portfolio" and s[2].get("grouped") and s[2].get("sharing") for s in steps)


def mixes(steps):
    return any(s[0] == "rolling_apply" and s[2].get("matrix") for s in steps)


def disturb(case, mode, victims, at, other, keys, blocks):
    """(arrays, names, groups) of the disturbed feed."""
    N, T = case["N"], case["T"]
    names, groups = ["s%d" % c for c in range(N)], case["groups"]
    cols = list(range(N))
    arrs = {f: [list(r) for r in v] for f, v in case["feed"].items()}
    if mode in ("dead", "spike", "other", "zero", "const", "late"):
        for f, v in arrs.items():
            for i in range(T):
                for c in victims:
                    if mode == "dead" and i >= at:
                        v[i][c] = float("nan")
                    elif mode == "late" and i <= at:
                        v[i][c] = float("nan")
                    elif mode == "spike" and i == at:
                        v[i][c] *= 1000.0
                    elif mode == "zero" and i >= at:
                        v[i][c] = 1e-9
                    elif mode == "const":
                        v[i][c] = 1.0
                    elif mode == "other" and other:
                        v[i][c] = other[f][i][c]
    elif mode == "drop":
        cols = [c for c in cols if c not in victims]
    elif mode == "reorder":
        if blocks:
            # groups move as blocks, so that the order of orders within a group stays
            gs = sorted(set(groups), key=lambda g: keys[g % len(keys)])
            cols = [c for g in gs for c in cols if groups[c] == g]
        else:
            cols.sort(key=lambda c: (groups[c], keys[c]))
    elif mode == "duplicate":
        cols = sorted(cols + victims, key=lambda c: groups[c])
    arrs = {f: [[r[c] for c in cols] for r in v] for f, v in arrs.items()}
    seen, out = set(), []
    for c in cols:
        out.append(names[c] if c not in seen else names[c] + "'")
        seen.add(c)
    return arrs, out, [groups[c] for c in cols]


def pieces(o, feed):
    """label -> array of every column (or group) of an output."""
    if o.how in ("cell", "bin"):
        return {n: o.val.values[:, j] for j, n in enumerate(feed.names)}
    if o.how == "group":
        labels, _ = o.groups
        return {g: o.val.values[:, j] for j, g in enumerate(labels)}
    labels = feed.names if o.how == "rec" else list(dict.fromkeys(feed.groups))
    out = {n: [] for n in labels}
    for r in o.val:
        out[labels[r[0]]].append(r[1:])
    return {n: np.array(sorted(v), dtype=float) for n, v in out.items()}


def same(a, b, exact):
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "bi" and b.dtype.kind in "bi":
        return bool((a == b).all())
    a, b = a.astype(float), b.astype(float)
    if exact:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


def run_feeds(case, ctx):
    N = case["N"]
    case["groups"] = (case["groups"] + [9] * N)[:N]
    if mixes(case["steps"]):
        for s in case["steps"]:
            if s[0] == "rolling_apply":
                s[2]["matrix"] = False
    base = prog.Feed(case["feed"], ["s%d" % c for c in range(N)], case["groups"])
    full = prog.run_program(case["steps"], base)
    for name, outs, err in full:
        if err is not None:
            ctx.probe("step refused: " + name)
            ctx.ev("refused", name, type(err).__name__)
    share = shares(case["steps"])
    for mode, victims, at, other, keys in case["faults"]:
        victims = [v for v in victims if v < N]
        if share and mode not in ("reorder",):
            victims = [c for c in range(N) if case["groups"][c] in {case["groups"][v] for v in victims}]
        if mode != "reorder" and (not victims or (len(victims) == N and mode != "duplicate")):
            ctx.probe("all columns affected")
            continue
        if mode == "duplicate" and share:
            continue
        arrs, names, groups = disturb(case, mode, victims, at, other, keys, share)
        feed = prog.Feed(arrs, names, groups)
        ctx.fault("columns " + mode)
        ctx.tick(case["T"] * 4 * 3600)
        part = prog.run_program(case["steps"], feed)
        bad = {"s%d" % v for v in victims} if mode not in ("reorder", "duplicate") else set()
        badg = {case["groups"][v] for v in victims} if mode != "reorder" else set()
        exact = mode not in ("drop", "duplicate", "reorder")
        for n, ((name, a, ea), (_, b, eb)) in enumerate(zip(full, part)):
            if a is prog.FAILED or b is prog.FAILED:
                if (a is prog.FAILED) != (b is prog.FAILED):
                    ctx.probe("refused on one side: " + name)
                    if mode in ("reorder", "drop") and (ea or eb) is not None and a is prog.FAILED and mode == "reorder":
                        ctx.fail("refused-" + name, f"step {n} {name} {case['steps'][n][2]} fails with columns {base.names} but not with {names}: {ea!r}")
                    if mode in ("reorder", "drop", "duplicate") and b is prog.FAILED and eb is not None:
                        ctx.fail("refused-" + name, f"step {n} {name} {case['steps'][n][2]} fails with columns {names} but not with {base.names}: {eb!r}")
                continue
            ctx.state(name, mode, N, len(victims))
            ctx.check(len(a) == len(b), "columns-" + name, f"step {n} {name}: {len(a)} outputs, {len(b)} after {mode} of {victims}")
            for x, y in zip(a, b):
                u, v = pieces(x, base), pieces(y, feed)
                for lab in u:
                    if lab in (badg if x.how in ("group", "grec") else bad) or lab not in v:
                        continue
                    ctx.ev(n, name, x.name, mode, lab, u[lab])
                    if not same(u[lab], v[lab], exact):
                        ctx.fail("columns-" + name, f"step {n} {name}.{x.name} {case['steps'][n][2]} of {lab} changes after {mode} of {victims} (columns {names}, groups {groups}):\nbefore:\n{u[lab]}\nafter:\n{v[lab]}")


# ------------------------------------------------------------------ selections
READS = {
    "pf": ("cash()", "cash(free=True)", "value()", "returns()", "assets()", "asset_flow()", "asset_value()", "position_mask()", "position_coverage()", "cash_flow()", "init_cash",
           "gross_exposure()", "net_exposure()", "total_profit()", "final_value()", "total_return()", "asset_returns()", "benchmark_value()", "total_benchmark_return()",
           "sharpe_ratio()", "sortino_ratio()", "max_drawdown()", "cumulative_returns()", "beta()", "alpha()", "orders.count()", "orders.size.sum()", "orders.price.mean()", "orders.fees.to_pd(reduce_func_nb=SUM)",
           "trades.count()", "trades.pnl.sum()", "trades.win_rate()", "trades.profit_factor()", "trades.expectancy()", "trades.sqn()", "trades.winning.pnl.mean()",
           "trades.losing.count()", "trades.winning_streak.max()", "trades.duration.max()", "positions.duration.mean()", "positions.coverage()", "entry_trades.returns.max()",
           "drawdowns.max_drawdown()", "drawdowns.active_drawdown()", "drawdowns.avg_duration()", "drawdowns.recovered.count()", "orders", "trades", "positions", "entry_trades", "drawdowns",
           "get_filled_close()", "trades.pnl", "orders.price", "stats(agg_func=None)", "value(group_by=False)", "trades.count(group_by=False)", "orders.buy.count()", "orders.sell.size.max()",
           "trades.long.count()", "trades.short.pnl.sum()", "positions.open.count()", "get_trades(group_by=False).count()", "get_drawdowns(group_by=False).count()", "returns(group_by=False)", "asset_value(group_by=False)", "close"),
    "dd": ("count()", "duration.max()", "avg_duration()", "drawdown.mean()", "max_drawdown()", "recovery_return.max()", "decline_duration.sum()", "active_duration()", "active_recovery()",
           "recovered.count()", "active.count()", "coverage()", "ts", "values_", "duration", "drawdown.top_n(1).sum()", "peak_idx.idxmax()", "drawdown.describe()", "max_recovery_return()", "to_mask()",
           "start_idx.nth(0)", "end_val.nth_index(-1)", "drawdown.to_pd(reduce_func_nb=SUM)", "drawdown.sort().values_", "duration.value_counts()"),
    "ranges": ("count()", "duration.sum()", "avg_duration()", "max_duration()", "coverage()", "to_mask()", "closed.count()", "open.count()", "ts", "start_idx.min()", "values_"),
    "mapped": ("sum()", "min()", "max()", "mean()", "median()", "std()", "count()", "idxmin()", "idxmax()", "nth(0)", "nth_index(0)", "describe()", "top_n(1).sum()", "bottom_n(2).count()", "to_pd(reduce_func_nb=SUM)", "apply(CUMSUM).max()"),
    "ret": ("total()", "annualized()", "sharpe_ratio()", "alpha()", "beta()", "information_ratio()", "capture()", "max_drawdown()", "cumulative()", "rolling_alpha(window=4)", "tail_ratio()", "drawdowns.count()",
            "value_at_risk()", "daily()", "rolling_beta(window=3)", "benchmark_rets"),
    "ind": ("ma", "close", "ma_above(3.0)", "close_above(OBJ.ma)", "ma_crossed_below(OBJ.close)", "close_crossed_above(2.5)", "ma_stats(agg_func=None)"),
    "gen": ("min()", "max()", "mean()", "median()", "std()", "sum()", "count()", "idxmax()", "describe()", "drawdown()", "rolling_mean(3)", "ewm_mean(3)", "drawdowns.count()", "fshift(1)", "zscore()"),
    "sig": ("total()", "rate()", "pos_rank()", "first()", "nth_index(0)", "norm_avg_index()", "between_ranges().count()", "partition_ranges().duration.max()", "total_partitions()", "pos_rank_mapped().max()", "index_mapped().min()", "partition_rate()"),
}
SLOW = ("stats",)


def gen_sel(rng):
    T, N = rng.pick(6, 10, 16), rng.pick(2, 3, 4, 5)
    kind = rng.weighted([("pf", 8), ("dd", 3), ("ranges", 1), ("mapped", 3), ("ret", 2), ("ind", 2), ("gen", 1), ("sig", 2)])
    case = dict(T=T, N=N, kind=kind, feed=prog.gen_arrays(rng, T, N, rng.pick(0, 0, 0.1, 0.3), rng.pick(0, 0, 0.05)), groups=sorted(rng.pick(0, 0, 1, 2) for _ in range(N)),
                params=prog.pf_gen(rng), signals=[[[rng.chance(0.35) for _ in range(N)] for _ in range(T)] for _ in range(2)],
                sizes=[[round(rng.uniform(-4, 4), 2) for _ in range(N)] for _ in range(T)], windows=[rng.randint(1, 4), rng.randint(1, 4) + 4], mapped=rng.pick("price", "size", "pnl", "dur"))
    ops = []
    for _ in range(rng.randint(4, 10)):
        x = rng.random()
        if x < 0.62:
            ops.append(["read", rng.randrange(99), rng.pick(*READS[kind])])
        elif x < 0.9:
            ops.append(["select", rng.randrange(99), rng.pick("label", "labels", "iloc", "slice", "ilist", "mask", "loc", "reversed"), [rng.random() for _ in range(N)]])
        else:
            ops.append(["regroup", rng.randrange(99), [rng.pick(0, 0, 1) for _ in range(N)]])
    case["ops"] = ops
    return case


def SUM(a):
    return np.nansum(a)


def CUMSUM(idxs, col, a):
    return np.cumsum(a[idxs]) if len(a) != len(idxs) else np.cumsum(a)


def build(case, cols, groups):
    """The object computed on the given columns alone."""
    import vectorbt as vbt
    arrs = {f: [[r[c] for c in cols] for r in v] for f, v in case["feed"].items()}
    names = ["s%d" % c for c in cols]
    f = prog.Feed(arrs, names, groups)
    kind = case["kind"]
    en, ex = (f.like(np.array([[r[c] for c in cols] for r in s], dtype=bool).reshape(f.T, f.N)) for s in case["signals"])
    if kind in ("pf", "mapped"):
        x = f.like(np.array([[r[c] for c in cols] for r in case["sizes"]], dtype=float).reshape(f.T, f.N))
        pf, share = prog.make_pf(f, en, ex, x, dict(open=f.open, high=f.high, low=f.low, close=f.close), dict(case["params"]))
        if kind == "pf":
            return pf
        return {"price": lambda: pf.orders.price, "size": lambda: pf.orders.size, "pnl": lambda: pf.exit_trades.pnl, "dur": lambda: pf.positions.duration}[case["mapped"]]()
    if kind == "dd":
        return f.close.vbt.get_drawdowns(wrapper_kwargs=dict(freq=prog.FREQ))
    if kind == "ranges":
        return en.vbt.signals.between_ranges(other=ex, wrapper_kwargs=None) if False else f.close.vbt.get_ranges(wrapper_kwargs=dict(freq=prog.FREQ))
    if kind == "ret":
        return f.close.vbt.to_returns().vbt.returns(freq=prog.FREQ, benchmark_rets=f.open.vbt.to_returns())
    if kind == "ind":
        return vbt.MA.run(f.close, window=case["windows"], short_name="ma")
    if kind == "gen":
        return f.close.vbt
    if kind == "sig":
        return en.vbt.signals
    raise AssertionError(kind)


def read(obj, path):
    if path.endswith("values_"):
        path = path[:-1]
    v = eval("OBJ." + path, dict(OBJ=obj, SUM=SUM, CUMSUM=CUMSUM))  # noqa
    if "stats(" in path and isinstance(v, pd.DataFrame):
        v = v.T
    return v


def norm(v, labels):
    """label -> value, for every shape of result."""
    from vectorbt.records.base import Records
    from vectorbt.records.mapped_array import MappedArray
    if isinstance(v, Records):
        labs = list(v.wrapper.columns)
        out = {str(l): [] for l in labs}
        for r in v.values:
            out[str(labs[int(r["col"])])].append(tuple(float(r[n]) for n in v.values.dtype.names if n not in ("id", "col", "parent_id")))
        return {l: np.array(sorted(x), dtype=float) for l, x in out.items()}
    if isinstance(v, MappedArray):
        labs = list(v.wrapper.columns)
        return {str(l): np.array(v.values[v.col_arr == j], dtype=float) for j, l in enumerate(labs)}
    if isinstance(v, pd.DataFrame):
        a = {str(c): v.iloc[:, j].values for j, c in enumerate(v.columns)}
        return a
    if isinstance(v, pd.Series):
        return {None: v}
    if isinstance(v, np.ndarray) and v.dtype.names:
        return {"rows": v}
    return {None: v}


def align(v, labels):
    """norm() with Series and scalars resolved against the labels of the object they were read from."""
    d = norm(v, labels)
    if set(d) != {None}:
        return d
    x = d[None]
    if isinstance(x, pd.Series):
        idx = [str(i) for i in x.index]
        if idx == labels:
            return {l: np.array([x.iloc[j]]) for j, l in enumerate(labels)}
        return {labels[0] if len(labels) == 1 else str(x.name): x.values}
    return {labels[0] if len(labels) == 1 else "all": np.array([x])}


def vals(a):
    out = []
    for x in np.asarray(a, dtype=object).ravel():
        if isinstance(x, (pd.Timedelta, np.timedelta64)):
            x = pd.Timedelta(x).value if not pd.isnull(x) else float("nan")
        elif isinstance(x, (pd.Timestamp, np.datetime64)):
            x = pd.Timestamp(x).value if not pd.isnull(x) else float("nan")
        elif x is None or x is pd.NaT or x is pd.NA:
            x = float("nan")
        try:
            out.append(float(x))
        except (TypeError, ValueError):
            out.append(str(x))
    return out


def agree(a, b):
    a, b = vals(a), vals(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))):
            return False
    return True


class Node:
    def __init__(self, obj, cols, groups, units, regroup=None):
        self.obj, self.cols, self.groups, self.units, self.regroup = obj, cols, groups, units, regroup
        self.seen = {}


def labels_of(obj):
    return [str(c) for c in obj.wrapper.get_columns()]


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa
        return None, e


def run_sel(case, ctx):
    import vectorbt  # noqa
    N, kind = case["N"], case["kind"]
    groups = (case["groups"] + [9] * N)[:N]
    p = case["params"]
    grouped = kind in ("pf", "mapped") and p["grouped"] and p["kind"] != "holding" or (kind in ("pf", "mapped") and p["grouped"])
    obj, err = attempt(lambda: build(case, list(range(N)), groups))
    if err is not None:
        ctx.probe("object refused")
        return
    share = kind in ("pf", "mapped") and p["grouped"] and p["sharing"] and p["kind"] != "holding"
    nodes = [Node(obj, list(range(N)), groups if grouped else None, None)]
    for op in case["ops"]:
        node = nodes[op[1] % len(nodes)]
        ctx.tick(60)
        if op[0] == "read":
            path = op[2]
            if share and ("value(group_by=False)" in path or "returns(group_by=False)" in path or "drawdowns(group_by=False)" in path) and "asset" not in path:
                ctx.probe("read not defined when cash is shared")
                continue
            fresh, e1 = attempt(lambda: read(fresh_of(case, node), path))
            mine, e2 = attempt(lambda: read(node.obj, path))
            ctx.state(kind, path, len(node.cols), bool(node.groups), node.units)
            if e1 is not None or e2 is not None:
                ctx.probe("read refused: " + path)
                ctx.ev(path, "refused", type(e1).__name__, type(e2).__name__)
                if (e1 is None) != (e2 is None):
                    ctx.fail("selection-refused", f"{kind}.{path} on columns {node.cols} ({node.units}): selected object {e2!r}, fresh object {e1!r}")
                continue
            # when a selection made the object one-dimensional
            la, lb = labels_of(node.obj), labels_of(fresh_of(case, node))
            a, b = flat(mine, la), flat(fresh, lb)
            ctx.ev(path, node.cols, node.units, a)
            if not same_flat(a, b):
                ctx.fail(f"selection-{kind}", f"{kind}.{path} on columns {node.cols} (groups {node.groups}, regroup {node.regroup}, history {node.units}) params {p if kind == 'pf' else ''}:\nselected: {a}\nfresh: {b}")
            if path in node.seen and not same_flat(a, node.seen[path]):
                ctx.fail("reread", f"{kind}.{path} changed: first {node.seen[path]}, now {a}")
            node.seen.setdefault(path, a)
        elif op[0] == "select":
            do_select(case, ctx, nodes, node, op)
        elif op[0] == "regroup":
            if share or kind not in ("pf", "dd", "ranges", "mapped", "ret") or getattr(node.obj.wrapper, "ndim", 2) == 1 or kind == "ret":
                ctx.probe("cannot regroup")
                continue
            g = sorted((op[2] + [0] * N)[:len(node.cols)])
            new, e = attempt(lambda: node.obj.regroup(np.array(g)))
            if e is not None:
                ctx.fail("regroup-refused", f"{kind} columns {node.cols} regroup {g}: {e!r}")
            ctx.fault("regroup")
            nodes.append(Node(new, node.cols, g, (node.units or "") + "+regroup", g))


def fresh_of(case, node):
    o = build(case, node.cols, [case["groups"][c] if c < len(case["groups"]) else 9 for c in node.cols])
    if node.regroup is not None:
        o = o.regroup(np.array(node.regroup))
    return o


def flat(v, labels):
    d = align(v, labels)
    out = {}
    for k, x in d.items():
        if isinstance(x, np.ndarray) and x.dtype.names:
            x = [float(r[n]) for r in x for n in x.dtype.names if n not in ("id", "parent_id")]
        out[k] = vals(x)
    return out


def same_flat(a, b):
    if set(a) != set(b):
        if len(a) == 1 and len(b) == 1:
            return agree(list(a.values())[0], list(b.values())[0])
        return False
    return all(agree(a[k], b[k]) for k in a)


def do_select(case, ctx, nodes, node, op):
    how, keys = op[2], op[3]
    kind = case["kind"]
    w = node.obj.wrapper
    if w.grouper.is_grouped() if hasattr(w, "grouper") else False:
        labels = list(w.get_columns())
        members = [[c for c, g in zip(node.cols, w.grouper.get_groups()) if g == j] for j in range(len(labels))]
    else:
        labels = list(w.columns)
        members = [[c] for c in node.cols]
        if kind == "ind":
            members = [[c] for _ in case["windows"] for c in node.cols] if len(labels) == len(node.cols) * len(case["windows"]) else None
    ndim = w.get_ndim() if hasattr(w, "get_ndim") else w.ndim
    if ndim == 1 or members is None:
        ctx.probe("cannot select from one column")
        return
    n = len(labels)
    loc, iloc = node.obj.loc, node.obj.iloc
    if kind in ("gen", "sig", "ret", "ind"):
        class Cols:
            def __init__(self, x):
                self.x = x

            def __getitem__(self, key):
                return self.x[:, key]
        loc, iloc = Cols(loc), Cols(iloc)
    if kind == "ind":
        # all parameters of the chosen columns
        m = len(node.cols)
        pick = [j for j in range(m) if keys[j % len(keys)] < 0.6] or [0]
        pos = [q * m + j for q in range(len(case["windows"])) for j in pick]
        new, e = attempt(lambda: iloc[pos] if how in ("iloc", "ilist", "slice", "reversed") else loc[[labels[q] for q in pos]] if how == "loc" else node.obj[[labels[q] for q in pos]])
        if e is not None:
            ctx.fail("select-refused", f"{kind} {how} {pos}: {e!r}")
        ctx.fault("select " + how)
        nodes.append(Node(new, [node.cols[j] for j in pick], None, (node.units or "") + "+" + how))
        return
    pos = [j for j in range(n) if keys[j % len(keys)] < 0.6] or [0]
    if how == "label":
        pos = pos[:1]
        fn = lambda: node.obj[labels[pos[0]]]
    elif how == "labels":
        fn = lambda: node.obj[[labels[j] for j in pos]]
    elif how == "iloc":
        pos = pos[-1:]
        fn = lambda: iloc[pos[0]]
    elif how == "slice":
        pos = list(range(pos[0], pos[-1] + 1))
        fn = lambda: iloc[pos[0]:pos[-1] + 1]
    elif how == "ilist":
        fn = lambda: iloc[list(pos)]
    elif how == "reversed":
        pos = pos[::-1]
        fn = lambda: iloc[list(pos)]
    elif how == "mask":
        fn = lambda: loc[[j in pos for j in range(n)]]
    else:
        fn = lambda: loc[[labels[j] for j in pos]]
    new, e = attempt(fn)
    if e is not None:
        ctx.fail("select-refused", f"{kind} {how} {pos} of {labels}: {e!r}")
    ctx.fault("select " + how)
    cols = [c for j in pos for c in members[j]]
    g = None
    if node.regroup is not None:
        byc = dict(zip(node.cols, node.regroup))
        g = [byc[c] for c in cols]
    nodes.append(Node(new, cols, node.groups, (node.units or "") + "+" + how, g))


def warm(mode):
    import vectorbt  # noqa


SCENARIOS = [Scenario("feeds", gen_feeds, run_feeds, 350, 10000, real=REAL, stub=STUB, timeout=240),
             Scenario("selections", gen_sel, run_sel, 350, 10000, real=REAL, stub=STUB, timeout=240)]
