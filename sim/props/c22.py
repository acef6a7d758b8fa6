"""C22: tables of records under histories of selections, filters, sorts, mappings and reductions.

A pool of live records and mapped arrays goes through a seeded history; a list of rows and column labels per object runs in
lockstep.  Results are compared with the rows, cell by cell, every object ever made is read again at the end, functions that
raise in the middle are injected, and the global cache switch is flipped in between."""
import math
import warnings

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario

REAL = ["records.base Records", "records.mapped_array MappedArray", "records.col_mapper ColumnMapper", "records.nb / records.dispatch", "base.array_wrapper indexing and grouping",
        "orders, ranges, trades and drawdowns subclasses", "utils.decorators caches", "utils.mapping"]
STUB = ["mapping, mask, apply and reduce callbacks (pure functions of the harness; some raise)"]
KINDS = ["base", "base", "orders", "ranges", "trades", "drawdowns"]
VALUE = dict(base="val", orders="price", ranges="start_idx", trades="pnl", drawdowns="end_val")
STATUS = dict(base="st", orders="side", ranges="status", trades="status", drawdowns="status")
IDX = dict(base="idx", orders="idx", ranges="end_idx", trades="exit_idx", drawdowns="end_idx")
NAN = float("nan")
STATES = dict(orders=["Buy", "Sell"], ranges=["Open", "Closed"], trades=["Open", "Closed"], drawdowns=["Active", "Recovered"])


class Boom(Exception):
    pass


# ------------------------------------------------------------------ model
class Model:
    def __init__(self, kind, cols, groups, rows, index, mapped=None, mapping=None, has_idx=True, src=None):
        self.kind, self.cols, self.groups, self.rows, self.index = kind, list(cols), None if groups is None else list(groups), [dict(r) for r in rows], index
        self.mapped = mapped  # None for records, otherwise the key of the mapped value
        self.mapping, self.has_idx = mapping, has_idx
        self.src = list(range(len(cols))) if src is None else list(src)  # column of the original table

    def but(self, **kw):
        o = Model(self.kind, self.cols, self.groups, self.rows, self.index, self.mapped, self.mapping, self.has_idx, self.src)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def buckets(self, gb):
        """(labels, bucket of each column) under a group_by argument."""
        g = self.groups if gb is None else None if gb is False else ["group"] * len(self.cols) if gb is True else list(gb)
        if g is None:
            return list(self.cols), list(range(len(self.cols)))
        labels = list(dict.fromkeys(g))
        return labels, [labels.index(x) for x in g]

    def split(self, gb, key=None):
        labels, of = self.buckets(gb)
        out = [[] for _ in labels]
        for r in self.rows:
            out[of[r["col"]]].append(r if key is None else r[key])
        return labels, out

    def regroup(self, gb):
        if gb is None:
            return self.but()
        return self.but(groups=None if gb is False else ["group"] * len(self.cols) if gb is True else list(gb))

    def sort(self, incl_id):
        return self.but(rows=sorted(self.rows, key=lambda r: (r["col"], r["id"]) if incl_id else r["col"]))

    def take(self, pos):
        return self.but(rows=[dict(self.rows[i]) for i in pos])

    def columns(self, pos, groups):
        rows = []
        for new, old in enumerate(pos):
            rows += [dict(r, col=new) for r in self.rows if r["col"] == old]
        return self.but(cols=[self.cols[i] for i in pos], groups=groups, rows=rows, src=[self.src[i] for i in pos])


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def same(a, b):
    if a is None or b is None:
        return (a is None or isnan(a)) and (b is None or isnan(b))
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b or (isinstance(a, bool) or isinstance(b, bool)) and a == b
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def plain(x):
    if x is None or x is pd.NaT or x is pd.NA:
        return None
    if isinstance(x, pd.Timestamp):
        return str(x)
    if isinstance(x, np.generic):
        x = x.item()
    return x if isinstance(x, (str, bool, int, float)) else str(x)


def flat(out):
    """Reduced output as a list of cells with the labels, if any."""
    if isinstance(out, pd.Series):
        return [plain(x) for x in out.tolist()], [plain(x) for x in out.index]
    return [plain(out)], None


def cells(out):
    if isinstance(out, pd.Series):
        return [[plain(x)] for x in out.tolist()], None, [plain(x) for x in out.index]
    return [[plain(x) for x in row] for row in out.astype(object).values.tolist()], [plain(x) for x in out.columns], [plain(x) for x in out.index]


def quantile(v, q):
    return float(np.percentile(np.array(v, dtype=float), q * 100)) if v else NAN


def reduction(name, v, arg=None):
    """Model of a reduction of one bucket; raises ValueError like the documented function."""
    if name == "nth":
        if arg >= len(v) or -arg > len(v):
            raise ValueError
        return v[arg]
    c = [x for x in v if not isnan(x)]
    if name == "sum":
        return math.fsum(c)
    if not c:
        return NAN
    if name == "min":
        return min(c)
    if name == "max":
        return max(c)
    if name == "mean":
        return math.fsum(c) / len(c)
    if name == "median":
        c = sorted(c)
        return c[len(c) // 2] if len(c) % 2 else (c[len(c) // 2 - 1] + c[len(c) // 2]) / 2
    if name == "std":
        if len(c) <= arg:
            return NAN
        m = math.fsum(c) / len(c)
        return math.sqrt(math.fsum((x - m) ** 2 for x in c) / (len(c) - arg))
    raise KeyError(name)


# ------------------------------------------------------------------ real objects
base_dt = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("val", np.float64), ("st", np.int64)], align=True)


def real(case):
    import vectorbt as vbt
    from vectorbt.base.array_wrapper import ArrayWrapper
    from vectorbt.generic.enums import drawdown_dt, range_dt
    from vectorbt.portfolio.enums import order_dt, trade_dt
    from vectorbt.records.base import Records
    kind = case["kind"]
    k, n = case["k"], case["n"]
    index = objs.axis(case["index"], n)
    columns = [f"c{i}" for i in range(k)]
    dt = dict(base=base_dt, orders=order_dt, ranges=range_dt, trades=trade_dt, drawdowns=drawdown_dt)[kind]
    arr = np.zeros(len(case["rows"]), dtype=dt)
    for i, (rid, col, idx, val, st) in enumerate(case["rows"]):
        arr["id"][i], arr["col"][i], arr[IDX[kind]][i], arr[STATUS[kind]][i] = rid, col, idx, st
        if kind == "ranges":
            arr["start_idx"][i] = int(val)
        else:
            arr[VALUE[kind]][i] = NAN if val is None else val
        if kind == "drawdowns":
            arr["peak_val"][i] = 1.0
    wrapper = ArrayWrapper(index, pd.Index(columns), 1 if case["one"] else 2, freq="1D", group_by=case["group"] if case["group"] is None else pd.Index(case["group"]))
    ts = pd.DataFrame(np.arange(n * k, dtype=float).reshape(n, k), index=index, columns=columns)
    if case["one"]:
        ts = ts.iloc[:, 0]
    cls = dict(base=Records, orders=vbt.Orders, ranges=vbt.Ranges, trades=vbt.Trades, drawdowns=vbt.Drawdowns)[kind]
    kw = {} if kind == "base" else dict(close=ts) if kind in ("orders", "trades") else dict(ts=ts)
    obj = cls(wrapper, arr, **kw)
    rows = [dict(id=rid, col=col, idx=idx, val=(NAN if val is None else float(int(val)) if kind == "ranges" else float(val)), st=st) for rid, col, idx, val, st in case["rows"]]
    return obj, Model(kind, columns, case["group"], rows, [plain(x) for x in index])


# ------------------------------------------------------------------ cases
GB = [None, None, None, False, True, "mono", "two"]


def gen(rng):
    kind = rng.pick(*KINDS)
    n, k = rng.randint(2, 6), rng.randint(1, 4)
    m = rng.pick(0, 1, 3, 6, 10, 14)
    few, gaps = rng.random() < 0.4, rng.pick(0, 0.12, 0.12, 0.5, 0.9)
    rows = []
    used = {}
    for i in range(m):
        col = rng.randint(0, k - 1)
        if rng.random() < 0.15:
            col = 0
        used[col] = used.get(col, -1) + 1
        val = None if rng.random() < gaps and kind != "ranges" else rng.pick(1.0, 2.0, 2.0, -3.0, 0.0) if few else round(rng.uniform(-9, 9), 2)
        if kind == "ranges":
            val = rng.randint(0, n - 1)
        rows.append([used[col], col, rng.randint(0, n - 1), val, rng.randint(0, 1)])
    if rng.random() < 0.5:
        rows.sort(key=lambda r: r[1])
    elif rng.random() < 0.3:
        rng.shuffle(rows)
    group = None
    if rng.random() < 0.4:
        group = [f"g{i}" for i in sorted(rng.randint(0, 1) for _ in range(k))]
    ops = []
    for _ in range(rng.randint(4, 16)):
        ops.append([rng.pick(*OPS), rng.randint(0, 99), rng.randint(0, 10**6)])
    return dict(kind=kind, n=n, k=k, rows=rows, group=group, one=k == 1 and rng.random() < 0.5, index=rng.pick("range", "days", "tz", "str", "float"), ops=ops)


OPS = ["select", "select", "mask", "sort", "regroup", "map", "map", "map_array", "apply", "top", "arith", "to_pd", "to_pd", "reduce", "reduce", "reduce", "idx", "describe",
       "counts", "counts", "count", "readable", "filter", "mapping", "to_index", "cache", "copy", "boom", "wrong", "custom", "extra"]


def pick_gb(r, m):
    x = r.pick(*GB)
    if x == "two":
        return [f"i{int(2 * i >= len(m.cols))}" for i in range(len(m.cols))]
    if x == "mono":
        return [f"h{i // 2}" for i in range(len(m.cols))]
    return x


def as_gb(gb):
    return np.array(gb) if isinstance(gb, list) else gb


class Draw:
    """Draws of one step, a function of the seed in the case only."""

    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def pick(self, *a):
        return a[self.r.randrange(len(a))]

    def randint(self, a, b):
        return self.r.randint(a, b)

    def random(self):
        return self.r.random()


def run(case, ctx):
    from vectorbt import settings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            play(case, ctx, settings)
        finally:
            settings.caching["enabled"] = True


def values_of(o, m):
    if m.mapped is not None:
        return [plain(x) for x in o.values.tolist()]
    return [plain(x) for x in o.values[VALUE[m.kind]].tolist()]


def compare(ctx, o, m, what):
    """The object holds exactly the rows, columns and groups of the model."""
    key = "v" if m.mapped else "val"
    ctx.check(len(o) == len(m.rows), "rows-count", f"{what}: {len(o)} rows, expected {len(m.rows)}")
    for name, got in (("id", o.id_arr), ("col", o.col_arr)):
        want = [r[name] for r in m.rows]
        ctx.check([int(x) for x in got] == want, "rows-" + name, f"{what}: {name} {list(got)}, expected {want}")
    got = values_of(o, m)
    want = [r[key] for r in m.rows]
    ctx.check(all(same(a, b) for a, b in zip(got, want)), "rows-value", f"{what}: values {got}, expected {want}")
    if m.has_idx:
        ctx.check(o.idx_arr is not None and [int(x) for x in o.idx_arr] == [r["idx"] for r in m.rows], "rows-idx", f"{what}: idx {o.idx_arr}, expected {[r['idx'] for r in m.rows]}")
    else:
        ctx.check(o.idx_arr is None, "rows-idx", f"{what}: idx {o.idx_arr}, expected none")
    if m.mapped is None:
        st = [int(x) for x in o.values[STATUS[m.kind]]]
        ctx.check(st == [r["st"] for r in m.rows], "rows-status", f"{what}: status {st}")
    ctx.check([plain(c) for c in o.wrapper.columns] == m.cols, "columns", f"{what}: columns {list(o.wrapper.columns)}, expected {m.cols}")
    gl = m.buckets(None)[0]
    ctx.check([plain(c) for c in o.wrapper.get_columns()] == gl, "groups", f"{what}: groups {list(o.wrapper.get_columns())}, expected {gl}")
    ctx.check([plain(x) for x in o.wrapper.index] == m.index, "index", f"{what}: index changed")
    # the column mapper belongs to these rows
    idxs, lens = o.col_mapper.get_col_map()
    _, buckets = m.split(None, None)
    wl = [len(b) for b in buckets]
    ctx.check([int(x) for x in lens] == wl, "column-map", f"{what}: lengths {list(lens)}, expected {wl}")
    order = [m.rows[int(i)] for i in idxs]
    ctx.check([id(r) for r in order] == [id(r) for b in buckets for r in b], "column-map", f"{what}: column map {list(idxs)} isn't the rows of each column in order")
    ctx.check(bool(o.is_sorted()) == all(a["col"] <= b["col"] for a, b in zip(m.rows, m.rows[1:])), "is-sorted", f"{what}: is_sorted {o.is_sorted()}")
    ctx.check(bool(o.is_sorted(incl_id=True)) == all((a["col"], a["id"]) <= (b["col"], b["id"]) for a, b in zip(m.rows, m.rows[1:])), "is-sorted-id", f"{what}: is_sorted(incl_id) wrong")
    if m.mapped is None and m.kind != "base":
        ts = o.close if m.kind in ("orders", "trades") else o.ts
        got = ts.values.reshape(len(m.index), -1)
        want = [[float(i * ctx.k + s) for s in m.src] for i in range(len(m.index))]
        ctx.check(got.tolist() == want, "attached-series", f"{what}: the attached series has columns {got.tolist()}, expected {want}")


def reduced(ctx, out, labels, want, what, name=None):
    got, lab = flat(out)
    if name is not None and isinstance(out, pd.Series):
        ctx.check(out.name == name, "reduced-name", f"{what}: named {out.name}")
    ctx.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), "reduced", f"{what}: {got}, expected {want}")
    if len(want) > 1:
        ctx.check(lab == labels, "reduced-labels", f"{what}: labels {lab}, expected {labels}")


def expanded(ctx, out, labels, index, want, what):
    got, lab, idx = cells(out)
    ctx.check(len(got) == len(want) and all(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) for a, b in zip(got, want)), "expanded", f"{what}: {got}, expected {want}")
    if lab is not None and len(labels) > 1:
        ctx.check(lab == labels, "expanded-labels", f"{what}: columns {lab}, expected {labels}")
    ctx.check(index is None or idx == index, "expanded-index", f"{what}: index {idx}, expected {index}")


def play(case, ctx, settings):
    ctx.k = case["k"]
    pool = [real(case)]
    compare(ctx, *pool[0], "built")
    for step, (op, which, seed) in enumerate(case["ops"]):
        r = Draw(seed)
        o, m = pool[which % len(pool)]
        if op in ("top", "arith", "to_pd", "reduce", "idx", "describe", "counts", "mapping", "to_index", "custom") and m.mapped is None:
            # on the values of the records
            o, m = map_value(ctx, o, m, r)
        what = f"step {step} {op} on object {which % len(pool)} ({m.kind}{'' if m.mapped is None else ' mapped ' + m.mapped}, columns {m.cols}, groups {m.groups}, {len(m.rows)} rows)"
        res = STEP[op](ctx, o, m, r, what, settings)
        if res is not None:
            compare(ctx, *res, what)
            pool.append(res)
        ctx.ev(op, len(m.rows), m.groups is not None, None if res is None else len(res[1].rows))
        ctx.state(op, m.kind, m.mapped is not None, m.groups is not None, min(3, len(m.rows)), settings.caching["enabled"])
        ctx.tick(1)
    for i, (o, m) in enumerate(pool):
        compare(ctx, o, m, f"object {i} at the end")


def map_value(ctx, o, m, r, gb=None):
    kind = m.kind
    what = r.pick("val", "val", "val", "id", "col", "st", "idx")
    field = dict(val=VALUE[kind], id="id", col="col", st=STATUS[kind], idx=IDX[kind])[what]
    mapping, mm = None, None
    if what == "st" and r.random() < 0.7:
        mapping = mm = r.pick({0: "zero", 1: "one"}, {0: "zero", 1: "one", 2: "two"})
    elif what == "idx" and r.random() < 0.5:
        mapping, mm = "index", "index"
    elif what == "col" and r.random() < 0.5:
        mapping, mm = "columns", "columns"
    elif what == "val" and r.random() < 0.3:
        mapping = mm = {-3.0: "minus three", 0.0: "zero", 1.0: "one", 2.0: "two", 7.0: "seven"}
    how = r.pick("map_field", "get_map_field", "map")
    if how == "get_map_field":
        p = o.get_map_field(field) if field in o.field_config["settings"] or m.kind == "base" else o.map_field(field)
        mm = dict(idx="index", col="columns").get(what) if field in ("col", IDX[kind]) else None
        if what == "val" and kind == "ranges":
            mm = "index"
        elif what == "st" and kind != "base":
            mm = {**dict(enumerate(STATES[kind])), -1: None}
    elif how == "map":
        p = o.map(lambda rec: rec[field], dtype=None if what == "val" else np.int64, mapping=mapping)
    else:
        p = o.map_field(field, mapping=mapping, **({} if gb is None else dict(group_by=as_gb(gb))))
        if gb is not None:
            m = m.regroup(gb)
    if mm == "index":
        mm = dict(enumerate(m.index))
    elif mm == "columns":
        mm = dict(enumerate(m.cols))
    q = m.but(mapped=what, mapping=mm, rows=[dict(x, v=x[what]) for x in m.rows])
    compare(ctx, p, q, f"{how} of {field}")
    return p, q


# ------------------------------------------------------------------ steps
def s_select(ctx, o, m, r, what, settings):
    if o.wrapper.get_ndim() == 1:
        return None
    labels, of = m.buckets(None)
    dup = len(set(labels)) < len(labels)
    n = len(labels)
    how = r.pick("one", "list", "iloc", "ilist", "bool", "slice")
    if dup and how in ("one", "list", "slice"):
        how = "ilist"
    if how in ("one", "iloc"):
        pos = [r.randint(0, n - 1)]
        p = o[labels[pos[0]]] if how == "one" else o.iloc[pos[0]]
    elif how in ("list", "ilist"):
        pos = [r.randint(0, n - 1) for _ in range(r.randint(1, n + 1))]
        if m.groups is not None:
            pos = list(dict.fromkeys(pos))
        p = o[[labels[i] for i in pos]] if how == "list" else o.iloc[pos]
    elif how == "bool":
        flags = [r.random() < 0.6 for _ in range(n)]
        flags[r.randint(0, n - 1)] = True
        pos = [i for i, f in enumerate(flags) if f]
        p = o.loc[flags]
    else:
        a = r.randint(0, n - 1)
        b = r.randint(a, n - 1)
        pos = list(range(a, b + 1))
        p = o.loc[labels[a]:labels[b]]
    if len(set(pos)) < len(pos):
        ctx.probe("repeated-columns")
    if m.groups is None:
        return p, m.columns(pos, None)
    cpos = [c for g in pos for c in range(len(m.cols)) if of[c] == g]
    return p, m.columns(cpos, [m.groups[c] for c in cpos])


def s_mask(ctx, o, m, r, what, settings):
    mask = [r.random() < r.pick(0.0, 0.3, 0.7, 1.0) for _ in m.rows]
    gb = pick_gb(r, m)
    p = o.apply_mask(np.array(mask, dtype=bool), group_by=as_gb(gb))
    return p, m.take([i for i, f in enumerate(mask) if f]).regroup(gb)


def s_sort(ctx, o, m, r, what, settings):
    incl = r.random() < 0.5
    gb = pick_gb(r, m)
    return o.sort(incl_id=incl, group_by=as_gb(gb)), m.sort(incl).regroup(gb)


def s_regroup(ctx, o, m, r, what, settings):
    gb = pick_gb(r, m)
    return o.regroup(as_gb(gb)), m.regroup(gb)


def s_map(ctx, o, m, r, what, settings):
    if m.mapped is not None:
        return None
    return map_value(ctx, o, m, r, pick_gb(r, m))


def s_map_array(ctx, o, m, r, what, settings):
    if m.mapped is not None:
        return None
    a = [r.pick(NAN, 1.0, 2.0, float(r.randint(-5, 5))) for _ in m.rows]
    idx = [r.randint(0, len(m.index) - 1) for _ in m.rows] if r.random() < 0.5 else None
    gb = pick_gb(r, m)
    p = o.map_array(np.array(a, dtype=float), idx_arr=None if idx is None else np.array(idx, dtype=int), group_by=as_gb(gb))
    rows = [dict(x, v=v) for x, v in zip(m.rows, a)]
    if idx is not None:
        rows = [dict(x, idx=i) for x, i in zip(rows, idx)]
    return p, m.but(rows=rows, mapped="val").regroup(gb)


def s_apply(ctx, o, m, r, what, settings):
    """Running numbers and sums per column or group, in row order."""
    per = r.random() < 0.5
    gb = pick_gb(r, m)
    key = "v" if m.mapped else "val"
    if m.mapped is None:
        field = VALUE[m.kind]
        p = o.apply(lambda recs: np.cumsum(np.where(np.isnan(recs[field].astype(float)), 0.0, recs[field])) + len(recs) * 100, group_by=as_gb(gb), apply_per_group=per)
    else:
        seen = []

        def f(idxs, col, a):
            seen.append((int(col), [int(i) for i in idxs]))
            return np.cumsum(np.where(np.isnan(a.astype(float)), 0.0, a)) + len(a) * 100
        p = o.apply(f, group_by=as_gb(gb), apply_per_group=per)
    _, of = m.buckets(gb if per else False)
    total, size, vals = {}, {}, []
    for x in m.rows:
        size[of[x["col"]]] = size.get(of[x["col"]], 0) + 1
    for x in m.rows:
        b = of[x["col"]]
        total[b] = total.get(b, 0.0) + (0.0 if isnan(x[key]) else x[key])
        vals.append(total[b] + size[b] * 100)
    if m.mapped is not None:
        want = [(b, [i for i, x in enumerate(m.rows) if of[x["col"]] == b]) for b in sorted(size)]
        ctx.check(seen == want, "apply-args", f"{what}: function called with {seen}, expected {want}")
    return p, m.but(rows=[dict(x, v=v) for x, v in zip(m.rows, vals)], mapped="val", mapping=m.mapping if m.mapped is not None else None).regroup(gb)


def s_top(ctx, o, m, r, what, settings):
    n, top = r.pick(0, 1, 2, 3, 4, 5, 7), r.random() < 0.5
    p = o.top_n(n) if top else o.bottom_n(n)
    keep = set()
    _, of = m.buckets(None)
    for b in set(of):
        pos = [i for i, x in enumerate(m.rows) if of[x["col"]] == b]
        ok = [i for i in pos if not isnan(m.rows[i]["v"])]
        got = [i for i in pos if i in set(keeps(p, m))]
        want = sorted((m.rows[i]["v"] for i in ok), reverse=top)[:n]
        have = sorted((m.rows[i]["v"] for i in got if not isnan(m.rows[i]["v"])), reverse=top)
        ctx.check(have == want and len(got) == min(n, len(pos)), "top-n", f"{what}: {'top' if top else 'bottom'} {n} of {[m.rows[i]["v"] for i in pos]} gives {[m.rows[i]["v"] for i in got]}")
        keep |= set(got)
    return p, m.take(sorted(keep))


def keeps(p, m):
    """Positions of the rows of the filtered object in the model: by matching in order."""
    out, j = [], 0
    ids, cols = [int(x) for x in p.id_arr], [int(x) for x in p.col_arr]
    vals = [plain(x) for x in p.values.tolist()]
    idx = [None] * len(ids) if p.idx_arr is None else [int(x) for x in p.idx_arr]
    for i, x in enumerate(m.rows):
        if j < len(ids) and ids[j] == x["id"] and cols[j] == x["col"] and same(vals[j], x["v"]) and idx[j] in (None, x["idx"]):
            out.append(i)
            j += 1
    return out


def s_arith(ctx, o, m, r, what, settings):
    how = r.pick("add", "radd", "mul", "neg", "gt", "self", "abs", "array")
    if how in ("add", "radd"):
        p, f = (o + 1.5 if how == "add" else 1.5 + o), lambda x: x + 1.5
    elif how == "mul":
        p, f = o * 2, lambda x: x * 2
    elif how == "neg":
        p, f = -o, lambda x: -x
    elif how == "abs":
        p, f = abs(o), abs
    elif how == "gt":
        p, f = (o > 1) * 1.0, lambda x: 1.0 if x > 1 else 0.0
    elif how == "self":
        p, f = o - o * 2, lambda x: -x
    else:
        a = np.arange(len(m.rows), dtype=float)
        p = o + a
        return p, m.but(rows=[dict(x, v=x["v"] + i) for i, x in enumerate(m.rows)], mapped="val")
    return p, m.but(rows=[dict(x, v=f(x["v"])) for x in m.rows], mapped="val" if how in ("add", "radd", "gt") else m.mapped)


def s_to_pd(ctx, o, m, r, what, settings):
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb)
    fill = r.pick(NAN, 0.0, -1.0)
    if r.random() < 0.4:
        out = o.to_pd(ignore_index=True, fill_value=fill, group_by=as_gb(gb))
        h = max([len(b) for b in buckets], default=0)
        want = [[b[i]["v"] if i < len(b) else fill for b in buckets] for i in range(h)]
        expanded(ctx, out, labels, None, want, f"{what} to_pd(ignore_index, {gb})")
        return None
    idx = None
    if r.random() < 0.3:
        idx = [r.randint(0, len(m.index) - 1) for _ in m.rows]
    at = lambda i, x: x["idx"] if idx is None else idx[i]
    _, of = m.buckets(gb)
    spots = [(at(i, x), of[x["col"]]) for i, x in enumerate(m.rows)]
    clash = len(set(spots)) < len(spots)
    kw = {} if idx is None else dict(idx_arr=np.array(idx, dtype=int))
    if not m.has_idx and idx is None:
        return None
    ctx.check(bool(o.is_expandable(group_by=as_gb(gb), **kw)) == (not clash), "is-expandable", f"{what}: is_expandable is {clash}, positions {spots}")
    try:
        out = o.to_pd(fill_value=fill, group_by=as_gb(gb), **kw)
    except ValueError as e:
        ctx.check(clash, "to-pd-refused", f"{what}: {e}")
        ctx.fault("two-values-for-one-cell")
        return None
    ctx.check(not clash, "value-lost", f"{what}: two values point to one cell of {spots}, but to_pd doesn't refuse")
    want = [[fill for _ in labels] for _ in m.index]
    for (i, c), x in zip(spots, m.rows):
        want[i][c] = x["v"]
    expanded(ctx, out, labels, m.index, want, f"{what} to_pd({gb})")
    return None


def s_reduce(ctx, o, m, r, what, settings):
    name = r.pick("min", "max", "mean", "median", "std", "sum", "nth", "nth")
    arg = r.pick(0, -1, 1, -2) if name == "nth" else r.pick(0, 1) if name == "std" else None
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb, "v")
    err = False
    want = []
    for b in buckets:
        try:
            want.append(reduction(name, [float(x) for x in b], arg) if b else 0.0 if name == "sum" else NAN)
        except ValueError:
            err = True
    a = () if name != "nth" else (arg,)
    kw = dict(ddof=arg) if name == "std" else {}
    try:
        out = getattr(o, name)(*a, group_by=as_gb(gb), **kw)
    except ValueError:
        ctx.check(err, "reduce-refused", f"{what}: {name}({arg}) raises")
        ctx.fault("out-of-bounds")
        return None
    ctx.check(not err, "out-of-bounds", f"{what}: {name}({arg}) of {buckets} accepted")
    reduced(ctx, out, labels, want, f"{what}: {name}({arg}, group_by={gb})", name)
    return None


def s_idx(ctx, o, m, r, what, settings):
    name = r.pick("idxmin", "idxmax", "nth_index")
    if not m.has_idx or (name != "nth_index" and o.values.dtype.kind != "f"):
        return None
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb)
    arg = r.pick(0, -1, 1)
    raw = r.random() < 0.3
    want, err = [], False
    for b in buckets:
        v = [float(x["v"]) for x in b]
        if not b:
            want.append(-1 if raw else None)
            continue
        try:
            if name == "nth_index":
                reduction("nth", v, arg)
                i = arg % len(b)
            else:
                c = [x for x in v if not isnan(x)]
                if not c:
                    raise ValueError
                i = v.index(min(c) if name == "idxmin" else max(c))
        except ValueError:
            err = True
            break
        want.append(b[i]["idx"] if raw else m.index[b[i]["idx"]])
    a = (arg,) if name == "nth_index" else ()
    try:
        out = getattr(o, name)(*a, group_by=as_gb(gb), **(dict(to_index=False) if raw else {}))
    except ValueError:
        ctx.check(err, "reduce-refused", f"{what}: {name} raises")
        return None
    ctx.check(not err, "out-of-bounds", f"{what}: {name} accepted")
    reduced(ctx, out, labels, want, f"{what}: {name}({a}, group_by={gb}, raw={raw})", name)
    return None


def s_describe(ctx, o, m, r, what, settings):
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb, "v")
    ddof = r.pick(0, 1, 1)
    if not m.rows and (ddof == 0 or m.buckets(gb)[0] != m.cols):
        return None  # left undefined by the interpreted code, all NaN when compiled
    percs = r.pick(None, [0.1, 0.5], [0.5, 0.9], [0.9, 0.2], [0.05])
    out = o.describe(percentiles=percs, ddof=ddof, group_by=as_gb(gb))
    # whether the median is added to percentiles asked for without it is pandas' to say
    ps = [0.25, 0.5, 0.75] if percs is None else sorted({*percs, *([0.5] if "50%" in list(out.index) else [])})
    cols = []
    for b in buckets:
        v = [float(x) for x in b if not isnan(x)]
        cols.append([float(len(v)), reduction("mean", v), reduction("std", v, ddof), reduction("min", v), *[quantile(v, p) for p in ps], reduction("max", v)])
    want = [list(x) for x in zip(*cols)]
    names = ["count", "mean", "std", "min", *[f"{round(p * 100)}%" for p in ps], "max"]
    expanded(ctx, out, labels, names, want, f"{what}: describe({percs}, {ddof}, {gb})")
    return None


def s_counts(ctx, o, m, r, what, settings):
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb, "v")
    kw = dict(normalize=r.random() < 0.3, sort_uniques=r.random() < 0.7, sort=r.random() < 0.4, ascending=r.random() < 0.5, dropna=r.random() < 0.3, incl_all_keys=r.random() < 0.3)
    seen = []
    for x in m.rows:
        v = x["v"]
        if not any(same(v, y) for y in seen):
            seen.append(v)
    keys = list(seen)
    mapping = m.mapping
    if kw["incl_all_keys"] and mapping is not None:
        keys += [k for k in mapping if not any(same(k, y) for y in seen)]
    if kw["dropna"]:
        keys = [k for k in keys if not isnan(k)]
    if kw["sort_uniques"]:
        keys = sorted([k for k in keys if not isnan(k)]) + [k for k in keys if isnan(k)]
    table = [[sum(1 for x in b if same(x, k)) for b in buckets] for k in keys]
    total = sum(map(sum, table))
    pairs = list(zip(keys, table))
    if kw["sort"]:
        pairs.sort(key=lambda p: sum(p[1]) if kw["ascending"] else -sum(p[1]))
    if kw["normalize"]:
        pairs = [(k, [x / total if total else NAN for x in t]) for k, t in pairs]
    bad = mapping is not None and any(not isnan(k) and not any(same(k, y) for y in mapping) for k, _ in pairs)
    try:
        out = o.value_counts(group_by=as_gb(gb), **kw)
    except (KeyError, ValueError) as e:
        ctx.check(bad, "value-counts-refused", f"{what}: {e!r}")
        ctx.fault("key-not-in-mapping")
        return None
    ctx.check(not bad, "value-counts-accepted", f"{what}: mapping {mapping} without a key of {keys}")
    names = [None if mapping is not None and isnan(k) else next(v for y, v in mapping.items() if same(k, y)) if mapping is not None else k for k, _ in pairs]
    expanded(ctx, out, labels, None, [t for _, t in pairs], f"{what}: value_counts({kw}, {gb}) of {buckets}")
    got = [plain(x) for x in out.index]
    ctx.check(len(got) == len(names) and all(same(a, b) for a, b in zip(got, names)), "value-counts-keys", f"{what}: keys {got}, expected {names}")
    return None


def s_count(ctx, o, m, r, what, settings):
    gb = pick_gb(r, m)
    if len(m.cols) > 2 and r.random() < 0.2:
        try:
            o.count(group_by=np.array([i % 2 for i in range(len(m.cols))]))
        except ValueError:
            ctx.fault("groups-not-coherent")
        else:
            ctx.check(False, "incoherent-groups", f"{what}: accepted")
    labels, buckets = m.split(gb)
    reduced(ctx, o.count(group_by=as_gb(gb)), labels, [len(b) for b in buckets], f"{what}: count({gb})")
    return None


def s_readable(ctx, o, m, r, what, settings):
    if m.mapped is not None:
        return None
    df = o.records_readable
    ctx.check(len(df) == len(m.rows), "readable", f"{what}: {len(df)} rows")
    title = dict(base="Timestamp", orders="Timestamp", ranges="End Timestamp", trades="Exit Timestamp", drawdowns="End Timestamp")[m.kind]
    got = [plain(x) for x in df["Column"]]
    ctx.check(got == [m.cols[x["col"]] for x in m.rows], "readable-column", f"{what}: Column {got}")
    got = [plain(x) for x in df[title]]
    ctx.check(got == [m.index[x["idx"]] for x in m.rows], "readable-time", f"{what}: {title} {got}")
    if m.kind != "base":
        c = "Side" if m.kind == "orders" else "Status"
        n = STATES[m.kind]
        got = [plain(x) for x in df[c]]
        ctx.check(got == [n[x["st"]] for x in m.rows], "readable-status", f"{what}: {c} {got}")
    return None


def s_filter(ctx, o, m, r, what, settings):
    if m.mapped is not None or m.kind == "base":
        return None
    name, f = r.pick(*dict(orders=[("buy", lambda x: x["st"] == 0), ("sell", lambda x: x["st"] == 1)], ranges=[("open", lambda x: x["st"] == 0), ("closed", lambda x: x["st"] == 1)],
                           trades=[("open", lambda x: x["st"] == 0), ("closed", lambda x: x["st"] == 1), ("winning", lambda x: x["val"] > 0), ("losing", lambda x: x["val"] < 0)],
                           drawdowns=[("active", lambda x: x["st"] == 0), ("recovered", lambda x: x["st"] == 1)])[m.kind])
    return getattr(o, name), m.take([i for i, x in enumerate(m.rows) if f(x)])


def s_mapping(ctx, o, m, r, what, settings):
    if m.mapping is None:
        mp = None
    else:
        mp = {k: v for k, v in m.mapping.items()}
    bad = mp is not None and any(not isnan(x["v"]) and not any(same(x["v"], k) for k in mp) for x in m.rows)
    try:
        out = o.apply_mapping()
    except (KeyError, ValueError) as e:
        ctx.check(bad, "mapping-refused", f"{what}: {e!r}")
        return None
    ctx.check(not bad, "mapping-accepted", f"{what}: {m.mapping}")
    got = [plain(x) for x in out.values.tolist()]
    want = [x["v"] if mp is None else None if isnan(x["v"]) else next(v for k, v in mp.items() if same(k, x["v"])) for x in m.rows]
    ctx.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), "mapping", f"{what}: {got}, expected {want}")
    return None


def s_to_index(ctx, o, m, r, what, settings):
    if m.mapped not in ("idx", "st", "col") or any(not 0 <= x["v"] < len(m.index) for x in m.rows) or o.values.dtype.kind not in "iu":
        return None
    got = [plain(x) for x in o.to_index()]
    ctx.check(got == [m.index[x["v"]] for x in m.rows], "to-index", f"{what}: {got}")
    return None


def s_cache(ctx, o, m, r, what, settings):
    settings.caching["enabled"] = r.random() < 0.5
    return None


def s_copy(ctx, o, m, r, what, settings):
    how = r.pick("copy", "replace", "dumps", "fresh")
    if how == "copy":
        return o.copy(), m.but()
    if how == "replace":
        return o.replace(), m.but()
    if how == "dumps":
        return type(o).loads(o.dumps()), m.but()
    # other rows under the same wrapper: nothing remembered of the old rows may show up
    pos = [i for i in range(len(m.rows)) if r.random() < 0.7]
    if r.random() < 0.5:
        pos.reverse()
    if m.mapped is None:
        return o.replace(records_arr=o.values[pos]), m.take(pos)
    return o.replace(mapped_arr=o.values[pos], col_arr=o.col_arr[pos], id_arr=o.id_arr[pos], idx_arr=None if o.idx_arr is None else o.idx_arr[pos]), m.take(pos)


def s_boom(ctx, o, m, r, what, settings):
    """A callback fails at its n-th call; the object is unharmed (compared at the end, too)."""
    at, n = r.randint(0, 2), [0]

    def fail(*a):
        n[0] += 1
        if n[0] > at:
            raise Boom()
        return 0.0
    try:
        if m.mapped is None:
            r.pick(lambda: o.map(fail), lambda: o.apply(lambda recs: np.full(len(recs), fail())))()
        else:
            r.pick(lambda: o.reduce(fail), lambda: o.apply(lambda i, c, a: np.full(len(a), fail())))()
    except Boom:
        ctx.fault("callback-failure")
    compare(ctx, o, m, what + " after a failure")
    return None


def s_wrong(ctx, o, m, r, what, settings):
    """Arrays that don't belong to the rows are refused."""
    if m.mapped is None:
        how = lambda: o.map_array(np.zeros(len(m.rows) + 1))
    else:
        other = o.replace(id_arr=np.asarray(o.id_arr) + 1)
        how = lambda: o + other
        if not m.rows:
            return None
    try:
        how()
    except AssertionError:
        ctx.fault("foreign-rows")
        return None
    ctx.check(False, "foreign-rows", f"{what}: accepted")


def s_custom(ctx, o, m, r, what, settings):
    """A custom reduction: which column it is called for, with which values; returning arrays, too."""
    gb = pick_gb(r, m)
    labels, buckets = m.split(gb, "v")
    seen = []
    if not m.rows:
        return None

    def f(col, a):
        seen.append((int(col), [plain(x) for x in a]))
        return float(len(a))

    def g(col, a):
        f(col, a)
        return np.array([float(len(a)), float(col)])
    fill = r.pick(NAN, -7.0)
    arr = r.random() < 0.5
    if arr:
        out = o.reduce(g, returns_array=True, group_by=as_gb(gb), fill_value=fill)
        cols = [[float(len(b)), float(i)] if b else [fill, fill] for i, b in enumerate(buckets)]
        expanded(ctx, out, labels, None, [list(x) for x in zip(*cols)], f"{what}: reduce to arrays ({gb})")
    elif r.random() < 0.5:
        # positions of the first and the last element, as labels or as rows of the index
        def h(col, a):
            f(col, a)
            return np.array([0, len(a) - 1])

        def first(col, a):
            f(col, a)
            return len(a) - 1
        own = r.random() < 0.5 or not m.has_idx
        rows = [r.randint(0, len(m.index) - 1) for _ in m.rows] if own else [x["idx"] for x in m.rows]
        raw, two = r.random() < 0.5, r.random() < 0.6
        kw = dict(returns_idx=True, to_index=not raw, group_by=as_gb(gb), fill_value=fill, **(dict(idx_arr=np.array(rows)) if own else {}))
        _, of = m.buckets(gb)
        pos = [[i for i, x in enumerate(m.rows) if of[x["col"]] == b] for b in range(len(buckets))]
        say = (lambda i: rows[i]) if raw else (lambda i: m.index[rows[i]])
        none = (-1 if isnan(fill) else fill) if raw else None
        if not raw:
            kw.pop("fill_value")
        if two:
            out = o.reduce(h, returns_array=True, **kw)
            cols = [[say(p[0]), say(p[-1])] if p else [none, none] for p in pos]
            expanded(ctx, out, labels, None, [list(x) for x in zip(*cols)], f"{what}: reduce to an array of positions ({gb}, raw={raw}, own={own})")
        else:
            out = o.reduce(first, **kw)
            reduced(ctx, out, labels, [say(p[-1]) if p else none for p in pos], f"{what}: reduce to a position ({gb}, raw={raw}, own={own})")
    else:
        out = o.reduce(f, group_by=as_gb(gb), fill_value=fill)
        reduced(ctx, out, labels, [float(len(b)) if b else fill for b in buckets], f"{what}: reduce ({gb})")
    want = [(i, b) for i, b in enumerate(buckets) if b]
    calls = {c: v for c, v in seen}
    ctx.check(sorted(calls) == [i for i, _ in want] and all(len(calls[i]) == len(b) and all(same(x, y) for x, y in zip(calls[i], b)) for i, b in want), "reduce-args",
              f"{what}: called with {seen}, expected {want}")
    return None


def s_extra(ctx, o, m, r, what, settings):
    """Stats of a column are the reductions of that column."""
    if m.mapped is None or m.mapping is not None or o.values.dtype.kind != "f" or not m.rows or o.wrapper.get_ndim() == 1:
        return None
    labels, buckets = m.split(None, "v")
    if len(set(labels)) < len(labels):
        return None
    i = r.randint(0, len(labels) - 1)
    if any(b and all(isnan(x) for x in b) for b in buckets):
        return None
    s = o.stats(column=labels[i], silence_warnings=True)
    ctx.check(s["Count"] == len(buckets[i]), "stats", f"{what}: Count {s['Count']} of {buckets[i]}")
    for t, name, a in (("Mean", "mean", None), ("Min", "min", None), ("Max", "max", None), ("Median", "median", None), ("Std", "std", 1)):
        ctx.check(same(plain(s[t]), reduction(name, buckets[i], a)), "stats", f"{what}: {t} {s[t]} of {buckets[i]}")
    return None


STEP = {k: globals()["s_" + k] for k in dict.fromkeys(OPS)}


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i in range(len(case["rows"])):
        yield dict(case, rows=case["rows"][:i] + case["rows"][i + 1:])
    if case["group"] is not None:
        yield dict(case, group=None)
    if case["kind"] != "base" and all(x[3] is None or True for x in case["rows"]):
        yield dict(case, kind="base")


SCENARIOS = [Scenario("tables", gen, run, 1500, 40000, shrink=shrink, real=REAL, stub=STUB,
                      rule="state = operation x kind of object x mapped x grouped x rows x caching")]
