"""C23: runs of one indicator class over many parameter combinations.

A class built by IndicatorFactory around a logged function goes through a seeded history of runs, combination runs, cached
and raw runs, selections and comparisons, with functions that fail at a seeded call in between.  Every instance ever made is
compared, at once and again at the end, with a model that computes each combination and column on its own."""
import itertools
import warnings

import numpy as np
import pandas as pd

from ..core import Scenario

REAL = ["indicators.factory IndicatorFactory, run_pipeline, build_columns, IndicatorBase", "utils.params", "base.combine_fns apply_and_concat", "base.indexing ParamLoc",
        "base.reshape_fns broadcasting", "base.index_fns column stacking", "base.array_wrapper", "base.accessors combine"]
STUB = ["the indicator's own function and cache function (pure functions of the harness that log their calls; some raise at a seeded call)"]

NUM = dict(int=[1, 2, 3, 4], float=[0.5, 1.5, 2.5, 4.5], str=["u", "v", "w"], bool=[True, False], tuple=[[1, 2], [3, 4], [1, 1]], array=[[1, 2, 3], [4, 4, 4], [2, 0, 1]],
           bc0=[[5], [1, 2], [7, 8, 9]], bc1=[[5], [1, 2], [7, 8, 9]], bcT=[[5], [1, 2], [7, 8, 9, 4, 1]], col=[[5], [1, 2], [7, 8, 9]], enum=["A", "B", 0, 1])
KINDS = list(NUM)
ARR = ("array", "bc0", "bc1", "bcT", "col")
W = (100.0, 10000.0, 1000000.0)
COMBS = dict(combinations=itertools.combinations, permutations=itertools.permutations, cwr=itertools.combinations_with_replacement, product=itertools.product)


class Boom(Exception):
    pass


def enum():
    from collections import namedtuple
    return namedtuple("Kinds", ["A", "B"])(0, 1)


# ------------------------------------------------------------------ cases
def gen_values(rng, kind, per_column, k, n_max=3):
    pool = NUM[kind]
    if per_column and kind in ("bc1", "col"):
        pool = pool[:1]
    many = rng.random() < 0.7
    m = (k if per_column else rng.randint(1, n_max)) if many else 1
    vals = [rng.pick(*pool) for _ in range(m)]
    how = rng.pick("list", "list", "tuple", "ndarray", "one" if m == 1 else "list")
    if kind in ("tuple",) + ARR and how in ("tuple", "ndarray"):
        how = "list"
    if kind == "enum" and how == "ndarray":
        how = "list"
    return dict(vals=vals, how=how)


def gen(rng):
    n, k = rng.randint(2, 5), rng.randint(1, 3)
    n_in = rng.pick(0, 1, 1, 1, 2, 2)
    params = [rng.pick(*KINDS, "int", "int", "float") for _ in range(rng.pick(0, 1, 1, 2, 2, 3))]
    spec = dict(n=n, k=k, one=k == 1 and rng.random() < 0.6, n_in=n_in, second=rng.pick("full", "column", "scalar"), index=rng.pick("range", "days", "str"), cols=rng.pick("range", "str", "str", "multi", "ints"),
                nan=rng.random() < 0.3, x=[rng.randint(-9, 9) for _ in range(12)], params=params, n_io=rng.pick(0, 0, 0, 1, 2), acc=rng.random() < 0.4, n_out=rng.pick(1, 1, 2), f=rng.pick("apply", "apply", "apply", "custom"),
                packed=rng.random() < 0.15, kw=rng.random() < 0.3, cache=rng.random() < 0.3, prepend=rng.random() < 0.8, hide=rng.pick(None, None, "empty", "first", "all"), hide_default=rng.random() < 0.7,
                default=rng.random() < 0.3, to_2d=rng.random() < 0.8, loop=rng.random() < 0.15, flex=rng.random() < 0.2, shape=rng.random() < 0.2, more=rng.random() < 0.3)
    if spec["f"] == "apply":
        spec["more"] = False
    else:
        spec.update(packed=False, kw=False, cache=False, loop=False)
    if spec["default"] and params:
        spec["default"] = gen_values(rng, params[-1], False, k, 1)
    else:
        spec["default"] = None
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = rng.pick(*OPS)
        if op == "combs" and not params:
            op = "run"
        d = dict(op=op, which=rng.randint(0, 99), seed=rng.randint(0, 10**6))
        if op in RUNS:
            pc = rng.random() < 0.25
            d.update(per_column=pc, vals=[gen_values(rng, p, pc, k) for p in params], product=not pc and rng.random() < 0.25, unique=rng.pick(None, None, True, False), keep_pd=rng.random() < 0.15,
                     hide=rng.pick(None, None, None, "empty", "first", "last", "all"), hide_default=rng.pick(None, None, True, False), use_default=rng.random() < 0.7, io=[rng.random() < 0.4 for _ in range(2)], short=rng.random() < 0.2)
            if op == "combs":
                d.update(r=rng.randint(1, 3), comb=rng.pick(*COMBS))
            if op == "boom":
                d["at"] = rng.randint(0, 3)
            if not pc and not d["product"] and op != "lengths":
                # lengths that broadcast
                m = max([len(v["vals"]) for v in d["vals"]] + [1])
                for v in d["vals"]:
                    if 1 < len(v["vals"]) < m:
                        v["vals"] = [v["vals"][i % len(v["vals"])] for i in range(m)]
        ops.append(d)
    return dict(spec=spec, ops=ops)


OPS = ["run", "run", "run", "run", "combs", "combs", "raw", "cache", "loc", "loc", "tloc", "select", "select", "rows", "compare", "boom", "lengths", "outputs", "again"]
RUNS = ("run", "combs", "raw", "cache", "boom", "lengths", "outputs")


# ------------------------------------------------------------------ the class under test and the model
def code(kind, v, ndim):
    """The number (or array that broadcasts with the inputs) that a parameter value stands for."""
    if kind == "str":
        return float(ord(str(v)))
    if kind == "tuple":
        return float(v[0] * 10 + v[1])
    if kind == "array":
        return float(np.asarray(v).ravel()[0] * 100 + np.asarray(v).sum())
    if kind in ARR:
        a = np.asarray(v, dtype=float)
        if ndim == 1:
            return a if kind in ("bc0", "bcT") else float(a.ravel()[0])
        if kind == "bc0":
            return a[:, None]
        if kind in ("bc1", "col"):
            return a[None, :]
        return a if a.ndim == 2 else a[:, None]
    return float(v)


def formula(n_out, xs, codes, shape, extra):
    base = np.zeros(shape)
    for i, x in enumerate(xs):
        base = base + (i + 1) * np.asarray(x, dtype=float)
    o = base + extra
    for j, c in enumerate(codes):
        o = o + W[j] * c
    outs = [o]
    if n_out == 2:
        outs.append(np.cumsum(base + (codes[0] if codes else 1.0), axis=0))
    return outs


def in_place(acc, i, init, xs, codes, shape):
    x = np.asarray(xs[0], dtype=float) if xs else np.zeros(shape)
    if acc:
        return init * 2 + (codes[0] if codes else 0.0) + i
    return x * 3 + np.zeros(shape) + (codes[-1] if codes else 0.0) + i


def show(kind, v):
    """The hashable name of a parameter value."""
    if kind in ARR:
        return tuple(float(x) for x in np.asarray(v, dtype=float).ravel())
    if kind == "tuple":
        return tuple(int(x) for x in v)
    if kind == "str":
        return str(v)
    return float(v)


class World:
    def __init__(self, case, ctx):
        self.s, self.ctx = case["spec"], ctx
        s = self.s
        self.log, self.cache_log, self.boom_at, self.bad, self.flex = [], [], None, None, []
        n, k = s["n"], s["k"]
        index = dict(range=pd.RangeIndex(n), days=pd.date_range("2020-01-01", periods=n, name="day"), str=pd.Index([f"r{i}" for i in range(n)]))[s["index"]]
        cols = dict(range=pd.RangeIndex(k), str=pd.Index(list("abc")[:k], name="sym"), multi=pd.MultiIndex.from_arrays([[0, 0, 1][:k], ["a", "b", "b"][:k]], names=["g", "sym"]), ints=pd.Index([7, 5, 6][:k], name="num"))[s["cols"]]
        if s["one"] and s["cols"] == "multi":
            cols = pd.Index([(0, "a")], tupleize_cols=False)
        self.index, self.cols = index, cols
        x = np.array([s["x"][i % len(s["x"])] + i for i in range(n * k)], dtype=float).reshape(n, k)
        if s["nan"]:
            x[n // 2, 0] = np.nan
        y = dict(full=np.array([s["x"][(3 * i + 1) % len(s["x"])] for i in range(n * k)], dtype=float).reshape(n, k), column=np.arange(n, dtype=float)[:, None] + np.zeros((n, k)), scalar=np.full((n, k), 3.0))[s["second"]]
        self.X = [x, y][:s["n_in"]]
        wrap = (lambda a: pd.Series(a[:, 0], index=index, name=cols[0])) if s["one"] else (lambda a: pd.DataFrame(a, index=index, columns=cols))
        self.wrap = wrap
        given = []
        for i, a in enumerate(self.X):
            if i == 0 or s["second"] == "full":
                given.append(wrap(a.copy()))
            elif s["second"] == "column":
                given.append(pd.Series(a[:, 0].copy(), index=index))
            else:
                given.append(3.0)
        self.given = given
        self.kept = [None if not hasattr(g, "copy") else g.copy() for g in given]
        self.pnames = ["p", "q", "z"][:len(s["params"])]
        self.enum = enum()
        self.hide = dict(empty=[], first=self.pnames[:1], all=list(self.pnames)).get(s["hide"])
        self.default_hide = None if self.hide is None else list(self.hide)
        self.acc = s["acc"] and s["n_io"] > 0
        self.cls = self.build()

    def build(self):
        from vectorbt.indicators.factory import IndicatorFactory
        s = self.s
        n_in, n_io, kinds, n_out = s["n_in"], s["n_io"], s["params"], s["n_out"]
        settings = {}
        for nm, kd in zip(self.pnames, kinds):
            d = {}
            if kd == "tuple":
                d["is_tuple"] = True
            if kd in ARR:
                d["is_array_like"] = True
            if kd in ("bc0", "bc1", "bcT", "col"):
                d["bc_to_input"] = dict(bc0=0, bc1=1, bcT=True, col=1)[kd]
            if kd == "col":
                d["per_column"] = True
            if kd == "enum":
                d["dtype"] = self.enum
            if d:
                settings[nm] = d
        fac = IndicatorFactory(class_name="Sim", short_name="sim", prepend_name=s["prepend"], input_names=["x", "y"][:n_in], param_names=self.pnames, in_output_names=["io", "jo"][:n_io], output_names=["o", "o2"][:n_out])

        def one(xs, ios, ps, extra, cache=None, shape=None):
            if self.boom_at is not None and len(self.log) == self.boom_at:
                raise Boom()
            ndim = np.ndim(xs[0]) if xs else len(shape)
            shape = np.shape(xs[0]) if xs else tuple(shape)
            names = tuple(show(kd, p) for kd, p in zip(kinds, ps))
            self.log.append((names, shape))
            codes = [code(kd, p, ndim) for kd, p in zip(kinds, ps)]
            if cache is not None:
                for nm, c in zip(zip(kinds, names), codes):
                    self.ctx.check(nm in cache, "cache-of-others", f"the cache passed to the function has no entry for {nm}: {sorted(map(str, cache))}")
                    assert np.array_equal(cache[nm], c)
            xs = [np.asarray(x) for x in xs]
            for i, io in enumerate(ios):
                if hasattr(io, "iloc"):
                    v = in_place(self.acc, i, np.asarray(io), xs, codes, shape)
                    if io.ndim == 2:
                        io.iloc[:, :] = v
                    else:
                        io.iloc[:] = v
                else:
                    io[...] = in_place(self.acc, i, io.copy(), xs, codes, shape)
            outs = formula(n_out, xs, codes, shape, extra)
            return outs[0] if n_out == 1 else tuple(outs)

        def split(args):
            args = list(args)
            shape = args.pop(0) if n_in == 0 or s["shape"] else None
            if s["packed"]:
                xs, ios, ps = args[:3]
                rest = args[3:]
            else:
                xs, ios, ps, rest = args[:n_in], args[n_in:n_in + n_io], args[n_in + n_io:n_in + n_io + len(kinds)], args[n_in + n_io + len(kinds):]
            extra = rest.pop(0) if s["kw"] else 0.0
            if s["flex"]:
                self.flex.append((bool(rest.pop(0)), np.ndim(xs[0]) if len(xs) else len(shape)))
            return shape, xs, ios, ps, extra, rest

        def apply_func(*args):
            shape, xs, ios, ps, extra, rest = split(args)
            return one(xs, ios, ps, extra, rest[0] if s["cache"] else None, shape)

        def cache_func(*args):
            args = list(args)
            shape = args.pop(0) if n_in == 0 or s["shape"] else None
            xs, lists = args[:n_in], args[n_in + n_io:n_in + n_io + len(kinds)]
            self.cache_log.append([len(x) for x in lists])
            ndim = np.ndim(xs[0]) if len(xs) else len(shape)
            return {(kd, show(kd, v)): code(kd, v, ndim) for kd, vs in zip(kinds, lists) for v in vs}

        def custom_func(*args, input_shape=None, flex_2d=None):
            args = list(args)
            xs, io_lists, lists = args[:n_in], args[n_in:n_in + n_io], args[n_in + n_io:]
            if s["flex"]:
                self.flex.append((bool(flex_2d), np.ndim(xs[0]) if len(xs) else len(input_shape)))
            outs = []
            for j in range(len(lists[0]) if lists else 1):
                o = one(xs, [io[j] for io in io_lists], [v[j] for v in lists], 0.0, None, input_shape)
                outs.append([np.asarray(a).reshape(len(np.asarray(a)), -1) for a in ((o,) if n_out == 1 else o)])
            res = [np.hstack(z) for z in zip(*outs)]
            if self.bad == "few":
                return res[:-1]
            if self.bad == "columns":
                return [np.hstack([a, a]) for a in res]
            if s["more"]:
                return tuple(res) + (dict(more=len(outs)),)
            return res[0] if n_out == 1 else tuple(res)

        kw = dict(param_settings=settings, hide_params=self.hide, hide_default=s["hide_default"], to_2d=s["to_2d"], require_input_shape=n_in == 0, in_output_settings={nm: dict(dtype=np.float64) for nm in ["io", "jo"][:n_io]})
        if s["flex"]:
            kw["pass_flex_2d"] = True
        if s["shape"]:
            kw["pass_input_shape"] = True
        if s["default"]:
            kw[self.pnames[-1]] = self.argument(kinds[-1], s["default"])
        if s["f"] == "apply":
            return fac.from_apply_func(apply_func, cache_func=cache_func if s["cache"] else None, pass_packed=s["packed"], kwargs_to_args=["extra"] if s["kw"] else None, numba_loop=s["loop"], **dict(kw, **(dict(extra=0.0) if s["kw"] else {})))
        return fac.from_custom_func(custom_func, **kw)

    # -- values
    def value(self, kind, v):
        n, k = self.s["n"], self.s["k"]
        if kind == "tuple":
            return tuple(v)
        if kind == "array":
            return np.array(v)
        if kind in ARR:
            if len(v) == 1:
                return v[0]
            if kind == "bc0":
                return np.array([v[i % len(v)] for i in range(n)])
            if kind in ("bc1", "col"):
                return np.array([v[i % len(v)] for i in range(k)])
            a = np.array([v[i % len(v)] for i in range(n * k)]).reshape(n, k)
            return a
        return v

    def argument(self, kind, d):
        vals = [self.value(kind, v) for v in d["vals"]]
        if kind == "bcT" and (self.s["one"] or self.per_column):
            vals = [v[:, 0] if hasattr(v, "ndim") else v for v in vals]
        if d["how"] == "one" and len(vals) == 1:
            return vals[0]
        return tuple(vals) if d["how"] == "tuple" else np.array(vals) if d["how"] == "ndarray" else vals

    per_column = False

    def passed(self, kind, v):
        """What the function gets for a value, by the documented broadcasting."""
        v = self.value(kind, v)
        s = self.s
        n, k = (s["n"], 1) if self.per_column else (s["n"], s["k"])
        if kind == "enum":
            return dict(A=0, B=1).get(v, v)
        if kind in ("bc0", "bc1", "col", "bcT"):
            if kind == "bc0":
                return np.broadcast_to(v, (n,))
            if kind == "bcT":
                if hasattr(v, "ndim") and self.per_column:
                    v = v[:, :1]
                return np.broadcast_to(v, (n, k))
            return np.broadcast_to(v, (k,))
        return v


class Inst:
    """What an instance has to look like."""

    def __init__(self, w, obj, combos, cols, rows, pairs, levels, shown, labels, outs, ios, one):
        self.w, self.obj, self.combos, self.cols, self.rows, self.pairs = w, obj, combos, cols, rows, pairs  # pairs: (combo, input column) per column
        self.levels, self.shown, self.labels, self.outs, self.ios, self.one = levels, shown, labels, outs, ios, one


def equal(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def label(kind, v, i):
    if kind == "tuple":
        return f"tuple_{i}"
    if kind in ARR:
        a = np.asarray(v).ravel()
        return a[0].item() if (a == a[0]).all() else f"array_{i}"
    return v


def model(w, combos, per_column, extra, ios_given, short, shown):
    """combos: tuples of the values passed to the function, one per combination (per column: one per column)."""
    s = w.s
    n, k = s["n"], s["k"]
    kinds = s["params"]
    pairs = [(c, c) for c in range(k)] if per_column else [(i, c) for i in range(len(combos) if kinds else 1) for c in range(k)]
    outs, ios = [[] for _ in range(s["n_out"])], [[] for _ in range(s["n_io"])]
    for i, c in pairs:
        xs = [x[:, [c]] for x in w.X]
        ps = combos[i] if kinds else ()
        codes = []
        for kd, p in zip(kinds, ps):
            v = code(kd, p, 2)
            if isinstance(v, np.ndarray) and v.shape[1] > 1:
                v = v[:, [c]]
            codes.append(v)
        for j, o in enumerate(formula(s["n_out"], xs, codes, (n, 1), extra)):
            outs[j].append(o)
        for j in range(s["n_io"]):
            init = ios_given[j][:, [c]] if ios_given[j] is not None else np.zeros((n, 1))
            ios[j].append(in_place(w.acc, j, init, xs, codes, (n, 1)))
    labels = []
    for j, kd in enumerate(kinds):
        if kd == "col" and not per_column:
            labels.append([np.asarray(combos[i][j])[c].item() for i, c in pairs])
        else:
            labels.append([label(kd, combos[i][j], i) for i, c in pairs])
    levels = [(short + "_" + p) if s["prepend"] else p for p in w.pnames]
    return dict(combos=combos, cols=w.cols, rows=list(range(n)), pairs=pairs, levels=levels, shown=list(shown), labels=labels, outs=[np.hstack(o) for o in outs], ios=[np.hstack(o) for o in ios], one=s["one"] and len(pairs) == 1)


def frame(v):
    return np.asarray(v).reshape(len(v), -1)


def verify(ctx, m, what):
    w, o = m.w, m.obj
    s = w.s
    got = {}
    for nm, want in list(zip(["o", "o2"], m.outs)) + list(zip(["io", "jo"], m.ios)):
        v = getattr(o, nm)
        got[nm] = v
        ctx.check(equal(frame(v), want), "wrong-column", lambda: f"{what}: {nm} is {frame(v).tolist()}, expected {want.tolist()} for (combination, column) {m.pairs} of {[[show(k, p) for k, p in zip(s['params'], c)] for c in m.combos]}")
        ctx.check((v.ndim == 1) == m.one, "wrong-shape", f"{what}: {nm} has {v.ndim} dimensions")
        ctx.check(list(v.index) == [w.index[i] for i in m.rows], "wrong-index", f"{what}: {list(v.index)}")
    for i, nm in enumerate(["x", "y"][:s["n_in"]]):
        v = getattr(o, nm)
        want = w.X[i][m.rows][:, [c for _, c in m.pairs]]
        ctx.check(equal(frame(v), want), "wrong-input", lambda: f"{what}: input {nm} is {frame(v).tolist()}, expected {want.tolist()}")
        if m.obj.wrapper.ndim == 2:
            ctx.check(v.columns.equals(o.wrapper.columns), "wrong-labels", f"{what}: columns of {nm}")
    for j, (nm, kd) in enumerate(zip(w.pnames, s["params"])):
        lst = [show(kd, v) for v in getattr(o, nm + "_list")]
        want = [show(kd, c[j]) for c in m.combos]
        ctx.check(lst == want, "param-list", f"{what}: {nm}_list {lst}, expected {want}")
        mp = [x.item() if hasattr(x, "item") else x for x in getattr(o, f"_{nm}_mapper")]
        ctx.check(mp == m.labels[j], "param-mapper", f"{what}: mapper of {nm} {mp}, expected {m.labels[j]}")
    ctx.check(list(o.level_names) == m.levels, "level-names", f"{what}: {o.level_names}, expected {m.levels}")
    columns = o.wrapper.columns
    ctx.check(len(columns) == len(m.pairs), "wrong-labels", f"{what}: {len(columns)} columns")
    names = list(columns.names)
    for j, lv in enumerate(m.levels):
        if j in m.shown:
            ctx.check(lv in names, "level-missing", f"{what}: level {lv} of {names}")
            have = list(columns.get_level_values(names.index(lv)))
            ctx.check(have == m.labels[j], "wrong-labels", f"{what}: level {lv} is {have}, expected {m.labels[j]}")
        else:
            ctx.check(lv not in names, "level-hidden", f"{what}: level {lv} is hidden, columns have {names}")
    if s["cols"] in ("str", "multi", "ints") and not s["one"]:
        for l, nm in enumerate(m.cols.names):
            want = [m.cols.get_level_values(l)[c] for _, c in m.pairs]
            ctx.check(nm in names and list(columns.get_level_values(names.index(nm))) == want, "wrong-labels", lambda: f"{what}: level {nm} is {list(columns)} with names {names}, expected {want}")


def run(case, ctx):
    from vectorbt import settings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = settings.numba["check_func_suffix"]
        try:
            # without compilation every function passes for a compiled one unless names decide
            settings.numba["check_func_suffix"] = True
            play(case, ctx)
        finally:
            settings.caching["enabled"] = True
            settings.numba["check_func_suffix"] = before


def play(case, ctx):
    from vectorbt import settings
    w = World(case, ctx)
    pool = []
    for step, d in enumerate(case["ops"]):
        w.log.clear(), w.cache_log.clear(), w.flex.clear()
        w.boom_at = w.bad = None
        w.per_column = False
        what = f"step {step} {d['op']}"
        if d["op"] in RUNS:
            new = do_run(ctx, w, d, what)
        elif pool and len(pool[d["which"] % len(pool)].rows) > 1:
            m = pool[d["which"] % len(pool)]
            new = STEP[d["op"]](ctx, m, Draw(d["seed"]), what + f" on object {d['which'] % len(pool)} with columns {m.labels} x {[c for _, c in m.pairs]}, levels shown {m.shown}", settings)
        else:
            new = []
        for m in new:
            verify(ctx, m, what)
            pool.append(m)
        ctx.ev(d["op"], len(w.log), len(new))
        ctx.state(d["op"], tuple(w.s["params"]), bool(d.get("per_column")), w.s["f"], w.s["n_io"], len(new))
        ctx.tick(1)
        unchanged(ctx, w, what)
    for i, m in enumerate(pool):
        verify(ctx, m, f"object {i} at the end")


def unchanged(ctx, w, what):
    for g, k in zip(w.given, w.kept):
        if k is not None:
            ctx.check(g.equals(k), "input-changed", f"{what}: an input was changed")
    ctx.check(w.hide == w.default_hide, "hide-list-changed", f"{what}: the class's hidden parameters became {w.hide}")


def Draw(seed):
    import random
    return random.Random(seed)


def snapshot(v):
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return np.asarray(v).tolist() if hasattr(v, "shape") else v


def only(ctx, w, res, what, number=None):
    """The instance; other objects that the function returned come after it, as they are."""
    if not w.s["more"]:
        return res
    ctx.check(isinstance(res, tuple) and len(res) >= 2, "other-outputs", f"{what}: other objects returned by the function are missing: {type(res)}")
    rest = res[1:]
    got = [x["more"] for x in rest] if not w.per_column else [x["more"] for y in rest for x in y]
    want = [number] if not w.per_column else [1] * w.s["k"]
    ctx.check(number is None or got == want, "other-outputs", f"{what}: other objects {rest}, expected {want}")
    return res[0]


def do_run(ctx, w, d, what):
    s = w.s
    kinds = s["params"]
    k, n = s["k"], s["n"]
    pc = w.per_column = d["per_column"]
    if pc and w.s["n_in"] == 0 and s["one"]:
        pc = w.per_column = False
    last_default = s["default"] is not None and d["use_default"] and kinds
    vals = [dict(v) for v in d["vals"]]
    if last_default:
        vals[-1] = s["default"]
        if pc and kinds[-1] in ("bc1", "col", "bcT") and len(s["default"]["vals"][0]) > 1:
            pc = w.per_column = False
    if not pc and d["op"] != "lengths" and not d["product"]:
        m = max([len(v["vals"]) for v in vals] + [1])
        for v in vals[:-1] if last_default else vals:
            if 1 < len(v["vals"]) < m:
                v["vals"] = [v["vals"][i % len(v["vals"])] for i in range(m)]
    if pc:
        for v in vals[:-1] if last_default else vals:
            v["vals"] = [v["vals"][i % len(v["vals"])] for i in range(k)] if len(v["vals"]) > 1 else v["vals"]
    args = [w.argument(kd, v) for kd, v in zip(kinds, vals)]
    kept_args = snapshot(args)
    kw = {}
    call = list(w.given) + (args[:-1] if last_default else [])
    if s["default"] is not None:
        call = list(w.given) + args[:-1]
        if not last_default:
            kw[w.pnames[-1]] = args[-1]
    else:
        call = list(w.given) + args
    if s["n_in"] == 0:
        call = [(n,) if s["one"] else (n, k)] + call
        kw.update(input_index=w.index, input_columns=w.cols)
    extra = 0.0
    if s["kw"] and d["seed"] % 2:
        extra = kw["extra"] = float(1 + d["seed"] % 7)
    if d["product"]:
        kw["param_product"] = True
    if pc:
        kw["per_column"] = True
    if d["unique"] is not None:
        kw["run_unique"] = d["unique"]
    keep_pd = d["keep_pd"] and not s["loop"] and not s["flex"] and s["n_in"] > 0
    if keep_pd:
        kw["keep_pd"] = True
    hide = dict(empty=[], first=w.pnames[:1], last=w.pnames[-1:], all=list(w.pnames)).get(d["hide"])
    kept_hide = None if hide is None else list(hide)
    if hide is not None:
        kw["hide_params"] = hide
    if d["hide_default"] is not None:
        kw["hide_default"] = d["hide_default"]
    hidden = w.default_hide if hide is None else kept_hide
    hd = s["hide_default"] if d["hide_default"] is None else d["hide_default"]
    shown = [j for j, p in enumerate(w.pnames) if p not in (hidden or []) and not (hd and last_default and j == len(kinds) - 1)]
    ios_given, ios_kept = [None] * s["n_io"], []
    for j in range(s["n_io"]):
        if w.acc or d["io"][j]:
            a = np.arange(n * k, dtype=float).reshape(n, k) * (j + 1) + j
            ios_given[j] = a
            kw[["io", "jo"][j]] = w.wrap(a.copy())
            ios_kept.append((kw[["io", "jo"][j]], w.wrap(a.copy())))
    lists = [[w.passed(kd, v) for v in vs["vals"]] for kd, vs in zip(kinds, vals)]
    short = "sim"
    if d["op"] != "combs" and d["short"]:
        short = kw["short_name"] = "other"
    what = f"{what} params {kept_args} {dict((a, b) for a, b in kw.items() if a not in ('io', 'jo', 'input_index', 'input_columns'))}"

    lens = [len(v) for v in lists]
    product = d["product"] and (len(lists) > 1 or d["op"] == "combs")
    if product:
        combos = [tuple(c) for c in itertools.product(*lists)]
        bad = False
    else:
        to = k if pc and d["op"] != "combs" else max(lens + [1])
        bad = any(x not in (1, to) for x in lens)
        combos = None if bad else [tuple(v[i if len(v) > 1 else 0] for v in lists) for i in range(to if kinds else (k if pc else 1))]
    names = None if bad else [tuple(show(kd, p) for kd, p in zip(kinds, c)) for c in combos]
    w.log.clear()

    def finish():
        for a, b in ios_kept:
            ctx.check(a.equals(b), "given-in-output-changed", f"{what}: the array passed for an in-place output was changed")
        ctx.check(snapshot(args) == kept_args, "params-changed", f"{what}: the parameter lists became {args}")
        ctx.check(hide == kept_hide, "hide-list-changed", f"{what}: the list of hidden parameters became {hide}")
        for f2, nd in w.flex:
            ctx.check(f2 == (not pc and not s["one"]), "flex-2d", f"{what}: flex_2d {f2}")
        unchanged(ctx, w, what)

    def calls(want):
        got = [c for c, _ in w.log]
        ctx.check(got == want, "calls", f"{what}: the function was called for {got}, expected {want}")

    def uniq(names):
        return list(dict.fromkeys(names))

    hashable = not any(kd in ARR for kd in kinds)
    if d["op"] == "boom":
        w.boom_at = d["at"]
    if d["op"] == "outputs":
        if s["f"] != "custom":
            return []
        w.bad = "few" if d["seed"] % 2 else "columns"
        if s["n_io"] and w.bad == "few" and s["n_out"] == 1:
            w.bad = "columns"
    if d["op"] == "combs":
        return do_combs(ctx, w, d, what, call, kw, combos, names, bad, pc, extra, ios_given, shown, calls, finish, hashable)
    if bad:
        try:
            w.cls.run(*call, **kw)
        except ValueError:
            ctx.fault("lengths-that-do-not-broadcast")
            calls([])
            finish()
            return []
        ctx.fail("lengths", f"{what}: parameters of lengths {lens} were accepted")
    unique = d["unique"] if d["unique"] is not None else False
    want_calls = names if pc or not unique or not hashable or not kinds else uniq(names)
    mk = lambda cb=combos: model(w, cb, pc, extra, ios_given, short, shown)
    if d["op"] == "raw" or d["op"] == "cache" and s["cache"]:
        flag = "return_raw" if d["op"] == "raw" else "return_cache"
        raw = w.cls.run(*call, **kw, **{flag: True})
        calls(want_calls if d["op"] == "raw" else [])
        n_cache = len(w.cache_log)
        finish()
        w.log.clear()
        m = mk()
        if d["op"] == "raw":
            obj = only(ctx, w, w.cls.run(*call, **kw, use_raw=raw), what)
            calls([])
            # a selection of what was computed, in another order
            r = Draw(d["seed"])
            res = [Inst(w, obj, **m)]
            if not pc and kinds and combos:
                sel = [r.randrange(len(combos)) for _ in range(r.randint(1, 4))]
                kw2 = {a: b for a, b in kw.items() if a not in ("param_product",)}
                sub = [[w_val for w_val in (combos[i][j] for i in sel)] for j in range(len(kinds))]
                call2 = list(call[:len(call) - len(kinds) + (1 if s["default"] is not None else 0)])
                if s["default"] is not None:
                    call2 += sub[:-1]
                    kw2[w.pnames[-1]] = sub[-1]
                else:
                    call2 += sub
                if not any(kd == "bcT" for kd in kinds):
                    sh = [j for j, p in enumerate(w.pnames) if p not in (hidden or [])]
                    obj2 = only(ctx, w, w.cls.run(*call2, **kw2, use_raw=raw), what)
                    calls([])
                    # columns come from the first computation of the same combination
                    res.append(Inst(w, obj2, **model(w, [combos[i] for i in sel], False, extra, ios_given, short, sh)))
            finish()
            ctx.probe("raw-reused")
            return res
        obj = w.cls.run(*call, **kw, use_cache=raw)
        ctx.check(len(w.cache_log) == n_cache, "cache-not-used", f"{what}: the cache function ran again although a cache was passed")
        calls(want_calls)
        finish()
        ctx.probe("cache-reused")
        return [Inst(w, obj, **m)]
    try:
        obj = w.cls.run(*call, **kw)
    except Boom:
        ctx.fault("function-failure")
        ctx.check([c for c, _ in w.log] == want_calls[:d["at"]], "calls", f"{what}: calls before the failure {w.log}")
        finish()
        return []
    except (ValueError, AssertionError):
        if w.bad is None:
            raise
        ctx.fault("wrong-outputs")
        finish()
        return []
    ctx.check(w.bad is None, "wrong-outputs", f"{what}: outputs of the wrong number or shape ({w.bad}) were accepted")
    calls(want_calls)
    finish()
    return [Inst(w, only(ctx, w, obj, what, len(want_calls)), **mk())]


def do_combs(ctx, w, d, what, call, kw, combos, names, bad, pc, extra, ios_given, shown, calls, finish, hashable):
    s = w.s
    r, comb = d["r"], COMBS[d["comb"]]
    kw.update(r=r, comb_func=comb)
    if d["comb"] == "combinations" and r == 2 and d["seed"] % 2:
        del kw["r"], kw["comb_func"]
    if bad:
        try:
            w.cls.run_combs(*call, **kw)
        except ValueError:
            ctx.fault("lengths-that-do-not-broadcast")
            finish()
            return []
        ctx.fail("lengths", f"{what}: accepted")
    idx = range(len(combos))
    groups = list(comb(idx, repeat=r) if d["comb"] == "product" else comb(idx, r))
    if len(groups) * s["k"] > 150:
        return []
    n = len(groups)
    if pc and (n not in (0, 1, s["k"]) or len(combos) not in (1, s["k"])):
        # the parameters of an instance have to broadcast to the columns
        try:
            w.cls.run_combs(*call, **kw)
        except ValueError:
            ctx.fault("lengths-that-do-not-broadcast")
            finish()
            return []
        ctx.check(n in (0, 1, s["k"]), "lengths", f"{what}: accepted")
        return []
    objs = w.cls.run_combs(*call, **kw)
    unique = d["unique"] is None or d["unique"]
    ctx.check(len(objs) == (r if groups else 0), "combs", f"{what}: {len(objs)} instances")
    res = []
    total = []
    for i, obj in enumerate(objs):
        obj = only(ctx, w, obj, what)
        pos = [g[i] for g in groups]
        if pc and len(pos) == 1:
            pos = pos * s["k"]
        total += [names[p] for p in pos]
        res.append(Inst(w, obj, **model(w, [combos[p] for p in pos], pc, extra, ios_given, f"sim_{i + 1}", shown)))
    if unique and not pc:
        calls(names)
    else:
        ctx.check(pc or [c for c, _ in w.log] == total, "calls", f"{what}: {w.log}")
    finish()
    if len(res) > 1:
        # column by column
        a, b = res[0], res[-1]
        out = a.obj.o_above(b.obj)
        ctx.check(np.array_equal(frame(out), a.outs[0] > b.outs[0]), "comparison", lambda: f"{what}: first above last is {frame(out).tolist()}, outputs {a.outs[0].tolist()} and {b.outs[0].tolist()}")
        if s["prepend"] and out.ndim == 2:
            for m in (a, b):
                for j in m.shown:
                    ctx.check(m.levels[j] in out.columns.names and list(out.columns.get_level_values(m.levels[j])) == m.labels[j], "comparison", f"{what}: first above last has columns {list(out.columns)} {out.columns.names}")
        ctx.probe("compared-instances")
    return res


# ------------------------------------------------------------------ reading instances
def derived(m, obj, cols, rows=None, shown=None, one=None):
    rows = list(range(len(m.rows))) if rows is None else rows
    pick = lambda a: a[rows][:, cols]
    return Inst(m.w, obj, m.combos, m.cols, [m.rows[i] for i in rows], [m.pairs[c] for c in cols], m.levels, m.shown if shown is None else shown, [[lb[c] for c in cols] for lb in m.labels], [pick(o) for o in m.outs], [pick(o) for o in m.ios],
                m.one if one is None else one)


def visible(m):
    """Number of column levels besides those of the parameters: what stays when the latter are dropped."""
    return [l for l in m.obj.wrapper.columns.names if l not in m.levels]


def s_loc(ctx, m, r, what, settings):
    if not m.labels or not m.pairs:
        return []
    j = r.randrange(len(m.labels))
    lb = m.labels[j]
    loc = getattr(m.obj, m.w.pnames[j] + "_loc")
    if r.random() < 0.5:
        key = r.choice(lb)
        what += f" {m.w.pnames[j]}_loc[{key!r}]"
        cols = [c for c, x in enumerate(lb) if x == key]
        if m.one:
            return []
        return by_param(ctx, m, loc, key, cols, [j], what)
    keys = [r.choice(lb) for _ in range(r.randint(1, 3))]
    cols = [c for key in keys for c, x in enumerate(lb) if x == key]
    if m.one or m.obj.wrapper.ndim == 1:
        return []
    if r.random() < 0.35:
        # from one value to another
        a, b = sorted([r.randrange(len(lb)), r.randrange(len(lb))])
        ends = [[c for c, x in enumerate(lb) if x == lb[e]] for e in (a, b)]
        for e, e2 in zip((a, b), ends):
            if e2 != [c for c, x in enumerate(lb) if str(x) == str(lb[e])] or e2 != list(range(e2[0], e2[-1] + 1)):
                return []  # no such place
        key = slice(None if r.random() < 0.2 else lb[a], None if r.random() < 0.2 else lb[b])
        cols = list(range(0 if key.start is None else ends[0][0], len(lb) if key.stop is None else ends[1][-1] + 1))
        ctx.probe("by-parameter-range")
        return checked(ctx, m, loc[key], cols, m.shown, what + f" {m.w.pnames[j]}_loc[{key!r}]")
    obj = loc[keys]
    return checked(ctx, m, obj, cols, m.shown, what + f" {m.w.pnames[j]}_loc[{keys!r}]")


def by_param(ctx, m, loc, key, cols, drop, what):
    obj = loc[key]
    names = list(m.obj.wrapper.columns.names)
    have = [j for j in drop if j in m.shown and m.levels[j] in names]
    shown = m.shown if len(have) == len(names) else [j for j in m.shown if j not in drop]
    return checked(ctx, m, obj, cols, shown, what)


def checked(ctx, m, obj, cols, shown, what):
    ctx.probe("by-parameter")
    new = derived(m, obj, cols, shown=shown, one=obj.wrapper.ndim == 1)
    ctx.check(obj.wrapper.ndim == 2, "wrong-shape", what)
    verify(ctx, new, what)
    return [new]


def s_tloc(ctx, m, r, what, settings):
    if len(m.labels) < 2 or not m.pairs or m.one:
        return []
    tl = list(zip(*m.labels))
    key = r.choice(tl)
    if r.random() < 0.5:
        cols = [c for c, x in enumerate(tl) if x == key]
        return by_param(ctx, m, m.obj.tuple_loc, key, cols, list(range(len(m.labels))), what + f" tuple_loc[{key!r}]")
    keys = [r.choice(tl) for _ in range(r.randint(1, 3))]
    cols = [c for key in keys for c, x in enumerate(tl) if x == key]
    return checked(ctx, m, m.obj.tuple_loc[keys], cols, m.shown, what + f" tuple_loc[{keys!r}]")


def s_select(ctx, m, r, what, settings):
    if m.one or m.obj.wrapper.ndim == 1 or not m.pairs:
        return []
    if r.random() < 0.4:
        c = r.randrange(len(m.pairs))
        obj = m.obj.iloc[:, c]
        # the name of the series carries the levels
        new = derived(m, obj, [c], one=True)
        for nm, want in zip(["o", "o2"], new.outs):
            ctx.check(equal(frame(getattr(obj, nm)), want), "wrong-column", f"{what} column {c}")
        for j, nm in enumerate(m.w.pnames):
            ctx.check([x.item() if hasattr(x, "item") else x for x in getattr(obj, f"_{nm}_mapper")] == new.labels[j], "param-mapper", what)
        for i, nm in enumerate(["x", "y"][:m.w.s["n_in"]]):
            ctx.check(equal(frame(getattr(obj, nm)), m.w.X[i][new.rows][:, [new.pairs[0][1]]]), "wrong-input", what)
        return []
    cols = [r.randrange(len(m.pairs)) for _ in range(r.randint(1, 4))]
    return [derived(m, m.obj.iloc[:, cols], cols)]


def s_rows(ctx, m, r, what, settings):
    n = len(m.rows)
    a = r.randrange(n)
    b = r.randint(min(n, a + 1 + (len(set(c for c in m.pairs)) == 1)), n)
    if b == a + 1 and len(m.pairs) < 2:
        return []  # a single cell cannot be selected
    if r.random() < 0.5:
        obj = m.obj.iloc[a:b]
    else:
        obj = m.obj.loc[m.w.index[m.rows[a]]:m.w.index[m.rows[b - 1]]]
    return [derived(m, obj, list(range(len(m.pairs))), rows=list(range(a, b)))]


def s_compare(ctx, m, r, what, settings):
    how = r.choice(["above", "below", "equal"])
    op = dict(above=np.greater, below=np.less, equal=np.equal)[how]
    settings.caching["enabled"] = r.random() < 0.7
    f = getattr(m.obj, f"o_{how}")
    base = m.outs[0]
    vals = [float(x) for x in base.ravel().tolist()]
    pick = lambda: 0.0 if not vals else r.choice(vals)
    kind = r.choice(["scalar", "list", "self", "objects"])
    if kind == "scalar":
        v = pick()
        ctx.check(np.array_equal(frame(f(v)), op(base, v)), "comparison", f"{what} {how} {v}")
    elif kind == "list":
        vs = list(dict.fromkeys([pick(), pick() + 1]))
        vs = [v for v in vs if v == v] or [0.0]
        out = f(vs)
        ctx.check(np.array_equal(frame(out), np.hstack([op(base, v) for v in vs])), "comparison", f"{what} {how} {vs}")
        if len(vs) > 1:
            nm = "sim_o_" + how if m.w.s["prepend"] else "o_" + how
            cols = out.columns
            ctx.check(nm in cols.names and list(cols.get_level_values(nm)) == [v for v in vs for _ in m.pairs], "comparison", f"{what} {how} {vs}: columns {list(cols)} {cols.names}")
    elif kind == "self":
        ctx.check(np.array_equal(frame(f(m.obj)), op(base, base)), "comparison", f"{what} {how} itself")
    else:
        out = f([m.obj, m.obj.o], keys=["k1", "k2"]) if m.obj.wrapper.ndim == 2 or True else None
        ctx.check(np.array_equal(frame(out), np.hstack([op(base, base)] * 2)), "comparison", f"{what} {how} itself twice")
    return []


def s_again(ctx, m, r, what, settings):
    """Run one combination of an old instance on its own, on the function's own terms."""
    w = m.w
    verify(ctx, m, what)
    settings.caching["enabled"] = r.random() < 0.7
    return []


STEP = dict(loc=s_loc, tloc=s_tloc, select=s_select, rows=s_rows, compare=s_compare, again=s_again)


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    s = case["spec"]
    for key, small in (("one", False), ("nan", False), ("acc", False), ("packed", False), ("kw", False), ("cache", False), ("prepend", True), ("hide", None), ("hide_default", True), ("default", None), ("to_2d", True), ("loop", False),
                       ("flex", False), ("shape", False), ("more", False), ("n_out", 1), ("index", "range"), ("cols", "str"), ("second", "full")):
        if s[key] != small:
            yield dict(case, spec=dict(s, **{key: small}))
    if s["n_io"] > 0:
        yield dict(case, spec=dict(s, n_io=s["n_io"] - 1))
    if s["n_in"] > 1:
        yield dict(case, spec=dict(s, n_in=1))
    if s["n"] > 2:
        yield dict(case, spec=dict(s, n=s["n"] - 1))
    for j in range(len(s["params"])):
        if len(s["params"]) > 1:
            yield dict(spec=dict(s, params=s["params"][:j] + s["params"][j + 1:], default=None), ops=[dict(d, vals=d["vals"][:j] + d["vals"][j + 1:]) if "vals" in d else d for d in case["ops"]])
    for i, d in enumerate(case["ops"]):
        for key, small in (("per_column", False), ("product", False), ("unique", None), ("keep_pd", False), ("hide", None), ("hide_default", None), ("short", False), ("io", [False, False])):
            if key in d and d[key] != small:
                yield dict(case, ops=case["ops"][:i] + [dict(d, **{key: small})] + case["ops"][i + 1:])


SCENARIOS = [Scenario("runs", gen, run, 3000, 40000, shrink=shrink, real=REAL, stub=STUB,
                      rule="state = operation x kinds of parameters x per column x apply/custom x in-place outputs x instances made")]
