"""Saveable library objects from small JSON specs (used by C17 and C18)."""
import numpy as np
import pandas as pd

KINDS = ["wrapper", "data", "indicator", "factory", "orders", "logs", "trades", "positions", "drawdowns", "ranges", "mapped", "portfolio", "grouper", "mapper"]


def gen_spec(rng, kinds=KINDS):
    n, k = rng.randint(2, 6), rng.randint(1, 3)
    return dict(kind=rng.pick(*kinds), n=n, k=k, ndim=1 if k == 1 and rng.random() < 0.6 else 2,
                vals=[[round(rng.uniform(1, 9), 2) for _ in range(k)] for _ in range(n)],
                side=[[rng.pick(0, 1, -1, 1) for _ in range(k)] for _ in range(n)],
                index=rng.pick("range", "days", "hours", "tz", "str", "float", "multi"), columns=rng.pick("range", "str", "multi", "named"),
                freq=rng.pick(None, None, "D", "1h"), group=rng.pick(None, None, "all", "each"), share=rng.random() < 0.5,
                nan=rng.random() < 0.3, mapping=rng.pick(None, "dict", "enum"), window=rng.pick(1, 2), cash=rng.pick(10, 100, 1e4),
                fees=rng.pick(0.0, 0.01), extra=rng.pick(None, "lambda", "td", "closure"))


def axis(s, n):
    if s == "days":
        return pd.date_range("2020-01-01", periods=n, freq="D", name="when")
    if s == "hours":
        return pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(hours=i * i) for i in range(n)])
    if s == "tz":
        return pd.date_range("2020-03-28", periods=n, freq="12h", tz="Europe/Berlin")
    if s in ("W", "W-WED", "MS", "ME", "B", "QS", "s", "min"):
        return pd.date_range("2020-01-01", periods=n, freq=s)
    if s == "lost":  # regular, but the frequency isn't attached
        return pd.DatetimeIndex(list(pd.date_range("2020-01-01", periods=n, freq="W" if n % 2 else "MS")))
    if s == "str":
        return pd.Index([f"k{i}" for i in range(n)])
    if s == "named":
        return pd.Index([f"k{i}" for i in range(n)], name="asset")
    if s == "float":
        return pd.Index([i / 4 for i in range(n)])
    if s == "multi":
        return pd.MultiIndex.from_arrays([[i // 2 for i in range(n)], [f"s{i}" for i in range(n)]], names=["p", "q"])
    return pd.RangeIndex(n)


def frame(d, key="vals"):
    a = np.array(d[key], dtype=float)
    if d["nan"] and key == "vals" and len(a) > 2:
        a[1, 0] = np.nan
    idx, cols = axis(d["index"], d["n"]), axis(d["columns"], d["k"])
    if d["ndim"] == 1:
        return pd.Series(a[:, 0], index=idx, name=cols[0])
    return pd.DataFrame(a, index=idx, columns=cols)


def group(d):
    if d["group"] is None or d["ndim"] == 1:
        return None
    return True if d["group"] == "all" else np.array([i % 2 for i in range(d["k"])]) // 2 + np.arange(d["k"]) * 0


def portfolio(d):
    import vectorbt as vbt
    gr = group(d)
    return vbt.Portfolio.from_orders(frame(d), size=frame(d, "side").values if d["ndim"] == 2 else frame(d, "side").values, init_cash=d["cash"],
                                     fees=d["fees"], freq=d["freq"], group_by=gr, cash_sharing=bool(d["share"] and gr is not None), log=True)


def apply_mean(x, window):
    return x * window


class SimData:
    """Created lazily: the class has to be importable to be loaded."""


def data_cls():
    if not hasattr(SimData, "cls"):
        from vectorbt.data.base import Data

        class SimFeed(Data):
            @classmethod
            def download_symbol(cls, symbol, frames=None, **kwargs):
                return frames[symbol]

            def update_symbol(self, symbol, **kwargs):
                return self.data[symbol].iloc[-1:]
        SimFeed.__module__, SimFeed.__qualname__ = __name__, "SimFeed"
        globals()["SimFeed"] = SimFeed
        SimData.cls = SimFeed
    return SimData.cls


def factory_cls():
    if not hasattr(SimData, "ind"):
        import vectorbt as vbt
        SimData.ind = vbt.IndicatorFactory(class_name="SimInd", module_name=__name__, input_names=["x"], param_names=["window"], output_names=["y"]).from_apply_func(
            apply_mean, kwargs_to_args=None)
        globals()["SimInd"] = SimData.ind
    return SimData.ind


def build(d):
    import vectorbt as vbt
    from vectorbt.base.array_wrapper import ArrayWrapper
    from vectorbt.base.column_grouper import ColumnGrouper
    from vectorbt.records.col_mapper import ColumnMapper
    k = d["kind"]
    f = frame(d)
    if k == "wrapper":
        return ArrayWrapper.from_obj(f, freq=d["freq"], group_by=group(d))
    if k == "grouper":
        return ColumnGrouper(axis(d["columns"], d["k"]), group_by=group(d))
    if k == "mapper":
        w = ArrayWrapper.from_obj(f, group_by=group(d))
        return ColumnMapper(w, np.sort(np.array([i % d["k"] for i in range(d["n"])])))
    if k == "data":
        names = [f"S{i}" for i in range(d["k"])]
        frames = {s: pd.Series(np.array(d["vals"])[:, i], index=pd.date_range("2020-01-01", periods=d["n"], freq="h", tz="UTC"), name="Close") for i, s in enumerate(names)}
        if d["ndim"] == 2:
            frames = {s: pd.DataFrame({"Open": x, "Close": x * 2}) for s, x in frames.items()}
        kw = {}
        if d["extra"] == "lambda":
            kw["f"] = lambda x: x + 1
        elif d["extra"] == "td":
            kw["wait"] = pd.Timedelta(minutes=5)
        elif d["extra"] == "closure":
            q = d["window"]
            kw["f"] = lambda x: x + q
        return data_cls().download(names, frames=frames, **kw)
    if k == "indicator":
        return vbt.MA.run(f, [1, 2], short_name="m")
    if k == "factory":
        return factory_cls().run(f, [1, d["window"] + 1])
    if k == "mapped":
        pf = portfolio(d)
        mp = {"dict": {0: "Buy", 1: "Sell"}, "enum": vbt.portfolio.enums.OrderSide, None: None}[d["mapping"]]
        return pf.orders.map_field("side", mapping=mp) if mp is not None else pf.orders.map_field("price")
    if k == "drawdowns":
        return vbt.Drawdowns.from_ts(f, wrapper_kwargs=dict(freq=d["freq"])) if d["index"] != "x" else None
    if k == "ranges":
        return vbt.Ranges.from_ts(f > 4 if False else f.where(f > 4), wrapper_kwargs=dict(freq=d["freq"]))
    pf = portfolio(d)
    if k == "portfolio":
        return pf
    return getattr(pf, {"orders": "orders", "logs": "logs", "trades": "trades", "positions": "positions"}[k])


def same(a, b, path="", depth=0):
    """None if two objects hold the same thing, else where they differ (independent of the library's own equality)."""
    from vectorbt.utils.config import Configured, Config
    if depth > 40:
        return None
    if a is b:
        return None
    if type(a) is not type(b) and not (getattr(type(a), "__qualname__", 1) == getattr(type(b), "__qualname__", 2)):
        return f"{path}: {type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, (pd.Series, pd.DataFrame, pd.Index)):
        try:
            if isinstance(a, pd.Series):
                pd.testing.assert_series_equal(a, b, check_exact=True, check_freq=True)
            elif isinstance(a, pd.DataFrame):
                pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=True)
            else:
                pd.testing.assert_index_equal(a, b, exact=True, check_exact=True)
                if getattr(a, "freq", None) != getattr(b, "freq", None):
                    return f"{path}: freq"
        except AssertionError as e:
            return f"{path}: {str(e)[:200]}"
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{path}: array {a.dtype}{a.shape} vs {b.dtype}{b.shape}"
        if a.dtype.fields:
            return next((r for n in a.dtype.names for r in [same(a[n], b[n], f"{path}.{n}", depth + 1)] if r), None)
        if a.dtype == object:
            return next((r for i in range(a.size) for r in [same(a.flat[i], b.flat[i], f"{path}[{i}]", depth + 1)] if r), None)
        return None if np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, Configured):
        return same(dict(a.config), dict(b.config), f"{path}<{type(a).__name__}>", depth + 1)
    if isinstance(a, Config):
        w = same([a.frozen_keys_, a.readonly_, a.nested_, a.convert_dicts_, a.as_attrs_, a.copy_kwargs_, a.reset_dct_copy_kwargs_],
                 [b.frozen_keys_, b.readonly_, b.nested_, b.convert_dicts_, b.as_attrs_, b.copy_kwargs_, b.reset_dct_copy_kwargs_], path + "<modes>", depth + 1)
        w = w or same(a.reset_dct_, b.reset_dct_, path + "<reset>", depth + 1)
        if w:
            return w
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
        return next((r for k in a for r in [same(a[k], b[k], f"{path}.{k}", depth + 1)] if r), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        return next((r for i, (x, y) in enumerate(zip(a, b)) for r in [same(x, y, f"{path}[{i}]", depth + 1)] if r), None)
    if callable(a) and hasattr(a, "__code__"):
        if a.__code__.co_code != b.__code__.co_code or a.__code__.co_consts != b.__code__.co_consts:
            return f"{path}: code of {a}"
        ca, cb = a.__closure__ or (), b.__closure__ or ()
        return same([c.cell_contents for c in ca], [c.cell_contents for c in cb], path + ".closure", depth + 1)
    if isinstance(a, type):
        return None if a.__qualname__ == b.__qualname__ else f"{path}: {a} vs {b}"
    if isinstance(a, float) and a != a:
        return None if b != b else f"{path}: {a!r} vs {b!r}"
    if hasattr(a, "__dict__") and not isinstance(a, (int, float, str)) and type(a).__eq__ is object.__eq__:
        return same(vars(a), vars(b), path + ".__dict__", depth + 1)
    return None if a == b else f"{path}: two different {type(a).__name__}"


def arrays(v, out=None, depth=0):
    """Every writable numpy buffer below a value."""
    from vectorbt.utils.config import Configured
    out = [] if out is None else out
    if depth > 20:
        return out
    if isinstance(v, Configured):
        v = dict(v.config)
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, (pd.Series, pd.DataFrame)):
        x = v.values
        if isinstance(x, np.ndarray):
            out.append(x)
    elif isinstance(v, dict):
        for x in v.values():
            arrays(x, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays(x, out, depth + 1)
    return out
