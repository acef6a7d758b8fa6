"""C18: saving and loading on a disk that fails, fills up, splits transfers, crashes and loses unflushed data.

"disk": seeded histories of saves, loads, updates from files, crashes and truncations over a few files with objects of every
saveable kind.  A reference map says which saved objects each file may hold; a load may return only one of those (compared
by an own comparator and the library's equality), or raise where a save failed, crashed or was cut short.
"values": configurations with rich nested values go through dumps and loads."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario, SimCrash
from ..fs import Disk

REAL = ["utils.config save, load, load_update, dumps, loads (Pickleable, PickleableDict, Config, Configured)", "dill, pickle",
        "data, indicators, records, mapped arrays, portfolios, wrappers, groupers, column mappers"]
STUB = ["the disk: open, raw reads and writes, close, rename (real files below a scratch folder behind a fault injector)"]
STATE = "object kind x operation x fault x state of the file x outcome"


# ------------------------------------------------------------------ rich values
def gen_value(rng, depth=0):
    t = rng.pick("int", "float", "nan", "str", "none", "array", "rec", "series", "frame", "ts", "index", "lambda", "closure", "named", "obj", "enum",
                 "list", "tuple", "dict", "dict", "config", "config", "pdict", "set", "bytes", "default")
    if t in ("list", "tuple", "dict", "config", "pdict", "atomic") and depth > 2:
        t = "int"
    if t in ("list", "tuple"):
        return [t, [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 2))]]
    if t in ("dict", "pdict", "config"):
        items = [[gen_name(rng), gen_value(rng, depth + 1)] for _ in range(rng.randint(0, 3))]
        return [t, items] + ([gen_modes(rng)] if t == "config" else [])
    if t == "obj":
        return [t, objs.gen_spec(rng, ["wrapper", "orders", "mapped", "grouper"])]
    return [t, rng.randint(0, 99)]


def gen_name(rng):
    return rng.pick(["s", "a"], ["s", "b"], ["s", "c"], ["s", "dct"], ["s", "readonly"], ["s", "self"], ["i", rng.randint(0, 3)], ["t", rng.randint(0, 3)], ["s", "x y"])


def gen_modes(rng):
    d = dict(frozen_keys=rng.pick(None, None, True, False), readonly=rng.pick(None, None, True, False), nested=rng.pick(None, True, False), as_attrs=rng.pick(None, None, False))
    if rng.random() < 0.2:
        d["copy_kwargs"] = dict(copy_mode=rng.pick("shallow", "hybrid", "deep"))
    if d["nested"] and rng.random() < 0.2:
        d["convert_dicts"] = True
    return {k: v for k, v in d.items() if v is not None}


def named_func(x):
    return x + 1


def mk(v):
    from vectorbt.utils.config import Config, PickleableDict, Default
    t, x = v[0], v[1]
    if t == "list":
        return [mk(y) for y in x]
    if t == "tuple":
        return tuple(mk(y) for y in x)
    if t in ("dict", "pdict", "config"):
        d = {name(k): mk(y) for k, y in x}
        if t == "config":
            m = dict(v[2])
            m.setdefault("as_attrs", False)
            c = Config(d, **m)
            if len(x) and not c.readonly_ and len(x) % 2:
                c.__setitem__(name(x[0][0]), 4242)  # the reset contents differ
            return c
        return PickleableDict(d) if t == "pdict" else d
    if t == "obj":
        return objs.build(x)
    return {"int": lambda: x, "float": lambda: x / 7, "nan": lambda: float("nan"), "str": lambda: "s%d" % x, "none": lambda: None,
            "array": lambda: np.arange(x % 5) / 3, "rec": lambda: np.array([(x, x / 3)], dtype=[("id", "i8"), ("p", "f8")]),
            "series": lambda: pd.Series([x, np.nan], index=pd.date_range("2020", periods=2), name="n"),
            "frame": lambda: pd.DataFrame({"a": [x], ("b", 1): [2.5]}), "ts": lambda: pd.Timestamp("2020-03-29 01:30", tz="Europe/Berlin") + pd.Timedelta(hours=x),
            "index": lambda: pd.MultiIndex.from_tuples([(1, "a"), (x, "b")], names=["u", None]), "lambda": lambda: (lambda y: y * 3), "closure": lambda: closure(x),
            "named": lambda: named_func, "enum": lambda: __import__("vectorbt").portfolio.enums.SizeType, "set": lambda: {x, x + 1}, "bytes": lambda: bytes([x, 0, 255]),
            "default": lambda: Default(x)}[t]()


def closure(x):
    return lambda y: y + x


def name(k):
    return {"s": lambda: k[1], "i": lambda: k[1], "t": lambda: (k[1], "x")}[k[0]]()


# ------------------------------------------------------------------ objects of a file
def gen_obj(rng, kind):
    if kind in ("config", "pdict"):
        return [kind, [[gen_name(rng), gen_value(rng, 1)] for _ in range(rng.randint(0, 4))]] + ([gen_modes(rng)] if kind == "config" else [])
    return ["obj", objs.gen_spec(rng, [kind])]


def check_same(ctx, cls, what, want, got):
    from vectorbt.utils.config import Configured, Config
    w = "type %s instead of %s" % (type(got).__name__, type(want).__name__) if type(got) is not type(want) else objs.same(want, got)
    if w:
        return w
    if isinstance(want, Configured):
        if not (Configured.__eq__(want, got) and Configured.__eq__(got, want)):
            return "the library's own equality says no"
    elif isinstance(want, Config) and not has_unequal(dict(want)):
        if not (want == got and got == want):
            return "the library's own equality says no"
    return None


def has_unequal(v):
    """Values the library's equality does not promise to compare (objects without equality, element-wise equality)."""
    from vectorbt.utils.config import Configured, Default
    if isinstance(v, (Configured, Default)) or callable(v):
        return True
    if isinstance(v, dict):
        return any(has_unequal(x) for x in v.values())
    if isinstance(v, (list, tuple, set)):
        return any(has_unequal(x) for x in v)
    return isinstance(v, float) and v != v


def gen(rng):
    files = []
    for _ in range(rng.randint(1, 2)):
        kind = rng.pick("config", "config", "config", "pdict", *objs.KINDS)
        files.append(dict(kind=kind, objs=[gen_obj(rng, kind) for _ in range(rng.randint(1, 3))]))
    steps = []
    for _ in range(rng.randint(3, 9)):
        op = rng.pick("save", "save", "save", "load", "load", "load", "cut", "lose", "update", "update", "unsaveable")
        s = dict(op=op, f=rng.randint(0, len(files) - 1), o=rng.randint(0, 2), cut=rng.random(), tail=rng.pick("none", "none", "zeros"))
        if op in ("save", "load", "update") and rng.random() < 0.45:
            s["plan"] = gen_plan(rng, op)
        if rng.random() < 0.35:
            s["split"] = [rng.pick(1, 3, 7, 50, 500, 4096) for _ in range(rng.randint(1, 3))]
            if min(s["split"]) < 50:
                s["split"].append(1000)
        steps.append(s)
    return dict(files=files, steps=steps)


def gen_plan(rng, op):
    if op == "save":
        return rng.pick(dict(at="write", kind=rng.pick("full", "eio", "crash", "crash"), frac=rng.random()), dict(at="close", kind=rng.pick("eio", "crash")),
                        dict(at="open", kind=rng.pick("emfile", "eacces")), dict(at="rename", kind=rng.pick("eio", "crash")))
    return rng.pick(dict(at="read", kind="eio", op=rng.pick(0, 0, 1, 2)), dict(at="open", kind=rng.pick("emfile", "eacces")))


class Unsaveable:
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("cannot be pickled")


def run(case, ctx):
    from vectorbt.utils.config import Config, PickleableDict, Configured
    root = tempfile.mkdtemp(prefix="c18-")
    try:
        disk = Disk(root, ctx)
        files = []
        for i, f in enumerate(case["files"]):
            o = [mk(x) for x in f["objs"]]
            fresh = [mk(x) for x in f["objs"]]  # untouched twins to compare with
            files.append(dict(path=os.path.join(root, f"f{i}"), kind=f["kind"], o=o, ref=fresh, may=[], bad=True, exists=False))
        target = Config(dict(keep=[1, 2], other=dict(x=3)), frozen_keys=False)
        tref = Config(dict(keep=[1, 2], other=dict(x=3)), frozen_keys=False)
        ptarget, pref = PickleableDict(keep=[1]), PickleableDict(keep=[1])
        with disk:
            for n, s in enumerate(case["steps"]):
                ctx.tick(1)
                step(case, ctx, disk, files, n, s, (target, tref, ptarget, pref))
                if s["op"] == "update":
                    pass
    finally:
        shutil.rmtree(root, ignore_errors=True)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def put(path, b):
    with open(path, "wb") as f:
        f.write(b)


def step(case, ctx, disk, files, n, s, targets):
    from vectorbt.utils.config import Config, PickleableDict
    f = files[s["f"] % len(files)]
    k = s["o"] % len(f["o"])
    obj, what = f["o"][k], f"step {n} {s['op']} {f['kind']}"
    cls = type(f["o"][0])
    op = s["op"]
    disk.op(None, None)
    err = None
    if op == "save":
        plan = dict(s["plan"]) if s.get("plan") else None
        if plan and plan["at"] == "write":
            plan["byte"] = int(plan["frac"] * (len(obj.dumps()) + 1))
        disk.op(plan, s.get("split"))
        try:
            obj.save(f["path"])
        except SimCrash:
            err = "crash"
        except Exception as e:  # noqa
            err = e
        fired, disk.plan = disk.fired, None
        w = objs.same(f["ref"][k], obj)
        if w:
            ctx.fail("object-changed", f"{what}: saving changed the object: {w}")
        if err is None:
            if fired:
                ctx.fail("silent-save", f"{what}: {s['plan']} and the save returned as if nothing happened")
            f["may"], f["bad"] = [k], False
        else:
            if not fired:
                ctx.fail("save-refused", f"{what}: {type(err).__name__}: {err}")
            f["may"], f["bad"] = sorted(set(f["may"] + [k])), True
        ctx.state(f["kind"], op, (s.get("plan") or {}).get("at"), (s.get("plan") or {}).get("kind"), err is None)
        ctx.ev(n, op, f["kind"], k, str(type(err).__name__), fired)
        return
    if op == "unsaveable":
        if f["kind"] not in ("config", "pdict"):
            return
        bad = cls({**dict(obj), "bad": Unsaveable()})
        before = read(f["path"]) if os.path.exists(f["path"]) else None
        disk.op(None, s.get("split"))
        try:
            bad.save(f["path"])
        except Exception as e:  # noqa
            err = e
        if err is None:
            ctx.fail("silent-save", f"{what}: a value that cannot be pickled and the save returned")
        ctx.fault("object that cannot be saved")
        after = read(f["path"]) if os.path.exists(f["path"]) else None
        if before != after:
            ctx.fail("file-lost", f"{what}: an object that cannot be saved changed the file ({len(before) if before is not None else None} -> {len(after) if after is not None else None} bytes)")
        ctx.ev(n, op)
        return
    if op in ("cut", "lose"):
        if not os.path.exists(f["path"]):
            return
        b = read(f["path"])
        c = int(s["cut"] * len(b))
        nb = b[:c] + (b"\0" * (len(b) - c) if s["tail"] == "zeros" else b"")
        put(f["path"], nb)
        if nb != b:
            ctx.fault("file cut" if s["tail"] == "none" else "tail lost to zeros")
            f["bad"] = True
            if op == "lose" and len(f["may"]) == 1:
                # every prefix of a short file, sampled prefixes of a long one
                pts = range(len(b)) if len(b) < 60 else sorted({int(s["cut"] * len(b) * q / 24) for q in range(24)})
                for q in pts:
                    put(f["path"], b[:q])
                    ctx.fault("prefix of a file")
                    try:
                        got = cls.load(f["path"])
                    except Exception:  # noqa
                        continue
                    ctx.fail("silent-load", f"{what}: the first {q} of {len(b)} bytes load as {type(got).__name__}")
                put(f["path"], nb)
        ctx.ev(n, op, c, len(b))
        return
    # load, update
    disk.op(dict(s["plan"]) if s.get("plan") else None, s.get("split"))
    got = None
    t = None
    try:
        if op == "update" and f["kind"] in ("config", "pdict"):
            t, tref = targets[:2] if f["kind"] == "config" else targets[2:]
            t.load_update(f["path"])
            got = t
        else:
            got = cls.load(f["path"])
    except Exception as e:  # noqa
        err = e
    fired, disk.plan = disk.fired, None
    ctx.state(f["kind"], op, (s.get("plan") or {}).get("at"), f["bad"], len(f["may"]), err is None)
    ctx.ev(n, op, f["kind"], str(type(err).__name__))
    if err is not None:
        if not fired and not f["bad"]:
            ctx.fail("load-refused", f"{what}: a good file fails to load: {type(err).__name__}: {err}")
        ctx.fault("failed load", 1)
        if t is not None:
            w = objs.same(tref, t)
            if w:
                ctx.fail("update-lost", f"{what}: the load failed ({type(err).__name__}) and the target changed: {w}")
        return
    if fired:
        ctx.fail("silent-load", f"{what}: {s['plan']} and the load returned")
    if t is not None:
        # the target now holds what was loaded; compare, then put the old contents back under the same object
        w = [check_same(ctx, cls, what, f["ref"][x], t) for x in f["may"]]
        if all(w):
            ctx.fail("load-differs", f"{what}: updated to something never saved: {w}")
        if isinstance(t, Config):
            t.clear(force=True)
            t.__dict__.clear()
            t.__dict__.update(Config(tref).__dict__)
            for kk, v in Config(tref).items():
                dict.__setitem__(t, kk, v)
        else:
            dict.clear(t)
            dict.update(t, tref)
        return
    w = [check_same(ctx, cls, what, f["ref"][x], got) for x in f["may"]]
    if all(w):  # also when nothing was ever saved
        ctx.fail("load-differs", f"{what}: {'a damaged file' if f['bad'] else 'a good file'} loads as something never saved: {w}")


# ------------------------------------------------------------------ values
def gen_vals(rng):
    return dict(v=gen_obj(rng, rng.pick("config", "config", "pdict")), times=rng.randint(1, 2))


def run_vals(case, ctx):
    o, ref = mk(case["v"]), mk(case["v"])
    ctx.tick(1)
    got = o
    for _ in range(case["times"]):
        try:
            b = got.dumps()
            got = type(o).loads(b)
        except Exception as e:  # noqa
            ctx.fail("not-saveable", f"{type(o).__name__} {case['v']}: {type(e).__name__}: {e}")
    w = check_same(ctx, type(o), "", ref, got)
    if w:
        ctx.fail("load-differs", f"{case['v']}: {w}")
    ctx.state(sorted({x[1][0] for x in case["v"][1]}), case["v"][0])
    ctx.ev(repr(case["v"]), len(b))


def shrink_items(v):
    if v[0] in ("config", "pdict", "dict"):
        for i in range(len(v[1])):
            yield [v[0], v[1][:i] + v[1][i + 1:]] + v[2:]
        for i, (k, x) in enumerate(v[1]):
            for y in shrink_items(x):
                yield [v[0], v[1][:i] + [[k, y]] + v[1][i + 1:]] + v[2:]
        if v[0] == "config":
            for k in v[2]:
                yield [v[0], v[1], {a: b for a, b in v[2].items() if a != k}]
    elif v[0] in ("list", "tuple"):
        for i in range(len(v[1])):
            yield [v[0], v[1][:i] + v[1][i + 1:]]
            for y in shrink_items(v[1][i]):
                yield [v[0], v[1][:i] + [y] + v[1][i + 1:]]


def shrink_vals(case):
    for v in shrink_items(case["v"]):
        yield dict(case, v=v)
    if case["times"] > 1:
        yield dict(case, times=1)


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        yield dict(case, steps=st[:i] + st[i + 1:])
    for i, f in enumerate(case["files"]):
        for j, o in enumerate(f["objs"]):
            for v in shrink_items(o):
                yield dict(case, files=case["files"][:i] + [dict(f, objs=f["objs"][:j] + [v] + f["objs"][j + 1:])] + case["files"][i + 1:])
    for i, s in enumerate(st):
        for k in ("split", "plan"):
            if k in s:
                yield dict(case, steps=st[:i] + [{a: b for a, b in s.items() if a != k}] + st[i + 1:])


def warm(mode):
    import warnings
    warnings.simplefilter("ignore")
    from ..core import Rng
    for k in range(40):
        try:
            o = objs.build(objs.gen_spec(Rng(k)))
            type(o).loads(o.dumps())
        except Exception:  # noqa
            pass


SCENARIOS = [
    Scenario("disk", gen, run, 1500, 40000, shrink=shrink, real=REAL, stub=STUB),
    Scenario("values", gen_vals, run_vals, 1500, 40000, shrink=shrink_vals, real=REAL, stub=["none"]),
]
