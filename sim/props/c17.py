"""C17: configuration histories against a reference model.

"configs": a pool of live plain dictionaries and Configs, and everything reachable from them, goes through a seeded history of
writes, deletions, nested and flat updates, merges, copies in every mode, resets, checkpoints, (re)loads and in-place changes
of values; a small model with the documented rules runs in lockstep on its own object graph.  After every step the contents,
modes, reset contents, attributes and the sharing of mutable objects of everything alive are compared with the model, and a
refused operation must leave all of it alone.
"objects": copy, replace and equality of toy and real Configured objects."""
import copy as cp
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario

REAL = ["utils.config (Config, AtomicConfig, Configured, copy_dict, update_dict, merge_dicts, convert_to_dict)", "utils.checks.is_deep_equal",
        "real wrappers, records, mapped arrays, portfolios, indicators, data (objects)"]
STUB = ["nothing in the code under test; the file of save / load_update is a scratch file"]
STATE = "operation x mode x kind of target x outcome"

KEYS = ["a", "b", "c", "d"]
MODES = ["shallow", "hybrid", "deep"]


class Reject(Exception):
    """The model refuses the operation; args[0] is the documented exception class."""


class Skip(Exception):
    """The documentation does not decide this case."""


# ------------------------------------------------------------------ model
class MA(dict):
    """atomic dict"""


class MC(dict):
    """Config; atomic if `atomic`."""
    atomic = False

    def __deepcopy__(self, memo):
        o = MC()
        memo[id(self)] = o
        for k, v in self.__dict__.items():
            o.__dict__[k] = cp.deepcopy(v, memo)
        for k, v in dict.items(self):
            dict.__setitem__(o, k, cp.deepcopy(v, memo))
        return o

    def __copy__(self):
        o = MC(self)
        o.__dict__.update(self.__dict__)
        return o


def is_atomic(v):
    return isinstance(v, MA) or isinstance(v, MC) and v.atomic


def m_copy_dict(d, copy_mode="shallow", nested=True):
    if copy_mode == "deep":
        return cp.deepcopy(d)
    if isinstance(d, MC):
        return m_copy(d, None, dict(copy_mode=copy_mode, nested=nested))
    o = type(d)()
    for k, v in d.items():
        if nested and isinstance(v, dict):
            o[k] = m_copy_dict(v, copy_mode, nested)
        else:
            o[k] = cp.copy(v) if copy_mode == "hybrid" else v
    return o


def m_copy(c, reset_kw, kw):
    o = cp.copy(c)
    o.reset = m_copy_dict(dict(c.reset), **{**c.reset_kw, **kw, **(reset_kw or {})})
    new = m_copy_dict(dict(c), **{**c.copy_kw, **kw})
    for k, v in new.items():
        dict.__setitem__(o, k, v)
    return o


def m_new(dct, p, atomic=False):
    src = dct if isinstance(dct, MC) else None

    def res(n, default):
        if p.get(n) is not None:
            return p[n]
        if src is not None and getattr(src, n) is not None:
            return getattr(src, n)
        return default
    o = MC()
    o.atomic = atomic
    o.frozen = res("frozen", False)
    o.readonly = res("readonly", False)
    o.nested = res("nested", False)
    o.convert = res("convert", False)
    o.attrs = res("attrs", o.frozen or o.readonly)
    base = dict(copy_mode="shallow" if o.readonly else "hybrid", nested=o.nested)
    ckw, rkw = p.get("copy_kw") or {}, p.get("reset_kw") or {}
    rkw = {**ckw, **rkw}
    o.copy_kw = {**base, **(src.copy_kw if src is not None else {}), **ckw}
    o.reset_kw = {**base, **(src.reset_kw if src is not None else {}), **rkw}
    reset = p.get("reset")
    if reset is None and src is not None:
        reset = src.reset
    items = m_copy_dict(dict(dct), **o.copy_kw)
    if o.convert:
        if not o.nested:
            raise Reject(ValueError)
        for k, v in items.items():
            if isinstance(v, dict) and not isinstance(v, MC):
                items[k] = m_new(v, dict(copy_kw=o.copy_kw, reset_kw=o.reset_kw, frozen=o.frozen, readonly=o.readonly,
                                         nested=o.nested, convert=o.convert, attrs=o.attrs), atomic)
    if reset is None:
        reset = items
    o.reset = m_copy_dict(dict(reset), **o.reset_kw)
    for k, v in items.items():
        dict.__setitem__(o, k, v)
    if o.attrs and any(conflicts(k) for k in o):
        raise Reject(ValueError)
    return o


CONFLICTS = {"update", "copy", "keys", "readonly_", "_nested_", "items", "__class__"}


def conflicts(k):
    return k in CONFLICTS


def m_check_set(c, k, force):
    if isinstance(c, MC):
        if c.readonly and not force:
            raise Reject(TypeError)
        if c.frozen and not force and k not in c:
            raise Reject(KeyError)
        if c.attrs and k not in c and conflicts(k):
            raise Reject(ValueError)


def m_set(c, k, v, force=False):
    m_check_set(c, k, force)
    dict.__setitem__(c, k, v)


def m_check_del(c, force):
    if isinstance(c, MC):
        if c.readonly and not force:
            raise Reject(TypeError)
        if c.frozen and not force:
            raise Reject(KeyError)


def m_update(x, y, nested, force, same_keys=False, parents=()):
    """Returns the list of writes; raises before writing anything."""
    writes = []
    if isinstance(x, MC) and x.readonly and not force and len(y):
        raise Reject(TypeError)
    for k, v in y.items():
        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not is_atomic(v):
            if is_atomic(x[k]):
                raise Skip("plain update of an atomic child")
            if x[k] is v:
                raise Skip("a dict updated with itself")
            if isinstance(x, MC) and x.frozen and not force and not isinstance(x[k], MC) and set(v) - set(x[k]):
                raise Skip("new keys of a plain child of a frozen config")
            writes += m_update(x[k], v, nested, force, same_keys)
        else:
            if same_keys and k not in x:
                continue
            m_check_set(x, k, force)
            writes.append((x, k, v))
    return writes


def m_to_dict(d, nested):
    if d is None:
        d = {}
    o = MA() if is_atomic(d) else {}
    for k, v in d.items():
        o[k] = m_to_dict(v, nested) if nested and isinstance(v, dict) else v
    return o


def m_merge(ds, to_dict, copy_mode, nested, same_keys):
    ds = [{} if d is None and not to_dict else d for d in ds]
    if to_dict:
        ds = [m_to_dict(d, nested) for d in ds]
    if copy_mode is not None and (not to_dict or copy_mode != "shallow"):
        ds = [m_copy_dict(d, copy_mode, nested) for d in ds]
    x = ds[0]
    for y in ds[1:]:
        if is_atomic(x) or is_atomic(y):
            x = y
            continue
        if type(x) is dict and type(y) is dict and not x and not same_keys:
            x = y  # nothing to merge: the result is the second one
            continue
        for c, k, v in m_update(x, y, nested, True, same_keys):
            dict.__setitem__(c, k, v)
    return x


def m_eq(a, b):
    """Deep equality as documented for configs: same types of values, same keys, same values."""
    if type(a) != type(b) or isinstance(a, MC) and a.atomic != b.atomic:
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(m_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(m_eq(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ generation
def gen_val(rng, depth=0, confs=True):
    t = rng.random()
    if depth < 2 and t < 0.3:
        return ["dict", {k: gen_val(rng, depth + 1, confs) for k in rng.sample(KEYS, rng.pick(0, 1, 1, 2))}]
    if depth < 2 and t < 0.36:
        return ["atomic", {k: gen_val(rng, depth + 1, confs) for k in rng.sample(KEYS, rng.pick(0, 1, 2))}]
    if confs and depth < 2 and t < 0.48:
        return ["config", {k: gen_val(rng, depth + 1, confs) for k in rng.sample(KEYS, rng.pick(0, 1, 2))}, gen_params(rng, True)]
    if t < 0.75:
        return ["list", [rng.randint(0, 9) for _ in range(rng.randint(0, 2))]]
    if t < 0.85:
        return ["tuple", [rng.randint(0, 9), [rng.randint(0, 9)]]]
    return ["leaf", rng.pick(None, rng.randint(0, 9), "x", True, 1.5)]


def maybe(rng, p, *opts):
    return rng.pick(*opts) if rng.random() < p else None


def gen_kw(rng, p=0.5):
    d = {}
    if rng.random() < p:
        d["copy_mode"] = rng.pick(*MODES)
    if rng.random() < p * 0.7:
        d["nested"] = rng.random() < 0.6
    return d


def gen_params(rng, child=False):
    d = dict(frozen=maybe(rng, 0.3, True, True, False), readonly=maybe(rng, 0.15 if child else 0.2, True, True, False),
             nested=maybe(rng, 0.6, True, True, False), convert=maybe(rng, 0.25, True, True, False),
             attrs=maybe(rng, 0.35, True, False), copy_kw=gen_kw(rng, 0.4) or None, reset_kw=gen_kw(rng, 0.3) or None)
    if d["convert"] and rng.random() < 0.9:
        d["nested"] = True
    return {k: v for k, v in d.items() if v is not None}


def gen_key(rng):
    return rng.pick(*CONFLICTS_L) if rng.random() < 0.04 else rng.pick(*KEYS)


CONFLICTS_L = ["update", "copy", "keys", "readonly_", "_nested_"]


def gen(rng):
    steps = []
    for _ in range(rng.randint(1, 3)):
        steps.append(dict(op="dict", v=["dict", {k: gen_val(rng, 1) for k in rng.sample(KEYS, rng.randint(0, 3))}]) if rng.random() < 0.35 else
                     dict(op="new", src=["dict", {gen_key(rng) if rng.random() < 0.3 else k: gen_val(rng, 0) for k in rng.sample(KEYS, rng.randint(0, 4))}],
                          p=gen_params(rng), atomic=rng.random() < 0.08))
    for _ in range(rng.randint(4, 16)):
        h = rng.randint(0, 6)
        path = rng.randint(0, 30)  # resolved against what is alive
        op = rng.pick("set", "set", "set", "setattr", "del", "delattr", "pop", "popitem", "clear", "update", "update", "update", "update", "updkw",
                      "setdefault", "ior", "merge", "merge", "merge_with", "copy", "copy", "copy", "pycopy", "deepcopy", "copy_dict", "reset", "reset", "reset",
                      "checkpoint", "checkpoint", "to_dict", "mutate", "mutate", "mutate", "mutreset", "recreate", "rebind", "reload", "eq", "eq", "resolve")
        s = dict(op=op, h=h, path=path, k=gen_key(rng), force=rng.random() < 0.15)
        if op in ("set", "setattr", "setdefault"):
            s["v"] = gen_val(rng, 0)
        if op == "pop":
            s["default"] = rng.random() < 0.5
        if op in ("update", "ior", "updkw"):
            s["v"] = ["ref", rng.randint(0, 6), rng.randint(0, 30)] if rng.random() < 0.3 else ["dict", {gen_key(rng): gen_val(rng, 0) for _ in range(rng.randint(0, 3))}]
            s["nested"] = maybe(rng, 0.5, True, False)
        if op in ("merge", "merge_with"):
            s["n"] = [["ref", rng.randint(0, 6), rng.randint(0, 30)] if rng.random() < 0.6 else ["leaf", None] if rng.random() < 0.1 else
                      ["dict", {k: gen_val(rng, 0) for k in rng.sample(KEYS, rng.randint(0, 3))}] for _ in range(rng.pick(1, 1, 1, 2))]
            s["first"] = ["ref", h, path] if rng.random() < 0.8 else rng.pick(["dict", {}], ["leaf", None])
            s["kw"] = dict(to_dict=rng.random() < 0.6, copy_mode=rng.pick(*MODES), nested=rng.random() < 0.7, same_keys=rng.random() < 0.25)
            s["defaults"] = rng.random() < 0.3
        if op in ("copy", "copy_dict", "reset", "checkpoint", "mutreset"):
            s["kw"] = gen_kw(rng)
            s["rkw"] = gen_kw(rng, 0.4) if rng.random() < 0.5 else None
        if op == "recreate":
            s["p"] = gen_params(rng)
            s["rs"] = ["ref", rng.randint(0, 6), rng.randint(0, 30)] if rng.random() < 0.3 else None
        if op == "rebind":
            s["h2"], s["path2"] = rng.randint(0, 6), rng.randint(0, 30)
        if op == "eq":
            s["h2"], s["path2"] = rng.randint(0, 6), rng.randint(0, 30)
            s["how"] = rng.pick("other", "copy", "copy+key", "copy-key", "copy+list", "copy-list")
        if op == "resolve":
            s["i"] = rng.randint(0, 2)
        steps.append(s)
    return dict(steps=steps)


# ------------------------------------------------------------------ execution
def params(p):
    m = dict(frozen="frozen_keys", readonly="readonly", nested="nested", convert="convert_dicts", attrs="as_attrs", copy_kw="copy_kwargs", reset_kw="reset_dct_copy_kwargs")
    return {m[k]: (dict(v) if isinstance(v, dict) else v) for k, v in p.items() if k in m}


def build(v):
    """Build the value twice: real and model."""
    from vectorbt.utils.config import Config, atomic_dict
    if v[0] == "dict":
        b = {k: build(x) for k, x in v[1].items()}
        return {k: x[0] for k, x in b.items()}, {k: x[1] for k, x in b.items()}
    if v[0] == "atomic":
        b = {k: build(x) for k, x in v[1].items()}
        return atomic_dict({k: x[0] for k, x in b.items()}), MA({k: x[1] for k, x in b.items()})
    if v[0] == "config":
        b = {k: build(x) for k, x in v[1].items()}
        m = m_new({k: x[1] for k, x in b.items()}, v[2])
        return Config({k: x[0] for k, x in b.items()}, **params(v[2])), m
    if v[0] == "list":
        return list(v[1]), list(v[1])
    if v[0] == "tuple":
        return (v[1][0], list(v[1][1])), (v[1][0], list(v[1][1]))
    return v[1], v[1]


class Pair:
    def __init__(self, ctx):
        self.ctx = ctx
        self.roots = []  # (real, model)

    def reach(self, kinds=dict):
        """All (real, model) pairs reachable through contents, in a fixed order."""
        out, seen = [], set()

        def walk(r, m, path):
            if id(m) in seen:
                return
            if isinstance(m, kinds):
                seen.add(id(m))
                out.append((r, m, path))
            if isinstance(m, dict):
                for k in m:
                    walk(r[k], m[k], path + (k,))
            elif isinstance(m, tuple):
                for i, x in enumerate(m):
                    walk(r[i], x, path + (i,))
        for i, (r, m) in enumerate(self.roots):
            walk(r, m, (i,))
        return out

    def ref(self, h, path, kinds=dict):
        if not self.roots:
            return None
        al = self.reach(kinds)
        mine = [x for x in al if x[2][0] == h % len(self.roots)] or al
        return mine[path % len(mine)] if mine else None

    def val(self, v):
        if v[0] == "ref":
            x = self.ref(v[1], v[2])
            if x is None:
                return {}, {}
            return x[0], x[1]
        return build(v)

    # -------------------------------------------------------------- comparison
    def compare(self, what):
        from vectorbt.utils.config import Config, atomic_dict
        r2m, m2r, keep = {}, {}, []

        def bad(cls, path, msg):
            self.ctx.fail(cls, f"after {what}: at {'/'.join(map(str, path))}: {msg}")

        def walk(r, m, path):
            if isinstance(m, MC):
                if not isinstance(r, Config) or isinstance(r, atomic_dict) != m.atomic:
                    bad("contents", path, f"{type(r).__name__} instead of a config")
                first = id(m) not in m2r
            elif isinstance(m, MA):
                if type(r) is not atomic_dict:
                    bad("contents", path, f"{type(r).__name__} instead of an atomic dict")
                first = id(m) not in m2r
            elif isinstance(m, (dict, list)):
                if type(r) is not type(m):
                    bad("contents", path, f"{type(r).__name__} {r!r} instead of {m!r}")
                first = id(m) not in m2r
            elif isinstance(m, tuple):
                if type(r) is not tuple or len(r) != len(m):
                    bad("contents", path, f"{r!r} instead of {m!r}")
                for i, x in enumerate(m):
                    walk(r[i], x, path + (i,))
                return
            else:
                if type(r) is not type(m) or r != m:
                    bad("contents", path, f"{r!r} instead of {m!r}")
                return
            if r2m.setdefault(id(r), id(m)) != id(m):
                bad("shared", path, f"{type(r).__name__} {r!r} is the same object as at {m2p[r2m[id(r)]]}")
            if m2r.setdefault(id(m), id(r)) != id(r):
                bad("not-shared", path, f"{type(r).__name__} {r!r} is not the object at {m2p[id(m)]}")
            if not first:
                return
            m2p[id(m)] = "/".join(map(str, path))
            if isinstance(m, list):
                if r != m:
                    bad("contents", path, f"{r!r} instead of {m!r}")
                return
            if list(r.keys()) != list(m.keys()) and set(r.keys()) != set(m.keys()):
                bad("contents", path, f"keys {list(r.keys())} instead of {list(m.keys())}")
            for k in m:
                walk(r[k], m[k], path + (k,))
            if isinstance(m, MC):
                flags = (r.frozen_keys_, r.readonly_, r.nested_, r.convert_dicts_, r.as_attrs_, r.copy_kwargs_, r.reset_dct_copy_kwargs_)
                want = (m.frozen, m.readonly, m.nested, m.convert, m.attrs, m.copy_kw, m.reset_kw)
                if flags != want:
                    bad("modes", path, f"{flags} instead of {want}")
                if m.attrs:
                    for k in m:
                        if getattr(r, k, self) is not r[k]:
                            bad("attribute", path, f"attribute {k} is {getattr(r, k, 'missing')!r} but the item is {r[k]!r}")
                own = [k for k in vars(r) if not (k.startswith("_") and k.endswith("_")) and not (m.attrs and k in m)]
                if own:
                    bad("attribute", path, f"attributes {own} without an item")
                keep.append(r.reset_dct_)
                walk(r.reset_dct_, m.reset, path + ("<reset>",))
        m2p = {}
        for i, (r, m) in enumerate(self.roots):
            walk(r, m, (i,))
        return m2p


def outcome(f):
    try:
        return f(), None
    except Exception as e:  # noqa
        return None, e


def cfgs(r):
    from vectorbt.utils.config import Config
    return isinstance(r, Config)


def run(case, ctx):
    from vectorbt.utils.config import Config, AtomicConfig, atomic_dict, merge_dicts, copy_dict, update_dict, convert_to_dict, resolve_dict
    P = Pair(ctx)
    scratch = tempfile.mkdtemp(prefix="c17-")
    try:
        for n, s in enumerate(case["steps"]):
            ctx.tick(1)
            op = s["op"]
            try:
                res = step(P, s, ctx, scratch, (Config, AtomicConfig, atomic_dict, merge_dicts, copy_dict, update_dict, convert_to_dict, resolve_dict))
            except Skip as e:
                ctx.probe("skipped: " + str(e))
                continue
            if res is None:
                continue
            if cyclic(P.roots):
                ctx.probe("cycle")
                return
            mres, mexc, real, label, keep = res
            rres, rexc = outcome(real)
            what = f"step {n} {label}"
            if mexc is not None:
                ctx.fault("refused " + op)
                if rexc is None:
                    ctx.fail("accepted", f"{what}: the operation has to raise {mexc.__name__}, it returned {rres!r}")
                if not isinstance(rexc, mexc):
                    ctx.fail("error-kind", f"{what}: {rexc!r} instead of {mexc.__name__}")
            elif rexc is not None:
                ctx.fail("raised", f"{what}: {type(rexc).__name__}: {rexc}")
            elif keep == "value":
                P.roots.append((rres, mres))
                P.compare(what)  # before the root is possibly dropped below
                if not isinstance(mres, dict):
                    P.roots.pop()
                elif len(P.roots) > 6:
                    P.roots.pop(0)
            elif keep == "bool":
                if rres is not mres:
                    ctx.fail("equality", f"{what}: {rres!r} instead of {mres!r}")
            P.compare(what)
            ctx.ev(n, op, type(rexc).__name__ if rexc else "ok", repr(P.roots[-1][0]) if P.roots else "")
            ctx.state(op, tuple(sorted((s.get("kw") or {}).items())) + (s.get("nested"),), label.split(" ")[-1], mexc is None)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def flag(m):
    if not isinstance(m, MC):
        return "atomic" if isinstance(m, MA) else "dict"
    return "config" + "".join(c for c, on in (("F", m.frozen), ("R", m.readonly), ("N", m.nested), ("C", m.convert), ("A", m.attrs)) if on)


def step(P, s, ctx, scratch, lib):
    Config, AtomicConfig, atomic_dict, merge_dicts, copy_dict, update_dict, convert_to_dict, resolve_dict = lib
    op = s["op"]

    def model(f, *a, **k):
        try:
            return f(*a, **k), None
        except Reject as e:
            return None, e.args[0]
        except KeyError:
            return None, KeyError
    if op == "dict":
        r, mexc = model(build, s["v"])
        if mexc:
            return None
        P.roots.append(r)
        return None
    if op == "new":
        b, mexc = model(build, s["src"])
        if mexc:
            return None
        P.roots.append(b)
        m, mexc = model(m_new, b[1], s["p"], s.get("atomic", False))
        cls = AtomicConfig if s.get("atomic") else Config
        return m, mexc, lambda: cls(b[0], **params(s["p"])), f"new {s['p']}", "value"
    t = P.ref(s["h"], s["path"])
    if t is None:
        return None
    r, m, path = t
    k, force = s["k"], s["force"]
    lab = f"{op} {k} at {path} {flag(m)}"
    isc = isinstance(m, MC)
    fk = dict(force=True) if force and isc else {}
    if op in ("set", "setattr"):
        b, e = model(build, s["v"])
        if e:
            return None
        if op == "setattr":
            if not (isc and m.attrs) or k.startswith("_"):
                return None
            return *model(m_set, m, k, b[1]), lambda: setattr(r, k, b[0]), lab, None
        if fk:
            return *model(m_set, m, k, b[1], True), lambda: r.__setitem__(k, b[0], force=True), lab, None
        return *model(m_set, m, k, b[1]), lambda: r.__setitem__(k, b[0]), lab, None
    if op in ("del", "delattr"):
        if op == "delattr" and not (isc and m.attrs):
            return None

        def f():
            m_check_del(m, bool(fk))
            del m[k]
        if op == "delattr" and k not in m:
            return None
        if op == "delattr":
            fk = {}
            return *model(f), lambda: delattr(r, k), lab, None
        return *model(f), lambda: r.__delitem__(k, **fk), lab, None
    if op == "pop":
        d = ("dflt",) if s["default"] else ()

        def f():
            m_check_del(m, bool(fk))
            return m.pop(k, *d)
        return *model(f), lambda: r.pop(k, *d, **fk), lab, "value"
    if op == "popitem":
        def f():
            m_check_del(m, bool(fk))
            return m.popitem()
        return *model(f), lambda: r.popitem(**fk), lab, "value"
    if op == "clear":
        if len(m) and not force and s["path"] % 3:
            return None  # keep the pool interesting

        def f():
            m_check_del(m, bool(fk))
            m.clear()
        return *model(f), lambda: r.clear(**fk), lab, None
    if op in ("update", "updkw", "ior"):
        b, e = model(P.val, s["v"])
        if e or b[1] is m:
            return None
        if op == "ior":
            nested, fo = False, False
            if not isc:
                return None
        elif isc:
            nested, fo = s["nested"] if s["nested"] is not None else m.nested, bool(fk)
        else:
            nested, fo = s["nested"] is not False, False
            if isinstance(m, MA) and s["nested"]:
                return None
        if inside(m, b[1]) or inside(b[1], m):
            return None
        src = dict(b[1]) if isc else b[1]

        def f():
            for c, kk, v in m_update(m, src, nested, fo):
                dict.__setitem__(c, kk, v)

        def real():
            if op == "ior":
                x = r
                x |= b[0]
                if x is not r:
                    raise AssertionError("|= returned another object")
                return
            if not isc:
                return update_dict(r, b[0], nested=nested)
            kw = dict(fk)
            if s["nested"] is not None:
                kw["nested"] = s["nested"]
            if op == "updkw":
                return r.update(**b[0], **kw) if not any(x in b[0] for x in ("nested", "force")) else r.update(b[0], **kw)
            return r.update(b[0], **kw)
        return *model(f), real, f"{op} {s['v']} nested={nested} force={fo} at {path} {flag(m)}", None
    if op == "setdefault":
        b, e = model(build, s["v"])
        if e or not isc:
            return None
        if m.readonly and k in m:
            return None

        def f():
            if k in m:
                return m[k]
            m_set(m, k, b[1])
            return b[1]
        return *model(f), lambda: r.setdefault(k, b[0]), lab, "value"
    if op in ("merge", "merge_with"):
        kw = s["kw"]
        first, e = model(P.val, s["first"])
        if e:
            return None
        others, e = model(lambda: [P.val(x) for x in s["n"]])
        if e:
            return None
        if op == "merge_with":
            if not isc:
                return None
            first, others = (r, m), others[:1]
        ms, rs = [first[1]] + [x[1] for x in others], [first[0]] + [x[0] for x in others]
        rk = dict(kw)
        if s["defaults"]:
            rk = {}
            kw = dict(to_dict=True, copy_mode="shallow", nested=m.nested if op == "merge_with" else True, same_keys=False)
        if any(x is None for x in ms) and not kw["to_dict"]:
            return None
        for x, y in zip(ms, rs):
            P_root(P, x, y)
        if op == "merge_with":
            real = lambda: r.merge_with(rs[1], **rk)
        else:
            real = lambda: merge_dicts(*rs, **rk)
        return *model(m_merge, ms, **kw), real, f"{op} {kw} of {[flag(x) for x in ms]} at {path} {flag(m)}", "value"
    if op == "copy":
        if not isc:
            return None
        rk = {} if s["rkw"] is None else dict(reset_dct_copy_kwargs=s["rkw"])
        return *model(m_copy, m, s["rkw"], s["kw"]), lambda: r.copy(**rk, **s["kw"]), f"copy {s['kw']} {s['rkw']} at {path} {flag(m)}", "value"
    if op == "copy_dict":
        return *model(m_copy_dict, m, **s["kw"]), lambda: copy_dict(r, **s["kw"]), f"copy_dict {s['kw']} at {path} {flag(m)}", "value"
    if op == "pycopy":
        return cp.copy(m), None, lambda: cp.copy(r), lab, "value"
    if op == "deepcopy":
        return cp.deepcopy(m), None, lambda: cp.deepcopy(r), lab, "value"
    if op == "to_dict":
        if not isc:
            return None
        nested = s["path"] % 2 == 0
        return m_to_dict(m, nested), None, lambda: r.to_dict(nested=nested), lab, "value"
    if op in ("reset", "checkpoint"):
        if not isc:
            return None

        def f():
            if m.readonly and not fk:
                raise Reject(TypeError)
            kw = {**m.reset_kw, **s["kw"]}
            if op == "checkpoint":
                m.reset = m_copy_dict(dict(m), **kw)
                return
            new = m_copy_dict(dict(m.reset), **kw)
            m.clear()
            for kk, v in m.reset.items():
                dict.__setitem__(m, kk, v)
            m.reset = new
        mexc = model(f)[1]
        return None, mexc, lambda: (r.reset if op == "reset" else r.make_checkpoint)(**fk, **s["kw"]), f"{op} {s['kw']} at {path} {flag(m)}", None
    if op in ("mutate", "mutreset"):
        if op == "mutreset":
            if not isc:
                return None
            sub = Pair(ctx)
            sub.roots = [(r.reset_dct_, m.reset)]
            al = sub.reach((list,))
        else:
            al = P.reach((list,))
        if not al:
            return None
        x = al[s["path"] % len(al)]
        x[1].append(99)
        return None, None, lambda: x[0].append(99), f"append to {x[2]} list", None
    if op == "recreate":
        p = dict(s["p"])
        rp = params(p)
        if s["rs"] is not None:
            rs = P.val(s["rs"])
            p["reset"], rp["reset_dct"] = rs[1], rs[0]
        return *model(m_new, m, p), lambda: Config(r, **rp), f"recreate {s['p']} from {flag(m)}", "value"
    if op == "rebind":
        t2 = P.ref(s["h2"], s["path2"])
        if t2[1] is m or inside(t2[1], m) or inside(m, t2[1]):
            return None
        return *model(m_set, m, k, t2[1]), lambda: r.__setitem__(k, t2[0]), f"rebind {k} to {t2[2]} at {path} {flag(m)}", None
    if op == "reload":
        if not isc:
            return None
        if unpicklable(m):
            raise Skip("config inside a plain container does not pickle")
        if any(conflicts(x) for x in m):
            return None
        new = cp.deepcopy(m)
        m2, mexc = model(reloaded, new, m)
        fn = os.path.join(scratch, "c")
        if s["path"] % 2 == 0:
            cls = type(r)

            def real():
                r.save(fn)
                return cls.load(fn)
            return m2, mexc, real, lab, "value"
        t2 = P.ref(s["path"], s["h"])
        if not isinstance(t2[1], MC) or t2[1] is m or t2[1].atomic != m.atomic:
            return None

        def real2():
            r.save(fn)
            t2[0].load_update(fn)
        if mexc is None:
            t2[1].clear()
            t2[1].__dict__.clear()
            t2[1].__dict__.update(m2.__dict__)
            for kk, v in m2.items():
                dict.__setitem__(t2[1], kk, v)
        return None, mexc, real2, f"save and load into {t2[2]} {lab}", None
    if op == "eq":
        if not isc:
            return None
        if s["how"] == "other":
            t2 = P.ref(s["h2"], s["path2"])
            if not isinstance(t2[1], dict):
                return None
            want = m_eq(dict(m), dict(t2[1]))
            return want, None, lambda: r == t2[0], f"== {t2[2]} at {path} {flag(m)}", "bool"
        o = cp.deepcopy(r)
        mo = cp.deepcopy(m)
        if s["how"] in ("copy+key", "copy-key"):
            dict.__setitem__(o, "zz", 5)
            dict.__setitem__(mo, "zz", 5)
        elif s["how"] in ("copy+list", "copy-list"):
            sub = Pair(ctx)
            sub.roots = [(o, mo)]
            al = sub.reach((list,))
            if not al:
                return None
            x = al[s["path"] % len(al)]
            x[0].append(1)
            x[1].append(1)
        want = m_eq(dict(m), dict(mo))
        if s["how"] in ("copy-key", "copy-list"):
            return want, None, lambda: o == r, f"{s['how']} == at {path} {flag(m)}", "bool"
        return want, None, lambda: r == o, f"== {s['how']} at {path} {flag(m)}", "bool"
    if op == "resolve":
        src = dict(m)
        return src, None, lambda: resolve_dict(r, s["i"]), lab, "value"
    raise ValueError(op)


def P_root(P, m, r):
    """Inputs of a merge stay under observation."""
    if isinstance(m, dict) and not any(x[1] is m for x in P.reach()):
        P.roots.append((r, m))


def cyclic(roots):
    def walk(v, up):
        if isinstance(v, (dict, tuple)):
            if id(v) in up:
                return True
            kids = list(v.values()) if isinstance(v, dict) else list(v)
            if isinstance(v, MC):
                kids.append(v.reset)
            return any(walk(x, up | {id(v)}) for x in kids)
        return False
    return any(walk(m, frozenset()) for _, m in roots)


def inside(a, b):
    """a is reachable from b."""
    if a is b:
        return True
    if isinstance(b, MC) and inside(a, b.reset):
        return True
    if isinstance(b, dict):
        return any(inside(a, v) for v in b.values())
    if isinstance(b, tuple):
        return any(inside(a, v) for v in b)
    return False


def unpicklable(c, top=True):
    """A config below a plain dict, list or tuple."""
    for dd in (dict(c), c.reset):
        for v in dd.values():
            if isinstance(v, MC):
                if unpicklable(v):
                    return True
            elif has_config(v):
                return True
    return False


def has_config(v):
    if isinstance(v, MC):
        return True
    if isinstance(v, dict):
        return any(has_config(x) for x in v.values())
    if isinstance(v, (tuple, list)):
        return any(has_config(x) for x in v)
    return False


def reloaded(m, orig):
    """Loading constructs the config anew from its saved contents and modes (children first, without shared objects)."""
    def fresh(d):
        memo = {}  # one file keeps what its plain values share
        return {k: reloaded(v, v) if isinstance(v, MC) else cp.deepcopy(v, memo) for k, v in d.items()}
    return m_new(fresh(m), dict(copy_kw=m.copy_kw, reset_kw=m.reset_kw, frozen=m.frozen, readonly=m.readonly, nested=m.nested,
                                convert=m.convert, attrs=m.attrs, reset=fresh(m.reset)), m.atomic)


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        yield dict(case, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        for key in ("v", "src"):
            v = s.get(key)
            if v and v[0] in ("dict", "config", "atomic"):
                for k in v[1]:
                    nv = [v[0], {a: b for a, b in v[1].items() if a != k}] + list(v[2:])
                    yield dict(case, steps=st[:i] + [dict(s, **{key: nv})] + st[i + 1:])
        for key in ("p", "kw"):
            if isinstance(s.get(key), dict) and s["op"] not in ("merge", "merge_with"):
                for k in s[key]:
                    yield dict(case, steps=st[:i] + [dict(s, **{key: {a: b for a, b in s[key].items() if a != k}})] + st[i + 1:])



# ------------------------------------------------------------------ objects
def gen_obj(rng):
    d = objs.gen_spec(rng)
    steps = []
    for _ in range(rng.randint(1, 4)):
        op = rng.pick("copy", "copy", "replace", "replace", "replace", "differ", "readonly", "chain")
        steps.append(dict(op=op, mode=rng.pick("shallow", "shallow", "hybrid", "deep", None), nested=rng.pick(None, True, False), arg=rng.randint(0, 40),
                          how=rng.pick("vals", "freq", "fees", "cash", "index", "columns", "n"), seed=rng.randint(0, 10 ** 6)))
    return dict(d=d, steps=steps)


def run_obj(case, ctx):
    from vectorbt.utils.config import Configured
    eq = Configured.__eq__  # mapped arrays overload == element by element
    d = case["d"]
    o = objs.build(d)
    ref = objs.build(d)
    cls = type(o)
    ident = {k: id(v) for k, v in o.config.items()}

    def intact(what):
        w = objs.same(o, ref)
        if w or {k: id(v) for k, v in o.config.items()} != ident:
            ctx.fail("original-changed", f"{what} of a {d['kind']} changed the original: {w or 'other objects in its config'}")
    if not (eq(o, ref) and eq(ref, o)):
        ctx.fail("equality", f"two {d['kind']} built alike differ")
    for s in case["steps"]:
        ctx.tick(1)
        ctx.ev(s["op"], d["kind"], s["mode"])
        ctx.state(d["kind"], s["op"], s["mode"], s["nested"])
        what = f"{s['op']} mode={s['mode']} nested={s['nested']}"
        if s["op"] in ("copy", "chain"):
            c = o.copy(copy_mode=s["mode"], nested=s["nested"])
            if s["op"] == "chain":
                c = c.copy(copy_mode=s["mode"], nested=s["nested"]).replace()
            if type(c) is not cls:
                ctx.fail("copy-differs", f"{what}: {type(c)} from {cls}")
            w = objs.same(o, c)
            if w:
                ctx.fail("copy-differs", f"{what} of {d['kind']}: {w}")
            if not (eq(c, o) and eq(o, c)):
                ctx.fail("equality", f"{what} of {d['kind']} does not compare equal")
            if s["mode"] in (None, "shallow") and any(c.config[k] is not o.config[k] for k in o.config if not isinstance(o.config[k], dict)):
                ctx.fail("sharing", f"{what} of {d['kind']} copied values")
            if s["mode"] == "deep" and s["op"] == "copy":
                mine, theirs = objs.arrays(o), objs.arrays(c)
                if any(np.shares_memory(x, y) for x in mine for y in theirs):
                    ctx.fail("sharing", f"{what} of {d['kind']} shares arrays with the original")
                ctx.probe("deep copy of arrays", len(theirs))
            intact(what)
        elif s["op"] in ("replace", "differ"):
            d2 = dict(d)
            if s["how"] == "vals":
                d2["vals"] = [[x + 1 + (i * 7 + j) % 3 for j, x in enumerate(r)] for i, r in enumerate(d["vals"])]
            elif s["how"] == "freq":
                d2["freq"] = {"D": "1h", "1h": "D", None: "D"}[d["freq"]]
            elif s["how"] == "fees":
                d2["fees"] = 0.5
            elif s["how"] == "cash":
                d2["cash"] = d["cash"] * 2
            elif s["how"] == "n":
                d2["n"], d2["vals"], d2["side"] = d["n"] + 1, d["vals"] + [[2.0] * d["k"]], d["side"] + [[0] * d["k"]]
            else:
                opts = ["range", "str", "named"] if s["how"] == "columns" else ["range", "str", "float"]
                d2[s["how"]] = opts[(opts.index(d[s["how"]]) + 1 if d[s["how"]] in opts else 0) % len(opts)]
            try:
                o2 = objs.build(d2)
            except Exception:  # noqa
                continue
            if s["op"] == "differ":
                w = objs.same(o, o2)
                for x, y in ((o, o2), (o2, o)):
                    if eq(x, y) != (w is None):
                        ctx.fail("equality", f"{d['kind']} with another {s['how']}: == says {eq(x, y)}, they differ in {w}")
                ctx.probe("compared different objects" if w else "compared same objects")
                continue
            keys = list(o.config.keys())
            k = keys[s["arg"] % len(keys)]
            if k not in o2.config:
                continue
            new = o2.config[k]
            try:
                want = cls(**{**dict(o.config), k: new})
            except Exception:  # noqa
                ctx.probe("replacement refused by the class")
                continue
            r = o.replace(copy_mode_=s["mode"], nested_=s["nested"], **{k: new})
            w = objs.same(r.config[k], want.config[k]) or next((x for q in keys if q not in (k, "col_mapper") for x in [objs.same(r.config[q], want.config[q], q)] if x), None) \
                or (None if set(r.config) == set(want.config) else "other arguments")
            if w:
                ctx.fail("replace", f"{what} {k} of {d['kind']}: {w}")
            if objs.same(r, want) is None and not (eq(r, want) and eq(want, r)):
                ctx.fail("equality", f"{what} {k} of {d['kind']} is not equal to one constructed that way")
            intact(what + " " + k)
        else:
            k = list(o.config.keys())[s["arg"] % len(o.config)]
            for f in (lambda: o.config.__setitem__(k, 5), lambda: o.config.pop(k), lambda: o.config.update({k: 5}), lambda: o.config.clear(),
                      lambda: o.config.reset(), lambda: o.config.setdefault("zz", 5)):
                try:
                    f()
                except TypeError:
                    ctx.fault("refused write")
                else:
                    ctx.fail("writable", f"the configuration of a {d['kind']} was changed")
            intact("a write")


def gen_metrics(rng):
    d = objs.gen_spec(rng, ["portfolio", "orders", "indicator", "data", "mapped", "drawdowns"])
    return dict(d=d, via=rng.pick("copy", "replace", "load"), what=rng.pick("_metrics", "_subplots"))


def run_metrics(case, ctx):
    """A metric or subplot added to one object (documented way: change its `_metrics` / `_subplots`) belongs to its copies too."""
    o = objs.build(case["d"])
    getattr(o, case["what"])["mine"] = dict(title="Mine", calc_func="wrapper.shape")
    c = {"copy": lambda: o.copy(), "replace": lambda: o.replace(), "load": lambda: type(o).loads(o.dumps())}[case["via"]]()
    ctx.ev(case["via"], case["what"])
    ctx.state(case["via"], case["what"], case["d"]["kind"])
    ctx.tick(1)
    if "mine" not in getattr(c, case["what"]):
        ctx.fail("added-metric-lost", f"{case['what']} of a {case['d']['kind']} after {case['via']}")
    if "mine" in getattr(type(o), case["what"]):
        ctx.fail("class-changed", f"{case['what']} of the class {type(o).__name__} changed with an instance")


def shrink_obj(case):
    for i in range(len(case.get("steps", []))):
        yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])
    d = case["d"]
    for k, v in (("freq", None), ("group", None), ("index", "range"), ("columns", "range"), ("nan", False), ("mapping", None), ("extra", None)):
        if d[k] != v:
            yield dict(case, d=dict(d, **{k: v}))


def warm(mode):
    import warnings
    warnings.simplefilter("ignore")
    from ..core import Rng
    for k in range(12):
        try:
            objs.build(objs.gen_spec(Rng(k)))
        except Exception:  # noqa
            pass


SCENARIOS = [
    Scenario("configs", gen, run, 6000, 150000, shrink=shrink, real=REAL, stub=STUB),
    Scenario("objects", gen_obj, run_obj, 600, 15000, shrink=shrink_obj, real=REAL, stub=STUB),
    Scenario("added metrics", gen_metrics, run_metrics, 40, 400, shrink=shrink_obj, real=REAL, stub=STUB),
]
