"""C16: cached properties and methods under threads, clears, failures and every caching setting.

"classes" builds a small class hierarchy with the real decorators and lets several controlled threads read, clear, change and
fail under a seeded schedule (every line of utils/decorators.py and every step inside a computation is a preemption point);
every computation and every returned value is judged against a model of the documented caching rules.  "objects" reads real
portfolios, records and wrappers from several threads under random caching settings and compares with uncached recomputation."""
import threading

import numpy as np
import pandas as pd

from ..core import Scenario
from ..threads import Sched, controlled, Killed, gen_schedule

REAL = ["utils.decorators cached_property, cached_method, should_cache", "_settings caching", "portfolio, records, wrapper and grouper methods (objects)"]
STUB = ["threads and locks (one runs at a time, seeded schedule)", "time"]
STATE = "operation x caching decision x preemptions x outcome"

OFF = dict(enabled=False, whitelist=[], blacklist=[])


class Boom(Exception):
    pass


# ------------------------------------------------------------------ settings
def gen_cond(rng, insts, members, classes, flags):
    d = dict(instance=None, func=None, cls=None, base_cls=None, flags=None, rank=None)
    keys = rng.sample(["instance", "func", "cls", "base_cls", "flags"], rng.pick(1, 1, 2, 2, 3))
    for k in keys:
        if k == "instance":
            d[k] = rng.randint(0, insts - 1)
        elif k == "func":
            d[k] = ["str", rng.pick(*members)] if rng.random() < 0.5 else ["obj", rng.pick(*classes), rng.pick(*members)]
        elif k in ("cls", "base_cls"):
            d[k] = [rng.pick("str", "obj"), rng.pick(*classes)]
        else:
            d[k] = {rng.pick(*flags): rng.pick(0, 1)}
    if rng.random() < 0.12:
        d["rank"] = rng.randint(0, 12)
    return d


def gen_conf(rng, insts, members, classes, flags):
    m = rng.pick("on", "on", "off", "conds", "conds", "conds")
    if m == "on":
        return dict(enabled=True, whitelist=[], blacklist=[])
    if m == "off":
        return dict(enabled=False, whitelist=[], blacklist=[])
    g = lambda: [gen_cond(rng, insts, members, classes, flags) for _ in range(rng.pick(0, 1, 1, 2, 3))]
    return dict(enabled=rng.random() < 0.5, whitelist=g(), blacklist=g())


def rank_of(cond, inst, owner, member, flags, mro, owner_of):
    """Documented rank of a condition for one attribute of one instance, or None."""
    if cond["instance"] is not None and cond["instance"] != inst:
        return None
    if cond["func"] is not None:
        f = cond["func"]
        if f[0] == "str":
            if f[1] != member:
                return None
        elif f[2] != member or owner_of(f[1], member) != owner:
            return None
    if cond["cls"] is not None and cond["cls"][1] != mro[0]:
        return None
    if cond["base_cls"] is not None and cond["base_cls"][1] not in mro:
        return None
    if cond["flags"] is not None and any(flags.get(k) != v for k, v in cond["flags"].items()):
        return None
    kind = [k for k in ("instance", "cls", "base_cls") if cond[k] is not None][:1]
    if not kind and cond["func"] is None and cond["flags"] is None:
        return None
    base = {"instance": 0, "cls": 3, "base_cls": 6}[kind[0]] if kind else 9
    if kind:
        r = base + (0 if cond["func"] is not None else 1 if cond["flags"] is not None else 2)
    else:
        r = 9 if cond["func"] is not None and cond["flags"] is not None else 10 if cond["func"] is not None else 11
    return cond["rank"] if cond["rank"] is not None else r


def decide(conf, *a):
    best = {}
    for side in ("whitelist", "blacklist"):
        r = [x for x in (rank_of(c, *a) for c in conf[side]) if x is not None]
        best[side] = min(r) if r else 100
    if best["whitelist"] == best["blacklist"]:
        return conf["enabled"]
    return best["whitelist"] < best["blacklist"]


def apply_conf(conf, insts, classes):
    import vectorbt as vbt

    def cond(c):
        kw = {}
        if c["instance"] is not None:
            kw["instance"] = insts[c["instance"]]
        if c["func"] is not None:
            kw["func"] = c["func"][1] if c["func"][0] == "str" else getattr(classes[c["func"][1]], c["func"][2])
        for k in ("cls", "base_cls"):
            if c[k] is not None:
                kw[k] = c[k][1] if c[k][0] == "str" else classes[c[k][1]]
        if c["flags"] is not None:
            kw["flags"] = dict(c["flags"])
        if c["rank"] is not None:
            kw["rank"] = c["rank"]
        return vbt.CacheCondition(**kw)
    cfg = vbt.settings["caching"]
    cfg["enabled"] = conf["enabled"]
    cfg["whitelist"] = [cond(c) for c in conf["whitelist"]]
    cfg["blacklist"] = [cond(c) for c in conf["blacklist"]]


class caching:
    """Restore the caching settings afterwards."""

    def __enter__(self):
        import vectorbt as vbt
        cfg = vbt.settings["caching"]
        self.cfg, self.old = cfg, {k: cfg[k] for k in ("enabled", "whitelist", "blacklist")}
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            self.cfg[k] = v


# ------------------------------------------------------------------ classes
PROPS, METHODS = ("p", "q"), ("m", "n")
ARGS = {"i1": 1, "f1": 1.0, "t": True, "i0": 0, "fl": False, "s": "s", "tup": (1, 2), "none": None, "list": [1], "arr": "array"}


def gen_classes(rng):
    nested = rng.pick(None, None, None, "self", "self", "peer")
    members = {"A": {k: {"x": rng.randint(0, 1)} if rng.random() < 0.5 else {} for k in PROPS + METHODS}}
    for c, b in (("B", "A"), ("C", "B")):
        members[c] = {k: {"x": rng.randint(0, 1), "super": rng.random() < 0.6} for k in PROPS + METHODS if rng.random() < 0.3}
    insts = [rng.pick("A", "A", "B", "C") for _ in range(rng.pick(1, 2, 2, 3))]
    focus = rng.random() < 0.5
    if focus:
        members["B"], members["C"] = {}, {}
    hot = [[rng.randint(0, len(insts) - 1), rng.pick("p", "p", "q", "m")] for _ in range(2)]
    names = list(PROPS + METHODS)
    phases = []
    for _ in range(rng.pick(1, 1, 2, 3)):
        threads = []
        for _ in range(rng.pick(1, 2, 2, 3, 4)):
            ops = []
            for _ in range(rng.randint(1, 6)):
                i, k = rng.randint(0, len(insts) - 1), rng.pick("p", "p", "q", "m", "n")
                if focus:
                    i, k = rng.pick(*hot)
                r = rng.random()
                if r < 0.72:
                    ops.append(["read", i, k, rng.pick(*ARGS) if k in METHODS else None, rng.random() < 0.3])
                elif r < 0.88:
                    ops.append(["clear", i, k])
                else:
                    ops.append(["bump", i])
            threads.append(ops)
        phases.append(dict(conf=gen_conf(rng, len(insts), names, ["A", "B", "C"], ["x", "y"]), threads=threads))
    n = rng.pick(0, 2, 5, 15, 40)
    return dict(members=members, insts=insts, phases=phases, nested=nested, fails=sorted(set(rng.randint(0, 30) for _ in range(rng.pick(0, 0, 1, 3, 6)))),
                slow=rng.pick(0, 1, 3), sched=gen_schedule(rng, n, rng.pick(3, 10, 10, 40)), trace=rng.random() < 0.8, maxsize=rng.pick(2, 128, 128))


MRO = {"A": ["A"], "B": ["B", "A"], "C": ["C", "B", "A"]}


class Slot:
    """What the model knows about one cached attribute of one instance (per argument set for methods)."""

    def __init__(self):
        self.filled = False  # a computation has finished since the last clear began
        self.running = 0
        self.clears = 0
        self.floor = 0


def run_classes(case, ctx):
    import vectorbt.utils.decorators as deco
    s = Sched(ctx, case["sched"], trace=(deco.__file__,) if case["trace"] else (), bound=60000)
    problems = []
    members, nested = case["members"], case["nested"]
    slots, computed, stack = {}, [0], {}
    floors = {}
    distinct, clearing = {}, {}
    state = dict(conf=OFF)

    def problem(cls, msg):
        if not problems:
            problems.append((cls, msg))

    def owner_of(c, k):
        return next(x for x in MRO[c] if k in members[x])

    def cached(inst, owner, k):
        c = case["insts"][inst.num]
        flags = {f: v for f, v in members[owner][k].items() if f != "super"}
        return decide(state["conf"], inst.num, owner, k, flags, MRO[c], owner_of)

    def argkey(a):
        return None if a is None else (type(ARGS[a]).__name__, repr(ARGS[a]))

    def slotkey(inst, owner, k, a, kwarg):
        # like functools.lru_cache, a positional and a keyword argument are told apart
        return (inst.num, owner, k, argkey(a), bool(kwarg))

    def hashable(a):
        return a not in ("list", "arr")

    def value(a):
        return np.array([1]) if a == "arr" else ARGS[a]

    def compute(inst, owner, k, a):
        """Body of every property and method."""
        me = s.current()
        fr = stack[me.name][-1]
        fr["computes"] += 1
        key = slotkey(inst, owner, k, a, fr["kwarg"])
        hold = cached(inst, owner, k) and (a is None or hashable(a))
        sl = slots.setdefault(key, Slot())
        ctx.ev("compute", key, inst.version)
        if (fr["owner"], fr["k"], fr["inst"], fr["a"]) != (owner, k, inst.num, argkey(a)):
            problem("wrong-function", f"read of {fr} ran the body of {key}")
        if hold:
            room = len(distinct.get((inst.num, owner, k), ())) <= case["maxsize"]
            if sl.filled and fr["clears"] == sl.clears and (a is None or (room and fr["filled"])):
                problem("recomputed", f"{key} computed again although its result was cached and nothing was cleared")
            if sl.running and a is None and sl.run_clears == sl.clears == fr["clears"]:
                problem("computed-twice", f"{key}: two threads compute the cached property at once")
        at, ver = sl.clears, inst.version
        sl.running += 1
        sl.run_clears = fr["clears"]
        n = computed[0]
        computed[0] += 1
        try:
            for _ in range(case["slow"]):
                s.point("compute")
            extra = None
            if nested == "self" and k == "q":
                extra = read(inst, "p", None)
            elif nested == "self" and k == "n":
                extra = read(inst, "m", a)
            elif nested == "peer" and inst.num + 1 < len(insts):
                # instances form a chain; each property of one reads the other property of the next
                extra = read(insts[inst.num + 1], {"p": "q", "q": "p", "m": "p", "n": "m"}[k], a if k == "n" else None)
            if members[owner][k].get("super") and owner != "A":
                extra = (extra, read(inst, k, a, after=owner))
            if n in case["fails"]:
                ctx.fault("computation raises")
                raise Boom(n)
        finally:
            sl.running -= 1
        if hold and sl.clears == at == fr["clears"]:
            sl.filled = True
        return (owner, k, inst.num, argkey(a), ver, extra)

    def read(inst, k, a, after=None, kwarg=False):
        """Read an attribute and judge the answer."""
        c = case["insts"][inst.num]
        mro = MRO[c]
        owner = owner_of(c, k) if after is None else next(x for x in mro[mro.index(after) + 1:] if k in members[x])
        me = s.current()
        fr = dict(owner=owner, k=k, inst=inst.num, a=argkey(a), computes=0, kwarg=bool(kwarg))
        floor = floors.get((inst.num, owner, k), 0)
        hold = cached(inst, owner, k) and (a is None or hashable(a))
        kwarg = kwarg and a is not None
        fr["kwarg"] = kwarg
        key = slotkey(inst, owner, k, a, kwarg)
        if a is not None and hold:
            distinct.setdefault((inst.num, owner, k), set()).add(key)
        sl = slots.setdefault(key, Slot())
        clears = sl.clears
        fr.update(filled=sl.filled, clears=-1 if clearing.get((inst.num, owner, k)) else clears)
        stack[me.name].append(fr)
        exc = None
        try:
            if after is None:
                f = getattr(inst, k) if a is None else None
                got = f if a is None else getattr(inst, k)(arg=value(a)) if kwarg else getattr(inst, k)(value(a))
            else:
                sup = super(state["classes"][after], inst)
                got = getattr(sup, k) if a is None else getattr(sup, k)(value(a))
        except Boom as e:
            exc = e
            raise
        except Killed:
            raise
        except Exception as e:  # noqa
            exc = e
            problem("read-raises", f"{key}: {e!r}")
            raise Boom(-1)
        finally:
            stack[me.name].pop()
        ctx.state(k, hold, fr["computes"], after is not None, sl.clears - clears)
        if fr["computes"] > 1 and (a is not None or sl.clears == clears):
            problem("computed-often", f"one read of {key} computed {fr['computes']} times")
        if not hold and fr["computes"] != 1:
            problem("not-recomputed", f"{key} is not to be cached under {state['conf']}, yet a read computed {fr['computes']} times")
        ctx.ev("read", key, got[:5] if isinstance(got, tuple) else repr(got))
        if not isinstance(got, tuple) or got[:4] != (owner, k, inst.num, argkey(a)):
            problem("wrong-value", f"read {key}, got {got}")
        elif not (floor <= got[4] <= inst.version):
            problem("stale", f"read {key}: value of version {got[4]} although it was cleared at version {floor}")
        return got

    def clear(inst, k):
        for x in MRO[case["insts"][inst.num]]:
            if k not in members[x]:
                continue
            ver = inst.version
            clearing[(inst.num, x, k)] = clearing.get((inst.num, x, k), 0) + 1
            for key, sl in slots.items():
                if key[:3] == (inst.num, x, k):
                    sl.filled = False
                    sl.clears += 1
            try:
                getattr(state["classes"][x], k).clear_cache(inst)
            except Killed:
                raise
            except Exception as e:  # noqa
                problem("clear-raises", f"clear_cache of {k} on instance {inst.num}: {e!r}")
            for key, sl in slots.items():
                if key[:3] == (inst.num, x, k):
                    sl.filled = False
                    sl.clears += 1
            clearing[(inst.num, x, k)] -= 1
            floors[(inst.num, x, k)] = max(floors.get((inst.num, x, k), 0), ver)
            ctx.ev("clear", inst.num, x, k, ver)

    def program(ops, name):
        def body():
            stack[name] = []
            for op in ops:
                if problems:
                    return
                s.point("op")
                if op[1] >= len(insts):
                    continue
                inst = insts[op[1]]
                if op[0] == "read":
                    try:
                        read(inst, op[2], op[3], kwarg=bool(op[4]))
                    except Boom:
                        pass
                elif op[0] == "clear":
                    ctx.fault("clear")
                    clear(inst, op[2])
                elif not nested and not any(m.get("super") for c in "BC" for m in members[c].values()):
                    # inputs change: only clearing makes the change visible
                    ctx.fault("inputs change")
                    inst.version += 1
                    for k in PROPS + METHODS:
                        clear(inst, k)
        return body

    with caching(), controlled(s):
        classes = {}
        for c in "ABC":
            ns = {"__init__": lambda self, n: self.__dict__.update(num=n, version=0)}
            for k, fl in members[c].items():
                flags = {f: v for f, v in fl.items() if f != "super"}
                if k in PROPS:
                    def fn(self, c=c, k=k):
                        return compute(self, c, k, None)
                    fn.__name__, fn.__qualname__ = k, f"{c}.{k}"
                    ns[k] = deco.cached_property(fn, **flags)
                else:
                    def fn(self, arg, c=c, k=k):
                        a = "arr" if isinstance(arg, np.ndarray) else next(x for x, v in ARGS.items() if type(v) is type(arg) and v == arg)
                        return compute(self, c, k, a)
                    fn.__name__, fn.__qualname__ = k, f"{c}.{k}"
                    ns[k] = deco.cached_method(maxsize=case["maxsize"], **flags)(fn)
            base = (classes[MRO[c][1]],) if c != "A" else ()
            classes[c] = type(c, base, ns)
        state["classes"] = classes
        insts = [classes[c](j) for j, c in enumerate(case["insts"])]
        for n, ph in enumerate(case["phases"]):
            state["conf"] = ph["conf"]
            if n:
                # what was cached under other settings may or may not be there: start counting again
                for sl in slots.values():
                    sl.filled = False
            apply_conf(ph["conf"], insts, classes)
            ctx.ev("phase", n)
            for j, ops in enumerate(ph["threads"]):
                s.spawn(program(ops, f"t{n}.{j}"), f"t{n}.{j}")
            s.run()
            if s.failure is not None:
                raise s.failure
            for t in s.threads:
                if t.exc is not None and not isinstance(t.exc, Killed) and not problems:
                    raise t.exc
            if problems:
                break
            ctx.tick(1)
    for _ in range(s.switches):
        ctx.fault("preemption")
    if problems:
        ctx.fail(*problems[0])


def shrink_classes(case):
    for i in range(len(case["phases"])):
        if len(case["phases"]) > 1:
            yield dict(case, phases=case["phases"][:i] + case["phases"][i + 1:])
        ph = case["phases"][i]
        for j in range(len(ph["threads"])):
            if len(ph["threads"]) > 1:
                yield dict(case, phases=case["phases"][:i] + [dict(ph, threads=ph["threads"][:j] + ph["threads"][j + 1:])] + case["phases"][i + 1:])
    for c in "BC":
        if case["members"][c]:
            yield dict(case, members=dict(case["members"], **{c: {}}))
    if case["fails"]:
        yield dict(case, fails=[])
    if case["nested"]:
        yield dict(case, nested=None)


# ------------------------------------------------------------------ real objects
GB = ["", "group_by=False", "group_by=True", "group_by=0", "group_by='g'", "group_by=None"]
PF_READS = ["wrapper.shape", "wrapper.grouper.get_group_lens({})", "wrapper.get_columns({})", "total_profit({})", "total_return({})", "value({})", "cash({})", "cash_flow({})", "asset_value({})",
            "gross_exposure({})", "net_exposure({})", "returns({})", "final_value({})", "init_cash", "get_init_cash({})", "asset_flow()", "assets()", "position_mask({})", "position_coverage({})",
            "asset_returns({})", "market_value({})", "total_market_return({})", "sharpe_ratio({})", "max_drawdown({})", "sharpe_ratio(required_return=0)", "sharpe_ratio(required_return=False)",
            "orders.count()", "entry_trades.pnl.sum()", "exit_trades.win_rate()", "positions.count({})", "drawdowns.max_drawdown()", "get_orders({}).count({})", "qs is None", "logs.count()",
            "entry_trades.records_readable", "benchmark_value({})", "cumulative_returns({})", "asset_flow(direction='longonly')", "asset_flow(direction=0)", "assets(direction='both')", "cash_flow(free=True)", "cash_flow(free=1)", "cash(free=0)"]
OTHER = {"ranges": ["count({})", "duration.mean({})", "values['col']", "col_mapper.col_range", "coverage({})", "avg_duration({})", "records_readable", "wrapper.get_columns({})"],
         "mapped": ["sum({})", "count({})", "to_pd()", "col_mapper.col_map[0]", "reduce_max", "min({})", "describe({})", "is_sorted()", "wrapper.shape"],
         "wrapper": ["shape", "shape_2d", "get_columns({})", "get_ndim({})", "get_shape_2d({})", "freq", "grouper.get_groups({})", "grouper.get_group_count({})", "grouper.is_grouped({})", "get_name({})", "grouper.get_group_start_idxs({})",
                     "grouper.get_group_end_idxs({})", "grouper.is_sorted({})", "grouper.is_grouping_modified({})", "grouper.is_grouping_changed({})"],
         "returns": ["total({})", "sharpe_ratio({})", "cumulative({})", "max_drawdown({})", "drawdowns.count()", "annualized({})", "wrapper.get_columns({})", "calmar_ratio()", "ranges.count({})"]}
MEMBERS = {"pf": ["value", "cash", "total_profit", "returns", "orders", "get_group_lens", "get_columns", "init_cash", "asset_flow", "cash_flow", "assets"],
           "ranges": ["count", "duration", "col_mapper", "get_columns"], "mapped": ["sum", "count", "col_mapper", "to_pd"], "wrapper": ["get_columns", "get_ndim", "get_groups_and_columns", "get_group_lens", "get_groups"],
           "returns": ["total", "sharpe_ratio", "cumulative", "drawdowns"]}
CLASSES = {"pf": ["Portfolio", "ArrayWrapper", "ColumnGrouper", "Wrapping", "StatsBuilderMixin"], "ranges": ["Records", "Ranges", "ColumnMapper", "Wrapping"], "mapped": ["MappedArray", "ColumnMapper", "Wrapping"],
           "wrapper": ["ArrayWrapper", "ColumnGrouper", "Configured"], "returns": ["ReturnsAccessor", "GenericAccessor", "ArrayWrapper"]}


FUNCS = ["Portfolio.total_profit", "Portfolio.value", "Portfolio.init_cash", "Portfolio.asset_flow", "ColumnGrouper.get_groups_and_columns", "ColumnGrouper.get_group_lens", "ColumnGrouper.get_group_count"]


def gen_objects(rng):
    kind = rng.pick("pf", "pf", "pf", "ranges", "mapped", "wrapper", "wrapper", "returns")
    reads = PF_READS if kind == "pf" else OTHER[kind]
    T, N = rng.pick(3, 6, 10), rng.randint(1, 4)
    pool = [rng.pick(*reads).replace("{}", rng.pick(*GB)) for _ in range(rng.randint(2, 5))]
    # the same method under several arguments is what a shared slot would mix up
    for _ in range(2):
        r = rng.pick(*reads)
        if "{}" in r:
            pool += [r.replace("{}", g) for g in rng.sample(GB, 3)]
    threads = []
    for _ in range(rng.pick(1, 1, 2, 3)):
        ops = []
        for _ in range(rng.randint(2, 7)):
            ops.append(["clear", rng.pick(*MEMBERS[kind])] if rng.random() < 0.15 else ["read", rng.pick(*pool)])
        threads.append(ops)
    conf = gen_conf(rng, 1, MEMBERS[kind], CLASSES[kind], ["group_by_aware", "x"])
    for c in conf["whitelist"] + conf["blacklist"]:
        if c["func"] is not None and c["func"][0] == "obj":
            c["func"] = ["real", rng.pick(*FUNCS)]
        for k in ("cls", "base_cls"):
            if c[k] is not None:
                c[k] = ["str", c[k][1]]
    return dict(kind=kind, T=T, N=N, feed=rng.randint(0, 10 ** 6), group=rng.pick(None, None, 0, "g", True), share=rng.random() < 0.4, threads=threads, conf=conf,
                sched=gen_schedule(rng, rng.pick(0, 3, 10), rng.pick(20, 100, 400)), trace=rng.random() < 0.6, sel=rng.pick(None, None, 0, "copy", "regroup"))


def make(case):
    import random as rnd

    import vectorbt as vbt
    r = rnd.Random(case["feed"])
    T, N = case["T"], case["N"]
    cols = pd.MultiIndex.from_tuples([("ab"[c // 2], c % 2) for c in range(N)], names=["g", "k"])
    idx = pd.date_range("2020-01-01", periods=T, freq="D")
    close = pd.DataFrame([[round(r.uniform(5, 15), 2) for _ in range(N)] for _ in range(T)], index=idx, columns=cols)
    g = case["group"]
    k = case["kind"]
    if k == "pf":
        size = np.array([[r.choice([1.0, -1.0, 2.0, float("nan")]) for _ in range(N)] for _ in range(T)])
        o = vbt.Portfolio.from_orders(close, size, group_by=g, cash_sharing=bool(g is not None and case["share"]), fees=0.01, init_cash=50.0, log=True)
    elif k == "ranges":
        o = vbt.Ranges.from_ts(close > 10, wrapper_kwargs=dict(group_by=g))
    elif k == "mapped":
        o = vbt.Ranges.from_ts(close > 10, wrapper_kwargs=dict(group_by=g)).duration
    elif k == "wrapper":
        o = vbt.ArrayWrapper.from_obj(close, group_by=g)
    else:
        o = close.pct_change().vbt.returns
    s = case["sel"]
    if s == 0 and k in ("pf", "ranges", "mapped") and g is None:
        o2 = o.iloc[[N - 1]]
        [ev(o, p) for p in ("wrapper.shape",)]
        return o2
    if s == "copy" and hasattr(o, "copy") and k != "returns":
        return o.copy()
    if s == "regroup" and hasattr(o, "regroup") and not case["share"]:
        return o.regroup(True)
    return o


def ev(o, path):
    path = path.replace("reduce_max", "reduce(__import__('vectorbt').generic.nb.max_reduce_nb)")
    return eval("o." + path if not path.startswith("qs is") else "True", {"o": o})


def canon(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return [type(v).__name__, [str(x) for x in v.index], [str(c) for c in v.columns] if isinstance(v, pd.DataFrame) else str(v.name), [repr(x) for x in np.asarray(v, dtype=object).ravel()]]
    if isinstance(v, pd.Index):
        return ["Index"] + [str(x) for x in v]
    if isinstance(v, np.ndarray):
        return ["array", [repr(x) for x in v.ravel().tolist()]]
    if isinstance(v, tuple):
        return [canon(x) for x in v]
    return repr(v) if v is None or isinstance(v, (int, float, str, bool, np.generic, pd.Timedelta)) else type(v).__name__


def answer(o, path):
    try:
        return canon(ev(o, path))
    except Killed:
        raise
    except Exception as e:  # noqa
        return ["raised", type(e).__name__]


def find_locks():
    """Every lock held by a decorator inside the library."""
    import sys
    seen, out = set(), []
    R = (type(threading.RLock()), type(threading.Lock()))
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("vectorbt"):
            continue
        for cls in list(vars(mod).values()):
            if not isinstance(cls, type) or id(cls) in seen:
                continue
            seen.add(id(cls))
            for a in list(vars(cls).values()):
                d = getattr(a, "__dict__", None)
                if d is None or id(a) in seen:
                    continue
                seen.add(id(a))
                for k, v in list(d.items()):
                    if isinstance(v, R):
                        out.append((d, k, v))
    return out


LOCKS = []


def run_objects(case, ctx):
    import vectorbt as vbt
    import vectorbt.utils.decorators as deco
    from vectorbt.base.column_grouper import ColumnGrouper
    problems = []
    if not LOCKS:
        LOCKS.extend(find_locks())
    with caching():
        apply_conf(OFF, [], {})
        ref = make(case)
        want = {}
        for ops in case["threads"]:
            for op in ops:
                if op[0] == "read" and op[1] not in want:
                    want[op[1]] = answer(ref, op[1])
        subject = make(case)
        conf = dict(case["conf"])
        classes = {}
        for side in ("whitelist", "blacklist"):
            conf[side] = [dict(c) for c in conf[side]]
        real = {}
        for side in ("whitelist", "blacklist"):
            for c in conf[side]:
                if c["func"] is not None and c["func"][0] == "real":
                    cn, mn = c["func"][1].split(".")
                    real[cn] = getattr(vbt, cn, None) or ColumnGrouper
                    c["func"] = ["obj", cn, mn]
        apply_conf(conf, [subject], real)
        s = Sched(ctx, case["sched"], trace=(deco.__file__,) if case["trace"] else (), bound=3000000)
        saved = []
        with controlled(s) as shim:
            try:
                for d, k, v in LOCKS:
                    saved.append((d, k, v))
                    d[k] = shim.RLock()

                def clear(o, name):
                    for x in (o, getattr(o, "wrapper", None), getattr(getattr(o, "wrapper", o), "grouper", None)):
                        m = getattr(type(x), name, None)
                        if m is not None and hasattr(m, "clear_cache"):
                            try:
                                m.clear_cache(x)
                            except Killed:
                                raise
                            except Exception as e:  # noqa
                                problems.append(("clear-raises", f"{case['kind']}.{name}: {e!r}"))

                def body(ops):
                    def go():
                        for op in ops:
                            if problems:
                                return
                            s.point("op")
                            if op[0] == "clear":
                                ctx.fault("clear")
                                clear(subject, op[1])
                                continue
                            got = answer(subject, op[1])
                            ctx.ev(op[1], got)
                            ctx.state(case["kind"], op[1], case["group"], got[0] == "raised" if isinstance(got, list) else False)
                            if got != want[op[1]]:
                                problems.append((f"differs-{case['kind']}", f"{case['kind']} (group_by {case['group']}, {case['sel']}): {op[1]} gives {got}, without caching {want[op[1]]}\nsettings {case['conf']}\nhistory {case['threads']}"))
                                return
                    return go
                for j, ops in enumerate(case["threads"]):
                    s.spawn(body(ops), f"reader{j}")
                s.run()
                if s.failure is not None:
                    raise s.failure
                for t in s.threads:
                    if t.exc is not None and not isinstance(t.exc, Killed):
                        raise t.exc
            finally:
                for d, k, v in saved:
                    d[k] = v
        for _ in range(min(s.switches, 50)):
            ctx.fault("preemption")
        ctx.tick(1)
    if problems:
        ctx.fail(*problems[0])


def shrink_objects(case):
    for i in range(len(case["threads"])):
        if len(case["threads"]) > 1:
            yield dict(case, threads=case["threads"][:i] + case["threads"][i + 1:])
        for j in range(len(case["threads"][i])):
            if len(case["threads"][i]) > 1:
                yield dict(case, threads=case["threads"][:i] + [case["threads"][i][:j] + case["threads"][i][j + 1:]] + case["threads"][i + 1:])
    for side in ("whitelist", "blacklist"):
        for j in range(len(case["conf"][side])):
            yield dict(case, conf=dict(case["conf"], **{side: case["conf"][side][:j] + case["conf"][side][j + 1:]}))


SCENARIOS = [
    Scenario("classes", gen_classes, run_classes, 3000, 120000, shrink=shrink_classes, real=REAL, stub=STUB),
    Scenario("objects", gen_objects, run_objects, 500, 15000, shrink=shrink_objects, real=REAL, stub=STUB),
]
