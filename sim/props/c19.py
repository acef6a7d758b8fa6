"""C19: distributed execution through a simulated Ray runtime with seeded completion order and worker faults.

Each run is a history of calls on one driver (indicators, apply_and_concat, combine with concat, and the combine functions
themselves) with their own init, shutdown and fault plan.  Every result is compared with the serial call; every fault that
fired has to surface; the runtime has to be up or down as the caller asked."""
import numpy as np
import pandas as pd

from .. import objs
from ..core import Scenario
from ..raysim import Sim, installed

REAL = ["base.combine_fns ray_apply, *_ray and their serial forms", "indicators.factory from_apply_func (use_ray)", "base.accessors apply_and_concat, combine"]
STUB = ["the Ray runtime (one process, seeded order, faults, read-only copies of arguments and results)"]
STATE = "kind of call x completion order class x fault x runtime flags x outcome"


class Boom(Exception):
    pass


def gen_data(rng):
    n, k = rng.randint(1, 4), rng.randint(1, 3)
    return dict(a=[[rng.randint(1, 9) for _ in range(k)] for _ in range(n)], nd=rng.pick(1, 2) if k == 1 else 2)


def gen_call(rng):
    n = rng.pick(1, 2, 3, 3, 4, 5, 7)
    c = dict(kind=rng.pick("one", "multiple", "combine", "ind1", "ind2", "ind_cache", "ind_combs", "acc_apply", "acc_combine", "ray_apply"), data=gen_data(rng), n=n,
             ps=[rng.randint(1, 6) for _ in range(n)], qs=[rng.randint(1, 6) for _ in range(n)], extra=rng.randint(0, 3), per_column=rng.random() < 0.2,
             product=rng.random() < 0.3, keep_pd=rng.random() < 0.3, kw=rng.random() < 0.5,
             order=[rng.randint(0, 11) for _ in range(rng.randint(0, 9))], shutdown=rng.random() < 0.35, force=rng.random() < 0.25,
             init=maybe(rng, 0.3, dict(num_cpus=2)), func=maybe(rng, 0.3, dict(num_cpus=1)), flags=rng.random() < 0.8)
    if c["kind"] == "acc_combine" and n == 1:
        c["kind"] = "combine"  # one other is combined directly, without a job
    if rng.random() < 0.4:
        c["fault"] = dict(kind=rng.pick("raise", "crash", "lost", "unscheduled", "store", "init", "retry"), at=rng.randint(0, 6))
    if rng.random() < 0.1:
        c["bad"] = rng.randint(0, n - 1)  # the function itself raises
    elif rng.random() < 0.12:
        # the function hands back nothing, less, or fewer outputs for one task
        c["bad"], c["how"] = rng.randint(0, n - 1), rng.pick("nothing", "nothing", "less", "fewer")
    return c


def maybe(rng, p, x):
    return x if rng.random() < p else None


def gen(rng):
    return dict(up=rng.random() < 0.4, calls=[gen_call(rng) for _ in range(rng.randint(1, 4))])


def arr(d):
    a = np.array(d["a"], dtype=float)
    return a[:, 0] if d["nd"] == 1 else a


def pds(d):
    a = arr(d)
    idx = pd.date_range("2020", periods=len(a))
    return pd.Series(a, index=idx, name="s") if a.ndim == 1 else pd.DataFrame(a, index=idx, columns=[f"c{i}" for i in range(a.shape[1])])


IND = {}


def indicator(kind):
    if kind not in IND:
        import vectorbt as vbt

        def f1(x, p, q, bad=None, how=None, extra=0, out=1):
            if bad is not None and p == bad:
                return spoil(how, x * p + q * 100 + extra)
            return x * p + q * 100 + extra

        def f2(x, p, q, bad=None, how=None, extra=0):
            if bad is not None and p == bad:
                return spoil(how, x * p + extra, x - q)
            return x * p + extra, x - q

        def cf(x, ps, qs, bad=None, how=None, extra=0):
            return {p: float(np.nansum(x)) * p for p in ps}

        def f3(x, p, q, cache, bad=None, how=None, extra=0):
            if bad is not None and p == bad:
                return spoil(how, x + cache[p] + q + extra)
            return x + cache[p] + q + extra
        kw = dict(class_name="I", input_names=["x"], param_names=["p", "q"])
        if kind == "ind2":
            IND[kind] = vbt.IndicatorFactory(output_names=["y", "z"], **kw).from_apply_func(f2, numba_loop=False)
        elif kind == "ind_cache":
            IND[kind] = vbt.IndicatorFactory(output_names=["y"], **kw).from_apply_func(f3, cache_func=cf, numba_loop=False)
        else:
            IND[kind] = vbt.IndicatorFactory(output_names=["y"], **kw).from_apply_func(f1, numba_loop=False)
    return IND[kind]


def spoil(how, *out):
    """What a function hands back for the task in which it goes wrong."""
    if how is None:
        raise Boom("bad task")
    if how == "less":
        out = [o[:-1] for o in out]
    if how == "nothing":
        return None
    return out[0] if how == "fewer" or len(out) == 1 else tuple(out)


def perform(c, ray):
    """The call, serial or distributed."""
    from vectorbt.base import combine_fns as cf
    a = arr(c["data"])
    rk = dict(ray) if ray is not None else {}
    bad = None if c.get("bad") is None else c["ps"][c["bad"]]
    k, n = c["kind"], c["n"]
    kw = dict(extra=c["extra"]) if c["kw"] else {}

    def app(i, x, w, extra=0):
        if i == c.get("bad"):
            return spoil(c.get("how"), x * c["ps"][i] + w[i] + extra)
        return x * c["ps"][i] + w[i] + extra

    def app2(i, x, w, extra=0):
        if i == c.get("bad"):
            return spoil(c.get("how"), x * c["ps"][i] + extra, x + w[i])
        return x * c["ps"][i] + extra, x + w[i]

    def comb(x, y, q=0, extra=0):
        if bad is not None and np.all(np.asarray(y) == bad * 1000):
            return spoil(c.get("how"), x + y * 2 + q + extra)
        return x + y * 2 + q + extra
    w = tuple(c["qs"])
    if k == "ray_apply":
        return cf.ray_apply(n, app, a, w, **kw, **rk) if ray is not None else [app(i, a, w, **kw) for i in range(n)]
    if k == "one":
        return (cf.apply_and_concat_one_ray if ray is not None else cf.apply_and_concat_one)(n, app, a, w, **kw, **rk)
    if k == "multiple":
        return (cf.apply_and_concat_multiple_ray if ray is not None else cf.apply_and_concat_multiple)(n, app2, a, w, **kw, **rk)
    others = [np.full(a.shape, p * 1000.0 if i == c.get("bad") else p) for i, p in enumerate(c["ps"])]
    if k == "combine":
        return (cf.combine_and_concat_ray if ray is not None else cf.combine_and_concat)(a, others, comb, 5, **kw, **rk)
    x = pds(c["data"])
    if ray is not None:
        rk["use_ray"] = True
    if k == "acc_apply":
        def accapp(i, v, extra=0):
            if i == c.get("bad"):
                return spoil(c.get("how"), v * c["ps"][i] + extra)
            return v * c["ps"][i] + extra
        return x.vbt.apply_and_concat(n, apply_func=accapp, keep_pd=c["keep_pd"], keys=pd.Index(range(n), name="t"), **kw, **rk)
    if k == "acc_combine":
        return x.vbt.combine([o for o in others], combine_func=comb, concat=True, keep_pd=c["keep_pd"], keys=pd.Index(range(n), name="t"), **kw, **rk)
    I = indicator("ind1" if k == "ind_combs" else k)
    kk = dict(kw)
    if c.get("bad") is not None:
        kk["bad"], kk["how"] = bad, c.get("how")
    if k == "ind_combs":
        if n < 2:
            return I.run(x, c["ps"], c["qs"], **kk, **rk).y
        r = I.run_combs(x, p=c["ps"], q=c["qs"], r=2, short_names=["u", "v"], run_unique=c["product"], **kk, **rk)
        return [(i.y, i.short_name) for i in r]
    r = I.run(x, c["ps"], c["qs"], param_product=c["product"], per_column=c["per_column"] and x.ndim == 2 and len(c["ps"]) == x.shape[1], **kk, **rk)
    return [getattr(r, o) for o in r.output_names] + [r.p_list, r.q_list]


def run(case, ctx):
    sim = Sim(ctx)
    with installed(sim):
        if case["up"]:
            sim.init()
        for n, c in enumerate(case["calls"]):
            ctx.tick(1)
            serial = serr = None
            try:
                serial = perform(c, None)
            except Exception as e:  # noqa
                serr = e
            was = sim.up
            rk = {}
            if c["flags"]:
                rk = {k: v for k, v in dict(ray_shutdown=c["shutdown"], ray_force_init=c["force"], ray_init_kwargs=c["init"], ray_func_kwargs=c["func"]).items() if v}
            sim.call(c["order"], c.get("fault"))
            got = err = None
            try:
                got = perform(c, rk)
            except Exception as e:  # noqa
                err = e
            what = f"call {n} {c['kind']} {rk}"
            fired = sim.fired
            ctx.ev(n, c["kind"], type(err).__name__, sim.log, repr(got) if err is None else "")
            ctx.state(c["kind"], sorted(rk), (c.get("fault") or {}).get("kind") if fired else None, was, err is None, case_order(c))
            if serr is not None:
                ctx.fault("function raises")
                if err is None:
                    ctx.fail("missing-error", f"{what}: the serial call raises {serr!r}, the distributed one returns {got!r}")
            elif fired:
                if err is None:
                    ctx.fail("silent-fault", f"{what}: {c['fault']} and the call returned {got!r}")
            elif err is not None:
                ctx.fail("refused", f"{what}: {type(err).__name__}: {err}")
            else:
                w = objs.same(serial, got)
                if w:
                    ctx.fail("differs", f"{what}: completion order {c['order']}: {w}\nserial {serial!r}\nray    {got!r}")
            if serr is not None and err is not None and not fired and sim.tasks and not isinstance(err, Boom) and isinstance(serr, Boom):
                ctx.fail("error-kind", f"{what}: {err!r} instead of {serr!r}")
            # the runtime
            inits = [x for x in sim.log if x[0] == "init"]
            downs = [x for x in sim.log if x[0] == "shutdown"]
            if not sim.log and (serr is not None or err is not None):
                continue  # refused before the runtime was touched
            force, want_down = bool(rk.get("ray_force_init")), bool(rk.get("ray_shutdown"))
            multi = c["kind"].startswith("ind")  # one job per column or per distinct parameter set
            failed_init = fired and c["fault"]["kind"] == "init"
            if failed_init:
                if sim.up:
                    ctx.fail("runtime", f"{what}: still up after a failed init")
                continue
            if sim.up != (not want_down):
                ctx.fail("runtime", f"{what}: {'up' if sim.up else 'down'} after the call ({'failed' if err is not None else 'done'}): {sim.log}")
            if inits and inits[0][1] != (rk.get("ray_init_kwargs") or {}):
                ctx.fail("runtime", f"{what}: started with {inits[0][1]}")
            if not multi:
                if len(inits) != (1 if force or not was else 0):
                    ctx.fail("runtime", f"{what}: started {len(inits)} times, it was {'up' if was else 'down'}: {sim.log}")
                if len(downs) != int(force and was) + int(want_down):
                    ctx.fail("runtime", f"{what}: shut down {len(downs)} times: {sim.log}")
            rem = [x for x in sim.log if x[0] == "remote"]
            if any(x[1] != (rk.get("ray_func_kwargs") or {}) for x in rem):
                ctx.fail("runtime", f"{what}: remote options {rem}")
            if err is None and not multi and sim.tasks != c["n"]:
                ctx.fail("runtime", f"{what}: {sim.tasks} tasks for {c['n']} calls")


def case_order(c):
    o = c["order"][:3]
    return tuple(x % 3 for x in o)


def shrink(case):
    cs = case["calls"]
    for i in range(len(cs)):
        yield dict(case, calls=cs[:i] + cs[i + 1:])
    for i, c in enumerate(cs):
        for k, v in (("order", []), ("fault", None), ("bad", None), ("init", None), ("func", None), ("force", False), ("shutdown", False), ("kw", False), ("product", False), ("per_column", False)):
            if c.get(k) not in (v, None):
                yield dict(case, calls=cs[:i] + [dict(c, **{k: v})] + cs[i + 1:])
        if c["n"] > 2 and c.get("bad") is None:
            yield dict(case, calls=cs[:i] + [dict(c, n=c["n"] - 1, ps=c["ps"][:-1], qs=c["qs"][:-1])] + cs[i + 1:])


def warm(mode):
    import warnings
    warnings.simplefilter("ignore")
    for k in ("ind1", "ind2", "ind_cache"):
        indicator(k)


SCENARIOS = [Scenario("ray", gen, run, 800, 20000, shrink=shrink, real=REAL, stub=STUB)]
