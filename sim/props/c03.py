"""C03: user callbacks inside the simulators.  The strategy is a process that the venue calls back: every lifecycle
call is recorded with the state its context shows, and compared with the reference.  Faults: a callback raises at any
point of the call tree (also interrupts), calls out of the group, bad call sequences, missing ticks, venue outages."""
import numpy as np

from .. import pf
from ..core import Scenario, close as eq
from ..pf import NAN, INF
from . import c01

import vectorbt as vbt  # noqa
from vectorbt.portfolio.enums import Order, NoOrder, RejectedOrderError

REAL = ["Portfolio.from_order_func", "portfolio.nb simulate/simulate_row_wise/flex_simulate/flex_simulate_row_wise", "process_order/execute_order"]
STUB = ["market feed", "venue rejections", "user callbacks (recording strategy with scripted failures)"]
STATE = "callback kind x segment activity x order outcome x flags of the run"


class Flag(Exception):
    pass


class RejFlag(RejectedOrderError):
    pass


class Interrupt(BaseException):
    pass


KINDS = dict(flag=Flag, value=ValueError, index=IndexError, reject=RejFlag, interrupt=KeyboardInterrupt, base=Interrupt, zero=ZeroDivisionError,
             stopiter=StopIteration)


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def gen(rng, flex=None, small=False):
    T = rng.pick(1, 2, 3, 5, 8, 12)
    share = rng.chance(0.5)
    groups = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    N = sum(groups)
    feats = [f for f in c01.ALL if f != "valp" and rng.chance(0.3)]
    if rng.chance(0.06):
        feats.append("raise")
    if rng.chance(0.2):
        feats.append("plain")
    naccs = len(groups) if share else N
    c = dict(groups=groups, share=share, cash=[float(rng.pick(100, 100, 1000, 10, 0, 55.5)) for _ in range(naccs)],
             close=pf.gen_feed(rng, T, N, gaps=rng.pick(0, 0, 0.05, 0.3), wild=rng.pick(0, 0, 0.1), grid=rng.chance(0.7)),
             fields=c01.gen_orders(rng, T, N, feats, rng.pick(0.2, 0.6, 1.0)), ffill=not rng.chance(0.2), uv=rng.chance(0.3),
             row=rng.chance(0.5), flex=rng.chance(0.4) if flex is None else flex, cpre=rng.chance(0.3), cpost=rng.chance(0.3), fillpos=not rng.chance(0.15),
             init_temp=rng.chance(0.3), order=rng.pick("C", "F"))
    x = rng.random()
    if x < 0.4:
        c["mask"] = None
    elif x < 0.6:
        c["mask"] = rng.randint(1, 4)
    else:
        p = rng.pick(0.3, 0.7, 0.95)
        c["mask"] = [[1 if rng.chance(p) else 0 for _ in groups] for _ in range(T)]
    if not c["flex"]:
        x = rng.random()
        if x < 0.2:
            c["seq"] = "reversed"
        elif x < 0.4:
            c["seq"] = [sum((perm(rng, n) for n in groups), []) for _ in range(T)]
            if rng.chance(0.1):
                i, k = rng.randrange(T), rng.randrange(N)
                c["seq"][i][k] = rng.pick(5, 0)
        if rng.chance(0.3):
            c["seqset"] = [[i, g, perm(rng, n)] for i in range(T) for g, n in enumerate(groups) if rng.chance(0.3)]
    else:
        s = []
        lo = 0
        for g, n in enumerate(groups):
            for i in range(T):
                m = rng.pick(0, 1, 1, n, n, rng.randint(0, 5))
                for k in range(m):
                    col = lo + rng.randrange(n)
                    over = {}
                    if rng.chance(0.4):
                        over["size"] = float(rng.pick(1, -1, 2, -2, 0.5, INF, -INF))
                        over["size_type"] = 0
                    if rng.chance(0.2):
                        over["price"] = rng.pick(1.0, 5.0, 9.5, INF, -INF)
                    s.append([i, g, k, col, over])
            lo += n
        if s and rng.chance(0.05):
            s[rng.randrange(len(s))][3] = rng.pick(N, -2, 99, 0)
        c["script"] = s
        c["max_orders"] = rng.pick(None, max(len(s), 1), max(len(s), 1) + 3)
        c["max_logs"] = rng.pick(None, max(len(s), 1), max(len(s), 1) + 3)
    if rng.chance(0.3):
        c["valps"] = [[i, k, rng.pick(1.0, 5.0, 10.0, 7.7, NAN)] for i in range(T) for k in range(N) if rng.chance(0.2)]
    c["fail"] = [rng.random(), rng.pick(*KINDS)] if rng.chance(0.4) else None
    return c


ARRS = ("last_cash", "last_position", "last_debt", "last_free_cash", "last_val_price", "last_value", "second_last_value", "last_return",
        "last_oidx", "last_lidx")
NOWS = ("cash", "position", "debt", "free_cash", "val_price", "value")


class Recorder:
    """The user strategy: records what it is shown, returns scripted orders, fails on command."""

    def __init__(self, case, stop=None, kind=None):
        self.case = case
        self.trace = []
        self.stop = stop
        self.kind = kind
        self.groups = pf.group_spans(case)
        self.F = {n: pf.dense(case, n).tolist() for n in pf.ORDER_FIELDS}
        self.valps = [(i, c, v) for i, c, v in case.get("valps", [])]
        self.seqset = {(i, g): p for i, g, p in case.get("seqset", [])}
        self.script = {}
        for i, g, k, c, over in sorted(case.get("script", []), key=lambda x: x[2]):
            self.script.setdefault((i, g), []).append((c, over))

    def rec(self, name, c, place, args):
        snap = {n: getattr(c, n).tolist() for n in ARRS}
        if c.fill_pos_record:
            snap["pos"] = [None if r["id"] < 0 else tuple(r[n].item() for n in pf.POS_FIELDS) for r in c.last_pos_record]
        else:
            snap["pos"] = None
        ex = {}
        if name in ("order", "post_order") and hasattr(c, "cash_now"):
            for n in NOWS + ("return",):
                ex[n + "_now"] = getattr(c, n + "_now")
        if name == "post_order":
            for n in NOWS:
                ex[n + "_before"] = getattr(c, n + "_before")
            ex["result"] = tuple(c.order_result)
        lay = []
        if hasattr(c, "from_col"):
            lay = [c.group, c.from_col, c.to_col, c.group_len]
        snap["layout"] = lay
        recs = []
        for j in snap["last_oidx"]:
            recs.append(None if j < 0 else c.order_records[j].tolist())
        snap["orders"] = recs
        self.trace.append((name, place, args, snap, ex))
        if self.stop is not None and len(self.trace) - 1 == self.stop:
            raise KINDS[self.kind]("scripted")

    # -- callbacks
    def pre_sim(self, c, *a):
        self.rec("pre_sim", c, (), a)
        return ("sim",)

    def post_sim(self, c, *a):
        self.rec("post_sim", c, (), a)

    def pre_group(self, c, *a):
        self.rec("pre_group", c, (c.group,), a)
        return ("sim", "grp", c.group)

    def post_group(self, c, *a):
        self.rec("post_group", c, (c.group,), a)

    def pre_row(self, c, *a):
        self.rec("pre_row", c, (c.i,), a)
        return ("sim", "row", c.i)

    def post_row(self, c, *a):
        self.rec("post_row", c, (c.i,), a)

    def pre_segment(self, c, *a):
        self.rec("pre_segment", c, (c.i, c.group), a)
        for i, k, v in self.valps:
            if i == c.i and c.from_col <= k < c.to_col:
                c.last_val_price[k] = v
        if not self.case.get("flex"):
            p = self.seqset.get((c.i, c.group))
            if p is not None:
                for k in range(c.group_len):
                    c.call_seq_now[k] = p[k] if k < len(p) else k
        return a[:-1] + ("seg", c.i, c.group)

    def post_segment(self, c, *a):
        self.rec("post_segment", c, (c.i, c.group), a)

    def mk(self, i, c, over=()):
        o = {n: self.F[n][i][c] for n in pf.ORDER_FIELDS}
        o.update(over)
        if o["size"] != o["size"] and not o["log"]:
            return NoOrder
        return Order(**o)

    def order(self, c, *a):
        self.rec("order", c, (c.i, c.group, c.col, c.call_idx), a)
        return self.mk(c.i, c.col)

    def flex(self, c, *a):
        self.rec("order", c, (c.i, c.group, c.call_idx), a)
        q = self.script.get((c.i, c.group), [])
        if c.call_idx >= len(q):
            return -1, NoOrder
        col, over = q[c.call_idx]
        if col == -1 or not 0 <= col < len(self.F["size"][0]):
            return col, NoOrder
        return col, self.mk(c.i, col, over)

    def post_order(self, c, *a):
        self.rec("post_order", c, (c.i, c.group, c.col, c.call_idx), a)


def inputs(case):
    """The caller's own objects."""
    import pandas as pd

    T, N = pf.dims(case)
    q = case.get("seq", "default")
    G = len(case["groups"])
    m = case.get("mask")
    return dict(close=pd.DataFrame(pf.close_arr(case), columns=list("abcdefghijklmnop"[:N])),
                init_cash=np.asarray(pf.init_cash(case)),
                call_seq=q if isinstance(q, str) else np.array([[pf.seq_at(case, i, c) for c in range(N)] for i in range(T)], order=case.get("order", "C")),
                segment_mask=True if m is None else (max(1, m) if isinstance(m, int) else np.array([[pf.mask_at(case, i, g) for g in range(G)] for i in range(T)])))


def call(case, rec, inp, **kw):
    grp = np.repeat(np.arange(len(case["groups"])), [max(1, int(g)) for g in case["groups"]])
    if not case.get("flex"):
        kw["call_seq"] = inp["call_seq"]
    return vbt.Portfolio.from_order_func(
        inp["close"], rec.flex if case.get("flex") else rec.order, "xo", flexible=bool(case.get("flex")), init_cash=inp["init_cash"],
        cash_sharing=case["share"], group_by=grp, segment_mask=inp["segment_mask"], call_pre_segment=case.get("cpre", False),
        call_post_segment=case.get("cpost", False), pre_sim_func_nb=rec.pre_sim, pre_sim_args=("x0",), post_sim_func_nb=rec.post_sim,
        post_sim_args=("x1",), pre_group_func_nb=rec.pre_group, pre_group_args=("xg",), post_group_func_nb=rec.post_group,
        post_group_args=("xh",), pre_row_func_nb=rec.pre_row, pre_row_args=("xr",), post_row_func_nb=rec.post_row, post_row_args=("xq",),
        pre_segment_func_nb=rec.pre_segment, pre_segment_args=("xs",), post_segment_func_nb=rec.post_segment, post_segment_args=("xt",),
        post_order_func_nb=rec.post_order, post_order_args=("xp",), ffill_val_price=case.get("ffill", True), update_value=case.get("uv", False),
        fill_pos_record=case.get("fillpos", True), init_temp_records=case.get("init_temp", False), max_orders=case.get("max_orders"), max_logs=case.get("max_logs"),
        row_wise=bool(case.get("row")), use_numba=False, **kw)


def same(a, b, tol):
    if a is None or b is None:
        return a is b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return eq(float(a), float(b), 1e-8, tol)


def cmp_trace(ctx, got, want, case, big, upto=None):
    tol = max(1e-8, 1e-11 * big)
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        here = lambda e: None if e is None else (e[0], *e[1])
        ctx.check(g is not None and w is not None and here(g) == here(w), "callback-order",
                  lambda: f"call {k} is {here(g)}, expected {here(w)}; before it {[here(x) for x in got[max(0, k - 4):k]]}")
        ctx.check(tuple(g[2]) == tuple(w[2]), "callback-arguments", lambda: f"call {k} {here(g)} received {g[2]}, expected {w[2]}")
        for n, x in w[3].items():
            if n == "pos":
                for c, (p, q) in enumerate(zip(g[3]["pos"] or [], x or [])):
                    ctx.check((p is None) == (q is None), "context-position", lambda: f"call {k} {here(g)}: position record of column {c} {p}, expected {q}")
                    if p is None:
                        continue
                    for f, u, v in zip(pf.POS_FIELDS, p, q):
                        ctx.check(eq(float(u), float(v), 1e-7, max(tol, 1e-7)) or (f in ("pnl", "return") and near_zero(p, q, big)), "context-position",
                                  lambda: f"call {k} {here(g)}: position record of column {c}: {f} is {u}, expected {v}; record {p}, expected {q}")
                continue
            ctx.check(same(g[3][n], x, tol), "context-" + n, lambda: f"call {k} {here(g)}: {n} is {g[3][n]}, expected {x}")
        for n, x in w[4].items():
            ctx.check(same(g[4].get(n), x, tol), "context-" + n, lambda: f"call {k} {here(g)}: {n} is {g[4].get(n)}, expected {x}")
        if g[3]["layout"]:
            gi = g[3]["layout"][0]
            lo, hi = pf.group_spans(case)[gi]
            ctx.check(g[3]["layout"] == [gi, lo, hi, hi - lo], "context-layout", lambda: f"call {k} {here(g)}: group, from, to, length {g[3]['layout']}")


def near_zero(p, q, big):
    """Profit and return are differences: judge them against the sizes they come from."""
    scale = max(1.0, abs(p[2] * p[4]), big)
    return all(eq(float(u), float(v), 1e-6, 1e-6 * scale) for u, v in zip(p[9:11], q[9:11]))


def account(ctx, case, ref):
    c01.account(ctx, case, ref)
    for name, place, args, snap, ex in ref.trace:
        ctx.state("cb", name, case.get("row"), case.get("flex"), case["share"], case.get("uv"), case.get("cpre"), case.get("cpost"),
                  ex.get("result", (0, 0, 0, 0, None))[4])


def copyall(inp):
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in inp.items()}


def unchanged(ctx, inp, was, what):
    for k, v in was.items():
        if isinstance(v, str) or isinstance(v, (int, bool)):
            continue
        a, b = np.asarray(inp[k]), np.asarray(v)
        ctx.check(a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "input-changed",
                  f"{what} changed the caller's {k}: {b.tolist()} -> {a.tolist()}")


def run(case, ctx):
    ref = pf.run_callbacks(case)
    fail = case.get("fail")
    if fail is not None:
        n = len(ref.trace)
        stop = min(n - 1, int(fail[0] * n))
        want = pf.run_callbacks(case, fail_at=stop)
    account(ctx, case, ref)
    inp = inputs(case)
    was = copyall(inp)
    # a portfolio that exists already
    other = c01.attempt(lambda: vbt.Portfolio.from_orders(inp["close"].ffill().bfill().fillna(1.0), 1.0))[0]
    other_recs = other.order_records.copy() if other is not None else None
    if fail is not None:
        kind = KINDS[fail[1]]
        ctx.fault("callback-raises-" + fail[1])
        ctx.probe("fail-in-" + want.trace[stop][0])
        rec = Recorder(case, stop, fail[1])
        err = None
        try:
            call(case, rec, inp)
        except BaseException as e:
            if e.__class__.__module__.startswith("sim."):
                if not isinstance(e, (Flag, RejFlag, Interrupt)):
                    raise
            err = e
        ctx.ev("failed", type(err).__name__ if err else None, len(rec.trace))
        ctx.check(err is not None, "callback-error-lost", f"{fail[1]} raised in {want.trace[stop][:2]} did not reach the caller")
        ctx.check(type(err) is kind and err.args == ("scripted",), "callback-error-changed", f"{fail[1]} raised in {want.trace[stop][:2]} arrived as {err!r}")
        if ref.big <= 1e9:
            cmp_trace(ctx, rec.trace, want.trace, case, ref.big)
        unchanged(ctx, inp, was, "a failed simulation")
        if other is not None:
            ctx.check(np.array_equal(other.order_records, other_recs), "other-portfolio-changed", "")
    rec = Recorder(case)
    port, err, msg = c01.attempt(lambda: call(case, rec, inp))
    ctx.ev("ran", err, len(rec.trace))
    unchanged(ctx, inp, was, "a simulation")
    if ref.big > 1e9:
        ctx.probe("amounts-beyond-float-precision")
        return
    if ref.error is not None:
        ctx.check(err == ref.error.kind, "error-missing" if err is None else "error-kind", f"the contract requires {ref.error}, got {err} {msg}")
        cmp_trace(ctx, rec.trace, ref.trace, case, ref.big)
        return
    ctx.check(err is None, "error-unexpected", f"{err}: {msg}")
    cmp_trace(ctx, rec.trace, ref.trace, case, ref.big)
    c01.invariants(ctx, port.log_records)
    c01.cmp_records(ctx, port.order_records, ref.fills, big=ref.big)
    c01.cmp_logs(ctx, port.log_records, ref.logs, big=ref.big)


SCENARIOS = [
    Scenario("segments", lambda r: gen(r, False), run, 900, 20000, real=REAL, stub=STUB),
    Scenario("flexible", lambda r: gen(r, True), run, 600, 14000, real=REAL, stub=STUB),
]
