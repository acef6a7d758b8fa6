"""C02: scheduling of orders inside a bar.  The call sequence is the schedule; the reference venue processes the orders
of each bar under the same schedule, and the fills and logs must agree.  Schedules: default, reversed, random from a
seed, custom permutations, automatic (checked to be ascending in order value, then followed)."""
import numpy as np
import pandas as pd

from .. import pf
from ..core import Scenario, close as eq
from ..pf import NAN, INF
from . import c01

import vectorbt as vbt

REAL = ["Portfolio.from_orders with cash sharing", "portfolio.nb call-sequence building, sorting and group loop"]
STUB = ["market feed", "venue rejections", "order stream"]


def gen(rng):
    c = c01.gen(rng, share=True, maxT=16)
    c["groups"] = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    if max(c["groups"]) == 1:
        c["groups"][0] = rng.randint(2, 4)
    T, N = len(c["close"]), sum(c["groups"])
    c["close"] = pf.gen_feed(rng, T, N, gaps=rng.pick(0, 0, 0.05, 0.2), wild=rng.pick(0, 0, 0.1), grid=rng.chance(0.7))
    feats = [f for f in c01.ALL if rng.chance(0.25)]
    c["fields"] = c01.gen_orders(rng, T, N, feats, rng.pick(0.5, 0.8, 1.0))
    c["cash"] = [float(rng.pick(10, 100, 100, 1000, 55.5, 0)) for _ in c["groups"]]
    c["kind"] = rng.pick("default", "reversed", "random", "custom", "auto", "auto")
    c["kind_as"] = rng.pick("str", "int")
    c["seed"] = rng.randint(0, 1000)
    if c["kind"] == "custom":
        c["perm"] = [[rng.sample(range(n), n) for n in c["groups"]] for _ in range(T)]
    return c


def local(case, i, a, n):
    """Custom order of account a at bar i, repaired to a permutation after shrinking."""
    try:
        p = [x for x in case["perm"][i][a] if 0 <= x < n]
    except (IndexError, KeyError, TypeError):
        p = []
    seen = []
    for x in p + list(range(n)):
        if x not in seen:
            seen.append(x)
    return seen


def call_seq_arg(case):
    k = case["kind"]
    if k == "custom":
        T, N = pf.dims(case)
        spans = pf.accounts(case)
        return np.array([[x for a, (lo, hi) in enumerate(spans) for x in local(case, i, a, hi - lo)] for i in range(T)])
    return k if case.get("kind_as") == "str" else dict(default=0, reversed=1, random=2, auto=3)[k]


def run(case, ctx):
    T, N = pf.dims(case)
    spans = pf.accounts(case)
    k = case["kind"]
    kw = dict(call_seq=call_seq_arg(case), attach_call_seq=True, seed=case["seed"])
    given = kw["call_seq"].copy() if k == "custom" else None
    port, err, msg = c01.attempt(lambda: c01.call(case, **kw))
    if given is not None:
        ctx.check(np.array_equal(given, kw["call_seq"]), "caller-sequence-modified", "the call_seq array passed in was changed")
    seq = None
    if err is None and k in ("random", "auto"):
        seq = port.call_seq.values
    elif k == "random":
        # the run ended in an error: the schedule is only known by repeating the run without refusals raising
        ctx.probe("error-under-random")
        ctx.ev("error", err)
        return
    if seq is not None:
        for i in range(T):
            for lo, hi in spans:
                ctx.check(sorted(seq[i, lo:hi].tolist()) == list(range(hi - lo)), "not-a-permutation",
                          lambda: f"bar {i} columns {lo}..{hi}: {seq[i, lo:hi].tolist()}")

    def follow(i, lo, hi, vals):
        s = seq[i, lo:hi].tolist() if seq is not None else pf.asc_order(vals)
        v = [vals[x] for x in s if not pf.isnan(vals[x])]
        for x, y in zip(v, v[1:]):
            ctx.check(x <= y or eq(x, y, 1e-7, 1e-7), "auto-not-ascending",
                      lambda: f"bar {i} columns {lo}..{hi}: processed {s} with order values {[vals[x] for x in s]}")
        return s

    if k == "default":
        seqs = [[list(range(hi - lo)) for lo, hi in spans] for _ in range(T)]
    elif k == "reversed":
        seqs = [[list(range(hi - lo))[::-1] for lo, hi in spans] for _ in range(T)]
    elif k == "custom":
        seqs = [[local(case, i, a, hi - lo) for a, (lo, hi) in enumerate(spans)] for i in range(T)]
    elif k == "random":
        seqs = [[seq[i, lo:hi].tolist() for lo, hi in spans] for i in range(T)]
    else:
        seqs = None
    ref = pf.run_orders(case, seqs=seqs, auto=k == "auto", ffill=case.get("ffill", True), update_value=case.get("uv", False),
                        seq_out=follow if k == "auto" else None)
    c01.account(ctx, case, ref)
    ctx.fault("schedule-" + k)
    for i in range(T):
        ctx.state(k, *[tuple(ref.seq[i][lo:hi]) for lo, hi in spans])
    ctx.ev("ran", k, err, ref.seq)
    if ref.error is not None:
        if k == "auto":
            ctx.check(err is not None, "error-missing", f"the contract requires {ref.error}")
            return
        ctx.check(err == ref.error.kind, "error-missing" if err is None else "error-kind", f"the contract requires {ref.error}, got {err} {msg}")
        return
    ctx.check(err is None, "error-unexpected", f"{err}: {msg}")
    c01.invariants(ctx, port.log_records)
    if ref.big > 1e9:
        ctx.probe("amounts-beyond-float-precision")
        return
    c01.cmp_records(ctx, port.order_records, ref.fills, big=ref.big)
    c01.cmp_logs(ctx, port.log_records, ref.logs, big=ref.big)
    if k not in ("random",):
        got = port.call_seq.values
        ctx.check(np.array_equal(got, np.array(ref.seq)), "reported-sequence", lambda: f"{got.tolist()} reported, {ref.seq} processed")
    else:
        again = c01.call(case, **kw)
        ctx.check(np.array_equal(again.call_seq.values, seq), "random-sequence-not-reproducible", "same seed, different sequence")
    # groups are islands: any single group simulated alone gives the same fills
    if len(spans) > 1 and k != "random":
        a = case["seed"] % len(spans)
        lo, hi = spans[a]
        alone = sub(case, a, lo, hi)
        akw = dict(kw, call_seq=call_seq_arg(alone))
        p2, e2, m2 = c01.attempt(lambda: c01.call(alone, **akw))
        ctx.check(e2 is None, "group-depends-on-others", f"group {a} alone fails with {e2} {m2}")
        x = port.order_records[(port.order_records["col"] >= lo) & (port.order_records["col"] < hi)]
        y = p2.order_records
        ctx.check(len(x) == len(y) and all(np.array_equal(x[n] - (lo if n == "col" else 0), y[n]) for n in ("col", "idx", "size", "price", "fees", "side")),
                  "group-depends-on-others", lambda: f"group {a}: {x.tolist()} in company, {y.tolist()} alone")


def sub(case, a, lo, hi):
    """The case restricted to one group."""
    import copy

    c = copy.deepcopy(case)
    c["groups"] = [hi - lo]
    cash = pf.init_cash(case)
    c["cash"] = [cash[a]]
    c["close"] = [[r if r == r else NAN for r in row] for row in pf.close_arr(case)[:, lo:hi].tolist()]
    for n, f in c["fields"].items():
        if f["m"] == "c":
            f["v"] = [pf.field(case, n, 0, k) for k in range(lo, hi)]
        elif f["m"] == "f":
            f["v"] = [[i, k - lo, v] for i, k, v in f["v"] if lo <= k < hi]
    if case["kind"] == "custom":
        c["perm"] = [[local(case, i, a, hi - lo)] for i in range(len(case["close"]))]
    return c


SCENARIOS = [Scenario("sequences", gen, run, 2500, 30000, real=REAL, stub=STUB)]
