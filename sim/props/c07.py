"""C07: trades and positions.  Histories of fills come from every simulator (missing ticks, outages, shared cash); a plain
replay of the fills builds the entry trades, exit trades and positions, and the real records must agree with it, conserve
size, fees and profit, and agree with the position record that callbacks were shown while the simulation ran."""
import numpy as np
import pandas as pd

from .. import pf
from ..core import Scenario, Rng, close as eq
from ..pf import NAN
from . import c01, c03, c06

REAL = ["Portfolio.entry_trades/exit_trades/positions/trades", "portfolio.nb get_entry_trades_nb/get_exit_trades_nb/get_positions_nb/update_pos_record_nb",
        "portfolio.trades", "all simulators"]
STUB = ["market feed", "venue rejections", "order plan / strategy"]
STATE = "kind of record x direction x status x entries x exits x reversal"

F = ("col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl", "return", "direction", "status", "parent_id")
LONG, SHORT, OPEN, CLOSED = 0, 1, 0, 1


class Precision(Exception):
    pass


def lifecycles(recs, N):
    """Positions of each column: dict(dir, entries, exits, closed) with fills split at reversals."""
    out = []
    for c in range(N):
        cur, pos = None, 0.0
        peak = 0.0
        for r in recs[recs["col"] == c]:
            s, p, fee, i = float(r["size"]), float(r["price"]), float(r["fees"]), int(r["idx"])
            d = 1 if int(r["side"]) == pf.BUY else -1
            new = pf.addz(pos, d * s)
            if new != 0 and (0 < abs(new) < 1e-6 * max(abs(pos), s) or (peak and abs(new) < 1e-6 * peak and abs(new) < abs(pos))):
                raise Precision()
            if cur is None:
                cur = dict(col=c, dir=d, ent=[], ext=[], closed=False)
                out.append(cur)
            if d == cur["dir"]:
                cur["ent"].append((s, p, fee, i))
            elif new == 0 or (new > 0) == (pos > 0):
                cur["ext"].append((abs(pos) if new == 0 else s, p, fee, i))
                if new == 0:
                    cur["closed"], cur = True, None
            else:
                part = abs(pos) / s
                cur["ext"].append((abs(pos), p, fee * part, i))
                cur["closed"] = True
                cur["rev"] = True
                cur = dict(col=c, dir=d, ent=[(abs(new), p, fee * (1 - part), i)], ext=[], closed=False, rev=True)
                out.append(cur)
            pos = new
            peak = max(peak, abs(pos)) if pos else 0.0
    return out


def rec(col, size, ei, ep, ef, xi, xp, xf, d, closed, parent):
    pnl = (xp - ep) * size * (1 if d > 0 else -1) - ef - xf
    return dict(zip(F, (col, size, ei, ep, ef, xi, xp, xf, pnl, pnl / (size * ep), LONG if d > 0 else SHORT, CLOSED if closed else OPEN, parent)))


def build(lives, last, T):
    """(entry trades, exit trades, positions) the fills imply."""
    entry, exit_, posn = [], [], []
    for k, L in enumerate(lives):
        c, d = L["col"], L["dir"]
        tot = sum(s for s, *_ in L["ent"])
        out = sum(s for s, *_ in L["ext"])
        rest = 0.0 if L["closed"] else tot - out
        gross = sum(s * p for s, p, *_ in L["ext"]) + (rest * last[c] if rest else 0.0)
        xfee = sum(f for _, _, f, _ in L["ext"])
        xi = L["ext"][-1][3] if L["closed"] else T - 1
        for s, p, f, i in L["ent"]:
            entry.append(rec(c, s, i, p, f, xi, gross / tot, xfee * s / tot, d, L["closed"], k))
        # fills in time order
        E = G = Q = 0.0
        seq = sorted([(i, 0, n, x) for n, x in enumerate(L["ent"]) for i in [x[3]]] + [(x[3], 1, n, x) for n, x in enumerate(L["ext"])], key=lambda y: y[0])
        yield_order = L.get("order") or seq
        for _, kind, _, (s, p, f, i) in yield_order:
            if kind == 0:
                E, G, Q = E + s, G + s * p, Q + f
            else:
                share = min(1.0, s / E)
                exit_.append(rec(c, s, L["ent"][0][3], G / E, Q * share, i, p, f, d, True, k))
                E, G, Q = E * (1 - share), G * (1 - share), Q * (1 - share)
        if rest:
            exit_.append(rec(c, rest, L["ent"][0][3], G / E, Q, T - 1, last[c], 0.0, d, False, k))
        posn.append(rec(c, tot, L["ent"][0][3], sum(s * p for s, p, *_ in L["ent"]) / tot, sum(f for _, _, f, _ in L["ent"]), xi, gross / tot, xfee, d,
                        L["closed"], k))
    return entry, exit_, posn


def ordered(recs, N):
    """Lifecycles with the fills of each kept in processing order (several may share a bar)."""
    lives = lifecycles(recs, N)
    it = 0
    for c in range(N):
        mine = [L for L in lives if L["col"] == c]
        q = 0
        cnt = [[0, 0] for _ in mine]
        for L in mine:
            L["order"] = []
        for r in recs[recs["col"] == c]:
            d = 1 if int(r["side"]) == pf.BUY else -1
            L = mine[q]
            if d == L["dir"]:
                L["order"].append((0, 0, 0, L["ent"][cnt[q][0]]))
                cnt[q][0] += 1
            else:
                x = L["ext"][cnt[q][1]]
                L["order"].append((0, 1, 0, x))
                cnt[q][1] += 1
                if L["closed"] and cnt[q][1] == len(L["ext"]):
                    q += 1
                    if q < len(mine) and abs(x[0] - float(r["size"])) > 0 and L.get("rev") and mine[q].get("rev") and mine[q]["ent"][0][3] == int(r["idx"]) \
                            and mine[q]["dir"] == d:
                        mine[q]["order"].append((0, 0, 0, mine[q]["ent"][0]))
                        cnt[q][0] = 1
    return lives


def compare(ctx, what, got, want, tol):
    ctx.check(len(got) == len(want), f"{what}-count", lambda: f"{what}: {len(got)} records {got.tolist()}, the fills imply {len(want)}: {want}")
    for k, (g, w) in enumerate(zip(got, want)):
        ctx.check(int(g["id"]) == k, f"{what}-id", lambda: f"{what} {k}: id {g['id']}")
        for n in F:
            x, y = float(g[n]), float(w[n])
            if n in ("pnl", "return"):
                scale = abs(w["size"] * w["entry_price"]) + abs(w["size"] * w["exit_price"]) + abs(w["entry_fees"]) + abs(w["exit_fees"])
                t = 1e-7 * scale if n == "pnl" else 1e-7 * scale / max(abs(w["size"] * w["entry_price"]), 1e-300)
                ok = x == y or (x != x and y != y) or abs(x - y) <= t + 1e-12
            elif n in ("col", "entry_idx", "exit_idx", "direction", "status", "parent_id"):
                ok = x == y
            else:
                ok = (x != x and y != y) or eq(x, y, 1e-7, 1e-9 if n not in ("entry_fees", "exit_fees") else tol)
            ctx.check(ok, f"{what}-{n.replace('_', '-')}", lambda: f"{what} {k}: {n} is {x}, the fills imply {y}; record {dict(zip(g.dtype.names, g.tolist()))}, expected {w}")


def last_mark(case):
    close = pf.close_arr(case)
    return (pd.DataFrame(close).ffill().bfill().values if case["fillna"] else close)[-1]


def run(case, ctx):
    seen = {}
    if case["src"] in ("calls", "flexible"):
        sim = watch(case, ctx, seen)
    else:
        sim = c06.simulate(case, ctx)
        sim = None if sim is None else (sim[0], sim[4])
    if sim is None:
        return
    port, big = sim
    T, N = pf.dims(case)
    recs = port.order_records
    if len(recs) and (np.isinf(recs["size"]).any() or not np.isfinite(recs["price"]).all() or (recs["price"] <= 0).any() or not np.isfinite(recs["fees"]).all()):
        ctx.probe("fills-beyond-domain")
        return
    try:
        lives = ordered(recs, N)
    except Precision:
        ctx.probe("residue-below-precision")
        return
    last = last_mark(case)
    if np.isinf(last).any():
        ctx.probe("fills-beyond-domain")
        return
    entry, exit_, posn = build(lives, last, T)
    tol = 1e-9 * max(1.0, big)
    for L in lives:
        ctx.state(L["dir"], L["closed"], min(3, len(L["ent"])), min(3, len(L["ext"])), L.get("rev"))
    names = {"entry_trades": entry, "exit_trades": exit_, "positions": posn}
    order = list(names)
    rng = Rng(case["read"])
    rng.shuffle(order)
    gb = None
    if case["gb"] is not None and not case["share"]:
        gb = True if case["gb"] == "all" else np.array((sorted(case["gb"]) + [N] * N)[:N])
    total = c06.one(port.total_profit(group_by=False))
    fees = np.array([float(recs["fees"][recs["col"] == c].sum()) for c in range(N)])
    for n in order:
        want = names[n]
        tr = getattr(port, n)
        got = tr.values
        ctx.ev("read", n, len(got))
        compare(ctx, n, got, want, tol)
        # conservation, from the records alone
        for c in range(N):
            m = got["col"] == c
            paid = float(got["entry_fees"][m].sum() + got["exit_fees"][m].sum())
            ctx.check(eq(paid, fees[c], 1e-7, tol), "fees-not-attributed", lambda: f"{n} column {c}: fees {paid}, orders paid {fees[c]}")
            pnl = float(got["pnl"][m].sum())
            scale = float(np.nansum(np.abs(got["size"][m] * got["entry_price"][m])) + np.nansum(np.abs(got["size"][m] * got["exit_price"][m]))) + abs(paid)
            ctx.check((pnl != pnl and total[c] != total[c]) or abs(pnl - total[c]) <= 1e-7 * scale + 1e-9, "profit-not-conserved",
                      lambda: f"{n} column {c}: profits sum to {pnl}, total profit {total[c]}; {got[m].tolist()}")
        # per column and group views of the same records
        for arg, spans in ((None, None), (gb, gb)):
            if spans is None and arg is None:
                sp = c06.spans_of(np.repeat(np.arange(len(case["groups"])), case["groups"])) if (case["share"] or case["src"] in ("calls", "flexible")) \
                    else [(k, k + 1) for k in range(N)]
                k = {}
            elif gb is None:
                continue
            else:
                sp = c06.spans_of(np.zeros(N, int) if gb is True else gb)
                k = dict(group_by=gb)
            cnt = c06.one(tr.count(**k))
            sel = [(got["col"] >= lo) & (got["col"] < hi) for lo, hi in sp]
            e = np.array([int(s.sum()) for s in sel])
            ctx.check(np.array_equal(cnt, e), "count-view", lambda: f"{n}.count({k}) is {cnt.tolist()}, records {e.tolist()}")
            w, l = got["pnl"] > 0, got["pnl"] < 0
            for nm, mask in (("winning", w), ("losing", l), ("open", got["status"] == OPEN), ("closed", got["status"] == CLOSED)):
                x = c06.one(getattr(tr, nm).count(**k))
                e = np.array([int((s & mask).sum()) for s in sel])
                ctx.check(np.array_equal(x, e), "filter-view", lambda: f"{n}.{nm}.count({k}) is {x.tolist()}, records {e.tolist()}")
            x = c06.one(tr.pnl.sum(**k))
            e = np.array([got["pnl"][s].sum() if s.any() else NAN for s in sel])
            x0 = np.where([not s.any() for s in sel], NAN, x)
            ctx.check(c06.same(x0, e, 1e-9 * max(1.0, big)) or np.isnan(got["pnl"]).any(), "pnl-view", lambda: f"{n}.pnl.sum({k}) is {x.tolist()}, records {e.tolist()}")
            if not np.isnan(got["pnl"]).any():
                x = c06.one(tr.win_rate(**k))
                e = np.array([(s & w).sum() / s.sum() if s.any() else NAN for s in sel])
                ctx.check(c06.same(x, e, 1e-12), "win-rate", lambda: f"{n}.win_rate({k}) is {x.tolist()}, records {e.tolist()}")
                x = c06.one(tr.profit_factor(**k))
                with np.errstate(all="ignore"):
                    e = np.array([(np.float64(got["pnl"][s & w].sum()) / np.abs(got["pnl"][s & l].sum())) if s.any() else NAN for s in sel])
                ctx.check(c06.same(x, e, 1e-9), "profit-factor", lambda: f"{n}.profit_factor({k}) is {x.tolist()}, records {e.tolist()}")
    # positions rebuilt from any kind of trade record
    from vectorbt.portfolio.trades import Positions

    for n in order:
        p2 = Positions.from_trades(getattr(port, n)).values
        compare(ctx, f"positions-from-{n.replace('_', '-')}", p2, posn, tol)
    # what the callbacks were shown last
    for c, r in seen.items():
        mine = [w for w in posn if w["col"] == c]
        ctx.check((r is None) == (not mine), "live-record", lambda: f"column {c}: last record in the simulation {r}, reconstructed {mine}")
        if r is None:
            continue
        w = mine[-1]
        ctx.check(r["id"] == len(mine) - 1, "live-record-id", lambda: f"column {c}: record id {r['id']} in the simulation, {len(mine)} positions reconstructed")
        for f in ("size", "entry_idx", "entry_price", "entry_fees", "exit_fees", "direction", "status") + (("exit_idx", "exit_price", "pnl", "return") if w["status"] else ()):
            scale = max(1.0, abs(w["size"] * w["entry_price"]), big) if f in ("pnl",) else 1.0
            ctx.check(eq(r[f], w[f], 1e-6, max(tol, 1e-7 * scale)), "live-record-" + f.replace("_", "-"), lambda: f"column {c}: {f} is {r[f]} in the simulation, {w[f]} reconstructed; {r}, {w}")


def watch(case, ctx, seen):
    big = [0.0]
    T, N = pf.dims(case)

    class Probe(c03.Recorder):
        def rec(self, name, c, place, args):
            pass

        def post_sim(self, c, *a):
            for k in range(N):
                r = c.last_pos_record[k]
                seen[k] = None if r["id"] < 0 else {n: r[n].item() for n in r.dtype.names}

        def post_segment(self, c, *a):
            for x in (c.last_cash, c.last_position, c.last_free_cash):
                big[0] = max(big[0], float(np.nanmax(np.abs(x))))

    port, err, msg = c01.attempt(lambda: c03.call(case, Probe(case), c03.inputs(case), fillna_close=case["fillna"]))
    if port is None or not big[0] <= 1e9:
        ctx.probe("no-portfolio" if port is None else "history-not-comparable")
        return None
    ctx.tick(T * 86400.0)
    ctx.fault("missing-tick", int(np.isnan(pf.close_arr(case)).sum()))
    return port, big[0]


def gen(rng):
    c = c06.gen(rng)
    if c["src"] in ("calls", "flexible"):
        c["fillpos"] = True
    c["groups"] = [max(1, int(g)) for g in c["groups"]]
    return c


def gen_jit(rng):
    c = c06.gen_jit(rng)
    c["groups"] = [max(1, int(g)) for g in c["groups"]]
    return c


def warm(mode):
    from ..core import execute

    if mode == "jit":
        todo = {(False, "gb"), (False, None), (True, None)}
        for k in range(400):
            c = gen_jit(Rng(k))
            key = (c["share"], "gb" if c["gb"] is not None else None)
            if key in todo:
                ctx, v, e = execute(SCENARIOS[1], c, k)
                if v is None and e is None and not ctx.probes.get("no-portfolio"):
                    todo.discard(key)
            if not todo:
                break


SCENARIOS = [
    Scenario("histories", gen, run, 1000, 25000, real=REAL, stub=STUB),
    Scenario("compiled", gen_jit, run, 120, 3000, jit=True, real=REAL, stub=STUB),
]
