"""Reference trading venue for the portfolio properties (C01..C09).

A small executable model, written from the documented order contract (vectorbt.portfolio.enums and the docstrings of
Portfolio.from_orders / from_order_func): plain Python floats, one account object, one `Venue.submit` per order.  The
real simulators run unmodified; the model replays the same plan on the same feed and the results are compared.

A case (JSON) holds
  close : list of rows of prices (NaN = the exchange had no tick)    groups: column count per group   share: cash sharing
  cash  : initial cash per group (share) or per column               fields: {name: {"m": mode, "v": values}}
  mode  : "s" scalar, "c" per column, "r" per row, "f" sparse full [[i, c, v], ...] over a default
"""
import math

NAN = float("nan")
INF = float("inf")

# enum values, fixed by the documented enums
AMOUNT, VALUE, PERCENT, TAMOUNT, TVALUE, TPERCENT = range(6)
LONG, SHORT, BOTH = range(3)
FILLED, IGNORED, REJECTED = range(3)
BUY, SELL = 0, 1
(R_SIZE_NAN, R_PRICE_NAN, R_VALP_NAN, R_VALUE_NAN, R_VALUE_ZN, R_SIZE_ZERO, R_NOCASH_SHORT, R_NOCASH_LONG, R_NOPOS,
 R_MAX, R_RANDOM, R_FEES, R_MIN, R_PARTIAL) = range(14)

ORDER_DEFAULTS = dict(size=NAN, price=INF, size_type=AMOUNT, direction=BOTH, fees=0.0, fixed_fees=0.0, slippage=0.0,
                      min_size=0.0, max_size=INF, size_granularity=NAN, reject_prob=0.0, lock_cash=False,
                      allow_partial=True, raise_reject=False, log=True, val_price=INF)
INT_FIELDS = ("size_type", "direction")
BOOL_FIELDS = ("lock_cash", "allow_partial", "raise_reject", "log")


def isnan(x):
    return x != x


def near(a, b, rel=1e-9, abs_=1e-12):
    if isnan(a) or isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return a == b or abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def less(a, b):
    return (not near(a, b)) and a < b


def addz(a, b):
    """Addition that snaps a rounding residue to zero (documented tolerance)."""
    if a == b == 0:
        return 0.0
    if (a < 0) != (b < 0) or a == 0 or b == 0:
        if near(abs(a), abs(b)):
            return 0.0
    elif near(a + b, 0.0):
        return 0.0
    return a + b


def snap(x):
    return 0.0 if near(x, 0.0) else x


class SimError(Exception):
    """The contract says the simulator must raise an error of this kind."""

    def __init__(self, kind, why):
        super().__init__(f"{kind}: {why}")
        self.kind = kind
        self.why = why


class Acc:
    """Cash account shared by one group, or owned by one column."""

    __slots__ = ("cash", "free")

    def __init__(self, cash):
        self.cash = float(cash)
        self.free = float(cash)


class Book:
    """Holdings of one column."""

    __slots__ = ("pos", "debt", "valp")

    def __init__(self):
        self.pos = 0.0
        self.debt = 0.0
        self.valp = NAN


def _floor_to(x, g):
    if isnan(g):
        return x
    if math.isinf(x):
        return NAN
    return x // g * g


def validate(o, cash, pos, debt, free):
    bad = None
    p = o["price"]
    if not math.isfinite(p) or p <= 0:
        bad = "price"
    elif not 0 <= o["size_type"] < 6:
        bad = "size_type"
    elif not 0 <= o["direction"] < 3:
        bad = "direction"
    elif o["direction"] == LONG and pos < 0:
        bad = "direction long-only with a short position"
    elif o["direction"] == SHORT and pos > 0:
        bad = "direction short-only with a long position"
    elif not math.isfinite(o["fees"]) or not math.isfinite(o["fixed_fees"]):
        bad = "fees"
    elif not math.isfinite(o["slippage"]) or o["slippage"] < 0:
        bad = "slippage"
    elif not math.isfinite(o["min_size"]) or o["min_size"] < 0:
        bad = "min_size"
    elif isnan(o["max_size"]) or o["max_size"] <= 0:
        bad = "max_size"
    elif math.isinf(o["size_granularity"]) or o["size_granularity"] <= 0:
        bad = "size_granularity"
    elif not math.isfinite(o["reject_prob"]) or not 0 <= o["reject_prob"] <= 1:
        bad = "reject_prob"
    if bad:
        raise SimError("ValueError", bad)


def submit(acc, book, o, value, rand=None):
    """Execute one order.  Mutates acc/book on a fill.  Returns dict(status, info, side, size, price, fees).

    Small residues of the state are snapped to zero first, as documented for numerical stability."""
    cash, free, pos, debt = snap(acc.cash), snap(acc.free), snap(book.pos), snap(book.debt)
    valp, value = snap(book.valp), snap(value)

    def commit(c, f, p, d):
        acc.cash, acc.free, book.pos, book.debt = c, f, p, d

    def no(status, info):
        commit(cash, free, pos, debt)
        return dict(status=status, info=info, side=-1, size=NAN, price=NAN, fees=NAN)

    if isnan(o["size"]):
        return no(IGNORED, R_SIZE_NAN)
    if isnan(o["price"]):
        return no(IGNORED, R_PRICE_NAN)
    if isnan(cash) or cash < 0:
        raise SimError("ValueError", "cash")
    validate(o, cash, pos, debt, free)

    # ---- translate the request into a signed change of the position (or a share of the resources)
    size, st, d = o["size"], o["size_type"], o["direction"]
    if d == SHORT:
        size = -size
    if st == TPERCENT:
        if isnan(value):
            return no(IGNORED, R_VALUE_NAN)
        if value <= 0:
            return no(REJECTED, R_VALUE_ZN)
        if size != 0:
            size *= value
        st = TVALUE
    if st in (VALUE, TVALUE):
        if math.isinf(valp) or valp <= 0:
            raise SimError("ValueError", "val_price")
        if isnan(valp):
            return no(IGNORED, R_VALP_NAN)
        size /= valp
        st = AMOUNT if st == VALUE else TAMOUNT
    if st == TAMOUNT:
        size -= pos
        st = AMOUNT
    pct = NAN
    if st == AMOUNT and size == -INF and d != LONG:
        pct = 1.0
    elif st == PERCENT:
        pct = abs(size)
        if pct == 0:
            size, pct = 0.0, NAN
        else:
            size = math.copysign(INF, size)

    if size > 0:
        r = _buy(o, cash, free, pos, debt, size, pct)
    else:
        r = _sell(o, cash, free, pos, debt, -size, pct)

    if o["reject_prob"] > 0:
        if rand is not None:
            hit = rand() < o["reject_prob"]
        else:
            hit = o["reject_prob"] >= 1
        if hit:
            return no(REJECTED, R_RANDOM)
    if r[0] != FILLED:
        return no(r[0], r[1])
    _, side, fsize, price, fees, new = r
    commit(*new)
    return dict(status=FILLED, info=-1, side=side, size=fsize, price=price, fees=fees)


def _buy(o, cash, free, pos, debt, size, pct):
    d, f, ff = o["direction"], o["fees"], o["fixed_fees"]
    p = o["price"] * (1 + o["slippage"])
    req = size
    limit = cash
    if o["lock_cash"]:
        if pos >= 0:
            limit = free
        else:
            cover = abs(pos) * p * (1 + f) + ff
            left = addz(free + 2 * debt, -cover)
            if left > 0:
                limit = free + 2 * debt
            elif left < 0:
                den = p * (1 + f) - 2 * debt / abs(pos)
                # covering takes free cash (den per unit) or releases it; the latter never pays for a long position
                limit = (free - ff) / den * p * (1 + f) + ff if den > 0 else cover
        limit = min(limit, cash)
    if not isnan(pct):
        limit = min(limit, pct * limit)
    if d == SHORT:
        if pos == 0:
            return REJECTED, R_NOPOS
        size = min(-pos, size)
        want = size
    else:
        if limit == 0:
            return REJECTED, R_NOCASH_LONG
        if math.isinf(size) and math.isinf(limit):
            raise SimError("ValueError", "infinite long")
        want = size
    if want == 0:
        return IGNORED, R_SIZE_ZERO
    if want > o["max_size"]:
        if not o["allow_partial"]:
            return REJECTED, R_MAX
        want = o["max_size"]
    g = o["size_granularity"]
    want = _floor_to(want, g)
    gross = want * p
    cost = gross + gross * f + ff
    if near(cost, limit) or cost < limit:
        fill, fees, spend = want, gross * f + ff, cost
    else:
        afford = addz(limit, -ff) / (1 + f)
        if afford <= 0:
            return REJECTED, R_FEES
        fill = _floor_to(afford / p, g)
        if isnan(g):
            fees, spend = limit - afford, limit
        else:
            fees = fill * p * f + ff
            spend = fill * p + fees
    if near(fill, 0.0):
        return IGNORED, R_SIZE_ZERO
    if less(fill, o["min_size"]):
        return REJECTED, R_MIN
    if math.isfinite(req) and less(fill, req) and not o["allow_partial"]:
        return REJECTED, R_PARTIAL
    npos = addz(pos, fill)
    if pos < 0:
        avg = debt / abs(pos)
        closed = (fill if npos < 0 else abs(pos)) * avg
        ndebt = addz(debt, -closed)
        nfree = addz(free + 2 * closed, -spend)
    else:
        ndebt = debt
        nfree = addz(free, -spend)
    if o["lock_cash"] and less(nfree, min(free, 0.0)):
        return REJECTED, R_FEES
    return FILLED, BUY, fill, p, fees, (addz(cash, -spend), nfree, npos, ndebt)


def _sell(o, cash, free, pos, debt, size, pct):
    d, f, ff = o["direction"], o["fees"], o["fixed_fees"]
    p = o["price"] * (1 - o["slippage"])
    if d == LONG:
        want = min(pos, size if isnan(pct) else pos * pct)
    else:
        want = size
        if o["lock_cash"] or (math.isinf(size) and not isnan(pct)):
            held = max(pos, 0.0)
            avail = addz(free, held * p * (1 - f))
            if avail <= 0:
                if pos <= 0:
                    return REJECTED, R_NOCASH_SHORT
                cap = held
            else:
                cap = addz(held, addz(avail, -ff) / (p * (1 + f)))
                if cap <= 0:
                    return REJECTED, R_FEES
            if not isnan(pct):
                want = pct * (cap if math.isinf(size) else size)
                if o["lock_cash"]:
                    want = min(want, cap)
            else:
                want = min(size, cap)
        elif not isnan(pct):
            want = pct * size
    if want > o["max_size"]:
        if not o["allow_partial"]:
            return REJECTED, R_MAX
        want = o["max_size"]
    if d == LONG:
        if pos == 0:
            return REJECTED, R_NOPOS
    elif math.isinf(want):
        raise SimError("ValueError", "infinite short")
    want = _floor_to(want, o["size_granularity"])
    if near(want, 0.0):
        return IGNORED, R_SIZE_ZERO
    if less(want, o["min_size"]):
        return REJECTED, R_MIN
    if math.isfinite(size) and less(want, size) and not o["allow_partial"]:
        return REJECTED, R_PARTIAL
    gross = want * p
    fees = gross * f + ff
    net = addz(gross, -fees)
    if net < 0:
        return REJECTED, R_FEES
    npos = addz(pos, -want)
    if npos < 0:
        short = (want if pos < 0 else abs(npos)) * p
        return FILLED, SELL, want, p, fees, (cash + net, addz(free, addz(net, -2 * short)), npos, debt + short)
    return FILLED, SELL, want, p, fees, (cash + net, free + net, npos, debt)


# ------------------------------------------------------------------ cases
def dims(case):
    return len(case["close"]), max(1, sum(case["groups"]))


def field(case, name, i, c, default=NAN):
    """Value of a broadcastable field at (row, column); short lists repeat their last element."""
    f = case["fields"].get(name)
    if f is None:
        return ORDER_DEFAULTS.get(name, default)
    m, v = f["m"], f["v"]
    if m == "s":
        return v
    if m == "c":
        return v[min(c, len(v) - 1)] if v else ORDER_DEFAULTS.get(name, default)
    if m == "r":
        return v[min(i, len(v) - 1)] if v else ORDER_DEFAULTS.get(name, default)
    out = f.get("d", ORDER_DEFAULTS.get(name, default))
    for a, b, x in v:
        if a == i and b == c:
            out = x
    return out


def dense(case, name, default=NAN):
    import numpy as np

    T, N = dims(case)
    f = case["fields"].get(name)
    kind = bool if name in BOOL_FIELDS else (int if name in INT_FIELDS else float)
    if f is None or f["m"] != "f":
        return np.array([[field(case, name, i, c, default) for c in range(N)] for i in range(T)]).astype(kind)
    a = np.full((T, N), f.get("d", ORDER_DEFAULTS.get(name, default)), dtype=kind)
    for i, c, x in f["v"]:
        if 0 <= i < T and 0 <= c < N:
            a[i, c] = x
    return a


def given(case, name, default=NAN):
    """The field in the shape the case passes it: scalar, row vector, column vector or full matrix."""
    import numpy as np

    T, N = dims(case)
    f = case["fields"].get(name)
    kind = bool if name in BOOL_FIELDS else (int if name in INT_FIELDS else float)
    if f is None or f["m"] == "s":
        return kind(field(case, name, 0, 0, default))
    if f["m"] == "c":
        return np.array([[field(case, name, 0, c, default) for c in range(N)]]).astype(kind)
    if f["m"] == "r":
        return np.array([[field(case, name, i, 0, default)] for i in range(T)]).astype(kind)
    return dense(case, name, default)


def close_arr(case, key="close"):
    import numpy as np

    T, N = dims(case)
    a = np.full((T, N), np.nan)
    for i, row in enumerate(case[key]):
        for c in range(N):
            a[i, c] = row[c] if c < len(row) else 1.0 + c
    return a


def accounts(case):
    """[(first col, last col + 1)] of every cash account."""
    out, c = [], 0
    for n in case["groups"]:
        n = max(1, int(n))
        if case["share"]:
            out.append((c, c + n))
        else:
            out += [(k, k + 1) for k in range(c, c + n)]
        c += n
    return out


def init_cash(case):
    acc = accounts(case)
    cs = case["cash"] or [100.0]
    return [float(cs[min(k, len(cs) - 1)]) for k in range(len(acc))]


# ------------------------------------------------------------------ feeds
def gen_feed(rng, T, N, gaps=0.0, wild=0.0, grid=True):
    rows, cur = [], [rng.pick(1.0, 2.0, 5.0, 10.0, 20.0, 100.0) for _ in range(N)]
    for i in range(T):
        row = []
        for c in range(N):
            x = rng.random()
            if x < wild:
                cur[c] *= rng.pick(0.1, 0.5, 2.0, 10.0, 1e-3, 1e3)
            elif grid:
                cur[c] = max(0.25, cur[c] + rng.pick(-1, -0.5, -0.25, 0, 0, 0.25, 0.5, 1) * rng.pick(1, 1, 2, 4))
            else:
                cur[c] *= math.exp(rng.gauss(0, 0.05))
            v = round(cur[c], 6) if cur[c] > 1e-4 else 1e-4
            row.append(NAN if rng.chance(gaps) else v)
        rows.append(row)
    return rows


# ------------------------------------------------------------------ reference run of array-based orders
ORDER_FIELDS = ("size", "price", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size",
                "size_granularity", "reject_prob", "lock_cash", "allow_partial", "raise_reject", "log")


class Ref:
    """Outcome of the reference run: fills, logs, end-of-bar states, realised call sequence, or the required error."""

    def __init__(self):
        self.fills = []      # (col, idx, size, price, fees, side) in processing order
        self.logs = []       # dicts in processing order
        self.seq = None      # realised order of columns per bar and account
        self.error = None    # SimError kind
        self.big = 0.0       # largest amount met: the scale of rounding errors
        self.bars = None     # per bar: [(cash, free) per account], [pos per col], [valp per col]


def asc_order(vals):
    """Stable ascending order, unknown values last."""
    idx = list(range(len(vals)))
    return sorted(idx, key=lambda k: (isnan(vals[k]), 0.0 if isnan(vals[k]) else vals[k]))


def order_value(size, st, d, acc, book, value):
    if d == SHORT:
        size = -size
    held = book.pos * book.valp if True else 0
    if st == AMOUNT:
        return size * book.valp
    if st == VALUE:
        return size
    if st == PERCENT:
        if size >= 0:
            return size * acc.cash
        if d == LONG:
            return size * held
        return size * (2 * max(held, 0.0) + max(acc.free, 0.0))
    if st == TAMOUNT:
        return size * book.valp - held
    if st == TVALUE:
        return size - held
    return size * value - held


def run_orders(case, seqs=None, auto=False, ffill=True, update_value=False, rand=None, seq_out=None):
    """Reference for array-based orders.  seqs[i] = list per account of local column order (sharing only)."""
    T, N = dims(case)
    ref = Ref()
    accs = [Acc(x) for x in init_cash(case)]
    books = [Book() for _ in range(N)]
    spans = accounts(case)
    close = close_arr(case).tolist()
    F = {n: dense(case, n).tolist() for n in ORDER_FIELDS + ("val_price",)}
    ref.bars = [[[None] * len(spans), [None] * N, [None] * N] for _ in range(T)]
    ref.seq = [[0] * N for _ in range(T)]

    def resolve(i, c):
        p = F["price"][i][c]
        if math.isinf(p):
            p = close[i][c] if p > 0 else (close[i - 1][c] if i else NAN)
        v = F["val_price"][i][c]
        if math.isinf(v):
            v = p if v > 0 else (close[i - 1][c] if i else NAN)
        return p, v

    try:
        for a, (lo, hi) in enumerate(spans):
            acc = accs[a]
            for i in range(T):
                price = {}
                for c in range(lo, hi):
                    price[c], v = resolve(i, c)
                    if not isnan(v) or not ffill:
                        books[c].valp = v

                def worth():
                    v = acc.cash
                    for c in range(lo, hi):
                        if books[c].pos != 0:
                            v += books[c].pos * books[c].valp
                    return v

                value = worth()
                if case["share"]:
                    if auto:
                        vals = [order_value(F["size"][i][c], F["size_type"][i][c], F["direction"][i][c], acc, books[c], value)
                                for c in range(lo, hi)]
                        if seq_out is not None:
                            # ties and unknown values may be processed in any order: follow the reported
                            # sequence after checking that it is ascending
                            seq = seq_out(i, lo, hi, vals)
                        else:
                            seq = asc_order(vals)
                    else:
                        seq = seqs[i][a] if seqs is not None else list(range(hi - lo))
                else:
                    seq = [0]
                for k, s in enumerate(seq):
                    c = lo + s
                    ref.seq[i][lo + k] = s
                    book = books[c]
                    o = {n: F[n][i][c] for n in ORDER_FIELDS}
                    o["price"] = price[c]
                    val = value if case["share"] else worth()
                    before = (acc.cash, book.pos, book.debt, acc.free, book.valp, val)
                    r = submit(acc, book, o, val, rand)
                    for x in before[:4] + (val, r["size"]):
                        if math.isfinite(x) and abs(x) > ref.big:
                            ref.big = abs(x)
                    if r["status"] == REJECTED and o["raise_reject"]:
                        raise SimError("RejectedOrderError", r["info"])
                    nval, nvalp = val, book.valp
                    if r["status"] == FILLED:
                        if update_value:
                            nvalp = r["price"]
                            old = before[1] * before[4] if before[1] != 0 else 0.0
                            nval = val + (acc.cash - before[0]) + (book.pos * nvalp if book.pos != 0 else 0.0) - old
                            book.valp = nvalp
                            if case["share"]:
                                value = nval
                        ref.fills.append((c, i, r["size"], r["price"], r["fees"], r["side"]))
                    if o["log"]:
                        ref.logs.append(dict(group=a, col=c, idx=i, before=before, order=o, result=r,
                                             after=(acc.cash, book.pos, book.debt, acc.free, nvalp, nval),
                                             order_id=len(ref.fills) - 1 if r["status"] == FILLED else -1))
                ref.bars[i][0][a] = (acc.cash, acc.free)
                for c in range(lo, hi):
                    ref.bars[i][1][c] = books[c].pos
                    ref.bars[i][2][c] = books[c].valp
    except SimError as e:
        ref.error = e
    return ref


# ------------------------------------------------------------------ reference of the callback-driven simulators
POS_FIELDS = ("id", "col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl", "return",
              "direction", "status")


class PosRec:
    """Running record of the latest position of a column, as the contexts document it."""

    def __init__(self, col):
        self.col = col
        self.id = -1
        self.open = False
        self.dir = 0
        self.ent = []   # (size, price, fees)
        self.ext = []
        self.entry_idx = self.exit_idx = -1
        self.mark = NAN

    def fill(self, i, before, after, size, price, fees):
        if (before > 0) == (after > 0) and (before < 0) == (after < 0):
            if abs(after) >= abs(before):
                self.ent.append((size, price, fees))
            else:
                self.ext.append((size, price, fees))
        elif before == 0 or after != 0:
            self.id += 1
            self.open, self.dir = True, 0 if after > 0 else 1
            share = 1.0 if before == 0 else abs(after) / abs(after - before)
            self.ent, self.ext = [(size if before == 0 else abs(after), price, share * fees)], []
            self.entry_idx, self.exit_idx = i, -1
        else:
            self.open = False
            self.exit_idx = i
            self.ext.append((abs(before), price, fees))
        self.mark = price

    def get(self, pos):
        """None before the first position, else the record."""
        if self.id < 0:
            return None
        size = sum(s for s, _, _ in self.ent)
        ep = sum(s * p for s, p, _ in self.ent) / size
        ef = sum(f for _, _, f in self.ent)
        xs = sum(s for s, _, _ in self.ext)
        xp = sum(s * p for s, p, _ in self.ext) / xs if xs else NAN
        xf = sum(f for _, _, f in self.ext)
        out = (sum(s * p for s, p, _ in self.ext) + (abs(pos) * self.mark if self.open else 0.0))
        if self.open and isnan(self.mark):
            out = NAN
        pnl = (out - size * ep) * (1 if self.dir == 0 else -1) - ef - xf
        ret = pnl / (size * ep)
        return (self.id, self.col, size, self.entry_idx, ep, ef, self.exit_idx, xp, xf, pnl, ret, self.dir, 0 if self.open else 1)


def ret_of(a, b):
    if a == 0:
        if b == 0:
            return 0.0
        return NAN if isnan(b) else math.copysign(INF, b)
    if isnan(a) or isnan(b) or (math.isinf(a) and math.isinf(b)):
        return NAN
    return (b - a) / a * (-1 if a < 0 else 1)


def group_spans(case):
    out, c = [], 0
    for n in case["groups"]:
        out.append((c, c + max(1, int(n))))
        c += max(1, int(n))
    return out


class Stop(Exception):
    """A scripted failure inside a callback."""


def run_callbacks(case, fail_at=None, rand=None):
    """Reference of from_order_func.  Returns Ref with .trace: every callback call (name, place, args, state shown)."""
    T, N = dims(case)
    ref = Ref()
    ref.trace = []
    share, row, flex = case["share"], case.get("row", False), case.get("flex", False)
    ffill, uv, fillpos = case.get("ffill", True), case.get("uv", False), case.get("fillpos", True)
    cpre, cpost = case.get("cpre", False), case.get("cpost", False)
    groups = group_spans(case)
    accs = [Acc(x) for x in init_cash(case)]
    aof = [None] * N
    for a, (lo, hi) in enumerate(accounts(case)):
        for c in range(lo, hi):
            aof[c] = a
    A = len(accs)
    books = [Book() for _ in range(N)]
    recs = [PosRec(c) for c in range(N)]
    close = close_arr(case).tolist()
    F = {n: dense(case, n).tolist() for n in ORDER_FIELDS}
    val, val2, tmp, rets = ([x.cash for x in accs] for _ in range(4))
    rets = [NAN] * A
    oidx, lidx = [-1] * N, [-1] * N
    maxo = case["max_orders"] if case.get("max_orders") is not None else T * N
    maxl = case["max_logs"] if case.get("max_logs") is not None else T * N
    maxl = max(maxl, 1)
    mask = [[mask_at(case, i, g) for g in range(len(groups))] for i in range(T)]
    seqs = [[seq_at(case, i, c) for c in range(N)] for i in range(T)]
    valps = {(i, c): v for i, c, v in case.get("valps", [])}
    seqset = {(i, g): p for i, g, p in case.get("seqset", [])}
    script = {}
    for i, g, k, c, over in case.get("script", []):
        script.setdefault((i, g), []).append((k, c, over))
    for v in script.values():
        v.sort(key=lambda x: x[0])

    def worth(a):
        v = accs[a].cash
        for c in range(N):
            if aof[c] == a and books[c].pos != 0:
                v += books[c].pos * books[c].valp
        return v

    def shown():
        return dict(last_cash=[x.cash for x in accs], last_position=[b.pos for b in books], last_debt=[b.debt for b in books],
                    last_free_cash=[x.free for x in accs], last_val_price=[b.valp for b in books], last_value=list(val),
                    second_last_value=list(val2), last_return=list(rets), last_oidx=list(oidx), last_lidx=list(lidx),
                    pos=[r.get(b.pos) for r, b in zip(recs, books)] if fillpos else None)

    def cb(name, place, args, extra=None):
        ref.trace.append((name, place, args, shown(), extra or {}))
        if fail_at is not None and len(ref.trace) - 1 == fail_at:
            raise Stop()

    def mark(lo, hi):
        for c in range(lo, hi):
            recs[c].mark = books[c].valp

    def revalue(lo, hi):
        mark(lo, hi)
        for a in sorted({aof[c] for c in range(lo, hi)}):
            val[a] = worth(a)
            rets[a] = ret_of(val2[a], val[a])

    def now(c):
        a = aof[c]
        return dict(cash_now=accs[a].cash, position_now=books[c].pos, debt_now=books[c].debt, free_cash_now=accs[a].free,
                    val_price_now=books[c].valp, value_now=val[a], return_now=rets[a])

    def order(i, g, c, k, o, seg):
        o = dict(o)
        a, book = aof[c], books[c]
        if math.isinf(o["price"]):
            o["price"] = close[i][c] if o["price"] > 0 else (close[i - 1][c] if i else NAN)
        before = (accs[a].cash, book.pos, book.debt, accs[a].free, book.valp, val[a])
        r = submit(accs[a], book, o, val[a], rand)
        for x in before[:4] + (val[a], r["size"]):
            if math.isfinite(x) and abs(x) > ref.big:
                ref.big = abs(x)
        if r["status"] == REJECTED and o["raise_reject"]:
            raise SimError("RejectedOrderError", r["info"])
        nval, nvalp = val[a], book.valp
        if r["status"] == FILLED:
            if uv:
                nvalp = r["price"]
                old = before[1] * before[4] if before[1] != 0 else 0.0
                nval = val[a] + (accs[a].cash - before[0]) + (book.pos * nvalp if book.pos != 0 else 0.0) - old
            if len(ref.fills) >= maxo:
                raise SimError("IndexError", "max_orders")
            oidx[c] = len(ref.fills)
            ref.fills.append((c, i, r["size"], r["price"], r["fees"], r["side"]))
        if o["log"]:
            if len(ref.logs) >= maxl:
                raise SimError("IndexError", "max_logs")
            lidx[c] = len(ref.logs)
            ref.logs.append(dict(group=g, col=c, idx=i, before=before, order=o, result=r,
                                 after=(accs[a].cash, book.pos, book.debt, accs[a].free, nvalp, nval),
                                 order_id=len(ref.fills) - 1 if r["status"] == FILLED else -1))
        val[a] = nval
        if not isnan(nvalp) or not ffill:
            book.valp = nvalp
        rets[a] = ret_of(val2[a], nval)
        if r["status"] == FILLED:
            recs[c].fill(i, before[1], book.pos, r["size"], r["price"], r["fees"])
        ex = now(c)
        ex["val_price_now"] = nvalp
        for n, x in zip(("cash", "position", "debt", "free_cash", "val_price", "value"), before):
            ex[n + "_before"] = x
        ex["result"] = (r["size"], r["price"], r["fees"], r["side"], r["status"], r["info"])
        cb("post_order", (i, g, c, k), seg, ex)

    def segment(i, g, outer):
        lo, hi = groups[g]
        seg = None
        if cpre or mask[i][g]:
            cb("pre_segment", (i, g), outer + ("xs",))
            seg = outer + ("seg", i, g)
            for c in range(lo, hi):
                if (i, c) in valps:
                    books[c].valp = valps[i, c]
            if (i, g) in seqset and not flex:
                p = seqset[i, g]
                for k in range(hi - lo):
                    seqs[i][lo + k] = p[k] if k < len(p) else k
        revalue(lo, hi)
        if mask[i][g]:
            if flex:
                k = 0
                for _, c, over in script.get((i, g), []) + [(0, -1, {})]:
                    cb("order", (i, g, k), seg + ("xo",))
                    if c == -1:
                        break
                    if c < lo or c >= hi:
                        raise SimError("ValueError", "column exceeds bounds of the group")
                    o = {n: F[n][i][c] for n in ORDER_FIELDS}
                    o.update(over)
                    order(i, g, c, k, o, seg + ("xp",))
                    k += 1
            else:
                for k in range(hi - lo):
                    s = seqs[i][lo + k]
                    if s >= hi - lo:
                        raise SimError("ValueError", "call index exceeds bounds of the group")
                    c = lo + s
                    cb("order", (i, g, c, k), seg + ("xo",), now(c))
                    order(i, g, c, k, {n: F[n][i][c] for n in ORDER_FIELDS}, seg + ("xp",))
        for c in range(lo, hi):
            if not isnan(close[i][c]) or not ffill:
                books[c].valp = close[i][c]
        mark(lo, hi)
        for a in sorted({aof[c] for c in range(lo, hi)}):
            val[a] = worth(a)
            val2[a], tmp[a] = tmp[a], val[a]
            rets[a] = ret_of(val2[a], val[a])
        if cpost or mask[i][g]:
            cb("post_segment", (i, g), outer + ("xt",))

    try:
        cb("pre_sim", (), ("x0",))
        sim = ("sim",)
        if row:
            for i in range(T):
                cb("pre_row", (i,), sim + ("xr",))
                for g in range(len(groups)):
                    segment(i, g, sim + ("row", i))
                cb("post_row", (i,), sim + ("xq",))
        else:
            for g in range(len(groups)):
                cb("pre_group", (g,), sim + ("xg",))
                for i in range(T):
                    segment(i, g, sim + ("grp", g))
                cb("post_group", (g,), sim + ("xh",))
        cb("post_sim", (), ("x1",))
    except SimError as e:
        ref.error = e
    except Stop:
        ref.error = SimError("Stop", "scripted")
    ref.last_state = shown()
    return ref


def mask_at(case, i, g):
    m = case.get("mask")
    if m is None:
        return True
    if isinstance(m, int):
        return i % max(1, m) == 0
    r = m[min(i, len(m) - 1)] if m else []
    return bool(r[min(g, len(r) - 1)]) if r else True


def seq_at(case, i, c):
    """Initial call sequence: entry of column slot c at row i (local index within the group)."""
    for lo, hi in group_spans(case):
        if lo <= c < hi:
            k, n = c - lo, hi - lo
            break
    q = case.get("seq", "default")
    if q == "default":
        return k
    if q == "reversed":
        return n - 1 - k
    r = q[min(i, len(q) - 1)] if q else []
    return int(r[c]) if c < len(r) else k


# ------------------------------------------------------------------ reference of the signal-driven simulator
SIG_DEFAULTS = dict(entries=False, exits=False, short_entries=False, short_exits=False, accumulate=0, upon_long_conflict=0, upon_short_conflict=0,
                    upon_dir_conflict=0, upon_opposite_entry=4, sl_stop=NAN, sl_trail=False, tp_stop=NAN, stop_entry_price=3,
                    stop_exit_price=0, upon_stop_exit=0, upon_stop_update=1)
ORDER_DEFAULTS.update(SIG_DEFAULTS)
SIG_BOOLS = ("entries", "exits", "short_entries", "short_exits", "sl_trail")
SIG_INTS = ("accumulate", "upon_long_conflict", "upon_short_conflict", "upon_dir_conflict", "upon_opposite_entry", "stop_entry_price",
            "stop_exit_price", "upon_stop_exit", "upon_stop_update")
BOOL_FIELDS = BOOL_FIELDS + SIG_BOOLS
INT_FIELDS = INT_FIELDS + SIG_INTS
SIG_FIELDS = tuple(SIG_DEFAULTS)
IGNORE, ENTRY, EXIT, ADJACENT, OPPOSITE = range(5)            # ConflictMode
D_IGNORE, D_LONG, D_SHORT, D_ADJACENT, D_OPPOSITE = range(5)    # DirectionConflictMode
O_IGNORE, O_CLOSE, O_CLOSERED, O_REVERSE, O_REVRED = range(5)   # OppositeEntryMode
A_OFF, A_BOTH, A_ADD, A_REMOVE = range(4)                     # AccumulationMode


class Tie(Exception):
    """A decision of the run depends on rounding."""


def one_of(enter, leave, pos, mode):
    """An entry and an exit of the same direction at the same bar."""
    if not (enter and leave):
        return enter, leave
    if mode == ENTRY:
        return True, False
    if mode == EXIT:
        return False, True
    if pos == 0 or mode == IGNORE:
        return False, False
    return (True, False) if mode == ADJACENT else (False, True)


def decide(pos, le, lx, se, sx, uplong, upshort, updir, upopp, acc):
    """Signals left after all conflicts are resolved, and the accumulation in force."""
    if le or se:
        le, lx = one_of(le, lx, pos, uplong)
        se, sx = one_of(se, sx, pos, upshort)
        if le and se:
            keep = {D_IGNORE: 0, D_LONG: 1, D_SHORT: -1, D_ADJACENT: (pos > 0) - (pos < 0), D_OPPOSITE: (pos < 0) - (pos > 0)}[updir]
            le, se = keep > 0, keep < 0
        against = (pos > 0 and se) or (pos < 0 and le)
        if against and upopp != O_REVRED:
            if upopp != O_CLOSERED and upopp != O_IGNORE:
                acc = A_OFF
            if upopp != O_REVERSE:
                if pos > 0:
                    se = False
                    lx = lx or upopp != O_IGNORE
                else:
                    le = False
                    sx = sx or upopp != O_IGNORE
    return le, lx, se, sx, acc


def as_order(pos, le, lx, se, sx, size, st, acc, valp):
    """(signed size, size type, direction) of the order; size 0 means no order."""
    if st not in (AMOUNT, VALUE, PERCENT):
        raise SimError("ValueError", "size_type")
    if less(size, 0.0):
        raise SimError("ValueError", "negative size")
    if pos == 0:
        return (size if le else -size if se else 0.0), st, BOTH
    s = 1 if pos > 0 else -1
    add, leave, flip = (le, lx, se) if s > 0 else (se, sx, le)
    own = LONG if s > 0 else SHORT
    reduce = acc in (A_BOTH, A_REMOVE)
    if flip:
        if reduce:
            return -s * size, st, BOTH
        if isnan(size):
            return -pos, AMOUNT, BOTH
        if st == PERCENT:
            raise SimError("ValueError", "reversal in percent")
        if st == VALUE:
            if valp == 0:
                raise SimError("ZeroDivisionError", "")
            size = size / valp
        return -s * (abs(pos) + size), AMOUNT, BOTH
    if leave:
        return (-s * size, st, own) if reduce else (-pos, AMOUNT, own)
    if add and acc in (A_BOTH, A_ADD):
        return s * size, st, own
    return 0.0, st, own if add else BOTH


class Stops:
    """Stop loss and take profit of one column."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.sl_i = self.sl_ci = self.tp_i = -1
        self.sl_at = self.sl_ref = self.sl = self.tp_at = self.tp = NAN
        self.trail = False

    def set_sl(self, i, at, stop, trail):
        self.sl_i = self.sl_ci = i
        self.sl_at = self.sl_ref = at
        self.sl, self.trail = stop, trail

    def set_tp(self, i, at, stop):
        self.tp_i, self.tp_at, self.tp = i, at, stop


def exact(x):
    """Products with this stop value carry no rounding error on the quarter-point price grid."""
    return math.isinf(x) or float(x * 64).is_integer()


def hit(at, stop, up, o, h, l):
    """Price at which a stop above (up) or below the reference price is hit inside the bar, else NaN."""
    if stop < 0:
        raise SimError("ValueError", "stop")
    p = at * (1 + stop) if up else at * (1 - stop)
    if not exact(stop) or not float(at * 4).is_integer():
        for x in (o, h, l):
            if near(p, x, 1e-9, 1e-12):
                raise Tie()
    if (o >= p) if up else (o <= p):
        return o
    return p if l <= p <= h else NAN


def run_signals(case, seqs=None, auto=False, ffill=True, update_value=False, seq_out=None, adjust=None, seen=None):
    """Reference of Portfolio.from_signals.  adjust(i, c, stops) may change the stops before the bar; seen collects what
    the dynamic callbacks must be shown."""
    T, N = dims(case)
    ref = Ref()
    ref.stops = []   # (i, c, kind) stops that were hit
    ref.tie = False
    accs = [Acc(x) for x in init_cash(case)]
    books = [Book() for _ in range(N)]
    spans = accounts(case)
    close = close_arr(case).tolist()
    ohl = {k: (close_arr(case, k).tolist() if case.get(k) is not None else [[NAN] * N for _ in range(T)]) for k in ("open", "high", "low")}
    F = {n: dense(case, n).tolist() for n in ORDER_FIELDS + ("val_price",) + SIG_FIELDS}
    ref.bars = [[[None] * len(spans), [None] * N, [None] * N] for _ in range(T)]
    ref.seq = [[0] * N for _ in range(T)]
    stops = [Stops() for _ in range(N)]
    use = case.get("use_stops")
    if use is None:
        sc = lambda n: case["fields"].get(n) is None or (case["fields"][n]["m"] == "s" and isnan(case["fields"][n]["v"]))
        use = not (sc("sl_stop") and sc("tp_stop") and adjust is None)
    ls = case.get("ls")

    def resolve(i, c):
        p = F["price"][i][c]
        if math.isinf(p):
            if p > 0:
                p = close[i][c]
            else:
                p = ohl["open"][i][c]
                if isnan(p):
                    p = close[i - 1][c] if i else NAN
        v = F["val_price"][i][c]
        if math.isinf(v):
            v = p if v > 0 else (close[i - 1][c] if i else NAN)
        return p, v

    def bar(i, c):
        o, h, l, x = ohl["open"][i][c], ohl["high"][i][c], ohl["low"][i][c], close[i][c]
        if isnan(o):
            o = x
        if isnan(l):
            l = NAN if isnan(o) else o if isnan(x) else min(o, x)
        if isnan(h):
            h = NAN if isnan(o) else o if isnan(x) else max(o, x)
        return o, h, l

    def stop(i, c, pos):
        """Price of the stop hit at this bar, else NaN; moves the trailing reference afterwards."""
        st = stops[c]
        p = NAN
        if isnan(st.sl) and isnan(st.tp):
            return p
        o, h, l = bar(i, c)
        if pos != 0:
            if not isnan(st.sl):
                p = hit(st.sl_ref, st.sl, pos < 0, o, h, l)
                if not isnan(p):
                    ref.stops.append((i, c, "tsl" if st.trail else "sl"))
            if isnan(p) and not isnan(st.tp):
                p = hit(st.tp_at, st.tp, pos > 0, o, h, l)
                if not isnan(p):
                    ref.stops.append((i, c, "tp"))
        elif (not isnan(st.sl) and st.sl < 0) or (not isnan(st.tp) and st.tp < 0):
            raise SimError("ValueError", "stop")
        if not isnan(st.sl) and st.trail:
            if pos > 0 and h > st.sl_ref:
                st.sl_ref, st.sl_ci = h, i
            elif pos < 0 and l < st.sl_ref:
                st.sl_ref, st.sl_ci = l, i
        return p

    def signals(i, c):
        e, x = F["entries"][i][c], F["exits"][i][c]
        if ls:
            return e, x, F["short_entries"][i][c], F["short_exits"][i][c]
        d = F["direction"][i][c]
        return (e, x, False, False) if d == LONG else (False, False, e, x) if d == SHORT else (e, False, x, False)

    def plan(i, c, price):
        """(size, size type, direction, price, slippage) of the order of this column at this bar."""
        g = lambda n: F[n][i][c]
        pos = books[c].pos
        acc = g("accumulate")
        slip = g("slippage")
        p = NAN
        if use:
            st = stops[c]
            if adjust is not None:
                if seen is not None:
                    seen.append(("adjust_sl", i, c, pos, books[c].valp, st.sl_i, st.sl_at, st.sl_ci, st.sl_ref, st.sl, float(st.trail)))
                    seen.append(("adjust_tp", i, c, pos, books[c].valp, st.tp_i, st.tp_at, st.tp))
                adjust(i, c, st)
            p = stop(i, c, pos)
        if not isnan(p):
            m = g("upon_stop_exit")
            if m in (0, 2):
                acc = A_OFF
            back = m >= 2
            sig = (False, not back, back, False) if pos > 0 else (back, False, False, not back)
            x = g("stop_exit_price")
            if x == 0:
                price, slip = p, 0.0
            elif x == 1:
                price = p
            elif x == 3:
                price = close[i][c]
        else:
            if seen is not None:
                seen.append(("signal", i, c, pos, books[c].valp))
            le, lx, se, sx, acc = decide(pos, *signals(i, c), g("upon_long_conflict"), g("upon_short_conflict"), g("upon_dir_conflict"),
                                         g("upon_opposite_entry"), acc)
            sig = (le, lx, se, sx)
        size, st, d = as_order(pos, *sig, g("size"), g("size_type"), acc, books[c].valp)
        return size, st, d, price, slip

    try:
        for a, (lo, hi) in enumerate(spans):
            acc = accs[a]
            for i in range(T):
                todo = {}
                prices = {}
                for c in range(lo, hi):
                    prices[c], v = resolve(i, c)
                    if not isnan(v) or not ffill:
                        books[c].valp = v
                for c in range(lo, hi):
                    todo[c] = plan(i, c, prices[c])

                def worth():
                    v = acc.cash
                    for c in range(lo, hi):
                        if books[c].pos != 0:
                            v += books[c].pos * books[c].valp
                    return v

                value = worth()
                seq = [0]
                if case["share"]:
                    if auto:
                        vals = []
                        for c in range(lo, hi):
                            size, st, d = todo[c][:3]
                            vals.append(0.0 if size == 0 else order_value(size, st, d if d == LONG else BOTH, acc, books[c], value))
                        seq = seq_out(i, lo, hi, vals) if seq_out is not None else asc_order(vals)
                    else:
                        seq = seqs[i][a] if seqs is not None else list(range(hi - lo))
                for k, s in enumerate(seq):
                    c = lo + s
                    ref.seq[i][lo + k] = s
                    book = books[c]
                    size, st, d, price, slip = todo[c]
                    if size == 0:
                        continue
                    o = {n: F[n][i][c] for n in ORDER_FIELDS}
                    o.update(size=-size if d == SHORT else size, price=price, size_type=st, direction=d, slippage=slip)
                    val = value if case["share"] else worth()
                    before = (acc.cash, book.pos, book.debt, acc.free, book.valp, val)
                    r = submit(acc, book, o, val)
                    for x in before[:4] + (val, r["size"]):
                        if math.isfinite(x) and abs(x) > ref.big:
                            ref.big = abs(x)
                    if r["status"] == REJECTED and o["raise_reject"]:
                        raise SimError("RejectedOrderError", r["info"])
                    nval, nvalp = val, book.valp
                    if r["status"] == FILLED:
                        if update_value:
                            nvalp = r["price"]
                            old = before[1] * before[4] if before[1] != 0 else 0.0
                            nval = val + (acc.cash - before[0]) + (book.pos * nvalp if book.pos != 0 else 0.0) - old
                            book.valp = nvalp
                            if case["share"]:
                                value = nval
                        ref.fills.append((c, i, r["size"], r["price"], r["fees"], r["side"]))
                        if use:
                            sp = stops[c]
                            if book.pos == 0:
                                sp.clear()
                            else:
                                at = (nvalp, o["price"], r["price"], close[i][c])[F["stop_entry_price"][i][c]]
                                sl, tr, tp, up = (F[n][i][c] for n in ("sl_stop", "sl_trail", "tp_stop", "upon_stop_update"))
                                if before[1] * book.pos <= 0:
                                    sp.set_sl(i, at, sl, tr)
                                    sp.set_tp(i, at, tp)
                                elif abs(book.pos) > abs(before[1]):
                                    if up == 2 or (up == 1 and not isnan(sl)):
                                        sp.set_sl(i, at, sl, tr)
                                    if up == 2 or (up == 1 and not isnan(tp)):
                                        sp.set_tp(i, at, tp)
                    if o["log"]:
                        ref.logs.append(dict(group=a, col=c, idx=i, before=before, order=o, result=r,
                                             after=(acc.cash, book.pos, book.debt, acc.free, nvalp, nval),
                                             order_id=len(ref.fills) - 1 if r["status"] == FILLED else -1))
                ref.bars[i][0][a] = (acc.cash, acc.free)
                for c in range(lo, hi):
                    ref.bars[i][1][c] = books[c].pos
                    ref.bars[i][2][c] = books[c].valp
    except SimError as e:
        ref.error = e
    except Tie:
        ref.tie = True
    return ref
