"""Simulation core: seeded PRNG derivation, run context (event log, fault/probe/time accounting),
violation classes and generic shrinking helpers.  Nothing here reads a real clock or draws from a
PRNG on a logging path."""
import copy
import hashlib
import json
import math
import os
import random
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VBT_REPO", "/repo")


def H(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Violation(Exception):
    """The property does not hold.  `cls` is the stable class used for minimisation and known findings."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    """A simulated process crash: unwinds everything, never caught by `except Exception`."""


class Rng(random.Random):
    """random.Random with a few helpers; the only source of choice in the generators."""

    def chance(self, p):
        return self.random() < p

    def pick(self, *items):
        return items[int(self.random() * len(items))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def r6(x):
    return x


def canon(x):
    """Deterministic text of a value for the event log (no ids, no hash order)."""
    if isinstance(x, float):
        if x != x:
            return "nan"
        return repr(x)
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "s" + canon(sorted(x, key=str))
    return str(x)


class Ctx:
    """One simulated run."""

    KEEP = 400

    def __init__(self, seed):
        self.seed = seed
        self._h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.max_steps = 200000

    # -- event log ----------------------------------------------------
    def ev(self, *items):
        line = " ".join(canon(i) for i in items)
        self._h.update(line.encode("utf-8", "replace") + b"\n")
        self.n_events += 1
        if len(self.tail) < self.KEEP:
            self.tail.append(line if len(line) < 500 else line[:500] + "...")

    def digest(self):
        return self._h.hexdigest()[:16]

    # -- accounting ---------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(H(*[canon(s) for s in sig]) & 0xFFFFFFFFFF)

    def tick(self, dt):
        self.sim_time += dt

    def step(self, n=1, what="simulation"):
        """Bounded liveness: every seam counts steps; exceeding the budget is a hang of the code under test."""
        self.steps += n
        if self.steps > self.max_steps:
            raise Violation("no-progress", f"{what} exceeded {self.max_steps} simulated steps")

    # -- checks -------------------------------------------------------
    def fail(self, cls, msg):
        self.ev("VIOLATION", cls)
        raise Violation(cls, msg)

    def check(self, cond, cls, msg=""):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)


def close(a, b, rtol=1e-9, atol=1e-9):
    if a is None or b is None:
        return a is b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class Scenario:
    """One way of exercising a property.

    gen(rng) -> JSON-able case, run(case, ctx) raises Violation, shrink(case) yields simpler cases."""

    def __init__(self, name, gen, run, quick, thorough, shrink=None, jit=False, rule="", real=(), stub=(), timeout=120,
                 sample=None):
        self.name = name
        self.gen = gen
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shrink = shrink or shrink_generic
        self.jit = jit
        self.rule = rule
        self.real = list(real)
        self.stub = list(stub)
        self.timeout = timeout
        self.sample = sample or (lambda c: c)


def in_repo_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        fn = os.path.abspath(f.filename)
        if fn.startswith(os.path.join(REPO, "vectorbt") + os.sep):
            out.append(f)
    return out


def execute(scn, case, seed):
    """Run one case.  Returns (ctx, violation or None, harness_error or None)."""
    import numpy as np
    import warnings

    ctx = Ctx(seed)
    random.seed(seed & 0xFFFFFFFF)
    np.random.seed(seed & 0xFFFFFFFF)
    ctx.tail.append(f"scenario {scn.name} seed {seed}")  # logged first, not hashed: the digest is of the execution
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                scn.run(json.loads(json.dumps(case)), ctx)
        ctx.ev("end", ctx.faults, ctx.probes)
        return ctx, None, None
    except Violation as v:
        return ctx, v, None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        frames = in_repo_frames(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if frames and not isinstance(e, HarnessError):
            v = Violation(f"unexpected-{type(e).__name__}", f"{str(e)[:300]} in {frames[-1].name}\n{txt}")
            ctx.ev("VIOLATION", v.cls)
            return ctx, v, None
        return ctx, None, txt


# ------------------------------------------------------------------ shrinking
def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _set(case, path, val):
    c = copy.deepcopy(case)
    if not path:
        return val
    y = c
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = val
    return c


def drop_chunks(case, path, lst):
    n = len(lst)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            if size == n and n == 0:
                break
            yield _set(case, path, lst[:s] + lst[s + size:])
        size //= 2


def shrink_generic(case):
    """Drop list chunks, then remove optional keys (set to None/0), then simplify scalars."""
    for path, x in sorted(_paths(case), key=lambda px: len(px[0])):
        if isinstance(x, list) and x and not (path and path[-1] in ("fixed",)):
            yield from drop_chunks(case, path, x)
    for path, x in _paths(case):
        if not path:
            continue
        if isinstance(x, bool):
            if x:
                yield _set(case, path, False)
        elif isinstance(x, int):
            for c in (0, 1, x // 2):
                if c != x and abs(c) < abs(x):
                    yield _set(case, path, c)
        elif isinstance(x, float) and x == x and not math.isinf(x):
            for c in (0.0, 1.0, float(round(x)), round(x, 1), round(x, 2)):
                if c != x:
                    yield _set(case, path, c)


def measure(case):
    s = json.dumps(case)
    digits = sum(ch.isdigit() for ch in s)
    return (len(s), digits)


def minimise(scn, case, seed, cls, deadline, now, max_iters=4000):
    """Greedy: accept any strictly smaller case showing the same violation class."""
    best = case
    iters = 0
    improved = True
    while improved and iters < max_iters and now() < deadline:
        improved = False
        bm = measure(best)
        for cand in scn.shrink(best):
            iters += 1
            if iters >= max_iters or now() > deadline:
                break
            try:
                if measure(cand) >= bm:
                    continue
                _, v, herr = execute(scn, cand, seed)
            except Exception:
                continue
            if v is not None and v.cls == cls:
                best = cand
                improved = True
                break
    return best, iters
