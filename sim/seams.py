"""Seams: everything the code under test reads from the outside world is replaced by objects owned by the
simulator.  Replacement is by identity over the loaded modules (any attribute of a vectorbt module, or of a named
third-party module, that *is* the real clock / sleep / datetime object), so it does not depend on how the code spells its imports."""
import asyncio
import contextlib
import datetime as _dt
import heapq
import sys
import time as _time
import types

_real_datetime = _dt.datetime
_real_date = _dt.date
_real_sleep = _time.sleep


class SimClock:
    """Wall clock (may jump) and monotonic clock (never does); sleeping runs queued events."""

    def __init__(self, ctx, start, step=0.0):
        self.ctx = ctx
        self.wall = float(start)
        self.mono = 1000.0
        self.queue = []
        self.seq = 0
        self.sleeps = []
        self.on_sleep = None

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.queue, (self.mono + delay, self.seq, fn))

    def jump(self, dt):
        self.wall += dt

    def advance(self, dt):
        target = self.mono + dt
        while self.queue and self.queue[0][0] <= target:
            t, _, fn = heapq.heappop(self.queue)
            if t > self.mono:
                self.wall += t - self.mono
                self.ctx.tick(t - self.mono)
                self.mono = t
            fn()
        if target > self.mono:
            self.wall += target - self.mono
            self.ctx.tick(target - self.mono)
            self.mono = target

    def sleep(self, secs):
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        self.ctx.step(what="sleep loop")
        self.sleeps.append((self.mono, secs))
        self.advance(secs)
        if self.on_sleep is not None:
            self.on_sleep(secs)

    def now(self, tz=None):
        d = _real_datetime.fromtimestamp(round(self.wall, 6), _dt.timezone.utc)
        if tz is not None:
            return d.astimezone(tz)
        return d.replace(tzinfo=None)  # process runs with TZ=UTC


def make_datetime(clock):
    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, _real_datetime)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, _real_datetime)

    class SimDatetime(_real_datetime, metaclass=Meta):
        def __new__(cls, *a, **k):
            return _real_datetime(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return clock.now(tz)

        @classmethod
        def utcnow(cls):
            return clock.now(_dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return clock.now()

        # constructors return real datetimes, so no simulated subclass leaks into data
        @classmethod
        def fromtimestamp(cls, *a, **k):
            return _real_datetime.fromtimestamp(*a, **k)

        @classmethod
        def combine(cls, *a, **k):
            return _real_datetime.combine(*a, **k)

        @classmethod
        def strptime(cls, *a, **k):
            return _real_datetime.strptime(*a, **k)

        @classmethod
        def fromisoformat(cls, *a, **k):
            return _real_datetime.fromisoformat(*a, **k)

    return SimDatetime


def _proxy(mod, **over):
    p = types.ModuleType(mod.__name__)
    p.__dict__.update({k: v for k, v in mod.__dict__.items() if not k.startswith("__")})
    p.__dict__.update(over)
    return p


@contextlib.contextmanager
def patched_clock(clock, extra_modules=("schedule",)):
    """Put clock, datetime.now and sleep of all vectorbt modules (and extra ones) under the simulated clock."""
    simdt = make_datetime(clock)
    time_proxy = _proxy(_time, sleep=clock.sleep, time=lambda: clock.wall, monotonic=lambda: clock.mono,
                        perf_counter=lambda: clock.mono)
    dt_proxy = _proxy(_dt, datetime=simdt)
    repl = {id(_real_datetime): simdt, id(_real_sleep): clock.sleep, id(_time): time_proxy, id(_dt): dt_proxy}
    saved = []
    import dateparser

    real_parse = dateparser.parse

    def sim_parse(s, *a, settings=None, **k):
        st = dict(settings or {})
        st.setdefault("RELATIVE_BASE", clock.now())
        return real_parse(s, *a, settings=st, **k)

    repl[id(real_parse)] = sim_parse
    dp_proxy = _proxy(dateparser, parse=sim_parse)
    repl[id(dateparser)] = dp_proxy
    for name, mod in sorted(sys.modules.items()):
        if mod is None:
            continue
        if not (name == "vectorbt" or name.startswith("vectorbt.") or name in extra_modules):
            continue
        d = getattr(mod, "__dict__", None)
        if d is None:
            continue
        for k, v in list(d.items()):
            r = repl.get(id(v))
            if r is not None:
                saved.append((d, k, v))
                d[k] = r
    try:
        yield clock
    finally:
        for d, k, v in reversed(saved):
            d[k] = v


# ---------------------------------------------------------------- virtual-time event loop
class _Selector:
    """Selector that never blocks: waiting advances the simulated clock."""

    def __init__(self, real, clock):
        self._real = real
        self._clock = clock

    def select(self, timeout=None):
        ev = self._real.select(0)
        if ev:
            return ev
        if timeout is None:
            raise RuntimeError("event loop idle forever (deadlock)")
        if timeout > 0:
            self._clock.ctx.step(what="event loop")
            self._clock.advance(timeout)
        return []

    def __getattr__(self, k):
        return getattr(self._real, k)


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, clock):
        super().__init__()
        self._sim_clock = clock
        self._selector = _Selector(self._selector, clock)
        self._clock_resolution = 1e-9

    def time(self):
        return self._sim_clock.mono
