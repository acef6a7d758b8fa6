"""C13: scheduled jobs under a simulated clock (jumps, slow jobs, stalls), cancellation, deadlines, errors.

Oracle: the same scripted scenario executed by a small reference loop over step-by-step built upstream `schedule`
jobs, on a twin clock.  Histories (job, wall time, monotonic time) must be identical."""
import asyncio
import datetime as dt
import random

from ..core import Scenario, Violation
from ..seams import SimClock, SimLoop, patched_clock

T0 = dt.datetime(2021, 3, 14, 1, 59, 30, tzinfo=dt.timezone.utc).timestamp()
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


class Injected(Exception):
    pass


def gen_job(rng, is_async):
    form = rng.weighted([("sec", 6), ("min", 2), ("unit", 2), ("day-at", 2), ("week", 1), ("min-at", 1), ("hour-at", 1), ("bare-at", 1), ("td", 0)])
    j = dict(interval=1, unit=None, day=None, at=None, at_kind="str", off=0, to=None, tags=None, until=None)
    if form == "sec":
        j["interval"] = rng.pick(1, 1, 2, 3, 5, 7, 10)
        j["unit"] = rng.pick("seconds", "seconds", None)
        if j["interval"] == 1 and rng.chance(0.3):
            j["unit"] = "second"
        if rng.chance(0.15):
            j["to"] = j["interval"] + rng.randint(0, 5)
    elif form == "min":
        j["interval"], j["unit"] = rng.randint(1, 3), "minutes"
    elif form == "unit":
        j["interval"], j["unit"] = 1, rng.pick("second", "minute", "hour", "day", "week")
        if rng.chance(0.3):
            j["unit"] = rng.pick("hours", "days", "weeks")
            j["interval"] = rng.randint(1, 3)
    elif form == "day-at":
        j["interval"], j["unit"] = rng.randint(1, 2), "days"
        j["at"] = [rng.pick(1, 2, 2, 3), rng.randint(0, 59), rng.randint(0, 59)]
    elif form == "bare-at":
        j["at"] = [2, rng.randint(0, 59), rng.randint(0, 59)]
    elif form == "week":
        j["day"] = rng.choice(DAYS)
        if rng.chance(0.6):
            j["at"] = [rng.randint(0, 23), rng.randint(0, 59), 0]
    elif form == "min-at":
        j["unit"] = rng.pick("minute", "minutes")
        j["interval"] = 1 if j["unit"] == "minute" else rng.randint(1, 2)
        j["at"] = [0, 0, rng.randint(0, 59)]
    elif form == "hour-at":
        j["unit"] = "hour"
        j["at"] = [0, rng.randint(0, 59), rng.randint(0, 59)]
    if j["at"]:
        j["at_kind"] = rng.pick("str", "time", "time")
        if j["at_kind"] == "time" and (j["unit"] in ("days", None)) and rng.chance(0.5):
            j["off"] = rng.pick(-5, 2, 9)
            j["at_kind"] = "aware"
    if rng.chance(0.3):
        j["tags"] = rng.pick("x", "y", "xy", ["x", "y"])
    if rng.chance(0.2):
        j["until"] = rng.randint(3, 90)
    j["async"] = is_async and rng.chance(0.6)
    script = []
    for _ in range(rng.randint(0, 6)):
        a = rng.weighted([("none", 6), ("slow", 4), ("jump", 1), ("cancel-self", 1), ("cancel-other", 1), ("clear-tag", 1),
                          ("add", 1), ("error", 0.4), ("cancelled-error", 0.4)])
        arg = None
        if a == "slow":
            arg = rng.pick(0.5, 1.0, 2.5, 7.0, 65.0)
        elif a == "jump":
            arg = rng.pick(-3600.0, -5.0, 5.0, 3600.0, 90000.0)
        elif a == "cancel-other":
            arg = rng.randint(0, 4)
        elif a == "clear-tag":
            arg = rng.pick("x", "y", "xy")
        elif a == "add":
            arg = rng.randint(1, 5)
        script.append([a, arg])
    j["script"] = script
    return j


def gen_sync(rng):
    return dict(jobs=[gen_job(rng, False) for _ in range(rng.randint(1, 5))], sleep=rng.pick(1, 1, 1, 2, 5),
                cycles=rng.randint(5, 60), jumps=[[rng.randint(0, 40), rng.pick(-7200.0, -2.0, 3.0, 1800.0, 86400.0)] for _ in range(rng.pick(0, 0, 1, 2))],
                stall=[[rng.randint(0, 40), rng.pick(5.0, 120.0)] for _ in range(rng.pick(0, 0, 1))], seed=rng.randrange(1 << 30))


def gen_async(rng):
    c = gen_sync(rng)
    c["jobs"] = [gen_job(rng, True) for _ in range(rng.randint(1, 5))]
    c["stop_at"] = round(rng.uniform(0.0, 60.0), 2)
    c["after"] = rng.pick(0.0, 20.0)
    c["restart"] = rng.chance(0.25)
    return c


# ------------------------------------------------------------------ building jobs
def build_ref(sched, j, job_cls=None):
    """Step-by-step chain on the upstream scheduler."""
    import schedule

    job = schedule.Job(j["interval"], sched)
    unit, day = j["unit"], j["day"]
    if unit is None and day is None:
        unit = "days" if j["at"] is not None else "seconds"
    if unit is not None:
        job = getattr(job, unit)
    if day is not None:
        job = getattr(job, day)
    if j["at"] is not None:
        h, m, s = j["at"]
        if j["at_kind"] == "aware":
            h = (h - j["off"]) % 24
        full = f"{h:02d}:{m:02d}:{s:02d}"
        if unit in ("minute", "minutes"):
            job = job.at(f":{s:02d}")
        elif unit in ("hour", "hours"):
            job = job.at(f"{m:02d}:{s:02d}")
        else:
            job = job.at(full)
    if j["to"] is not None:
        job = job.to(j["to"])
    return job


def build_vbt(manager, j):
    args = []
    if j["interval"] != 1:
        args.append(j["interval"])
    if j["unit"] is not None:
        args.append(j["unit"])
    if j["day"] is not None:
        args.append(j["day"])
    if j["at"] is not None:
        h, m, s = j["at"]
        if j["at_kind"] == "time":
            args.append(dt.time(h, m, s))
        elif j["at_kind"] == "aware":
            args.append(dt.time(h, m, s, tzinfo=dt.timezone(dt.timedelta(hours=j["off"]))))
        else:
            u = j["unit"]
            args.append(f":{s:02d}" if u in ("minute", "minutes") else f"{m:02d}:{s:02d}" if u in ("hour", "hours") else f"{h:02d}:{m:02d}:{s:02d}")
    kw = {}
    if j["to"] is not None:
        kw["to"] = j["to"]
    if j["tags"] is not None:
        kw["tags"] = tuple(j["tags"]) if isinstance(j["tags"], list) else j["tags"]
    return manager.every(*args, **kw)


class World:
    """One leg: a clock, the job table and the scripted behaviour of every job."""

    def __init__(self, ctx, case, record):
        self.ctx, self.case = ctx, case
        self.clock = SimClock(ctx, T0)
        self.hist = []
        self.counts = {}
        self.jobs = {}
        self.record = record
        self.added = 0
        self.sched = None
        self.add_fn = None
        self.cycle = 0

    def begin(self, jid):
        n = self.counts.get(jid, 0)
        self.counts[jid] = n + 1
        self.hist.append((jid, round(self.clock.wall, 3), round(self.clock.mono, 3)))
        sc = self.case["jobs"][jid]["script"] if jid < len(self.case["jobs"]) else []
        return sc[n] if n < len(sc) else ["none", None]

    def effect(self, jid, a, arg):
        import schedule

        if self.record and a not in ("none",):
            self.ctx.fault("job-" + a)
        if a == "jump":
            self.clock.jump(arg)
        elif a == "cancel-self":
            return schedule.CancelJob
        elif a == "cancel-other":
            jb = self.jobs.get(arg)
            if jb is not None:
                self.sched.cancel_job(jb)
        elif a == "clear-tag":
            self.sched.clear(arg)
        elif a == "add":
            k = 100 + self.added
            self.added += 1
            if self.added <= 3:
                self.add_fn(k, arg)
        elif a == "error":
            raise Injected(f"job {jid}")
        elif a == "cancelled-error":
            raise self.cancelled_error()
        return None

    def make(self, jid):
        j = self.case["jobs"][jid] if jid < len(self.case["jobs"]) else {"async": False}

        if j.get("async"):
            async def afn():
                a, arg = self.begin(jid)
                if a == "slow":
                    if self.record:
                        self.ctx.fault("job-slow-async")
                    await asyncio.sleep(arg)
                    self.hist.append((jid, "end", round(self.clock.mono, 3)))
                    return None
                return self.effect(jid, a, arg)

            return afn

        def fn():
            a, arg = self.begin(jid)
            if a == "slow":
                if self.record:
                    self.ctx.fault("job-slow")
                self.clock.advance(arg)
                return None
            return self.effect(jid, a, arg)

        return fn


class Stop(BaseException):
    pass


def drive_clock(w):
    """Loop-iteration hook: scheduled clock jumps and stalls, and the end of the run."""

    def on_sleep(secs):
        k = w.cycle
        w.cycle += 1
        for c, d in w.case["jumps"]:
            if c == k:
                w.clock.jump(d)
                if w.record:
                    w.ctx.fault("clock-jump")
        for c, d in w.case["stall"]:
            if c == k:
                w.clock.advance(d)
                if w.record:
                    w.ctx.fault("stall")
        if w.cycle >= w.case["cycles"]:
            raise KeyboardInterrupt

    w.clock.on_sleep = on_sleep


def state_of(w):
    return {k: (str(j.last_run)[:19], str(j.next_run)[:19], j in w.sched.jobs, sorted(map(str, j.tags))) for k, j in sorted(w.jobs.items())}


def setup_vbt(w, case):
    import vectorbt as vbt

    m = vbt.ScheduleManager()
    w.sched = m.scheduler
    w.cancelled_error = vbt.CancelledError
    for i, j in enumerate(case["jobs"]):
        job = build_vbt(m, j)
        if j["until"] is not None:
            job.until(dt.timedelta(seconds=j["until"]))
        job.do(w.make(i))
        w.jobs[i] = job

    def add(k, iv):
        w.jobs[k] = m.every(iv).do(w.make(k))

    w.add_fn = add
    return m


def setup_ref(w, case):
    import schedule

    s = schedule.Scheduler()
    w.sched = s
    w.cancelled_error = asyncio.CancelledError
    for i, j in enumerate(case["jobs"]):
        job = build_ref(s, j)
        if j["tags"] is not None:
            job = job.tag(*(j["tags"] if isinstance(j["tags"], list) else [j["tags"]]))
        if j["until"] is not None:
            job.until(dt.timedelta(seconds=j["until"]))
        job.do(w.make(i))
        w.jobs[i] = job

    def add(k, iv):
        w.jobs[k] = schedule.Job(iv, s).seconds.do(w.make(k))

    w.add_fn = add
    return s


def compare(ctx, wv, wr, ov, orf, what):
    for x in wv.hist[:60]:
        ctx.ev("run", *x)
    n = min(len(wv.hist), len(wr.hist))
    for k in range(n):
        if wv.hist[k] != wr.hist[k]:
            ctx.fail(f"{what}-history", f"run {k}: job,time {wv.hist[k]} but expected {wr.hist[k]}")
    ctx.check(len(wv.hist) == len(wr.hist), f"{what}-history", f"{len(wv.hist)} runs, expected {len(wr.hist)}; "
              f"next {wv.hist[n:n + 2]} vs {wr.hist[n:n + 2]}")
    ctx.check(ov == orf, f"{what}-outcome", f"outcome {ov}, expected {orf}")
    sv, sr = state_of(wv), state_of(wr)
    for k in sr:
        ctx.check(sv.get(k) == sr[k], f"{what}-state", f"job {k}: {sv.get(k)}, expected {sr[k]}")
    if wv.hist:
        ctx.probe("ran")
    ctx.state(what, len(wv.hist), len(wv.jobs), ov)


def run_sync(case, ctx):
    # vectorbt leg
    wv = World(ctx, case, True)
    drive_clock(wv)
    with patched_clock(wv.clock):
        random.seed(case["seed"])
        m = setup_vbt(wv, case)
        try:
            m.start(sleep=case["sleep"])
            ov = "stopped"
        except Injected:
            ov = "error"
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            ov = type(e).__name__
    # reference leg
    wr = World(ctx, case, False)
    drive_clock(wr)
    with patched_clock(wr.clock):
        random.seed(case["seed"])
        s = setup_ref(wr, case)
        try:
            while True:
                s.run_pending()
                wr.clock.sleep(case["sleep"])
        except (KeyboardInterrupt, asyncio.CancelledError):
            orf = "stopped"
        except Injected:
            orf = "error"
    compare(ctx, wv, wr, ov, orf, "sync")


def run_async(case, ctx):
    horizon = case["stop_at"] + case["after"] + 400.0

    # ---- vectorbt leg
    wv = World(ctx, case, True)
    res = {}
    with patched_clock(wv.clock):
        loop = SimLoop(wv.clock)
        asyncio.set_event_loop(loop)
        try:
            async def main():
                random.seed(case["seed"])
                m = setup_vbt(wv, case)
                m.start_in_background(sleep=case["sleep"])
                if case["restart"]:
                    await asyncio.sleep(case["stop_at"] / 2)
                    if m.async_task_running:
                        ctx.fault("started-twice")
                        m.start_in_background(sleep=case["sleep"])
                        await asyncio.sleep(0)
                first = m.async_task
                await asyncio.sleep(case["stop_at"])
                res["running_before"] = m.async_task_running
                t_stop = wv.clock.mono
                m.stop()
                # bounded: ends within one polling interval
                await asyncio.sleep(case["sleep"] + 0.001)
                n_at = len([h for h in wv.hist if h[1] != "end"])
                res["running_after"] = m.async_task_running
                res["done"] = first.done()
                await asyncio.sleep(300)
                res["late"] = [h for h in wv.hist if h[1] != "end"][n_at:]
                res["stop"] = t_stop
                exc = None if not first.done() or first.cancelled() else first.exception()
                res["exc"] = type(exc).__name__ if exc is not None else None
                for t in asyncio.all_tasks():
                    if t is not asyncio.current_task():
                        t.cancel()

            loop.set_exception_handler(lambda l, c: None)
            loop.run_until_complete(main())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    ctx.check(not res["running_after"] and res["done"], "async-stop", f"still running one polling interval after stop: {res}")
    ctx.check(not res["late"], "async-late-run", f"jobs started after the manager had been stopped: {res['late'][:3]}")
    if case["restart"]:
        return  # histories of two overlapping loops are not compared

    # ---- reference leg
    wr = World(ctx, case, False)
    rres = {}
    with patched_clock(wr.clock):
        loop = SimLoop(wr.clock)
        asyncio.set_event_loop(loop)
        try:
            async def run_job(s, job):
                import inspect
                import schedule

                if job.cancel_after is not None and wr.clock.now() > job.cancel_after:
                    s.cancel_job(job)
                    return
                ret = job.job_func()
                if inspect.isawaitable(ret):
                    ret = await ret
                job.last_run = wr.clock.now()
                job._schedule_next_run()
                if job.cancel_after is not None and job.next_run > job.cancel_after:
                    ret = schedule.CancelJob
                if ret is schedule.CancelJob or isinstance(ret, schedule.CancelJob):
                    s.cancel_job(job)

            async def ref_loop(s):
                try:
                    while True:
                        due = sorted(j for j in s.jobs if j.should_run)
                        await asyncio.gather(*[run_job(s, j) for j in due])
                        await asyncio.sleep(case["sleep"])
                except asyncio.CancelledError:
                    pass

            async def main():
                random.seed(case["seed"])
                s = setup_ref(wr, case)
                task = asyncio.ensure_future(ref_loop(s))
                await asyncio.sleep(case["stop_at"])
                rres["running_before"] = not task.done()
                if not task.done():
                    task.cancel()
                await asyncio.sleep(case["sleep"] + 0.001)
                await asyncio.sleep(300)
                exc = None if not task.done() or task.cancelled() else task.exception()
                rres["exc"] = type(exc).__name__ if exc is not None else None
                for t in asyncio.all_tasks():
                    if t is not asyncio.current_task():
                        t.cancel()

            loop.set_exception_handler(lambda l, c: None)
            loop.run_until_complete(main())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    compare(ctx, wv, wr, (res["running_before"], res["exc"]), (rres["running_before"], rres["exc"]), "async")


# ------------------------------------------------------------------ DataUpdater
def gen_upd(rng):
    return dict(interval=rng.randint(1, 5), unit=rng.pick("seconds", "minutes", None), bg=rng.chance(0.5), n=rng.randint(1, 8),
                end=rng.pick("cancel", "cancel", "error", "interrupt"), slow=rng.pick(0.0, 0.0, 0.5, 3.0), sleep=rng.pick(1, 2),
                stop_after=rng.randint(1, 30), fail_silent=rng.chance(0.3))


def run_upd(case, ctx):
    import numpy as np
    import pandas as pd
    import vectorbt as vbt

    clock = SimClock(ctx, T0)
    runs = []

    class Feed(vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, **kw):
            return pd.Series([1.0, 2.0], index=pd.DatetimeIndex([T0 * 1e9, (T0 + 1) * 1e9], tz="UTC"))

        def update_symbol(self, symbol, **kw):
            k = len(runs)
            return pd.Series([3.0 + k], index=pd.DatetimeIndex([int((T0 + 2 + k) * 1e9)], tz="UTC"))

    class Upd(vbt.DataUpdater):
        def update(self, limit=None):
            k = len(runs)
            runs.append((round(clock.mono, 3), limit))
            clock.advance(case["slow"])
            if k == case["n"] and case["end"] == "error":
                ctx.fault("update-error")
                raise Injected("update")
            super().update()
            if k == case["n"]:
                if case["end"] == "cancel":
                    ctx.fault("update-cancelled")
                    raise vbt.CancelledError
                if case["end"] == "interrupt":
                    ctx.fault("update-interrupt")
                    raise KeyboardInterrupt

    step = case["interval"] * (60 if case["unit"] == "minutes" else 1)
    args = [case["interval"]] + ([case["unit"]] if case["unit"] else [])
    with patched_clock(clock):
        data = Feed.download("A")
        u = Upd(data)
        if not case["bg"]:
            limit = [0]

            def on_sleep(secs):
                limit[0] += 1
                if limit[0] > 5000:
                    raise Violation("no-progress", "updater never ended")

            clock.on_sleep = on_sleep
            try:
                u.update_every(*args, limit=7, start_kwargs=dict(sleep=case["sleep"]))
                out = "returned"
            except Injected:
                out = "error"
            exp = "error" if case["end"] == "error" else "returned"
            ctx.check(out == exp, "updater-outcome", f"{out}, expected {exp}")
            ctx.check(len(runs) == case["n"] + 1, "updater-runs", f"{len(runs)} updates, expected {case['n'] + 1}")
        else:
            loop = SimLoop(clock)
            asyncio.set_event_loop(loop)
            res = {}
            try:
                async def main():
                    u.update_every(*args, limit=7, in_background=True, start_kwargs=dict(sleep=case["sleep"]))
                    t = u.schedule_manager.async_task
                    await asyncio.sleep(case["stop_after"])
                    if case["end"] != "interrupt":
                        u.schedule_manager.stop()
                    await asyncio.sleep(case["sleep"] + 0.01)
                    res["done"] = t.done()
                    n = len(runs)
                    if case["end"] == "interrupt":
                        t.cancel()
                    else:
                        await asyncio.sleep(1000)
                        res["late"] = len(runs) - n

                loop.set_exception_handler(lambda l, c: None)
                try:
                    loop.run_until_complete(main())
                except KeyboardInterrupt:
                    res["late"], res["done"] = 0, True
                    for t in asyncio.all_tasks(loop):
                        t.cancel()
                    try:
                        loop.run_until_complete(asyncio.sleep(0))
                    except BaseException:
                        pass
                if case["end"] != "interrupt":
                    ctx.check(res["done"] and not res["late"], "updater-stop", f"background updater after stop: {res}")
            finally:
                asyncio.set_event_loop(None)
                loop.close()
            ctx.check(len(runs) <= case["n"] + 1, "updater-runs", f"{len(runs)} updates, at most {case['n'] + 1}")
        for a, b in zip(runs, runs[1:]):
            gap = b[0] - a[0]
            ctx.check(gap >= step - 1e-6, "updater-early", f"updates {gap} s apart, every {step} s requested")
            ctx.check(gap <= step + case["slow"] + case["sleep"] + 1e-3, "updater-late", f"updates {gap} s apart, every {step} s requested")
        ctx.check(all(r[1] == 7 for r in runs), "updater-kwargs", "keyword arguments not passed to update")
        done = len(runs) - (1 if case["end"] == "error" and len(runs) == case["n"] + 1 else 0)
        ctx.check(len(u.data.data["A"]) == 2 + done, "updater-data", f"{len(u.data.data['A'])} rows after {done} updates")
        ctx.check(u.config["data"] is u.data, "updater-config", "config does not hold the latest data")
        ctx.ev("upd", runs)
        if len(runs) > 1:
            ctx.probe("several-updates")


REAL = ['vectorbt.utils.schedule_ ScheduleManager/AsyncScheduler', 'vectorbt.data.updater', 'schedule (third-party)']
STUB = ['clock, sleep, asyncio loop']

SCENARIOS = [
    Scenario("sync", gen_sync, run_sync, quick=3000, thorough=100000),
    Scenario("async", gen_async, run_async, quick=3000, thorough=100000),
    Scenario("updater", gen_upd, run_upd, quick=600, thorough=20000),
]


def warm(mode):
    import schedule  # noqa
    import dateparser  # noqa
    import vectorbt  # noqa
