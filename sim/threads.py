"""Controlled threads: real OS threads of which exactly one runs at a time, handing over a baton.  Every blocking
primitive (lock, condition, event, join, event-loop select, sleep) and, optionally, every executed line of chosen
source files is a point where the seeded schedule decides who runs next.  Time is virtual: it advances only when every
thread is blocked, to the earliest deadline."""
import asyncio
import concurrent.futures
import contextlib
import os
import sys
import threading as _th
import types

from .core import HarnessError, SimCrash, Violation

_RealThread = _th.Thread
_RealSem = _th.Semaphore
_LOCK = type(_th.Lock())
_RLOCK = type(_th.RLock())


class Killed(SimCrash):
    pass


class Deadlock(Violation):
    pass


class T:
    """One controlled thread."""

    def __init__(self, sched, name):
        self.sched = sched
        self.name = name
        self.sem = _RealSem(0)
        self.real = None
        self.done = False
        self.started = False
        self.pred = None  # runnable when None or pred() is true
        self.deadline = None
        self.exc = None
        self.result = None
        self.pending = None  # exception to raise at the next scheduling point (a delivered signal)
        self.obj = None
        self.on_end = None
        self.dead = False  # crashed: every further scheduling point raises


def gen_schedule(rng, n, max_gap, width=4):
    return [[rng.randint(0, max_gap), rng.randint(1, width)] for _ in range(n)]


class Sched:
    def __init__(self, ctx, decisions, default="stay", clock=None, trace=(), bound=20000, density=None):
        self.ctx = ctx
        self.dec = list(decisions)
        self.pos = 0  # decisions are [skip, value]: keep running for `skip` choices, then take `value`
        self.skipped = 0
        self.threads = []
        self.cur = None
        self.mono = 1000.0
        self.killed = False
        self.trace = tuple(trace)
        self.bound = bound
        self.steps = 0
        self.switches = 0
        self.main_sem = _RealSem(0)
        self.failure = None
        self.clock = clock
        self.real_ids = {}
        self.on_idle = None
        self.hooks = []

    # ---- decisions
    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.dec):
            skip, val = self.dec[self.pos]
            if self.skipped < skip:
                self.skipped += 1
                return 0
            self.pos += 1
            self.skipped = 0
            return val % n
        return 0

    # ---- threads
    def spawn(self, fn, name, obj=None, on_end=None):
        t = T(self, name)
        t.obj = obj
        t.on_end = on_end
        sched = self

        def body():
            t.sem.acquire()
            sched.real_ids[_th.get_ident()] = t
            if sched.trace:
                sys.settrace(sched._tracer)
            try:
                if not sched.killed:
                    sched.ctx.ev("run", t.name)
                    t.result = fn()
            except Killed:
                pass
            except BaseException as e:  # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                t.done = True
                if not sched.killed:
                    sched.ctx.ev("end", t.name, type(t.exc).__name__ if t.exc is not None else "ok")
                    if t.on_end is not None:
                        try:
                            t.on_end(t)
                        except BaseException as e:  # noqa
                            sched.failure = sched.failure or e
                sched._handover(ending=True)

        t.real = _RealThread(target=body, daemon=True)
        t.real.start()
        t.started = True
        self.threads.append(t)
        return t

    def current(self):
        return self.real_ids.get(_th.get_ident())

    def _tracer(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename in self.trace:
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}")
        return self._local

    # ---- scheduling
    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None or t.pending is not None or t.dead:
                out.append(t)
            elif t.pred():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.mono:
                out.append(t)
        return out

    def _pick(self, me):
        """Choose the next thread to run; advance time when nobody can."""
        while True:
            self.steps += 1
            if self.steps > self.bound:
                self.failure = self.failure or Violation("no-progress", f"more than {self.bound} scheduling steps")
                return None
            for h in self.hooks:
                h()
            r = self._runnable()
            if r:
                if me in r:
                    r.remove(me)
                    r.insert(0, me)
                i = self.choose(len(r))
                return r[i]
            dl = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not dl:
                live = [t for t in self.threads if not t.done]
                if not live:
                    return None
                if self.on_idle is not None and self.on_idle():
                    continue
                self.failure = self.failure or Deadlock("deadlock", "blocked forever: " + ", ".join(t.name for t in live))
                return None
            nxt = min(dl)
            if nxt > self.mono:
                self.ctx.tick(nxt - self.mono)
                self.mono = nxt

    def _handover(self, ending=False):
        if self.killed:
            if ending:
                self._kill_next()
            return
        me = self.cur
        nxt = self._pick(None if ending else me)
        if nxt is None:
            self.cur = None
            self.main_sem.release()
            if not ending:
                me.sem.acquire()
                self._resume(me)
            return
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        self.ctx.ev("switch", nxt.name)
        nxt.sem.release()
        if not ending:
            me.sem.acquire()
            self._resume(me)

    def _resume(self, me):
        if self.killed:
            raise Killed()

    def _deliver(self, me):
        if self.killed or me.dead:
            raise Killed()
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e

    def point(self, what=""):
        """A preemption point: the schedule may switch to another runnable thread."""
        me = self.current()
        if me is None:
            return
        if self.killed or me.dead:
            raise Killed()
        if self.cur is not me:
            raise HarnessError("thread runs without the baton")
        # only one runnable thread: do not consume a decision
        self._handover()
        self._deliver(me)

    def block(self, pred, timeout=None):
        """Block the current thread until pred() or timeout; returns whether pred holds."""
        me = self.current()
        if me is None:
            raise HarnessError("blocking operation outside a controlled thread")
        if self.killed or me.dead:
            raise Killed()
        if pred():
            return True
        me.pred = pred
        me.deadline = None if timeout is None else self.mono + max(0.0, timeout)
        try:
            self._handover()
            self._deliver(me)
        finally:
            me.pred = None
            me.deadline = None
        return pred()

    def sleep(self, dt):
        self.block(lambda: False, dt)

    # ---- running
    def run(self):
        """Run until every thread has ended, a failure, or a deadlock.  Called from the worker's own thread."""
        nxt = self._pick(None)
        if nxt is None:
            return
        self.cur = nxt
        nxt.sem.release()
        self.main_sem.acquire()

    def _kill_next(self):
        for t in self.threads:
            if not t.done:
                self.cur = t
                t.sem.release()
                return
        self.main_sem.release()

    def kill(self):
        """Unwind every remaining thread."""
        self.killed = True
        left = [t for t in self.threads if not t.done]
        if left:
            self._kill_next()
            if not self.main_sem.acquire(timeout=20):
                raise HarnessError("could not unwind controlled threads: " + ", ".join(t.name for t in left if not t.done))
        for t in self.threads:
            t.real.join(5)

    # ---- shims
    def make_threading(self):
        sched = self

        class Lock:
            def __init__(self):
                self.owner = None

            def acquire(self, blocking=True, timeout=-1):
                me = sched.current()
                if me is None:
                    if self.owner is not None:
                        raise HarnessError("lock contended outside controlled threads")
                    self.owner = "main"
                    return True
                sched.point("lock")
                if self.owner is None:
                    self.owner = me
                    return True
                if not blocking:
                    return False
                ok = sched.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout)
                if not ok:
                    return False
                self.owner = me
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner = None
                if not sched.killed:
                    sched.point("unlock")

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                me = sched.current()
                if sched.killed or (me is not None and me.dead):
                    self.owner = None
                    return
                self.release()

        class RLock(Lock):
            def __init__(self):
                super().__init__()
                self.count = 0

            def acquire(self, blocking=True, timeout=-1):
                me = sched.current() or "main"
                if self.owner is me or self.owner == me:
                    self.count += 1
                    return True
                ok = super().acquire(blocking, timeout)
                if ok:
                    self.count = 1
                return ok

            def release(self):
                me = sched.current() or "main"
                if self.owner is not me:
                    raise RuntimeError("cannot release un-acquired lock")
                self.count -= 1
                if self.count == 0:
                    super().release()

            def __exit__(self, *a):
                me = sched.current()
                if sched.killed or (me is not None and me.dead):
                    self.owner = None
                    return
                self.release()

            def _is_owned(self):
                return self.owner is (sched.current() or "main")

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock if lock is not None else RLock()
                self.waiters = []
                self.acquire = self.lock.acquire
                self.release = self.lock.release

            def __enter__(self):
                self.lock.__enter__()
                return self

            def __exit__(self, *a):
                return self.lock.__exit__(*a)

            def wait(self, timeout=None):
                tok = [False]
                self.waiters.append(tok)
                cnt = getattr(self.lock, "count", 1)
                owner = self.lock.owner
                self.lock.owner = None
                if hasattr(self.lock, "count"):
                    self.lock.count = 0
                try:
                    ok = sched.block(lambda: tok[0] and self.lock.owner is None, timeout)
                finally:
                    if tok in self.waiters:
                        self.waiters.remove(tok)
                    if not sched.killed and self.lock.owner is not None:
                        sched.block(lambda: self.lock.owner is None)
                    self.lock.owner = owner
                    if hasattr(self.lock, "count"):
                        self.lock.count = cnt
                return tok[0]

            def wait_for(self, predicate, timeout=None):
                end = None if timeout is None else sched.mono + timeout
                r = predicate()
                while not r:
                    left = None if end is None else end - sched.mono
                    if left is not None and left <= 0:
                        break
                    self.wait(left)
                    r = predicate()
                return r

            def notify(self, n=1):
                for tok in self.waiters[:n]:
                    tok[0] = True
                del self.waiters[:n]

            def notify_all(self):
                self.notify(len(self.waiters))

        class Event:
            def __init__(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def set(self):
                self.flag = True
                sched.point("event") if not sched.killed else None

            def clear(self):
                self.flag = False

            def wait(self, timeout=None):
                return sched.block(lambda: self.flag, timeout)

        class Semaphore:
            def __init__(self, value=1):
                self.value = value

            def acquire(self, blocking=True, timeout=None):
                sched.point("sem")
                if self.value <= 0:
                    if not blocking:
                        return False
                    if not sched.block(lambda: self.value > 0, timeout):
                        return False
                self.value -= 1
                return True

            def release(self, n=1):
                self.value += n

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                self.release()

        class Thread:
            _n = [0]

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                Thread._n[0] += 1
                self.name = name or f"bg{Thread._n[0]}"
                self._target = target
                self._args = args
                self._kwargs = kwargs or {}
                self.daemon = bool(daemon)
                self._t = None

            def run(self):
                if self._target is not None:
                    self._target(*self._args, **self._kwargs)

            def start(self):
                if self._t is not None:
                    raise RuntimeError("threads can only be started once")
                if sched.thread_failure is not None and sched.thread_failure(self):
                    raise RuntimeError("can't start new thread")
                self._t = sched.spawn(self.run, self.name, obj=self)
                sched.point("thread start")

            def is_alive(self):
                return self._t is not None and not self._t.done

            def join(self, timeout=None):
                if self._t is None:
                    raise RuntimeError("cannot join thread before it is started")
                if self._t is sched.current():
                    raise RuntimeError("cannot join current thread")
                sched.block(lambda: self._t.done, timeout)

            @property
            def ident(self):
                return id(self._t)

        class Foreign:
            daemon = False

            def __init__(self, t):
                self._t = t
                self.name = t.name if t is not None else "MainThread"

            def is_alive(self):
                return True

        def current_thread():
            t = sched.current()
            if t is None:
                return Foreign(None)
            if t.obj is None:
                t.obj = Foreign(t)
            return t.obj

        def main_thread():
            return sched.main_obj if sched.main_obj is not None else Foreign(None)

        m = types.ModuleType("threading")
        m.__dict__.update({k: v for k, v in _th.__dict__.items() if not k.startswith("__")})
        m.__dict__.update(Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Thread=Thread, Semaphore=Semaphore,
                          current_thread=current_thread, main_thread=main_thread,
                          get_ident=lambda: id(sched.current()))
        return m

    thread_failure = None
    main_obj = None


class SimThreadLoop(asyncio.SelectorEventLoop):
    """Event loop whose waiting is a blocking operation of the controlled scheduler."""

    def __init__(self, sched):
        self._sched = sched
        self._wake = [False]
        super().__init__()
        self._real_selector = self._selector
        self._selector = self
        self._clock_resolution = 1e-9
        self.n_exec = 0

    # selector interface
    def select(self, timeout=None):
        w = self._wake
        if not w[0] and (timeout is None or timeout > 0):
            self._sched.block(lambda: w[0], timeout)
        else:
            self._sched.point("loop")
        w[0] = False
        return []

    def register(self, *a, **k):
        pass

    unregister = modify = register

    def get_map(self):
        return {}

    def get_key(self, fd):
        raise KeyError(fd)

    def time(self):
        return self._sched.mono

    def _make_self_pipe(self):
        pass

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        self._wake[0] = True

    def close(self):
        if self._selector is not None:
            self._selector = self._real_selector
        asyncio.BaseEventLoop.close(self)
        if self._selector is not None:
            self._selector.close()
            self._selector = None

    def call_soon_threadsafe(self, cb, *args, context=None):
        h = super().call_soon_threadsafe(cb, *args, context=context)
        if self._sched.current() is not None and not self._sched.killed:
            self._sched.point("call_soon_threadsafe")
        return h

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        fut = concurrent.futures.Future()
        self.n_exec += 1
        if not fut.set_running_or_notify_cancel():
            return asyncio.wrap_future(fut, loop=self)

        def body():
            try:
                r = func(*args)
            except Killed:
                raise
            except BaseException as e:  # noqa
                fut.set_exception(e)
            else:
                fut.set_result(r)

        self._sched.spawn(body, f"exec{self.n_exec}")
        return asyncio.wrap_future(fut, loop=self)


class _Policy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, sched):
        super().__init__()
        self.sched = sched
        self.loops = []

    fail_next = False

    def new_event_loop(self):
        if self.fail_next:
            self.fail_next = False
            self.sched.ctx.fault("event-loop-creation-fails")
            raise OSError(24, "Too many open files")
        lp = SimThreadLoop(self.sched)
        self.loops.append(lp)
        return lp


@contextlib.contextmanager
def controlled(sched, extra_modules=()):
    """Install the scheduler's threading shim into vectorbt and concurrent.futures, and its event-loop policy."""
    shim = sched.make_threading()
    sched.shim = shim
    import concurrent.futures._base as cfb

    names = {"Lock": _th.Lock, "RLock": _th.RLock, "Event": _th.Event, "Thread": _th.Thread, "Condition": _th.Condition,
             "current_thread": _th.current_thread, "Semaphore": _th.Semaphore}
    repl = {id(_th): shim}
    for k, v in names.items():
        repl[id(v)] = getattr(shim, k)
    saved = [(cfb.__dict__, "threading", cfb.threading)]
    cfb.threading = shim
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == "vectorbt" or name.startswith("vectorbt.") or name in extra_modules):
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            r = repl.get(id(v))
            if isinstance(v, _LOCK):
                r = shim.Lock()
            elif isinstance(v, _RLOCK):
                r = shim.RLock()
            if r is not None:
                saved.append((d, k, v))
                d[k] = r
    old_policy = asyncio.get_event_loop_policy()
    pol = _Policy(sched)
    asyncio.set_event_loop_policy(pol)
    sched.policy = pol
    try:
        yield shim
    finally:
        try:
            sched.kill()
        finally:
            asyncio.set_event_loop_policy(old_policy)
            for d, k, v in reversed(saved):
                d[k] = v
            for lp in pol.loops:
                try:
                    if not lp.is_closed():
                        lp._ready.clear()
                        lp._scheduled.clear()
                        if lp._selector is lp:
                            lp._selector = lp._real_selector
                        asyncio.BaseEventLoop.close(lp)
                        lp._real_selector.close()
                except Exception:
                    pass
