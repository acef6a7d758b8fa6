"""A simulated Ray runtime: one process, seeded completion order, worker faults, arguments and results copied through an
object store that hands out read-only arrays."""
import copy
import sys
import types

import numpy as np


class RayError(Exception):
    pass


class RayTaskError(RayError):
    pass


class WorkerCrashedError(RayError):
    pass


class ObjectLostError(RayError):
    pass


class ObjectStoreFullError(RayError):
    pass


class TaskUnschedulableError(RayError):
    pass


class GetTimeoutError(RayError):
    pass


def frozen(v):
    """What a worker or the driver receives: a copy whose arrays cannot be written."""
    if isinstance(v, np.ndarray):
        v = v.copy()
        v.flags.writeable = False
        return v
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(frozen(x) for x in v)
    if isinstance(v, list):
        return [frozen(x) for x in v]
    if isinstance(v, dict) and type(v) is dict:
        return {k: frozen(x) for k, x in v.items()}
    try:
        return copy.deepcopy(v)
    except Exception:  # noqa
        return v


class Ref:
    def __init__(self, sess, kind):
        self.sess, self.kind = sess, kind
        self.value = self.error = None
        self.done = False
        self.task = None


class Sim:
    def __init__(self, ctx):
        self.ctx = ctx
        self.up = False
        self.session = 0
        self.log = []
        self.order = []
        self.fault = None
        self.puts = self.tasks = self.executed = 0
        self.fired = False
        self.pending = []

    def call(self, order, fault):
        self.order, self.fault, self.fired = list(order), fault, False
        self.puts = self.tasks = self.executed = 0
        self.log = []

    def hit(self, k):
        self.fired = True
        self.ctx.fault(k)

    # -- API
    def init(self, *a, **kw):
        if self.up and not kw.get("ignore_reinit_error"):
            raise RuntimeError("Maybe you called ray.init twice by accident?")
        if self.fault and self.fault["kind"] == "init":
            self.hit("cluster unreachable")
            raise ConnectionError("Could not find any running Ray instance")
        self.up = True
        self.session += 1
        self.log.append(("init", dict(kw)))

    def shutdown(self, *a, **kw):
        self.log.append(("shutdown",))
        self.up = False
        self.pending = []

    def is_initialized(self):
        return self.up

    def need(self):
        if not self.up:
            self.init()  # Ray starts itself upon first use

    def put(self, v):
        self.need()
        if isinstance(v, Ref):
            raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed")
        if self.fault and self.fault["kind"] == "store" and self.puts == self.fault["at"] % 3:
            self.hit("object store full")
            raise ObjectStoreFullError("the object store is full")
        self.puts += 1
        r = Ref(self.session, "put")
        r.value, r.done = frozen(v), True
        return r

    def remote(self, *a, **kw):
        if len(a) == 1 and not kw and callable(a[0]):
            return Remote(self, a[0], {})
        if a:
            raise TypeError("ray.remote takes a function or keyword arguments")
        return lambda f: Remote(self, f, kw)

    def run_some(self, until):
        """Execute pending tasks in the seeded order until the condition holds."""
        while self.pending and not until():
            i = (self.order.pop(0) if self.order else 0) % len(self.pending)
            self.execute(self.pending.pop(i))

    def execute(self, ref):
        f, args, kwargs, idx = ref.task
        k = self.fault
        ref.done = True
        self.executed += 1
        if k and idx == k.get("at", -1) % max(1, self.tasks):
            if k["kind"] == "crash":
                self.hit("worker crashed")
                ref.error = WorkerCrashedError("The worker died unexpectedly while executing this task.")
                return
            if k["kind"] == "lost":
                self.hit("result lost")
                ref.error = ObjectLostError("the object has been lost")
                return
            if k["kind"] == "unscheduled":
                self.hit("task never scheduled")
                ref.error = TaskUnschedulableError("the task could not be scheduled")
                return
            if k["kind"] == "raise":
                self.hit("task raised")
                ref.error = RayTaskError("task failed: Boom")
                return
            if k["kind"] == "retry":
                self.ctx.fault("task run twice")
                self.fetch_call(f, args, kwargs)
        try:
            ref.value = frozen(self.fetch_call(f, args, kwargs))
        except Exception as e:  # noqa
            ref.error = type("RayTaskError(" + type(e).__name__ + ")", (RayTaskError, type(e)), {"__init__": lambda s, *a: Exception.__init__(s, *a)})(str(e))

    def fetch_call(self, f, args, kwargs):
        g = lambda v: self.value_of(v) if isinstance(v, Ref) else frozen(v)
        return f(*[g(x) for x in args], **{k: g(v) for k, v in kwargs.items()})

    def value_of(self, ref):
        if not ref.done:
            self.run_some(lambda: ref.done)
        if ref.error is not None:
            raise ref.error
        if ref.sess != self.session or not self.up:
            raise ObjectLostError("the session of this object is over")
        return ref.value

    def get(self, refs, timeout=None):
        self.need()
        if isinstance(refs, Ref):
            return self.value_of(refs)
        if not isinstance(refs, list):
            raise ValueError("Invalid type of object refs, 'object_refs' must either be a list or an ObjectRef")
        self.run_some(lambda: all(r.done for r in refs))
        return [self.value_of(r) for r in refs]

    def wait(self, refs, num_returns=1, timeout=None, fetch_local=True):
        self.run_some(lambda: sum(r.done for r in refs) >= num_returns)
        done = [r for r in refs if r.done][:num_returns]
        return done, [r for r in refs if r not in done]


class Remote:
    def __init__(self, sim, f, opts):
        self.sim, self.f, self.opts = sim, f, opts
        sim.log.append(("remote", dict(opts)))

    def options(self, **kw):
        return Remote(self.sim, self.f, {**self.opts, **kw})

    def remote(self, *args, **kwargs):
        s = self.sim
        s.need()
        r = Ref(s.session, "task")
        r.task = (self.f, args, kwargs, s.tasks)
        s.tasks += 1
        s.pending.append(r)
        # workers may finish tasks while the driver still submits
        if s.order and s.order[0] % 3 == 0:
            s.run_some(lambda: r.done or len(s.pending) < 2)
        return r


class installed:
    """Puts the simulated runtime at `import ray`."""

    def __init__(self, sim):
        m = types.ModuleType("ray")
        for n in ("init", "shutdown", "is_initialized", "put", "get", "wait", "remote"):
            setattr(m, n, getattr(sim, n))
        m.ObjectRef = Ref
        ex = types.ModuleType("ray.exceptions")
        for c in (RayError, RayTaskError, WorkerCrashedError, ObjectLostError, ObjectStoreFullError, TaskUnschedulableError, GetTimeoutError):
            setattr(ex, c.__name__, c)
        m.exceptions = ex
        self.mods = {"ray": m, "ray.exceptions": ex}

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False
