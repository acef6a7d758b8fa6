"""C15: bot lifecycle.  Real TelegramBot + python-telegram-bot over a simulated Telegram; control threads, the polling
thread, executor threads and the event loop all run under the controlled scheduler (one at a time, seeded schedule,
preemption at every line of telegram.py)."""
import os
import re

from .. import core, tgsim
from ..core import Scenario
from ..threads import Sched, gen_schedule, controlled, Killed

BOUND = 90.0  # simulated seconds within which stopping must have finished


def warm(mode):
    import vectorbt  # noqa
    import vectorbt.messaging.telegram  # noqa
    import telegram.ext  # noqa

    tgsim.quiet()


START_FAULTS = ("timeout", "reset", "500", "429", "400", "garbage", "401")
POLL_FAULTS = ("timeout", "reset", "500", "429", "400", "garbage", "409", "401")


def gen(rng):
    nth = rng.weighted([(1, 2), (2, 5), (3, 3)])
    threads = []
    storm = rng.chance(0.15)  # one thread keeps sending while another starts and stops
    if storm:
        threads = [[["start_bg"], ["sleep", rng.pick(0.0, 0.05, 0.3)], ["stop"]], [["send"]] * rng.randint(2, 8)]
        nth = rng.pick(0, 0, 1)
    for k in range(nth):
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = rng.weighted([("start_bg", 4), ("stop", 5), ("sleep", 3), ("cmd", 2), ("send", 1.5), ("start_fg", 2), ("int", 0.7)])
            if op == "sleep":
                ops.append([op, rng.pick(0.0, 0.01, 0.04, 0.07, 0.2, 1.0, 12.0)])
            elif op == "cmd":
                ops.append([op, rng.randint(1, 3)])
            else:
                ops.append([op])
        threads.append(ops)
    faults = {}
    if rng.chance(0.35):
        m = rng.pick("getMe", "deleteWebhook")
        faults[m] = [rng.pick(None, *START_FAULTS) for _ in range(rng.randint(1, 2))]
    if rng.chance(0.4):
        faults["getUpdates"] = [rng.pick(None, None, *POLL_FAULTS) for _ in range(rng.randint(1, 5))]
    n = rng.pick(0, 3, 8, 20, 60)
    gap = rng.pick(2, 8, 30, 60)
    return dict(threads=threads, faults=faults, lat=[rng.pick(0.0, 0.01, 0.05, 0.05, 2.0) for _ in range(rng.randint(1, 4))],
                sched=gen_schedule(rng, n, gap), cbfail=rng.pick(True, 0.0, 0.1, 1.0) if rng.chance(0.1) else False, thread_fail=rng.chance(0.06),
                loop_fail=rng.chance(0.05), retries=rng.pick(0, 0, 1, -1) if rng.chance(0.3) else 0,
                chats=rng.pick([], [7], [7, 8]), send_faults=[rng.pick("timeout", "500", "400")] if rng.chance(0.1) else [],
                hooks=dict(asy=rng.chance(0.5), fail=rng.pick("post_init", "post_stop", "post_shutdown") if rng.chance(0.25) else None) if rng.chance(0.4) else None,
                trace=rng.chance(0.8))


class Flag(Exception):
    pass


def run(case, ctx):
    import vectorbt.messaging.telegram as tgm

    s = Sched(ctx, case["sched"], trace=(tgm.__file__,) if case["trace"] else (), bound=60000)
    srv = tgsim.Server(s, ctx, case["lat"])
    path = tgsim.scratch_path("c15")
    srv.method_faults = {k: list(v) for k, v in case["faults"].items()}
    srv.send_faults = list(case["send_faults"])
    nstarts = sum(1 for t in case["threads"] for op in t if op[0].startswith("start"))
    if nstarts > 1:
        # python-telegram-bot's own updater cannot be restarted once its polling task ended with an invalid token
        srv.method_faults["getUpdates"] = [f for f in srv.method_faults.get("getUpdates", []) if f != "401"]
    if -1 == case["retries"]:
        # retrying forever: make sure the faults are finite and transient
        for k in srv.method_faults:
            srv.method_faults[k] = [f for f in srv.method_faults[k] if f != "401"]
    polling = [0]
    st = dict(inpoll=0, seq=0)
    hist = []  # op records
    problems = []

    def problem(cls, msg):
        if not problems:
            problems.append((cls, msg))

    orig = srv._handle

    async def handle(method, p):
        if method == "getUpdates":
            st["inpoll"] += 1
            if st["inpoll"] > 1:
                problem("two-pollers", "two getUpdates requests in flight at once")
            try:
                return await orig(method, p)
            finally:
                st["inpoll"] -= 1
        return await orig(method, p)

    srv._handle = handle
    fail_thread = [case["thread_fail"]]

    def thread_failure(th):
        if fail_thread[0]:
            fail_thread[0] = False
            ctx.fault("thread-start-fails")
            return True
        return False

    try:
        with controlled(s):
            s.thread_failure = thread_failure
            s.policy.fail_next = bool(case.get("loop_fail"))
            tgsim.write_state(path, case["chats"])
            bot = tgsim.make_bot(srv, path)
            orig_cb = bot.started_callback
            cb_failed = []  # [(starts in progress when the started callback failed, error)]

            def cb():
                try:
                    orig_cb()
                    if case["cbfail"]:
                        wait, case["cbfail"] = case["cbfail"], False
                        s.sleep(wait if wait is not True else 0)
                        ctx.fault("started-callback-raises")
                        raise Flag("callback failed")
                except Exception as e:
                    cb_failed.append(([r for r in hist if r["op"].startswith("start") and r["e"] is None], e))
                    raise

            bot.started_callback = cb
            hooks = case.get("hooks")
            hlog = []
            hfail = [hooks["fail"] if hooks else None]

            def make_hook(name):
                def hook(app):
                    hlog.append(name)
                    ctx.ev("hook", name, bool(app.running))
                    if app is not bot.application or app.running:
                        problem("hook-while-running", f"{name} was called while the application was running")
                    if hfail[0] == name:
                        hfail[0] = None
                        ctx.fault("application-hook-raises")
                        raise Flag(name)

                async def ahook(app):
                    hook(app)

                return ahook if hooks["asy"] else hook

            if hooks:
                for name in ("post_init", "post_stop", "post_shutdown"):
                    setattr(bot.application, name, make_hook(name))
                first_cb = bot.started_callback

                def cb_logged():
                    hlog.append("started")
                    first_cb()

                bot.started_callback = cb_logged
            kw = dict(drop_pending_updates=False, bootstrap_retries=case["retries"])
            nctl = len(case["threads"])
            cur_op = [None] * nctl

            def bg_alive():
                return [t.name for t in s.threads if t.name.startswith("bg") and not t.done]

            def do(rec, op):
                if op == "start_bg":
                    bot.start(in_background=True, **kw)
                elif op == "start_fg":
                    bot.start(**kw)
                elif op == "stop":
                    bot.stop()
                elif op == "send":
                    bot.send_message_to_all("note")

            def call(k, op):
                rec = dict(k=k, op=op, b=st["seq"], e=None, exc=None, t0=s.mono, calls0=dict(srv.calls), hits0=len(srv.hit), ki=False,
                           nstart0=sum(1 for r in hist if r["op"].startswith("start")))
                st["seq"] += 1
                hist.append(rec)
                if k is not None:
                    cur_op[k] = rec
                ctx.ev("op", k, op)
                try:
                    do(rec, op)
                except (Killed,):
                    raise
                except BaseException as e:
                    rec["exc"] = e
                rec["e"] = st["seq"]
                st["seq"] += 1
                rec["t1"] = s.mono
                rec["running"] = bot.running
                rec["alive"] = bg_alive()
                rec["hits1"] = len(srv.hit)
                if k is not None:
                    cur_op[k] = None
                ctx.ev("ret", k, op, type(rec["exc"]).__name__ if rec["exc"] is not None else "ok", bot.running)
                judge(rec)
                return rec

            def overlapping(rec, pred):
                return [r for r in hist if r is not rec and pred(r) and (r["e"] is None or r["e"] > rec["b"]) and r["b"] < rec["e"]]

            def judge(rec):
                ctx.state(rec["op"], type(rec["exc"]).__name__, rec["running"], len(rec["alive"]))
                if rec["op"] == "stop" and rec["exc"] is not None:
                    problem("stop-raises", repr(rec["exc"]))
                if rec["op"] in ("start_bg", "start_fg"):
                    others = overlapping(rec, lambda r: r["op"] in ("start_bg", "start_fg", "stop"))
                    live_before = [r for r in hist if r is not rec and r["op"].startswith("start") and r["b"] < rec["b"]]
                    if rec["exc"] is not None:
                        ctx.probe("start-raised")
                        hits = srv.hit[rec["hits0"]:rec["hits1"]]
                        if not hits and not ctx.faults and not rec["ki"]:
                            problem("start-raises-without-fault", repr(rec["exc"]))
                        if not others:
                            if rec["running"]:
                                problem("failed-start-left-running", f"start raised {rec['exc']!r} and the bot reports running")
                            if rec["op"] == "start_bg" and rec["alive"]:
                                problem("failed-start-left-thread", f"start raised {rec['exc']!r} while {rec['alive']} was still alive")
                    elif rec["op"] == "start_bg" and not others:
                        fatal = [h for h in srv.hit[rec["hits0"]:] if h[0] in ("401",)]
                        if not rec["running"] and not fatal and not ctx.faults.get("signal"):
                            problem("started-but-not-running", "start(in_background=True) returned and the bot is not running")
                        if case["retries"] == 0:
                            bad = [h for h in srv.hit[rec["hits0"]:rec["hits1"]] if h[1] in ("getMe", "deleteWebhook")
                                   or (h[1].startswith("send") and rec["op"] == "start_bg" and False)]
                            if bad:
                                problem("start-failure-swallowed", f"start returned normally although {bad}")

            def ctl(k):
                for op in case["threads"][k]:
                    if op[0] == "sleep":
                        s.sleep(op[1])
                    elif op[0] == "cmd":
                        srv.command(op[1], "/start")
                    elif op[0] == "int":
                        # a signal reaches thread 0 while it runs the foreground loop (or right after)
                        t = ctls[0]
                        r = cur_op[0]
                        if k != 0 and r is not None and r["op"] == "start_fg" and not t.done and t.pred is not None and in_select(t):
                            r["ki"] = True
                            ctx.fault("signal")
                            t.pending = KeyboardInterrupt()
                    else:
                        call(k, op[0])

            def in_select(t):
                import sys

                f = sys._current_frames().get(t.real.ident)
                n = 0
                while f is not None and n < 12:
                    if f.f_code.co_name == "select" and f.f_code.co_filename.endswith("threads.py"):
                        return True
                    f = f.f_back
                    n += 1
                return False

            ctls = [s.spawn((lambda k: lambda: ctl(k))(k), f"c{k}") for k in range(nctl)]

            def wait(pred, dt):
                end = s.mono + dt
                while not pred() and s.mono < end:
                    s.sleep(0.5)
                return pred()

            def janitor():
                # 1. everything except foreground starts finishes by itself
                def settled():
                    for k, t in enumerate(ctls):
                        if not t.done:
                            r = cur_op[k]
                            if r is None or not (r["op"] == "start_fg" and s.mono - r["t0"] > 60):
                                return False
                    return True

                if not wait(settled, 600):
                    stuck = [f"c{k}:{cur_op[k]['op'] if cur_op[k] else '-'}" for k, t in enumerate(ctls) if not t.done]
                    kinds = sorted({x.split(":")[1] for x in stuck if "start_fg" not in x})
                    problem((kinds[0] if kinds else "op") + "-hangs", f"operations never return: {stuck}")
                    return
                s.sleep(30)
                if problems:
                    return
                # observably running and never stopped since?
                for r in hist:
                    if r["op"] != "stop" or r["e"] is None:
                        continue
                    if bot.running and all(q["e"] is not None and q["e"] < r["b"] for q in hist if q["op"].startswith("start")):
                        problem("stop-lost", "running although stop() was called after every start had returned")
                    for q in hist:
                        if q["op"] == "start_fg" and q["e"] is None and q["b"] < r["b"] and \
                                r["calls0"].get("getMe", 0) > q["calls0"].get("getMe", 0) and \
                                not any(o is not q and o["op"].startswith("start") and o["b"] < r["b"] and
                                        (o["e"] is None or o["e"] > q["b"]) for o in hist):
                            problem("stop-lost", "a foreground start that had already contacted the server survived a later stop()")
                if problems:
                    return
                # 2. stop everything
                t0 = s.mono
                rec = call(None, "stop")
                if problems:
                    return
                ok = wait(lambda: all(t.done for t in ctls) and not bg_alive() and not bot.running, BOUND)
                if not ok:
                    # several foreground/background starts may legitimately be queued one after another by the threads
                    left = [t.name for t in ctls if not t.done]
                    later = [r for r in hist if r["b"] > rec["b"]]
                    if not later:
                        problem("stop-ineffective", f"{BOUND}s after stop: threads {left} {bg_alive()} running={bot.running}")
                        return
                    for _ in range(8):
                        call(None, "stop")
                        if wait(lambda: all(t.done for t in ctls) and not bg_alive() and not bot.running, BOUND):
                            break
                    else:
                        problem("stop-ineffective", f"threads {[t.name for t in ctls if not t.done]} {bg_alive()} running={bot.running}")
                        return
                p0 = srv.polls
                s.sleep(40)
                if srv.polls != p0:
                    problem("polling-after-stop", f"{srv.polls - p0} polls after stop")
                    return
                if problems:
                    return
                # 3. it can be started again, works, and stops
                if any(h[0] == "401" and h[1] == "getUpdates" for h in srv.hit):
                    ctx.probe("polling-died")
                    return
                srv.method_faults = {}
                srv.send_faults = []
                case["cbfail"] = False
                fail_thread[0] = False
                s.policy.fail_next = False
                hfail[0] = None
                rec = call(None, "start_bg")
                if problems:
                    return
                if rec["exc"] is not None:
                    problem("restart-fails", repr(rec["exc"]))
                    return
                if not bot.running:
                    problem("restart-not-running", "")
                    return
                ctx.probe("restart")
                srv.command(99, "/start")
                if not wait(lambda: (99, "message", "Hello!") in srv.deliveries, 60):
                    problem("restart-does-not-poll", f"a command sent after the restart is not answered; polls {srv.polls}")
                    return
                if 99 not in bot.chat_ids:
                    problem("restart-loses-subscription", str(bot.chat_ids))
                    return
                rec = call(None, "stop")
                if not wait(lambda: not bg_alive() and not bot.running, BOUND):
                    problem("stop-ineffective", f"after restart: {bg_alive()} running={bot.running}")

            j = s.spawn(janitor, "janitor")

            # the property must also hold when the janitor itself hangs in stop()
            def hook():
                if problems:
                    j.exc = j.exc
            s.run()
            for i, t in enumerate([*ctls, j]):
                if t.exc is not None and not isinstance(t.exc, Killed):
                    raise t.exc
            ctx.ev("final", s.steps > 0, srv.calls.get("getMe"), len(hist))
            if problems:
                ctx.fail(*problems[0])
            if s.failure is not None:
                pend = [f"{r['k']}:{r['op']}" for r in hist if r["e"] is None]
                kinds = sorted({r["op"] for r in hist if r["e"] is None})
                cls = getattr(s.failure, "cls", type(s.failure).__name__)
                if cls == "deadlock":
                    alive = [t.name for t in s.threads if not t.done]
                    ctx.fail("deadlock-in-" + "-".join(kinds or ["none"]), f"pending {pend}; blocked {alive}")
                ctx.fail(cls, f"{s.failure}; pending {pend}")
            ctx.check(j.done, "harness", "janitor did not finish")
            for pend, e in cb_failed:
                ctx.check(pend, "start-returned-early", f"the started callback failed with {e!r} after every start had returned")
                if len(pend) == 1 and not pend[0]["ki"]:
                    ctx.check(pend[0]["exc"] is not None, "start-failure-swallowed", f"{pend[0]['op']} returned normally although {e!r}")
            if hooks and not any(r["ki"] for r in hist):
                # post_init, then (once it was running) post_stop, then post_shutdown, once for each run
                text = " ".join(hlog) + " "
                ctx.check(re.fullmatch("(post_init (started post_stop |post_stop )?post_shutdown )*", text), "hooks-out-of-step", text)
                ctx.probe("hooks-checked")
            # exactly-stopped rule: a stop that began after a start was visible to the server must end that start
            for r in hist:
                if r["op"].startswith("start") and r["exc"] is None and r["op"] == "start_fg":
                    ctx.probe("fg-finished")
            ctx.probe("switches", s.switches)
    finally:
        for p in (path,):
            if os.path.exists(p):
                os.unlink(p)


REAL = ['vectorbt.messaging.telegram', 'python-telegram-bot (third-party)', 'asyncio']
STUB = ['Telegram server and HTTP transport', 'threads, locks, events, clock and event loop']

SCENARIOS = [Scenario("lifecycle", gen, run, quick=3000, thorough=100000, timeout=60)]
