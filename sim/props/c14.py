"""C14: subscriber registry and broadcasts of the bot against a simulated Telegram (migrations, blocks, lost responses,
duplicated / late / reordered notices, restarts, crashes) under the controlled scheduler."""
import os
import shutil

from .. import tgsim
from ..core import Scenario
from ..threads import Sched, controlled, Killed, gen_schedule


def warm(mode):
    import vectorbt  # noqa
    import vectorbt.messaging.telegram  # noqa
    import telegram.ext  # noqa

    tgsim.quiet()


NF = ("timeout", "reset", "lost-response", "500", "429", "400", "garbage")


def gen(rng):
    nchat = rng.randint(1, 5)
    chats = []
    for i in range(nchat):
        chats.append((i + 1) if rng.chance(0.3) else -(i + 1))
    init = [c for c in chats if rng.chance(0.5)]
    ops = []
    mig = set()
    for _ in range(rng.randint(2, 14)):
        c = rng.pick(*chats)
        op = rng.weighted([("start", 4), ("bcast", 5), ("bcast_cmd", 1.5), ("migrate", 3 if c < 0 and c not in mig else 0), ("block", 1.5),
                           ("unblock", 1), ("sleep", 2), ("settle", 3), ("restart", 0.7), ("crash", 0.7), ("fault", 1.2), ("pollfault", 1),
                           ("help", 1), ("junk", 0.7), ("dup", 1), ("stopped_bcast", 0.4), ("direct", 1.0)])
        if op == "migrate":
            mig.add(c)
            notices = []
            for k in ("old", "new"):
                if rng.chance(0.8):
                    notices.append([k, rng.pick(0.0, 0.0, 0.05, 0.3, 3.0)])
            if rng.chance(0.2) and notices:
                notices.append(list(rng.choice(notices)))
            rng.shuffle(notices)
            ops.append([op, c, notices])
        elif op in ("start", "help", "junk", "block", "unblock", "bcast_cmd", "direct"):
            ops.append([op, c, rng.pick(0.0, 0.0, 0.1, 2.0)])
        elif op == "bcast":
            ops.append([op, rng.pick("message", "message", "message", "giphy"), rng.chance(0.3)])
        elif op == "fault":
            ops.append([op, [rng.pick(None, *NF) for _ in range(rng.randint(1, 3))]])
        elif op == "pollfault":
            ops.append([op, [rng.pick("timeout", "reset", "500", "429", "409") for _ in range(rng.randint(1, 2))]])
        elif op == "sleep":
            ops.append([op, rng.pick(0.0, 0.02, 0.06, 0.5, 70.0)])
        else:
            ops.append([op])
    n = rng.pick(0, 3, 8, 20, 60)
    return dict(chats=chats, init=init, ops=ops, sched=gen_schedule(rng, n, rng.pick(2, 8, 30, 60)), trace=rng.chance(0.8),
                lat=[rng.pick(0.0, 0.01, 0.05, 0.05, 1.0) for _ in range(rng.randint(1, 4))])


def run(case, ctx):
    import vectorbt.messaging.telegram as tgm

    s = Sched(ctx, case["sched"], trace=(tgm.__file__,) if case["trace"] else (), bound=80000)
    srv = tgsim.Server(s, ctx, case["lat"])
    path = tgsim.scratch_path("c14")
    tgsim.write_state(path, case["init"])
    sure = set(case["init"])  # canonical chat = its original identifier
    maybe = set()
    origin = {}  # any identifier -> original identifier
    for c in case["chats"]:
        origin[c] = c
    noticed = set()  # migrated chats for which a notice has certainly been processed or a send attempted since
    mids = {}
    problems = []
    nb = [0]
    bc_started = {}
    st = dict(bot=None)

    def problem(cls, msg):
        if not problems:
            problems.append((cls, msg))

    def canon_list(ids):
        return [origin.get(i) for i in ids]

    kw = dict(drop_pending_updates=False, bootstrap_retries=3)
    gif = lambda text, **k: f"http://gif/{text}"

    old_gif = tgm.text_to_giphy_url
    tgm.text_to_giphy_url = gif
    try:
        with controlled(s):
            active = [0]

            def all_cb(self, update, context):
                text = update.message.text.split()[1]
                broadcast(self, "message", text, quiet=True)

            def direct_cb(self, update, context):
                pass

            def new_bot():
                st["bot"] = tgsim.make_bot(srv, path, extra={"all": all_cb})
                return st["bot"]

            def must_now():
                return set(sure), set(maybe)

            def broadcast(bot, kind, text, quiet=False):
                """One broadcast and the judgement of what reached whom."""
                s0, m0 = must_now()
                cur0 = dict(srv.migrated)
                block0 = set(origin[b] for b in srv.blocked)
                n0 = len(srv.deliveries)
                exc = None
                ctx.ev("bcast", kind, text, sorted(s0))
                active[0] += 1
                try:
                    if kind == "giphy":
                        bot.send_giphy_to_all(text)
                    else:
                        bot.send_message_to_all(text)
                except Killed:
                    raise
                except Exception as e:
                    exc = e
                finally:
                    active[0] -= 1
                shown = gif(text) if kind == "giphy" else text
                got = {}
                for cid, k, tx in srv.deliveries[n0:]:
                    if tx == shown:
                        got[origin[cid]] = got.get(origin[cid], 0) + 1
                hits = [h for h in srv.hit if h[2] == shown]
                block1 = set(origin[b] for b in srv.blocked)
                ctx.ev("bcast-done", text, type(exc).__name__ if exc is not None else "ok", sorted(got.items()))
                ctx.state("b", len(s0), len(got), type(exc).__name__, len(srv.migrated), len(block0))
                for c, n in sorted(got.items()):
                    if n > 1:
                        problem("delivered-twice", f"broadcast {text} reached chat {c} {n} times")
                    if c not in s0 | m0 | sure | maybe:
                        problem("delivered-to-unsubscribed", f"broadcast {text} reached chat {c}, which never subscribed")
                if exc is None:
                    bad = [h for h in hits]
                    if bad:
                        problem("send-error-swallowed", f"broadcast {text} returned normally although the server failed {bad}")
                    for c in sorted(s0):
                        if c in block0 or c in block1:
                            continue
                        if got.get(c, 0) != 1:
                            problem("not-delivered", f"broadcast {text} did not reach subscribed chat {c} ({got.get(c, 0)} deliveries)")
                else:
                    from telegram.error import TelegramError

                    if not hits:
                        problem("broadcast-raises-without-fault", repr(exc))
                    elif not isinstance(exc, TelegramError):
                        problem("broadcast-wrong-error", repr(exc))
                    ctx.probe("bcast-raised")
                # ids tried: a send to the old identifier tells the bot about the migration
                for cid, c0, tx, out in srv.attempts:
                    if tx == shown and out == "migrated" and not hits:
                        noticed.add(origin[cid])
                return exc

            def settle(dt=200):
                end = s.mono + dt
                quiet_since = None
                while s.mono < end:
                    busy = bool(srv.pending()) or any(t.name.startswith("exec") and not t.done for t in s.threads) or active[0]
                    if busy:
                        quiet_since = None
                    elif quiet_since is None:
                        quiet_since = s.mono
                    elif s.mono - quiet_since > 12:
                        return True
                    s.sleep(0.5)
                problem("updates-never-processed", f"pending {srv.pending()[:3]}")
                return False

            def check_list(where):
                ids = list(st["bot"].chat_ids)
                ctx.ev("ids", ids)
                if len(set(ids)) != len(ids):
                    problem("duplicate-chat-id", f"{where}: {ids}")
                    return
                cn = canon_list(ids)
                twice = [i for i in ids if i in srv.migrated and srv.cur(i) in ids and origin[i] in noticed]
                if twice:
                    problem("chat-listed-twice", f"{where}: old and new identifier both listed: {ids}")
                    return
                miss = sorted(sure - set(cn))
                extra = sorted(set(cn) - sure - maybe, key=str)
                if miss:
                    problem("subscriber-lost", f"{where}: {miss} missing from {ids}")
                elif extra:
                    problem("unsubscribed-chat-listed", f"{where}: {extra} in {ids} never subscribed")
                else:
                    for i in ids:
                        if i in srv.migrated and origin[i] in noticed:
                            problem("stale-identifier", f"{where}: {i} is still listed although the bot was told it is {srv.migrated[i]}")

            def on_settled(where):
                """All updates handled: what may have been subscribed now certainly is (or certainly is not)."""
                sure.update(maybe)
                maybe.clear()
                for c in pending_notice:
                    noticed.add(c)
                pending_notice.clear()
                check_list(where)

            pending_notice = set()

            def do(op):
                bot = st["bot"]
                k = op[0]
                if k == "start":
                    c = origin[op[1]]
                    maybe.add(c)
                    srv.command(srv.cur(op[1]), "/start", op[2])
                elif k == "dup":
                    # the server delivers an already seen command again (two identical messages)
                    for c in case["chats"][:1]:
                        maybe.add(origin[c])
                        srv.command(srv.cur(c), "/start")
                        srv.command(srv.cur(c), "/start")
                        ctx.fault("duplicate-start")
                elif k == "help":
                    srv.command(srv.cur(op[1]), "/help", op[2])
                elif k == "junk":
                    srv.command(srv.cur(op[1]), "/nonsense", op[2])
                elif k == "migrate":
                    old = op[1]
                    if old in srv.migrated or old > 0:
                        return
                    new = -1000 + old
                    origin[new] = old
                    srv.migrate(old, new)
                    if old in srv.blocked:
                        srv.blocked.discard(old)
                        srv.blocked.add(new)
                    ctx.fault("migration")
                    kinds = [n[0] for n in op[2]]
                    if len(kinds) != len(set(kinds)):
                        ctx.fault("duplicate-notice")
                    if kinds[:1] == ["new"] and len(kinds) > 1:
                        ctx.fault("reordered-notice")
                    for which, delay in op[2]:
                        (srv.notice_old if which == "old" else srv.notice_new)(old, delay)
                        pending_notice.add(old)
                elif k == "block":
                    srv.blocked.add(srv.cur(op[1]))
                    ctx.fault("blocked")
                elif k == "unblock":
                    srv.blocked.discard(srv.cur(op[1]))
                elif k == "fault":
                    srv.send_faults.extend(op[1])
                elif k == "pollfault":
                    srv.method_faults.setdefault("getUpdates", []).extend(op[1])
                elif k == "sleep":
                    s.sleep(op[1])
                elif k == "settle":
                    if settle():
                        on_settled("settled")
                elif k == "direct":
                    # a message to one chat, subscribed or not, by a possibly outdated identifier
                    nb[0] += 1
                    try:
                        bot.send_message(op[1], f"d{nb[0]}")
                        got = [d for d in srv.deliveries if d[2] == f"d{nb[0]}"]
                        c = srv.cur(op[1])
                        if c not in srv.blocked and [g[0] for g in got] != [c]:
                            problem("direct-message", f"message to {op[1]} (now {c}) delivered to {got}")
                    except Killed:
                        raise
                    except Exception as e:
                        if not [h for h in srv.hit if h[2] == f"d{nb[0]}"]:
                            problem("direct-raises-without-fault", repr(e))
                elif k == "bcast":
                    nb[0] += 1
                    text = f"b{nb[0]}"
                    if op[2]:
                        s.spawn((lambda b, kd, tx: lambda: broadcast(b, kd, tx))(bot, op[1], text), f"user{nb[0]}")
                        users.append(s.threads[-1])
                        s.point("spawned")
                    else:
                        broadcast(bot, op[1], text)
                elif k == "bcast_cmd":
                    nb[0] += 1
                    srv.command(srv.cur(op[1]), f"/all b{nb[0]}", op[2])
                elif k in ("restart", "crash", "stopped_bcast"):
                    for t in users:
                        s.block(lambda: t.done, 300)
                    if k != "crash":
                        srv.send_faults.clear()
                        try:
                            bot.stop()
                        except Killed:
                            raise
                        if bot.running:
                            problem("still-running", "after stop")
                            return
                        ids = list(bot.chat_ids)
                        disk = tgsim.read_state(path)
                        if sorted(ids) != sorted(disk):
                            problem("not-persisted", f"subscriber list {ids} but the persisted state holds {disk} after a clean stop")
                            return
                        ctx.fault("restart")
                    else:
                        # only durable state survives
                        keep = path + ".crash"
                        shutil.copyfile(path, keep)
                        for t in s.threads:
                            if t.name != "driver" and not t.done:
                                t.dead = True
                        for t in list(s.threads):
                            if t.name != "driver":
                                s.block((lambda t: lambda: t.done)(t), 100)
                        os.replace(keep, path)
                        ctx.fault("crash")
                        active[0] = 0
                    s.policy.loops.clear()
                    disk = tgsim.read_state(path)
                    sub = {origin[i] for i in disk}
                    if k == "crash":
                        # what was learnt after the last persisted state is gone; unconfirmed updates come again
                        lost = sure - sub
                        if lost:
                            ctx.probe("crash-lost-unpersisted")
                        maybe.update(sure - sub)
                        maybe.update(c for c in list(maybe))
                        sure.intersection_update(sub)
                        noticed.clear()
                        pending_notice.clear()
                    srv.send_faults.clear()
                    srv.inflight = 0
                    b = new_bot()
                    try:
                        b.start(in_background=True, **kw)
                    except Killed:
                        raise
                    except Exception as e:
                        problem("restart-fails", repr(e))
                        return
                    got = {origin[i] for i in b.chat_ids}
                    if not sub <= got:
                        problem("restart-loses-subscribers", f"persisted {disk}, after the restart {list(b.chat_ids)}")
                        return
                    if settle():
                        if k == "crash":
                            now = {origin[i] for i in b.chat_ids}
                            maybe.intersection_update(now)
                        on_settled("after " + k)

            users = []

            def driver():
                b = new_bot()
                b.start(in_background=True, **kw)
                check_list("after start")
                for op in case["ops"]:
                    if problems:
                        break
                    ctx.ev("op", op)
                    do(op)
                if problems:
                    return
                for t in users:
                    if not s.block((lambda t: lambda: t.done)(t), 300):
                        problem("broadcast-hangs", "a broadcast did not return within 300 s")
                        return
                srv.send_faults.clear()
                if settle():
                    on_settled("end")
                if problems:
                    return
                # after faults have stopped, one more broadcast reaches everyone
                nb[0] += 1
                broadcast(st["bot"], "message", f"b{nb[0]}")
                for c in srv.migrated:
                    if c not in srv.blocked:
                        noticed.add(c)
                check_list("after the last broadcast")
                st["bot"].stop()
                if sorted(st["bot"].chat_ids) != sorted(tgsim.read_state(path)):
                    problem("not-persisted", f"{st['bot'].chat_ids} vs {tgsim.read_state(path)}")

            d = s.spawn(driver, "driver")
            s.run()
            if d.exc is not None and not isinstance(d.exc, Killed):
                raise d.exc
            for t in users:
                if t.exc is not None and not isinstance(t.exc, Killed):
                    raise t.exc
            if problems:
                ctx.fail(*problems[0])
            if s.failure is not None:
                ctx.fail(getattr(s.failure, "cls", type(s.failure).__name__), str(s.failure))
            ctx.check(d.done, "harness", "driver did not finish")
            ctx.probe("deliveries", len(srv.deliveries))
    finally:
        tgm.text_to_giphy_url = old_gif
        for p in (path, path + ".crash"):
            if os.path.exists(p):
                os.unlink(p)


REAL = ['vectorbt.messaging.telegram', 'python-telegram-bot (third-party)']
STUB = ['Telegram server and HTTP transport', 'persistence storage faults']

SCENARIOS = [Scenario("broadcast", gen, run, quick=1500, thorough=60000, timeout=60)]
