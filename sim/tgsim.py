"""A simulated Telegram: Bot API server (chats, migrations, blocks, update queue with confirmation offsets), its HTTP
transport with faults, and helpers to run a real vectorbt TelegramBot on the real python-telegram-bot stack over it."""
import asyncio
import json
import logging
import os
import tempfile
import warnings

from . import core
from .threads import Sched, controlled, Killed

_N = [0]


class Server:
    def __init__(self, sched, ctx, lat):
        self.sched = sched
        self.ctx = ctx
        self.lat = list(lat) or [0.05]
        self.li = 0
        self.next_update = 1
        self.msg_id = 1
        self.updates = []  # (available_at, update dict), unconfirmed
        self.confirmed = set()
        self.deliveries = []  # (chat, kind, text)
        self.attempts = []  # every send attempt (target id, canonical chat, text, outcome)
        self.migrated = {}  # old id -> new id
        self.blocked = set()
        self.gone = set()
        self.send_faults = []  # armed faults for the next sends
        self.method_faults = {}  # method -> list of faults
        self.hit = []  # (fault kind, method, text)
        self.polls = 0
        self.inflight = 0
        self.calls = {}

    # -- chats
    def cur(self, cid):
        while cid in self.migrated:
            cid = self.migrated[cid]
        return cid

    def push(self, payload, delay=0.0):
        # identifiers are assigned when an update becomes available, in that order
        self.updates.append((self.sched.mono + delay, dict(update_id=None, **payload)))

    def _msg(self, cid, **kw):
        self.msg_id += 1
        typ = "supergroup" if cid <= -1000 else ("group" if cid < 0 else "private")
        chat = dict(id=cid, type=typ)
        if cid > 0:
            chat["first_name"] = "u"
        else:
            chat["title"] = "g"
        m = dict(message_id=self.msg_id, date=1600000000, chat=chat, **kw)
        m["from"] = dict(id=abs(cid), is_bot=False, first_name="u")
        return dict(message=m)

    def command(self, cid, text, delay=0.0):
        return self.push(self._msg(cid, text=text, entities=[dict(type="bot_command", offset=0, length=len(text.split()[0]))]), delay)

    def migrate(self, old, new):
        self.release()
        self.migrated[old] = new
        for _, u in self.updates:  # what is not sent yet will be sent to the new chat
            c = u["message"]["chat"]
            if u["update_id"] is None and c["id"] == old:
                c["id"] = new
                c["type"] = "supergroup"

    def notice_old(self, old, delay=0.0):
        return self.push(self._msg(old, migrate_to_chat_id=self.migrated[old]), delay)

    def notice_new(self, old, delay=0.0):
        return self.push(self._msg(self.migrated[old], migrate_from_chat_id=old), delay)

    def pending(self):
        return [u for _, u in self.updates]

    # -- HTTP
    def latency(self):
        v = self.lat[self.li % len(self.lat)]
        self.li += 1
        return v

    def _err(self, code, desc, **params):
        d = dict(ok=False, error_code=code, description=desc)
        if params:
            d["parameters"] = params
        return code, json.dumps(d).encode()

    def _ok(self, result):
        return 200, json.dumps(dict(ok=True, result=result)).encode()

    def _raise_fault(self, f, method, text):
        self.hit.append((f, method, text))
        self.ctx.fault(f"net-{f}")
        self.ctx.ev("fault", f, method, text)
        from telegram.error import NetworkError, TimedOut

        if f == "timeout":
            raise TimedOut()
        if f == "reset":
            raise NetworkError("connection reset")
        if f == "lost-response":
            raise TimedOut()
        if f == "garbage":
            return 200, b"<html>"
        if f == "500":
            return self._err(500, "Internal Server Error")
        if f == "429":
            return self._err(429, "Too Many Requests", retry_after=3)
        if f == "400":
            return self._err(400, "Bad Request: message text is empty")
        if f == "401":
            return self._err(401, "Unauthorized")
        if f == "409":
            return self._err(409, "Conflict: terminated by other getUpdates request")
        raise AssertionError(f)

    def release(self):
        for t, u in sorted(self.updates, key=lambda x: x[0]):
            if t <= self.sched.mono and u["update_id"] is None:
                u["update_id"] = self.next_update
                self.next_update += 1

    async def handle(self, method, p):
        self.inflight += 1
        try:
            return await self._handle(method, p)
        finally:
            self.inflight -= 1

    async def _handle(self, method, p):
        self.calls[method] = self.calls.get(method, 0) + 1
        lat = self.latency()
        await asyncio.sleep(lat)
        if method.startswith("send") and method != "sendChatAction":
            cid = int(p["chat_id"])
            text = p.get("text") or p.get("animation")
            f = self.send_faults.pop(0) if self.send_faults else None
            if f is not None and f != "lost-response":
                return self._raise_fault(f, method, text)
            if cid in self.migrated:
                self.attempts.append((cid, self.cur(cid), text, "migrated"))
                self.ctx.ev("send", cid, text, "migrated")
                if f is not None:
                    return self._raise_fault(f, method, text)
                return self._err(400, "Bad Request: group chat was upgraded to a supergroup chat",
                                 migrate_to_chat_id=self.migrated[cid])
            if cid in self.blocked:
                self.attempts.append((cid, cid, text, "blocked"))
                self.ctx.ev("send", cid, text, "blocked")
                if f is not None:
                    return self._raise_fault(f, method, text)
                return self._err(403, "Forbidden: bot was blocked by the user")
            self.deliveries.append((cid, method[4:].lower(), text))
            self.attempts.append((cid, cid, text, "ok"))
            self.ctx.ev("send", cid, text, "ok")
            if f is not None:
                return self._raise_fault(f, method, text)
            self.msg_id += 1
            return self._ok(dict(message_id=self.msg_id, date=1600000000, chat=dict(id=cid, type="private", first_name="u"), text=text))
        fl = self.method_faults.get(method)
        if fl:
            f = fl.pop(0)
            if f is not None:
                return self._raise_fault(f, method, None)
        if method == "getMe":
            return self._ok(dict(id=1, is_bot=True, first_name="bot", username="bot"))
        if method == "deleteWebhook":
            if str(p.get("drop_pending_updates", "")).lower() in ("true", "1"):
                for _, u in self.updates:
                    self.ctx.ev("dropped", u["update_id"])
                self.updates = []
            return self._ok(True)
        if method == "getUpdates":
            self.polls += 1
            off = int(p.get("offset", 0) or 0)
            if off:
                for t, u in list(self.updates):
                    if u["update_id"] is not None and u["update_id"] < off:
                        self.confirmed.add(u["update_id"])
                self.updates = [(t, u) for t, u in self.updates if u["update_id"] is None or u["update_id"] >= off]
            timeout = float(p.get("timeout", 0) or 0)
            end = self.sched.mono + timeout
            while True:
                now = self.sched.mono
                self.release()
                ready = sorted((u for _, u in self.updates if u["update_id"] is not None and u["update_id"] >= off),
                               key=lambda u: u["update_id"])
                if ready or now >= end:
                    break
                await asyncio.sleep(min(0.5, end - now))
            return self._ok(ready[:100])
        return self._ok(True)


def make_request(server):
    from telegram.request import BaseRequest

    class SimRequest(BaseRequest):
        def __init__(self):
            self.open = True

        @property
        def read_timeout(self):
            return 5.0

        async def initialize(self):
            self.open = True

        async def shutdown(self):
            self.open = False

        async def do_request(self, url, method, request_data=None, **kw):
            if not self.open:
                raise RuntimeError("This SimRequest is not initialized!")
            params = dict(request_data.parameters) if request_data is not None else {}
            return await server.handle(url.rsplit("/", 1)[1], params)

        def __deepcopy__(self, memo):
            return self

    return SimRequest()


def make_bot(server, path, extra=None, **kw):
    """A real TelegramBot over the simulated transport; `extra` maps command -> function(self, update, context)."""
    import vectorbt as vbt
    from telegram.ext import CommandHandler

    extra = extra or {}

    class Bot(vbt.TelegramBot):
        @property
        def custom_handlers(self):
            return tuple(CommandHandler(k, (lambda f: lambda update, context: f(self, update, context))(f))
                         for k, f in sorted(extra.items()))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Bot(token="1:a", request=make_request(server), get_updates_request=make_request(server), persistence=path, **kw)


def quiet():
    logging.disable(logging.CRITICAL)


def scratch_path(tag):
    _N[0] += 1
    d = os.environ.get("VBT_SIM_SCRATCH") or tempfile.gettempdir()
    return os.path.join(d, f"tg-{os.getpid()}-{tag}-{_N[0]}.pickle")


def write_state(path, chat_ids):
    """The persisted state as PicklePersistence writes it (single file)."""
    import pickle

    with open(path, "wb") as f:
        pickle.dump(dict(conversations={}, user_data={}, chat_data={}, bot_data={"chat_ids": list(chat_ids)}, callback_data=None), f)


def read_state(path):
    import pickle

    if not os.path.exists(path):
        return []
    with open(path, "rb") as f:
        return list(pickle.load(f)["bot_data"].get("chat_ids", []))
