"""A faulty disk.  Files below one scratch folder are opened through raw handles that split transfers, run out of space, fail,
or crash the process at a chosen byte; data that was never flushed to the device can be lost afterwards.  Everything else on
the machine is opened as usual."""
import builtins
import errno
import io
import os

from .core import SimCrash

_open = builtins.open
_ioopen = io.open
_osreal = {n: getattr(os, n) for n in ("replace", "rename", "fsync", "remove", "unlink")}


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.name_ = disk, path, path
        self.f = _open(path, mode if "b" in mode else mode + "b", buffering=0)
        self.epoch = disk.epoch

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        d = self.disk
        n = len(b)
        if d.plan and d.plan["at"] == "read" and d.reads >= d.plan["op"]:
            k = d.plan["kind"]
            if k == "eio":
                d.hit("read error")
                raise OSError(errno.EIO, "Input/output error", self.path)
        if d.split:
            n = min(n, max(1, d.split[d.reads % len(d.split)]))
            d.ctx.fault("short read")
        d.reads += 1
        x = self.f.read(n)
        b[:len(x)] = x
        return len(x)

    def write(self, b):
        d = self.disk
        d.alive(self.epoch)
        b = bytes(b)
        if d.plan and d.plan["at"] == "write":
            left = max(0, d.plan["byte"] - d.written)
            if left < len(b) or d.plan["byte"] < 0:
                k = d.plan["kind"]
                if left:
                    self.f.write(b[:left])
                    d.written += left
                    if k in ("full", "eio"):
                        return left  # the rest is refused by the next call
                if k == "full":
                    d.hit("disk full")
                    raise OSError(errno.ENOSPC, "No space left on device", self.path)
                if k == "eio":
                    d.hit("write error")
                    raise OSError(errno.EIO, "Input/output error", self.path)
                if k == "crash":
                    d.hit("crash while writing")
                    d.crash()
                    raise SimCrash()
        n = len(b)
        if d.split:
            n = min(n, max(1, d.split[d.writes % len(d.split)]))
            if n < len(b):
                d.ctx.fault("short write")
        d.writes += 1
        self.f.write(b[:n])
        d.written += n
        return n

    def close(self):
        if self.closed:
            return
        d = self.disk
        bad = d.plan and d.plan["at"] == "close" and self.f.writable() and not d.fired
        super().close()
        self.f.close()
        if bad:
            if d.plan["kind"] == "crash":
                d.hit("crash while closing")
                d.crash()
                raise SimCrash()
            d.hit("close error")
            raise OSError(errno.EIO, "Input/output error", self.path)


class Disk:
    def __init__(self, root, ctx):
        self.root, self.ctx = os.path.realpath(root), ctx
        self.plan = self.split = None
        self.crashed = self.fired = False
        self.writes = self.reads = self.written = 0
        self.opened = []
        self.epoch = 0

    def hit(self, kind):
        self.fired = True
        self.ctx.fault(kind)

    def crash(self):
        self.crashed = True
        self.epoch += 1

    def alive(self, epoch=None):
        if self.crashed or epoch not in (None, self.epoch):
            raise SimCrash()

    def op(self, plan=None, split=None):
        self.plan, self.split = plan, split
        self.crashed = self.fired = False
        self.writes = self.reads = self.written = 0

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if isinstance(file, int) or not self.mine(file):
            return _open(file, mode, buffering, encoding, errors, newline, *a, **k)
        self.alive()
        path = os.fspath(file)
        self.opened.append((os.path.basename(path), mode))
        if self.plan and self.plan["at"] == "open":
            self.hit("open refused")
            raise OSError(errno.EMFILE if self.plan["kind"] == "emfile" else errno.EACCES, "cannot open", path)
        raw = Raw(self, path, mode.replace("t", ""))
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            b = io.BufferedRandom(raw, size)
        elif "r" in mode:
            b = io.BufferedReader(raw, size)
        else:
            b = io.BufferedWriter(raw, size)
        return b if "b" in mode else io.TextIOWrapper(b, encoding, errors, newline)

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open

        def guard(name):
            real = _osreal[name]

            def f(*a, **k):
                if name == "fsync":
                    self.alive()
                    return None if not isinstance(a[0], int) else real(*a, **k)
                if a and self.mine(a[0]):
                    self.alive()
                    if self.plan and self.plan["at"] == "rename" and name in ("replace", "rename"):
                        if self.plan["kind"] == "crash":
                            self.hit("crash before rename")
                            self.crash()
                            raise SimCrash()
                        self.hit("rename error")
                        raise OSError(errno.EIO, "Input/output error", a[0])
                return real(*a, **k)
            return f
        for n in _osreal:
            setattr(os, n, guard(n))
        return self

    def __exit__(self, *a):
        builtins.open = _open
        io.open = _ioopen
        for n, f in _osreal.items():
            setattr(os, n, f)
        return False
