"""The simulated disk: files below one directory, with faults at seeded points.

Files are real ones in a scratch directory, opened through raw files whose
every write, read and close asks the run's fault plan.  After a simulated
crash nothing more reaches the directory, so what is in it is what had been
handed to the operating system when the process died.
"""
import builtins
import io
import os

from dst.world import W, SimCrash

REAL_OPEN = io.open
REAL = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink",
                                    "truncate", "link")}


class FS:
    "State of the simulated disk"
    root = None       # only files below are simulated
    plan = None       # this operation's fault
    written = 0       # bytes written in this operation
    writes = reads = opens = 0
    readbytes = 0
    crashed = False
    done = False      # the fault has fired

    @classmethod
    def begin(cls, plan=None):
        "Starts an operation"
        cls.plan, cls.written, cls.readbytes = plan, 0, 0
        cls.writes = cls.reads = cls.opens = 0
        cls.done = False

    @classmethod
    def end(cls):
        "Ends it: no more faults"
        fired, cls.plan = cls.done, None
        return fired

    @classmethod
    def hit(cls, kind):
        "Is it the plan's turn?"
        if cls.plan is None or cls.done or cls.plan["kind"] != kind:
            return False
        cls.done = True
        W.fired("disk:" + kind)
        return True


def boom(errno, text):
    "An error of the operating system"
    raise OSError(errno, "sim: " + text)


class SimRaw(io.FileIO):
    "A file on the simulated disk"
    closing = False

    def _write(self, b):
        return super().write(b)

    def write(self, b):
        "Writes, unless the disk is full, broken, or the process dies"
        if FS.crashed:
            raise SimCrash("sim: already dead")
        FS.writes += 1
        b = bytes(b)
        p = FS.plan
        if p and not FS.done:
            k = p["kind"]
            over = FS.written + len(b) > p.get("at", 0)
            if k in ("enospc", "eio", "interrupt", "crash") and over:
                room = max(p["at"] - FS.written, 0)
                if k != "eio" and room:
                    FS.written += room
                    self._write(b[:room])
                    if k == "enospc":
                        return room   # as write(2) does; the next call fails
                if FS.hit("enospc"):
                    boom(28, "no space left on device")
                if FS.hit("eio"):
                    boom(5, "input/output error")
                if FS.hit("interrupt"):
                    raise KeyboardInterrupt("sim: interrupt in write")
                FS.hit("crash")
                FS.crashed = True
                raise SimCrash("sim: the process dies while writing")
            if k == "short" and len(b) > 1:
                if not p.get("n"):
                    FS.hit("short")
                    FS.done = False
                p["n"] = p.get("n", 0) + 1
                b = b[:1 + (p["at"]*p["n"]) % len(b)]
        FS.written += len(b)
        n = self._write(b)
        if p and p["kind"] == "slow":
            FS.hit("slow")
            W.advance(30.)
        return n

    def _onread(self, n):
        p = FS.plan
        FS.reads += 1
        if p and not FS.done and p["kind"] == "readerror" \
                and FS.readbytes >= p["at"]:
            FS.hit("readerror")
            boom(5, "input/output error")
        if p and p["kind"] == "shortread":
            if not FS.done:
                FS.hit("shortread")
            p["n"] = p.get("n", 0) + 1
            n = 1 + (p["at"]*p["n"]) % max(n, 1)
        return n

    def readinto(self, buf):
        "Reads"
        n = self._onread(len(buf))
        got = super().readinto(memoryview(buf)[:n])
        FS.readbytes += got or 0
        return got

    def read(self, size=-1):
        "Reads"
        if size is None or size < 0:
            return self.readall()
        got = super().read(self._onread(size))
        FS.readbytes += len(got or b"")
        return got

    def readall(self):
        "Reads the rest"
        out = []
        while True:
            got = self.read(1 << 16)
            if not got:
                return b"".join(out)
            out.append(got)

    def close(self):
        "Closes; what was written may still be refused"
        if self.closed:
            return
        wrote = self.writable()
        super().close()
        if wrote and not FS.crashed and FS.hit("closeerror"):
            boom(5, "input/output error")


def inside(file):
    "Is that path on the simulated disk?"
    if FS.root is None or isinstance(file, int):
        return False
    path = os.path.abspath(os.fspath(file))
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return path.startswith(FS.root + os.sep)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    "Stands in for open()"
    if not inside(file):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if FS.crashed:
        raise SimCrash("sim: already dead")
    FS.opens += 1
    writing = any(c in mode for c in "wax+")
    if FS.plan and FS.plan["kind"] == "openerror" and \
            writing == (not FS.plan.get("read")):
        FS.hit("openerror")     # and every other try fails, too
        boom(FS.plan["errno"], "cannot open")
    kind = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(file, kind, closefd, opener)
    line = buffering == 1 and "b" not in mode
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    out = io.TextIOWrapper(buf, encoding, errors, newline, line)
    out.mode = mode
    return out


def _dead(name):
    def fn(*args, **kw):
        "stands in for a function of os"
        if FS.crashed:
            raise SimCrash("sim: already dead")
        return REAL[name](*args, **kw)
    return fn


def install(root):
    "Puts the simulated disk in place (in a run's own process)"
    FS.root = os.path.abspath(root)
    FS.crashed = False
    builtins.open = io.open = sim_open
    for n in REAL:
        setattr(os, n, _dead(n))


def raw_bytes(path):
    "What is on the disk"
    with REAL_OPEN(path, "rb") as f:
        return f.read()


def put_bytes(path, data):
    "Changes what is on the disk"
    with REAL_OPEN(path, "wb") as f:
        f.write(data)
