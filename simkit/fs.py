"""The disk seam, seen from Python (the shim itself is simkit/native/simfs.c)."""
import ctypes
import errno
import os
import shutil
import tempfile

from .core import HarnessError

OPEN, READ, WRITE, CLOSE, FSYNC, TRUNC, RENAME, UNLINK = range(1, 9)
OPNAME = {1: "open", 2: "read", 3: "write", 4: "close", 5: "fsync", 6: "truncate", 7: "rename", 8: "unlink"}
ERR, SHORT, TORN_CRASH, CRASH_BEFORE, CRASH_AFTER = 1, 2, 3, 4, 5
KIND = {"short": SHORT, "torn": TORN_CRASH, "before": CRASH_BEFORE, "after": CRASH_AFTER}
CRASH_CODE = 77
ALL = 0x1fe
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.simfs_present()
        except AttributeError:
            raise HarnessError("the disk shim is not preloaded (run through run.sh)")
        for f in ("simfs_count", "simfs_fired", "simfs_loglen", "simfs_log_size"):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.simfs_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        _lib.simfs_log_op.argtypes = _lib.simfs_log_size.argtypes = [ctypes.c_long]
    return _lib


def arm(prefix, faults=()):
    """Start numbering operations below prefix; faults: dicts {ops, at, kind, rep}."""
    li = lib()
    li.simfs_reset()
    for f in faults:
        mask = 0
        for o in f.get("ops") or []:
            mask |= 1 << o
        k = f["kind"]
        if k in KIND:
            li.simfs_fault(mask or ALL, f["at"], KIND[k], f.get("arg", 0), f.get("rep", 1))
        else:
            li.simfs_fault(mask or ALL, f["at"], ERR, getattr(errno, k), f.get("rep", 1))
    li.simfs_arm(os.path.realpath(prefix).encode())


def disarm():
    """-> (operations seen, per-fault fired counts, op log as a list of op codes, tracked descriptors still open)."""
    li = lib()
    li.simfs_disarm()
    n = li.simfs_loglen()
    log = [li.simfs_log_op(i) for i in range(min(n, 3000))]
    out = (li.simfs_count(0), [li.simfs_fired(i) for i in range(64)], log, li.simfs_open_tracked())
    return out


class Scratch:
    """A directory of its own, removed afterwards."""

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="simkit-"))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def in_process(fn, timeout=120):
    """Run fn() in a forked child (the simulated process) -> (status, value).

    status: "ok" (value = fn's result), "raised" (text), "crashed" (exit code).
    """
    import pickle
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)       # the HDF5 library's own diagnostics
            os.dup2(dn, 2)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001 - the child's outcome
                out = ("raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            lib().simfs_disarm()
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    hung = False
    while True:
        rd, _, _ = select.select([r], [], [], timeout)
        if not rd:
            os.kill(pid, signal.SIGKILL)
            hung = True
            break
        part = os.read(r, 1 << 16)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        return "hung", "no answer for %d s" % timeout
    if buf:
        return pickle.loads(buf)
    return "crashed", os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)


class Actors:
    """Several simulated processes on one file system, one file operation at a time.

    Every process stops before each of its operations below the armed prefix;
    the simulator decides which one goes on, dies or fails there.
    """

    def __init__(self, choices, res, gap, prefix):
        self.ch, self.res, self.gap, self.prefix = choices, res, gap, prefix
        self.clock = 0                  # operations let through, over all processes
        self.events = []                # (clock, actor, what, payload)
        self.signature = []
        self.switches = 0

    def run(self, scripts, hurts=(), timeout=120):
        """scripts: per process a list of (label, function), run in order; hurts: {actor: (at, "k" or "e")}.

        -> per process a list of (label, start, end or None, status, value); status ok / raised / died.
        """
        import pickle
        import select
        import struct
        procs = []
        for i, script in enumerate(scripts):
            gr, gw = os.pipe()          # gate: child -> parent
            cr, cw = os.pipe()          # commands: parent -> child
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 2)
                    for p in procs:
                        os.close(p["gr"])
                        os.close(p["cw"])
                    os.close(gr)
                    os.close(cw)

                    def tell(kind, data):
                        lib().simfs_disarm()
                        b = pickle.dumps(data)
                        b = struct.pack("<cI", kind, len(b)) + b
                        while b:
                            b = b[os.write(gw, b):]
                        if os.read(cr, 1) != b"g":
                            os._exit(CRASH_CODE)
                    for label, fn in script:
                        tell(b"S", label)
                        arm(self.prefix)
                        lib().simfs_gate(gw, cr)
                        try:
                            out = ("ok", fn())
                        except BaseException as e:  # noqa: BLE001 - the outcome
                            out = ("raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
                        tell(b"E", out)
                    tell(b"Q", None)
                finally:
                    os._exit(0)
            os.close(gw)
            os.close(cr)
            procs.append({"pid": pid, "gr": gr, "cw": cw, "ops": 0, "hist": [], "alive": True, "at": None, "hung": False})

        def hear(p):
            """What the process says next: an operation it is about to do, or a message."""
            rd, _, _ = select.select([p["gr"]], [], [], timeout)
            if not rd:
                p["hung"] = True
                return None
            c = os.read(p["gr"], 1)
            if not c:
                return None
            if c in (b"S", b"E", b"Q"):
                n = struct.unpack("<I", self._exact(p["gr"], 4))[0]
                return c, pickle.loads(self._exact(p["gr"], n))
            return b"O", c[0]
        for p in procs:
            p["at"] = hear(p)
        cur, left = None, 0
        while True:
            live = [i for i, p in enumerate(procs) if p["alive"]]
            if not live:
                break
            if cur not in live:
                cur = live[self.ch.draw(len(live))]
                left = self._gap()
            elif left <= 0:
                left = self._gap()
                others = [i for i in live if i != cur]
                if others:
                    nxt = others[self.ch.draw(len(others))]
                    self.switches += 1
                    self.signature.append((cur, procs[cur]["ops"], nxt))
                    cur = nxt
            p = procs[cur]
            at, cmd = p["at"], b"g"
            if at is not None and at[0] == b"S":
                p["hist"].append([at[1], self.clock, None, "died", None])
            elif at is not None and at[0] == b"E":
                p["hist"][-1][2:] = [self.clock, at[1][0], at[1][1]]
            elif at is not None and at[0] == b"O":
                if hurts and cur in hurts and p["ops"] == hurts[cur][0]:
                    cmd = hurts[cur][1].encode()
                    self.res.fault("process_killed" if cmd == b"k" else "disk_EIO")
                p["ops"] += 1
                left -= 1
                if at[1] in (6, 7, 8) and self.ch.draw(2):      # the file's name or length changes: others may look right after that
                    left = 0
            self.clock += 1
            try:
                os.write(p["cw"], cmd)
            except BrokenPipeError:
                pass
            if at is not None and at[0] == b"Q":
                nxt = None
            else:
                nxt = hear(p)
            p["at"] = nxt
            if nxt is None:
                p["alive"] = False
                if p["hung"]:
                    import signal
                    os.kill(p["pid"], signal.SIGKILL)
        for p in procs:
            os.close(p["gr"])
            os.close(p["cw"])
            os.waitpid(p["pid"], 0)
        self.res.steps += self.clock
        return procs

    @staticmethod
    def _exact(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise HarnessError("a simulated process stopped in the middle of a message")
            b += x
        return b

    def _gap(self):
        k = self.ch.draw(13)
        if k == 0:
            return 10 ** 9
        return (1, 2, 4, self.gap, self.gap, 3 * self.gap)[k % 6]
