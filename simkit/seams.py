"""The seams: every source of nondeterminism the properties depend on.

* task scheduling  - a dask scheduler (``dask.config.set(scheduler=...)``)
* randomness       - numpy's global generator (seeded, or adversarial draws)
* time             - ``time.time/monotonic/perf_counter/sleep`` of a simulated clock
* interruption, crash, thread switching - LINE events of the code under test
* the disk         - simkit.fs (an LD_PRELOAD shim)
"""
import ast
import contextlib
import dis
import linecache
import os
import re
import signal
import sys
import threading
import time as _time

import dask
import numpy as np

import emc2

# Outside a simulated schedule nothing may run in dask's real thread pool (a
# forked process would inherit a pool without threads).
dask.config.set(scheduler="synchronous")

EMC2_ROOT = os.path.dirname(os.path.abspath(emc2.__file__)) + os.sep

# --------------------------------------------------------------------------
# line events of the code under test
# --------------------------------------------------------------------------
TOOL = 3
_line_cb = None
_mon_on = False


def _on_line(code, line):
    if not code.co_filename.startswith(EMC2_ROOT):
        return sys.monitoring.DISABLE
    cb = _line_cb
    if cb is not None:
        cb(code, line)


def _mon_start():
    global _mon_on
    if not _mon_on:
        sys.monitoring.use_tool_id(TOOL, "simkit")
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)
        _mon_on = True
    sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)


def _mon_stop():
    sys.monitoring.set_events(TOOL, 0)


@contextlib.contextmanager
def line_hook(cb):
    """Call cb(code, line) before every executed line of the code under test."""
    global _line_cb
    prev = _line_cb
    _line_cb = cb
    _mon_start()
    try:
        yield
    finally:
        _line_cb = prev
        if prev is None:
            _mon_stop()


class StepBudgetExceeded(BaseException):
    """The code under test ran more steps than its bound allows."""


class CpuBudgetExceeded(BaseException):
    """The code under test burned more CPU than its (very generous) bound."""


class StepCounter:
    def __init__(self, budget=None):
        self.n = 0
        self.budget = budget
        self.where = None

    def __call__(self, code, line):
        self.n += 1
        if self.budget is not None and self.n > self.budget:
            self.where = "%s:%d" % (code.co_filename[len(EMC2_ROOT):], line)
            raise StepBudgetExceeded("more than %d steps; last at %s" % (self.budget, self.where))


class LineCounter(StepCounter):
    """Also counts how often each source line was reached."""

    def __init__(self, budget=None):
        super().__init__(budget)
        self.lines = {}
        self.funcs = {}               # function -> its lines
        self.after = set()            # lines reached right after one that changes long-lived state other than result fields
        self.stores = set()           # those of them after a plain store into a model or instrument
        self.prev = False

    def __call__(self, code, line):
        super().__call__(code, line)
        k = (code.co_filename, line)
        self.lines[k] = self.lines.get(k, 0) + 1
        if self.lines[k] == 1:
            self.funcs.setdefault((code.co_filename, code.co_firstlineno), []).append(k)
        if self.prev:
            self.after.add(k)
            if self.prev == 2:
                self.stores.add(k)
        self.prev = mutates(*k)


_MUT = {}


def mutates(fname, line):
    """Whether a source line looks like it stores into an argument (a hint for where to cut a run short)."""
    r = _MUT.get((fname, line))
    if r is None:
        src = linecache.getline(fname, line)
        store = re.match(r"\s*(model|instrument|self)\.(?!ds\b)[\w.]+(\[[^=]*\])*\s*[-+*/|]?=[^=]|.*\b(model|instrument|self)\.(?!ds\b)[\w.]+\[[^=]*\]\s*[-+*/]?=[^=]", src)
        r = _MUT[(fname, line)] = 2 if store else int(bool(re.match(r"\s*(model|instrument|self)\.(?!ds\[)[\w.]+(\[[^=]*\])*\s*[-+*/|]?=[^=]|.*\.(append|update|pop|setdefault|remove|insert|clear)\(", src)))
    return r


_GUARD = {}


def guarded(fname):
    """Lines of a source file from which an exception would reach a handler of the same function (the places where one can get lost)."""
    if fname not in _GUARD:
        lines = set()
        try:
            with open(fname) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if (isinstance(node, ast.Try) and node.handlers) or (isinstance(node, ast.With) and "suppress" in ast.dump(node.items[0])):
                for b in node.body:
                    lines.update(range(b.lineno, b.end_lineno + 1))
        _GUARD[fname] = lines
    return _GUARD[fname]


class InjectLine:
    """Raise `exc` when a given source line is about to run for the k-th time."""

    def __init__(self, where, k, make_exc):
        self.where, self.k, self.make_exc = where, k, make_exc
        self.n, self.hits, self.fired = 0, 0, None

    def __call__(self, code, line):
        self.n += 1
        if line == self.where[1] and code.co_filename == self.where[0]:
            self.hits += 1
            if self.hits == self.k and self.fired is None:
                self.fired = "%s:%d" % (code.co_filename[len(EMC2_ROOT):], line)
                raise self.make_exc()


class InjectAt:
    """Raise `exc` when the n-th line of the code under test is about to run."""

    def __init__(self, n, make_exc):
        self.at = n
        self.n = 0
        self.make_exc = make_exc
        self.fired = None

    def __call__(self, code, line):
        self.n += 1
        if self.n == self.at:
            self.fired = "%s:%d" % (code.co_filename[len(EMC2_ROOT):], line)
            raise self.make_exc()


def gen_cut(rng, func=0.4):
    """Where a run is to be cut short: any step, any source line (rare ones as likely as loops), right after a change of long-lived state, or
    any function (small ones as likely as large ones), or where a handler stands ready."""
    f = {"frac": rng.random()}
    if rng.random() < 0.75:
        f["occ"] = rng.choice([0.0, 0.0, 0.5, 1.0])
        r = rng.random()
        if r < func:
            f["func"] = rng.random()
        elif r < func + (1 - func) / 2:
            f["after"] = True
    if rng.random() < 0.3:
        f["guard"] = True             # inside a try block if the run passed through one
        f.setdefault("occ", 0.5)
    return f


def cut(cnt, f, mk):
    """The injector for a cut point of a run that `cnt` (a LineCounter) watched."""
    risky = sorted(k for k in cnt.lines if k[1] in guarded(k[0])) if f.get("guard") else []
    if f.get("occ") is None:
        return InjectAt(1 + int(f["frac"] * cnt.n), mk)
    places = sorted(cnt.stores if f.get("after") == "store" and cnt.stores else cnt.after if f.get("after") and cnt.after else cnt.lines)
    if f.get("func") is not None:
        places = cnt.funcs[sorted(cnt.funcs)[int(f["func"] * len(cnt.funcs))]]
    places = risky or places
    w = places[int(f["frac"] * len(places))]
    return InjectLine(w, 1 + int(f["occ"] * (cnt.lines[w] - 1)), mk)


@contextlib.contextmanager
def cpu_limit(seconds):
    """CPU-time (not wall-clock) guard: independent of machine load."""
    def handler(signum, frame):
        raise CpuBudgetExceeded("more than %d s of CPU" % seconds)
    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# --------------------------------------------------------------------------
# task scheduling
# --------------------------------------------------------------------------
class InjectedTaskFailure(Exception):
    """A worker task fails (the simulated worker raised)."""


class SimScheduler:
    """A dask scheduler that owns every decision about the tasks of a batch.

    cfg (all optional):
      order     "submit" | "reverse" | "random"
      isolate   probability that a task runs on a pickled copy of its inputs,
                as in a worker process (its writes to shared state are lost)
      dup       probability that a task is executed a second time (speculative
                re-execution); either execution's result may be kept
      retry     probability that a task's worker dies part-way through (at a
                drawn line of the code under test) and the task is re-executed
      fail_at   [batch, task] whose task raises instead of running
    """

    def __init__(self, choices, res, cfg):
        self.ch = choices
        self.res = res
        self.cfg = dict(cfg)
        self.batch = 0
        self.orders = []
        self.tasks_run = 0

    # dask calls this: get(dsk_or_expr, keys, **kw)
    def __call__(self, dsk, keys, **kwargs):
        from dask._task_spec import convert_legacy_graph
        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        from dask.utils import ensure_dict
        dsk = convert_legacy_graph(ensure_dict(dsk))
        batch = self.batch
        self.batch += 1
        results = {}
        need = {k: set(getattr(t, "dependencies", ()) or ()) for k, t in dsk.items()}
        done = set()
        pending = sorted(dsk, key=_keysort)
        order_sig = []
        ntask = 0
        while pending:
            ready = [k for k in pending if need[k] <= done]
            if not ready:
                raise RuntimeError("simulated scheduler: cyclic graph")
            work = [k for k in ready if not _is_glue(dsk[k])]
            glue = [k for k in ready if _is_glue(dsk[k])]
            if glue:
                k = glue[0]
                results[k] = dsk[k]({d: results[d] for d in need[k]})
            else:
                mode = self.cfg.get("order", "submit")
                if mode == "random":
                    pick = self.ch.draw(len(work))
                elif mode == "reverse":
                    pick = len(work) - 1
                else:
                    pick = 0
                k = work[pick]
                order_sig.append(k[-1] if isinstance(k, tuple) else 0)
                results[k] = self._run(dsk[k], {d: results[d] for d in need[k]}, batch, ntask)
                ntask += 1
            pending.remove(k)
            done.add(k)
        self.orders.append(tuple(order_sig))
        self.res.steps += ntask
        self.res.event("batch", batch, tuple(order_sig))
        return _collect(keys, results)

    def _run(self, task, deps, batch, ntask):
        import cloudpickle
        cfg = self.cfg
        res = self.res
        self.tasks_run += 1
        if cfg.get("fail_at") is not None and tuple(cfg["fail_at"]) == (batch, ntask):
            res.fault("task_failure")
            raise InjectedTaskFailure("injected failure in task %d of batch %d" % (ntask, batch))
        isolate = bool(cfg.get("isolate")) and self.ch.draw(2, cfg["isolate"]) == 1
        retry = bool(cfg.get("retry")) and self.ch.draw(2, cfg["retry"]) == 1
        dup = bool(cfg.get("dup")) and self.ch.draw(2, cfg["dup"]) == 1

        def once():
            if isolate:
                t, d = cloudpickle.loads(cloudpickle.dumps((task, deps)))
                res.fault("worker_isolation")
                return cloudpickle.loads(cloudpickle.dumps(t(d)))
            return task(deps)

        if retry:
            # the worker dies at a drawn point of the task; only shared memory
            # effects (if not isolated) survive; the task is then re-executed
            at = 1 + self.ch.draw(cfg.get("retry_lines", 120))
            inj = InjectAt(at, lambda: InjectedTaskFailure("worker died"))
            base = _line_cb

            def both(code, line):
                if base is not None:
                    base(code, line)
                inj(code, line)
            try:
                with line_hook(both):
                    out = once()
            except InjectedTaskFailure:
                res.fault("worker_crash_and_retry")
                out = once()
            return out
        out = once()
        if dup:
            res.fault("duplicate_execution")
            second = once()
            if self.ch.draw(2) == 1:
                out = second
        return out


def _keysort(k):
    if isinstance(k, tuple):
        return (0,) + tuple((0, x, "") if isinstance(x, int) else (1, 0, str(x).rsplit("-", 1)[0]) for x in k)
    return (1, (1, 0, str(k).rsplit("-", 1)[0]))


def _is_glue(task):
    n = type(task).__name__
    if n in ("Alias", "DataNode"):
        return True
    f = getattr(task, "func", None)
    return getattr(f, "__name__", "") in ("finalize",) or (
        isinstance(getattr(task, "key", None), str))


def _collect(keys, results):
    if isinstance(keys, list):
        return tuple(_collect(k, results) for k in keys)
    return results[keys]


@contextlib.contextmanager
def scheduled(sched):
    import dask
    with dask.config.set(scheduler=sched):
        yield sched


# --------------------------------------------------------------------------
# randomness
# --------------------------------------------------------------------------
@contextlib.contextmanager
def randomness(np_seed, mode="seeded", choices=None, res=None):
    """Own numpy's global random state.

    mode "seeded": the ordinary generator, seeded.
    mode "adversarial": permutations and gamma variates are chosen by the
    simulator; every value returned is one the real generator can produce.
    mode "fixed0".."fixed3": every draw is a fixed function of its arguments, so
    the outcome must not depend on who draws first (schedule independence).
    """
    st = np.random.get_state()
    np.random.seed(int(np_seed) % (2 ** 32))
    real_perm, real_gamma = np.random.permutation, np.random.gamma
    rs = np.random.RandomState((int(np_seed) + 7919) % (2 ** 32))

    def perm(x):
        out = real_perm(x)
        m = choices.draw(5)
        if m == 0:
            return out
        base = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        if m == 1:
            out = base
        elif m == 2:
            out = base[::-1].copy()
        elif m == 3 and len(base):
            out = np.roll(base, 1)
        elif m == 4 and len(base):
            out = np.concatenate([base[::2], base[1::2]])
        if res is not None:
            res.fault("adversarial_permutation")
        return out

    def gam(a, scale=1.0, size=None):
        out = real_gamma(a, scale, size)
        m = choices.draw(6)
        if m == 0:
            return out
        if res is not None:
            res.fault("adversarial_gamma")
        mean = np.asarray(a, dtype=float) * np.asarray(scale, dtype=float)
        o = np.array(out, dtype=float, copy=True)
        if m == 1:
            o[...] = np.broadcast_to(mean, o.shape) * 1e-9
        elif m == 2:
            o[...] = np.broadcast_to(mean, o.shape) * 1e3
        elif m == 3:
            f = rs.choice([1e-12, 1e-3, 1.0, 50.0], size=o.shape)
            o[...] = np.broadcast_to(mean, o.shape) * f
        elif m == 4:
            o[...] = np.broadcast_to(mean, o.shape)
        elif m == 5 and o.size:
            o[...] = np.broadcast_to(mean, o.shape) * 1e-9
            o.flat[0] = float(np.broadcast_to(mean, o.shape).flat[0]) * 1e6
        return o if np.ndim(out) else float(o)

    variant = int(mode[5:] or 0) if mode.startswith("fixed") else 0

    def fperm(x):
        base = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        if variant == 1:
            return base[::-1].copy()
        if variant == 2 and len(base):
            return np.roll(base, len(base) // 2)
        if variant == 3 and len(base):
            return np.concatenate([base[1::2], base[::2]])
        return base

    def fgam(a, scale=1.0, size=None):
        mean = np.asarray(a, dtype=float) * np.asarray(scale, dtype=float)
        shape = mean.shape if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
        n = int(np.prod(shape)) if shape else 1
        w = 0.4 + 0.35 * ((np.arange(n) + variant) % 4)
        o = np.broadcast_to(mean, shape) * w.reshape(shape)
        return o if shape else float(o)

    new = (perm, gam) if mode == "adversarial" else (fperm, fgam) if mode.startswith("fixed") else (real_perm, real_gamma)
    bound = []          # names emc2 modules bound with "from numpy.random import ..."
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "emc2" or name.startswith("emc2.")):
            for attr, val in list(vars(mod).items()):
                for old_f, new_f in zip((real_perm, real_gamma), new):
                    if val is not None and callable(val) and val == old_f:
                        bound.append((mod, attr, val))
                        setattr(mod, attr, new_f)
    try:
        np.random.permutation, np.random.gamma = new
        yield
    finally:
        np.random.permutation, np.random.gamma = real_perm, real_gamma
        for mod, attr, val in bound:
            setattr(mod, attr, val)
        np.random.set_state(st)


# --------------------------------------------------------------------------
# time
# --------------------------------------------------------------------------
class SimClock:
    """A clock that jumps: forwards, backwards, stands still."""

    def __init__(self, choices, res, start=1.6e9):
        self.ch, self.res, self.now = choices, res, float(start)
        self.mono = 1000.0
        self.reads = 0

    def _advance(self):
        self.reads += 1
        k = self.ch.draw(6)
        d = (0.001, 0.0, 3600.0, -3600.0, 86400.0 * 400, -86400.0 * 900)[k]
        if k >= 2:
            self.res.fault("clock_jump")
        self.now += d
        self.mono += max(d, 0.0)
        self.res.simtime += abs(d)
        return self.now

    def time(self):
        return self._advance()

    def time_ns(self):
        return int(self._advance() * 1e9)

    def monotonic(self):
        self._advance()
        return self.mono

    def sleep(self, s):
        self.now += float(s)
        self.mono += float(s)
        self.res.simtime += float(s)


@contextlib.contextmanager
def simulated_clock(clock):
    """Route time.* - and names already bound from it in emc2 modules - to clock."""
    repl = {"time": clock.time, "time_ns": clock.time_ns, "monotonic": clock.monotonic,
            "perf_counter": clock.monotonic, "sleep": clock.sleep}
    real = {k: getattr(_time, k) for k in repl}
    byid = {id(v): k for k, v in real.items()}
    touched = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "emc2" or name.startswith("emc2.")):
            continue
        for attr, val in list(vars(mod).items()):
            k = byid.get(id(val))
            if k is not None:
                touched.append((mod, attr, val))
                setattr(mod, attr, repl[k])
    for k, f in repl.items():
        setattr(_time, k, f)
    try:
        yield clock
    finally:
        for k, f in real.items():
            setattr(_time, k, f)
        for mod, attr, val in touched:
            setattr(mod, attr, val)


# --------------------------------------------------------------------------
# caller threads, interleaved line by line
# --------------------------------------------------------------------------
def sharing_functions():
    """Names of functions of the code under test that refer to something two concurrent callers would share: a mutable object held by a module
    or a class, a name assigned globally, or a mutable default argument (a hint for where to let threads meet)."""
    kinds = (list, dict, set, bytearray, np.ndarray)
    names, out = set(), set()

    def codes(c):
        yield c
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                yield from codes(k)
    mods = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "emc2" and m is not None]
    funcs = []
    for m in mods:
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            if getattr(v, "__module__", None) == m.__name__ and isinstance(v, type):
                names.update(a for a, x in vars(v).items() if isinstance(x, kinds) and not a.startswith("__"))
                funcs += [(m, f) for f in vars(v).values() if hasattr(f, "__code__")]
            elif hasattr(v, "__code__") and v.__module__ == m.__name__:
                funcs.append((m, v))
    for m, f in funcs:
        if any(isinstance(d, kinds) for d in (f.__defaults__ or ())):
            out.add(f.__name__)
        if any(isinstance(x, kinds) for a, x in vars(f).items()):
            out.add(f.__name__)
        for c in codes(f.__code__):
            for i in dis.get_instructions(c):
                if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") or (i.opname == "LOAD_GLOBAL" and isinstance(vars(m).get(i.argval), kinds)) or (
                        i.opname in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR") and i.argval in names):
                    out.add(c.co_name)
    return out


class ThreadSim:
    """Run callables in real threads of which exactly one may run at a time.

    The running thread asks the simulator at every line of the code under test
    whether to hand over, and to whom; nothing else decides.
    """

    def __init__(self, choices, res, switch_every=40, budget=30_000_000, focus=None, once=False):
        """``focus``: names of functions; instead of anywhere, threads are then
        switched inside one of them at a time, so that two threads meet inside
        the same function again and again (the function changes as the run
        goes on).  ``once``: a line in a loop counts the first two times only
        (``seen`` is cleared by the caller when a thread starts something new)."""
        self.ch, self.res = choices, res
        self.focus, self.target, self.idle, self.met = focus, None, 0, 0
        self.once, self.seen = once, {}
        self.cond = threading.Condition()
        self.current = None
        self.alive = []
        self.out = {}
        self.gap = switch_every
        self.left = 1
        self.steps = 0
        self.budget = budget
        self.switches = 0
        self.ids = {}
        self.signature = []

    def _next_gap(self):
        # 0 (the plainest decision) means: do not switch for a long time
        k = self.ch.draw(61)
        if k == 0:
            return 10 ** 9
        if self.once:
            return (1, 1, 2, 3, 4, 6)[k % 6]
        if self.focus:
            return (1, 2, 3, 5, 9, 17)[k % 6]
        return (self.gap * 8, self.gap, self.gap, self.gap // 4 + 1, 3, self.gap * 25)[k % 6]

    def _hook(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise StepBudgetExceeded("thread simulation exceeded %d steps" % self.budget)
        if self.focus and self.left < 10 ** 8:
            if self.target is None or self.idle > 1500 or self.met > 60:
                k = self.ch.draw(2 * len(self.focus))   # one of them, or the one running now
                self.target, self.idle, self.met = self.focus[k] if k < len(self.focus) else code.co_name, 0, 0
            if code.co_name != self.target:
                self.idle += 1
                return
            if self.once:
                key = (me, code.co_name, line)
                self.seen[key] = self.seen.get(key, 0) + 1
                if self.seen[key] > 2:
                    return
            self.idle, self.met = 0, self.met + 1
        self.left -= 1
        if self.left > 0:
            return
        self.left = self._next_gap()
        if len(self.alive) < 2:
            return
        others = [t for t in self.alive if t != me]
        nxt = others[self.ch.draw(len(others))]
        self.switches += 1
        if len(self.signature) < 4000:
            self.signature.append((me, os.path.basename(code.co_filename), line, nxt))
        with self.cond:
            self.current = nxt
            self.cond.notify_all()
            while self.current != me:
                self.cond.wait()

    def run(self, funcs):
        def body(i, fn):
            self.ids[threading.get_ident()] = i
            with self.cond:
                while self.current != i:
                    self.cond.wait()
            try:
                self.out[i] = ("ok", fn())
            except BaseException as e:  # noqa: BLE001 - recorded as the thread's outcome
                self.out[i] = ("exc", e)
            finally:
                with self.cond:
                    self.alive.remove(i)
                    self.ids.pop(threading.get_ident(), None)
                    if self.alive:
                        self.current = self.alive[0]
                    else:
                        self.current = -1
                    self.cond.notify_all()
        ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        self.alive = list(range(len(funcs)))
        self.current = None
        self.left = self._next_gap()
        with line_hook(self._hook):
            for t in ths:
                t.start()
            with self.cond:
                self.current = self.alive[self.ch.draw(len(self.alive))]
                self.cond.notify_all()
            for t in ths:
                t.join()
        self.res.steps += self.steps
        self.res.fault("preemption", self.switches)
        return [self.out[i] for i in range(len(funcs))]
