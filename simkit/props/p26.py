"""P26 - saves and loads of one file at the same time never mix."""
import os

import numpy as np

from .. import core, emu, fs, seams, synth
from . import p11, p23, p25

ID = "P26"
RUNS = {"quick": 150, "thorough": 4000}
RULE = ("2-4 actors (processes on one file system, interleaved one file operation at a time by the seeded scheduler; or threads of one process, interleaved "
        "line by line) save different simulations, or statistics, to one file name, and load from it, 1-3 times each; some are killed or meet a disk error at a "
        "drawn operation; the history of every run is checked to be that of one atomic file; non-trivial: at least one hand-over between actors")
STATE_MEASURE = "distinct interleavings (sequence of hand-over points) plus distinct histories"
REAL = ["emc2.core.model save and load", "emc2.statistics_LLNL.statistical_output", "xarray", "netCDF-C / HDF5 libraries", "the kernel's file system (scratch directory)",
        "separate processes, or threads"]
STUB = ["the process and thread schedulers (one actor runs at a time)", "file operations that carry a fault (LD_PRELOAD shim)", "model data files (synthetic models)"]
ASSUMPTIONS = ["one machine: a rename is atomic for every process", "threads are switched between lines of EMC2"]


def setup():
    synth.preload(["HSRL"])
    import emc2.statistics_LLNL             # noqa: F401
    fs.lib()


def gen(rng, i, tier):
    c = {"mode": rng.choice(["processes", "processes", "threads"]), "what": rng.choice(["subcolumns", "subcolumns", "statistics"]),
         "np_seed": rng.randrange(2 ** 31), "old": rng.random() < 0.6, "gap": rng.choice([2, 5, 15, 40]), "actors": [], "hurt": {},
         "focus": rng.random() < 0.7, "moments": None, "classify": False, "finalize": rng.random() < 0.3}
    c["spec"] = synth.gen_spec(rng, T=rng.choice([1, 2, 3, 25]) if c["what"] == "subcolumns" else 2, H=rng.choice([3, 4]), N=rng.choice([1, 2, 4]),
                               hyd=["cl", "ci", "pl", "pi"], conv=False, density=0.8)
    v = 1
    n = rng.choice([2, 2, 3, 4])
    for a in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if n < 4 else 1):
            if rng.random() < (0.5 if v > 1 or c["old"] else 1.0):
                ops.append(["save", v])
                v += 1
            else:
                ops.append(["load", 0])
        c["actors"].append(ops)
    if c["mode"] == "processes" and rng.random() < 0.4:
        c["hurt"] = {str(rng.randrange(n)): [rng.randrange(60), rng.choice(["k", "k", "e"])]}
    return c


def shrink(case):
    for a in range(len(case["actors"])):
        if len(case["actors"]) > 2:
            yield dict(case, actors=case["actors"][:a] + case["actors"][a + 1:],
                       hurt={str(int(k) - (int(k) > a)): v for k, v in case["hurt"].items() if int(k) != a})
        for j in range(len(case["actors"][a])):
            if len(case["actors"][a]) > 1:
                acts = [list(x) for x in case["actors"]]
                acts[a] = acts[a][:j] + acts[a][j + 1:]
                yield dict(case, actors=acts)
    if case["hurt"]:
        yield dict(case, hurt={})
    if case["finalize"]:
        yield dict(case, finalize=False)


class Subcolumns:
    """Subcolumns of one model input, a different draw per version."""

    def __init__(self, case, d, res):
        self.case, self.path, self.models = case, os.path.join(d, "sub.nc"), {}
        for v in versions(case):
            # every other draw: the same random state would make the same subcolumns
            m = p11.build(case, case["spec"], 0, res)
            if m is None:
                return
            for k in m.ds.variables:
                if "subcolumn" in m.ds[k].dims and k not in m.ds.coords and m.ds[k].dtype.kind == "f":
                    m.ds[k] = m.ds[k] + float(v)
            self.models[v] = m
        self.want = {v: p11.expected(m) for v, m in self.models.items()}

    def save(self, v):
        self.models[v].subcolumns_to_netcdf(self.path)

    def load(self):
        m = synth.SynthModel(self.case["spec"])
        m.load_subcolumns_from_netcdf(self.path)
        return self.which({k: np.asarray(m.ds[k].values) for k in m.ds.variables})

    def which(self, got):
        """The version the values are a complete copy of, or what is wrong."""
        for v, w in self.want.items():
            if p11.complete(got, w) is None:
                return v
        v = list(self.want)[0]
        return "a mixture or a part of saves: against version %s, %s" % (v, p11.complete(got, self.want[v]))


class Statistics:
    """Statistics files of one simulation, different statistics per version."""

    def __init__(self, case, d, res):
        self.case, self.path, self.out = case, os.path.join(d, "stat.nc"), d
        c = {"kind": "ncol", "fmt": "E3SM", "split": [2], "region": [2, 1, 1], "finalize": case["finalize"], "classify": False, "np_seed": case["np_seed"],
             "spec": case["spec"]}
        self.m = None
        with fs.Scratch() as tmp:
            m = p23.build(c, tmp, 0)
        if isinstance(m, emu.Failed):
            res.violate("exception", "simulation failed: " + m.text)
            return
        self.m, self.models = m, {v: m for v in versions(case)}
        nt, nc = m.ds.sizes["time"], m.ds.sizes["ncol"]
        self.sim = {k: (v[2], v[0]) for k, v in p23.snap(m)[0].items()}
        self.stats = {v: p25.stats({"seed": case["np_seed"] + v, "G": 3, "B": 4, "S": 5, "bins": "mids"}, nt, nc) for v in versions(case)}

    def save(self, v):
        from emc2.statistics_LLNL import statistical_output as so
        s = self.stats[v]
        so.save_cfads_to_nc(self.m, s["bins"], s["cloud_fraction"], s["CFAD_Radar"], s["CFAD_SR"], self.out + "/", "stat.nc")

    def load(self):
        got = p25.read(self.path)
        for v, s in self.stats.items():
            bad = p25.complete(got, self.sim, s)
            if bad is None:
                return v
        return "a mixture or a part of saves: against version %s, %s" % (v, bad)


def versions(case):
    return ([0] if case["old"] else []) + [o[1] for a in case["actors"] for o in a if o[0] == "save"]


def linearizable(hist, first):
    """Is the history (kind, start, end or None, value) that of one register holding `first`?  Operations without an end may or may not happen."""
    n = len(hist)
    seen = set()

    def go(done, state):
        if all(done >> i & 1 or hist[i][2] is None for i in range(n)):
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        horizon = min([hist[i][2] for i in range(n) if not done >> i & 1 and hist[i][2] is not None])
        for i in range(n):
            if done >> i & 1 or hist[i][1] > horizon:
                continue
            kind, _, _, v = hist[i]
            if kind == "save":
                if go(done | 1 << i, v):
                    return True
            elif v == state and go(done | 1 << i, state):
                return True
        return False
    return go(0, first)


def execute(case, ch, res):
    with fs.Scratch() as d:
        world = (Subcolumns if case["what"] == "subcolumns" else Statistics)(case, d, res)
        if res.violations:
            return
        if case["old"]:
            world.save(0)
        res.event(case["what"], case["mode"])
        if case["mode"] == "processes":
            hist, left_ok = processes(case, ch, res, d, world)
        else:
            hist, left_ok = threads(case, ch, res, d, world)
        if hist is None:
            return
        # ---- afterwards ----
        end = max([h[2] for h in hist if h[2] is not None] + [0]) + 1
        if os.path.exists(world.path):
            st, v = fs.in_process(world.load)
            if st != "ok" or isinstance(v, str):
                res.violate("partial", "after %s the file under the requested name is unusable: %s" % (told(hist), v))
                return
            hist.append(["load", end, end, v])
        else:
            hist.append(["load", end, end, None])
        res.state("history", tuple((h[0], h[2] is None, h[3]) for h in hist))
        if not linearizable(hist, 0 if case["old"] else None):
            res.violate("not-atomic", "no order of the saves explains what was loaded: %s" % told(hist))
            return
        left = sorted(set(os.listdir(d)) - {os.path.basename(world.path)})
        if left and not left_ok:
            res.violate("leftover", "after %s there is left behind %s" % (told(hist), [x.split(".")[0] + "..." for x in left]))
            return
        v = max(versions(case))
        world.save(v)
        st, got = fs.in_process(world.load)
        if st != "ok" or got != v:
            res.violate("not-usable", "after %s a further save and load yields %s" % (told(hist), got))


def told(hist):
    return "; ".join("%s %s [%s, %s]" % (k, v, a, "?" if b is None else b) for k, a, b, v in hist)


def record(hist, kind, v, start, end, st, value, res, hurt):
    """One finished operation -> history entry, or None after a violation."""
    if kind == "save":
        if st != "ok" and not hurt:
            res.violate("exception", "saving version %d while others save and load the same file failed: %s" % (v, value))
            return False
        hist.append(["save", start, end if st == "ok" else None, v])
    elif st == "ok":
        if isinstance(value, str):
            res.violate("partial", "a load yields %s" % value)
            return False
        hist.append(["load", start, end, value])
    elif st == "raised":
        if value.startswith("FileNotFoundError"):
            hist.append(["load", start, end, None])
        elif not hurt:
            res.violate("exception", "loading while others save the same file failed: %s" % value)
            return False
    return True


def processes(case, ch, res, d, world):
    sim = fs.Actors(ch, res, case["gap"], d)
    scripts = [[("%s %d" % (k, v), (lambda v=v: world.save(v)) if k == "save" else world.load) for k, v in ops] for ops in case["actors"]]
    hurts = {int(k): v for k, v in case["hurt"].items()}
    procs = sim.run(scripts, hurts)
    res.nontrivial = sim.switches > 0
    res.fault("process_switch", sim.switches)
    res.state(tuple(sim.signature))
    res.event(sim.signature, sim.clock)
    hist, left_ok = [], False
    for i, p in enumerate(procs):
        if p["hung"]:
            res.violate("no-progress", "a process neither goes on nor ends while others save and load the same file")
            return None, None
        hit = i in hurts and p["ops"] > hurts[i][0]
        left_ok = left_ok or (hit and True)
        for (kind, v), (label, start, end, st, value) in zip(case["actors"][i], p["hist"]):
            if st == "died" and not (hit and hurts[i][1] == "k"):
                if hit:
                    res.probe("process_death_by_library_abort")
                else:
                    res.violate("exception", "a process died while others save and load the same file (%s)" % label)
                    return None, None
            if not record(hist, kind, v, start, end, st, value, res, hit):
                return None, None
    return hist, left_ok


def threads(case, ch, res, d, world):
    clock, box, out = [0], [], []

    def script(ops):
        done = []
        out.append(done)

        def body():
            for k, v in ops:
                clock[0] += 1
                box[0].seen.clear()
                done.append([k, v, clock[0], None, "died", None])
                try:
                    r = world.save(v) if k == "save" else world.load()
                    st = "ok"
                except Exception as e:  # noqa: BLE001 - the outcome
                    st, r = "raised", "%s: %s" % (type(e).__name__, str(e)[:300])
                clock[0] += 1
                done[-1][3:] = [clock[0], st, r]
        return body
    focus = ["subcolumns_to_netcdf", "save_cfads_to_nc", "load_subcolumns_from_netcdf"] if case["focus"] else None
    sim = seams.ThreadSim(ch, res, switch_every=case["gap"] // 5 + 1, focus=focus, once=case["focus"])
    box.append(sim)
    bodies = [script(ops) for ops in case["actors"]]
    for st, v in sim.run(bodies):
        if st == "exc":
            raise v
    res.nontrivial = sim.switches > 0
    res.state(tuple(sim.signature))
    hist = []
    for done in out:
        for k, v, start, end, st, value in done:
            if not record(hist, k, v, start, end, st, value, res, False):
                return None, None
    return hist, False
