"""P25 - saved statistics are complete or absent, and saving changes nothing in memory."""
import os

import numpy as np
import xarray as xr

from .. import core, emu, fs, synth
from . import p23

ID = "P25"
RUNS = {"quick": 160, "thorough": 4000}
RULE = ("frequency diagrams, cloud fractions and bins of a simulated set of columns are saved in a random history (other grids and bins, new names, a name already "
        "in use), some saves with one or two faults at a drawn file operation: error return, short transfer, process death before/after/in the middle of it; after "
        "each the file and the simulation in memory are compared with what was handed over; non-trivial: a fault fired or at least two saves")
STATE_MEASURE = "distinct (operation, position in the save, fault kind, target in use, outcome) combinations"
REAL = ["emc2.statistics_LLNL.statistical_output", "emc2.simulator", "emc2.core.model", "xarray", "netCDF-C / HDF5 libraries", "the kernel's file system (scratch directory)"]
STUB = ["file operations that carry a fault (LD_PRELOAD shim)", "process death (_exit in a forked process)", "model files and statistics values (generated)"]
ASSUMPTIONS = ["process death, not power loss: data handed to the kernel survives"]


def setup():
    emu.preload()
    import emc2.statistics_LLNL             # noqa: F401
    fs.lib()


def gen(rng, i, tier):
    split = rng.choice([[2], [2, 1], [1, 1], [3]])
    nt = rng.choice([1, 2, 3])
    c = {"kind": "ncol", "fmt": "E3SM", "split": split, "region": [sum(split), 1, nt], "finalize": rng.random() < 0.5, "classify": False,
         "np_seed": rng.randrange(2 ** 31)}
    c["spec"] = synth.gen_spec(rng, T=sum(split) * nt, H=rng.choice([3, 4, 6]), N=rng.choice([1, 2, 3]), hyd=["cl", "ci", "pl", "pi"], conv=False, density=0.7)
    ops = []
    for k in range(rng.choice([1, 2, 2, 3])):
        o = {"seed": rng.randrange(2 ** 31), "G": rng.choice([2, 3, 5]), "B": rng.choice([2, 4, 15]), "S": rng.choice([2, 5, 14]),
             "bins": rng.choice(["edges", "mids"]), "name": rng.choice(["a.nc", "a.nc", "a.nc", "b.nc"]), "faults": []}
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice(["EIO", "EIO", "ENOSPC", "ENOSPC", "EMFILE", "EACCES", "EINTR", "short", "short", "torn", "before", "after", "before"])
            f = {"kind": kind, "frac": rng.random(), "rep": rng.choice([1, 1, 1, 3, 10 ** 6]) if kind in ("EIO", "ENOSPC") else 1}
            if kind in ("EMFILE", "EACCES"):
                f["ops"] = [fs.OPEN]
            elif kind == "EINTR":
                f["ops"] = [fs.READ, fs.WRITE]
            elif kind == "short":
                f["ops"] = [fs.WRITE, fs.READ]
            elif kind == "ENOSPC":
                f["ops"] = [fs.WRITE, fs.TRUNC]
            elif rng.random() < 0.35:
                f["ops"] = [rng.choice([fs.RENAME, fs.CLOSE, fs.WRITE, fs.TRUNC, fs.OPEN])]
            o["faults"].append(f)
        ops.append(o)
    c["ops"] = ops
    return c


def shrink(case):
    n = len(case["ops"])
    for i in range(n):
        if n > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i, o in enumerate(case["ops"]):
        for j in range(len(o["faults"])):
            yield dict(case, ops=case["ops"][:i] + [dict(o, faults=o["faults"][:j] + o["faults"][j + 1:])] + case["ops"][i + 1:])
    if case["finalize"]:
        yield dict(case, finalize=False)


def read(path):
    with xr.open_dataset(path) as f:
        return {k: (f[k].dims, np.array(f[k].values, copy=True)) for k in f.variables}


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "mM" or b.dtype.kind in "mM":
        return a.dtype.kind == b.dtype.kind and np.array_equal(a.astype("M8[ns]") if a.dtype.kind == "M" else a, b.astype("M8[ns]") if b.dtype.kind == "M" else b)
    if a.dtype.kind in "fciub":
        return core.arr_equal(a.astype(float), b.astype(float), rtol=0, atol=0)
    return np.array_equal(a, b)


def complete(got, sim, st):
    """Is got a complete statistics file of simulation `sim` and statistics `st`? -> None or a description."""
    for k, v in sim.items():
        if k in got and sorted(got[k][0]) == sorted(v[0]) and got[k][0] != v[0]:
            v = (got[k][0], np.transpose(v[1], [v[0].index(x) for x in got[k][0]]))
        if k not in got or not eq(got[k][1], v[1]):
            return "the simulation's field %s is %s" % (k, "missing" if k not in got else "different")
    for k in ("CFAD_Radar", "CFAD_SR", "cloud_fraction"):
        if k not in got:
            return "%s is missing" % k
        if not eq(got[k][1], st[k]):
            return "%s is not what was handed over" % k
    if not any(eq(v[1], st["bins"]) for k, v in got.items() if k not in sim):
        return "the reflectivity bins are missing"
    return None


def stats(o, nt, nc):
    r = np.random.default_rng(o["seed"])
    G = o["G"]
    cf = r.random((nt, G, nc))
    cf[r.random(cf.shape) < 0.2] = np.nan
    edges = np.arange(-50., -50. + 5 * o["B"] + 1, 5.)
    return {"CFAD_Radar": r.random((G, o["B"])), "CFAD_SR": r.random((G, o["S"])), "cloud_fraction": cf,
            "bins": edges if o["bins"] == "edges" else (edges[:-1] + edges[1:]) / 2}


def execute(case, ch, res):
    from emc2.statistics_LLNL import statistical_output as so
    with fs.Scratch() as d:
        m = p23.build(case, d, 0)
        if isinstance(m, emu.Failed):
            res.violate("exception", "simulation failed: " + m.text)
            return
        nt, nc = m.ds.sizes["time"], m.ds.sizes["ncol"]
        before = p23.snap(m)
        sim = {k: (v[2], v[0]) for k, v in before[0].items()}
        out = os.path.join(d, "out")
        os.mkdir(out)
        have = {}                                       # name -> statistics in the file of that name
        res.nontrivial = len(case["ops"]) > 1
        for i, o in enumerate(case["ops"]):
            s = stats(o, nt, nc)
            target = os.path.join(out, o["name"])
            given = {k: v.copy() for k, v in s.items()}

            def save(name):
                so.save_cfads_to_nc(m, s["bins"], s["cloud_fraction"], s["CFAD_Radar"], s["CFAD_SR"], out + "/", name)

            if o["faults"]:
                def dry():
                    fs.arm(d)
                    save("dry.nc")
                    n, _, log, _ = fs.disarm()
                    os.remove(os.path.join(out, "dry.nc"))
                    return n, log
                st, v = fs.in_process(dry)
                if st != "ok":
                    res.violate("exception", "save %d failed without a fault: %s %s" % (i, st, v))
                    return
                total, log = v
                res.steps += total
                faults = []
                for f in o["faults"]:
                    n = sum(1 for x in log if not f.get("ops") or x in f["ops"])
                    faults.append({"ops": f.get("ops"), "at": int(f["frac"] * n), "kind": f["kind"], "rep": f["rep"], "arg": 0})

                def hurt():
                    fs.arm(d, faults)
                    err = None
                    try:
                        save(o["name"])
                    except Exception as e:  # noqa: BLE001 - the outcome under test
                        err = "%s: %s" % (type(e).__name__, str(e)[:200])
                    _, fired, _, _ = fs.disarm()
                    return err, fired, p23.same(before, p23.snap(m))
                old = None
                if os.path.exists(target):
                    with open(target, "rb") as f:
                        old = f.read()
                left0 = sorted(os.listdir(out))
                st, v = fs.in_process(hurt)
                fired = False
                if st == "ok":
                    err, counts, bad = v
                    for f, k in zip(faults, counts):
                        if k:
                            fired = True
                            res.fault("disk_" + f["kind"], int(min(k, 50)))
                    outcome = "raised" if err else "returned"
                    if bad:
                        res.violate("changed", "a save that %s changed the simulation in memory: %s" % (outcome, bad))
                        return
                elif st == "crashed":
                    outcome, err, fired = "died", "exit %s" % v, True
                    res.fault("process_death" if v == fs.CRASH_CODE else "process_death_by_library_abort")
                else:
                    res.violate("exception", "saving ended with %s %s" % (st, v))
                    return
                for f in faults:
                    res.state(tuple(f["ops"] or ()), f["at"], f["kind"], old is not None, outcome)
                res.event(outcome, total)
                res.nontrivial = res.nontrivial or fired
                desc = "save %d with %s (%s)" % (i, ", ".join("%s at operation %d of %s" % (
                    f["kind"], f["at"], [fs.OPNAME[x] for x in f["ops"]] if f["ops"] else "all") for f in faults), outcome)
                if not fired and outcome != "returned":
                    res.violate("exception", "saving failed without a fault: %s" % err)
                    return
                now = None
                if os.path.exists(target):
                    with open(target, "rb") as f:
                        now = f.read()
                rs, got = fs.in_process(lambda: read(target)) if now is not None else ("none", None)
                if outcome == "returned":
                    bad = "missing or unreadable: %s" % got if rs != "ok" else complete(got, sim, given)
                    if bad:
                        res.violate("false-success", "%s: the call returned but %s" % (desc, bad))
                        return
                    have[o["name"]] = given
                elif now is None:
                    if old is not None:
                        res.violate("old-lost", "%s: the file saved earlier is gone" % desc)
                        return
                elif now != old:
                    bad = "it is unreadable: %s" % got if rs != "ok" else complete(got, sim, given)
                    if bad:
                        res.violate("partial", "%s: the file under the requested name is neither the old nor the complete new one: %s" % (desc, bad))
                        return
                    have[o["name"]] = given
                left = sorted(set(os.listdir(out)) - set(left0) - {o["name"]})
                cleanup_hit = any(not f["ops"] or fs.UNLINK in f["ops"] for f in faults)
                if left and (outcome == "returned" or (outcome == "raised" and not cleanup_hit)):
                    res.violate("leftover", "%s: left behind %s" % (desc, left))
                for x in left:
                    os.remove(os.path.join(out, x))
                if outcome == "returned":
                    continue
            # ---- the undisturbed save, in this process: its effects stay for the next one ----
            r = emu.attempt(save, o["name"])
            if isinstance(r, emu.Failed):
                res.violate("exception", "save %d of the history failed without a fault: %s" % (i, r.text))
                return
            have[o["name"]] = given
            bad = p23.same(before, p23.snap(m))
            if bad:
                res.violate("changed", "save %d changed the simulation in memory: %s" % (i, bad))
                return
            for k in s:
                if not core.arr_equal(s[k], given[k], rtol=0, atol=0):
                    res.violate("argument", "save %d changed %s passed to it" % (i, k))
                    return
            for name, w in have.items():
                rs, got = fs.in_process(lambda: read(os.path.join(out, name)))
                bad = "it is unreadable: %s" % got if rs != "ok" else complete(got, sim, w)
                if bad:
                    res.violate("content", "after save %d: %s: %s" % (i, name, bad))
                    return
            res.state("plain", o["name"], o["G"], len(have))
            res.event("saved", o["name"], s["CFAD_Radar"])
