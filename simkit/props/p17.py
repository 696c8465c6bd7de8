"""P17 - a simulation resumed from saved subcolumns in a new process equals the uninterrupted one."""
import os

import numpy as np

from .. import core, emu, files, fs, seams, synth
from emc2.core import model as _mm

ID = "P17"
RUNS = {"quick": 110, "thorough": 2500}
RULE = ("a process generates subcolumns (sometimes also another instrument's moments), saves them and is killed at a drawn line of what it does next; a new "
        "process opens the same input, loads the save, and simulates the instrument(s) under another schedule, sometimes saving again and resuming once more; "
        "the result is compared with one uninterrupted run; non-trivial: the first process died, or the save was read back by another process")
STATE_MEASURE = "distinct (approach, scheme, instrument, death point file:line, number of restarts) combinations"
REAL = ["emc2.core.model save and load", "emc2.simulator", "xarray, netCDF-C / HDF5", "the kernel's file system (scratch directory)"]
STUB = ["process death (_exit at a drawn line in a forked process)", "dask's schedulers (seeded scheduler)", "model data (synthetic models or files written by the harness)"]
ASSUMPTIONS = ["process death, not power loss: data handed to the kernel survives"]


def setup():
    emu.preload()
    fs.lib()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.1:
        c["spec"]["N"] = 1
    c["rng_mode"] = rng.choice(["seeded", "fixed0", "fixed1", "fixed3"])
    if c["rng_mode"] == "seeded":
        c["sched"] = dict(emu.PLAIN)
    # which generator logic applies is part of what is saved: every observation of a case uses the same
    c["second"] = None
    if rng.random() < 0.35:
        for _ in range(30):
            o = emu.gen_options(rng, c["spec"]["scheme"], c["spec"]["rad"])
            if (o["approach"] == "rad") == (c["opt"]["approach"] == "rad") and o["inst"] in emu.QUICK_LIDARS and c["opt"]["inst"] in emu.QUICK_RADARS:
                c["second"] = o
                break
    c["save_after"] = rng.choice(["subcolumns", "subcolumns", "moments"])
    c["die"] = rng.choice([None, "line", "line", "line"])
    c["frac"] = rng.random()
    c["restarts"] = rng.choice([1, 1, 2])
    c["sched2"] = emu.gen_schedule(rng)
    c["fmt"] = None
    if c["spec"]["scheme"] == "MG2" and rng.random() < 0.3:
        c["fmt"] = rng.choice(["ModelE", "E3SM", "DHARMA"])
        h = c["spec"]["hyd"]
        if set(h) - {"cl", "ci", "pl", "pi"} or len(h) < 4:
            c["fmt"] = None
    return c


def shrink(case):
    if case["second"]:
        yield dict(case, second=None)
    if case["restarts"] > 1:
        yield dict(case, restarts=1)
    if case["die"]:
        yield dict(case, die=None)
    if case["save_after"] != "subcolumns":
        yield dict(case, save_after="subcolumns")
    for s in emu.shrink_schedule(case["sched2"]):
        yield dict(case, sched2=s)
    for c in emu.shrink_full(case):
        yield c


def execute(case, ch, res):
    spec, opt = case["spec"], case["opt"]
    with fs.Scratch() as d:
        src = os.path.join(d, "input.nc")
        save = os.path.join(d, "sub.nc")
        if case["fmt"]:
            files.write(src, spec, case["fmt"])

        def model():
            return files.load(case["fmt"], src) if case["fmt"] else synth.SynthModel(spec)

        # ---- the uninterrupted run ----
        ref = model()
        out = emu.full_run(ref, case, dict(emu.PLAIN), core.Choices("0", []), res)
        if not isinstance(out, emu.Failed) and case["second"]:
            out = emu.full_run(ref, case, dict(emu.PLAIN), core.Choices("0", []), res, skip=True, opt=case["second"])
        if isinstance(out, emu.Failed):
            res.violate("exception", "uninterrupted run failed: " + out.text)
            return

        # ---- the first process ----
        def first(n_die):
            m = model()
            r = core.Result()
            more = {"subcol_gen_only": True} if case["save_after"] == "subcolumns" else {}
            o = emu.full_run(m, case, case["sched"], core.Choices(case["sched_seed"], None), r, **more)
            if isinstance(o, emu.Failed):
                raise RuntimeError(o.text)
            m.subcolumns_to_netcdf(save)
            cnt = seams.StepCounter()
            if n_die is not None:
                def die():
                    os._exit(fs.CRASH_CODE)
                cnt = seams.InjectAt(n_die, die)
            nxt = opt if case["save_after"] == "subcolumns" else case["second"]
            if nxt:
                o = emu.full_run(m, case, case["sched"], core.Choices(case["sched_seed"], None), core.Result(), skip=True, opt=nxt, counter=cnt)
                if isinstance(o, emu.Failed):
                    raise RuntimeError(o.text)
            return cnt.n, r.faults

        st, v = fs.in_process(lambda: first(None))
        if st != "ok":
            res.violate("exception", "first process failed: %s %s" % (st, v))
            return
        n, fl = v
        for k, x in fl.items():
            res.fault(k, x)
        died = False
        if case["die"] and n > 1:
            at = 1 + int(case["frac"] * n)
            st, v = fs.in_process(lambda: first(at))
            died = st == "crashed"
            if died:
                res.fault("process_death")
        res.state(opt["approach"], spec["scheme"], opt["inst"], case["second"] and case["second"]["inst"], int(case["frac"] * 20) if died else None,
                  case["restarts"], case["fmt"])
        res.nontrivial = True

        # ---- the next process(es) ----
        m = None
        for k in range(case["restarts"]):
            m = model()
            o = emu.attempt(m.load_subcolumns_from_netcdf, save)
            if isinstance(o, emu.Failed):
                res.violate("load", "restart %d: loading the save failed: %s" % (k + 1, o.text))
                return
            if k < case["restarts"] - 1:
                o = emu.attempt(m.subcolumns_to_netcdf, save)
                if isinstance(o, emu.Failed):
                    res.violate("save-again", "restart %d: saving what was loaded failed: %s" % (k + 1, o.text))
                    return
        todo = ([] if case["save_after"] == "moments" else [opt]) + ([case["second"]] if case["second"] else [])
        for o_ in todo:
            o = emu.full_run(m, case, case["sched2"], ch, res, skip=True, opt=o_)
            if isinstance(o, emu.Failed):
                res.violate("exception", "resumed simulation of %s failed: %s" % (o_["inst"], o.text))
                return
        names = emu.observables(ref)
        scal = {k for k in names if not ref.ds[k].ndim}
        saved_only = case["save_after"] == "moments"
        if saved_only:        # what a save holds: subcolumn output (other helper fields are not part of a save)
            names = {k for k in names if "subcolumn" in ref.ds[k].dims or k in m.ds.variables}
        emu.compare(res, "resume", ref, m, "uninterrupted run", "run resumed from the save (%d restart%s)" % (case["restarts"], "s" * (case["restarts"] > 1)),
                    names=(names | emu.observables(m)) - scal)
        # ---- reopening the save as a processed dataset ----
        if case["fmt"] and not res.violations:
            cls = {"ModelE": _mm.ModelE, "E3SM": _mm.E3SMv1, "DHARMA": _mm.DHARMA}[case["fmt"]]
            p = emu.attempt(cls, save, load_processed=True)
            if isinstance(p, emu.Failed):
                res.violate("load", "opening the save with load_processed failed: " + p.text)
                return
            for k in sorted(x for x in ref.ds.variables if x.endswith("_prop") or "_subcolumns_" in x):
                if k not in p.ds.variables or not core.arr_equal(p.ds[k].values, ref.ds[k].values, rtol=0):
                    res.violate("load", "opened with load_processed, %s is missing or differs" % k)
                    return
