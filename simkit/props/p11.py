"""P11 - saving subcolumns is all or nothing, and what was saved reads back exactly."""
import os

import numpy as np
import xarray as xr

from emc2.simulator.classification import calculate_phase_ratio

from .. import core, emu, fs, seams, synth

ID = "P11"
RUNS = {"quick": 330, "thorough": 6000}
RULE = ("random model (subcolumns, sometimes with simulated moments) saved to a file that does not exist, holds an older save, or is the file "
        "the model's subcolumns were loaded from; one or two faults at a drawn file operation of the save: error return (EIO, ENOSPC, EACCES, "
        "EMFILE, EINTR), short transfer, or process death before/after/in the middle of it; then a restart: read the file, save again, load into "
        "a fresh model; non-trivial: a fault fired")
STATE_MEASURE = "distinct (operation, position in the save, fault kind, target situation) combinations"
REAL = ["emc2.core.model save and load", "xarray", "netCDF-C / HDF5 libraries", "the kernel's file system (scratch directory)"]
STUB = ["file operations that carry a fault (LD_PRELOAD shim)", "process death (_exit in a forked process)", "model data files (synthetic models)"]
ASSUMPTIONS = ["process death, not power loss: data handed to the kernel survives"]


def setup():
    synth.preload(["KAZR", "HSRL"])
    fs.lib()


def gen(rng, i, tier):
    c = {"spec": synth.gen_spec(rng, T=rng.choice([1, 2, 3, 40]), H=rng.choice([3, 4, 6]), N=rng.choice([1, 2, 4, 8])),
         "np_seed": rng.randrange(2 ** 31), "moments": rng.choice([None, None, "KAZR", "HSRL"]), "finalize": rng.random() < 0.3,
         "target": rng.choice(["new", "old", "old", "self"]), "faults": []}
    if c["spec"]["T"] == 40:
        c["moments"] = None
    c["classify"] = c["moments"] is not None and rng.random() < 0.5
    c["held"] = rng.choice([None, "other", "other", "same", "count"])
    c["load_fault"] = rng.choice([None, {"kind": rng.choice(["EIO", "EIO", "short", "EMFILE", "EINTR"]), "frac": rng.random(),
                                         "rep": rng.choice([1, 1, 10 ** 6])}])
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        kind = rng.choice(["EIO", "EIO", "ENOSPC", "ENOSPC", "EMFILE", "EACCES", "EINTR", "short", "short", "torn", "before", "after", "before"])
        f = {"kind": kind, "frac": rng.random(), "rep": rng.choice([1, 1, 1, 3, 10 ** 6]) if kind in ("EIO", "ENOSPC") else 1}
        if kind in ("EMFILE", "EACCES"):
            f["ops"] = [fs.OPEN]
        elif kind == "EINTR":
            f["ops"] = [fs.READ, fs.WRITE]
        elif kind in ("short",):
            f["ops"] = [fs.WRITE, fs.READ]
        elif kind == "ENOSPC":
            f["ops"] = [fs.WRITE, fs.TRUNC]
        elif rng.random() < 0.35:
            f["ops"] = [rng.choice([fs.RENAME, fs.CLOSE, fs.WRITE, fs.TRUNC, fs.OPEN])]
        c["faults"].append(f)
    return c


def shrink(case):
    for j in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            yield dict(case, faults=case["faults"][:j] + case["faults"][j + 1:])
    if case["moments"]:
        yield dict(case, moments=None, classify=False)
    if case["finalize"]:
        yield dict(case, finalize=False)
    if case["held"]:
        yield dict(case, held=None)
    if case["load_fault"]:
        yield dict(case, load_fault=None)
    for s in synth.shrink_spec(case["spec"]):
        yield dict(case, spec=s)


def build(case, spec, seed_shift, res, rng_mode="seeded"):
    """A model with subcolumns (and moments) to save."""
    m = synth.SynthModel(spec)
    c = {"spec": spec, "opt": {"inst": case["moments"] or "HSRL", "approach": "rad"}, "np_seed": case["np_seed"] + seed_shift,
         "rng_mode": rng_mode}
    if case["classify"]:
        c["opt"]["do_classify"] = True
    more = {} if case["moments"] else {"subcol_gen_only": True}
    out = emu.full_run(m, c, dict(emu.PLAIN), core.Choices("0", []), core.Result(), finalize_fields=case["finalize"], **more)
    if isinstance(out, emu.Failed):
        res.violate("exception", "preparing the model failed: " + out.text)
        return None
    if case["classify"]:                    # what may be derived from the masks before a save
        for k in sorted(k for k in m.ds.data_vars if "phase_mask" in k)[:4]:
            for more in ({}, {"mass_pr": True, "mpr_subcolmod": True}, {"mass_pr": True}):
                out = emu.attempt(calculate_phase_ratio, m, k, 1, **more)
                if isinstance(out, emu.Failed):
                    res.violate("exception", "preparing the model failed: " + out.text)
                    return None
    return m


SAVED = ("subcolumns", "sub_col_")


def expected(m):
    """Fields that must be in a save: every subcolumn field."""
    return {k: np.array(v.values, copy=True) for k, v in m.ds.variables.items()
            if ("subcolumn" in v.dims or k == "mpr_q" or k.endswith(("_fpr", "_mpr", "_mpr_sum"))) and k not in m.ds.coords}


def read(path, m):
    """What the restarted program finds at path: {name: values}."""
    with xr.open_dataset(path) as f:
        return {k: np.array(f[k].values, copy=True) for k in f.variables}


def complete(got, want):
    """Is got a complete copy of want? -> None or a description."""
    for k, v in want.items():
        if k not in got:
            return "field %s is missing" % k
        if not core.arr_equal(got[k], v, rtol=0, atol=0):
            return "field %s: %s" % (k, core.first_diff(got[k], v, rtol=0, atol=0))
    return None


def execute(case, ch, res):
    spec = case["spec"]
    with fs.Scratch() as d:
        target = os.path.join(d, "sub.nc")
        m = build(case, spec, 0, res)
        if m is None:
            return
        want = expected(m)
        old_bytes = old = None
        if case["target"] != "new":
            o = build(case, spec, 1, res) if case["target"] == "old" else m
            if o is None:
                return
            o.subcolumns_to_netcdf(target)
            old = expected(o)
            with open(target, "rb") as f:
                old_bytes = f.read()
        if case["target"] == "self":
            m = synth.SynthModel(spec)
            m.load_subcolumns_from_netcdf(target)
            bad = complete({k: m.ds[k].values for k in m.ds.variables}, want)
            if bad:
                res.violate("load", "fields loaded into a fresh model differ from the saved model's: " + bad)
                return
        before = sorted(os.listdir(d))

        # how many operations a save takes (a dry run in a process of its own, to another name)
        def dry():
            fs.arm(d)
            m.subcolumns_to_netcdf(os.path.join(d, "dry.nc"))
            n, _, log, op = fs.disarm()
            os.remove(os.path.join(d, "dry.nc"))
            return n, log
        st, v = fs.in_process(dry)
        if st != "ok":
            res.violate("exception", "saving failed without a fault: %s %s" % (st, v))
            return
        total, log = v
        res.steps += total
        faults = []
        for f in case["faults"]:
            ops = f.get("ops")
            n = sum(1 for o in log if not ops or o in ops)
            faults.append({"ops": ops, "at": int(f["frac"] * n), "kind": f["kind"], "rep": f["rep"], "arg": 0})

        def save():
            fs.arm(d, faults)
            err = None
            try:
                m.subcolumns_to_netcdf(target)
            except Exception as e:  # noqa: BLE001 - the outcome under test
                err = "%s: %s" % (type(e).__name__, str(e)[:200])
            n, fired, _, _ = fs.disarm()
            return err, fired, n
        st, v = fs.in_process(save)
        fired = False
        if st == "ok":
            err, counts, n = v
            for f, k in zip(faults, counts):
                if k:
                    fired = True
                    res.fault("disk_" + f["kind"], int(min(k, 50)))
            outcome = "raised" if err else "returned"
        elif st == "crashed":
            outcome, err = "died", "exit %s" % v
            fired = True
            res.fault("process_death" if v == fs.CRASH_CODE else "process_death_by_library_abort")
        else:
            res.violate("exception", "saving ended with %s %s" % (st, v))
            return
        for f in faults:
            res.state(tuple(f["ops"] or ()), f["at"], f["kind"], case["target"], outcome)
        res.event(outcome, total)
        res.nontrivial = fired
        desc = "save with %s (%s)" % (", ".join("%s at operation %d of %s" % (
            f["kind"], f["at"], [fs.OPNAME[o] for o in f["ops"]] if f["ops"] else "all") for f in faults) or "no fault", outcome)
        if not fired and outcome != "returned":
            res.violate("exception", "saving failed without a fault: %s" % err)
            return

        # ---- restart: what is on disk ----
        now = None
        if os.path.exists(target):
            with open(target, "rb") as f:
                now = f.read()
        st, got = fs.in_process(lambda: read(target, m)) if now is not None else ("none", None)
        if outcome == "returned":
            if st != "ok":
                res.violate("false-success", "%s: the call returned but the file is %s" % (desc, "missing" if now is None else "unreadable: %s" % got))
                return
            bad = complete(got, want)
            if bad:
                res.violate("false-success", "%s: the call returned but %s" % (desc, bad))
                return
        elif now is None:
            if old_bytes is not None:
                res.violate("old-lost", "%s: the file saved earlier is gone" % desc)
                return
        elif old_bytes is None or now != old_bytes:
            if st != "ok":
                res.violate("partial", "%s: an unreadable file is left under the requested name: %s" % (desc, got))
                return
            bad = complete(got, want)
            if bad and old is not None and complete(got, old) is None:
                bad = None
            if bad:
                res.violate("partial", "%s: the file under the requested name is neither the old nor the complete new save: %s" % (desc, bad))
                return
        left = sorted(set(os.listdir(d)) - set(before) - {"sub.nc"})
        cleanup_hit = any(not f["ops"] or fs.UNLINK in f["ops"] for f in faults)
        if left and (outcome == "returned" or (outcome == "raised" and not cleanup_hit)):
            res.violate("leftover", "%s: left behind %s" % (desc, left))
        if left and outcome == "died":
            res.probe("temporary_file_after_death")
        # ---- restart: save again and resume from it ----
        if outcome != "returned":
            res.probe("saved_again_after_" + outcome)
            m.subcolumns_to_netcdf(target)
        f = synth.SynthModel(spec)
        inputs = emu.snapshot(f)
        f.load_subcolumns_from_netcdf(target)
        bad = complete({k: f.ds[k].values for k in f.ds.variables}, want)
        if bad:
            res.violate("load", "%s: fields loaded into a fresh model differ: %s" % (desc, bad))
        bad = complete({k: f.ds[k].values for k in f.ds.variables}, inputs)
        if bad:
            res.violate("load", "%s: loading changed the model's own fields: %s" % (desc, bad))
        load_again(case, spec, d, target, want, res, desc)
        os.remove(target)
        bad = complete({k: f.ds[k].values for k in f.ds.variables}, want)
        if bad:
            res.violate("load", "%s: loaded fields depend on the file staying in place: %s" % (desc, bad))


def load_again(case, spec, d, target, want, res, desc):
    """The save loaded where subcolumns are already held, or with the disk failing: exact, or refused without a trace."""
    if case["held"]:
        if case["held"] == "count":
            spec = dict(spec, N=spec["N"] + 1)
        g = build(case, spec, 0 if case["held"] == "same" else 1, res)
        if g is None:
            return
        held = emu.snapshot(g)
        try:
            g.load_subcolumns_from_netcdf(target)
            refused = None
        except Exception as e:  # noqa: BLE001 - a refusal is a correct outcome unless the subcolumns are the same
            refused = "%s: %s" % (type(e).__name__, str(e)[:150])
        after = {k: g.ds[k].values for k in g.ds.variables}
        res.state("held", case["held"], refused is None)
        res.probe("load_over_%s_subcolumns_%s" % (case["held"], "refused" if refused else "accepted"))
        if refused is not None:
            if case["held"] == "same":
                res.violate("load", "%s: loading the save into a model holding these very subcolumns failed: %s" % (desc, refused))
            bad = complete(after, held) or (sorted(set(after) - set(held)) and "new fields %s" % sorted(set(after) - set(held)))
            if bad:
                res.violate("load", "%s: a refused load changed the model: %s" % (desc, bad))
        else:
            if case["held"] == "count":  # accepted only where the saved subcolumns are the first ones held: those have the saved values
                after = {k: g.ds[k].isel(subcolumn=slice(0, case["spec"]["N"])).values for k in want if k in g.ds}
            # cells the save holds as NaN may keep the model's value: loading merges
            after = {k: np.where(np.isnan(want[k]), np.nan, v) if v.dtype.kind == "f" and np.shape(want.get(k)) == v.shape else v
                     for k, v in after.items()}
            bad = complete(after, want)
            if bad:
                res.violate("load", "%s: loading into a model that held %s returned, but the model does not hold what was saved: %s" % (
                    desc, {"other": "other subcolumns", "same": "the same subcolumns", "count": "another number of subcolumns"}[case["held"]], bad))
    f = case["load_fault"]
    if not f:
        return
    g = synth.SynthModel(case["spec"])
    held = emu.snapshot(g)

    def dry():
        fs.arm(d)
        synth.SynthModel(case["spec"]).load_subcolumns_from_netcdf(target)
        _, _, log, _ = fs.disarm()
        return log
    st, log = fs.in_process(dry)
    if st != "ok":
        res.violate("load", "%s: loading failed without a fault: %s %s" % (desc, st, log))
        return
    ops = {"short": [fs.READ], "EINTR": [fs.READ], "EMFILE": [fs.OPEN]}.get(f["kind"])
    n = sum(1 for o in log if not ops or o in ops)
    fault = {"ops": ops, "at": int(f["frac"] * n), "kind": f["kind"], "rep": f["rep"] if f["kind"] in ("EIO",) else 1, "arg": 0}

    def load():
        fs.arm(d, [fault])
        err = None
        try:
            g.load_subcolumns_from_netcdf(target)
        except Exception as e:  # noqa: BLE001 - the outcome under test
            err = "%s: %s" % (type(e).__name__, str(e)[:200])
        _, fired, _, _ = fs.disarm()
        return err, fired, {k: np.array(g.ds[k].values, copy=True) for k in g.ds.variables}
    st, v = fs.in_process(load)
    if st != "ok":
        res.probe("process_death_by_library_abort" if st == "crashed" else "load_" + st)
        return
    err, fired, after = v
    if fired[0]:
        res.fault("load_" + f["kind"], int(min(fired[0], 50)))
    res.state("load", fault["at"], f["kind"], err is None)
    what = "%s; then loading with %s at operation %d of %s" % (desc, f["kind"], fault["at"], [fs.OPNAME[o] for o in ops] if ops else "all")
    if err is None:
        bad = complete(after, want) or complete(after, held)
        if bad:
            res.violate("load", "%s returned, but %s" % (what, bad))
    else:
        if not fired[0]:
            res.violate("load", "%s failed without a fault: %s" % (what, err))
        bad = complete(after, held) or (sorted(set(after) - set(held)) and "new fields %s" % sorted(set(after) - set(held)))
        if bad:
            res.violate("load", "%s raised (%s), but the model changed: %s" % (what, err, bad))
