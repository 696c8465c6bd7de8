"""P16 - a simulation only adds results: inputs, model configuration, instrument and arguments stay as they were."""
import copy

import numpy as np

from .. import core, emu, files, seams, synth

ID = "P16"
RUNS = {"quick": 150, "thorough": 3000}
RULE = ("random model, instrument and options; one to three simulations in a row on one model and one instrument, under seeded schedules with duplicated and "
        "crashed tasks, sometimes cut short by an interruption, failed task or failed allocation at a drawn line; after each: input fields, their "
        "attributes, model configuration, instrument, arguments and process-wide settings are compared with what they were; non-trivial: a fault or schedule "
        "decision was taken or more than one simulation ran")
STATE_MEASURE = "distinct (approach, scheme, instrument, cut point file:line) combinations"
REAL = ["emc2.simulator", "emc2.core", "dask.bag graph construction", "numpy/xarray"]
STUB = ["dask's schedulers (seeded scheduler)", "model data files (synthetic models)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]))
    if rng.random() < 0.2:
        c = files.gen_base(rng, c)
    c["rng_mode"] = rng.choice(["seeded", "fixed0"])
    c["more"] = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        o = emu.gen_options(rng, c["spec"]["scheme"], c["spec"]["rad"])
        c["more"].append(o)
    c["cut"] = None
    if rng.random() < 0.45:
        c["cut"] = dict(seams.gen_cut(rng), kind=rng.choice(["interrupt", "memory", "error"]))
    c["finalize"] = rng.random() < 0.3
    c["mask_rng"] = rng.random() < 0.3
    return c


def shrink(case):
    if case["more"]:
        yield dict(case, more=case["more"][:-1])
    if case["cut"]:
        yield dict(case, cut=None)
    for c in emu.shrink_full(case):
        yield c


def cfg(m):
    """A model's configuration: every public attribute except the data."""
    return {k: repr(v) for k, v in vars(m).items() if k not in ("ds", "interpobj")}


def isnap(i):
    out = {}
    for n in ("mie_table", "scat_table", "bulk_table"):
        for k, t in getattr(i, n).items():
            for v in t.variables:
                out["%s[%s].%s" % (n, k, v)] = (np.array(t[v].values, copy=True), dict(t[v].attrs))
    for k, v in vars(i).items():
        if k not in ("mie_table", "scat_table", "bulk_table"):
            out["attribute " + k] = repr(v)
    return out


def idiff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s %s" % (k, "appeared" if k not in a else "disappeared")
        x, y = a[k], b[k]
        if isinstance(x, str):
            if x != y:
                return "%s: %s -> %s" % (k, x[:80], y[:80])
        elif x[0].dtype != y[0].dtype or not core.arr_equal(x[0], y[0], rtol=0, atol=0):
            return "%s: %s" % (k, core.first_diff(y[0], x[0], rtol=0, atol=0))
        elif x[1] != y[1]:
            return "%s: attributes %s -> %s" % (k, x[1], y[1])
    return None


def world():
    import os
    import random as pyr
    import dask
    return {"dask settings": repr({k: v for k, v in dask.config.config.items() if k != "scheduler"}),
            "working directory": os.getcwd(), "environment": hash(tuple(sorted(os.environ.items()))), "Python generator": hash(pyr.getstate())}


def blanked(plain, m, res):
    """Blanking out zeros replaces the exact zeros of the subcolumn results and nothing else."""
    if set(plain.ds.variables) != set(m.ds.variables):
        res.violate("blanked", "blanking out zeros: fields %s" % sorted(set(plain.ds.variables) ^ set(m.ds.variables))[:4])
        return True
    for k in sorted(plain.ds.variables):
        x, y = plain.ds[k].values, m.ds[k].values
        if "sub_col" in k:
            x = np.where(x == 0, np.nan, x)
        if not core.arr_equal(y, x, rtol=1e-9):
            res.violate("blanked", "%s with zeros blanked out: %s (with, without)" % (k, core.first_diff(y, x)))
            return True
    return False


def execute(case, ch, res):
    m, case = files.base_model(case)
    spec = case["spec"]
    # the values and descriptions of every input field, and the dims
    inputs = {k: (np.array(m.ds[k].values, copy=True), copy.deepcopy(dict(m.ds[k].attrs)), m.ds[k].dims) for k in m.ds.variables}
    conf = cfg(m)
    names = [case["opt"]["inst"]] + [o["inst"] for o in case["more"]]
    insts = {n: synth.instrument(n) for n in set(names)}
    isn = {n: isnap(i) for n, i in insts.items()}
    w0 = world()

    def check(when):
        for k, (v, at, dims) in inputs.items():
            if k not in m.ds.variables:
                res.violate("input", "%s: input field %s is gone" % (when, k))
                return False
            x = m.ds[k]
            if x.dims != dims or x.dtype != v.dtype or not core.arr_equal(x.values, v, rtol=0, atol=0):
                res.violate("input", "%s: input field %s changed: %s" % (when, k, core.first_diff(x.values, v, rtol=0, atol=0)))
                return False
            if dict(x.attrs) != at:
                res.violate("input", "%s: attributes of input field %s changed: %s -> %s" % (when, k, at, dict(x.attrs)))
                return False
        now = cfg(m)
        for k in sorted(set(conf) | set(now)):
            if conf.get(k) != now.get(k):
                res.violate("config", "%s: model attribute %s changed: %s -> %s" % (when, k, str(conf.get(k))[:120], str(now.get(k))[:120]))
                return False
        for n, i in insts.items():
            d = idiff(isn[n], isnap(i))
            if d:
                res.violate("instrument", "%s: instrument %s changed: %s" % (when, n, d))
                return False
        w = world()
        for k in w0:
            if w[k] != w0[k]:
                res.violate("process", "%s: %s changed: %s -> %s" % (when, k, str(w0[k])[:150], str(w[k])[:150]))
                return False
        return True

    runs = [case["opt"]] + case["more"]
    for j, opt in enumerate(runs):
        more = {"finalize_fields": case["finalize"] and j == len(runs) - 1}
        hyd = list(spec["hyd"])
        rngs = [200.0, 3000.0]
        if case["mask_rng"]:
            more["mask_height_rng"] = rngs
        if j and not opt.get("do_classify"):
            more["hyd_types"] = hyd
        counter = None
        when = "after simulation %d (%s)" % (j + 1, opt["approach"])
        if case["cut"] and j == len(runs) - 1:
            # how long the call is, then cut it short
            cnt = seams.LineCounter()
            probe = synth.clone(m)
            o = emu.full_run(probe, case, case["sched"], core.Choices("0", []), core.Result(), skip=j > 0, inst=synth.instrument(opt["inst"]), opt=opt,
                             counter=cnt, **copy.deepcopy(more))
            if isinstance(o, emu.Failed):
                res.violate("exception", "simulation failed: " + o.text)
                return
            mk = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "error": lambda: OSError(5, "injected")}[case["cut"]["kind"]]
            inj = seams.cut(cnt, case["cut"], mk)
            try:
                out = emu.full_run(m, case, case["sched"], ch, res, skip=j > 0, inst=insts[opt["inst"]], opt=opt, counter=inj, **more)
            except KeyboardInterrupt:
                out = None
            if inj.fired:
                res.fault("cut_" + case["cut"]["kind"])
                res.state(opt["approach"], spec["scheme"], opt["inst"], inj.fired)
                when = "after simulation %d was cut short by %s at %s" % (j + 1, case["cut"]["kind"], inj.fired)
        else:
            if more["finalize_fields"]:                 # twice in plain order, without and with blanking
                two = []
                for fin in (False, True):
                    two.append(synth.clone(m))
                    o = emu.full_run(two[-1], case, dict(emu.PLAIN), core.Choices("0", []), core.Result(), skip=j > 0, inst=synth.instrument(opt["inst"]),
                                     opt=opt, **copy.deepcopy(dict(more, finalize_fields=fin)))
                    if isinstance(o, emu.Failed):
                        res.violate("exception", "simulation failed: " + o.text)
                        return
                if blanked(two[0], two[1], res):
                    return
            out = emu.full_run(m, case, case["sched"], ch, res, skip=j > 0, inst=insts[opt["inst"]], opt=opt, **more)
            if isinstance(out, emu.Failed):
                res.violate("exception", "simulation failed: " + out.text)
                return
            res.state(opt["approach"], spec["scheme"], opt["inst"], None)
        if not check(when):
            return
        if hyd != list(spec["hyd"]) or rngs != [200.0, 3000.0]:
            res.violate("argument", "%s: a list passed as an argument changed" % when)
            return
    res.nontrivial = bool(ch.trace) or len(runs) > 1 or bool(case["cut"])
    res.event(len(runs))
