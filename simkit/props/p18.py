"""P18 - a column's result depends on that column alone."""
import numpy as np

from .. import core, emu, seams, synth

ID = "P18"
RUNS = {"quick": 170, "thorough": 4000}
RULE = ("random model simulated once with all its columns and once with a drawn selection of them in another order (subset, permutation, repetition), or "
        "with unusable values (NaN, infinity, negative, huge) put into other columns, each under its own seeded schedule; every kept column must be "
        "identical; non-trivial: the companions of at least one kept column differ")
STATE_MEASURE = "distinct (approach, scheme, instrument, selection, corruption) combinations"
REAL = ["emc2.simulator", "emc2.core", "dask.bag graph construction", "numpy/xarray"]
STUB = ["dask's schedulers (seeded scheduler)", "numpy's draws (fixed functions of their arguments)", "model data files (synthetic models)"]
BAD = {"nan": np.nan, "inf": np.inf, "negative": -1.0, "huge": 1e30, "zero": 0.0}


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([2, 3, 4, 5]))
    T = c["spec"]["T"]
    c["mode"] = rng.choice(["select", "select", "corrupt"])
    if c["mode"] == "select":
        k = rng.random()
        if k < 0.4:
            c["cols"] = rng.sample(range(T), rng.randrange(1, T + 1))
        elif k < 0.7:
            c["cols"] = rng.sample(range(T), T)
        else:
            c["cols"] = [rng.randrange(T) for _ in range(rng.randrange(1, T + 3))]
        c["bad"] = []
    else:
        c["cols"] = list(range(T))
        n = rng.randrange(1, T)
        c["bad"] = [{"col": x, "what": rng.choice(sorted(BAD)), "field": rng.choice(["q", "frac", "num", "re", "t", "p_3d", "q_v"]),
                     "cls": rng.randrange(6), "lev": rng.choice([None, rng.randrange(c["spec"]["H"])])} for x in rng.sample(range(T), n)]
    c["sched2"] = emu.gen_schedule(rng)
    return c


def shrink(case):
    for s in emu.shrink_schedule(case["sched2"]):
        yield dict(case, sched2=s)
    for s in emu.shrink_schedule(case["sched"]):
        yield dict(case, sched=s)
    if len(case["cols"]) > 1 and case["mode"] == "select":
        for j in range(len(case["cols"])):
            yield dict(case, cols=case["cols"][:j] + case["cols"][j + 1:])
    if len(case["bad"]) > 1:
        for j in range(len(case["bad"])):
            yield dict(case, bad=case["bad"][:j] + case["bad"][j + 1:])
    o = case["opt"]
    for k in ("do_classify", "OD_from_sfc", "mie_for_ice", "calc_spectral_width"):
        if k in o:
            yield dict(case, opt={a: b for a, b in o.items() if a != k})


def execute(case, ch, res):
    spec = case["spec"]
    a = synth.SynthModel(spec)
    b = synth.clone(a)
    cols = case["cols"]
    b.ds = b.ds.isel(time=cols).copy(deep=True)
    bad = {x["col"] for x in case["bad"]}
    for x in case["bad"]:
        hyd = spec["hyd"][x["cls"] % len(spec["hyd"])]
        name = {"q": "q" + hyd, "frac": "cldss" + hyd, "num": "n" + hyd, "re": "re_ss" + hyd, "q_v": "q"}.get(x["field"], x["field"])
        v = b.ds[name].values.copy()
        v[x["col"], slice(None) if x["lev"] is None else x["lev"]] = BAD[x["what"]]
        b.ds[name].values = v
        res.fault("corrupt_" + x["what"])
    out = emu.full_run(a, case, case["sched"], ch, res)
    if isinstance(out, emu.Failed):
        res.violate("exception", "simulation of all columns failed: " + out.text)
        return
    out = emu.full_run(b, case, case["sched2"], ch, res)
    if isinstance(out, emu.Failed):
        if case["bad"]:
            res.violate("corrupt-stops", "unusable values in other columns (%s) stop the whole simulation: %s" % (case["bad"], out.text))
        else:
            res.violate("exception", "simulation of columns %s failed: %s" % (cols, out.text))
        return
    T = spec["T"]
    res.nontrivial = bool(case["bad"]) or cols != list(range(T))
    res.state(case["opt"]["approach"], spec["scheme"], case["opt"]["inst"], tuple(cols), str(case["bad"]))
    names = emu.observables(a)
    if names != emu.observables(b):
        res.violate("fields", "fields differ: %s" % sorted(names ^ emu.observables(b))[:5])
        return
    for k in sorted(names):
        x, y = a.ds[k], b.ds[k]
        if "time" not in x.dims or k == "time":
            continue
        if x.dims != y.dims:
            res.violate("dims", "%s: dims %s vs %s" % (k, x.dims, y.dims))
            return
        ax = x.dims.index("time")
        for j, c in enumerate(cols):
            if c in bad:
                continue
            u, w = np.take(x.values, c, axis=ax), np.take(y.values, j, axis=ax)
            if not core.arr_equal(u, w, rtol=1e-9):
                res.violate("column", "%s of column %d changes when %s: %s (all columns vs this run)" % (
                    k, c, "other columns hold unusable values %s" % case["bad"] if case["bad"] else "columns %s of %d are simulated" % (cols, T),
                    core.first_diff(u, w)))
                return
        res.event(k, y.values)
