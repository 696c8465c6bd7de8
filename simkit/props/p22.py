"""P22 - each subcolumn is observed by itself."""
import numpy as np

from .. import core, emu, files, seams, synth

ID = "P22"
RUNS = {"quick": 240, "thorough": 4000}
RULE = ("random model observed as generated and again with its subcolumns permuted, reduced, repeated, or with unusable contents (NaN, infinity, "
        "negative, huge) in some of them, each under its own random schedule; non-trivial: at least one kept subcolumn with hydrometeors and other companions")
STATE_MEASURE = "distinct (scheme, instrument, approach, selection, corruption) combinations"
REAL = ["emc2.simulator", "emc2.core", "dask.bag graph construction", "numpy/xarray"]
STUB = ["dask's schedulers (seeded scheduler)", "numpy's draws (fixed functions of their arguments)", "model data files (synthetic models)"]
BAD = {"nan": np.nan, "inf": np.inf, "negative": -1e-4, "huge": 1e30}


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]))
    if rng.random() < 0.2:
        c = files.gen_base(rng, c)
    N = c["spec"]["N"]
    if rng.random() < 0.65:
        r = rng.random()
        c["sel"] = (rng.sample(range(N), N) if r < 0.4 else rng.sample(range(N), rng.randrange(1, N + 1)) if r < 0.75 else
                    [rng.randrange(N) for _ in range(rng.randrange(1, N + 3))])
        c["bad"] = []
    else:
        c["sel"] = list(range(N))
        c["bad"] = [{"sub": s, "cls": rng.randrange(6), "what": rng.choice(sorted(BAD)), "field": rng.choice(["q", "n"]),
                     "lev": rng.choice([None, rng.randrange(c["spec"]["H"])])} for s in rng.sample(range(N), rng.randrange(1, N))]
    c["sched2"] = emu.gen_schedule(rng)
    return c


def shrink(case):
    for s in emu.shrink_schedule(case["sched2"]):
        yield dict(case, sched2=s)
    for s in emu.shrink_schedule(case["sched"]):
        yield dict(case, sched=s)
    if len(case["sel"]) > 1 and not case["bad"]:
        for j in range(len(case["sel"])):
            yield dict(case, sel=case["sel"][:j] + case["sel"][j + 1:])
    if len(case["bad"]) > 1:
        for j in range(len(case["bad"])):
            yield dict(case, bad=case["bad"][:j] + case["bad"][j + 1:])
    for s in synth.shrink_spec(case["spec"]):
        if s["N"] == case["spec"]["N"]:
            yield dict(case, spec=s)
    o = case["opt"]
    for k in ("do_classify", "OD_from_sfc", "mie_for_ice", "calc_spectral_width"):
        if k in o:
            yield dict(case, opt={a: b for a, b in o.items() if a != k})


def execute(case, ch, res):
    base, case = files.base_model(case)
    spec, opt = case["spec"], case["opt"]
    g = dict(case, opt={"inst": opt["inst"], "approach": opt["approach"]})
    out = emu.full_run(base, g, dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    a, b = synth.clone(base), synth.clone(base)
    sel = case["sel"]
    b.ds = b.ds.isel(subcolumn=sel).copy(deep=True)
    b.ds["subcolumn"] = ("subcolumn", np.arange(len(sel)))
    bad = {x["sub"] for x in case["bad"]}
    for x in case["bad"]:
        h = spec["hyd"][x["cls"] % len(spec["hyd"])]
        k = "strat_%s_subcolumns_%s" % (x["field"], h)
        v = b.ds[k].values.copy()
        v[x["sub"], :, slice(None) if x["lev"] is None else x["lev"]] = BAD[x["what"]]
        b.ds[k].values = v
        res.fault("subcolumn_" + x["what"])
    out = emu.full_run(a, case, case["sched"], ch, res, skip=True)
    if isinstance(out, emu.Failed):
        res.violate("exception", "observation of all subcolumns failed: " + out.text)
        return
    case2 = dict(case, spec=dict(spec, N=len(sel)))
    out = emu.full_run(b, case2, case["sched2"], ch, res, skip=True)
    if isinstance(out, emu.Failed):
        res.violate("corrupt-stops" if bad else "exception", "observation of subcolumns %s (%s) failed: %s" % (sel, case["bad"], out.text))
        return
    occd = sum(np.asarray(base.ds["strat_q_subcolumns_" + c].values) > 0 for c in spec["hyd"]) > 0
    keep = [(j, s) for j, s in enumerate(sel) if s not in bad]
    res.nontrivial = any(occd[s].any() for _, s in keep) and (bool(bad) or sel != list(range(spec["N"])))
    res.state(spec["scheme"], spec["rad"], opt["inst"], opt["approach"], tuple(sel), str(case["bad"]))
    names = emu.observables(a)
    if names != emu.observables(b):
        res.violate("fields", "fields differ: %s" % sorted(names ^ emu.observables(b))[:5])
        return
    for k in sorted(names):
        x, y = a.ds[k], b.ds[k]
        if k == "subcolumn" or x.dtype.kind not in "fiub":
            continue
        if x.dims != y.dims:
            if set(x.dims) != set(y.dims):
                res.violate("dims", "%s: dims %s vs %s" % (k, x.dims, y.dims))
                return
            y = y.transpose(*x.dims)
        if "subcolumn" not in x.dims:
            if not core.arr_equal(x.values, y.values, rtol=1e-9):
                res.violate("shared", "%s (no subcolumn dimension) changes when subcolumns %s (%s) are observed: %s" % (k, sel, case["bad"], core.first_diff(x.values, y.values)))
                return
            continue
        ax = x.dims.index("subcolumn")
        for j, s in keep:
            u, w = np.take(x.values, s, axis=ax).astype(float), np.take(y.values, j, axis=ax).astype(float)
            # a cell without hydrometeors reads zero or missing depending on whether others have some
            u, w = np.where(np.isnan(u), 0.0, u), np.where(np.isnan(w), 0.0, w)
            if not core.arr_equal(u, w, rtol=1e-9):
                res.violate("subcolumn", "%s of subcolumn %d changes when %s: %s" % (
                    k, s, "others hold unusable values %s" % case["bad"] if bad else "subcolumns %s of %d are observed" % (sel, spec["N"]), core.first_diff(u, w)))
                return
        res.event(k, y.values)
    # a class is seen only where it is (present ones may be unseen: the bulk tables hold zeros for small particles)
    if not bad:
        fld = "sub_col_Ze_%s_%s" if opt["inst"] in emu.QUICK_RADARS else "sub_col_beta_p_%s_%s"
        for kind in ["strat"] + (["conv"] if spec["conv"] else []):
            for c in spec["hyd"]:
                if fld % (c, kind) not in b.ds:
                    continue
                v = np.asarray(b.ds[fld % (c, kind)].transpose("subcolumn", base.time_dim, base.height_dim).values, float)
                here = np.asarray(b.ds["%s_q_subcolumns_%s" % (kind, c)].values) > 0
                v = np.where(np.isnan(v), 0.0, v)
                if (v[~here] != 0).any():
                    t = np.argwhere((v != 0) & ~here)[0].tolist()
                    res.violate("ghost", "%s is %r in subcolumn, time, level %s where there is no %s" % (fld % (c, kind), float(v[tuple(t)]), t, c))
                    return
