"""Workload helpers: drive EMC2 through its public API under the simulator."""
import traceback

import numpy as np

from . import core, seams, synth
from emc2.simulator.main import make_simulated_data
from emc2.simulator import subcolumn as sc


def gen_schedule(rng, faults=True, force_parallel=False):
    par = force_parallel or rng.random() < 0.8
    s = {"parallel": par, "chunk": rng.choice([None, None, 1, 1, 2, 2, 3, 4, 7, 50]) if par else None,
         "order": rng.choice(["submit", "reverse", "random", "random", "random"]),
         "isolate": rng.choice([0.0, 0.0, 0.4, 1.0])}
    if faults:
        s["dup"] = rng.choice([0.0, 0.0, 0.25, 0.6])
        s["retry"] = rng.choice([0.0, 0.0, 0.25, 0.6])
        s["retry_lines"] = rng.choice([20, 60, 200])
    return s


PLAIN = {"parallel": False, "chunk": None, "order": "submit", "isolate": 0.0}


def shrink_schedule(s):
    for k, v in (("dup", 0.0), ("retry", 0.0), ("isolate", 0.0), ("order", "submit")):
        if s.get(k) not in (None, v):
            t = dict(s)
            t[k] = v
            yield t
    if s.get("chunk") is not None:
        for c in (None, 1, 2):
            if c != s["chunk"]:
                t = dict(s)
                t["chunk"] = c
                yield t
    if s["parallel"]:
        t = dict(s)
        t["parallel"], t["chunk"] = False, None
        yield t


class Failed:
    """The code under test raised."""

    def __init__(self, e):
        self.e = e
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if seams.EMC2_ROOT in f.filename]
        self.where = "%s:%s" % (inner[-1].filename[len(seams.EMC2_ROOT):], inner[-1].name) if inner else "?"
        self.text = "%s: %s (in %s)" % (type(e).__name__, str(e)[:200], self.where)


def attempt(fn, *a, **k):
    """Call into the code under test; its exceptions become a Failed value."""
    try:
        return fn(*a, **k)
    except (seams.StepBudgetExceeded, seams.CpuBudgetExceeded):
        raise
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except Exception as e:  # noqa: BLE001
        return Failed(e)


def step_budget(spec):
    """Lines of EMC2 a run may execute: a generous multiple of the work size.

    Measured on the unchanged tree: < 60 lines per cell, subcolumn and class.
    """
    work = spec["T"] * spec["H"] * (spec["N"] + 4) * (len(spec["hyd"]) + 1)
    return 200_000 + 2_000 * work


def generate(model, spec, sched, ch, res, rad, rng_mode="seeded", np_seed=0, inst="HSRL", counter=None, api="main"):
    """Run the subcolumn generator under the simulator."""
    simsched = seams.SimScheduler(ch, res, sched)
    cnt = counter or seams.StepCounter(step_budget(spec))
    with seams.randomness(np_seed, rng_mode, ch, res), seams.scheduled(simsched), seams.line_hook(cnt):
        if api == "main":
            out = attempt(make_simulated_data, model, synth.instrument(inst), spec["N"], subcol_gen_only=True,
                          use_rad_logic=rad, parallel=sched["parallel"], chunk=sched["chunk"])
        else:
            out = attempt(generate_steps, model, spec, sched, rad)
    res.steps += cnt.n
    for o in simsched.orders:
        res.state("order", o)
    if len(set(simsched.orders)) and any(list(o) != sorted(o) for o in simsched.orders):
        res.probe("out_of_order_batches", sum(list(o) != sorted(o) for o in simsched.orders))
    return out


def generate_steps(model, spec, sched, rad):
    """The same pipeline, called function by function (the other public route)."""
    kw = dict(use_rad_logic=rad, parallel=sched["parallel"], chunk=sched["chunk"])
    N = spec["N"]
    hyd = list(spec["hyd"])
    precip = [h for h in hyd if h not in ("cl", "ci")]
    if model.process_conv:
        for h in hyd:
            sc.set_convective_sub_col_frac(model, h, N_columns=N, use_rad_logic=rad)
    sc.set_stratiform_sub_col_frac(model, N_columns=N, **kw)
    sc.set_precip_sub_col_frac(model, is_conv=False, precip_types=precip, **kw)
    if model.process_conv:
        sc.set_precip_sub_col_frac(model, is_conv=True, precip_types=precip, **kw)
    for h in hyd:
        sc.set_q_n(model, h, is_conv=False, qc_flag=(h == "cl"), **kw)
        if model.process_conv:
            sc.set_q_n(model, h, is_conv=True, qc_flag=False, **kw)
    return model


def counts(spec, hyd, rad, kind="strat", thresh=1e-18):
    """How many subcolumns a class should occupy in each cell: round(f*N)."""
    f = np.array(synth.frac_of(spec, kind, hyd, rad), dtype=float)
    q = np.array(spec["q"][kind][hyd], dtype=float)
    if rad:
        f = np.where(q > thresh, f, 0.0)
    return np.round(f * spec["N"]).astype(int)


def occ(model, name):
    """Boolean occupancy (subcolumn, time, height)."""
    return np.asarray(model.ds[name].values) == 1


MOMENT_PREFIX = ("sub_col_",)
OTHER_OUT = ("hyd_ext_strat", "hyd_ext_conv", "atm_ext", "Ze_min", "detect_mask", "ext_mask", "tau", "sigma_180_vol",
             "sigma_180", "OD", "kappa_att", "kappa_ds")


def simulate(model, inst, spec, sched, ch, res, counter=None, fail_at=None, **kw):
    """Run moments on already generated subcolumns."""
    cfg = dict(sched)
    if fail_at is not None:
        cfg["fail_at"] = fail_at
    simsched = seams.SimScheduler(ch, res, cfg)
    cnt = counter or seams.StepCounter(step_budget(spec) * 4)
    with seams.scheduled(simsched), seams.line_hook(cnt):
        out = attempt(make_simulated_data, model, inst, spec["N"], skip_subcol_gen=True,
                      parallel=sched["parallel"], chunk=sched["chunk"], **kw)
    res.steps += cnt.n
    for o in simsched.orders:
        res.state("order", o)
    return out


def snapshot(model, names=None):
    return {k: np.array(model.ds[k].values, copy=True) for k in (names or list(model.ds.variables))}


def shrink_common(case, extra=()):
    """Shrink candidates of a case with 'spec' and 'sched'."""
    for s in synth.shrink_spec(case["spec"]):
        c = dict(case)
        c["spec"] = s
        yield c
    for s in shrink_schedule(case["sched"]):
        c = dict(case)
        c["sched"] = s
        yield c
    if case.get("rng_mode") == "adversarial":
        c = dict(case)
        c["rng_mode"] = "seeded"
        yield c
    if case.get("api") not in (None, "main"):
        c = dict(case)
        c["api"] = "main"
        yield c


REAL_GEN = ["emc2.simulator.main", "emc2.simulator.subcolumn", "emc2.core.model (base class)", "dask.bag graph construction",
            "numpy/xarray"]
STUB_GEN = ["dask's schedulers (replaced by the seeded scheduler)", "worker processes (pickle round trip in one process)",
            "numpy's permutation/gamma draws in adversarial runs", "model data files (synthetic in-memory models)"]


# ---- full pipeline (generator + moments) ------------------------------------
QUICK_RADARS, QUICK_LIDARS = ["KAZR", "WACR", "NEXRAD", "XSACR", "CSAPR", "MWACR", "ENA", "KAZRw"], ["HSRL", "CEIL", "RL", "1064", "CALIOP"]
NO_PHASE = ("CEIL", "1064", "RL")             # lidars without thresholds for a phase mask, or refused by the COSP emulation that goes with it


def pick_inst(rng, lidar):
    """Mostly the common ones (few tables in memory matter less than variety of everything else)."""
    names, few = (QUICK_LIDARS, 2) if lidar else (QUICK_RADARS, 3)
    return rng.choice(names[:few] if rng.random() < 0.7 else names[few:])


def preload():
    synth.preload(QUICK_RADARS + QUICK_LIDARS)


def gen_options(rng, scheme, rad_family):
    """How one simulated observation is requested."""
    lidar = rng.random() < 0.5
    inst = pick_inst(rng, lidar)
    if scheme in ("nssl", "morrison"):
        approach = "micro"
    else:
        approach = rng.choice(["rad", "micro", "micro", "micro", "emp"])
    o = {"inst": inst, "approach": approach}
    if rng.random() < 0.3:
        o["OD_from_sfc"] = rng.random() < 0.5
    if approach != "emp" and scheme not in ("P3",) and rng.random() < 0.3:
        o["mie_for_ice"] = rng.random() < 0.5
    if rng.random() < 0.25 and inst not in NO_PHASE:
        o["do_classify"] = True
    if not lidar and approach == "micro" and rng.random() < 0.15:
        o["calc_spectral_width"] = False
    if approach == "micro" and rng.random() < 0.15:
        o["calc_dispersion"] = rng.random() < 0.5
    if lidar:
        if rng.random() < 0.12:
            o["eta"] = rng.choice([0.4, 0.6, 0.8, 1.0])
        if rng.random() < 0.12:
            o["ext_OD"] = rng.choice([0.3, 1.0, 2.0, 8.0])
    elif rng.random() < 0.12:
        o["ref_rng"] = rng.choice([100.0, 500.0, 2000.0])
    if o.get("do_classify"):
        if rng.random() < 0.3:
            o["convert_zeros_to_nan"] = rng.random() < 0.7
        if not lidar and rng.random() < 0.3:
            lo = rng.choice([0.0, 100.0, 300.0])
            o["mask_height_rng"] = [lo, lo + rng.choice([120.0, 400.0, 2000.0])]
    return o


def with_instrument(opt, inst):
    """The same options for another instrument (those it does not have left out)."""
    o = dict(opt, inst=inst)
    if inst in NO_PHASE:
        o.pop("do_classify", None)
    for k in ("ref_rng", "mask_height_rng", "calc_spectral_width") if inst in QUICK_LIDARS else ("eta", "ext_OD"):
        o.pop(k, None)
    return o


def gen_full_case(rng, i, small=True, **kw):
    scheme, rad = rng.choice([("MG2", "ModelE")] * 4 + [("MG2", "CESM")] * 2 + [("P3", "P3")] * 2 + [("nssl", "ModelE")])
    hyd = ["cl", "ci", "pl"] if scheme == "P3" else kw.pop("hyd", None)
    if scheme == "nssl" and hyd is None and rng.random() < 0.6:
        hyd = ["cl", "ci", "pl", "sn", "gr"]
    spec = synth.gen_spec(rng, T=kw.pop("T", None) or rng.choice([2, 3, 4, 5]), H=rng.choice([3, 4, 5]),
                          N=rng.choice([2, 3, 4, 6] if rng.random() < 0.94 else [16, 24, 40]) if small else None, hyd=hyd, conv=False if scheme == "P3" else None,
                          scheme=scheme, rad=rad, density=kw.pop("density", None) if "density" in kw else rng.choice([0.4, 0.7, 1.0]), **kw)
    return {"spec": spec, "opt": gen_options(rng, scheme, rad), "sched": gen_schedule(rng, force_parallel=True),
            "rng_mode": "fixed%d" % rng.randrange(4), "np_seed": rng.randrange(2 ** 31)}


def call_kwargs(opt):
    kw = {k: v for k, v in opt.items() if k not in ("inst", "approach", "hyd_types")}
    kw["use_rad_logic"] = opt["approach"] == "rad"
    if opt["approach"] == "emp":
        kw["use_empiric_calc"] = True
    if opt.get("hyd_types"):
        kw["hyd_types"] = list(opt["hyd_types"])
    return kw


def run_main(model, inst, spec, opt, sched, skip=False, **more):
    kw = call_kwargs(opt)
    kw.update(more)
    return make_simulated_data(model, inst, spec["N"], skip_subcol_gen=skip, parallel=sched["parallel"], chunk=sched["chunk"], **kw)


def full_run(model, case, sched, ch, res, skip=False, inst=None, opt=None, counter=None, fail_at=None, **more):
    """Generator and moments in one call of make_simulated_data."""
    spec, opt = case["spec"], opt or case["opt"]
    inst = inst or synth.instrument(opt["inst"])
    cfg = dict(sched)
    if fail_at is not None:
        cfg["fail_at"] = fail_at
    simsched = seams.SimScheduler(ch, res, cfg)
    cnt = counter or seams.StepCounter(step_budget(spec) * 4)
    with seams.randomness(case["np_seed"], case["rng_mode"], ch, res), seams.scheduled(simsched), seams.line_hook(cnt):
        out = attempt(run_main, model, inst, spec, opt, sched, skip, **more)
    res.steps += cnt.n
    for o in simsched.orders:
        res.state("order", o)
    if any(list(o) != sorted(o) for o in simsched.orders):
        res.probe("out_of_order_batches", sum(list(o) != sorted(o) for o in simsched.orders))
    return out


def observables(model):
    """What an observation yields (not the scratch PSD parameters of the class processed last)."""
    return {k for k in model.ds.variables if k not in ("N_0", "lambda", "mu")}


def compare(res, code, a, b, na, nb, names=None, rtol=1e-9):
    """Every variable of a must be in b with the same dims and values (and vice versa)."""
    va, vb = set(a.ds.variables), set(b.ds.variables)
    if names is not None:
        va, vb = va & set(names), vb & set(names)
    if va != vb:
        res.violate(code, "fields differ: only in %s %s; only in %s %s" % (na, sorted(va - vb)[:5], nb, sorted(vb - va)[:5]))
    for k in sorted(va & vb):
        x, y = a.ds[k], b.ds[k]
        if x.dims != y.dims or not core.arr_equal(x.values, y.values, rtol=rtol):
            d = "dims %s vs %s" % (x.dims, y.dims) if x.dims != y.dims else core.first_diff(x.values, y.values, rtol=rtol)
            res.violate(code, "%s of the %s differs from the %s: %s" % (k, nb, na, d))
            return
        res.event(k, np.asarray(y.values))


def shrink_full(case):
    for c in shrink_common(case):
        yield c
    o = case.get("opt")
    if o:
        for k in ("do_classify", "OD_from_sfc", "mie_for_ice", "calc_spectral_width"):
            if k in o:
                c = dict(case)
                c["opt"] = {a: b for a, b in o.items() if a != k}
                yield c
