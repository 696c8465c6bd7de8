"""P21 - detectability, extinction and phase masks say what the simulated signal says."""
import numpy as np

from .. import core, emu, seams, synth
from emc2.simulator.classification import calculate_phase_ratio

ID = "P21"
RUNS = {"quick": 420, "thorough": 7000}
RULE = ("random model observed one to three times (different instruments, thresholds, directions, height ranges, zero conventions) under random schedules, "
        "masks derived independently from the signal each observation reports; non-trivial: some mask takes two different values")
STATE_MEASURE = "distinct (scheme, instrument, approach, options, sets of mask values) combinations"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.attenuation", "emc2.simulator.psd",
                       "emc2.simulator.classification"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments)"]
EPS = 1e-9


def setup():
    emu.preload()


def gen_obs(rng, scheme, rad):
    o = emu.gen_options(rng, scheme, rad)
    if rng.random() < 0.5:
        o["OD_from_sfc"] = rng.random() < 0.5
    if o["inst"] not in emu.NO_PHASE and rng.random() < 0.8:
        o["do_classify"] = True
    if rng.random() < 0.4:
        o["convert_zeros_to_nan"] = rng.random() < 0.7
    if rng.random() < 0.15:
        o["finalize_fields"] = True
    if o["inst"] in emu.QUICK_RADARS:
        if rng.random() < 0.5:
            o["ref_rng"] = rng.choice([100.0, 500.0, 2000.0, 10.0])
        if rng.random() < 0.5:
            lo = rng.choice([0.0, 60.0, 150.0, 500.0])
            o["mask_height_rng"] = [lo, lo + rng.choice([0.0, 120.0, 400.0, 2000.0])]
    else:
        if rng.random() < 0.5:
            o["ext_OD"] = rng.choice([0.01, 0.3, 1.0, 2.0, 8.0])
        if rng.random() < 0.3:
            o["eta"] = rng.choice([0.4, 1.0])
    return o


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3, 4]), density=rng.choice([0.4, 0.7, 1.0]))
    sp = c["spec"]
    c["obs"] = [dict(gen_obs(rng, sp["scheme"], sp["rad"]), sched=emu.gen_schedule(rng)) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    c["scale"] = rng.choice([1.0, 1.0, 0.01, 1e-4, 10.0])
    c["warm"] = rng.choice([0.0, 0.0, 15.0, -25.0])
    return c


def shrink(case):
    if len(case["obs"]) > 1:
        for j in range(len(case["obs"])):
            yield dict(case, obs=case["obs"][:j] + case["obs"][j + 1:])
    for j, o in enumerate(case["obs"]):
        for s in emu.shrink_schedule(o["sched"]):
            yield dict(case, obs=case["obs"][:j] + [dict(o, sched=s)] + case["obs"][j + 1:])
        for k in list(o):
            if k not in ("inst", "approach", "sched", "do_classify"):
                yield dict(case, obs=case["obs"][:j] + [{a: b for a, b in o.items() if a != k}] + case["obs"][j + 1:])
    for s in synth.shrink_spec(case["spec"]):
        yield dict(case, spec=s)


def close(a, b):
    with np.errstate(all="ignore"):
        return np.abs(a - b) <= EPS * np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-12)


class Ref:
    def __init__(self, m, spec, res):
        self.m, self.res, self.spec = m, res, spec
        self.z = self.two(m.z_field)
        self.T = self.two(m.T_field)

    def sub(self, k):
        return np.asarray(self.m.ds[k].transpose("subcolumn", "time", "height").values, float)

    def two(self, k):
        return np.asarray(self.m.ds[k].transpose("time", "height").values, float)

    def mask(self, name, want, unsure, nan_zero=None, legend=None):
        """compare a mask, except in cells where the signal sits on the threshold"""
        if name not in self.m.ds:
            self.res.violate("mask-missing", "%s was not produced" % name)
            return False
        got = self.sub(name)
        if nan_zero is not None:
            if nan_zero and (got == 0).any() or not nan_zero and np.isnan(got).any():
                self.res.violate("zero-convention", "%s has %s although zeros are%s to be turned into missing values" % (
                    name, "zeros" if nan_zero else "missing values", "" if nan_zero else " not"))
                return False
        leg = self.m.ds[name].attrs.get("legend")
        if legend is not None and leg is not None and list(leg) != legend:
            self.res.violate("legend", "%s names its values 1, 2, ... %s; they mean %s" % (name, list(leg), legend))
            return False
        got = np.where(np.isnan(got), 0, got)
        bad = (got != want) & ~unsure
        self.seen.add((name, tuple(np.unique(got))))
        self.res.event(name, got)
        if bad.any():
            t = tuple(np.argwhere(bad)[0])
            self.res.violate("mask", "%s is %g at subcolumn, time, level %s; the signal there says %g" % (name, got[t], [int(x) for x in t], np.broadcast_to(want, got.shape)[t]))
            return False
        return True


def z0(a):
    return np.where(np.isnan(a), 0.0, a)


def check(r, inst, o, spec):
    m, kinds = r.m, ["strat"] + (["conv"] if spec["conv"] else [])
    conv_nan = bool(o.get("convert_zeros_to_nan"))
    name = inst.instrument_str
    if o["inst"] in emu.QUICK_RADARS:
        with np.errstate(all="ignore"):
            want = inst.Z_min_1km + 20 * np.log10(r.z) - 20 * np.log10(o.get("ref_rng", 1000))
        got = r.two("Ze_min")
        fin = np.isfinite(want)
        if not core.arr_equal(got[fin], want[fin], rtol=1e-7, atol=1e-7):
            r.res.violate("sensitivity", "minimum detectable reflectivity: %s" % core.first_diff(got, want))
            return
        ze_t = r.sub("sub_col_Ze_att_tot")
        seen = ze_t >= want[None]
        unsure = close(ze_t, want[None]) | np.isnan(ze_t)      # where there is no signal at all the detectability mask is not claimed
        if not r.mask("detect_mask", np.where(~seen, 1, 0), unsure | close(ze_t, want[None])):
            return
        if not o.get("do_classify"):
            return
        cl = {k: r.sub("%s_frac_subcolumns_cl" % k) > 0 for k in kinds}
        todo = [("phase_mask_%s_sounding_all_hyd" % name, "sub_col_Ze_att_tot", np.any([cl[k] for k in kinds], axis=0))]
        if spec["conv"]:
            todo += [("%s_phase_mask_%s_sounding" % (k, name), "sub_col_Ze_att_tot_" + k, cl[k]) for k in kinds]
        for nm, fld, cloud in todo:
            ze = r.sub(fld)
            see = ze >= want[None]
            w = np.where(cloud, np.where(see, 2, 1), np.where(see, 3, 0))
            rg = o.get("mask_height_rng")
            if rg is not None:
                w = np.where((r.z >= rg[0]) & (r.z <= rg[1]), w, 0)
            if not r.mask(nm, w, close(ze, want[None]), conv_nan, ["Cloud", "Mixed", "Precip"]):
                return
            ratio(r, nm, spec, conv_nan)
            if r.res.violations:
                return
        return
    # lidar
    od = z0(r.sub("sub_col_OD_tot"))
    ext = o.get("ext_OD", inst.ext_OD)
    up = o.get("OD_from_sfc", inst.OD_from_sfc)
    gone = od > ext
    nxt = np.zeros_like(gone)
    if up:
        nxt[:, :, :-1] = gone[:, :, 1:] & ~gone[:, :, :-1]
    else:
        nxt[:, :, 1:] = gone[:, :, :-1] & ~gone[:, :, 1:]
    edge = close(od, ext)
    grown = edge.copy()
    grown[:, :, 1:] |= edge[:, :, :-1]
    grown[:, :, :-1] |= edge[:, :, 1:]
    if not r.mask("ext_mask", np.where(gone, 2, np.where(nxt, 1, 0)), grown):
        return
    if not o.get("do_classify"):
        return
    todo = [("phase_mask_%s_all_hyd" % name, "", "sub_col_OD_tot", "sub_col_LDR_tot", "sub_col_beta_p_tot")]
    if spec["conv"]:
        todo += [("%s_phase_mask_%s" % (k, name), k, "sub_col_OD_tot_" + k, "sub_col_LDR_" + k, "sub_col_beta_p_tot_" + k) for k in kinds]
    for nm, k, fo, fl, fb in todo:
        o_, l_, b_ = z0(r.sub(fo)), r.sub(fl), z0(r.sub(fb))
        w, unsure = np.zeros(b_.shape), np.zeros(b_.shape, bool)
        with np.errstate(all="ignore"):
            lb = np.where(b_ > 0, np.log10(np.where(b_ > 0, b_, 1)), np.nan)
            for c in inst.beta_p_phase_thresh:
                th = np.interp(l_, c["LDR"], np.log10(c["beta_p"]))
                w = np.where(lb >= th, c["class_ind"], w)
                unsure |= close(lb, th)
        lim = inst.ext_OD
        w = np.where(o_ > lim, 0, w)
        unsure |= close(o_, lim)
        if ext != lim:                # which limit counts is not claimed
            unsure |= (o_ > min(ext, lim)) & (o_ <= max(ext, lim))
        names = [""] * len(inst.beta_p_phase_thresh)
        for c in inst.beta_p_phase_thresh:
            names[c["class_ind"] - 1] = c["class"]
        if not r.mask(nm, w, unsure, conv_nan, names):
            return
        ratio(r, nm, spec, conv_nan)
        if r.res.violations:
            return
    if o["inst"] in ("HSRL", "CALIOP") and not {"sn", "gr"} & set(spec["hyd"]):
        cosp(r, o, spec, kinds, up, o.get("eta", inst.eta), conv_nan)


def cosp(r, o, spec, kinds, up, eta, conv_nan):
    s180, tau = r.two("sigma_180_vol")[None], r.two("tau")[None]
    curve = [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
    cross = {"l": [0.4099, 0.009, 0], "i": [0.2904, 0]}
    sums = {}
    for k in kinds + ["all"]:
        bt = bx = OD = 0.0
        for ph in "li":
            cls = [c for c in spec["hyd"] if c in ("c" + ph, "p" + ph)]
            if k == "all":
                B, O, X = [sum(sums[(q, ph)][j] for q in kinds) for j in range(3)]
            else:
                B = sum([z0(r.sub("sub_col_beta_p_%s_%s" % (c, k))) for c in cls], 0 * z0(r.sub("sub_col_beta_p_tot_strat")))
                O = sum([z0(r.sub("sub_col_OD_%s_%s" % (c, k))) for c in cls], 0 * B)
                att = np.exp(-2 * eta * O)
                X = np.polyval(cross[ph], (s180 + B) * tau * att * 1e3) / 1e3 / att / tau - s180 * (0.0284 / 1.0284)
                sums[(k, ph)] = (B, O, X)
            bt, bx, OD = bt + B, bx + X, OD + O
        with np.errstate(all="ignore"):
            tr = np.exp(-2 * eta * OD) * tau
            tot = (bt + bx + s180 * 1.0284) * tr
            crs = (bx + s180 * (0.0284 / 1.0284)) * tr
            SR = tot / (s180 * 1.0284 * tau)
            pc = np.polyval(curve, tot * 1e3) / 1e3
        w = np.where(SR > 5, np.where(crs > pc, 2, 1), 0)
        w = np.where((w > 0) & (r.T[None] > 273.15), 1, w)
        w = np.where((w > 0) & (r.T[None] < 233.15), 2, w)
        strong = SR > 30
        hidden = np.zeros_like(strong)
        for lev in (range(1, strong.shape[2]) if up else range(strong.shape[2] - 2, -1, -1)):
            p = lev - 1 if up else lev + 1
            hidden[:, :, lev] = hidden[:, :, p] | strong[:, :, p]
        w = np.where(hidden & (w > 0), 3, w)
        near30 = close(SR, 30.0).any(axis=2, keepdims=True)
        unsure = close(SR, 5.0) | close(crs, pc) | near30 | ~np.isfinite(SR) | (np.abs(OD) > 300)
        unsure = unsure | (OD > 50).any(axis=2, keepdims=True)        # products of under- and overflowing factors
        nm = "COSP_phase_mask_all_hyd" if k == "all" else "%s_COSP_phase_mask" % k
        if not r.mask(nm, w, unsure, conv_nan, ["liquid", "ice", "undef"]):
            return


def ratio(r, nm, spec, conv_nan):
    """phase ratios count what the mask holds"""
    m = r.m
    x = z0(r.sub(nm))
    classes = [1, 2] if x.size % 2 else [2]
    out = emu.attempt(calculate_phase_ratio, m, nm, classes)
    if isinstance(out, emu.Failed):
        r.res.violate("ratio-fails", "calculate_phase_ratio(%s) failed: %s" % (nm, out.text))
        return
    n, d = np.isin(x, classes).sum(axis=0), (x > 0).sum(axis=0)
    with np.errstate(all="ignore"):
        want = np.where(d > 0, n / d, np.nan)
    got = r.two(nm + "_fpr")
    if not core.arr_equal(got, want, rtol=1e-9):
        r.res.violate("ratio", "frequency phase ratio of %s: %s" % (nm, core.first_diff(got, want)))
        return
    if {"sn", "gr"} & set(spec["hyd"]):
        return
    out = emu.attempt(calculate_phase_ratio, m, nm, classes, mass_pr=True, mpr_subcolmod=True)
    if isinstance(out, emu.Failed):
        r.res.violate("ratio-fails", "calculate_phase_ratio(%s, mass_pr=True) failed: %s" % (nm, out.text))
        return
    q = {ph: sum(np.where(x > 0, r.sub("%s_q_subcolumns_%s" % (k, c)), 0) for k in ["strat"] + (["conv"] if spec["conv"] else [])
                 for c in spec["hyd"] if c[1] == ph) for ph in "li"}
    with np.errstate(all="ignore"):
        want, wsum = q["l"] / (q["l"] + q["i"]), q["l"].sum(axis=0) / (q["l"].sum(axis=0) + q["i"].sum(axis=0))
    for k, w in (("_mpr", want), ("_mpr_sum", wsum)):
        got = r.sub(nm + k) if k == "_mpr" else r.two(nm + k)
        if not core.arr_equal(got, w, rtol=1e-9):
            r.res.violate("ratio", "mass phase ratio %s: %s" % (nm + k, core.first_diff(got, w)))
            return


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    m.ds[m.T_field].values = m.ds[m.T_field].values + case["warm"]
    o0 = case["obs"][0]
    out = emu.full_run(m, dict(case, opt={"inst": o0["inst"], "approach": o0["approach"]}), dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    for c in spec["hyd"]:
        for k in ("strat", "conv"):
            f = "%s_q_subcolumns_%s" % (k, c)
            if f in m.ds:
                m.ds[f].values = m.ds[f].values * case["scale"]
    for j, o in enumerate(case["obs"]):
        opt = {k: v for k, v in o.items() if k != "sched"}
        inst = synth.instrument(o["inst"])
        out = emu.full_run(m, dict(case, opt=opt), o["sched"], ch, res, skip=True, inst=inst)
        if isinstance(out, emu.Failed):
            res.violate("exception", "observation %d (%s) failed without a fault: %s" % (j, opt, out.text))
            return
        r = Ref(m, spec, res)
        r.seen = set()
        check(r, inst, opt, spec)
        if res.violations:
            res.violations[-1]["msg"] += " [observation %d of %d: %s]" % (j + 1, len(case["obs"]), opt)
            return
        if any(len(v) > 1 for _, v in r.seen):
            res.nontrivial = True
        res.state(spec["scheme"], o["inst"], o["approach"], bool(o.get("OD_from_sfc")), sorted((n, str(v)) for n, v in r.seen))
        if len(case["obs"]) > 1:
            res.fault("reobservation_of_one_model")
