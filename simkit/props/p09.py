"""P09 - totals are exactly the combination of the classes (and of stratiform and convective parts)."""
import numpy as np

from .. import core, emu, files, synth

ID = "P09"
RUNS = {"quick": 220, "thorough": 4000}
RULE = ("random model x radar/lidar x approach x options under a random schedule; the same subcolumns are also observed class by class and "
        "with the classes in another order; totals are recomputed from the per-class fields; non-trivial: a subcolumn cell where at least "
        "two classes contribute")
STATE_MEASURE = "distinct (scheme, instrument, approach, classes, convection) combinations plus task completion orders"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.psd", "emc2.simulator.attenuation"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i)
    if rng.random() < 0.25:
        c = files.gen_base(rng, c)
    c["opt"].pop("do_classify", None)
    hyd = list(c["spec"]["hyd"])
    rng.shuffle(hyd)
    c["order"] = hyd
    c["subset"] = [h for h in hyd if rng.random() < 0.6] or hyd[:1]
    if rng.random() < 0.3 and c["opt"]["inst"] in emu.QUICK_LIDARS:
        c["more"] = {"eta": rng.choice([0.6, 0.8])}
        c["opt"].pop("eta", None)
    return c


def shrink(case):
    for c in emu.shrink_full(case):
        c = dict(c)
        if case.get("fmt") and c["spec"]["hyd"] != case["spec"]["hyd"]:
            continue
        hyd = c["spec"]["hyd"]
        c["order"] = [h for h in c["order"] if h in hyd]
        c["subset"] = [h for h in c["subset"] if h in hyd] or hyd[:1]
        yield c


def lin(a):
    a = np.asarray(a, dtype=float)
    with np.errstate(all="ignore"):
        return np.where(np.isfinite(a), 10 ** (a / 10.0), 0.0)


def z0(a):
    a = np.asarray(a, dtype=float)
    return np.where(np.isfinite(a), a, 0.0)


def execute(case, ch, res):
    opt, more = case["opt"], case.get("more", {})
    base, case = files.base_model(case)
    spec = case["spec"]
    if case.get("fmt"):                     # the classes are the model's own
        known = [h for h in case["order"] if h in spec["hyd"]]
        case = dict(case, order=known[::-1] + [h for h in spec["hyd"] if h not in known], subset=[h for h in case["subset"] if h in spec["hyd"]] or spec["hyd"][-1:])
    g = dict(case, opt={"inst": opt["inst"], "approach": opt["approach"]})
    out = emu.full_run(base, g, dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return

    def obs(hyd, sched, c, r):
        m = synth.clone(base)
        o = dict(opt)
        if hyd is not None:
            o["hyd_types"] = hyd
        out = emu.full_run(m, case, sched, c, r, skip=True, opt=o, **more)
        if isinstance(out, emu.Failed):
            res.violate("exception", "observation of classes %s failed without a fault: %s" % (hyd or "all", out.text))
            return None
        return m

    plain = dict(emu.PLAIN)
    full = obs(None, case["sched"], ch, res)
    if full is None:
        return
    singles = {}
    for h in spec["hyd"]:
        singles[h] = obs([h], plain, core.Choices("0", []), core.Result())
        if singles[h] is None:
            return
    radar = opt["inst"] in emu.QUICK_RADARS
    res.state(spec["scheme"], spec["rad"], opt["inst"], opt["approach"], tuple(spec["hyd"]), spec["conv"], opt.get("mie_for_ice"))
    (radar_totals if radar else lidar_totals)(full, singles, spec, opt, more, res, spec["hyd"])
    for hyd in ([case["order"]] if case["order"] != spec["hyd"] else []) + ([case["subset"]] if set(case["subset"]) != set(spec["hyd"]) else []):
        m = obs(hyd, plain, core.Choices("0", []), core.Result())
        if m is None:
            return
        if set(hyd) == set(spec["hyd"]):
            emu.compare(res, "class-order", full, m, "run with classes in model order", "run with classes in order %s" % hyd,
                        names=emu.observables(full) | emu.observables(m), rtol=1e-7)
        else:
            (radar_totals if radar else lidar_totals)(m, singles, spec, opt, more, res, hyd)
    for k in full.ds.variables:
        if k.startswith("sub_col") or k.startswith("hyd_ext"):
            res.event(k, np.asarray(full.ds[k].values))


def same(res, code, what, got, want, rtol=1e-7, where=None, atol=0.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        res.violate(code, "%s: shape %s, expected %s" % (what, got.shape, want.shape))
        return
    if where is not None:
        got, want = np.where(where, got, 0.0), np.where(where, want, 0.0)
    if not core.arr_equal(got, want, rtol=rtol, atol=max(atol, 1e-290)):
        res.violate(code, "%s: %s" % (what, core.first_diff(got, want, rtol=rtol, atol=max(atol, 1e-290))))


def kinds_of(spec):
    return ["strat"] + (["conv"] if spec["conv"] else [])


def radar_totals(m, singles, spec, opt, more, res, hyd):
    V = lambda k, mm=m: mm.ds[k].values      # noqa: E731
    grand = 0.0
    ext_all = 1.0
    for kind in kinds_of(spec):
        Z = {h: lin(V("sub_col_Ze_%s_%s" % (h, kind))) for h in hyd}
        for h in hyd:
            same(res, "class-alone", "reflectivity of %s %s in a run over %s vs alone" % (kind, h, hyd),
                 Z[h], lin(V("sub_col_Ze_%s_%s" % (h, kind), singles[h])))
        tot = sum(Z.values())
        if (sum((z > 0).astype(int) for z in Z.values()) >= 2).any():
            res.nontrivial = True
        # the topmost level has no layer above it: negative path lengths there are excluded
        ok = np.ones(tot.shape, dtype=bool)
        ok[:, :, -1] = False
        same(res, "ze-sum", "total %s reflectivity (linear) vs sum over %s" % (kind, hyd), lin(V("sub_col_Ze_tot_" + kind)), tot, where=ok)
        grand = grand + tot
        ext = 1.0
        for h in hyd:
            ext = ext * singles[h].ds["hyd_ext_" + kind].values
        same(res, "attenuation", "%s hydrometeor transmittance over %s vs product of the classes'" % (kind, hyd), V("hyd_ext_" + kind), ext, where=ok)
        same(res, "ze-att", "attenuated %s reflectivity" % kind, lin(V("sub_col_Ze_att_tot_" + kind)),
             tot * V("hyd_ext_" + kind) * V("atm_ext"), where=ok)
        ext_all = ext_all * V("hyd_ext_" + kind)
        if kind == "strat" and opt["approach"] == "micro":
            vd = {h: z0(V("sub_col_Vd_%s_strat" % h)) for h in hyd}
            with np.errstate(all="ignore"):
                want = sum(Z[h] * vd[h] for h in hyd) / tot
            on = tot > 0
            same(res, "vd-mean", "total Doppler velocity over %s vs reflectivity weighted mean" % (hyd,), V("sub_col_Vd_tot_strat"), want, where=on)
            if opt.get("calc_spectral_width", True):
                sg = {h: z0(V("sub_col_sigma_d_%s_strat" % h)) for h in hyd}
                vt = V("sub_col_Vd_tot_strat")
                with np.errstate(all="ignore"):
                    want = np.sqrt(sum(Z[h] * (sg[h] ** 2 + (vd[h] - vt) ** 2) for h in hyd) / tot)
                same(res, "sigma-total", "total spectral width over %s vs combination of the classes" % (hyd,),
                     V("sub_col_sigma_d_tot_strat"), want, rtol=1e-6, where=on, atol=1e-12)
            for h in hyd:
                for f in ("Vd", "sigma_d") if opt.get("calc_spectral_width", True) else ("Vd",):
                    same(res, "class-alone", "%s of %s in a run over %s vs alone" % (f, h, hyd),
                         z0(V("sub_col_%s_%s_strat" % (f, h))), z0(V("sub_col_%s_%s_strat" % (f, h), singles[h])))
            res.probe("doppler_totals")
    ok = np.ones(grand.shape, dtype=bool)
    ok[:, :, -1] = False
    same(res, "grand-total", "total reflectivity vs stratiform plus convective", lin(V("sub_col_Ze_tot")), grand, where=ok)
    same(res, "grand-att", "total attenuated reflectivity", lin(V("sub_col_Ze_att_tot")), grand * ext_all * V("atm_ext"), where=ok)
    if spec["conv"]:
        res.probe("stratiform_plus_convective")


def lidar_totals(m, singles, spec, opt, more, res, hyd):
    V = lambda k, mm=m: mm.ds[k].values      # noqa: E731
    eta = more.get("eta", opt.get("eta", synth.INSTR(opt["inst"]).eta))
    T, bm = V("tau")[None], V("sigma_180_vol")[None]
    grand = {}
    num = den = 0.0
    for kind in kinds_of(spec):
        kn = kd = 0.0
        for f in ("beta_p", "alpha_p", "OD"):
            X = {h: z0(V("sub_col_%s_%s_%s" % (f, h, kind))) for h in hyd}
            for h in hyd:
                same(res, "class-alone", "%s of %s %s in a run over %s vs alone" % (f, kind, h, hyd), X[h],
                     z0(V("sub_col_%s_%s_%s" % (f, h, kind), singles[h])))
            tot = sum(X.values())
            same(res, "sum", "total %s %s vs sum over %s" % (kind, f, hyd), z0(V("sub_col_%s_tot_%s" % (f, kind))), tot)
            grand[f] = grand.get(f, 0.0) + tot
            if f == "beta_p":
                if (sum((x > 0).astype(int) for x in X.values()) >= 2).any():
                    res.nontrivial = True
                kd = tot
                kn = sum(X[h] * m.LDR_per_hyd[h].magnitude for h in hyd)
        same(res, "att", "attenuated %s backscatter" % kind, V("sub_col_beta_att_tot_" + kind),
             (bm + V("sub_col_beta_p_tot_" + kind)) * T * np.exp(-2 * eta * V("sub_col_OD_tot_" + kind)))
        with np.errstate(all="ignore"):
            same(res, "ldr", "%s depolarisation over %s" % (kind, hyd), V("sub_col_LDR_" + kind), kn / kd, where=kd > 0)
        num, den = num + kn, den + kd
    for f in grand:
        same(res, "grand-total", "total %s vs stratiform plus convective" % f, z0(V("sub_col_%s_tot" % f)), grand[f])
    same(res, "grand-att", "total attenuated backscatter", V("sub_col_beta_att_tot"),
         (bm + grand["beta_p"]) * T * np.exp(-2 * eta * grand["OD"]))
    with np.errstate(all="ignore"):
        same(res, "grand-ldr", "total depolarisation", V("sub_col_LDR_tot"), num / den, where=den > 0)
    if spec["conv"]:
        res.probe("stratiform_plus_convective")
