"""P20 - attenuation accumulates along the beam, and nothing reaches back against it."""
import numpy as np

from .. import core, emu, files, seams, synth
from .p09 import lin, z0

ID = "P20"
RUNS = {"quick": 200, "thorough": 3600}
RULE = ("random model observed by radar or lidar, looking up or down, any approach, under a random schedule; the same subcolumns are observed again "
        "with one level's contents replaced (removed, rescaled, NaN, infinity, negative, huge) and, level by level, with all other levels emptied; "
        "non-trivial: hydrometeors at two levels of one subcolumn")
STATE_MEASURE = "distinct (scheme, instrument, approach, direction, level, replacement) combinations"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.attenuation", "emc2.simulator.psd",
                       "emc2.simulator.classification"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments)"]
BAD = {"nan": np.nan, "inf": np.inf, "negative": -1e-4, "huge": 1e30}


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]), density=rng.choice([0.7, 1.0]))
    if rng.random() < 0.2:
        c = files.gen_base(rng, c)
    c["opt"]["OD_from_sfc"] = rng.random() < 0.5
    c["lev"] = rng.randrange(c["spec"]["H"] - 1)
    c["repl"] = rng.choice(["empty", "scale", "scale"] + sorted(BAD))
    c["sched2"] = emu.gen_schedule(rng)
    if rng.random() < 0.5:
        c["env"] = rng.choice(["scale", "scale", "nan"])
    if rng.random() < 0.3:
        c["z0"] = rng.choice([30.0, 900.0, 4000.0])
    return c


def shrink(case):
    for s in emu.shrink_schedule(case["sched2"]):
        yield dict(case, sched2=s)
    if case["repl"] != "empty":
        yield dict(case, repl="empty")
    if case.get("env"):
        yield {k: v for k, v in case.items() if k != "env"}
    for c in emu.shrink_full(case):
        if "OD_from_sfc" in c["opt"]:
            yield dict(c, lev=min(case["lev"], c["spec"]["H"] - 2)) if c["spec"]["H"] >= 3 else None


SUB = ("frac", "q", "n")


def replace(m, spec, levels, repl):
    for kind in ("strat", "conv"):
        for c in spec["hyd"]:
            for f in SUB:
                k = "%s_%s_subcolumns_%s" % (kind, f, c)
                if k not in m.ds:
                    continue
                v = m.ds[k].values.copy()
                if repl == "empty":
                    v[:, :, levels] = 0
                elif f == "frac":
                    continue
                elif repl == "scale":
                    v[:, :, levels] = v[:, :, levels] * (2.5 if f == "q" else 0.6)
                else:
                    v[:, :, levels] = np.where(v[:, :, levels] != 0, BAD[repl], v[:, :, levels])
                m.ds[k].values = v


def replace_air(m, level, how, keep_p):
    """The state of the air, particle sizes and densities the input gives for the level (not its height;
    pressure neither under the radiation logic or with convection, where a layer is what lies between its neighbours' pressures)."""
    for k in sorted(m.ds.data_vars):
        v = m.ds[k]
        if set(v.dims) != {m.time_dim, m.height_dim} or v.dtype.kind != "f" or k == m.z_field or k.startswith("cld") or keep_p and k == m.p_field:
            continue
        a, ix = v.values.copy(), [slice(None)] * 2
        ix[v.dims.index(m.height_dim)] = level
        a[tuple(ix)] = np.nan if how == "nan" else a[tuple(ix)] * 0.97
        m.ds[k].values = a


def zero(a):
    a = np.asarray(a, dtype=float)
    return np.where(np.isnan(a), 0.0, a)


BEAM = ("hyd_ext_strat", "hyd_ext_conv", "sub_col_OD_")       # known at a level before the level's own contents
BEYOND = ("sub_col_Ze_att", "sub_col_beta_att", "ext_mask", "detect_mask", "phase_mask", "COSP")      # at a level, contents of the nearer ones and its own


def execute(case, ch, res):
    base, case = files.base_model(case)
    spec, opt, k = case["spec"], case["opt"], case["lev"]
    td, hd = base.time_dim, base.height_dim
    if case.get("z0"):
        base.ds[base.z_field].values = base.ds[base.z_field].values + case["z0"]
    g = dict(case, opt={"inst": opt["inst"], "approach": opt["approach"]})
    out = emu.full_run(base, g, dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    H, up = spec["H"], opt["OD_from_sfc"]

    def obs(levels, repl, sched, c, r, env=None):
        m = synth.clone(base)
        if levels is not None:
            replace(m, spec, levels, repl)
        if env:
            replace_air(m, levels[0], env, opt["approach"] == "rad" or spec["conv"])
        out = emu.full_run(m, case, sched, c, r, skip=True)
        if isinstance(out, emu.Failed):
            res.violate("exception" if repl not in BAD and env != "nan" else "corrupt-stops",
                        "observation failed (%s at levels %s, air %s): %s" % (repl, levels, env, out.text))
            return None
        return m

    full = obs(None, None, case["sched"], ch, res)
    if full is None:
        return
    alt = obs([k], case["repl"], case["sched2"], ch, res, case.get("env"))
    if alt is None:
        return
    if case["repl"] in BAD:
        res.fault("level_" + case["repl"])
    if case.get("env"):
        res.fault("air_" + case["env"])
    occd = sum(np.asarray(base.ds["strat_q_subcolumns_" + c].values) > 0 for c in spec["hyd"]) > 0
    res.nontrivial = bool((occd.sum(axis=2) >= 2).any())
    res.state(spec["scheme"], spec["rad"], opt["inst"], opt["approach"], up, k, case["repl"], case.get("env"))
    # 1. nothing reaches back
    for name in sorted(emu.observables(full)):
        x = full.ds[name]
        if hd not in x.dims or name in base.ds and not name.startswith("sub_col"):
            continue
        if name not in alt.ds:
            res.violate("fields", "%s missing when level %d's contents are replaced" % (name, k))
            return
        ax = x.dims.index(hd)
        y = alt.ds[name].transpose(*x.dims).values
        x = x.values
        lv = np.arange(H)
        if name in ("tau", "u_atm", "atm_ext"):   # gases: of the air crossed before (molecules: and at the level itself)
            keep = (lv <= k if up else lv >= k) if name == "atm_ext" else (lv < k if up else lv > k)
        elif name.startswith(BEAM):
            keep = lv <= k if up else lv >= k
        elif any(s in name for s in BEYOND):
            keep = lv < k if up else lv > k
            if name == "ext_mask":                       # marks the last level before extinction: looks one level ahead
                keep = lv < k if up else lv > k
        elif name.startswith("sub_col_LDR") or name.startswith("sub_col_"):
            keep = lv != k
        else:
            keep = lv != k if case.get("env") else lv >= 0
        u, w = zero(np.compress(keep, x, axis=ax)), zero(np.compress(keep, y, axis=ax))
        if not core.arr_equal(u, w, rtol=1e-9):
            res.violate("reaches-back", "%s (%s) at levels %s changes when the contents of level %d are replaced (%s): %s" % (
                name, "beam from the surface up" if up else "beam from the top down", lv[keep].tolist(), k, case["repl"], core.first_diff(u, w)))
            return
        res.event(name, y)
    # 2. accumulation: each level's own attenuation, alone, multiplies (adds) up to the whole
    only = []
    for j in range(H):
        o = obs([x for x in range(H) if x != j], "empty", dict(emu.PLAIN), core.Choices("0", []), core.Result())
        if o is None:
            return
        only.append(o)
    z = np.asarray(base.ds[base.z_field].values)
    lv = np.arange(H)
    radar = opt["inst"] in emu.QUICK_RADARS
    for kind in ["strat"] + (["conv"] if spec["conv"] else []):
        names = ["hyd_ext_" + kind] if radar else ["sub_col_OD_%s_%s" % (c, kind) for c in spec["hyd"]] + ["sub_col_OD_tot_" + kind]
        for name in names:
            with np.errstate(all="ignore"):
                L = lambda m: -0.5 * np.log(np.maximum(m.ds[name].values, 1e-300)) if radar else z0(m.ds[name].values)     # noqa: E731
                parts, whole = [L(o) for o in only], L(full)
            okv = np.abs(whole) < 300
            for j in range(H):
                before = lv <= j if up else lv >= j
                if np.abs(parts[j][:, :, before]).max(initial=0.0) > 1e-12:
                    res.violate("attenuates-early", "%s: contents of level %d alone attenuate at levels %s" % (name, j, lv[before].tolist()))
                    return
                past = parts[j][:, :, ~before]
                if past.shape[2] > 1 and not core.arr_equal(np.where(np.abs(past) < 300, past, 300), np.where(np.abs(past[:, :, :1]) < 300, past[:, :, :1], 300) * np.ones_like(past), rtol=1e-7, atol=1e-12):
                    res.violate("not-constant", "%s: the attenuation by level %d alone varies along the rest of the beam: %s" % (name, j, past[0, 0].tolist()))
                    return
                if not radar and past.shape[2] and name[11:13] in spec["hyd"]:
                    al = z0(only[j].ds[name.replace("_OD_", "_alpha_p_")].values)[:, :, j]
                    dz = (z[:, j + 1] - z[:, j]) if up else (z[:, j] - z[:, j - 1])
                    if not core.arr_equal(past[:, :, 0], al * dz, rtol=1e-7, atol=1e-290):
                        res.violate("layer", "%s: level %d contributes %s, its extinction times the layer depth is %s" % (name, j, past[0, 0, 0], (al * dz)[0, 0]))
                        return
            tot = sum(parts)
            if not core.arr_equal(np.where(okv, tot, 0), np.where(okv, whole, 0), rtol=1e-6, atol=1e-11):
                res.violate("accumulation", "%s is not the accumulation of its levels: %s" % (name, core.first_diff(np.where(okv, whole, 0), np.where(okv, tot, 0))))
                return
    # 3. the gases, from the layer values the run itself reports
    if radar:
        kap, acc = full.ds["kappa_att"].transpose(td, hd).values, np.zeros_like(z)
        for j in (range(1, H) if up else range(H - 2, -1, -1)):
            acc[:, j] = acc[:, j - 1] + kap[:, j - 1] * (z[:, j] - z[:, j - 1]) / 1e3 if up else acc[:, j + 1] + kap[:, j + 1] * (z[:, j + 1] - z[:, j]) / 1e3
        want, got, name = 10 ** (-0.2 * acc), full.ds["atm_ext"].transpose(td, hd).values, "gaseous transmittance"
    else:
        b, acc = full.ds["beta"].transpose(td, hd).values, np.zeros_like(z)
        for j in (range(1, H) if up else range(H - 2, -1, -1)):
            i = j - 1 if up else j + 1
            acc[:, j] = acc[:, i] + 0.5 * (b[:, j] + b[:, i]) * np.abs(z[:, j] - z[:, i])
        want, got, name = np.exp(-2 * acc), full.ds["tau"].transpose(td, hd).values, "molecular transmittance"
    if not core.arr_equal(got, want, rtol=1e-9):
        res.violate("gases", "%s does not accumulate along the beam (%s): %s" % (name, "up" if up else "down", core.first_diff(got, want)))
