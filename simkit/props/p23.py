"""P23 - looking at results shows what is there and changes nothing."""
import copy
import os

import numpy as np
import xarray as xr

from .. import core, emu, files, fs, seams, synth
from emc2.core import model as _mm

ID = "P23"
RUNS = {"quick": 240, "thorough": 2500}
RULE = ("a simulated single place, region or set of columns is looked at through a random history of display operations (displays opened at places, time-height, "
        "profile, mean-profile, input, instrument, statistics plots, switching place or model, some cut short by an interruption or a failed allocation); every "
        "figure must hold the model's own values at the place, subcolumn, time and mask asked for, and model, instrument data and arguments stay as "
        "they were; non-trivial: at least three operations")
STATE_MEASURE = "distinct (kind of model, operation, options, cut point) combinations"
REAL = ["emc2.plotting", "emc2.statistics_LLNL plots", "emc2.core.model loaders and unstacking", "emc2.simulator", "matplotlib (Agg)", "xarray file reading"]
STUB = ["model files (written by the harness)", "instrument observations (generated)", "dask's schedulers (serial)"]

ROW = ["timeseries", "timeseries", "timeseries", "single", "single", "mean", "mean", "input_q", "inst_ts", "inst_mean", "place", "place", "model", "open", "ranges"]
NCOL = ["timeseries", "timeseries", "input_q", "cf", "sr", "cfad", "all_signal", "all_q", "all_qsum", "all_sr", "open", "nonatt"]


def setup():
    emu.preload()
    import matplotlib
    matplotlib.use("Agg")
    import emc2.plotting                    # noqa: F401
    import emc2.statistics_LLNL             # noqa: F401


def gen(rng, i, tier):
    kind = rng.choice(["single", "region", "region", "ncol"])
    c = {"kind": kind, "fmt": "E3SM" if kind == "ncol" else rng.choice(["ModelE", "ModelE", "E3SM"])}
    N = rng.choice([1, 2, 3, 4])
    nt = rng.choice([2, 3, 4])
    if kind == "ncol":
        c["split"] = rng.choice([[2], [1, 2], [1, 1]])
        c["region"] = [sum(c["split"]), 1, nt]
    elif kind == "region":
        c["region"] = list(rng.choice([(2, 1), (1, 2), (2, 2), (3, 1), (2, 3)])) + [min(nt, 3)]
        N = max(N, 2)
    else:
        c["region"] = [1, 1, nt]
    T = int(np.prod(c["region"]))
    c["spec"] = synth.gen_spec(rng, T=T, H=rng.choice([3, 4, 5]), N=N, hyd=["cl", "ci", "pl", "pi"],
                               conv=c["fmt"] == "ModelE" and rng.random() < 0.4, density=rng.choice([0.5, 0.8, 1.0]))
    c["finalize"] = rng.random() < 0.5
    c["classify"] = rng.random() < 0.4 and kind == "single"
    c["np_seed"] = rng.randrange(2 ** 31)
    ops = [{"op": "open"}] + [{"op": rng.choice(NCOL if kind == "ncol" else ROW)} for _ in range(rng.choice([3, 4, 5, 6, 7]))]
    for o in ops:
        o.update({k: rng.random() for k in ("v", "a", "b", "col", "t", "y")})
        o.update({"float": rng.random() < 0.5, "none": rng.random() < 0.2, "named": rng.random() < 0.5, "pressure": rng.random() < 0.5, "deep": rng.random() < 0.5,
                  "mask": rng.random() < 0.3, "hatch": rng.random() < 0.3, "log": rng.random() < 0.3, "bar": rng.random() < 0.6, "geom": rng.choice([False, False, True, True, "auto"]),
                  "sub": rng.random() < 0.5, "seed": rng.randrange(2 ** 31)})
        if rng.random() < 0.2:
            o["cut"] = [rng.choice(["interrupt", "memory"]), rng.randrange(1, 90)]
    c["ops"] = ops
    return c


def shrink(case):
    n = len(case["ops"])
    for i in range(n - 1, 0, -1):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i, o in enumerate(case["ops"]):
        for k in ("cut", "mask", "hatch", "log", "geom", "named", "bar"):
            if o.get(k):
                p = dict(o)
                p.pop(k) if k == "cut" else p.update({k: False})
                yield dict(case, ops=case["ops"][:i] + [p] + case["ops"][i + 1:])
    if case["classify"]:
        yield dict(case, classify=False)
    if case["finalize"]:
        yield dict(case, finalize=False)


def geom(o, v):
    """Whether a geometric mean is asked for: "auto" means for signals that span decades."""
    return o["geom"] if o["geom"] != "auto" else any(k in v for k in ("Ze", "beta", "alpha", "OD", "backscatter"))


def build(case, d, seed):
    """A simulated model: radar and lidar signals (radiation approach), unstacked."""
    spec = case["spec"]
    path = os.path.join(d, "m%d.nc" % seed)
    if case["kind"] == "ncol":
        files.write_subdomains(path, spec, case["split"], case["region"][2])
        m = _mm.E3SMv1(path, appended_str=True, all_appended_in_lat=True, include_rain_in_rt=True)
    elif case["kind"] == "region":
        files.write(path, spec, case["fmt"], case["region"])
        m = files.load(case["fmt"], path)
    else:
        files.write(path, spec, case["fmt"])
        m = files.load(case["fmt"], path)
    c = dict(case, rng_mode="seeded", np_seed=case["np_seed"] + seed)
    many = case["kind"] != "single"
    for j, inst in enumerate(("HSRL", "KAZR")):
        opt = {"inst": inst, "approach": "rad"}
        if case["classify"]:
            opt["do_classify"] = True
        o = emu.full_run(m, c, dict(emu.PLAIN), core.Choices("0", []), core.Result(), skip=j == 1, opt=opt,
                         finalize_fields=case["finalize"], unstack_dims=many and j == 1 and case["kind"] == "region")
        if isinstance(o, emu.Failed):
            return o
    if case["kind"] == "ncol":
        m.unstack_time_lat_lon(squeeze_single_dims=False)
    return m


def snap(m):
    from . import p16
    return ({k: (np.array(v.values, copy=True), copy.deepcopy(dict(v.attrs)), v.dims) for k, v in m.ds.variables.items()}, p16.cfg(m))


def same(a, b):
    x, y = a[0], b[0]
    for k in sorted(set(x) | set(y)):
        if k not in x or k not in y:
            return "field %s %s" % (k, "appeared" if k not in x else "disappeared")
        if x[k][2] != y[k][2] or x[k][0].dtype != y[k][0].dtype or x[k][1] != y[k][1]:
            return "field %s: type, dimensions or attributes changed" % k
        if not (core.arr_equal(x[k][0], y[k][0], rtol=0, atol=0) if x[k][0].dtype.kind in "fc" else np.array_equal(x[k][0], y[k][0])):
            return "field %s: %s" % (k, core.first_diff(x[k][0], y[k][0], rtol=0, atol=0))
    for k in sorted(set(a[1]) | set(b[1])):
        if a[1].get(k) != b[1].get(k):
            return "attribute %s" % k
    return None


def edges(c):
    c = np.asarray(c, dtype=float)
    if len(c) == 1:
        return np.array([c[0], c[0]])
    d = np.diff(c) / 2
    return np.concatenate([[c[0] - d[0]], c[:-1] + d, [c[-1] + d[-1]]])


def mesh_of(axes, before):
    from matplotlib.collections import QuadMesh
    ms = [c for c in axes.collections if isinstance(c, QuadMesh) and id(c) not in before]
    return ms[0] if ms else None


def full(a):
    a = np.ma.asarray(a)
    return np.where(np.ma.getmaskarray(a), np.nan, a.data.astype(float))


class Look:
    """One display and what it is supposed to show."""

    def __init__(self, disp, ds, model):
        self.disp, self.ds, self.model = disp, ds, model


def at_place(ds, model, la, lo):
    sel = {}
    if model.lat_dim in ds.dims:
        sel[model.lat_dim] = la
    if model.lon_dim in ds.dims:
        sel[model.lon_dim] = lo
    return ds.isel(sel)


def execute(case, ch, res):
    import matplotlib.pyplot as plt
    with fs.Scratch() as d:
        ms = [build(case, d, 0)]
        if any(o["op"] == "model" for o in case["ops"]):
            ms.append(build(case, d, 1))
        for m in ms:
            if isinstance(m, emu.Failed):
                res.violate("exception", "simulation failed: " + m.text)
                return
        try:
            with np.errstate(all="ignore"):
                look(case, res, ms, plt)
        finally:
            plt.close("all")


def observation(o):
    """A generated instrument record."""
    r = np.random.default_rng(o["seed"])
    inst = synth.instrument("HSRL")
    t = files.T0 + np.arange(4) * np.timedelta64(1, "h")
    ds = xr.Dataset({"backscatter": (("time", "range"), r.lognormal(-12, 2, (4, 5))), "depol": (("time", "range"), r.random((4, 5)))},
                    coords={"time": t, "range": 100. + 50. * np.arange(5)})
    for k in ds.variables:
        ds[k].attrs.update({"units": "1", "long_name": k})
    if o["b"] < 0.5:
        ds["depol"].values[1, 2] = np.nan
    inst.ds = ds
    return inst


def look(case, res, ms, plt):
    import emc2.plotting
    spec = case["spec"]
    snaps = [snap(m) for m in ms]
    refs = [m.ds.copy(deep=True) for m in ms]
    cur = None
    stats = None
    done = 0
    for o in case["ops"]:
        op = o["op"]
        which = 0 if len(ms) == 1 or o["y"] < 0.7 else 1
        if op in ("place", "model", "ranges") and cur is None:
            op = "open"
        m, ref = ms[which], refs[which]
        if op == "model" and case["kind"] != "single":
            op = "place"
        args_before = None
        keep = []

        def place(m, ref):
            """(what is passed, index) for latitude and longitude."""
            out = []
            for dim, f in ((m.lat_dim, o["a"]), (m.lon_dim, o["b"])):
                n = ref.sizes.get(dim, 1)
                i = int(f * n)
                if case["kind"] == "single" or o["none"]:
                    out += [None, 0]
                elif o["float"] and dim in ref.coords and ref[dim].ndim == 1 and n > 1:
                    out += [float(ref[dim].values[i]) + 0.04, i]
                else:
                    out += [i, i]
            return out

        def opened():
            la, i, lo, j = place(m, ref)
            kw = {"ds_name": "something"} if o["named"] else {}
            shape = (1, 2) if o["sub"] else (1,)
            disp = emc2.plotting.SubcolumnDisplay(m, lat_sel=la, lon_sel=lo, subplot_shape=shape, figsize=(4, 3), **kw)
            return Look(disp, at_place(ref, m, i, j), m)

        def idx():
            return (0, int(o["y"] * 2)) if cur.disp.axes.ndim == 2 else (int(o["y"] * cur.disp.axes.size),)

        if cur is None and op != "open":
            cur = opened()
        fn = None
        verify = None
        if op == "open":
            fn = opened
        elif op == "place":
            def fn():
                la, i, lo, j = place(cur.model, refs[ms.index(cur.model)])
                if la is None:
                    la, lo = 0, 0
                cur.disp._switch_lat_lon(cur.model, la, lo, o["deep"])
                return Look(cur.disp, at_place(refs[ms.index(cur.model)], cur.model, i, j), cur.model)
        elif op == "model":
            def fn():
                cur.disp._switch_model(m)
                return Look(cur.disp, ref, m)
        elif op == "ranges":
            def fn():
                cur.disp.set_yrng(idx(), (1.0, 2.0))
                cur.disp.set_xrng(idx(), (3.0, 5.0))
                return cur.disp.axes[idx()].get_ylim(), cur.disp.axes[idx()].get_xlim()

            def verify(out):
                return None if out == ((1.0, 2.0), (3.0, 5.0)) else "axis limits are %s" % (out,)
        elif op in ("timeseries", "input_q"):
            md, ds = cur.model, cur.ds
            dims3 = {"subcolumn", md.time_dim, md.height_dim}
            sub = "subcolumn" in ds.dims
            v3 = [k for k in ds.data_vars if set(ds[k].dims) == dims3 and ds[k].dtype.kind == "f"]
            v2 = [k for k in ds.data_vars if set(ds[k].dims) == dims3 - {"subcolumn"} and ds[k].dtype.kind == "f"]
            vs = sorted(v3) * 2 + sorted(v2) if op == "timeseries" else sorted([k for k in v2 if k.startswith("q") or k in ("Q", "CLDLIQ")] or v2)
            v = vs[int(o["v"] * len(vs))]
            col = int(o["col"] * ds.sizes.get("subcolumn", 1))
            x = ds[v].isel(subcolumn=col) if "subcolumn" in ds[v].dims else ds[v]
            x = x.transpose(md.time_dim, md.height_dim)
            mask = None
            kw = {"colorbar": o["bar"]}
            if o["mask"]:
                mkw, args_before, _ = masked(o, x.values)
                mask = mkw["Mask_array"] > 0
                kw.update(mkw)
            if o["log"]:
                kw.update(log_plot=True, vmin=1e-9, vmax=1e3)
            if o["y"] < 0.3:
                kw["y_range"], kw["x_range"] = (0., 900.), None
            z = ds[md.height_dim] if o["pressure"] else ds[md.z_field]
            y = z.values if z.ndim == 1 else z.transpose(md.time_dim, md.height_dim).values.mean(axis=0)
            want = x.values.T.copy()
            if op == "input_q":
                want, y = want * 1000., y / 1000.
            if mask is not None and not o["hatch"]:
                want = np.where(mask.T, np.nan, want)

            def fn():
                ax = cleared(cur.disp.axes[idx()])
                keep.append({id(c): c for c in ax.collections})
                f = cur.disp.plot_subcolumn_timeseries if op == "timeseries" else cur.disp.plot_column_input_q_timeseries
                out = f(v, column_no=col, pressure_coords=o["pressure"], subplot_index=idx(), **kw)
                if o["bar"] != isinstance(out, tuple):
                    return None, "returned %s with colorbar=%s" % (type(out).__name__, o["bar"])
                return ax, None

            def verify(out, want=want, y=y, t=ds[md.time_dim].values, v=v):
                import matplotlib.dates as mdates
                return check_mesh(v, out, keep[0], want, mdates.date2num(t), y) or hatched(kw, out, keep[0])
        elif op == "single" and spec["N"] > 0:
            md, ds = cur.model, cur.ds
            vs = sorted(k for k in ds.data_vars if set(ds[k].dims) == {"subcolumn", md.time_dim, md.height_dim} and ds[k].dtype.kind == "f")
            if not vs:
                continue
            v = vs[int(o["v"] * len(vs))]
            nt = ds.sizes[md.time_dim]
            k = int(o["t"] * nt)
            t = ds[md.time_dim].values[k] + np.timedelta64(int((o["b"] - 0.5) * 1500), "s")
            if o["named"]:
                t = str(np.datetime_as_string(t, unit="s"))
            want = ds[v].isel({md.time_dim: k}).transpose(md.height_dim, "subcolumn").values.copy()
            z = ds[md.height_dim] if o["pressure"] else ds[md.z_field].isel({md.time_dim: k})
            mkw, args_before, want = masked(o, want.T)
            want = want.T

            def fn():
                ax = cleared(cur.disp.axes[idx()])
                keep.append({id(c): c for c in ax.collections})
                cur.disp.plot_single_profile(v, t, pressure_coords=o["pressure"], subplot_index=idx(), colorbar=o["bar"], **mkw)
                return ax, None

            def verify(out, want=want, y=z.values, v=v):
                return check_mesh(v, out, keep[0], want, np.arange(want.shape[1]), y) or hatched(mkw, out, keep[0])
        elif op == "mean":
            md, ds = cur.model, cur.ds
            vs = sorted(k for k in ds.data_vars if set(ds[k].dims) == {"subcolumn", md.time_dim, md.height_dim} and ds[k].dtype.kind == "f" and not k.startswith("phase"))
            if not vs:
                continue
            v = vs[int(o["v"] * len(vs))]
            tv = ds[md.time_dim].values
            k = int(o["t"] * len(tv))
            x, time = ds[v], None
            if o["named"] and spec["N"] > 1:
                time = str(np.datetime_as_string(tv[k], unit="s"))
                x = x.isel({md.time_dim: [k]})
                zsel = [k]
            elif o["sub"] and k:
                time = (tv[0], tv[k])
                x = x.isel({md.time_dim: slice(0, k)})
                zsel = list(range(k))
                if k * spec["N"] == 1:
                    continue                    # a single sample is no profile to average
            else:
                zsel = list(range(len(tv)))
            x = x.transpose("subcolumn", md.time_dim, md.height_dim).values
            y = ds[md.p_field if o["pressure"] else md.z_field].isel({md.time_dim: zsel}).transpose(md.time_dim, md.height_dim).values.mean(axis=0)
            x = np.where(np.isfinite(x), x, np.nan)
            mkw = {}
            if o["mask"] and min(x.shape) > 1:
                mkw, args_before, x = masked(dict(o, hatch=False), x)
            ze = "Ze" in v
            x = 10 ** (x / 10) if ze else x
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if geom(o, v):
                    x = np.where(x > 0, x, np.nan)
                    want = np.exp(np.nanmean(np.log(x), axis=(0, 1)))
                else:
                    want = np.nanmean(x, axis=(0, 1))
                    sd = np.nanstd(x, axis=(0, 1))
                if ze:
                    want = 10 * np.log10(want)

            def fn():
                ax = cleared(cur.disp.axes[idx()])
                keep.append({id(c): c for c in ax.lines})
                cur.disp.plot_subcolumn_mean_profile(v, time, pressure_coords=o["pressure"], subplot_index=idx(), use_geom_mean=o["geom"], plot_SD=o["bar"], title="x",
                                                     x_range=(0., 1.), log_plot=o["log"], **mkw)
                return ax, None

            spread = None if geom(o, v) or ze or not o["bar"] else (want - sd, want + sd)

            def verify(out, want=want, y=y, v=v, spread=spread):
                return check_line(v, out, keep[0], want, y) or (spread and check_spread(v, out, spread, y))
        elif op in ("inst_ts", "inst_mean"):
            inst = observation(o)
            dso = inst.ds
            v = ["backscatter", "depol"][int(o["v"] * 2)]
            args_before = [(dso[k].values, dso[k].values.copy()) for k in dso.variables]
            arr = dso[v].values.copy()

            if op == "inst_ts":
                mkw, more, arr = masked(o, arr)
                args_before += more

                def fn():
                    ax = cleared(cur.disp.axes[idx()])
                    keep.append({id(c): c for c in ax.collections})
                    cur.disp.plot_instrument_timeseries(inst, v, subplot_index=idx(), colorbar=o["bar"], title="x", **mkw)
                    return ax, None

                def verify(out, want=arr.T, y=dso["range"].values.copy(), t=dso["time"].values.copy(), v=v):
                    import matplotlib.dates as mdates
                    return check_mesh(v, out, keep[0], want, mdates.date2num(t), y) or hatched(mkw, out, keep[0])
            else:
                k = 1 + int(o["t"] * 3)
                tr = [dso["time"].values[0], dso["time"].values[k]] if o["sub"] else None
                x = arr[:k] if tr else arr
                mkw, more, x = masked(dict(o, hatch=False), x)
                args_before += more
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if geom(o, v):
                        want = np.exp(np.nanmean(np.log(np.where(x > 0, x, np.nan)), axis=0))
                    else:
                        want = np.nanmean(x, axis=0)

                def fn():
                    ax = cleared(cur.disp.axes[idx()])
                    keep.append({id(c): c for c in ax.lines})
                    cur.disp.plot_instrument_mean_profile(inst, v, tr, pressure_coords=False, subplot_index=idx(), use_geom_mean=o["geom"], title="x", x_range=(0., 1.), **mkw)
                    return ax, None

                def verify(out, want=want, y=dso["range"].values.copy(), v=v):
                    return check_line(v, out, keep[0], want, y)
        elif case["kind"] == "ncol":
            import emc2.statistics_LLNL.statistical_aggregation as sa
            import emc2.statistics_LLNL.statistical_plots as sp
            ds = refs[0]
            m = ms[0]
            nc, nt, H, N = ds.sizes["ncol"], ds.sizes["time"], ds.sizes["lev"], ds.sizes["subcolumn"]
            if stats is None:
                sig = emu.attempt(sa.get_radar_lidar_signals, m)
                if isinstance(sig, emu.Failed):
                    res.violate("exception", "signals could not be collected: " + sig.text)
                    return
                r = np.random.default_rng(case["np_seed"])
                G = 5
                stats = {"sig": sig, "cf": np.where(r.random((nt, G, nc)) < 0.4, 0.0, r.random((nt, G, nc))),
                         "sr": np.where(r.random((N, nt, G, nc)) < 0.4, 0.0, 90. * r.random((N, nt, G, nc))), "mid": 0.24 + 0.48 * np.arange(G),
                         "cfad": r.random((G, 15)), "edges": np.linspace(-50, 25, 16)}
            args_before = [(stats[k], stats[k].copy()) for k in ("cf", "sr", "mid", "cfad", "edges")] + [(a, a.copy()) for a in stats["sig"]]
            ci, si = int(o["a"] * nc), int(o["col"] * N)
            import matplotlib.dates as mdates
            tn = mdates.date2num(ds["time"].values)
            if op in ("cf", "sr"):
                want = stats["cf"][:, :, ci].T.copy() if op == "cf" else stats["sr"][si, :, :, ci].T.copy()
                want[want <= 0] = np.nan
                y = stats["mid"] * (1.0 if op == "cf" else 1000.)

                def fn():
                    ax = cleared(cur.disp.axes[idx()])
                    keep.append({id(c): c for c in ax.collections})
                    if op == "cf":
                        cur.disp.plot_regridded_CF_timeseries(stats["cf"], stats["mid"], ci, title="x", subplot_index=idx(), colorbar=o["bar"])
                    else:
                        cur.disp.plot_regridded_SR_timeseries(stats["sr"], stats["mid"], ci, si, title="x", subplot_index=idx(), colorbar=o["bar"])
                    return ax, None

                def verify(out, want=want, y=y, v=op):
                    return check_mesh(v, out, keep[0], want, tn, y)
            else:
                yy = np.repeat(ds[m.z_field].isel(ncol=ci).transpose("lev", "time").values / 1000., N, axis=1)

                def q(c):
                    x = ds["strat_q_subcolumns_" + c].isel(ncol=ci).transpose("lev", "time", "subcolumn").values.reshape(H, -1)
                    return x * 1000.

                def s(k):
                    return ds[k].isel(ncol=ci).transpose("lev", "time", "subcolumn").values.reshape(H, -1)
                lo, hi = 1e-7 * (1 + o["t"]), 1e-2 * (1 + o["b"])
                lim = {"vmin": lo, "vmax": hi} if o["named"] else {}
                clim = [(lo, hi)] * 4 if lim else None
                if op in ("all_signal", "nonatt") and lim:
                    lim = {"vmin_radar": lo, "vmax_radar": hi, "vmin_lidar": 2 * lo, "vmax_lidar": 2 * hi}
                    clim = [(lo, hi), (2 * lo, 2 * hi)]
                if op == "all_signal":
                    want = [s("sub_col_Ze_att_tot"), s("sub_col_beta_att_tot")]
                    f = lambda: sp.plot_every_subcolumn_timeseries_radarlidarsignal(m, ci, "", **lim)          # noqa: E731
                elif op == "nonatt":
                    want = [s("sub_col_Ze_tot") if "sub_col_Ze_tot" in ds else None, s("sub_col_beta_p_tot")]
                    if want[0] is None:
                        continue
                    f = lambda: sp.plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(m, ci, "", **lim)   # noqa: E731
                elif op == "all_q":
                    want = [np.where(q(c) <= 0, np.nan, q(c)) for c in ("cl", "ci", "pl", "pi")]
                    f = lambda: sp.plot_every_subcolumn_timeseries_mixingratio(m, ci, "", **lim)               # noqa: E731
                elif op == "all_qsum":
                    want = [q("cl") + q("ci"), q("pl") + q("pi")]
                    f = lambda: sp.plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(m, ci, "", None, None, **lim)   # noqa: E731
                elif op == "all_sr":
                    a, b = [x[:, :, :, ci].transpose(2, 1, 0).reshape(H, -1) for x in stats["sig"][:2]]
                    want = [a / b]
                    f = lambda: sp.plot_every_subcolumn_timeseries_SR(m, stats["sig"][0], stats["sig"][1], ci, "", **lim)         # noqa: E731
                else:
                    want = [stats["cfad"].copy()]
                    if o["b"] < 0.5:
                        f = lambda: sp.plot_radar_CFAD(stats["edges"], stats["mid"], stats["cfad"], "", **lim)      # noqa: E731
                    else:
                        f = lambda: sp.plot_lidar_SR_CFAD(stats["edges"], stats["mid"], stats["cfad"], "", **lim)   # noqa: E731

                def fn(f=f):
                    plt.close("all")
                    f()
                    return plt.gcf(), None

                def verify(out, want=want, v=op, clim=clim):
                    from matplotlib.collections import QuadMesh
                    got = [c for ax in out[0].axes for c in ax.collections if isinstance(c, QuadMesh) and ax.get_label() != "<colorbar>"]
                    for i, w in enumerate(want):
                        if i >= len(got):
                            return "%s: panel %d is missing" % (v, i)
                        g = full(got[i].get_array()).reshape(w.shape) if got[i].get_array().size == w.size else full(got[i].get_array())
                        if not core.arr_equal(g, np.where(np.isfinite(w), w, np.nan), rtol=1e-12):
                            return "%s: panel %d shows other values: %s" % (v, i, core.first_diff(g, w))
                        if clim and got[i].get_clim() != clim[i]:
                            return "%s: panel %d has colour limits %s instead of %s" % (v, i, got[i].get_clim(), clim[i])
                        if v == "cfad":
                            continue
                        c = np.asarray(got[i].get_coordinates())[..., 1]
                        cy = corners(corners(yy).T).T
                        if c.shape == cy.shape and not np.allclose(c, cy, rtol=1e-9, atol=1e-9):
                            return "%s: panel %d is drawn at other heights: %s" % (v, i, core.first_diff(c, cy))
                    return None
        if fn is None:
            continue
        what = "%s (%s)" % (op, case["kind"])
        hook = seams.StepCounter(2_000_000)
        if o.get("cut"):
            hook = seams.InjectAt(o["cut"][1], {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["cut"][0]])
        out = None
        try:
            with seams.line_hook(hook):
                out = emu.attempt(fn)
        except KeyboardInterrupt:
            pass
        cutoff = bool(o.get("cut") and hook.fired)
        res.steps += hook.n
        done += 1
        if cutoff:
            res.fault("cut_" + o["cut"][0])
            res.state(case["kind"], op, hook.fired)
            what += " cut short at " + hook.fired
            if op in ("open", "place", "model"):
                cur = None
        elif isinstance(out, emu.Failed):
            res.violate("exception", "%s failed without a fault: %s" % (what, out.text))
            return
        else:
            res.state(case["kind"], op, o["pressure"], o["mask"], o["log"])
            if op in ("open", "place", "model"):
                cur = out
            if verify is not None:
                bad = verify(out)
                if bad:
                    res.violate("shows", "%s: %s" % (what, bad))
                    return
        for i, m2 in enumerate(ms):
            bad = same(snaps[i], snap(m2))
            if bad:
                res.violate("changed", "%s changed the model: %s" % (what, bad))
                return
        for now, was in args_before or []:
            if not (core.arr_equal(now, was, rtol=0, atol=0) if now.dtype.kind == "f" else np.array_equal(now, was)):
                res.violate("argument", "%s changed data passed to it: %s" % (what, core.first_diff(was, now, rtol=0, atol=0)))
                return
        res.event(op, repr(o["v"]))
    res.nontrivial = done >= 3


def masked(o, a):
    """(keywords, arguments to watch, what is left to show) of a random mask over a: true, or any value above 0, hides."""
    if not o["mask"]:
        return {}, [], a
    r = np.random.default_rng(o["seed"] + 1)
    mask = r.random(a.shape) < 0.3
    kind = o["seed"] % 3
    if kind:
        up, down = ([1, 2, 3], [0, 0, -1]) if kind == 1 else ([0.25, 1., 2.5], [0., 0., -1.])
        if o["hatch"]:
            down = [0]
        mask = np.where(mask, r.choice(up, a.shape), r.choice(down, a.shape))
    kw = {"Mask_array": mask}
    if o["hatch"]:
        kw["hatched_mask"] = "xx" if o["seed"] % 5 == 0 else True
    return kw, [(mask, mask.copy())], a if o["hatch"] else np.where(mask > 0, np.nan, a)


def hatched(kw, out, before):
    """The cells of a hatched mask carry the hatching and no others do."""
    if not kw.get("hatched_mask"):
        return None
    from matplotlib.collections import PolyCollection, QuadMesh
    want = (kw["Mask_array"] > 0).T
    for c in out[0].collections:
        if isinstance(c, (PolyCollection, QuadMesh)) and id(c) not in before and c.get_hatch():
            got = ~np.ma.getmaskarray(np.ma.asarray(c.get_array()))
            if got.size != want.size or not np.array_equal(got.ravel(), want.ravel()):
                return "the hatching covers other cells than the mask: %d instead of %d" % (got.sum(), want.sum())
            return None
    return "the hatched mask is not drawn"


def check_spread(v, out, spread, y):
    """The shading spans mean -+ one standard deviation."""
    from matplotlib.collections import PolyCollection
    vs = [p.vertices for c in out[0].collections if isinstance(c, PolyCollection) for p in c.get_paths()]
    vs = np.concatenate(vs) if vs else np.zeros((0, 2))
    for e in spread:
        for x, h in zip(e, y):
            if np.isfinite(x) and not any(np.isclose(vs[:, 0], x, rtol=1e-9, atol=1e-30) & np.isclose(vs[:, 1], h)):
                return "the shading of %s does not reach one standard deviation: %g at %g" % (v, x, h)
    return None


def corners(y):
    if y.shape[1] == 1:
        return np.hstack([y, y])
    d = np.diff(y, axis=1) / 2
    return np.hstack([y[:, :1] - d[:, :1], y[:, :-1] + d, y[:, -1:] + d[:, -1:]])


def cleared(ax):
    ax.clear()                                  # a subplot used before keeps its scales and formatters
    return ax


def check_mesh(v, out, before, want, x, y):
    ax, bad = out
    if bad:
        return bad
    mesh = mesh_of(ax, before)
    if mesh is None:
        return "%s: nothing was drawn" % v
    g = full(mesh.get_array()).reshape(want.shape) if mesh.get_array().size == want.size else full(mesh.get_array())
    w = np.where(np.isfinite(want), want, np.nan)
    g = np.where(np.isfinite(g), g, np.nan)
    if not core.arr_equal(g, w, rtol=1e-12):
        return "%s shows other values: %s (drawn vs the model's)" % (v, core.first_diff(g, w))
    c = np.asarray(mesh.get_coordinates())
    if c.shape[:2] != (len(y) + 1, len(x) + 1):
        return None
    for i in range(len(y) + 1):
        if not np.allclose(c[i, :, 0], edges(x), rtol=1e-9, atol=1e-9):
            return "%s is drawn at other times or subcolumns: %s instead of %s" % (v, c[i, :, 0], edges(x))
    if not np.allclose(c[:, 0, 1], edges(y), rtol=1e-9, atol=1e-9):
        return "%s is drawn at other heights: %s instead of %s" % (v, c[:, 0, 1], edges(y))
    return None


def check_line(v, out, before, want, y):
    ax, bad = out
    ls = [l for l in ax.lines if id(l) not in before]
    if not ls:
        return "%s: no profile was drawn" % v
    gx, gy = full(np.ma.asarray(ls[0].get_xdata(orig=True))), np.asarray(ls[0].get_ydata(orig=True), dtype=float)
    gx = np.where(np.isfinite(gx), gx, np.nan)
    want = np.where(np.isfinite(want), want, np.nan)
    if not core.arr_equal(gx, want, rtol=1e-9):
        return "the mean profile of %s is not the mean of its values: %s" % (v, core.first_diff(gx, want))
    if not core.arr_equal(gy, y, rtol=1e-9):
        return "the mean profile of %s is drawn at other heights: %s" % (v, core.first_diff(gy, y))
    return None
