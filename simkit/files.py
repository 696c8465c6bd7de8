"""Model output files in the formats EMC2's model classes read, written from a
synthetic model description (simkit.synth spec)."""
import os

import numpy as np
import xarray as xr

from emc2.core import model as _mm

from . import fs, synth

KINDS = ["ModelE", "E3SM", "DHARMA"]
T0 = np.datetime64("2016-08-16T00:00:00", "ns")


def lay(a, nlat, nlon, nt):
    """(column, height) -> (time, height, lat, lon); column = (lat, lon, time) order."""
    a = np.asarray(a)
    return np.ascontiguousarray(a.reshape(nlat, nlon, nt, a.shape[-1]).transpose(2, 3, 0, 1))


def place(c, nlat, nlon, nt):
    """Column number -> (time, lat, lon)."""
    return c % nt, c // (nt * nlon), (c // nt) % nlon


def fields(spec, kind):
    """{name: ((column, height) array, attrs)} as stored in a file of this kind, surface first."""
    m = synth.SynthModel(dict(spec, scheme="MG2", rad="CESM"))
    ds = m.ds
    v = {k: np.asarray(ds[k].values, dtype=float) for k in ds.variables if ds[k].ndim == 2}
    hyd = list(spec["hyd"])
    zero = np.zeros_like(v["z"])
    out = {}

    def put(name, a, units, long_name=""):
        out[name] = (np.array(a, dtype=float), {"units": units, "long_name": long_name or name})
    if kind == "ModelE":
        for k in ("p_3d", "t", "z", "q"):
            put(k, v[k], ds[k].attrs["units"])
        for c in ("cl", "ci", "pl", "pi"):
            on = c in hyd
            put("n" + c, v["n" + c] if on else zero, "cm-3")
            put("q" + c, v["q" + c] if on else zero, "kg/kg")
            put("Q%smc" % c.upper(), v["Q%smc" % c.upper()] if on else zero, "kg/kg")
            put("cldss" + c, v["cldss" + c] if on else zero, "1")
            put("cldmc" + c, v["cldmc" + c] if on else zero, "1")
            put("re_ss" + c, v["re_ss" + c] if on else zero + 30., "micrometer")
            put("re_mc" + c, v["re_mc" + c] if on else zero + 30., "micrometer")
        put("cldssr", np.max([v["cldss" + c] for c in hyd], axis=0), "1")
        put("cldmcr", np.max([v["cldmc" + c] for c in hyd], axis=0), "1")
    elif kind in E3SMS:
        rho = v["rho_a"] if "rho_a" in v else np.asarray(ds["rho_a"].values)
        put("T", v["t"], "K")
        put("Z3", v["z"], "m")
        put("Q", v["q"], "kg/kg")
        for c, n in (("cl", "L"), ("ci", "I"), ("pl", "R"), ("pi", "S")):
            put("FREQ" + n, v["cldss" + c] if c in hyd else zero, "1")
        for c, n in (("cl", "CLDLIQ"), ("ci", "CLDICE"), ("pl", "RAINQM"), ("pi", "SNOWQM")):
            put(n, v["q" + c] if c in hyd else zero, "kg/kg")
        for c, n in (("cl", "NUMLIQ"), ("ci", "NUMICE"), ("pl", "NUMRAI"), ("pi", "NUMSNO")):
            put(n, v["n" + c] * 1e6 / rho if c in hyd else zero, "1/kg")
        for c, n, f in (("cl", "AREL", 1.), ("ci", "AREI", 1.), ("pl", "ADRAIN", 2e-6), ("pi", "ADSNOW", 2e-6)):
            put(n, v["re_ss" + c] * f if c in hyd else zero + 30. * f, "micron" if f == 1. else "m")
        put("CLOUD", np.max([v["cldss" + c] for c in hyd], axis=0), "1")
        put("RELVAR", v["relvar"] if "relvar" in v else zero + 1.0, "1")
        put("mu_cloud", v["mucl"], "1")
        put("lambda_cloud", v["lamcl"], "m-1")
        if kind == "E3SMv3":
            qi = out["CLDICE"][0]
            i = np.add.outer(np.arange(qi.shape[0]), np.arange(qi.shape[1]))
            rim = qi * (0.2 * (i % 5))                           # rimed share 0 ... 0.8
            put("CLDRIM", rim, "kg/kg")
            put("BVRIM", rim / (150.0 + 100.0 * (i % 4)), "m3/kg")
    elif kind in WRFS:
        rho = np.asarray(ds["rho_a"].values, dtype=float)
        put("P", v["p_3d"] * 7., "Pa")                           # perturbation and base state add up to the pressure
        put("PB", v["p_3d"] * 93., "Pa")
        put("tk", v["t"], "K")
        put("z", v["z"], "m")
        put("wa", zero, "m s-1")
        put("QVAPOR", v["q"], "kg kg-1")
        src = {"cl": "cl", "ci": "ci", "pl": "pl", "pi": "pi", "gr": "pi"} if kind == "WRFmorr" else \
            {"cl": "cl", "ci": "ci", "pl": "pl", "sn": "pi", "gr": "pi", "ha": "pl"}
        for c, s in src.items():
            q, n = v["q" + s], v["n" + s] * 1e6 / rho
            if c in ("gr", "ha"):
                q, n = 0.5 * np.roll(q, 1, axis=1), 0.5 * np.roll(n, 1, axis=1)
            put(WRFQ[c], q if s in hyd else zero, "kg kg-1")
            put("QNDROP" if (c, kind) == ("cl", "WRFnssl") else WRFN[c], n if s in hyd else zero, "kg-1")
            if kind == "WRFnssl":
                put(WRFR[c], v["re_ss" + s] if s in hyd else zero + 30., "micron")
            if c in ("gr", "ha") and kind == "WRFnssl":
                i = np.add.outer(np.arange(q.shape[0]), np.arange(q.shape[1]))
                put("QVGRAUPEL" if c == "gr" else "QVHAIL", q / (300.0 + 100.0 * (i % 5)), "m3 kg-1")
        put("CLDFRA", np.max([v["cldss" + c] for c in hyd], axis=0), "1")
    else:
        put("p", v["p_3d"], "hPa")
        for k in ("t", "z", "q"):
            put(k, v[k], ds[k].attrs["units"])
        for c in ("cl", "ci", "pl", "pi"):
            on = c in hyd
            put("n" + c, v["n" + c] if on else zero, "cm-3")
            put("q" + c, v["q" + c] if on else zero, "kg/kg")
            put("strat_%s_frac" % c, v["cldss" + c] if on else zero, "1")
            put("re_strat_" + c, v["re_ss" + c] if on else zero + 30., "micrometer")
        put("conv_dat", zero, "1")
    return out


WRFS = ("WRFmorr", "WRFnssl")
WRFQ = {"cl": "QCLOUD", "ci": "QICE", "pl": "QRAIN", "pi": "QSNOW", "sn": "QSNOW", "gr": "QGRAUP", "ha": "QHAIL"}
WRFN = {"cl": "QNCLOUD", "ci": "QNICE", "pl": "QNRAIN", "pi": "QNSNOW", "sn": "QNSNOW", "gr": "QNGRAUPEL", "ha": "QNHAIL"}
WRFR = {"cl": "REFC", "ci": "REFI", "pl": "REFR", "sn": "REFS", "gr": "REFG", "ha": "REFH"}
HDIM = {"ModelE": "p", "E3SM": "lev", "DHARMA": "hgt", "E3SMv3": "lev", "CESM2": "lev", "E3SMtrack": "lev", "E3SMapp": "lev"}
LATLON = {k: ("lat", "lon") for k in HDIM}
LATLON["DHARMA"] = ("y", "x")
TDIM = {k: "time" for k in HDIM}
for _k in WRFS:
    HDIM[_k], LATLON[_k], TDIM[_k] = "bottom_top", ("south_north", "west_east"), "Time"
TDIM["DHARMA"], TDIM["E3SMtrack"] = "dom_col", "ncol"
E3SMS = ("E3SM", "E3SMv3", "CESM2", "E3SMtrack", "E3SMapp")
APP = ("_70n_to_73n", "_155w_to_158w")           # what post-processing appends to the names of a cut-out


def times(kind, nt):
    return np.arange(nt, dtype=float) if kind == "DHARMA" or kind in WRFS else T0 + np.arange(nt) * np.timedelta64(30, "m")


def write_wrf(path, f, region, cols, H):
    """A WRF file: (Time, bottom_top, south_north, west_east), places given by XLAT and XLONG."""
    nlat, nlon, nt = region or (1, 1, len(cols))
    dims = ("Time", "bottom_top", "south_north", "west_east")
    dv = {k: (dims, lay(a if region else a[cols], nlat, nlon, nt), at) for k, (a, at) in f.items()}
    lat, lon = np.meshgrid(70. + 0.25 * np.arange(nlat), -160. + 0.5 * np.arange(nlon), indexing="ij")
    two = ("Time", "south_north", "west_east")
    ds = xr.Dataset(dv, coords={"XLAT": (two, np.tile(lat, (nt, 1, 1))), "XLONG": (two, np.tile(lon, (nt, 1, 1))),
                                "XTIME": (("Time",), 30. * np.arange(nt), {"units": "minutes since 2016-08-16 00:00:00"})})
    for k in dv:
        ds[k].encoding["coordinates"] = "XLONG XLAT XTIME"
    ds.to_netcdf(path)
    ds.close()


def _getvar(wrfin, varname, timeidx=None, squeeze=True, **kw):
    """Stand-in for wrf-python's getvar (not installed here): the diagnosed field
    comes from the file, laid out and labelled as wrf-python does."""
    v = wrfin.variables
    two = ("Time", "south_north", "west_east")
    mins = np.asarray(v["XTIME"][:])
    return xr.DataArray(np.asarray(v[varname][:]), dims=("Time", "bottom_top", "south_north", "west_east"), name=varname,
                        coords={"XLONG": (two, np.asarray(v["XLONG"][:])), "XLAT": (two, np.asarray(v["XLAT"][:])), "XTIME": (("Time",), mins),
                                "Time": (("Time",), T0 + (mins * 60e9).astype("timedelta64[ns]"))})


def write(path, spec, kind, region=None, cols=None, tsel=None):
    """Write a file.  region (nlat, nlon, nt): a regional file of all columns;
    otherwise a single-place time series of the columns `cols` (default all)."""
    f = fields(spec, kind)
    H, T = spec["H"], spec["T"]
    hd, (la, lo), td = HDIM[kind], LATLON[kind], TDIM[kind]
    flip = kind in E3SMS
    if kind in WRFS:
        return write_wrf(path, f, region, list(range(T)) if cols is None else list(cols), H)
    dv, coords = {}, {}
    if region:
        nlat, nlon, nt = region
        tt = times(kind, nt)
        dims = (td, hd, la, lo)
        for k, (a, at) in f.items():
            b = lay(a, nlat, nlon, nt)
            dv[k] = (dims, b[:, ::-1] if flip else b, at)
        coords = {la: (la, 70. + 0.25 * np.arange(nlat)), lo: (lo, -160. + 0.5 * np.arange(nlon))}
    else:
        cols = list(range(T)) if cols is None else list(cols)
        tt = times(kind, T)[:len(cols)] if tsel is None else times(kind, max(tsel) + 1)[list(tsel)]
        for k, (a, at) in f.items():
            b = a[cols]
            dv[k] = ((td, hd), b[:, ::-1] if flip else b, at)
    coords[td] = (td, tt)
    coords[hd] = (hd, np.arange(H, dtype=float) + 1.)
    ds = xr.Dataset(dv, coords=coords)
    if kind in E3SMS:
        z0 = (np.arange(H) + 0.5) * spec["dz"]
        off = np.exp(-spec.get("tilt", 3.0) * np.arange(T) / 8000.0) * 1013.0e2
        ps = off.reshape(nlat, nlon, nt).transpose(2, 0, 1) if region else off[cols]
        ds["PS"] = ((td, la, lo) if region else (td,), ps)
        ds["P0"] = ((), 1.0e5)
        ds["hyam"] = ((hd,), np.zeros(H))
        ds["hybm"] = ((hd,), np.exp(-z0 / 8000.0)[::-1])
    if kind == "E3SMtrack":                       # columns along a track, each with its own time in the model's calendar
        secs = (tt - np.datetime64("2016-01-01", "ns")) / np.timedelta64(1, "s") - 86400.0     # no 29 February
        ds = ds.assign_coords(ncol=np.arange(len(tt)), time=((td,), secs, {"units": "seconds since 2016-01-01 00:00:00", "calendar": "noleap"}))
    if kind == "E3SMapp":                         # a post-processed cut-out: every spatial name carries the region
        if region:
            ren = {la: la + APP[0], lo: lo + APP[1]}
            ren.update({k: k + (APP[1] + APP[0] if i % 2 else APP[0] + APP[1]) for i, k in enumerate(ds.data_vars) if la in ds[k].dims})
            ds = ds.rename(ren)
    ds.to_netcdf(path)
    ds.close()


def write_subdomains(path, spec, split, nt):
    """An E3SM file of post-processed sub-domains: fields named X_<domain> with dimension ncol_<domain>."""
    f = fields(spec, "E3SM")
    ncol, H, T = sum(split), spec["H"], spec["T"]
    names = ["_155w_to_158w_70n_to_73n", "_97w_to_98w_36n_to_37n", "_10w_to_12w_1n_to_2n"]
    off = np.exp(-spec.get("tilt", 3.0) * np.arange(T) / 8000.0) * 1013.0e2
    dv = {}
    lo = 0
    for name, n in zip(names, split):
        d = "ncol" + name
        dv[d] = ((d,), np.arange(lo, lo + n))
        dv["lat" + name] = ((d,), 70. + np.arange(n))
        dv["lon" + name] = ((d,), 10. + np.arange(n))
        for k, (a, at) in f.items():
            b = a.reshape(ncol, nt, H).transpose(1, 2, 0)[:, ::-1, lo:lo + n]
            dv[k + name] = (("time", "lev", d), b, at)
        dv["PS" + name] = (("time", d), off.reshape(ncol, nt).T[:, lo:lo + n])
        lo += n
    dv["P0"] = ((), 1.0e5)
    dv["hyam"] = (("lev",), np.zeros(H))
    dv["hybm"] = (("lev",), np.exp(-(np.arange(H) + 0.5) * spec["dz"] / 8000.0)[::-1])
    ds = xr.Dataset(dv, coords={"time": ("time", times("E3SM", nt)), "lev": ("lev", np.arange(H) + 1.)})
    ds.to_netcdf(path)
    ds.close()


def load(kind, path, **kw):
    """Open a file with EMC2's own model class."""
    if kind == "ModelE":
        return _mm.ModelE(path, **kw)
    if kind == "E3SM":
        return _mm.E3SMv1(path, include_rain_in_rt=True, **kw)
    if kind == "E3SMapp":
        return _mm.E3SMv1(path, include_rain_in_rt=True, appended_str=kw.pop("appended", False), **kw)
    if kind == "E3SMtrack":
        return _mm.E3SMv1(path, include_rain_in_rt=True, time_dim="ncol", **kw)
    if kind == "E3SMv3":
        return _mm.E3SMv3(path, include_rain_in_rt=True, instrument=synth.INSTR("KAZR"), **kw)
    if kind == "CESM2":
        return _mm.CESM2(path, **kw)
    if kind in WRFS:
        _mm.WRF_PYTHON_AVAILABLE, _mm.getvar, _mm.ALL_TIMES = True, _getvar, None
        return _mm.WRF(path, mcphys_scheme="morrison" if kind == "WRFmorr" else "nssl", **kw)
    return _mm.DHARMA(path, **kw)


# ---- one place of a built-in model's file, as the base of any case -------
BASES = ("ModelE", "E3SM", "E3SMapp", "E3SMtrack", "E3SMv3", "CESM2", "DHARMA", "WRFmorr", "WRFnssl")


def gen_base(rng, case, T=None):
    """Replace a case's synthetic model by a file of one of EMC2's model classes."""
    from . import emu
    fmt = rng.choice(BASES)
    case["fmt"] = fmt
    case["spec"] = synth.gen_spec(rng, T=T or rng.choice([1, 2, 3, 4]), H=rng.choice([3, 4, 5]), N=rng.choice([2, 3, 4, 6]), hyd=["cl", "ci", "pl", "pi"],
                                  conv=fmt == "ModelE" and rng.random() < 0.5, density=rng.choice([0.4, 0.7, 1.0]))
    case["spec"]["scheme"] = {"E3SMv3": "P3", "WRFnssl": "nssl", "WRFmorr": "morrison"}.get(fmt, "MG2")     # (the Morrison files hold no effective radii)
    case["opt"] = emu.gen_options(rng, case["spec"]["scheme"], "P3" if fmt == "E3SMv3" else "ModelE")
    case["graupel"] = fmt == "WRFmorr" and rng.random() < 0.5
    return case


def base_model(case):
    """-> model in memory, and the case with what the model class made of the file (classes, convection)."""
    fmt, spec = case.get("fmt"), case["spec"]
    if not fmt:
        return synth.SynthModel(spec), case
    with fs.Scratch() as d:
        path, kw = os.path.join(d, "base.nc"), {}
        if fmt == "E3SMtrack":
            write(path, spec, fmt, cols=list(range(spec["T"])), tsel=list(range(spec["T"])))
        else:
            write(path, spec, fmt, [1, 1, spec["T"]])
        if fmt == "E3SMapp":
            kw["appended"] = True
        if case.get("graupel"):
            kw["include_gr_class"] = True
        m = load(fmt, path, **kw)
        m.ds.load()
    spec = dict(spec, hyd=list(m.hyd_types), conv=bool(m.process_conv), scheme=m.mcphys_scheme, rad=m.rad_scheme_family)
    return m, dict(case, spec=spec)
