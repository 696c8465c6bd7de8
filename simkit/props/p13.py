"""P13 - every place of a regional file gets its own answer, at its own place."""
import os

import numpy as np

from .. import core, emu, files, fs, synth
from emc2.core import model as _mm

ID = "P13"
RUNS = {"quick": 320, "thorough": 2500}
RULE = ("regional file (latitudes x longitudes x times; ModelE, E3SM, DHARMA, or E3SM sub-domains on one spatial dimension) opened by its model class, "
        "optionally cropped in time or space, simulated under a seeded schedule and unstacked; one or two places are compared with the simulation of a "
        "file holding only that place; non-trivial: more than one place or a crop")
STATE_MEASURE = "distinct (format, region shape, crop, approach, completion order of parallel batches)"
REAL = ["emc2.core.model loaders, cropping, stacking, unstacking", "emc2.simulator", "act/xarray file reading"]
STUB = ["dask's schedulers (seeded scheduler)", "model files (written by the harness)", "numpy's draws (fixed functions of their arguments)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    fmt = rng.choice(["ModelE", "ModelE", "E3SM", "DHARMA", "E3SMsub", "E3SMv3", "CESM2", "E3SMtrack", "E3SMtrack", "E3SMapp",
                      "WRFmorr", "WRFnssl"])
    c = {"fmt": fmt, "split": None, "crop": None, "box": None}
    nt = rng.choice([1, 2, 3])
    if fmt == "E3SMsub":
        c["split"] = rng.choice([[2], [3], [1, 2], [2, 1], [1, 1, 1]])
        c["region"] = [sum(c["split"]), 1, nt]
    else:
        c["region"] = list(rng.choice([(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (1, 1)])) + [nt]
    if c["region"][0] * c["region"][1] > 4:
        c["region"][2] = nt = 1
    if fmt == "E3SMtrack":
        nt = rng.choice([1, 3, 5, 6, 8])
        c["region"] = [1, 1, nt]
        c["tidx"] = sorted(rng.randrange(nt) for _ in range(nt)) if rng.random() < 0.3 else [rng.randrange(nt) for _ in range(nt)]   # several columns may share a time
    T = int(np.prod(c["region"]))
    c["spec"] = synth.gen_spec(rng, T=T, H=rng.choice([3, 4, 5]), N=rng.choice([1, 2, 3, 4]), hyd=["cl", "ci", "pl", "pi"],
                               conv=fmt == "ModelE" and rng.random() < 0.5, density=rng.choice([0.6, 1.0]))
    if fmt != "DHARMA" and not fmt.startswith("WRF") and nt > 1 and rng.random() < (0.75 if fmt == "E3SMtrack" else 0.4):
        a = rng.randrange(nt)
        c["crop"] = [a, rng.randrange(a + 1, nt + 1)]
        if rng.random() < 0.15:
            c["crop"] = [nt + 5, nt + 9]         # outside the file: documented to be ignored
    if (fmt == "DHARMA" or fmt.startswith("WRF")) and rng.random() < 0.4:
        ny, nx = c["region"][:2]
        y, x = rng.randrange(ny), rng.randrange(nx)
        c["box"] = [x, y, rng.randrange(x, nx), rng.randrange(y, ny)]
    scheme = {"E3SMv3": "P3", "WRFnssl": "nssl"}.get(fmt, "MG2")
    c["opt"] = emu.gen_options(rng, scheme, "P3" if fmt == "E3SMv3" else "ModelE")
    if fmt == "WRFmorr" and c["opt"]["approach"] != "micro":
        c["opt"]["approach"] = "micro"           # these files hold no effective radii
    if fmt == "WRFnssl" and rng.random() < 0.3:
        c["opt"]["approach"] = "rad"
        c["opt"].pop("calc_dispersion", None)
    if fmt.startswith("WRF"):
        c["nuwrf"] = rng.random() < 0.3
        c["graupel"] = fmt == "WRFmorr" and rng.random() < 0.5
    c["opt"].pop("do_classify", None)
    c["sched"] = emu.gen_schedule(rng)
    c["unstack"] = rng.random() < 0.9
    c["rng_mode"], c["np_seed"] = "fixed%d" % rng.randrange(4), rng.randrange(2 ** 31)
    c["pick"] = [rng.random(), rng.random()]
    c["early"] = rng.random() < 0.15             # look at the input fields right after loading too
    return c


def shrink(case):
    for s in emu.shrink_schedule(case["sched"]):
        yield dict(case, sched=s)
    if case["crop"]:
        yield dict(case, crop=None)
    if case["box"]:
        yield dict(case, box=None)
    o = case["opt"]
    for k in ("OD_from_sfc", "mie_for_ice", "calc_spectral_width"):
        if k in o:
            yield dict(case, opt={a: b for a, b in o.items() if a != k})


def tval(i):
    return files.T0 + i * np.timedelta64(30, "m")


def execute(case, ch, res):
    spec, (nlat, nlon, nt) = case["spec"], case["region"]
    fmt = "E3SM" if case["split"] else case["fmt"]
    with fs.Scratch() as d:
        path = os.path.join(d, "region.nc")
        kw, one_kw = {}, {}
        t0, t1 = 0, nt
        if case["crop"]:
            kw["time_range"] = np.array([tval(case["crop"][0]), tval(case["crop"][1])])
            if case["crop"][0] < nt:
                t0, t1 = case["crop"]
        tidx = case.get("tidx") or list(range(nt))
        keep = [j for j in range(nt) if t0 <= tidx[j] < t1] or list(range(nt))       # a crop that keeps nothing is ignored
        lat0, lat1, lon0, lon1 = 0, nlat, 0, nlon
        if case["box"]:
            x0, y0, x1, y1 = case["box"]
            kw["bounding_box"] = (-160. + 0.5 * x0, 70. + 0.25 * y0, -160. + 0.5 * x1, 70. + 0.25 * y1)
            lat0, lat1, lon0, lon1 = y0, y1 + 1, x0, x1 + 1
            if fmt in files.WRFS:                # (lat, lon) order there
                b = kw["bounding_box"]
                kw["bounding_box"] = (b[1], b[0], b[3], b[2])
        if case.get("nuwrf"):
            one_kw["NUWRF"] = kw["NUWRF"] = True
        if case.get("graupel"):
            one_kw["include_gr_class"] = kw["include_gr_class"] = True
        if case["split"]:
            files.write_subdomains(path, spec, case["split"], nt)
            m = emu.attempt(_mm.E3SMv1, path, appended_str=True, all_appended_in_lat=True, include_rain_in_rt=True, **kw)
            la, lo = "ncol", None
        else:
            if fmt == "E3SMtrack":
                files.write(path, spec, fmt, cols=list(range(nt)), tsel=tidx)
            else:
                files.write(path, spec, fmt, case["region"])
            m = emu.attempt(files.load, fmt, path, **(dict(kw, appended=True) if fmt == "E3SMapp" else kw))
            la, lo = files.LATLON[fmt]
        if isinstance(m, emu.Failed):
            res.violate("exception", "opening the regional file failed: " + m.text)
            return
        td, hd = files.TDIM[fmt], files.HDIM[fmt]
        many = (lat1 - lat0) * (lon1 - lon0) > 1
        res.nontrivial = many or bool(case["crop"] or case["box"])
        before = {k: getattr(m, k) for k in ("time_dim", "stacked_time_dim")}
        out = emu.full_run(m, case, case["sched"], ch, res, unstack_dims=case["unstack"])
        if isinstance(out, emu.Failed):
            res.violate("exception", "regional simulation failed: " + out.text)
            return
        if not case["unstack"] and many:
            if m.stacked_time_dim != td or m.time_dim == td:
                res.violate("unstack", "the dataset was unstacked although it was not asked for")
            m.unstack_time_lat_lon()
        ds = m.ds
        # ---- coordinates of the region are back ----
        ntk = len(keep)
        want = {"time" if fmt == "E3SMtrack" else td: files.times(fmt, nt)[[tidx[j] for j in keep]]}
        wrf = fmt in files.WRFS                   # no coordinate values along a WRF grid's dimensions
        if wrf and not many:
            want = {}
        if many:
            if not case["split"]:
                want[la] = np.arange(lat1 - lat0) if wrf else 70. + 0.25 * np.arange(nlat)[lat0:lat1]
                want[lo] = np.arange(lon1 - lon0) if wrf else -160. + 0.5 * np.arange(nlon)[lon0:lon1]
            if m.time_dim != td or m.stacked_time_dim is not None:
                res.violate("coords", "after unstacking time_dim is %r and stacked_time_dim %r" % (m.time_dim, m.stacked_time_dim))
        for k, v in want.items():
            got = np.atleast_1d(ds[k].values) if k in ds.variables else None
            if got is not None and np.issubdtype(got.dtype, np.datetime64):
                got = got.astype("datetime64[ns]")
            if got is None or not core.arr_equal(got.astype(float), np.asarray(v).astype(float), rtol=1e-12):
                res.violate("coords", "coordinate %s is %s instead of %s" % (k, got, v))
                return
        # ---- places ----
        places = [(a, b) for a in range(lat0, lat1) for b in range(lon0, lon1)]
        chosen = sorted({places[int(p * len(places))] for p in case["pick"]})
        for a, b in chosen:
            cols = [(a * nlon + b) * nt + t for t in keep]
            one = os.path.join(d, "one_%d_%d.nc" % (a, b))
            files.write(one, spec, fmt, cols=cols, tsel=[tidx[j] for j in keep])
            s = files.load(fmt, one, **one_kw)
            o = emu.full_run(s, case, dict(emu.PLAIN), core.Choices("0", []), core.Result())
            if isinstance(o, emu.Failed):
                res.violate("exception", "single-place simulation failed: " + o.text)
                return
            names = emu.observables(s) - set(s.ds.coords)
            for k in sorted(names):
                w = s.ds[k]
                if td not in w.dims or k == "PS":
                    continue
                if k not in ds.variables:
                    res.violate("field-missing", "field %s is missing from the regional result" % k)
                    return
                g = ds[k]
                sel = {}
                if many:
                    sel = {la: a - lat0} if lo is None else {la: a - lat0, lo: b - lon0}
                    lost = [x for x in sel if x not in g.dims]
                    if lost:
                        res.violate("dims", "%s has dimensions %s (no %s)" % (k, g.dims, lost))
                        return
                    g = g.isel(sel)
                    exp = tuple(x for x in w.dims if not ((x == td and ntk == 1) or (x == "subcolumn" and spec["N"] == 1)))
                else:
                    exp = w.dims
                if set(g.dims) != set(exp):
                    res.violate("dims", "%s of one place has dimensions %s instead of %s" % (k, g.dims, exp))
                    return
                w = w.squeeze([x for x in w.dims if x not in exp])
                wv = w.transpose(*g.dims).values
                if not core.arr_equal(g.values, wv, rtol=1e-9):
                    res.violate("place", "%s at place (%d, %d) of the %s region %s: %s (region vs that place alone)" % (
                        k, a, b, case["fmt"], case["region"], core.first_diff(g.values, wv)))
                    return
                res.event(k, g.values)
        res.state(case["fmt"], tuple(case["region"]), str(case["crop"]), str(case["box"]), case["opt"]["approach"])
        # ---- a second unstacking is refused, not silently repeated ----
        if many:
            again = emu.attempt(m.unstack_time_lat_lon)
            if not isinstance(again, emu.Failed):
                res.violate("unstack-twice", "unstacking an unstacked dataset did not raise")
