"""P12 - reading instruments, models and observations under disk faults: exact or an error, and a retry is exact."""
import gc
import hashlib
import os

import numpy as np

from .. import core, emu, files, fs, seams, synth
from emc2.core import instruments as _inst
from emc2.core.instrument import Instrument, ureg
from emc2 import io as _io

ID = "P12"
RUNS = {"quick": 360, "thorough": 6000}
RULE = ("one of: a scattering table file, a built-in instrument with all its tables, a model output file (ModelE, E3SM, DHARMA; single place or region), "
        "an instrument observation file, or a whole simulation of a lazily opened model file - read while one or two faults strike at drawn file "
        "operations (EIO, EACCES, EMFILE, EINTR, short reads), then read again in the same process; non-trivial: a fault fired")
STATE_MEASURE = "distinct (what is read, operation, position, fault kind, outcome) combinations"
REAL = ["emc2.io", "emc2.core.instruments and the shipped tables", "emc2.core.model classes", "pandas, xarray, act, netCDF-C / HDF5"]
STUB = ["file operations that carry a fault (LD_PRELOAD shim)", "model and observation files (written by the harness)"]
ASSUMPTIONS = ["a fault is reported by the operation it strikes (error return or short count); silent corruption of bytes is not detectable by EMC2"]
NAMES = ["KAZR", "WACR", "HSRL", "CEIL", "NEXRAD", "RL", "XSACR", "CSAPR"]
CORE = os.path.join(seams.EMC2_ROOT, "core")
TABLES = [("mie", "mie_tables/Mie%s_ci.dat"), ("mie", "mie_tables/Mie%s_liq.dat"), ("mie", "mie_tables/Mie%s_pi.dat"),
          ("scat", "c6_tables/C6_%s_8col_agg_rough_270K.dat"), ("scatD", "mDAD_tables/mDAD_%s_ice.dat"),
          ("bulk", "bulk_c6_tables/bulk_%s_C6PSD_c6_8col_ice_agg_rough_270K.dat"), ("bulk", "bulk_c6_tables/bulk_%s_C6PSD_mie_liq.dat"),
          ("bulkD", "bulk_mDAD_tables/bulk_%s_mDAD_mie_ice.dat")]


def setup():
    fs.lib()
    synth.preload(["KAZR", "HSRL"])       # for whole simulations; their tables are in memory


def gen(rng, i, tier):
    kind = rng.choice(["table", "table", "instrument", "model", "model", "simulate", "obs", "instrument", "instrument"])
    c = {"kind": kind}
    if kind in ("table", "instrument"):
        c["inst"] = rng.choice(NAMES[2:] + ["Ten64nm", "CALIOP", "MPL"] if kind == "instrument" else NAMES)
        c["table"] = rng.randrange(len(TABLES))
        c["warm"] = rng.random() < 0.5
    elif kind in ("model", "simulate"):
        c["fmt"] = rng.choice(files.KINDS)
        c["region"] = rng.choice([None, None, (2, 1, 2), (1, 2, 2), (2, 2, 1)])
        T = int(np.prod(c["region"])) if c["region"] else rng.choice([1, 2, 3])
        c["spec"] = synth.gen_spec(rng, T=T, H=rng.choice([3, 4]), N=rng.choice([2, 3]), hyd=["cl", "ci", "pl", "pi"],
                                   conv=c["fmt"] == "ModelE" and rng.random() < 0.5)
        c["sim"] = rng.choice(["KAZR", "HSRL"])
        c["np_seed"] = rng.randrange(2 ** 31)
    else:
        c["n"] = rng.randrange(2, 30)
    c["faults"] = []
    if kind == "instrument" and rng.random() < 0.6:      # exactly one of its files cannot be opened or read
        k = rng.choice(["EIO", "EIO", "EMFILE", "EACCES"])
        c["faults"] = [{"kind": k, "frac": rng.random(), "rep": 1, "ops": [fs.OPEN] if k != "EIO" or rng.random() < 0.5 else [fs.READ]}]
        return c
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(["EIO", "EIO", "EMFILE", "EACCES", "EINTR", "short", "short"])
        f = {"kind": k, "frac": rng.random(), "rep": rng.choice([1, 1, 1, 4, 10 ** 6]) if k in ("EIO", "short") else 1}
        f["ops"] = [fs.OPEN] if k in ("EMFILE", "EACCES") else [fs.READ] if k in ("short", "EINTR") else [rng.choice([fs.READ, fs.READ, fs.OPEN])]
        c["faults"].append(f)
    return c


def shrink(case):
    for j in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            yield dict(case, faults=case["faults"][:j] + case["faults"][j + 1:])
        if case["faults"][j]["rep"] > 1:
            f = [dict(x) for x in case["faults"]]
            f[j]["rep"] = 1
            yield dict(case, faults=f)
    if case.get("spec") and not case.get("region"):
        for s in synth.shrink_spec(case["spec"]):
            yield dict(case, spec=s)


def dsig(ds):
    """{variable: digest of dims, values and units} of a dataset, all of it read."""
    out = {}
    for k in ds.variables:
        v = ds[k].values
        h = hashlib.sha256(("%s %s %s %s" % (ds[k].dims, v.shape, v.dtype, ds[k].attrs.get("units"))).encode())
        if v.dtype.kind == "O":
            h.update(repr(v.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(v).tobytes())
        out[k] = h.hexdigest()[:16]
    return out


def isig(i):
    out = {}
    for n in ("mie_table", "scat_table", "bulk_table"):
        for k, t in getattr(i, n).items():
            for a, b in dsig(t).items():
                out["%s[%s].%s" % (n, k, a)] = b
    for k, v in vars(i).items():
        if k not in ("mie_table", "scat_table", "bulk_table"):
            out["attr " + k] = repr(v)
    return out


def work(case, d):
    """-> (prefix of the files read, function that reads and returns {name: digest}, text files only?)."""
    k = case["kind"]
    if k == "table":
        fn, rel = TABLES[case["table"]]
        path = os.path.join(CORE, rel % case["inst"])
        radar = case["inst"] not in ("HSRL", "CEIL", "RL")
        f = {"mie": lambda: _io.load_mie_file(path), "scat": lambda: _io.load_scat_file(path, radar),
             "scatD": lambda: _io.load_scat_file(path, radar, param_type="mDAD"), "bulk": lambda: _io.load_bulk_scat_file(path),
             "bulkD": lambda: _io.load_bulk_scat_file(path, param_type="mDAD")}[fn]
        return path, lambda: dsig(f()), True
    if k == "instrument":
        args = {"KAZR": ("nsa",), "WACR": ("sgp",)}.get(case["inst"], ())
        return CORE, lambda: isig(getattr(_inst, case["inst"])(*args)), False
    path = os.path.join(d, "data.nc")
    if k == "obs":
        import xarray as xr
        x = xr.Dataset({"backscatter": (("time", "range"), np.outer(np.arange(case["n"]), np.arange(5.)), {"units": "1"})},
                       coords={"time": files.T0 + np.arange(case["n"]) * np.timedelta64(60, "s"), "range": np.arange(5.)})
        x.to_netcdf(path)
        x.close()

        def obs():
            i = Instrument(frequency=35. * ureg.GHz)
            i.read_arm_netcdf_file(path)
            return dsig(i.ds)
        return d, obs, False
    files.write(path, case["spec"], case["fmt"], case["region"])
    if k == "model":
        def model():
            m = files.load(case["fmt"], path)
            s = dsig(m.ds)
            s.update({"attr " + a: repr(b) for a, b in vars(m).items() if a != "ds"})
            return s
        return d, model, False
    return d, None, False


def quiet(fn):
    e = None
    try:
        return ("ok", fn())
    except Exception as x:  # noqa: BLE001 - the outcome under test
        e = ("raised", "%s: %s" % (type(x).__name__, str(x)[:200]))
    return e


def simulate(case, m):
    res = core.Result()
    out = emu.full_run(m, {"spec": case["spec"], "opt": {"inst": case["sim"], "approach": "rad"}, "np_seed": case["np_seed"], "rng_mode": "seeded"},
                       dict(emu.PLAIN), core.Choices("0", []), res, inst=synth.instrument(case["sim"]))
    if isinstance(out, emu.Failed):
        return "raised", out.text
    sig = dsig(m.ds[sorted(emu.observables(m))])
    return "ok", sig


def plan(case, log):
    out = []
    for f in case["faults"]:
        n = sum(1 for o in log if o in f["ops"])
        out.append({"ops": f["ops"], "at": int(f["frac"] * n), "kind": f["kind"], "rep": f["rep"], "arg": 0})
    return out


def execute(case, ch, res):
    with fs.Scratch() as d:
        prefix, fn, text = work(case, d)
        before = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}

        def clean():
            if case["kind"] == "simulate":
                m = files.load(case["fmt"], os.path.join(d, "data.nc"))
                fs.arm(prefix)
                st = simulate(case, m)
            else:
                fs.arm(prefix)
                st = quiet(fn)
            _, _, log, _ = fs.disarm()
            return st, log

        st, v = fs.in_process(clean)
        if st != "ok" or v[0][0] != "ok":
            res.violate("exception", "reading %s failed without a fault: %s" % (case["kind"], v if st != "ok" else v[0][1]))
            return
        want, log = v[0][1], v[1]
        faults = plan(case, log)
        res.steps += len(log)

        def faulted():
            if case["kind"] == "simulate":
                m = files.load(case["fmt"], os.path.join(d, "data.nc"))
                fs.arm(prefix, faults)
                first = simulate(case, m)
                n, fired, _, _ = fs.disarm()
                if first[0] == "raised":
                    # try again, then once more from a freshly opened model
                    return first, simulate(case, m), fired[:len(faults)], 0, simulate(case, files.load(case["fmt"], os.path.join(d, "data.nc")))
                return first, ("ok", want), fired[:len(faults)], 0, ("ok", want)
            if case.get("warm"):
                quiet(fn)
            fs.arm(prefix, faults)
            first = quiet(fn)
            gc.collect()
            n, fired, _, still = fs.disarm()
            return first, quiet(fn), fired[:len(faults)], still, None

        st, v = fs.in_process(faulted)
        desc = "%s%s with %s" % (case["kind"], " " + str(case.get("inst") or case.get("fmt") or ""), ", ".join(
            "%s at %s %d%s" % (f["kind"], "/".join(fs.OPNAME[o] for o in f["ops"]), f["at"], " onwards" if f["rep"] > 10 else "") for f in faults))
        if st != "ok":
            res.violate("process-lost", "%s: the process ended (%s %s)" % (desc, st, v))
            return
        first, second, fired, still, third = v
        for f, k in zip(faults, fired):
            if k:
                res.nontrivial = True
                res.fault("disk_" + f["kind"], int(min(k, 50)))
            res.state(case["kind"], case.get("inst") or case.get("fmt"), tuple(f["ops"]), f["at"], f["kind"], first[0])
        res.event(first[0], len(log))
        if first[0] == "raised":
            res.probe("raised")
            if not any(fired):
                res.violate("exception", "%s: failed although no fault struck: %s" % (desc, first[1]))
        else:
            res.probe("returned_under_fault", int(any(fired)))
        for label, out in (("under the faults", first), ("again after the faults", second), ("from a freshly opened model", third)):
            if out is None:
                continue
            if out[0] == "ok":
                bad = sorted(k for k in set(want) | set(out[1]) if want.get(k) != out[1].get(k))
                if bad:
                    res.violate("silent", "%s: read %s without an error, but %d items differ from the undisturbed ones, e.g. %s" % (desc, label, len(bad), bad[:3]))
                    return
            elif label != "under the faults":
                res.violate("retry", "%s: reading %s still fails: %s" % (desc, label, out[1]))
                return
        if text and still:
            res.violate("leak", "%s: %d file descriptors of the table are still open" % (desc, still))
        after = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
        if after != before:
            res.violate("source-changed", "%s: the files that were read changed" % desc)
