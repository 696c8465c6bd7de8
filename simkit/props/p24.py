"""P24 - statistics count each place's own samples where they belong."""
import numpy as np

from .. import core, emu, fs, seams, synth
from . import p23

ID = "P24"
RUNS = {"quick": 240, "thorough": 3000}
RULE = ("signals of a simulated set of columns are collected, regridded and turned into scattering ratios, cloud fractions and frequency diagrams in a random history "
        "(repeated, on other grids, cut short by an interruption or failed allocation, with the other columns and times replaced by unusable values); each result "
        "must be the overlap-weighted mean or the count of the samples it stands for, and no input may change; non-trivial: cloud in the columns")
STATE_MEASURE = "distinct (step, grid position, poison, cut point) combinations"
REAL = ["emc2.statistics_LLNL.statistical_aggregation", "emc2.simulator", "emc2.core.model loaders and unstacking"]
STUB = ["model files (written by the harness)", "dask's schedulers (serial)"]
SR_EDGES = [0.01, 1.2, 3.0, 5.0, 7.0, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0, 80.0, 999.0]


def setup():
    emu.preload()
    import emc2.statistics_LLNL             # noqa: F401


def gen(rng, i, tier):
    split = rng.choice([[2], [2, 1], [1, 2], [1, 1], [3]])
    nt = rng.choice([1, 2, 3])
    N = rng.choice([1, 2, 3, 5])
    c = {"kind": "ncol", "fmt": "E3SM", "split": split, "region": [sum(split), 1, nt], "finalize": rng.random() < 0.5, "classify": False,
         "np_seed": rng.randrange(2 ** 31)}
    c["spec"] = synth.gen_spec(rng, T=sum(split) * nt, H=rng.choice([3, 4, 6, 8]), N=N, hyd=["cl", "ci", "pl", "pi"], conv=False, density=rng.choice([0.4, 0.7, 1.0]))
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        o = {"op": rng.choice(["signals", "sr", "sr", "ze", "cf", "cfad_ze", "cfad_sr", "grid"]), "seed": rng.randrange(2 ** 31),
             "poison": rng.choice([None, None, "nan", "inf", "huge", "zero", "negative"]), "col": rng.random(), "time": rng.random(), "mode": rng.random()}
        if rng.random() < 0.35:
            o["cut"] = [rng.choice(["interrupt", "memory"]), rng.choice([rng.randrange(1, 30), rng.randrange(1, 600)])]
        ops.append(o)
    c["ops"] = ops
    return c


def shrink(case):
    n = len(case["ops"])
    for i in range(n):
        if n > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i, o in enumerate(case["ops"]):
        for k in ("cut", "poison"):
            if o.get(k):
                p = dict(o)
                p[k] = None
                yield dict(case, ops=case["ops"][:i] + [p] + case["ops"][i + 1:])


def grid(o, top):
    """New levels (km): even or uneven, finer or coarser than the model's, up to beyond its top."""
    r = np.random.default_rng(o["seed"])
    n = int(r.integers(2, 9))
    w = np.full(n, 1.0) if o["mode"] < 0.5 else r.uniform(0.3, 2.0, n)
    e = np.concatenate([[0.0], np.cumsum(w)])
    e = e / e[-1] * top * r.choice([0.5, 0.9, 1.0, 1.3, 2.0])
    if r.random() < 0.2:
        e = e + 0.1 * top
    return e[:-1].copy(), e[1:].copy()


def overlap_mean(y, bot, top, nb, nt):
    """(mean of y weighted by overlap or NaN where nothing overlaps, any unusable sample in it, total overlap)."""
    w = np.clip(np.minimum(top, nt) - np.maximum(bot, nb), 0, None)
    use = w > 0
    if not use.any():
        return np.nan, False, 0.0
    bad = not np.isfinite(y[use]).all()
    if bad and np.isfinite(y[w > 1e-9]).all():
        return np.nan, False, 1e-15         # touched by a rounding error's width only: not judged
    return (w[use] * y[use]).sum() / w[use].sum(), bad, w.sum()


def execute(case, ch, res):
    with fs.Scratch() as d:
        m = p23.build(case, d, 0)
        if isinstance(m, emu.Failed):
            res.violate("exception", "simulation failed: " + m.text)
            return
        with np.errstate(all="ignore"):
            count(case, res, m)


def spoil(a, keep, kind, r):
    """a (subcolumn, time, level, column) with everything but the kept (time, column) replaced; kept as given."""
    b = a.copy()
    out = np.ones(b.shape, dtype=bool)
    out[:, keep[0], :, keep[1]] = False
    junk = {"nan": np.nan, "inf": np.inf, "huge": 1e30, "zero": 0.0, "negative": -5.0}[kind]
    b[out & (r.random(b.shape) < 0.8)] = junk
    return b


def count(case, res, m):
    import emc2.statistics_LLNL.statistical_aggregation as sa
    ds = m.ds
    N, nt, H, nc = ds.sizes["subcolumn"], ds.sizes["time"], ds.sizes["lev"], ds.sizes["ncol"]
    before = p23.snap(m)

    def v4(k):
        return ds[k].transpose("subcolumn", "time", "lev", "ncol").values.copy()

    def v3(k):
        return ds[k].transpose("time", "lev", "ncol").values.copy()
    tot, mol, ze = v4("sub_col_beta_att_tot"), np.broadcast_to(v3("sigma_180_vol") * v3("tau"), (N, nt, H, nc)).copy(), v4("sub_col_Ze_att_tot")
    z = v3("Z3") / 1000.
    zh = z.copy()
    zh[:, :-1] = (z[:, :-1] + z[:, 1:]) / 2
    top_edge = np.concatenate([zh[:, 1:], (2 * z - zh)[:, -1:]], axis=1)
    truth = {"tot": tot, "mol": mol, "z": z, "zh": zh, "ze": ze}
    res.nontrivial = bool(np.isfinite(ze).any())

    def regrid_check(name, have, y, zz, hh, te, nb, nt_, cells, units=False):
        """have (subcolumn, time, new level, column) against the overlap-weighted mean of y."""
        for (t, c) in cells:
            for g in range(len(nb)):
                if nt_[g] <= hh[t, 0, c]:
                    continue                            # below the lowest model level
                for s in range(N):
                    w, bad, tot_w = overlap_mean(y[s, t, :, c], hh[t, :, c], te[t, :, c], nb[g], nt_[g])
                    h = have[s, t, g, c]
                    if tot_w < 1e-12:
                        if tot_w == 0 and np.isfinite(h) and abs(h) > 1e-300 and not h < -1e15:
                            return "%s: new level %d of column %d holds %g although no model level reaches it" % (name, g, c, h)
                        continue
                    if bad:
                        if np.isfinite(h) and abs(h) < 1e15:
                            return "%s: new level %d of column %d holds %g although a sample in it is unusable" % (name, g, c, h)
                    elif not np.isclose(h, w, rtol=1e-6, atol=1e-290):
                        return "%s: new level %d (%.3f-%.3f km), time %d, column %d, subcolumn %d is %g, the samples in it average %g" % (name, g, nb[g], nt_[g], t, c, s, h, w)
        return None

    for o in case["ops"]:
        op = o["op"]
        r = np.random.default_rng(o["seed"])
        tk, ck = int(o["time"] * nt), int(o["col"] * nc)
        cells = [(t, c) for t in range(nt) for c in range(nc)]
        a = {k: v.copy() for k, v in truth.items()}
        if o["poison"] and op != "signals":
            cells = [(tk, ck)]
            for k in ("tot", "ze"):
                a[k] = spoil(a[k], (tk, ck), o["poison"], r)
            res.fault("poison_" + o["poison"])
        nb, ntp = grid(o, float(z.max()))
        G = len(nb)
        mid = (nb + ntp) / 2
        if op in ("cf", "cfad_sr"):
            sr = r.choice([np.nan, 0.0, 0.005, 0.01, 0.5, 1.2, 4.9, 5.0, 5.1, 30., 80., 200., 1200.], (N, nt, G, nc))
            if o["poison"]:
                sr = spoil(sr, (tk, ck), o["poison"], r)
            a["sr"] = sr
        if op == "cfad_ze":
            rz = r.choice([np.nan, -1e30, -60., -50., -49.99, -12.5, 0.0, 9.99, 24.99, 25.0, 40.], (N, nt, G, nc))
            if o["poison"]:
                rz = spoil(rz, (tk, ck), o["poison"], r)
            a["rz"] = rz
        edges = np.arange(-50., 26., 5.) if op == "cfad_ze" else np.array(SR_EDGES)
        was = {k: v.copy() for k, v in a.items()}
        gw = (nb.copy(), ntp.copy(), mid.copy(), edges.copy())

        def fn():
            if op == "signals":
                return sa.get_radar_lidar_signals(m)
            if op == "sr":
                return sa.calculate_SR(a["tot"], a["mol"], N, nt, a["z"], a["zh"], N, nt, H, G, nc, nb, ntp)
            if op == "ze":
                return sa.get_regridded_ze_att_tot(a["ze"], a["z"], a["zh"], N, nt, G, nc, nb, ntp, N, nt, H)
            if op == "grid":
                return sa.COSP_CHANGE_VERTICAL_GRID(nt, N, H, a["z"][:, :, ck], a["zh"][:, :, ck], np.transpose(np.nan_to_num(a["ze"][:, :, :, ck], nan=-1e30), (1, 0, 2)),
                                                    G, nb, ntp, lunits=True)
            if op == "cf":
                return sa.calculate_lidar_CF(a["sr"], nt, G, nc)
            if op == "cfad_ze":
                return sa.get_cfaddBZ(edges, mid, nt, N, a["rz"], ck)
            return sa.get_cfad_SR(edges, mid, nt, N, a["sr"], ck)

        def check(out):
            if op == "signals":
                for name, h, w in zip(("lidar", "molecular", "heights", "half levels", "radar"), out, (tot, mol, z, zh, ze)):
                    if not core.arr_equal(np.asarray(h), w, rtol=1e-12):
                        return "%s signal differs from the model's: %s" % (name, core.first_diff(np.asarray(h), w))
                return None
            if op == "ze":
                return regrid_check("reflectivity", out, a["ze"], z, zh, top_edge, nb, ntp, cells)
            if op == "sr":
                if out.shape != (N, nt, G, nc):
                    return "shape %s" % (out.shape,)
                for (t, c) in cells:
                    for g in range(G):
                        if ntp[g] <= zh[t, 0, c]:
                            continue
                        for s in range(N):
                            x = overlap_mean(a["tot"][s, t, :, c], zh[t, :, c], top_edge[t, :, c], nb[g], ntp[g])
                            y = overlap_mean(a["mol"][s, t, :, c], zh[t, :, c], top_edge[t, :, c], nb[g], ntp[g])
                            h = out[s, t, g, c]
                            if x[2] < 1e-12:
                                if x[2] == 0 and np.isfinite(h):
                                    return "scattering ratio: new level %d of column %d holds %g although no model level reaches it" % (g, c, h)
                                continue
                            if x[1] or y[1]:
                                if h > 0 and np.isfinite(h):
                                    return "scattering ratio: new level %d of column %d holds %g although a sample in it is unusable" % (g, c, h)
                            elif not np.isclose(h, x[0] / y[0], rtol=1e-6):
                                return "scattering ratio: new level %d (%.3f-%.3f km), time %d, column %d, subcolumn %d is %g instead of %g" % (
                                    g, nb[g], ntp[g], t, c, s, h, x[0] / y[0])
                return None
            if op == "grid":
                for t in range(nt):
                    if (t, ck) not in cells:
                        continue
                    for g in range(G):
                        if ntp[g] <= zh[t, 0, ck]:
                            continue
                        for s in range(N):
                            lin = 10 ** (a["ze"][s, t, :, ck] / 10)
                            w, _, tw = overlap_mean(np.where(np.isfinite(a["ze"][s, t, :, ck]), lin, 0.0), zh[t, :, ck], top_edge[t, :, ck], nb[g], ntp[g])
                            h = out[t, s, g]
                            if 0 < tw < 1e-12:
                                continue
                            if tw == 0 or w == 0:
                                if h > -1e15:
                                    return "regridding: empty new level %d holds %g" % (g, h)
                            elif not np.isclose(h, 10 * np.log10(w), rtol=1e-6, atol=1e-6):
                                return "regridding: new level %d (%.3f-%.3f km), time %d, subcolumn %d is %g dBZ, the samples in it average %g" % (g, nb[g], ntp[g], t, s, h, 10 * np.log10(w))
                return None
            if op == "cf":
                for (t, c) in cells:
                    for g in range(G):
                        x = a["sr"][:, t, g, c]
                        ok = (x > 0.01).sum()
                        w = (x > 5.).sum() / ok if ok else np.nan
                        if not (np.isclose(out[t, g, c], w) or (np.isnan(w) and np.isnan(out[t, g, c]))):
                            return "cloud fraction of level %d, time %d, column %d is %g, %d of %d usable subcolumns are cloudy" % (g, t, c, out[t, g, c], (x > 5.).sum(), ok)
                return None
            x = a["rz" if op == "cfad_ze" else "sr"][:, :, :, ck]
            if o["poison"] and nt > 1:
                return None                             # the diagram covers all times of the column: judged below with its own times only
            w = np.zeros((G, len(edges) - 1))
            for g in range(G):
                for t in range(nt):
                    for s in range(N):
                        q = x[s, t, g]
                        for j in range(len(edges) - 1):
                            if edges[j] <= q < edges[j + 1]:
                                w[g, j] += 1.0 / N / nt
            return None if np.allclose(out, w, rtol=1e-9) else "frequencies differ from the counted ones: %s" % core.first_diff(out, w)

        hook = seams.StepCounter(20_000_000)
        what = op
        if o.get("cut"):
            hook = seams.InjectAt(o["cut"][1], {"interrupt": KeyboardInterrupt, "memory": MemoryError}[o["cut"][0]])
        out = None
        for attempt in (0, 1):
            out = None
            try:
                if attempt == 0:
                    with seams.line_hook(hook):
                        out = emu.attempt(fn)
                else:
                    out = emu.attempt(fn)
            except KeyboardInterrupt:
                out = None
            cut = attempt == 0 and bool(o.get("cut") and hook.fired)
            if cut:
                res.fault("cut_" + o["cut"][0])
                res.state(op, hook.fired)
                what = op + " after one cut short at " + hook.fired
                if out is not None and not isinstance(out, emu.Failed):
                    res.violate("swallowed", "%s: an injected %s was swallowed" % (op, o["cut"][0]))
                    return
            elif isinstance(out, emu.Failed):
                res.violate("exception", "%s failed without a fault: %s" % (what, out.text))
                return
            bad = p23.same(before, p23.snap(m))
            if bad:
                res.violate("changed", "%s changed the model: %s" % (what, bad))
                return
            for k in a:
                if not core.arr_equal(a[k], was[k], rtol=0, atol=0):
                    res.violate("argument", "%s changed data passed to it: %s" % (what, core.first_diff(was[k], a[k], rtol=0, atol=0)))
                    return
            for x, y in zip(gw, (nb, ntp, mid, edges)):
                if not np.array_equal(x, y):
                    res.violate("argument", "%s changed the grid passed to it" % what)
                    return
            if not cut:
                break
        res.steps += hook.n
        bad = check(out)
        if bad:
            res.violate("count", "%s%s: %s" % (what, " with poisoned neighbours" if o["poison"] else "", bad))
            return
        res.state(op, o["poison"], G, bool(ntp[-1] > z.max()))
        res.event(op, o["poison"])
