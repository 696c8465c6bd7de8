"""P19 - subcolumn placement and sub-grid water are fair draws."""
import math

import numpy as np
from scipy import stats

from .. import core, emu, seams, synth

ID = "P19"
RUNS = {"quick": 56, "thorough": 1200}
RULE = ("a synthetic model of 240-400 identical columns is put through the generator with seeded draws under a random schedule; the placement of every "
        "class and level is tested for exchangeability (each subcolumn equally often occupied, each pair equally often together, no "
        "dependence between columns), and microphysics-logic cloud liquid against an independent sampler; alarms only below p = 1e-11; "
        "non-trivial: at least one cell level with a count strictly between 0 and the number of free subcolumns")
STATE_MEASURE = "distinct (class, count, subcolumns free, level) combinations tested"
REAL = emu.REAL_GEN + ["numpy's permutation and gamma draws"]
STUB = emu.STUB_GEN[:2] + ["model data files (synthetic in-memory models)"]
ASSUMPTIONS = ["all workers draw from one seeded stream (one simulated process)"]
PMIN = 1e-11


def setup():
    pass


def gen(rng, i, tier):
    T = rng.choice([240, 320, 400])
    spec = synth.gen_spec(rng, T=1, H=rng.choice([3, 3, 4]), N=rng.choice([4, 5, 6, 8, 10, 12]), conv=rng.random() < 0.25,
                          density=rng.choice([0.7, 1.0]), relvar=rng.random() < 0.5)
    return {"spec": spec, "T": T, "sched": emu.gen_schedule(rng, faults=rng.random() < 0.5), "rad": rng.random() < 0.4, "np_seed": rng.randrange(2 ** 31)}


def shrink(case):
    for s in emu.shrink_schedule(case["sched"]):
        yield dict(case, sched=s)


def widen(spec, T):
    """The one-column description repeated T times."""
    s = dict(spec, T=T)
    for g in ("frac", "q") + (("fracrad",) if spec.get("fracrad") else ()):
        s[g] = {k: {c: v * T for c, v in spec[g][k].items()} for k in spec[g]}
    for g in ("num", "re"):
        s[g] = {c: v * T for c, v in spec[g].items()}
    if spec.get("relvar"):
        s["relvar"] = spec["relvar"] * T
    return s


def two_sided(k, n, p):
    return min(1.0, 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)))


def execute(case, ch, res):
    T = case["T"]
    spec = widen(case["spec"], T)
    N, H = spec["N"], spec["H"]
    m = synth.SynthModel(spec)
    cnt = seams.StepCounter(10 * emu.step_budget(spec))
    out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], "seeded", case["np_seed"], counter=cnt)
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    conv = np.zeros((N, T, H), bool)
    if spec["conv"]:
        conv = emu.occ(m, "conv_frac_subcolumns_cl") | emu.occ(m, "conv_frac_subcolumns_ci")
    # subcolumns convection never touches are interchangeable with each other
    free = np.where(~conv.any(axis=(1, 2)))[0] if spec["conv"] else np.arange(N)
    F = len(free)
    if F >= 2:
        for c in spec["hyd"]:
            o = emu.occ(m, "strat_frac_subcolumns_%s" % c)
            for h in range(H - 1):
                a = o[free, :, h].astype(int)
                k = a.sum(axis=0)                  # per column
                if (k == 0).all() or (k == F).all():
                    continue
                if len(set(k.tolist())) > 1 and not spec["conv"]:
                    continue                        # the counts themselves are another property's business
                res.nontrivial = True
                res.state(c, int(k[0]), F, h)
                placement(res, "%s at level %d (%d of %d interchangeable subcolumns)" % (c, h, k[0], F), a, k, F)
    if not case["rad"]:
        water(res, case, spec, m)
    res.event(*[m.ds["strat_frac_subcolumns_%s" % c].values.astype(np.uint8) for c in spec["hyd"]])


def placement(res, what, a, k, F):
    T = a.shape[1]
    p = float((k / F).mean())
    if len(set(k.tolist())) == 1:
        tail = lambda x: two_sided(int(x), T, p)                          # noqa: E731
    else:
        var = float((k / F * (1 - k / F)).sum())
        tail = lambda x: 2 * stats.norm.sf(abs(x - T * p) / math.sqrt(var + 1e-9) * 0.9)    # noqa: E731
    for j in range(F):
        x = a[j].sum()
        if tail(x) < PMIN:
            res.violate("biased", "%s: subcolumn %d is occupied in %d of %d identical columns, expected about %.0f (p < 1e-11)" % (what, j, x, T, T * p))
            return
    if len(set(k.tolist())) > 1:
        return
    n = int(k[0])
    p2 = n * (n - 1) / (F * (F - 1))
    if 0 < p2 < 1:
        for i in range(F):
            for j in range(i):
                x = int((a[i] & a[j]).sum())
                if two_sided(x, T, p2) < PMIN:
                    res.violate("clustered", "%s: subcolumns %d and %d are occupied together in %d of %d identical columns, expected about %.0f (p < 1e-11)" % (
                        what, j, i, x, T, T * p2))
                    return
    # disjoint pairs of columns: the overlap is hypergeometric if the columns are independent
    for lag in (1, 2):
        first = np.array([t for t in range(T - lag) if (t // lag) % 2 == 0])
        ov = (a[:, first] & a[:, first + lag]).sum(axis=0)
        mu, var = n * n / F, n * n * (F - n) ** 2 / (F * F * (F - 1.0))
        if var > 0:
            z = (ov.sum() - mu * len(first)) / math.sqrt(var * len(first))
            if abs(z) > 7.5:
                res.violate("dependent", "%s: columns %d apart share %.2f occupied subcolumns on average, expected %.2f if drawn independently (%.1f sigma)" % (
                    what, lag, ov.mean(), mu, z))
                return


def sampler(rng, n, a, reps):
    """Independent reference for one cell: n gamma values (mean 1, relative variance 1/a) of which as many are kept as fit under
    the cell's total, the rest of the total being shared by the others; returns the mean square and the largest of the values per cell."""
    g = rng.gamma(a, 1.0 / a, (reps, n))
    cs = np.concatenate([np.zeros((reps, 1)), np.cumsum(g, axis=1)], axis=1)     # cs[:, i]: sum of the first i
    sq = np.concatenate([np.zeros((reps, 1)), np.cumsum(g * g, axis=1)], axis=1)
    keep = ((n - cs[:, :n]) > 0).sum(axis=1) - 1     # kept: as many leading values as leave something over; at least one is dropped
    r = np.arange(reps)
    left = n - keep
    rest = (n - cs[r, keep]) / left
    peak = np.maximum(np.maximum.accumulate(np.concatenate([np.zeros((reps, 1)), g], axis=1), axis=1)[r, keep], rest)
    return (sq[r, keep] + rest ** 2 * left) / n, peak


def apart(x, y):
    """Largest distance between the distributions of two samples, with the critical value for p = 1e-11."""
    grid = np.concatenate([x, y])
    gap = 1e-9 * (1 + np.abs(grid))
    d = np.minimum(np.abs(np.searchsorted(np.sort(x), grid + gap) / len(x) - np.searchsorted(np.sort(y), grid + gap) / len(y)),
                   np.abs(np.searchsorted(np.sort(x), grid + 2 * gap) / len(x) - np.searchsorted(np.sort(y), grid - gap) / len(y)))
    return float(d.max()), math.sqrt(math.log(2 / PMIN) / 2 * (1 / len(x) + 1 / len(y)))


def water(res, case, spec, m):
    q = np.asarray(m.ds["strat_q_subcolumns_cl"].values)
    o = emu.occ(m, "strat_frac_subcolumns_cl")
    rng = np.random.default_rng(case["np_seed"])
    T, N, H = spec["T"], spec["N"], spec["H"]
    for h in range(H):
        k = o[:, :, h].sum(axis=0)
        n, g, f = int(k[0]), spec["q"]["strat"]["cl"][0][h], spec["frac"]["strat"]["cl"][0][h]
        if n < 2 or len(set(k.tolist())) > 1 or not (g > 1e-18 and f > 0):
            continue
        a = 1.0 / spec["relvar"][0][h] if spec.get("relvar") else 1.0
        x = (q[:, :, h] / (g / f))
        got = (x * x).sum(axis=0) / n
        want, peak = sampler(rng, n, a, 20000)
        se = math.sqrt(got.var() / T + want.var() / len(want)) + 1e-12
        res.state("water", n, a)
        res.probe("water_levels")
        if abs(got.mean() - want.mean()) > 8.5 * se and abs(got.mean() - want.mean()) > 0.1 * want.mean():
            res.violate("spread", "cloud liquid at level %d (%d occupied, relative variance %.3g): mean square %.4f of the in-cloud mean's, expected %.4f (8.5 sigma)" % (
                h, n, 1 / a, got.mean(), want.mean()))
            return
        for what, mine, ref in (("largest share", x.max(axis=0), peak), ("mean square", got, want)):
            d, crit = apart(mine, ref)
            if d > crit + 0.01:
                res.violate("shape", "cloud liquid at level %d (%d occupied, relative variance %.3g): the %s of %d columns is distributed unlike the gamma "
                            "draws' (distance %.3f, p < 1e-11 from %.3f)" % (h, n, 1 / a, what, T, d, crit))
                return
        # which subcolumn gets how much must not depend on its index
        if not spec["conv"] and n < N or (not spec["conv"] and n == N):
            mean_by = x.sum(axis=1) / np.maximum(o[:, :, h].sum(axis=1), 1)
            cnt = o[:, :, h].sum(axis=1)
            sd = x[o[:, :, h]].std()
            z = np.where(cnt > 20, (mean_by - 1.0) / (sd / np.sqrt(np.maximum(cnt, 1)) + 1e-12), 0.0)
            if sd > 1e-9 and np.abs(z).max() > 9.5 and np.abs(mean_by - 1)[np.abs(z).argmax()] > 0.3:
                j = int(np.abs(z).argmax())
                res.violate("unfair-water", "cloud liquid at level %d: subcolumn %d holds %.2f of the in-cloud mean on average over %d columns" % (h, j, mean_by[j], cnt[j]))
                return
