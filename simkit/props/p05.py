"""P05 - precipitation goes below precipitation first, then into cloud, then elsewhere."""
import numpy as np

from .. import emu, synth

ID = "P05"
RUNS = {"quick": 1100, "thorough": 14000}
RULE = ("as P04, biased to precipitation in adjacent levels and partial cloud; non-trivial: a cell where the priority order leaves a choice "
        "(precipitating subcolumns above, or cloudy ones, are neither none nor all)")
STATE_MEASURE = "distinct task completion orders plus distinct (per-class counts, overlying, cloudy) situations"
REAL, STUB = emu.REAL_GEN, emu.STUB_GEN


def setup():
    synth.preload(["HSRL"])


def gen(rng, i, tier):
    return {"spec": synth.gen_spec(rng, density=rng.choice([0.5, 0.8, 0.95])), "sched": emu.gen_schedule(rng), "rad": rng.random() < 0.5,
            "rng_mode": rng.choice(["seeded", "seeded", "adversarial"]), "np_seed": rng.randrange(2 ** 31),
            "api": rng.choice(["main", "steps"])}


def shrink(case):
    return emu.shrink_common(case)


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], case["rng_mode"], case["np_seed"], api=case["api"])
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    N, T, H = spec["N"], spec["T"], spec["H"]
    pre = [h for h in spec["hyd"] if h not in ("cl", "ci")]
    for kind in ["strat"] + (["conv"] if spec["conv"] else []):
        o = {c: emu.occ(m, "%s_frac_subcolumns_%s" % (kind, c)) for c in pre}
        cloud = emu.occ(m, kind + "_frac_subcolumns_cl") | emu.occ(m, kind + "_frac_subcolumns_ci")
        anyp = np.zeros((N, T, H), dtype=bool)
        for c in pre:
            anyp |= o[c]
        res.event(kind, anyp, cloud)
        for t in range(T):
            for h in range(H - 1):
                over = anyp[:, t, h + 1]
                cld = cloud[:, t, h] & ~over
                for what, p in [("precipitation", anyp[:, t, h])] + [(c, o[c][:, t, h]) for c in pre]:
                    n = int(p.sum())
                    if n == 0:
                        continue
                    res.state(kind, n, int(over.sum()), int(cld.sum()))
                    if 0 < over.sum() < N or 0 < cld.sum() < N:
                        res.nontrivial = True
                    want_over = min(n, int(over.sum()))
                    if (p & over).sum() != want_over:
                        res.violate("priority-above", "%s %s (t=%d,h=%d) in %s: only %d below the precipitation above (%s), expected %d" % (
                            kind, what, t, h, np.where(p)[0].tolist(), (p & over).sum(), np.where(over)[0].tolist(), want_over))
                        continue
                    rest = n - want_over
                    want_cld = min(rest, int(cld.sum()))
                    if rest and over.any():
                        res.probe("spills_past_overlying")
                    if rest > want_cld:
                        res.probe("spills_into_clear")
                    if (p & cld).sum() != want_cld:
                        res.violate("priority-cloud", "%s %s (t=%d,h=%d) in %s: %d in the other cloudy subcolumns (%s), expected %d" % (
                            kind, what, t, h, np.where(p)[0].tolist(), (p & cld).sum(), np.where(cld)[0].tolist(), want_cld))
