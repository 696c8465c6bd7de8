"""P03 - liquid and ice overlap maximally, and clouds extend vertically."""
import numpy as np

from .. import emu, synth

ID = "P03"
RUNS = {"quick": 1100, "thorough": 14000}
RULE = ("as P02, biased to clouds in adjacent levels; non-trivial: at least one cell with cloud here and above where neither fills the row")
STATE_MEASURE = "distinct task completion orders plus distinct (counts here, counts above, convective count) situations"
REAL, STUB = emu.REAL_GEN, emu.STUB_GEN


def setup():
    synth.preload(["HSRL"])


def gen(rng, i, tier):
    return {"spec": synth.gen_spec(rng, density=rng.choice([0.7, 0.9, 1.0]), fit=rng.random() < 0.8, weird=rng.choice([0, 0, 0.05])), "sched": emu.gen_schedule(rng),
            "rad": rng.random() < 0.5, "rng_mode": rng.choice(["seeded", "seeded", "adversarial"]),
            "np_seed": rng.randrange(2 ** 31), "api": rng.choice(["main", "steps"])}


def shrink(case):
    return emu.shrink_common(case)


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], case["rng_mode"], case["np_seed"], api=case["api"])
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    N, T, H = spec["N"], spec["T"], spec["H"]
    conv = np.zeros((N, T, H), dtype=bool)
    if spec["conv"]:
        conv = emu.occ(m, "conv_frac_subcolumns_cl") | emu.occ(m, "conv_frac_subcolumns_ci")
    cl, ci = emu.occ(m, "strat_frac_subcolumns_cl"), emu.occ(m, "strat_frac_subcolumns_ci")
    res.event(cl, ci)
    for t in range(T):
        for h in range(H - 1):
            L, I = cl[:, t, h], ci[:, t, h]
            nl, ni = int(L.sum()), int(I.sum())
            small, big = (L, I) if nl <= ni else (I, L)
            if not (small <= big).all():
                res.violate("phase-overlap", "(t=%d,h=%d): liquid in %s, ice in %s: not maximally overlapped" % (
                    t, h, np.where(L)[0].tolist(), np.where(I)[0].tolist()))
            if not big.any():
                continue
            free = ~conv[:, t, h]
            upL, upI = cl[:, t, h + 1] & free, ci[:, t, h + 1] & free
            above = upL | upI
            both = upL & upI
            full = bool(L.all() and I.all())
            res.state(nl, ni, int(upL.sum()), int(upI.sum()), int((~free).sum()))
            if full or not above.any():
                continue
            if 0 < above.sum() < N and big.sum() < N:
                res.nontrivial = True
            if both.sum() < above.sum():
                res.probe("unequal_classes_above")
            for what, cls in (("cloud", big), ("mixed phase", small)):
                n = int(cls.sum())
                if (cls & above).sum() != min(n, above.sum()):
                    res.violate("vertical-overlap", "(t=%d,h=%d): %s in %s does not extend the cloud above %s" % (
                        t, h, what, np.where(cls)[0].tolist(), np.where(above)[0].tolist()))
                if upL.sum() and upI.sum():
                    inner = upL if upL.sum() <= upI.sum() else upI
                    if (cls & inner).sum() != min(n, inner.sum()):
                        res.violate("vertical-overlap-core", "(t=%d,h=%d): %s in %s does not first extend the part of the cloud above "
                                    "holding both phases %s" % (t, h, what, np.where(cls)[0].tolist(), np.where(inner)[0].tolist()))
