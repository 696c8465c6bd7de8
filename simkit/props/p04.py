"""P04 - precipitation occupies exactly its share, its classes maximally overlapped."""
import numpy as np

from .. import emu, synth

ID = "P04"
RUNS = {"quick": 1100, "thorough": 14000}
RULE = ("random model with 1-4 precipitation classes, stratiform and convective, x logic x API route x schedule with faults x draws; "
        "non-trivial: a cell whose largest precipitation class fills part of the row")
STATE_MEASURE = "distinct task completion orders plus distinct per-cell count vectors"
REAL, STUB = emu.REAL_GEN, emu.STUB_GEN


def setup():
    synth.preload(["HSRL"])


def gen(rng, i, tier):
    return {"spec": synth.gen_spec(rng, weird=rng.choice([0, 0, 0.1])), "sched": emu.gen_schedule(rng), "rad": rng.random() < 0.5,
            "rng_mode": rng.choice(["seeded", "seeded", "adversarial"]), "np_seed": rng.randrange(2 ** 31),
            "api": rng.choice(["main", "steps"])}


def shrink(case):
    return emu.shrink_common(case)


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], case["rng_mode"], case["np_seed"], api=case["api"])
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    N, T, H = spec["N"], spec["T"], spec["H"]
    pre = [h for h in spec["hyd"] if h not in ("cl", "ci")]
    for kind in ["strat"] + (["conv"] if spec["conv"] else []):
        o = {c: emu.occ(m, "%s_frac_subcolumns_%s" % (kind, c)) for c in pre}
        k = {c: emu.counts(spec, c, case["rad"], kind) for c in pre}
        for c in pre:
            res.event(kind, c, o[c])
            if o[c].shape != (N, T, H):
                res.violate("shape", "%s %s occupancy has shape %s, expected %s" % (kind, c, o[c].shape, (N, T, H)))
                return
        for t in range(T):
            for h in range(H):
                got = {c: int(o[c][:, t, h].sum()) for c in pre}
                want = {c: int(k[c][t, h]) for c in pre}
                res.state(kind, tuple(want.values()))
                if h == H - 1:
                    if any(got.values()) and got != want:
                        res.violate("precip-count", "%s topmost level t=%d: counts %s, expected %s or none" % (kind, t, got, want))
                    continue
                if 0 < max(want.values()) < N:
                    res.nontrivial = True
                    res.probe(kind + "_partial_precip_cells")
                if len(set(v for v in want.values() if v)) > 1:
                    res.probe("unequal_precip_classes")
                if got != want:
                    res.violate("precip-count", "%s (t=%d,h=%d): counts %s of %d subcolumns, expected %s" % (kind, t, h, got, N, want))
                srt = sorted(pre, key=lambda c: got[c])
                for x, y in zip(srt, srt[1:]):
                    if not (o[x][:, t, h] <= o[y][:, t, h]).all():
                        res.violate("precip-overlap", "%s (t=%d,h=%d): %s in %s and %s in %s are not maximally overlapped" % (
                            kind, t, h, x, np.where(o[x][:, t, h])[0].tolist(), y, np.where(o[y][:, t, h])[0].tolist()))
