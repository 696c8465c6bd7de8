"""P02 - stratiform (and convective) cloud occupies exactly its share of subcolumns."""
import numpy as np

from .. import emu, synth

ID = "P02"
RUNS = {"quick": 1100, "thorough": 14000}
RULE = ("random model (1-5 times, 3-8 levels, 2-20 subcolumns, random class fractions, optional convection) x logic x API "
        "route x schedule (serial / parallel / chunked, any order, pickled workers, duplicated or crashed-and-retried tasks) x "
        "seeded or adversarial random draws; non-trivial: at least one cell with 0 < count < N")
STATE_MEASURE = "distinct task completion orders plus distinct (liquid count, ice count, overlying counts, convective count) cell situations"
REAL, STUB = emu.REAL_GEN, emu.STUB_GEN
ASSUMPTIONS = ["the topmost level may be treated as cloud-free"]


def setup():
    synth.preload(["HSRL"])


def gen(rng, i, tier):
    return {"spec": synth.gen_spec(rng, fit=rng.random() < 0.8, weird=rng.choice([0, 0, 0.1])), "sched": emu.gen_schedule(rng), "rad": rng.random() < 0.5,
            "rng_mode": rng.choice(["seeded", "seeded", "adversarial"]), "np_seed": rng.randrange(2 ** 31),
            "api": rng.choice(["main", "steps"])}


def shrink(case):
    return emu.shrink_common(case)


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], case["rng_mode"], case["np_seed"], api=case["api"])
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    check(m, spec, case["rad"], res)


def check(m, spec, rad, res):
    N, T, H = spec["N"], spec["T"], spec["H"]
    conv = np.zeros((N, T, H), dtype=bool)
    if spec["conv"]:
        for c in ("cl", "ci"):
            o = emu.occ(m, "conv_frac_subcolumns_" + c)
            conv |= o
            want = emu.counts(spec, c, rad, "conv")
            res.event("conv", c, o)
            if not np.array_equal(o.sum(axis=0), want):
                t, h = np.argwhere(o.sum(axis=0) != want)[0]
                res.violate("conv-count", "convective %s occupies %d of %d subcolumns at (t=%d,h=%d), expected %d" % (
                    c, o[:, t, h].sum(), N, t, h, want[t, h]))
    a, b = emu.counts(spec, "cl", rad), emu.counts(spec, "ci", rad)
    cl, ci = emu.occ(m, "strat_frac_subcolumns_cl"), emu.occ(m, "strat_frac_subcolumns_ci")
    if cl.shape != (N, T, H) or ci.shape != (N, T, H):
        res.violate("shape", "occupancy has shape %s, expected %s" % (cl.shape, (N, T, H)))
        return
    res.event("strat", cl, ci)
    nconv = conv.sum(axis=0)
    for t in range(T):
        for h in range(H):
            k1, k2 = int(a[t, h]), int(b[t, h])
            res.state("cell", k1, k2, int(nconv[t, h]), int(cl[:, t, h + 1].sum()) if h + 1 < H else -1,
                      int(ci[:, t, h + 1].sum()) if h + 1 < H else -1)
            if 0 < k1 < N or 0 < k2 < N:
                res.nontrivial = True
            full = k1 == N and k2 == N
            room = N if full else N - int(nconv[t, h])
            got = (int(cl[:, t, h].sum()), int(ci[:, t, h].sum()))
            want = (min(k1, room), min(k2, room))
            if h == H - 1:
                # the topmost level is the generator's boundary: either treated as cloud-free or filled
                if got not in ((0, 0), want):
                    res.violate("strat-count", "topmost level t=%d: counts %s, expected %s or none" % (t, got, want))
                continue
            if got != want:
                res.violate("strat-count", "(t=%d,h=%d): liquid,ice occupy %s of %d subcolumns, expected %s" % (t, h, got, N, want))
            if not full and (cl[:, t, h] & conv[:, t, h]).any() | (ci[:, t, h] & conv[:, t, h]).any():
                res.violate("conv-overlap", "(t=%d,h=%d): stratiform cloud placed in a convective subcolumn" % (t, h))
            if nconv[t, h] and (k1 or k2):
                res.probe("strat_beside_convection")
            if full:
                res.probe("full_overcast")
            if min(k1, k2) == 0 < max(k1, k2) and h + 2 < H and cl[:, t, h + 1].any() and ci[:, t, h + 1].any():
                res.probe("single_class_under_mixed")
