"""P06 - condensate and number are handed out to subcolumns without gain or loss."""
import numpy as np

from .. import emu, synth

ID = "P06"
RUNS = {"quick": 2200, "thorough": 30000}
RULE = ("random model x logic x API route x schedule with faults x seeded or adversarial gamma/permutation draws, 1-50 subcolumns; "
        "non-trivial: at least one cell whose class occupies two or more subcolumns")
STATE_MEASURE = "distinct task completion orders plus distinct (class kind, subcolumn count, draws truncated) situations"
REAL, STUB = emu.REAL_GEN, emu.STUB_GEN
TH = 1e-18


def setup():
    synth.preload(["HSRL"])


def gen(rng, i, tier):
    N = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 50, None])
    spec = synth.gen_spec(rng, N=N, weird=rng.choice([0, 0, 0.1]), density=rng.choice([0.5, 0.8, 1.0]), fit=True)
    return {"spec": spec, "sched": emu.gen_schedule(rng), "rad": rng.random() < 0.4,
            "rng_mode": rng.choice(["seeded", "seeded", "adversarial"]), "np_seed": rng.randrange(2 ** 31),
            "api": rng.choice(["main", "steps"])}


def shrink(case):
    return emu.shrink_common(case)


def close(a, b):
    return bool(np.isclose(a, b, rtol=1e-9, atol=1e-40))


def execute(case, ch, res):
    spec, rad = case["spec"], case["rad"]
    m = synth.SynthModel(spec)
    out = emu.generate(m, spec, case["sched"], ch, res, rad, case["rng_mode"], case["np_seed"], api=case["api"])
    if isinstance(out, emu.Failed):
        res.violate("exception", "generator failed without a fault: " + out.text)
        return
    N, T, H = spec["N"], spec["T"], spec["H"]
    for kind in ["strat"] + (["conv"] if spec["conv"] else []):
        for c in spec["hyd"]:
            qg = np.array(spec["q"][kind][c], dtype=float)
            f = np.array(synth.frac_of(spec, kind, c, rad), dtype=float)
            ng = np.array(spec["num"][c], dtype=float)
            if rad:
                f = np.where(qg > TH, f, 0.0)
            q = np.asarray(m.ds["%s_q_subcolumns_%s" % (kind, c)].values)
            n = np.asarray(m.ds["%s_n_subcolumns_%s" % (kind, c)].values) if kind == "strat" else None
            res.event(kind, c, q)
            if q.shape != (N, T, H):
                res.violate("shape", "%s q of %s has shape %s, expected %s" % (kind, c, q.shape, (N, T, H)))
                return
            o = emu.occ(m, "%s_frac_subcolumns_%s" % (kind, c))
            pdf = c == "cl" and kind == "strat" and not rad and N > 1
            for t in range(T):
                for h in range(H):
                    where = "%s %s (t=%d,h=%d)" % (kind, c, t, h)
                    k = int(o[:, t, h].sum())
                    mean = qg[t, h] / f[t, h] if (f[t, h] > 0 and qg[t, h] > TH) else 0.0
                    nmean = ng[t, h] / f[t, h] if f[t, h] > 0 else 0.0
                    if N == 1:
                        if f[t, h] > 0 and not close(q[0, t, h], mean):
                            res.violate("q-single", "%s: single subcolumn holds q=%r, in-cloud mean is %r" % (where, q[0, t, h], mean))
                        if f[t, h] > 0 and n is not None and not close(n[0, t, h], nmean):
                            res.violate("n-single", "%s: single subcolumn holds N=%r, in-cloud mean is %r" % (where, n[0, t, h], nmean))
                        continue
                    if k >= 2 and mean > 0:
                        res.nontrivial = True
                    inq, outq = q[o[:, t, h], t, h], q[~o[:, t, h], t, h]
                    if not np.all(np.isfinite(q[:, t, h])) or (q[:, t, h] < 0).any():
                        res.violate("q-sign", "%s: negative or non-finite q %s" % (where, q[:, t, h].tolist()))
                        continue
                    if (outq != 0).any():
                        res.violate("q-outside", "%s: q outside the class' subcolumns %s: %s" % (where, np.where(o[:, t, h])[0].tolist(), q[:, t, h].tolist()))
                    if pdf:
                        res.state(kind, k, int((inq == inq[-1]).sum()) if k else 0)
                        if not close(inq.sum(), mean * k):
                            res.violate("q-conservation", "%s: %d subcolumns hold %r in total, expected %r" % (where, k, inq.sum(), mean * k))
                        if k >= 2 and mean > 0:
                            res.probe("cells_with_drawn_water")
                            if np.ptp(inq) <= 1e-12 * mean:
                                res.probe("all_draws_rejected_even_split")
                    else:
                        res.state(kind, c, k)
                        for v in inq:
                            if not close(v, mean):
                                res.violate("q-incloud", "%s: a subcolumn holds q=%r, in-cloud mean is %r" % (where, v, mean))
                                break
                    if n is not None:
                        inn, outn = n[o[:, t, h], t, h], n[~o[:, t, h], t, h]
                        if (outn != 0).any():
                            res.violate("n-outside", "%s: N outside the class' subcolumns: %s" % (where, n[:, t, h].tolist()))
                        for v in inn:
                            if not close(v, nmean):
                                res.violate("n-incloud", "%s: a subcolumn holds N=%r, in-cloud mean is %r" % (where, v, nmean))
                                break
