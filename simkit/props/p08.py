"""P08 - an observation's result does not depend on what was simulated before it."""
import random

import numpy as np

from .. import core, emu, files, seams, synth

ID = "P08"
RUNS = {"quick": 240, "thorough": 5000}
RULE = ("random history of 1-3 earlier operations on one model (other instruments, other approaches and options, the same one again, "
        "subcolumn regeneration, finalised fields, an operation that failed part-way) followed by one observation; every field it yields is "
        "compared with the same observation on a model without the history; non-trivial: every run with a history")
STATE_MEASURE = "distinct histories (operation kinds, instruments, approaches) plus task completion orders"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.psd", "emc2.simulator.classification"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments)"]


def setup():
    emu.preload()


def subset(rng, spec, opt, p):
    """The same options, sometimes for some of the classes only."""
    if rng.random() >= p or spec["scheme"] != "MG2" or opt.get("do_classify"):
        return opt
    h = list(spec["hyd"])
    return dict(opt, hyd_types=sorted(rng.sample(h, rng.randrange(1, len(h) + 1)), key=h.index))


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i)
    if rng.random() < 0.2:
        c = files.gen_base(rng, c)
    spec = c["spec"]
    c["hist"] = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        if r < 0.25:
            o = dict(c["opt"])
        else:
            o = emu.gen_options(rng, spec["scheme"], spec["rad"])
        h = {"opt": o, "skip": rng.random() < 0.75, "finalize": rng.random() < 0.25, "sched": emu.gen_schedule(rng),
             "fail": rng.random() < 0.15}
        h["opt"] = subset(rng, spec, h["opt"], 0.3)
        if h["fail"]:
            h["line"] = rng.choice([50, 400, 1500, 3000])
        c["hist"].append(h)
    c["opt"] = subset(rng, spec, c["opt"], 0.15)
    c["reuse_instrument"] = rng.random() < 0.7
    c["final_skip"] = rng.random() < 0.7
    c["final_finalize"] = rng.random() < 0.2
    own = random.Random(c["np_seed"] * 4 + 1)
    for o in c["hist"] + [c]:           # the same instrument name with scattering tables of one's own
        o["tables"] = own.random() < 0.2
    for h in c["hist"]:
        if spec["scheme"] == "P3" and own.random() < 0.3:
            h["hybrid"] = own.choice([0, 1, 2])
    return c


def shrink(case):
    for j in range(len(case["hist"])):
        if len(case["hist"]) > 1:
            c = dict(case)
            c["hist"] = case["hist"][:j] + case["hist"][j + 1:]
            yield c
        h = case["hist"][j]
        for k in ("finalize", "fail", "tables", "hybrid"):
            if h.get(k):
                c = dict(case)
                c["hist"] = [dict(x) for x in case["hist"]]
                c["hist"][j].pop(k)
                c["hist"][j].update({} if k == "hybrid" else {k: False})
                yield c
        for s in emu.shrink_schedule(h["sched"]):
            c = dict(case)
            c["hist"] = [dict(x) for x in case["hist"]]
            c["hist"][j]["sched"] = s
            yield c
    if case["final_finalize"]:
        c = dict(case)
        c["final_finalize"] = False
        yield c
    for c in emu.shrink_full(case):
        yield c


class Interrupted(BaseException):
    pass


def execute(case, ch, res):
    base, case = files.base_model(case)
    spec = case["spec"]
    if case.get("fmt"):                 # the classes are the model's own
        def own(o):
            return dict(o, hyd_types=[h for h in o["hyd_types"] if h in spec["hyd"]] or spec["hyd"][:1]) if "hyd_types" in o else o
        case = dict(case, opt=own(case["opt"]), hist=[dict(h, opt=own(h["opt"])) for h in case["hist"]])
    if not case["final_skip"]:
        case = dict(case, opt={k: v for k, v in case["opt"].items() if k != "hyd_types"})
    if case["final_skip"]:
        g = dict(case)
        g["opt"] = {"inst": case["opt"]["inst"], "approach": case["opt"]["approach"]}
        out = emu.full_run(base, g, dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
        if isinstance(out, emu.Failed):
            res.violate("exception", "generator failed without a fault: " + out.text)
            return
    fresh, used = synth.clone(base), synth.clone(base)
    insts = {}

    def inst(name, tables):
        if case["reuse_instrument"] and (name, tables) in insts:
            return insts[name, tables]
        insts[name, tables] = synth.tampered(synth.instrument(name)) if tables else synth.instrument(name)
        return insts[name, tables]

    sub0 = {k: np.array(used.ds[k].values, copy=True) for k in used.ds.variables} if case["final_skip"] else {}
    kinds = []
    generated = case["final_skip"]
    for h in case["hist"]:
        skip = h["skip"] or case["final_skip"]
        kinds.append((h["opt"]["inst"], h["opt"]["approach"], skip, h["finalize"], h["fail"]))
        skip = skip and generated
        if not skip:
            h = dict(h, opt={k: v for k, v in h["opt"].items() if k != "hyd_types"})
        cnt = None
        if h["fail"]:
            def boom():
                return Interrupted()
            cnt = seams.InjectAt(h["line"], boom)
        sched = dict(h["sched"])
        if "hybrid" in h:
            used.p3_kws["use_hybrid_scat"] = h["hybrid"]
        try:
            if cnt is not None:
                cnt.n = 0
                out = emu.full_run(used, dict(case, opt=h["opt"]), sched, ch, res, skip=skip, inst=inst(h["opt"]["inst"], h.get("tables")), counter=cnt,
                                   finalize_fields=h["finalize"])
            else:
                out = emu.full_run(used, dict(case, opt=h["opt"]), sched, ch, res, skip=skip, inst=inst(h["opt"]["inst"], h.get("tables")),
                                   finalize_fields=h["finalize"])
        except Interrupted:
            res.fault("interrupted_operation")
            generated = generated and skip
            continue
        if isinstance(out, emu.Failed):
            res.violate("exception", "an earlier operation failed without a fault: " + out.text)
            return
        generated = True
        if h["finalize"]:
            res.probe("finalised_before")
        if not skip:
            res.probe("regenerated")
    if hasattr(fresh, "p3_kws"):
        used.p3_kws["use_hybrid_scat"] = fresh.p3_kws["use_hybrid_scat"]
    res.state("hist", tuple(kinds), case["opt"]["inst"], case["opt"]["approach"])
    for k, v in sub0.items():
        if k not in used.ds or not core.arr_equal(v, used.ds[k].values, rtol=0, atol=0):
            res.violate("subcolumns-changed", "an earlier observation changed %s" % k)
            return
    r0 = emu.full_run(fresh, case, dict(emu.PLAIN), core.Choices("0", []), core.Result(), skip=case["final_skip"],
                      inst=synth.tampered(synth.instrument(case["opt"]["inst"])) if case.get("tables") else None,
                      finalize_fields=case["final_finalize"])
    r1 = emu.full_run(used, case, case["sched"], ch, res, skip=case["final_skip"], inst=inst(case["opt"]["inst"], case.get("tables")),
                      finalize_fields=case["final_finalize"])
    for r, what in ((r0, "without"), (r1, "with")):
        if isinstance(r, emu.Failed):
            res.violate("exception", "the observation failed on the model %s history: %s" % (what, r.text))
            return
    emu.compare(res, "history", fresh, used, "model without history", "model with history %s" % kinds, names=set(fresh.ds.variables))
    missing = [k for k in fresh.ds.variables if k not in used.ds.variables]
    if missing:
        res.violate("history", "fields missing after a history: %s" % missing[:4])
    res.nontrivial = True
