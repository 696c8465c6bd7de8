"""P07 - every run finishes within a bounded number of steps, whatever the draws and inputs."""
import copy

from .. import core, emu, seams, synth

ID = "P07"
RUNS = {"quick": 1000, "thorough": 14000}
RULE = ("random model including degenerate ones (fractions without condensate, condensate without fractions, fractions asking for more than "
        "the cell, empty models, one level or column, relative variances from 0 to 1e8) x logic x moments or generator only x schedule with "
        "faults x adversarial draws; progress = at most a fixed number of executed lines per cell, subcolumn and class; non-trivial: a "
        "degenerate input or adversarial draws")
STATE_MEASURE = "distinct task completion orders"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.classification"]
STUB = emu.STUB_GEN
ASSUMPTIONS = ["no NaN or negative mixing ratios, fractions within [0, 1]", "draws stay within the distributions' support"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    full = rng.random() < 0.18
    kw = dict(weird=rng.choice([0, 0.2, 0.5]), fit=rng.random() < 0.7, density=rng.choice([0.0, 0.3, 0.7, 1.0]))
    if full:
        c = emu.gen_full_case(rng, i, **kw)
        if "do_classify" in c["opt"] and kw["weird"]:
            c["opt"].pop("do_classify")
    else:
        spec = synth.gen_spec(rng, H=rng.choice([1, 2, 3, 5, 8]), N=rng.choice([1, 2, 3, 5, 8, 20, 60]), **kw)
        if rng.random() < 0.5:
            spec["relvar"] = [[rng.choice([0.0, 1e-8, 1e-3, 1.0, 40.0, 1e4, 1e8]) for _ in range(spec["H"])] for _ in range(spec["T"])]
        c = {"spec": spec, "sched": emu.gen_schedule(rng), "rad": rng.random() < 0.3, "np_seed": rng.randrange(2 ** 31),
             "api": rng.choice(["main", "steps"])}
    c["full"] = full
    c["rng_mode"] = rng.choice(["seeded", "adversarial", "adversarial"])
    c["degenerate"] = bool(kw["weird"] or not kw["fit"] or not kw["density"])
    return c


def shrink(case):
    return emu.shrink_full(case)


def execute(case, ch, res):
    spec = case["spec"]
    m = synth.SynthModel(spec)
    cnt = seams.StepCounter(emu.step_budget(spec) * (4 if case["full"] else 1))
    if case["full"]:
        out = emu.full_run(m, case, case["sched"], ch, res, counter=cnt)
    else:
        out = emu.generate(m, spec, case["sched"], ch, res, case["rad"], case["rng_mode"], case["np_seed"], api=case["api"], counter=cnt)
    res.event("lines", cnt.n)
    work = spec["T"] * spec["H"] * (spec["N"] + 4) * (len(spec["hyd"]) + 1)
    if cnt.n > 200 * work + 20000:
        res.probe("more_than_a_tenth_of_the_bound")
    if isinstance(out, emu.Failed):
        res.violate("exception", "the run failed without a fault: " + out.text)
    if case["degenerate"] or case["rng_mode"] == "adversarial":
        res.nontrivial = True
