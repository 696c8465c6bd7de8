"""P01 - the way the work is scheduled never changes the answer."""
import numpy as np

from .. import core, emu, files, synth

ID = "P01"
RUNS = {"quick": 400, "thorough": 7000}
RULE = ("random model x instrument (radar/lidar) x approach (radiation, microphysics, empirical) x schedule: chunk size, completion "
        "order, worker isolation, duplicated and crashed-and-retried tasks; compared variable by variable with the serial run; "
        "non-trivial: at least two columns and a schedule that differs from plain submission order")
STATE_MEASURE = "distinct task completion orders of dispatched batches"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.psd",
                       "emc2.simulator.classification", "scattering LUTs shipped with EMC2"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments, so that order of drawing cannot matter)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i)
    return files.gen_base(rng, c, T=rng.choice([2, 3, 4, 5])) if rng.random() < 0.15 else c


def shrink(case):
    return emu.shrink_full(case)


def execute(case, ch, res):
    ref, case = files.base_model(case)
    spec = case["spec"]
    par = synth.clone(ref)
    r0 = emu.full_run(ref, case, dict(emu.PLAIN), core.Choices("0", []), core.Result())
    r1 = emu.full_run(par, case, case["sched"], ch, res)
    if isinstance(r0, emu.Failed) or isinstance(r1, emu.Failed):
        a, b = [r.text if isinstance(r, emu.Failed) else "ok" for r in (r0, r1)]
        if isinstance(r0, emu.Failed) and isinstance(r1, emu.Failed):
            res.note["both_failed"] = a
            res.violate("exception", "the pipeline failed without a fault: " + a)
        else:
            res.violate("outcome", "serial run: %s; scheduled run: %s" % (a, b))
        return
    emu.compare(res, "schedule", ref, par, "serial run", "run scheduled %s" % {k: v for k, v in case["sched"].items() if v})
    if spec["T"] >= 2 and case["sched"]["parallel"]:
        res.nontrivial = True
