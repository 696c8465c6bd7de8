"""P10 - a failing task or an interruption surfaces, and running again gives the undisturbed result."""
import numpy as np

from .. import core, emu, files, seams, synth

ID = "P10"
RUNS = {"quick": 600, "thorough": 7000}
RULE = ("random model x instrument x approach x schedule; one injected failure: a worker task raises, or the process is interrupted "
        "(KeyboardInterrupt), or an allocation fails (MemoryError) when a drawn line is about to run; then the same call again; non-trivial: "
        "the failure actually fired")
STATE_MEASURE = "distinct places (source line or batch and task) at which the run was cut short"
REAL = emu.REAL_GEN + ["emc2.simulator.radar_moments", "emc2.simulator.lidar_moments", "emc2.simulator.psd", "emc2.simulator.classification"]
STUB = emu.STUB_GEN[:2] + ["numpy permutation/gamma draws (a fixed function of their arguments)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i)
    if rng.random() < 0.15:
        c = files.gen_base(rng, c, T=rng.choice([2, 3, 4]))
    kind = rng.choice(["task", "KeyboardInterrupt", "MemoryError", "MemoryError"])
    if c["opt"]["inst"] not in emu.NO_PHASE and rng.random() < 0.3:
        c["opt"]["do_classify"] = True
    if kind == "task":
        c["fail"] = {"kind": kind, "batch": rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15]), "task": rng.choice([0, 0, 1, 1, 2, 3])}
        c["sched"] = emu.gen_schedule(rng, faults=False, force_parallel=True)
    else:
        c["fail"] = dict(seams.gen_cut(rng, 0.6), kind=kind)
        if c["spec"]["scheme"] == "P3" and rng.random() < 0.6:        # the scheme that keeps tables on the model between runs
            c["fail"] = {"frac": rng.random(), "occ": rng.choice([0.0, 0.0, 1.0]), "after": "store", "kind": kind}
    c["gen_only"] = rng.random() < 0.25
    c["generated"] = (not c["gen_only"]) and rng.random() < 0.35
    return c


def shrink(case):
    for c in emu.shrink_full(case):
        yield c


def chained(e, cls):
    """The injected exception is e or one of its causes."""
    while e is not None:
        if isinstance(e, cls):
            return True
        e = e.__cause__ or e.__context__
    return False


def execute(case, ch, res):
    base, case = files.base_model(case)
    spec, f = case["spec"], case["fail"]
    more = {"subcol_gen_only": True} if case["gen_only"] else {}
    skip = case["generated"]
    if skip:
        g = dict(case, opt={"inst": case["opt"]["inst"], "approach": case["opt"]["approach"]})
        emu.full_run(base, g, dict(emu.PLAIN), core.Choices("0", []), core.Result(), subcol_gen_only=True)
    clean, hurt = synth.clone(base), synth.clone(base)
    inputs = emu.snapshot(base)
    cnt = seams.LineCounter(emu.step_budget(spec) * 4)
    r0 = emu.full_run(clean, case, dict(emu.PLAIN), core.Choices("0", []), core.Result(), counter=cnt, skip=skip, **more)
    if isinstance(r0, emu.Failed):
        res.violate("exception", "the undisturbed run failed: " + r0.text)
        return
    fired = None
    outcome = "returned"
    inst = synth.instrument(case["opt"]["inst"])
    if f["kind"] == "task":
        before = dict(res.faults)
        r1 = emu.full_run(hurt, case, case["sched"], ch, res, skip=skip, inst=inst, fail_at=[f["batch"], f["task"]], **more)
        if res.faults.get("task_failure", 0) > before.get("task_failure", 0):
            fired = "batch %d task %d" % (f["batch"], f["task"])
        if isinstance(r1, emu.Failed):
            outcome = "raised" if chained(r1.e, seams.InjectedTaskFailure) else r1.text
    else:
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["kind"]]
        inj = seams.cut(cnt, f, lambda: exc("injected"))
        s = dict(case["sched"], dup=0.0, retry=0.0)
        try:
            r1 = emu.full_run(hurt, case, s, ch, res, skip=skip, inst=inst, counter=inj, **more)
            if isinstance(r1, emu.Failed):
                outcome = "raised" if chained(r1.e, exc) else r1.text
        except exc:
            outcome = "raised"
        fired = inj.fired
        if fired:
            res.fault(f["kind"])
    res.event(fired, outcome)
    if fired is None:
        if outcome != "returned":
            res.violate("exception", "the run failed without a fault: " + outcome)
        return
    res.state(fired)
    res.nontrivial = True
    if outcome == "returned":
        res.violate("swallowed", "%s at %s was swallowed: the call returned as if complete" % (f["kind"], fired))
        return
    if outcome != "raised":
        res.violate("masked", "%s at %s surfaced as something else: %s" % (f["kind"], fired, outcome))
    for k, v in inputs.items():
        if k not in hurt.ds.variables or not core.arr_equal(v, hurt.ds[k].values, rtol=0, atol=0):
            res.violate("inputs", "after %s at %s the input field %s changed" % (f["kind"], fired, k))
            return
    r2 = emu.full_run(hurt, case, case["sched"], ch, res, skip=skip, inst=inst, **more)
    if isinstance(r2, emu.Failed):
        res.violate("retry", "running again after %s at %s failed: %s" % (f["kind"], fired, r2.text))
        return
    emu.compare(res, "retry-differs", clean, hurt, "undisturbed run", "second run after %s at %s" % (f["kind"], fired),
                names=set(clean.ds.variables))
    missing = set(clean.ds.variables) - set(hurt.ds.variables)
    if missing:
        res.violate("retry-differs", "fields missing in the second run: %s" % sorted(missing)[:4])
