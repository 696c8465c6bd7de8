"""P14 - simulations running at the same time do not disturb each other."""
import collections

from .. import core, emu, seams, synth

ID = "P14"
RUNS = {"quick": 280, "thorough": 3000}
RULE = ("2-3 caller threads, each simulating a model of its own (own options, classes, approach) with one shared instrument object, interleaved line by "
        "line by the seeded scheduler (anywhere, or concentrated on one function several of them are in); each result is compared with the same call made alone; non-trivial: at least one preemption inside EMC2")
STATE_MEASURE = "distinct interleavings (sequence of preemption points)"
REAL = ["emc2.simulator", "emc2.core", "Python threads", "numpy/xarray/dask.bag graph construction"]
STUB = ["the thread scheduler (one thread runs at a time, switched at lines of EMC2)", "dask's schedulers", "numpy's draws (fixed functions of their arguments)",
        "model data files (synthetic models)"]
ASSUMPTIONS = ["switching happens between lines of EMC2; calls into numpy, xarray and dask are atomic"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    base = emu.gen_full_case(rng, i, T=rng.choice([2, 2, 3]))
    n = rng.choice([2, 2, 3])
    callers = []
    alike = rng.random() < 0.6      # the same kind of observation: the callers run through the same functions
    for _ in range(n):
        c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]))
        while alike and (c["spec"]["scheme"], c["spec"]["rad"]) != (base["spec"]["scheme"], base["spec"]["rad"]):
            c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]))
        if alike and rng.random() < 0.8:
            c["opt"] = dict(base["opt"])
        c["opt"] = emu.with_instrument(c["opt"], base["opt"]["inst"])
        if rng.random() < 0.2 and c["spec"]["scheme"] == "MG2" and not c["opt"].get("do_classify"):
            h = list(c["spec"]["hyd"])
            c["opt"]["hyd_types"] = sorted(rng.sample(h, rng.randrange(1, len(h) + 1)), key=h.index)
        callers.append(c)
    return {"callers": callers, "gap": rng.choice([5, 25, 100, 400]), "parallel": rng.random() < 0.4, "rng_mode": base["rng_mode"],
            "np_seed": base["np_seed"], "focus": rng.random() < 0.7, "hot": rng.random() < 0.4, "inst": base["opt"]["inst"], "finalize": rng.random() < 0.2}


def shrink(case):
    for j in range(len(case["callers"])):
        if len(case["callers"]) > 2:
            yield dict(case, callers=case["callers"][:j] + case["callers"][j + 1:])
    if case["parallel"]:
        yield dict(case, parallel=False)
    if case["finalize"]:
        yield dict(case, finalize=False)
    for j, c in enumerate(case["callers"]):
        for s in synth.shrink_spec(c["spec"]):
            cs = list(case["callers"])
            cs[j] = dict(c, spec=s)
            yield dict(case, callers=cs)


def execute(case, ch, res):
    sched = {"parallel": case["parallel"], "chunk": None}
    inst = synth.instrument(case["inst"])
    with seams.randomness(case["np_seed"], case["rng_mode"], ch, res), seams.scheduled(seams.SimScheduler(ch, res, {"order": "submit"})):
        def call(m, c, instrument):
            return emu.run_main(m, instrument, c["spec"], c["opt"], sched, finalize_fields=case["finalize"])
        alone, ran = [], []
        for c in case["callers"]:
            m = synth.SynthModel(c["spec"])
            names = collections.Counter()
            with seams.line_hook(lambda code, line: names.update((code.co_name,))):
                out = emu.attempt(call, m, c, synth.instrument(case["inst"]))
            ran.append(names)
            if isinstance(out, emu.Failed):
                res.violate("exception", "a simulation on its own failed: " + out.text)
                return
            alone.append(m)
        focus = sorted(n for n in set().union(*ran) if sum(r[n] > 0 for r in ran) > 1 and sum(r[n] for r in ran) > 30) if case["focus"] else None
        if case["focus"] and case.get("hot"):
            hot = sorted(n for n in seams.sharing_functions() if sum(r[n] > 0 for r in ran) > 1)
            focus = hot or focus
        models = [synth.SynthModel(c["spec"]) for c in case["callers"]]
        sim = seams.ThreadSim(ch, res, switch_every=case["gap"], focus=focus)
        outs = sim.run([lambda m=m, c=c: call(m, c, inst) for m, c in zip(models, case["callers"])])
    res.nontrivial = sim.switches > 0
    res.state(tuple(sim.signature))
    res.probe("threads", len(models))
    for j, (st, v) in enumerate(outs):
        if st == "exc":
            if isinstance(v, (seams.StepBudgetExceeded, seams.CpuBudgetExceeded)):
                res.violate("no-progress", "caller %d: %s" % (j, v))
            elif isinstance(v, Exception):
                res.violate("exception", "caller %d failed only when others ran at the same time: %s" % (j, emu.Failed(v).text))
            else:
                raise v
            return
        emu.compare(res, "interference", alone[j], models[j], "same call made alone", "caller %d of %d (%s)" % (j, len(models), case["callers"][j]["opt"]),
                    names=emu.observables(alone[j]) | emu.observables(models[j]))
        if v is not models[j]:
            res.violate("interference", "caller %d got another object back than the model it passed" % j)
