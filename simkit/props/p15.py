"""P15 - the seed of numpy's global generator is the only thing a simulation depends on."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import core, emu, seams, synth

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ID = "P15"
RUNS = {"quick": 130, "thorough": 2500}
RULE = ("random model, instrument and options simulated twice with numpy's global generator in the same state: once undisturbed, once with a jumping clock, "
        "another process history (other simulations first), another state of Python's own generator, another working directory and environment, and - for a "
        "fixed sample of cases - in fresh processes with other string hash seeds; non-trivial: at least one disturbance struck")
STATE_MEASURE = "distinct (approach, instrument, disturbance set) combinations"
REAL = ["emc2.simulator", "emc2.core", "numpy's global generator"]
STUB = ["time.* (simulated clock)", "dask's schedulers (seeded scheduler)", "model data files (synthetic models)"]


def setup():
    emu.preload()


def gen(rng, i, tier):
    c = emu.gen_full_case(rng, i, T=rng.choice([1, 2, 3]))
    c["rng_mode"] = "seeded"
    c["sched"] = dict(emu.PLAIN) if rng.random() < 0.6 else {"parallel": True, "chunk": rng.choice([None, 1, 2]), "order": "submit", "isolate": 0.0}
    c["clock"] = rng.random() < 0.7
    c["history"] = rng.choice([0, 0, 1, 2])
    c["python_rng"] = rng.random() < 0.5
    c["cwd"] = rng.random() < 0.4
    c["fresh_instrument"] = rng.random() < 0.5
    c["other"] = emu.gen_full_case(rng, i, T=2) if c["history"] else None
    return c


def shrink(case):
    for k in ("clock", "python_rng", "cwd", "fresh_instrument"):
        if case[k]:
            yield dict(case, **{k: False})
    if case["history"]:
        yield dict(case, history=0, other=None)
    for c in emu.shrink_full(case):
        yield c


def sig(m):
    h = hashlib.sha256()
    for k in sorted(m.ds.variables):
        v = m.ds[k].values
        h.update(("%s %s %s" % (k, m.ds[k].dims, v.dtype)).encode())
        h.update(np.ascontiguousarray(v).tobytes())
    return h.hexdigest()


def execute(case, ch, res):
    if case.get("hash_seeds"):                    # a replay of a hash-seed difference
        got = in_processes([case], case["hash_seeds"])
        if len({d[0] for d in got.values()}) > 1:
            v = hash_violation(case["hash_seeds"], case["hash_case"])
            res.violate(v["code"], v["msg"])
        return
    base = synth.SynthModel(case["spec"])
    inst = synth.instrument(case["opt"]["inst"])
    a = emu.full_run(base, case, case["sched"], core.Choices("0", []), res, inst=inst)
    if isinstance(a, emu.Failed):
        res.violate("exception", "undisturbed run failed: " + a.text)
        return
    res.event(sig(base))
    what = []
    for _ in range(case["history"]):
        o = case["other"]
        if o["opt"]["inst"] in emu.NO_PHASE:
            o["opt"].pop("do_classify", None)
        om = synth.SynthModel(o["spec"])
        emu.full_run(om, dict(o, rng_mode="seeded"), dict(emu.PLAIN), core.Choices("0", []), core.Result(),
                     inst=inst if o["opt"]["inst"] == case["opt"]["inst"] else None)
        what.append("other simulations before it")
        res.fault("process_history")
    if case["python_rng"]:
        random.seed(case["np_seed"] ^ 12345)
        what.append("another state of Python's generator")
        res.fault("python_generator_state")
    m = synth.SynthModel(case["spec"])
    old, env = os.getcwd(), dict(os.environ)
    try:
        if case["cwd"]:
            os.chdir("/")
            os.environ.update({"TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8", "EMC2_SIM": "1", "USER": "nobody"})
            what.append("another directory and environment")
            res.fault("environment_change")
        inst2 = synth.instrument(case["opt"]["inst"]) if case["fresh_instrument"] else inst
        if case["clock"]:
            clock = seams.SimClock(ch, res)
            with seams.simulated_clock(clock):
                b = emu.full_run(m, case, case["sched"], core.Choices("0", []), res, inst=inst2)
            res.probe("clock_reads", clock.reads)
            what.append("a jumping clock")
        else:
            b = emu.full_run(m, case, case["sched"], core.Choices("0", []), res, inst=inst2)
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)
    res.nontrivial = bool(what)
    res.state(case["opt"]["approach"], case["opt"]["inst"], tuple(sorted(set(what))))
    if isinstance(b, emu.Failed):
        res.violate("exception", "run with %s failed: %s" % (", ".join(what), b.text))
        return
    emu.compare(res, "not-reproducible", base, m, "undisturbed run", "run with the same seed and " + (", ".join(sorted(set(what))) or "nothing changed"), rtol=0)


HASH_CASES = 10


def digest_case(c):
    m = synth.SynthModel(c["spec"])
    r = emu.full_run(m, c, c["sched"], core.Choices("0", []), core.Result())
    return "failed " + r.text if isinstance(r, emu.Failed) else sig(m)


def in_processes(cases, hash_seeds):
    """{hash seed: digests of the cases in a fresh process with that string hash seed}."""
    code = ("import sys,io,json; o=sys.stdout; sys.stdout=io.StringIO()\n"
            "from simkit import emu; from simkit.props import p15; emu.preload()\n"
            "d=[p15.digest_case(c) for c in json.load(sys.stdin)]; o.write('@@'+json.dumps(d)); o.flush()")
    ps = [(h, subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], cwd=VERIF, env=dict(os.environ, PYTHONHASHSEED=str(h)),
                               stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)) for h in hash_seeds]
    for h, p in ps:
        p.stdin.write(json.dumps(cases))
        p.stdin.close()
        p.stdin = None
    got = {}
    for h, p in ps:
        so, se = p.communicate(timeout=600)
        if "@@" not in so:
            raise core.HarnessError("hash-seed process failed: " + se[-1500:])
        got[h] = json.loads(so.split("@@", 1)[1])
    return got


def hash_violation(hs, i):
    return {"code": "hash-seed", "msg": "PYTHONHASHSEED=%d and %d give different results for the same seed (sample case %d)" % (hs[0], hs[1], i)}


def extra(seed, tier, out):
    from ..runner import make_case
    hs = [0, 1, 4242] if tier == "quick" else [0, 1, 2, 3, 17, 4242, 99991]
    cases = [make_case(sys.modules[__name__], seed, 10 ** 6 + i, "quick") for i in range(HASH_CASES)]
    got = in_processes(cases, hs)
    vio = []
    for h in hs[1:]:
        for i, (x, y) in enumerate(zip(got[hs[0]], got[h])):
            if x != y and not vio:
                vio.append({"v": hash_violation([hs[0], h], i), "case": dict(cases[i], hash_seeds=[hs[0], h], hash_case=i)})
    return {"hash_seeds": hs, "cases_per_hash_seed": HASH_CASES}, vio
