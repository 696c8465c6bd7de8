"""Runs one property's simulation batch, minimises and reports.

usage: python -m simkit.runner <PROPERTY> [--tier quick|thorough] [--seed N]
                               [--runs N] [--jobs N] [--replay FILE] [--digest N]

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;
exit 2: the harness itself failed (never silently a pass).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 90


def load_prop(pid):
    return importlib.import_module("simkit.props." + pid.lower())


def make_case(prop, seed, i, tier):
    rng = random.Random("%d:%s:%d" % (seed, prop.ID, i))
    case = prop.gen(rng, i, tier)
    case.setdefault("sched_seed", "%d:%s:%d" % (seed, prop.ID, i))
    case.setdefault("choices", None)
    return case


def run_case(prop, case):
    """Execute one case -> Result.  Exceptions of the harness propagate."""
    from simkit import core, seams
    res = core.Result()
    ch = core.Choices(case["sched_seed"], case.get("choices"))
    warnings.simplefilter("ignore")
    try:
        with seams.cpu_limit(CPU_LIMIT):
            prop.execute(case, ch, res)
    except seams.CpuBudgetExceeded as e:
        res.violate("no-progress", "run did not finish: %s" % e)
    except seams.StepBudgetExceeded as e:
        res.violate("no-progress", "run did not finish: %s" % e)
    res.trace = list(ch.trace)
    res.event("trace", tuple(ch.trace))
    for v in res.violations:
        res.event(v["code"])
    return res


def silence():
    sys.stdout.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    sys.stdout = open(os.devnull, "w")


def worker(prop, seed, tier, idx, conn, stop):
    silence()
    for i in idx:
        if stop.is_set():
            break
        try:
            case = make_case(prop, seed, i, tier)
            r = run_case(prop, case)
            from simkit import core
            conn.send((i, "ok", {
                "violations": r.violations, "faults": r.faults, "probes": r.probes,
                "states": sorted(r.states)[:300], "steps": r.steps, "simtime": r.simtime,
                "nontrivial": r.nontrivial, "digest": r.log.hexdigest()[:24],
                "sig": core.sig({k: v for k, v in case.items() if k not in ("sched_seed",)}),
                "note": r.note}))
            if r.violations:
                stop.set()
        except BaseException:
            conn.send((i, "error", traceback.format_exc()[-3000:]))
            stop.set()
            break
    conn.send((-1, "done", None))
    conn.close()


def batch(prop, seed, tier, runs, jobs):
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    procs = []
    for w in range(jobs):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(prop, seed, tier, range(w, runs, jobs), b, stop), daemon=False)
        p.start()
        b.close()
        procs.append((p, a))
    out, errors = {}, []
    live = {a: p for p, a in procs}
    while live:
        for conn in mp.connection.wait(list(live), timeout=5):
            try:
                i, st, payload = conn.recv()
            except (EOFError, ConnectionResetError):
                p = live.pop(conn)
                p.join(5)
                errors.append("worker ended unexpectedly (exit code %s)" % p.exitcode)
                stop.set()
                continue
            if st == "ok":
                out[i] = payload
            elif st == "error":
                errors.append("case %d:\n%s" % (i, payload))
            else:
                live.pop(conn)
    for p, _ in procs:
        p.join(20)
        if p.is_alive():
            p.kill()
    return out, errors


def in_child(fn, timeout=300):
    """Run fn() in a forked child and return its (picklable) result."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)

    def body():
        silence()
        try:
            b.send(("ok", fn()))
        except BaseException:
            b.send(("error", traceback.format_exc()[-2000:]))
        b.close()
    p = ctx.Process(target=body)
    p.start()
    b.close()
    try:
        if a.poll(timeout):
            r = a.recv()
        else:
            r = ("error", "timeout")
    except EOFError:
        r = ("error", "child died")
    p.join(1)
    if p.is_alive():
        p.kill()
        p.join()
    return r


def codes_of(prop, case):
    st, r = in_child(lambda: (lambda x: ([v["code"] for v in x.violations], x.violations, x.trace))(run_case(prop, case)))
    if st != "ok":
        return None, [], None
    return r


def minimise(prop, case, code, budget_s=75):
    """Greedy shrink while the same violation class persists."""
    from simkit import core
    t0 = time.time()
    codes, vio, trace = codes_of(prop, case)
    if not codes or code not in codes:
        return case, None
    best = dict(case)
    best["choices"] = core.strip_zeros(trace)
    c2, v2, tr2 = codes_of(prop, best)
    if not c2 or code not in c2:
        best, tr2, v2 = dict(case), trace, vio
        best["choices"] = None
    tried = 0
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        cands = list(prop.shrink(best)) if hasattr(prop, "shrink") else []
        if best["choices"]:
            for tr in core.shrink_choices(best["choices"]):
                c = dict(best)
                c["choices"] = core.strip_zeros(tr)
                cands.append(c)
        for c in cands:
            if time.time() - t0 > budget_s:
                break
            tried += 1
            cc, vv, tt = codes_of(prop, c)
            if cc and code in cc:
                best = dict(c)
                if best.get("choices") is not None and tt is not None:
                    best["choices"] = core.strip_zeros(tt)
                v2 = vv
                improved = True
                break
    best["_minimised"] = {"candidates_tried": tried, "seconds": round(time.time() - t0, 1)}
    return best, v2


def known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f).get("known", [])
    except FileNotFoundError:
        return []


def match_known(kn, pid, v):
    for k in kn:
        if k["property"] == pid and k["code"] == v["code"] and re.search(k.get("match", ""), v["msg"]):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIMKIT_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digest", type=int, help="print the event-log digests of the first N runs")
    a = ap.parse_args(argv)
    warnings.simplefilter("ignore")
    t0 = time.time()
    prop = load_prop(a.prop)
    if hasattr(prop, "setup"):
        prop.setup()

    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        case = doc["case"]
        st, r = in_child(lambda: (lambda x: (x.violations, x.log.hexdigest()[:24]))(run_case(prop, case)))
        if st != "ok":
            print("replay: harness error\n" + str(r))
            return 2
        vio, dig = r
        print("replay digest=%s" % dig)
        for v in vio:
            print("replayed: %s: %s" % (v["code"], v["msg"]))
        if vio:
            print("VIOLATION property=%s replay=%s" % (prop.ID, a.replay))
            return 1
        print("replay: no violation")
        return 0

    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = a.runs or prop.RUNS[tier]
    if a.digest:
        out, errors = batch(prop, a.seed, tier, a.digest, a.jobs)
        for i in sorted(out):
            print(i, out[i]["digest"])
        for e in errors:
            print("ERROR", e)
        return 2 if errors else 0

    out, errors = batch(prop, a.seed, tier, runs, a.jobs)
    ev_extra, ev_vio = {}, []
    if hasattr(prop, "extra") and not errors and not any(r["violations"] for r in out.values()):
        try:
            ev_extra, ev_vio = prop.extra(a.seed, tier, out)
        except Exception:
            errors.append("extra:\n" + traceback.format_exc()[-3000:])

    kn = known()
    hits, fresh = {}, []
    for i in sorted(out):
        for v in out[i]["violations"]:
            k = match_known(kn, prop.ID, v)
            if k:
                hits[k["id"]] = hits.get(k["id"], 0) + 1
            else:
                fresh.append((i, v))
    rc = 0
    status_lines = []
    replay_path = None
    if fresh:
        i, v = fresh[0]
        case = make_case(prop, a.seed, i, tier)
        best, vv = minimise(prop, case, v["code"])
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s-seed%d-run%d.json" % (prop.ID, a.seed, i))
        shown = [x for x in (vv or []) if x["code"] == v["code"]][:1] or [v]
        doc = {"property": prop.ID, "seed": a.seed, "run": i, "violation": shown[0], "original_violation": v, "case": best}
        with open(replay_path, "w") as f:
            json.dump(doc, f, indent=1)
        env = dict(os.environ)
        r = subprocess.run([sys.executable, "-m", "simkit.runner", prop.ID, "--replay", replay_path],
                           cwd=VERIF, env=env, capture_output=True, text=True)
        doc["reproduced_in_fresh_process"] = r.returncode == 1
        with open(replay_path, "w") as f:
            json.dump(doc, f, indent=1)
        status_lines.append("%s: %s" % (shown[0]["code"], shown[0]["msg"]))
        status_lines.append("run %d of seed %d; minimised replay reproduces in a fresh process: %s" % (
            i, a.seed, doc["reproduced_in_fresh_process"]))
        status_lines.append("VIOLATION property=%s replay=%s" % (prop.ID, replay_path))
        rc = 1
    elif ev_vio:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s-extra.json" % prop.ID)
        with open(replay_path, "w") as f:
            json.dump({"property": prop.ID, "seed": a.seed, "violation": ev_vio[0]["v"], "case": ev_vio[0]["case"]}, f, indent=1)
        status_lines.append("%s: %s" % (ev_vio[0]["v"]["code"], ev_vio[0]["v"]["msg"]))
        status_lines.append("VIOLATION property=%s replay=%s" % (prop.ID, replay_path))
        rc = 1
    elif errors:
        rc = 2

    # ---- evidence, measured on this run ------------------------------------
    wall = time.time() - t0
    faults, probes, states, sigs = {}, {}, set(), set()
    steps = simtime = 0
    for i, r in out.items():
        for k, n in r["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
        states.update(r["states"])
        steps += r["steps"]
        simtime += r["simtime"]
        if r["nontrivial"]:
            sigs.add(r["sig"])
    samples = []
    for i in sorted(out)[:2]:
        c = make_case(prop, a.seed, i, tier)
        samples.append({"run": i, "case": c, "faults_fired": out[i]["faults"], "probes": out[i]["probes"],
                        "event_log_digest": out[i]["digest"], "note": out[i]["note"]})
    cov = {
        "evaluations": len(out), "distinct_nontrivial": len(sigs), "rule": prop.RULE, "samples": samples,
        "runs_per_hour": int(len(out) / max(wall, 1e-6) * 3600), "seeds_per_hour": int(len(out) / max(wall, 1e-6) * 3600),
        "base_seed": a.seed, "worker_processes": a.jobs,
        "simulated_time_s": round(simtime, 1),
        "simulated_time_note": "EMC2 has no timers; simulated time is the span of the simulated clock where one is installed",
        "scheduler_steps": steps, "faults_injected": faults, "rare_conditions_reached": probes,
        "distinct_interleavings_or_states": len(states), "state_measure": prop.STATE_MEASURE,
        "components_real": prop.REAL, "components_stubbed": prop.STUB,
        "known_findings_hit": hits,
    }
    cov.update(ev_extra)
    level = getattr(prop, "LEVEL", "exploration")
    ev = {"property": prop.ID, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": len(fresh) + len(ev_vio)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        if k["property"] == prop.ID:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d steps, faults %s, probes %s, %.1fs" % (
        prop.ID, tier, a.seed, len(out), len(sigs), steps, faults, probes, wall))
    for e in errors[:3]:
        print("HARNESS ERROR: " + e)
    for s in status_lines:
        print(s)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
