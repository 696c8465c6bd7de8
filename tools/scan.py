"""Developer aid: run N cases of a property and list every violation, grouped (no minimisation; stops at the first only with SCAN_FIRST set).
usage: tools/scan.sh PID N [SEED]"""
import collections
import multiprocessing as mp
import os
import sys
import traceback

from simkit import runner


def one(a):
    pid, seed, i = a
    prop = runner.load_prop(pid)
    try:
        r = runner.run_case(prop, runner.make_case(prop, seed, i, "quick"))
        return i, [(v["code"], v["msg"]) for v in r.violations][:1], r.nontrivial
    except BaseException:
        return i, [("HARNESS", traceback.format_exc()[-1500:])], False


def init(pid):
    runner.silence()
    runner.load_prop(pid).setup()


if __name__ == "__main__":
    pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    lo = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    g, nt = collections.defaultdict(list), 0
    err = os.dup(1)
    with mp.get_context("fork").Pool(8, init, (pid,), maxtasksperchild=200) as p:
        for i, vs, t in p.imap_unordered(one, [(pid, seed, i) for i in range(lo, lo + n)]):
            nt += bool(t)
            for c, m in vs:
                g[(c, m[-110:])].append((i, m))
            if vs and os.environ.get("SCAN_FIRST"):
                p.terminate()
                break
    for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
        print(len(v), k[0], "runs", [x[0] for x in v[:6]], "|", v[0][1][:500])
    print("runs", n, "non-trivial", nt, "violating", sum(map(len, g.values())))
