"""Plant and validate a seeded bug.

usage: plant.py new ID PROP 'needs' 'breaks' FILE<<< (reads python edits from stdin: list of (file, old, new)) ; demo in /tmp/demo_ID.py
       plant.py check ID   - validate (applies, builds, tests pass, demo 0/1) in a scratch copy
       plant.py catch ID [PROP] [opts] - run a property's quick check with the bug applied to a scratch copy (SIMKIT_REPO)
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
H = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch(id, patch=True):
    d = "/tmp/plant_" + id
    sh("rm -rf /tmp/plant_%s" % id)
    sh("cp -a /repo %s" % d)
    if patch:
        r = sh("git apply %s/%s/patch.diff" % (V, id), cwd=d)
        if r.returncode:
            print("APPLY FAILED", r.stderr); sys.exit(1)
    return d

def new(id, prop, needs, breaks, edits, demo):
    d = scratch(id, patch=False)
    for f, old, new_ in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit matches %d times in %s: %r" % (s.count(old), f, old)); sys.exit(1)
        open(p, "w").write(s.replace(old, new_))
    out = os.path.join(V, id)
    os.makedirs(out, exist_ok=True)
    diff = sh("git diff", cwd=d).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    shutil.copy(os.path.join(H, "mini.py"), out)
    shutil.copy(os.path.join(H, "demo.sh"), out)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    sh("rm -rf /tmp/plant_%s" % id)

def check(id, tests=True):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r0 = sh("bash %s/%s/demo.sh" % (V, id), cwd="/repo", env=ENV)
    d = scratch(id)
    r1 = sh("bash %s/%s/demo.sh" % (V, id), cwd=d, env=ENV)
    print(id, "demo clean rc=%d" % r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", "| patched rc=%d" % r1.returncode, (r1.stdout + r1.stderr).strip()[-200:])
    ok = r0.returncode == 0 and r1.returncode != 0
    if tests:
        t = sh("PYTHONPATH=%s timeout 600 /opt/venv/bin/python -m pytest -q -n 8 -rA --no-header -p no:cacheprovider tests 2>&1 | tail -60" % d, cwd=d, env=dict(ENV, MPLBACKEND="Agg", DASK_SCHEDULER="synchronous", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/opt/venv/mplconfig"))
        passed = set()
        for l in t.stdout.splitlines():
            if l.startswith("PASSED "):
                passed.add(l[7:].strip().replace("/", ".").replace(".py::", "::"))
        missing = [x for x in base["stable"] if x not in passed]
        print("   tests:", t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr, "| stable not passing:", missing[:4])
        ok = ok and not missing
    sh("rm -rf /tmp/plant_%s" % id)
    own = removed = 0
    f = None
    for l in open("%s/%s/patch.diff" % (V, id)):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git blame -s -L %d,%d HEAD -- %s" % (n, n, f), cwd="/repo").stdout
            removed += 1
            own += not b.startswith("^")
            n += 1
        elif l.startswith(" "):
            n += 1
    print("   original lines changed: %d, own: %d" % (removed - own, own))
    ok = ok and removed > own
    print("   OK" if ok else "   NOT OK")
    return ok

def catch(id, props, extra=""):
    d = scratch(id)
    for p in props:
        r = sh("./run.sh %s --tier quick %s" % (p, extra), cwd="/verif", env=dict(os.environ, SIMKIT_REPO=d, VERIF_SEED="1"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(id, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR " + (r.stdout + r.stderr)[-800:])
        for l in r.stdout.splitlines()[-4:]:
            print("     ", l[:260])
    sh("rm -rf /tmp/plant_%s" % id)

if __name__ == "__main__":
    if sys.argv[1] == "check":
        for i in sys.argv[2:]:
            check(i)
    elif sys.argv[1] == "catch":
        m = json.load(open("%s/%s/meta.json" % (V, sys.argv[2])))
        catch(sys.argv[2], sys.argv[3:] or [m["property"]])
