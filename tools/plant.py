#!/usr/bin/env python3
"""plant.py SPECDIR ID.. : confirm planted bugs in a scratch copy of /repo and write /verif/seeded/<id>/.
A spec is SPECDIR/<id>.py defining prop, edits [(file, old, new)], needs, breaks, demo (text).  Not used by any check."""
import sys, os, json, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, ids = sys.argv[1], sys.argv[2:]
WT = os.environ.get("WT", "/tmp/wt")
E = dict(os.environ, PATH="/opt/pypyvenv/bin:" + os.environ["PATH"], HOME="/root")


def sh(cmd, cwd=WT, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or E)
    return p.returncode, p.stdout.decode(errors="replace")


def fresh():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    subprocess.check_call(["cp", "-a", "/repo", WT])
    sh("git checkout -q -- . && git clean -fdq")


def script(path):
    return open(path).read().replace("/repo", WT).replace("/opt/evomps-build", WT + "-build")


def stable():
    t = WT + "-test.sh"
    open(t, "w").write(script("/opt/vp/test.sh"))
    o = WT + "-out.json"
    sh("bash %s %s" % (t, o))
    d = json.load(open(o))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    p = set(d["passed"]) if isinstance(d.get("passed"), list) else set(k for k, v in d.items() if v == "passed")
    return sorted(base - p)


DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"
'''

if not os.path.exists(WT):
    fresh()
for i in ids:
    g = {}
    exec(open(os.path.join(SPEC, i + ".py")).read(), g)
    sh("git checkout -q -- .")
    rc, head = sh("git rev-parse HEAD", "/repo")
    rc, h2 = sh("git rev-parse HEAD")
    if head != h2:
        fresh()
    d = os.path.join("/tmp/plant/out", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.py", "w").write(g["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH)
    shutil.copy(os.path.join(SPEC, "h.py"), d + "/h.py")
    rep = dict(id=i, prop=g["prop"])
    rc, out = sh("bash %s/demo.sh" % d, timeout=300)
    rep["demo_clean"] = rc
    if rc:
        print(i, "DEMO FAILS ON CLEAN", out[-800:]); continue
    bad = False
    for f, old, new in g["edits"]:
        p = os.path.join(WT, "evoMPS", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "EDIT", f, "matches", s.count(old)); bad = True; break
        open(p, "w").write(s.replace(old, new))
    if bad:
        sh("git checkout -q -- ."); continue
    rc, diff = sh("git diff")
    open(d + "/patch.diff", "w").write(diff)
    # lines removed must be original ones
    rc, out = sh("bash %s/demo.sh" % d, timeout=300)
    rep["demo_bug"] = rc
    if rc == 0:
        print(i, "DEMO PASSES WITH BUG"); sh("git checkout -q -- ."); continue
    rep["demo_out"] = out[-200:]
    if os.environ.get("DEMOONLY"):
        print(i, "demo ok:", out.strip().splitlines()[-1][:150] if out.strip() else "", flush=True); sh("git checkout -q -- ."); continue
    try:
        miss = [] if os.environ.get("NOTEST") else stable()
    except subprocess.TimeoutExpired:
        miss = ["timeout"]
        subprocess.call("pkill -f " + WT, shell=True)
    if miss:
        print(i, "TESTS FAIL", miss); sh("git checkout -q -- ."); continue
    e = dict(E, TCV_REPO=WT, VERIF_SEED="1")
    rc, out = sh("bin/check %s quick" % g["prop"], V, 1200, e)
    rep["check"] = rc
    rep["viol"] = [l for l in out.splitlines() if l.startswith(("failed:", "refuted:", "VIOL"))][:6]
    sh("git checkout -q -- .")
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    dst = os.path.join(V, "seeded", i)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    json.dump(rep, open("/tmp/plant/%s.res" % i, "w"), indent=1)
    print(i, "OK", "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, rep["viol"][:2], flush=True)
