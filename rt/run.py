"""usage: run.py PROP SEED START COUNT SECONDS OUT [CASE]   -- trials START, START+1, ... of every case, round robin"""
import sys, os, json, time, traceback, importlib, warnings, logging
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("TCV_REPO", "/repo")
sys.path.insert(0, REPO)
import zlib
import numpy as np
np.seterr(all="ignore")
from rt import lib


def trial_seed(prop, name, seed, k):
    return (zlib.crc32(("%s/%s" % (prop, name)).encode()) + 1000003 * seed + 7919 * k) % (2 ** 31 - 1)


def one(prop, name, fn, seed, k):
    ts = trial_seed(prop, name, seed, k)
    t = lib.T(ts)
    np.random.seed((ts + 1) % (2 ** 31 - 1))
    rec = None
    status = "ok"
    try:
        fn(t)
    except lib.Skip:
        status = "skip"
    except lib.Fail as e:
        status = "fail"
        rec = dict(label=e.label, detail=str(e.detail))
    except (np.linalg.LinAlgError,) as e:
        status = "linalg"
        rec = dict(label="no convergence failure", detail=repr(e))
    except Exception as e:
        status = "fail"
        if type(e).__name__ in ("ArpackNoConvergence", "EvoMPSNoConvergence"):
            status = "linalg"
        tb = traceback.format_exc()
        rec = dict(label="no exception", detail=tb[-1800:])
    if rec is not None:
        rec.update(property=prop, case=name, seed=seed, trial=k, trial_seed=ts, inputs=t.info)
        if getattr(fn, "modular", False):
            rec["modular"] = True
    return status, rec, t.nchk


def plain(x):
    """numpy values and objects among the recorded inputs"""
    try:
        if hasattr(x, "tolist"):
            return json.loads(json.dumps(x.tolist(), default=str))
    except Exception:
        pass
    return str(x)


def main(a):
    prop, seed, count, secs, out = a[0], int(a[1]), int(a[3]), float(a[4]), a[5]
    exact = a[2].startswith("@")
    start = int(a[2].lstrip("@"))
    only = a[6] if len(a) > 6 else None
    t0 = time.time()
    if os.path.exists(os.path.join(HERE, prop.lower() + ".py")):
        importlib.import_module("rt." + prop.lower())
    try:
        from rt import vnum
        vnum.register(prop)
    except ImportError:
        if os.path.exists(os.path.join(HERE, "vnum.py")):
            raise
    cases = [c for c in lib.CASES.get(prop, []) if only is None or c[0] == only]
    stat = {c[0]: dict(ok=0, skip=0, fail=0, linalg=0, checks=0, secs=0.0) for c in cases}
    fails = []
    nfail = {}
    done = False
    for k in range(start, start + count):
        for name, fn, w in cases:
            for j in range(1 if exact else w):
                if nfail.get(name, 0) >= 3:
                    continue
                t1 = time.time()
                st, rec, n = one(prop, name, fn, seed, k if exact else k * w + j)
                d = stat[name]
                d[st] += 1
                d["checks"] += n
                d["secs"] += time.time() - t1
                if st == "fail":
                    fails.append(rec)
                    nfail[name] = nfail.get(name, 0) + 1
                elif st == "linalg" and d["linalg"] > 3 and d["linalg"] > 0.3 * (d["ok"] + d["linalg"]):
                    fails.append(rec)
                    nfail[name] = 3
            if time.time() - t0 > secs:
                done = True
                break
        if done:
            break
    with open(out + ".part", "w") as f:
        f.write(json.dumps(dict(property=prop, stat=stat, fails=fails, secs=time.time() - t0), default=plain))
    os.rename(out + ".part", out)


if __name__ == "__main__":
    main(sys.argv[1:])
