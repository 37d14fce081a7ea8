"""usage: python3-vt -m tcv.prove PROP BUDGET JOBS OUT [NAME...]   -- run the verifier on every contract of a property"""
import sys, os, json, time, importlib, traceback, resource
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


FUNCS = set()


def watch(repo):
    """record which functions of the code under verification were executed symbolically"""
    pre = os.path.join(os.path.abspath(repo), "evoMPS") + os.sep
    m = sys.monitoring
    m.use_tool_id(3, "tcv")

    def start(code, off):
        if code.co_filename.startswith(pre) and not code.co_name.startswith("<"):
            FUNCS.add("evoMPS/%s:%s" % (code.co_filename[len(pre):], code.co_qualname))
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


def work(prop, name, repo, budget, q):
    sys.setrecursionlimit(12000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        from tcv import vsym
        watch(repo or os.environ.get("TCV_REPO", "/repo"))
        m = importlib.import_module("contracts." + prop.lower())
        r = vsym.verify(name, m.FUNCS[name], repo, budget)
        labels = {}
        for (lab, ok, det, tr) in r.obls:
            d = labels.setdefault(lab, [0, 0])
            d[0] += 1
            d[1] += bool(ok)
        bad = [dict(label=o[0], detail=str(o[2])[:3000], path=[str(x) for x in o[3]][:40] if o[3] else [])
               for o in r.obls if not o[1]][:4]
        q.put(dict(name=name, status=r.status, why=str(r.why)[:2000], paths=r.paths, obligations=len(r.obls),
                   discharged=sum(1 for o in r.obls if o[1]), labels=labels, failed=bad, time=r.time,
                   z3_calls=r.z3_calls, z3_time=r.z3_time, assumed=sorted(r.assumed),
                   functions=sorted(FUNCS)))
    except MemoryError:
        q.put(dict(name=name, status="unsupported", why="memory"))
    except BaseException as e:
        q.put(dict(name=name, status="unsupported", why="verifier: %r %s" % (e, traceback.format_exc()[-800:])))


def run(prop, budget, jobs, names=None, repo=None):
    f = os.path.join(HERE, "contracts", prop.lower() + ".py")
    if not os.path.exists(f):
        return []
    sys.path.insert(0, HERE)
    m = importlib.import_module("contracts." + prop.lower())
    todo = [n for n in m.FUNCS if not names or n in names]
    slow = getattr(m, "SLOW", ())
    todo.sort(key=lambda n: n not in slow)
    out, running = [], []
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=work, args=(prop, n, repo, budget, q))
            p.start()
            running.append((n, p, q, time.time()))
        keep = []
        for n, p, q, t0 in running:
            if not q.empty():
                out.append(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out.append(q.get() if not q.empty() else dict(name=n, status="unsupported", why="verifier process ended"))
            elif time.time() - t0 > budget * 1.5 + 20:
                p.kill()
                out.append(dict(name=n, status="unsupported", why="time"))
            else:
                keep.append((n, p, q, t0))
        running = keep
        time.sleep(0.02)
    order = list(m.FUNCS)
    out.sort(key=lambda d: order.index(d["name"]))
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    r = run(a[0], float(a[1]), int(a[2]), a[4:] or None, os.environ.get("TCV_REPO"))
    with open(a[3], "w") as f:
        json.dump(r, f)
