"""C09 truncation"""
import numpy as np
import scipy.linalg as la
from .lib import *
from .c06 import deficient


@case("C09", 4)
def truncate(t):
    s, psi = mk_chain(t, Nlo=2, Nhi=5, hi=6)
    psi = dense(s.A)
    l, r = envs(s.A, s.N)
    new = [1] + [t.i(1, int(s.D[n])) for n in range(1, s.N)] + [1]
    if t.flag(0.4):
        # a single bond
        k = t.i(1, s.N - 1)
        new = [int(x) for x in s.D]
        if new[k] > 1:
            new[k] = t.i(1, new[k] - 1)
    t.note(new=new)
    old_D = [int(x) for x in s.D]
    oA = [None] + [a.copy() for a in s.A[1:]]
    changed = [n for n in range(1, s.N) if new[n] != old_D[n]]
    if not changed:
        s2 = s
        s.truncate(new)
        t.true("no-op keeps dimensions", [int(x) for x in s.D] == old_D)
        t.close("truncating to the present dimensions leaves the state unchanged", dense(s.A), psi, 1e-8)
        return
    how = t.pick("update", "noupdate")
    t.note(how=how)
    # projection on the leading Schmidt vectors, by direct calculation from the old tensors
    B = [None]
    for n in range(1, s.N + 1):
        a = oA[n]
        w = [None, None]
        for side, b in ((0, n - 1), (1, n)):
            if 1 <= b < s.N:
                d = np.diag(l[b] if s.canonical_form == "right" else r[b]).real
                keep = np.sort(np.argsort(d)[len(d) - new[b]:])
            else:
                keep = np.arange(a.shape[1 + side])
            w[side] = keep
        B.append(a[:, w[0], :][:, :, w[1]])
    want = dense(B)
    if how == "update":
        s.truncate(new)
    elif how == "noupdate":
        s.truncate(new, update=False)
        t.close("truncate keeps the leading components", dense(s.A), want)
        s.update(restore_CF=t.flag())
    t.true("bonds have the requested dimension", all(s.D[n] <= new[n] for n in range(s.N + 1)), str(s.D))
    t.true("shapes", all(s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]) for n in range(1, s.N + 1)))
    check_envs(t, s, "truncate", 1e-8)
    same_ray(t, "truncate (%s): projected state" % how, dense(s.A), want, 1e-7)


@case("C09", 2)
def one_bond_optimal(t):
    """one truncated bond: best approximation of that rank"""
    s, psi = mk_chain(t, Nlo=2, Nhi=4, hi=6)
    psi = dense(s.A)
    ok = [n for n in range(1, s.N) if s.D[n] > 1]
    if not ok:
        raise Skip()
    n = t.pick(*ok)
    k = t.i(1, int(s.D[n]) - 1)
    new = [int(x) for x in s.D]
    new[n] = k
    d = int(np.prod(psi.shape[:n]))
    U, S, V = la.svd(psi.reshape(d, -1), full_matrices=False)
    if S[k - 1] - S[k] < 1e-3:
        raise Skip()
    want = (U[:, :k] * S[:k]).dot(V[:k]).reshape(psi.shape)
    s.truncate(new)
    same_ray(t, "truncating one bond gives the best approximation", dense(s.A), want, 1e-7)
    t.true("dimension", s.D[n] == k, str(s.D))


@case("C09", 2)
def automatic(t):
    s, psi = mk_chain(t, Nlo=2, hi=5)
    psi = deficient(t, s)
    s.zero_tol = 1e-10
    s.restore_CF(use_QR=t.flag()) if t.flag(0.5) else s.restore_CF()
    if t.flag():
        s.auto_truncate()
    else:
        s.update(auto_truncate=True, restore_CF_after_trunc=t.flag())
    same_ray(t, "auto_truncate preserves the state", dense(s.A), psi, 1e-6)
    t.close("unit norm", la.norm(dense(s.A)), 1.0)


@case("C09", 2)
def automatic_reports(t):
    s, psi = mk_chain(t, Nlo=2, hi=5)
    deficient(t, s)
    s.restore_CF()
    tol = 1e-9
    want = []
    for n in range(s.N + 1):
        e = dn(s.l[n] if s.canonical_form == "right" else s.r[n])
        want.append(int(np.sum(np.abs(np.diag(e)) > tol)) if 1 <= n < s.N else 1)
    old = [int(x) for x in s.D]
    got = s.auto_truncate(zero_tol=tol, update=False)
    t.true("reports whether anything changed", bool(got) == (want != old), "%s %s %s" % (got, want, old))
    t.true("removes exactly the zero-weight directions", [int(x) for x in s.D] == want, "%s %s" % (s.D, want))
