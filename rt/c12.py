"""C12 energy recursions"""
from .lib import *


def K_right(s, ham, n, k):
    N = s.N
    R = block_right(s.A, n, N)
    HR = np.zeros_like(R)
    for m in range(n, N - k + 2):
        if ham[m] is not None:
            HR = HR + apply_op(R, ham[m], [1 + m - n + j for j in range(k)])
    d = R.shape[0]
    return HR.reshape(d, -1).dot(R.reshape(d, -1).conj().T)


def K_left(s, ham, n, k):
    L = block_left(s.A, n)
    HL = np.zeros_like(L)
    for m in range(1, n - k + 2):
        if ham[m] is not None:
            HL = HL + apply_op(L, ham[m], [m + j for j in range(k)])
    d = L.shape[0]
    return L.reshape(d, -1).conj().dot(HL.reshape(d, -1).T)


def check(t, s, ham, k, what, tol=1e-8):
    N = s.N
    psi = dense(s.A)
    for n in range(1, N + 1):
        if s.gauge_fixing == "right":
            t.close("%s: K[n] sums the terms on sites n to N" % what, s.K[n], K_right(s, ham, n, k), tol)
        else:
            t.close("%s: K[n] sums the terms on sites 1 to n" % what, s.K[n], K_left(s, ham, n, k), tol)
    E = vdot(psi, apply_H(psi, ham, N, k))
    t.close("%s: H_expect" % what, s.H_expect, E, tol)
    for n in range(1, N - k + 2):
        e = 0 if ham[n] is None else vdot(psi, apply_op(psi, ham[n], [n - 1 + j for j in range(k)]))
        t.close("%s: h_expect[n]" % what, s.h_expect[n], e, tol)


@case("C12", 4)
def after_update(t):
    s, ham = mk_tdvp(t, nonherm=t.flag(0.3))
    k = s.ham_sites
    if t.flag(0.7):
        s.update()
    else:
        s.update(restore_CF=False)
    check(t, s, ham, k, "update")


@case("C12", 2)
def after_second_update(t):
    s, ham = mk_tdvp(t, nonherm=t.flag(0.3))
    k = s.ham_sites
    s.update()
    n = t.i(1, s.N)
    s.A[n] += 0.3 * t.c(*s.A[n].shape)
    if t.flag(0.3):
        s.gauge_fixing = t.pick("right", "left")
        s.canonical_form = t.pick("right", "left")
    s.update(restore_CF=t.flag(0.7))
    check(t, s, ham, k, "second update")


@case("C12", 2)
def smaller_bonds(t):
    """the dimensions shrink between two updates"""
    s, ham = mk_tdvp(t, Nlo=3, nonherm=t.flag(0.3))
    k = s.ham_sites
    s.update()
    new = [1] + [t.i(1, int(s.D[n])) for n in range(1, s.N)] + [1]
    s.truncate(new)
    if t.flag():
        s.update()
    check(t, s, ham, k, "truncated")


@case("C12", 3)
def partial(t):
    s, ham = mk_tdvp(t, nonherm=t.flag(0.3))
    k = s.ham_sites
    s.update()
    N = s.N
    ref = [None] + [np.array(x) for x in s.K[1:]]
    if s.gauge_fixing == "right":
        a = t.i(1, N)
        b = t.i(a, N)
        for n in range(a, b + 1):
            s.K[n] = np.ones_like(s.K[n]) * 7
        s.calc_K(n_low=a, n_high=b)
    else:
        a = t.i(1, N)
        b = t.i(a, N)
        for n in range(a, b + 1):
            s.K[n] = np.ones_like(s.K[n]) * 7
        s.calc_K_l(n_low=a, n_high=b)
    t.note(a=a, b=b)
    for n in range(1, N + 1):
        t.close("recomputing K over a range gives the same matrices", s.K[n], ref[n])


@case("C12", 3)
def terms(t):
    """C[n] is the term applied to the sites' tensors"""
    s, ham = mk_tdvp(t, nonherm=t.flag(0.3))
    k = s.ham_sites
    s.update()
    for n in range(1, s.N - k + 2):
        if ham[n] is None:
            t.true("missing term", s.C[n] is None)
            continue
        if k == 2:
            w = np.einsum("stuv,uab,vbc->stac", ham[n], s.A[n], s.A[n + 1])
        else:
            w = np.einsum("struvw,uab,vbc,wcd->strad", ham[n], s.A[n], s.A[n + 1], s.A[n + 2])
        t.close("C[n]", s.C[n], w)
