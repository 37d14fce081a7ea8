"""C22 dynamic bond expansion"""
import copy
import numpy as np
import scipy.linalg as la
from .lib import *
from .ulib import *
from .wlib import *


def isqrt(x):
    w, v = la.eigh((x + x.conj().T) / 2)
    return (v / np.sqrt(w)).dot(v.conj().T), (v * np.sqrt(w)).dot(v.conj().T)


def kernel(X):
    """projector onto the orthogonal complement of the columns of X"""
    u, s, _ = la.svd(X, full_matrices=False)
    u = u[:, s > 1e-9 * max(s[0], 1e-300)]
    return np.eye(X.shape[0]) - u.dot(u.conj().T)


def two_site(A1, A2, l, r, G):
    """G: derivative of the energy functional with respect to the conjugate of the two-site tensor [a,s,t,b];
    returns the whitened component orthogonal to the one-site tangent space, as (a s) x (t b), and its transformation"""
    li, lh = isqrt(l)
    ri, rh = isqrt(r)
    Da, q1, q2, Db = G.shape
    W = np.einsum("ca,astb,bd->cstd", li, G, ri)
    PL = kernel(np.einsum("ca,sab->csb", lh, A1).reshape(Da * q1, -1))
    M2 = np.einsum("tab,bd->atd", A2, rh).reshape(-1, q2 * Db)
    PR = kernel(M2.conj().T)
    return PL.dot(W.reshape(Da * q1, q2 * Db)).dot(PR), li, ri


def blocks_product(li, ri, B1, B2, lh, rh):
    """whitened product of the new blocks"""
    X = np.einsum("ca,sax->csx", lh, B1)
    Y = np.einsum("txb,bd->xtd", B2, rh)
    return np.tensordot(X, Y, axes=([2], [0])).reshape(X.shape[0] * X.shape[1], -1)


def best(M, n):
    u, s, v = la.svd(M, full_matrices=False)
    return (u[:, :n] * s[:n]).dot(v[:n]), s


def compare(t, got, M, n, dtau, cap):
    """got: whitened product of the new blocks"""
    want, s = best(M, n)
    t.true("number of new directions within the limits", n <= cap)
    full = int(np.sum(s > 1e-9 * max(1, s[0]))) if len(s) else 0
    t.true("as many directions as allowed", n >= min(full, cap))
    if n < len(s) and n > 0 and s[n] > 0.9 * s[n - 1] and s[n] > 1e-8:
        # nearly degenerate: compare the error of the approximation
        t.close("error of the approximation", la.norm(got / -dtau - M), la.norm(want - M), 1e-6)
    else:
        t.close("best approximation of the two-site component", got, -dtau * want, 1e-6)


def step(t):
    return complex(t.pick(1e-2, 0.3) * t.pick(1, 1j, 0.6 + 0.8j))


@case("C22", 4)
def finite(t):
    s, ham = mk_tdvp(t, Nlo=3, Nhi=5, hi=3)
    s.canonical_form = s.gauge_fixing
    s.update()
    if not good(s, 1e-4):
        raise Skip()
    N, k = s.N, s.ham_sites
    dtau = step(t)
    A0 = [None] + [np.array(s.A[n]) for n in range(1, N + 1)]
    D0 = np.array(s.D)
    B = copy.deepcopy(s).calc_B()
    l, r = [dn(x) for x in s.l], [dn(x) for x in s.r]
    psi = dense(A0, N)
    v = apply_H(psi, ham, N, k)
    dD_max = t.pick(1, 2, 16)
    D_max = t.pick(0, 0, int(max(D0)), int(max(D0)) + 1)
    t.note(dtau=dtau, dD_max=dD_max, D_max=D_max)
    only = t.flag(0.25)
    if only:
        s.take_step(dtau, calc_Y_2s=True)
        s2 = copy.deepcopy(s)
    else:
        s.take_step(dtau, dynexp=True, dD_max=dD_max, D_max=D_max)
    tot = 0
    qd = list(psi.shape)
    for n in range(1, N):
        # W = (P_left(n-1) x 1 - P_left(n)) x (1 x P_right(n+2) - P_right(n+1))
        pl = lambda m: np.ones((1, 1)) if m == 0 else block_left(A0, m).reshape(A0[m].shape[2], -1).T
        pr = lambda m: np.ones((1, 1)) if m == N + 1 else block_right(A0, m, N).reshape(A0[m].shape[1], -1).T
        proj = lambda X: np.eye(X.shape[0]) - kernel(X)
        PL = np.kron(proj(pl(n - 1)), np.eye(A0[n].shape[0])) - proj(pl(n))
        PR = np.kron(np.eye(A0[n + 1].shape[0]), proj(pr(n + 2))) - proj(pr(n + 1))
        M = PL.dot(v.reshape(PL.shape[0], -1)).dot(PR.T)
        t.close("norm of the two-site component", s.etaBB_sq[n], la.norm(M) ** 2, 1e-7)
        tot += la.norm(M) ** 2
        if only:
            continue
        d = s.D[n] - D0[n]
        cap = dD_max if D_max == 0 else max(0, min(dD_max, D_max - D0[n]))
        t.true("bond dimensions do not shrink", d >= 0)
        B1 = s.A[n][:, :D0[n - 1], D0[n]:]
        B2 = s.A[n + 1][:, D0[n]:, :D0[n + 1]]
        Lb = np.einsum("xa,sab->xsb", pl(n - 1), B1)
        Rb = np.einsum("sab,yb->asy", B2, pr(n + 2))
        got = np.tensordot(Lb, Rb, axes=([2], [0])).reshape(Lb.shape[0] * Lb.shape[1], -1)
        compare(t, got, M, d, dtau, cap)
    t.close("reported expansion norm", s.etaBB, np.sqrt(tot), 1e-7)
    for n in range(1, N + 1):
        a, b = D0[n - 1], D0[n]
        want = A0[n] if B[n] is None else A0[n] - dtau * B[n]
        t.true("shape of the new tensor", s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]))
        t.close("old blocks as after an ordinary step", s.A[n][:, :a, :b], want, 1e-7)
        t.close("nothing among the new directions", s.A[n][:, a:, b:], 0 * s.A[n][:, a:, b:], 0)
    t.true("boundary bonds stay", s.D[0] == D0[0] and s.D[N] == D0[N])
    if not only:
        s.update()
        t.close("the expanded state can be brought to canonical form", np.trace(dn(s.l[1]).dot(dn(s.r[1]))), 1, 1e-7)


def term2(A, lenv, renv, q, j, n, h, k, L=None):
    """derivative w.r.t. the conjugate of the two-site tensor at k, k+1 of the term on j..j+n-1 containing both;
    A, lenv, renv are functions of the position; lenv(m) is left of site m+1"""
    X = np.transpose(A(j), (1, 0, 2))
    for i in range(1, n):
        X = np.tensordot(X, np.transpose(A(j + i), (1, 0, 2)), axes=([-1], [0]))
    Da, Db = X.shape[0], X.shape[-1]
    d = int(np.prod(X.shape[1:-1]))
    sh = X.shape
    X = np.einsum("us,asb->aub", np.asarray(h).reshape(d, d), X.reshape(Da, d, Db)).reshape(sh)
    X = np.tensordot(lenv(j - 1), X, axes=([1], [0]))           # bra, ...
    X = np.tensordot(X, renv(j + n - 1), axes=([-1], [0]))      # ..., bra
    for i in range(j, k):                                       # sites before
        X = np.tensordot(A(i).conj(), X, axes=([1, 0], [0, 1]))
    for i in range(j + n - 1, k + 1, -1):                       # sites after
        X = np.tensordot(X, A(i).conj(), axes=([-1, -2], [2, 0]))
    return X


@case("C22", 4)
def uniform(t):
    s, h = mk_utdvp(t, Dhi=3, qhi=2 if t.flag(0.4) else 3)
    n = s.ham_sites
    if n == 3 and s.q == 3 or not ugood(s):
        raise Skip()
    L, q, D = s.L, s.q, s.D
    A0 = arrs(s.A)
    l, r = uenvs(A0)
    B = [np.array(b) for b in copy.deepcopy(s).calc_B()]
    ref = copy.deepcopy(s)
    ref.calc_B()
    dtau = step(t)
    dD_max = t.pick(1, 2, 16)
    D_max = t.pick(128, D, D + 1)
    t.note(dtau=dtau, dD_max=dD_max, D_max=D_max)
    how = t.pick("step", "step", "given")
    if how == "given" and D < D_max:
        b = s.calc_B()
        BB = s.calc_B_2s(dD_max=min(dD_max, D_max - D))
        s.take_step(dtau, B=b, dynexp=True, D_max=D_max, dD_max=dD_max, BB=BB)
    else:
        s.take_step(dtau, dynexp=True, D_max=D_max, dD_max=dD_max)
    d = s.D - D
    cap = max(0, min(dD_max, D_max - D))
    fa, fl, fr = lambda i: A0[i % L], lambda i: l[i % L], lambda i: r[i % L]
    tot = 0
    for k in range(L):
        t.close("old blocks as after an ordinary step", s.A[k][:, :D, :D], A0[k] - dtau * B[k], 1e-6)
        t.close("nothing among the new directions", s.A[k][:, D:, D:], np.zeros((q, d, d)), 0)
        if cap == 0:
            t.true("the limit is respected", d == 0)
            continue
        G = sum(term2(fa, fl, fr, q, j, n, h, k) for j in range(k - n + 2, k + 1))
        M, li, ri = two_site(A0[k], fa(k + 1), fl(k - 1), fr(k + 1), G)
        tot += la.norm(M) ** 2
        t.close("norm of the two-site component", s.etaBB_sq[k], la.norm(M) ** 2, 1e-6)
        lh, rh = isqrt(fl(k - 1))[1], isqrt(fr(k + 1))[1]
        got = blocks_product(li, ri, s.A[k][:, :D, D:], s.A[(k + 1) % L][:, D:, :D], lh, rh)
        want, sv = best(M, d)
        t.true("number of new directions within the limits", d <= cap)
        full = int(np.sum(sv > 1e-9 * max(1, sv[0])))
        t.true("as many directions as allowed", d >= min(full, cap))
        if d < len(sv) and d > 0 and sv[d] > 0.9 * sv[d - 1] and sv[d] > 1e-8:
            t.close("error of the approximation", la.norm(got / -dtau - M), la.norm(want - M), 1e-6)
        else:
            t.close("best approximation of the two-site component", got, -dtau * want, 1e-5)
    if cap:
        t.close("reported expansion norm", s.etaBB, np.sqrt(tot), 1e-6)
    t.close("reported norm of the one-site tangent vector", s.eta, ref.eta, 1e-6)
    s.update()
    t.close("the expanded state can be normalised", abs(fixed_points(arrs(s.A))[0]), 1.0, 1e-6)


@case("C22", 1)
def uneven(t):
    """a product state with a symmetric Hamiltonian: some bonds of the block have nothing to add"""
    import evoMPS.tdvp_uniform as tu
    X = np.array([[0, 1], [1, 0]]); Y = np.array([[0, -1j], [1j, 0]])
    h = (np.kron(X, X) + np.kron(Y, Y)).reshape(2, 2, 2, 2) * (1 + t.rng.rand())
    conf = t.pick((0, 0, 1), (0, 1, 1), (0, 1), (0, 0))
    L = len(conf)
    s = tu.EvoMPS_TDVP_Uniform(1, 2, h, L=L, do_update=False)
    for k in range(L):
        s.A[k][:] = 0
        s.A[k][conf[k], 0, 0] = 1
    s.symm_gauge = t.flag()
    s.update()
    A0 = arrs(s.A)
    t.note(conf=conf)
    dtau = step(t)
    s.take_step(dtau, dynexp=True, dD_max=t.pick(1, 4))
    d = s.D - 1
    for k in range(L):
        got = s.A[k][:, 0, 1:].dot(s.A[(k + 1) % L][:, 1:, 0].T) if d else np.zeros((2, 2))
        hk = np.einsum("stuv,u,v->st", h, A0[k][:, 0, 0], A0[(k + 1) % L][:, 0, 0])
        P = lambda a: np.eye(2) - np.outer(a[:, 0, 0], a[:, 0, 0].conj())
        M = P(A0[k]).dot(hk).dot(P(A0[(k + 1) % L]).T)
        t.close("two-site component of every bond", got, -dtau * M, 1e-9)
        t.close("norm of the two-site component", s.etaBB_sq[k], la.norm(M) ** 2, 1e-9)


@case("C22", 3)
def window(t):
    s, terms, hL, hR = mk_twin(t, q=2, Dhi=3)
    s.update()
    if not wgood(s):
        raise Skip()
    N, n = s.N, s.ham_sites
    ch = chain_of(s)
    D0 = np.array(s.D)
    A0 = [None] + [np.array(s.A[i]) for i in range(1, N + 1)]
    B = [None if b is None else np.array(b) for b in copy.deepcopy(s).calc_B()]
    fl = {i: dn(s.get_l(i)) for i in range(-2, N + 3)}
    fr = {i: dn(s.get_r(i)) for i in range(-2, N + 4)}
    dtau = step(t)
    dD_max = t.pick(1, 2, 16)
    D_max = t.pick(64, int(max(D0)), int(max(D0)) + 1)
    t.note(dtau=dtau, dD_max=dD_max, D_max=D_max)
    err = s.compute_projection_error()
    dD = s.take_step(dtau, dynexp=True, dD_max=dD_max, D_max=D_max)
    for k in range(1, N):
        G = sum(term2(ch.A, lambda i: fl[i], lambda i: fr[i], None, j, n, terms[j], k) for j in range(k - n + 2, k + 1))
        M, li, ri = two_site(ch.A(k), ch.A(k + 1), fl[k - 1], fr[k + 1], G)
        t.close("projection error of a bond", err[k], la.norm(M) ** 2, 1e-6)
        d = s.A[k].shape[2] - D0[k]
        cap = max(0, min(dD_max, D_max - D0[k]))
        t.true("reported number of new directions", dD[k] == d and s.D[k] == D0[k] + d)
        lh, rh = isqrt(fl[k - 1])[1], isqrt(fr[k + 1])[1]
        a, b, c = D0[k - 1], D0[k], D0[k + 1]
        got = blocks_product(li, ri, s.A[k][:, :a, b:], s.A[k + 1][:, b:, :c], lh, rh)
        compare(t, got, M, d, dtau, cap)
    for k in range(1, N + 1):
        a, b = D0[k - 1], D0[k]
        t.true("shape of the new tensor", s.A[k].shape == (s.q[k], s.D[k - 1], s.D[k]))
        want = A0[k] if B[k] is None else A0[k] - dtau * B[k]
        t.close("old blocks as after an ordinary step", s.A[k][:, :a, :b], want, 1e-6)
        t.close("nothing among the new directions", s.A[k][:, a:, b:], 0 * s.A[k][:, a:, b:], 0)
    t.true("boundary bonds stay", s.D[0] == D0[0] and s.D[N] == D0[N])


@case("C22", 2)
def truncation(t):
    """calc_BB_2s alone: limits and threshold"""
    import evoMPS.tdvp_common as tm
    q1, q2, Da, Db = t.i(1, 3), t.i(1, 3), t.i(1, 4), t.i(1, 4)
    m, n = t.i(1, q1 * Da), t.i(1, q2 * Db)
    Y = t.c(m, n)
    u, s, v = la.svd(Y, full_matrices=False)
    s = s.copy()
    cut = t.i(0, len(s))
    s[cut:] *= 1e-7
    Y = (u * s).dot(v)
    Vl = t.c(q1, m, Da)
    Vr = t.c(q2, Db, n)
    li, ri = t.c(Da, Da), t.c(Db, Db)
    tol = t.pick(0, 1e-4, 1e-14)
    mx = t.i(0, 5)
    B1, B2, d = tm.calc_BB_2s(Y, Vl, Vr, li, ri, dD_max=mx, sv_tol=tol)
    want_d = min(int(np.sum(s > tol)), mx)
    t.note(d=d, s=s, tol=tol, mx=mx)
    t.true("number of directions", d == want_d and B1.shape == (q1, Da, d) and B2.shape == (q2, d, Db))
    X = (u[:, :d] * s[:d]).dot(v[:d])
    want = np.einsum("ca,sma,mn,tbn,bd->sctd", li, Vl.conj(), X, Vr.conj(), ri)
    t.close("product of the blocks", np.einsum("sax,txb->satb", B1, B2), want, 1e-8)
