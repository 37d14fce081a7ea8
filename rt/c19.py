"""C19 uniform energy density and tangent vector"""
import numpy as np
import scipy.linalg as la
from .lib import *
from .ulib import *


def term_F(A, l, r, h, n, j, k):
    """derivative with respect to conj(A[k]) (as (q,D,D)) of the term acting on sites j..j+n-1, j <= k <= j+n-1,
    with plain environments around it"""
    L = len(A)
    D, q = A[0].shape[1], A[0].shape[0]
    hh = h.reshape(q ** n, q ** n)
    X = string(A, j % L, n)                       # a, s.., b
    X = np.einsum("us,asb->aub", hh, X.reshape(D, q ** n, D)).reshape([D] + [q] * n + [D])
    X = np.einsum("ca,a...->c...", l[(j - 1) % L], X)       # l: (bra, ket)
    m = k - j                                    # sites before k inside the term
    for i in range(m):
        # contract with conj(A[j+i]) at the left end: X[c, u, ...], c bra index
        X = np.tensordot(A[(j + i) % L].conj(), X, axes=([1, 0], [0, 1]))     # -> (bra', ...)
    # now X[bra, u_k, u_k+1.., b ket]
    R = np.tensordot(X, r[(j + n - 1) % L], axes=([-1], [0]))                 # ket contracted: r_(ket, bra)
    for i in range(n - 1, m, -1):
        R = np.tensordot(R, A[(j + i) % L].conj(), axes=([-1, -2], [2, 0]))
    return np.transpose(R, (1, 0, 2))           # (q, bra left, bra right)


def right_energy(A, l, r, h, n):
    """K[k] for all k by dense solve: block of L sites starting at k, all terms starting at or after k,
    fixed-point part removed on both sides; also local energies"""
    L, D = len(A), A[0].shape[1]
    q = A[0].shape[0]
    hh = h.reshape(q ** n, q ** n)
    hr, e = [], []
    for k in range(L):
        X = string(A, k, n).reshape(D, q ** n, D)
        hr.append(np.einsum("asb,us,bd,cud->ac", X, hh, r[(k + n - 1) % L], X.conj(), optimize=True))
        e.append(np.einsum("ca,ac->", l[(k - 1) % L], hr[k]))
    K = []
    for k in range(L):
        Hr = np.zeros((D, D), complex)
        for j in range(L - 1, -1, -1):
            a = A[(k + j) % L]
            Hr = hr[(k + j) % L] + np.einsum("sab,bd,scd->ac", a, Hr, a.conj())
        lk, rk = l[(k - 1) % L], r[(k - 1) % L]
        Hr = Hr - rk * np.einsum("ca,ac->", lk, Hr)
        E = block_E([A[(k + j) % L] for j in range(L)])
        Q = E - np.outer(rk.ravel(), lk.T.ravel())
        K.append(la.solve(np.eye(D * D) - Q, Hr.ravel()).reshape(D, D))
    return K, e


def left_energy(A, l, r, h, n):
    """K_left[k]: all terms ending at or before k; bra vector with tr(K r)"""
    L, D = len(A), A[0].shape[1]
    q = A[0].shape[0]
    hh = h.reshape(q ** n, q ** n)
    lh = []
    for k in range(L):                           # terms ending at k
        j = k - n + 1
        X = string(A, j % L, n).reshape(D, q ** n, D)
        lh.append(np.einsum("ca,asb,us,cud->db", l[(j - 1) % L], X, hh, X.conj(), optimize=True))
    K = []
    for k in range(L):
        H = np.zeros((D, D), complex)
        for j in range(L):                       # last site of the block is k
            s = (k - L + 1 + j) % L
            H = lh[s] + np.einsum("sab,ac,scd->bd", A[s].conj(), H, A[s])
        lk, rk = l[k], r[k]
        H = H - lk * np.einsum("ca,ac->", H, rk)
        E = block_E([A[(k + 1 + j) % L] for j in range(L)])
        Q = E - np.outer(rk.ravel(), lk.T.ravel())
        # row vector with components K^T
        K.append(la.solve((np.eye(D * D) - Q).T, H.T.ravel()).reshape(D, D).T)
    return K


def scaled(s):
    A = arrs(s.A)
    l, r = uenvs(A)
    c = [np.trace(dn(s.r[k])) / np.trace(r[k]) for k in range(s.L)]
    return A, [x / c[0] for x in l], [x * c[0] for x in r]


def ready(t, **k):
    s, h = mk_utdvp(t, **k)
    if not ugood(s):
        raise Skip()
    return s, h, s.ham_sites


@case("C19", 4)
def energy(t):
    form = t.pick("array", "function", "tp", None)
    k = 2 if form == "tp" else t.pick(2, 3)
    s, h, n = ready(t, k=k, form=form, qhi=3 if k == 2 else 2)
    A, l, r = scaled(s)
    t.close("fixed points", s.l[-1], l[-1], 1e-7)
    t.close("fixed points", s.r[-1], r[-1], 1e-7)
    K, e = right_energy(A, l, r, h, n)
    t.close("energy density is the block average of the local energies", s.h_expect, np.mean(e), 1e-8)
    for j in range(s.L):
        t.close("local energy is an expectation value", e[j], uexpect(A, h, j, n, (l, r)), 1e-8)
        t.close("right partial energy", s.K[j], K[j], 1e-6)
    Kl, hl = s.calc_K_l()
    want = left_energy(A, l, r, h, n)
    t.close("energy density from the left", hl, np.mean(e), 1e-8)
    for j in range(s.L):
        t.close("left partial energy", Kl[j], want[j], 1e-6)
        t.close("left partial energy of the state", s.K_left[j], want[j], 1e-6)


def gradient(A, l, r, h, n, k, K):
    L = len(A)
    F = sum(term_F(A, l, r, h, n, j, k) for j in range(k - n + 1, k + 1))
    F = F + np.einsum("ca,sab,bd->scd", l[(k - 1) % L], A[k], K[(k + 1) % L])
    return F


@case("C19", 4)
def tangent(t):
    s, h, n = ready(t, qhi=2 if t.flag(0.3) else 3)
    if n == 3 and s.q == 3:
        raise Skip()
    A, l, r = scaled(s)
    K, e = right_energy(A, l, r, h, n)
    keep = [np.array(a) for a in s.A]
    B = s.calc_B()
    tot = 0
    q, D = s.q, s.D
    for k in range(s.L):
        t.close("calc_B leaves the tensors alone", s.A[k], keep[k], 0)
        t.close("gauge condition", np.einsum("sab,bd,scd->ac", B[k], r[k], A[k].conj()), np.zeros((D, D)), 1e-7)
        F = gradient(A, l, r, h, n, k, K)
        wl, vl = la.eigh(l[(k - 1) % s.L])
        wr, vr = la.eigh(r[k])
        li = (vl / np.sqrt(wl)).dot(vl.conj().T)
        ri = (vr / np.sqrt(wr)).dot(vr.conj().T)
        rs = (vr * np.sqrt(wr)).dot(vr.conj().T)
        Y = np.einsum("ca,sab,bd->csd", li, F, ri).reshape(D, -1)
        V = np.einsum("sab,bd->asd", A[k], rs).reshape(D, -1)
        P = np.eye(q * D) - V.conj().T.dot(la.solve(V.dot(V.conj().T), V))
        X = Y.dot(P)
        want = np.einsum("ca,asb,bd->scd", li, X.reshape(D, q, D), ri)
        t.close("tangent tensor is the projected gradient", B[k], want, 1e-6)
        tot += la.norm(X) ** 2
        if q > 1:
            t.close("norm of the tangent tensor of a site", s.eta_sq[k], la.norm(X) ** 2, 1e-6)
    t.close("norm of the tangent vector", s.eta, np.sqrt(tot), 1e-6)


@case("C19", 2)
def constructed(t):
    """the ways of making the object and of giving the Hamiltonian agree"""
    import evoMPS.tdvp_uniform as tu
    import evoMPS.mps_uniform as mu
    s, h, n = ready(t, form="array", qhi=2)
    ref = (s.h_expect, [np.array(x) for x in s.K], s.calc_B())
    how = t.pick("function", "from_mps", "from_tensors", "function array", "quench")
    t.note(how=how)
    f = lambda *i: h[tuple(int(x) for x in i)]
    if how == "function":
        o = tu.EvoMPS_TDVP_Uniform(s.D, s.q, f, ham_sites=n, L=s.L, do_update=False)
    elif how in ("from_mps", "from_tensors"):
        A = [np.array(a) for a in s.A]
        form = t.flag()
        ham, hs = (f, n) if form else (h, None if t.flag() else n)
        if how == "from_mps":
            o = tu.EvoMPS_TDVP_Uniform.from_mps(mu.EvoMPS_MPS_Uniform.from_tensors(A), ham, hs)
        else:
            o = tu.EvoMPS_TDVP_Uniform.from_tensors(A, ham, hs)
    else:
        g = rand_uham(t, s.q, n) if how == "function array" else rand_uham(t, s.q, 2)
        o = tu.EvoMPS_TDVP_Uniform(s.D, s.q, g, L=s.L, do_update=False)
        if how == "quench":
            o.update()
            o.set_ham(f if t.flag() else h, ham_sites=n)
        else:
            o.set_ham_array_from_function(f)
            t.close("array made from a function", o.ham, h, 0)
    for k in range(s.L):
        o.A[k][:] = s.A[k]
    o.symm_gauge = s.symm_gauge
    o.update(restore_CF=False)
    t.true("number of sites of the Hamiltonian", o.ham_sites == n)
    t.close("energy density", o.h_expect, ref[0], 1e-8)
    _, l, r = scaled(s)
    _, lo, ro = scaled(o)
    c = np.trace(ro[-1]) / np.trace(r[-1])
    B = o.calc_B()
    for k in range(s.L):
        t.close("partial energy", o.K[k] / c, ref[1][k], 1e-6)
        t.close("tangent tensor", B[k], ref[2][k], 1e-6)
