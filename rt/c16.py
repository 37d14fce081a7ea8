"""C16 uniform states"""
import copy
import numpy as np
from .lib import *
from .ulib import *
from . import ulib


def spectrum(A):
    w = la.eigvals(block_E(A))
    return w[np.argsort(-np.abs(w))]


def check_fixed(t, s, label, tol=1e-8):
    L = s.L
    A = arrs(s.A)
    for k in range(L):
        x = dn(s.l[k])
        for j in range(k + 1, k + L + 1):
            x = np.einsum("sab,ac,scd->bd", A[j % L].conj(), x, A[j % L])
        t.close(label + ": l is a fixed point of the block map", x, s.l[k], tol)
        x = dn(s.r[k])
        for j in range(k, k - L, -1):
            x = np.einsum("sab,bd,scd->ac", A[j % L], x, A[j % L].conj())
        t.close(label + ": r is a fixed point of the block map", x, s.r[k], tol)
        t.close(label + ": l one site on is l mapped through the tensor",
                np.einsum("sab,ac,scd->bd", A[(k + 1) % L].conj(), dn(s.l[k]), A[(k + 1) % L]), s.l[(k + 1) % L], tol)
        t.close(label + ": r one site back is r mapped through the tensor",
                np.einsum("sab,bd,scd->ac", A[k], dn(s.r[k]), A[k].conj()), s.r[(k - 1) % L], tol)
        for nm, e in (("l", dn(s.l[k])), ("r", dn(s.r[k]))):
            t.close(label + ": %s is Hermitian" % nm, e, e.conj().T, tol)
            w = la.eigvalsh((e + e.conj().T) / 2)
            t.true(label + ": %s is positive" % nm, w[0] > -tol * max(1, w[-1]), w[0])
        t.close(label + ": unit overlap", np.trace(dn(s.l[k]).dot(dn(s.r[k]))), 1.0, tol)


def deficient(t, L, q, D):
    """block of lower rank on some or all bonds, same bond dimension throughout"""
    m = [t.i(1, D) for _ in range(L)]          # rank right of site k
    A = []
    for k in range(L):
        a = np.zeros((q, D, D), dtype=complex)
        dl, dr = m[k - 1], m[k]
        a[:, :dl, :dr] = t.c(q, dl, dr) / np.sqrt(dl)
        A.append(a)
    g = [t.unitary(D) for _ in range(L)]
    A = [np.einsum("ab,sbc,cd->sad", g[k - 1], A[k], g[k].conj().T) for k in range(L)]
    if gap(A) < 0.15:
        raise Skip()
    return A


def make(t, Dhi=6):
    """state with raw tensors, not updated"""
    import evoMPS.mps_uniform as mu
    L, q, D = t.i(1, 3), t.i(2, 3), t.i(1, Dhi)
    if t.flag(0.15):
        A = deficient(t, L, q, D)
        defi = True
    else:
        defi = False
        for _ in range(20):
            A = rand_block(t, L, q, D)
            if gap(A) > 0.15:
                break
        else:
            raise Skip()
    s = mu.EvoMPS_MPS_Uniform(D, q, L=L, do_update=False)
    for k in range(L):
        s.A[k][:] = A[k]
    s.symm_gauge = t.flag()
    if defi:
        s.zero_tol = 1e-11
    how = t.pick("arpack", "arpack", "brute", "power")
    s.ev_brute = how == "brute"
    s.ev_use_arpack = how != "power"
    if t.flag(0.3):
        s.lL_before_CF = t.pos(D)
        s.rL_before_CF = t.pos(D)
    t.note(D=D, q=q, L=L, symm=s.symm_gauge, how=how, deficient=defi)
    return s, A, defi


def same_state(t, label, s, A, tol=1e-7, env=None):
    """expectation values and spectrum against the original tensors (normalised)"""
    A = normalised(A)
    B = arrs(s.A)
    L, q = s.L, s.q
    e1 = uenvs(A) if env is None else env
    e2 = ([dn(x) for x in s.l], [dn(x) for x in s.r])
    for k in range(L):
        t.close(label + ": local density matrices", urdm(B, k, 1, e2), urdm(A, k, 1, e1), tol)
    k = t.i(0, L - 1)
    t.close(label + ": two-site density matrices", urdm(B, k, 2, e2), urdm(A, k, 2, e1), tol)
    w1, w2 = spectrum(A), spectrum(B)
    n = min(len(w1), 3)
    t.close(label + ": the transfer spectrum", np.sort(np.abs(w2))[::-1][:n], np.sort(np.abs(w1))[::-1][:n], 1e-5)
    for j in range(1, 4):
        t.close(label + ": traces of powers of the transfer matrix", np.sum(w2 ** j), np.sum(w1 ** j), 1e-6)


@case("C16", 4)
def update_plain(t):
    s, A, d = make(t)
    s.update(restore_CF=False)
    check_fixed(t, s, "update")
    ev = fixed_points(A)[0].real
    f = np.prod([np.vdot(A[k], s.A[k]) / np.vdot(A[k], A[k]) for k in range(s.L)])
    for k in range(s.L):
        x = np.vdot(A[k], s.A[k]) / np.vdot(A[k], A[k])
        t.close("updating multiplies the tensors by positive factors", s.A[k], A[k] * abs(x), 1e-9)
    t.close("the factors normalise the block", abs(f) ** 2 * ev, 1.0, 1e-7)
    t.close("eigenvalue one", spectrum(arrs(s.A))[0], 1.0, 1e-8)
    if not s.symm_gauge:
        t.close("right gauge: tr r is the bond dimension", np.trace(dn(s.r[-1])), s.D, 1e-8)


@case("C16", 5)
def canonical(t):
    s, A, d = make(t)
    which = t.pick("update", "SCF", "RCF", "LCF", "LCF")
    t.note(which=which)
    if d:
        # rounding can let the Cholesky decomposition of a singular matrix succeed; then no rank is detected
        c = copy.deepcopy(s)
        c.update(restore_CF=False)
        for e in list(c.l) + list(c.r):
            if la.eigvalsh(dn(e)).min() < 1e-9:
                for lower in (True, False):
                    try:
                        la.cholesky(dn(e), lower=lower)
                    except np.linalg.LinAlgError:
                        continue
                    raise Skip()
    if which == "update":
        s.update()
    else:
        s.update(restore_CF=False)
        if which == "SCF":
            s.restore_SCF()
        elif which == "RCF":
            dg = t.flag(0.7)
            s.restore_RCF(diag_l=dg)
        else:
            dg = t.flag(0.7)
            s.restore_LCF(diag_r=dg)
    form = {"update": "SCF" if s.symm_gauge else "RCF"}.get(which, which)
    check_fixed(t, s, form, 1e-7)
    isd = lambda e: np.diag(np.diag(e))
    for k in range(s.L):
        l, r = dn(s.l[k]), dn(s.r[k])
        if form == "SCF":
            t.close("symmetric form: l = r", l, r, 1e-8)
            t.close("symmetric form: diagonal", l, isd(l), 1e-8)
        one, other = (r, l) if form == "RCF" else (l, r)
        if form in ("RCF", "LCF"):
            if not d:
                t.close(form + ": unit environment", one, np.eye(s.D), 1e-7)
            else:
                w = la.eigvalsh(one)
                t.true(form + ": unit environment on its support", np.all((abs(w) < 1e-6) | (abs(w - 1) < 1e-6)), w)
            if which == "update" or dg:
                t.close(form + ": the other environment is diagonal", other, isd(other), 1e-8)
    same_state(t, form, s, A, 1e-6 if not d else 1e-5)
    if d:
        return
    t.close("the tensors are gauge equivalent to the ones before: block spectrum", spectrum(arrs(s.A))[0], 1.0, 1e-7)


@case("C16", 2)
def some_bonds(t):
    """canonical form on chosen bonds only, with the transformations returned"""
    s, A, d = make(t, 4)
    if d:
        raise Skip()
    s.update(restore_CF=False)
    A0 = arrs(s.A)
    l0, r0 = [dn(x) for x in s.l], [dn(x) for x in s.r]
    ks = [k for k in range(s.L) if t.flag(0.6)]
    left = t.flag()
    dg = t.flag()
    t.note(ks=ks, left=left, diag=dg)
    if left:
        G, Gi = s.restore_LCF(diag_r=dg, ks=ks, ret_g=True)
        G, Gi = Gi, G          # here the first is applied from the left
        G, Gi = Gi, G
    else:
        G, Gi = s.restore_RCF(diag_l=dg, ks=ks, ret_g=True)
    check_fixed(t, s, "chosen bonds", 1e-7)
    same_state(t, "chosen bonds", s, A, 1e-6)
    I = np.eye(s.D)
    for k in range(s.L):
        g = I if G[k] is None else dn(G[k])
        gi = I if Gi[k] is None else dn(Gi[k])
        t.close("the transformation and its inverse", g.dot(gi), I, 1e-7)
        gm = I if Gi[k - 1] is None else dn(Gi[k - 1])
        t.close("the tensors are transformed by what is returned", s.A[k], np.einsum("ab,sbc,cd->sad", gm, A0[k], g), 1e-7)
        if k in ks:
            t.close("unit environment", (s.l if left else s.r)[k], I, 1e-7)
        else:
            t.close("bonds not chosen keep their environments", s.l[k], l0[k], 1e-9)
            t.close("bonds not chosen keep their environments", s.r[k], r0[k], 1e-9)


@case("C16", 1)
def noise_random(t):
    """states built by the library itself"""
    import evoMPS.mps_uniform as mu
    np.random.seed(t.i(0, 10 ** 6))
    L, q, D = t.i(1, 3), t.i(2, 3), t.i(1, 6)
    s = mu.EvoMPS_MPS_Uniform(D, q, L=L)
    t.note(D=D, q=q, L=L)
    check_fixed(t, s, "random state", 1e-7)
    s.add_noise(0.5)
    check_fixed(t, s, "noisy state", 1e-7)
    A = rand_block(t, L, q, D)
    if gap(A) < 0.15:
        raise Skip()
    o = mu.EvoMPS_MPS_Uniform.from_tensors([a.copy() for a in A])
    check_fixed(t, o, "from tensors", 1e-7)
    same_state(t, "from tensors", o, A, 1e-6)
