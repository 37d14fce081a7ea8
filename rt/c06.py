"""C06 canonical form"""
import numpy as np
import scipy.linalg as la
from .lib import *
import evoMPS.tdvp_common as tm
import evoMPS.matmul as mm


def deficient(t, s):
    """replace some tensors so that bonds have less than full rank (state returned)"""
    for n in range(1, s.N):
        D = s.D[n]
        if D > 1 and t.flag(0.6):
            k = t.i(1, D - 1)
            P = t.c(D, k).dot(t.c(k, D))
            s.A[n] = np.array([a.dot(P) for a in s.A[n]])
    return dense(s.A)


def check_form(t, s, form, diag, what, rank_def):
    check_envs(t, s, what)
    for n in range(1, s.N):
        g = dn(s.r[n]) if form == "right" else dn(s.l[n])
        o = dn(s.l[n]) if form == "right" else dn(s.r[n])
        if rank_def:
            t.close("%s: gauge-side environment is a 0/1 projector" % what, g, np.diag(np.round(np.diag(g).real)), 1e-7)
        else:
            t.close("%s: gauge-side environment is the identity" % what, g, np.eye(s.D[n]))
        if diag:
            d = np.diag(o)
            t.close("%s: other environment is diagonal" % what, o, np.diag(d))
            t.true("%s: non-negative, ascending" % what, np.all(d.real > -1e-9) and np.all(np.diff(d.real) > -1e-9) and
                   np.max(np.abs(d.imag)) < 1e-9, str(d))
            if t.flag(0.3):
                t.close("%s: trace one" % what, np.sum(d), 1.0)


@case("C06", 4)
def full_rank(t):
    s, psi = mk_chain(t, update=False)
    form = s.canonical_form
    qr = t.flag()
    if not qr:
        s.calc_l()
        s.calc_r()
    diag = t.flag(0.7)
    t.note(qr=qr, diag=diag)
    if form == "right":
        s.restore_RCF(use_QR=qr, diag_l=diag)
    else:
        s.restore_LCF(use_QR=qr, diag_r=diag)
    same_ray(t, "restore_%s: state" % form, dense(s.A), psi)
    check_form(t, s, form, diag, "restore_%s qr=%s" % (form, qr), False)


@case("C06", 3)
def rank_deficient(t):
    s, psi = mk_chain(t, update=False, Nlo=2, hi=5)
    psi = deficient(t, s)
    form = s.canonical_form
    qr = t.flag(0.5)
    if not qr:
        s.calc_l()
        s.calc_r()
        s.zero_tol = 1e-12
    t.note(qr=qr)
    (s.restore_RCF if form == "right" else s.restore_LCF)(use_QR=qr)
    same_ray(t, "restore_%s of a rank-deficient state" % form, dense(s.A), psi, 1e-6)
    if qr:
        check_form(t, s, form, True, "deficient", False)
    else:
        # documented: without the QR sweep the conditions hold on the occupied subspace only
        l, r = envs(s.A, s.N)
        for n in range(s.N + 1):
            gl, gr = dn(s.l[n]), dn(s.r[n])
            t.close("deficient: left environment on the occupied subspace", gr.dot(gl - l[n]).dot(gr), 0 * gr, 1e-6)
            t.close("deficient: right environment on the occupied subspace", gl.dot(gr - r[n]).dot(gl), 0 * gl, 1e-6)


@case("C06", 3)
def oversized_bonds(t):
    """bonds larger than the neighbours support: the QR sweep shrinks them"""
    import evoMPS.mps_gen as mg
    N = t.i(2, 5)
    q = rand_q(t, N)
    D = [1] + [t.i(1, 6) for _ in range(N - 1)] + [1]
    s = mg.EvoMPS_MPS_Generic(N, cap_D(N, D, q), q)
    A = rand_A(t, N, D, q)
    s.canonical_form = t.pick("right", "left")
    t.note(N=N, q=q, D=D, form=s.canonical_form)
    s.set_state_from_tensors([None] + [a.copy() for a in A[1:]], do_update=True)
    same_ray(t, "state", dense(s.A), dense(A))
    t.true("dimensions match", all(s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]) for n in range(1, N + 1)),
           str([x.shape for x in s.A[1:]]) + str(s.D))
    check_form(t, s, s.canonical_form, True, "oversized", False)


@case("C06", 2)
def not_normalised(t):
    s, psi = mk_chain(t, update=False)
    form = s.canonical_form
    (s.restore_RCF if form == "right" else s.restore_LCF)(normalize_mps=False)
    t.close("without normalisation the state is unchanged", dense(s.A), psi)
    check_envs(t, s, "not normalised")


@case("C06", 2)
def sequence_functions(t):
    """the sequence sweeps with an initial gauge matrix (used for windows)"""
    N = t.i(1, 4)
    q = rand_q(t, N)
    D = [t.i(1, 4) for _ in range(N + 1)]
    A = [None] + [t.c(q[n], D[n - 1], D[n]) for n in range(1, N + 1)]

    def prod(A):
        x = np.eye(D[0], dtype=complex).reshape(1, D[0], D[0])
        for n in range(1, len(A)):
            x = np.einsum("xab,sbc->xsac", x, A[n])
            x = x.reshape(-1, D[0], x.shape[-1])
        return x

    def prod2(A):
        x = A[1]
        for n in range(2, len(A)):
            x = np.einsum("xab,sbc->xsac", x, A[n])
            x = x.reshape(-1, x.shape[-2], x.shape[-1])
        return x
    want = prod2(A)
    A1 = [None] + [a.copy() for a in A[1:]]
    r = [None] * (N + 1)
    r[N] = mm.eyemat(D[N])
    GN = t.c(D[N], D[N]) if t.flag() else None
    G0 = tm.restore_RCF_r_seq(A1, r, GN=GN)
    w = want if GN is None else np.einsum("xab,bc->xac", want, GN)
    t.close("restore_RCF_r_seq: G0 A' = A GN", np.einsum("ab,xbc->xac", dn(G0), prod2(A1)), w)
    for n in range(N, 0, -1):
        rr = np.einsum("sab,bd,scd->ac", A1[n], dn(r[n]), A1[n].conj())
        t.close("restore_RCF_r_seq: r", r[n - 1], rr)
        t.close("restore_RCF_r_seq: r is the identity", r[n - 1], np.eye(A1[n].shape[1]))
    A2 = [None] + [a.copy() for a in A[1:]]
    l = [None] * (N + 1)
    l[0] = mm.eyemat(D[0])
    G0 = t.c(D[0], D[0]) if t.flag() else None
    GN = tm.restore_LCF_l_seq(A2, l, G0=G0)
    w = want if G0 is None else np.einsum("ab,xbc->xac", G0, want)
    t.close("restore_LCF_l_seq: A' GN = G0 A", np.einsum("xab,bc->xac", prod2(A2), dn(GN)), w)
    for n in range(1, N + 1):
        ll = np.einsum("sab,ac,scd->bd", A2[n].conj(), dn(l[n - 1]), A2[n])
        t.close("restore_LCF_l_seq: l", l[n], ll)


@case("C06", 2)
def schmidt_values(t):
    s, psi = mk_chain(t, update=True, Nlo=2)
    psi = psi / la.norm(psi)
    n = t.i(1, s.N - 1)
    d = int(np.prod(psi.shape[:n]))
    sv = la.svdvals(psi.reshape(d, -1)) ** 2
    lam = np.sort(np.asarray(s.schmidt_sq(n)).real)[::-1]
    k = min(len(sv), len(lam))
    t.close("schmidt_sq equals the squared singular values", lam[:k], sv[:k], 1e-8)
    t.true("further values vanish", np.all(np.abs(sv[k:]) < 1e-9) and np.all(np.abs(lam[k:]) < 1e-9))
    p = sv[sv > 1e-14]
    t.close("entropy", np.real(s.entropy(n)), -np.sum(p * np.log2(p)), 1e-6)
