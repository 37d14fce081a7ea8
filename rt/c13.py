"""C13 tangent vector"""
from .lib import *
from . import mpo


def check_B(t, s, B, Hpsi, what, gauge, tol=1e-6):
    N = s.N
    psi = dense(s.A)
    E = vdot(psi, Hpsi)
    l, r = envs(s.A, N)
    for n in range(1, N + 1):
        if B[n] is None:
            continue
        t.true("%s: shape" % what, B[n].shape == s.A[n].shape)
        if gauge == "right":
            g = np.einsum("sab,bc,sdc->ad", B[n], r[n], s.A[n].conj())
        else:
            g = np.einsum("sba,bc,scd->ad", s.A[n].conj(), l[n - 1], B[n])
        t.close("%s: gauge-fixing condition" % what, g, np.zeros_like(g), 1e-8)
    want = project(tangent_space(s.A, N), Hpsi - E * psi)
    got = tangent_vector(s.A, B, N)
    t.close("%s: tangent vector is the projection of (H - E)|psi>" % what, got, want, tol)
    return got


@case("C13", 5)
def projected(t):
    s, ham = mk_tdvp(t)
    k = s.ham_sites
    if t.flag(0.7):
        s.update()
    else:
        s.update(restore_CF=False)
    if not good(s):
        raise Skip()
    how = t.pick("all", "each")
    if how == "all":
        B = s.calc_B()
    else:
        B = [None] + [s.calc_B_n(n) for n in range(1, s.N + 1)]
    psi = dense(s.A)
    phi = check_B(t, s, B, apply_H(psi, ham, s.N, k), "calc_B", s.gauge_fixing)
    if how == "all":
        t.close("eta is the norm of the tangent vector", s.eta, la.norm(phi), 1e-6)
    for n in range(1, s.N + 1):
        if B[n] is None:
            t.close("eta_sq of a stationary site", s.eta_sq[n], 0)
        else:
            v = tangent_vector(s.A, [B[j] if j == n else None for j in range(s.N + 1)], s.N)
            t.close("eta_sq[n]", s.eta_sq[n], la.norm(v) ** 2, 1e-6)


@case("C13", 2)
def from_mpo(t):
    s, ham = mk_tdvp(t, Nlo=2, gauge="right")
    k = s.ham_sites
    s.update()
    if not good(s):
        raise Skip()
    M = mpo.from_terms(ham, s.N, [int(x) for x in s.q], k)
    B = s.calc_B_MPO(M)
    psi = dense(s.A)
    Hpsi = apply_H(psi, ham, s.N, k)
    phi = check_B(t, s, B, Hpsi, "calc_B_MPO", "right")
    t.close("calc_B_MPO: energy", s.H_expect, vdot(psi, Hpsi))
    t.close("calc_B_MPO: eta", s.eta, la.norm(phi), 1e-6)
