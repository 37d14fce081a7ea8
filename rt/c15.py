"""C15 effective Hamiltonians"""
import sys, os, copy
from .lib import *
from . import mpo
from .c12 import K_right, K_left
import evoMPS.split_step as ss
import evoMPS.tdvp_gen as tg
import evoMPS.mps_gen as mg


def left_orth(t, q, a, b):
    m = la.qr(t.c(q * a, b), mode="economic")[0]
    return np.ascontiguousarray(m.reshape(a, q, b).transpose(1, 0, 2))


def right_orth(t, q, a, b):
    return np.ascontiguousarray(left_orth(t, q, b, a).transpose(0, 2, 1))


class Dummy(object):
    pass


def setup(t, nl, nr, k, cls=None):
    """random chain, sites 1..nl left orthonormal, sites nr..N right orthonormal, rest arbitrary"""
    s, ham = None, None
    return s, ham


def chain(t, k, width, N=None, cls="mps", maxq=3):
    N = N or t.i(max(k, width), 5)
    q = [0] + [t.i(2, maxq) for _ in range(N)]
    D = cap_D(N, rand_D(t, N, q, 4), q)
    n = t.pick(1, N - width + 1, t.i(1, N - width + 1))
    ham = rand_ham(t, N, q, k, 0.0)
    A = [None]
    for j in range(1, N + 1):
        if j < n:
            A.append(left_orth(t, q[j], D[j - 1], D[j]))
        elif j >= n + width:
            A.append(right_orth(t, q[j], D[j - 1], D[j]))
        else:
            A.append(t.c(q[j], D[j - 1], D[j]))
    if cls == "mps":
        s = mg.EvoMPS_MPS_Generic(N, D, q)
    else:
        s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=k)
    for j in range(1, N + 1):
        s.A[j] = A[j].copy()
    t.note(N=N, D=D, q=q, k=k, n=n, cls=cls)
    return s, ham, A, n, N, q, D


def blocks(A, n, width, N):
    """isometries: L[(s1..s_{n-1}), a], R[(s_{n+w}..s_N), b]"""
    if n > 1:
        L = block_left(A, n - 1)
        L = L.reshape(L.shape[0], -1).T
    else:
        L = np.ones((1, 1))
    if n + width <= N:
        R = block_right(A, n + width, N)
        R = R.reshape(R.shape[0], -1).T
    else:
        R = np.ones((1, 1))
    return L, R


def H_eff(x, L, R, ham, N, q, k, phys):
    """x[(phys) a b] -> projected H x"""
    psi = np.einsum("xa,pab,yb->xpy", L, x, R)
    H = apply_H(psi.reshape([q[j] for j in range(1, N + 1)]), ham, N, k).reshape(psi.shape)
    return np.einsum("xa,xpy,yb->pab", L.conj(), H, R.conj())


def Ks(s, ham, n, width, k, N):
    """energy of the blocks; None as well when no term fits"""
    KL = K_left(s, ham, n - 1, k) if n - 1 >= 1 else None
    KR = K_right(s, ham, n + width, k) if n + width <= N else None
    return KL, KR


def mpo_envs(A, M, N, n, width):
    """mL[a', m, a] and mR[b, m, b'] environments"""
    HL = np.ones((1, 1, 1), dtype=complex)
    for j in range(1, n):
        HL = np.einsum("xma,mnst,txy->snya" if False else "xma,mnst,tab,sxy->ynb", HL, M[j], A[j], A[j].conj())
    HR = np.ones((1, 1, 1), dtype=complex)
    for j in range(N, n + width - 1, -1):
        HR = np.einsum("bnv,mnst,tab,sxv->amx", HR, M[j], A[j], A[j].conj())
    return HL, HR


def lib_mpo_envs(s, M, n, width, N):
    """the library's own environments"""
    import evoMPS.tdvp_common as tm
    HL, HR = np.eye(1, dtype=complex), np.eye(1, dtype=complex)
    x = s if hasattr(s, "calc_MPO_l") else None
    if x is None:
        x = tg.EvoMPS_TDVP_Generic.__new__(tg.EvoMPS_TDVP_Generic)
        x.A, x.N, x.typ = s.A, s.N, s.typ
    for j in range(1, n):
        HL = x.calc_MPO_l(tm.apply_MPO_local(M[j], s.A[j]), j, HL)
    for j in range(N, n + width - 1, -1):
        HR = x.calc_MPO_rm1(tm.apply_MPO_local(M[j], s.A[j]), j, HR)
    return HL, HR


@case("C15", 4)
def one_site(t):
    k = t.pick(2, 3)
    s, ham, A, n, N, q, D = chain(t, k, 1)
    L, R = blocks(A, n, 1, N)
    KL, KR = Ks(s, ham, n, 1, k, N)
    tau = t.pick(1.0, 1j, 0.7)
    x = t.c(q[n], D[n - 1], D[n])
    want = H_eff(x, L, R, ham, N, q, k, 1)
    lop = ss.Vari_Opt_Single_Site_Op(s, n, None, None, ham, k, KL, KR, tau=tau)
    t.close("one-site operator (local terms)", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), tau * want)
    M = mpo.from_terms(ham, N, q, k)
    HL, HR = lib_mpo_envs(s, M, n, 1, N)
    lop = ss.Vari_Opt_Single_Site_Op(s, n, None, None, ham, k, KL, KR, tau=tau, HML=HL, HMR=HR, HMn=M[n], use_local_ham=False)
    t.close("one-site operator (matrix product operator)", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), tau * want)
    lop = ss.Vari_Opt_Single_Site_Op(s, n, None, None, ham, k, KL, KR, tau=tau, HML=HL, HMR=HR, HMn=M[n])
    t.close("one-site operator (both)", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), 2 * tau * want)


@case("C15", 4)
def two_site(t):
    k = t.pick(2, 3)
    s, ham, A, n, N, q, D = chain(t, k, 2)
    L, R = blocks(A, n, 2, N)
    KL, KR = Ks(s, ham, n, 2, k, N)
    tau = t.pick(1.0, 1j, 0.7)
    x = t.c(q[n], q[n + 1], D[n - 1], D[n + 1])
    want = H_eff(x.reshape(-1, D[n - 1], D[n + 1]), L, R, ham, N, q, k, 2).reshape(x.shape)
    lop = ss.Vari_Opt_Two_Site_Op(s, n, None, None, ham, k, KL, KR, tau=tau)
    t.close("two-site operator", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), tau * want)


@case("C15", 4)
def bond(t):
    k = t.pick(2, 3)
    N = t.i(max(k, 2), 5)
    q = [0] + [t.i(2, 3) for _ in range(N)]
    D = cap_D(N, rand_D(t, N, q, 4), q)
    n = t.pick(1, N - 1, t.i(1, N - 1))
    ham = rand_ham(t, N, q, k, 0.0)
    cls = t.pick("mps", "tdvp")
    s = mg.EvoMPS_MPS_Generic(N, D, q) if cls == "mps" else tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=k)
    A = [None] + [(left_orth if j <= n else right_orth)(t, q[j], D[j - 1], D[j]) for j in range(1, N + 1)]
    for j in range(1, N + 1):
        s.A[j] = A[j].copy()
    t.note(N=N, D=D, q=q, k=k, n=n, cls=cls)
    L = block_left(A, n)
    L = L.reshape(L.shape[0], -1).T
    R = block_right(A, n + 1, N)
    R = R.reshape(R.shape[0], -1).T
    KL, KR = K_left(s, ham, n, k), K_right(s, ham, n + 1, k)
    G = t.c(D[n], D[n])
    psi = L.dot(G).dot(R.T)
    Hp = apply_H(psi.reshape(q[1:]), ham, N, k).reshape(psi.shape)
    want = L.conj().T.dot(Hp).dot(R.conj())
    tau = t.pick(1.0, 1j, 0.7)
    M = mpo.from_terms(ham, N, q, k)
    HL, _ = lib_mpo_envs(s, M, n + 1, 1, N)
    _, HR = lib_mpo_envs(s, M, n, 1, N)
    if cls == "mps":
        mk = lambda **kw: ss.Vari_Opt_SC_op(s, n, None, None, ham, k, KL, KR, tau=tau, **kw)
    else:
        prep(s, n, KR)
        mk = lambda **kw: tg.Vari_Opt_SC_op(s, n, KL, tau=tau, **kw)
    t.close("bond operator (local terms)", np.asarray(mk().matvec(G.ravel())).reshape(G.shape), tau * want)
    t.close("bond operator (matrix product operator)",
            np.asarray(mk(HML=HL, HMR=HR, use_local_ham=False).matvec(G.ravel())).reshape(G.shape), tau * want)


def prep(s, n, KR):
    """what the sweep of the chain class keeps"""
    import evoMPS.tdvp_common as tm
    s.calc_l()
    s.calc_r()
    for j in range(1, s.N):
        s.AA[j] = tm.calc_AA(s.A[j], s.A[j + 1])
    if n + 1 <= s.N:
        s.K[n + 1] = KR


@case("C15", 3)
def one_site_chain_class(t):
    k = t.pick(2, 3)
    s, ham, A, n, N, q, D = chain(t, k, 1, cls="tdvp")
    L, R = blocks(A, n, 1, N)
    KL, KR = Ks(s, ham, n, 1, k, N)
    prep(s, n, KR)
    tau = t.pick(1.0, 1j)
    x = t.c(q[n], D[n - 1], D[n])
    want = H_eff(x, L, R, ham, N, q, k, 1)
    lop = tg.Vari_Opt_Single_Site_Op(s, n, KL, tau=tau)
    t.close("one-site operator of the chain class", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), tau * want)
    M = mpo.from_terms(ham, N, q, k)
    HL, HR = lib_mpo_envs(s, M, n, 1, N)
    lop = tg.Vari_Opt_Single_Site_Op(s, n, KL, tau=tau, HML=HL, HMR=HR, HMn=M[n], use_local_ham=False)
    t.close("one-site operator of the chain class (MPO)", np.asarray(lop.matvec(x.ravel())).reshape(x.shape), tau * want)


def dense_H(ham, N, q, k):
    d = int(np.prod(q[1:]))
    out = np.zeros((d, d), dtype=complex)
    for j in range(d):
        e = np.zeros(d, dtype=complex)
        e[j] = 1
        out[:, j] = apply_H(e.reshape(q[1:]), ham, N, k).ravel()
    return out


class five_values(object):
    """take_step_split unpacks five of the six values of gexpmv (known finding); the rest of it is examined nevertheless"""

    def __enter__(self):
        import evoMPS.sexpmv as sx
        self.sx, self.f = sx, sx.gexpmv
        f = self.f
        sx.gexpmv = lambda *a, **k: f(*a, **k)[:5]

    def __exit__(self, *a):
        self.sx.gexpmv = self.f


@case("C15", 1)
def take_step_split_runs(t):
    N = t.i(3, 4)
    q = [0] + [2] * N
    D = full_D(N, q)
    ham = rand_ham(t, N, q, 2, 0.0)
    s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=2)
    s.randomize()
    s.update()
    try:
        s.take_step_split(0.05, print_progress=False, tol=1e-8)
    except ValueError as e:
        raise Fail("take_step_split runs", repr(e))
    t.true("runs", True)


@case("C15", 3)
def exact_at_full_bond_dimension(t):
    """at maximal bond dimension every tangent projector is the identity: a step is the exact evolution"""
    k = t.pick(2, 3)
    N = t.i(k, 4)
    q = [0] + [t.i(2, 3) for _ in range(N)] if N < 4 else [0, 2, 2, 2, 2]
    D = full_D(N, q)
    ham = rand_ham(t, N, q, k, 0.0)
    how = t.pick("function", "function", "method")
    s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=k)
    A = rand_A(t, N, D, q)
    for j in range(1, N + 1):
        s.A[j][:] = A[j]
    s.update()
    psi = dense(s.A)
    dtau = t.pick(0.05, 0.1, 0.05j, 0.1j)
    use_mpo = t.flag(0.4)
    M = mpo.from_terms(ham, N, q, k) if use_mpo else None
    two = how == "function" and not use_mpo and t.flag(0.5)
    t.note(N=N, q=q, D=D, k=k, dtau=dtau, how=how, mpo=use_mpo, two=two)
    H = dense_H(ham, N, q, k)
    want = la.expm(-dtau * H).dot(psi.ravel()).reshape(psi.shape)
    if how == "method":
        def go(x):
            quiet(lambda: x.take_step_split(dtau, HMPO=M, use_local_ham=not use_mpo, print_progress=False, tol=1e-9))
            return x
        s0 = copy.deepcopy(s)
        try:
            go(s)
        except ValueError:
            with five_values():
                s = go(s0)
    else:
        kw = dict(two_site=True, D_max=max(D), min_schmidt=1e-14) if two else {}
        quiet(lambda: ss.evolve_split(s, ham, k, dtau, 1, HMPO=M, use_local_ham=not use_mpo, print_progress=False,
                                      tol=1e-9, expm_max_steps=1000, **kw))
    got = dense(s.A)
    t.close("norm", la.norm(got), 1.0, 1e-8)
    want = want / la.norm(want)
    if how == "method":                     # drops the phase of the last site's gauge factor
        z = vdot(got, want)
        want = want * abs(z) / z
    t.close("split step at full bond dimension is the exact evolution", got, want, 1e-6)
    if how == "method":
        t.close("H_expect after the step", s.H_expect, vdot(got, H.dot(got.ravel())), 1e-6)


@case("C15", 2)
def sweep_energy(t):
    """optimising sweep: the energy does not rise, the reported one is right"""
    k = t.pick(2, 3)
    N = t.i(max(k, 3), 5)
    q = [0] + [t.i(3, 3) for _ in range(N)] if N < 5 else [0] + [t.i(2, 3) for _ in range(N)]
    D = cap_D(N, [1] + [t.i(2, 4) for _ in range(N - 1)] + [1], q)
    ham = rand_ham(t, N, q, k, 0.0)
    s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=k)
    A = rand_A(t, N, D, q)
    for j in range(1, N + 1):
        s.A[j][:] = A[j]
    s.update()
    E0 = s.H_expect.real
    use_mpo = t.flag(0.4)
    M = mpo.from_terms(ham, N, q, k) if use_mpo else None
    t.note(N=N, q=q, D=D, k=k, mpo=use_mpo)
    if any(s.A[j].size < 6 for j in range(1, N + 1)):
        raise Skip()
    quiet(lambda: s.vari_opt_ss_sweep(HMPO=M, use_local_ham=not use_mpo))
    psi = dense(s.A)
    t.close("norm", la.norm(psi), 1.0, 1e-8)
    E = vdot(psi, apply_H(psi, ham, N, k))
    t.close("H_expect after the sweep", s.H_expect, E, 1e-8)
    t.true("energy does not rise", E.real <= E0 + 1e-8, "%g -> %g" % (E0, E.real))


@case("C15", 2)
def dmrg_sweep(t):
    """density-matrix style sweeps: normalised, the energy does not rise, and the last step leaves the lowest
    eigenvector of the Hamiltonian compressed between the surrounding block states"""
    k = t.pick(2, 3)
    N = t.pick(3, 3, 4)
    q = [0] + [3] * N if N < 4 else [0, 3, 2, t.i(2, 3), 3]
    two = t.flag(0.5)
    full = full_D(N, q)
    D = cap_D(N, [1] + [t.i(2, 4) for _ in range(N - 1)] + [1], q)
    ham = rand_ham(t, N, q, k, 0.0)
    s = tg.EvoMPS_TDVP_Generic(N, D, q, ham, ham_sites=k)
    A = rand_A(t, N, D, q)
    for j in range(1, N + 1):
        s.A[j][:] = A[j]
    s.update()
    E0 = s.H_expect.real
    use_mpo = not two and t.flag(0.4)
    M = mpo.from_terms(ham, N, q, k) if use_mpo else None
    Dm = max(full) if t.flag() else max(D)
    t.note(N=N, q=q, D=D, k=k, mpo=use_mpo, two=two, Dm=Dm)
    sizes = [s.A[j].size for j in range(1, N + 1)]
    if min(sizes) < 6:
        raise Skip()
    kw = dict(two_site=True, D_max=Dm, min_schmidt=1e-14) if two else {}
    quiet(lambda: ss.evolve_split(s, ham, k, 0, 1, DMRG=True, HMPO=M, use_local_ham=not use_mpo, print_progress=False,
                                  tol=1e-10, ncv=min(5, min(sizes) - 1) if two else min(min(sizes) - 1, 10), **kw))
    psi = dense(s.A)
    t.close("norm", la.norm(psi), 1.0, 1e-8)
    Hd = dense_H(ham, N, q, k)
    E = np.vdot(psi.ravel(), Hd.dot(psi.ravel())).real
    if not two or Dm == max(full):
        t.true("energy does not rise", E <= E0 + 1e-7, "%g -> %g" % (E0, E))
        m = 2 if two else 1
        R = block_right(s.A, m + 1, N)
        R = R.reshape(R.shape[0], -1)
        P = np.kron(np.eye(int(np.prod(q[1:m + 1]))), R.T)
        t.close("right block states orthonormal", P.conj().T.dot(P), np.eye(P.shape[1]), 1e-8)
        w = la.eigvalsh(P.conj().T.dot(Hd).dot(P))
        t.close("lowest compressed energy", E, w[0], 1e-6)
    if two:
        t.true("bond dimensions within the limit", max(s.D) <= Dm, list(s.D))
