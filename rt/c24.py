"""C24 comparing, blocking, truncating and enlarging uniform states"""
import copy
import io, contextlib
import numpy as np
import scipy.linalg as la
from .lib import *
from .ulib import *


def gauge(t, D):
    u, v = t.unitary(D), t.unitary(D)
    return u.dot(np.diag(0.5 + t.rng.rand(D))).dot(v)


def transformed(t, A, phases=True):
    """a gauge-transformed copy with phases"""
    L, D = len(A), A[0].shape[1]
    g = [gauge(t, D) for _ in range(L)]
    out = []
    for k in range(L):
        ph = np.exp(2j * np.pi * t.rng.rand()) if phases else 1
        out.append(ph * np.einsum("ab,sbc,cd->sad", la.inv(g[k - 1]), A[k], g[k], optimize=True))
    return out


def like(t, s, A, tdvp=False, h=None):
    """a state object with tensors A"""
    import evoMPS.mps_uniform as mu
    import evoMPS.tdvp_uniform as tu
    q, D = A[0].shape[:2]
    if tdvp:
        o = tu.EvoMPS_TDVP_Uniform(D, q, h, L=len(A), do_update=False)
    else:
        o = mu.EvoMPS_MPS_Uniform(D, q, L=len(A), do_update=False)
    for k in range(len(A)):
        o.A[k][:] = A[k]
    o.symm_gauge = t.flag()
    o.update(restore_CF=t.flag())
    return o


def mixed_top(A, B):
    L = np.lcm(len(A), len(B))
    E = block_E(list(A) * (L // len(A)), list(B) * (L // len(B)))
    w = la.eigvals(E)
    return w[np.argmax(abs(w))], L


def opts(t, D, D2):
    o = {}
    if t.flag(0.4):
        o["left"] = True
    if t.flag(0.3):
        o["force_sparse"] = True
    elif t.flag(0.2):
        o["force_dense"] = True
    elif t.flag(0.2):
        o["dense_cutoff"] = 3
    t.note(opts=o)
    return o


@case("C24", 4)
def fidelity_copy(t):
    s = mk_uni(t, Dhi=4)
    A = arrs(s.A)
    B = transformed(t, A)
    m = t.i(1, 2)
    o = like(t, s, B * m)
    f = s.fidelity_per_site(o, **opts(t, s.D, o.D))
    t.close("fidelity with a gauge-transformed copy", f[0], 1.0, 1e-7)
    t.close("fidelity with itself", s.fidelity_per_site(s)[0], 1.0, 1e-7)


@case("C24", 4)
def fidelity_pair(t):
    q = t.i(2, 3)
    a, b = mk_uni(t, q=q, Dhi=4), mk_uni(t, q=q, Dhi=4)
    A, B = arrs(a.A), arrs(b.A)
    w, L = mixed_top(A, B)
    E = block_E(A * (L // len(A)), B * (L // len(B)))
    ev = sorted(abs(la.eigvals(E)))
    if len(ev) > 1 and ev[-2] > 0.93 * ev[-1]:
        raise Skip()
    if abs(w) < 1e-5:
        raise Skip()
    op = opts(t, a.D, b.D)
    r = a.fidelity_per_site(b, **op)
    t.close("fidelity per site", r[0], abs(w) ** (1.0 / L), 1e-6)
    t.close("modulus of the largest eigenvalue", abs(r[1]), abs(w), 1e-6)
    d, w2, V = a.fidelity_per_site(b, full_output=True, **op)
    t.close("fidelity per site (full output)", d, abs(w) ** (1.0 / L), 1e-6)
    V = np.asarray(V).reshape(-1)
    M = E.conj().T if op.get("left") else E
    t.close("fixed point of the mixed transfer map", M.dot(V), np.vdot(V, M.dot(V)) / np.vdot(V, V) * V, 1e-6)
    t.close("it belongs to the largest eigenvalue", abs(np.vdot(V, M.dot(V)) / np.vdot(V, V)), abs(w), 1e-6)


def measures(t, s, ops):
    """expectation values by the code"""
    out = []
    for k in range(s.L):
        out += [s.expect_1s(ops[0], k), s.expect_2s(ops[1], k), s.expect_3s(ops[2], k)]
    return np.array(out)


def rand_ops(t, q):
    return [t.hop(q), t.hop(q * q, [q] * 4), t.hop(q ** 3, [q] * 6)]


def oracle(A, ops):
    e = uenvs(A)
    return np.array([uexpect(A, o, k, n + 1, e) for k in range(len(A)) for n, o in enumerate(ops)])


@case("C24", 3)
def phase_align(t):
    q = t.i(2, 3)
    tdvp = t.flag(0.4)
    if tdvp:
        a, h = mk_utdvp(t, q=q, k=2, Dhi=3)
    else:
        a = mk_uni(t, q=q, Dhi=4)
    b = mk_uni(t, q=q, Dhi=4)
    A0 = arrs(a.A)
    w, L = mixed_top(A0, arrs(b.A))
    E = block_E(A0 * (L // len(A0)), arrs(b.A) * (L // b.L))
    ev = sorted(abs(la.eigvals(E)))
    if abs(w) < 1e-4 or (len(ev) > 1 and ev[-2] > 0.93 * ev[-1]):
        raise Skip()
    ops = rand_ops(t, q)
    want = measures(t, a, ops)
    phi = a.phase_align(b)
    w1, _ = mixed_top(arrs(a.A), arrs(b.A))
    t.close("the largest overlap eigenvalue becomes positive", w1, abs(w), 1e-7)
    c = 1
    for k in range(a.L):
        x = np.vdot(A0[k], a.A[k]) / np.vdot(A0[k], A0[k])
        t.close("a phase of modulus one", abs(x), 1.0, 1e-9)
        t.close("the tensor changes by a phase only", a.A[k], x * A0[k], 1e-9)
    t.close("returned phase", phi / abs(phi), w / abs(w), 1e-7)
    t.close("expectation values stay", measures(t, a, ops), want, 1e-9)
    if tdvp:
        B0 = a.calc_B()
        a.update(restore_CF=False)
        B1 = a.calc_B()
        for k in range(a.L):
            t.close("the tangent vector follows", B0[k], B1[k], 1e-6)


@case("C24", 3)
def gauge_align(t):
    q = t.i(2, 3)
    tdvp = t.flag(0.4)
    if tdvp:
        a, h = mk_utdvp(t, q=q, k=2, Dhi=3, form="array")
    else:
        a = mk_uni(t, q=q, Dhi=4)
    if not ugood(a, 1e-3):
        raise Skip()
    A0 = arrs(a.A)
    b = like(t, a, transformed(t, A0))
    if not ugood(b, 1e-3):
        raise Skip()
    Bk = arrs(b.A)
    ops = rand_ops(t, q)
    want = measures(t, a, ops)
    res = a.gauge_align(b, tol=1e-8)
    t.true("a copy is recognised", res is not None)
    g, gi, phi = res
    for k in range(a.L):
        t.close("the tensors become those of the other state", a.A[k], Bk[k], 1e-6)
        t.close("the inverse is the inverse", g[k].dot(gi[k]), np.eye(a.D), 1e-7)
        t.close("the other state is left alone", b.A[k], Bk[k], 0)
    # the transformation returned does it
    ph = phi.conj() / abs(phi)
    for k in range(a.L):
        t.close("returned gauge transformation", np.einsum("ab,sbc,cd->sad", gi[k - 1], A0[k], g[k]) * (ph if k == 0 else 1), a.A[k], 1e-6)
    for k in range(a.L):
        A = arrs(a.A)
        t.close("left environments follow", np.einsum("sab,ac,scd->bd", A[k].conj(), dn(a.l[k - 1]), A[k]), dn(a.l[k]), 1e-6)
        t.close("right environments follow", np.einsum("sab,bd,scd->ac", A[k], dn(a.r[k]), A[k].conj()), dn(a.r[k - 1]), 1e-6)
    t.close("expectation values stay", measures(t, a, ops), want, 1e-6)
    if tdvp:
        h0 = a.h_expect
        B0, e0 = a.calc_B(), a.eta
        a.update(restore_CF=False)
        B1 = a.calc_B()
        t.close("energy", a.h_expect, h0, 1e-7)
        t.close("norm of the tangent vector", a.eta, e0, 1e-5)


@case("C24", 1)
def gauge_align_other(t):
    q = t.i(2, 3)
    a, b = mk_uni(t, q=q, L=1, D=3), mk_uni(t, q=q, L=1, D=3)
    A0 = arrs(a.A)
    if abs(mixed_top(A0, arrs(b.A))[0]) > 0.99:
        raise Skip()
    t.true("different states are not aligned", a.gauge_align(b) is None)
    t.close("nothing changes", a.A[0], A0[0], 0)


@case("C24", 3)
def blocked(t):
    tdvp = t.flag(0.4)
    h = None
    if tdvp:
        s, h = mk_utdvp(t, q=2, k=t.pick(2, 3), Dhi=3, L=t.i(1, 3))
    else:
        s = mk_uni(t, q=2, Dhi=4)
    A = arrs(s.A)
    L, q = s.L, s.q
    n = s.ham_sites if tdvp else 0
    if tdvp:
        e0 = s.h_expect
    s.convert_to_TI_blocked()
    t.true("one block per site", s.L == 1 and s.q == q ** L and s.A[0].shape[0] == q ** L)
    o = t.hop(q ** L)
    t.close("expectation values within a block", s.expect_1s(o), uexpect(A, o, 0, L), 1e-7)
    o = t.hop(q ** (2 * L))
    t.close("expectation values across two blocks", s.expect_2s(o.reshape([q ** L] * 4)), uexpect(A, o, 0, 2 * L), 1e-7)
    rho = urdm(arrs(s.A), 0, 1)
    t.close("reduced density matrix", rho, urdm(A, 0, L), 1e-7)
    if tdvp and L > 1:
        # the energy of a block is the sum of the terms that start in it
        t.close("energy per block", s.h_expect, L * e0, 1e-6)
        hd = sum(np.kron(np.kron(np.eye(q ** k), h.reshape(q ** n, -1)), np.eye(q ** (2 * L - k - n))) for k in range(L))
        Q = q ** L
        t.true("the Hamiltonian becomes nearest-neighbour", s.ham_sites == 2)
        t.close("Hamiltonian of two blocks", s.ham, hd.reshape(Q, Q, Q, Q), 1e-9)


@case("C24", 2)
def enlarge_q(t):
    s = mk_uni(t)
    A = arrs(s.A)
    off = t.i(0, 2)
    nq = s.q + off + t.i(0, 2)
    s.set_q(nq, offset=off) if off or t.flag() else s.set_q(nq)
    t.true("local dimension", s.q == nq)
    q = A[0].shape[0]
    for k in range(s.L):
        want = np.zeros((nq,) + A[k].shape[1:], complex)
        want[off:off + q] = A[k]
        t.close("the old tensors are embedded and the rest is zero", s.A[k], want, 0)
    s.update()
    w, L = mixed_top(arrs(s.A), [np.concatenate([np.zeros((off,) + a.shape[1:]), a, np.zeros((nq - q - off,) + a.shape[1:])]) for a in A])
    t.close("the state is the embedded one", abs(w), 1.0, 1e-7)


@case("C24", 1)
def shrink_q(t):
    s = mk_uni(t, q=3)
    A = arrs(s.A)
    nq = t.i(1, 3)
    off = t.i(0, 3 - nq)
    s.set_q(nq, offset=-off)
    for k in range(s.L):
        t.close("the remaining components are kept", s.A[k], A[k][off:off + nq], 0)


@case("C24", 2)
def enlarge_D(t):
    tdvp = t.flag(0.4)
    s = mk_utdvp(t)[0] if tdvp else mk_uni(t)
    A = arrs(s.A)
    D = s.D
    nD = D + t.i(0, 3)
    l, r = [dn(x) for x in s.l], [dn(x) for x in s.r]
    zero = t.flag(0.7)
    if zero:
        s.expand_D(nD, refac=0, imfac=0)
    else:
        s.expand_D(nD, refac=t.pick(1, 100), imfac=t.pick(0, 5))
    t.true("bond dimension", s.D == nD and s.A[0].shape[1:] == (nD, nD))
    for k in range(s.L):
        t.close("the old tensors are embedded", s.A[k][:, :D, :D], A[k], 0)
        t.close("no direct couplings among the new directions", s.A[k][:, D:, D:], np.zeros((s.q, nD - D, nD - D)), 0)
        if zero:
            t.close("zero fill", s.A[k][:, D:, :], np.zeros((s.q, nD - D, nD)), 0)
            t.close("zero fill", s.A[k][:, :D, D:], np.zeros((s.q, D, nD - D)), 0)
        elif nD > D:
            t.true("some amplitude in the new directions", la.norm(s.A[k][:, :D, D:]) > 0 and la.norm(s.A[k][:, D:, :D]) > 0)


@case("C24", 1)
def refuse_smaller(t):
    s = mk_uni(t, D=3)
    A = arrs(s.A)
    s.expand_D(2)
    t.true("no shrinking by expand_D", s.D == 3)
    for k in range(s.L):
        t.close("tensors stay", s.A[k], A[k], 0)


@case("C24", 3)
def truncate(t):
    s = mk_uni(t, D=t.i(2, 5))
    A = arrs(s.A)
    D = s.D
    n = t.i(1, D - 1)
    lam = []
    for k in range(s.L):
        v = np.array(s.schmidt_sq(k)).real
        lam.append(v)
    if any(len(v) != D for v in lam):
        raise Skip()
    upd = t.flag(0.4)
    keep = [np.sort(np.argsort(-v)[:n]) for v in lam]
    if any(abs(np.sort(v)[-n] - np.sort(v)[-n - 1]) < 1e-9 for v in lam):
        raise Skip()
    s.truncate(n, update=False)
    t.true("bond dimension", s.D == n)
    for k in range(s.L):
        want = A[k][:, keep[k - 1]][:, :, keep[k]]
        t.close("the leading Schmidt directions are kept", s.A[k], want, 0)
        t.close("their weights are kept", np.array(s.schmidt_sq(k)).real, lam[k][keep[k]], 1e-12)
    if upd:
        s.update()
        t.close("normalised", fixed_points(arrs(s.A))[0], 1.0, 1e-8)


@case("C24", 2)
def auto_truncate(t):
    """a state that does not use all of its bond dimension"""
    s0 = mk_uni(t, D=t.i(1, 3))
    A0 = arrs(s0.A)
    D = s0.D
    n = D + t.i(1, 2)
    import evoMPS.mps_uniform as mu
    s = mu.EvoMPS_MPS_Uniform(n, s0.q, L=s0.L, do_update=False)
    s.symm_gauge = t.flag()
    g = [gauge(t, n) for _ in range(s0.L)]
    for k in range(s0.L):
        X = np.zeros((s0.q, n, n), complex)
        X[:, :D, :D] = A0[k]
        s.A[k][:] = np.einsum("ab,sbc,cd->sad", la.inv(g[k - 1]), X, g[k])
    t.note(n=n, symm=s.symm_gauge)
    s.zero_tol = 1e-10
    s.update(auto_truncate=True)
    if not all(np.all(np.isfinite(a)) for a in s.A):
        raise Skip()
    w, L = mixed_top(arrs(s.A), A0)
    t.close("the state stays", abs(w), 1.0, 1e-5)
    t.true("superfluous directions go", s.D == D)


def resized(t):
    """loading a state of other dimensions with the enlarging / shrinking options"""
    import evoMPS.tdvp_uniform as tu
    s, h = mk_utdvp(t, form="array", D=t.i(1, 3), q=2, k=2)
    how = t.pick("expand", "truncate", "expand_q", "shrink_q")
    L, q, D = s.L, s.q, s.D
    A = arrs(s.A)
    if how == "truncate":
        if D < 2:
            raise Skip()
        lam = [np.array(s.schmidt_sq(k)).real for k in range(L)]
    if how == "shrink_q":
        # the components that go are not occupied
        s, h = mk_utdvp(t, form="array", D=D, q=2, k=2, L=L)
        A = arrs(s.A)
        s.set_q(3)
        s.K = [np.zeros((D, D), complex) for _ in range(L)] if not isinstance(s.K, list) else s.K
    state = copy.deepcopy(s.export_state(userdata="ud"))
    nD = D + t.i(0 if how == "expand" else 1, 2) if how == "expand" else (t.i(1, D - 1) if how == "truncate" else D)
    nq = q + t.i(1, 2) if how == "expand_q" else q
    h2 = t.hop(nq * nq, [nq] * 4) if how == "expand_q" else h
    o = tu.EvoMPS_TDVP_Uniform(nD, nq, h2, ham_sites=2, L=L)
    o.set_ham(h2, ham_sites=2)
    o.symm_gauge = s.symm_gauge
    zero = how != "expand" or t.flag()
    t.note(how=how, nD=nD, nq=nq, zero=zero)
    kw = dict(refac=0, imfac=0) if how == "expand" and zero else {}
    res = o.import_state(state, do_update=False, **{how: True}, **kw)
    t.true("the import succeeds", res is True)
    t.true("the dimensions are the object's own", (o.L, o.q, o.D) == (L, nq, nD))
    t.true("the user data comes along", str(o.userdata) == "ud")
    if how == "truncate":
        t.true("bond dimension", all(a.shape == (nq, nD, nD) for a in o.A))
        t.close("normalised", fixed_points(arrs(o.A))[0], 1.0, 1e-8)
        p = copy.deepcopy(s)
        p.update()
        p.truncate(nD, update=True)
        if any(abs(np.sort(v)[-nD] - np.sort(v)[-nD - 1]) < 1e-6 for v in lam):
            raise Skip()
        w, _ = mixed_top(arrs(o.A), arrs(p.A))
        t.close("the state is the truncated one", abs(w), 1.0, 1e-6)
        return
    for k in range(L):
        want = np.zeros((nq, nD, nD), complex)
        want[:min(q, nq), :D, :D] = A[k][:nq]
        if zero:
            t.close("the tensors are embedded", o.A[k], want, 0)
        else:
            t.close("the tensors are embedded", o.A[k][:, :D, :D], want[:, :D, :D], 0)
    if how != "expand":
        o.update()
        w, _ = mixed_top([a[:2] if how == "expand_q" else a for a in arrs(o.A)], A)
        t.close("the state is the one loaded", abs(w), 1.0, 1e-7)
        q1 = min(q, nq)
        op = t.op(q1, q1)
        big = np.zeros((nq, nq), complex)
        big[:q1, :q1] = op
        for k in range(L):
            t.close("the same expectation values", o.expect_1s(big, k), uexpect([a[:q1] for a in A], op, k, 1), 1e-6)


@case("C24", 2)
def resized_on_import(t):
    quiet(lambda: resized(t))
