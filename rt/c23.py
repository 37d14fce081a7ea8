"""C23 dissipative steps"""
import copy
import numpy as np
import scipy.linalg as la
from .lib import *


def system(t, Nhi=4, real=None, form=None):
    import evoMPS.tdvp_gen_diss as td
    k = t.pick(2, 2, 3)
    N = t.i(k, Nhi)
    q = rand_q(t, N, hi=3)
    q = [q[0]] + [max(2, min(x, 3 if k == 2 else 2)) for x in q[1:]]
    D = cap_D(N, rand_D(t, N, q, 3), q)
    ham = rand_ham(t, N, q, k, 0.3)
    form = form or t.pick("list", "list", "function", "none")
    if form == "none":
        ham = [None] * (N + 1)
        arg = None
    elif form == "function":
        arg = lambda n, *i: 0 if ham[n] is None else ham[n][tuple(int(x) for x in i)]
    else:
        arg = ham
    linds = []
    for _ in range(t.i(0, 3)):
        n = t.i(1, N - k + 1)
        d = q[n:n + k]
        L = t.real(*(d + d)) if (t.flag() if real is None else real) else t.op(*(d + d))
        linds.append((n, 0.5 * L))
    if form == "list" and t.flag(0.2):
        ns = [n for n in range(1, N - k + 2) if ham[n] is not None]
        if ns:
            n = t.pick(*ns)
            linds.append((n, ham[n]))       # the very object
    s = td.EvoMPS_TDVP_Generic_Dissipative(N, D, q, arg, linds, ham_sites=k)
    for n in range(1, N + 1):
        s.A[n][:] = t.c(*s.A[n].shape)
    s.gauge_fixing = t.pick("right", "left")
    s.canonical_form = s.gauge_fixing
    t.note(N=N, D=D, q=q, k=k, form=form, gauge=s.gauge_fixing, linds=[n for n, _ in linds])
    return s, ham, linds, k


def pieces(s, ham, linds, k):
    """(A, tangent projection of the drift, of every jump operator)"""
    N = s.N
    A = [None] + [np.array(s.A[n]) for n in range(1, N + 1)]
    psi = dense(A, N)
    J = tangent_space(A, N)

    def P(v):
        v = project(J, v)
        return v - psi * vdot(psi, v)
    f = lambda v, L, n: apply_op(v, L, [n - 1 + j for j in range(k)])
    drift = -1j * apply_H(psi, ham, N, k)
    jumps = []
    for n, L in linds:
        d = int(round(np.sqrt(L.size)))
        Ld = L.reshape(d, d).conj().T.reshape(L.shape)
        Lpsi = f(psi, L, n)
        e = vdot(psi, Lpsi)
        drift = drift + np.conj(e) * Lpsi - 0.5 * f(Lpsi, Ld, n)
        jumps.append(P(Lpsi))
    return A, P(drift), jumps


def increments(s, A, drift, jumps, dt):
    """noise increments that explain the step, and what is left over"""
    N = s.N
    B = [None] + [np.array(s.A[n]) - A[n] for n in range(1, N + 1)]
    v = tangent_vector(A, B, N) - dt * drift
    if not jumps:
        return np.zeros(0), v
    M = np.array([j.ravel() for j in jumps]).T
    sc = la.norm(M, axis=0)
    use = sc > 1e-9
    W = np.zeros(len(jumps), complex)
    if use.any():
        x, _, rank, _ = la.lstsq(M[:, use] / sc[use], v.ravel())
        W[use] = x / sc[use]
        if rank < use.sum():
            W = None
    rest = v - (M.dot(W).reshape(v.shape) if W is not None else project(M, v))
    return W, rest


@case("C23", 4)
def step(t):
    s, ham, linds, k = system(t)
    s.update()
    if not good(s, 1e-3):
        raise Skip()
    dt = t.pick(1e-3, 0.02, 0.5)
    t.note(dt=dt)
    ham0 = s.ham
    hc = copy.deepcopy(ham0) if isinstance(ham0, list) else None
    Lc = [(n, L.copy()) for n, L in linds]
    kw = {}
    if t.flag(0.3):
        kw["save_memory"] = True
    for rep in range(t.pick(1, 2, 3)):
        A, drift, jumps = pieces(s, ham, linds, k)
        if rep and not good(s, 1e-3):
            raise Skip()
        s.take_step_dissipative(dt, **kw)
        W, rest = increments(s, A, drift, jumps, dt)
        t.close("the step is drift plus noise", rest, np.zeros_like(rest), 1e-7)
        t.true("the stored Hamiltonian is the one from before", s.ham is ham0)
        if hc is not None:
            for a, b in zip(hc, ham0):
                t.true("missing terms stay missing", (a is None) == (b is None))
                if a is not None:
                    t.close("the terms of the Hamiltonian are untouched", b, a, 0)
        for (n, L), (m, L0) in zip(s.linds, Lc):
            t.true("jump operator positions are untouched", n == m)
            t.close("jump operators are untouched", L, L0, 0)
            t.true("jump operators keep their type", L.dtype == L0.dtype)
        t.true("number of jump operators", len(s.linds) == len(Lc))
        if W is not None and len(W):
            t.true("increments of a plausible size", np.all(abs(W) < 8 * np.sqrt(dt)))
        s.update()
        # and the state can still be measured
        psi = dense([None] + [np.array(s.A[n]) for n in range(1, s.N + 1)], s.N)
        for n in range(1, s.N - k + 2):
            o = t.hop(int(np.prod(s.q[n:n + k])), list(s.q[n:n + k]) * 2)
            f = s.expect_2s if k == 2 else s.expect_3s
            t.close("expectation values after the update", f(o, n), vdot(psi, apply_op(psi, o, [n - 1 + j for j in range(k)])), 1e-7)
            if isinstance(ham0, list) and ham[n] is not None:
                t.close("expectation value of a term after the update", f(s.ham[n], n),
                        vdot(psi, apply_op(psi, ham[n], [n - 1 + j for j in range(k)])), 1e-7)


@case("C23", 1)
def noise(t):
    """statistics of the increments of many steps from the same state"""
    s, ham, linds, k = system(t, Nhi=3, form="list")
    linds = [x for x in linds if not any(x[1] is h for h in ham)]
    s.linds = linds
    s.update()
    if not good(s, 1e-3) or not linds:
        raise Skip()
    dt = t.pick(1e-2, 0.3)
    A, drift, jumps = pieces(s, ham, linds, k)
    M = np.array([j.ravel() for j in jumps]).T
    sv = la.svd(M / np.maximum(la.norm(M, axis=0), 1e-12), compute_uv=False)
    if la.norm(M, axis=0).min() < 1e-3 or sv[-1] < 1e-2 or M.shape[0] < M.shape[1]:
        raise Skip()
    n = 400
    Ws = []
    for i in range(n):
        for m in range(1, s.N + 1):
            s.A[m][:] = A[m]
        s.take_step_dissipative(dt)
        W, rest = increments(s, A, drift, jumps, dt)
        Ws.append(W)
    W = np.array(Ws) / np.sqrt(dt)
    t.note(dt=dt, linds=len(linds))
    # 6 sigma of the estimators of a standard complex Gaussian
    lim = 6 / np.sqrt(n)
    C = W.T.dot(W.conj()) / n
    t.true("the increments have mean zero", np.all(abs(W.mean(axis=0)) < lim), W.mean(axis=0))
    t.true("variance of the increments is the step size, jumps are independent", np.all(abs(C - np.eye(len(linds))) < 1.5 * lim), C)
    t.true("real and imaginary parts are independent and alike", np.all(abs(W.T.dot(W) / n) < 1.5 * lim), W.T.dot(W) / n)
    t.true("successive increments are independent", np.all(abs(W[1:].T.dot(W[:-1].conj()) / n) < 1.5 * lim))
    k4 = (abs(W) ** 4).mean(axis=0)
    t.true("increments are Gaussian (fourth moment)", np.all(abs(k4 - 2) < 8 * np.sqrt(20.0 / n)), k4)


@case("C23", 1)
def closed(t):
    """without jump operators the step is a Schroedinger step"""
    s, ham, linds, k = system(t)
    s.linds = []
    s.update()
    if not good(s, 1e-3):
        raise Skip()
    dt = 0.1
    A, drift, _ = pieces(s, ham, [], k)
    s.take_step_dissipative(dt)
    B = [None] + [np.array(s.A[n]) - A[n] for n in range(1, s.N + 1)]
    t.close("drift of a closed system", tangent_vector(A, B, s.N), dt * drift, 1e-8)


@case("C23", 2)
def expand(t):
    """with bond expansion the old blocks change as without"""
    s, ham, linds, k = system(t, Nhi=3)
    s.update()
    if not good(s, 1e-3) or s.N < 3:
        raise Skip()
    dt = 0.05
    A, drift, jumps = pieces(s, ham, linds, k)
    D0 = list(s.D)
    s.take_step_dissipative(dt, dynexp=True, dD_max=t.pick(1, 4))
    class O(object):
        pass
    o = O()
    o.N = s.N
    o.A = [None] + [s.A[n][:, :D0[n - 1], :D0[n]] for n in range(1, s.N + 1)]
    W, rest = increments(o, A, drift, jumps, dt)
    t.close("the old blocks are drift plus noise", rest, np.zeros_like(rest), 1e-7)
    s.update()
    A, drift, jumps = pieces(s, ham, linds, k)
    if good(s, 1e-3):
        s.take_step_dissipative(dt)
        W, rest = increments(s, A, drift, jumps, dt)
        t.close("the next step is drift plus noise", rest, np.zeros_like(rest), 1e-7)
