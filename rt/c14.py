"""C14 integrator steps"""
import copy
import numpy as np
from .lib import *
from .ulib import mk_utdvp


def step(t):
    """real, imaginary, generic and almost-real / almost-imaginary steps of either sign"""
    return complex(t.pick(1e-3, 0.05, 0.2) * t.pick(1, 1j, 1j, -1, -1j, 0.6 + 0.8j, -0.6 + 0.8j, 1 + 5e-5j, 1j - 5e-5, 1 - 1e-3j, 1j + 1e-3))


def cpA(A, N):
    return [None] + [np.array(A[n]) for n in range(1, N + 1)]


def finite(t):
    s, ham = mk_tdvp(t, Nhi=5, hi=4)
    # without canonical form: the state the user hands over
    if t.flag(0.7):
        s.update()
    else:
        s.update(restore_CF=False)
    return s


def given_kept(t, G, B):
    """the caller's own tensors"""
    for a, b in zip(G, B):
        t.true("a given tangent vector is left alone", (a is None) == (b is None))
        if a is not None and b is not None:
            t.close("a given tangent vector is left alone", a, b, 0)


def sane(s):
    if not good(s, 1e-5):
        raise Skip()


@case("C14", 4)
def euler_finite(t):
    s = finite(t)
    sane(s)
    dtau = step(t) if t.flag(0.85) else 0.0
    ref = copy.deepcopy(s)
    B = ref.calc_B()
    A0 = cpA(s.A, s.N)
    mode = t.pick("plain", "memory", "given", "second")
    t.note(mode=mode, dtau=dtau)
    if mode == "plain":
        s.take_step(dtau)
    elif mode == "memory":
        s.take_step(dtau, save_memory=True)
    elif mode == "given":
        B = [None] + [None if t.flag(0.2) else t.c(*A0[n].shape) for n in range(1, s.N + 1)]
        G = [None if b is None else b.copy() for b in B]
        s.take_step(dtau, B=G)
        given_kept(t, G, B)
    else:
        if s.gauge_fixing == "left" or s.N < 2 or (s.ham_sites == 3) or any(True for n in range(1, s.N) if (callable(s.ham) is False and s.ham[n] is None)):
            raise Skip()
        s.take_step(dtau, calc_Y_2s=True)
    for n in range(1, s.N + 1):
        if B[n] is None:
            t.close("stationary sites are left alone", s.A[n], A0[n], 0)
        else:
            t.close("one Euler step subtracts the step times the tangent vector", s.A[n], A0[n] - dtau * B[n], 1e-9)


def stage(s, dA, upd):
    """tangent evaluation at the state displaced by dA"""
    r = copy.deepcopy(s)
    for n, d in dA:
        r.A[n] = np.array(r.A[n]) + d
    upd(r)
    return r


@case("C14", 4)
def rk4_finite(t):
    s = finite(t)
    sane(s)
    dtau = step(t) if t.flag(0.85) else 0.0
    N = s.N
    A0 = cpA(s.A, N)
    z = [None] + [np.zeros_like(A0[n]) for n in range(1, N + 1)]
    d0 = lambda B: [z[n] if n == 0 or B[n] is None else np.array(B[n]) for n in range(N + 1)]
    upd = lambda r: r.update(restore_CF=False, normalize=False)
    k1 = d0(copy.deepcopy(s).calc_B())
    st = stage(s, [(n, -dtau / 2 * k1[n]) for n in range(1, N + 1)], upd)
    k2 = d0(st.calc_B())
    st = stage(s, [(n, -dtau / 2 * k2[n]) for n in range(1, N + 1)], upd)
    k3 = d0(st.calc_B())
    st = stage(s, [(n, -dtau * k3[n]) for n in range(1, N + 1)], upd)
    k4 = d0(st.calc_B())
    given = t.flag(0.3)
    t.note(dtau=dtau, given=given)
    G = copy.deepcopy(s).calc_B() if given else None
    G0 = copy.deepcopy(G)
    s.take_step_RK4(dtau, B_i=G)
    if given:
        given_kept(t, G, G0)
    for n in range(1, N + 1):
        want = A0[n] - dtau / 6 * (k1[n] + 2 * k2[n] + 2 * k3[n] + k4[n])
        t.close("the classical fourth-order weights", s.A[n], want, 1e-8)


@case("C14", 2)
def euler_uniform(t):
    s, h = mk_utdvp(t)
    from .ulib import ugood
    if not ugood(s):
        raise Skip()
    dtau = step(t) if t.flag(0.85) else 0.0
    A0 = [np.array(a) for a in s.A]
    given = t.flag(0.3)
    if given:
        B = [t.c(*a.shape) for a in A0]
        G = [b.copy() for b in B]
        s.take_step(dtau, B=G)
        given_kept(t, G, B)
    else:
        B = copy.deepcopy(s).calc_B()
        s.take_step(dtau)
    for k in range(s.L):
        t.close("one Euler step subtracts the step times the tangent vector", s.A[k], A0[k] - dtau * B[k], 1e-8)


@case("C14", 3)
def rk4_uniform(t):
    s, h = mk_utdvp(t)
    from .ulib import ugood
    if not ugood(s, 1e-2):
        raise Skip()
    dtau = step(t) if t.flag(0.85) else 0.0
    L = s.L
    A0 = [np.array(a) for a in s.A]

    def upd(r):
        r.calc_lr()
        r.calc_AA()
        r.calc_C()
        r.calc_K()
    k1 = [np.array(b) for b in copy.deepcopy(s).calc_B()]
    k2 = stage(s, [(k, -dtau / 2 * k1[k]) for k in range(L)], upd).calc_B()
    k3 = stage(s, [(k, -dtau / 2 * k2[k]) for k in range(L)], upd).calc_B()
    k4 = stage(s, [(k, -dtau * k3[k]) for k in range(L)], upd).calc_B()
    given = t.flag(0.3)
    t.note(dtau=dtau, given=given)
    G = copy.deepcopy(s).calc_B() if given else None
    G0 = copy.deepcopy(G)
    s.take_step_RK4(dtau, B_i=G)
    if given:
        given_kept(t, G, G0)
    for k in range(L):
        t.close("the classical fourth-order weights", s.A[k], A0[k] - dtau / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]), 1e-6)


def window(t):
    from .wlib import mk_twin, wgood
    s, terms, hL, hR = mk_twin(t, Dhi=3)
    s.update(restore_CF=True)
    if not wgood(s, 1e-3):
        raise Skip()
    return s


@case("C14", 2)
def euler_window(t):
    s = window(t)
    dtau = step(t) if t.flag(0.85) else 0.0
    N = s.N
    A0 = cpA(s.A, N)
    u0 = [np.array(a) for a in list(s.uni_l.A) + list(s.uni_r.A)]
    given = t.flag(0.3)
    t.note(dtau=dtau, given=given)
    if given:
        B = [None] + [None if t.flag(0.2) else t.c(*A0[n].shape) for n in range(1, N + 1)]
        G = [None if b is None else b.copy() for b in B]
        s.take_step(dtau, B=G)
        given_kept(t, G, B)
    else:
        B = copy.deepcopy(s).calc_B()
        s.take_step(dtau)
    for n in range(1, N + 1):
        if B[n] is None:
            t.close("stationary sites are left alone", s.A[n], A0[n], 0)
        else:
            t.close("one Euler step subtracts the step times the tangent vector", s.A[n], A0[n] - dtau * B[n], 1e-9)
    for a, b in zip(list(s.uni_l.A) + list(s.uni_r.A), u0):
        t.close("the bulks are left alone", a, b, 0)


@case("C14", 2)
def rk4_window(t):
    s = window(t)
    dtau = step(t) if t.flag(0.85) else 0.0
    N = s.N
    A0 = cpA(s.A, N)
    z = [None] + [np.zeros_like(A0[n]) for n in range(1, N + 1)]
    d0 = lambda B: [z[n] if n == 0 or B[n] is None else np.array(B[n]) for n in range(N + 1)]
    upd = lambda r: r.update(restore_CF=False, normalize=False)
    k1 = d0(copy.deepcopy(s).calc_B())
    k2 = d0(stage(s, [(n, -dtau / 2 * k1[n]) for n in range(1, N + 1)], upd).calc_B())
    k3 = d0(stage(s, [(n, -dtau / 2 * k2[n]) for n in range(1, N + 1)], upd).calc_B())
    k4 = d0(stage(s, [(n, -dtau * k3[n]) for n in range(1, N + 1)], upd).calc_B())
    given = t.flag(0.3)
    t.note(dtau=dtau, given=given)
    G = copy.deepcopy(s).calc_B() if given else None
    G0 = copy.deepcopy(G)
    s.take_step_RK4(dtau, B_i=G)
    if given:
        given_kept(t, G, G0)
    for n in range(1, N + 1):
        want = A0[n] - dtau / 6 * (k1[n] + 2 * k2[n] + 2 * k3[n] + k4[n])
        t.close("the classical fourth-order weights", s.A[n], want, 1e-8)
