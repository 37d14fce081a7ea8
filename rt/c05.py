"""C05 environments after an update"""
import numpy as np
import scipy.linalg as la
from .lib import *


@case("C05", 3)
def after_update(t):
    s, psi = mk_chain(t, update=False)
    how = t.pick("cf", "norm", "nonorm", "trunc")
    t.note(how=how)
    if how == "cf":
        s.update()
    elif how == "norm":
        s.update(restore_CF=False)
    elif how == "nonorm":
        s.update(restore_CF=False, normalize=False)
    else:
        s.update(auto_truncate=True, restore_CF_after_trunc=t.flag())
    check_envs(t, s, "update(%s)" % how)
    if how == "nonorm":
        t.close("state unchanged", dense(s.A), psi)
    else:
        t.close("unit norm", la.norm(dense(s.A)), 1.0)
        same_ray(t, "state changes by a positive factor", dense(s.A), psi)
    t.true("dimensions match", all(s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]) for n in range(1, s.N + 1)))


@case("C05", 2)
def update_twice(t):
    """any history of changes and updates"""
    s, psi = mk_chain(t, update=True)
    for _ in range(t.i(1, 3)):
        n = t.i(1, s.N)
        s.A[n] = s.A[n] + t.c(*s.A[n].shape) * 0.4
        psi = dense(s.A)
        w = t.pick("cf", "norm", "norm2", "lcf", "rcf", "noqr")
        if w == "cf":
            s.update()
        elif w == "norm":
            s.update(restore_CF=False)
        elif w == "norm2":
            s.calc_l()
            s.calc_r()
            s.simple_renorm()
        elif w == "lcf":
            s.restore_LCF()
        elif w == "rcf":
            s.restore_RCF()
        else:
            s.restore_CF(use_QR=False)
        t.note(w=w)
        check_envs(t, s, "update %s" % w)
        t.close("unit norm (%s)" % w, la.norm(dense(s.A)), 1.0)
        same_ray(t, "state changes by a positive factor (%s)" % w, dense(s.A), psi)


@case("C05", 2)
def renorm(t):
    s, psi = mk_chain(t, update=False)
    s.calc_l()
    s.calc_r()
    ur = t.flag()
    s.simple_renorm(update_r=ur)
    if not ur:
        s.calc_r()
    check_envs(t, s, "simple_renorm")
    same_ray(t, "simple_renorm divides by the norm", dense(s.A), psi)


@case("C05", 2)
def partial_ranges(t):
    s, psi = mk_chain(t, update=t.flag(), Nlo=2)
    s.calc_l()
    s.calc_r()
    n = t.i(1, s.N)
    s.A[n] = s.A[n] + t.c(*s.A[n].shape)
    # l[n..N] and r[0..n-1] are out of date
    s.calc_l(n_low=n, n_high=s.N)
    s.calc_r(n_low=0, n_high=n - 1)
    check_envs(t, s, "partial recomputation")
    a = t.i(1, s.N)
    b = t.i(a, s.N)
    for k in range(a, b + 1):
        s.l[k] = None
    for k in range(a - 1, b):
        s.r[k] = None
    s.calc_r(n_low=a - 1, n_high=b - 1)
    s.calc_l(n_low=a, n_high=b)
    check_envs(t, s, "recomputed range")
