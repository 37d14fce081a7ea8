"""C18 pseudo-inverse of the block transfer map"""
import logging
import numpy as np
import scipy.sparse.linalg as las
from .lib import *
from .ulib import *


class Catch(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.bad = []

    def emit(self, r):
        self.bad.append(r.getMessage())


def pair(t, D=None, real=False):
    """two blocks, normalised, with a dominant pair of fixed points lL, rL of the mixed map"""
    L, q = t.i(1, 3), t.i(2, 3)
    D = t.i(1, 4) if D is None else D
    same = t.flag()
    for _ in range(20):
        A1 = [a.real + 0j if real else a for a in rand_block(t, L, q, D)]
        A1 = normalised(A1)
        if gap(A1) > 0.1:
            break
    else:
        raise Skip()
    if same:
        A2 = A1
    elif t.flag(0.4):
        # the same state in another gauge: dominant eigenvalue one, other fixed points
        g = t.c(D, D) + 2 * np.eye(D)
        gi = np.linalg.inv(g)
        A2 = [a.copy() for a in A1]
        A2[0] = np.array([g.dot(a) for a in A2[0]])
        A2[-1] = np.array([a.dot(gi) for a in A2[-1]])
    else:
        A2 = normalised(rand_block(t, L, q, D))
    t.note(D=D, q=q, L=L, same=same)
    return A1, A2, L, q, D


def mixed(A1, A2):
    """dominant left and right fixed points of x -> sum A1 x A2^H, <l|r> = 1, and eigenvalue"""
    D = A1[0].shape[1]
    E = block_E(A1, A2)
    w, v = np.linalg.eig(E)
    i = np.argmax(np.abs(w))
    r = v[:, i].reshape(D, D)
    w2, v2 = np.linalg.eig(E.conj().T)
    j = np.argmin(np.abs(w2 - w[i].conj()))
    l = v2[:, j].reshape(D, D)
    l = l / np.vdot(l, r).conj()
    return l, r, w[i]


def fwd(A1, A2, p, left, x, l=None, r=None):
    """(1 - exp(ip) E) x, or its adjoint; without the dominant part if l, r are given"""
    D = x.shape[0]
    E = block_E(A1, A2)
    if l is not None:
        E = E - np.outer(r.ravel(), l.ravel().conj())
    M = np.eye(D * D) - np.exp(1j * p) * E
    if left:
        M = M.conj().T
    sv = np.linalg.svd(M, compute_uv=False)
    return M.dot(x.ravel()).reshape(D, D), max(1, sv[0]) / max(sv[-1], 1e-300)


@case("C18", 4)
def operator(t):
    """the linear operator of the iteration, for all inputs"""
    import evoMPS.mps_uniform_pinv as pv
    L, q, D = t.i(1, 3), t.i(1, 3), t.i(1, 5)
    A1 = [t.c(q, D, D) for _ in range(L)]
    A2 = A1 if t.flag(0.3) else [t.c(q, D, D) for _ in range(L)]
    l, r = t.c(D, D), t.c(D, D)
    p, left, pseudo = t.pick(0, 0., 1.3, -2.1, np.pi), t.flag(), t.flag()
    t.note(D=D, q=q, L=L, p=p, left=left, pseudo=pseudo)
    if not pseudo and t.flag():
        op = pv.PinvOp(p, A1, A2, None if t.flag() else l, None if t.flag() else r, left=left, pseudo=False)
    else:
        op = pv.PinvOp(p, A1, A2, l, r, left=left, pseudo=pseudo)
    keep = [a.copy() for a in A1 + A2 + [l, r]]
    outs = []
    xs = [t.c(D, D) for _ in range(3)]
    for x in xs:
        x0 = x.copy()
        outs.append(op.matvec(x.ravel()))
        t.close("the operator leaves its argument unmodified", x, x0, 0)
    for x, y in zip(xs, outs):
        want, _ = fwd(A1, A2, p, left, x, *((l, r) if pseudo else ()))
        t.close("action of the operator", y.reshape(D, D), want, 1e-10)
    t.true("results of successive applications do not share memory", not np.shares_memory(outs[0], outs[1]))
    for a, b in zip(keep, A1 + A2 + [l, r]):
        t.close("the operator leaves tensors and fixed points unmodified", b, a, 0)


@case("C18", 2)
def dense(t):
    import evoMPS.mps_uniform_pinv as pv
    L, q, D = t.i(1, 3), t.i(1, 3), t.i(1, 4)
    A1 = [t.c(q, D, D) / (2 * q * D) ** .5 * .8 for _ in range(L)]
    A2 = A1 if t.flag(0.3) else [t.c(q, D, D) / (2 * q * D) ** .5 * .8 for _ in range(L)]
    l, r = t.c(D, D) * .1, t.c(D, D) * .1
    p, pseudo = t.pick(0, 1.3, -2.1), t.flag()
    E = block_E(A1, A2)
    if pseudo:
        E = E - np.outer(r.ravel(), l.ravel().conj())
    M = np.eye(D * D) - np.exp(1j * p) * E
    t.note(D=D, q=q, L=L, p=p, pseudo=pseudo)
    if np.linalg.cond(M) > 1e6:
        raise Skip()
    t.close("dense inverse", pv.pinv_1mE_brute(A1, A2, l, r, p=p, pseudo=pseudo).dot(M), np.eye(D * D), 1e-8)
    t.close("dense inverse of the operator", pv.pinv_1mE_brute_LOP(A1, A2, l, r, p=p, pseudo=pseudo, left=t.flag()).dot(M), np.eye(D * D), 1e-8)


@case("C18", 5)
def solve(t):
    import evoMPS.mps_uniform_pinv as pv
    A1, A2, L, q, D = pair(t)
    l, r, ev = mixed(A1, A2)
    p = t.pick(0, 0, 1.3, -2.1, np.pi)
    left, pseudo = t.flag(), t.flag(0.6)
    if pseudo and abs(ev - 1) > 1e-8:
        pass                      # the part <l|.>r is removed whatever the eigenvalue
    x = t.c(D, D)
    proj = t.flag()
    if proj:                      # without a component along the fixed point
        x = x - (l * np.vdot(r, x) if left else r * np.vdot(l, x))
    want_args = (l, r) if pseudo else ()
    _, cond = fwd(A1, A2, p, left, x, *want_args)
    if cond > 1e4:
        raise Skip()
    solver = t.pick(None, las.gmres, las.lgmres, las.bicgstab)
    tol = t.pick(1e-8, 1e-11)
    out = t.pick(None, "zero", "rand")
    o = None if out is None else np.zeros((D, D), complex) if out == "zero" else t.c(D, D)
    t.note(p=p, left=left, pseudo=pseudo, solver=getattr(solver, "__name__", None), out=out, proj=proj, tol=tol)
    keep = [a.copy() for a in A1 + A2 + [l, r, x]]
    h = Catch()
    pv.log.addHandler(h)
    try:
        y = pv.pinv_1mE(x, A1, A2, l, r, p=p, left=left, pseudo=pseudo, tol=tol, solver=solver, out=o,
                        sanity_checks=t.flag(0.2), brute_check=t.flag(0.2))
    finally:
        pv.log.removeHandler(h)
    for a, b in zip(keep, A1 + A2 + [l, r, x]):
        t.close("inputs are left unmodified", b, a, 0)
    if any("converge" in b for b in h.bad):
        raise Skip()              # the iteration said so
    if o is not None:
        t.true("the result is stored where it was asked for", y is o)
    t.true("shape of the result", y.shape == (D, D))
    res, _ = fwd(A1, A2, p, left, y, *want_args)
    t.close("the solution reproduces the right-hand side", res, x, tol * 50 + 1e-9)
    if pseudo and abs(ev - 1) < 1e-9 and (p == 0 or proj):
        E1, _ = fwd(A1, A2, p, left, y)
        x1 = x - (l * np.vdot(r, x) if left else r * np.vdot(l, x))
        t.close("one minus the transfer map gives the input without its fixed-point component", E1, x1, tol * 50 * cond + 1e-8)


@case("C18", 2)
def driver(t):
    """calc_PPinv of a uniform state"""
    s, h = mk_utdvp(t)
    D = s.D
    A = arrs(s.A)
    l, r = dn(s.l[-1]), dn(s.r[-1])
    p, left, pseudo = t.pick(0, 1.3, np.pi), t.flag(), t.flag(0.6)
    if not pseudo and p == 0:
        p = 0.7
    x = t.c(D, D)
    t.note(p=p, left=left, pseudo=pseudo)
    _, cond = fwd(A, A, p, left, x, *((l, r) if pseudo else ()))
    if cond > 1e4:
        raise Skip()
    hd = Catch()
    import evoMPS.mps_uniform_pinv as pv
    pv.log.addHandler(hd)
    x0 = x.copy()
    try:
        kw = dict(tol=1e-10) if t.flag() else {}
        if t.flag():
            kw.update(A1=s.A, A2=s.A, rL=s.r[-1])
        y = s.calc_PPinv(x, p=p, left=left, pseudo=pseudo, solver=las.gmres, **kw)
    finally:
        pv.log.removeHandler(hd)
    t.close("right-hand side unmodified", x, x0, 0)
    t.close("left fixed point unmodified", s.l[-1], l, 0)
    t.close("right fixed point unmodified", s.r[-1], r, 0)
    for k in range(s.L):
        t.close("tensors unmodified", s.A[k], A[k], 0)
    if any("converge" in b for b in hd.bad):
        raise Skip()
    res, _ = fwd(A, A, p, left, y, *((l, r) if pseudo else ()))
    t.close("the solution reproduces the right-hand side", res, x, 1e-7)
