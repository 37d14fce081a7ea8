"""C11 Hermitian factors, square roots, tangent-space bases"""
import numpy as np
import scipy.linalg as la
from .lib import *


def herm_psd(t, D, kind):
    """(matrix, rank)"""
    if kind == "full":
        return t.pos(D, t.pick(3., 100.)), D
    if kind == "zero":
        return np.zeros((D, D), dtype=complex), 0
    k = t.i(0, D - 1)
    u = la.qr(t.c(D, D))[0]
    w = np.zeros(D)
    w[:k] = 0.1 + t.rng.rand(k)
    m = (u * w).dot(u.conj().T)
    return (m + m.conj().T) / 2, k


def negate(t, m):
    """some of the null directions of m become negative ones, as rounding makes them"""
    w, u = la.eigh(m)
    w = np.where(w < 1e-9, -t.pick(1e-3, 1e-7, 1e-10) * (t.rng.rand(len(w)) < 0.7), w)
    x = (u * w).dot(u.conj().T)
    return (x + x.conj().T) / 2


def support(m, tol=1e-10):
    w, u = la.eigh(m)
    p = u[:, w > tol]
    return p.dot(p.conj().T)


@case("C11", 3)
def hermitian_factor(t):
    import evoMPS.tdvp_common as tm
    D = t.i(1, 6)
    kind = t.pick("full", "full", "deficient", "zero")
    m, rank = herm_psd(t, D, kind)
    lower, inv, force, rr, sane = t.flag(), t.flag(0.8), t.flag(0.4) or kind != "full", t.flag(), t.flag(0.2)
    neg = kind == "deficient" and t.flag(0.4)
    t.note(D=D, kind=kind, lower=lower, calc_inv=inv, force_evd=force, rank=rank, negative=neg)
    mp = m
    if neg:
        m = negate(t, m)
    m0 = m.copy()
    out = tm.herm_fac_with_inv(m, lower=lower, zero_tol=1e-12, return_rank=rr, calc_inv=inv, force_evd=force, sanity_checks=sane)
    out = out if isinstance(out, tuple) else (out,)
    if not inv:
        out = (out[0], None) + out[1:]
    x, xi = dn(out[0]), out[1]
    t.close("the factored matrix is left unchanged", m, m0, 0)
    t.close("the factors multiply back", x.dot(x.conj().T) if lower else x.conj().T.dot(x), mp, 1e-9)
    if rr:
        t.true("rank", out[2] == rank, "%s %s" % (out[2], rank))
    if not inv:
        t.true("no inverse asked for", xi is None)
        return
    xi = dn(xi)
    P = support(mp)
    t.close("the inverse inverts on the support", (x.dot(xi) if lower else xi.dot(x)), P, 1e-7)
    q = xi.dot(x) if lower else x.dot(xi)
    t.close("the other product is a projector of the same rank", q.dot(q), q, 1e-7)
    t.close("of the same rank", np.trace(q).real, rank, 1e-7)


@case("C11", 2)
def hermitian_factor_structured(t):
    """cholesky fallback on singular input, diagonal and identity arguments"""
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    D = t.i(1, 5)
    kind = t.pick("diag", "eye", "fallback")
    lower = t.flag()
    t.note(kind=kind, D=D, lower=lower)
    if kind == "diag":
        m = mm.simple_diag_matrix(0.2 + t.rng.rand(D), dtype=np.complex128)
    elif kind == "eye":
        m = mm.eyemat(D, np.complex128)
    else:
        m = np.diag(0.2 + t.rng.rand(D)).astype(complex)
        k = t.i(0, D - 1)
        m[k, k] = 0
    md = dn(m).copy()
    x, xi = tm.herm_fac_with_inv(m, lower=lower, zero_tol=1e-12)
    x, xi = dn(x), dn(xi)
    t.close("the factors multiply back", x.dot(x.conj().T) if lower else x.conj().T.dot(x), md)
    t.close("the inverse inverts on the support", (x.dot(xi) if lower else xi.dot(x)), support(md), 1e-8)


@case("C11", 3)
def square_root(t):
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    D = t.i(1, 6)
    kind = t.pick("dense", "dense", "diag", "eye")
    if kind == "dense":
        m, rank = herm_psd(t, D, t.pick("full", "deficient", "zero"))
        mp = dn(m).copy()
        if rank < D and t.flag(0.4):
            m = negate(t, m)
    elif kind == "diag":
        d = 0.2 + t.rng.rand(D)
        d[t.rng.rand(D) < 0.3] = 0
        rank = int(np.sum(d > 0))
        mp = np.diag(d).astype(complex)
        if t.flag(0.4):
            d = np.where(d > 0, d, -t.pick(1e-3, 1e-8))
        m = mm.simple_diag_matrix(d, dtype=np.complex128)
    else:
        m, rank = mm.eyemat(D, np.complex128), D
        mp = dn(m)
    md = dn(m).copy()
    rr = t.flag()
    t.note(D=D, kind=kind, rank=rank)
    out = tm.herm_sqrt_inv(m, zero_tol=1e-12, return_rank=rr, sanity_checks=t.flag(0.2))
    s, si = dn(out[0]), dn(out[1])
    t.close("argument unchanged", m, md, 0)
    t.close("square root squares to the matrix", s.dot(s), mp)
    t.close("square root is Hermitian", s, s.conj().T)
    t.true("square root is positive", la.eigvalsh(s)[0] > -1e-9)
    t.close("the inverse root inverts on the support", s.dot(si), support(mp), 1e-7)
    t.close("the inverse root inverts on the support (left)", si.dot(s), support(mp), 1e-7)
    if rr:
        t.true("rank", out[2] == rank, "%s %s" % (out[2], rank))


@case("C11", 2)
def both_roots(t):
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    a, b = t.i(1, 5), t.i(1, 5)

    def one(D):
        k = t.pick("dense", "diag", "eye")
        if k == "dense":
            return t.pos(D)
        if k == "diag":
            return mm.simple_diag_matrix(0.1 + t.rng.rand(D), dtype=np.complex128)
        return mm.eyemat(D, np.complex128)
    l, r = one(a), one(b)
    ls, lsi, rs, rsi = tm.calc_l_r_roots(l, r, zero_tol=1e-12)
    for nm, m, s, i in (("l", l, ls, lsi), ("r", r, rs, rsi)):
        t.close("root of " + nm, dn(s).dot(dn(s)), dn(m))
        t.close("inverse root of " + nm, dn(s).dot(dn(i)), np.eye(dn(m).shape[0]), 1e-8)


def envmat(t, D):
    import evoMPS.matmul as mm
    k = t.pick("dense", "dense", "diag", "eye", "deficient")
    if k == "dense":
        return t.pos(D)
    if k == "deficient":
        return herm_psd(t, D, "deficient")[0]
    if k == "diag":
        return mm.simple_diag_matrix(0.1 + t.rng.rand(D), dtype=np.complex128)
    return mm.eyemat(D, np.complex128)


@case("C11", 3)
def right_basis(t):
    import evoMPS.tdvp_common as tm
    q, a, b = t.i(1, 4), t.i(1, 5), t.i(1, 5)
    A = t.c(q, a, b)
    if t.flag(0.15):
        A[:, 0, :] = 0
    rs = envmat(t, b)
    t.note(q=q, a=a, b=b)
    A0 = A.copy()
    V = tm.calc_Vsh(A, rs, sanity_checks=t.flag(0.2))
    t.close("A unchanged", A, A0, 0)
    if q * b <= a:
        t.true("no tangent space", V is None)
        return
    t.true("dimension physical times bond minus bond", V.shape == (q, b, q * b - a), str(V.shape))
    W = np.transpose(V, (0, 2, 1)).conj()
    t.close("orthonormal", np.einsum("sax,sbx->ab", W, W.conj()), np.eye(q * b - a))
    t.close("orthogonal to A weighted by the root", np.einsum("sax,xy,sby->ab", W, dn(rs), A.conj()), np.zeros((q * b - a, a)))


@case("C11", 3)
def left_basis(t):
    import evoMPS.tdvp_common as tm
    q, a, b = t.i(1, 4), t.i(1, 5), t.i(1, 5)
    A = t.c(q, a, b)
    if t.flag(0.15):
        A[:, :, 0] = 0
    ls = envmat(t, a)
    t.note(q=q, a=a, b=b)
    A0 = A.copy()
    V = tm.calc_Vsh_l(A, ls, sanity_checks=t.flag(0.2))
    t.close("A unchanged", A, A0, 0)
    if q * a <= b:
        t.true("no tangent space", V is None)
        return
    t.true("dimension physical times bond minus bond", V.shape == (q, q * a - b, a), str(V.shape))
    W = np.transpose(V, (0, 2, 1)).conj()
    t.close("orthonormal", np.einsum("sxa,sxb->ab", W.conj(), W), np.eye(q * a - b))
    t.close("orthogonal to A weighted by the root", np.einsum("sxb,xy,sya->ba", A.conj(), dn(ls), W), np.zeros((b, q * a - b)))


@case("C11", 2)
def matrix_helpers(t):
    import evoMPS.matmul as mm
    D = t.i(1, 6)
    m = t.herm(D) if t.flag() else t.pos(D)
    s = mm.sqrtmh(m)
    t.close("sqrtmh squares to the matrix", s.dot(s), m)
    p = t.pos(D)
    s2, (ev, EV) = mm.sqrtmh(p, ret_evd=True)
    t.close("sqrtmh eigenvalues are those of the root", (EV * ev).dot(EV.conj().T), s2)
    t.close("sqrtmh from a decomposition", mm.sqrtmh(None, evd=la.eigh(p)), s2)
    t.close("invmh inverts", mm.invmh(p).dot(p), np.eye(D), 1e-8)
    i2, (ev, EV) = mm.invmh(p, ret_evd=True)
    t.close("invmh eigenvalues", (EV * ev).dot(EV.conj().T), i2, 1e-8)
    t.close("invmh from a decomposition", mm.invmh(None, evd=la.eigh(p)), i2, 1e-8)
    lo = t.flag()
    tri = (np.tril if lo else np.triu)(t.c(D, D)) + 3 * np.eye(D)
    t0 = tri.copy()
    t.close("invtr inverts", mm.invtr(tri, lower=lo).dot(t0), np.eye(D), 1e-7)


@case("C11", 2)
def state_bases(t):
    """the bases a finite chain builds for its tangent vectors"""
    s, ham = mk_tdvp(t, Nlo=3)
    s.update()
    n = t.i(1, s.N)
    V = None
    import evoMPS.tdvp_common as tm
    ls, lsi, rs, rsi = tm.calc_l_r_roots(s.l[n - 1], s.r[n], zero_tol=s.zero_tol)
    A = np.asarray(s.A[n])
    V = tm.calc_Vsh(A, rs)
    if V is not None:
        W = np.transpose(V, (0, 2, 1)).conj()
        t.close("right basis orthogonal to A", np.einsum("sax,xy,sby->ab", W, dn(rs), A.conj()), np.zeros((W.shape[1], A.shape[1])))
        t.close("right basis orthonormal", np.einsum("sax,sbx->ab", W, W.conj()), np.eye(W.shape[1]))
        t.true("complete", W.shape[1] == A.shape[0] * A.shape[2] - A.shape[1])
    V = tm.calc_Vsh_l(A, ls)
    if V is not None:
        W = np.transpose(V, (0, 2, 1)).conj()
        t.close("left basis orthogonal to A", np.einsum("sxb,xy,sya->ba", A.conj(), dn(ls), W), np.zeros((A.shape[2], W.shape[2])))
        t.close("left basis orthonormal", np.einsum("sxa,sxb->ab", W.conj(), W), np.eye(W.shape[2]))
        t.true("complete", W.shape[2] == A.shape[0] * A.shape[1] - A.shape[2])
