"""Uniform states: random instances and independent oracles"""
import numpy as np
import scipy.linalg as la
from .lib import *


def rand_block(t, L, q, D):
    """random tensors with a healthy spectral gap, not normalised"""
    out = []
    for _ in range(L):
        a = t.c(q, D, D)
        out.append(a / la.norm(a) * np.sqrt(D) * (0.6 + t.rng.rand()))
    return out


def block_E(A, B=None):
    """matrix of x -> sum A x B^H over the block (acts on x.ravel())"""
    B = A if B is None else B
    E = np.eye(A[0].shape[1] * B[0].shape[1], dtype=complex)
    for a, b in zip(A, B):
        e = np.einsum("sab,scd->acbd", a, b.conj())
        E = E.dot(e.reshape(a.shape[1] * b.shape[1], -1))
    return E


def fixed_points(A):
    """(largest eigenvalue, l before the block, r after the block), tr(l r) = 1, both positive"""
    E = block_E(A)
    D = A[0].shape[1]
    w, v = la.eig(E)
    i = np.argmax(np.abs(w))
    r = v[:, i].reshape(D, D)
    r = r / np.trace(r)
    r = (r + r.conj().T) / 2
    w2, v2 = la.eig(E.T)
    j = np.argmax(np.abs(w2))
    # sum_s A^H l A = ev l  with  l_{ac} ~ conj pairing: x_ac -> sum conj(A)_ab x_ac A_cd
    l = v2[:, j].reshape(D, D)          # l'_{ac}: sum l'_{ac} A_ab conj(A)_cd = ev l'_{bd};  l = l'^T
    l = l.T
    l = l / np.trace(l)
    l = (l + l.conj().T) / 2
    n = np.trace(l.dot(r)).real
    return w[i], l / n, r


def gap(A):
    w = np.sort(np.abs(la.eigvals(block_E(A))))[::-1]
    return 1.0 if len(w) == 1 else 1 - w[1] / w[0]


def uenvs(A):
    """l[k-1] left of site k, r[k] right of site k, for normalised tensors"""
    L = len(A)
    ev, l0, r0 = fixed_points(A)
    l, r = [None] * L, [None] * L
    l[L - 1], r[L - 1] = l0, r0
    for k in range(0, L - 1):
        l[k] = np.einsum("sab,ac,scd->bd", A[k].conj(), l[k - 1], A[k])
    for k in range(L - 1, 0, -1):
        r[k - 1] = np.einsum("sab,bd,scd->ac", A[k], r[k], A[k].conj())
    return l, r


def normalised(A):
    L = len(A)
    ev, _, _ = fixed_points(A)
    return [a / np.abs(ev) ** (0.5 / L) for a in A]


def string(A, k, m):
    """ket tensors of sites k..k+m-1 as X[a, s..., b]"""
    L = len(A)
    x = np.transpose(A[k % L], (1, 0, 2))
    for j in range(1, m):
        x = np.tensordot(x, np.transpose(A[(k + j) % L], (1, 0, 2)), axes=([-1], [0]))
    return x


def uexpect(A, op, k, m, env=None):
    """<op> on sites k..k+m-1; op[out..., in...]"""
    L = len(A)
    l, r = uenvs(A) if env is None else env
    X = string(A, k, m)
    D1, D2 = X.shape[0], X.shape[-1]
    q = A[0].shape[0]
    x = X.reshape(D1, q ** m, D2)
    o = np.asarray(op).reshape(q ** m, q ** m)
    return np.einsum("ca,ast,cuv,us,tv->", l[(k - 1) % L], x, x.conj(), o, r[(k + m - 1) % L], optimize=True)


def urdm(A, k, m, env=None):
    """<s| rho |t> of sites k.."""
    L = len(A)
    l, r = uenvs(A) if env is None else env
    q = A[0].shape[0]
    x = string(A, k, m).reshape(A[0].shape[1], q ** m, -1)
    return np.einsum("ca,ast,cuv,tv->su", l[(k - 1) % L], x, x.conj(), r[(k + m - 1) % L], optimize=True)


def rand_uham(t, q, k):
    return t.hop(q ** k, [q] * (2 * k))


def mk_uni(t, D=None, q=None, L=None, Dhi=5, qhi=3, Lhi=3, update=True, gauge=None, cls=None, real=False, **kw):
    import evoMPS.mps_uniform as mu
    L = t.i(1, Lhi) if L is None else L
    q = t.i(2, qhi) if q is None else q
    D = t.i(1, Dhi) if D is None else D
    for _ in range(20):
        A = rand_block(t, L, q, D)
        if gap(A) > 0.15:
            break
    else:
        raise Skip()
    s = mu.EvoMPS_MPS_Uniform(D, q, L=L, do_update=False)
    for k in range(L):
        s.A[k][:] = A[k]
    s.symm_gauge = t.flag() if gauge is None else (gauge == "symm")
    t.note(D=D, q=q, L=L, symm=s.symm_gauge)
    if update:
        s.update()
    return s


def mk_utdvp(t, D=None, q=None, L=None, k=None, Dhi=4, qhi=3, Lhi=3, form=None, update=True, gauge=None, ham=None):
    """(state, dense Hamiltonian term)"""
    import evoMPS.tdvp_uniform as tu
    L = t.i(1, Lhi) if L is None else L
    q = t.i(2, qhi) if q is None else q
    D = t.i(1, Dhi) if D is None else D
    k = t.pick(2, 2, 3) if k is None else k
    h = rand_uham(t, q, k) if ham is None else ham
    form = t.pick("array", "array", "function", "tp" if k == 2 else "array") if form is None else form
    for _ in range(20):
        A = rand_block(t, L, q, D)
        if gap(A) > 0.15:
            break
    else:
        raise Skip()
    arg = h
    if form == "function":
        arg = lambda *i: h[tuple(int(x) for x in i)]
    s = tu.EvoMPS_TDVP_Uniform(D, q, arg, ham_sites=k, L=L, do_update=False)
    # the constructor drops the number of sites when it allocates its arrays
    s.set_ham(arg, ham_sites=k)
    if form == "tp":
        u, sv, v = la.svd(np.transpose(h, (0, 2, 1, 3)).reshape(q * q, q * q))
        s.ham_tp = [[u[:, i].reshape(q, q) * sv[i], v[i].reshape(q, q)] for i in range(q * q) if i == 0 or sv[i] > 1e-14]
    for j in range(L):
        s.A[j][:] = A[j]
    s.symm_gauge = t.flag() if gauge is None else (gauge == "symm")
    t.note(D=D, q=q, L=L, k=k, form=form, symm=s.symm_gauge)
    if update:
        s.update()
    return s, h


def arrs(x):
    return [np.array(dn(a), dtype=complex) for a in x]


def ugood(s, lim=1e-4):
    for k in range(s.L):
        for e in (s.l[k], s.r[k]):
            w = la.eigvalsh((dn(e) + dn(e).conj().T) / 2)
            if w[0] < lim * w[-1]:
                return False
    return True
