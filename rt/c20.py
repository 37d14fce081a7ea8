"""C20 the operator used for momentum excitations"""
import numpy as np
import scipy.linalg as la
from .lib import *
from .ulib import *


def mpo_of(h, q, k, e):
    """sum over all positions of (h - e) on k neighbouring sites: W[a, b, s, t], start state 0, final state w-1"""
    H = h - e * np.eye(q ** k).reshape(h.shape)
    M = np.transpose(H, [i for j in range(k) for i in (j, k + j)]).reshape([q * q] * k)
    parts = []
    left = 1
    rest = M.reshape(1, -1)
    for j in range(k - 1):
        rest = rest.reshape(left * q * q, -1)
        u, s, v = la.svd(rest, full_matrices=False)
        n = max(1, int((s > 1e-14 * max(s[0], 1e-300)).sum()))
        parts.append(u[:, :n].reshape(left, q, q, n))
        rest = s[:n, None] * v[:n]
        left = n
    parts.append(rest.reshape(left, q, q, 1))
    offs = [1]
    for p in parts[:-1]:
        offs.append(offs[-1] + p.shape[3])
    w = offs[-1] + 1
    W = np.zeros((w, w, q, q), complex)
    W[0, 0] = np.eye(q)
    W[w - 1, w - 1] = np.eye(q)
    for j, p in enumerate(parts):
        a0 = 0 if j == 0 else offs[j - 1]
        b0 = w - 1 if j == k - 1 else offs[j]
        W[a0:a0 + p.shape[0], b0:b0 + p.shape[3]] += np.transpose(p, (0, 3, 1, 2))
    return W


def reference(A1, A2, l, r, B, W, p, R):
    """derivative w.r.t. conj(B'[0]) of the expectation between the momentum states with tensors A1 left of the
    excitation and A2 right of it; l, r: environments far left and far right"""
    w = W.shape[0]
    D = A1.shape[1]
    f = np.exp(-1j * p)
    # left vectors [state, bra, ket]: without and with the ket excitation
    L0 = np.zeros((w, D, D), complex)
    L0[0] = l
    L1 = np.zeros((w, D, D), complex)
    T11 = np.einsum("abst,swy,txz->awxbyz", W, A1.conj(), A1, optimize=True).reshape(w * D * D, -1)
    T21 = np.einsum("abst,swy,txz->awxbyz", W, A1.conj(), A2, optimize=True).reshape(w * D * D, -1)
    TB1 = np.einsum("abst,swy,txz->awxbyz", W, A1.conj(), B, optimize=True).reshape(w * D * D, -1)
    x0, x1 = L0.ravel(), L1.ravel()
    for _ in range(R):
        x1 = f * (x0.dot(TB1) + x1.dot(T21))
        x0 = x0.dot(T11)
    L0, L1 = x0.reshape(w, D, D), x1.reshape(w, D, D)
    f = np.exp(1j * p)
    R0 = np.zeros((w, D, D), complex)            # [state, ket, bra]; ket still to be excited: R1
    R0[w - 1] = r
    R1 = np.zeros((w, D, D), complex)
    T22 = np.einsum("abst,szy,txw->axzbwy", W, A2.conj(), A2, optimize=True).reshape(w * D * D, -1)
    T12 = np.einsum("abst,szy,txw->axzbwy", W, A2.conj(), A1, optimize=True).reshape(w * D * D, -1)
    TB2 = np.einsum("abst,szy,txw->axzbwy", W, A2.conj(), B, optimize=True).reshape(w * D * D, -1)
    y0, y1 = R0.ravel(), R1.ravel()
    for _ in range(R):
        y1 = f * (TB2.dot(y0) + T12.dot(y1))
        y0 = T22.dot(y0)
    R0, R1 = y0.reshape(w, D, D), y1.reshape(w, D, D)
    fin = lambda L, X, Rr: np.einsum("awx,abst,txz,bzy->swy", L, W, X, Rr, optimize=True)
    return fin(L0, B, R0) + fin(L1, A2, R0) + fin(L0, A1, R1)


def background(t, k=None, form=None, q=None, D=None, sym=False):
    q = t.pick(2, 2, 3) if q is None else q
    D = t.i(1, 3 if q == 2 else 2) if D is None else D
    k = t.pick(2, 2, 3) if k is None else k
    U = None
    h = rand_uham(t, q, k)
    if sym:
        ph = np.exp(2j * np.pi * np.arange(q) / q)
        v = t.unitary(q)
        U = (v * ph).dot(v.conj().T)
        Uk = U
        for _ in range(k - 1):
            Uk = np.kron(Uk, U)
        hm = h.reshape(q ** k, -1)
        acc = 0
        g = np.eye(q ** k)
        for _ in range(q):
            acc = acc + g.dot(hm).dot(g.conj().T)
            g = g.dot(Uk)
        h = (acc / q).reshape(h.shape)
    s, h = mk_utdvp(t, L=1, q=q, D=D, k=k, ham=h, form=form)
    if not ugood(s, 1e-3):
        raise Skip()
    return s, h, U


def num(A):
    return np.array(A, dtype=complex)


def rounds(*As):
    """number of sites after which everything but the leading part has died out"""
    g = 1.0
    for A in As:
        g = min(g, gap([A]))
    if g < 0.12:
        raise Skip()
    return int(min(350, 34 / -np.log(1 - g + 1e-9))) + 3 if g < 1 else 4


def check_op(t, op, s1, s2, h, k, p, lab, R):
    q, D = s1.q, s1.D
    A1, A2 = num(s1.A[0]), num(s2.A[0])
    l, r = num(dn(s1.l[0])), num(dn(s2.r[0]))
    e = uexpect([A1], h, 0, k).real
    n = (q - 1) * D * D
    li, ri = s1.l_sqrt_i[0], s2.r_sqrt_i[0]

    def Bof(x):
        return num(s2.get_B_from_x(x.reshape(D, (q - 1) * D), s2.Vsh[0], li, ri))
    basis = [Bof(x) for x in np.eye(n, dtype=complex)]
    Bm = np.array([b.ravel() for b in basis])
    met = np.array([np.einsum("ca,sab,bd->scd", l, b, r, optimize=True).ravel() for b in basis])
    t.close(lab + ": metric", Bm.conj().dot(met.T), np.eye(n), 1e-8)
    t.close(lab + ": gauge condition", np.array([np.einsum("sab,bd,scd->ac", b, r, A2.conj()) for b in basis]), np.zeros((n, D, D)), 1e-8)
    W = mpo_of(h, q, k, e)
    for _ in range(2):
        x = t.c(n)
        B = Bof(x)
        ref = Bm.conj().dot(reference(A1, A2, l, r, B, W, p, R).ravel())
        t.close(lab + ": action of the operator", num(op.matvec(x.copy())).ravel(), ref, 1e-6)


def trial_p(t):
    return t.pick(0.0, np.pi, t.rng.rand() * 2 * np.pi - np.pi, t.rng.rand() * 2 * np.pi - np.pi)


@case("C20", 2)
def trivial(t):
    """excitations on one background"""
    s, h, _ = background(t)
    p = float(trial_p(t))
    t.note(p=p)
    R = rounds(num(s.A[0]))
    op = s._prepare_excite_op_top_triv(p)
    check_op(t, op, s, s, h, s.ham_sites, p, "trivial", R)


@case("C20", 1)
def brute(t):
    """the dense matrix: same operator, its eigenvalues those of the (Hermitian part used by the) matrix"""
    s, h, _ = background(t)
    p = float(trial_p(t))
    t.note(p=p)
    R = rounds(num(s.A[0]))
    ev, H = s.excite_top_triv_brute(p, return_H=True)
    op = s._prepare_excite_op_top_triv(p)
    check_op(t, op, s, s, h, s.ham_sites, p, "brute", R)
    n = H.shape[0]
    x = t.c(n)
    t.close("matrix of the operator", H.dot(x), num(op.matvec(x)).ravel(), 1e-6)
    t.close("eigenvalues", np.sort(ev), la.eigvalsh(H), 1e-8)


def partner(t, s, h, U, k):
    """the state obtained by applying U on every site, as its own object in another gauge"""
    import copy
    d = copy.deepcopy(s)
    A = num(s.A[0])
    A = np.einsum("st,tab->sab", U, A) * np.exp(2j * np.pi * t.rng.rand())
    g = np.eye(s.D) + 0.4 * t.c(s.D, s.D)
    d.A[0] = np.array([la.inv(g).dot(a).dot(g) for a in A])
    d.lL_before_CF = t.c(s.D, s.D) * 0 + np.eye(s.D)
    d.rL_before_CF = np.eye(s.D, dtype=complex)
    d.update()
    return d


@case("C20", 2)
def domain_wall(t):
    """different states on the two halves"""
    s, h, U = background(t, sym=True)
    p = float(trial_p(t))
    k = s.ham_sites
    d = partner(t, s, h, U, k)
    align = t.flag(0.7)
    t.note(p=p, align=align)
    R = rounds(num(s.A[0]))
    f = np.abs(la.eigvals(block_E([num(s.A[0])], [num(d.A[0])]))).max()
    if f > 0.9:
        raise Skip()
    if not ugood(d, 1e-3):
        raise Skip()
    R = max(R, int(34 / -np.log(f + 1e-9)) + 3)
    op = s._prepare_excite_op_top_nontriv(d, p, phase_align=align)
    if align:
        w = la.eigvals(block_E([num(s.A[0])], [num(d.A[0])]))
        w = w[np.abs(w) > (1 - 1e-7) * np.abs(w).max()]       # a symmetry can make several equally large
        w = w[np.argmax(w.real)]
        t.close("phase aligned", w / abs(w), 1.0, 1e-7)
    check_op(t, op, s, d, h, k, p, "domain wall", R)


@case("C20", 1)
def same_state_twice(t):
    """a domain wall between a state and a gauge transformed copy of it has the spectrum of the trivial sector"""
    s, h, _ = background(t)
    p = float(trial_p(t))
    k = s.ham_sites
    d = partner(t, s, h, np.eye(s.q), k)
    t.note(p=p)
    R = rounds(num(s.A[0]))
    if not ugood(d, 1e-3):
        raise Skip()
    op = s._prepare_excite_op_top_nontriv(d, p, force_pseudo=True)
    check_op(t, op, s, d, h, k, p, "copy", R)


@case("C20", 1)
def forms(t):
    """array, function and factorised forms of the same term"""
    s, h, _ = background(t, k=2, form="array")
    q = s.q
    p = float(trial_p(t))
    op = s._prepare_excite_op_top_triv(p)
    x = t.c((q - 1) * s.D ** 2)
    y = num(op.matvec(x.copy())).ravel()
    A0, B0 = num(s.A[0]), num(s.get_B_from_x(x.reshape(s.D, -1), s.Vsh[0], s.l_sqrt_i[0], s.r_sqrt_i[0]))
    u, sv, v = la.svd(np.transpose(h, (0, 2, 1, 3)).reshape(q * q, q * q))
    s.ham_tp = [[u[:, i].reshape(q, q) * sv[i], v[i].reshape(q, q)] for i in range(q * q) if i == 0 or sv[i] > 1e-14]
    if t.flag():
        n = len(s.ham_tp)
        c = t.op(q, q)
        s.ham_tp = s.ham_tp + [[c, np.eye(q)], [-c, np.eye(q)]]
    s.calc_C()
    s.calc_K()
    op = s._prepare_excite_op_top_triv(p)
    z = num(op.matvec(x.copy())).ravel()
    t.close("same operator", z, y, 1e-6)
    hf = lambda *i: h[tuple(int(a) for a in i)]
    s.ham_tp = None
    s.set_ham(hf, ham_sites=2)
    s.calc_C()
    s.calc_K()
    op = s._prepare_excite_op_top_triv(p)
    z = num(op.matvec(x.copy())).ravel()
    t.close("same operator from a function", z, y, 1e-6)
