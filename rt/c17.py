"""C17 uniform measurements"""
import copy
import numpy as np
from .lib import *
from .ulib import *


def state(t, **k):
    s = mk_uni(t, **dict(dict(Dhi=4), **k))
    return s


def ref(s):
    """normalised tensors as they are and independent environments"""
    A = arrs(s.A)
    return A, uenvs(A)


def op1(t, q):
    return t.op(q, q)


@case("C17", 4)
def one_site(t):
    s = state(t)
    A, e = ref(s)
    o = op1(t, s.q)
    for k in range(s.L):
        t.close("one-site expectation value", s.expect_1s(as_op(t, o), k), uexpect(A, o, k, 1, e), 1e-7)
        rho = urdm(A, k, 1, e)
        # entry (s,t) is the expectation value of |s><t|
        want = np.array([[rho[b, a] for b in range(s.q)] for a in range(s.q)])
        t.close("one-site reduced density matrix", s.density_1s(k), want, 1e-7)
        t.close("occupation numbers", s.basis_occupancy(k), np.diag(rho).real, 1e-7)
    if s.L == 1 or t.flag():
        t.close("default offset", s.expect_1s(o), uexpect(A, o, 0, 1, e), 1e-7)


@case("C17", 3)
def two_site(t):
    tdvp = t.flag(0.3)
    if tdvp:
        s, h = mk_utdvp(t, Dhi=3)
    else:
        s = state(t)
        if t.flag(0.2):
            s.update(restore_CF=False)
    A, e = ref(s)
    q = s.q
    for k in range(s.L):
        o = t.op(q, q, q, q)
        t.close("two-site expectation value", s.expect_2s(as_op(t, o), k), uexpect(A, o, k, 2, e), 1e-7)
        m = t.i(1, 3)
        tp = [[t.op(q, q), t.op(q, q)] for _ in range(m)]
        full = sum(np.einsum("su,tv->stuv", a, b) for a, b in tp)
        t.close("two-site expectation value of a factorised operator", s.expect_2s_tp(tp, k), uexpect(A, full, k, 2, e), 1e-7)


@case("C17", 3)
def three_site(t):
    tdvp = t.flag(0.3)
    s = mk_utdvp(t, Dhi=3, qhi=2)[0] if tdvp else state(t)
    A, e = ref(s)
    q = s.q
    for k in range(s.L):
        o = t.op(*[q] * 6)
        t.close("three-site expectation value", s.expect_3s(as_op(t, o) if q == 2 else o, k), uexpect(A, o, k, 3, e), 1e-7)


@case("C17", 2)
def ham_terms(t):
    """the Hamiltonian object itself, through the shortcut of the TDVP class"""
    s, h = mk_utdvp(t, Dhi=3, form=t.pick("array", "function"))
    A, e = ref(s)
    f = s.expect_2s if s.ham_sites == 2 else s.expect_3s
    for k in range(s.L):
        t.close("expectation value of the Hamiltonian term", f(s.ham, k), uexpect(A, h, k, s.ham_sites, e), 1e-7)


def pair(A, e, o1, o2, k, d):
    """<o1 at k, o2 at k+d>"""
    L = len(A)
    l, r = e
    x = l[(k - 1) % L]
    for j in range(d + 1):
        a = A[(k + j) % L]
        o = (o1.dot(o2) if d == 0 else o1) if j == 0 else o2 if j == d else np.eye(a.shape[0])
        x = np.einsum("sab,st,ac,tcd->bd", a.conj(), o, x, a, optimize=True)
    return np.trace(x.dot(r[(k + d) % L]))


@case("C17", 3)
def separated(t):
    s = state(t)
    A, e = ref(s)
    o1, o2 = op1(t, s.q), op1(t, s.q)
    k, d = t.i(0, s.L - 1), t.i(1, 5)
    t.note(k=k, d=d)
    t.close("separated product", s.expect_1s_1s(as_op(t, o1), as_op(t, o2), d, k=k), pair(A, e, o1, o2, k, d), 1e-7)
    want = np.array([pair(A, e, o1, o2, k, j) for j in range(d + 1)])
    t.close("separated products at all distances", s.expect_1s_1s(as_op(t, o1), as_op(t, o2), d, k=k, return_intermediates=True), want, 1e-7)


@case("C17", 3)
def correlations(t):
    s = state(t)
    A, e = ref(s)
    o1 = op1(t, s.q)
    o2 = o1 if t.flag(0.2) else op1(t, s.q)
    k, d = t.i(0, s.L - 1), t.i(1, 5)
    x1 = np.array([uexpect(A, o1, (k + j) % s.L, 1, e) for j in range(d + 1)])
    x2 = np.array([uexpect(A, o2, (k + j) % s.L, 1, e) for j in range(d + 1)])
    want = np.array([pair(A, e, o1, o2, k, j) - x1[0] * x2[j] for j in range(d + 1)])
    t.note(k=k, d=d)
    a1, a2 = (o1, o2) if o1 is o2 else (as_op(t, o1), as_op(t, o2))
    if t.flag():
        c, e1, e2 = s.correlation_1s_1s(a1, a2, d, k=k, return_exvals=True)
        t.close("expectation values of the first operator along the way", e1, x1, 1e-7)
        t.close("expectation values of the second operator along the way", e2, x2, 1e-7)
    else:
        c = s.correlation_1s_1s(a1, a2, d, k=k)
    t.close("connected correlation function", c, want, 1e-7)


@case("C17", 2)
def strings(t):
    s = state(t)
    A, e = ref(s)
    o = op1(t, s.q)
    k, d = t.i(0, s.L - 1), t.i(1, 4)
    want = []
    l, r = e
    x = l[(k - 1) % s.L]
    for j in range(d):
        a = A[(k + j) % s.L]
        x = np.einsum("sab,st,ac,tcd->bd", a.conj(), o, x, a, optimize=True)
        want.append(np.trace(x.dot(r[(k + j) % s.L])))
    t.close("expectation values of strings of lengths 1 to d", s.expect_string_1s(as_op(t, o), k, d), np.array(want), 1e-7)


@case("C17", 2)
def apply_op(t):
    s = state(t)
    A = arrs(s.A)
    q, L = s.q, s.L
    o = op1(t, q) + 2 * np.eye(q)
    k = t.i(0, L - 1)
    upd = t.flag()
    t.note(k=k, upd=upd)
    new = [np.einsum("st,tab->sab", o, A[j]) if j == k else A[j] for j in range(L)]
    if gap(new) < 0.1:
        raise Skip()
    s.apply_op_1s(as_op(t, o), k=k, do_update=upd)
    if not upd:
        for j in range(L):
            t.close("the operator acts on the tensors at its offset only", s.A[j], new[j], 1e-9)
        s.update(restore_CF=False)
    new = normalised(new)
    e = uenvs(new)
    for j in range(L):
        t.close("the state after applying the operator", urdm(arrs(s.A), j, 2, ([dn(x) for x in s.l], [dn(x) for x in s.r])), urdm(new, j, 2, e), 1e-6)
        x = op1(t, q)
        t.close("expectation values after applying the operator", s.expect_1s(x, j), uexpect(new, x, j, 1, e), 1e-6)


@case("C17", 2)
def blocked(t):
    """values at an offset against the equivalent single-site-block state"""
    s = state(t, L=t.i(2, 3), qhi=2)
    A, e = ref(s)
    q, L = s.q, s.L
    b = copy.deepcopy(s)
    b.convert_to_TI_blocked()
    for k in range(L):
        o = op1(t, q)
        big = np.kron(np.kron(np.eye(q ** k), o), np.eye(q ** (L - 1 - k)))
        t.close("a one-site operator in the block", b.expect_1s(big), s.expect_1s(o, k), 1e-6)
        o2 = t.op(q * q, q * q)
        big = np.kron(np.kron(np.eye(q ** k), o2), np.eye(q ** (2 * L - 2 - k))).reshape([q ** L] * 4)
        t.close("a two-site operator in two blocks", b.expect_2s(big), s.expect_2s(o2.reshape([q] * 4), k), 1e-6)
