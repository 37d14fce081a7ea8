"""C07 finite measurements"""
import numpy as np
import scipy.linalg as la
from .lib import *


def setup(t, Nlo=1, Nhi=5, q=None, N=None):
    s, psi = mk_chain(t, update=False, Nlo=Nlo, Nhi=Nhi, q=q, N=N)
    w = t.pick("cf", "norm")
    if w == "cf":
        s.update()
    else:
        s.update(restore_CF=False)
    return s, psi / la.norm(psi)


def opt(t, *d):
    """operator tensor with out indices first"""
    x = t.op(*(tuple(d) + tuple(d)))
    return x


def ev(psi, op, sites):
    return vdot(psi, apply_op(psi, op, sites))


def site(t, lo, hi):
    return t.pick(lo, hi, t.i(lo, hi))


@case("C07", 3)
def one_two_three(t):
    s, psi = setup(t)
    q = s.q
    n = site(t, 1, s.N)
    o = opt(t, q[n])
    t.close("expect_1s", s.expect_1s(as_op(t, o), n), ev(psi, o, [n - 1]))
    if s.N >= 2:
        n = site(t, 1, s.N - 1)
        o = opt(t, q[n], q[n + 1])
        t.close("expect_2s", s.expect_2s(as_op(t, o), n), ev(psi, o, [n - 1, n]))
    if s.N >= 3:
        n = site(t, 1, s.N - 2)
        o = opt(t, q[n], q[n + 1], q[n + 2])
        t.close("expect_3s", s.expect_3s(as_op(t, o), n), ev(psi, o, [n - 1, n, n + 1]))


@case("C07", 2)
def separated(t):
    s, psi = setup(t, Nlo=2)
    n1 = t.i(1, s.N - 1)
    n2 = t.i(n1 + 1, s.N)
    o1, o2 = opt(t, s.q[n1]), opt(t, s.q[n2])
    t.note(n1=n1, n2=n2)
    t.close("expect_1s_1s", s.expect_1s_1s(as_op(t, o1), as_op(t, o2), n1, n2),
            vdot(psi, apply_op(apply_op(psi, o2, [n2 - 1]), o1, [n1 - 1])))


@case("C07", 2)
def separated_intermediates(t):
    N = t.i(2, 5)
    qq = t.i(2, 3)
    s, psi = setup(t, N=N, q=[0] + [qq] * N)
    n1 = t.i(1, N - 1)
    n2 = t.i(n1 + 1, N)
    o1, o2 = opt(t, qq), opt(t, qq)
    want = [vdot(psi, apply_op(apply_op(psi, o2, [n1 - 1 + j]), o1, [n1 - 1])) for j in range(n2 - n1 + 1)]
    t.close("expect_1s_1s with intermediates", s.expect_1s_1s(as_op(t, o1), as_op(t, o2), n1, n2, return_intermediates=True), want)


@case("C07", 2)
def correlations(t):
    N = t.i(2, 5)
    qq = t.i(2, 3)
    s, psi = setup(t, N=N, q=[0] + [qq] * N)
    n1 = t.i(1, N)
    d = t.i(0, N - n1)
    o1 = opt(t, qq)
    same = t.flag(0.3)
    o2 = o1 if same else opt(t, qq)
    e1 = [ev(psi, o1, [n1 - 1 + j]) for j in range(d + 1)]
    e2 = [ev(psi, o2, [n1 - 1 + j]) for j in range(d + 1)]
    cc = [vdot(psi, apply_op(apply_op(psi, o2, [n1 - 1 + j]), o1, [n1 - 1])) - e1[0] * e2[j] for j in range(d + 1)]
    t.note(n1=n1, d=d)
    t.close("correlation_1s_1s", s.correlation_1s_1s(o1, o2, n1, d), cc)
    c, x1, x2 = s.correlation_1s_1s(o1, o2, n1, d, return_exvals=True)
    t.close("correlation_1s_1s (with expectation values)", c, cc)
    t.close("expectation values of the first operator", x1, e1)
    t.close("expectation values of the second operator", x2, e2)


@case("C07", 2)
def strings(t):
    N = t.i(1, 5)
    qq = t.i(2, 3)
    s, psi = setup(t, N=N, q=[0] + [qq] * N)
    n = t.i(1, N)
    d = t.i(1, N - n + 1)
    o = opt(t, qq)
    want = []
    x = psi
    for j in range(d):
        x = apply_op(x, o, [n - 1 + j])
        want.append(vdot(psi, x))
    t.note(n=n, d=d)
    t.close("expect_string_1s", s.expect_string_1s(as_op(t, o), n, d), want)


@case("C07", 2)
def mpo(t):
    s, psi = setup(t)
    n1 = t.i(1, s.N)
    k = t.i(1, s.N - n1 + 1)
    m = [1] + [t.i(1, 3) for _ in range(k - 1)] + [1]
    M = [t.op(m[j], m[j + 1], s.q[n1 + j], s.q[n1 + j]) for j in range(k)]
    # dense operator
    op = M[0][0]
    op = np.transpose(op, (1, 2, 0))                # out in m
    for j in range(1, k):
        op = np.tensordot(op, M[j], axes=([-1], [0]))   # out in m' out in
        a, b = op.shape[0], op.shape[1]
        op = np.transpose(op, (0, 3, 1, 4, 2)).reshape(a * M[j].shape[2], b * M[j].shape[3], M[j].shape[1])
    op = op[:, :, 0]
    t.note(n1=n1, k=k, m=m)
    t.close("expect_MPO", s.expect_MPO(M, n1), vdot(psi, apply_op(psi, op, list(range(n1 - 1, n1 - 1 + k)))))


# the library's convention: rho[s, t] = <|s><t|>, the transpose of <s| rho |t>
@case("C07", 3)
def densities(t):
    s, psi = setup(t)
    n = site(t, 1, s.N)
    t.close("density_1s", s.density_1s(n), rdm(psi, [n - 1]).T)
    if s.N >= 2:
        n1 = t.i(1, s.N - 1)
        n2 = t.i(n1 + 1, s.N)
        t.note(n1=n1, n2=n2)
        t.close("density_2s", s.density_2s(n1, n2), rdm(psi, [n1 - 1, n2 - 1]).T)
