"""C08 operator application and overlaps"""
import numpy as np
import scipy.linalg as la
from .lib import *
import evoMPS.mps_gen as mg
import evoMPS.split_step as ss


@case("C08", 3)
def one_site(t):
    s, psi = mk_chain(t, update=t.flag())
    psi = dense(s.A)
    n = t.pick(1, s.N, t.i(1, s.N))
    o = t.op(s.q[n], s.q[n])
    want = apply_op(psi, o, [n - 1])
    up = t.flag() and la.norm(want) > 1e-3 * la.norm(psi)      # a zero state cannot be normalised
    s.apply_op_1s(as_op(t, o), n, do_update=up)
    t.note(n=n, up=up)
    if up:
        same_ray(t, "apply_op_1s (normalised)", dense(s.A), want)
        check_envs(t, s, "apply_op_1s")
    else:
        t.close("apply_op_1s", dense(s.A), want)


@case("C08", 1)
def bad_site(t):
    s, psi = mk_chain(t)
    t.raises("site 0 is refused", s.apply_op_1s, np.eye(s.q[1]), 0)
    t.raises("site N + 1 is refused", s.apply_op_1s, np.eye(s.q[s.N]), s.N + 1)


@case("C08", 2)
def mpo(t):
    s, psi = mk_chain(t)
    psi = dense(s.A)
    n1 = t.i(1, s.N)
    k = t.i(1, s.N - n1 + 1)
    m = [1] + [t.i(1, 3) for _ in range(k - 1)] + [1]
    M = [t.op(m[j], m[j + 1], s.q[n1 + j], s.q[n1 + j]) for j in range(k)]
    op = np.transpose(M[0][0], (1, 2, 0))
    for j in range(1, k):
        op = np.tensordot(op, M[j], axes=([-1], [0]))
        a, b = op.shape[0], op.shape[1]
        op = np.transpose(op, (0, 3, 1, 4, 2)).reshape(a * M[j].shape[2], b * M[j].shape[3], M[j].shape[1])
    want = apply_op(psi, op[:, :, 0], list(range(n1 - 1, n1 - 1 + k)))
    up = t.flag() and la.norm(want) > 1e-3 * la.norm(psi)
    s.apply_op_MPO(M, n1, do_update=up)
    if up:
        same_ray(t, "apply_op_MPO (normalised)", dense(s.A), want, 1e-7)
    else:
        t.close("apply_op_MPO", dense(s.A), want)


@case("C08", 3)
def overlap(t):
    s, a = mk_chain(t, update=t.flag())
    N, q = s.N, [int(x) for x in s.q]
    D = cap_D(N, rand_D(t, N, q), q)
    o, b = mk_chain(t, N=N, q=q, D=D, update=t.flag())
    a, b = dense(s.A), dense(o.A)
    t.close("inner(other) = <other|this>", s.inner(o), vdot(b, a))
    t.close("inner is conjugate symmetric", o.inner(s), np.conj(vdot(b, a)))
    z, _ = mk_chain(t, N=N + 1)
    t.raises("different lengths are refused", s.inner, z)
