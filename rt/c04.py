"""C04 finite-chain construction"""
import numpy as np
import scipy.linalg as la
from .lib import *
import evoMPS.mps_gen as mg


@case("C04", 4)
def bond_dimension_cap(t):
    N = t.i(1, 6)
    q = [t.i(0, 4)] + [t.i(1, 4) for _ in range(N)]
    D = [t.i(1, 30) for _ in range(N + 1)]
    got = mg.correct_bond_dim_open_chain(np.array(D), np.array(q))
    want = [1] * (N + 1)
    lo, hi = [1] * (N + 1), [1] * (N + 1)
    for n in range(1, N + 1):
        lo[n] = lo[n - 1] * q[n]
    for n in range(N - 1, -1, -1):
        hi[n] = hi[n + 1] * q[n + 1]
    for n in range(1, N):
        want[n] = min(D[n], lo[n], hi[n])
    t.note(N=N, D=D, q=q)
    got = list(got)
    t.true("no bond is enlarged", all(got[n] <= max(D[n], 1) for n in range(1, N)), str(got))
    t.true("ends are one", got[0] == 1 and got[N] == 1, str(got))
    # neighbour-supported bound
    t.true("every bond is supported by its neighbours",
           all(got[n] <= got[n - 1] * q[n] for n in range(1, N + 1)) or
           all(got[n] <= lo[n] and got[n] <= hi[n] for n in range(1, N)), str(got))
    t.true("bonds equal the minimum of the request and the half-chain dimensions", got == want, "%s %s" % (got, want))


@case("C04", 3)
def room_to_grow(t):
    N = t.i(1, 6)
    q = [0] + [t.i(2, 3) for _ in range(N)]
    D = cap_D(N, rand_D(t, N, q, 8), q)
    s = mg.EvoMPS_MPS_Generic(N, D, q)
    Dmax = t.i(1, 10)
    lo, hi = [1] * (N + 1), [1] * (N + 1)
    for n in range(1, N + 1):
        lo[n] = lo[n - 1] * q[n]
    for n in range(N - 1, -1, -1):
        hi[n] = hi[n + 1] * q[n + 1]
    want = any(s.D[n] < min(Dmax, lo[n], hi[n]) for n in range(1, N))
    t.note(N=N, D=list(s.D), q=q, Dmax=Dmax)
    t.true("maxD_is_less_than is true exactly when some bond can grow", bool(s.maxD_is_less_than(Dmax)) == want, str(want))


@case("C04", 2)
def explicit_tensors(t):
    N = t.i(1, 5)
    q = rand_q(t, N)
    D = cap_D(N, rand_D(t, N, q), q)
    A = rand_A(t, N, D, q)
    s = mg.mps_from_tensors_gen([None if a is None else a.copy() for a in A], do_update=False)
    for n in range(1, N + 1):
        t.close("mps_from_tensors_gen keeps the tensors", s.A[n], A[n])
    t.true("mps_from_tensors_gen dimensions", list(s.D) == D and list(s.q[1:]) == q[1:])
    t.close("state", dense(s.A), dense(A))
    # any (also unsupported) bonds through set_state_from_tensors
    D2 = [1] + [t.i(1, 5) for _ in range(N - 1)] + [1]
    q2 = rand_q(t, N)
    A2 = rand_A(t, N, D2, q2)
    s.set_state_from_tensors([None if a is None else a.copy() for a in A2], do_update=False)
    for n in range(1, N + 1):
        t.close("set_state_from_tensors keeps the tensors", s.A[n], A2[n])
    t.true("set_state_from_tensors dimensions", list(s.D) == D2 and list(s.q[1:]) == q2[1:])
    s.set_state_from_tensors([None if a is None else a.copy() for a in A2], do_update=True)
    same_ray(t, "set_state_from_tensors with update keeps the state", dense(s.A), dense(A2))


@case("C04", 3)
def product_state(t):
    N = t.i(1, 5)
    q = rand_q(t, N, hi=4)
    D = cap_D(N, rand_D(t, N, q), q)
    s = mg.EvoMPS_MPS_Generic(N, D, q)
    psi = [t.c(q[n]) for n in range(1, N + 1)]
    t.note(N=N, D=D, q=q)
    want = np.ones(())
    for p in psi:
        want = np.multiply.outer(want, p)
    s.set_state_product(psi, do_update=False)
    t.true("bond dimensions are kept", [s.A[n].shape for n in range(1, N + 1)] ==
           [(q[n], D[n - 1], D[n]) for n in range(1, N + 1)])
    t.close("set_state_product gives the tensor product", dense(s.A), want)
    s.set_state_product(psi)
    same_ray(t, "set_state_product with update", dense(s.A), want)


@case("C04", 1)
def initial_state(t):
    N = t.i(1, 5)
    q = rand_q(t, N)
    D = cap_D(N, rand_D(t, N, q, 6), q)
    s = mg.EvoMPS_MPS_Generic(N, D, q)
    t.note(N=N, D=D, q=q)
    for n in range(1, N + 1):
        t.true("shapes", s.A[n].shape == (q[n], s.D[n - 1], s.D[n]))
    t.raises("wrong length of D is refused", mg.EvoMPS_MPS_Generic, N, [1] * N, q)
    t.raises("wrong length of q is refused", mg.EvoMPS_MPS_Generic, N, D, q + [2])
    s.randomize()
    t.close("norm after randomize", la.norm(dense(s.A)), 1.0)
