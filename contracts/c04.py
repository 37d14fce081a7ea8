"""C04: construction of finite chains -- tensors and product states for every length and every dimension."""
from .base import registry, Chain
FUNCS, contract = registry()


def cls(V):
    return V.mod("mps_gen").EvoMPS_MPS_Generic


@contract
def set_state_product(V):
    c = Chain(V, cls(V))
    psi = V.family("psi", lambda i: (c.q(i + 1),))
    c.s.set_state_product(V.list(c.N, psi), do_update=False)
    n = c.site()
    want = V.einsum("s,a,b->sab", psi(n - 1), V.unit(c.D(n - 1), 0), V.unit(c.D(n), 0))
    V.eq("A[n][s] is psi[n - 1][s] at (0, 0) and zero elsewhere", c.s.A[n], want)
    c.unchanged("l", "r")
    V.frame()


@contract
def set_state_from_tensors(V):
    c = Chain(V, cls(V))
    D, q = V.dims("Dn"), V.dims("qn")
    T = V.family("T", lambda i: (q(i), D(i - 1), D(i)))
    c.s.set_state_from_tensors(V.list(c.N + 1, lambda i: None if i == 0 else T(i)), do_update=False)
    n = c.site()
    V.eq("the tensors are the given ones", c.s.A[n], T(n))
    V.true("local dimension", c.s.q[n] == q(n))
    k = V.int("k", 0, c.N)
    V.true("bond dimension", c.s.D[k] == D(k))
    V.true("number of sites", c.s.N == c.N)
    V.frame()


@contract
def wrong_number_of_tensors(V):
    c = Chain(V, cls(V))
    M = V.int("M", 1, 6)
    V.assume(M != c.N)
    T = V.family("T", lambda i: (2, 1, 1))
    V.raises("another number of sites is refused",
             lambda: c.s.set_state_from_tensors(V.list(M + 1, lambda i: None if i == 0 else T(i)), do_update=False))
