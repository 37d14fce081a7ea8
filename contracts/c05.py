"""C05: environments of a finite chain -- the update recursions for every number of sites and every dimension."""
from .base import registry, Chain
FUNCS, contract = registry()


@contract
def calc_l(V):
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, V.choice("kind", "dense", "diag", "eye"), named=("l",))
    how = V.choice("range", "all", "part")
    lo, hi = (1, c.N) if how == "all" else (V.int("n_low", 1, c.N), V.int("n_high", 1, c.N))
    L = V.ghost("L", lambda i: (c.D(i), c.D(i)), lo - 1, c.l(lo - 1),
                lambda L, i: V.einsum("sab,ac,scd->bd", c.A(i).conj(), L(i - 1), c.A(i)), lists=("l",))
    if how == "all":
        c.s.calc_l()
    else:
        V.assume(lo <= hi)
        c.s.calc_l(n_low=lo, n_high=hi)
    n = V.int("n", lo, hi)
    V.eq("l[n] is the contraction of the sites up to n with l[n_low - 1]", c.s.l[n], L(n))
    V.eq("the starting environment is kept", V.dense(c.s.l[lo - 1]), c.l(lo - 1))
    c.unchanged("A", "r")


@contract
def calc_r(V):
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, V.choice("kind", "dense", "diag", "eye"), named=("r",))
    how = V.choice("range", "all", "part")
    lo, hi = (0, c.N - 1) if how == "all" else (V.int("n_low", 0, c.N - 1), V.int("n_high", 0, c.N - 1))
    R = V.ghost("R", lambda i: (c.D(i), c.D(i)), hi + 1, c.r(hi + 1),
                lambda R, i: V.einsum("sab,bd,scd->ac", c.A(i + 1), R(i + 1), c.A(i + 1).conj()), lists=("r",))
    if how == "all":
        c.s.calc_r()
    else:
        V.assume(lo <= hi)
        c.s.calc_r(n_low=lo, n_high=hi)
    n = V.int("n", lo, hi)
    V.eq("r[n] is the contraction of the sites after n with r[n_high + 1]", c.s.r[n], R(n))
    V.eq("the starting environment is kept", V.dense(c.s.r[hi + 1]), c.r(hi + 1))
    c.unchanged("A", "l")


@contract
def simple_renorm(V):
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic)
    up = V.choice("update_r", True, False)
    nrm = c.l(c.N)[0, 0].real
    V.assume(nrm > 0)
    c.s.simple_renorm(update_r=up)
    n = V.int("n", 0, c.N)
    V.eq("l[N] is divided by the norm", c.s.l[c.N], c.l(c.N) / nrm)
    if n < c.N:
        V.eq("l[n]", c.s.l[n], c.l(n))
        V.eq("r[n] is divided by the norm", c.s.r[n], c.r(n) / nrm if up else c.r(n))
    if n == c.N:
        V.eq("the last tensor is divided by the root of the norm", V.einsum("sab,tcd->sabtcd", c.s.A[n], c.s.A[n].conj()),
             V.einsum("sab,tcd->sabtcd", c.A(n), c.A(n).conj()) / nrm)
        V.eq("r[N]", c.s.r[n], c.r(n))
    elif n > 0:
        V.eq("the other tensors are left unchanged", c.s.A[n], c.A(n))


@contract
def update_without_gauge(V):
    """update(restore_CF=False): environments of the new tensors, norm one"""
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, V.choice("kind", "dense", "diag", "eye"), named=("l", "r"))
    N = c.N
    norm = V.choice("normalize", True, False)
    L = V.ghost("L", lambda i: (c.D(i), c.D(i)), 0, c.l(0),
                lambda L, i: V.einsum("sab,ac,scd->bd", c.A(i).conj(), L(i - 1), c.A(i)), lists=("l",))
    nrm = L(N)[0, 0].real
    V.assume(nrm > 0)
    f = nrm if norm else 1
    R = V.ghost("R", lambda i: (c.D(i), c.D(i)), N, c.r(N),
                lambda R, i: V.einsum("sab,bd,scd->ac", c.A(i + 1), R(i + 1), c.A(i + 1).conj()) / (f if i + 1 == N else 1),
                lists=("r",))
    c.s.update(restore_CF=False, normalize=norm)
    n = V.int("n", 0, N - 1)
    V.eq("l[n] belongs to the sites up to n", V.dense(c.s.l[n]), L(n))
    V.eq("r[n] belongs to the sites after n of the updated state", V.dense(c.s.r[n]), R(n))
    V.eq("l[N]", V.dense(c.s.l[N]), L(N) / f)
    V.eq("r[N]", V.dense(c.s.r[N]), c.r(N))
    V.eq("the last tensor changes by a positive factor", V.einsum("sab,tcd->sabtcd", c.s.A[N], c.s.A[N].conj()),
         V.einsum("sab,tcd->sabtcd", c.A(N), c.A(N).conj()) / f)
    m = V.int("m", 1, N - 1)
    V.eq("the other tensors are left unchanged", c.s.A[m], c.A(m))
