"""C08: operator application and overlaps of finite chains -- exact for every length, site and dimension profile."""
from .base import registry, Chain
FUNCS, contract = registry()
KINDS = ("dense", "diag", "eye")


def mps(V):
    return V.mod("mps_gen").EvoMPS_MPS_Generic


@contract
def inner(V):
    kind = V.choice("kind", *KINDS)
    c = Chain(V, mps(V), kind)
    e = Chain(V, mps(V), "dense", tag="2", N=c.N, q=c.q)
    x = V.fold(lambda k, z: V.einsum("sab,bd,scd->ac", c.A(k), z, e.A(k).conj()), c.r(c.N), lambda k: (c.D(k), e.D(k)), 1, c.N + 1,
               up=False, peel=kind != "dense")
    V.eq("<other|this>", c.s.inner(e.s), x[0, 0])
    c.unchanged("A", "l", "r")
    e.unchanged("A", "l", "r")
    V.frame()


@contract
def inner_lengths(V):
    c = Chain(V, mps(V))
    e = Chain(V, mps(V), tag="2", q=c.q)
    V.assume(c.N != e.N)
    V.raises("different lengths", lambda: c.s.inner(e.s))


@contract
def apply_op_1s(V):
    c = Chain(V, mps(V))
    n = c.site()
    if V.choice("op is", "array", "function") == "array":
        o = od = V.t("op", c.q(n), c.q(n))
    else:
        o = V.fn_op("op", c.q(n), c.q(n))
        od = o.tensor
    c.s.apply_op_1s(o, n, do_update=False)
    i = V.int("i", 1, c.N)
    V.eq("the operator acts on its site, the other tensors stay", c.s.A[i],
         V.einsum("st,tab->sab", od, c.A(i)) if i == n else c.A(i))
    c.unchanged("l", "r")
    V.frame()


@contract
def apply_op_1s_range(V):
    c = Chain(V, mps(V))
    n = V.int("n", -3, 9)
    V.assume((n < 1) | (n > c.N))
    V.raises("no such site", lambda: c.s.apply_op_1s(V.t("op", 2, 2), n))


@contract
def apply_MPO_local(V):
    tm = V.mod("tdvp_common")
    q, a, b, m, n = [V.dim(x) for x in "qabmn"]
    M, A = V.t("M", m, n, q, q), V.t("A", q, a, b)
    V.eq("bond indices are (state, operator) pairs", tm.apply_MPO_local(M, A),
         V.reshape(V.einsum("mnst,tab->sambn", M, A), (q, a * m, b * n)))
    V.frame()


@contract
def apply_op_MPO(V):
    """a run of sites gets merged tensors with (state, operator) bond pairs; the other sites stay"""
    c = Chain(V, mps(V))
    n1 = V.int("n1", 1, c.N)
    m = V.int("m", 1, 4)
    V.assume(n1 + m <= c.N + 1)
    M = V.dims("M")
    V.fix(M, 0, 1)
    V.fix(M, m, 1)
    W = V.family("W", lambda j: (M(j), M(j + 1), c.q(n1 + j), c.q(n1 + j)))
    c.s.apply_op_MPO(V.list(m, W), n1, do_update=False)
    n = c.site()
    if n1 <= n and n < n1 + m:
        j = n - n1
        V.eq("merged tensor", c.s.A[n], V.reshape(V.einsum("mnst,tab->sambn", W(j), c.A(n)),
                                                 (c.q(n), c.D(n - 1) * M(j), c.D(n) * M(j + 1))))
    else:
        V.eq("the other tensors stay", c.s.A[n], c.A(n))
    V.frame()
