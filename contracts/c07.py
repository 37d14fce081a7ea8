"""C07: measurements of a finite chain -- every routine is the stated contraction of environments, tensors and operators,
for every chain length, site, dimension, environment representation and distance."""
from .base import registry, Chain
FUNCS, contract = registry()
KINDS = ("dense", "diag", "eye")


def chain(V, kinds=KINDS, **k):
    return Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, V.choice("kind", *kinds), **k)


def op(V, name, *dims):
    """an operator as an array and as a function of its indices"""
    if V.choice(name + " is", "array", "function") == "array":
        o = V.t(name, *dims)
        return o, o
    f = V.fn_op(name, *dims)
    return f, f.tensor


@contract
def expect_1s(V):
    c = chain(V)
    n = c.site()
    o, od = op(V, "op", c.q(n), c.q(n))
    V.eq("expect_1s", c.s.expect_1s(o, n), V.einsum("da,tab,bc,sdc,st->", c.l(n - 1), c.A(n), c.r(n), c.A(n).conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_2s(V):
    c = chain(V)
    V.assume(c.N >= 2)
    n = c.site(hi=c.N - 1)
    q, p = c.q(n), c.q(n + 1)
    o, od = op(V, "op", q, p, q, p)
    A, B = c.A(n), c.A(n + 1)
    AA = None
    if V.choice("AA", "none", "given") == "given":
        AA = V.mod("tdvp_common").calc_AA(A, B)
    V.eq("expect_2s", c.s.expect_2s(o, n, AA=AA), V.einsum("da,uab,vbc,ce,sdf,tfe,stuv->", c.l(n - 1), A, B, c.r(n + 1), A.conj(),
                                                          B.conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_3s(V):
    c = chain(V)
    V.assume(c.N >= 3)
    n = c.site(hi=c.N - 2)
    q, p, w = c.q(n), c.q(n + 1), c.q(n + 2)
    o, od = op(V, "op", q, p, w, q, p, w)
    A, B, C = c.A(n), c.A(n + 1), c.A(n + 2)
    V.eq("expect_3s", c.s.expect_3s(o, n), V.einsum("da,xab,ybc,zce,ef,udg,vgh,whf,uvwxyz->", c.l(n - 1), A, B, C, c.r(n + 2),
                                                   A.conj(), B.conj(), C.conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


def right(V, c, lo, hi, x):
    """x carried from the right of site hi to the left of site lo"""
    return V.fold(lambda k, z: V.einsum("sab,bd,scd->ac", c.A(k), z, c.A(k).conj()), x, lambda k: (c.D(k), c.D(k)), lo, hi + 1,
                  up=False)


def left(V, c, lo, hi, x):
    """x carried from the left of site lo to the right of site hi"""
    return V.fold(lambda k, z: V.einsum("sab,ac,scd->bd", c.A(k).conj(), z, c.A(k)), x, lambda k: (c.D(k - 1), c.D(k - 1)), lo, hi + 1)


def left_op(V, c, n, x, o):
    return V.einsum("sab,ac,tcd,st->bd", c.A(n).conj(), x, c.A(n), o)


@contract
def expect_1s_1s(V):
    c = chain(V)
    V.assume(c.N >= 2)
    n1 = c.site("n1", 1, c.N - 1)
    n2 = c.site("n2", n1 + 1, c.N)
    o1, o1d = op(V, "op1", c.q(n1), c.q(n1))
    o2, o2d = op(V, "op2", c.q(n2), c.q(n2))
    x = left_op(V, c, n1, c.l(n1 - 1), o1d)
    x = left(V, c, n1 + 1, n2 - 1, x)
    V.eq("<op1 op2>", c.s.expect_1s_1s(o1, o2, n1, n2), V.einsum("ab,ba->", left_op(V, c, n2, x, o2d), c.r(n2)))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def density_1s(V):
    c = chain(V)
    n = c.site()
    V.eq("density_1s", c.s.density_1s(n), V.einsum("da,tab,bc,sdc->st", c.l(n - 1), c.A(n), c.r(n), c.A(n).conj()))
    c.unchanged("A", "l", "r")


@contract
def density_2s(V):
    c = chain(V)
    V.assume(c.N >= 2)
    n1 = c.site("n1", 1, c.N - 1)
    n2 = c.site("n2", n1 + 1, c.N)
    rho = c.s.density_2s(n1, n2)
    A, B = c.A(n1), c.A(n2)
    q, p = c.q(n1), c.q(n2)
    s, t, u, v = V.int("s", 0, q - 1), V.int("t", 0, q - 1), V.int("u", 0, p - 1), V.int("v", 0, p - 1)
    x = right(V, c, n1 + 1, n2 - 1, V.einsum("ab,bc,dc->ad", B[v], c.r(n2), B[u].conj()))
    V.true("shape", rho.shape[0] == q * p)
    V.eq("density_2s", rho[s * p + u, t * p + v], V.einsum("da,ab,bc,dc->", c.l(n1 - 1), A[t], x, A[s].conj()))
    c.unchanged("A", "l", "r")


@contract
def expect_string_1s(V):
    c = chain(V, uniform_q=True)
    n = c.site()
    d = V.int("d", 1, c.N - n + 1)
    q = c.q(n)
    o = V.t("op", q, q)
    res = c.s.expect_string_1s(o, n, d)
    j = V.int("j", n, n + d - 1)
    x = V.fold(lambda k, z: left_op(V, c, k, z, o), c.l(n - 1), lambda k: (c.D(k - 1), c.D(k - 1)), n, j,
               peel=c.kind != "dense")
    V.eq("string of length j - n + 1", res[j - n], V.einsum("ab,ba->", left_op(V, c, j, x, o), c.r(j)))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_MPO(V):
    c = chain(V)
    n1 = c.site("n1")
    n2 = c.site("n2", n1)
    m = V.dims("m")
    V.fix(m, 0, 1)
    V.fix(m, n2 - n1 + 1, 1)
    M = V.family("M", lambda j: (m(j), m(j + 1), c.q(n1 + j), c.q(n1 + j)))
    got = c.s.expect_MPO(V.list(n2 - n1 + 1, M), n1)
    x = V.fold(lambda k, z: V.einsum("mnst,tab,nbd,scd->mac", M(k - n1), c.A(k), z, c.A(k).conj()),
               V.reshape(c.r(n2), (1, c.D(n2), c.D(n2))), lambda k: (m(k - n1 + 1), c.D(k), c.D(k)), n1, n2 + 1, up=False)
    V.eq("<MPO>", got, V.einsum("ab,ab->", c.l(n1 - 1).conj(), x[0]))
    c.unchanged("A", "l", "r")
    V.frame()
