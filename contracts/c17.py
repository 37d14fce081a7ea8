"""C17: measurements of a uniform state -- every routine is the stated contraction with the environments and tensors of the
right block positions, for every block length, position, dimension and environment representation."""
from .base import registry, Uniform
FUNCS, contract = registry()
KINDS = ("dense", "diag", "RCF", "LCF")


def uni(V, kinds=KINDS, **k):
    return Uniform(V, V.mod("mps_uniform").EvoMPS_MPS_Uniform, V.choice("kind", *kinds), **k)


def op(V, name, *dims):
    """an operator as an array and as a function of its indices"""
    if V.choice(name + " is", "array", "function") == "array":
        o = V.t(name, *dims)
        return o, o
    f = V.fn_op(name, *dims)
    return f, f.tensor


@contract
def expect_1s(V):
    c = uni(V)
    k = c.pos()
    o, od = op(V, "op", c.q, c.q)
    V.eq("expect_1s", c.s.expect_1s(o, k), V.einsum("da,tab,bc,sdc,st->", c.l(k - 1), c.A(k), c.r(k), c.A(k).conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_2s(V):
    c = uni(V)
    k = c.pos(ahead=1)
    q = c.q
    o, od = op(V, "op", q, q, q, q)
    A, B = c.A(k), c.A(k + 1)
    V.eq("expect_2s", c.s.expect_2s(o, k), V.einsum("da,uab,vbc,ce,sdf,tfe,stuv->", c.l(k - 1), A, B, c.r(k + 1), A.conj(),
                                                   B.conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_2s_tp(V):
    c = uni(V)
    k = c.pos(ahead=1)
    m = V.int("m", 1, 3)
    tp, U, W = V.tp_op("h", m, c.q, c.q)
    A, B = c.A(k), c.A(k + 1)
    V.eq("expect_2s_tp", c.s.expect_2s_tp(tp, k), V.einsum("da,uab,vbc,ce,sdf,tfe,msu,mtv->", c.l(k - 1), A, B, c.r(k + 1),
                                                          A.conj(), B.conj(), U, W))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_3s(V):
    c = uni(V)
    k = c.pos(ahead=2)
    q = c.q
    o, od = op(V, "op", q, q, q, q, q, q)
    A, B, C = c.A(k), c.A(k + 1), c.A(k + 2)
    V.eq("expect_3s", c.s.expect_3s(o, k), V.einsum("da,xab,ybc,zce,ef,udg,vgh,whf,uvwxyz->", c.l(k - 1), A, B, C, c.r(k + 2),
                                                   A.conj(), B.conj(), C.conj(), od))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def density_1s(V):
    c = uni(V)
    k = c.pos()
    V.eq("density_1s", c.s.density_1s(k), V.einsum("da,tab,bc,sdc->st", c.l(k - 1), c.A(k), c.r(k), c.A(k).conj()))
    c.unchanged("A", "l", "r")


@contract
def basis_occupancy(V):
    c = uni(V)
    k = c.pos()
    z = V.einsum("da,sab,bc,sdc->s", c.l(k - 1), c.A(k), c.r(k), c.A(k).conj())
    V.eq("basis_occupancy", c.s.basis_occupancy(k), z.real)
    c.unchanged("A", "l", "r")


@contract
def apply_op_1s(V):
    c = uni(V)
    k = c.pos()
    o, od = op(V, "op", c.q, c.q)
    c.s.apply_op_1s(o, k, do_update=False)
    V.eq("the operator acts on the tensor of the position", c.s.A[k], V.einsum("st,tab->sab", od, c.A(k)))
    i = V.int("other", 0, c.L - 1)
    if i != k:
        V.eq("the other tensors are left unchanged", c.s.A[i], c.A(i))
    V.frame()


@contract
def expect_1s_1s(V):
    """any distance: the environments are carried over the sites in between"""
    c = uni(V)
    k = c.pos()
    d = V.int("d", 1, 5 if not V.symbolic else None)
    o1, od1 = op(V, "op1", c.q, c.q)
    o2, od2 = op(V, "op2", c.q, c.q)
    V.cases(d == 1)
    x = V.einsum("sab,ac,tcd,st->bd", c.A(k).conj(), c.l(k - 1), c.A(k), od1)
    x = V.fold(lambda j, z: V.einsum("sab,ac,scd->bd", c.A(k + j).conj(), z, c.A(k + j)), x, lambda j: (c.D, c.D), 1, d)
    x = V.einsum("sab,ac,tcd,st->bd", c.A(k + d).conj(), x, c.A(k + d), od2)
    V.eq("expect_1s_1s", c.s.expect_1s_1s(o1, o2, d, k), V.einsum("ab,ba->", x, c.r(k + d)))
    c.unchanged("A", "l", "r")
    V.frame()


def corr(V, c, k, j, od1, od2):
    """<op1_k op2_(k+j)>, j >= 1"""
    x = V.einsum("sab,ac,tcd,st->bd", c.A(k).conj(), c.l(k - 1), c.A(k), od1)
    x = V.fold(lambda j, z: V.einsum("sab,ac,scd->bd", c.A(k + j).conj(), z, c.A(k + j)), x, lambda j: (c.D, c.D), 1, j)
    x = V.einsum("sab,ac,tcd,st->bd", c.A(k + j).conj(), x, c.A(k + j), od2)
    return V.einsum("ab,ba->", x, c.r(k + j))


def ev(V, c, k, od):
    return V.einsum("da,tab,bc,sdc,st->", c.l(k - 1), c.A(k), c.r(k), c.A(k).conj(), od)


@contract
def expect_1s_1s_all(V):
    """all distances up to d"""
    c = uni(V)
    k = c.pos()
    d = V.int("d", 1, 5 if not V.symbolic else None)
    o1, o2 = V.t("op1", c.q, c.q), V.t("op2", c.q, c.q)
    j = V.int("j", 0, d)
    res = c.s.expect_1s_1s(o1, o2, d, k, return_intermediates=True)
    V.true("one value for each distance", res.shape[0] == d + 1)
    if j == 0:
        V.eq("distance 0", res[j], ev(V, c, k, V.einsum("st,tu->su", o1, o2)))
    else:
        V.eq("distance j", res[j], corr(V, c, k, j, o1, o2))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def correlation_1s_1s(V):
    c = uni(V, kinds=("dense", "RCF"))
    k = c.pos()
    d = V.int("d", 1, 5 if not V.symbolic else None)
    o1, o2 = V.t("op1", c.q, c.q), V.t("op2", c.q, c.q)
    if V.choice("operators", "different", "same") == "same":
        o2 = o1
    j = V.int("j", 0, d)
    ccf = c.s.correlation_1s_1s(o1, o2, d, k)
    V.true("one value for each distance", ccf.shape[0] == d + 1)
    e = ev(V, c, k, o1) * ev(V, c, k + j, o2)
    if j == 0:
        V.eq("distance 0", ccf[j], ev(V, c, k, V.einsum("st,tu->su", o1, o2)) - e)
    else:
        V.eq("distance j", ccf[j], corr(V, c, k, j, o1, o2) - e)
    c.unchanged("A", "l", "r")
    V.frame()


@contract
def expect_string_1s(V):
    c = uni(V)
    k = c.pos()
    d = V.int("d", 1, 5 if not V.symbolic else None)
    o, od = op(V, "op", c.q, c.q)
    j = V.int("j", 1, d)
    V.cases(j == 1)
    res = c.s.expect_string_1s(o, k, d)
    V.true("one value for each length", res.shape[0] == d)
    step = lambda n, z: V.einsum("tab,ac,scd,st->bd", c.A(n).conj(), z, c.A(n), od.conj())
    x = step(k + j - 1, V.fold(step, c.l(k - 1), lambda n: (c.D, c.D), k, k + j - 1, peel=c.kind != "dense"))
    V.eq("string of length j", res[j - 1], V.einsum("ba,ba->", x.conj(), c.r(k + j - 1)))
    c.unchanged("A", "l", "r")
    V.frame()
