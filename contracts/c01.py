"""C01: plain transfer maps (core_common / tdvp_common)."""
FUNCS = {}


def contract(fn):
    FUNCS[fn.__name__] = fn
    return fn


def xs(V, kind, d1, d2, nm="x"):
    """environment argument: dense, diagonal or identity"""
    if kind == "dense":
        x = V.t(nm, d1, d2)
        return x, x
    mm = V.mod("matmul")
    if kind == "diag":
        d = V.t(nm + "d", d1)
        return mm.simple_diag_matrix(d), V.einsum("a,ab->ab", d, V.eye(d1))
    return mm.eyemat(d1), V.eye(d1)


def pair(V, kind, left):
    q, a, b = V.dim("q"), V.dim("a"), V.dim("b")
    if kind == "dense":
        c, d = V.dim("c"), V.dim("d")
    elif left:
        c, d = a, V.dim("d")
    else:
        c, d = V.dim("c"), b
    A1, A2 = V.t("A1", q, a, b), V.t("A2", q, c, d)
    x, xd = xs(V, kind, a if left else b, c if left else d)
    return q, A1, A2, x, xd


@contract
def eps_l_noop(V):
    tm = V.mod("tdvp_common")
    q, A1, A2, x, xd = pair(V, V.choice("x", "dense", "diag", "eye"), True)
    got = tm.eps_l_noop(x, A1, A2)
    V.eq("eps_l_noop = sum_s A1[s]^H x A2[s]", got, V.einsum("sab,ac,scd->bd", A1.conj(), xd, A2))
    V.frame()


@contract
def eps_r_noop(V):
    tm = V.mod("tdvp_common")
    q, A1, A2, x, xd = pair(V, V.choice("x", "dense", "diag", "eye"), False)
    got = tm.eps_r_noop(x, A1, A2)
    V.eq("eps_r_noop = sum_s A1[s] x A2[s]^H", got, V.einsum("sab,bd,scd->ac", A1, xd, A2.conj()))
    V.frame()


@contract
def eps_l_noop_inplace(V):
    V.mixed(True)
    tm = V.mod("tdvp_common")
    q, A1, A2, x, xd = pair(V, V.choice("x", "dense", "diag", "eye"), True)
    out = V.undef(A1.shape[2], A2.shape[2], like=(A1, A2, x))
    got = tm.eps_l_noop_inplace(x, A1, A2, out)
    V.eq("eps_l_noop_inplace writes the result", out, V.einsum("sab,ac,scd->bd", A1.conj(), xd, A2))
    V.is_("eps_l_noop_inplace returns out", got, out)
    V.frame()


@contract
def eps_r_noop_inplace(V):
    V.mixed(True)
    tm = V.mod("tdvp_common")
    q, A1, A2, x, xd = pair(V, V.choice("x", "dense", "diag", "eye"), False)
    out = V.undef(A1.shape[1], A2.shape[1], like=(A1, A2, x))
    got = tm.eps_r_noop_inplace(x, A1, A2, out)
    V.eq("eps_r_noop_inplace writes the result", out, V.einsum("sab,bd,scd->ac", A1, xd, A2.conj()))
    V.is_("eps_r_noop_inplace returns out", got, out)
    V.frame()


@contract
def adjointness(V):
    """<y, E_r(x)> = <E_l(y), x> on the real functions"""
    tm, mm = V.mod("tdvp_common"), V.mod("matmul")
    q, a, b, c, d = [V.dim(n) for n in "qabcd"]
    A1, A2 = V.t("A1", q, a, b), V.t("A2", q, c, d)
    x, y = V.t("x", b, d), V.t("y", a, c)
    V.eq("adot(y, eps_r(x)) = adot(eps_l(y), x)", mm.adot(y, tm.eps_r_noop(x, A1, A2)),
         mm.adot(tm.eps_l_noop(y, A1, A2), x))


@contract
def eps_r_noop_multi_2(V):
    tm = V.mod("tdvp_common")
    q, p, a, b, c, d, e, f = [V.dim(n) for n in "qpabcdef"]
    A, B = V.t("A", q, a, b), V.t("B", p, b, c)
    A2, B2 = V.t("A2", q, d, e), V.t("B2", p, e, f)
    x = V.t("x", c, f)
    got = tm.eps_r_noop_multi(x, [A, B], [A2, B2])
    V.eq("eps_r_noop_multi composes two sites", got,
         V.einsum("sab,tbc,cf,sde,tef->ad", A, B, x, A2.conj(), B2.conj()))
    V.frame()


@contract
def eps_r_noop_multi_merged(V):
    tm = V.mod("tdvp_common")
    q, p, a, b, c, d, e, f = [V.dim(n) for n in "qpabcdef"]
    A, B = V.t("A", q, a, b), V.t("B", p, b, c)
    AA2 = V.t("AA2", q, p, d, f)
    x = V.t("x", c, f)
    got = tm.eps_r_noop_multi(x, [A, B], [AA2])
    V.eq("eps_r_noop_multi with one merged side", got,
         V.einsum("sab,tbc,cf,stdf->ad", A, B, x, AA2.conj()))
    V.frame()


@contract
def eps_r_noop_multi_3(V):
    tm = V.mod("tdvp_common")
    q, p, r = V.dim("q"), V.dim("p"), V.dim("r")
    a, b, c, g = [V.dim(n) for n in "abcg"]
    d, e, f, h = [V.dim(n) for n in "defh"]
    A, B, C = V.t("A", q, a, b), V.t("B", p, b, c), V.t("C", r, c, g)
    A2, B2, C2 = V.t("A2", q, d, e), V.t("B2", p, e, f), V.t("C2", r, f, h)
    x = V.t("x", g, h)
    got = tm.eps_r_noop_multi(x, [A, B, C], [A2, B2, C2])
    V.eq("eps_r_noop_multi composes three sites", got,
         V.einsum("sab,tbc,ucg,gh,sde,tef,ufh->ad", A, B, C, x, A2.conj(), B2.conj(), C2.conj()))
    V.frame()


@contract
def eps_r_noop_multi_1(V):
    tm = V.mod("tdvp_common")
    q, A1, A2, x, xd = pair(V, "dense", False)
    V.eq("eps_r_noop_multi with one tensor", tm.eps_r_noop_multi(x, [A1], [A2]),
         V.einsum("sab,bd,scd->ac", A1, xd, A2.conj()))
