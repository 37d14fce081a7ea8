"""C02: operator transfer maps, merged tensors and operator products."""
from .base import registry, env
FUNCS, contract = registry()


def one(V):
    q, a, b, c, d = [V.dim(n) for n in "qabcd"]
    return V.t("A1", q, a, b), V.t("A2", q, c, d), V.t("o", q, q), (q, a, b, c, d)


@contract
def eps_l_op_1s(V):
    tm = V.mod("tdvp_common")
    k = V.choice("x", "dense", "diag", "eye")
    q, a, b, c, d = [V.dim(n) for n in "qabcd"]
    if k != "dense":
        c = a
    A1, A2, o = V.t("A1", q, a, b), V.t("A2", q, c, d), V.t("o", q, q)
    x, xd = env(V, k, a, c)
    got = tm.eps_l_op_1s(x, A1, A2, o)
    # <s|op|t>: the map adjoint to eps_r_op_1s
    V.eq("eps_l_op_1s = sum_st conj(o[t,s]) A1[s]^H x A2[t]", got,
         V.einsum("sab,ac,tcd,ts->bd", A1.conj(), xd, A2, o.conj()))
    V.frame()


@contract
def eps_r_op_1s(V):
    tm = V.mod("tdvp_common")
    k = V.choice("x", "dense", "diag", "eye")
    q, a, b, c, d = [V.dim(n) for n in "qabcd"]
    if k != "dense":
        d = b
    A1, A2, o = V.t("A1", q, a, b), V.t("A2", q, c, d), V.t("o", q, q)
    x, xd = env(V, k, b, d)
    got = tm.eps_r_op_1s(x, A1, A2, o)
    V.eq("eps_r_op_1s = sum_st o[s,t] A1[t] x A2[s]^H", got, V.einsum("tab,bd,scd,st->ac", A1, xd, A2.conj(), o))
    V.frame()


@contract
def op_1s_adjointness(V):
    tm, mm = V.mod("tdvp_common"), V.mod("matmul")
    A1, A2, o, (q, a, b, c, d) = one(V)
    x, y = V.t("x", b, d), V.t("y", a, c)
    V.eq("<y, E_r^o(x)> = <E_l^o(y), x>", mm.adot(y, tm.eps_r_op_1s(x, A1, A2, o)),
         mm.adot(tm.eps_l_op_1s(y, A1, A2, o), x))


def two(V, ket=True):
    q, p, a, b, c, d, e, f = [V.dim(n) for n in "qpabcdef"]
    return (V.t("A1", q, a, b), V.t("A2", p, b, c), V.t("A3", q, d, e), V.t("A4", p, e, f),
            (q, p, a, b, c, d, e, f))


@contract
def eps_r_op_2s_A(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    o, x = V.t("o", q, p, q, p), V.t("x", c, f)
    want = V.einsum("uvst,sab,tbc,cf,ude,vef->ad", o, A1, A2, x, A3.conj(), A4.conj())
    V.eq("eps_r_op_2s_A", tm.eps_r_op_2s_A(x, A1, A2, A3, A4, o), want)
    V.frame()


@contract
def eps_r_op_2s_AA12(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    o, x = V.t("o", q, p, q, p), V.t("x", c, f)
    AA = V.t("AA", q, p, a, c)
    V.eq("eps_r_op_2s_AA12", tm.eps_r_op_2s_AA12(x, AA, A3, A4, o),
         V.einsum("uvst,stac,cf,ude,vef->ad", o, AA, x, A3.conj(), A4.conj()))
    V.frame()


@contract
def eps_r_op_2s_AA_func_op(V):
    tm = V.mod("tdvp_common")
    q, p, a, c, d, f = [V.dim(n) for n in "qpacdf"]
    AA, BB, x = V.t("AA", q, p, a, c), V.t("BB", q, p, d, f), V.t("x", c, f)
    op = V.fn_op("o", q, p, q, p)
    V.eq("eps_r_op_2s_AA_func_op", tm.eps_r_op_2s_AA_func_op(x, AA, BB, op),
         V.einsum("uvst,stac,cf,uvdf->ad", op.tensor, AA, x, BB.conj()))
    V.frame()


@contract
def eps_r_op_2s_C12(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    C, x = V.t("C", q, p, a, c), V.t("x", c, f)
    V.eq("eps_r_op_2s_C12", tm.eps_r_op_2s_C12(x, C, A3, A4), V.einsum("uvac,cf,ude,vef->ad", C, x, A3.conj(), A4.conj()))
    V.frame()


@contract
def eps_r_op_2s_C34(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    C, x = V.t("C", q, p, d, f), V.t("x", c, f)
    V.eq("eps_r_op_2s_C34", tm.eps_r_op_2s_C34(x, A1, A2, C), V.einsum("uab,vbc,cf,uvdf->ad", A1, A2, x, C.conj()))
    V.frame()


@contract
def eps_r_op_2s_AA12_C34(V):
    tm = V.mod("tdvp_common")
    k = V.choice("x", "dense", "diag", "eye")
    q, p, a, c, d, f = [V.dim(n) for n in "qpacdf"]
    if k != "dense":
        f = c
    AA, C = V.t("AA", q, p, a, c), V.t("C", q, p, d, f)
    x, xd = env(V, k, c, f)
    want = V.einsum("stac,cf,stdf->ad", AA, xd, C.conj())
    V.eq("eps_r_op_2s_AA12_C34", tm.eps_r_op_2s_AA12_C34(x, AA, C), want)
    V.eq("eps_r_op_2s_C12_AA34", tm.eps_r_op_2s_C12_AA34(x, AA, C), want)
    V.frame()


@contract
def eps_l_op_2s_AA12_C34(V):
    tm = V.mod("tdvp_common")
    k = V.choice("x", "dense", "diag", "eye")
    q, p, a, c, d, f = [V.dim(n) for n in "qpacdf"]
    if k != "dense":
        d = a
    AA, C = V.t("AA", q, p, a, c), V.t("C", q, p, d, f)
    x, xd = env(V, k, a, d)
    V.eq("eps_l_op_2s_AA12_C34", tm.eps_l_op_2s_AA12_C34(x, AA, C), V.einsum("stac,ad,stdf->cf", AA.conj(), xd, C))
    V.frame()


@contract
def eps_l_op_2s_A1_A2_C34(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    C, x = V.t("C", q, p, d, f), V.t("x", a, d)
    V.eq("eps_l_op_2s_A1_A2_C34", tm.eps_l_op_2s_A1_A2_C34(x, A1, A2, C),
         V.einsum("uab,vbc,ad,uvdf->cf", A1.conj(), A2.conj(), x, C))
    V.frame()


@contract
def eps_r_op_3s(V):
    tm = V.mod("tdvp_common")
    q, p, r, a, c, d, f = [V.dim(n) for n in "qpracdf"]
    C, B, x = V.t("C", q, p, r, a, c), V.t("B", q, p, r, d, f), V.t("x", c, f)
    V.eq("eps_r_op_3s_C123_AAA456", tm.eps_r_op_3s_C123_AAA456(x, C, B), V.einsum("stuac,cf,studf->ad", C, x, B.conj()))
    V.frame()


@contract
def eps_l_op_3s(V):
    tm = V.mod("tdvp_common")
    q, p, r, a, c, d, f = [V.dim(n) for n in "qpracdf"]
    C, B, x = V.t("C", q, p, r, d, f), V.t("B", q, p, r, a, c), V.t("x", a, d)
    V.eq("eps_l_op_3s_AAA123_C456", tm.eps_l_op_3s_AAA123_C456(x, B, C), V.einsum("stuac,ad,studf->cf", B.conj(), x, C))
    V.frame()


@contract
def calc_AA(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, _ = two(V)
    V.eq("calc_AA[s,t] = A[s] A'[t]", tm.calc_AA(A1, A2), V.einsum("sab,tbc->stac", A1, A2))
    V.frame()


def three(V):
    q, p, r, a, b, c, d = [V.dim(n) for n in "qprabcd"]
    return V.t("A", q, a, b), V.t("B", p, b, c), V.t("C", r, c, d), (q, p, r, a, b, c, d)


@contract
def calc_AAA(V):
    tm = V.mod("tdvp_common")
    A, B, C, _ = three(V)
    want = V.einsum("sab,tbc,ucd->stuad", A, B, C)
    V.eq("calc_AAA", tm.calc_AAA(A, B, C), want)
    V.eq("calc_AAA_AA", tm.calc_AAA_AA(tm.calc_AA(A, B), C), want)
    V.eq("calc_AAA_AAr", tm.calc_AAA_AAr(A, tm.calc_AA(B, C)), want)
    V.frame()


@contract
def calc_AAA_parts(V):
    tm = V.mod("tdvp_common")
    q, p, r, a, b, c = [V.dim(n) for n in "qprabc"]
    AA, C = V.t("AA", q, p, a, b), V.t("C", r, b, c)
    V.eq("calc_AAA_AA of any merged pair", tm.calc_AAA_AA(AA, C), V.einsum("stab,ubc->stuac", AA, C))
    A, BB = V.t("A", q, a, b), V.t("BB", p, r, b, c)
    V.eq("calc_AAA_AAr of any merged pair", tm.calc_AAA_AAr(A, BB), V.einsum("sab,tubc->stuac", A, BB))
    V.frame()


@contract
def calc_C_func_op(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    op = V.fn_op("o", q, p, q, p)
    want = V.einsum("stuv,uab,vbc->stac", op.tensor, A1, A2)
    V.eq("calc_C_func_op", tm.calc_C_func_op(op, A1, A2), want)
    V.eq("calc_C_func_op_AA", tm.calc_C_func_op_AA(op, tm.calc_AA(A1, A2)), want)
    V.frame()


@contract
def calc_C_mat_op_AA(V):
    tm = V.mod("tdvp_common")
    q, p, a, c = [V.dim(n) for n in "qpac"]
    o, AA = V.t("o", q, p, q, p), V.t("AA", q, p, a, c)
    want = V.einsum("stuv,uvac->stac", o, AA)
    V.eq("calc_C_mat_op_AA", tm.calc_C_mat_op_AA(o, AA), want)
    V.eq("calc_C_mat_op_AA_tensordot", tm.calc_C_mat_op_AA_tensordot(o, AA), want)
    want = V.einsum("uvst,uvac->stac", o.conj(), AA)
    V.eq("calc_C_conj_mat_op_AA", tm.calc_C_conj_mat_op_AA(o, AA), want)
    V.eq("calc_C_conj_mat_op_AA_tensordot", tm.calc_C_conj_mat_op_AA_tensordot(o, AA), want)
    V.frame()


@contract
def calc_C_3s(V):
    tm = V.mod("tdvp_common")
    q, p, r, a, c = [V.dim(n) for n in "qprac"]
    o, AAA = V.t("o", q, p, r, q, p, r), V.t("AAA", q, p, r, a, c)
    want = V.einsum("stuxyz,xyzac->stuac", o, AAA)
    V.eq("calc_C_3s_mat_op_AAA", tm.calc_C_3s_mat_op_AAA(o, AAA), want)
    V.eq("calc_C_3s_mat_op_AAA_tensordot", tm.calc_C_3s_mat_op_AAA_tensordot(o, AAA), want)
    V.frame()


@contract
def tensor_product_ops(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    m = V.dim("m")
    op, U, W = V.tp_op("h", m, q, p)
    V.eq("calc_C_mat_op_tp", tm.calc_C_mat_op_tp(op, A1, A2), V.einsum("mus,mvt,sab,tbc->uvac", U, W, A1, A2))
    C = tm.calc_C_tp(op, A1, A2)
    x = V.t("x", c, f)
    V.eq("eps_r_op_2s_C12_tp after calc_C_tp", tm.eps_r_op_2s_C12_tp(x, C, A3, A4),
         V.einsum("mus,mvt,sab,tbc,cf,ude,vef->ad", U, W, A1, A2, x, A3.conj(), A4.conj()))
    y = V.t("y", d, a)
    V.eq("eps_l_op_2s_C34_tp after calc_C_tp", tm.eps_l_op_2s_C34_tp(y, A3, A4, C),
         V.einsum("mus,mvt,sab,tbc,da,ude,vef->fc", U, W, A1, A2, y, A3.conj(), A4.conj()))
    V.frame()


@contract
def calc_C_tp(V):
    tm = V.mod("tdvp_common")
    A1, A2, A3, A4, (q, p, a, b, c, d, e, f) = two(V)
    m = V.dim("m")
    op, U, W = V.tp_op("h", m, q, p)
    C = tm.calc_C_tp(op, A1, A2)
    i = V.int("i", 0, m - 1)
    V.eq("calc_C_tp[i][0]", C[i][0], V.einsum("us,sab->uab", U[i], A1))
    V.eq("calc_C_tp[i][1]", C[i][1], V.einsum("us,sab->uab", W[i], A2))


@contract
def mpo_maps(V):
    tm = V.mod("tdvp_common")
    q, a, b, c, d, m, n = [V.dim(z) for z in "qabcdmn"]
    A1, A2, o = V.t("A1", q, a, b), V.t("A2", q, c, d), V.t("o", m, n, q, q)
    x = V.t("x", n, b, d)
    # op[m, n, bra, ket]
    V.eq("eps_r_op_MPO", tm.eps_r_op_MPO(x, A1, A2, o), V.einsum("tab,mnst,nbd,scd->mac", A1, o, x, A2.conj()))
    y = V.t("y", m, a, c)
    V.eq("eps_l_op_MPO", tm.eps_l_op_MPO(y, A1, A2, o), V.einsum("tab,mnst,mac,scd->nbd", A1.conj(), o.conj(), y, A2))
    V.frame()


@contract
def apply_MPO_local(V):
    tm = V.mod("tdvp_common")
    q, a, b, m, n = [V.dim(z) for z in "qabmn"]
    A, M = V.t("A", q, a, b), V.t("M", m, n, q, q)
    got = tm.apply_MPO_local(M, A)
    want = V.reshape(V.einsum("mnst,tab->sambn", M, A), (q, a * m, b * n))
    V.eq("apply_MPO_local", got, want)
    V.frame()
