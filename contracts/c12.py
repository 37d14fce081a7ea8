"""C12: energy recursions -- one step of each, for every dimension, and the term applied to the sites' tensors."""
from .base import registry, env, Tdvp
FUNCS, contract = registry()


def maybe(V, name, make):
    """None or a value"""
    return None if V.choice(name, "given", "none") == "none" else make()


def right(V, k):
    """site n with its neighbours: dimensions and tensors for a k-site term starting at n"""
    q, p, r = V.dim("q"), V.dim("p"), V.dim("r")
    d = [V.dim("d%d" % i) for i in range(k + 1)]
    A = [V.t("A%d" % i, (q, p, r)[i], d[i], d[i + 1]) for i in range(k)]
    return (q, p, r), d, A


@contract
def calc_K(V):
    tm = V.mod("tdvp_common")
    (q, p, _), d, A = right(V, 2)
    k = V.choice("r", "dense", "diag", "eye")
    K1, C = V.t("Kp1", d[1], d[1]), V.t("C", q, p, d[0], d[2])
    r, rd = env(V, k, d[2], d[2], "r")
    kl = V.choice("l", "dense", "diag", "eye", "none")
    l, ld = (None, None) if kl == "none" else env(V, kl, d[0], d[0], "l")
    AA = V.t("AA", q, p, d[0], d[2])
    K, h = tm.calc_K(K1, C, l, r, A[0], AA)
    Hr = V.einsum("stab,bc,stdc->ad", C, rd, AA.conj())
    V.eq("K[n] = sum_s A[s] K[n+1] A[s]^H + term", K, V.einsum("sab,bc,sdc->ad", A[0], K1, A[0].conj()) + Hr)
    if l is not None:
        V.eq("local energy", h, V.einsum("ab,ab->", ld.conj(), Hr))
    V.frame()


@contract
def calc_K_3s(V):
    tm = V.mod("tdvp_common")
    (q, p, w), d, A = right(V, 3)
    k = V.choice("r", "dense", "diag", "eye")
    K1, C = V.t("Kp1", d[1], d[1]), V.t("C", q, p, w, d[0], d[3])
    r, rd = env(V, k, d[3], d[3], "r")
    kl = V.choice("l", "dense", "diag", "eye", "none")
    l, ld = (None, None) if kl == "none" else env(V, kl, d[0], d[0], "l")
    AA = V.t("AAA", q, p, w, d[0], d[3])
    K, h = tm.calc_K_3s(K1, C, l, r, A[0], AA)
    Hr = V.einsum("stuab,bc,studc->ad", C, rd, AA.conj())
    V.eq("K[n] = sum_s A[s] K[n+1] A[s]^H + term", K, V.einsum("sab,bc,sdc->ad", A[0], K1, A[0].conj()) + Hr)
    if l is not None:
        V.eq("local energy", h, V.einsum("ab,ab->", ld.conj(), Hr))
    V.frame()


@contract
def calc_K_l(V):
    tm = V.mod("tdvp_common")
    (p, q, _), d, A = right(V, 2)
    k = V.choice("l", "dense", "diag", "eye")
    K1, C = V.t("Km1", d[1], d[1]), V.t("C", p, q, d[0], d[2])
    l, ld = env(V, k, d[0], d[0], "l")
    kr = V.choice("r", "dense", "diag", "eye", "none")
    r, rd = (None, None) if kr == "none" else env(V, kr, d[2], d[2], "r")
    AA = V.t("AA", p, q, d[0], d[2])
    K, h = tm.calc_K_l(K1, C, l, r, A[1], AA)
    Hl = V.einsum("stab,ac,stcd->bd", AA.conj(), ld, C)
    V.eq("K[n] = sum_s A[s]^H K[n-1] A[s] + term", K, V.einsum("sab,ac,scd->bd", A[1].conj(), K1, A[1]) + Hl)
    if r is not None:
        V.eq("local energy", h, V.einsum("ab,ba->", Hl, rd))
    V.frame()


@contract
def calc_K_3s_l(V):
    tm = V.mod("tdvp_common")
    (p, w, q), d, A = right(V, 3)
    k = V.choice("l", "dense", "diag", "eye")
    K1, C = V.t("Km1", d[2], d[2]), V.t("C", p, w, q, d[0], d[3])
    l, ld = env(V, k, d[0], d[0], "l")
    kr = V.choice("r", "dense", "diag", "eye", "none")
    r, rd = (None, None) if kr == "none" else env(V, kr, d[3], d[3], "r")
    AA = V.t("AAA", p, w, q, d[0], d[3])
    K, h = tm.calc_K_3s_l(K1, C, l, r, A[2], AA)
    Hl = V.einsum("stuab,ac,stucd->bd", AA.conj(), ld, C)
    V.eq("K[n] = sum_s A[s]^H K[n-1] A[s] + term", K, V.einsum("sab,ac,scd->bd", A[2].conj(), K1, A[2]) + Hl)
    if r is not None:
        V.eq("local energy", h, V.einsum("ab,ba->", Hl, rd))
    V.frame()


@contract
def calc_K_tp(V):
    tm = V.mod("tdvp_common")
    (q, p, _), d, A = right(V, 2)
    m = V.dim("m")
    K1 = V.t("Kp1", d[1], d[1])
    op, U, W = V.tp_op("o", m, q, p)
    k = V.choice("r", "dense", "diag", "eye")
    r, rd = env(V, k, d[2], d[2], "r")
    l = V.t("l", d[0], d[0])
    C = tm.calc_C_tp(op, A[0], A[1])
    K, h = tm.calc_K_tp(K1, l, r, A[0], A[1], C)
    Hr = V.einsum("mus,mvt,sab,tbc,cd,uea,vfe->fg".replace("cd,uea,vfe->fg", "cd,ufe,ved->af"), U, W, A[0], A[1], rd, A[0].conj(), A[1].conj())
    V.eq("K[n] (term as a sum of products)", K, V.einsum("sab,bc,sdc->ad", A[0], K1, A[0].conj()) + Hr)
    V.eq("local energy", h, V.einsum("ab,ab->", l.conj(), Hr))
    V.frame()


@contract
def calc_K_l_tp(V):
    tm = V.mod("tdvp_common")
    (p, q, _), d, A = right(V, 2)
    m = V.dim("m")
    K1 = V.t("Km1", d[1], d[1])
    op, U, W = V.tp_op("o", m, p, q)
    k = V.choice("l", "dense", "diag", "eye")
    l, ld = env(V, k, d[0], d[0], "l")
    r = V.t("r", d[2], d[2])
    C = tm.calc_C_tp(op, A[0], A[1])
    K, h = tm.calc_K_l_tp(K1, l, r, A[0], A[1], C)
    Hl = V.einsum("mus,mvt,sab,tbc,ea,uef,vfg->gc", U, W, A[0], A[1], ld, A[0].conj(), A[1].conj())
    V.eq("K[n] (term as a sum of products)", K, V.einsum("sab,ac,scd->bd", A[1].conj(), K1, A[1]) + Hl)
    V.eq("local energy", h, V.einsum("ab,ba->", Hl, r))
    V.frame()


# the methods: every site of a chain of any length

def term(V, c, n):
    """H applied to the two- or three-site tensor starting at n"""
    if c.sites == 2:
        return V.einsum("stuv,uab,vbc->stac", c.h(n), c.A(n), c.A(n + 1))
    return V.einsum("stwuvx,uab,vbc,xcd->stwad", c.h(n), c.A(n), c.A(n + 1), c.A(n + 2))


@contract
def method_calc_C(V):
    """C[n] for every site, Hamiltonian list with any terms missing or function"""
    c = Tdvp(V, V.choice("sites", 2, 3), V.choice("ham", "list", "function"))
    c.s.calc_C()
    n = V.int("n", 1, c.N - c.sites + 1)
    if V.cases(c.present(n)):
        V.eq("C[n] is the term applied to the tensors", c.s.C[n], term(V, c, n))
    else:
        V.true("no C for a missing term", c.s.C[n] is None)
    m = V.int("m", 1, c.N - 1)
    V.eq("AA[n] is the product of the tensors", c.s.AA[m], V.einsum("sab,tbc->stac", c.A(m), c.A(m + 1)))
    if c.sites == 3:
        k = V.int("k", 1, c.N - 2)
        V.eq("AAA[n] is the product of the tensors", c.s.AAA[k], V.einsum("sab,tbc,ucd->stuad", c.A(k), c.A(k + 1), c.A(k + 2)))
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("2_dense", "2_diag", "2_eye", "3_dense", "3_diag", "3_eye")
def method_calc_K(V, variant):
    """right-to-left recursion over every site, local energies and the total"""
    sites, kind = variant.split("_")
    c = Tdvp(V, int(sites), "list", derived=("AA", "AAA", "C"), kind=kind)
    L = c.sites

    def local(i):
        X = c.AA(i) if L == 2 else c.AAA(i)
        e = "stab,bc,stdc->ad" if L == 2 else "stuab,bc,studc->ad"
        return V.einsum(e, c.C(i), c.r(i + L - 1), X.conj())

    def step(K, i):
        z = V.einsum("sab,bd,scd->ac", c.A(i), K(i + 1), c.A(i).conj())
        return z + local(i) if c.present(i) else z
    K = V.ghost("K", lambda i: (c.D(i - 1), c.D(i - 1)), lambda i: i > c.N - L + 1,
                lambda i: V.zeros(c.D(i - 1), c.D(i - 1)), step, lists=("K",))
    c.s.calc_K()
    n = c.site()
    V.eq("K[n]", c.s.K[n], K(n))
    m = V.int("m", 1, c.N - L + 1)
    if V.cases(c.present(m)):
        V.eq("local energy of a term", c.s.h_expect[m], V.einsum("ab,ab->", c.l(m - 1).conj(), local(m)))
    else:
        V.eq("a missing term has no energy", c.s.h_expect[m], 0)
    V.eq("total energy", c.s.H_expect, K(1)[0, 0])
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("2_dense", "2_diag", "2_eye", "3_dense", "3_diag", "3_eye")
def method_calc_K_l(V, variant):
    """left-to-right recursion over every site"""
    sites, kind = variant.split("_")
    c = Tdvp(V, int(sites), "list", derived=("AA", "AAA", "C"), kind=kind)
    L = c.sites

    def local(i):
        X = c.AA(i) if L == 2 else c.AAA(i)
        e = "stab,ac,stcd->bd" if L == 2 else "stuab,ac,stucd->bd"
        return V.einsum(e, X.conj(), c.l(i - 1), c.C(i))

    def step(K, i):
        z = V.einsum("sab,ac,scd->bd", c.A(i).conj(), K(i - 1), c.A(i))
        return z + local(i - L + 1) if c.present(i - L + 1) else z
    K = V.ghost("K", lambda i: (c.D(i), c.D(i)), lambda i: i < L,
                lambda i: V.zeros(c.D(i), c.D(i)), step, lists=("K",))
    c.s.calc_K_l()
    n = c.site()
    V.eq("K_l[n]", c.s.K[n], K(n))
    m = V.int("m", 1, c.N - L + 1)
    if V.cases(c.present(m)):
        V.eq("local energy of a term", c.s.h_expect[m], V.einsum("ba,ab->", local(m), c.r(m + L - 1)))
    else:
        V.eq("a missing term has no energy", c.s.h_expect[m], 0)
    V.eq("total energy", c.s.H_expect, K(c.N)[0, 0])
    c.unchanged("A", "l", "r")
    V.frame()
