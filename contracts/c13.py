"""C13: the parameter vectors of the projection onto the tangent plane -- each calc_x variant is the stated contraction
of its arguments for every dimension, environment representation and set of missing terms."""
from .base import registry, modular, henv, given, Tdvp
FUNCS, contract = registry()

KINDS = ("dense", "diag", "eye")


def roots(V, a, b):
    """l and r roots (and inverses) around a site with left dimension a and right dimension b"""
    kl, kr = V.choice("kinds", ("dense", "dense"), ("diag", "eye"), ("eye", "diag"))
    ls, lsi = henv(V, kl, a, "ls"), henv(V, kl, a, "lsi")
    rs, rsi = henv(V, kr, b, "rs"), henv(V, kr, b, "rsi")
    return kl, kr, ls, lsi, rs, rsi


def right_setup(V):
    q, qm, qp = V.dim("q"), V.dim("qm"), V.dim("qp")
    z, a, b, c = V.dim("z"), V.dim("a"), V.dim("b"), V.dim("c")
    V.assume(q * b - a > 0)
    A, Am, Ap = V.t("A", q, a, b), V.t("Am", qm, z, a), V.t("Ap", qp, b, c)
    Vsh = V.t("Vsh", q, b, q * b - a)
    return q, qm, qp, z, a, b, c, A, Am, Ap, Vsh


@contract
def calc_x(V):
    tm = V.mod("tdvp_common")
    q, qm, qp, z, a, b, c, A, Am, Ap, Vsh = right_setup(V)
    kl, kr, (ls, lsd), (lsi, lsid), (rs, rsd), (rsi, rsid) = roots(V, a, b)
    want = V.zeros(a, q * b - a)
    C = Cm = K = None
    rp = lm = None
    if given(V, "C"):
        C = V.t("C", q, qp, a, c)
        rp, rpd = henv(V, kr, c, "rp")
        want = want + V.einsum("ae,stef,fg,thg,hi,sij->aj", lsd, C, rpd, Ap.conj(), rsid, Vsh)
    if given(V, "K"):
        K = V.t("K", b, b)
        want = want + V.einsum("ae,sef,fg,gi,sij->aj", lsd, A, K, rsid, Vsh)
    if given(V, "Cm"):
        Cm = V.t("Cm", qm, q, z, b)
        lm, lmd = henv(V, kl, z, "lm")
        want = want + V.einsum("ae,tfe,fg,tsgh,hi,sij->aj", lsid, Am.conj(), lmd, Cm, rsd, Vsh)
    x = tm.calc_x(K, C, Cm, rp, lm, Am, A, Ap, ls, lsi, rs, rsi, Vsh)
    V.eq("x[n]", x, want)
    V.frame()


@contract
def calc_x_tp(V):
    tm = V.mod("tdvp_common")
    q, qm, qp, z, a, b, c, A, Am, Ap, Vsh = right_setup(V)
    m = V.dim("m")
    kl, kr, (ls, lsd), (lsi, lsid), (rs, rsd), (rsi, rsid) = roots(V, a, b)
    want = V.zeros(a, q * b - a)
    C = Cm = K = None
    rp = lm = None
    if given(V, "C"):
        op, U, W = V.tp_op("o", m, q, qp)
        C = tm.calc_C_tp(op, A, Ap)
        rp, rpd = henv(V, kr, c, "rp")
        want = want + V.einsum("ae,mus,sek,mvt,tkf,fg,vhg,hi,uij->aj", lsd, U, A, W, Ap, rpd, Ap.conj(), rsid, Vsh)
    if given(V, "K"):
        K = V.t("K", b, b)
        want = want + V.einsum("ae,sef,fg,gi,sij->aj", lsd, A, K, rsid, Vsh)
    if given(V, "Cm"):
        opm, Um, Wm = V.tp_op("om", m, qm, q)
        Cm = tm.calc_C_tp(opm, Am, A)
        lm, lmd = henv(V, kl, z, "lm")
        want = want + V.einsum("ae,ufe,fg,mut,tgk,mvs,skh,hi,vij->aj", lsid, Am.conj(), lmd, Um, Am, Wm, A, rsd, Vsh)
    x = tm.calc_x_tp(K, C, Cm, rp, lm, Am, A, Ap, ls, lsi, rs, rsi, Vsh)
    V.eq("x[n] (term as a sum of products)", x, want)
    V.frame()


@contract
def calc_x_3s(V):
    tm = V.mod("tdvp_common")
    q, qm, qp, z, a, b, c, A, Am, Ap, Vsh = right_setup(V)
    qmm, qpp, y, d = V.dim("qmm"), V.dim("qpp"), V.dim("y"), V.dim("d")
    kl, kr, (ls, lsd), (lsi, lsid), (rs, rsd), (rsi, rsid) = roots(V, a, b)
    ApAp, AmAm = V.t("ApAp", qp, qpp, b, d), V.t("AmAm", qmm, qm, y, a)
    want = V.zeros(a, q * b - a)
    C = Cm = Cmm = K = None
    rp = rpp = lm = lmm = None
    if given(V, "C"):
        C = V.t("C", q, qp, qpp, a, d)
        rpp, rppd = henv(V, kr, d, "rpp")
        want = want + V.einsum("ae,stuef,fg,tuhg,hi,sij->aj", lsd, C, rppd, ApAp.conj(), rsid, Vsh)
    if given(V, "K"):
        K = V.t("K", b, b)
        want = want + V.einsum("ae,sef,fg,gi,sij->aj", lsd, A, K, rsid, Vsh)
    if given(V, "Cm"):
        Cm = V.t("Cm", qm, q, qp, z, c)
        lm, lmd = henv(V, kl, z, "lm")
        rp, rpd = henv(V, kr, c, "rp")
        want = want + V.einsum("ae,tfe,fg,tsugh,hk,uik,il,slj->aj", lsid, Am.conj(), lmd, Cm, rpd, Ap.conj(), rsid, Vsh)
    if given(V, "Cmm"):
        Cmm = V.t("Cmm", qmm, qm, q, y, b)
        lmm, lmmd = henv(V, kl, y, "lmm")
        want = want + V.einsum("ae,tufe,fg,tusgh,hi,sij->aj", lsid, AmAm.conj(), lmmd, Cmm, rsd, Vsh)
    x = tm.calc_x_3s(K, C, Cm, Cmm, rp, rpp, lm, lmm, AmAm, Am, A, Ap, ApAp, ls, lsi, rs, rsi, Vsh)
    V.eq("x[n] (three-site terms)", x, want)
    V.frame()


def left_setup(V):
    q, qm, qp = V.dim("q"), V.dim("qm"), V.dim("qp")
    z, a, b, c = V.dim("z"), V.dim("a"), V.dim("b"), V.dim("c")
    V.assume(q * a - b > 0)
    A, Am, Ap = V.t("A", q, a, b), V.t("Am", qm, z, a), V.t("Ap", qp, b, c)
    Vsh = V.t("Vsh", q, q * a - b, a)
    return q, qm, qp, z, a, b, c, A, Am, Ap, Vsh


@contract
def calc_x_l(V):
    tm = V.mod("tdvp_common")
    q, qm, qp, z, a, b, c, A, Am, Ap, Vsh = left_setup(V)
    kl, kr, (ls, lsd), (lsi, lsid), (rs, rsd), (rsi, rsid) = roots(V, a, b)
    want = V.zeros(q * a - b, b)
    C = Cm = K = None
    rp = lm = None
    if given(V, "C"):
        C = V.t("C", q, qp, a, c)
        rp, rpd = henv(V, kr, c, "rp")
        want = want + V.einsum("sja,ae,stef,fg,thg,hi->ji", Vsh, lsd, C, rpd, Ap.conj(), rsid)
    if given(V, "Cm"):
        Cm = V.t("Cm", qm, q, z, b)
        lm, lmd = henv(V, kl, z, "lm")
        want = want + V.einsum("sja,ae,tfe,fg,tsgh,hi->ji", Vsh, lsid, Am.conj(), lmd, Cm, rsd)
    if given(V, "K"):
        K = V.t("K", a, a)
        want = want + V.einsum("sja,ae,ef,sfh,hi->ji", Vsh, lsid, K, A, rsd)
    x = tm.calc_x_l(K, C, Cm, rp, lm, Am, A, Ap, ls, lsi, rs, rsi, Vsh)
    V.eq("x[n] (left gauge)", x, want)
    V.frame()


@contract
def calc_x_l_3s(V):
    tm = V.mod("tdvp_common")
    q, qm, qp, z, a, b, c, A, Am, Ap, Vsh = left_setup(V)
    qmm, qpp, y, d = V.dim("qmm"), V.dim("qpp"), V.dim("y"), V.dim("d")
    kl, kr, (ls, lsd), (lsi, lsid), (rs, rsd), (rsi, rsid) = roots(V, a, b)
    ApAp, AmAm = V.t("ApAp", qp, qpp, b, d), V.t("AmAm", qmm, qm, y, a)
    want = V.zeros(q * a - b, b)
    C = Cm = Cmm = K = None
    rp = rpp = lm = lmm = None
    if given(V, "K"):
        K = V.t("K", a, a)
        want = want + V.einsum("sja,ae,ef,sfh,hi->ji", Vsh, lsid, K, A, rsd)
    if given(V, "C"):
        C = V.t("C", q, qp, qpp, a, d)
        rpp, rppd = henv(V, kr, d, "rpp")
        want = want + V.einsum("sja,ae,stuef,fg,tuhg,hi->ji", Vsh, lsd, C, rppd, ApAp.conj(), rsid)
    if given(V, "Cm"):
        Cm = V.t("Cm", qm, q, qp, z, c)
        lm, lmd = henv(V, kl, z, "lm")
        rp, rpd = henv(V, kr, c, "rp")
        want = want + V.einsum("sja,ae,tfe,fg,tsugh,hk,uik,il->jl", Vsh, lsid, Am.conj(), lmd, Cm, rpd, Ap.conj(), rsid)
    if given(V, "Cmm"):
        Cmm = V.t("Cmm", qmm, qm, q, y, b)
        lmm, lmmd = henv(V, kl, y, "lmm")
        want = want + V.einsum("sja,ae,tufe,fg,tusgh,hi->ji", Vsh, lsid, AmAm.conj(), lmmd, Cmm, rsd)
    x = tm.calc_x_l_3s(K, C, Cm, Cmm, rp, rpp, lm, lmm, AmAm, Am, A, Ap, ApAp, ls, lsi, rs, rsi, Vsh)
    V.eq("x[n] (left gauge, three-site terms)", x, want)
    V.frame()


# the methods: any site of a chain of any length, any terms missing

def site_roots(V, c, n):
    ls, lsd = henv(V, "dense", c.D(n - 1), "ls")
    lsi, lsid = henv(V, "dense", c.D(n - 1), "lsi")
    rs, rsd = henv(V, "dense", c.D(n), "rs")
    rsi, rsid = henv(V, "dense", c.D(n), "rsi")
    return (ls, lsi, rs, rsi), (lsd, lsid, rsd, rsid)


def effective(V, c, n, left, roots):
    """the weighted gradient with respect to A[n]: sum over the terms that contain site n, plus the energy of the part beyond"""
    ls, lsi, rs, rsi = roots
    L, N = c.sites, c.N
    F = V.zeros(c.q(n), c.D(n - 1), c.D(n))
    if n <= N - L + 1 and c.present(n):
        C, r = c.C(n), c.r(n + L - 1)
        if L == 2:
            F = F + V.einsum("ae,stef,fg,thg,hi->sai", ls, C, r, c.A(n + 1).conj(), rsi)
        else:
            F = F + V.einsum("ae,stuef,fg,tuhg,hi->sai", ls, C, r, c.AA(n + 1).conj(), rsi)
    if not left and n + 1 <= N - L + 1:
        F = F + V.einsum("ae,sef,fg,gi->sai", ls, c.A(n), c.K(n + 1), rsi)
    if left and n > 1:
        F = F + V.einsum("ae,ef,sfg,gi->sai", lsi, c.K(n - 1), c.A(n), rs)
    if n > 1 and n <= N - L + 2 and c.present(n - 1):
        C, l, A = c.C(n - 1), c.l(n - 2), c.A(n - 1)
        if L == 2:
            F = F + V.einsum("ae,tfe,fg,tsgh,hi->sai", lsi, A.conj(), l, C, rs)
        else:
            F = F + V.einsum("ae,tfe,fg,tsugh,hk,uik,il->sal", lsi, A.conj(), l, C, c.r(n + 1), c.A(n + 1).conj(), rsi)
    if L == 3 and n > 2 and c.present(n - 2):
        F = F + V.einsum("ae,tufe,fg,tusgh,hi->sai", lsi, c.AA(n - 2).conj(), c.l(n - 3), c.C(n - 2), rs)
    return F


@contract.each("right_2", "right_3", "left_2", "left_3")
def method_calc_x(V, variant):
    side, k = variant.split("_")
    left = side == "left"
    c = Tdvp(V, int(k), "list", derived=("AA", "AAA", "C", "K"))
    if left:
        c.has_left_K()
    n = c.site()
    size = c.q(n) * c.D(n - 1) - c.D(n) if left else c.q(n) * c.D(n) - c.D(n - 1)
    V.assume(size > 0)
    (ls, lsi, rs, rsi), dense = site_roots(V, c, n)
    Vsh = V.t("Vsh", c.q(n), size, c.D(n - 1)) if left else V.t("Vsh", c.q(n), c.D(n), size)
    x = (c.s.calc_x_l if left else c.s.calc_x)(n, Vsh, ls, rs, lsi, rsi)
    F = effective(V, c, n, left, dense)
    V.eq("x[n]", x, V.einsum("sja,sai->ji", Vsh, F) if left else V.einsum("sai,sij->aj", F, Vsh))
    c.unchanged("A", "l", "r")
    V.frame()


def roots_stub(V, c):
    """calc_l_r_roots(l, r) by its contract: arbitrary matrices for each pair of environments, after checking the arguments"""
    fam = {k: V.family(k, lambda i, k=k: (c.D(i - 1),) * 2 if k[0] == "l" else (c.D(i),) * 2) for k in ("ls", "lsi", "rs", "rsi")}

    def calc_l_r_roots(lm1, r, zero_tol=None, sanity_checks=False, sc_data=("", 0)):
        n = sc_data[1]
        V.eq("roots are those of l[n-1]", V.dense(lm1), c.l(n - 1))
        V.eq("roots are those of r[n]", V.dense(r), c.r(n))
        V.true("with the object's tolerance", zero_tol is c.s.zero_tol)
        return fam["ls"](n), fam["lsi"](n), fam["rs"](n), fam["rsi"](n)
    V.stub("tdvp_common", "calc_l_r_roots", calc_l_r_roots, "square roots and pseudo-inverse roots of positive matrices")
    return fam


@contract.each("right", "left")
@modular
def calc_B_n(V, side):
    """the tangent tensor from x: B[s] = l^-1/2 x (r^-1/2 V[s])^H, its squared norm, and which roots and null space are used"""
    left = side == "left"
    c = Tdvp(V, 2, "list", attrs=dict(gauge_fixing=side, zero_tol=object()))
    c.s.eta_sq = eta0 = V.t("eta_sq", c.N + 1, frame=False)
    eta0 = eta0 + 0
    n = c.site()
    size = c.q(n) * c.D(n - 1) - c.D(n) if left else c.q(n) * c.D(n) - c.D(n - 1)
    fam = roots_stub(V, c)
    ls, lsi, rs, rsi = [fam[k](n) for k in ("ls", "lsi", "rs", "rsi")]
    if V.cases(size <= 0):
        V.true("no tangent direction", c.s.calc_B_n(n) is None)
        V.frame()
        return
    Vsh = V.t("Vsh", c.q(n), size, c.D(n - 1)) if left else V.t("Vsh", c.q(n), c.D(n), size)
    x = V.t("x", size, c.D(n)) if left else V.t("x", c.D(n - 1), size)

    def calc_Vsh(A, root, sanity_checks=False):
        V.eq("null space of A[n]", A, c.A(n))
        V.eq("weighted with the root", root, ls if left else rs)
        return Vsh
    V.stub("tdvp_common", "calc_Vsh_l" if left else "calc_Vsh", calc_Vsh, "basis of the null space")

    def calc_x(i, vsh, l_s, r_s, l_si, r_si):
        V.true("x of the same site", i == n)
        for lab, got, want in (("V", vsh, Vsh), ("l root", l_s, ls), ("r root", r_s, rs), ("inverse l root", l_si, lsi),
                               ("inverse r root", r_si, rsi)):
            V.eq("x is calculated with the %s" % lab, got, want)
        return x
    setattr(c.s, "calc_x_l" if left else "calc_x", calc_x)
    eta = V.choice("set_eta", True, False)
    given_ = V.choice("roots", "given", "own")
    if given_ == "given":
        k = {"Vlh" if left else "Vrh": Vsh}
        B = c.s.calc_B_n(n, set_eta=eta, l_s_m1=ls, l_si_m1=lsi, r_s=rs, r_si=rsi, **k)
    else:
        B = c.s.calc_B_n(n, set_eta=eta)
    if left:
        V.eq("B[n]", B, V.einsum("ab,scb,cd,de->sae", lsi, Vsh.conj(), x, rsi))
    else:
        V.eq("B[n]", B, V.einsum("ab,bc,sdc,ed->sae", lsi, x, Vsh.conj(), rsi.conj()))
    i = V.int("i", 0, c.N)
    if V.cases(i == n) and eta:
        V.eq("eta_sq[n] = <x, x>", c.s.eta_sq[i], V.einsum("ab,ab->", x.conj(), x))
    else:
        V.eq("eta_sq elsewhere is left", c.s.eta_sq[i], eta0[i])
    c.unchanged("A", "l", "r")
    V.frame()


@contract
@modular
def calc_B(V):
    """one tensor per site from calc_B_n, with the given roots and null spaces handed to the right sites; eta"""
    c = Tdvp(V, 2, "list")
    N, D = c.N, c.D
    c.s.eta_sq = V.t("eta0", N + 1, frame=False)
    has = V.dims("tangent", lo=0)
    Bf = V.family("B", lambda i: (c.q(i), D(i - 1), D(i)))
    ef = V.family("e", lambda i: (), real=True)
    names = ("l_s", "l_si", "r_s", "r_si", "Vlh", "Vrh")
    fam, kw = {}, {}
    if given(V, "roots"):
        for k in names:
            fam[k] = V.family(k, lambda i, k=k: (D(i),) * 2 if k[0] != "V" else (c.q(i), D(i)))
            kw[k] = V.list(N + 1, fam[k])

    def calc_B_n(n, set_eta=True, l_s_m1=None, l_si_m1=None, r_s=None, r_si=None, Vlh=None, Vrh=None):
        V.true("set_eta is handed on", set_eta is eta)
        for k, v in zip(names, (l_s_m1, l_si_m1, r_s, r_si, Vlh, Vrh)):
            if kw:
                V.eq("%s of the site" % k, v, fam[k](n - 1 if k[0] == "l" else n))
            else:
                V.true("no %s" % k, v is None)
        if set_eta:
            c.s.eta_sq[n] = ef(n)
        return None if has(n) == 0 else Bf(n)
    c.s.calc_B_n = calc_B_n
    eta = V.choice("set_eta", True, False)
    B = c.s.calc_B(set_eta=eta, **kw)
    n = c.site()
    if V.cases(has(n) == 0):
        V.true("no tangent tensor", B[n] is None)
    else:
        V.eq("B[n]", B[n], Bf(n))
    V.true("no site zero", B[0] is None)
    if eta:
        V.eq("eta_sq", c.s.eta_sq[n], ef(n))
        tot = V.sum(ef, 1, N + 1)
        V.eq("eta^2 is the sum", c.s.eta * c.s.eta, tot)
    c.unchanged("A", "l", "r")
    V.frame()
