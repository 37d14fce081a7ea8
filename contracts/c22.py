"""C22: dynamical expansion: the two-site component of the Hamiltonian outside the tangent plane and its leading part."""
from .base import registry, modular, Tdvp, henv
FUNCS, contract = registry()
KINDS = ("dense", "diag", "eye")


def basis(V):
    """null-space bases of two neighbouring sites and roots of the environments around them, all arbitrary"""
    q, p = V.dim("q"), V.dim("p")
    D0, D1, D2 = V.dim("D0"), V.dim("D1"), V.dim("D2")
    a, b = V.dim("a"), V.dim("b")
    Vl, Vr = V.t("Vlh", q, a, D0), V.t("Vrh", p, D2, b)
    return q, p, D0, D1, D2, a, b, Vl, Vr


def check(V, got, want):
    Y, eta = got
    V.eq("component outside the tangent plane", Y, want)
    V.eq("its norm", eta, V.einsum("ab,ab->", want.conj(), want))
    V.frame()


@contract
def component_2s(V):
    q, p, D0, D1, D2, a, b, Vl, Vr = basis(V)
    ls, lsd = henv(V, V.choice("l", *KINDS), D0, "l")
    rs, rsd = henv(V, V.choice("r", *KINDS), D2, "r")
    C = V.t("C", q, p, D0, D2)
    check(V, V.mod("tdvp_common").calc_BB_Y_2s(C, Vl, Vr, ls, rs),
          V.einsum("sax,xy,styz,zw,twb->ab", Vl, lsd, C, rsd, Vr))


@contract
def component_2s_tp(V):
    """Hamiltonian as a sum of products: C is the list of pairs of transformed tensors"""
    q, p, D0, D1, D2, a, b, Vl, Vr = basis(V)
    ls, lsd = henv(V, V.choice("l", *KINDS), D0, "l")
    rs, rsd = henv(V, V.choice("r", *KINDS), D2, "r")
    n = V.choice("number of products", 1, 2)
    C = [(V.t("C%d1" % i, q, D0, D1), V.t("C%d2" % i, p, D1, D2)) for i in range(n)]
    check(V, V.mod("tdvp_common").calc_BB_Y_2s_tp(C, Vl, Vr, ls, rs),
          sum(V.einsum("sax,xy,syd,tdz,zw,twb->ab", Vl, lsd, x, y, rsd, Vr) for x, y in C))


@contract
def component_3s(V):
    """three-site terms: those reaching one site further to the right and to the left"""
    q, p, D0, D1, D2, a, b, Vl, Vr = basis(V)
    u, v, Dm, Dp = V.dim("qm"), V.dim("qp"), V.dim("Dm"), V.dim("Dp")
    k = V.choice("environments", *KINDS)
    ls, lsd = henv(V, k, D0, "ls")
    li, lid = henv(V, k, D0, "li")
    rs, rsd = henv(V, k, D2, "rs")
    ri, rid = henv(V, k, D2, "ri")
    l, ld = henv(V, k, Dm, "l")
    r, rd = henv(V, k, Dp, "r")
    right, left = V.choice("right term", "yes", "no") == "yes", V.choice("left term", "yes", "no") == "yes"
    Am = V.t("Am", u, Dm, D0) if left or V.choice("left site", "yes", "no") == "yes" else None
    Ap = V.t("Ap", v, D2, Dp) if right or V.choice("right site", "yes", "no") == "yes" else None
    C = V.t("C", q, p, v, D0, Dp) if right else None
    Cm = V.t("Cm", u, q, p, Dm, D2) if left else None
    want = V.zeros(a, b)
    if right:
        want = want + V.einsum("sax,xy,stvyz,zw,vgw,gh,thb->ab", Vl, lsd, C, rd, Ap.conj(), rid, Vr)
    if left:
        want = want + V.einsum("sax,xy,uey,ef,ustfz,zw,twb->ab", Vl, lid, Am.conj(), ld, Cm, rsd, Vr)
    check(V, V.mod("tdvp_common").calc_BB_Y_2s_ham_3s(Am, Ap, C, Cm, Vl, Vr, l, r, ls, li, rs, ri), want)


@contract
def leading(V):
    """the product of the new blocks is the leading part of the component"""
    tm = V.mod("tdvp_common")
    q, p, D0, D1, D2, a, b, Vl, Vr = basis(V)
    li, lid = henv(V, V.choice("l", *KINDS), D0, "l")
    ri, rid = henv(V, V.choice("r", *KINDS), D2, "r")
    Y, tol, most = V.t("Y", a, b), V.scalar("tol", real=True), V.dim("most")
    V.assume(tol > 0)
    BB12, BB21, k = tm.calc_BB_2s(Y, Vl, Vr, li, ri, dD_max=most, sv_tol=tol)
    U, sv, W = tm.la.svd(Y)
    n = V.count(sv > tol)
    n = n if V.cases(n <= most) else most
    V.true("as many as are above the tolerance, at most the number allowed", k == n)
    V.true("shape of the left block", tuple(BB12.shape) == (q, D0, k))
    V.true("shape of the right block", tuple(BB21.shape) == (p, k, D2))
    part = V.einsum("ai,i,ib->ab", U[:, :n], sv[:n], W[:n])
    V.eq("product of the new blocks", V.einsum("sxi,tiy->stxy", BB12, BB21),
         V.einsum("xe,sae,ab,tfb,fy->stxy", lid, Vl.conj(), part, Vr.conj(), rid))
    V.frame()


def chain(V, sites, **k):
    """a chain, null-space bases (where there are tangent directions) and roots for every site"""
    c = Tdvp(V, sites, "list", **k)
    N = c.N
    kl, kr = V.dims("kl", lo=0), V.dims("kr", lo=0)
    c.Vl = V.family("Vl", lambda i: (c.q(i), kl(i), c.D(i - 1)))
    c.Vr = V.family("Vr", lambda i: (c.q(i), c.D(i), kr(i)))
    c.ls, c.li = [V.family(x, lambda i: (c.D(i), c.D(i)), herm=True) for x in ("ls", "li")]
    c.rs, c.ri = [V.family(x, lambda i: (c.D(i), c.D(i)), herm=True) for x in ("rs", "ri")]
    c.kl, c.kr = kl, kr
    c.lists = dict(l_s=V.list(N + 1, c.ls), l_si=V.list(N + 1, c.li), r_s=V.list(N + 1, c.rs), r_si=V.list(N + 1, c.ri),
                   Vrh=V.list(N + 1, lambda i: None if i == 0 or kr(i) == 0 else c.Vr(i)),
                   Vlh=V.list(N + 1, lambda i: None if i == 0 or kl(i) == 0 else c.Vl(i)))
    return c


@contract.each("2s", "3s")
def components(V, sites):
    """the component on every pair of neighbouring sites of the chain"""
    c = chain(V, int(sites[0]))
    N = c.N
    L = c.lists
    Y, eta = c.s.calc_BB_Y_2s(L["l_s"], L["l_si"], L["r_s"], L["r_si"], L["Vrh"], L["Vlh"])
    n = c.site("n", hi=N - 1)
    V.assume(N >= 2)
    if c.kl(n) == 0 or c.kr(n + 1) == 0:
        V.true("no directions: nothing to add", Y[n] is None)
        V.eq("no directions: no norm", eta[n], 0)
        return
    Vl, Vr = c.Vl(n), c.Vr(n + 1)
    if sites == "2s":
        if not c.present(n):
            V.true("no term: nothing to add", Y[n] is None)
            V.eq("no term: no norm", eta[n], 0)
            return
        want = V.einsum("sax,xy,styz,zw,twb->ab", Vl, c.ls(n - 1), c.C(n), c.rs(n + 1), Vr)
    else:
        want = V.zeros(c.kl(n), c.kr(n + 1))
        if V.cases(n + 2 <= N) and c.present(n):
            want = want + V.einsum("sax,xy,stvyz,zw,vgw,gh,thb->ab", Vl, c.ls(n - 1), c.C(n), c.r(n + 2), c.A(n + 2).conj(),
                                   c.ri(n + 1), Vr)
        if V.cases(n >= 2) and c.present(n - 1):
            want = want + V.einsum("sax,xy,uey,ef,ustfz,zw,twb->ab", Vl, c.li(n - 1), c.A(n - 1).conj(), c.l(n - 2), c.C(n - 1),
                                   c.rs(n + 1), Vr)
    V.eq("component of the pair", Y[n], want)
    V.eq("its norm", eta[n], V.einsum("ab,ab->", want.conj(), want))
    V.frame()


@contract
@modular
def limits(V):
    """the leading part on every pair of neighbours; a limit on the bond dimension is kept"""
    c = Tdvp(V, 2, "list")
    N = c.N
    V.assume(N >= 2)
    D_max = V.int("D_max", 1, 6) if V.choice("D_max", "given", "none") == "given" else 0
    dD_max = V.int("dD_max", 1, 5)
    tol = V.scalar("tol", real=True)
    Yk = V.dims("Yk", lo=0)
    a = {x: V.family(x, lambda i: (2, 2)) for x in ("Y", "Vlh", "Vrh", "l_si", "r_si")}
    L = {x: V.list(N + 1, f) for x, f in a.items() if x != "Y"}
    L["Y"] = V.list(N + 1, lambda i: None if i == 0 or i == N or Yk(i) == 0 else a["Y"](i))
    b12, b21, new = V.family("b12", lambda i: (2, 2)), V.family("b21", lambda i: (2, 2)), V.dims("new", lo=0)
    room = lambda n: dD_max if D_max == 0 or V.cases(D_max - c.D(n) >= dD_max) else D_max - c.D(n)

    def best(Y, Vlh, Vrh, l_si, r_si, dD_max=None, sv_tol=None):
        n = V.which(Y, a["Y"], "component of a pair", N + 1)
        for x, got, m in (("Vlh", Vlh, n), ("Vrh", Vrh, n + 1), ("l_si", l_si, n - 1), ("r_si", r_si, n + 1)):
            V.eq(x + " belongs to the pair", got, a[x](m))
        V.eq("tolerance is handed on", sv_tol, tol)
        V.true("the number of new directions is within the limits", dD_max == room(n))
        return b12(n), b21(n + 1), new(n)
    V.stub("tdvp_common", "calc_BB_2s", best)
    BB12, BB21, dD = c.s.calc_BB_2s(L["Y"], L["Vlh"], L["Vrh"], L["l_si"], L["r_si"], sv_tol=tol, dD_max=dD_max, D_max=D_max)
    n = V.int("n", 0, N)
    use = lambda n: n >= 1 and n < N and Yk(n) != 0 and room(n) > 0
    if use(n):
        V.eq("left block", BB12[n], b12(n))
        V.true("number of new directions", dD[n] == new(n))
    else:
        V.true("no left block", BB12[n] is None)
        V.true("no new directions", dD[n] == 0)
    if use(n - 1):
        V.eq("right block", BB21[n], b21(n))
    else:
        V.true("no right block", BB21[n] is None)
    V.frame()


@contract.each("right", "left")
@modular
def expansion(V, gauge):
    """a step with expansion: the blocks of every tensor of the chain"""
    c = Tdvp(V, 2, "list", attrs=dict(gauge_fixing=gauge, typ=complex, odr="C"))
    s, N = c.s, c.N
    dtau = V.scalar("dtau")
    dD = V.dims("dD", lo=0)
    V.fix(dD, 0, 0)
    V.fix(dD, N, 0)
    go = V.dims("go", lo=0)
    D = c.D
    B = V.family("B", lambda i: (c.q(i), D(i - 1), D(i)))
    b12 = V.family("b12", lambda i: (c.q(i), D(i - 1), dD(i)))
    b21 = V.family("b21", lambda i: (c.q(i), dD(i - 1), D(i)))
    s.eta_sq, s.etaBB_sq = V.t("eta", N + 1, frame=False), V.t("etaBB", N + 1, frame=False)
    eta0 = s.eta_sq
    opts = dict(dD_max=V.int("dD_max", 1), D_max=V.int("D_max", 0), sv_tol=V.scalar("tol", real=True))
    roots = {x: V.family(x, lambda i: (2, 2)) for x in ("ls", "li", "rs", "ri", "Vl", "Vr")}
    eta = V.t("etaBB2", N + 1, frame=False)
    log = []

    def site(x, fam, off=0):
        return V.which(x, fam, "environment of a site", N + 1) + off

    def calc_roots(l, r, zero_tol=None, sanity_checks=None, sc_data=None):
        n = V.which(r, c.r, "environment right of the site", N + 1)
        V.eq("environment left of the site", l, c.l(n - 1))
        return tuple(roots[x](n) for x in ("ls", "li", "rs", "ri"))

    def basis(fam, root):
        def f(A, r, sanity_checks=False):
            n = V.which(A, c.A, "tensor of a site", N + 1)
            V.eq("root of the same site", r, roots[root](n))
            return roots[fam](n)
        return f
    V.stub("tdvp_common", "calc_l_r_roots", calc_roots)
    V.stub("tdvp_common", "calc_Vsh", basis("Vr", "rs"))
    V.stub("tdvp_common", "calc_Vsh_l", basis("Vl", "ls"))
    n = c.site()
    V.consider(n - 1)

    def given(**k):
        for x, f, m in (("l_s", "ls", n - 1), ("l_si", "li", n - 1), ("r_s", "rs", n), ("r_si", "ri", n), ("Vrh", "Vr", n), ("Vlh", "Vl", n)):
            if x in k and not (x == "Vlh" and gauge == "right" and k.get("set_eta")):
                V.eq("%s of every site" % x, k[x][m], roots[f](m if f[0] == "V" or x[0] == "r" else m + 1))

    def calc_B(n_low=-1, n_high=-1, set_eta=True, l_s=None, l_si=None, r_s=None, r_si=None, Vlh=None, Vrh=None):
        log.append("B")
        given(l_s=l_s, l_si=l_si, r_s=r_s, r_si=r_si, Vlh=Vlh, Vrh=Vrh)
        return V.list(N + 1, lambda i: None if i == 0 or go(i) == 0 else B(i))

    def calc_Y(l_s, l_si, r_s, r_si, Vrh, Vlh):
        log.append("Y")
        given(l_s=l_s, l_si=l_si, r_s=r_s, r_si=r_si, Vlh=Vlh, Vrh=Vrh)
        return "Y", eta

    def calc_BB(Y, Vlh, Vrh, l_si, r_si, sv_tol=None, dD_max=None, D_max=None):
        log.append("BB")
        given(l_si=l_si, r_si=r_si, Vlh=Vlh, Vrh=Vrh)
        V.true("the components are handed on", Y == "Y")
        V.true("options are handed on", dD_max is opts["dD_max"] and D_max is opts["D_max"] and sv_tol is opts["sv_tol"])
        return (V.list(N + 1, lambda i: None if i == 0 or dD(i) == 0 else b12(i)),
                V.list(N + 1, lambda i: None if i == 0 or dD(i - 1) == 0 else b21(i)), V.list(N + 1, dD))
    s.calc_B, s.calc_BB_Y_2s, s.calc_BB_2s = calc_B, calc_Y, calc_BB
    V.assumed("calc_B, calc_BB_Y_2s, calc_BB_2s, calc_l_r_roots, calc_Vsh* meet their contracts")
    s.take_step(dtau, dynexp=True, **opts)
    V.true("order of evaluation", log == ["B", "Y", "BB"])
    new = s.A[n]
    V.true("bond dimensions", s.D[n] == D(n) + dD(n))
    V.true("shape", tuple(new.shape) == (c.q(n), D(n - 1) + dD(n - 1), D(n) + dD(n)))
    a, b = D(n - 1), D(n)
    V.eq("old block: an ordinary step", new[:, :a, :b], c.A(n) - dtau * B(n) if V.cases(go(n) != 0) else c.A(n))
    if V.cases(dD(n) != 0):
        V.eq("new block to the right", new[:, :a, b:], -1j * V.sqrt(dtau) * b12(n))
    if V.cases(dD(n - 1) != 0):
        V.eq("new block to the left", new[:, a:, :b], -1j * V.sqrt(dtau) * b21(n))
        if V.cases(dD(n) != 0):
            V.eq("the rest is empty", new[:, a:, b:], V.zeros(c.q(n), dD(n - 1), dD(n)))
    V.eq("norm of the components", s.etaBB_sq, eta)
    V.eq("norm of the tangent vector", s.eta_sq, eta0)
