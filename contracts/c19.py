"""C19: uniform states -- the Hamiltonian term on each pair (triple) of sites of the block, the energy density, the
partial-energy matrices and the tangent tensors, for every block length, block position and dimension."""
from .base import registry, modular, henv, UTdvp, Uniform
FUNCS, contract = registry()


@contract
def calc_AA(V):
    u = Uniform(V, V.mod("mps_uniform").EvoMPS_MPS_Uniform)
    u.s.AA = V.list(u.L, lambda i: None)
    u.s.calc_AA()
    k = u.pos(ahead=1)
    V.eq("AA[k]", u.s.AA[k], V.einsum("sab,tbc->stac", u.A(k), u.A(k + 1)))
    u.unchanged("A")
    V.frame()


@contract.each("2_array", "2_function", "2_tp", "3_array", "3_function")
def calc_C(V, variant):
    """C[k] is the term applied to the tensors of sites k, k + 1 (, k + 2)"""
    n, form = variant.split("_")
    u = UTdvp(V, int(n), form)
    s = u.s
    s.calc_C()
    k = u.pos(ahead=int(n) - 1)
    if form == "tp":
        got = V.zeros(u.q, u.q, u.D, u.D)
        x = V.t("x", u.D, u.D)
        tm = V.mod("tdvp_common")
        A, B = V.t("a", u.q, u.D, u.D), V.t("b", u.q, u.D, u.D)
        V.eq("C[k]", tm.eps_r_op_2s_C12_tp(x, s.C[k], A, B),
             V.einsum("stab,bc,sde,tec->ad", u.C(k), x, A.conj(), B.conj()))
    elif n == "2":
        V.eq("C[k]", s.C[k], V.einsum("uvst,sab,tbc->uvac", u.h, u.A(k), u.A(k + 1)))
    else:
        V.eq("C[k]", s.C[k], V.einsum("uvwxyz,xab,ybc,zcd->uvwad", u.h, u.A(k), u.A(k + 1), u.A(k + 2)))
    u.unchanged("A")
    V.frame()


@contract.each("2_array", "2_tp", "3_array")
@modular
def calc_K(V, variant):
    """the energy density, the equation solved for K[0], and the recursion to the other positions of the block"""
    n, form = variant.split("_")
    u = UTdvp(V, int(n), form, derived=("C", "AA", "AAA"))
    s, L = u.s, u.L
    Hr = V.sum(lambda k: V.fold(u.Er, u.Hr(k), lambda i: (u.D, u.D), 0, k, up=False), 0, L, ends=(1, 0))
    V.cases(L == 1)
    E = V.einsum("ab,ab->", u.l(-1).conj(), Hr)
    X = V.t("X", u.D, u.D, frame=False)
    seen = []

    def calc_PPinv(x, p=0, out=None, left=False, A1=None, A2=None, rL=None, pseudo=True, **k):
        V.eq("right-hand side: the terms of the block without their energy", x, Hr - u.r(-1) * E)
        V.true("for the state itself", A1 is None and A2 is None and rL is None and p == 0 and pseudo and not left)
        seen.append(1)
        out[:] = X
        return out
    s.calc_PPinv = calc_PPinv
    if V.choice("start", "given", "old") == "given":
        s.K0_init = V.t("K0", u.D, u.D, frame=False)

    def step(K, k):
        h = u.Hr(k)
        return u.Er(k, K((k + 1) % L)) + h - u.r(k - 1) * V.einsum("ab,ab->", u.l(k - 1).conj(), h)
    K = V.ghost("Kf", lambda i: (u.D, u.D), 0, X, step, lists=("K",))
    s.calc_K()
    V.true("one equation is solved", len(seen) == 1)
    V.eq("energy density", s.h_expect * L, E)
    k = V.int("k", 0, L - 1)
    V.eq("K[k]", s.K[k], K(k))
    u.unchanged("A", "l", "r")
    V.frame()


@contract.each("2_array", "2_tp", "3_array")
@modular
def calc_K_l(V, variant):
    """the same for the part of the chain to the left; K_left[k] lies to the right of site k"""
    n, form = variant.split("_")
    n = int(n)
    u = UTdvp(V, n, form, derived=("C", "AA", "AAA"))
    s, L = u.s, u.L
    s.h_expect = None
    lH = V.sum(lambda e: V.fold(u.El, u.lH(e - n + 1), lambda i: (u.D, u.D), e + 1, L), 0, L, ends=(0, 1))
    E = V.einsum("ab,ba->", lH, u.r(-1))
    X = V.t("X", u.D, u.D, frame=False)
    seen = []

    def calc_PPinv(x, p=0, out=None, left=False, A1=None, A2=None, rL=None, pseudo=True, **k):
        V.eq("right-hand side: the terms of the block without their energy", x, lH - u.l(-1) * E)
        V.true("for the state itself", A1 is None and A2 is None and rL is None and p == 0 and pseudo and left)
        seen.append(1)
        if out is None:
            return X
        out[:] = X
        return out
    s.calc_PPinv = calc_PPinv
    if V.choice("K_left", "none", "old") == "old":
        old = V.family("oldKl", lambda i: (u.D, u.D))
        s.K_left = V.list(L, old, "Kl")

    def step(K, k):
        h = u.lH(k - n + 1)
        return u.El(k, K((k - 1) % L)) + h - u.l(k) * V.einsum("ab,ba->", h, u.r(k))
    K = V.ghost("Kf", lambda i: (u.D, u.D), L - 1, X, step, lists=("Kl",))
    got, h = s.calc_K_l()
    V.true("one equation is solved", len(seen) == 1)
    V.eq("energy density", h * L, E)
    k = V.int("k", 0, L - 1)
    V.eq("K_left[k]", got[k], K(k))
    V.eq("K_left[k] is kept", s.K_left[k], K(k))
    V.eq("K[k] is left unchanged", s.K[k], u.K(k))
    u.unchanged("A", "l", "r")
    V.frame()


@contract
def get_B_from_x(V):
    """B[s] = l^-1/2 x (r^-1/2 V[s])^H"""
    u = UTdvp(V, 2)
    w = V.dim("w")
    x, Vsh = V.t("x", u.D, w), V.t("Vsh", u.q, u.D, w)
    kl, kr = V.choice("kinds", ("dense", "dense"), ("diag", "eye"), ("eye", "diag"))
    (ls, lsd), (rs, rsd) = henv(V, kl, u.D, "lsi"), henv(V, kr, u.D, "rsi")
    want = V.einsum("ab,bc,sdc,ed->sae", lsd, x, Vsh.conj(), rsd.conj())
    if V.choice("out", "given", "none") == "given":
        out = V.undef(u.q, u.D, u.D)
        u.s.get_B_from_x(x, Vsh, ls, rs, out=out)
        V.eq("B", out, want)
    else:
        V.eq("B", u.s.get_B_from_x(x, Vsh, ls, rs), want)
    V.frame()


def gradient(V, u, k, ls, lsi, rs, rsi):
    """weighted gradient with respect to A[k]: the terms that contain site k, and the energy of what lies beyond"""
    A, n = u.A, u.sites
    F = V.einsum("ae,sef,fg,gi->sai", ls(k - 1), A(k), u.K(k + 1), rsi(k))
    if n == 2:
        F = F + V.einsum("ae,stef,fg,thg,hi->sai", ls(k - 1), u.C(k), u.r(k + 1), A(k + 1).conj(), rsi(k))
        return F + V.einsum("ae,tfe,fg,tsgh,hi->sai", lsi(k - 1), A(k - 1).conj(), u.l(k - 2), u.C(k - 1), rs(k))
    F = F + V.einsum("ae,stuef,fg,tuhg,hi->sai", ls(k - 1), u.C(k), u.r(k + 2), u.AA(k + 1).conj(), rsi(k))
    F = F + V.einsum("ae,tfe,fg,tsugh,hk,uik,il->sal", lsi(k - 1), A(k - 1).conj(), u.l(k - 2), u.C(k - 1), u.r(k + 1),
                     A(k + 1).conj(), rsi(k))
    return F + V.einsum("ae,tufe,fg,tusgh,hi->sai", lsi(k - 1), u.AA(k - 2).conj(), u.l(k - 3), u.C(k - 2), rs(k))


@contract.each("2_array", "2_tp", "3_array")
@modular
def calc_B(V, variant):
    """every tangent tensor of the block, its norm, and which roots and null space go into it"""
    n, form = variant.split("_")
    u = UTdvp(V, int(n), form, derived=("C", "AA", "AAA"))
    s, L, D, q = u.s, u.L, u.D, u.q
    V.cases(L == 1)
    V.assume(q > 1)
    eta0 = V.t("eta0", L, frame=False)
    s.eta_sq, s.eta, s.zero_tol = eta0 + 0, None, object()
    fam = {k: V.family(k, lambda i: (D, D), herm=True) for k in ("ls", "lsi", "rs", "rsi")}
    at = {k: (lambda i, f=f: f(i % L)) for k, f in fam.items()}
    W = V.family("Vsh", lambda i: (q, D, q * D - D))
    where = dict(root=0, vsh=0)

    def calc_l_r_roots(l, r, zero_tol=None, sanity_checks=False, **k):
        V.true("with the object's tolerance", zero_tol is s.zero_tol)
        i = V.which(V.dense(l), u.fl, "roots", L)
        V.eq("l and r of the same position", V.dense(r), u.fr(i))
        return fam["ls"](i), fam["lsi"](i), fam["rs"](i), fam["rsi"](i)
    V.stub("tdvp_common", "calc_l_r_roots", calc_l_r_roots, "square roots and pseudo-inverse roots of positive matrices")

    def calc_Vsh(A, root, sanity_checks=False):
        i = V.which(A, u.fA, "null space", L)
        V.eq("weighted with the root of r[k]", root, fam["rs"](i))
        return W(i)
    V.stub("tdvp_common", "calc_Vsh", calc_Vsh, "basis of the null space")
    eta = V.choice("set_eta", True, False)
    want_x = V.choice("return_x", True, False)
    got = s.calc_B(set_eta=eta, return_x=want_x)
    B, x = got if want_x else (got, None)
    k = u.pos()
    F = gradient(V, u, k, at["ls"], at["lsi"], at["rs"], at["rsi"])
    X = V.einsum("sai,sij->aj", F, W(k))
    if want_x:
        V.eq("x[k]", x[k], X)
    V.eq("B[k]", B[k], V.einsum("ab,bc,sdc,ed->sae", at["lsi"](k - 1), X, W(k).conj(), at["rsi"](k).conj()))
    V.eq("the null space is kept", s.Vsh[k], W(k))
    V.eq("eta_sq", s.eta_sq[k], V.einsum("ab,ab->", X.conj(), X) if eta else eta0[k])
    V.eq("eta^2 is the sum over the block", s.eta, V.sqrt(V.einsum("k->", s.eta_sq)))
    for a in fam:
        nm = {"ls": "l_sqrt", "lsi": "l_sqrt_i", "rs": "r_sqrt", "rsi": "r_sqrt_i"}[a]
        V.eq("%s is kept" % nm, getattr(s, nm)[k], fam[a](k))
    u.unchanged("A", "l", "r")
    V.frame()
