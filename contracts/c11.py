"""C11: hermitian factors, square roots, and bases of the tangent gauge space."""
from .base import registry, henv
FUNCS, contract = registry()


@contract
def nullspace(V):
    """orthonormal basis of the null space of a wide matrix"""
    m, n = V.dim("m"), V.dim("n")
    V.assume(m < n)
    A = V.t("A", m, n)
    ns = V.mod("nullspace").nullspace_qr(A)
    V.true("number of vectors", ns.shape[0] == n and ns.shape[1] == n - m)
    V.eq("null vectors", V.einsum("ij,jk->ik", A, ns), V.zeros(m, n - m))
    V.eq("orthonormal", V.einsum("ji,jk->ik", ns.conj(), ns), V.eye(n - m))
    V.frame()


def root(V, d, name):
    kind = V.choice("kind", "dense", "diag", "eye")
    if kind == "dense":
        x = V.t(name, d, d)
        return x, x
    return henv(V, kind, d, name)


@contract
def right_basis(V):
    tm = V.mod("tdvp_common")
    q, Dm1, D = V.dim("q"), V.dim("Dm1"), V.dim("D")
    A = V.t("A", q, Dm1, D)
    r, rd = root(V, D, "r_s")
    Vsh = tm.calc_Vsh(A, r)
    k = q * D - Dm1
    if V.cases(k <= 0):
        V.true("no tangent directions", Vsh is None)
    else:
        V.true("complete: as many as dimensions are left", tuple(Vsh.shape) == (q, D, k))
        V.eq("orthonormal", V.einsum("sbi,sbj->ij", Vsh.conj(), Vsh), V.eye(k))
        V.eq("gauge condition", V.einsum("sbi,bc,sac->ia", Vsh.conj(), rd, A.conj()), V.zeros(k, Dm1))
    V.frame()


@contract
def left_basis(V):
    tm = V.mod("tdvp_common")
    q, Dm1, D = V.dim("q"), V.dim("Dm1"), V.dim("D")
    A = V.t("A", q, Dm1, D)
    l, ld = root(V, Dm1, "l_s")
    Vsh = tm.calc_Vsh_l(A, l)
    k = q * Dm1 - D
    if V.cases(k <= 0):
        V.true("no tangent directions", Vsh is None)
    else:
        V.true("complete: as many as dimensions are left", tuple(Vsh.shape) == (q, k, Dm1))
        V.eq("orthonormal", V.einsum("sia,sja->ij", Vsh.conj(), Vsh), V.eye(k))
        V.eq("gauge condition", V.einsum("sia,ab,sbc->ic", Vsh, ld, A), V.zeros(k, D))
    V.frame()


@contract.each("lower", "upper")
def factor(V, which):
    """factor and inverse: of the whole matrix if it is positive definite, else of its part above the tolerance"""
    tm = V.mod("tdvp_common")
    d = V.dim("D")
    m, tol = V.t("m", d, d, herm=True), V.scalar("tol", real=True)
    V.assume(tol > 0)
    lower, force = which == "lower", V.choice("factorisation", "default", "eigenvalues") == "eigenvalues"
    inv, rank = V.choice("inverse", "yes", "no") == "yes", V.choice("rank", "yes", "no") == "yes"
    out = tm.herm_fac_with_inv(m, lower=lower, zero_tol=tol, return_rank=rank, calc_inv=inv, force_evd=force)
    out = list(out) if isinstance(out, tuple) else [out]
    V.true("what is asked for is returned", len(out) == 1 + inv + rank)
    x = V.dense(out.pop(0))
    xi = V.dense(out.pop(0)) if inv else None
    whole = not force and V.positive_definite(m)
    w, U = V.mod("tdvp_common").la.eigh(m)
    k = d if whole else V.count(w > tol)
    if rank:
        V.true("rank", out[0] == k)
    P = U[:, d - k:]
    part = m if whole else V.einsum("ai,i,bi->ab", P, w[d - k:], P.conj())
    got = V.einsum("ai,bi->ab", x, x.conj()) if lower else V.einsum("ia,ib->ab", x.conj(), x)
    V.eq("the factor times its adjoint", got, part)
    if inv:
        V.eq("inverse on the support", V.einsum("ai,ib->ab", x, xi) if lower else V.einsum("ai,ib->ab", xi, x),
             V.eye(d) if whole else V.einsum("ai,bi->ab", P, P.conj()))
        V.eq("nothing outside the support", V.einsum("ab,bc,cd->ad", xi, x, xi), xi)
    V.frame()


def rooted(V, kind, d, name, tol):
    """(argument, matrix, the part above the tolerance, the projector on it, its rank)"""
    x, xd = henv(V, kind, d, name)
    if kind == "eye":
        return x, xd, xd, d
    if kind == "diag":
        w = x.diag
        p = V.ones_where(w > tol)
        one = V.eye(d)
        return x, V.einsum("a,a,ab->ab", w, p, one), V.einsum("a,ab->ab", p, one), V.count(w > tol)
    w, U = V.mod("tdvp_common").la.eigh(xd)
    p = V.ones_where(w > tol)
    return x, V.einsum("ai,i,i,bi->ab", U, w, p, U.conj()), V.einsum("ai,i,bi->ab", U, p, U.conj()), V.count(w > tol)


def roots(V, s, si, part, P):
    s, si = V.dense(s), V.dense(si)
    V.eq("the root squares to the matrix", V.einsum("ab,bc->ac", s, s), part)
    V.eq("the root is Hermitian", s.conj().T, s)
    V.eq("the inverse root inverts on the support", V.einsum("ab,bc->ac", s, si), P)
    V.eq("the inverse root inverts on the support (left)", V.einsum("ab,bc->ac", si, s), P)
    V.eq("nothing outside the support", V.einsum("ab,bc->ac", si, P), si)


@contract.each("dense", "diag", "eye")
def square_root(V, kind):
    d = V.dim("D")
    tol = V.scalar("tol", real=True)
    V.assume(tol > 0)
    x, part, P, k = rooted(V, kind, d, "x", tol)
    rank = V.choice("rank", "yes", "no") == "yes"
    out = V.mod("tdvp_common").herm_sqrt_inv(x, zero_tol=tol, return_rank=rank)
    V.true("what is asked for is returned", len(out) == 2 + rank)
    roots(V, out[0], out[1], part, P)
    if rank:
        V.true("rank", out[2] == k)
    V.frame()


@contract
def both_roots(V):
    """the roots of the two environments of a site"""
    tol = V.scalar("tol", real=True)
    V.assume(tol > 0)
    l, lp, lP, _ = rooted(V, V.choice("l", "dense", "diag", "eye"), V.dim("Dm1"), "l", tol)
    r, rp, rP, _ = rooted(V, V.choice("r", "dense", "diag", "eye"), V.dim("D"), "r", tol)
    ls, lsi, rs, rsi = V.mod("tdvp_common").calc_l_r_roots(l, r, zero_tol=tol)
    roots(V, ls, lsi, lp, lP)
    roots(V, rs, rsi, rp, rP)
    V.frame()
