"""C15: the local effective Hamiltonians (one site, bond, two sites) are the Hamiltonian between the surrounding block states:
every term that touches the site, the energies of the blocks to the left and right, and matrix product operators, at every
site of any chain"""
from .base import registry, Tdvp
FUNCS, contract = registry()


def single(V, c, n, X, left, right):
    """terms on the site n of the tensor X; left/right: energies of the blocks"""
    N, A, h, l, r = c.N, c.A, c.h, c.l, c.r
    y = V.zeros(c.q(n), c.D(n - 1), c.D(n))
    if c.sites == 2:
        if n > 1:
            y = y + V.einsum("sab,ae,stuv,uec,vcd->tbd", A(n - 1).conj(), l(n - 2), h(n - 1), A(n - 1), X)
        if n < N:
            y = y + V.einsum("stuv,uab,vbc,ce,tde->sad", h(n), X, A(n + 1), r(n + 1), A(n + 1).conj())
    else:
        if n > 2:
            y = y + V.einsum("sab,tbc,ad,stwuvx,ude,vef,xfg->wcg", A(n - 2).conj(), A(n - 1).conj(), l(n - 3), h(n - 2),
                             A(n - 2), A(n - 1), X)
        if n > 1 and n < N:
            y = y + V.einsum("sab,ae,stwuvx,uec,vcd,xdf,fg,whg->tbh", A(n - 1).conj(), l(n - 2), h(n - 1), A(n - 1), X,
                             A(n + 1), r(n + 1), A(n + 1).conj())
        if n < N - 1:
            y = y + V.einsum("stwuvx,uab,vbc,xcd,de,wfe,tgf->sag", h(n), X, A(n + 1), A(n + 2), r(n + 2), A(n + 2).conj(),
                             A(n + 1).conj())
    if left is not None:
        y = y + V.einsum("ab,sbc->sac", left, X)
    if right is not None:
        y = y + V.einsum("sab,bc->sac", X, right)
    return y


def bond(V, c, n, G, left, right):
    """terms across the bond n of the matrix G between the tensors of the sites n and n + 1"""
    N, A, h, l, r = c.N, c.A, c.h, c.l, c.r
    y = V.zeros(c.D(n), c.D(n))
    if c.sites == 2:
        y = y + V.einsum("sab,ae,stuv,uec,cd,vdf,fg,thg->bh", A(n).conj(), l(n - 1), h(n), A(n), G, A(n + 1), r(n + 1),
                         A(n + 1).conj())
    else:
        if n < N - 1:
            y = y + V.einsum("sab,ai,stwuvx,uic,cd,vde,xef,fg,whg,tkh->bk", A(n).conj(), l(n - 1), h(n), A(n), G, A(n + 1),
                             A(n + 2), r(n + 2), A(n + 2).conj(), A(n + 1).conj())
        if n > 1:
            y = y + V.einsum("sab,tbc,ad,stwuvx,ude,vef,fg,xgh,hj,wij->ci", A(n - 1).conj(), A(n).conj(), l(n - 2), h(n - 1),
                             A(n - 1), A(n), G, A(n + 1), r(n + 1), A(n + 1).conj())
    if left is not None:
        y = y + V.einsum("ab,bc->ac", left, G)
    if right is not None:
        y = y + V.einsum("ab,bc->ac", G, right)
    return y


def two(V, c, n, X, left, right):
    """terms on the sites n, n + 1 of the tensor X, unit environments"""
    N, A, h = c.N, c.A, c.h
    y = V.zeros(c.q(n), c.q(n + 1), c.D(n - 1), c.D(n + 1))
    if c.sites == 2:
        if n > 1:
            y = y + V.einsum("sab,stuv,uac,vwcd->twbd", A(n - 1).conj(), h(n - 1), A(n - 1), X)
        y = y + V.einsum("stuv,uvab->stab", h(n), X)
        if n + 1 < N:
            y = y + V.einsum("stuv,wuab,vbc,tdc->wsad", h(n + 1), X, A(n + 2), A(n + 2).conj())
    else:
        if n > 2:
            y = y + V.einsum("sab,tbc,stwuvx,uae,vef,xyfg->wycg", A(n - 2).conj(), A(n - 1).conj(), h(n - 2), A(n - 2),
                             A(n - 1), X)
        if n > 1:
            y = y + V.einsum("sab,stwuvx,uac,vxcd->twbd", A(n - 1).conj(), h(n - 1), A(n - 1), X)
        if n + 1 < N:
            y = y + V.einsum("stwuvx,uvab,xbc,wdc->stad", h(n), X, A(n + 2), A(n + 2).conj())
        if n + 2 < N:
            y = y + V.einsum("stwuvx,yuab,vbc,xcd,wed,tfe->ysaf", h(n + 1), X, A(n + 2), A(n + 3), A(n + 3).conj(),
                             A(n + 2).conj())
    if left is not None:
        y = y + V.einsum("ab,stbc->stac", left, X)
    if right is not None:
        y = y + V.einsum("stab,bc->stac", X, right)
    return y


def chain(V, sites, kind=None):
    return Tdvp(V, sites, missing=False, kind=kind or V.choice("kind", "dense", "diag", "eye"))


def merged(V, c, i):
    """the tensors of the sites i, i + 1 as one, if there are such sites"""
    tm = V.mod("tdvp_common")
    if i < 1 or i + 1 > c.N:
        return None
    return tm.calc_AA(c.A(i), c.A(i + 1))


# ---------------------------------------------------------------------------------------------- tdvp_gen (right canonical form)
def state(V, sites, kind=None):
    """a state whose merged tensors are those of its tensors"""
    c = chain(V, sites, kind)
    c.s.AA = V.list(c.N, lambda i: None if i == 0 else V.mod("tdvp_common").calc_AA(c.A(i), c.A(i + 1)))
    c.s.K = V.list(c.N + 1, lambda i: None if i == 0 else c.K(i), "K")
    return c


@contract.each("2", "3")
def rcf_single(V, w):
    """the one-site operator of the class's own sweep (any environments)"""
    c = state(V, int(w))
    n = c.site()
    KL = V.t("KL", c.D(n - 1), c.D(n - 1))
    x, tau = V.t("x", c.q(n) * c.D(n - 1) * c.D(n)), V.scalar("tau")
    X = V.reshape(x, (c.q(n), c.D(n - 1), c.D(n)))
    op = V.mod("tdvp_gen").Vari_Opt_Single_Site_Op(c.s, n, KL, tau=tau)
    y = op.matvec(x)
    V.true("size", op.shape[0] == c.q(n) * c.D(n - 1) * c.D(n))
    want = single(V, c, n, X, KL if n > 1 else None, c.K(n + 1) if n < c.N else None)
    V.eq("H x", V.reshape(y, (c.q(n), c.D(n - 1), c.D(n))), want * tau)
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("2", "3")
def rcf_bond(V, w):
    """the bond operator of the class's own sweep"""
    c = state(V, int(w), None if w == "2" else "eye")
    V.assume(c.N > 1)
    n = c.site("n", 1, c.N - 1)
    KL = V.t("KL", c.D(n), c.D(n))
    x, tau = V.t("x", c.D(n) * c.D(n)), V.scalar("tau")
    X = V.reshape(x, (c.D(n), c.D(n)))
    op = V.mod("tdvp_gen").Vari_Opt_SC_op(c.s, n, KL, tau=tau)
    y = op.matvec(x)
    V.true("size", op.shape[0] == c.D(n) * c.D(n))
    V.eq("H x", V.reshape(y, (c.D(n), c.D(n))), bond(V, c, n, X, KL, c.K(n + 1)) * tau)
    c.unchanged("A", "l", "r")
    V.frame()


# ---------------------------------------------------------------------------------------------- split_step (mixed canonical form)
def blocks(V, a, b):
    KL = V.t("KL", a, a) if V.choice("left block", True, False) else None
    KR = V.t("KR", b, b) if V.choice("right block", True, False) else None
    return KL, KR


@contract.each("2", "3")
def mixed_single(V, w):
    c = chain(V, int(w), "eye")
    n = c.site()
    KL, KR = blocks(V, c.D(n - 1), c.D(n))
    x, tau = V.t("x", c.q(n) * c.D(n - 1) * c.D(n)), V.scalar("tau")
    X = V.reshape(x, (c.q(n), c.D(n - 1), c.D(n)))
    op = V.mod("split_step").Vari_Opt_Single_Site_Op(c.s, n, None, None, c.s.ham, c.sites, KL, KR, tau=tau)
    y = op.matvec(x)
    V.true("size", op.shape[0] == c.q(n) * c.D(n - 1) * c.D(n))
    V.eq("H x", V.reshape(y, (c.q(n), c.D(n - 1), c.D(n))), single(V, c, n, X, KL, KR) * tau)
    c.unchanged("A")
    V.frame()


@contract.each("2", "3")
def mixed_bond(V, w):
    c = chain(V, int(w), "eye")
    V.assume(c.N > 1)
    n = c.site("n", 1, c.N - 1)
    KL, KR = blocks(V, c.D(n), c.D(n))
    x, tau = V.t("x", c.D(n) * c.D(n)), V.scalar("tau")
    X = V.reshape(x, (c.D(n), c.D(n)))
    op = V.mod("split_step").Vari_Opt_SC_op(c.s, n, None, None, c.s.ham, c.sites, KL, KR, tau=tau)
    y = op.matvec(x)
    V.true("size", op.shape[0] == c.D(n) * c.D(n))
    V.eq("H x", V.reshape(y, (c.D(n), c.D(n))), bond(V, c, n, X, KL, KR) * tau)
    c.unchanged("A")
    V.frame()


@contract.each("2", "3", "3_alone")
def mixed_two(V, w):
    c = chain(V, int(w[0]), "eye")
    V.assume(c.N > 1)
    n = c.site("n", 1, c.N - 1)
    if w == "2":
        KL, KR = blocks(V, c.D(n - 1), c.D(n + 1))
    elif w == "3":
        KL, KR = V.t("KL", c.D(n - 1), c.D(n - 1)), V.t("KR", c.D(n + 1), c.D(n + 1))
    else:
        KL = KR = None
    sh = (c.q(n), c.q(n + 1), c.D(n - 1), c.D(n + 1))
    x, tau = V.t("x", sh[0] * sh[1] * sh[2] * sh[3]), V.scalar("tau")
    op = V.mod("split_step").Vari_Opt_Two_Site_Op(c.s, n, None, None, c.s.ham, c.sites, KL, KR, tau=tau)
    y = op.matvec(x)
    V.true("size", op.shape[0] == sh[0] * sh[1] * sh[2] * sh[3])
    V.eq("H x", V.reshape(y, sh), two(V, c, n, V.reshape(x, sh), KL, KR) * tau)
    c.unchanged("A")
    V.frame()


# ---------------------------------------------------------------------------------------------- matrix product operators
@contract.each("tdvp_gen", "split_step")
def mpo_single(V, w):
    c = chain(V, 2, "eye")
    n = c.site()
    q, a, b, m1, m2 = c.q(n), c.D(n - 1), c.D(n), V.dim("m1"), V.dim("m2")
    L, R, M = V.t("L", a * m1, a), V.t("R", b * m2, b), V.t("M", m1, m2, q, q)
    x, tau = V.t("x", q * a * b), V.scalar("tau")
    kw = dict(tau=tau, HML=L, HMR=R, HMn=M, use_local_ham=False)
    if w == "tdvp_gen":
        op = V.mod(w).Vari_Opt_Single_Site_Op(c.s, n, None, **kw)
    else:
        op = V.mod(w).Vari_Opt_Single_Site_Op(c.s, n, None, None, c.s.ham, 2, None, None, **kw)
    y = op.matvec(x)
    want = V.einsum("bma,mkst,tbc,cke->sae", V.reshape(L, (a, m1, a)).conj(), M, V.reshape(x, (q, a, b)),
                    V.reshape(R, (b, m2, b)))
    V.eq("H x", V.reshape(y, (q, a, b)), want * tau)
    V.frame()


@contract.each("tdvp_gen", "split_step")
def mpo_bond(V, w):
    c = chain(V, 2, "eye")
    V.assume(c.N > 1)
    n = c.site("n", 1, c.N - 1)
    D, m = c.D(n), V.dim("m")
    L, R = V.t("L", D * m, D), V.t("R", D * m, D)
    x, tau = V.t("x", D * D), V.scalar("tau")
    kw = dict(tau=tau, HML=L, HMR=R, use_local_ham=False)
    if w == "tdvp_gen":
        op = V.mod(w).Vari_Opt_SC_op(c.s, n, None, **kw)
    else:
        op = V.mod(w).Vari_Opt_SC_op(c.s, n, None, None, c.s.ham, 2, None, None, **kw)
    y = op.matvec(x)
    want = V.einsum("bma,bc,cme->ae", V.reshape(L, (D, m, D)).conj(), V.reshape(x, (D, D)), V.reshape(R, (D, m, D)))
    V.eq("H x", V.reshape(y, (D, D)), want * tau)
    V.frame()


@contract.each("left", "right")
def mpo_block(V, w):
    """block operators of an MPO: one site more"""
    c = chain(V, 2)
    tm = V.mod("tdvp_common")
    n = c.site()
    q, a, b, m1, m2 = c.q(n), c.D(n - 1), c.D(n), V.dim("m1"), V.dim("m2")
    M = V.t("M", m1, m2, q, q)
    MA = tm.apply_MPO_local(M, c.s.A[n])
    V.eq("operator applied to the tensor", V.reshape(MA, (q, a, m1, b, m2)), V.einsum("mkst,tab->sambk", M, c.A(n)))
    if w == "left":
        if n == 1:
            V.assume(m1 == 1)
            L0, got = V.eye(1), c.s.calc_MPO_l(MA, n, None)
        else:
            L0 = V.t("L", a * m1, a)
            got = c.s.calc_MPO_l(MA, n, L0)
        want = V.einsum("mkst,tab,amc,scd->bkd", M.conj(), c.A(n).conj(), V.reshape(L0, (a, m1, a)), c.A(n))
        V.eq("left block", V.reshape(got, (b, m2, b)), want)
    else:
        if n == c.N:
            V.assume(m2 == 1)
            R0, got = V.eye(1), c.s.calc_MPO_rm1(MA, n, None)
        else:
            R0 = V.t("R", b * m2, b)
            got = c.s.calc_MPO_rm1(MA, n, R0)
        want = V.einsum("mkst,tab,bkc,sdc->amd", M, c.A(n), V.reshape(R0, (b, m2, b)), c.A(n).conj())
        V.eq("right block", V.reshape(got, (a, m1, a)), want)
    V.frame()
