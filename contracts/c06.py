"""C06: canonical form of finite chains: single-site gauge transformations, the sweeps along a chain, and the methods."""
from .base import registry, given, henv, modular, Chain, Tdvp

FUNCS, contract = registry()


def site(V):
    q, D0, D1 = V.dim("q"), V.dim("Dm1"), V.dim("D")
    return q, D0, D1, V.t("A", q, D0, D1, frame=False)


@contract.each("right", "left")
def unit(V, side):
    """unit environment: the new tensor is the old one between the new and the given gauge matrix, and its environment is
    the identity, or, when the rank is deficient, the identity on the directions that are left"""
    tm = V.mod("tdvp_common")
    right = side == "right"
    q, D0, D1, A = site(V)
    old = A + 0
    d, far = (D0, D1) if right else (D1, D0)
    x, xd = henv(V, V.choice("environment", "dense", "diag", "eye"), far, "x")
    have = V.choice("gauge matrix", "given", "none") == "given"
    if not have:
        V.assume(D0 == D1)
    G = V.t("G", far, far) if have else None
    tol = V.scalar("tol", real=True)
    V.assume(tol > 0)
    if right:
        g = V.einsum("ab,bc,dc->ad", G, xd, G.conj()) if have else xd
        M = V.einsum("sab,bc,sdc->ad", old, g, old.conj())
    else:
        g = V.einsum("ba,bc,cd->ad", G.conj(), xd, G) if have else xd
        M = V.einsum("sba,bc,scd->ad", old.conj(), g, old)
    whole = V.positive_definite(M)
    w, U = tm.la.eigh(M)
    k = d if whole else V.count(w > tol)
    V.assume(k >= 1)
    full = V.cases(k == d)
    new, Gn, Gi = (tm.restore_RCF_r if right else tm.restore_LCF_l)(A, x, G, zero_tol=tol)
    left_m, right_m = (Gn, G if have else Gi) if right else (G if have else Gn, Gi)
    V.eq("gauge transformation", A, V.einsum("ab,sbc,cd->sad", left_m, old, right_m))
    V.true("kind of the new environment", type(new).__name__ == ("eyemat" if full else "simple_diag_matrix"))
    V.true("size of the new environment", tuple(new.shape) == (d, d))
    if full:
        want = V.eye(d)
    else:
        want = V.zeros(d)
        want[-k:] = 1
        want = V.einsum("a,ab->ab", want, V.eye(d))
    V.eq("the new environment is one on the directions left", V.dense(new), want)
    if have:
        got = V.einsum("sab,bc,sdc->ad", A, xd, A.conj()) if right else V.einsum("sba,bc,scd->ad", A.conj(), xd, A)
        V.eq("environment of the new tensor", got, V.dense(new))
    P = V.eye(d) if whole else V.einsum("ai,bi->ab", U[:, d - k:], U[:, d - k:].conj())
    V.eq("gauge matrix and inverse", V.einsum("ab,bc->ac", Gi, Gn), P)
    V.frame()


@contract.each("left", "right")
def diagonal(V, side):
    """diagonal environment, ascending, through a unitary"""
    tm = V.mod("tdvp_common")
    left = side == "left"
    q, D0, D1, A = site(V)
    old = A + 0
    d, far = (D1, D0) if left else (D0, D1)
    x, xd = henv(V, V.choice("environment", "dense", "diag", "eye"), far, "x")
    have = V.choice("gauge matrix", "given", "none") == "given"
    if not have:
        V.assume(D0 == D1)
    G = V.t("G", far, far) if have else None
    new, Gn, Gi = (tm.restore_RCF_l if left else tm.restore_LCF_r)(A, x, G)
    if left:
        g = V.einsum("ba,bc,cd->ad", G.conj(), xd, G) if have else xd
        M = V.einsum("sba,bc,scd->ad", old.conj(), g, old)
    else:
        g = V.einsum("ab,bc,dc->ad", G, xd, G.conj()) if have else xd
        M = V.einsum("sab,bc,sdc->ad", old, g, old.conj())
    w, U = tm.la.eigh(M)
    V.eq("the gauge matrix is unitary", V.einsum("ab,cb->ac", Gn, Gn.conj()), V.eye(d))
    V.eq("its inverse", Gi, Gn.conj().T)
    V.eq("the environment is the spectrum, ascending", new.diag, w)
    V.eq("and diagonal", V.dense(new), V.einsum("a,ab->ab", w, V.eye(d)))
    a, b = (G if have else Gn, Gi) if left else (Gn, G if have else Gi)
    V.eq("gauge transformation", A, V.einsum("ab,sbc,cd->sad", a, old, b))
    if have:
        got = V.einsum("sba,bc,scd->ad", A.conj(), xd, A) if left else V.einsum("sab,bc,sdc->ad", A, xd, A.conj())
        V.eq("environment of the new tensor", got, V.dense(new))
    V.frame()


def chain(V):
    """tensors and environments of a chain of any length, in lists as the sweeps get them"""
    N = V.dim("N")
    D, q = V.dims("D"), V.dims("q")
    A = V.family("A", lambda i: (q(i), D(i - 1), D(i)))
    return N, D, q, A, V.list(N + 1, lambda i: None if i == 0 else A(i), "A")


@contract.each("right", "left")
@modular
def diagonal_sweep(V, form):
    """every site in turn, starting from the end with the free environment; the gauge matrix of one is handed to the next"""
    tm = V.mod("tdvp_common")
    right = form == "right"
    N, D, q, A, As = chain(V)
    env = V.family("env", lambda i: (D(i), D(i)))
    new = V.family("new", lambda i: (D(i), D(i)))
    g, gi = V.family("g", lambda i: (D(i), D(i))), V.family("gi", lambda i: (D(i), D(i)))
    out = V.family("out", lambda i: (q(i), D(i - 1), D(i)))
    start = 0 if right else N
    G0 = V.t("G0", D(start), D(start)) if V.choice("first gauge matrix", "given", "none") == "given" else None
    first = G0 if G0 is not None else V.eye(D(start))
    envs = V.list(N + 1, env, "env")
    hand = g if right else gi
    at = lambda i: first if V.cases(i == start) else hand(i)
    V.carried((lambda n: at(n - 1)) if right else at)
    E = lambda i: env(i) if V.cases(i == start) else new(i)
    V.spec("env", E)
    V.spec("A", out)

    def one(a, x, G, sanity_checks=False):
        n = V.which(a, A, "tensor of a site", N + 1)
        m = n - 1 if right else n
        V.eq("environment: the new one of the neighbour", x, E(m))
        V.eq("gauge matrix of the neighbour", G, at(m))
        a[:] = out(n)
        k = n if right else n - 1
        return new(k), g(k), gi(k)
    V.stub("tdvp_common", "restore_RCF_l" if right else "restore_LCF_r", one)
    ret = (tm.restore_RCF_l_seq if right else tm.restore_LCF_r_seq)(As, envs, *([] if G0 is None else [G0]))
    n = V.int("n", 1, N)
    V.eq("tensors", As[n], out(n))
    m = V.int("m", 0, N)
    V.eq("environments", envs[m], E(m))
    V.eq("the last gauge matrix", ret, at(N if right else 0))


class Library(object):
    """linear algebra library with qr replaced"""

    def __init__(self, la, qr):
        self._la, self.qr = la, qr

    def __getattr__(self, n):
        return getattr(self._la, n)


@contract.each("right", "left")
@modular
def unit_sweep(V, form):
    """every site in turn: the factor left over from one is multiplied into the next and split off again"""
    tm = V.mod("tdvp_common")
    right = form == "right"
    N, D, q, A, As = chain(V)
    start = N if right else 0
    Dn = V.dims("Dn")
    if V.choice("first gauge matrix", "given", "none") == "given":
        G0 = V.t("G0", D(N), Dn(N)) if right else V.t("G0", Dn(0), D(0))
        first = G0.conj().T if right else G0
    else:
        V.fix(Dn, start, D(start))
        G0, first = None, V.eye(D(start))
    Q = V.family("Q", (lambda n: (q(n), Dn(n), Dn(n - 1))) if right else (lambda n: (q(n), Dn(n - 1), Dn(n))))
    R = V.family("R", lambda i: (Dn(i), D(i)))
    at = lambda i: first if V.cases(i == start) else R(i)
    V.carried(at if right else lambda n: at(n - 1))
    envs = V.list(N + 1, V.family("env", lambda i: (D(i), D(i))), "env")
    tensor = lambda n: (V.einsum("sab->sba", Q(n).conj()) if right else Q(n))
    V.spec("A", lambda n: tensor(n))
    one = lambda i: V.mod("matmul").eyemat(Dn(i))
    V.spec("env", one)

    def qr(a, mode="full"):
        if right:
            want = lambda n: V.einsum("ab,scb->sac", at(n), A(n).conj()).reshape((q(n) * Dn(n), D(n - 1)))
        else:
            want = lambda n: V.einsum("ab,sbc->sac", at(n - 1), A(n)).reshape((q(n) * Dn(n - 1), D(n)))
        n = V.match(a, A, want, "what is split: the factor so far times the tensor of the next site", 1, N + 1)
        V.true("reduced factorisation", mode == "economic")
        if right:
            return Q(n).reshape((q(n) * Dn(n), Dn(n - 1))), R(n - 1)
        return Q(n).reshape((q(n) * Dn(n - 1), Dn(n))), R(n)
    V.stub("tdvp_common", "la", Library(tm.la, qr))
    last = (tm.restore_RCF_r_seq if right else tm.restore_LCF_l_seq)(As, envs, *([] if G0 is None else [G0]))
    n = V.int("n", 1, N)
    V.eq("tensors", As[n], tensor(n))
    m = n - 1 if right else n
    V.true("kind of environment", type(envs[m]).__name__ == "eyemat")
    V.true("size of the environment", tuple(envs[m].shape) == (Dn(m), Dn(m)))
    V.eq("factor left over", last, R(0).conj().T if right else R(N))


@contract.each("right", "left")
def unit_qr(V, form):
    """one site: the new tensor is orthonormal, and with the factor left over gives the old one"""
    tm = V.mod("tdvp_common")
    right = form == "right"
    q, D0, D1, A = site(V)
    old = A + 0
    far = V.dim("Dfar")
    G = V.t("G", D1, far) if right else V.t("G", far, D0)
    As, envs = V.list(2, lambda i: None if i == 0 else A), V.list(2, lambda i: None)
    rest = (tm.restore_RCF_r_seq if right else tm.restore_LCF_l_seq)(As, envs, G)
    new = As[1]
    if right:
        V.eq("orthonormal", V.einsum("sab,scb->ac", new, new.conj()), V.eye(new.shape[1]))
        V.eq("the same state", V.einsum("ab,sbc->sac", rest, new), V.einsum("sab,bc->sac", old, G))
    else:
        V.eq("orthonormal", V.einsum("sba,sbc->ac", new.conj(), new), V.eye(new.shape[2]))
        V.eq("the same state", V.einsum("sab,bc->sac", new, rest), V.einsum("ab,sbc->sac", G, old))
    V.frame()


@contract.each("same", "different")
def dimensions_in_step(V, what):
    """are the stored bond dimensions those of the tensors?"""
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic)
    N = c.N
    Dn = c.D if what == "same" else V.dims("Dn")
    n = V.int("n", 0, N)
    if what == "different":
        V.assume(c.D(n) != Dn(n))
    A = V.family("An", lambda i: (c.q(i), Dn(i - 1), Dn(i)))
    c.s.A = V.list(N + 1, lambda i: None if i == 0 else A(i))
    V.true("answer", bool(c.s._are_bond_dims_synced()) == (what == "same"))
    V.frame()


@contract.each("right", "left")
@modular
def canonical(V, form):
    """the method: unit sweep, bond dimensions adopted, the overall factor into the end tensor (its phase only, when the
    state is to be normalised), then the diagonal sweep from there"""
    right = form == "right"
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, named=("A", "l", "r"), sanity_checks=False, zero_tol=0.0)
    s, N = c.s, c.N
    use_qr = V.choice("algorithm", "QR", "hermitian factors") == "QR"
    normalise = V.choice("normalise", "yes", "no") == "yes"
    rest = V.choice("other side", "diagonal", "plain", "none")
    Dn = V.dims("Dn") if use_qr else c.D
    if use_qr:
        V.fix(Dn, 0, 1)
        V.fix(Dn, N, 1)
    T = V.family("T", lambda i: (c.q(i), Dn(i - 1), Dn(i)))
    U = V.family("U", lambda i: (c.q(i), Dn(i - 1), Dn(i)))
    E = V.family("E", lambda i: (Dn(i), Dn(i)))
    one = lambda i: V.mod("matmul").eyemat(Dn(i))
    g = V.t("g", 1, 1)
    V.nonzero(g[0, 0])          # the norm of the state
    end, edge = (1, 0) if right else (N, N)
    far = N if right else 0
    n, m = V.int("n", 1, N), V.int("m", 0, N)
    log = []

    def unit(A, x, sanity_checks=False, sc_data=""):
        log.append("unit")
        V.eq("tensors of the state", A[n], c.A(n))
        V.eq("environments of the state", x[m], c.r(m) if right else c.l(m))
        V.fill(A, 1, N + 1, T)
        if right:
            V.fill(x, 0, N, one)
        else:
            V.fill(x, 1, N + 1, one)
        return g

    gi = V.family("gi", lambda i: (c.D(i), c.D(i)))
    E1 = V.family("E1", lambda i: (c.D(i), c.D(i)))
    V.fix(c.D, 0, 1)
    at = lambda i: V.eye(c.D(far)) if V.cases(i == far) else g if V.cases(i == edge) else gi(i)
    V.carried(at if right else lambda n: at(n - 1))
    env1 = lambda i: (c.r(i) if right else c.l(i)) if V.cases(i == far) else E1(i)
    if not use_qr:
        V.spec("r" if right else "l", env1)
        V.spec("A", T)

    def unit_one(A, x, G, sc_data="", zero_tol=None, sanity_checks=False):
        k = V.which(A, c.A, "tensor of a site", N + 1)
        a, b = (k, k - 1) if right else (k - 1, k)
        V.eq("new environment of the neighbour", x, env1(a))
        V.eq("gauge matrix of the neighbour", G, at(a))
        A[:] = T(k)
        return (E1(b) + 0, V.zeros(1), at(b) + 0) if right else (E1(b) + 0, at(b) + 0, V.zeros(1))

    def before():
        """what the first part leaves behind"""
        f = g[0, 0] / abs(g[0, 0]) if normalise else g[0, 0]
        V.eq("tensors", s.A[n], T(n) * f if V.cases(n == end) else T(n))
        V.true("shapes", s.D[m] == Dn(m))
        x = s.r if right else s.l
        if V.cases(m != far):
            want = V.dense(one(m)) if use_qr else E1(m)
            if V.cases(m == edge) and not normalise:
                want = want * abs(g[0, 0]) ** 2
            V.eq("unit environments", V.dense(x[m]), want)

    def diagonal(A, x, sanity_checks=False, sc_data=""):
        log.append("diagonal")
        before()
        V.true("the state's own lists", A is s.A and x is (s.l if right else s.r))
        V.fill(A, 1, N + 1, U)
        V.fill(x, 0, N + 1, E)
        return g

    def plain(*a, **k):
        log.append("plain")
        before()
    V.stub("tdvp_common", "restore_RCF_r_seq" if right else "restore_LCF_l_seq", unit)
    V.stub("tdvp_common", "restore_RCF_r" if right else "restore_LCF_l", unit_one)
    V.stub("tdvp_common", "restore_RCF_l_seq" if right else "restore_LCF_r_seq", diagonal)
    s.calc_l = s.calc_r = plain
    if right:
        s.restore_RCF(use_QR=use_qr, update_l=rest != "none", diag_l=rest == "diagonal", normalize_mps=normalise)
    else:
        s.restore_LCF(use_QR=use_qr, update_r=rest != "none", diag_r=rest == "diagonal", normalize_mps=normalise)
    V.true("order", log == (["unit"] if use_qr else []) + [x for x in (rest,) if x != "none"])
    if rest == "diagonal":
        V.eq("tensors of the diagonal sweep", s.A[n], U(n))
        V.eq("environments of the diagonal sweep", (s.l if right else s.r)[m], E(m))
    else:
        before()
