"""C21: window states.  Site i of the infinite chain is tensor (i - 1) mod L of the left bulk for i < 1, of the window for
1 <= i <= N, and (i - N - 1) mod L of the right bulk for i > N."""
from .base import registry, modular, Window
FUNCS, contract = registry()


def anywhere(V, w, name="n"):
    """any site of the infinite chain"""
    return V.int(name) if V.symbolic else V.int(name, -6, w.N + 6)


def step_l(V, w):
    return lambda L, i: V.einsum("sab,ac,scd->bd", w.A(i).conj(), L(i - 1), w.A(i))


def step_r(V, w):
    return lambda R, i: V.einsum("sab,bd,scd->ac", w.A(i + 1), R(i + 1), w.A(i + 1).conj())


@contract
def lookups(V):
    """tensors and dimensions at any site"""
    w = Window(V)
    n = anywhere(V, w)
    V.eq("get_A", w.s.get_A(n), w.A(n))
    V.true("get_D", w.s.get_D(n) == w.D(n))
    V.true("get_q", w.s.get_q(n) == w.q(n))
    V.frame()


@contract
def lookup_l(V):
    """stored environments, the bulk's, or those carried on from the window"""
    w = Window(V)
    n = anywhere(V, w)
    if n <= w.N + 1:
        # position 0 is the last one of the left bulk
        V.eq("get_l", w.s.get_l(n), w.left.l(n - 1) if n < 1 else w.l(n))
    else:
        L = V.fold(lambda i, z: V.einsum("sab,ac,scd->bd", w.A(i).conj(), z, w.A(i)), w.l(w.N + 1),
                   lambda i: (w.right.D, w.right.D), w.N + 2, n + 1)
        V.eq("get_l right of the window", w.s.get_l(n), L)
    V.frame()


@contract
def lookup_r(V):
    w = Window(V)
    n = anywhere(V, w)
    if n >= 0:
        V.eq("get_r", w.s.get_r(n), w.r(n))
    else:
        R = V.fold(lambda i, z: V.einsum("sab,bd,scd->ac", w.A(i), z, w.A(i).conj()), w.r(0),
                   lambda i: (w.left.D, w.left.D), n + 1, 1, up=False)
        V.eq("get_r left of the window", w.s.get_r(n), R)
    V.frame()


@contract
def calc_l(V):
    """environments from the left bulk through the window and one site into the right bulk"""
    w = Window(V, named=("l",))
    N = w.N
    how = V.choice("range", "all", "part")
    lo, hi = (1, N) if how == "all" else (V.int("n_low", 1, N), V.int("n_high", 1, N))
    V.cases(lo == 1)
    first = w.left.l(-1) if lo == 1 else w.l(lo - 1)
    L = V.ghost("L", lambda i: (w.wD(i), w.wD(i)), lo - 1, first, step_l(V, w), lists=("l",))
    if how == "all":
        w.s.calc_l()
    else:
        V.assume(lo <= hi)
        w.s.calc_l(n_low=lo, n_high=hi)
    n = V.int("n", lo, hi)
    V.eq("l[n] is the contraction of the sites up to n", w.s.l[n], L(n))
    V.eq("l[0] is that of the left bulk", w.s.l[0], w.left.l(-1))
    V.cases(hi == N)
    last = L(N) if hi == N else w.l(N)
    V.eq("l[N + 1] goes on into the right bulk", w.s.l[N + 1], step_l(V, w)(lambda i: last, N + 1))
    w.unchanged("A")


@contract
def calc_r(V):
    w = Window(V, named=("r",))
    N = w.N
    how = V.choice("range", "all", "part")
    lo, hi = (0, N - 1) if how == "all" else (V.int("n_low", 0, N - 1), V.int("n_high", 0, N - 1))
    V.cases(hi == N - 1)
    first = w.right.r(-1) if hi == N - 1 else w.r(hi + 1)
    R = V.ghost("R", lambda i: (w.wD(i), w.wD(i)), hi + 1, first, step_r(V, w), lists=("r",))
    if how == "all":
        w.s.calc_r()
    else:
        V.assume(lo <= hi)
        w.s.calc_r(n_low=lo, n_high=hi)
    n = V.int("n", lo, hi)
    V.eq("r[n] is the contraction of the sites after n", w.s.r[n], R(n))
    V.eq("r[N] is that of the right bulk", w.s.r[N], w.right.r(-1))
    V.eq("r[N + 1] is the bulk's next one", w.s.r[N + 1], w.right.r(0))
    w.unchanged("A")


@contract
@modular
def simple_renorm(V):
    """the centre tensor is divided by the root of the norm; environments follow"""
    w = Window(V, named=("l", "r"))
    N, nc = w.N, w.N // 2
    V.assume(N >= 2)
    up = V.choice("update_lr", True, False, "default")
    nrm = V.einsum("ab,ba->", w.l(nc - 1), w.r(nc - 1))
    V.assume(nrm.real > 0)
    done = set()

    def calc_l(n_low=-1, n_high=-1):
        if (n_low < 0 or n_low <= nc) and (n_high < 0 or n_high >= N):
            done.add("l")

    def calc_r(n_low=-1, n_high=-1):
        if n_low <= 0 and (n_high < 0 or n_high >= nc - 1):
            done.add("r")
    w.s.calc_l, w.s.calc_r = calc_l, calc_r
    if up == "default":
        w.s.simple_renorm()
    else:
        w.s.simple_renorm(update_lr=up)
    n = w.site("m")
    if V.cases(n == nc) and V.cases(abs(1 - nrm) > 1E-15):
        nrm = nrm.real
        V.eq("the centre tensor is divided by the root of the norm", V.einsum("sab,tcd->sabtcd", w.s.A[n], w.s.A[n].conj()),
             V.einsum("sab,tcd->sabtcd", w.A(n), w.A(n).conj()) / nrm)
    else:
        V.eq("the other tensors are left unchanged", w.s.A[n], w.A(n))
    if up:
        V.true("the environments containing the centre tensor are calculated again", done == {"l", "r"})
    V.frame()


@contract.each("left", "right")
def grow(V, side):
    """the state on the infinite chain is the same: site i of it is found m unit cells further (left) or at the same place"""
    w = Window(V)
    N = w.N
    m = V.int("m", 1) if V.symbolic else V.int("m", 1, 3)
    b = w.left if side == "left" else w.right
    getattr(w.s, "grow_" + side)(m)
    sh = m * b.L if side == "left" else 0
    V.true("the window grows by whole cells", w.s.N == N + m * b.L)
    V.true("growth is recorded", w.s.grown_left == sh and w.s.grown_right == m * b.L - sh)
    i = anywhere(V, w)
    V.eq("tensor of every site of the chain", w.s.get_A(i + sh), w.A(i))
    j = V.int("j", 1, w.s.N)
    V.eq("tensors of the window", w.s.A[j], w.A(j - sh))
    V.true("bond dimensions", w.s.D[j] == w.D(j - sh))
    V.true("site dimensions", w.s.q[j] == w.q(j - sh))
    V.eq("environment at the left end", w.s.l[0], w.l(0))
    V.eq("environment at the right end", w.s.r[w.s.N], w.r(N))
    V.eq("environment beyond the right end", w.s.r[w.s.N + 1], w.right.r(0))


@contract.each("left", "right")
def grow_tdvp(V, side):
    """the Hamiltonian terms of the new sites are those of the bulk"""
    w = Window(V, tdvp=True, ham_sites=2)
    N = w.N
    for b, t in ((w.left, "L"), (w.right, "R")):
        b.s.ham = V.t("h" + t, b.q, b.q, b.q, b.q)
    h = V.family("h", lambda i: (w.q(i), w.q(i + 1)) * 2)
    w.s.ham = V.list(N + 1, h)
    hl, hr = w.left.s.ham, w.right.s.ham
    m = V.int("m", 1) if V.symbolic else V.int("m", 1, 3)
    b = w.left if side == "left" else w.right
    getattr(w.s, "grow_" + side)(m)
    sh = m * b.L if side == "left" else 0
    j = V.int("j", 0, N + m * b.L)
    V.true("one term for each bond", V.len(w.s.ham) == N + m * b.L + 1)
    V.eq("Hamiltonian terms", w.s.ham[j], hl if j < sh else (h(j - sh) if j <= N + sh else hr))
    i = anywhere(V, w)
    V.eq("tensor of every site of the chain", w.s.get_A(i + sh), w.A(i))
