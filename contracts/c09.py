"""C09: truncation of finite chains"""
from .base import registry, modular, Chain

FUNCS, contract = registry()


class Wider(Chain):
    """a chain whose bonds have at least one state more or less: D(i) = new(i) + cut(i)"""

    def __init__(self, V, kind="diag", **k):
        def dims(N):
            self.new, self.cut = V.dims("Dn"), V.dims("cut", 0)
            V.fix(self.new, 0, 1)
            V.fix(self.new, N, 1)
            V.fix(self.cut, 0, 0)
            V.fix(self.cut, N, 0)
            return lambda i: self.new(i) + self.cut(i)
        Chain.__init__(self, V, V.mod("mps_gen").EvoMPS_MPS_Generic, kind, dims=dims, named=("A",), sanity_checks=False,
                       zero_tol=1e-15, **k)

    def kept(self, i):
        a, b = self.cut(i - 1), self.cut(i)
        return self.A(i)[:, a:, b:]


def changed(V, c, lo, hi):
    """no bond in [lo, hi) is cut"""
    i = V.int("bond", 0, c.N)
    if V.cases(i >= lo) and V.cases(i < hi):
        V.true("bonds outside the reported range are not cut", c.cut(i) == 0)


@contract
@modular
def truncate_state(V):
    """every tensor keeps its trailing block (the leading Schmidt vectors), the dimensions are the requested ones, nothing is
    copied that is not asked for; the outermost cut bonds and the old environments are returned"""
    c = Wider(V)
    s, N = c.s, c.N
    log = []
    s.update = lambda *a, **k: log.append("update")
    update = V.choice("update", "yes", "no") == "yes"
    data = V.choice("data", "yes", "no") == "yes"
    n, m = V.int("n", 1, N), V.int("m", 0, N)
    V.consider(n - 1)
    want = V.list(N + 1, c.new)
    l, r = s.l, s.r
    out = s.truncate(want, update=update, return_update_data=data)
    V.true("one update", log == ["update"] * update)
    V.true("dimensions", s.D[m] == c.new(m))
    V.eq("kept block", s.A[n], c.kept(n))
    if V.cases(c.cut(m) != 0) and data:
        V.true("the update data", out is not None and out[1] is l and out[3] is r)
        last, first = out[0], out[2]
        V.consider(last)
        V.consider(first)
        V.true("first and last cut bond", first <= m and m <= last and c.cut(first) != 0 and c.cut(last) != 0)
        V.eq("old environments", V.dense(out[1][m]), c.l(m))
        V.eq("old environments", V.dense(out[3][m]), c.r(m))
    if not data:
        V.true("nothing returned", out is None)
    V.frame()


@contract
@modular
def truncate_refused(V):
    """a profile of another length, or one that asks for more anywhere, is refused; the state stays"""
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, "diag", named=("A",), sanity_checks=False, zero_tol=1e-15)
    s, N = c.s, c.N
    s.update = lambda *a, **k: V.true("no update", False)
    new = V.dims("Dn")
    j = V.int("j", 0, N)
    if V.choice("wrong", "length", "dimension") == "length":
        M = V.int("M", 0, 7 if not V.symbolic else None)
        V.assume(M != N)
        want = V.list(M + 1, new)
    else:
        V.assume(new(j) > c.D(j))
        want = V.list(N + 1, new)
        V.consider(j)
    m = V.int("m", 0, N)
    V.raises("refused", s.truncate, want)
    V.true("dimensions", s.D[m] == c.D(m))
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("right", "left")
@modular
def auto(V, form):
    """automatic truncation asks for the number of weights above the tolerance on each bond, with the tolerance of the state
    unless another is given, and reports whether anything was cut"""
    kind = V.choice("environments", "diag", "dense")
    c = Chain(V, V.mod("mps_gen").EvoMPS_MPS_Generic, kind, sanity_checks=False, canonical_form=form, named=("A",))
    s, N = c.s, c.N
    tol, own = V.scalar("tol", real=True), V.scalar("own_tol", real=True)
    s.zero_tol = own
    given_tol = V.choice("tolerance", "given", "own") == "given"
    t = tol if given_tol else own
    env = c.l if form == "right" else c.r
    weight = lambda i: V.einsum("aa->a", env(i))
    want = lambda i: c.D(i) if V.cases(i == 0) else V.count(abs(weight(i)) > t)
    V.spec("new_D", want)
    log, box = [], []
    n, m = V.int("n", 1, N), V.int("m", 0, N)

    def truncate(new, update=True, return_update_data=False):
        log.append("truncate")
        V.true("new dimensions", new[m] == want(m))
        if update:
            log.append("update")
        return "data" if return_update_data else None
    s.truncate = truncate
    s.update = lambda *a, **k: log.append("update")
    upd = V.choice("update", "yes", "no") == "yes"
    data = V.choice("data", "yes", "no") == "yes"
    out = s.auto_truncate(update=upd, zero_tol=tol if given_tol else None, return_update_data=data)
    if log:
        V.true("reported", out == ("data" if data else True))
        V.true("updated after the truncation if asked for", log[0] == "truncate" and ("update" in log) == upd)
    else:
        V.true("reported", out is False)
        V.true("nothing to cut", want(m) == c.D(m))
        V.true("no update without a change", not log)
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("right", "left")
@modular
def minimal_update(V, form):
    """after a truncation that returned its update data: on the diagonal side the kept weights, on the unit side unit
    environments up to the outermost cut bond and recalculated ones beyond it, then the norm if asked for"""
    right = form == "right"
    c = Wider(V, canonical_form=form)
    s, N = c.s, c.N
    weights = V.family("w", lambda i: (c.D(i),), real=True)
    mm = V.mod("matmul")
    old = V.list(N + 1, lambda i: mm.simple_diag_matrix(weights(i)))
    other = V.list(N + 1, lambda i: None)
    un = lambda i: V.undef("u", c.new(i), c.new(i))
    s.D = V.list(N + 1, c.new)
    s.A = V.list(N + 1, lambda i: None if i == 0 else c.kept(i))
    s.l, s.r = V.list(N + 1, lambda i: V.zeros(c.new(i), c.new(i))), V.list(N + 1, lambda i: V.zeros(c.new(i), c.new(i)))
    cutbond = V.int("cutbond", 1, N - 1)
    R = V.family("R", lambda i: (c.new(i), c.new(i)))
    n = V.int("n", 0, N)
    log = []
    kept = lambda i: V.einsum("a,ab->ab", weights(i)[c.cut(i):], V.eye(c.new(i)))

    def diag_side(i):
        want = V.eye(1) if V.cases(i == 0) or V.cases(i == N) else kept(i)
        if V.cases(i == (0 if right else N)):
            return
        V.eq("kept weights", V.dense((s.l if right else s.r)[i]), want)

    def recalc(*a, **k):
        log.append("recalc")
        V.true("recalculated beyond the outermost cut", k == ({"n_high": cutbond - 1} if right else {"n_low": cutbond}))
        diag_side(n)
        if V.cases(n >= cutbond if right else n < cutbond) and V.cases(n != (N if right else 0)):
            V.eq("unit environments", V.dense((s.r if right else s.l)[n]), V.eye(c.new(n)))
        if right:
            V.fill(s.r, 0, cutbond, R)
        else:
            V.fill(s.l, cutbond, N + 1, R)

    def renorm(*a, **k):
        log.append("renorm")
        V.true("after the environments", log == ["recalc", "renorm"])
    if right:
        s.calc_r = recalc
    else:
        s.calc_l = recalc
    s.simple_renorm = renorm
    normalise = V.choice("normalise", "yes", "no") == "yes"
    s._update_after_truncate(*([cutbond, old, None, other] if right else [None, other, cutbond, old]), normalize=normalise)
    V.true("order", log == ["recalc"] + ["renorm"] * normalise)
    diag_side(n)
    V.true("dimensions", s.D[n] == c.new(n))
    if n != 0:
        V.eq("tensors", s.A[n], c.kept(n))
    V.frame()


@contract.each("right", "left")
@modular
def zero_weights(V, form):
    """one site of a state whose cut weights vanish: the environments of the cut state obey the recursion of the cut tensors
    exactly (the block kept is the block of the old environment; the rest of the sum has weight zero)"""
    right = form == "right"
    tm = V.mod("tdvp_common")
    q, D, D1, c0, c1 = V.dim("q"), V.dim("D"), V.dim("D1"), V.int("c0", 0, 3 if not V.symbolic else None), V.int("c1", 0, 3 if not V.symbolic else None)
    A = V.t("A", q, c0 + D, c1 + D1)
    kept = A[:, c0:, c1:]
    mm = V.mod("matmul")
    if right:
        w = V.t("w", D, real=True)
        full = V.zeros(c0 + D, c0 + D)
        full[c0:, c0:] = V.einsum("a,ab->ab", w, V.eye(D))
        old = V.einsum("sab,ac,scd->bd", A.conj(), full, A)
        V.eq("left environment", tm.eps_l_noop(mm.simple_diag_matrix(w), kept, kept), old[c1:, c1:])
    else:
        w = V.t("w", D1, real=True)
        full = V.zeros(c1 + D1, c1 + D1)
        full[c1:, c1:] = V.einsum("a,ab->ab", w, V.eye(D1))
        old = V.einsum("sab,bc,sdc->ad", A, full, A.conj())
        V.eq("right environment", tm.eps_r_noop(mm.simple_diag_matrix(w), kept, kept), old[c0:, c0:])
    V.frame()


@contract
@modular
def truncate_uniform(V):
    """a uniform block of any length: every tensor keeps the leading block (symmetric gauge) or the trailing one (right
    canonical form, weights ascending), the environments are cut alike"""
    sym = V.choice("gauge", "symmetric", "right") == "symmetric"
    L, q, D, cut = V.int("L", 1, 3 if not V.symbolic else None), V.dim("q"), V.dim("D"), V.int("cut", 1, 3 if not V.symbolic else None)
    mm = V.mod("matmul")
    A = V.family("A", lambda i: (q, D + cut, D + cut))
    w = V.family("w", lambda i: (D + cut,), real=True)
    diag = lambda i: mm.simple_diag_matrix(w(i))
    log = []
    s = V.obj(V.mod("mps_uniform").EvoMPS_MPS_Uniform, L=L, q=q, D=D + cut, A=V.list(L, A), l=V.list(L, diag),
              r=V.list(L, diag if sym else lambda i: mm.eyemat(D + cut, dtype=complex)), symm_gauge=sym, typ=complex, odr="C")
    s.update = lambda *a, **k: log.append("update")
    upd = V.choice("update", "yes", "no") == "yes"
    k = V.int("k", 0, L - 1)
    s.truncate(D, update=upd)
    part = (lambda x: x[:D]) if sym else (lambda x: x[cut:])
    V.true("dimension", s.D == D)
    V.eq("kept block", s.A[k], A(k)[:, :D, :D] if sym else A(k)[:, cut:, cut:])
    V.eq("left environment", V.dense(s.l[k]), V.einsum("a,ab->ab", part(w(k)), V.eye(D)))
    V.eq("right environment", V.dense(s.r[k]), V.einsum("a,ab->ab", part(w(k)), V.eye(D)) if sym else V.eye(D))
    V.true("update", log == ["update"] * upd)
    V.frame()


@contract
@modular
def truncate_uniform_refused(V):
    """a dimension that is not smaller is refused and nothing changes"""
    L, q, D, more = V.int("L", 1, 3 if not V.symbolic else None), V.dim("q"), V.dim("D"), V.int("more", 0, 3 if not V.symbolic else None)
    A = V.family("A", lambda i: (q, D, D))
    s = V.obj(V.mod("mps_uniform").EvoMPS_MPS_Uniform, L=L, q=q, D=D, A=V.list(L, A), typ=complex, odr="C")
    s.update = lambda *a, **k: V.true("no update", False)
    k = V.int("k", 0, L - 1)
    V.raises("refused", s.truncate, D + more)
    V.true("dimension", s.D == D)
    V.eq("tensors", s.A[k], A(k))
    V.frame()
