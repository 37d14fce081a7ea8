"""C10: saving and loading -- a file holds a copy of what is saved; reading it back gives the same tensors, environments and
sizes on storage of their own, and files that do not fit are refused without changing the object."""
from .base import registry, modular, Chain, Uniform, UTdvp, Window
FUNCS, contract = registry()


def gen(V):
    return V.mod("mps_gen").EvoMPS_MPS_Generic


def other(V, c, **k):
    """an object of the same class, number of sites and local dimensions, with bond dimensions and tensors of its own"""
    return Chain(V, gen(V), tag="2", N=c.N, q=c.q, **k)


@contract
def finite(V):
    """save_state / load_state of a finite chain"""
    c = Chain(V, gen(V))
    d = other(V, c)
    f = V.file()
    c.s.save_state(f)
    f.rewind()
    d.s.load_state(f, do_update=False)
    n = c.site()
    V.eq("the tensors are the saved ones", d.s.A[n], c.A(n))
    k = V.int("k", 0, c.N)
    V.true("the bond dimensions are the saved ones", d.s.D[k] == c.D(k))
    V.true("the local dimensions are kept", d.s.q[n] == c.q(n))
    V.true("number of sites", d.s.N == c.N)
    V.true("environments of the new size", V.len(V.dense(d.s.l[k])) == c.D(k) and V.len(V.dense(d.s.r[k])) == c.D(k))
    # neither the file nor the saved object is affected by later work on the loaded one
    d.s.A[n][...] = V.t("X", c.q(n), c.D(n - 1), c.D(n))
    V.eq("the saved object's tensors are its own", c.s.A[n], c.A(n))
    c.unchanged("A", "l", "r")
    V.frame()


@contract
@modular
def finite_update(V):
    """the environments are recomputed once, after the tensors have been put in place"""
    c = Chain(V, gen(V))
    d = other(V, c)
    f = V.file()
    c.s.save_state(f)
    f.rewind()
    n = c.site()
    calls = []

    def update(*a, **k):
        calls.append((a, k))
        V.eq("the tensors are in place when update is called", d.s.A[n], c.A(n))
        V.true("and the dimensions", d.s.D[n] == c.D(n))
    d.s.update = update
    d.s.load_state(f)
    V.true("update is called once, with its defaults", calls == [((), {})])


@contract
def finite_length(V):
    c = Chain(V, gen(V))
    d = Chain(V, gen(V), tag="2")
    V.assume(c.N != d.N)
    f = V.file()
    c.s.save_state(f)
    f.rewind()
    V.raises("a state of another length is refused", lambda: d.s.load_state(f))
    d.unchanged("A", "l", "r")
    k = V.int("k", 0, d.N)
    V.true("the dimensions are left unchanged", d.s.D[k] == d.D(k))
    V.frame()


def refused(V, T, N, d):
    f = V.file()
    save = V.mod("mps_gen").sp.save
    save(f, V.list(N + 1, lambda i: None if i == 0 else T(i)))
    f.rewind()
    V.raises("a state of other dimensions is refused", lambda: d.s.load_state(f))
    d.unchanged("A", "l", "r")
    k = V.int("k", 0, N)
    V.true("the dimensions are left unchanged", d.s.D[k] == d.D(k))


@contract.each("first", "last")
def finite_ends(V, end):
    """tensors whose outer dimensions are not one"""
    d = Chain(V, gen(V))
    D = V.dims("Dn")
    V.assume(D(0) != 1 if end == "first" else D(d.N) != 1)
    if end == "last":
        V.fix(D, 0, 1)
    refused(V, V.family("T", lambda i: (d.q(i), D(i - 1), D(i))), d.N, d)


@contract.each("local", "bond")
def finite_site(V, where):
    """a tensor anywhere in the chain whose local dimension is not the object's, or that does not fit to its left neighbour"""
    d = Chain(V, gen(V))
    q, D, E = V.dims("qn"), V.dims("Dn"), V.dims("En")
    V.fix(D, 0, 1)
    j = d.site("j")
    V.assume(q(j) != d.q(j) if where == "local" else D(j - 1) != E(j))
    refused(V, V.family("T", lambda i: (q(i), E(i), D(i))), d.N, d)


# ------------------------------------------------------------------------------------------------ uniform states
def uni(V, kind, **k):
    u = UTdvp(V, 2, kind=kind, attrs=dict(userdata=None, K0_init=None), **k)
    u.s.A = V.plain(u.s.A)
    return u


@contract.each("dense", "diag", "RCF", "LCF")
def uniform(V, kind):
    """save_state / load_state of a uniform state"""
    u = uni(V, kind)
    X = V.t("userdata", V.dim("m"))
    u.s.userdata = X
    v = UTdvp(V, 2, tag="2", like=u)
    v.s.A = V.plain(v.s.A)
    f = V.file()
    u.s.save_state(f)
    f.rewind()
    v.s.update = lambda *a, **k: V.true("no update", False)
    V.true("the file is accepted", v.s.import_state(V.mod("tdvp_uniform").np.load(f, allow_pickle=True), do_update=False))
    k = u.pos()
    V.eq("the tensors are the saved ones", v.s.A[k], u.A(k))
    V.eq("the left environment is the saved one", v.s.l[-1], u.l(-1))
    V.eq("the right environment is the saved one", v.s.r[-1], u.r(-1))
    V.eq("the partial energy is the saved one", v.s.K[0], u.K(0))
    V.eq("the user data is the saved one", v.s.userdata, X)
    u.unchanged("A", "l", "r")
    V.frame()


@contract
def uniform_file(V):
    """from_file: an object of the saved sizes"""
    u = uni(V, "dense")
    X = V.t("userdata", V.dim("m"))
    f = V.file()
    u.s.save_state(f, userdata=X)
    f.rewind()
    h = V.t("h2", u.q, u.q, u.q, u.q)
    v = V.mod("tdvp_uniform").EvoMPS_TDVP_Uniform.from_file(f, h, do_update=False)
    V.true("sizes", v.L == u.L and v.D == u.D and v.q == u.q)
    k = u.pos()
    V.eq("the tensors are the saved ones", v.A[k], u.A(k))
    V.eq("the left environment is the saved one", v.l[-1], u.l(-1))
    V.eq("the right environment is the saved one", v.r[-1], u.r(-1))
    V.eq("the partial energy is the saved one", v.K[0], u.K(0))
    V.eq("the user data is the given one", v.userdata, X)
    V.is_("the Hamiltonian is the given one", v.ham, h)
    u.unchanged("A", "l", "r")
    V.frame()


@contract
@modular
def uniform_update(V):
    """the environments are recomputed once, after the tensors have been put in place"""
    u = uni(V, "dense")
    v = UTdvp(V, 2, tag="2", like=u)
    v.s.A = V.plain(v.s.A)
    f = V.file()
    u.s.save_state(f)
    f.rewind()
    k = u.pos()
    calls = []

    def update(*a, **b):
        calls.append((a, b))
        V.eq("the tensors are in place when update is called", v.s.A[k], u.A(k))
    v.s.update = update
    V.true("the file is accepted", v.s.load_state(f))
    V.true("update is called once, with its defaults", calls == [((), {})])


@contract.each("L", "D", "q")
def uniform_refused(V, what):
    """a state of another block length, bond dimension or local dimension is refused"""
    u = uni(V, "dense")
    v = UTdvp(V, 2, tag="2")
    v.s.A = V.plain(v.s.A)
    v.s.userdata = None
    V.assume({"L": v.L != u.L, "D": v.D != u.D, "q": v.q != u.q}[what])
    f = V.file()
    u.s.save_state(f)
    f.rewind()
    V.true("the file is refused", v.s.load_state(f) is False)
    v.unchanged("A", "l", "r", "K")
    V.true("sizes", v.s.L == v.L and v.s.D == v.D and v.s.q == v.q)
    V.frame()


# ------------------------------------------------------------------------------------------------ windows
def win(V, tdvp, kind="dense", tag="", like=None, **k):
    w = Window(V, tdvp=tdvp, kind=kind, tag=tag, like=like, **k)
    for u in (w.left, w.right):
        u.s.A = V.plain(u.s.A)
        if tdvp:
            t = u.tag
            u.K, u.Kl = V.t("K" + t, u.D, u.D), V.t("Kl" + t, u.D, u.D)
            u.s.K, u.s.K_left = V.list(u.L, lambda i, u=u: u.K if i == 0 else None), V.list(u.L, lambda i, u=u: u.Kl if i == u.L - 1 else None)
    return w


@contract.each("state", "tdvp")
def window(V, what):
    """save_state / load_state of a window"""
    tdvp = what == "tdvp"
    w = win(V, tdvp)
    for n, x in (("grown_left", V.int("gl", 0, 5)), ("grown_right", V.int("gr", 0, 5)), ("shrunk_left", V.int("sl", 0, 5)),
                 ("shrunk_right", V.int("sr", 0, 5))):
        setattr(w.s, n, x)
    d = win(V, tdvp, tag="2", like=w)
    for n in ("grown_left", "grown_right", "shrunk_left", "shrunk_right"):
        setattr(d.s, n, 0)
    f = V.file()
    X = V.t("userdata", V.dim("m"))
    w.s.save_state(f, userdata=X)
    f.rewind()
    V.eq("the user data is returned", d.s.load_state(f, do_update=False), X)
    n = w.site()
    V.eq("the tensors are the saved ones", d.s.A[n], w.A(n))
    V.true("the bond dimensions are the saved ones", d.s.D[n] == w.D(n))
    V.true("sizes", d.s.N == w.N and d.s.q[n] == w.q(n))
    V.eq("left environment", d.s.l[0], w.l(0))
    V.eq("right environment", d.s.r[w.N], w.r(w.N))
    for side, a, b in (("left", w.left, d.s.uni_l), ("right", w.right, d.s.uni_r)):
        k = V.int("k" + side, 0, a.L - 1)
        V.eq("tensors of the %s bulk" % side, b.A[k], a.A(k))
        V.true("block length of the %s bulk" % side, len(b.A) == a.L if not V.symbolic else V.len(b.A) == a.L)
    V.eq("left bulk: left environment", d.s.uni_l.l[-1], w.l(0))
    V.eq("left bulk: right environment", d.s.uni_l.r[-1], w.left.r(-1))
    V.eq("right bulk: right environment", d.s.uni_r.r[-1], w.r(w.N))
    V.eq("right bulk: left environment", d.s.uni_r.l[-1], w.right.l(-1))
    if tdvp:
        V.eq("energy of the left bulk", d.s.uni_l.K_left[-1], w.left.Kl)
        V.eq("energy of the right bulk", d.s.uni_r.K[0], w.right.K)
    for x in ("grown_left", "grown_right", "shrunk_left", "shrunk_right"):
        V.true(x, getattr(d.s, x) == getattr(w.s, x))
    w.unchanged("A", "l", "r")
    w.left.unchanged("A", "l", "r")
    w.right.unchanged("A", "l", "r")
    V.frame()


@contract.each("state", "tdvp")
@modular
def window_update(V, what):
    """the environments are recomputed once, after everything has been put in place"""
    w = win(V, what == "tdvp")
    d = win(V, what == "tdvp", tag="2", like=w)
    f = V.file()
    w.s.save_state(f)
    f.rewind()
    n = w.site()
    calls = []

    def update(*a, **b):
        calls.append((a, b))
        V.eq("the tensors are in place when update is called", d.s.A[n], w.A(n))
        if what == "tdvp":
            V.eq("and the energies of the bulks", d.s.uni_l.K_left[-1], w.left.Kl)
            V.eq("on both sides", d.s.uni_r.K[0], w.right.K)
    d.s.update = update
    d.s.load_state(f)
    V.true("update is called once, with its defaults", calls == [((), {})])


@contract.each("N", "local", "bond", "left_L", "left_D", "left_q", "right_L", "right_D", "right_q")
def window_refused(V, what):
    """a state of another length, other dimensions anywhere in the window, or other bulks is refused"""
    w = win(V, False)
    d = win(V, False, tag="2", like=w if what in ("local", "bond") else None)
    j = d.site("j")
    if what == "N":
        V.assume(w.N != d.N)
    elif what in ("local", "bond"):
        # the saved tensor at site j
        q, E = V.dims("qn"), V.dims("En")
        V.assume(q(j) != d.q(j) if what == "local" else E(j) != w.D(j - 1))
        B = V.family("B", lambda i: (q(i), E(i), w.D(i)))
        w.s.A = V.list(w.N + 3, lambda i: B(i) if i >= 1 and i <= w.N else None)
    else:
        a, b = (w.left, d.left) if what[0] == "l" else (w.right, d.right)
        V.assume(getattr(a, what[-1]) != getattr(b, what[-1]))
    f = V.file()
    w.s.save_state(f)
    f.rewind()
    V.raises("the state is refused", lambda: d.s.load_state(f))
    d.unchanged("A", "l", "r")
    d.left.unchanged("A", "l", "r")
    d.right.unchanged("A", "l", "r")
    V.true("sizes", d.s.N == d.N and d.s.D[j] == d.D(j) and d.s.q[j] == d.q(j))
    V.frame()
