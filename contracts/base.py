"""helpers shared by the contract files"""


def registry():
    funcs = {}

    def contract(fn):
        funcs[fn.__name__] = fn
        return fn

    def each(*values):
        """one contract per value of the function's second argument"""
        def deco(fn):
            for v in values:
                def one(V, v=v):
                    return fn(V, v)
                one.__doc__, one.__name__ = fn.__doc__, "%s_%s" % (fn.__name__, v)
                one.modular = getattr(fn, "modular", False)
                funcs[one.__name__] = one
            return fn
        return deco
    contract.each = each
    return funcs, contract


def modular(fn):
    """the contract replaces callees by their contracts: which of them are called, and with what, is part of it, so its failure
    on real arrays alone is no failing input of the whole"""
    fn.modular = True
    return fn


def env(V, kind, d1, d2, nm="x"):
    """(object, dense) environment argument: dense, diagonal or identity"""
    if kind == "dense":
        x = V.t(nm, d1, d2)
        return x, x
    mm = V.mod("matmul")
    if kind == "diag":
        d = V.t(nm + "d", d1)
        return mm.simple_diag_matrix(d), V.einsum("a,ab->ab", d, V.eye(d1))
    return mm.eyemat(d1), V.eye(d1)


def henv(V, kind, d, nm="x"):
    """(object, dense) Hermitian environment or root: dense Hermitian, real diagonal or identity"""
    if kind == "dense":
        x = V.t(nm, d, d, herm=True)
        return x, x
    mm = V.mod("matmul")
    if kind == "diag":
        v = V.t(nm + "d", d, real=True)
        return mm.simple_diag_matrix(v), V.einsum("a,ab->ab", v, V.eye(d))
    return mm.eyemat(d), V.eye(d)


def given(V, name):
    return V.choice(name, "given", "none") == "given"


class Chain(object):
    """an arbitrary finite chain state of the repository's class: N sites, arbitrary site and bond dimensions, arbitrary
    tensors and environments (all dense, all diagonal or all identity)"""

    def __init__(self, V, cls, kind="dense", herm=True, named=(), uniform_q=False, tag="", N=None, q=None, dims=None, **attrs):
        self.V, self.kind, self.tag = V, kind, tag
        mm = V.mod("matmul")
        if N is None:
            N = V.int("N" + tag, 1, 5) if not V.symbolic else V.int("N" + tag, 1)
        self.N = N
        D = V.dims("D" + tag) if dims is None else dims(N)
        if q is None:
            q = V.dims("q" + tag)
            if uniform_q:
                q0 = V.dim("q0" + tag)
                q = lambda i: q0
        self.D, self.q = D, q
        if dims is None:
            V.fix(D, 0, 1)
            V.fix(D, N, 1)
        self.A = V.family("A" + tag, lambda i: (q(i), D(i - 1), D(i)))
        nm = lambda x: x if x in named else None
        if kind == "dense":
            self.l = self.lo = V.family("l" + tag, lambda i: (D(i), D(i)), herm=herm)
            self.r = self.ro = V.family("r" + tag, lambda i: (D(i), D(i)), herm=herm)
        elif kind == "diag":
            ld, rd = V.family("ld" + tag, lambda i: (D(i),), real=True), V.family("rd" + tag, lambda i: (D(i),), real=True)
            self.lo, self.ro = (lambda i: mm.simple_diag_matrix(ld(i))), (lambda i: mm.simple_diag_matrix(rd(i)))
            self.l = lambda i: V.einsum("a,ab->ab", ld(i), V.eye(D(i)))
            self.r = lambda i: V.einsum("a,ab->ab", rd(i), V.eye(D(i)))
        else:
            self.lo = self.ro = lambda i: mm.eyemat(D(i), dtype=complex)
            self.l = self.r = lambda i: V.eye(D(i))
        a = dict(N=N, D=V.list(N + 1, D), q=V.list(N + 1, lambda i: 0 if i == 0 else q(i)),
                 A=V.list(N + 1, lambda i: None if i == 0 else self.A(i), nm("A")),
                 l=V.list(N + 1, self.lo, nm("l")), r=V.list(N + 1, self.ro, nm("r")), typ=complex, odr="C")
        a.update(attrs)
        self.s = V.obj(cls, **a)

    def site(self, name="n", lo=1, hi=None):
        """an arbitrary site"""
        return self.V.int(name, lo, self.N if hi is None else hi)

    def unchanged(self, *names):
        V, s = self.V, self.s
        i = V.int("anysite" + self.tag, 0, self.N)
        for n in names:
            if n == "A":
                if i != 0:
                    V.eq("the other tensors are left unchanged", s.A[i], self.A(i))
            else:
                V.eq("%s is left unchanged" % n, V.dense(getattr(s, n)[i]), getattr(self, n)(i))


class Uniform(object):
    """an arbitrary uniform state: block length L, q and D arbitrary, arbitrary tensors and environments.  Families are indexed
    by the position inside the block; A(k), l(k), r(k) of this object take any integer"""

    def __init__(self, V, cls, kind="dense", herm=True, tag="", Lmax=None, like=None, **attrs):
        self.V, self.kind, self.tag = V, kind, tag
        mm = V.mod("matmul")
        self.L = L = like.L if like else V.int("L" + tag, 1, Lmax or (3 if not V.symbolic else None))
        self.D, self.q = D, q = (like.D, like.q) if like else (V.dim("D" + tag), V.dim("q" + tag))
        fA = V.family("A" + tag, lambda i: (q, D, D))
        self.fA = fA
        if kind == "dense":
            fl = flo = V.family("l" + tag, lambda i: (D, D), herm=herm)
            fr = fro = V.family("r" + tag, lambda i: (D, D), herm=herm)
        else:
            kl, kr = {"diag": ("d", "d"), "RCF": ("d", "e"), "LCF": ("e", "d"), "eye": ("e", "e")}[kind]
            ld, rd = V.family("ld" + tag, lambda i: (D,), real=True), V.family("rd" + tag, lambda i: (D,), real=True)
            obj = lambda k, f: (lambda i: mm.simple_diag_matrix(f(i))) if k == "d" else (lambda i: mm.eyemat(D, dtype=complex))
            den = lambda k, f: (lambda i: V.einsum("a,ab->ab", f(i), V.eye(D))) if k == "d" else (lambda i: V.eye(D))
            flo, fro, fl, fr = obj(kl, ld), obj(kr, rd), den(kl, ld), den(kr, rd)
        self.fl, self.fr = fl, fr
        a = dict(L=L, D=D, q=q, A=V.list(L, fA, cyclic=True), l=V.list(L, flo, cyclic=True),
                 r=V.list(L, fro, cyclic=True), typ=complex, odr="C")
        a.update(attrs)
        self.s = V.obj(cls, **a)

    def A(self, i):
        return self.fA(i % self.L)

    def l(self, i):
        return self.fl(i % self.L)

    def r(self, i):
        return self.fr(i % self.L)

    def pos(self, name="k", ahead=0):
        """an arbitrary block position; the proof is split on where k + 1, ... k + ahead wrap around"""
        k = self.V.int(name, 0, self.L - 1)
        for j in range(1, ahead + 1):
            self.V.cases(k + j < self.L)
        return k

    def unchanged(self, *names):
        V = self.V
        i = V.int("anyblock" + self.tag, 0, self.L - 1)
        for n in names:
            V.eq("%s is left unchanged" % n, V.dense(getattr(self.s, n)[i]), getattr(self, "f" + n)(i))


class Tdvp(Chain):
    """an arbitrary finite TDVP object: a chain with a two- or three-site Hamiltonian, as a list in which any terms may be
    missing, or as a function ham(n, *indices); the derived tensors are arbitrary (given) or unset"""

    def __init__(self, V, sites, form="list", derived=(), missing=True, **k):
        cls = k.pop("cls", None) or V.mod("tdvp_gen").EvoMPS_TDVP_Generic
        self.sites = sites
        attrs = k.pop("attrs", {})
        Chain.__init__(self, V, cls, **k)
        N, D, q = self.N, self.D, self.q
        V.assume(N >= sites)
        hq = lambda i: tuple(q(i + j) for j in range(sites))
        self.h = h = V.family("h", lambda i: hq(i) + hq(i))
        if form == "list":
            self.has = has = V.dims("has", lo=0)
            ham = V.list(N + 1, lambda i: None if missing and (i == 0 or has(i) == 0) else h(i))
        elif form == "none":
            ham = None
        else:
            self.has = lambda i: 1
            ham = lambda n, *idx: h(n)[idx if V.symbolic else tuple(int(i) for i in idx)]
        s = self.s
        AA = V.family("AA", lambda i: (q(i), q(i + 1), D(i - 1), D(i + 1)))
        AAA = V.family("AAA", lambda i: (q(i), q(i + 1), q(i + 2), D(i - 1), D(i + 2)))
        C = V.family("C", lambda i: hq(i) + (D(i - 1), D(i - 1 + sites)))
        self.C, self.AA, self.AAA = C, AA, AAA
        self.K = V.family("K", lambda i: (D(i - 1), D(i - 1)))
        given = lambda n, f: (lambda i: None if i == 0 or not n in derived else f(i))
        put = dict(ham=ham, ham_sites=sites, AA=V.list(N, given("AA", AA)), AAA=V.list(N - 1, given("AAA", AAA)),
                   C=V.list(N, lambda i: None if i == 0 or i > N - sites + 1 or (missing and form == "list" and has(i) == 0)
                            else C(i)),
                   K=V.list(N + 1, given("K", self.K), "K"), h_expect=V.undef(N + 1), H_expect=None,
                   gauge_fixing="right", canonical_form="right", zero_tol=0.0, sanity_checks=False)
        put.update(attrs)
        for a, v in put.items():
            setattr(s, a, v)

    def present(self, i):
        """is there a Hamiltonian term starting at site i?"""
        return self.has(i) != 0

    def has_left_K(self):
        """K[n] is the energy to the left of site n (left gauge): dimensions of the bond to the right of n"""
        V, N, D = self.V, self.N, self.D
        self.K = V.family("Kl", lambda i: (D(i), D(i)))
        self.s.K = V.list(N + 1, lambda i: None if i == 0 else self.K(i), "K")


class Window(object):
    """an arbitrary window between two uniform bulks.  A(i), l(i), r(i) are the tensors stored for the object: of the window for
    1 <= i <= N (environments: 0 <= i <= N + 1), of the bulks elsewhere"""

    def __init__(self, V, tdvp=False, sites=2, derived=(), kind="dense", named=(), tag="", like=None, **attrs):
        self.V, self.tag = V, tag
        nm = lambda x: x if x in named else None
        mod = "tdvp_sandwich" if tdvp else "mps_sandwich"
        cls = getattr(V.mod(mod), "EvoMPS_TDVP_Sandwich" if tdvp else "EvoMPS_MPS_Sandwich")
        ucls = V.mod("tdvp_uniform").EvoMPS_TDVP_Uniform if tdvp else V.mod("mps_uniform").EvoMPS_MPS_Uniform
        self.left = Uniform(V, ucls, kind=kind, tag="L" + tag, like=like and like.left)
        self.right = Uniform(V, ucls, kind=kind, tag="R" + tag, like=like and like.right)
        self.N = N = like.N if like else V.int("N" + tag, 1, 5) if not V.symbolic else V.int("N" + tag, 1)
        D, q = V.dims("D" + tag), like.wq if like else V.dims("q" + tag)
        self.wD, self.wq = D, q
        for i, v in ((0, self.left.D), (N, self.right.D), (N + 1, self.right.D)):
            V.fix(D, i, v)
        for i, v in ((0, self.left.q), (N + 1, self.right.q)):
            V.fix(q, i, v)
        self.fA = V.family("A" + tag, lambda i: (q(i), D(i - 1), D(i)))
        if kind == "dense":
            self.fl = V.family("l" + tag, lambda i: (D(i), D(i)), herm=True)
            self.fr = V.family("r" + tag, lambda i: (D(i), D(i)), herm=True)
        inside = lambda i: i >= 0 and i <= N + 1
        a = dict(N=N, N_centre=N // 2, D=V.list(N + 2, D), q=V.list(N + 2, q),
                 A=V.list(N + 3, lambda i: self.fA(i) if i >= 1 and i <= N else None, nm("A")),
                 l=V.list(N + 3, lambda i: self.fl(i) if inside(i) else None, nm("l")),
                 r=V.list(N + 3, lambda i: self.fr(i) if inside(i) else None, nm("r")),
                 uni_l=self.left.s, uni_r=self.right.s, typ=complex, odr="C", zero_tol=0.0, _sanity_checks=False, grown_left=0, grown_right=0, shrunk_left=0, shrunk_right=0)
        a.update(attrs)
        self.s = V.obj(cls, **a)

    def D(self, i):
        return self.wD(i) if i >= 0 and i <= self.N + 1 else (self.left.D if i < 0 else self.right.D)

    def q(self, i):
        return self.wq(i) if i >= 1 and i <= self.N else (self.left.q if i < 1 else self.right.q)

    def A(self, i):
        if i < 1:
            return self.left.A(i - 1)
        return self.right.A(i - self.N - 1) if i > self.N else self.fA(i)

    def l(self, i):
        return self.left.l(i - 1) if i < 0 else self.fl(i)

    def r(self, i):
        return self.right.r(i - self.N - 1) if i > self.N + 1 else self.fr(i)

    def site(self, name="n", lo=1, hi=None):
        return self.V.int(name, lo, self.N if hi is None else hi)

    def unchanged(self, *names):
        V = self.V
        i = V.int("anysite" + self.tag, 1, self.N)
        for n in names:
            V.eq("%s is left unchanged" % n, getattr(self.s, n)[i], getattr(self, "f" + n)(i))


class UTdvp(Uniform):
    """an arbitrary uniform TDVP object with a two- or three-site Hamiltonian: an array, an element function or (two sites) a
    sum of products.  C, AA, AAA are arbitrary (`derived`) or unset"""

    def __init__(self, V, sites, form="array", derived=(), **k):
        attrs, tag = k.pop("attrs", {}), k.get("tag", "")
        Uniform.__init__(self, V, V.mod("tdvp_uniform").EvoMPS_TDVP_Uniform, **k)
        L, D, q, s = self.L, self.D, self.q, self.s
        self.sites, self.form = sites, form
        sh = (q,) * (2 * sites)
        s.ham_sites, s.ham_tp = sites, None
        self.U = self.W = None
        if form == "tp":
            s.ham_tp, self.U, self.W = V.tp_op("h" + tag, V.dim("m" + tag), q, q)
            s.ham = None
            self.h = V.einsum("mus,mvt->uvst", self.U, self.W)
        elif form == "function":
            s.ham = V.fn_op("h" + tag, *sh)
            self.h = s.ham.tensor
        else:
            s.ham = self.h = V.t("h" + tag, *sh)
        self.fAA = V.family("AA" + tag, lambda i: (q, q, D, D))
        self.fAAA = V.family("AAA" + tag, lambda i: (q, q, q, D, D))
        self.fC = V.family("C" + tag, lambda i: (q,) * sites + (D, D))
        self.fK = V.family("K" + tag, lambda i: (D, D))
        given = lambda n, f: (lambda i: f(i)) if n in derived else (lambda i: None)
        if form == "tp" and "C" in derived:
            tm = V.mod("tdvp_common")
            s.C = V.list(L, lambda i: tm.calc_C_tp(s.ham_tp, self.fA(i), self.A(i + 1)), cyclic=True)
        else:
            s.C = V.list(L, self.fC, cyclic=True)
        s.AA = V.list(L, given("AA", self.fAA), cyclic=True)
        s.AAA = V.list(L, given("AAA", self.fAAA), cyclic=True)
        s.K = V.list(L, self.fK, "K" + tag, cyclic=True)
        s.K_left = V.list(L, lambda i: None, "Kl" + tag)
        s.K_solver, s.K0_init, s.sanity_checks, s.zero_tol, s.itr_rtol = None, None, False, 0.0, 1E-13
        for a, v in attrs.items():
            setattr(s, a, v)

    def C(self, i):
        """the stored term on the sites i, i + 1 (, i + 2), applied to their tensors"""
        if self.form == "tp":
            return self.V.einsum("uvst,sab,tbc->uvac", self.h, self.A(i), self.A(i + 1))
        return self.fC(i % self.L)

    def K(self, i):
        return self.fK(i % self.L)

    def AA(self, i):
        return self.fAA(i % self.L)

    def AAA(self, i):
        return self.fAAA(i % self.L)

    def Hr(self, i):
        """term on the sites i, ... seen from the bond left of i"""
        V, r = self.V, self.r(i + self.sites - 1)
        if self.form == "tp":
            return V.einsum("stab,bc,sde,tec->ad", self.C(i), r, self.A(i).conj(), self.A(i + 1).conj())
        if self.sites == 2:
            return V.einsum("stab,bc,stdc->ad", self.C(i), r, self.AA(i).conj())
        return V.einsum("stuab,bc,studc->ad", self.C(i), r, self.AAA(i).conj())

    def lH(self, i):
        """term on the sites i, ... seen from the bond right of its last site"""
        V, l = self.V, self.l(i - 1)
        if self.form == "tp":
            return V.einsum("sae,teb,ac,stcd->bd", self.A(i).conj(), self.A(i + 1).conj(), l, self.C(i))
        if self.sites == 2:
            return V.einsum("stab,ac,stcd->bd", self.AA(i).conj(), l, self.C(i))
        return V.einsum("stuab,ac,stucd->bd", self.AAA(i).conj(), l, self.C(i))

    def Er(self, i, x):
        return self.V.einsum("sab,bc,sdc->ad", self.A(i), x, self.A(i).conj())

    def El(self, i, x):
        return self.V.einsum("sab,ac,scd->bd", self.A(i).conj(), x, self.A(i))
