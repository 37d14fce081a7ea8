"""C14: integrator steps.  The tangent vectors are those of calc_B / calc_B_n (their own contracts: C13, C19, C24); here each
evaluation is an arbitrary tensor per site (or none), and the state it is asked for is checked."""
from .base import registry, modular, given, Tdvp, Uniform, Window
FUNCS, contract = registry()


class Stages(object):
    """tangent evaluations k1, k2, ...: arbitrary, with the same stationary sites, each demanding the state of its stage"""

    def __init__(self, V, c, shape, lo, hi):
        self.V, self.c, self.lo, self.hi, self.n = V, c, lo, hi, 0
        self.has = V.dims("tangent", lo=0)
        self.k = [None] + [V.family("k%d" % i, shape) for i in (1, 2, 3, 4)]
        self.updated = True

    def want(self, i):
        """site tensor at which the current evaluation (number self.n) must be made"""
        V, c = self.V, self.c
        A = c.A(i)
        if self.n == 1 or not V.cases(self.has(i) != 0):
            return A
        w = {2: 0.5, 3: 0.5, 4: 1.0}[self.n]
        return A - w * self.dtau * self.k[self.n - 1](i)

    def at_stage(self, label):
        V = self.V
        i = V.int("i%d" % self.n, self.lo, self.hi)
        V.eq("%s of stage %d sees the state of that stage" % (label, self.n), self.c.s.A[i], self.want(i))

    def B(self, i):
        return None if self.has(i) == 0 else self.k[self.n](i)


@contract.each("given", "own")
@modular
def euler_finite(V, variant):
    """A[n] -= dtau B[n] on every site that has a tangent direction"""
    c = Tdvp(V, 2, "list")
    N, D = c.N, c.D
    z = V.t("z", N + 1, real=True, frame=False)
    c.s.etaBB_sq = z
    st = Stages(V, c, lambda i: (c.q(i), D(i - 1), D(i)), 1, N)
    st.n, st.dtau = 1, V.scalar("dtau")
    Bl = V.list(N + 1, lambda i: None if i == 0 else st.B(i))
    if variant == "given":
        c.s.take_step(st.dtau, B=Bl)
        n = c.site("g")
        if V.cases(st.has(n) != 0):
            V.eq("the given tangent vector is left alone", Bl[n], st.k[1](n))
    else:
        left = V.choice("gauge", "left", "right") == "left"
        c.s.gauge_fixing = "left" if left else "right"
        names = ("l_s", "l_si", "r_s", "r_si")
        fam = {k: V.family(k, lambda i, k=k: (D(i), D(i))) for k in names}

        def calc_l_r_roots(lm1, r, zero_tol=None, sanity_checks=False, sc_data=("", 0)):
            n = sc_data[1]
            V.eq("roots are those of l[n-1]", V.dense(lm1), c.l(n - 1))
            V.eq("roots are those of r[n]", V.dense(r), c.r(n))
            return fam["l_s"](n - 1), fam["l_si"](n - 1), fam["r_s"](n), fam["r_si"](n)
        V.stub("tdvp_common", "calc_l_r_roots", calc_l_r_roots, "square roots and pseudo-inverse roots of positive matrices")
        i = c.site()
        # the null spaces are only handed on: which tensor they belong to is checked in calc_B_n
        V.stub("tdvp_common", "calc_Vsh_l", lambda A, rt, sanity_checks=False: A + 0, "basis of the null space")
        V.stub("tdvp_common", "calc_Vsh", lambda A, rt, sanity_checks=False: A + 0, "basis of the null space")

        def calc_B(set_eta=True, l_s=None, l_si=None, r_s=None, r_si=None, Vlh=None, Vrh=None):
            V.true("eta is calculated", set_eta)
            for k, v, j in (("l_s", l_s, i - 1), ("l_si", l_si, i - 1), ("r_s", r_s, i), ("r_si", r_si, i)):
                V.eq("%s at its site" % k, v[j], fam[k](j))
            V.eq("null space at its site", (Vlh if left else Vrh)[i], c.A(i))
            st.at_stage("the evaluation")
            return Bl
        c.s.calc_B = calc_B
        c.s.take_step(st.dtau)
    n = c.site("m")
    if V.cases(st.has(n) == 0):
        V.eq("a stationary site is left alone", c.s.A[n], c.A(n))
    else:
        V.eq("A[n] - dtau B[n]", c.s.A[n], c.A(n) - st.dtau * st.k[1](n))
    V.eq("no second-order norm", c.s.etaBB, 0)
    c.unchanged("l", "r")
    V.frame()


@contract.each("given", "own")
@modular
def rk4_finite(V, variant):
    """classical Runge-Kutta: four evaluations at the states of the tableau, weights 1/6, 1/3, 1/3, 1/6"""
    c = Tdvp(V, 2, "list")
    N, D = c.N, c.D
    c.s.etaBB_sq, c.s.eta_sq = V.t("z", N + 1, real=True, frame=False), V.t("zz", N + 1, real=True, frame=False)
    st = Stages(V, c, lambda i: (c.q(i), D(i - 1), D(i)), 1, N)
    st.dtau = V.scalar("dtau")
    blist = lambda: V.list(N + 1, lambda i, n=st.n: None if i == 0 or st.has(i) == 0 else st.k[n](i))

    def calc_B(set_eta=True):
        st.n += 1
        V.true("the environments belong to the state", st.updated)
        V.true("eta is that of the initial state", set_eta == (st.n == 1))
        st.at_stage("the evaluation")
        st.updated = False          # until the next update
        return blist()

    def calc_B_n(n, set_eta=True):
        V.true("the environments belong to the state", st.updated)
        V.true("eta is that of the initial state", not set_eta)
        V.true("three evaluations before", st.n in (3, 4))
        st.n = 4
        V.eq("the last evaluation sees the state of that stage", c.s.A[n], st.want(n))
        return st.B(n)

    def update(restore_CF=True, normalize=True):
        V.true("the gauge and the norm are left alone", not restore_CF and not normalize)
        st.updated = True
    c.s.calc_B, c.s.calc_B_n, c.s.update = calc_B, calc_B_n, update
    if variant == "given":
        st.n, st.updated = 1, False
        Bl = blist()
        c.s.take_step_RK4(st.dtau, B_i=Bl)
        n = c.site("g")
        if V.cases(st.has(n) != 0):
            V.eq("the given tangent vector is left alone", Bl[n], st.k[1](n))
    else:
        c.s.take_step_RK4(st.dtau)
    V.true("four evaluations", st.n == 4)
    n = c.site("m")
    if V.cases(st.has(n) == 0):
        V.eq("a stationary site is left alone", c.s.A[n], c.A(n))
    else:
        V.eq("classical weights", c.s.A[n],
             c.A(n) - st.dtau * (st.k[1](n) + 2 * st.k[2](n) + 2 * st.k[3](n) + st.k[4](n)) / 6)
    V.frame()


class UStages(Stages):
    """the same for a block of L tensors"""

    def __init__(self, V, c):
        sh = lambda i: (c.q, c.D, c.D)
        Stages.__init__(self, V, c, sh, 0, c.L - 1)
        self.has = lambda i: 1
        self.known = set()
        self.steps(c.s)

    def fresh(self):
        self.known = {"lr", "AA", "C", "K"}

    def moved(self):
        self.known = set()

    def steps(self, s):
        V = self.V

        def step(name, needs):
            def f():
                V.true("%s is calculated from current quantities" % name, self.known >= needs)
                self.known.add(name)
            return f
        s.calc_lr, s.calc_AA = step("lr", set()), step("AA", set())
        s.calc_C, s.calc_K = step("C", {"AA"}), step("K", {"C", "lr"})

    def block(self):
        n = self.n
        return self.V.list(self.c.L, self.k[n])


def uniform(V):
    c = Uniform(V, V.mod("tdvp_uniform").EvoMPS_TDVP_Uniform)
    st = UStages(V, c)
    st.dtau = V.scalar("dtau")
    # at the largest bond dimension there is no expansion
    opts = dict(dynexp=True, D_max=c.D) if V.choice("dynexp", False, True) else {}
    return c, st, opts


@contract.each("given", "own")
@modular
def euler_uniform(V, variant):
    """every tensor of the block moves by its own tangent tensor"""
    c, st, opts = uniform(V)

    def calc_B(set_eta=True):
        st.n += 1
        V.true("eta is calculated", set_eta)
        st.at_stage("the evaluation")
        return st.block()
    c.s.calc_B = calc_B
    if variant == "given":
        st.n = 1
        Bl = st.block()
        c.s.take_step(st.dtau, B=Bl, **opts)
        g = c.pos("g")
        V.eq("the given tangent vector is left alone", Bl[g], st.k[1](g))
    else:
        c.s.take_step(st.dtau, **opts)
    V.true("one evaluation", st.n == 1)
    k = c.pos("m")
    V.eq("A[k] - dtau B[k]", c.s.A[k], c.A(k) - st.dtau * st.k[1](k))
    c.unchanged("l", "r")
    V.frame()


@contract.each("given", "own")
@modular
def rk4_uniform(V, variant):
    """four evaluations, each with environments, merged tensors, C and K of its own state"""
    c, st, opts = uniform(V)

    def calc_B(set_eta=True):
        st.n += 1
        V.true("everything belongs to the state", st.n == 1 or st.known == {"lr", "AA", "C", "K"})
        V.true("eta is that of the initial state", set_eta == (st.n == 1))
        st.at_stage("the evaluation")
        st.moved()
        return st.block()
    c.s.calc_B = calc_B
    if variant == "given":
        st.n = 1
        Bl = st.block()
        c.s.take_step_RK4(st.dtau, B_i=Bl, **opts)
        g = c.pos("g")
        V.eq("the given tangent vector is left alone", Bl[g], st.k[1](g))
    else:
        c.s.take_step_RK4(st.dtau, **opts)
    V.true("four evaluations", st.n == 4)
    k = c.pos("m")
    V.eq("classical weights", c.s.A[k],
         c.A(k) - st.dtau * (st.k[1](k) + 2 * st.k[2](k) + 2 * st.k[3](k) + st.k[4](k)) / 6)
    V.frame()


class WStages(Stages):
    def __init__(self, V):
        c = Window(V, tdvp=True)
        D = c.wD
        c.s.eta_sq = V.t("z", c.N + 1, real=True, frame=False)
        Stages.__init__(self, V, c, lambda i: (c.wq(i), D(i - 1), D(i)), 1, c.N)
        self.dtau = V.scalar("dtau")

    def blist(self):
        n, N = self.n, self.c.N
        r = self.V.list(N + 1, lambda i: None if i == 0 or self.has(i) == 0 else self.k[n](i))
        return r if self.V.symbolic else list(r)

    def end(self, label, want, Bl=None):
        V, c = self.V, self.c
        if Bl is not None:
            g = c.site("g")
            if V.cases(self.has(g) != 0):
                V.eq("the given tangent vector is left alone", Bl[g], self.k[1](g))
        n = c.site("m")
        if V.cases(self.has(n) == 0):
            V.eq("a stationary site is left alone", c.s.A[n], c.fA(n))
        else:
            V.eq(label, c.s.A[n], want(n))
        V.frame()


@contract.each("given", "own")
@modular
def euler_window(V, variant):
    """A[n] -= dtau B[n] on every site of the window"""
    st = WStages(V)
    c = st.c
    Bl = None
    if variant == "given":
        st.n = 1
        Bl = st.blist()
        c.s.take_step(st.dtau, B=Bl)
    else:
        def calc_B():
            st.n += 1
            st.at_stage("the evaluation")
            return st.blist()
        c.s.calc_B = calc_B
        c.s.take_step(st.dtau)
    V.true("one evaluation", st.n == 1)
    st.end("A[n] - dtau B[n]", lambda n: c.fA(n) - st.dtau * st.k[1](n), Bl)


@contract.each("given", "own")
@modular
def rk4_window(V, variant):
    """the first evaluation is of all sites at once; the others go site by site, at the state of their stage"""
    st = WStages(V)
    c = st.c

    def calc_B():
        V.true("only the first evaluation determines eta", st.n == 0)
        st.n = 1
        st.at_stage("the evaluation")
        st.updated = False
        return st.blist()

    def calc_B_n(n, set_eta=True):
        V.true("the environments belong to the state", st.updated)
        V.true("eta is that of the initial state", not set_eta)
        V.eq("the evaluation sees the state of its stage", c.s.A[n], st.want(n))
        return st.B(n)

    def update(restore_CF=True, normalize=True):
        V.true("the gauge and the norm are left alone", not restore_CF and not normalize)
        st.n += 1
        i = V.int("u%d" % st.n, 1, c.N)
        V.eq("the state of stage %d" % st.n, c.s.A[i], st.want(i))
        st.updated = True
    c.s.calc_B, c.s.calc_B_n, c.s.update = calc_B, calc_B_n, update
    Bl = None
    if variant == "given":
        st.n, st.updated = 1, False
        Bl = st.blist()
        c.s.take_step_RK4(st.dtau, B_i=Bl)
    else:
        c.s.take_step_RK4(st.dtau)
    V.true("four evaluations", st.n == 4)
    st.end("classical weights", lambda n: c.fA(n) - st.dtau * (st.k[1](n) + 2 * st.k[2](n) + 2 * st.k[3](n) + st.k[4](n)) / 6, Bl)

