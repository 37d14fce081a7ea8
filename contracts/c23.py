"""C23: the stochastic step.  The step itself is take_step (C14), which is replaced by its contract: here, with which
Hamiltonian, step length, options and derived tensors it is called."""
import itertools
from .base import registry, modular, Tdvp
FUNCS, contract = registry()


class Call(object):
    """take_step, replaced: what the object held when it was called"""

    def __init__(self, s, log):
        self.s, self.log, self.seen = s, log, None
        s.take_step = self

    def __call__(self, dt, **k):
        self.log.append("step")
        self.dt, self.options, self.ham = dt, k, self.s.ham


def scene(V, sites, njumps, form="list", same=False, gauge="right"):
    c = Tdvp(V, sites, form, cls=V.mod("tdvp_gen_diss").EvoMPS_TDVP_Generic_Dissipative, attrs=dict(gauge_fixing=gauge))
    at, ops = [], []
    for j in range(njumps):
        n = at[0] if j and same else c.site("n%d" % j, hi=c.N - sites + 1)
        qs = tuple(c.q(n + i) for i in range(sites))
        at.append(n)
        ops.append(V.t("L%d" % j, *(qs + qs)))
    c.s.linds = list(zip(at, ops))
    return c, at, ops


def expect(V, c, sites, n, L):
    if sites == 2:
        A, B = c.A(n), c.A(n + 1)
        return V.einsum("da,uab,vbc,ce,sdf,tfe,stuv->", c.l(n - 1), A, B, c.r(n + 1), A.conj(), B.conj(), L)
    A, B, C = c.A(n), c.A(n + 1), c.A(n + 2)
    return V.einsum("da,xab,ybc,zce,ef,udg,vgh,whf,uvwxyz->", c.l(n - 1), A, B, C, c.r(n + 2), A.conj(), B.conj(), C.conj(), L)


def effective(V, c, sites, n, L, u0, u1, dt):
    """-1/2 L^+ L + (conj<L> + W / dt) L"""
    LL = V.einsum("uvst,uvwx->stwx", L.conj(), L) if sites == 2 else V.einsum("uvwabc,uvwdef->abcdef", L.conj(), L)
    W = (u0 + 1j * u1) / V.sqrt(2)
    return -0.5 * LL + (expect(V, c, sites, n, L).conj() + W / dt) * L


def check(V, sites, njumps, form="list", same=False, gauge="right"):
    c, at, ops = scene(V, sites, njumps, form, same, gauge)
    s, N = c.s, c.N
    dt = V.scalar("dt", real=True)
    V.assume(dt > 0)
    log, zs = [], []

    def draw(shape):
        shape = () if shape is None else (shape,) if isinstance(shape, int) else tuple(shape)
        z = V.t("z%d" % len(zs), *shape, real=True)
        zs.extend([z[i] for i in itertools.product(*map(range, shape))] if shape else [z])
        return z

    def normal(loc=0.0, scale=1.0, size=None):
        return loc + scale * draw(size)
    V.random("normal", normal, "independent normal variables of the given mean and deviation")
    V.random("standard_normal", draw, "independent normal variables of mean 0 and deviation 1")
    V.random("randn", lambda *n: draw(n or None), "independent normal variables of mean 0 and deviation 1")
    calc = {}

    def note(what):
        def f(*a, **k):
            log.append(what)
            calc[what] = (s.ham, a, k)
        return f
    s.calc_C, s.calc_K, s.calc_K_l = note("C"), note("K"), note("Kl")
    V.assumed("calc_C, calc_K, calc_K_l, take_step meet their contracts (C12, C13, C14)")
    call = Call(s, log)
    ham0 = s.ham
    opts = dict(save_memory=True, calc_Y_2s=True, dynexp=True, dD_max=3, D_max=7, sv_tol=1e-5)
    opts = opts if V.choice("options", "given", "default") == "given" else {}
    s.take_step_dissipative(dt, **opts)
    V.true("two draws for each jump operator", len(zs) == 2 * njumps)
    u = [V.sqrt(dt) * z for z in zs]
    V.true("the derived tensors belong to the effective Hamiltonian",
           log == ["C", "K" if gauge == "right" else "Kl", "step"])
    for w in log[:2]:
        V.true("the derived tensors are calculated for the Hamiltonian of the step", calc[w][0] is call.ham)
        V.true("all derived tensors are calculated", calc[w][1:] == ((), {}))
    V.eq("step length", call.dt, -dt)
    want = dict(save_memory=False, calc_Y_2s=False, dynexp=False, dD_max=16, D_max=0, sv_tol=1e-14)
    want.update(opts)
    V.true("options are handed on", call.options == want)
    n = c.site("m", hi=N - sites + 1)
    here = [j for j in range(njumps) if V.cases(at[j] == n)]
    ham = V.cases(c.present(n)) if form != "none" else False
    got = call.ham[n]
    if not ham and not here:
        V.true("no term", got is None)
    else:
        x = -1j * c.h(n) if ham else 0
        for j in here:
            x = x + effective(V, c, sites, n, ops[j], u[2 * j], u[2 * j + 1], dt)
        V.eq("effective Hamiltonian", got, x)
    V.true("one term for each site", V.len(call.ham) == N + 1)
    V.true("the Hamiltonian is the one from before", s.ham is ham0)
    if form == "list":
        if ham:
            V.eq("terms of the Hamiltonian are unchanged", s.ham[n], c.h(n))
        else:
            V.true("missing terms of the Hamiltonian stay missing", s.ham[n] is None)
    for j in range(njumps):
        V.true("jump operators stay at their places", s.linds[j][0] is at[j])
        V.true("jump operators are the same objects", s.linds[j][1] is ops[j])
    c.unchanged("A", "l", "r")
    V.frame()


@contract.each("right", "left")
@modular
def jump_2s(V, gauge):
    check(V, 2, 1, gauge=gauge)


@contract.each("right", "left")
@modular
def jump_3s(V, gauge):
    check(V, 3, 1, gauge=gauge)


@contract.each("list", "function", "none")
@modular
def jumps(V, form):
    """two jump operators, at the same or at different sites"""
    check(V, 2, 2, form=form, same=V.choice("jump operators are", "at the same site", "anywhere") == "at the same site")


@contract.each("list", "function", "none")
@modular
def no_jumps(V, form):
    check(V, 2, 0, form=form)
