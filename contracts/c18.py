"""C18: the linear operator 1 - e^{ip} E (pseudo-inverse mode: without the fixed-point part), and the solver that uses it"""
from .base import registry, modular, Uniform, UTdvp
FUNCS, contract = registry()


def two_blocks(V):
    L, D, q = V.int("L", 1, None if V.symbolic else 3), V.dim("D"), V.dim("q")
    A1, A2 = V.family("A", lambda i: (q, D, D)), V.family("B", lambda i: (q, D, D))
    return L, D, q, A1, A2, V.list(L, A1), V.list(L, A2)


def applied(V, L, D, A1, A2, l, r, x, p, side, pseudo):
    """what the operator makes of x, as a matrix"""
    X = V.reshape(x, (D, D))
    dims = lambda i: (D, D)
    if side == "left":
        Ex = V.fold(lambda k, z: V.einsum("sab,ac,scd->bd", A1(k).conj(), z, A2(k)), X, dims, 0, L)
        Q = l * V.einsum("ab,ab->", r.conj(), X)
        ph = V.phase(-p)
    else:
        Ex = V.fold(lambda k, z: V.einsum("sab,bd,scd->ac", A1(k), z, A2(k).conj()), X, dims, 0, L, up=False)
        Q = r * V.einsum("ab,ab->", l.conj(), X)
        ph = V.phase(p)
    if pseudo:
        Ex = Ex - Q
    return X - Ex * ph


@contract.each("right", "left")
def matvec(V, side):
    """x - e^{ip} (E x - |r><l|x>) from the right, the adjoint map from the left"""
    L, D, q, A1, A2, LA, LB = two_blocks(V)
    l, r, x, x2 = V.t("l", D, D), V.t("r", D, D), V.t("x", D * D), V.t("x2", D * D)
    p = V.scalar("p", real=True)
    pseudo = V.choice("pseudo", True, False)
    if pseudo:
        op = V.mod("mps_uniform_pinv").PinvOp(p, LA, LB, l, r, left=side == "left")
    else:
        op = V.mod("mps_uniform_pinv").PinvOp(p, LA, LB, l, r, left=side == "left", pseudo=False)
    y = op.matvec(x)
    y2 = op.matvec(x2)
    f = lambda z: applied(V, L, D, A1, A2, l, r, z, p, side, pseudo)
    V.eq("the operator applied, the result kept after a second use", V.reshape(y, (D, D)), f(x))
    V.eq("the operator applied again", V.reshape(y2, (D, D)), f(x2))
    V.true("shape", op.shape[0] == D * D)
    V.true("shape", op.shape[1] == D * D)
    V.frame()


class Solver:
    """a solver that is handed an operator and a right-hand side and returns some vector"""

    def __init__(self, V, D):
        self.w, self.y, self.used = V.t("w", D * D), V.t("y", D * D), 0

    def __call__(self, op, b, x0=None, maxiter=None, tol=None):
        self.used += 1
        self.b, self.tol = b + 0, tol
        self.Ow = op.matvec(self.w)
        return self.y, 0


@contract.each("right", "left")
def solve(V, side):
    """pinv_1mE hands the solver this operator and the vector x, and returns the solution in matrix form, in `out`"""
    L, D, q, A1, A2, LA, LB = two_blocks(V)
    l, r, x, out = V.t("l", D, D), V.t("r", D, D), V.t("x", D, D), V.t("out", D, D, frame=False)
    p = V.scalar("p", real=True)
    pseudo = V.choice("pseudo", True, False)
    sv = Solver(V, D)
    given = V.choice("out given", True, False)
    kw = {"out": out} if given else {}
    if V.choice("momentum given", True, False):
        kw["p"] = p
    else:
        p = 0
    if not pseudo:
        kw["pseudo"] = False
    if side == "left":
        kw["left"] = True
    ret = V.mod("mps_uniform_pinv").pinv_1mE(x, LA, LB, l, r, solver=sv, **kw)
    V.true("one call of the solver", sv.used == 1)
    V.eq("right-hand side", V.reshape(sv.b, (D, D)), x)
    V.eq("operator", V.reshape(sv.Ow, (D, D)), applied(V, L, D, A1, A2, l, r, sv.w, p, side, pseudo))
    V.eq("solution", ret, V.reshape(sv.y, (D, D)))
    if given:
        V.true("written to out", ret is out)
        V.eq("out", out, V.reshape(sv.y, (D, D)))
    V.frame()


@contract.each("right", "left")
def calc_PPinv(V, side):
    """the method: the state's own tensors and fixed points unless others are given"""
    c = UTdvp(V, 2)
    s, L, D, q = c.s, c.L, c.D, c.q
    s.PPinv_use_CUDA, s.CUDA_batch_maxD = False, 0
    sv = Solver(V, D)
    x, p, r2 = V.t("x", D, D), V.scalar("p", real=True), V.t("rr", D, D)
    f1, f2, r = c.A, c.A, c.r(L - 1)
    kw = {}
    other = V.choice("other", "none", "ket", "bra", "r", "unpseudo")
    if other == "ket":
        f1 = V.family("O", lambda i: (q, D, D))
        kw["A1"] = V.list(L, f1)
    if other == "bra":
        f2 = V.family("O", lambda i: (q, D, D))
        kw["A2"] = V.list(L, f2)
    if other == "r":
        r = kw["rL"] = r2
    if other == "unpseudo":
        kw["pseudo"] = False
    ret = s.calc_PPinv(x, p=p, left=side == "left", solver=sv, **kw)
    V.eq("right-hand side", V.reshape(sv.b, (D, D)), x)
    V.eq("operator", V.reshape(sv.Ow, (D, D)),
         applied(V, L, D, f1, f2, c.l(L - 1), r, sv.w, p, side, other != "unpseudo"))
    V.eq("solution", ret, V.reshape(sv.y, (D, D)))
    c.unchanged()
    V.frame()
