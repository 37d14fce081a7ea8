"""C03: identity and diagonal matrix objects, inner products, products, roots, inverses (matmul.py)."""
from .base import registry, env
FUNCS, contract = registry()
KINDS = ("dense", "diag", "eye")


def obj(V, kind, d1, d2=None, nm="x"):
    """(object, dense)"""
    d2 = d1 if d2 is None else d2
    if kind == "rect":
        kind = "dense"
    return env(V, kind, d1, d2, nm)


def structured(V, d, nm="x"):
    k = V.choice(nm, "diag", "eye")
    x, xd = env(V, k, d, d, nm)
    return k, x, xd


@contract
def to_dense(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    V.eq("toarray is the dense matrix", x.toarray(), xd)
    V.eq("__array__ is the dense matrix", x.__array__(), xd)
    V.eq("__array__ of a given type", x.__array__(complex), xd)
    V.eq(".A is the dense matrix", x.A, xd)
    V.eq("ravel is the dense matrix, flattened", x.ravel(), V.reshape(xd, (d * d,)))
    V.true("shape", x.shape[0] == d)
    V.true("shape (columns)", x.shape[1] == d)
    V.frame()


@contract
def unary(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    V.eq("transpose", V.dense(x.transpose()), V.einsum("ab->ba", xd))
    V.eq("T", V.dense(x.T), V.einsum("ab->ba", xd))
    V.eq("conj", V.dense(x.conj()), xd.conj())
    V.eq("copy", V.dense(x.copy()), xd)
    V.eq("diagonal", V.dense(x.diagonal()), V.einsum("aa->a", xd))
    V.eq("trace", V.dense(x.trace()), V.einsum("aa->", xd))
    V.frame()


@contract
def copy_is_independent(V):
    """changing a copy does not change the original"""
    mm = V.mod("matmul")
    d = V.dim("d")
    v, w = V.t("v", d), V.t("w", d)
    x = mm.simple_diag_matrix(v)
    y = x.copy()
    y.diag[:] = w
    V.eq("the original is unchanged", V.dense(x), V.einsum("a,ab->ab", v, V.eye(d)))
    V.eq("the copy is changed", V.dense(y), V.einsum("a,ab->ab", w, V.eye(d)))


@contract
def inverse(V):
    V.mixed(True)
    mm = V.mod("matmul")
    d = V.dim("d")
    k, x, xd = structured(V, d)
    if not V.symbolic:
        import numpy as np
        V.assume(np.all(np.abs(np.diag(xd)) > 1e-3))
    i = x.inv()
    V.assumed("the diagonal has no zero entry (precondition of inv)")
    if k == "eye":
        V.eq("inverse of the identity", V.dense(i), xd)
    else:
        V.eq("the inverse inverts", V.einsum("ab,bc->ac", V.dense(i), xd), V.eye(d))
    V.frame()


@contract
def square_root(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    s = x.sqrt()
    V.eq("the root squares to the matrix", V.einsum("ab,bc->ac", V.dense(s), V.dense(s)), xd)
    V.frame()


@contract
def dot_structured_left(V):
    """structured.dot(anything)"""
    V.mixed(True)
    a, b = V.dim("a"), V.dim("b")
    k, x, xd = structured(V, a)
    ko = V.choice("other", *KINDS)
    y, yd = env(V, ko, a, b if ko == "dense" else a, "y")
    V.eq("x.dot(y)", V.dense(x.dot(y)), V.einsum("ab,bc->ac", xd, yd))
    V.frame()


@contract
def dot_structured_right(V):
    """structured.dot_left(anything) = anything times structured"""
    V.mixed(True)
    a, b = V.dim("a"), V.dim("b")
    k, x, xd = structured(V, a)
    ko = V.choice("other", *KINDS)
    y, yd = env(V, ko, b if ko == "dense" else a, a, "y")
    V.eq("x.dot_left(y) = y x", V.dense(x.dot_left(y)), V.einsum("ab,bc->ac", yd, xd))
    V.frame()


@contract
def scaling(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    c = V.scalar("c")
    V.eq("x * c", V.dense(x * c), V.einsum("ab,->ab", xd, c))
    V.eq("c * x", V.dense(x.__rmul__(c)), V.einsum("ab,->ab", xd, c))
    V.frame()


@contract
def elementwise(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    ko = V.choice("other", *KINDS)
    y, yd = env(V, ko, d, d, "y")
    V.eq("x * y (elementwise)", V.dense(x * y), V.einsum("ab,ab->ab", xd, yd))
    V.frame()


@contract
def sums(V):
    V.mixed(True)
    d = V.dim("d")
    k, x, xd = structured(V, d)
    ko = V.choice("other", *KINDS)
    y, yd = env(V, ko, d, d, "y")
    V.eq("x + y", V.dense(x + y), xd + yd)
    V.eq("x - y", V.dense(x - y), xd - yd)
    if ko == "dense":
        V.eq("y + x", V.dense(x.__radd__(y)), xd + yd)
        V.eq("y - x", V.dense(x.__rsub__(y)), yd - xd)
    V.frame()


@contract
def mmul_two(V):
    V.mixed(True)
    mm = V.mod("matmul")
    a, b, c = V.dim("a"), V.dim("b"), V.dim("c")
    k1, k2 = V.choice("first", *KINDS), V.choice("second", *KINDS)
    if k1 != "dense":
        a = b
    if k2 != "dense":
        c = b
    x, xd = env(V, k1, a, b, "x")
    y, yd = env(V, k2, b, c, "y")
    V.eq("mmul(x, y)", V.dense(mm.mmul(x, y)), V.einsum("ab,bc->ac", xd, yd))
    V.frame()


@contract
def mmul_three(V):
    V.mixed(True)
    mm = V.mod("matmul")
    a, b, c, e = V.dim("a"), V.dim("b"), V.dim("c"), V.dim("e")
    k1, k2, k3 = V.choice("first", *KINDS), V.choice("second", *KINDS), V.choice("third", *KINDS)
    if k2 != "dense":
        c = b
    if k1 != "dense":
        a = b
    if k3 != "dense":
        e = c
    x, xd = env(V, k1, a, b, "x")
    y, yd = env(V, k2, b, c, "y")
    z, zd = env(V, k3, c, e, "z")
    V.eq("mmul(x, y, z)", V.dense(mm.mmul(x, y, z)), V.einsum("ab,bc,ce->ae", xd, yd, zd))
    V.frame()


@contract
def inner_product(V):
    V.mixed(True)
    mm = V.mod("matmul")
    k1, k2 = V.choice("first", *KINDS), V.choice("second", *KINDS)
    a = V.dim("a")
    b = V.dim("b") if k1 == k2 == "dense" else a
    x, xd = env(V, k1, a, b, "x")
    y, yd = env(V, k2, a, b, "y")
    V.eq("adot(x, y) = tr(x^H y)", mm.adot(x, y), V.einsum("ab,ab->", xd.conj(), yd))
    V.frame()


@contract
def inner_product_noconj(V):
    V.mixed(True)
    mm = V.mod("matmul")
    k1, k2 = V.choice("first", *KINDS), V.choice("second", *KINDS)
    a = V.dim("a")
    b = V.dim("b") if k1 == k2 == "dense" else a
    x, xd = env(V, k1, a, b, "x")
    y, yd = env(V, k2, b, a, "y")
    V.eq("adot_noconj(x, y) = tr(x y)", mm.adot_noconj(x, y), V.einsum("ab,ba->", xd, yd))
    V.frame()


@contract
def hermitian_conjugate(V):
    V.mixed(True)
    mm = V.mod("matmul")
    k = V.choice("x", *KINDS)
    a = V.dim("a")
    b = V.dim("b") if k == "dense" else a
    x, xd = env(V, k, a, b)
    V.eq("H(x)", V.dense(mm.H(x)), V.einsum("ab->ba", xd.conj()))
    V.frame()


@contract
def diagonal_products(V):
    V.mixed(True)
    mm = V.mod("matmul")
    a, b = V.dim("a"), V.dim("b")
    v = V.t("v", a)
    y, z = V.t("y", a, b), V.t("z", b, a)
    V.eq("mmul_diag acting to the right", mm.mmul_diag(v, y), V.einsum("a,ab->ab", v, y))
    V.eq("mmul_diag acting to the left", mm.mmul_diag(v, z, act_right=False), V.einsum("ba,a->ba", z, v))
    V.frame()


@contract
def diagonal_products_out(V):
    V.mixed(True)
    mm = V.mod("matmul")
    a, b = V.dim("a"), V.dim("b")
    v = V.t("v", a)
    y, z = V.t("y", a, b), V.t("z", b, a)
    o1, o2 = V.undef(a, b), V.undef(b, a)
    mm.mmul_diag(v, y, out=o1)
    mm.mmul_diag(v, z, act_right=False, out=o2)
    V.eq("mmul_diag writes into out", o1, V.einsum("a,ab->ab", v, y))
    V.eq("mmul_diag (left) writes into out", o2, V.einsum("ba,a->ba", z, v))
    V.frame()


@contract
def dot_inplace(V):
    V.mixed(True)
    mm = V.mod("matmul")
    k1, k2 = V.choice("first", *KINDS), V.choice("second", *KINDS)
    V.assume(not (k1 == "diag" and k2 == "diag"))
    a, b, c = V.dim("a"), V.dim("b"), V.dim("c")
    if k1 != "dense":
        a = b
    if k2 != "dense":
        c = b
    x, xd = env(V, k1, a, b, "x")
    y, yd = env(V, k2, b, c, "y")
    o = V.undef(a, c, like=(x, y))
    mm.dot_inplace(x, y, o)
    V.eq("dot_inplace writes the product", o, V.einsum("ab,bc->ac", xd, yd))
    V.frame()


@contract
def hermitian_root(V):
    V.mixed(True)
    mm = V.mod("matmul")
    d = V.dim("d")
    m = V.herm("m", d)
    s = mm.sqrtmh(m)
    V.eq("sqrtmh squares to the matrix", V.einsum("ab,bc->ac", s, s), m, tol=1e-7)
    V.frame()


@contract
def hermitian_inverse(V):
    V.mixed(True)
    mm = V.mod("matmul")
    d = V.dim("d")
    m = V.herm("m", d)
    V.assumed("the matrix is invertible (precondition of invmh)")
    if not V.symbolic:
        import numpy as np
        V.assume(abs(np.linalg.eigvalsh(m)).min() > 1e-3)
    i = mm.invmh(m)
    V.eq("invmh inverts", V.einsum("ab,bc->ac", i, m), V.eye(d), tol=1e-7)
    V.frame()


@contract
def triangular_inverse(V):
    V.mixed(True)
    mm = V.mod("matmul")
    d = V.dim("d")
    low = V.choice("lower", True, False)
    m = V.t("m", d, d)
    if not V.symbolic:
        import numpy as np
        m[...] = (np.tril if low else np.triu)(m) + 4 * np.eye(d)
        V.inputs[-1] = ("m", m, m.copy())
    V.eq("invtr inverts", V.einsum("ab,bc->ac", mm.invtr(m, lower=low), m), V.eye(d), tol=1e-7)
    V.frame()
