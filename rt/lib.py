"""Run-time contracts: random inputs, dense oracles, the unmodified code (PyPy).  Bounded: never counted as proved."""
import os
import sys
import numpy as np
import scipy.linalg as la

CASES = {}          # property -> list of (name, fn, weight)


class Fail(Exception):
    def __init__(self, label, detail=""):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Skip(Exception):
    pass


def case(prop, weight=1, kinds=None):
    def deco(fn):
        CASES.setdefault(prop, []).append((fn.__name__, fn, weight))
        return fn
    return deco


def err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0:
        return 0.0, 0.0
    return float(np.max(np.abs(a - b))), float(max(np.max(np.abs(a)), np.max(np.abs(b)), 0))


class T(object):
    """one trial"""

    def __init__(self, seed):
        self.seed = seed
        self.rng = np.random.RandomState(seed)
        self.nchk = 0
        self.info = {}

    def i(self, lo, hi):
        return int(self.rng.randint(lo, hi + 1))

    def pick(self, *opts):
        return opts[self.rng.randint(len(opts))]

    def flag(self, p=0.5):
        return bool(self.rng.rand() < p)

    def c(self, *shape):
        return self.rng.randn(*shape) + 1j * self.rng.randn(*shape)

    def real(self, *shape):
        return self.rng.randn(*shape)

    def herm(self, d):
        x = self.c(d, d)
        return (x + x.conj().T) / 2

    def pos(self, d, cond=10.0):
        u = la.qr(self.c(d, d))[0]
        w = np.exp(self.rng.rand(d) * np.log(cond)) / cond
        return (u * w).dot(u.conj().T)

    def unitary(self, d):
        return la.qr(self.c(d, d))[0]

    def close(self, label, got, want, tol=1e-9):
        self.nchk += 1
        got, want = dn(got), dn(want)
        if got.shape != want.shape:
            raise Fail(label, "shape %s, expected %s" % (got.shape, want.shape))
        if not np.all(np.isfinite(got)):
            raise Fail(label, "not finite")
        e, s = err(got, want)
        if e > tol * max(1.0, s):
            raise Fail(label, "off by %.3g (scale %.3g)" % (e, s))

    def true(self, label, cond, detail=""):
        self.nchk += 1
        if not cond:
            raise Fail(label, detail)

    def raises(self, label, fn, *a, **k):
        self.nchk += 1
        try:
            fn(*a, **k)
        except Exception:
            return
        raise Fail(label, "no exception")

    def op(self, *shape):
        """operator: sometimes zero, sparse, real, imaginary...; sometimes in another layout or of real type"""
        return layout(self, structured(self, self.c(*shape), p=0.3))

    def hop(self, d, shape=None):
        """Hermitian operator, likewise"""
        x = structured(self, self.herm(d), herm=True, p=0.3)
        return layout(self, x if shape is None else x.reshape(shape))

    def note(self, **k):
        self.info.update({x: repr(y)[:200] for x, y in k.items()})


def dn(x):
    """dense array of anything (eyemat, simple_diag_matrix, array, scalar)"""
    if hasattr(x, "toarray"):
        return np.asarray(x.toarray())
    if isinstance(x, (int, float, complex)):
        return np.asarray(x)
    return np.asarray(x)


def structured(t, x, herm=False, p=0.35):
    """sometimes: zero, sparse, exactly real, exactly imaginary, entries from {0, 1, -1, i, -i}, one entry only"""
    if not t.flag(p):
        return x
    k = t.pick("zero", "sparse", "sparse", "real", "real", "imag", "imag", "units", "one", "pm")
    cpl = np.iscomplexobj(x)
    y = np.array(x)
    if k == "zero":
        y = y * 0
    elif k == "sparse":
        y = y * (t.rng.rand(*y.shape) < 0.5)
    elif k == "real":
        y = y.real + 0 * y
    elif k == "imag" and cpl:
        y = 1j * (y.imag if not herm else (y - y.T).imag)
    elif k == "units":
        y = t.rng.randint(-1, 2, y.shape) + (1j * t.rng.randint(-1, 2, y.shape) if cpl else 0)
    elif k == "pm":
        y = (2 * t.rng.randint(0, 2, y.shape) - 1) * (t.pick(1, 1j) if cpl and not herm else 1)
    elif k == "one" and y.size:
        f = y.ravel() * 0
        f[t.i(0, y.size - 1)] = 1
        y = f.reshape(y.shape)
    if herm:
        y = (y + y.conj().T) / 2
    return np.array(y, dtype=x.dtype).reshape(x.shape)


def layout(t, x, real=True):
    """the same numbers in another memory layout or element type"""
    k = t.pick(*["c"] * 7 + ["f", "view"] + (["real"] if real else []))
    if k == "f":
        return np.asfortranarray(x)
    if k == "view" and x.ndim and x.size:
        b = np.zeros(tuple(2 * d for d in x.shape), dtype=x.dtype)
        b[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return b[tuple(slice(None, None, 2) for _ in x.shape)]
    if k == "real" and np.iscomplexobj(x) and not np.any(x.imag):
        return np.array(x.real)
    return x


# ------------------------------------------------------------------------------------------------ finite chains
def rand_q(t, N, lo=1, hi=3, big=2):
    """site dimensions; mostly different"""
    if t.flag(0.3):
        q = t.i(2, hi)
        return [0] + [q] * N
    return [t.pick(0, 1, 5)] + [t.i(lo if t.flag(0.15) else 2, hi) for _ in range(N)]


def full_D(N, q):
    D = [1] * (N + 1)
    for n in range(1, N):
        D[n] = int(np.prod(q[1:n + 1], dtype=float))
    for n in range(N - 1, 0, -1):
        D[n] = min(D[n], int(np.prod(q[n + 1:], dtype=float)))
    return D


def rand_D(t, N, q, hi=4):
    f = full_D(N, q)
    return [1] + [t.i(1, min(hi, f[n]) if f[n] > 1 else 1) for n in range(1, N)] + [1]


def cap_D(N, D, q):
    D = list(D)
    D[0] = D[N] = 1
    for n in range(N - 1, 0, -1):
        D[n] = min(D[n], D[n + 1] * q[n + 1])
    for n in range(1, N):
        D[n] = min(D[n], D[n - 1] * q[n])
    return D


def rand_A(t, N, D, q):
    A = [None]
    for n in range(1, N + 1):
        x = t.c(q[n], D[n - 1], D[n])
        A.append(x / la.norm(x) * np.sqrt(D[n]))
    return A


def dense(A, N=None):
    """state vector (tensor) of a finite chain"""
    N = len(A) - 1 if N is None else N
    psi = np.ones((1, 1), dtype=complex)
    shp = []
    for n in range(1, N + 1):
        a = np.asarray(A[n])
        psi = np.tensordot(psi, a, axes=([-1], [1]))       # ..., s, b
        psi = psi.reshape((-1, a.shape[2]))
        shp.append(a.shape[0])
    return psi.reshape(shp)


def apply_op(psi, op, sites):
    """operator (matrix or tensor in out.., in.. order) on the given (0-based) sites"""
    k = len(sites)
    ds = [psi.shape[s] for s in sites]
    op = np.asarray(op).reshape(ds + ds)
    r = np.tensordot(op, psi, axes=(list(range(k, 2 * k)), list(sites)))
    return np.moveaxis(r, list(range(k)), list(sites))


def vdot(a, b):
    return np.vdot(a.ravel(), b.ravel())


def rdm(psi, sites):
    k = len(sites)
    rest = [i for i in range(psi.ndim) if i not in sites]
    m = np.transpose(psi, list(sites) + rest)
    d = int(np.prod(m.shape[:k]))
    m = m.reshape(d, -1)
    return m.dot(m.conj().T)


def mk_chain(t, N=None, D=None, q=None, cls=None, update=True, hi=4, qhi=3, Nhi=5, Nlo=1, form=None):
    import evoMPS.mps_gen as mg
    if N is None:
        N = t.i(Nlo, Nhi)
    if q is None:
        q = rand_q(t, N, hi=qhi)
    if D is None:
        D = rand_D(t, N, q, hi)
        D = cap_D(N, D, q)
    s = mg.EvoMPS_MPS_Generic(N, D, q)
    A = rand_A(t, N, D, q)
    for n in range(1, N + 1):
        s.A[n][:] = A[n]
    if form is None:
        form = t.pick("right", "left")
    s.canonical_form = form
    t.note(N=N, D=D, q=q, form=form)
    if update:
        s.update()
    return s, dense(A)


def envs(A, N):
    """all environments of a finite chain"""
    l = [None] * (N + 1)
    r = [None] * (N + 1)
    l[0] = np.ones((1, 1), dtype=complex)
    r[N] = np.ones((1, 1), dtype=complex)
    for n in range(1, N + 1):
        a = np.asarray(A[n])
        l[n] = np.einsum("sab,ac,scd->bd", a.conj(), l[n - 1], a)
    for n in range(N, 0, -1):
        a = np.asarray(A[n])
        r[n - 1] = np.einsum("sab,bd,scd->ac", a, r[n], a.conj())
    return l, r


def check_envs(t, s, label, tol=1e-9, sides="lr"):
    l, r = envs(s.A, s.N)
    for n in range(s.N + 1):
        if "l" in sides:
            t.close("%s: l[n] equals the contraction of the sites to its left" % label, s.l[n], l[n], tol)
        if "r" in sides:
            t.close("%s: r[n] equals the contraction of the sites to its right" % label, s.r[n], r[n], tol)


def same_ray(t, label, got, want, tol=1e-8):
    """got = positive factor * want, got normalised"""
    t.close(label, np.asarray(got), np.asarray(want) / la.norm(want), tol)


def as_op(t, o):
    """the operator as an array or as an element function"""
    if t.flag(0.35):
        return lambda *i: o[tuple(int(x) for x in i)]
    return o


# ------------------------------------------------------------------------------------------------ TDVP chains
def rand_ham(t, N, q, k, missing=0.15, nonherm=False):
    """list ham[n] of Hermitian terms (None: missing)"""
    ham = [None] * (N + 1)
    for n in range(1, N - k + 2):
        if t.flag(missing):
            continue
        ds = [int(q[n + j]) for j in range(k)]
        d = int(np.prod(ds))
        ham[n] = t.hop(d, ds + ds) if not nonherm else t.op(*(ds + ds))
    return ham


def apply_H(psi, ham, N, k):
    """(sum of the terms) psi, for a tensor psi whose first N axes are the sites 1..N"""
    out = np.zeros_like(psi)
    for n in range(1, N - k + 2):
        if ham[n] is not None:
            out = out + apply_op(psi, ham[n], list(range(n - 1, n - 1 + k)))
    return out


def ham_arg(t, ham, k):
    """as a list, or (no missing terms) as an element function"""
    if all(h is not None for h in ham[1:len(ham) - k + 1]) and t.flag(0.3):
        t.note(ham="function")
        return lambda n, *i: ham[n][tuple(int(x) for x in i)]
    return ham


def mk_tdvp(t, k=None, Nlo=None, Nhi=5, hi=4, qhi=3, missing=0.15, gauge=None, cls=None, q=None, D=None, N=None, nonherm=False):
    import evoMPS.tdvp_gen as tg
    if k is None:
        k = t.pick(2, 2, 3)
    if N is None:
        N = t.i(k if Nlo is None else Nlo, Nhi)
    if q is None:
        q = rand_q(t, N, hi=qhi)
        q = [q[0]] + [max(2, x) for x in q[1:]] if t.flag(0.9) else q
    if D is None:
        D = cap_D(N, rand_D(t, N, q, hi), q)
    ham = rand_ham(t, N, q, k, missing, nonherm)
    s = (cls or tg.EvoMPS_TDVP_Generic)(N, D, q, ham_arg(t, ham, k), ham_sites=k)
    A = rand_A(t, N, D, q)
    for n in range(1, N + 1):
        s.A[n][:] = A[n]
    s.gauge_fixing = gauge or t.pick("right", "left")
    s.canonical_form = s.gauge_fixing if t.flag(0.6) else t.pick("right", "left")
    t.note(N=N, D=D, q=q, k=k, form=s.canonical_form, gauge=s.gauge_fixing, missing=[n for n in range(1, N - k + 2) if ham[n] is None])
    return s, ham


def block_right(A, n, N):
    """R[a, s_n, ..., s_N] from the tensors n..N"""
    x = np.asarray(A[N])
    x = np.transpose(x, (1, 0, 2))[:, :, 0] if x.shape[2] == 1 else np.transpose(x, (1, 0, 2))
    tail = x.shape[2:]
    for j in range(N - 1, n - 1, -1):
        x = np.tensordot(np.transpose(np.asarray(A[j]), (1, 0, 2)), x, axes=([2], [0]))
    return x


def block_left(A, n):
    """L[b, s_1, ..., s_n] from the tensors 1..n"""
    x = np.transpose(np.asarray(A[1]), (2, 0, 1))[:, :, 0]
    for j in range(2, n + 1):
        x = np.tensordot(x, np.asarray(A[j]), axes=([0], [1]))      # s_1..s_{j-1}, s_j, b
        x = np.moveaxis(x, -1, 0)
    return x


def tangent_space(A, N):
    """columns: all derivatives of the state with respect to the tensors"""
    cols = []
    for n in range(1, N + 1):
        L = block_left(A, n - 1).reshape(np.asarray(A[n]).shape[1], -1) if n > 1 else np.ones((1, 1))
        R = block_right(A, n + 1, N).reshape(np.asarray(A[n]).shape[2], -1) if n < N else np.ones((1, 1))
        q = np.asarray(A[n]).shape[0]
        J = np.einsum("ax,st,by->xsytab", L, np.eye(q), R)
        cols.append(J.reshape(L.shape[1] * q * R.shape[1], -1))
    return np.concatenate(cols, axis=1)


def tangent_vector(A, B, N):
    out = 0
    for n in range(1, N + 1):
        if B[n] is None:
            continue
        C = list(A)
        C[n] = B[n]
        out = out + dense(C, N)
    if np.isscalar(out):
        out = np.zeros_like(dense(A, N))
    return out


def project(J, v):
    U, S, _ = la.svd(J, full_matrices=False)
    U = U[:, S > 1e-9 * S[0]]
    return U.dot(U.conj().T.dot(v.ravel())).reshape(v.shape)


def good(s, lim=1e-5):
    """all environments well conditioned (oracle precision)"""
    for n in range(s.N + 1):
        for e in (s.l[n], s.r[n]):
            w = la.eigvalsh((dn(e) + dn(e).conj().T) / 2)
            if w[0] < lim * w[-1]:
                return False
    return True


def quiet(fn):
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        return fn()
    finally:
        sys.stdout.close()
        sys.stdout = old
