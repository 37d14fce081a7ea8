"""Windows between uniform bulks: random instances and independent oracles"""
import numpy as np
import scipy.linalg as la
from .lib import *
from .ulib import rand_block, gap, fixed_points, normalised, rand_uham


class Chain(object):
    """the infinite chain ... AL AL | AC | AR AR ...; sites 1..N are the window"""

    def __init__(self, AL, AC, AR):
        cp = lambda X: [np.array(dn(a), dtype=complex) for a in X]
        self.AL, self.AC, self.AR = cp(AL), cp(AC), cp(AR)
        self.N = len(self.AC)
        self.evL, self.lL, _ = fixed_points(self.AL)
        self.evR, _, self.rR = fixed_points(self.AR)

    def A(self, n):
        if n < 1:
            return self.AL[(n - 1) % len(self.AL)]
        if n > self.N:
            return self.AR[(n - self.N - 1) % len(self.AR)]
        return self.AC[n - 1]

    def D(self, n):
        return self.A(n).shape[2] if n > 0 else self.A(n + 1).shape[1]

    def span(self, lo, hi):
        m = 0
        while -m * len(self.AL) + 1 > lo:
            m += 1
        p = 0
        while self.N + p * len(self.AR) < hi:
            p += 1
        return -m * len(self.AL) + 1, self.N + p * len(self.AR)

    def left(self, n):
        """environment left of site n+1, up to the scale of lL"""
        s0, _ = self.span(n + 1, self.N)
        x = self.lL
        for j in range(s0, n + 1):
            x = np.einsum("sab,ac,scd->bd", self.A(j).conj(), x, self.A(j))
        return x

    def right(self, n):
        _, s1 = self.span(1, n)
        x = self.rR
        for j in range(s1, n, -1):
            x = np.einsum("sab,bd,scd->ac", self.A(j), x, self.A(j).conj())
        return x

    def expect(self, op, n, k):
        X = np.transpose(self.A(n), (1, 0, 2))
        for j in range(n + 1, n + k):
            X = np.tensordot(X, np.transpose(self.A(j), (1, 0, 2)), axes=([-1], [0]))
        D1, D2 = X.shape[0], X.shape[-1]
        x = X.reshape(D1, -1, D2)
        d = x.shape[1]
        o = np.asarray(op).reshape(d, d)
        l, r = self.left(n - 1), self.right(n + k - 1)
        f = lambda o: np.einsum("ca,ast,cuv,us,tv->", l, x, x.conj(), o, r, optimize=True)
        return f(o) / f(np.eye(d))

    def rdm(self, n):
        d = self.A(n).shape[0]
        out = np.zeros((d, d), dtype=complex)
        for s in range(d):
            for u in range(d):
                o = np.zeros((d, d))
                o[s, u] = 1
                out[s, u] = self.expect(o, n, 1)
        return out


def chain_of(s):
    return Chain(s.uni_l.A, [s.A[n] for n in range(1, s.N + 1)], s.uni_r.A)


def nice_block(t, L, q, D):
    for _ in range(20):
        A = rand_block(t, L, q, D)
        if gap(A) > 0.15:
            return normalised(A)
    raise Skip()


def rand_win(t, Lhi=2, Dhi=3, q=None, same=None, N=None, Nlo=2, LL=None, LR=None, fullD=False, oneq=True):
    q = t.i(2, 3) if q is None else q
    qR = q
    LL = t.i(1, Lhi) if LL is None else LL
    LR = LL if t.flag(0.6) else (t.i(1, Lhi) if LR is None else LR)
    DL = t.i(1, Dhi)
    same = t.flag(0.3) if same is None else same
    DR = DL if (same or t.flag(0.4)) else t.i(1, Dhi)
    if N is None:
        N = LL * t.i(1, 3) if t.flag(0.7) else t.i(Nlo, 6)
        N = max(N, Nlo)
    AL = nice_block(t, LL, q, DL)
    qs = [q] * N
    if not oneq:
        qs = [t.i(2, 3) for _ in range(N)]
        qR = q if same else t.i(2, 3)
    AR = [a.copy() for a in AL] if (same and LR == LL) else nice_block(t, LR, qR, DR)
    DR = AR[0].shape[1]
    D = [DL] + [t.i(1, Dhi) for _ in range(N - 1)] + [DR]
    if t.flag(0.3) and DL == DR or fullD:
        D = [DL] * N + [DR]
    for n in range(1, N):
        D[n] = min(D[n], D[n - 1] * qs[n - 1])
    for n in range(N - 1, 0, -1):
        D[n] = min(D[n], D[n + 1] * qs[n])
    AC = [t.c(qs[n], D[n], D[n + 1]) for n in range(N)]
    AC = [a / la.norm(a) * np.sqrt(a.shape[2]) for a in AC]
    t.note(N=N, LL=LL, LR=LR, D=D, q=[q] + qs + [qR])
    return AL, AC, AR


def mk_win(t, raw=None, **kw):
    import evoMPS.mps_sandwich as ms
    raw = rand_win(t, **kw) if raw is None else raw
    cp = lambda X: [a.copy() for a in X]
    s = ms.EvoMPS_MPS_Sandwich.from_tensors(cp(raw[0]), cp(raw[1]), cp(raw[2]))
    return s, Chain(*raw)


def mk_twin(t, k=None, form=None, raw=None, **kw):
    """TDVP window: (state, terms by site, bulk terms hL, hR)"""
    import evoMPS.tdvp_sandwich as ts
    s0, ch = mk_win(t, raw=raw, **kw)
    q = s0.uni_l.q
    k = t.pick(2, 2, 3) if k is None else k
    hL, hR = rand_uham(t, q, k), rand_uham(t, q, k)
    if t.flag(0.5):
        hR = hL
    N = s0.N
    hC = [rand_uham(t, q, k) for _ in range(N + 1 + (k - 2))]     # terms 0..N, then (3 sites) -1
    form = t.pick("array", "array", "function") if form is None else form
    if k == 3:
        # a list has N + 1 entries; the term starting at site -1 is its last one
        form = "array" if t.flag(0.5) else form
    terms = {n: hC[n] for n in range(N + 1)}
    if k == 3:
        terms[-1] = hC[N] if form == "array" else hC[N + 1]
    s = ts.EvoMPS_TDVP_Sandwich.from_mps(s0, hL, hC[:N + 1], hR, ham_sites=k)
    if form == "function":
        s.ham = lambda n, *i: terms[int(n)][tuple(int(x) for x in i)]
    t.note(k=k, form=form)
    return s, terms, hL, hR


def wgood(s, lim=1e-4):
    for n in range(s.N + 1):
        for e in (s.l[n], s.r[n]):
            w = la.eigvalsh((dn(e) + dn(e).conj().T) / 2)
            if w[0] < lim * w[-1]:
                return False
    return True


def check_wenvs(t, s, label, tol=1e-8, out=3):
    """environments match the tensors everywhere, unit norm"""
    N = s.N
    LL, LR = len(s.uni_l.A), len(s.uni_r.A)
    A = lambda n: np.asarray(s.uni_l.A[(n - 1) % LL] if n < 1 else s.uni_r.A[(n - N - 1) % LR] if n > N else s.A[n])
    ll = {n: dn(s.get_l(n)) for n in range(-LL - 1, N + out + 1)}
    rr = {n: dn(s.get_r(n)) for n in range(-out, N + LR + 2)}
    for n in range(-LL, N + out + 1):
        want = np.einsum("sab,ac,scd->bd", A(n).conj(), ll[n - 1], A(n))
        t.close("%s: l at a site is the one before it mapped through the tensor" % label, ll[n], want, tol)
    for n in range(-out, N + LR + 1):
        want = np.einsum("sab,bd,scd->ac", A(n + 1), rr[n + 1], A(n + 1).conj())
        t.close("%s: r at a site is the one after it mapped through the tensor" % label, rr[n], want, tol)
    for n in range(-out, N + out + 1):
        if n in ll and n in rr:
            t.close("%s: unit norm at every site" % label, np.trace(ll[n].dot(rr[n])), 1.0, tol)
