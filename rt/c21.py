"""C21 window states"""
import copy
import numpy as np
from .lib import *
from .ulib import mk_uni, fixed_points
from .wlib import *


def compare(t, label, s, ch, shift=0, tol=1e-7, tol2=1e-7):
    """expectation values of the object in and around the window against the infinite chain it should stand for"""
    N = s.N
    q = lambda n: ch.A(n - shift).shape[0]
    for _ in range(4):
        n = t.i(-3, N + 3)
        o = t.op(q(n), q(n))
        t.close("%s: one-site expectation values in and around the window" % label, s.expect_1s(o, n), ch.expect(o, n - shift, 1), tol)
    n = t.i(-3, N + 2)
    o = t.op(q(n), q(n + 1), q(n), q(n + 1))
    t.close("%s: two-site expectation values" % label, s.expect_2s(o, n), ch.expect(o, n - shift, 2), tol)
    if q(1) == 2:
        n = t.i(-3, N + 1)
        o = t.op(*[q(n), q(n + 1), q(n + 2)] * 2)
        t.close("%s: three-site expectation values" % label, s.expect_3s(o, n), ch.expect(o, n - shift, 3), tol)


def same_chain(t, label, a, b, lo, hi, shift=0, tol=1e-8):
    for n in range(lo, hi + 1):
        t.close("%s: reduced density matrices are unchanged" % label, a.rdm(n + shift), b.rdm(n), tol)
    n = t.i(lo, hi - 1)
    d = a.A(n + shift).shape[0] * a.A(n + 1 + shift).shape[0]
    o = t.op(d, d)
    t.close("%s: two-site expectation values are unchanged" % label, a.expect(o, n + shift, 2), b.expect(o, n, 2), tol)


def nice(ch, lim=1e-4):
    for n in range(0, ch.N + 1):
        for e in (ch.left(n), ch.right(n)):
            w = la.eigvalsh((e + e.conj().T) / 2)
            if w[0] < lim * w[-1]:
                return False
    return True


@case("C21", 2)
def lookup(t):
    s, ch = mk_win(t, oneq=t.flag(0.8))
    N = s.N
    LL, LR = len(ch.AL), len(ch.AR)
    s.update(restore_CF=False)
    if t.flag():
        s.update()
    for n in range(-2 * LL - 1, N + 2 * LR + 3):
        if n < 1:
            t.true("get_A left of the window is the bulk tensor", s.get_A(n) is s.uni_l.A[(n - 1) % LL])
        elif n > N:
            t.true("get_A right of the window is the bulk tensor", s.get_A(n) is s.uni_r.A[(n - N - 1) % LR])
        else:
            t.true("get_A in the window is the window tensor", s.get_A(n) is s.A[n])
        t.true("get_D is the bond dimension at the site", int(s.get_D(n)) == ch.D(n), "n=%d %s %s" % (n, s.get_D(n), ch.D(n)))
        t.true("get_q is the physical dimension at the site", int(s.get_q(n)) == ch.A(n).shape[0])
    check_wenvs(t, s, "lookup")
    n = t.i(-4, -1)
    # r left of the window from the next one
    t.close("get_r with the next environment given", s.get_r(n, r_np1=s.get_r(n + 1)), s.get_r(n), 1e-8)


@case("C21", 2)
def from_tensors(t):
    import evoMPS.mps_sandwich as ms
    raw = rand_win(t, oneq=t.flag(0.8))
    ch = Chain(*raw)
    cp = lambda X: [a.copy() for a in X]
    via = t.pick("class", "class", "function")
    t.note(via=via)
    s = (ms.EvoMPS_MPS_Sandwich.from_tensors if via == "class" else ms.sandwich_from_tensors)(*[cp(x) for x in raw])
    for n in range(1, s.N + 1):
        t.close("the window tensors are kept", s.A[n], raw[1][n - 1], 0)
    for a, b in zip(list(s.uni_l.A) + list(s.uni_r.A), raw[0] + raw[2]):
        t.close("the bulk tensors are kept up to normalisation", a, b, 1e-9)
    s.update(restore_CF=False)
    check_wenvs(t, s, "from tensors")
    compare(t, "from tensors", s, ch)
    same_chain(t, "from tensors", chain_of(s), ch, -1, s.N + 2)


@case("C21", 1)
def from_uniform(t):
    """a window cut from one uniform state represents that state"""
    import evoMPS.mps_sandwich as ms
    u = mk_uni(t, Dhi=3, Lhi=2)
    if not min(la.eigvalsh(dn(u.r[-1]))[0] / la.eigvalsh(dn(u.r[-1]))[-1], la.eigvalsh(dn(u.l[-1]))[0] / la.eigvalsh(dn(u.l[-1]))[-1]) > 1e-4:
        raise Skip()
    A0 = [np.array(a) for a in u.A]
    N = u.L * t.i(1, 3)
    if N < 2:
        N = 2
    ch = Chain(A0, [A0[i % u.L] for i in range(N)], A0)
    s = ms.EvoMPS_MPS_Sandwich(N, u)
    for k in range(u.L):
        t.close("the uniform state handed over is left alone", u.A[k], A0[k], 0)
    s.update(restore_CF=t.flag())
    check_wenvs(t, s, "from uniform")
    compare(t, "from uniform", s, ch)


@case("C21", 3)
def canonical(t):
    s, ch = mk_win(t, oneq=t.flag(0.8))
    if not nice(ch):
        raise Skip()
    s.update()
    N, c = s.N, s.N_centre
    check_wenvs(t, s, "canonical form")
    compare(t, "canonical form", s, ch)
    same_chain(t, "canonical form", chain_of(s), ch, -2, N + 3)
    for n in range(0, c):
        t.close("left of the centre the left environment is the identity", s.l[n], np.eye(dn(s.l[n]).shape[0]), 1e-8)
        r = dn(s.r[n])
        t.close("left of the centre the right environment is diagonal", r, np.diag(np.diag(r)), 1e-8)
    for n in range(c, N + 1):
        t.close("from the centre on the right environment is the identity", s.r[n], np.eye(dn(s.r[n]).shape[0]), 1e-8)
        l = dn(s.l[n])
        t.close("from the centre on the left environment is diagonal", l, np.diag(np.diag(l)), 1e-8)


@case("C21", 1)
def renorm(t):
    s, ch = mk_win(t, oneq=t.flag(0.8))
    N, c = s.N, s.N_centre
    if t.flag():
        s.update()
        ch = chain_of(s)
    n0 = t.i(1, N)
    f = t.c(1)[0]
    s.A[n0] = s.A[n0] * f
    A = [None] + [np.array(s.A[n]) for n in range(1, N + 1)]
    s.update(restore_CF=False, normalize=t.flag(0.8))
    if abs(np.trace(dn(s.l[1]).dot(dn(s.r[1]))) - 1) > 1e-9:
        s.update(restore_CF=False)
    check_wenvs(t, s, "fixing the norm")
    g = None
    for n in range(1, N + 1):
        i = np.argmax(np.abs(A[n]))
        x = s.A[n].ravel()[i] / A[n].ravel()[i]
        t.close("fixing the norm multiplies the tensors by positive factors", s.A[n], A[n] * abs(x), 1e-9)


@case("C21", 2)
def grow(t):
    """growing by whole unit cells"""
    s, ch = mk_win(t, oneq=t.flag(0.8))
    if not nice(ch):
        raise Skip()
    if t.flag():
        s.update()
    else:
        s.update(restore_CF=False)
    ch = chain_of(s)
    shift = 0
    for _ in range(t.i(1, 2)):
        m = t.i(1, 2)
        N = s.N
        if t.flag():
            s.grow_left(m)
            t.true("the window has grown by m unit cells", s.N == N + m * len(ch.AL))
            shift += m * len(ch.AL)
        else:
            s.grow_right(m)
            t.true("the window has grown by m unit cells", s.N == N + m * len(ch.AR))
    g = chain_of(s)
    for n in range(-2, s.N + 3):
        t.close("growing leaves the represented chain unchanged", g.A(n), ch.A(n - shift), 0)
        t.true("get_D after growing", int(s.get_D(n)) == g.D(n))
        t.true("get_q after growing", int(s.get_q(n)) == g.A(n).shape[0])
    s.update(restore_CF=t.flag())
    check_wenvs(t, s, "after growing")
    compare(t, "after growing", s, ch, shift)
    same_chain(t, "after growing", chain_of(s), ch, -2, s.N - shift + 2, shift)


@case("C21", 1)
def tdvp_grow(t):
    s, terms, hL, hR = mk_twin(t, k=t.pick(2, 2, 3), form="array")
    N = s.N
    ham = list(s.ham)
    s.update()
    if not wgood(s):
        raise Skip()
    ch = chain_of(s)
    m = t.i(1, 2)
    h0 = dict(ham)  if isinstance(ham, dict) else ham
    if t.flag():
        s.grow_left(m)
        d = m * len(ch.AL)
        want = [hL] * d + h0
    else:
        s.grow_right(m)
        d = 0
        want = h0 + [hR] * (m * len(ch.AR))
    for a, b in zip(s.ham, want):
        t.close("the Hamiltonian grows along with the bulk term", a, b, 0)
    t.true("one Hamiltonian term per site", len(s.ham) == s.N + 1)
    s.update()
    check_wenvs(t, s, "TDVP window after growing")
    compare(t, "TDVP window after growing", s, ch, d)


@case("C21", 1)
def window_overlap(t):
    """overlap of a window state with a gauge-transformed copy"""
    s, ch = mk_win(t, Lhi=1, fullD=True)
    if not nice(ch, 1e-3):
        raise Skip()
    s.update()
    o = copy.deepcopy(s)
    B = [None] + [np.array(s.A[n]) for n in range(1, s.N + 1)]
    n0 = t.i(1, s.N)
    o.A[n0] = o.A[n0] + 0.3 * t.c(*o.A[n0].shape) / np.sqrt(o.A[n0].size)
    o.update(restore_CF=False)
    B = [np.array(o.A[n]) for n in range(1, o.N + 1)]
    l, r = dn(s.l[0]), dn(s.r[s.N])
    want = l
    for n in range(1, s.N + 1):
        want = np.einsum("sab,ac,scd->bd", B[n - 1].conj(), want, s.A[n])
    want = np.trace(want.dot(r))
    if t.flag():
        # a canonical form of the other state: a gauge transformation
        o.restore_CF()
        got = s.overlap(o)
        t.close("overlap modulus", abs(got), abs(want), 1e-5)
    else:
        got = s.overlap(o)
        t.close("overlap is the contraction of window tensors between the bulk fixed points", abs(got), abs(want), 1e-5)
