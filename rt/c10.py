"""C10 saving and loading"""
import copy, os, tempfile, shutil, io, sys
import numpy as np
from .lib import *
from .ulib import mk_uni, mk_utdvp
from .wlib import *


class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="evomps.")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def f(self, n="s"):
        return os.path.join(self.d, n + ".npy")


def snap(s):
    """all tensors, environments and dimensions of a chain"""
    out = {}
    for nm in ("A", "l", "r", "K", "K_l", "K_left", "D", "q", "userdata", "N", "L"):
        v = getattr(s, nm, None)
        if isinstance(v, (list, np.ndarray)) and nm not in ("D", "q", "userdata"):
            v = [None if x is None else np.array(dn(x)) for x in v]
        else:
            v = copy.deepcopy(v)
        out[nm] = v
    for nm in ("uni_l", "uni_r"):
        if hasattr(s, nm):
            out[nm] = snap(getattr(s, nm))
    return out


def same_snap(t, label, a, b, tol=0):
    for k in a:
        if k in ("uni_l", "uni_r"):
            same_snap(t, label, a[k], b[k], tol)
            continue
        x, y = a[k], b[k]
        if isinstance(x, list):
            t.true(label + ": " + k, len(x) == len(y))
            for u, v in zip(x, y):
                if u is None or v is None:
                    t.true(label + ": " + k, u is None and v is None)
                elif np.all(np.isfinite(u)):
                    t.close(label + ": " + k, v, u, tol)
        elif k == "userdata":
            t.true(label + ": user data", data(x) == data(y), "%r %r" % (x, y))
        else:
            t.true(label + ": " + k, np.array_equal(np.asarray(x), np.asarray(y)), "%r %r" % (x, y))


def data(x):
    x = np.asarray(x)
    return x.item() if x.ndim == 0 else x.tolist()


def userdata(t):
    return t.pick(None, {"a": 1, "b": [1, 2.5]}, "text", [1, 2, 3], 17)


@case("C10", 3)
def finite_roundtrip(t):
    import evoMPS.mps_gen as mg
    tdvp = t.flag()
    if tdvp:
        s, ham = mk_tdvp(t)
        s.update(restore_CF=t.flag(0.7))
    else:
        s, psi = mk_chain(t)
        if t.flag(0.3):
            s.update(restore_CF=False)
    with Dir() as d:
        before = snap(s)
        s.save_state(d.f())
        same_snap(t, "saving leaves the state alone", before, snap(s))
        N = s.N
        D2 = cap_D(N, rand_D(t, N, list(s.q)), list(s.q)) if t.flag() else list(s.D)
        if tdvp:
            import evoMPS.tdvp_gen as tg
            o = tg.EvoMPS_TDVP_Generic(N, D2, list(s.q), s.ham, ham_sites=s.ham_sites)
        else:
            o = mg.EvoMPS_MPS_Generic(N, D2, list(s.q))
        o.canonical_form = s.canonical_form
        o.load_state(d.f(), do_update=False)
        for n in range(1, N + 1):
            t.close("the tensors come back", o.A[n], s.A[n], 0)
        t.true("the dimensions come back", list(o.D) == list(s.D) and list(o.q)[1:] == list(s.q)[1:])
        cf = t.flag(0.6)
        o.update(restore_CF=cf)
        s2 = copy.deepcopy(s)
        s2.update(restore_CF=cf)
        check_envs(t, o, "loaded")
        for n in range(N + 1):
            t.close("the environments come back: l", o.l[n], s2.l[n], 1e-8)
            t.close("the environments come back: r", o.r[n], s2.r[n], 1e-8)
        if tdvp:
            t.close("the energy comes back", o.H_expect, s2.H_expect, 1e-8)
        p = copy.deepcopy(o)
        p.load_state(d.f())
        same_ray(t, "the same state vector", dense(p.A, N), dense(s.A, N))
        check_envs(t, p, "loaded with update")
        o.load_state(d.f(), do_update=False)
        o.update()
        for n in range(N + 1):
            t.close("loading with update is loading, then updating: l", p.l[n], o.l[n], 1e-9)
            t.close("loading with update is loading, then updating: r", p.r[n], o.r[n], 1e-9)
            if n:
                t.close("loading with update is loading, then updating: A", p.A[n], o.A[n], 1e-9)


@case("C10", 2)
def finite_refused(t):
    import evoMPS.mps_gen as mg
    s, psi = mk_chain(t)
    N = s.N
    with Dir() as d:
        s.save_state(d.f())
        q = [int(x) for x in s.q]
        how = t.pick("longer", "shorter", "q", "q", "inconsistent", "edge")
        t.note(how=how)
        if how == "longer":
            q, M = q + [2] * t.i(1, 2), None
            M = len(q) - 1
        elif how == "shorter":
            if N < 2:
                raise Skip()
            M = t.i(1, N - 1)
            q = q[:M + 1]
        elif how == "q":
            M = N
            n = t.i(1, N)
            q[n] = q[n] + t.pick(1, -1) if q[n] > 1 else 2
            q[n] = max(q[n], 1)
        else:
            M = N
            A = s.A.copy()
            n = t.i(1, N)
            a = np.asarray(A[n])
            side = (N == n) if how == "edge" else t.flag()
            if how == "edge" and N > 1:
                n = t.pick(1, N)
                a = np.asarray(A[n])
                side = n == N
            A[n] = t.c(a.shape[0], a.shape[1] + (0 if side else 1), a.shape[2] + (1 if side else 0))
            np.save(d.f(), A, allow_pickle=True)
        o = mg.EvoMPS_MPS_Generic(M, [1] + [2] * (M - 1) + [1], q)
        before = snap(o)
        t.raises("a file of incompatible dimensions is refused", o.load_state, d.f())
        same_snap(t, "a refused load leaves the state alone", before, snap(o))


@case("C10", 3)
def uniform_roundtrip(t):
    import evoMPS.tdvp_uniform as tu
    s, h = mk_utdvp(t, form=t.pick("array", "function"), Dhi=3)
    ud = userdata(t)
    arg = t.flag()
    if not arg:
        s.userdata = ud
    with Dir() as d:
        before = snap(s)
        if arg:
            s.save_state(d.f(), userdata=ud)
        else:
            s.save_state(d.f())
        same_snap(t, "saving leaves the state alone", before, snap(s))
        if ud is None:
            ud = s.userdata
        o = tu.EvoMPS_TDVP_Uniform(s.D, s.q, h, L=s.L)
        o.set_ham(s.ham, s.ham_sites)
        o.symm_gauge = s.symm_gauge
        st = np.load(d.f(), allow_pickle=True)
        t.true("the import succeeds", o.import_state(st, do_update=False) is True)
        for k in range(s.L):
            t.close("the tensors come back", o.A[k], s.A[k], 0)
        t.close("the environments come back: l", o.l[-1], s.l[-1], 0)
        t.close("the environments come back: r", o.r[-1], s.r[-1], 0)
        t.close("the partial energies come back", o.K[0], s.K[0], 0)
        t.true("the user data comes back", data(o.userdata) == data(ud), "%r %r" % (o.userdata, ud))
        how = t.pick("load", "file", "import")
        t.note(how=how)
        if how == "load":
            p = tu.EvoMPS_TDVP_Uniform(s.D, s.q, h, L=s.L)
            p.set_ham(s.ham, s.ham_sites)
            p.symm_gauge = s.symm_gauge
            t.true("the load succeeds", p.load_state(d.f()) is True)
        elif how == "file":
            p = tu.EvoMPS_TDVP_Uniform.from_file(d.f(), s.ham, ham_sites=s.ham_sites)
        else:
            p = copy.deepcopy(o)
            p.update(restore_CF=False)
            for k in range(s.L):
                t.close("the environments come back: l", p.l[k], s.l[k], 1e-7)
                t.close("the environments come back: r", p.r[k], s.r[k], 1e-7)
        t.true("the dimensions come back", (p.L, p.q, p.D) == (s.L, s.q, s.D))
        t.true("the user data comes back", data(p.userdata) == data(ud), "%r %r" % (p.userdata, ud))
        for k in range(s.L):
            op = t.op(s.q, s.q)
            t.close("the same expectation values", p.expect_1s(op, k), s.expect_1s(op, k), 1e-6)
        t.close("the same energy density", p.h_expect, s.h_expect, 1e-6)


@case("C10", 2)
def uniform_refused(t):
    import evoMPS.tdvp_uniform as tu
    s, h = mk_utdvp(t, form="array", k=2, Dhi=3)
    s.userdata = "saved"
    with Dir() as d:
        s.save_state(d.f())
        q, D, L = s.q, s.D, s.L
        how = t.pick("D", "q", "L")
        if how == "D":
            D += t.pick(1, 1, -1) if D > 1 else 1
        elif how == "q":
            q += 1
        else:
            L = L + 1 if L == 1 or t.flag() else L - 1
        t.note(how=how, to=(q, D, L))
        o = tu.EvoMPS_TDVP_Uniform(D, q, t.hop(q * q, [q] * 4), L=L)
        o.userdata = "mine"
        before = snap(o)
        try:
            res = o.load_state(d.f())
        except Exception:
            res = False
        t.true("a file of incompatible dimensions is refused", res is False)
        same_snap(t, "a refused load leaves the state alone", before, snap(o))


@case("C10", 2)
def window_roundtrip(t):
    import evoMPS.mps_sandwich as ms, evoMPS.tdvp_sandwich as ts
    tdvp = t.flag()
    raw = rand_win(t, N=None)
    if tdvp:
        s, terms, hL, hR = mk_twin(t, form="array", raw=raw)
    else:
        s, _ = mk_win(t, raw=raw)
    s.update(restore_CF=t.flag(0.7))
    if not wgood(s):
        raise Skip()
    s.grown_left, s.grown_right, s.shrunk_left, s.shrunk_right = [t.i(0, 9) for _ in range(4)]
    ud = userdata(t)
    N = s.N
    with Dir() as d:
        before = snap(s)
        s.save_state(d.f(), userdata=ud)
        same_snap(t, "saving leaves the state alone", before, snap(s))
        # another window of the same bulk dimensions, its own window bonds
        qs, D = [a.shape[0] for a in raw[1]], [a.shape[1] for a in raw[1]] + [raw[1][-1].shape[2]]
        for n in range(1, N):
            D[n] = t.i(1, 3)
        raw2 = [[t.c(*a.shape) for a in raw[0]], [t.c(qs[n], D[n], D[n + 1]) for n in range(N)], [t.c(*a.shape) for a in raw[2]]]
        auto = N > len(raw[0]) + 1 and t.flag(0.3)
        if auto:
            raw2[1] = raw2[1][len(raw[0]):]
            raw2[1][0] = t.c(qs[len(raw[0])], D[0], raw2[1][0].shape[2])
        if tdvp:
            o = mk_twin(t, form="array", raw=raw2, k=s.ham_sites)[0]
        else:
            o = mk_win(t, raw=raw2)[0]
        t.note(auto=auto, tdvp=tdvp)
        if auto and qs[0] != raw[0][0].shape[0]:
            raise Skip()
        p = copy.deepcopy(o)
        got = o.load_state(d.f(), autogrow=auto, do_update=False)
        t.true("the user data comes back", data(got) == data(ud), "%r %r" % (got, ud))
        for n in range(1, N + 1):
            t.close("the window tensors come back", o.A[n], s.A[n], 0)
        for a, b in zip(list(o.uni_l.A) + list(o.uni_r.A), list(s.uni_l.A) + list(s.uni_r.A)):
            t.close("the bulk tensors come back", a, b, 0)
        for lab, a, b in (("l at the left edge", o.l[0], s.l[0]), ("r at the right edge", o.r[N], s.r[N]),
                          ("left bulk l", o.uni_l.l[-1], s.uni_l.l[-1]), ("left bulk r", o.uni_l.r[-1], s.uni_l.r[-1]),
                          ("right bulk l", o.uni_r.l[-1], s.uni_r.l[-1]), ("right bulk r", o.uni_r.r[-1], s.uni_r.r[-1])):
            t.close("the environments come back: " + lab, a, b, 0)
        if tdvp:
            t.close("the bulk partial energies come back", o.uni_l.K_left[-1], s.uni_l.K_left[-1], 0)
            t.close("the bulk partial energies come back", o.uni_r.K[0], s.uni_r.K[0], 0)
        t.true("the dimensions come back", o.N == N and [int(o.get_D(n)) for n in range(-1, N + 2)] == [int(s.get_D(n)) for n in range(-1, N + 2)])
        t.true("growth counters come back", (o.grown_left, o.grown_right, o.shrunk_left, o.shrunk_right) ==
               (s.grown_left, s.grown_right, s.shrunk_left, s.shrunk_right))
        if tdvp:
            p.ham = s.ham if not auto else p.ham
        got = p.load_state(d.f(), autogrow=auto)
        t.true("the user data comes back", data(got) == data(ud))
        check_wenvs(t, p, "loaded")
        a, b = chain_of(p), chain_of(s)
        for n in range(-2, N + 3):
            t.close("the same density matrices", a.rdm(n), b.rdm(n), 1e-7)
            op = t.op(*[b.A(n).shape[0]] * 2)
            t.close("the same expectation values", p.expect_1s(op, n), b.expect(op, n, 1), 1e-7)


@case("C10", 2)
def window_refused(t):
    tdvp = t.flag(0.3)
    raw = rand_win(t)
    s, _ = mk_win(t, raw=raw)
    s.update(restore_CF=False)
    N = s.N
    with Dir() as d:
        s.save_state(d.f(), userdata="x")
        cp = lambda X: [t.c(*a.shape) for a in X]
        raw2 = [cp(x) for x in raw]
        how = t.pick("N", "N-", "DL", "DR", "q", "LL", "LR", "data")
        t.note(how=how)
        q = raw[0][0].shape[0]
        if how == "N":
            a = raw2[1][-1]
            raw2[1].append(t.c(a.shape[0], a.shape[2], a.shape[2]))
        elif how == "N-":
            if N < 3:
                raise Skip()
            raw2[1] = raw2[1][:-1]
            a = raw2[1][-1]
            raw2[1][-1] = t.c(a.shape[0], a.shape[1], raw2[2][0].shape[1])
        elif how in ("DL", "DR"):
            i, j = (0, 0) if how == "DL" else (2, -1)
            D = raw2[i][0].shape[1] + 1
            raw2[i] = [t.c(q, D, D) for _ in raw2[i]]
            a = raw2[1][j]
            raw2[1][j] = t.c(a.shape[0], D if j == 0 else a.shape[1], a.shape[2] if j == 0 else D)
        elif how == "q":
            raw2 = [[t.c(q + 1, a.shape[1], a.shape[2]) for a in x] for x in raw2]
        elif how in ("LL", "LR"):
            i = 0 if how == "LL" else 2
            raw2[i] = raw2[i] + [t.c(*raw2[i][0].shape)] if len(raw2[i]) == 1 or t.flag() else raw2[i][:1]
        else:
            np.save(d.f(), np.array([1, 2, 3]))
        if tdvp:
            o = mk_twin(t, form="array", raw=raw2, k=2)[0]
        else:
            o = mk_win(t, raw=raw2)[0]
        before = snap(o)
        rets = []
        auto = t.flag(0.3) and how not in ("N", "N-")
        try:
            rets.append(o.load_state(d.f(), autogrow=auto))
        except Exception:
            rets.append(None)
        t.true("a file of incompatible dimensions is refused", rets[0] is None, rets[0])
        same_snap(t, "a refused load leaves the state alone", before, snap(o))


@case("C10", 1)
def resized_on_import(t):
    from .c24 import resized
    quiet(lambda: resized(t))
