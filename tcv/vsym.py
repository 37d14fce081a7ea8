"""Symbolic side of the contract interface and the path-exploring runner.

A contract is a Python function f(V): it declares inputs through V (dimensions, sites, tensors, families), states the
precondition, calls the real function, and states the postcondition.  Run with this V, the inputs are arbitrary and
every obligation is a polynomial identity or an integer formula that must hold on every path; run with the numeric V
(/verif/rt/vnum.py) the same contract is executed on random inputs against the unmodified code (replay)."""
import time
import traceback
import z3
from . import sint, net, arr, shim, load, loops
from .net import Val, Sym, Ix, Cn, Rule, Fac, Term, ONE
from .arr import Arr
from .sint import SInt, SBool, Unsupported, Infeasible, PathDone, SymRaise, Context, set_ctx, norm, simp
from .loops import PList


def sym_einsum(spec, *ops):
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    cur, lab = None, []
    vals = [Arr.of(o).v for o in ops]
    if len(ins) != len(vals):
        raise ValueError("einsum operands")
    extra = []
    used = set("".join(ins) + out)
    pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" if c not in used]
    for l, v in zip(ins, vals):
        l = list(l)
        if len(l) != len(v.axes):
            raise SymRaise("einsum: rank of operand %s is %d" % ("".join(l), len(v.axes)))
        for i, ch in enumerate(l):
            if ch in l[:i]:
                n = pool.pop()
                l[i] = n
                extra.append((ch, n, v.shape()[i]))
        if cur is None:
            cur, lab = v, l
        else:
            d = [(lab.index(ch), j) for j, ch in enumerate(l) if ch in lab]
            for i, j in d:
                if not net.same_dim(net.axis_dim(cur.axes[i]), net.axis_dim(v.axes[j])):
                    if not bool(sint.cmp_("==", SInt.of(net.axis_dim(cur.axes[i])), SInt.of(net.axis_dim(v.axes[j])))):
                        raise SymRaise("einsum %s: dimensions %s, %s" % (spec, net.axis_dim(cur.axes[i]), net.axis_dim(v.axes[j])))
            cur = net.product(cur, v, (), d)
            lab = lab + [ch for ch in l if ch not in lab]
    for ch, n, dim in extra:
        v = Val.eye(SInt.of(dim))
        cur = net.product(cur, v, (), [(lab.index(ch), 0), (lab.index(n), 1)])
        # n stays as a separate axis: sum it
        i = lab.index(n)
        cur = net.sum_axis(cur, i)
        lab.pop(i)
    for ch in list(lab):
        if ch not in out:
            i = lab.index(ch)
            cur = net.sum_axis(cur, i)
            lab.pop(i)
    return Arr(cur.transpose([lab.index(ch) for ch in out]))


class SymV(object):
    symbolic = True

    def __init__(self, c, loader):
        self.c = c
        self.loader = loader
        self.inputs = []
        self.ints = {}
        self.choices = {}
        self.nobl = 0

    def mixed(self, strong=False):
        pass

    def mod(self, name):
        return self.loader.load(name)

    # ------------------------------------------------------------------------------------------ inputs
    def stub(self, module, name, fn, why=None):
        """from here on the module's function is this one: the callee is replaced by what its contract promises"""
        setattr(self.mod(module), name, fn)
        self.assumed("%s.%s meets its contract%s" % (module, name, " (%s)" % why if why else ""))

    def random(self, name, fn, why):
        """from here on numpy.random's function is this one"""
        setattr(self.loader.ext["numpy"].random, name, fn)
        self.assumed("numpy.random.%s: %s" % (name, why))

    def dim(self, name, lo=1):
        v = SInt.var(name)
        self.c.assume(sint.cmp_("<=", SInt.of(lo), v))
        return v

    def int(self, name, lo=None, hi=None):
        """lo <= v <= hi"""
        v = SInt.var(name)
        b = tuple(None if x is None else norm(SInt.of(x)).key() for x in (lo, hi))
        if self.ints.setdefault(name, b) != b:
            raise Unsupported("the contract declares %s twice" % name)
        if lo is not None:
            self.c.assume(sint.cmp_("<=", SInt.of(lo), v))
        if hi is not None:
            self.c.assume(sint.cmp_("<=", v, SInt.of(hi)))
        self.c.witness(v)
        return v

    def consider(self, i):
        """facts that hold everywhere in a range are used for the integer i, too"""
        self.c.witness(norm(SInt.of(i)))

    def t(self, name, *dims, **k):
        a = Arr(Val.of_sym(Sym(name, (), dims, **{x: y for x, y in k.items() if x in ("herm", "real")})))
        if k.get("frame", True):
            self.inputs.append((name, a, a.v))
        return a

    def scalar(self, name, real=False):
        return Arr(Val.of_sym(Sym(name, (), (), real=real)))

    def herm(self, name, d):
        return self.t(name, d, d, herm=True)

    def undef(self, *dims, **k):
        return arr.undef(dims)

    def choice(self, name, *opts):
        """every option is explored"""
        k = 0
        for k, o in enumerate(opts[:-1]):
            b = SBool(z3.Bool("choice!%s!%d" % (name, k)))
            if bool(b):
                return o
        return opts[-1]

    def assume(self, b):
        self.c.assume(b)

    def nonzero(self, x):
        """precondition: this number is not zero (the symbolic reciprocal is defined only then)"""

    def cases(self, b):
        """split the proof on a condition"""
        return bool(b)

    def count(self, mask):
        return shim.count_nonzero(mask)

    def ones_where(self, mask):
        """vector which is one where the comparison holds"""
        m, k, n, neg = mask.mask()
        return Arr(m) if not neg else 1 - Arr(m)

    def positive_definite(self, m):
        return bool(self.c.opaque_bool(("positive definite", arr.canon_str(Arr.of(m).v))))

    def fn_op(self, name, *dims):
        """operator given as a function of its indices"""
        a = self.t(name, *dims)

        def f(*idx):
            return a[tuple(idx)]
        f.tensor = a
        return f

    def tp_op(self, name, m, d1, d2):
        """operator as a sum of m tensor products: (list of [op1, op2], stacked op1, stacked op2)"""
        U, W = self.t(name + "_1", m, d1, d1), self.t(name + "_2", m, d2, d2)
        return PList.symbolic_list(m, lambda i: PList([U[i].copy(), W[i].copy()])), U, W

    # ------------------------------------------------------------------------------------------ chains and objects
    def dims(self, name, lo=1):
        """a family of dimensions i -> name(i) >= lo"""
        self.c.nonneg[name] = lo
        return lambda i: SInt.app(name, SInt.of(i))

    def family(self, name, dims, **k):
        """an arbitrary family of tensors: i -> name[i] of shape dims(i)"""
        kw = {x: y for x, y in k.items() if x in ("herm", "real")}

        def f(i):
            i = norm(SInt.of(i))
            return Arr(Val.of_sym(Sym(name, (i,), [SInt.of(d) for d in dims(i)], **kw)))
        return f

    def which(self, x, fam, label, n):
        """the i with x == fam(i), 0 <= i < n"""
        self.nobl += 1
        v = net.collect(net.normalise(net.drop_ones(Arr.of(x).v)))
        name = Arr.of(fam(0)).v.terms[0].fs[0].sym.name
        if len(v.terms) == 1:
            for f in v.terms[0].fs:
                if f.sym.name == name and len(f.sym.params) == 1:
                    i = simp(f.sym.params[0])
                    ok, det = net.equal(v, Arr.of(fam(i)).v)
                    self.c.obligation(label, ok, det)
                    return i
        raise Unsupported("%s: argument of unrecognised form" % label)

    def match(self, x, fam, want, label, lo, hi):
        """the i, lo <= i < hi, with x == want(i), where want(i) contains fam(i)"""
        self.nobl += 1
        v = net.collect(net.normalise(net.drop_ones(Arr.of(x).v)))
        name = Arr.of(fam(lo)).v.terms[0].fs[0].sym.name
        ixs = []
        for t in v.terms:
            for f in t.fs:
                if f.sym is not net.DELTA and f.sym.name == name and len(f.sym.params) == 1 and \
                        not any(net.same_dim(f.sym.params[0], j) for j in ixs):
                    ixs.append(f.sym.params[0])
        if len(ixs) != 1:
            raise Unsupported("%s: argument of unrecognised form" % label)
        i = simp(ixs[0])
        self.eq(label, x, want(i))
        return i

    def fix(self, f, i, val):
        """value of a dimension family at one index"""
        self.c.assume(sint.cmp_("==", SInt.of(f(i)), SInt.of(val)))

    def list(self, n, base, name=None, cyclic=False):
        """list (object array) of n elements base(0), base(1), ...; cyclic: an index that may be negative is read modulo n
        without a case distinction"""
        def el(i):
            return base(i)
        el.cyclic = cyclic
        r = PList.symbolic_list(n, el, name)
        r.arr = True
        return r

    def plain(self, x):
        """x, made by `list`, as a Python list rather than an object array"""
        x.arr = False
        return x

    def file(self):
        return shim.File()

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def ghost(self, name, dims, first, init, step, lists=()):
        """ghost sequence: G(first) = init, G(i) = step(G, i) for the other indices.  Lists named in `lists` are specified
        by it: their loop-written elements are obligations, elements written earlier are read as G(i).  first may be a
        predicate on the index and init a function of it"""
        given = first if callable(first) else lambda i: sint.cmp_("==", SInt.of(i), SInt.of(first))
        ini = init if callable(init) and not isinstance(init, Arr) else lambda i: init
        sym = self.family("G!" + name, dims)
        c = self.c

        class G(object):
            def __call__(me, i):
                if bool(given(i)):
                    return ini(i)
                return sym(i)

            def define(me, i):
                if bool(given(i)):
                    return ini(i)
                return step(me, i)
        g = G()
        for n in lists:
            c.specs[n] = g
        return g

    def fill(self, pl, lo, hi, fn):
        """pl[i] = fn(i) for lo <= i < hi"""
        if pl.sym is None:
            pl._log(("all",))
            pl.to_symbolic()
        pl._log(("all",))
        pl.sym[2] = pl.sym[2] + (("range", norm(SInt.of(lo)), norm(SInt.of(hi)), fn),)
        pl.sym[3] = {}

    def spec(self, name, fn):
        """elements of the list `name` that a loop writes are fn(i) (an obligation where they are written)"""
        self.c.specs[name] = fn

    def carried(self, fn):
        """a local array of a loop may be fn(k) at the start of iteration k (checked by induction)"""
        self.c.carried.append(fn)

    def fold(self, step, init, dims, lo, hi, up=True, peel=False):
        """apply step(k, .) (linear) for k = lo, ..., hi - 1 (up) or hi - 1, ..., lo (down) to init; dims(k): shape of the
        value just before iteration k"""
        lo, hi = norm(SInt.of(lo)), norm(SInt.of(hi))
        if not bool(sint.cmp_("<", lo, hi)):
            return init
        if peel:
            if up:
                return self.fold(step, step(lo, init), dims, SInt.of(lo + 1), hi, up)
            return self.fold(step, step(norm(SInt.of(hi - 1)), init), dims, lo, SInt.of(hi - 1), up)
        L = loops.Loop(loops.SRange(lo, hi) if up else loops.SRange(SInt.of(hi - 1), SInt.of(lo - 1), -1), "specification")
        if L.symbolic:
            L.lo, L.hi = lo, hi
            if L._single():
                return step(lo, init)
        else:
            for i in L.items:
                init = step(i, init)
            return init
        c = self.c
        k = c.fresh("fk")
        kn = list(k.vars())[0]
        tok = c.push_pc()
        try:
            c.assume(sint.cmp_("<=", lo, k))
            c.assume(sint.cmp_("<", k, hi))
            zd = [SInt.of(x) for x in dims(k)]
            z = Sym("Z#%d" % c.fresh_id(), (), zd)
            v = Arr.of(step(k, Arr(Val.of_sym(z)))).v
            v = net.collect(net.normalise(net.drop_ones(v)))
        finally:
            c.pop_pc(tok)
        L.zdims = {z.name: zd}
        f = L._make_fold(dict(k=kn, kv=k), v, z.name, list(v.terms), [], Arr.of(init).v)
        if f is None:
            raise Unsupported("fold in the specification")
        return Arr(f.total())

    def sum(self, fn, lo, hi, ends=(0, 0)):
        """sum of fn(k) for lo <= k < hi; the first ends[0] and last ends[1] terms are of a form of their own"""
        lo, hi = norm(SInt.of(lo)), norm(SInt.of(hi))
        tot = None
        for side, n in zip("<>", ends):
            for _ in range(n):
                if not bool(sint.cmp_("<", lo, hi)):
                    return tot
                k = lo if side == "<" else norm(SInt.of(hi - 1))
                x = fn(simp(k))
                tot = x if tot is None else tot + x
                if side == "<":
                    lo = norm(SInt.of(lo + 1))
                else:
                    hi = k
        if any(ends):
            if not bool(sint.cmp_("<", lo, hi)):
                return tot
            return tot + self.sum(fn, lo, hi)
        k = self.c.fresh("sk")
        with self.c.generic((k, lo, hi)):
            v = Arr.of(fn(k)).v
        return Arr(loops.sum_over(net.collect(net.normalise(net.drop_ones(v))), list(k.vars())[0], lo, hi))

    # ------------------------------------------------------------------------------------------ specification
    def einsum(self, spec, *ops):
        return sym_einsum(spec, *ops)

    def eye(self, d):
        return shim.eye(d)

    def unit(self, d, i):
        """the i-th unit vector"""
        return shim.eye(d)[i]

    def len(self, x):
        if isinstance(x, Arr):
            return x.shape[0]
        return x.tcv_len() if hasattr(x, "tcv_len") else len(x)

    def dense(self, x):
        return Arr.of(x)

    def phase(self, p):
        """exp(i p)"""
        return shim.exp(1j * p)

    def sqrt(self, x):
        return arr.sqrt(x)

    def reshape(self, x, s):
        return Arr.of(x).reshape(s)

    def zeros(self, *s):
        return shim.zeros(s)

    # ------------------------------------------------------------------------------------------ obligations
    def eq(self, label, got, want, **k):
        self.nobl += 1
        g, w = Arr.of(got), Arr.of(want)
        gs, ws = g.shape, w.shape
        if len(gs) != len(ws):
            self.c.obligation(label, False, "rank %d, expected %d" % (len(gs), len(ws)))
            return
        for a, b in zip(gs, ws):
            if not net.same_dim(SInt.of(a), SInt.of(b)):
                if not bool(sint.cmp_("==", SInt.of(a), SInt.of(b))):
                    self.c.obligation(label, False, "shape %s, expected %s" % (gs, ws))
                    return
        gv, wv = g.v, w.v
        if any(isinstance(f.sym.meta, (net.Family, net.CaseFamily)) for x in (gv, wv) for t in x.terms for f in t.fs
               if f.sym is not net.DELTA):
            gv, wv = net.resolve_rows(gv), net.resolve_rows(wv)
        ok, det = net.equal(gv, wv)
        self.c.obligation(label, ok, det)

    def true(self, label, cond, detail=""):
        self.nobl += 1
        if isinstance(cond, SBool):
            ok = self.c.entails(cond.f)
        else:
            ok = bool(cond)
        self.c.obligation(label, ok, detail or str(cond))

    def is_(self, label, a, b):
        self.true(label, a is b, "%r is not %r" % (type(a), type(b)))

    def raises(self, label, fn, *a):
        self.nobl += 1
        n = len(self.c.loops)
        try:
            fn(*a)
        except (Unsupported, Infeasible, PathDone):
            raise
        except Exception as e:
            if not isinstance(e, SymRaise) and not getattr(e, "tcv_loop", False):
                # raised by the code itself, not by the library model or for want of something in it
                f = traceback.extract_tb(e.__traceback__)[-1]
                if not (f.line or "").strip().startswith(("raise ", "assert ", "raise")):
                    raise Unsupported("%s instead of an exception of the code: %s" % (type(e).__name__, e))
            while len(self.c.loops) > n:
                self.c.loops[-1].abandon()
            self.c.obligation(label, True)
            return
        self.c.obligation(label, False, "no exception")

    def frame(self, label="arguments are left unchanged", skip=()):
        for name, a, v in self.inputs:
            if name in skip:
                continue
            self.nobl += 1
            if a._v is v:
                self.c.obligation(label, True)
            else:
                ok, det = net.equal(a._v, v)
                self.c.obligation(label, ok, "%s: %s" % (name, det))

    def assumed(self, text):
        self.c.assumed.add(text)


class Result(object):
    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.obls = []
        self.paths = 0
        self.why = ""
        self.assumed = set()
        self.time = 0.0
        self.z3_calls = 0
        self.z3_time = 0.0


OPAQUE = ("ob!",)


def verify(name, fn, repo=None, budget=60.0, max_paths=600):
    """run the contract on every path"""
    res = Result(name)
    t0 = time.time()
    pending = [[]]
    stats = {"z3_calls": 0, "z3_time": 0.0}
    try:
        while pending:
            prefix = pending.pop()
            c = Context(prefix, stats=stats)
            set_ctx(c)
            c.rules.append(arr.IncRule())
            c.deadline = t0 + budget
            try:
                L = load.Loader(repo)
                V = SymV(c, L)
                fn(V)
                c_feasible = True
                if not c.obls:
                    res.status, res.why = "vacuous", "no obligation on a path"
                    break
                if c.check() == z3.unsat:
                    # contradictory path: its obligations say nothing
                    c.obls = []
                else:
                    res.paths += 1
            except Infeasible:
                if c.loops:
                    res.status, res.why = "unsupported", "contradictory path inside a loop"
                    res.tb = traceback.format_exc()
                    break
                c.obls = []
            except Unsupported as e:
                res.status = "unsupported"
                res.why = str(e)
                if fn.__dict__.get("debug"):
                    traceback.print_exc()
                res.obls.extend(c.obls)
                res.tb = traceback.format_exc()
                break
            except AssertionError as e:
                if c.trace and str(c.trace[-1][0])[:160].replace("Not(", "").startswith(OPAQUE):
                    c.obls = []
                    c.assumed.add("tolerance assertions in the code pass")
                else:
                    c.obligation("no assertion fails", False, traceback.format_exc(limit=-3))
            except SymRaise as e:
                if any(l.kind == 2 and (l.dimgen or l.guessed or any(z.startswith("Zi#") for z in l.zs)) for l in c.loops):
                    res.status, res.why = "unsupported", "shape or integer carried by a loop: %s" % e
                    res.tb = traceback.format_exc()
                    break
                if c.check() == z3.unsat:
                    c.obls = []
                else:
                    c.obligation("no exception", False, "%s | %s" % (e, traceback.format_exc(limit=-3)))
            except z3.Z3Exception as e:
                res.status, res.why = "unsupported", "z3: %s" % e
                break
            except RecursionError as e:
                res.status, res.why = "unsupported", "recursion"
                break
            except Exception as e:
                # any other exception: the real code may or may not raise it (the library model is partial)
                res.status = "unsupported"
                res.why = "%s: %s" % (type(e).__name__, e)
                res.tb = traceback.format_exc()
                res.obls.extend(c.obls)
                break
            for (n, ok, det, tr) in c.obls:
                res.obls.append((n, ok, det, tr))
            res.assumed |= c.assumed
            pending.extend(c.pending)
            if time.time() - t0 > budget:
                res.status, res.why = "unsupported", "time budget"
                break
            if res.paths > max_paths:
                res.status, res.why = "unsupported", "path budget"
                break
    finally:
        set_ctx(None)
    bad = [o for o in res.obls if not o[1]]
    if bad:
        res.status = "refuted" if res.status in ("proved", "refuted") else res.status
        if res.status != "refuted":
            res.status = "refuted"
        res.why = "%s: %s" % (bad[0][0], bad[0][2])
    elif res.status == "proved" and (not res.obls or not res.paths):
        res.status, res.why = "vacuous", "no feasible path or no obligation"
    res.time = time.time() - t0
    res.z3_calls, res.z3_time = stats["z3_calls"], stats["z3_time"]
    return res
