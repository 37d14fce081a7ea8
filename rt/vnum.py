"""Numeric side of the contract interface: the contracts of contracts/<prop>.py on random inputs and the unmodified code.
Used to replay refuted obligations and as the bounded stand-in of undischarged ones."""
import re
import atexit, importlib, os, shutil, tempfile
import numpy as np
import scipy.linalg as la
from . import lib
from .lib import Fail, Skip, dn


class File(str):
    """name of a file in a scratch directory of this process"""
    scratch, count = None, 0

    @classmethod
    def new(cls):
        if cls.scratch is None:
            cls.scratch = tempfile.mkdtemp(prefix="evomps.")
            atexit.register(shutil.rmtree, cls.scratch, True)
        cls.count = (cls.count + 1) % 8
        return cls(os.path.join(cls.scratch, "s%u.npy" % cls.count))

    def rewind(self):
        pass


class NumV(object):
    symbolic = False

    def __init__(self, t):
        self.t_ = t
        self.inputs = []
        self.stubs = []
        self.made = set()
        self.hi = t.pick(1, 2, 3, 3, 4)
        self.mix = False

    def mixed(self, strong=False):
        """real and complex arguments may be combined"""
        self.mix = 2 if strong else True

    def mod(self, name):
        return importlib.import_module("evoMPS." + name)

    def stub(self, module, name, fn, why=None):
        m = self.mod(module)
        self.stubs.append((m, name, getattr(m, name)))
        setattr(m, name, fn)

    def random(self, name, fn, why):
        self.stubs.append((np.random, name, getattr(np.random, name)))
        setattr(np.random, name, fn)

    # inputs
    def dim(self, name, lo=1):
        v = self.t_.i(lo, max(lo, self.hi))
        self.t_.info[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        lo = -3 if lo is None else int(lo)
        hi = lo + 3 if hi is None else int(hi)
        if hi < lo:
            raise Skip()
        v = self.t_.i(lo, hi)
        self.t_.info[name] = v
        return v

    def consider(self, i):
        pass

    def carried(self, fn):
        pass

    def fill(self, pl, lo, hi, fn):
        for i in range(int(lo), int(hi)):
            x = fn(i)
            pl[i] = x.copy() if isinstance(x, np.ndarray) else x

    def spec(self, name, fn):
        pass

    def t(self, name, *dims, **k):
        dims = [int(d) for d in dims]
        x = (self.t_.real(*dims) if k.get("real") else self.t_.c(*dims)) if dims else self.scalar(name, k.get("real"))
        if not dims:
            return x
        if k.get("herm"):
            x = (x + x.conj().T) / 2
        x = lib.structured(self.t_, np.array(x, dtype=float if k.get("real") else complex), herm=k.get("herm"))
        if self.mix == 2 and not k.get("complex") and self.t_.flag(0.2):
            x = np.array(x.real)
        if not k.get("complex"):
            x = lib.layout(self.t_, x, self.mix or name in ("o", "op"))
        if k.get("frame", True):
            self.inputs.append((name, x, x.copy()))
        return x

    def scalar(self, name, real=False):
        return float(self.t_.real(1)[0]) if real else complex(self.t_.c(1)[0])

    def herm(self, name, d):
        return self.t(name, d, d, herm=True)

    def undef(self, *dims, **k):
        """uninitialised output array, of the element type of the product of `like`"""
        x = np.array(self.t_.c(*[int(d) for d in dims]))
        if "like" in k and not any(np.issubdtype(y.dtype, np.complexfloating) for y in k["like"]):
            x = np.array(x.real)
        return x

    def choice(self, name, *opts):
        v = self.t_.pick(*opts)
        self.t_.info[name] = repr(v)[:60]
        return v

    def assume(self, b):
        if not bool(b):
            raise Skip()

    def nonzero(self, x):
        if not abs(x) > 1e-6:
            raise Skip()

    def cases(self, b):
        return bool(b)

    def count(self, mask):
        return int(np.count_nonzero(mask))

    def ones_where(self, mask):
        return np.where(mask, 1.0, 0.0)

    def positive_definite(self, m):
        w = np.linalg.eigvalsh(dn(m))
        if len(w) and abs(w).min() < 1e-11 * max(1.0, abs(w).max()):
            raise Skip()        # round-off decides
        try:
            la.cholesky(dn(m))
            return True
        except la.LinAlgError:
            return False

    def fn_op(self, name, *dims):
        a = self.t(name, *dims)

        def f(*idx):
            return a[tuple(int(i) for i in idx)]
        f.tensor = a
        return f

    def tp_op(self, name, m, d1, d2):
        U, W = self.t(name + "_1", m, d1, d1), self.t(name + "_2", m, d2, d2)
        return [[U[i].copy(), W[i].copy()] for i in range(m)], U, W

    # chains and objects
    def dims(self, name, lo=1):
        memo = {}

        def f(i):
            i = int(i)
            if i not in memo:
                memo[i] = self.t_.i(lo, max(lo, self.hi))
            return memo[i]
        f.memo = memo
        return f

    def fix(self, f, i, val):
        f.memo[int(i)] = int(val)

    def family(self, name, dims, **k):
        memo = {}

        def f(i):
            i = int(i)
            if i not in memo:
                memo[i] = self.t("%s[%d]" % (name, i), *dims(i), **k)
            return memo[i]
        return f

    def which(self, x, fam, label, n):
        x = dn(x)
        like = [i for i in range(int(n)) if np.shape(dn(fam(i))) == np.shape(x) and (not np.size(x) or np.abs(dn(fam(i)) - x).max() < 1e-9)]
        self.true(label, like, "no such tensor")
        if len(like) > 1:
            raise Skip()
        return like[0]

    def match(self, x, fam, want, label, lo, hi):
        like = []
        for i in range(int(lo), int(hi)):
            w = dn(want(i))
            if np.shape(w) == np.shape(dn(x)) and (not np.size(w) or np.abs(w - dn(x)).max() < 1e-9):
                like.append(i)
        self.true(label, like, "no such value")
        if len(like) > 1:
            raise Skip()
        return like[0]

    def phase(self, p):
        return np.exp(1j * p)

    def sqrt(self, x):
        return np.sqrt(dn(x) + 0j)

    def list(self, n, base, name=None, cyclic=False):
        r = np.empty(int(n), dtype=object)
        for i in range(int(n)):
            x = base(i)
            r[i] = x.copy() if isinstance(x, np.ndarray) else x
        return r

    def plain(self, x):
        return list(x)

    def file(self):
        return File.new()

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        self.made.add(cls.__name__)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def ghost(self, name, dims, first, init, step, lists=()):
        memo = {} if callable(first) else {int(first): init}

        def g(i):
            i = int(i)
            if i not in memo:
                memo[i] = init(i) if callable(first) and first(i) else step(g, i)
            return memo[i]
        return g

    def fold(self, step, init, dims, lo, hi, up=True, peel=False):
        ks = range(int(lo), int(hi))
        z = dn(init)
        for k in (ks if up else reversed(ks)):
            z = step(k, z)
        return z

    def sum(self, fn, lo, hi, ends=None):
        return sum((dn(fn(k)) for k in range(int(lo), int(hi))), 0)

    # specification
    def einsum(self, spec, *ops):
        return np.einsum(spec, *[dn(o) for o in ops], optimize=len(ops) > 2)

    def eye(self, d):
        return np.eye(int(d), dtype=complex)

    def unit(self, d, i):
        return np.eye(int(d), dtype=complex)[int(i)]

    def len(self, x):
        return len(x)

    def dense(self, x):
        return dn(x)

    def reshape(self, x, s):
        return dn(x).reshape(s)

    def zeros(self, *s):
        return np.zeros(s, dtype=complex)

    # obligations
    def eq(self, label, got, want, tol=1e-9, **k):
        self.t_.close(label, got, want, tol)

    def true(self, label, cond, detail=""):
        self.t_.true(label, bool(cond), str(detail)[:300])

    def is_(self, label, a, b):
        self.t_.true(label, a is b, "%r is not %r" % (type(a), type(b)))

    def raises(self, label, fn, *a):
        self.t_.raises(label, fn, *a)

    def frame(self, label="arguments are left unchanged", skip=()):
        for name, a, v in self.inputs:
            if name not in skip:
                self.t_.close("%s: %s" % (label, name), a, v, 0)

    def assumed(self, text):
        pass


def register(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not os.path.exists(os.path.join(here, "contracts", prop.lower() + ".py")):
        return
    m = importlib.import_module("contracts." + prop.lower())
    for name, fn in m.FUNCS.items():
        def run(t, fn=fn):
            V = NumV(t)
            try:
                fn(V)
            except AttributeError as e:
                # an attribute that this contract's object was not given: nothing is known
                m = re.match(r"'(\w+)' object has no attribute", str(e))
                if m and m.group(1) in V.made:
                    raise lib.Skip()
                raise
            finally:
                for m, a, old in reversed(V.stubs):
                    setattr(m, a, old)
        run.__name__ = "contract_" + name
        run.modular = getattr(fn, "modular", False)
        lib.CASES.setdefault(prop, []).append(("contract:" + name, run, 1))
