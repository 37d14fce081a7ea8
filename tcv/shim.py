"""Symbolic stand-ins for numpy, scipy and scipy.linalg.

Every function is exact over the complex numbers.  LAPACK-type functions are *assumed contracts*: they return fresh
symbols together with rewrite rules stating what the library promises (recorded in ctx().assumed)."""
import types
from fractions import Fraction as Fr
from . import net, arr, sint
from .net import Val, Sym, Ix, Cn, Rule, Fac, Term, ONE
from .arr import Arr, COMPLEX, FLOAT, INT, DType, is_num
from .sint import SInt, SBool, Unsupported, SymRaise, ctx, norm, simp


class IntArr(list):
    """1-d integer array (dimension lists)"""
    @property
    def shape(self):
        return (len(self),)
    ndim = 1
    dtype = INT
    size = property(lambda s: len(s))

    def _b(self, o, f):
        if isinstance(o, (list, tuple)):
            return IntArr([f(a, b) for a, b in zip(self, o)])
        return IntArr([f(a, o) for a in self])

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __mod__(self, o):
        return self._b(o, lambda a, b: a % b)

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return IntArr(r) if isinstance(k, slice) else r

    def copy(self):
        return IntArr(self)

    def sum(self):
        r = 0
        for x in self:
            r = r + x
        return r

    def max(self):
        return max(self)

    def min(self):
        return min(self)


def unsupported(name):
    def f(*a, **k):
        raise Unsupported("library function %s" % name)
    f.__name__ = name
    f.tcv_unsupported = True
    return f


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return unsupported("%s.%s" % (self.__name__, n))


def dt_of(dtype):
    if dtype is None:
        return FLOAT
    if isinstance(dtype, DType):
        return dtype
    if dtype in (complex, "complex128"):
        return COMPLEX
    return FLOAT


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def zeros(s, dtype=None, order=None):
    s = shp(s)
    from .load import S_INT
    if len(s) == 1 and any(dtype is x for x in (INT, int, S_INT)):
        from .loops import PList
        n = norm(SInt.of(s[0]))
        # an integer array: sizes and positions
        if n.is_const():
            return IntArr([0] * n.const())
        r = PList.symbolic_list(n, lambda i: 0)
        r.arr = True
        return r
    return Arr(Val.zero(s), dt_of(dtype))


def empty(s, dtype=None, order=None):
    if dtype is ndarray or dtype is object:
        s = shp(s)
        if len(s) != 1:
            raise Unsupported("object array of several axes")
        from .loops import PList
        n = norm(SInt.of(s[0]))
        r = PList([None] * n.const()) if n.is_const() else PList.symbolic_list(n, lambda i: None)
        r.arr = True
        return r
    s = shp(s)
    if any(not isinstance(d, SInt) and d == 0 for d in s):
        return Arr(Val.zero(s), dt_of(dtype))
    a = arr.undef(s)
    a.dt = dt_of(dtype)
    return a


def ones(s, dtype=None, order=None):
    return Arr(Val.ones(shp(s)), dt_of(dtype))


def full(s, x, dtype=None, order=None):
    if x is NAN:
        return empty(s, dtype)      # to be filled before it is used
    return ones(s) * x


def zeros_like(a, dtype=None, order=None):
    return zeros(_shape(a), dtype or getattr(a, "dt", None))


def _shape(a):
    from .loops import PList
    if isinstance(a, PList) and not a.arr:
        n = a.length()
        x = [a[0]]
        if bool(n != 1):
            # equally shaped arrays only
            k = sint.ctx().fresh("sh")
            with sint.ctx().generic((k, 0, n)):
                x.append(a[norm(k)])
        if not all(isinstance(y, Arr) for y in x) or not all(
                len(y.shape) == len(x[0].shape) and all(sint.known(sint.cmp_("==", SInt.of(d), SInt.of(e))) for d, e in zip(y.shape, x[0].shape))
                for y in x):
            raise Unsupported("shape of a list")
        return (n,) + tuple(x[0].shape)
    if hasattr(a, "shape"):
        return tuple(a.shape)
    return tuple(Arr.of(a).shape)


def size_(a):
    r = 1
    for d in _shape(a):
        r = r * d
    return r


class IntMat(IntArr):
    """2-d integer array, given by its rows"""
    @property
    def shape(self):
        return (len(self), len(list.__getitem__(self, 0)))
    ndim = 2

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and not any(isinstance(x, slice) for x in k):
            return list.__getitem__(list.__getitem__(self, k[0]), k[1])
        if isinstance(k, int):
            return list.__getitem__(self, k)
        raise Unsupported("index into an integer matrix")

    def _b(self, o, f):
        raise Unsupported("arithmetic of integer matrices")

    def copy(self):
        return IntMat(IntArr(x) for x in self)


# --------------------------------------------------------------------------------------------------- files
class File(object):
    """ghost file: what was written, as a value of its own"""
    tcv_written = None

    def rewind(self):
        pass


def deep(x):
    """the value of x on storage of its own (what reading back a pickle gives)"""
    from .loops import PList
    if x is None or isinstance(x, (Obj0, int, float, complex, str, bool, SInt)):
        return x
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, IntArr):
        return x.copy()
    if isinstance(x, PList):
        if x.symbolic():
            y = x.copy()

            def base(i):
                return deep(y[i])
            base.cyclic = getattr(x.sym[1], "cyclic", False)
            r = PList.symbolic_list(x.length(), base)
        else:
            r = PList([deep(y) for y in x])
        r.arr = x.arr
        return r
    if hasattr(x, "__dict__") and type(x).__name__ in ("eyemat", "simple_diag_matrix"):
        o = type(x).__new__(type(x))
        for k, v in x.__dict__.items():
            o.__dict__[k] = v if callable(v) or isinstance(v, tuple) or not isinstance(v, (Arr, PList)) else deep(v)
        return o
    raise Unsupported("a %s written to a file" % type(x).__name__)


def save(file, x, *a, **k):
    from .loops import PList
    if not isinstance(file, File) or a or k:
        raise Unsupported("save")
    if not isinstance(x, Arr) and not getattr(x, "arr", False):
        raise Unsupported("save of a list")
    file.tcv_written = deep(x)


def load(file, mmap_mode=None, allow_pickle=False, **k):
    if not isinstance(file, File) or mmap_mode is not None or k or file.tcv_written is None:
        raise Unsupported("load")
    if not isinstance(file.tcv_written, Arr) and not allow_pickle:
        raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
    return deep(file.tcv_written)


def empty_like(a, dtype=None, order=None):
    from .loops import PList
    if isinstance(a, PList) and dtype is None:
        # an object array, unless it holds numbers
        x = a[norm(SInt.of(a.length()) - 1)]
        if x is None or isinstance(x, Arr):
            return empty((a.length(),), object)
        raise Unsupported("empty_like of a list")
    return empty(_shape(a), dtype or getattr(a, "dt", None))


def ones_like(a, dtype=None, order=None):
    return ones(_shape(a), dtype)


def eye(n, m=None, dtype=None, k=0):
    if m is not None and not (m is n or bool(sint.cmp_("==", SInt.of(m), SInt.of(n)))):
        raise Unsupported("rectangular eye")
    if k != 0:
        raise Unsupported("eye offset")
    return Arr(Val.eye(SInt.of(n)), dt_of(dtype))


def _is_intlist(x):
    if getattr(x, "sym", None) is not None:
        return False
    return isinstance(x, (list, tuple)) and len(x) > 0 and all(
        isinstance(y, (int, SInt)) and not isinstance(y, bool) for y in x)


class Obj0(object):
    """array without axes that holds None"""
    shape = ()


def asarray(x, dtype=None, order=None, copy=False, **k):
    if isinstance(x, Arr):
        return x
    if isinstance(x, IntArr):
        return x
    if _is_intlist(x) and dtype is None:
        return IntArr(x)
    if hasattr(x, "tcv_asarray"):
        return x.tcv_asarray()
    if x is None and dtype is None:
        return Obj0()
    return Arr.of(x)


def array(x, dtype=None, order=None, copy=True, ndmin=0, **k):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, IntArr):
        return x.copy()
    if getattr(x, "sym", None) is not None and isinstance(x, list) and dtype is None and isinstance(x[0], (int, SInt)):
        x = x.copy()
        x.arr = True
        return x
    if _is_intlist(x) and dtype is None:
        return IntArr(x)
    if getattr(x, "sym", None) is None and isinstance(x, list) and len(x) and all(_is_intlist(y) and len(y) == len(x[0]) for y in x):
        return IntMat(IntArr(y) for y in x)
    if hasattr(x, "tcv_asarray"):
        return x.tcv_asarray().copy()
    return Arr.of(x).copy()


def dot(a, b, out=None):
    r = arr.dot(a, b)
    if out is not None:
        return _to_out(r, out)
    return r


def _to_out(r, out):
    arr.check_shape_equal(out.shape, r.shape, "output array")
    out[...] = r
    return out


def multiply(a, b, out=None, **k):
    r = Arr.of(a) * Arr.of(b)
    return r if out is None else _to_out(r, out)


def add_(a, b, out=None, **k):
    r = Arr.of(a) + Arr.of(b)
    return r if out is None else _to_out(r, out)


def conjugate(a, out=None):
    if not isinstance(a, Arr) and hasattr(a, "conj"):
        r = a.conj()
    else:
        r = Arr.of(a).conj()
    return r if out is None else _to_out(r, out)


def inner(a, b):
    a, b = Arr.of(a), Arr.of(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return Arr(arr.contract(a.v, b.v, [(a.ndim - 1, b.ndim - 1)]))


def vdot(a, b):
    return inner(Arr.of(a).ravel().conj(), Arr.of(b).ravel())


def trace(a):
    return a.trace()


def diag(a):
    a = Arr.of(a)
    if a.ndim == 1:
        return Arr(net.diag_mat(a.v), a.dt)
    return a.diagonal()


def transpose(a, axes=None):
    if axes is None:
        return a.T
    return a.transpose(axes)


def reshape(a, s, order="C"):
    return Arr.of(a).reshape(s)


def kron(a, b):
    a, b = Arr.of(a), Arr.of(b)
    v = net.product(a.v, b.v)
    n = a.ndim
    r = Arr(v.transpose([x for i in range(n) for x in (i, n + i)]))
    return r.reshape([x * y for x, y in zip(a.shape, b.shape)])


def isscalar(x):
    if isinstance(x, Arr):
        return x.ndim == 0
    return is_num(x)


def sum_(a, axis=None):
    if hasattr(a, "tcv_sum"):
        return a.tcv_sum()
    return Arr.of(a).sum(axis)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def cumprod(xs):
    out = IntArr()
    r = 1
    for x in xs:
        r = r * x
        out.append(r)
    return out


def all_(x, *a, **k):
    if isinstance(x, (list, tuple)):
        return all(bool(y) for y in x)
    if isinstance(x, (bool, SBool)):
        return x
    return x.all()


def any_(x, *a, **k):
    if isinstance(x, (list, tuple)):
        return any(bool(y) for y in x)
    if isinstance(x, (bool, SBool)):
        return x
    return x.any()


def allclose(a, b, *r, **k):
    """opaque: nothing is known about the outcome (except when both sides are identical)"""
    a, b = Arr.of(a), Arr.of(b)
    d = arr.badd(a.v, b.v.scale(-1))
    kk = net.canon(d)
    if not kk:
        return True
    return ctx().opaque_bool(("allclose", tuple(sorted((x, net.cstr(c)) for x, c in kk.items()))))


def promote_types(a, b):
    return COMPLEX if COMPLEX in (a, b) else FLOAT


class FInfo(object):
    """machine epsilon is an opaque positive number"""
    def __init__(self, dt=None):
        pass

    @property
    def eps(self):
        return Arr(Val.of_sym(Sym("eps_mach", (), (), real=True)))

    resolution = eps
    tiny = eps


def make_opmat(fn, shape, vec):
    """sp.fromfunction(sp.vectorize(fn), shape)"""
    shape = shp(shape)
    idx = []
    for d in shape:
        idx.append(ctx().fresh("fi"))
    with ctx().generic(*[(i, 0, d) for i, d in zip(idx, shape)]):
        v = Arr.of(fn(*idx)).v
    # replace positions by free indices
    axes = []
    mp = {}
    for i, d in zip(idx, shape):
        a = net.axis_for(d)
        axes.append(a)
        (name,) = i.vars()
        mp[name] = (a, SInt.of(d))
    v = net.positions_to_indices(v, mp)
    return Arr(Val(axes, v.terms).reduce())


class Vectorized(object):
    def __init__(self, fn, otypes=None, **k):
        self.fn = fn

    def __call__(self, *a):
        raise Unsupported("vectorized call")


def fromfunction(f, shape, **k):
    if isinstance(f, Vectorized):
        f = f.fn
    return make_opmat(f, shape, True)


def arange(*a, **k):
    if all(isinstance(x, int) for x in a):
        return IntArr(range(*a))
    from .loops import ARange
    if len(a) == 1:
        return ARange(0, a[0])
    if len(a) == 2 or (len(a) == 3 and a[2] in (1, -1)):
        return ARange(*a)
    raise Unsupported("arange")


def asscalar(x):
    if isinstance(x, Arr):
        for d in x.v.shape():
            if not bool(sint.cmp_("==", SInt.of(d), SInt.of(1))):
                raise SymRaise("can only convert an array of size 1 to a scalar")
        return x[(0,) * x.ndim].copy()
    return x


def count_nonzero(x):
    if isinstance(x, arr.SBoolArr):
        return x.count()
    raise Unsupported("count_nonzero")


def argwhere(x):
    from . import loops
    if isinstance(x, loops.PList) and x.arr:
        return loops.NonZero(x)
    raise Unsupported("argwhere")


def invert(x):
    return ~x


def exp(x):
    return arr.scalfun("exp", x)


def hyp(name):
    def f(x):
        return arr.scalfun(name, x)
    return f


def fill_diagonal(a, x):
    v = a.v
    d = net.diag_mat(net.diag_part(v))
    d2 = net.diag_mat(arr.broadcast_to(Arr.of(x).v, [a.shape[0]]))
    a.put(net.add(net.add(v, d.scale(-1)), d2))


def concatenate(xs, axis=0):
    xs = [Arr.of(x) for x in xs]
    tot = 0
    for x in xs:
        tot = tot + x.shape[axis]
    s = list(xs[0].shape)
    s[axis] = tot
    out = zeros(s)
    off = 0
    for x in xs:
        key = [slice(None)] * len(s)
        key[axis] = slice(off, off + x.shape[axis])
        out[tuple(key)] = x
        off = off + x.shape[axis]
    return out


def append(a, b, axis=None):
    a, b = Arr.of(a), Arr.of(b)
    if axis is None:
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("append of arrays that are not vectors")
        axis = 0
    return concatenate([a, b], axis)


def hstack(xs):
    xs = [Arr.of(x) for x in xs]
    return concatenate(xs, 1 if xs[0].ndim > 1 else 0)


def vstack(xs):
    return concatenate(xs, 0)


# ------------------------------------------------------------------------------------------- assumed contracts

def fresh_sym(name, dims, **k):
    return Sym("%s#%d" % (name, ctx().fresh_id()), (), dims, **k)


def norm_fro(x, *a, **k):
    if a or any(y is not None and y != "fro" for y in k.values()):
        if a not in ((None,), ("fro",)):
            raise Unsupported("norm with ord")
    x = Arr.of(x)
    return arr.sqrt(Arr(vdot(x, x).v))


def inv(a, *r, **k):
    a = Arr.of(a)
    n, m = a.shape
    arr.check_shape_equal((n,), (m,), "inv")
    return matinv(a)


def matinv(a):
    """inverse of a matrix symbol: X with X M = M X = 1 (assumed to exist)"""
    c = ctx()
    c.assumed.add("scipy.linalg.inv returns the exact inverse (matrix assumed invertible)")
    v = net.collect(net.normalise(net.drop_ones(a.v)))
    key = "minv<%s>" % arr.canon_str(v)
    cache = c.hooks.setdefault("minv", {})
    d = a.shape[0]
    if key not in cache:
        cache[key] = v
        # only single-factor matrices get direct cancellation; otherwise X is opaque with expansion through a name
        if len(v.terms) == 1 and len(v.terms[0].fs) == 1 and v.terms[0].c == ONE:
            f = v.terms[0].fs[0]
            t = f.args[0] == v.axes[1]
            add_inverse_rules(f.sym.name, key, f.conj, t)
            L, w, lower = c.hooks.get("chol", {}).get(f.sym.name, (None, None, None))
            if w is not None and not f.conj and not t:
                # m = L L^dagger: L^-1 m = L^dagger, m L^-dagger = L;  m = L^dagger L: m L^-1 = L^dagger, L^-dagger m = L
                if lower:
                    c.rules.append(NetRule(w, 0, key, False, 1, lambda o, y: [net.Fac(L, True, (o, y))]))
                    c.rules.append(NetRule(w, 1, key, True, 1, lambda o, y: [net.Fac(L, False, (o, y))]))
                else:
                    c.rules.append(NetRule(w, 1, key, False, 0, lambda o, y: [net.Fac(L, True, (y, o))]))
                    c.rules.append(NetRule(w, 0, key, True, 0, lambda o, y: [net.Fac(L, False, (y, o))]))
        else:
            c.hooks.setdefault("minv_def", {})[key] = v
            c.rules.append(MinvRule(key, v))
    return Arr(Val.of_sym(Sym(key, (), (d, d))))


class MinvRule(object):
    """X (sum of terms) = 1 for an inverse of a composite matrix made of one product of square matrices"""

    def __init__(self, name, v):
        self.name, self.v = name, v

    def apply(self, t, free):
        return None


def add_inverse_rules(m, x, conj=False, trans=False):
    """rules x m = m x = 1 where m is a matrix symbol (conj / transposed as told)"""
    c = ctx()

    def one(b, syms):
        return [(ONE, net.deltas_of(b["X"], b["Y"]))]
    a = ["k", "Y"] if not trans else ["Y", "k"]
    b = ["X", "k"] if not trans else ["k", "X"]
    for cj in (False, True):
        c.rules.append(Rule("inv", [(x, cj, ["X", "k"]), (m, cj != conj, a)], one))
        c.rules.append(Rule("inv", [(m, cj != conj, b), (x, cj, ["k", "Y"])], one))


def isometry_rules(qn, rows_summed=True):
    """Q^dagger Q = 1"""
    def one(b, syms):
        return [(ONE, net.deltas_of(b["X"], b["Y"]))]
    ctx().rules.append(Rule("iso", [(qn, True, ["k", "X"]), (qn, False, ["k", "Y"])], one))


def unitary_rules(qn):
    isometry_rules(qn)

    def one(b, syms):
        return [(ONE, net.deltas_of(b["X"], b["Y"]))]
    ctx().rules.append(Rule("coiso", [(qn, True, ["X", "k"]), (qn, False, ["Y", "k"])], one))


def repeat(a, n, axis=None):
    if isinstance(a, (list, tuple)) and len(a) == 1 and isinstance(a[0], (int, SInt)) and isinstance(n, (int, SInt)):
        from .loops import PList
        r = PList.symbolic_list(SInt.of(n), lambda i: a[0])
        r.arr = True
        return r
    raise Unsupported("repeat")


def _least(x, y, sign):
    b = sint.cmp_("<=", SInt.of(x), SInt.of(y))
    return (x if bool(b) else y) if sign < 0 else (y if bool(b) else x)


def _extreme(sign):
    def f(a, b):
        from .loops import PList
        if isinstance(b, PList):
            a, b = b, a
        if isinstance(a, PList) and a._ints(b):
            return a._elementwise(b, lambda x, y: _least(x, y, sign))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return _least(a, b, sign)
        raise Unsupported("minimum")
    return f


def minimum_dim(a, b):
    if bool(sint.cmp_("<=", SInt.of(a), SInt.of(b))):
        return a
    return b


def qr(a, overwrite_a=False, mode="full", pivoting=False, check_finite=True, **k):
    if pivoting:
        raise Unsupported("pivoted qr")
    a = Arr.of(a)
    c = ctx()
    c.assumed.add("scipy.linalg.qr: A = Q R with Q^dagger Q = 1 (R upper triangular, not used)")
    m, n = a.shape
    kdim = minimum_dim(m, n) if mode == "economic" else m
    if mode not in ("economic", "full"):
        raise Unsupported("qr mode %r" % mode)
    if mode == "full" and kdim is not n and bool(sint.cmp_("<", SInt.of(n), SInt.of(m))):
        return qr_tall(a)
    Q = fresh_sym("Q", (m, kdim))
    R = fresh_sym("R", (kdim, n))
    isometry_rules(Q.name)
    if mode == "full" or (kdim is m):
        unitary_rules(Q.name)
    c.rules.append(ProductRule([(Q.name, False, ["X", "k"]), (R.name, False, ["k", "Y"])], a.v))
    return Arr(Val.of_sym(Q)), Arr(Val.of_sym(R))


def qr_tall(a):
    """full factorisation of an m x n matrix, n < m: Q = [Q1 Q2] unitary, R = [R1; 0]"""
    c = ctx()
    c.assumed.add("scipy.linalg.qr of a tall matrix: the rows of R below the square are zero")
    m, n = [SInt.of(x) for x in a.shape]
    v = net.collect(net.normalise(net.drop_ones(a.v)))
    if len(v.terms) != 1 or v.terms[0].dims:
        raise Unsupported("full qr of a sum")
    Q1, Q2 = fresh_sym("Qrange", (m, n)), fresh_sym("Qnull", (m, m - n))
    R1 = fresh_sym("R", (n, n))
    isometry_rules(Q1.name)
    isometry_rules(Q2.name)
    for x, y in ((Q1, Q2), (Q2, Q1)):
        c.rules.append(Rule("orth", [(x.name, True, ["k", "X"]), (y.name, False, ["k", "Y"])], lambda b, syms: []))
    c.rules.append(ProdRule([(Q1.name, False, ["X", "k"]), (R1.name, False, ["k", "Y"])], a.v))
    c.rules.append(NullRule(Q2.name, v))
    i1 = Val.of_sym(arr.inc_sym(SInt.of(0), n, m))
    i2 = Val.of_sym(arr.inc_sym(n, norm(m - n), m))
    Q = net.add(net.product(Val.of_sym(Q1), i1, [(1, 1)]), net.product(Val.of_sym(Q2), i2, [(1, 1)]))
    R = net.product(i1, Val.of_sym(R1), [(1, 0)])
    return Arr(Q), Arr(R)


class NullRule(object):
    """sum_X v[X, Y] conj(Q[X, k]) = 0 for a matrix v that is one network of factors"""
    name = "null"

    def __init__(self, qname, v):
        self.q, self.v = qname, v

    def apply(self, t, free):
        for k, f in enumerate(t.fs):
            if f.sym is net.DELTA or f.sym.name != self.q:
                continue
            if len(f.args[0]) != len(self.v.axes[0]):
                continue
            bind = dict(zip(self.v.axes[0], f.args[0]))
            if self.match(t, free, list(self.v.terms[0].fs), not f.conj, bind, [k]):
                return []
        return None

    def match(self, t, free, want, cj, bind, used):
        if not want:
            return self.inner(t, free, bind, used)
        g = want[0]
        for i, h in enumerate(t.fs):
            if i in used or h.sym is net.DELTA or h.sym.name != g.sym.name or len(h.args) != len(g.args):
                continue
            if not all(net.canon_param(x) == net.canon_param(y) for x, y in zip(h.sym.params, g.sym.params)):
                continue
            flip = False
            if not h.sym.real and h.conj != (g.conj != cj):
                if not h.sym.herm:
                    continue
                flip = True
            for ha in ((h.args[::-1],) if flip else (h.args, h.args[::-1]) if h.sym.herm and h.sym.real else (h.args,)):
                new = dict(bind)
                if all(self.same(new, x, y) for x, y in zip(g.args, ha)) and \
                        self.match(t, free, want[1:], cj, new, used + [i]):
                    return True
        return False

    def same(self, bind, x, y):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if not isinstance(p, net.Ix):
                if isinstance(q, net.Ix) or not net.same_arg((p,), (q,)):
                    return False
            elif p in bind:
                if not net.same_arg((bind[p],), (q,)):
                    return False
            else:
                bind[p] = q
        return True

    outer_axis = 1
    shared = frozenset()

    def inner(self, t, free, bind, used):
        outer = set(self.v.axes[self.outer_axis]) | self.shared
        vals = [bind[p] for p in bind if p not in outer]
        if any(not isinstance(q, net.Ix) or q in free for q in vals) or len(set(map(id, vals))) != len(vals):
            return False
        us = set(used)
        ids = set(map(id, vals))
        if any(id(bind[p]) in ids for p in outer if p in bind):
            return False
        return not any(id(q) in ids for i, h in enumerate(t.fs) if i not in us for q in h.parts())


class NetRule(NullRule):
    """a matrix v that is one network of factors, or its conjugate, times a symbol: sum_X v[.., X] c[X, Y] is rhs"""
    name = "net"

    def __init__(self, v, axis, cname, conj, pos, rhs):
        self.v, self.axis, self.cname, self.cconj, self.pos, self.rhs = v, axis, cname, conj, pos, rhs
        self.outer_axis = 1 - axis

    def apply(self, t, free):
        for k, f in enumerate(t.fs):
            if f.sym is net.DELTA or f.sym.name != self.cname:
                continue
            a, o = self.v.axes[self.axis], self.v.axes[1 - self.axis]
            if len(a) != len(f.args[self.pos]):
                continue
            self.found = None
            cj = f.conj != self.cconj
            if self.match(t, free, list(self.v.terms[0].fs), cj, dict(zip(a, f.args[self.pos])), [k]):
                bind, used = self.found
                rest = tuple(g for i, g in enumerate(t.fs) if i not in used)
                new = [net.Fac(x.sym, x.conj != cj, x.args) for x in self.rhs(tuple(bind[x] for x in o), f.args[1 - self.pos])]
                return [net.Term(t.c, rest + tuple(new), t.dims)]
        return None

    def inner(self, t, free, bind, used):
        if any(p not in bind for p in self.v.axes[1 - self.axis]) or not NullRule.inner(self, t, free, bind, used):
            return False
        self.found = dict(bind), list(used)
        return True


def one_network(v):
    """v as one product of factors (for NetRule), or None"""
    v = net.collect(net.normalise(net.drop_ones(v)))
    if len(v.terms) != 1 or v.terms[0].dims or v.terms[0].c != ONE or v.terms[0].fs == ():
        return None
    if any(f.sym is net.DELTA for f in v.terms[0].fs):
        return None
    return v


def ProductRule(pattern, v):
    """product of fresh symbols equals a known matrix value (axes X, Y), and the conjugate"""
    return ProdRule(pattern, v)


class ProdRule(object):
    name = "prod"

    def __init__(self, pattern, v):
        self.v = v
        self.rules = []
        for cj in (False, True):
            pat = [(n, bool(c) != cj, a) for n, c, a in pattern]
            self.rules.append((net.Rule("prod", pat, self._rhs(cj)), cj))

    def _rhs(self, cj):
        def rhs(b, syms):
            # placeholder factor, expanded afterwards
            v = self.v.conj() if cj else self.v
            return net.instantiate(v, [b["X"], b["Y"]])
        return rhs

    def apply(self, t, free):
        for r, cj in self.rules:
            x = r.apply(t, free)
            if x is not None:
                return x
        return None


def eigh(a, *r, **k):
    if r or any(kk not in ("overwrite_a", "check_finite", "lower", "turbo") for kk in k):
        raise Unsupported("eigh options")
    a = Arr.of(a)
    c = ctx()
    c.assumed.add("scipy.linalg.eigh: A = U diag(w) U^dagger for Hermitian A, U unitary, w real and ascending")
    key = arr.canon_str(a.v)
    cache = c.hooks.setdefault("eigh", {})
    if key not in cache:
        n = a.shape[0]
        U = fresh_sym("U", (n, n))
        w = fresh_sym("w", (n,), real=True)
        unitary_rules(U.name)
        c.rules.append(ProdRule([(U.name, False, ["X", "k"]), (w.name, False, ["k"]), (U.name, True, ["Y", "k"])], a.v))
        v = net.collect(net.normalise(net.drop_ones(a.v)))
        if len(v.terms) == 1 and len(v.terms[0].fs) == 1 and v.terms[0].c == ONE and not v.terms[0].dims:
            f = v.terms[0].fs[0]
            if not f.sym.params and len(f.args) == 2 and f.args == tuple(v.axes):
                # A U = U w,  U^dagger A = w U^dagger
                c.rules.append(Rule("eig", [(f.sym.name, f.conj, ["X", "k"]), (U.name, False, ["k", "Y"])],
                                    lambda b, syms: [(ONE, [net.Fac(U, False, (b["X"], b["Y"])), net.Fac(w, False, (b["Y"],))])]))
                c.rules.append(Rule("eig", [(f.sym.name, f.conj, ["k", "X"]), (U.name, True, ["k", "Y"])],
                                    lambda b, syms: [(ONE, [net.Fac(U, True, (b["X"], b["Y"])), net.Fac(w, False, (b["Y"],))])]))
        elif one_network(v) is not None:
            eig = lambda o, y: [net.Fac(U, False, (o, y)), net.Fac(w, False, (y,))]
            c.rules.append(NetRule(v, 1, U.name, False, 0, eig))
            c.rules.append(NetRule(v, 0, U.name, True, 0, lambda o, y: [net.Fac(U, True, (o, y)), net.Fac(w, False, (y,))]))
        cache[key] = (U, w)
        c.hooks.setdefault("sorted", {})[w.name] = "up"
    U, w = cache[key]
    return Arr(Val.of_sym(w)), Arr(Val.of_sym(U))


def svd(a, full_matrices=True, compute_uv=True, **k):
    a = Arr.of(a)
    c = ctx()
    c.assumed.add("scipy.linalg.svd: A = U diag(s) V with U^dagger U = 1 = V V^dagger, s real, descending")
    m, n = [SInt.of(x) for x in a.shape]
    cache = c.hooks.setdefault("svd", {})
    key = (arr.canon_str(a.v), bool(full_matrices))
    if key not in cache:
        kd = SInt.of(minimum_dim(m, n))
        U = fresh_sym("Us", (m, kd))
        s = fresh_sym("sv", (kd,), real=True)
        c.hooks.setdefault("sorted", {})[s.name] = "down"
        V = fresh_sym("Vs", (kd, n))
        isometry_rules(U.name)
        c.rules.append(Rule("coiso", [(V.name, False, ["X", "k"]), (V.name, True, ["Y", "k"])], _delta))
        if net.same_dim(kd, m):
            c.rules.append(Rule("coiso", [(U.name, True, ["X", "k"]), (U.name, False, ["Y", "k"])], _delta))
        if net.same_dim(kd, n):
            c.rules.append(Rule("iso", [(V.name, True, ["k", "X"]), (V.name, False, ["k", "Y"])], _delta))
        c.rules.append(ProdRule([(U.name, False, ["X", "k"]), (s.name, False, ["k"]), (V.name, False, ["k", "Y"])], a.v))
        Uv, Vv = Val.of_sym(U), Val.of_sym(V)
        if full_matrices and not (net.same_dim(m, n) or bool(sint.cmp_("==", m, n))):
            # the vectors beyond the smaller dimension
            d = m if net.same_dim(kd, n) else n
            i1 = Val.of_sym(arr.inc_sym(SInt.of(0), kd, d))
            i2 = Val.of_sym(arr.inc_sym(kd, norm(d - kd), d))
            if net.same_dim(kd, n):
                W = fresh_sym("Unull", (m, m - n))
                isometry_rules(W.name)
                for x, y in ((U, W), (W, U)):
                    c.rules.append(Rule("orth", [(x.name, True, ["k", "X"]), (y.name, False, ["k", "Y"])], lambda b, syms: []))
                Uv = net.add(net.product(Uv, i1, [(1, 1)]), net.product(Val.of_sym(W), i2, [(1, 1)]))
            else:
                W = fresh_sym("Vnull", (n - m, n))
                c.rules.append(Rule("coiso", [(W.name, False, ["X", "k"]), (W.name, True, ["Y", "k"])], _delta))
                for x, y in ((V, W), (W, V)):
                    c.rules.append(Rule("orth", [(x.name, False, ["X", "k"]), (y.name, True, ["Y", "k"])], lambda b, syms: []))
                Vv = net.add(net.product(i1, Vv, [(1, 0)]), net.product(i2, Val.of_sym(W), [(1, 0)]))
        cache[key] = (Uv, Val.of_sym(s), Vv)
    Uv, sv, Vv = [x.rename() for x in cache[key]]
    if not compute_uv:
        return Arr(sv)
    return Arr(Uv), Arr(sv), Arr(Vv)


def _delta(b, syms):
    return [(ONE, net.deltas_of(b["X"], b["Y"]))]


def cholesky(a, lower=False, **k):
    a = Arr.of(a)
    c = ctx()
    c.assumed.add("scipy.linalg.cholesky: A = L L^dagger (or U^dagger U) for positive definite A")
    n = a.shape[0]
    if not bool(c.opaque_bool(("positive definite", arr.canon_str(a.v)))):
        raise LinAlgError("not positive definite")
    L = fresh_sym("L", (n, n))
    if lower:
        pat = [(L.name, False, ["X", "k"]), (L.name, True, ["Y", "k"])]
    else:
        pat = [(L.name, True, ["k", "X"]), (L.name, False, ["k", "Y"])]
    c.rules.append(ProdRule(pat, a.v))
    c.hooks.setdefault("chol", {})[L.name] = (L, one_network(a.v), lower)
    return Arr(Val.of_sym(L))


def get_lapack_funcs(names, arrays=()):
    def trtri(A, lower=False, overwrite_c=False):
        ctx().assumed.add("LAPACK trtri returns the exact inverse of a triangular matrix")
        return matinv(Arr.of(A)), 0
    tab = {"trtri": trtri}
    return [tab.get(n, unsupported("lapack." + n)) for n in names]


class LinAlgError(Exception):
    pass


class ArpackNoConvergence(Exception):
    pass


class _NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Arr, IntArr)) or getattr(o, "tcv_ndarray", False)


class ndarray(metaclass=_NDMeta):
    pass


def math_sqrt(x):
    if isinstance(x, (int, float)):
        import math
        return math.sqrt(x)
    return arr.sqrt(Arr.of(x))


def atleast_2d(x):
    x = Arr.of(x)
    return x


def real_(x):
    return x.real if not is_num(x) else x.real


def imag_(x):
    return x.imag


def iscomplex(x):
    return ctx().opaque_bool(("iscomplex", ctx().fresh_id()))


class Random(object):
    def ranf(self, s=None):
        a = arr.undef(shp(s) if s is not None else ())
        return a
    random = ranf
    rand = ranf


def randn(*s):
    return arr.undef(s)


def build():
    """module table for the injected __import__"""
    np = Mod("numpy")
    la = Mod("scipy.linalg")
    las = Mod("scipy.sparse.linalg")
    opti = Mod("scipy.optimize")
    intg = Mod("scipy.integrate")
    import math
    tab = dict(zeros=zeros, empty=empty, ones=ones, full=full, zeros_like=zeros_like, empty_like=empty_like,
               ones_like=ones_like, eye=eye, identity=eye, count_nonzero=count_nonzero, argwhere=argwhere, invert=invert, repeat=repeat, minimum=_extreme(-1), maximum=_extreme(1), asarray=asarray, asanyarray=asarray, array=array, dot=dot, multiply=multiply,
               add=add_, conjugate=conjugate, conj=conjugate, inner=inner, vdot=vdot, trace=trace, diag=diag,
               transpose=transpose, reshape=reshape, kron=kron, isscalar=isscalar, sum=sum_, prod=prod, cumprod=cumprod,
               all=all_, any=any_, allclose=allclose, promote_types=promote_types, finfo=FInfo, vectorize=Vectorized,
               fromfunction=fromfunction, arange=arange, exp=exp, log=hyp("log"), log2=hyp("log2"), sign=hyp("sign"),
               sqrt=lambda x: math_sqrt(x) if isinstance(x, (int, float)) and x >= 0 else arr.sqrt(Arr.of(x)),
               abs=abs, absolute=abs, tensordot=arr.tensordot, fill_diagonal=fill_diagonal, concatenate=concatenate,
               append=append, hstack=hstack, vstack=vstack, float64=FLOAT, complex128=COMPLEX, int64=INT, dtype=lambda x: dt_of(x),
               ndarray=ndarray, NaN=NAN, nan=NAN, inf=float("inf"), pi=math.pi, e=math.e, random=Random(), rand=randn,
               randn=randn, real=real_, imag=imag_, iscomplex=iscomplex, LinAlgError=LinAlgError, seterr=lambda *a, **k: dict.fromkeys(("divide", "over", "under", "invalid"), "warn"),
               atleast_2d=atleast_2d, real_if_close=lambda x, *a: x, asscalar=asscalar,
               may_share_memory=lambda a, b: _root(a) is _root(b), matmul=arr.dot, save=save, load=load, shape=_shape, size=size_, einsum=unsupported("einsum"))
    for k, v in tab.items():
        setattr(np, k, v)
    sp = Mod("scipy")
    for k, v in tab.items():
        setattr(sp, k, v)
    npl = Mod("numpy.linalg")
    for m in (la, npl):
        m.norm = norm_fro
        m.inv = inv
        m.qr = qr
        m.eigh = eigh
        m.svd = svd
        m.cholesky = cholesky
        m.LinAlgError = LinAlgError
        m.lapack = types.SimpleNamespace(get_lapack_funcs=get_lapack_funcs)
        m.blas = types.SimpleNamespace(get_blas_funcs=unsupported("get_blas_funcs"))
    np.linalg = npl
    sp.linalg = la
    las.ArpackNoConvergence = ArpackNoConvergence
    sps = Mod("scipy.sparse")
    sps.linalg = las
    sp.sparse = sps
    sp.optimize = opti
    sp.integrate = intg

    class LinearOperator(object):
        def __init__(self, *a, **k):
            pass
    las.LinearOperator = LinearOperator
    ma = Mod("math")
    for n in ("log10", "copysign", "trunc", "ceil", "floor", "log", "exp", "pi"):
        setattr(ma, n, getattr(math, n))
    ma.sqrt = math_sqrt
    return {"numpy": np, "scipy": sp, "scipy.linalg": la, "scipy.sparse": sps, "scipy.sparse.linalg": las,
            "scipy.optimize": opti, "scipy.integrate": intg, "math": ma, "numpy.linalg": npl}


def _root(a):
    while isinstance(a, Arr) and a._base is not None:
        a = a._base
    return a


class NaNType(object):
    """a not-a-number marker: arithmetic is unsupported, assignment makes the target undefined"""
    def tcv_array(self):
        return arr.undef(())

    def __repr__(self):
        return "NaN"

    def __mul__(self, o):
        return self
    __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __mul__

    def conj(self):
        return self


NAN = NaNType()
