"""Symbolic numpy arrays: mutable cells holding a network value (tcv.net.Val), with numpy's view semantics for basic
indexing.  All arithmetic is exact over the complex numbers; dtypes are not modelled (a real array is one whose symbols
are real)."""
from fractions import Fraction as Fr
import numbers
from . import net, sint
from .net import Val, Ix, Cn, Sym, Fac, Term, ScalarKey, ShapeMismatch, cx, ONE
from .sint import SInt, SBool, Unsupported, SymRaise, ctx, norm, simp


def is_num(x):
    return isinstance(x, (numbers.Number, SInt)) and not isinstance(x, Arr)


class DType(object):
    def __init__(self, name, real):
        self.name = name
        self.real_ = real
        self.type = self
        self.kind = 'f' if real else 'c'

    def __call__(self, x=0):
        return x

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name or o is {'float64': float, 'complex128': complex}.get(self.name)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def char(self):
        return self.name

    def __repr__(self):
        return "dtype(%s)" % self.name


COMPLEX = DType("complex128", False)
FLOAT = DType("float64", True)
INT = DType("int64", True)


class Flags(dict):
    c_contiguous = property(lambda s: True)
    f_contiguous = property(lambda s: False)
    writeable = property(lambda s: True)
    fnc = property(lambda s: False)

    def __missing__(self, k):
        return k in ("C_CONTIGUOUS", "C", "WRITEABLE", "OWNDATA")


def scalar_val(x):
    """Val of a Python number or a symbolic integer"""
    if isinstance(x, SInt):
        n = norm(x)
        if n.is_const():
            return Val.const(n.const())
        terms = []
        for mo, co in n.m.items():
            terms.append(Term(cx(co), (), [SInt({(a,): 1}) for a in mo]))
        return Val((), terms)
    return Val.const(x)


class Arr(object):
    __array_priority__ = 1000
    __slots__ = ("_v", "_base", "_key", "dt", "_tag", "seq", "_memo", "_may")
    _uniq = True

    def __init__(self, v, dt=COMPLEX, base=None, key=None):
        self._v = v
        self._base = base
        self._key = key
        self.dt = dt
        self._tag = None
        c = sint.CTX
        if c is not None:
            c.seq += 1
            self.seq = c.seq
        else:
            self.seq = 0

    # ------------------------------------------------------------------------------------------------ storage
    @property
    def v(self):
        if self._base is not None:
            b = self._base.v
            if self._key[0] == "shape":
                m = getattr(self, "_memo", None)
                if m is None or m[0] is not b:
                    self._memo = m = (b, reshape_val(b, self._key[1]))
                return m[1]
            return view_get(b, self._key)
        return self._v

    def put(self, v, share=True):
        if self._base is not None:
            self._base.put(view_put(self._base.v, self._key, v), share)
            return
        ctx().journal.append(("arr", self, self._v))
        self._v = v
        for o in getattr(self, "_may", ()) if share else ():
            # the same storage, perhaps
            if o._tag is not None:
                raise Unsupported("in-place change of an array that may also be stored elsewhere")
            ctx().journal.append(("arr", o, o._v))
            o._v = Val.of_sym(Sym("undef#%d" % ctx().fresh_id(), (), [SInt.of(d) for d in o._v.shape()]))
        if self._tag is not None:
            t = self._tag
            t[0].elem_changed(*t[1:2], self, *t[2:])
            # the list now holds this very object
            self._tag = None
            ctx().journal.append(("tag", self, t))

    def may_share(self, other):
        a, b = self, other
        while a._base is not None:
            a = a._base
        self._may = getattr(self, "_may", ()) + (other,)
        other._may = getattr(other, "_may", ()) + (a,)
        if a is not self:
            a._may = getattr(a, "_may", ()) + (other,)

    @staticmethod
    def scalar(x):
        if isinstance(x, Arr):
            return x
        return Arr(scalar_val(x))

    @staticmethod
    def of(x):
        if isinstance(x, Arr):
            return x
        if is_num(x):
            return Arr(scalar_val(x))
        if getattr(x, "sym", None) is not None:
            return x.tcv_array()
        if isinstance(x, (list, tuple)):
            return stack([Arr.of(y) for y in x])
        if hasattr(x, "tcv_array"):
            return x.tcv_array()
        if hasattr(x, "toarray"):
            return Arr.of(x.toarray())
        raise Unsupported("cannot convert %s to an array" % type(x).__name__)

    # ------------------------------------------------------------------------------------------------ metadata
    @property
    def shape(self):
        return tuple(self.v.shape())

    @shape.setter
    def shape(self, s):
        self.put(reshape_val(self.v, s))

    @property
    def ndim(self):
        return len(self.v.axes)

    @property
    def size(self):
        r = SInt.of(1)
        for d in self.shape:
            r = SInt.of(r * d)
        return simp(r)

    @property
    def dtype(self):
        return self.dt

    @property
    def flags(self):
        return Flags()

    @property
    def T(self):
        return Arr(None, self.dt, base=self, key=("perm", tuple(reversed(range(self.ndim)))))

    @property
    def real(self):
        v = self.v
        return Arr(net.add(v, v.conj()).scale(Fr(1, 2)), self.dt)

    @property
    def imag(self):
        v = self.v
        return Arr(net.add(v, v.conj().scale(-1)).scale((Fr(0), Fr(-1, 2))), self.dt)

    @property
    def flat(self):
        return self.ravel()

    @property
    def itemsize(self):
        return 16

    def __len__(self):
        s = self.shape
        if not s:
            raise TypeError("len() of unsized object")
        return s[0].__index__()

    def __iter__(self):
        n = self.shape[0]
        n = norm(SInt.of(n))
        if n.is_const():
            return iter([self[i] for i in range(n.const())])
        raise Unsupported("iteration over an axis of symbolic length")

    def __hash__(self):
        return id(self)

    # ------------------------------------------------------------------------------------------------ views
    def __getitem__(self, key):
        key = norm_key(key, self)
        if all(k[0] == "at" for k in key):
            return Arr(view_get(self.v, key), self.dt)
        return Arr(None, self.dt, base=self, key=key)

    def __setitem__(self, key, val):
        if isinstance(key, SBoolArr):
            if self.ndim != 1 or Arr.of(val).ndim != 0:
                raise Unsupported("assignment through a mask")
            m, _, _, neg = key.mask()
            one = bmul(self.v, m)
            if neg:         # kept where the base comparison holds
                other = badd(Arr.of(val).v, bmul(Arr.of(val).v, m).scale(-1)) if Arr.of(val).v.terms else None
                self.put(badd(one, other) if other is not None else one)
            else:
                self.put(badd(badd(self.v, one.scale(-1)), bmul(Arr.of(val).v, m)))
            return
        key = norm_key(key, self)
        v = Arr.of(val).v
        tgt_axes = sum(1 for k in key if k[0] in ("all", "slice"))
        shape = [axis_shape(k, ax) for k, ax in zip(key, self.v.axes) if k[0] in ("all", "slice")]
        v = broadcast_to(v, shape)
        self.put(view_put(self.v, key, v))

    # ------------------------------------------------------------------------------------------------ arithmetic
    def _bin(self, o, fn):
        if is_num(o) or isinstance(o, (Arr, list)):
            pass
        elif hasattr(o, "__array_priority__") or hasattr(o, "toarray"):
            return NotImplemented
        else:
            return NotImplemented
        return fn(self, o)

    def __add__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(badd(self.v, Arr.of(o).v))

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(badd(self.v, Arr.of(o).v.scale(-1)))

    def __rsub__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(badd(Arr.of(o).v, self.v.scale(-1)))

    def __mul__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(bmul(self.v, Arr.of(o).v))

    __rmul__ = __mul__

    def __neg__(self):
        return Arr(self.v.scale(-1))

    def __pos__(self):
        return self.copy()

    def __truediv__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(bmul(self.v, recip(Arr.of(o)).v))

    def __rtruediv__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            return NotImplemented
        return Arr(bmul(Arr.of(o).v, recip(self).v))

    def __pow__(self, e):
        if isinstance(e, SInt):
            e = norm(e)
            e = e.const() if e.is_const() else e
        if isinstance(e, int) and 0 <= e <= 8:
            r = Arr(Val.const(1)) if self.ndim == 0 else Arr(Val.ones(self.shape))
            for _ in range(e):
                r = r * self
            return r
        if isinstance(e, int) and -4 <= e < 0:
            return 1 / (self ** (-e))
        if e == 0.5:
            return sqrt(self)
        if e == -0.5:
            return 1 / sqrt(self)
        raise Unsupported("power %r" % (e,))

    def __matmul__(self, o):
        return dot(self, o)

    def _iop(self, w):
        v = self.v
        w = broadcast_to(w, list(v.shape())) if len(w.axes) != len(v.axes) or w.shape() != v.shape() else w
        if len(w.axes) > len(v.axes):
            raise SymRaise("in-place operation with a larger operand")
        self.put(w)
        return self

    def __iadd__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            o = Arr.of(o)
        return self._inpl(badd(self.v, Arr.of(o).v))

    def __isub__(self, o):
        if not isinstance(o, Arr) and not is_num(o):
            o = Arr.of(o)
        return self._inpl(badd(self.v, Arr.of(o).v.scale(-1)))

    def __imul__(self, o):
        return self._inpl(bmul(self.v, Arr.of(o).v))

    def __itruediv__(self, o):
        return self._inpl(bmul(self.v, recip(Arr.of(o)).v))

    def _inpl(self, w):
        if self.ndim == 0 and self._base is None:
            return Arr(w)       # numpy scalars are immutable
        if len(w.axes) != self.ndim:
            raise SymRaise("in-place operation changes the shape")
        if not all(net.same_dim(net.axis_dim(a), net.axis_dim(b)) for a, b in zip(w.axes, self.v.axes)):
            check_shape_equal(w.shape(), self.shape, "in-place operation")
        self.put(w)
        return self

    # ------------------------------------------------------------------------------------------------ comparison
    def _cmp(self, o, op):
        a, b = Arr.of(self), Arr.of(o)
        d = badd(a.v, b.v.scale(-1))
        if d.axes:
            return SBoolArr(op, d, a, b)
        k = net.canon(d)
        if not k:
            return {"==": True, "!=": False, "<": False, "<=": True, ">": False, ">=": True}[op]
        if list(k.keys()) == [("", "")]:
            re = k[("", "")][0]
            if k[("", "")][1] == 0:
                return {"==": re == 0, "!=": re != 0, "<": re < 0, "<=": re <= 0, ">": re > 0, ">=": re >= 0}[op]
        neg = op in ("!=", ">=", ">")
        base = {"==": "==", "!=": "==", "<": "<", ">=": "<", "<=": "<=", ">": "<="}[op]
        key = (base, tuple(sorted((kk, net.cstr(c)) for kk, c in k.items())))
        zero = None
        if base == "==" and len(k) == 1:
            dn = net.collect(net.normalise(net.drop_ones(d)))
            if len(dn.terms) == 1 and not dn.terms[0].dims:
                fs = dn.terms[0].fs
                if len(fs) == 1 and fs[0].args:
                    zero = fs[0]
                elif 1 < len(fs) < 6 and not any(f.sym is net.DELTA for f in fs):
                    zero = dn.terms[0]
        h = ctx().hooks.get("scalar_cmp")
        if h is not None:
            r = h(base, d, k)
            if r is not None:
                return (not r) if neg else r
        b_ = ctx().opaque_bool(key)
        b_ = SBool(b_.f, None, None, False, zero)
        return sint.sb_not(b_) if neg else b_

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self != 0)
        raise Unsupported("truth value of an array")

    def __abs__(self):
        return absolute(self)

    # ------------------------------------------------------------------------------------------------ methods
    def copy(self, order=None):
        return Arr(self.v, self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, *a, **k):
        return Arr(self.v, self.dt)

    def conj(self):
        return Arr(self.v.conj(), self.dt)

    conjugate = conj

    def dot(self, o, out=None):
        r = dot(self, o)
        if out is not None:
            out[...] = r
            return out
        return r

    def transpose(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        if not p or p == (None,):
            return self.T
        return Arr(None, self.dt, base=self, key=("perm", tuple(int(x) % self.ndim for x in p)))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def reshape(self, *s, **kw):
        if kw.get("order", "C") not in ("C", "A", None):
            raise Unsupported("reshape order %r" % kw.get("order"))
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        v = reshape_val(self.v, s)
        b = self
        while b._base is not None:
            if b._key[0] == "perm" or (b._key[0] != "shape" and not leading(b._key)):
                return Arr(v, self.dt)          # numpy copies: the elements are not contiguous
            b = b._base
        return Arr(None, self.dt, base=self, key=("shape", tuple(v.shape())))

    def ravel(self, order="C"):
        if order not in ("C", "A", "K", None):
            raise Unsupported("ravel order")
        return self.reshape((self.size,))

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def trace(self):
        v = self.v
        return Arr(net.trace_axes(v, 0, 1))

    def diagonal(self):
        return Arr(net.diag_part(self.v))

    def sum(self, axis=None, **k):
        v = self.v
        if axis is None:
            while v.axes:
                v = net.sum_axis(v, len(v.axes) - 1)
            return Arr(v)
        if isinstance(axis, tuple):
            for a in sorted([x % self.ndim for x in axis], reverse=True):
                v = net.sum_axis(v, a)
            return Arr(v)
        return Arr(net.sum_axis(v, int(axis) % self.ndim))

    def fill(self, x):
        v = self.v
        w = broadcast_to(scalar_val(x) if is_num(x) else Arr.of(x).v, list(v.shape()))
        self.put(w)

    def all(self, *a, **k):
        raise Unsupported("all() of an array")

    def any(self, *a, **k):
        raise Unsupported("any() of an array")

    def item(self):
        return self

    def tolist(self):
        return [x for x in self]

    def squeeze(self):
        v = net.drop_ones(self.v)
        return Arr(Val([a for a in v.axes if a], v.terms))

    def mean(self):
        return self.sum() / self.size

    def __float__(self):
        k = net.canon(self.v) if self.ndim == 0 else None
        if k is not None and not k:
            return 0.0
        if k is not None and list(k) == [("", "")]:
            return float(k[("", "")][0])
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        f = float(self)
        if f == int(f):
            return int(f)
        raise Unsupported("index from an array")

    def __repr__(self):
        try:
            return "Arr%s<%r>" % (self.shape, self.v)
        except Exception as e:       # pragma: no cover
            return "Arr<?>"


class SBoolArr(object):
    """comparison of arrays: its truth is opaque; of a real vector with a number: also usable as a mask"""

    def __init__(self, op, d, a=None, b=None):
        self.op, self.d, self.a, self.b = op, d, a, b

    def __invert__(self):
        return SBoolArr({"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[self.op], self.d, self.a, self.b)

    def mask(self):
        """(vector which is one where the base comparison > or >= holds, number of ones, is the comparison its negation)"""
        a, b, op = self.a, self.b, self.op
        if a is not None and a.ndim == 0 and b.ndim == 1:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op)
        if a is None or a.ndim != 1 or b.ndim != 0 or op not in ("<", "<=", ">", ">="):
            raise Unsupported("boolean array")
        v = net.collect(net.normalise(net.drop_ones(a.v)))
        t = v.terms[0] if len(v.terms) == 1 else None
        if t is None or t.c != ONE or t.dims or len(t.fs) != 1 or not t.fs[0].sym.real or t.fs[0].args != tuple(v.axes):
            raise Unsupported("boolean array of an expression")
        base, neg = (">", op == "<=") if op in (">", "<=") else (">=", op == "<")
        key = (canon_str(v), base, canon_str(b.v))
        c = ctx()
        reg = c.hooks.setdefault("masks", {})
        if key not in reg:
            n = SInt.of(a.shape[0])
            s0 = t.fs[0].sym
            ps, fam = s0.params, s0.name
            w = c.hooks.get("vecfuns", {}).get(s0.name)
            if w is not None:
                ps, fam = (), s0.name
                if len(w.terms) == 1 and len(w.terms[0].fs) == 1 and w.terms[0].c == ONE and set(w.terms[0].fs[0].args) == set(w.axes):
                    s1 = w.terms[0].fs[0].sym
                    ps, fam = s1.params, "%s %s/%d" % (s0.name.split("<")[0], s1.name, len(s1.dims))
            if ps:
                # one number for each member of the family
                if len(ps) != 1 or any(f.sym.params for y in net.collect(net.normalise(b.v)).terms for f in y.fs):
                    raise Unsupported("boolean array of an expression")
                nm = "count of " + str((fam, base, canon_str(b.v)))
                c.nonneg[nm] = 0
                k = SInt.app(nm, ps[0])
            else:
                k = c.fresh("count")
                c.assume(sint.cmp_("<=", SInt.of(0), k))
            c.assume(sint.cmp_("<=", k, n))
            way = c.hooks.get("sorted", {}).get(t.fs[0].sym.name)
            if way:
                # the entries above the threshold are the last ones (ascending) or the first ones (descending)
                w = Val.of_sym(inc_sym(norm(SInt.of(n - k)) if way == "up" else SInt.of(0), k, n))
                m = Val((w.axes[0],), w.terms)
            else:
                name = "mask%d" % c.fresh_id()
                m = Val.of_sym(Sym(name, (), (n,), real=True))
                c.rules.append(MaskRule(name))
            reg[key] = (m, k, n)
        m, k, n = reg[key]
        return m.rename(), k, n, neg

    def count(self):
        m, k, n, neg = self.mask()
        return norm(SInt.of(n - k)) if neg else k

    def sum(self, *a, **kw):
        if a or kw:
            raise Unsupported("sum of a boolean array over an axis")
        return self.count()

    def all(self, *a, **k):
        return ctx().opaque_bool(("all", self.op, str(sorted(net.canon(self.d).items(), key=repr))))

    def any(self, *a, **k):
        return ctx().opaque_bool(("any", self.op, str(sorted(net.canon(self.d).items(), key=repr))))

    def __bool__(self):
        raise Unsupported("truth value of an array comparison")

    def __getattr__(self, n):
        raise Unsupported("boolean array .%s" % n)

    def __getitem__(self, k):
        raise Unsupported("boolean array indexing")


# ------------------------------------------------------------------------------------------------------ helpers

def check_shape_equal(s1, s2, what):
    s1, s2 = tuple(s1), tuple(s2)
    if len(s1) != len(s2):
        raise SymRaise("%s: shapes %s and %s" % (what, s1, s2))
    for a, b in zip(s1, s2):
        if not bool(sint.cmp_("==", SInt.of(a), SInt.of(b))):
            raise SymRaise("%s: shapes %s and %s do not match" % (what, s1, s2))


def norm_key(key, arr):
    if not isinstance(key, tuple):
        key = (key,)
    nd = arr.ndim
    n_el = sum(1 for k in key if k is Ellipsis)
    n_used = sum(1 for k in key if k is not Ellipsis and k is not None)
    out = []
    if any(k is None for k in key):
        raise Unsupported("newaxis")
    for k in key:
        if k is Ellipsis:
            out.extend([("all",)] * (nd - n_used))
        else:
            out.append(k)
    if n_el == 0:
        out.extend([("all",)] * (nd - len(out)))
    if len(out) > nd:
        raise SymRaise("too many indices for array")
    shp = arr.shape
    res = []
    for k, d in zip(out, shp):
        if k == ("all",):
            res.append(("all",))
        elif isinstance(k, slice):
            res.append(norm_slice(k, d))
        elif isinstance(k, (int, SInt)) or (isinstance(k, Arr) and k.ndim == 0):
            if isinstance(k, Arr):
                k = k.__index__()
            e = norm(SInt.of(k))
            if digits(e, norm(SInt.of(d))) is not None:
                res.append(("at", e))
                continue
            if e.is_const() and e.const() < 0:
                e = norm(SInt.of(e + d))
            elif not e.is_const() and bool(sint.cmp_("<", e, SInt.of(0))):
                e = norm(SInt.of(e + d))
            if not bool(sint.cmp_("<", e, SInt.of(d))) or not bool(sint.cmp_("<=", SInt.of(0), e)):
                raise SymRaise("index %s out of bounds for axis of size %s" % (e, d))
            res.append(("at", e))
        else:
            raise Unsupported("index %r" % (k,))
    return tuple(res)


def norm_slice(k, d):
    if k.step not in (None, 1):
        if k.step == -1 and k.start is None and k.stop is None:
            raise Unsupported("reversed slice")
        raise Unsupported("slice step")
    d = SInt.of(d)
    lo = SInt.of(0 if k.start is None else k.start)
    hi = SInt.of(d if k.stop is None else k.stop)

    def fix(e):
        e = norm(e)
        if bool(sint.cmp_("<", e, SInt.of(0))):
            e = norm(SInt.of(e + d))
            if bool(sint.cmp_("<", e, SInt.of(0))):
                e = SInt.of(0)
        elif bool(sint.cmp_("<", d, e)):
            e = d
        return e
    lo = fix(lo) if k.start is not None else SInt.of(0)
    hi = fix(hi) if k.stop is not None else d
    if norm(lo).is_const() and norm(lo).const() == 0 and net.same_dim(hi, d):
        return ("all",)
    if bool(sint.cmp_("<", hi, lo)):
        hi = lo
    return ("slice", norm(lo), norm(SInt.of(hi - lo)))


def axis_shape(k, ax):
    if k[0] == "all":
        return net.axis_dim(ax)
    return simp(SInt.of(k[2]))


def inc_sym(off, ln, dim):
    return Sym("inc", (off, ln, dim), (dim, ln), real=True)


def leading(key):
    """the selected elements are contiguous: fixed positions, then at most one range, then everything"""
    k = [x[0] for x in key]
    n = 0
    while n < len(k) and k[n] == "at":
        n += 1
    return all(x == "all" for x in k[n + 1:])


def view_get(v, key):
    if key[0] == "perm":
        return v.transpose(list(key[1]))
    i = 0
    for k in key:
        if k[0] == "all":
            i += 1
        elif k[0] == "at":
            v = net.fix_axis(v, i, k[1])
        else:
            _, lo, ln = k
            d = net.axis_dim(v.axes[i])
            w = Val.of_sym(inc_sym(lo, ln, d))
            v2 = net.product(v, w, [(i, 0)])
            perm = list(range(len(v2.axes) - 1))
            perm.insert(i, len(v2.axes) - 1)
            v = v2.transpose(perm)
            i += 1
    return v


def view_put(base, key, val):
    """base with base[key] := val"""
    if key[0] == "perm":
        inv_ = [0] * len(key[1])
        for i, p in enumerate(key[1]):
            inv_[p] = i
        return val.transpose(inv_)
    if key[0] == "shape":
        return reshape_val(val, base.shape())
    if all(k[0] == "all" for k in key):
        axes_dims = base.shape()
        return val
    base = _split_written(base, key)
    # projector on the selected block, block embedding
    proj = base
    emb = val
    i = 0          # axis position in base
    j = 0          # axis position in val
    nd = len(base.axes)
    for i, k in enumerate(key):
        if k[0] == "all":
            j += 1
        elif k[0] == "at":
            # proj *= delta(axis_i, pos); emb gets a new axis with delta
            a = base.axes[i]
            proj = _mul_onehot(proj, i, k[1])
            emb = _add_onehot(emb, j, k[1], net.axis_dim(base.axes[i]))
            j += 1
        else:
            _, lo, ln = k
            d = net.axis_dim(base.axes[i])
            w = Val.of_sym(inc_sym(lo, ln, d))
            pp = net.product(w, w, [(1, 1)])
            v2 = net.product(proj, pp, [(i, 0)])
            perm = list(range(nd - 1))
            perm.insert(i, nd - 1)
            proj = v2.transpose(perm)
            e2 = net.product(emb, w, [(j, 1)])
            n2 = len(e2.axes)
            perm = list(range(n2 - 1))
            perm.insert(j, n2 - 1)
            emb = e2.transpose(perm)
            j += 1
    r = net.add(net.add(base, proj.scale(-1)), emb)
    return net.collect(r) if len(r.terms) > 3 else r


def _split_written(base, key):
    """positions s * p + t on an axis of size q * p: the axis as a pair of digits"""
    base = net.drop_ones(base)
    for i, k in enumerate(key):
        if k[0] != "at" or len(base.axes[i]) != 1 or norm(k[1]).is_const():
            continue
        x = base.axes[i][0]
        qb = digits(norm(SInt.of(k[1])), norm(x.dim))
        if qb is not None:
            base = net.split_ix(base, x, [Ix(qb[0]), Ix(qb[1])])
    return base


def digits(e, d):
    """e = s * b + t on an axis of size d = a * b with 0 <= s < a, 0 <= t < b:  (a, b), or None"""
    if e.is_const() or len(d.m) != 1:
        return None
    (mo, co), = d.m.items()
    if co != 1 or len(mo) < 2:
        return None
    for at in sorted(set(mo), key=str):
        b = SInt({(at,): 1})
        X, rest = sint._split_by(e, b)
        if SInt.of(X).m and sint.entails_in_range(rest, b):
            a = net.dim_div(d, b)
            if sint.entails_in_range(X, a):
                return a, b
    return None


def _mul_onehot(v, i, pos):
    v = net.drop_ones(v)
    a = v.axes[i]
    ps = [Cn(pos, a[0].dim)] if len(a) == 1 else (net.split_pos(pos, [p.dim for p in a]) if a else [])
    ds = net.deltas_of(a, tuple(ps))
    return Val(v.axes, [Term(t.c, tuple(t.fs) + tuple(ds), t.dims) for t in v.terms]).reduce()


def _add_onehot(v, j, pos, dim):
    a = net.axis_for(dim)
    ps = (Cn(pos, a[0].dim),) if a else ()
    ds = net.deltas_of(a, ps)
    axes = list(v.axes)
    axes.insert(j, a)
    return Val(axes, [Term(t.c, tuple(t.fs) + tuple(ds), t.dims) for t in v.terms])


def broadcast_to(v, shape):
    shape = list(shape)
    if len(v.axes) > len(shape):
        # leading ones may be dropped by numpy assignment
        extra = len(v.axes) - len(shape)
        if all(net.dim_is_one(SInt.of(net.axis_dim(a))) for a in v.axes[:extra]):
            v = net.drop_ones(v)
            v = Val(v.axes[extra:], v.terms)
        else:
            raise SymRaise("could not broadcast %s to %s" % (v.shape(), shape))
    axes = []
    off = len(shape) - len(v.axes)
    out_axes = []
    for i, d in enumerate(shape):
        if i < off:
            out_axes.append(net.axis_for(d))
            continue
        a = v.axes[i - off]
        ad = net.axis_dim(a)
        if net.same_dim(ad, d):
            out_axes.append(a)
        elif net.dim_is_one(SInt.of(ad)):
            v = net.drop_ones(v)
            out_axes.append(net.axis_for(d))
        else:
            if bool(sint.cmp_("==", SInt.of(ad), SInt.of(d))):
                out_axes.append(a)
            else:
                raise SymRaise("could not broadcast input array from shape %s into shape %s" % (v.shape(), tuple(shape)))
    return Val(out_axes, v.terms)


def _bshape(v, w):
    a, b = list(v.shape()), list(w.shape())
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + a
    b = [1] * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if net.same_dim(x, y):
            out.append(x)
        elif net.dim_is_one(SInt.of(x)):
            out.append(y)
        elif net.dim_is_one(SInt.of(y)):
            out.append(x)
        elif bool(sint.cmp_("==", SInt.of(x), SInt.of(y))):
            out.append(x)
        elif bool(sint.cmp_("==", SInt.of(x), SInt.of(1))):
            out.append(y)
        elif bool(sint.cmp_("==", SInt.of(y), SInt.of(1))):
            out.append(x)
        else:
            raise SymRaise("operands could not be broadcast together with shapes %s %s" % (v.shape(), w.shape()))
    return out


def badd(v, w):
    s = _bshape(v, w)
    try:
        return net.add(broadcast_to(v, s), broadcast_to(w, s))
    except ShapeMismatch:
        raise SymRaise("shape mismatch in addition")


def bmul(v, w):
    if not w.axes:
        return _smul(v, w)
    if not v.axes:
        return _smul(w, v)
    s = _bshape(v, w)
    n = len(s)
    v, w = broadcast_to(v, s), broadcast_to(w, s)
    return net.product(v, w, (), [(i, i) for i in range(n)])


def _smul(v, w):
    if len(w.terms) == 1 and not w.terms[0].fs and not w.terms[0].dims:
        return v.scale(w.terms[0].c)
    return net.product(v, w)


def dot(a, b):
    if not isinstance(a, Arr):
        a = Arr.of(a)
    if not isinstance(b, Arr):
        if hasattr(b, "dot_left") or hasattr(b, "toarray"):
            # numpy would convert through __array__; the repository's classes provide it
            b = Arr.of(b)
        else:
            b = Arr.of(b)
    v, w = a.v, b.v
    if not v.axes or not w.axes:
        return Arr(bmul(v, w))
    i = len(v.axes) - 1
    j = len(w.axes) - 2 if len(w.axes) >= 2 else 0
    return Arr(contract(v, w, [(i, j)]))


def contract(v, w, pairs):
    for i, j in pairs:
        if not net.same_dim(net.axis_dim(v.axes[i]), net.axis_dim(w.axes[j])):
            d1, d2 = net.axis_dim(v.axes[i]), net.axis_dim(w.axes[j])
            if not bool(sint.cmp_("==", SInt.of(d1), SInt.of(d2))):
                raise SymRaise("shapes %s and %s not aligned: %s != %s" % (v.shape(), w.shape(), d1, d2))
    try:
        return net.product(v, w, pairs)
    except ShapeMismatch:
        raise SymRaise("shapes not aligned")


def tensordot(a, b, axes=2):
    a, b = Arr.of(a), Arr.of(b)
    if isinstance(axes, int):
        ax1 = list(range(a.ndim - axes, a.ndim))
        ax2 = list(range(axes))
    else:
        ax1, ax2 = axes
        if isinstance(ax1, int):
            ax1 = [ax1]
        if isinstance(ax2, int):
            ax2 = [ax2]
    ax1 = [int(x) % a.ndim for x in ax1]
    ax2 = [int(x) % b.ndim for x in ax2]
    if len(ax1) != len(ax2):
        raise SymRaise("shape-mismatch for sum")
    return Arr(contract(a.v, b.v, list(zip(ax1, ax2))))


def reshape_val(v, s):
    v = net.drop_ones(v)
    s = [norm(SInt.of(x)) for x in s]
    # -1
    neg = [i for i, x in enumerate(s) if x.is_const() and x.const() == -1]
    parts = [p for a in v.axes for p in a]
    tot = SInt.of(1)
    for p in parts:
        tot = SInt.of(tot * p.dim)
    tot = norm(tot)
    if neg:
        rest = SInt.of(1)
        for i, x in enumerate(s):
            if i != neg[0]:
                rest = SInt.of(rest * x)
        q = net.dim_div(tot, rest)
        if q is None:
            raise Unsupported("reshape with -1: %s / %s" % (tot, rest))
        s[neg[0]] = norm(q)
    new = SInt.of(1)
    for x in s:
        new = SInt.of(new * x)
    if not net.same_dim(new, tot):
        if not bool(sint.cmp_("==", norm(new), tot)):
            raise SymRaise("cannot reshape array of size %s into shape %s" % (tot, tuple(s)))
    if len(s) == 1:
        return Val([tuple(parts)], v.terms)
    # distribute parts over the new axes, splitting where needed
    axes = []
    queue = list(parts)
    for x in s:
        x = norm(x)
        cur = []
        need = x
        while not net.dim_is_one(SInt.of(need)):
            if not queue:
                raise Unsupported("reshape grouping")
            p = queue[0]
            if net.same_dim(p.dim, need):
                cur.append(p)
                queue.pop(0)
                need = SInt.of(1)
                break
            q = net.dim_div(need, p.dim)
            if q is not None:
                cur.append(p)
                queue.pop(0)
                need = norm(q)
                continue
            q = net.dim_div(p.dim, need)
            if q is not None:
                p1, p2 = Ix(need), Ix(q)
                v = net.split_ix(Val([tuple(c) for c in axes] + [tuple(cur)] + [(y,) for y in queue], v.terms), p, [p1, p2])
                flat = [y for a in v.axes for y in a]
                k = sum(len(a) for a in axes) + len(cur)
                axes2 = []
                pos = 0
                for a in axes:
                    axes2.append(tuple(flat[pos:pos + len(a)]))
                    pos += len(a)
                axes = axes2
                cur = list(flat[pos:pos + len(cur)]) + [p1]
                queue = flat[k + 1:]
                need = SInt.of(1)
                break
            raise Unsupported("reshape: cannot regroup %s into %s" % ([y.dim for y in parts], s))
        axes.append(tuple(cur))
    if queue and not all(net.dim_is_one(p.dim) for p in queue):
        raise Unsupported("reshape leftover")
    return Val(axes, v.terms)


def stack(xs):
    """np.array([...]) of equally shaped arrays: new leading axis of concrete length"""
    n = len(xs)
    if n == 0:
        return Arr(Val([net.axis_for(0)], ()))
    vs = [x.v for x in xs]
    out = None
    for k, v in enumerate(vs):
        e = _add_onehot(v, 0, SInt.of(k), SInt.of(n))
        out = e if out is None else net.add(out, e)
    return Arr(out)


# ------------------------------------------------------------------------------------------- scalar functions

def canon_str(v):
    k = net.canon(v)
    return "&".join(sorted("%s^%s^%s" % (net.cstr(c), a, b) for (a, b), c in k.items()))


def recip(a):
    v = a.v
    if v.axes:
        return vecfun("inv", a)
    v = net.normalise(net.drop_ones(v))
    v = net.collect(v)
    if not v.terms:
        raise SymRaise("division by zero")
    if len(v.terms) == 1:
        t = v.terms[0]
        key, dk = net.canon_term(t, ())
        c = net.cinv(t.c)
        fs = []
        for d in t.dims:
            # cancels against the dimension itself
            one = Val((), [Term(ONE, (), (d,))])
            fs.append(Fac(Sym("INV", (), (), real=True, meta=ScalarKey("INV", "DIM(%s)" % net.dim_key(d), None, one, recip)), False, ()))
        if not key:
            return Arr(Val((), [Term(c, tuple(fs))]))
        kc, _ = net.canon_term(conj_term(t), ())
        s = Sym("INV", (), (), meta=ScalarKey("INV", key, kc, Val((), [Term(ONE, t.fs, ())]), recip))
        return Arr(Val((), [Term(c, (Fac(s, False, ()),) + tuple(fs))]))
    s = Sym("INV", (), (), meta=ScalarKey("INV", "(" + canon_str(v) + ")", "(" + canon_str(v.conj()) + ")", v, recip))
    ctx().hooks.setdefault("inv_defs", {})[s.meta.inner] = v
    return Arr(Val((), [Term(ONE, (Fac(s, False, ()),))]))


def conj_term(t):
    return Term(net.cconj(t.c), [Fac(f.sym, not f.conj, f.args) if f.sym is not net.DELTA else f for f in t.fs], t.dims)


def const_of(a):
    k = net.canon(a.v)
    if not k:
        return (Fr(0), Fr(0))
    if list(k) == [("", "")]:
        return k[("", "")]
    return None


def sqrt(a):
    a = Arr.of(a)
    v = a.v
    if v.axes:
        return vecfun("sqrt", a)
    c = const_of(a)
    if c is not None and c[1] == 0 and c[0] >= 0:
        import math
        n, d = c[0].numerator, c[0].denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Arr(Val.const(Fr(rn, rd)))
        return Arr(Val.const(math.sqrt(c[0])))
    v = net.collect(net.normalise(net.drop_ones(v)))
    if len(v.terms) == 1 and v.terms[0].c == ONE and not v.terms[0].dims:
        key, _ = net.canon_term(v.terms[0], ())
        kc, _ = net.canon_term(conj_term(v.terms[0]), ())
    else:
        key, kc = "(" + canon_str(v) + ")", "(" + canon_str(v.conj()) + ")"
        ctx().hooks.setdefault("sqrt_defs", {})[key] = v
    s = Sym("SQRT", (), (), meta=ScalarKey("SQRT", key, kc, v, sqrt))
    return Arr(Val((), [Term(ONE, (Fac(s, False, ()),))]))


def absolute(a):
    a = Arr.of(a)
    if a.ndim:
        return vecfun("abs", a)
    c = const_of(a)
    if c is not None and c[1] == 0:
        return Arr(Val.const(abs(c[0])))
    k = canon_str(a.v)
    s = Sym("ABS", (), (), real=True, meta=ScalarKey("ABS", "(" + k + ")", None, a.v, absolute))
    return Arr(Val((), [Term(ONE, (Fac(s, False, ()),))]))


def scalfun(name, a):
    a = Arr.of(a)
    if a.ndim:
        return vecfun(name, a)
    c = const_of(a)
    if c == (Fr(0), Fr(0)) and name == "exp":
        return Arr(Val.const(1))
    k = canon_str(a.v)
    kc = canon_str(a.v.conj())
    s = Sym(name.upper(), (), (), meta=ScalarKey(name.upper(), "(" + k + ")", "(" + kc + ")", a.v, lambda b: scalfun(name, b)))
    return Arr(Val((), [Term(ONE, (Fac(s, False, ()),))]))


def vecfun(name, a):
    """elementwise function of an array: a new symbol with elementwise rules"""
    v = net.normalise(net.drop_ones(a.v))
    v = net.collect(v)
    c = ctx()
    key = "%s<%s>" % (name, "&".join(sorted("%s^%s^%s" % (net.cstr(co), x, y) for (x, y), co in net.canon(v).items())))
    real = name == "abs" or all(f.sym.real or f.sym is net.DELTA for t in v.terms for f in t.fs)
    if not v.terms and name == "inv":
        raise SymRaise("division by zero")
    if not v.terms and name in ("sqrt", "abs"):
        return Arr(v)
    sym = Sym(key, (), v.shape(), real=real)
    reg = c.hooks.setdefault("vecfuns", {})
    if key not in reg:
        reg[key] = v
        c.rules.append(VecRule(key, name, v))
    return Arr(Val.of_sym(sym))


class VecRule(object):
    """sqrt(x)_i sqrt(x)_i = x_i ;  inv(x)_i x_i = 1 ; inv(x)_i sqrt(x)_i stays (paired with sqrt again it reduces)"""

    def __init__(self, key, fn, v):
        self.name = key
        self.fn = fn
        self.v = v

    def apply(self, t, free):
        idx = [k for k, f in enumerate(t.fs) if f.sym.name == self.name]
        if not idx:
            return None
        if self.fn == "sqrt":
            for x in range(len(idx)):
                for y in range(x + 1, len(idx)):
                    f, g = t.fs[idx[x]], t.fs[idx[y]]
                    if f.conj == g.conj and all(net.same_arg(p, q) for p, q in zip(f.args, g.args)):
                        t2 = Term(t.c, [h for k, h in enumerate(t.fs) if k != idx[y]], t.dims)
                        k2 = idx[x]
                        w = self.v
                        return net.expand_factor(t2, k2, w.conj() if f.conj else w, free)
            return None
        if self.fn == "inv":
            # single-symbol argument: cancel x_i
            v = self.v
            if len(v.terms) == 1 and len(v.terms[0].fs) == 1:
                t0 = v.terms[0]
                g0 = t0.fs[0]
                # argument order of the symbol relative to the axes
                for k in idx:
                    f = t.fs[k]
                    mp = {}
                    for a, b in zip(v.axes, f.args):
                        if len(a) != len(b):
                            return None
                        for p, q in zip(a, b):
                            mp[p] = (q,)
                    want = tuple(net._sub_arg(a, mp) for a in g0.args)
                    for j, h in enumerate(t.fs):
                        if j != k and h.sym.key() == g0.sym.key() and h.conj == (g0.conj != f.conj and not g0.sym.real) \
                                and all(net.same_arg(p, q) for p, q in zip(h.args, want)):
                            rest = [x for i, x in enumerate(t.fs) if i not in (j, k)]
                            dims = list(t.dims)
                            present = {p for x in rest for p in x.parts()}
                            for a in f.args:
                                for p in a:
                                    if isinstance(p, Ix) and p not in free and p not in present:
                                        dims.append(p.dim)
                            return [Term(net.cmul(t.c, net.cinv(t0.c)), rest, dims)]
                if g0.sym.name.startswith("sqrt<"):
                    return self._inverse_root(t, free, idx, ctx().hooks["vecfuns"].get(g0.sym.name))
            return None
        return None

    def _inverse_root(self, t, free, idx, v):
        """(1/sqrt(x))_i (1/sqrt(x))_i x_i = 1 for a vector x that is one product of factors"""
        from .shim import NullRule
        if v is None or len(v.axes) != 1 or len(v.terms) != 1 or v.terms[0].dims:
            return None
        m = NullRule(None, v)
        m.outer_axis = 0
        # an inclusion ties its large index to the small one: it may stay, whatever else the large index occurs in
        m.shared = frozenset(p for h in v.terms[0].fs if h.sym.name == "inc" for a in h.args for p in a)
        for x in range(len(idx)):
            for y in range(x + 1, len(idx)):
                f, g = t.fs[idx[x]], t.fs[idx[y]]
                if not net.same_arg(f.args[0], g.args[0]) or len(v.axes[0]) != len(f.args[0]):
                    continue
                m.inner = lambda t_, free_, b, used: NullRule.inner(m, t_, free_, b, used) and (setattr(m, "used", list(used)) or True)
                if m.match(t, free, list(v.terms[0].fs), False, dict(zip(v.axes[0], f.args[0])), [idx[x], idx[y]]):
                    rest = [h for i, h in enumerate(t.fs) if i not in m.used or h.sym.name == "inc"]
                    present = {p for h in rest for p in h.parts()}
                    dims = list(t.dims) + [p.dim for p in f.args[0] if isinstance(p, Ix) and p not in free and p not in present]
                    return [Term(net.cmul(t.c, net.cinv(v.terms[0].c)), rest, dims)]
        return None


def undef(dims, tag="undef"):
    k = ctx().fresh_id()
    return Arr(Val.of_sym(Sym("%s#%d" % (tag, k), (), [SInt.of(d) for d in dims])))


class MaskRule(object):
    """m_i m_i = m_i"""

    def __init__(self, name):
        self.name = name

    def apply(self, t, free):
        idx = [k for k, f in enumerate(t.fs) if f.sym.name == self.name]
        for x in range(len(idx)):
            for y in range(x + 1, len(idx)):
                if net.same_arg(t.fs[idx[x]].args[0], t.fs[idx[y]].args[0]):
                    return [Term(t.c, [h for i, h in enumerate(t.fs) if i != idx[y]], t.dims)]
        return None


class IncRule(object):
    """inclusion of a block: inc[i,a] inc[i,b] = delta(a,b) for the same block; 0 for disjoint blocks"""
    name = "inc"

    def apply(self, t, free):
        idx = [k for k, f in enumerate(t.fs) if f.sym.name == "inc"]
        for k in idx:
            f = t.fs[k]
            off, ln, dim = f.sym.params
            if net.same_dim(ln, dim):
                rest = [h for i, h in enumerate(t.fs) if i != k]
                return [Term(t.c, rest + net.deltas_of(f.args[0], f.args[1]), t.dims)]
            # fixed positions
            if len(f.args[0]) == 1 and isinstance(f.args[0][0], Cn):
                p = f.args[0][0].val
                inside = sint.sb_and(sint.cmp_("<=", off, p), sint.cmp_("<", p, SInt.of(off + ln)))
                if bool(inside):
                    rest = [h for i, h in enumerate(t.fs) if i != k]
                    return [Term(t.c, rest + net.deltas_of((Cn(SInt.of(p - off), ln),), f.args[1]), t.dims)]
                return []
            if len(f.args[1]) == 1 and isinstance(f.args[1][0], Cn) and f.args[0]:
                rest = [h for i, h in enumerate(t.fs) if i != k]
                return [Term(t.c, rest + net.deltas_of(f.args[0], (Cn(SInt.of(f.args[1][0].val + off), dim),)), t.dims)]
        for x in range(len(idx)):
            for y in range(x + 1, len(idx)):
                f, g = t.fs[idx[x]], t.fs[idx[y]]
                if f.args[1] and len(f.args[0]) == len(g.args[0]) == 1 and net.same_arg(f.args[1], g.args[1]) and \
                        not net.same_arg(f.args[0], g.args[0]) and all(net.same_dim(p, q) for p, q in zip(f.sym.params, g.sym.params)):
                    # the same element of the same block
                    return [Term(t.c, [h for i, h in enumerate(t.fs) if i != idx[y]] + net.deltas_of(f.args[0], g.args[0]), t.dims)]
                if not f.args[0] or not net.same_arg(f.args[0], g.args[0]):
                    continue
                o1, l1, d1 = f.sym.params
                o2, l2, d2 = g.sym.params
                if net.same_dim(o1, o2) and net.same_dim(l1, l2):
                    p = f.args[0][0]
                    cnt = sum(1 for h in t.fs for q in h.parts() if q is p)
                    rest = [h for i, h in enumerate(t.fs) if i not in (idx[x], idx[y])]
                    if isinstance(p, Ix) and p not in free and cnt == 2 and len(f.args[0]) == 1:
                        return [Term(t.c, rest + net.deltas_of(f.args[1], g.args[1]), t.dims)]
                    # keep one inclusion, identify the small indices (both injective on the same block)
                    if not net.same_arg(f.args[1], g.args[1]):
                        keep = [h for i, h in enumerate(t.fs) if i != idx[y]]
                        return [Term(t.c, keep + net.deltas_of(f.args[1], g.args[1]), t.dims)]
                    return [Term(t.c, [h for i, h in enumerate(t.fs) if i != idx[y]], t.dims)]
                c = ctx()
                import z3
                if c.entails(z3.Or(c.z(SInt.of(o1 + l1)) <= c.z(o2), c.z(SInt.of(o2 + l2)) <= c.z(o1))):
                    return []
        return None
