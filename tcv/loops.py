"""Loops over symbolic ranges, and lists of symbolic length.

A loop over a symbolic range is not unrolled.  Its body is executed for one generic iteration k (lo <= k < hi):
  pass 1  finds the write set (array cells, attributes, list elements, local names);
  pass 2  starts from an arbitrary state of that write set (fresh placeholder symbols) and yields, per cell, the effect
          of the generic iteration as an expression in the placeholder.  The effect is turned into a closed form by an
          inductive argument that is checked, never assumed:
             Z + g(k)               -> Z0 + sum_k g(k)             (g free of placeholders)
             Z with entry k replaced by g(k), all other entries kept -> g at all positions of the range
             g(k), free of Z        -> the last iteration's value
             list element e(k) := g(k), injective e -> element family g(e^-1(.)); when g reads elements written by
                                       earlier iterations the contract supplies the family and the step is an obligation
  Anything else is outside the fragment (Unsupported: nothing is concluded).
"""
import z3
from . import sint, net, arr
from .net import Val, Sym, Ix, Cn, Term, Fac
from .arr import Arr
from .sint import SInt, SBool, Unsupported, SymRaise, ctx, norm, simp


class _Undef(object):
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


class Poison(object):
    """value with no usable content (left over from a loop); any use is outside the fragment"""

    def __init__(self, why="loop leftover"):
        object.__setattr__(self, "why", why)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("use of an unknown value (%s)" % self.why)

    def _u(self, *a):
        raise Unsupported("use of an unknown value (%s)" % self.why)
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __setitem__ = __call__ = __bool__ = _u
    __truediv__ = __rtruediv__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __len__ = __iter__ = __iadd__ = _u
    __index__ = __int__ = __float__ = __isub__ = __imul__ = _u


class SRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def tcv_len(self):
        n = self.hi - self.lo if self.step == 1 else self.lo - self.hi
        n = simp(norm(SInt.of(n)))
        if isinstance(n, SInt):
            if bool(sint.cmp_("<", n, SInt.of(0))):
                return 0
        return max(n, 0) if isinstance(n, int) else n

    def bounds(self):
        """(lo, hi) of the index set, ascending"""
        if self.step == 1:
            return self.lo, self.hi
        return self.hi + 1, self.lo + 1

    def __iter__(self):
        n = self.tcv_len()
        if isinstance(n, int):
            return iter([simp(norm(SInt.of(self.lo + i * self.step))) for i in range(n)])
        raise Unsupported("iteration over a symbolic range outside a loop")

    def __getitem__(self, i):
        return self.lo + i * self.step

    def tcv_sum(self):
        raise Unsupported("sum of range")

    @property
    def size(self):
        return self.tcv_len()

    def __contains__(self, x):
        lo, hi = self.bounds()
        return bool(sint.cmp_("<=", SInt.of(lo), SInt.of(x))) and bool(sint.cmp_("<", SInt.of(x), SInt.of(hi)))


class ARange(SRange):
    """numpy.arange with arithmetic: element j is fn(lo + j step)"""
    ndim = 1

    def __init__(self, lo, hi, step=1, fn=None):
        SRange.__init__(self, lo, hi, step)
        self.fn = fn or (lambda i: i)

    def __iter__(self):
        return iter([simp(norm(SInt.of(self.fn(i)))) for i in SRange.__iter__(self)])

    def __getitem__(self, j):
        return self.fn(self.lo + j * self.step)

    def _map(self, g):
        f = self.fn
        return ARange(self.lo, self.hi, self.step, lambda i: g(f(i)))

    def __add__(self, o):
        return self._map(lambda x: x + o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._map(lambda x: x - o)

    def __mod__(self, o):
        return self._map(lambda x: x % o)

    def __mul__(self, o):
        return self._map(lambda x: x * o)

    @property
    def shape(self):
        return (self.tcv_len(),)

    def __contains__(self, x):
        raise Unsupported("membership in an arange")


def seq():
    c = ctx()
    c.seq = getattr(c, "seq", 0) + 1
    return c.seq


# -------------------------------------------------------------------------------------------------------- lists

class Frozen(object):
    """tag of an array that a loop may have stored elsewhere as well: it may be read, not changed in place"""

    @staticmethod
    def elem_changed(i, a):
        raise Unsupported("in-place change of an array that is also stored elsewhere")


FROZEN = (Frozen, 0)


def unknown(dims):
    return Val.of_sym(Sym("undef#%d" % ctx().fresh_id(), (), [SInt.of(d) for d in dims]))


def root(x):
    """the array whose storage x (an array or a view) uses"""
    while isinstance(x, Arr) and x._base is not None:
        x = x._base
    return x


class IntCmp(object):
    """elementwise comparison of integer arrays"""

    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, b, op

    def at(self, i):
        a, b = SInt.of(self.a[i]), SInt.of(self.b[i] if isinstance(self.b, PList) else self.b)
        if self.op == "!=":
            return sint.sb_not(sint.cmp_("==", a, b))
        if self.op in (">", ">="):
            return sint.cmp_(self.op.replace(">", "<"), b, a)
        return sint.cmp_(self.op, a, b)

    def any(self):
        return self._any(lambda i: [self.at(i)])

    def all(self):
        return not self._any(lambda i: [sint.sb_not(self.at(i))])

    def _any(self, at):
        c = ctx()
        n = norm(SInt.of(self.a.length()))
        if n.is_const():
            return any(bool(at(i)[0]) for i in range(n.const()))
        c.nraise = getattr(c, "nraise", 0) + 1
        if c.decide(sint.SBool(z3.Bool("ra!%d" % c.nraise))):
            k0 = c.fresh("ka")
            c.assume(sint.cmp_("<=", SInt.of(0), k0))
            c.assume(sint.cmp_("<", k0, n))
            for b in at(k0):
                c.assume(b)
            c.witness(k0)
            if c.entails(z3.BoolVal(False)):
                raise sint.Infeasible()
            return True

        def inside(i):
            # an index that may lie outside the array says nothing
            ok = all(sint.known(b) for b in (sint.cmp_("<=", SInt.of(0), i), sint.cmp_("<", i, n)))
            return at(i) if ok else None
        c.everywhere(SInt.of(0), n, inside)
        return False

    def __getattr__(self, n):
        raise Unsupported("boolean array .%s" % n)


class NonZero(object):
    """numpy.argwhere of a one-dimensional integer array: the largest and the smallest index of a non-zero element"""

    def __init__(self, a):
        self.a = a

    def _end(self, up):
        c = ctx()
        a = self.a
        n = norm(SInt.of(a.length()))
        if n.is_const():
            w = [i for i in range(n.const()) if bool(a[i] != 0)]
            if not w:
                raise SymRaise("zero-size array to reduction operation")
            return w[-1] if up else w[0]
        if not IntCmp(a, 0, "!=").any():
            raise SymRaise("zero-size array to reduction operation")
        k0 = c.fresh("kz")
        c.assume(sint.cmp_("<=", SInt.of(0), k0))
        c.assume(sint.cmp_("<", k0, n))
        c.assume(sint.sb_not(sint.cmp_("==", SInt.of(a[k0]), SInt.of(0))))
        c.witness(k0)

        def at(i):
            ok = all(sint.known(b) for b in (sint.cmp_("<=", SInt.of(0), i), sint.cmp_("<", i, n)))
            return [sint.sb_not(sint.cmp_("==", SInt.of(a[i]), SInt.of(0)))] if ok else None
        lo, hi = (k0 + 1, n) if up else (SInt.of(0), k0)
        c.everywhere(SInt.of(lo), SInt.of(hi), at)
        return k0

    def max(self):
        return self._end(True)

    def min(self):
        return self._end(False)

    def __getattr__(self, n):
        raise Unsupported("argwhere .%s" % n)


class PList(list):
    """Python list, possibly of symbolic length.  Symbolic mode: `base(idx)` gives the initial elements, `layers`
    the writes (newest last): ("at", idx, value) or ("range", lo, hi, fn)."""

    def __init__(self, items=()):
        list.__init__(self, items)
        self.sym = None
        self.name = None
        self.shared = False         # elements may be stored elsewhere as well
        self.copies = 0             # lists made from this one (and from those), holding the same elements
        self.origin = None
        self.arr = False            # a numpy object array rather than a Python list
        self.seq = seq() if sint.CTX is not None else 0

    @property
    def shape(self):
        if not self.arr:
            raise AttributeError("'list' object has no attribute 'shape'")
        return (self.length(),)

    @staticmethod
    def symbolic_list(length, base, name=None):
        p = PList()
        p.sym = [SInt.of(length), base, (), {}]
        p.name = name
        return p

    def symbolic(self):
        return self.sym is not None

    def length(self):
        if self.sym is None:
            return list.__len__(self)
        return simp(norm(self.sym[0]))

    tcv_len = length

    def concrete(self):
        if self.sym is None:
            return [x for x in list.__iter__(self)]
        n = norm(self.sym[0])
        if n.is_const():
            return [self[i] for i in range(n.const())]
        raise Unsupported("iteration over a list of symbolic length")

    def __iter__(self):
        return iter(self.concrete())

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __len__(self):
        n = self.length()
        return n.__index__()

    def _state(self):
        if self.sym is None:
            return ("c", list(list.__iter__(self)))
        return ("s", list(self.sym[:3]) + [dict(self.sym[3])])

    def _restore(self, st):
        if st[0] == "c":
            self.sym = None
            list.__setitem__(self, slice(None), st[1])
        else:
            list.__setitem__(self, slice(None), [])
            self.sym = list(st[1][:3]) + [dict(st[1][3])]

    def _log(self, what):
        if sint.CTX is not None:
            ctx().journal.append(("list", self, self._state(), what))

    def to_symbolic(self):
        if self.sym is not None:
            return
        items = list(list.__iter__(self))
        n = len(items)

        def base(i):
            i = norm(SInt.of(i))
            if i.is_const():
                return items[i.const()]
            for j in range(n):
                if bool(sint.cmp_("==", i, SInt.of(j))):
                    return items[j]
            raise SymRaise("list index out of range")
        list.__setitem__(self, slice(None), [])
        self.sym = [SInt.of(n), base, (), {}]

    # ------------------------------------------------------------------ access
    def _idx(self, i, for_insert=False):
        if isinstance(i, Arr):
            i = i.__index__()
        i = norm(SInt.of(i))
        n = norm(self.sym[0])
        if not self.sym[2] and not i.is_const() and getattr(self.sym[1], "cyclic", False):
            neg = sint.cmp_("<", i, SInt.of(0))
            if sint.known(neg) is None and sint.known(sint.cmp_("<", i, n)) and sint.known(sint.cmp_("<=", SInt.of(0), SInt.of(i + n))):
                # -n <= i < n: element i mod n, whichever it is
                return norm(SInt.of(i % n))
        neg = i.const() < 0 if i.is_const() else bool(sint.cmp_("<", i, SInt.of(0)))
        if neg:
            i = norm(SInt.of(i + n))
            if bool(sint.cmp_("<", i, SInt.of(0))):
                raise SymRaise("list index out of range")
        if not bool(sint.cmp_("<", i, n)):
            raise SymRaise("list index out of range (%s of %s)" % (i, n))
        return i

    def __getitem__(self, i):
        if self.sym is None:
            if isinstance(i, slice):
                if any(isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
                    self2 = self.copy()
                    self2.to_symbolic()
                    return self2[i]
                return PList(list.__getitem__(self, i))
            if isinstance(i, SInt):
                self2 = PList(list.__iter__(self))
                n = list.__len__(self)
                i = norm(i)
                if i.is_const():
                    return list.__getitem__(self, i.const())
                for j in range(n):
                    if bool(sint.cmp_("==", i, SInt.of(j))):
                        return list.__getitem__(self, j)
                for j in range(1, n + 1):
                    if bool(sint.cmp_("==", i, SInt.of(-j))):
                        return list.__getitem__(self, -j)
                raise SymRaise("list index out of range")
            if isinstance(i, Arr):
                i = i.__index__()
            try:
                return list.__getitem__(self, i)
            except IndexError:
                raise SymRaise("list index out of range")
        if isinstance(i, slice):
            return self._slice(i)
        return self._get(self._idx(i))

    def _bounds(self, s):
        if s.step not in (None, 1):
            raise Unsupported("list slice step")
        n = norm(self.sym[0])

        def fix(e, dflt):
            if e is None:
                return dflt
            e = norm(SInt.of(e))
            if bool(sint.cmp_("<", e, SInt.of(0))):
                e = norm(SInt.of(e + n))
                if bool(sint.cmp_("<", e, SInt.of(0))):
                    e = SInt.of(0)
            if bool(sint.cmp_("<", n, e)):
                e = n
            return e
        lo, hi = fix(s.start, SInt.of(0)), fix(s.stop, n)
        if bool(sint.cmp_("<", hi, lo)):
            hi = lo
        return lo, hi

    def _slice(self, s):
        lo, hi = self._bounds(s)
        snap = self.copy()
        r = PList.symbolic_list(hi - lo, lambda j: snap._get(norm(SInt.of(j + lo))))
        r.origin = self
        return r

    def _get(self, i):
        cache = self.sym[3]
        k = i.key()
        if k in cache:
            return cache[k]
        layers = self.sym[2]
        for ly in reversed(layers):
            if ly[0] == "at":
                if bool(sint.cmp_("==", ly[1], i)):
                    return ly[2]
            elif ly[0] == "range":
                if self._in(i, ly[1], ly[2]):
                    return self._keep(k, self._own(ly[3](i), i))
            elif ly[0] == "loop":
                r = ly[1](i)
                if r is not None:
                    return self._keep(k, self._own(r, i))
        if self.sym[1] is None:
            raise Unsupported("unknown list element")
        return self._keep(k, self._own(self.sym[1](i), i))

    def _keep(self, k, r):
        self.sym[3][k] = r
        ctx().journal.append(("cache", self.sym[3], k, r))
        return r

    def _own(self, r, i):
        """an array element materialised from a description: later in-place changes belong to this element only"""
        if isinstance(r, Arr):
            if r._base is None and r._tag is None:
                r._tag = (self, i, self.sym[2])
        elif isinstance(r, PList):
            r.freeze()
        return r

    def freeze(self):
        """a list inside a list: its arrays are not to be changed in place"""
        if self.sym is not None:
            self.shared = True
            return
        for x in list.__iter__(self):
            if isinstance(x, Arr) and x._base is None and x._tag is None:
                x._tag = FROZEN
            elif isinstance(x, PList):
                x.freeze()

    def holds(self, i, layers, a, fork=False):
        """is array a, materialised as element i when the writes were `layers`, still that element?  None: not known"""
        if self.sym is None:
            return None
        cur = self.sym[2]
        if len(cur) < len(layers) or any(x is not y for x, y in zip(cur, layers)):
            return None
        r = True
        for ly in cur[len(layers):]:
            if ly[0] == "at":
                e = sint.cmp_("==", ly[1], i)
                e = bool(e) if fork else sint.known(e)
                if e is None:
                    return None
                if e:
                    r = ly[2] is a
            elif ly[0] == "range":
                ins = [sint.cmp_("<=", SInt.of(ly[1]), i), sint.cmp_("<", i, SInt.of(ly[2]))]
                ins = [bool(e) if fork else sint.known(e) for e in ins]
                if False in ins:
                    continue
                if None in ins:
                    return None
                r = False if ly[3](i) is None else None
            else:
                return None
        return r

    def elem_changed(self, i, a, layers=None):
        """in-place modification of element i (an array materialised from this list)"""
        if self.shared:
            raise Unsupported("in-place change of an array that is also stored elsewhere")
        if layers is not None and layers is not self.sym[2] and self.holds(i, layers, a, True) is False:
            return      # replaced in the list since
        self._log(("set", i))
        self.sym[2] = self.sym[2] + (("at", i, a),)
        keep = {}
        self.sym[3] = keep

    @staticmethod
    def _in(i, lo, hi):
        """lo <= i < hi"""
        return bool(sint.cmp_("<=", SInt.of(lo), i)) and bool(sint.cmp_("<", i, SInt.of(hi)))

    def __setitem__(self, i, val):
        if self.sym is None:
            if isinstance(i, SInt) and norm(i).is_const():
                i = norm(i).const()
            if isinstance(i, SInt):
                self._log(("all",))
                self.to_symbolic()
            elif isinstance(i, slice):
                if any(isinstance(x, SInt) for x in (i.start, i.stop)):
                    self._log(("all",))
                    self.to_symbolic()
                    return self.__setitem__(i, val)
                self._log(("all",))
                list.__setitem__(self, i, val)
                return
            else:
                if isinstance(i, Arr):
                    i = i.__index__()
                n = list.__len__(self)
                if not -n <= i < n:
                    raise SymRaise("list assignment index out of range")
                self._log(("set", SInt.of(i if i >= 0 else i + n)))
                list.__setitem__(self, i, val)
                return
        if isinstance(i, slice):
            if i.start is None and i.stop is None and isinstance(val, PList) and val.symbolic():
                self._log(("all",))
                self.sym = list(val.copy().sym)
                return
            if isinstance(val, (list, tuple)):
                lo, hi = self._bounds(i)
                if not isinstance(val, PList):
                    val = PList(val)
                n = SInt.of(val.length())
                if not bool(sint.cmp_("==", n, SInt.of(hi - lo))):
                    # for an array: could not broadcast; a plain list would change its length
                    raise SymRaise("slice of length %s set from %s elements" % (norm(SInt.of(hi - lo)), norm(n)))
                snap = val.copy()
                self._log(("all",))
                self.sym[2] = self.sym[2] + (("range", lo, hi, lambda j: snap[simp(norm(SInt.of(j - lo)))]),)
                self.sym[3] = {}
                return
            raise Unsupported("slice assignment to a symbolic list")
        i = self._idx(i)
        # same object written back (augmented assignment)
        self._log(("set", i))
        self.sym[2] = self.sym[2] + (("at", i, val),)
        self.sym[3] = {}

    def append(self, val):
        if self.sym is None:
            if sint.CTX is not None and any(l.symbolic and self.seq <= l.seq0 for l in ctx().loops):
                self._log(("all",))
                self.to_symbolic()
            else:
                self._log(("append",))
                list.append(self, val)
                return
        n = norm(self.sym[0])
        self._log(("append", n))
        self.sym[0] = SInt.of(n + 1)
        self.sym[2] = self.sym[2] + (("at", n, val),)
        self.sym[3] = {}

    def _nosym(self, what):
        if self.sym is not None:
            raise Unsupported("list.%s on a symbolic list" % what)
        self._log(("all",))

    def extend(self, xs):
        self._nosym("extend")
        list.extend(self, xs)

    def insert(self, i, x):
        self._nosym("insert")
        list.insert(self, i, x)

    def pop(self, i=-1):
        self._nosym("pop")
        return list.pop(self, i)

    def reverse(self):
        self._nosym("reverse")
        list.reverse(self)

    def sort(self, **k):
        self._nosym("sort")
        list.sort(self, **k)

    def __delitem__(self, i):
        self._nosym("del")
        list.__delitem__(self, i)

    def __mul__(self, n):
        if getattr(self, "rep", None) is not None and not self.sym[2]:
            x, k = self.rep
            n = norm(SInt.of(k * n))
            r = PList.symbolic_list(n, lambda i: x)
            r.rep = (x, n)
            return r
        if isinstance(n, SInt):
            n = norm(n)
            if n.is_const():
                return PList(list.__mul__(self, n.const()))
            if self.sym is None and list.__len__(self) == 1:
                x = list.__getitem__(self, 0)
                r = PList.symbolic_list(n, lambda i: x)
                r.rep = (x, n)
                return r
            raise Unsupported("list repetition")
        if self.sym is not None:
            raise Unsupported("list repetition")
        return PList(list.__mul__(self, int(n)))

    __rmul__ = __mul__

    def _ints(self, o):
        """is this an integer array (and the other operand an integer or one, too)?"""
        return self.arr and (isinstance(o, (int, SInt)) and not isinstance(o, bool) or isinstance(o, PList) and o.arr)

    def _elementwise(self, o, f):
        a = self.copy()
        b = o.copy() if isinstance(o, PList) else None
        n = norm(SInt.of(a.length()))
        if b is not None and not bool(sint.cmp_("==", n, SInt.of(b.length()))):
            raise SymRaise("operands could not be broadcast together")

        def base(i):
            x, y = a[i], (b[i] if b is not None else o)
            if not isinstance(x, (int, SInt)) or not isinstance(y, (int, SInt)):
                raise Unsupported("arithmetic of object arrays")
            r = f(x, y)
            return simp(norm(r)) if isinstance(r, SInt) else r
        r = PList.symbolic_list(n, base)
        r.arr = True
        return r

    def __sub__(self, o):
        return self._elementwise(o, lambda x, y: x - y) if self._ints(o) else NotImplemented

    def __rsub__(self, o):
        return self._elementwise(o, lambda x, y: y - x) if self._ints(o) else NotImplemented

    def __neg__(self):
        return self._elementwise(0, lambda x, y: -x)

    def _compare(self, o, op):
        if not self._ints(o):
            raise Unsupported("comparison of lists")
        return IntCmp(self.copy(), o.copy() if isinstance(o, PList) else o, op)

    def __lt__(self, o):
        return self._compare(o, "<")

    def __le__(self, o):
        return self._compare(o, "<=")

    def __gt__(self, o):
        return self._compare(o, ">")

    def __ge__(self, o):
        return self._compare(o, ">=")

    def __add__(self, o):
        if self._ints(o):
            return self._elementwise(o, lambda x, y: x + y)
        if self.sym is None and not (isinstance(o, PList) and o.sym is not None):
            return PList(list(list.__iter__(self)) + list(o))
        a, b = self.copy(), PList(o) if not isinstance(o, PList) else o.copy()
        na, nb = SInt.of(a.length()), SInt.of(b.length())

        def base(i):
            if bool(sint.cmp_("<", i, na)):
                return a[i]
            return b[norm(SInt.of(i - na))]
        return PList.symbolic_list(na + nb, base)

    def __radd__(self, o):
        if self._ints(o):
            return self._elementwise(o, lambda x, y: x + y)
        return PList(o).__add__(self)

    def __iadd__(self, o):
        if self._ints(o):
            r = self._elementwise(o, lambda x, y: x + y)
            if sint.CTX is not None and getattr(ctx(), "loops", None):
                raise Unsupported("arithmetic of integer arrays in a loop")
            self._log(("all",))
            list.__setitem__(self, slice(None), [])
            self.sym = list(r.sym)
            return self
        if isinstance(o, Arr):
            # list += array iterates over the array
            o = list(o)
        if self.sym is None and not (isinstance(o, PList) and o.sym is not None):
            self._log(("all",))
            list.extend(self, list(o))
            return self
        raise Unsupported("list +=")

    def escape(self):
        p = self
        while p is not None:
            p.copies += 1
            p = p.origin

    def copy(self):
        self.escape()
        r = PList()
        r.origin = self
        r.arr = self.arr
        if self.sym is None:
            list.__setitem__(r, slice(None), list(list.__iter__(self)))
            return r
        r.sym = list(self.sym[:3]) + [dict(self.sym[3])]
        # elements stay shared objects: materialise through the original
        src = self

        st = self._state()
        if True:
            def base(i, st=st):
                return src._get_snapshot(st, i)
            r.sym = [self.sym[0], base, (), {}]
        r.name = self.name
        return r

    def _get_snapshot(self, st, i):
        cur = self._state()
        if cur[0] == st[0] == "s" and cur[1][0] is st[1][0] and cur[1][1] is st[1][1] and cur[1][2] is st[1][2]:
            return self._get(i)
        save = self.sym
        self.sym = list(st[1][:3]) + [dict(st[1][3])]
        try:
            return self._get(i)
        finally:
            st[1][3].update(self.sym[3])
            self.sym = save

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as cp
        if self.sym is None:
            return PList([cp.deepcopy(x, memo) for x in list.__iter__(self)])
        st = self._state()
        src = self

        def base(i):
            return cp.deepcopy(src._get_snapshot(st, i))
        r = PList.symbolic_list(self.sym[0], base, self.name)
        return r

    def tcv_array(self):
        if self.sym is None:
            return arr.stack([Arr.of(x) for x in list.__iter__(self)])
        n = norm(self.sym[0])
        k = ctx().fresh("st")
        name = list(k.vars())[0]
        tok = ctx().push_pc()
        try:
            ctx().assume(sint.cmp_("<=", SInt.of(0), k))
            ctx().assume(sint.cmp_("<", k, n))
            v = Arr.of(self._get(norm(k))).v
        finally:
            ctx().pop_pc(tok)
        a = net.axis_for(n)
        v2 = net.positions_to_indices(v, {name: (a, n)})
        return Arr(Val((a,) + tuple(v2.axes), v2.terms).reduce())

    def tcv_asarray(self):
        if self.sym is None:
            from .shim import IntArr, _is_intlist
            xs = list(list.__iter__(self))
            if _is_intlist(xs):
                return IntArr(xs)
            return Arr.of(xs)
        n = norm(self.sym[0])
        if ctx().entails(ctx().z(n) > 0):
            e = self._get(norm(SInt.of(0)))
            if isinstance(e, (int, SInt)) and not isinstance(e, bool):
                return self         # array of integers (dimensions)
        return self.tcv_array()

    @property
    def ndim(self):
        return 1

    @property
    def shape(self):
        return (self.length(),)

    def tcv_sum(self):
        if self.sym is None:
            r = 0
            for x in list.__iter__(self):
                r = r + x
            return r
        n = norm(self.sym[0])
        k = ctx().fresh("sm")
        with ctx().generic((k, 0, n)):
            v = Arr.of(self._get(norm(k))).v
        return Arr(sum_over(v, list(k.vars())[0], SInt.of(0), n))

    def tcv_array(self):
        """np.array of a list of equally shaped arrays"""
        if self.sym is None:
            return arr.stack([Arr.of(y) for y in list.__iter__(self)])
        n = norm(self.sym[0])
        if n.is_const():
            return arr.stack([Arr.of(y) for y in self.concrete()])
        c = ctx()
        err = None
        for head in (0, 1):
            # rows that differ in form from the generic one: the first
            if head and not bool(sint.cmp_("<", SInt.of(head), n)):
                break
            k = c.fresh("st")
            kn = list(k.vars())[0]
            tok = self.sym[3]
            try:
                self.sym[3] = dict(tok)
                with c.generic((k, head, n)):
                    v = Arr.of(self._get(norm(k))).v
            except Unsupported as e:
                err = e
                continue
            finally:
                self.sym[3] = tok
            v = v.rename()
            a = net.axis_for(n)
            if not a:
                raise Unsupported("array of a list of symbolic length one")
            if not head:
                w = replace_pos(v, kn, a[0], SInt.of(0))
                if w is not None:
                    return Arr(Val((a,) + tuple(w.axes), w.terms))
                return Arr(as_family(Val((a,) + tuple(v.axes), v.terms), kn, a[0], SInt.of(0)))
            e0 = Arr.of(self._get(SInt.of(0))).v
            e0 = net.align_axes(e0, v.axes)
            b = Val((a,) + tuple(v.axes), [Term(t.c, tuple(t.fs) + (Fac(net.DELTA, False, ((a[0],), (Cn(SInt.of(0), n),))),), t.dims)
                                           for t in e0.terms])
            return Arr(as_family(Val((a,) + tuple(v.axes), v.terms), kn, a[0], SInt.of(0), SInt.of(1), n, b))
        raise err

    def fill(self, x):
        if self.sym is None:
            for i in range(list.__len__(self)):
                self[i] = x
            return
        self._log(("all",))
        self.sym[2] = self.sym[2] + (("range", SInt.of(0), norm(self.sym[0]), lambda i: x),)
        self.sym[3] = {}

    def __eq__(self, o):
        if self.sym is None and isinstance(o, list):
            a, b = list(list.__iter__(self)), list(o)
            return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))
        if self._ints(o):
            return self._compare(o, "==")
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        if self.sym is not None and self._ints(o):
            return self._compare(o, "!=")
        return not self == o

    __hash__ = None

    def __contains__(self, x):
        return any(bool(x == y) for y in self.concrete())

    def __repr__(self):
        if self.sym is None:
            return "PList" + list.__repr__(self)
        return "PList<%s len %s>" % (self.name, self.sym[0])


def comp(fn, it, flt=None):
    """[fn(x) for x in it if flt(x)]"""
    sym = (isinstance(it, SRange) and not isinstance(it.tcv_len(), int)) or \
        (isinstance(it, PList) and it.symbolic() and not norm(it.sym[0]).is_const()) or \
        (isinstance(it, Arr) and it.ndim and not norm(SInt.of(it.shape[0])).is_const())
    if sym:
        if flt is not None:
            raise Unsupported("filtered comprehension over a symbolic range")
        # the loop that appends, evaluated now: later changes of what fn refers to do not matter
        out = PList([])
        lp = Loop(it, "comprehension", ())
        while lp.step({}):
            out.append(fn(lp.item()))
        return out
    if isinstance(it, SRange):
        it = list(it)
    if flt is None:
        return PList([fn(x) for x in it])
    return PList([fn(x) for x in it if flt(x)])


def ret_check(val, *loops):
    for l in loops:
        if l is not None and l.symbolic:
            raise Unsupported("return inside a loop over a symbolic range")
    return val


# -------------------------------------------------------------------------------------------------------- loops

class FoldKernel(object):
    """meta of a fold symbol FOLD[a, b]: the product over a <= kappa < b of the linear maps `kernel` (output axes first)"""

    def __init__(self, kernel, nout, step):
        self.kernel, self.nout, self.dir = kernel, nout, step
        vs = set()
        for t in kernel.terms:
            for f in t.fs:
                vs |= _fac_vars(f)
                for p in f.parts():
                    vs |= norm(p.dim).vars()
            for d in t.dims:
                vs |= norm(SInt.of(d)).vars()
        for a in kernel.axes:
            for p in a:
                vs |= norm(p.dim).vars()
        self.vs = (vs | net.val_vars(kernel)) - {"kappa"}

    def free_vars(self):
        return self.vs

    def identify(self, lo, hi, nin):
        """(name, conjugated, commutes with the adjoint); a conjugated kernel is stored unconjugated"""
        c = ctx()
        kv = SInt.var("kappa")
        kk = self.kernel
        tok = c.push_pc()
        herm = False
        try:
            c.assume(sint.cmp_("<=", SInt.of(lo), kv))
            c.assume(sint.cmp_("<", kv, SInt.of(hi)))
            a, b = arr.canon_str(kk), arr.canon_str(kk.conj())
            # a map that commutes with the adjoint: the product does too
            if len(kk.axes) == 4 and self.nout == 2 and nin == 2 and all(
                    net.same_dim(net.axis_dim(kk.axes[i]), net.axis_dim(kk.axes[i + 1])) for i in (0, 2)):
                if arr.canon_str(kk.conj().transpose([1, 0, 3, 2])) == a:
                    herm = "pairs"
        finally:
            c.pop_pc(tok)
        conj = b < a
        if conj:
            self.kernel = kk.conj()
        return "FOLD%+d_%s" % (self.dir, net.hash_(min(a, b))), conj, herm

    def subst(self, s, mp):
        params = [sint.subst_int(p, mp) for p in s.params]
        dims = [sint.subst_int(d, mp) for d in s.dims]
        mp = {a: b for a, b in mp.items() if a != "kappa"}
        if not (self.vs & set(mp)):
            return Sym(s.name, params, dims, s.herm, s.real, self)
        net.no_capture(self.vs, mp)
        m = FoldKernel(self.kernel.subst_site(mp), self.nout, self.dir)
        name, conj, herm = m.identify(params[0], params[1], len(dims) - self.nout)
        if conj:
            raise Unsupported("orientation of a nested product changes")
        return Sym(name, params, dims, herm, s.real, m)

    def expand(self, f):
        """the factor as an identity (empty range) or a single map: list of (coefficient, factors, dims), or None"""
        c = ctx()
        a, b = f.sym.params
        tab = c.caches.setdefault("fold", {})
        d = norm(SInt.of(b - a))
        key = (c.npc, d.key())
        r = tab.get(key)
        if r is None:
            r = tab[key] = 0 if sint.known(sint.cmp_("==", d, SInt.of(0))) else 1 if sint.known(sint.cmp_("==", d, SInt.of(1))) else -1
        if r == 0:
            n = self.nout
            fs = []
            for x, y in zip(f.args[:n], f.args[n:]):
                if len(x) != len(y):
                    return None
                fs.extend(net.deltas_of(x, y))
            return [(net.ONE, fs, ())]
        if r == 1:
            v = self.kernel.subst_site({"kappa": norm(SInt.of(a))})
            return net.instantiate(v.conj() if f.conj else v, f.args)
        return None


class Fold(object):
    """ordered product of linear maps F_k, lo <= k < hi, applied to an initial value"""

    def __init__(self, kernel, k, nout, zdims, init, lo, hi, step):
        o = self._offset(kernel, k)
        if o is not None:
            # sites k + o: count by the site instead
            sh = {k: norm(SInt.of(SInt.var(k) - o))}
            kernel = kernel.subst_site(sh)
            zdims = [SInt.of(sint.subst_int(SInt.of(d), sh)) for d in zdims]
            lo, hi = SInt.of(lo + o), SInt.of(hi + o)
        self.kernel, self.k, self.nout, self.zdims, self.init = kernel, k, nout, zdims, init
        self.lo, self.hi, self.dir = norm(SInt.of(lo)), norm(SInt.of(hi)), step
        self.shift = o if o is not None else 0
        self.meta = FoldKernel(kernel.subst_site({k: SInt.var("kappa")}), nout, step)
        self.name, self.conj, self.herm = self.meta.identify(self.lo, self.hi, len(init.axes))

    @staticmethod
    def _offset(kernel, k):
        best = None
        for t in kernel.terms:
            for f in t.fs:
                if f.sym is net.DELTA:
                    continue
                for i, p in enumerate(f.sym.params):
                    p = norm(SInt.of(p))
                    if k not in p.vars():
                        continue
                    o = norm(SInt.of(p - SInt.var(k)))
                    if k in o.vars():
                        return None
                    c = (f.sym.name, i)
                    if best is None or c < best[0]:
                        best = (c, o)
                    elif c == best[0]:
                        d = norm(SInt.of(o - best[1]))
                        if not d.is_const():
                            return None
                        if d.const() < 0:
                            best = (c, o)
        if best is None or (best[1].is_const() and best[1].const() == 0):
            return None
        return best[1]

    def dims_at(self, k):
        return [SInt.of(sint.subst_int(SInt.of(d), {self.k: norm(SInt.of(k))})) for d in self.zdims]

    def span(self, a, b):
        """iterations a <= k < b applied to the initial value"""
        a, b = norm(SInt.of(a)), norm(SInt.of(b))
        if net.same_dim(a, b):
            return self.init
        end = b if self.dir == 1 else norm(SInt.of(a - 1))
        dout = self.dims_at(end)
        T = Sym(self.name, (a, b), [norm(d) for d in dout] + [norm(SInt.of(d)) for d in self.init.shape()],
                herm=self.herm, meta=self.meta)
        tv = Val.of_sym(T, self.conj)
        n = len(dout)
        return net.product(tv, self.init, [(n + i, i) for i in range(len(self.init.axes))])

    def upto(self, k):
        k = SInt.of(k + self.shift)
        return self.span(self.lo, k) if self.dir == 1 else self.span(SInt.of(k + 1), self.hi)

    def total(self):
        return self.span(self.lo, self.hi)

    def step(self, k, z):
        k = SInt.of(k + self.shift)
        kern = self.kernel.subst_site({self.k: norm(SInt.of(k))})
        n = self.nout
        return net.product(kern, z, [(n + i, i) for i in range(len(z.axes))])


class Explorer(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.forks = []


class Loop(object):
    """see the module docstring"""
    dirty = False
    npeel = 0

    def __init__(self, it, where, names=()):
        self.where = where
        self.names = names
        self.symbolic = False
        self.seq0 = 0
        self.amb = {}
        self.promoted = set()       # names whose first value is a number
        self.vals = {}
        self.tail = []
        if isinstance(it, PList) and it.symbolic():
            n = norm(it.sym[0])
            if n.is_const():
                it = it.concrete()
            else:
                src = it.copy()
                self.list_src = src
                it = SRange(0, n)
                self.map = lambda i: src._get(norm(SInt.of(i)))
                self._start_sym(it)
                return
        self.map = getattr(it, "fn", None) if isinstance(it, SRange) else None
        if isinstance(it, SRange):
            n = it.tcv_len()
            if isinstance(n, int):
                it = list(it)
            else:
                self._start_sym(it)
                return
        if isinstance(it, Arr):
            n = norm(SInt.of(it.shape[0]))
            if not n.is_const():
                a = it
                self.map = lambda i: a[i]
                self._start_sym(SRange(0, n))
                return
        self.items = iter(it)

    def _start_sym(self, it):
        self.symbolic = True
        self.rng = it
        self.phase = "init"

    # ------------------------------------------------------------------------------------------ driving
    def step(self, loc):
        if not self.symbolic:
            self.dirty = False
            try:
                self.cur = next(self.items)
            except StopIteration:
                return False
            return True
        c = ctx()
        if self.phase == "init":
            lo, hi = self.rng.bounds()
            lo, hi = norm(SInt.of(lo)), norm(SInt.of(hi))
            self.lo, self.hi = lo, hi
            if not bool(sint.cmp_("<", lo, hi)):
                self.symbolic = False
                self.items = iter(())
                self.dirty = False
                return False
            if self._single():
                self.symbolic = False
                self.items = iter(())
                self.dirty = False
                self.cur = self.map(simp(lo)) if self.map else simp(lo)
                return True
            self.loc0 = dict((n, loc.get(n, UNDEF)) for n in self.names)
            self._enter()
            return True
        if self.phase == "body":
            return self._end_path(loc)
        if self.phase == "peeled":
            # the first iteration has run on its own; the rest is a loop again
            self.tail_first = None
            self.rng = SRange(SInt.of(self.lo + 1), self.hi) if self.rng.step == 1 else \
                SRange(SInt.of(self.hi - 2), SInt.of(self.lo - 1), -1)
            self.phase = "init"
            return self.step(loc)
        raise RuntimeError("loop phase")

    def _enter(self):
        c = ctx()
        self.mark = len(c.journal)
        self.nobl = len(c.obls)
        self.seq0 = seq()
        self.W = {}
        self.changed = set()
        self.counters = {}
        self.guessed = set()
        self.noguess = set()
        self.folds = {}
        self.dimgen = {}
        self.carried = {}
        self.npass = 0
        self._begin_pass(1)

    def _peel(self):
        """the effect of a generic iteration has no closed form, but a condition of the body singles out the last (or first)
        iteration: run the loop over the others, then that one (or that one first)"""
        c = ctx()
        if self.npeel >= 8:
            return None
        for r in self.results:
            for f in r["forks"]:
                if getattr(f, "expr", None) is None:
                    continue
                vs = norm(SInt.of(f.expr[1])).vars()
                if r["k"] in vs or any(z in vs for z in r["zs"]):
                    continue
                # a condition that does not depend on the iteration: a case split around the loop
                self.npeel += 1
                del c.obls[self.nobl:]
                bool(sint.cmp_(f.expr[0], f.expr[1], SInt.of(0)))
                self.vals = dict(self.loc0)
                self._enter()
                return True
        ends = ("last", "first")
        for end in ends:
            e = self.last() if end == "last" else self.first()
            seen = set()
            for r in self.results:
                for f in r["forks"]:
                    if getattr(f, "expr", None) is None:
                        continue
                    op, d = f.expr
                    if r["k"] not in norm(SInt.of(d)).vars():
                        continue
                    kv = SInt.var("kappa")
                    gen = sint.cmp_(op, sint.subst_int(d, {r["k"]: kv}), SInt.of(0))
                    if isinstance(gen, bool) or (op, gen.expr[1].key()) in seen:
                        continue
                    seen.add((op, gen.expr[1].key()))
                    a = sint.known(sint.cmp_(op, sint.subst_int(d, {r["k"]: e}), SInt.of(0)))
                    if a is None:
                        continue
                    top = (end == "last") == (self.rng.step == 1)
                    want = sint.as_f(sint.sb_not(gen)) if a else gen.f
                    for j in range(4):
                        # true or false for all iterations except this one, or this one and up to three next to it
                        tok = c.push_pc()
                        try:
                            c._add(sint.as_f(sint.cmp_("<=", self.lo, kv)))
                            c._add(sint.as_f(sint.cmp_("<", kv, self.hi)))
                            c._add(sint.as_f(sint.cmp_("<", kv, e - j) if top else sint.cmp_("<", e + j, kv)))
                            g = (not a) if c.entails(want) else None
                        finally:
                            c.pop_pc(tok)
                        if g is not None:
                            break
                    if a is None or g is None or a == g:
                        continue
                    self.npeel += 1
                    del c.obls[self.nobl:]
                    self.vals = dict(self.loc0)
                    self.dirty = True
                    if end == "first":
                        self.npeel -= 1
                        return self._peel_first()
                    self.tail.insert(0, e)
                    if self.rng.step == 1:
                        self.rng = SRange(self.lo, SInt.of(self.hi - 1))
                        self.hi = norm(SInt.of(self.hi - 1))
                    else:
                        self.rng = SRange(SInt.of(self.hi - 1), self.lo, -1)
                        self.lo = norm(SInt.of(self.lo + 1))
                    if not bool(sint.cmp_("<", self.lo, self.hi)):
                        return self._finish()
                    if self._single():
                        self.tail.insert(0, self.lo)
                        return self._finish()
                    self._enter()
                    return True
        return None

    def _peel_first(self):
        c = ctx()
        self.npeel += 1
        del c.obls[self.nobl:]
        self.vals = dict(self.loc0)
        self.dirty = True
        self.phase = "peeled"
        self.cur = self._item(self.first())
        return True

    def _item(self, k):
        k = simp(norm(SInt.of(k)))
        return self.map(k) if self.map else k

    def _finish(self):
        """symbolic part done: what is left is the peeled last iterations"""
        self.dirty = True
        self.phase = "done"
        self.symbolic = False
        todo = [self._item(k) for k in self.tail]
        self.items = iter(todo[1:])
        if todo:
            self.cur = todo[0]
            return True
        return False

    def _single(self):
        d = norm(SInt.of(self.hi - self.lo))
        if d.is_const():
            return d.const() == 1
        b = sint.cmp_("==", d, SInt.of(1))
        if sint.known(b):
            ctx().assume(b)
            self.lo, self.hi = norm(self.lo), norm(self.hi)
            return True
        return False

    def raising(self, make):
        """a raise statement of the body is reached.  True: the path of this iteration ends here"""
        c = ctx()
        if not self.symbolic or c.loops[-1] is not self or (self.kind == 1 and not self.ex.forks):
            return False
        self.raised.append((make(), self.kname, self.kind, list(zip(self.ex.forks, self.ex.prefix))))
        self.ended = True
        return True

    def _raises(self):
        """after the loop's effect is known: either some iteration raises (that is the end of the loop), or the condition for
        it holds for no iteration"""
        c = ctx()
        for e, k, kind, forks in self.raised:
            if kind == 1:
                raise Unsupported("exception in the first iteration only (%s)" % self.where)
            conds = []
            for f, t in forks:
                if getattr(f, "expr", None) is None or any(x.startswith("Zi#") for x in norm(SInt.of(f.expr[1])).vars()):
                    raise Unsupported("exception that depends on a carried value (%s)" % self.where)
                conds.append((f.expr[0], norm(SInt.of(f.expr[1])), t != bool(f.neg)))

            def at(i, conds=conds, k=k):
                out = []
                for op, d, t in conds:
                    b = sint.cmp_(op, sint.subst_int(d, {k: SInt.of(i)}), SInt.of(0))
                    out.append(b if t else sint.sb_not(b))
                return out
            c.nraise = getattr(c, "nraise", 0) + 1
            if c.decide(sint.SBool(z3.Bool("rz!%d" % c.nraise))):
                k0 = c.fresh("kr")
                c.assume(sint.cmp_("<=", self.lo, k0))
                c.assume(sint.cmp_("<", k0, self.hi))
                for b in at(k0):
                    c.assume(b)
                for key, (typ, ob, extra) in self.W.items():
                    if typ == "list" and not extra.get("append"):
                        ob._log(("all",))
                        ob.to_symbolic()
                        ob.sym[1:] = [None, (), {}]     # unknown elements
                        continue
                    if typ != "arr":
                        raise Unsupported("state of the object after an exception in a loop (%s)" % self.where)
                    ob.put(unknown(ob.v.shape()))
                e.tcv_loop = True
                self.symbolic = False
                self.items = iter(())
                raise e
            c.everywhere(self.lo, self.hi, at)

    def abandon(self):
        """an exception leaves the loop: only when the first iteration raises it whatever the iteration does before (no
        effect, no fork), so that what the handler sees is exactly that iteration's state"""
        c = ctx()
        if not self.symbolic:
            c.loops.remove(self)
            return
        if self.kind != 1 or self.results or self.ex.forks or self.ex.prefix or any(
                e[0] != "cache" for e in c.journal[self.mark:]):
            raise Unsupported("exception handled outside the symbolic loop that raised it")
        c.explorers.pop()
        c.loops.pop()
        c.pop_pc(self.tok)
        c.assume(sint.cmp_("==", self.k, self.first()))

    def first(self):
        return self.lo if self.rng.step == 1 else norm(SInt.of(self.hi - 1))

    def last(self):
        return self.lo if self.rng.step == -1 else norm(SInt.of(self.hi - 1))

    broken = False

    def brk(self, loc):
        """a break statement of the body is reached.  True: the path of this iteration ends here"""
        c = ctx()
        if not self.symbolic:
            return False
        if c.loops[-1] is not self or any(e[0] != "cache" for e in c.journal[self.mark:]):
            raise Unsupported("break in a loop over a symbolic range (%s)" % self.where)
        vals = {}
        for n in self.names:
            v = loc.get(n, UNDEF)
            if v is self.start.get(n, UNDEF):
                continue
            if not (v is None or isinstance(v, (bool, int, float, complex, str, SInt))):
                v = Poison("at the end of a loop left by break (%s)" % self.where)
            vals[n] = v
        self.breaks.append((vals, self.kname, self.kind, list(zip(self.ex.forks, self.ex.prefix))))
        self.ended = True
        return True

    def _breaks(self):
        """after the loop's effect is known (there must be none): either some iteration leaves the loop, or the condition
        for it holds for no iteration"""
        c = ctx()
        for vals, k, kind, forks in self.breaks:
            if kind == 1 or self.W or self.raised:
                raise Unsupported("break in a loop that has an effect (%s)" % self.where)
            conds = []
            for f, t in forks:
                if getattr(f, "expr", None) is None or any(x.startswith("Zi#") for x in norm(SInt.of(f.expr[1])).vars()):
                    raise Unsupported("break that depends on a carried value (%s)" % self.where)
                conds.append((f.expr[0], norm(SInt.of(f.expr[1])), t != bool(f.neg)))

            def at(i, conds=conds, k=k):
                out = []
                for op, d, t in conds:
                    b = sint.cmp_(op, sint.subst_int(d, {k: SInt.of(i)}), SInt.of(0))
                    out.append(b if t else sint.sb_not(b))
                return out
            c.nraise = getattr(c, "nraise", 0) + 1
            if c.decide(sint.SBool(z3.Bool("br!%d" % c.nraise))):
                k0 = c.fresh("kb")
                c.assume(sint.cmp_("<=", self.lo, k0))
                c.assume(sint.cmp_("<", k0, self.hi))
                for b in at(k0):
                    c.assume(b)
                for n in set(self.changed) | set(vals):
                    v = vals.get(n, Poison("at the end of a loop left by break (%s)" % self.where))
                    if isinstance(v, SInt):
                        v = simp(norm(sint.subst_int(v, {k: k0})))
                        if any(x.startswith("Zi#") for x in SInt.of(v).vars()):
                            v = Poison("at the end of a loop left by break (%s)" % self.where)
                    self.vals[n] = v
                self.broken = True
                self.tail = []
                return
            c.everywhere(self.lo, self.hi, at)

    def get(self, n):
        return self.vals.get(n, UNDEF)

    def item(self):
        return self.cur

    # ------------------------------------------------------------------------------------------ passes
    def _begin_pass(self, kind):
        self.kind = kind
        self.npass += 1
        if self.npass > 7:
            raise Unsupported("loop effect does not stabilise (%s)" % self.where)
        self.results = []
        self.raised = []
        self.breaks = []
        self.pendingp = [[]]
        self._begin_path()

    def _begin_path(self):
        c = ctx()
        prefix = self.pendingp.pop()
        self.k = c.fresh("k")
        self.kname = list(self.k.vars())[0]
        self.tok = c.push_pc()
        self.ex = Explorer(prefix)
        c.explorers.append(self.ex)
        c.loops.append(self)
        c.assume(sint.cmp_("<=", self.lo, self.k))
        c.assume(sint.cmp_("<", self.k, self.hi))
        if self.kind == 1:
            # write set and shapes: the first iteration (pass 2 and later use an arbitrary one)
            c.assume(sint.cmp_("==", self.k, self.first()))
        self.trace0 = len(c.trace)
        self.ended = False
        self.zs = {}
        self.id0 = c.counter
        self.ph = {}            # arrays that stand for carried ones: id -> (key, array)
        self.zdims = getattr(self, "zdims", {})
        self.reads_own = False
        self.vals = dict(self.loc0)
        if self.kind == 2:
            self._havoc()
        self.start = dict(self.vals)
        self.dirty = True
        self.phase = "body"
        self.cur = self.map(self.k) if self.map else self.k

    def _havoc(self):
        c = ctx()
        for o in self.amb.values():
            o.put(unknown(o.v.shape()))
        for key, (typ, ob, extra) in self.W.items():
            if typ == "arr":
                if key in self.counters:
                    continue
                z = Sym("Z#%d" % c.fresh_id(), (), [SInt.of(d) for d in ob.v.shape()])
                self.zs[z.name] = key
                ob.put(Val.of_sym(z), False)
            elif typ == "attr":
                old = ob.__dict__.get(extra)
                nv = self._placeholder(key, old, True)
                from .load import jset
                jset(ob, extra, nv)
            elif typ == "list":
                self._havoc_list(key, ob)
        for n in self.names:
            if n in self.changed and self.loc0[n] is not UNDEF:
                self.vals[n] = self._placeholder(("loc", n), self.loc0[n], True)

    def _placeholder(self, key, old, allow_counter):
        x = self._placeholder_(key, old, allow_counter)
        if isinstance(x, Arr):
            self.ph[id(x)] = (key, x)
        return x

    def _source(self, x, places):
        """which storage a carried name has at the end of an iteration"""
        x = root(x)
        if not isinstance(x, Arr):
            return None
        if id(x) in self.ph:
            return ("ph", self.ph[id(x)][0])
        if x._tag is not None or id(x) in places:
            return ("held", x)
        if x.seq <= self.seq0:
            return ("pre", x)
        return ("fresh", id(x))

    def _storage(self):
        """In an iteration the carried arrays are taken for distinct ones that nothing else refers to.  Which storage can
        they really have: that of the first iteration's arrays, passed around by assignments.  Returns, per carried name,
        the arrays of the time before the loop it may share its storage with afterwards."""
        init = {}
        for n in self.changed:
            if isinstance(root(self.loc0.get(n)), Arr) and n not in self.promoted:
                init[("loc", n)] = root(self.loc0[n])
        for key, (typ, ob, extra) in self.W.items():
            if typ == "attr":
                x = root(ob.__dict__.get(extra))
                if isinstance(x, Arr):
                    init[key] = x
        poss = {k: {id(o): o} for k, o in init.items()}
        held = set()
        more = True
        while more:
            more = False
            for r in self.results:
                for k, s in r["src"].items():
                    p = poss.setdefault(k, {})
                    new = {}
                    if s is None:
                        continue
                    if s[0] == "ph":
                        new = poss.get(s[1], {})
                        if s[1] in held and k not in held:
                            held.add(k)
                            more = True
                    elif s[0] == "pre":
                        new = {id(s[1]): s[1]}
                    elif s[0] == "held":
                        if k not in held:
                            held.add(k)
                            more = True
                    for i, o in new.items():
                        if i not in p:
                            p[i] = o
                            more = True
        put = set()
        for r in self.results:
            put |= r["phput"]
        again = False
        if put:
            os = list(init.values())
            if len(set(id(o) for o in os)) < len(os):
                raise Unsupported("in-place change of an array that has two names in a symbolic loop (%s)" % self.where)
            for r in self.results:
                ss = [s for k, s in r["src"].items() if s is not None and k in init]
                if len(set((s[0], s[1] if isinstance(s[1], (int, tuple)) else id(s[1])) for s in ss)) < len(ss) or \
                        any(s[0] == "pre" for s in ss):
                    raise Unsupported("in-place change of an array that may have two names in a symbolic loop (%s)" % self.where)
            for k in put:
                if k in held:
                    raise Unsupported("in-place change of a carried array that is also stored (%s)" % self.where)
                for i, o in poss[k].items():
                    if i not in self.amb:
                        self.amb[i] = o
                        again = True
        ends = {}
        for r in self.results:
            for k, s in r["src"].items():
                e = ends.setdefault(k, [{}, False])
                if s is None:
                    continue
                if s[0] == "ph":
                    e[0].update(poss.get(s[1], {}))
                    e[1] = e[1] or s[1] in held
                elif s[0] == "pre":
                    e[0][id(s[1])] = s[1]
                elif s[0] == "held":
                    e[1] = True
        return again, ends

    def _same_storage(self, vals):
        """names that share their storage after the loop: on all paths or on some"""
        ks = sorted(set(k for r in self.results for k, s in r["src"].items() if s is not None), key=str)
        for i, a in enumerate(ks):
            for b in ks[:i]:
                same = [r["src"].get(a) is not None and r["src"].get(b) is not None and r["src"][a][0] == r["src"][b][0] and
                        (r["src"][a][1] is r["src"][b][1] or
                         (r["src"][a][0] in ("ph", "fresh") and r["src"][a][1] == r["src"][b][1])) for r in self.results]
                if any(same):
                    yield a, b, all(same)

    def _settle(self, vals, ends):
        """after the loop: storage the carried names share with each other and with arrays that were there before"""
        def final(k):
            if k[0] == "loc":
                return vals.get(k[1])
            typ, ob, extra = self.W.get(k, (None, None, None))
            return ob.__dict__.get(extra) if typ == "attr" else None
        for a, b, always in self._same_storage(vals):
            x, y = final(a), final(b)
            if isinstance(x, Arr) and isinstance(y, Arr) and x is not y:
                if always and a[0] == "loc" and b[0] == "loc" and x._base is None and y._base is None and \
                        self.results[0]["locs"][a[1]] is self.results[0]["locs"][b[1]]:
                    vals[a[1]] = y
                else:
                    x._tag = y._tag = FROZEN
        for o in self.amb.values():
            o.put(unknown(o.v.shape()))
        for k, (pre, held) in ends.items():
            x = final(k)
            if not isinstance(x, Arr):
                continue
            if held and k[0] == "loc":
                x._tag = FROZEN
            for o in pre.values():
                if x is not o:
                    x.may_share(o)

    def _placeholder_(self, key, old, allow_counter):
        c = ctx()
        if key in self.counters:
            return self.counters[key](self.k)
        if key in self.folds:
            return Arr(self.folds[key].upto(self.k))
        if key in self.carried:
            return Arr.of(self.carried[key](self.k)).copy()
        if isinstance(old, bool) or isinstance(old, SBool):
            return Poison("loop-carried flag")
        if isinstance(old, (int, SInt)):
            v = c.fresh("Zi")
            self.zs[list(v.vars())[0]] = key
            return v
        if isinstance(old, Arr) or isinstance(old, (float, complex)):
            dims = Arr.of(old).v.shape()
            if key in self.dimgen:
                if self.dimgen[key] is None:
                    return Poison("shape changes along the loop at %s" % self.where)
                dims = self.dimgen[key](self.k)
            z = Sym("Z#%d" % c.fresh_id(), (), [SInt.of(d) for d in dims])
            self.zs[z.name] = key
            self.zdims[z.name] = [SInt.of(d) for d in dims]
            return Arr(Val.of_sym(z))
        return Poison("carried by the loop at %s" % self.where)

    def _havoc_list(self, key, pl):
        """elements written by earlier iterations are described by the contract's family or unknown"""
        info = self.W[key][2]
        if pl.sym is None:
            pl._log(("all",))
            pl.to_symbolic()
        st = pl.sym
        spec = ctx().specs.get(pl.name) if pl.name else None
        me = self
        up = self.rng.step == 1
        n_app = info.get("append", 0)
        if n_app:
            base_len = st[0]
            pl._log(("havoc",))
            nl = norm(SInt.of(base_len + (self.k - self.lo if up else self.hi - 1 - self.k) * n_app))
            pl.sym[0] = nl

            def look_app(i, lo0=base_len):
                if PList._in(i, lo0, nl):
                    if spec is None and info.get("const") is not None:
                        # the same array in all iterations (checked when the effect is summed up)
                        return info["const"].copy()
                    me.reads_own = True
                    if spec is not None:
                        return spec(i)
                    raise Unsupported("loop reads list elements appended by earlier iterations (%s)" % me.where)
                return None
            pl.sym[2] = pl.sym[2] + (("loop", look_app),)
            pl.sym[3] = {}
            return
        offs = info.get("offs")
        if offs is None:
            raise Unsupported("loop writes list elements at unrecognised positions (%s)" % self.where)
        pl._log(("havoc",))
        kk = self.k

        def look(i):
            for o in offs:
                # written by earlier iterations: o + lo <= i < o + k   (descending: o + k < i <= o + hi - 1)
                if up:
                    a, b = SInt.of(o + me.lo), SInt.of(o + kk)
                else:
                    a, b = SInt.of(o + kk + 1), SInt.of(o + me.hi)
                if PList._in(i, a, b):
                    me.reads_own = True
                    if spec is not None:
                        r = spec(i)
                        if r is not None:
                            return r
                    raise Unsupported("loop-carried list %s without a contract family (%s)" % (pl.name, me.where))
            return None
        pl.sym[2] = pl.sym[2] + (("loop", look),)
        pl.sym[3] = {}

    def _root_key(self, ob):
        return ("arr", id(ob))

    def _leave(self):
        c = ctx()
        del c.trace[self.trace0:]
        undo(self.mark, self.seq0)
        c.explorers.pop()
        c.loops.pop()
        c.pop_pc(self.tok)
        if self.pendingp:
            self._begin_path()
            return True
        if not self.results:
            raise Unsupported("every iteration raises (%s)" % self.where)
        try:
            return self._end_pass()
        except Unsupported:
            x = self._peel()
            if x is None:
                raise
            return x

    def _end_path(self, loc):
        c = ctx()
        if self.ended:
            self.pendingp.extend(self.ex.pending)
            return self._leave()
        # write set of this path
        new = {}
        fetched = set()

        def inside(x):
            if hasattr(x, "__dict__") and not isinstance(x, Arr):
                fetched.add(id(x))
            if isinstance(x, PList) and not x.symbolic():
                for y in x.concrete():
                    inside(y)
        tagged = [e[1] for e in c.journal[self.mark:] if e[0] == "tag" and e[2][0].seq <= self.seq0]
        for e in c.journal[self.mark:]:
            if e[0] == "cache":
                inside(e[3])
            elif e[0] == "list" and id(e[1]) in fetched:
                raise Unsupported("list inside a list changed in a symbolic loop (%s)" % self.where)
            elif e[0] == "attr" and id(e[1]) in fetched:
                raise Unsupported("attribute of a list element changed in a symbolic loop (%s)" % self.where)
            if e[0] == "arr":
                if e[1].seq > self.seq0:
                    continue
                if any(x is e[1] for x in tagged):
                    continue        # reported as a list write
                new[("arr", id(e[1]))] = ("arr", e[1], None)
            elif e[0] == "attr":
                if getattr(e[1], "__dict__", {}).get("_tcv_seq", 0) > self.seq0:
                    continue
                new[("attr", id(e[1]), e[2])] = ("attr", e[1], e[2])
            elif e[0] == "list":
                if e[1].seq > self.seq0:
                    continue
                k = ("list", id(e[1]))
                d = new.setdefault(k, ("list", e[1], {"offs": set(), "append": 0, "all": False}))[2]
                w = e[3]
                if w[0] == "set":
                    d.setdefault("sets", []).append(w[1])
                    d.setdefault("rel", []).append(norm(SInt.of(w[1] - self.k)))
                elif w[0] == "append":
                    d["append"] += 1
                elif w[0] == "all":
                    if not (len(e) > 3 and e[1].sym is not None):
                        d["all"] = True
        finals, alias, places = {}, [], {}
        for key, (typ, ob, extra) in new.items():
            if typ == "list":
                for i, x in self._list_effect(ob, extra, raw=True):
                    x = root(x)
                    if isinstance(x, PList) and (x.seq <= self.seq0 or id(x) in fetched):
                        raise Unsupported("list stored in a list in a symbolic loop (%s)" % self.where)
                    if isinstance(x, Arr):
                        if x._tag is not None:
                            src = x._tag[0]
                            if src is ob and net.same_dim(x._tag[1], i):
                                pass
                            elif isinstance(src, PList) and src.copies == 1 and not src.shared and \
                                    src.holds(x._tag[1], x._tag[2], x) is False:
                                pass        # this list is the only one that still holds it
                            else:
                                alias += [ob, src]
                        elif x.seq <= self.seq0:
                            alias += [ob, x]
                        o2, i2 = places.setdefault(id(x), (ob, i))
                        if o2 is not ob or not net.same_dim(i2, i):
                            alias += [ob, o2 if o2 is not None else i2]
            elif typ == "attr":
                x = root(ob.__dict__.get(extra))
                if isinstance(x, Arr):
                    if x._tag is not None:
                        alias += [key, x._tag[0]]
                    elif x.seq <= self.seq0:
                        alias += [key, x]
                    o2, k2 = places.setdefault(id(x), (None, key))
                    if o2 is not None or k2 is not key:
                        alias += [key, o2 if o2 is not None else k2]
        for key, (typ, ob, extra) in new.items():
            if typ == "arr":
                finals[key] = ob._v
            elif typ == "attr":
                finals[key] = ob.__dict__.get(extra)
            elif typ == "list":
                finals[key] = self._list_effect(ob, extra)
        locs = {n: loc.get(n, UNDEF) for n in self.names}
        # contents at the end of the path (in-place changes are undone below)
        locv = {n: (Arr(v._v, v.dt) if isinstance(v, Arr) and v._base is None else v) for n, v in locs.items()}
        src = {("loc", n): self._source(v, places) for n, v in locs.items() if v is not self.start.get(n)}
        for key, (typ, ob, extra) in new.items():
            if typ == "attr":
                src[key] = self._source(ob.__dict__.get(extra), {})
        for n in self.changed:
            if ("loc", n) not in src:
                src[("loc", n)] = self._source(locs.get(n), {})
        phput = set(self.ph[id(e[1])][0] for e in c.journal[self.mark:] if e[0] == "arr" and id(e[1]) in self.ph)
        conds = list(c.pc_list)
        dec = c.trace[self.trace0:]
        rules = [r for r in c.rules if r not in self.tok[4]]
        kn = norm(SInt.of(self.k + (1 if self.rng.step == 1 else -1)))
        wants = {key: Arr.of(f(kn)).v for key, f in self.carried.items()} if self.kind == 2 else {}
        self.results.append(dict(id0=self.id0, wants=wants, finals=finals, locs=locs, locv=locv, new=new, zs=self.zs, reads=self.reads_own, dec=list(dec),
                                 prefix=list(self.ex.prefix), subst=dict(c.subst), k=self.kname, kv=self.k,
                                 rules=rules, forks=list(self.ex.forks), start=dict(self.start),
                                 alias=alias, src=src, phput=phput))
        self.pendingp.extend(self.ex.pending)
        if len(self.results) > 40:
            raise Unsupported("too many paths in the loop body (%s)" % self.where)
        if self.kind == 2:
            self._check_specs(self.results[-1])
        return self._leave()

    def _list_effect(self, pl, info, raw=False):
        """final values of the elements written in this iteration"""
        out = []
        seen = []
        for i in info.get("sets", []):
            if any(net.same_dim(i, j) for j in seen):
                continue
            seen.append(i)
            out.append((i, pl[simp(i)] if raw else snapshot(pl[simp(i)])))
        if info["append"]:
            n = pl.sym[0]
            for a in range(info["append"]):
                i = norm(SInt.of(n - info["append"] + a))
                out.append((i, pl[simp(i)] if raw else snapshot(pl[simp(i)])))
        return out

    def _check_specs(self, res):
        """inductive step for lists with a contract family: the value written equals the family's value"""
        c = ctx()
        for key, (typ, ob, info) in res["new"].items():
            if typ != "list" or ob.name is None or ob.name not in c.specs:
                continue
            spec = c.specs[ob.name]
            for (i, val) in res["finals"][key]:
                want = spec.define(i) if hasattr(spec, "define") else spec(i)
                if want is None:
                    continue
                ok, det = obj_equal(val, want)
                c.obligation("%s: element %s of %s equals its specification" % (self.where, "e(k)", ob.name), ok,
                             "at %s: %s" % (i, det))

    def _end_pass(self):
        # union write set
        W = {}
        changed = set()
        for r in self.results:
            for key, (typ, ob, extra) in r["new"].items():
                if typ == "list":
                    d = W.setdefault(key, ("list", ob, {"offs": [], "append": None, "all": False}))[2]
                    if extra["all"]:
                        d["all"] = True
                    if d["append"] is None:
                        d["append"] = extra["append"]
                    elif d["append"] != extra["append"]:
                        raise Unsupported("conditional append in a loop over a symbolic range (%s)" % self.where)
                    for i, rel in zip(extra.get("sets", []), extra.get("rel", [])):
                        o = norm(SInt.of(i - r["kv"]))
                        if not rel.vars():
                            o = rel         # what this path knows about k makes the distance a number
                        if r["k"] in o.vars() and self.kind == 1:
                            # first iteration: k has a known value there
                            o = norm(SInt.of(sint.subst_int(i, {r["k"]: self.first()}) - self.first()))
                        if r["k"] in o.vars():
                            # a path on which the iteration is a particular one
                            o = norm(SInt.of(sint.subst_int(SInt.of(i - r["kv"]), r["subst"])))
                        if r["k"] in o.vars():
                            d["offs"] = None
                        elif d["offs"] is not None and not any(net.same_dim(o, p) for p in d["offs"]):
                            d["offs"].append(o)
                else:
                    W[key] = (typ, ob, extra)
            for n, v in r["locs"].items():
                if v is not self.vals_at_start(r, n):
                    changed.add(n)
        self._promote()
        if self.kind == 1 and self.npeel < 8 and any(
                not isinstance(self.loc0.get(n, UNDEF), (Arr, PList, int, float, complex, SInt, type(UNDEF), type(None), Poison))
                and all(isinstance(r["locv"].get(n), Arr) for r in self.results) for n in changed):
            # an object (identity or diagonal matrix) becomes an array in the first iteration
            return self._peel_first()
        if self.kind == 1:
            for n in changed:
                self._guess_carried(("loc", n), self.loc0.get(n))
            for n in changed:
                self._guess_dims(("loc", n), self.loc0.get(n), [r["locv"].get(n) for r in self.results])
                self._guess_counter(("loc", n), self.loc0.get(n), [(r, r["locv"].get(n)) for r in self.results])
            for key, (typ, ob, extra) in W.items():
                if typ == "attr":
                    self._guess_dims(key, ob.__dict__.get(extra), [r["finals"].get(key) for r in self.results])
        if len(self.results) > 0:
            for key, (typ, ob, extra) in list(W.items()):
                if typ == "list" and extra["append"] is None:
                    extra["append"] = 0
                if typ == "list" and not extra["append"] and not extra.get("offs") and extra.get("offs") is not None \
                        and not extra["all"]:
                    del W[key]
        if self.kind == 1 or not set(W) <= set(self.W) or not changed <= self.changed or not self._offs_ok(W):
            for k, x in W.items():
                if self.npass > 2 and k in self.W and x[0] == "list" and self.W[k][2].get("offs") is not None:
                    o = x[2]["offs"]
                    if o is not None:
                        for p in self.W[k][2]["offs"]:
                            if not any(net.same_dim(p, q) for q in o):
                                o.append(p)
                if self.kind == 1 and x[0] == "list" and x[2]["append"] == 1 and len(self.results) == 1 and k in self.results[0]["finals"]:
                    (i, val), = self.results[0]["finals"][k]
                    if isinstance(val, Arr):
                        x[2]["const"] = val
                elif self.kind == 2 and x[0] == "list" and k in self.W:
                    x[2]["const"] = self.W[k][2].get("const")
                self.W[k] = x
            self.changed |= changed
            self._begin_pass(2)
            return True
        return self._summarise()

    def _promote(self):
        """a number that becomes an array through the first iteration (res = 0; res += array): the same number, broadcast"""
        for n in self.names:
            init = self.loc0.get(n, UNDEF)
            if isinstance(init, bool) or not (isinstance(init, (int, float, complex)) or
                                              (isinstance(init, Arr) and not init.v.axes)):
                continue
            shp = None
            for r in self.results:
                if r["locs"].get(n) is r["start"].get(n):
                    continue
                v = r["locv"].get(n)
                if not isinstance(v, Arr):
                    shp = None
                    break
                ds = [norm(SInt.of(sint.subst_int(SInt.of(d), r["subst"]))) for d in v.v.shape()]
                if any(r["k"] in d.vars() for d in ds):
                    shp = None
                    break
                shp = ds
            if shp is None or (not shp and isinstance(init, Arr)):
                continue
            from . import shim
            z = shim.zeros(tuple(shp))
            iv = Arr.of(init)
            self.loc0[n] = z + iv if iv.v.terms else z
            self.promoted.add(n)

    def _guess_carried(self, key, init):
        """a local array that starts out as a value the contract names is taken to run through those values"""
        if not isinstance(init, Arr):
            return
        for fn in ctx().carried:
            try:
                want = Arr.of(fn(self.first()))
            except (Unsupported, SymRaise):
                continue
            if len(want.shape) == len(init.shape) and all(net.same_dim(a, b) for a, b in zip(want.shape, init.shape)) and \
                    net.equal(init.v, want.v)[0]:
                self.carried[key] = fn
                return

    def _guess_counter(self, key, init, outs):
        """an integer local that moves by the same constant on every path of the first iteration is taken to do so in all
        of them; the later passes check it and drop the guess when it is wrong"""
        if isinstance(init, bool) or not isinstance(init, (int, SInt)) or key in self.counters or key in self.noguess:
            return
        inc = None
        for r, v in outs:
            if isinstance(v, bool) or not isinstance(v, (int, SInt)):
                return
            d = norm(SInt.of(sint.subst_int(SInt.of(v), r["subst"]) - init))
            if not d.is_const() or (inc is not None and inc != d.const()):
                return
            inc = d.const()
        if inc:
            self.guessed.add(key)
            self._counter(key, init, inc)

    def _counter(self, key, init, inc):
        i0 = SInt.of(init)
        if self.rng.step == 1:
            self.counters[key] = lambda k: simp(norm(SInt.of(i0 + (k - self.lo) * inc)))
        else:
            self.counters[key] = lambda k: simp(norm(SInt.of(i0 + (self.hi - 1 - k) * inc)))

    def _guess_dims(self, key, init, outs):
        """dimensions of a loop-carried array that change along the loop: D(e) at the start of the first iteration and
        D(e + c) after it are taken to be D(e + c * number of iterations done); wrong guesses fail the later passes"""
        if not isinstance(init, Arr) or not outs or not all(isinstance(o, Arr) for o in outs):
            return
        a, b = init.v.shape(), outs[0].v.shape()
        if len(a) != len(b):
            return
        res = [x["subst"] for x in self.results][0]
        gens, varying = [], False
        for d0, d1 in zip(a, b):
            d0, d1 = norm(SInt.of(d0)), norm(SInt.of(sint.subst_int(SInt.of(d1), res)))
            if net.same_dim(d0, d1):
                gens.append(lambda k, d0=d0: d0)
                continue
            g = self._dim_path(d0, d1)
            if g is None:
                self.dimgen[key] = None
                return
            gens.append(g)
            varying = True
        if varying:
            self.dimgen[key] = lambda k: [SInt.of(g(k)) for g in gens]

    def _dim_path(self, d0, d1):
        """guess the dimension as a function of the loop variable from its values before (d0) and after (d1) the first
        iteration: the family applications in d1 move by the same step in every iteration"""
        c = ctx()
        up = self.rng.step == 1
        first = self.first()
        fam = [x for x in d1.atoms() if isinstance(x, tuple) and x[0] == "f"]
        old = [x for x in d0.atoms() if isinstance(x, tuple) and x[0] == "f"]
        if not fam:
            if not old:
                return None
            src, steps, base = d0, [norm(SInt.of(c.atom_args[a])) for a in old], 0
            fam = old
        else:
            src, base = d1, 1
        cands = [1 if up else -1]
        for x in old:
            for y in fam:
                if x[1] == y[1]:
                    st = norm(SInt.of(c.atom_args[y] - c.atom_args[x]))
                    if st.is_const() and st.const() and st.const() not in cands:
                        cands.insert(0, st.const())

        def shifted(off):
            out = SInt({})
            for mo, co in src.m.items():
                t = SInt.of(co)
                for a in mo:
                    if a in fam:
                        t = SInt.of(t * SInt.app(a[1], SInt.of(c.atom_args[a] + off)))
                    else:
                        t = SInt.of(t * SInt({(a,): 1}))
                out = SInt.of(out + t)
            return norm(out)
        for st in cands:
            other = shifted(-st) if base else shifted(st)
            if net.same_dim(other, d0 if base else d1):
                break
        else:
            return None

        def g(k):
            done = SInt.of(k - first) if up else SInt.of(first - k)
            return shifted(SInt.of((done - base) * st))
        return g

    def _offs_ok(self, W):
        for k, x in W.items():
            if x[0] != "list":
                continue
            a, b = x[2]["offs"], self.W[k][2]["offs"]
            if a is None or b is None:
                continue
            if not all(any(net.same_dim(p, q) for q in b) for p in a):
                return False
        return True

    def vals_at_start(self, r, n):
        return r["start"][n]

    # ------------------------------------------------------------------------------------------ summary
    def _summarise(self):
        c = ctx()
        upd = []          # (apply function)
        vals = {}
        res = self.results
        keys = list(self.W)
        hi1 = norm(SInt.of(self.hi - 1)) if self.rng.step == 1 else self.lo
        need_again = False
        for key in keys:
            typ, ob, extra = self.W[key]
            if typ == "list":
                try:
                    upd.append(self._sum_list(key, ob, extra))
                except _Again:
                    need_again = True
                continue
            per = []
            for r in res:
                if key in r["finals"]:
                    per.append((r, r["finals"][key]))
                else:
                    per.append((r, "unchanged"))
            init = ob._v if typ == "arr" else ob.__dict__.get(extra)
            kind, val = self._sum_cell(key, per, init)
            if kind == "again":
                need_again = True
                continue
            if kind == "dep":
                need_again = True
                continue
            if typ == "arr":
                upd.append((lambda ob=ob, val=val: ob.put(val, False)))
            else:
                from .load import jset
                upd.append((lambda ob=ob, extra=extra, val=val: jset(ob, extra, val)))
        for n in self.names:
            if n not in self.changed:
                vals[n] = self.loc0[n]
                continue
            per = [(r, r["locv"][n]) for r in res]
            init = self.loc0[n]
            if init is UNDEF:
                vals[n] = self._last(per)
                continue
            kind, val = self._sum_cell(("loc", n), per, init)
            if kind in ("again", "dep"):
                need_again = True
                continue
            vals[n] = val
        again, ends = self._storage()
        if need_again or again:
            self._begin_pass(2)
            return True
        for u in upd:
            u()
        self._settle(vals, ends)
        for r in res:
            for x in r["alias"]:
                # arrays stored in two places
                if isinstance(x, PList):
                    x.shared = True
                elif isinstance(x, Arr):
                    x._tag = FROZEN
                elif isinstance(x, tuple) and isinstance(x[0], PList):
                    x[0].shared = True
                elif isinstance(x, tuple) and x in self.W:
                    typ, ob, extra = self.W[x]
                    v = ob.__dict__.get(extra)
                    if isinstance(v, Arr):
                        v._tag = FROZEN
        self.vals = vals
        self._raises()
        self._breaks()
        # rules created inside the body for a generic iteration are dropped with its path
        return self._finish()

    def _last(self, per):
        """value of a name first bound inside the loop, after the loop"""
        if len(per) == 1:
            r, v = per[0]
            hi1 = norm(SInt.of(self.hi - 1)) if self.rng.step == 1 else self.lo
            if isinstance(v, Arr) and not r["rules"]:
                if any(f.sym.name.startswith("Z#") for t in v.v.terms for f in t.fs):
                    return Poison("last iteration")
                return Arr(v.v.subst_site({r["k"]: hi1}))
            if isinstance(v, (SInt, int)) and not isinstance(v, bool):
                w = sint.subst_int(SInt.of(v), {r["k"]: hi1})
                if not any(x.startswith("Zi#") for x in w.vars()):
                    return simp(norm(w))
            if v is None:
                return None
        return Poison("last iteration of %s" % self.where)

    def _sum_cell(self, key, per, init):
        """('val', closed form) or ('again', None)"""
        c = ctx()
        start_z = {}
        # integers
        ivals = [v for _, v in per if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        if isinstance(init, (int, SInt)) and not isinstance(init, bool) and len(ivals) == len(per) and key not in self.counters:
            return self._sum_int(key, per, init)
        if key in self.folds:
            fo = self.folds[key]
            if any(kk == key for r, _ in per for kk in r["zs"].values()):
                return "again", None       # registered during this pass
            for r, v in per:
                if isinstance(v, str):
                    raise Unsupported("loop-carried value without closed form (%s)" % self.where)
                want = fo.step(r["kv"], fo.upto(r["kv"]))
                g = v if isinstance(v, Val) else Arr.of(v).v
                if not net.equal(g, want, c.rules + r["rules"])[0]:
                    raise Unsupported("loop-carried value without closed form (%s)" % self.where)
            out = fo.total()
            return "val", (out if isinstance(init, Val) else Arr(out))
        if key in self.carried:
            f = self.carried[key]
            for r, v in per:
                want = r["wants"][key]
                ok = isinstance(v, Arr) and len(v.shape) == len(want.axes) and net.equal(v.v, want, c.rules + r["rules"])[0]
                if not ok:
                    raise Unsupported("loop-carried value is not the one the contract names (%s)" % self.where)
            return "val", Arr.of(f(self.hi if self.rng.step == 1 else norm(SInt.of(self.lo - 1)))).copy()
        if key in self.counters:
            f = self.counters[key]
            for r, v in per:
                want = norm(SInt.of(f(r["kv"] + 1 if self.rng.step == 1 else r["kv"] - 1)))
                if v == "unchanged" or not isinstance(v, (int, SInt)) or not net.same_dim(SInt.of(v), want):
                    if key in self.guessed:
                        self.guessed.discard(key)
                        self.noguess.add(key)
                        del self.counters[key]
                        return "again", None
                    raise Unsupported("counter without closed form (%s)" % self.where)
            return "val", simp(norm(SInt.of(f(self.hi if self.rng.step == 1 else SInt.of(self.lo - 1)))))
        arrs = []
        for r, v in per:
            if isinstance(v, str) and v == "unchanged":
                arrs.append((r, "unchanged"))
            elif isinstance(v, Val):
                arrs.append((r, v))
            elif isinstance(v, Arr):
                arrs.append((r, v.v))
            elif isinstance(v, (int, float, complex, SInt)) and not isinstance(v, bool):
                arrs.append((r, Arr.of(v).v))
            else:
                # None / objects: unchanged everywhere?
                if all(x is init for _, x in per):
                    return "val", init
                return "val", Poison("loop result at %s" % self.where)
        if not isinstance(init, (Val, Arr, int, float, complex, SInt)):
            return "val", Poison("loop result at %s" % self.where)
        is_val = isinstance(init, Val)
        iv = init if is_val else Arr.of(init).v
        try:
            merged = self._merge(key, arrs)
        except Unsupported:
            out = None if is_val is False and not isinstance(init, Arr) else self._case_rows(key, arrs, iv)
            if out is None:
                raise
            return "val", (out if is_val else Arr(out))
        r, v = merged
        if isinstance(v, str):
            return "val", init
        v = net.collect(net.normalise(net.drop_ones(v), c.rules + r["rules"]))
        zn = [n for n, kk in r["zs"].items() if kk == key]
        znames = set(n for n in r["zs"])
        own = zn[0] if zn else None
        zt, gt = [], []
        for t in v.terms:
            hits = [f.sym.name for f in t.fs if f.sym is not net.DELTA and f.sym.name in znames]
            if any(x.startswith("Zi#") for f in t.fs for x in _fac_vars(f)):
                raise Unsupported("loop effect depends on a counter (%s)" % self.where)
            if not hits:
                gt.append(t)
            elif hits == [own]:
                zt.append(t)
            else:
                others = {x for x in hits if x != own}
                done = False
                for x in sorted(others):
                    kk = r["zs"][x]
                    if kk in self.folds or kk in self.counters:
                        continue
                    if not self._register_fold(kk):
                        raise Unsupported("loop-carried dependency between cells at %s" % self.where)
                    done = True
                if done:
                    return "dep", None
                raise Unsupported("loop-carried dependency between cells at %s" % self.where)
        if r["rules"] and not self._rules_local(r, v):
            raise Unsupported("values introduced by a library contract inside a symbolic loop (%s)" % self.where)
        try:
            out = self._closed_form(r, v, own, zt, gt, iv)
        except Unsupported as e:
            fo = self._make_fold(r, v, own, zt, gt, iv)
            if fo is None:
                raise
            out = fo.total()
        if is_val:
            return "val", out
        return "val", Arr(out)

    def _rules_local(self, r, v):
        names = set()
        for x in r["rules"]:
            names.update(rule_names(x))
        for t in v.terms:
            for f in t.fs:
                if f.sym is not net.DELTA and f.sym.name in names:
                    return False
        return True

    def _sum_int(self, key, per, init):
        zn = None
        inc = None
        last = None
        for r, v in per:
            v = norm(SInt.of(v))
            z = [n for n, kk in r["zs"].items() if kk == key]
            if z and z[0] in v.vars():
                d = norm(SInt.of(v - SInt.var(z[0])))
                if not d.is_const():
                    raise Unsupported("counter step is not constant (%s)" % self.where)
                if inc is None:
                    inc = d.const()
                elif inc != d.const():
                    raise Unsupported("counter with conditional step (%s)" % self.where)
            else:
                last = (r, v)
        if inc is not None:
            if last is not None:
                raise Unsupported("counter reset in loop")
            self._counter(key, init, inc)
            return "again", None
        if len(per) == 1:
            r, v = last
            hi1 = norm(SInt.of(self.hi - 1)) if self.rng.step == 1 else self.lo
            if any(x.startswith("Zi#") for x in v.vars()):
                return "val", Poison("integer after loop")
            if r["k"] in v.vars():
                # set from the current index: the previous one's at the start of an iteration, if that is the initial value, too
                prev = -self.rng.step
                if net.same_dim(norm(SInt.of(sint.subst_int(v, {r["k"]: SInt.of(self.first() + prev)}))), norm(SInt.of(init))):
                    self.counters[key] = lambda k: simp(norm(sint.subst_int(v, {r["k"]: SInt.of(k + prev)})))
                    return "again", None
            return "val", simp(norm(sint.subst_int(v, {r["k"]: hi1})))
        return "val", Poison("integer after loop")

    def _case_rows(self, key, arrs, init):
        """one row written per iteration, with different values on different paths: a family of rows by cases"""
        c = ctx()
        cases, xi, shape, off = [], None, None, None
        for r, v in arrs:
            conds = []
            for f, tr in zip(r["forks"], r["prefix"]):
                if getattr(f, "expr", None) is None:
                    return None
                op, d = f.expr
                conds.append((op, norm(SInt.of(d)), tr != f.neg))
            if len(r["forks"]) != len(r["prefix"]):
                return None
            row = None
            if not isinstance(v, str):
                v = net.collect(net.normalise(net.drop_ones(v), c.rules + r["rules"]))
                own = [n for n, kk in r["zs"].items() if kk == key]
                if len(own) != 1 or (r["rules"] and not self._rules_local(r, v)):
                    return None
                own = own[0]
                if any(x.startswith("Zi#") for t in v.terms for f in t.fs for x in _fac_vars(f)):
                    return None
                zt, gt = [], []
                for t in v.terms:
                    hits = [f.sym.name for f in t.fs if f.sym is not net.DELTA and f.sym.name in r["zs"]]
                    if hits and hits != [own]:
                        return None
                    (zt if hits else gt).append(t)
                plain = [t for t in zt if is_identity_term(t, v.axes, own)]
                masks = [t for t in zt if t not in plain]
                if len(plain) == 1 and plain[0].c == net.ONE and not masks and not gt:
                    cases.append([r["k"], conds, None])     # nothing was written
                    continue
                if len(plain) != 1 or plain[0].c != net.ONE or len(masks) != 1 or masks[0].c != net.cx(-1) or masks[0].dims:
                    return None
                ds = [f for f in masks[0].fs if f.sym is net.DELTA]
                if len(ds) != 1 or len(masks[0].fs) != 2:
                    return None
                (p,), (q,) = ds[0].args
                x, cn = (q, p) if isinstance(p, Cn) else (p, q)
                if not isinstance(x, Ix) or not isinstance(cn, Cn) or (x,) not in [tuple(a) for a in v.axes]:
                    return None
                ai = [tuple(a) for a in v.axes].index((x,))
                o = norm(SInt.of(cn.val - r["kv"]))
                if r["k"] in o.vars():
                    # a path on which the iteration is a particular one
                    o = norm(SInt.of(sint.subst_int(SInt.of(cn.val - r["kv"]), r["subst"])))
                if r["k"] in o.vars():
                    return None
                if xi is None:
                    xi, off, n = ai, o, SInt.of(x.dim)
                elif ai != xi or not net.same_dim(o, off):
                    return None
                terms = []
                for t in gt:
                    ok = None
                    for f in t.fs:
                        if f.sym is net.DELTA and len(f.args[0]) == 1 and len(f.args[1]) == 1:
                            a, b = f.args[0][0], f.args[1][0]
                            y = b if a is x else a if b is x else None
                            if isinstance(y, Cn) and net.same_dim(y.val, cn.val):
                                ok = f
                    if ok is None or any(p is x for f in t.fs if f is not ok for p in f.parts()):
                        return None
                    terms.append(Term(t.c, [f for f in t.fs if f is not ok], t.dims))
                axes = [a for j, a in enumerate(v.axes) if j != ai]
                if any(r["k"] in norm(p.dim).vars() for a in axes for p in a):
                    return None
                row = Val(axes, terms)
                shape = row.shape()
            cases.append([r["k"], conds, row])
        if xi is None or xi != 0:
            return None
        kv = norm(SInt.of(SInt.var("kappa") - off))
        cs = [([(op, SInt.of(sint.subst_int(d, {k: kv})), tr) for op, d, tr in conds],
               None if row is None else row.subst_site({k: kv})) for k, conds, row in cases]
        lo, hi = norm(SInt.of(self.lo + off)), norm(SInt.of(self.hi + off))
        s = net.CaseFamily(cs, shape, n, lo, hi, init).sym()
        return Val(init.axes, [Term(net.ONE, (Fac(s, False, [tuple(a) for a in init.axes]),), ())])

    def _merge(self, key, arrs):
        """combine the path results into one expression"""
        if len(arrs) == 1:
            return arrs[0]
        c = ctx()
        # normalise placeholders and loop variables to those of the first path
        r0 = arrs[0][0]
        zall = dict(r0["zs"])
        items = []
        own = [n for n, kk in r0["zs"].items() if kk == key]
        for r, v in arrs:
            if isinstance(v, str):
                if not own:
                    raise Unsupported("merge of unchanged cell")
                # unchanged: the placeholder itself
                dims = None
                v = None
            else:
                ren = {}
                for n, kk in r["zs"].items():
                    for n0, kk0 in r0["zs"].items():
                        if kk == kk0 and n != n0:
                            ren[n] = n0
                v = rename_syms(v, ren)
                if r["k"] != r0["k"]:
                    v = v.subst_site({r["k"]: r0["kv"]})
            items.append([r, v])
        shape_src = [v for _, v in items if v is not None]
        if not shape_src:
            return r0, "unchanged"
        for it in items:
            if it[1] is None:
                z = Sym(own[0], (), [SInt.of(d) for d in shape_src[0].shape()])
                it[1] = Val.of_sym(z)
        # binary decision tree over the recorded decisions
        rules = list(c.rules)
        for r, _ in items:
            rules += [x for x in r["rules"] if x not in rules]

        def build(its, depth):
            if len(its) == 1:
                return its[0][1]
            # all share the first `depth` decisions
            tr = [i for i in its if i[0]["prefix"][depth] is True]
            fa = [i for i in its if i[0]["prefix"][depth] is False]
            if not tr:
                return build(fa, depth + 1)
            if not fa:
                return build(tr, depth + 1)
            a, b = build(tr, depth + 1), build(fa, depth + 1)
            if net.equal(a, b, rules)[0]:
                return a
            zi = None
            for i in tr:
                zi = i[0]["forks"][depth] if depth < len(i[0].get("forks", ())) else None
            zero = getattr(zi, "zero", None)
            if zero is not None:
                nz, z0 = (b, a) if not zi.neg else (a, b)
                # zi: "x == 0" (neg False) or "x != 0" (neg True)
                if zi.neg:
                    nz, z0 = a, b
                else:
                    nz, z0 = b, a
                zz = drop_factor(nz, zero)
                if net.equal(zz, drop_factor(z0, zero), rules)[0]:
                    return nz
            raise Unsupported("loop body paths have different effects (%s)" % self.where)
        return r0, build(items, 0)

    def _closed_form(self, r, v, own, zt, gt, init):
        c = ctx()
        k = r["k"]
        axes = v.axes
        g = Val(axes, gt)
        if not zt:
            if not gt:
                return Val(init.axes, ())
            # overwritten completely in every iteration: last value
            hi1 = norm(SInt.of(self.hi - 1)) if self.rng.step == 1 else self.lo
            return g.subst_site({k: hi1})
        # Z itself?
        plain = [t for t in zt if is_identity_term(t, axes, own)]
        rest = [t for t in zt if t not in plain]
        if len(plain) != 1 or plain[0].c != net.ONE:
            raise Unsupported("loop effect is not an update of the previous value (%s)" % self.where)
        if not rest:
            s = sum_over(g, k, self.lo, self.hi)
            return net.add(init, s)
        # masked overwrite:  Z - Z*M_k + g_k   (g_k may read the row it overwrites: that row still has its value from
        # before the loop, because every iteration writes only its own row)
        masks = [t for t in rest if t.c == net.cx(-1) and len([f for f in t.fs if f.sym is not net.DELTA]) == 1 and not t.dims
                 and [f.sym.name for f in t.fs if f.sym is not net.DELTA] == [own]
                 and any(f.sym is net.DELTA for f in t.fs)]
        if len(rest) > 1 and len(masks) == 1:
            gt = gt + self._own_rows([t for t in rest if t is not masks[0]], masks[0], axes, own, init, r)
            rest = masks
        if len(rest) != 1 or rest[0].c != net.cx(-1):
            raise Unsupported("unrecognised update (%s)" % self.where)
        m = rest[0]
        kd = [f for f in m.fs if f.sym is net.DELTA and any(isinstance(p, Cn) and k in norm(p.val).vars() for p in f.parts())]
        if len(kd) != 1:
            raise Unsupported("unrecognised overwrite mask (%s)" % self.where)
        (p,), (q,) = kd[0].args
        x, cn = (q, p) if isinstance(p, Cn) else (p, q)
        off = norm(SInt.of(cn.val - r["kv"]))
        if k in off.vars() or not isinstance(x, Ix):
            raise Unsupported("overwrite position is not an offset of the loop variable (%s)" % self.where)
        a, b = norm(SInt.of(self.lo + off)), norm(SInt.of(self.hi + off))
        full = (net.same_dim(a, SInt.of(0)) and net.same_dim(b, x.dim))
        new_terms = []
        pos = None
        for t in gt:
            hit = [f for f in t.fs if f.sym is net.DELTA and ((f.args[0] == (x,) and isinstance(f.args[1][0], Cn))
                                                             or (f.args[1] == (x,) and isinstance(f.args[0][0], Cn)))]
            ok = None
            for f in hit:
                cc = f.args[1][0] if f.args[0] == (x,) else f.args[0][0]
                if net.same_dim(cc.val, cn.val):
                    ok = f
            if ok is None:
                raise Unsupported("overwritten value not confined to the written position (%s)" % self.where)
            fs = [f for f in t.fs if f is not ok]
            new_terms.append(Term(t.c, fs, t.dims))
        if full:
            base = Val(axes, [t for t in ()])
            gv = replace_pos(Val(axes, new_terms), k, x, off)
            if gv is None:
                gv = as_family(Val(axes, new_terms), k, x, off)
            if not any(f.sym is net.DELTA for f in m.fs if f is not kd[0]):
                return gv.reduce()
            mask = [f for f in m.fs if f.sym is net.DELTA and f is not kd[0]]
            # Z - Z*rest + g
            iv = net.align_axes(init, axes)
            t2 = [Term(net.cmul(t.c, net.cx(-1)), tuple(t.fs) + tuple(mask), t.dims) for t in iv.terms]
            return net.collect(Val(axes, list(iv.terms) + t2 + list(gv.terms)))
        if any(f.sym is net.DELTA for f in m.fs if f is not kd[0]):
            raise Unsupported("partial overwrite (%s)" % self.where)
        return as_family(Val(axes, new_terms), k, x, off, a, b, net.align_axes(init, axes))

    def _make_fold(self, r, v, own, zt, gt, init):
        """Z -> F_k(Z) with F_k linear: the ordered product of the F_k, a symbol identified by the canonical form of F_k"""
        if gt or not zt or own is None:
            return None
        zd = self.zdims[own]
        ina = [net.axis_for(d) for d in zd]
        terms = []
        for t in zt:
            hs = [i for i, f in enumerate(t.fs) if f.sym is not net.DELTA and f.sym.name == own]
            if len(hs) != 1 or t.fs[hs[0]].conj:
                return None
            fs = [f for i, f in enumerate(t.fs) if i != hs[0]]
            for a, b in zip(t.fs[hs[0]].args, ina):
                if len(a) != len(b):
                    return None
                fs.extend(net.deltas_of(b, a))
            terms.append(Term(t.c, tuple(fs), t.dims))
        kernel = Val(tuple(v.axes) + tuple(ina), terms)
        if not all(net.same_dim(SInt.of(sint.subst_int(SInt.of(d), {r["k"]: self.first()})), SInt.of(e))
                   for d, e in zip(zd, init.shape())):
            return None
        nxt = SInt.of(r["kv"] + self.rng.step)
        for d, o in zip(zd, v.shape()):
            if not net.same_dim(SInt.of(sint.subst_int(SInt.of(d), {r["k"]: nxt})), SInt.of(o)):
                return None
        return Fold(kernel, r["k"], len(v.axes), zd, init, self.lo, self.hi, self.rng.step)

    def _register_fold(self, key):
        c = ctx()
        res = self.results
        if key[0] != "loc":
            return False
        n = key[1]
        init = self.loc0[n]
        if not isinstance(init, Arr):
            return False
        arrs = []
        for r in res:
            v = r["locv"][n]
            if not isinstance(v, Arr):
                return False
            arrs.append((r, v.v))
        r, v = self._merge(key, arrs)
        if isinstance(v, str):
            return False
        v = net.collect(net.normalise(net.drop_ones(v), c.rules + r["rules"]))
        own = [x for x, kk in r["zs"].items() if kk == key]
        if not own or (r["rules"] and not self._rules_local(r, v)):
            return False
        own = own[0]
        for t in v.terms:
            hits = [f.sym.name for f in t.fs if f.sym is not net.DELTA and f.sym.name in r["zs"]]
            if hits != [own]:
                return False
        fo = self._make_fold(r, v, own, list(v.terms), [], init.v)
        if fo is None:
            return False
        self.folds[key] = fo
        return True

    def _own_rows(self, ts, m, axes, own, init, r):
        """terms that read the row being overwritten, with the row's value from before the loop put in"""
        ds = [f for f in m.fs if f.sym is net.DELTA]
        if len(ds) != 1:
            raise Unsupported("unrecognised update (%s)" % self.where)
        (p,), (q,) = ds[0].args
        x, cn = (q, p) if isinstance(p, Cn) else (p, q)
        if not isinstance(x, Ix) or not isinstance(cn, Cn) or (x,) not in [tuple(a) for a in axes]:
            raise Unsupported("unrecognised update (%s)" % self.where)
        ai = [tuple(a) for a in axes].index((x,))
        off = norm(SInt.of(cn.val - r["kv"]))
        if r["k"] in off.vars():
            raise Unsupported("unrecognised update (%s)" % self.where)
        out = []
        for t in ts:
            hs = [i for i, f in enumerate(t.fs) if f.sym is not net.DELTA and f.sym.name == own]
            if len(hs) != 1 or not any(f.sym is net.DELTA and fac_key(f) == fac_key(ds[0]) for f in t.fs):
                raise Unsupported("unrecognised update (%s)" % self.where)
            f = t.fs[hs[0]]
            a = tuple(f.args[ai])
            if not (len(a) == 1 and (a[0] is x or (isinstance(a[0], Cn) and net.same_dim(a[0].val, cn.val)))):
                raise Unsupported("loop-carried dependency between rows (%s)" % self.where)
            out.extend(net.expand_factor(t, hs[0], init.conj() if f.conj else init, None))
        return out

    def _sum_list(self, key, pl, info):
        c = ctx()
        up = self.rng.step == 1
        spec = c.specs.get(pl.name) if pl.name else None
        lo, hi = self.lo, self.hi
        n_app = info["append"]
        res = self.results
        if n_app:
            len0 = norm(SInt.of(pl.length()))
            if spec is not None:
                a, b = len0, norm(SInt.of(len0 + (hi - lo) * n_app))

                def ap():
                    pl._log(("all",))
                    pl.to_symbolic()
                    pl.sym[0] = b
                    pl.sym[2] = pl.sym[2] + (("range", a, b, spec),)
                    pl.sym[3] = {}
                return ap
            if any(r["reads"] for r in res) or n_app != 1:
                raise Unsupported("appending loop without a closed form (%s)" % self.where)
            const = info.get("const")
            if const is not None:
                for r in res:
                    (i, val), = r["finals"][key]
                    if not isinstance(val, Arr) or len(val.shape) != len(const.shape) or not all(
                            net.same_dim(norm(SInt.of(a)), norm(SInt.of(b))) for a, b in zip(val.shape, const.shape)) or not net.equal(
                            val.v, const.v)[0]:
                        # not the same in every iteration: then none may have been read
                        self.W[key][2]["const"] = None
                        raise _Again()
            if len(res) > 1:
                paths = []
                for r in res:
                    (i, val), = r["finals"][key]
                    self._no_placeholder(r, val)
                    paths.append((r, val))
                return self._sum_list_paths(pl, paths, lambda i: norm(SInt.of(i - len0 + lo) if up else SInt.of(hi - 1 - (i - len0))),
                                            len0, norm(SInt.of(len0 + (hi - lo))), True)
            (r,) = res
            (i, val), = r["finals"][key]
            self._no_placeholder(r, val)

            def fn(i, r=r, val=val):
                kk = SInt.of(i - len0 + lo) if up else SInt.of(hi - 1 - (i - len0))
                return subst_obj(val, {r["k"]: norm(kk)})
            b = norm(SInt.of(len0 + (hi - lo)))

            def ap():
                pl._log(("all",))
                pl.to_symbolic()
                pl.sym[0] = b
                pl.sym[2] = pl.sym[2] + (("range", len0, b, fn),)
                pl.sym[3] = {}
            return ap
        offs = info["offs"]
        if offs is None:
            raise Unsupported("list written at unrecognised positions (%s)" % self.where)
        if spec is not None:
            rngs = [(norm(SInt.of(lo + o)), norm(SInt.of(hi + o))) for o in offs]
            # which positions are certainly written: every path writes each offset
            always = all(key in r["finals"] and len(r["finals"][key]) == len(offs) for r in res)
            if not always and not c.hooks.get("partial_lists", {}).get(pl.name):
                # positions not written on some path keep their value: allowed when the previous value already is the
                # family value there
                pass

            def ap():
                pl._log(("all",))
                pl.to_symbolic()
                for a, b in rngs:
                    pl.sym[2] = pl.sym[2] + (("range", a, b, spec),)
                pl.sym[3] = {}
            if not always:
                raise Unsupported("conditional element writes (%s)" % self.where)
            return ap
        if any(r["reads"] for r in res):
            raise Unsupported("loop-carried list (%s)" % self.where)
        if len(offs) != 1:
            raise Unsupported("several element writes per iteration (%s)" % self.where)
        o = offs[0]
        paths = []
        for r in res:
            if not r["finals"].get(key):
                paths.append((r, "unchanged"))
                continue
            (i, val), = r["finals"][key]
            self._no_placeholder(r, val)
            paths.append((r, val))
        if len(paths) > 1:
            return self._sum_list_paths(pl, paths, lambda i: norm(SInt.of(i - o)), norm(SInt.of(lo + o)), norm(SInt.of(hi + o)))
        r, val = paths[0]

        def fn(i):
            return subst_obj(val, {r["k"]: norm(SInt.of(i - o))})

        def ap():
            pl._log(("all",))
            pl.to_symbolic()
            pl.sym[2] = pl.sym[2] + (("range", norm(SInt.of(lo + o)), norm(SInt.of(hi + o)), fn),)
            pl.sym[3] = {}
        return ap

    def _sum_list_paths(self, pl, paths, at, a, b, append=False):
        """different values on different paths: the deciding conditions are re-evaluated at the element read"""
        for r, v in paths:
            for f in r.get("forks", ()):
                if getattr(f, "expr", None) is None:
                    raise Unsupported("element writes under an opaque condition (%s)" % self.where)
        old = pl.copy()

        def fn(i):
            for r, v in paths:
                ok = True
                mp = {r["k"]: at(i)}
                for f, val in zip(r["forks"], r["prefix"]):
                    op, d = f.expr
                    bb = bool(sint.cmp_(op, sint.subst_int(d, mp), SInt.of(0)))
                    if f.neg:
                        bb = not bb
                    if bb != val:
                        ok = False
                        break
                if ok:
                    if isinstance(v, str):
                        return old._get(i)
                    return subst_obj(v, mp)
            raise Unsupported("no path for list element")

        def ap():
            pl._log(("all",))
            pl.to_symbolic()
            if append:
                pl.sym[0] = b
            pl.sym[2] = pl.sym[2] + (("range", a, b, fn),)
            pl.sym[3] = {}
        return ap

    def _no_fresh(self, r, n):
        """an integer introduced in the iteration (a number of eigenvalues, say) has no name outside it"""
        for v in SInt.of(n).vars():
            if "#" in v and v != r["k"] and v not in r["zs"] and int(v.rsplit("#", 1)[1]) > r["id0"]:
                raise Unsupported("an integer introduced inside a symbolic loop (%s)" % self.where)

    def _no_placeholder(self, r, val):
        if isinstance(val, SInt):
            self._no_fresh(r, val)
        if isinstance(val, Arr):
            for d in val.v.shape():
                self._no_fresh(r, d)
            for t in val.v.terms:
                for f in t.fs:
                    if f.sym is not net.DELTA and f.sym.name in r["zs"]:
                        kk = r["zs"][f.sym.name]
                        if kk not in self.folds and kk not in self.counters and self._register_fold(kk):
                            raise _Again()
                        raise Unsupported("element depends on loop-carried state (%s)" % self.where)
            if r["rules"] and not self._rules_local(r, val.v):
                raise Unsupported("values introduced by a library contract inside a symbolic loop (%s)" % self.where)
        elif isinstance(val, PList) and not val.symbolic():
            for x in val.concrete():
                self._no_placeholder(r, x)
        elif isinstance(val, PList):
            j = ctx().fresh("el")
            with ctx().generic((j, 0, val.length())):
                self._no_placeholder(r, val._get(norm(j)))
        elif val is None or isinstance(val, (int, SInt, float, complex, str)):
            pass
        elif hasattr(val, "__dict__"):
            for x in val.__dict__.values():
                if isinstance(x, Arr):
                    self._no_placeholder(r, x)
        else:
            raise Unsupported("list element of type %s written in a symbolic loop" % type(val).__name__)


class _Again(Exception):
    """a loop-carried value got a closed form: run the pass again"""


def snapshot(x):
    """the value now (in-place changes made in the loop body are undone at the end of a pass)"""
    if isinstance(x, Arr) and x._base is None:
        return Arr(x._v, x.dt)
    if type(x) is PList and not x.symbolic():
        return PList([snapshot(y) for y in x.concrete()])
    return x


def rule_names(x):
    out = set()
    if hasattr(x, "names"):
        out.update(x.names)
    if hasattr(x, "rules"):
        for y in x.rules:
            out.update(rule_names(y[0]))
    if getattr(x, "name", None):
        out.add(x.name)
    return out


def _fac_vars(f):
    out = set()
    if f.sym is not net.DELTA:
        for p in f.sym.params:
            out |= p.vars()
    for p in f.parts():
        if isinstance(p, Cn):
            out |= norm(p.val).vars()
    return out


def undo(mark, seq0):
    """changes to what was made after seq0 stay: only the results of the undone path refer to it"""
    c = ctx()
    j = c.journal
    while len(j) > mark:
        e = j.pop()
        if e[0] in ("arr", "list") and e[1].seq > seq0:
            continue
        if e[0] == "attr" and getattr(e[1], "__dict__", {}).get("_tcv_seq", 0) > seq0:
            continue
        if e[0] == "arr":
            e[1]._v = e[2]
        elif e[0] == "attr":
            from .load import MISSING
            if e[3] is MISSING:
                e[1].__dict__.pop(e[2], None)
            else:
                e[1].__dict__[e[2]] = e[3]
        elif e[0] == "list":
            e[1]._restore(e[2])
            if e[1].sym is not None:
                # elements first looked at on the undone path
                for k, x in list(e[1].sym[3].items()):
                    if getattr(x, "seq", 0) > seq0 or getattr(x, "__dict__", {}).get("_tcv_seq", 0) > seq0:
                        del e[1].sym[3][k]
        elif e[0] == "tag":
            e[1]._tag = e[2]
        elif e[0] == "cache":
            if e[1].get(e[2]) is e[3]:
                del e[1][e[2]]


def rename_syms(v, ren):
    if not ren:
        return v
    terms = []
    for t in v.terms:
        fs = []
        for f in t.fs:
            if f.sym is not net.DELTA and f.sym.name in ren:
                s = f.sym
                fs.append(Fac(Sym(ren[s.name], s.params, s.dims, s.herm, s.real, s.meta), f.conj, f.args))
            else:
                fs.append(f)
        terms.append(Term(t.c, fs, t.dims))
    return Val(v.axes, terms)


def is_identity_term(t, axes, own):
    if len(t.fs) != 1 or t.dims:
        return False
    f = t.fs[0]
    return (not f.conj) and f.sym.name == own and [p for a in f.args for p in a] == [p for a in axes for p in a]


def drop_factor(v, fac):
    """v with the (fixed-position) entry `fac` set to zero"""
    out = []
    if isinstance(fac, Term):
        return Val(v.axes, [t for t in v.terms if not has_product(t, fac, v.axes)])
    key = fac_key(fac)
    for t in v.terms:
        if any(f.sym is not net.DELTA and fac_key(f) in (key,) for f in t.fs):
            continue
        if any(f.sym is not net.DELTA and fac_key(Fac(f.sym, not f.conj, f.args)) == key for f in t.fs):
            continue
        out.append(t)
    return Val(v.axes, out)


def has_product(t, z, axes):
    """is the term t a multiple of the contracted scalar product z (whose free positions are fixed)?"""
    open_ = set(id(p) for a in axes for p in a)
    uses = {}
    for f in t.fs:
        for p in f.parts():
            if isinstance(p, Ix):
                uses[id(p)] = uses.get(id(p), 0) + 1
    for flip in (False, True):
        zs = [f if not flip else Fac(f.sym, not f.conj, f.args) for f in z.fs]

        def match(i, used, mp):
            if i == len(zs):
                cnt = {}
                for j in used:
                    for p in t.fs[j].parts():
                        if isinstance(p, Ix):
                            cnt[id(p)] = cnt.get(id(p), 0) + 1
                return all(uses[x] == n and x not in open_ for x, n in cnt.items())
            g = zs[i]
            for j, f in enumerate(t.fs):
                if j in used or f.sym is net.DELTA or f.sym.name != g.sym.name or f.sym.key() != g.sym.key() or f.conj != g.conj:
                    continue
                m = dict(mp)
                ok = True
                fp, gp = list(f.parts()), list(g.parts())
                if len(fp) != len(gp):
                    continue
                for a, b in zip(fp, gp):
                    if isinstance(a, Ix) != isinstance(b, Ix):
                        ok = False
                    elif isinstance(a, Ix):
                        if m.setdefault(("z", id(b)), id(a)) != id(a) or m.setdefault(("t", id(a)), id(b)) != id(b):
                            ok = False
                    elif not net.same_dim(a.val, b.val):
                        ok = False
                    if not ok:
                        break
                if ok and match(i + 1, used + [j], m):
                    return True
            return False
        if match(0, [], {}):
            return True
    return False


def fac_key(f):
    if any(isinstance(p, Ix) for p in f.parts()):
        return (str(f.sym.key()), f.conj, tuple(id(p) if isinstance(p, Ix) else net.canon_param(p.val) for p in f.parts()))
    return (str(f.sym.key()), f.conj, tuple(net.canon_param(p.val) for p in f.parts()))


def replace_pos(v, k, x, off):
    """entries at position k (the loop variable) become the open index x (position k + off = x)"""
    a = net.axis_for(x.dim)
    mp = {k: ((x,), SInt.of(x.dim))}
    if not (norm(off).is_const() and norm(off).const() == 0):
        return None
    for t in v.terms:
        for f in t.fs:
            if f.sym is not net.DELTA and any(k in norm(p).vars() for p in f.sym.params):
                return None
            if f.sym is not net.DELTA and hasattr(f.sym.meta, "subst") and (
                    not isinstance(f.sym.meta, FoldKernel) or k in f.sym.meta.vs):
                return None
            if any(k in norm(p.dim).vars() for p in f.parts()):
                return None
    return net.positions_to_indices(v, mp, keep=True)


def as_family(v, k, x, off, lo=None, hi=None, base=None):
    """rows g(k) written at position k + off = x that differ in more than the position: a family of rows"""
    if (x,) not in [tuple(a) for a in v.axes]:
        raise Unsupported("rows of a split axis")
    i = [tuple(a) for a in v.axes].index((x,))
    axes = [a for j, a in enumerate(v.axes) if j != i]
    for a in axes:
        if any(k in norm(p.dim).vars() for p in a):
            raise Unsupported("rows of varying shape")
    for t in v.terms:
        if any(p is x for f in t.fs for p in f.parts()):
            raise Unsupported("row depends on its own index")
    row = Val(axes, v.terms).subst_site({k: norm(SInt.of(SInt.var("kappa") - off))})
    if base is not None:
        base = base.transpose([i] + [j for j in range(len(v.axes)) if j != i])
    s = net.Family(row, x.dim, lo, hi, base).sym()
    ax = (x,)
    ren = [tuple(a) for a in axes]
    return Val(v.axes, [Term(net.ONE, (Fac(s, False, [ax] + ren),), ())])


def sum_over(v, k, lo, hi):
    """sum of v over the integer variable k in [lo, hi)"""
    n = norm(SInt.of(hi - lo))
    out = None
    terms = []
    fr = v.free()
    for t in v.terms:
        t = net.freshen(t, fr)
        in_param = any(f.sym is not net.DELTA and any(k in p.vars() for p in f.sym.params) for f in t.fs) \
            or any(k in p.dim.vars() for f in t.fs for p in f.parts()) or any(k in d.vars() for d in t.dims)
        in_pos = any(isinstance(p, Cn) and k in norm(p.val).vars() for f in t.fs for p in f.parts())
        if in_param:
            terms.append(big_sum(t, v.axes, k, lo, hi))
            continue
        if not in_pos:
            if n.is_const():
                terms.append(Term(net.cmul(t.c, net.cx(n.const())), t.fs, t.dims))
            else:
                terms.append(Term(t.c, t.fs, tuple(t.dims) + (n,)))
            continue
        terms.extend(sum_positions(t, v.axes, k, lo, hi))
    return Val(v.axes, terms).reduce()


def sum_positions(t, axes, k, lo, hi):
    kv = SInt.var(k)
    # dimension of the axes on which k runs
    pos = [p for f in t.fs for p in f.parts() if isinstance(p, Cn) and k in norm(p.val).vars()]
    mods = [p for p in pos if any(a[0] in ("mod", "div") for a in norm(p.val).atoms())]
    if mods:
        return sum_digits(t, axes, k, lo, hi)
    dims = []
    offs = []
    for p in pos:
        o = norm(SInt.of(p.val - kv))
        if k in o.vars():
            raise Unsupported("sum over a position that is not an offset of the loop variable")
        offs.append(o)
        dims.append(p.dim)
    D = None
    for p, o in zip(pos, offs):
        if net.same_dim(SInt.of(lo + o), SInt.of(0)) and net.same_dim(SInt.of(hi + o), p.dim):
            D = p.dim
            break
    n = norm(SInt.of(hi - lo))
    x = Ix(n)            # x = k - lo
    extra = []

    mp = {}
    for p, o in zip(pos, offs):
        off = norm(SInt.of(lo + o))
        if net.same_dim(off, SInt.of(0)) and net.same_dim(n, p.dim):
            mp[p] = (x,)
        else:
            y = Ix(p.dim)
            extra.append(Fac(arr.inc_sym(off, n, p.dim), False, ((y,), (x,))))
            mp[p] = (y,)
    return [Term(t.c, tuple(net.subst_args(t.fs, mp)) + tuple(extra), t.dims)]


def sum_digits(t, axes, k, lo, hi):
    """k runs over a product of dimensions and is used through its mixed-radix digits"""
    lo, hi = norm(SInt.of(lo)), norm(SInt.of(hi))
    if not (lo.is_const() and lo.const() == 0):
        raise Unsupported("digit sum with offset")
    c = ctx()
    cur = SInt.var(k)
    rest = hi
    parts = []
    mp_int = {}
    expr = SInt.of(0)
    scale = SInt.of(1)
    # moduli in the order least significant first
    moduli = []

    def find_mod(q):
        for f in t.fs:
            for p in f.parts():
                if isinstance(p, Cn):
                    for a in norm(p.val).atoms():
                        if a[0] in ("mod", "div"):
                            x, y = c.atom_args[a]
                            if norm(x).key() == norm(q).key():
                                return y
        return None
    # discover chain
    digits = []
    q = SInt.var(k)
    acc = SInt.of(1)
    for _ in range(6):
        y = find_mod(q)
        if y is None:
            break
        # y may be a single modulus (k % y) or a divisor (k // y)
        digits.append(y)
        qq = sint.divmod_(q, y)[0]
        q = SInt.of(qq)
        if q.is_const():
            break
    radices = [norm(SInt.of(y)) for y in digits]
    prod = SInt.of(1)
    for y in radices:
        prod = SInt.of(prod * y)
    last = net.dim_div(hi, prod)
    if last is None:
        raise Unsupported("digit sum: radices do not divide the range")
    radices.append(last)
    # k = sum_j d_j * prod_{i<j} radix_i
    ds = []
    e = SInt.of(0)
    sc = SInt.of(1)
    tok = c.push_pc()
    try:
        for y in radices:
            d = c.fresh("dg")
            c.assume(sint.cmp_("<=", SInt.of(0), d))
            c.assume(sint.cmp_("<", d, SInt.of(y)))
            ds.append((list(d.vars())[0], norm(SInt.of(y))))
            e = SInt.of(e + d * sc)
            sc = SInt.of(sc * y)
        v = Val(axes, [t]).subst_site({k: e})
        vals = [v]
        out = v
        for nme, y in ds:
            out = sum_over(out, nme, SInt.of(0), y)
        for u in out.terms:
            for f in u.fs:
                for p in f.parts():
                    if isinstance(p, Cn) and any(nme in norm(p.val).vars() for nme, _ in ds):
                        raise Unsupported("digit sum")
    finally:
        c.pop_pc(tok)
    # subst_site made new index objects for the axes: rename back
    mp = {}
    for a, b in zip(out.axes, axes):
        for p, q in zip(a, b):
            mp[p] = (q,)
    return [Term(u.c, net.subst_args(u.fs, mp), u.dims) for u in out.terms]


def site_offset(fs, k):
    """the smallest constant offset from k of the site labels of the first symbol, to count sums by the site"""
    best = None
    for f in fs:
        if f.sym is net.DELTA:
            continue
        for i, p in enumerate(f.sym.params):
            p = norm(SInt.of(p))
            at = p.atoms()
            if len(at) == 1 and list(at)[0][0] == "mod" and p.key() == SInt({(list(at)[0],): 1}).key():
                p = norm(ctx().atom_args[list(at)[0]][0])
            if k not in p.vars():
                continue
            o = norm(SInt.of(p - SInt.var(k)))
            if not o.is_const():
                continue
            c = (f.sym.name, i, o.const())
            if best is None or c < best:
                best = c
    return best[2] if best is not None and best[2] else None


def big_sum(t, axes, k, lo, hi):
    """sum over site labels: a symbol identified by the canonical form of its summand.  What does not depend on the site is
    taken out of the sum; the open indices are put in an order that depends on the summand only"""
    parts = {q for a in axes for q in a}
    dep = lambda f: k in net.val_vars(Val((), [Term(net.ONE, (f,), ())]))
    own = [f for f in t.fs if f.sym is not net.DELTA and dep(f)]
    fixed = [f for f in t.fs if not any(f is g for g in own)]
    dims = tuple(d for d in t.dims if k not in norm(SInt.of(d)).vars())
    own_dims = tuple(d for d in t.dims if k in norm(SInt.of(d)).vars())
    if any(dep(f) for f in fixed):
        # a delta at a position that depends on the site
        own, fixed = list(t.fs), []
    outer = {p for f in fixed for p in f.parts()}
    legs = []
    for f in own:
        for p in f.parts():
            if isinstance(p, Ix) and (p in parts or p in outer) and not any(p is q for q in legs):
                legs.append(p)
    if any(k in norm(p.dim).vars() for p in legs):
        raise Unsupported("sum over sites of arrays of different shape")
    if len(legs) > 6:
        raise Unsupported("sum over sites of a tensor with many indices")
    c = ctx()
    kv = SInt.var("kappa")
    vs = set()
    o = site_offset(own, k)
    if o is not None:
        # sites k + o: count by the site instead
        lo, hi, kv = norm(SInt.of(lo + o)), norm(SInt.of(hi + o)), norm(SInt.of(kv - o))
    row = Val([(p,) for p in legs], [Term(net.ONE, tuple(own), own_dims)])
    if "kappa" in net.val_vars(row):
        raise Unsupported("sum inside a sum over the same sites")
    row = row.subst_site({k: kv})
    best = None
    kv = SInt.var("kappa")
    tok = c.push_pc()
    try:
        c.assume(sint.cmp_("<=", SInt.of(lo), kv))
        c.assume(sint.cmp_("<", kv, SInt.of(hi)))
        import itertools
        for pm in itertools.permutations(range(len(legs))):
            r = row.transpose(list(pm))
            key = min(arr.canon_str(r), arr.canon_str(r.conj()))
            if best is None or key < best[0]:
                best = (key, pm, r)
    finally:
        c.pop_pc(tok)
    s, conj = net.SumArr(best[2], lo, hi).sym()
    return Term(t.c, tuple(fixed) + (Fac(s, conj, [(legs[i],) for i in best[1]]),), dims)


def subst_obj(o, mp):
    if isinstance(o, Arr):
        return Arr(o.v.subst_site(mp), o.dt)
    if isinstance(o, SInt):
        return simp(norm(sint.subst_int(o, mp)))
    if isinstance(o, PList):
        if o.symbolic():
            n = sint.subst_int(norm(SInt.of(o.length())), mp)
            return PList.symbolic_list(n, lambda i: subst_obj(o._get(norm(SInt.of(i))), mp), o.name)
        return PList([subst_obj(x, mp) for x in o.concrete()])
    if o is None or isinstance(o, (int, float, complex, str, bool)):
        return o
    if hasattr(o, "__dict__") and not callable(o):
        import copy as cp
        r = cp.copy(o)
        for n, x in list(o.__dict__.items()):
            if isinstance(x, tuple):
                r.__dict__[n] = tuple(subst_obj(y, mp) for y in x)
            elif x is not None and not isinstance(x, arr.DType):
                r.__dict__[n] = subst_obj(x, mp)
        return r
    if callable(o):
        return o
    raise Unsupported("cannot specialise %s" % type(o).__name__)


def obj_equal(a, b):
    if callable(b) and not isinstance(b, Arr):
        return b(a)
    if a is None or b is None:
        return (a is b), "None"
    if isinstance(a, (Poison,)):
        raise Unsupported("specified element is unknown")
    va, vb = Arr.of(a).v, Arr.of(b).v
    return net.equal(va, vb)
