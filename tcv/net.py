"""Tensor networks: sums of products of tensor symbols with explicit index variables, over the Gaussian rationals.

A value (Val) is a polynomial in tensor entries: sum over terms, each a coefficient times a product of factors whose
index arguments are index variables (free: bound to an axis of the value; otherwise summed) or fixed positions.
An axis or argument may be composite (mixed radix, row major), which is how reshaping is represented.

`canon` computes a canonical form: equal canonical forms mean equal polynomials, hence equal arrays for all entries
and all dimensions.  Facts about symbols (an isometry, an inverse pair, a fixed point) enter as oriented rewrite rules.
"""
from fractions import Fraction as Fr
from . import sint
from .sint import SInt, SBool, Unsupported, SymRaise, norm, ctx, simp

_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class Ix(object):
    __slots__ = ("id", "dim")

    def __init__(self, dim):
        self.id = nid()
        self.dim = SInt.of(dim)

    def __repr__(self):
        return "i%d" % self.id


class Cn(object):
    """a fixed position on an axis of dimension dim"""
    __slots__ = ("val", "dim")

    def __init__(self, val, dim):
        self.val = SInt.of(val)
        self.dim = SInt.of(dim)

    def __repr__(self):
        return "@%s" % (self.val,)


# ------------------------------------------------------------------------------------------------------- numbers

def cx(x):
    if isinstance(x, tuple):
        return x
    if isinstance(x, bool):
        return (Fr(int(x)), Fr(0))
    if isinstance(x, int):
        return (Fr(x), Fr(0))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return (Fr(x), Fr(0))
    if isinstance(x, complex):
        return (Fr(x.real), Fr(x.imag))
    if isinstance(x, Fr):
        return (x, Fr(0))
    raise Unsupported("constant %r" % (x,))


ONE = cx(1)


def cmul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cconj(a):
    return (a[0], -a[1])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    if n == 0:
        raise SymRaise("division by zero")
    return (a[0] / n, -a[1] / n)


def czero(a):
    return a[0] == 0 and a[1] == 0


def cstr(a):
    return "%s+%sj" % a if a[1] else str(a[0])


# ------------------------------------------------------------------------------------------------------- symbols

class Sym(object):
    """A tensor symbol.  params: SInts (site labels).  dims: SInts.  kind flags: herm (two indices), real."""
    __slots__ = ("name", "params", "dims", "herm", "real", "meta")

    def __init__(self, name, params=(), dims=(), herm=False, real=False, meta=None):
        self.name = name
        self.params = tuple(SInt.of(p) for p in params)
        self.dims = tuple(SInt.of(d) for d in dims)
        self.herm = herm
        self.real = real
        self.meta = meta

    def key(self):
        return (self.name, tuple(canon_param(p) for p in self.params))

    def __repr__(self):
        if self.params:
            return "%s[%s]" % (self.name, ",".join(str(p) for p in self.params))
        return self.name


def canon_param(p):
    """canonical rendering of a site label under the current path (equal labels render equally)"""
    c = sint.CTX
    p = norm(p)
    if p.is_const():
        return str(p.const())
    if c is None:
        return repr(p)
    tab = c.caches.setdefault("param", {})
    k0 = k = p.key()
    if k in tab:
        return tab[k]
    if _has_mod(p):
        p = norm(sint.remod(p))
        if p.is_const():
            tab[k] = str(p.const())
            return tab[k]
        k = p.key()
        if k in tab:
            tab[k0] = tab[k]
            return tab[k]
    reps = c.caches.setdefault("param_reps", [])
    # syntactic normal forms first; then semantic equality by z3 with the known representatives
    if c.hooks.get("semantic_params", True):
        zp = None
        for (q, sq) in reps:
            if q.vars() == p.vars() or c.hooks.get("semantic_all") or _has_mod(p) or _has_mod(q):
                d = norm(SInt.of(p - q))
                if d.is_const():
                    continue
                zd = c.z(d)
                if c.entails(zd == 0):
                    tab[k] = sq
                    return sq
    s = repr(p)
    reps.append((p, s))
    tab[k] = s
    return s


def _has_mod(p):
    return any(a[0] in ("mod", "div") for a in p.atoms())


DELTA = Sym("delta")


class Fac(object):
    __slots__ = ("sym", "conj", "args")

    def __init__(self, sym, conj, args):
        if conj and sym.real:
            conj = False
        if conj and sym.herm:
            conj = False
            args = (args[1], args[0]) if sym.herm is True else (args[1], args[0], args[3], args[2])
        self.sym = sym
        self.conj = conj
        self.args = tuple(args)

    def parts(self):
        for a in self.args:
            for p in a:
                yield p

    def __repr__(self):
        return "%s%s%s" % (self.sym, "*" if self.conj else "", list(self.args))


class Term(object):
    __slots__ = ("c", "fs", "dims")

    def __init__(self, c, fs, dims=()):
        self.c = c
        self.fs = tuple(fs)
        self.dims = tuple(dims)     # scalar factors that are dimensions (sums over absent indices)

    def __repr__(self):
        return "%s*%s%s" % (cstr(self.c), list(self.fs), "".join("*(%s)" % d for d in self.dims))


def deltas_of(a, b):
    """delta factors between two args with identical splitting"""
    out = []
    if len(a) != len(b):
        raise Unsupported("delta between differently split indices")
    for p, q in zip(a, b):
        out.append(Fac(DELTA, False, ((p,), (q,))))
    return out


def subst_args(fs, mp):
    """mp: Ix -> tuple of parts"""
    if not mp:
        return tuple(fs)
    out = []
    for f in fs:
        hit = False
        for a in f.args:
            for p in a:
                if p in mp:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            out.append(f)
            continue
        if f.sym is DELTA:
            a, b = f.args
            na = _sub_arg(a, mp)
            nb = _sub_arg(b, mp)
            if len(na) == len(nb) == 1:
                out.append(Fac(DELTA, False, (na, nb)))
            else:
                if len(na) == 1 and isinstance(na[0], Cn):
                    na = tuple(split_pos(na[0].val, [p.dim for p in nb]))
                elif len(nb) == 1 and isinstance(nb[0], Cn):
                    nb = tuple(split_pos(nb[0].val, [p.dim for p in na]))
                out.extend(deltas_of(na, nb))
            continue
        out.append(Fac(f.sym, f.conj, tuple(_sub_arg(a, mp) for a in f.args)))
    return tuple(out)


def _sub_arg(a, mp):
    out = []
    for p in a:
        if p in mp:
            out.extend(mp[p])
        else:
            out.append(p)
    return tuple(out)


def dim_is_one(d):
    if not d.m:
        return False
    if len(d.m) == 1 and () in d.m:
        return d.m[()] == 1
    d = norm(d)
    if d.is_const():
        return d.const() == 1
    return False


def same_dim(a, b):
    """dimension equality; forks when undecided is not wanted here: True only when entailed"""
    d = norm(SInt.of(SInt.of(a) - SInt.of(b)))
    if d.is_const():
        return d.const() == 0
    c = ctx()
    return c.entails(c.z(d) == 0)


def pos_equal(a, b):
    """are two fixed positions equal?  decided (forking if necessary)"""
    return bool(sint.cmp_("==", SInt.of(a), SInt.of(b)))


def reduce_term(t, free):
    """eliminate deltas with summed indices; returns a Term or None (zero)"""
    fs = list(t.fs)
    dims = list(t.dims)
    mp = {}
    for f in fs:
        for p in f.parts():
            if p not in mp and dim_is_one(p.dim) and (isinstance(p, Cn) or p not in free):
                mp[p] = ()
    if mp:
        tied = [f for f in fs if f.sym is DELTA and ((f.args[0][0] in mp) != (f.args[1][0] in mp))]
        for f in tied:
            for a in f.args:
                if a[0] not in mp:
                    mp.pop(f.args[0][0], None)
                    mp.pop(f.args[1][0], None)
        fs = list(subst_args(fs, mp))
    while True:
        done = True
        for i, f in enumerate(fs):
            if f.sym is not DELTA:
                continue
            (p,), (q,) = f.args
            if isinstance(p, Cn) and isinstance(q, Cn):
                if pos_equal(p.val, q.val):
                    fs.pop(i)
                    done = False
                    break
                return None
            if p is q:
                # delta(i,i)=1; a summed index that occurs nowhere else contributes its dimension
                fs.pop(i)
                if isinstance(p, Ix) and p not in free and not any(p in a for g in fs for a in g.args):
                    dims.append(p.dim)
                done = False
                break
            v = None
            if isinstance(p, Ix) and p not in free:
                v, w = p, q
            elif isinstance(q, Ix) and q not in free:
                v, w = q, p
            if v is not None:
                fs.pop(i)
                fs = list(subst_args(fs, {v: (w,)}))
                done = False
                break
            if isinstance(q, Cn) and isinstance(p, Ix) and False:
                pass
        if done:
            break
    # free index equal to a constant: delta(i, c) X[i] -> delta(i, c) X[c]
    for f in fs:
        if f.sym is DELTA:
            (p,), (q,) = f.args
            if isinstance(p, Cn):
                p, q = q, p
            if isinstance(q, Cn) and isinstance(p, Ix):
                fs2 = [g if g is f else subst_args([g], {p: (q,)}) for g in fs]
                flat = []
                for g in fs2:
                    if isinstance(g, Fac):
                        flat.append(g)
                    else:
                        flat.extend(g)
                if any((p in a) for g in fs if g is not f for a in g.args):
                    return reduce_term(Term(t.c, flat, dims), free)
    # free indices tied together: delta(i, j) X[j] -> delta(i, j) X[i]
    for f in fs:
        if f.sym is DELTA:
            (p,), (q,) = f.args
            if isinstance(p, Ix) and isinstance(q, Ix) and q.id < p.id:
                p, q = q, p
            if isinstance(p, Ix) and isinstance(q, Ix) and any((q in a) for g in fs if g is not f for a in g.args):
                return reduce_term(Term(t.c, [g if g is f else list(subst_args([g], {q: (p,)}))[0] for g in fs], dims), free)
    nd = []
    c = t.c
    for d in dims:
        d = norm(d)
        if d.is_const():
            c = cmul(c, cx(d.const()))
        else:
            nd.append(d)
    if czero(c):
        return None
    return Term(c, fs, nd)


class Val(object):
    """axes: tuple of args made of distinct Ix; terms"""
    __slots__ = ("axes", "terms", "_canon")

    def __init__(self, axes, terms):
        self.axes = tuple(axes)
        self.terms = tuple(terms)
        self._canon = None

    # ------------------------------------------------------------------ basics
    @staticmethod
    def zero(dims):
        return Val([axis_for(d) for d in dims], ())

    @staticmethod
    def const(c):
        c = cx(c)
        return Val((), () if czero(c) else (Term(c, ()),))

    @staticmethod
    def of_sym(sym, conj=False):
        axes = [axis_for(d) for d in sym.dims]
        return Val(axes, (Term(ONE, (Fac(sym, conj, axes),)),))

    @staticmethod
    def ones(dims):
        return Val([axis_for(d) for d in dims], (Term(ONE, ()),))

    @staticmethod
    def eye(d, d2=None):
        a = axis_for(d)
        b = tuple(Ix(p.dim) for p in a)
        return Val((a, b), (Term(ONE, deltas_of(a, b)),))

    def free(self):
        return {p for a in self.axes for p in a}

    def shape(self):
        return tuple(axis_dim(a) for a in self.axes)

    def __repr__(self):
        return "Val(%s; %s)" % (list(self.axes), " + ".join(map(repr, self.terms)) or "0")

    def rename(self):
        """a copy with fresh index variables everywhere"""
        mp = {}
        axes = []
        for a in self.axes:
            na = []
            for p in a:
                q = Ix(p.dim)
                mp[p] = (q,)
                na.append(q)
            axes.append(tuple(na))
        terms = []
        for t in self.terms:
            m2 = dict(mp)
            for f in t.fs:
                for p in f.parts():
                    if isinstance(p, Ix) and p not in m2:
                        m2[p] = (Ix(p.dim),)
            terms.append(Term(t.c, subst_args(t.fs, m2), t.dims))
        return Val(axes, terms)

    def scale(self, c):
        c = cx(c)
        if czero(c):
            return Val(self.axes, ())
        return Val(self.axes, [Term(cmul(t.c, c), t.fs, t.dims) for t in self.terms])

    def conj(self):
        return Val(self.axes, [Term(cconj(t.c), [Fac(f.sym, not f.conj, f.args) if f.sym is not DELTA else f
                                                 for f in t.fs], t.dims) for t in self.terms])

    def transpose(self, perm):
        return Val([self.axes[p] for p in perm], self.terms)

    def subst_site(self, mp):
        """replace integer variables (loop variables) in site labels, positions and dimensions"""
        def ix(p, cache):
            if isinstance(p, Cn):
                return Cn(sint.subst_int(p.val, mp), sint.subst_int(p.dim, mp))
            q = cache.get(p)
            if q is None:
                q = cache[p] = Ix(sint.subst_int(p.dim, mp))
            return q
        cache = {}
        axes = [tuple(ix(p, cache) for p in a) for a in self.axes]
        terms = []
        for t in self.terms:
            fs = []
            for f in t.fs:
                s = f.sym
                if s is not DELTA and (s.params or s.dims or s.meta is not None):
                    s = subst_sym(s, mp)
                fs.append(Fac(s, f.conj, [tuple(ix(p, cache) for p in a) for a in f.args]))
            terms.append(Term(t.c, fs, [sint.subst_int(d, mp) for d in t.dims]))
        return Val(axes, terms)

    def reduce(self):
        fr = self.free()
        out = []
        for t in self.terms:
            r = reduce_term(t, fr)
            if r is not None:
                out.append(r)
        return Val(self.axes, out)


def subst_sym(s, mp):
    if s.meta is not None and hasattr(s.meta, "subst"):
        return s.meta.subst(s, mp)
    return Sym(s.name, [sint.subst_int(p, mp) for p in s.params], [sint.subst_int(d, mp) for d in s.dims],
               s.herm, s.real, s.meta)


def axis_for(d):
    d = norm(d)
    if d.is_const() and d.const() == 1:
        return ()
    # a product of several symbolic dimensions stays one index; it is split on demand
    return (Ix(d),)


def axis_dim(a):
    r = SInt.of(1)
    for p in a:
        r = SInt.of(r * p.dim)
    return simp(norm(r))


# ------------------------------------------------------------------------------------------- axis alignment

def split_ix(v, x, parts):
    """in value v replace index x by the parts (row-major mixed radix); deltas tie other free indices to x"""
    v = v.reduce()
    free = v.free()
    mp = {x: tuple(parts)}
    grow = True
    while grow:
        grow = False
        for t in v.terms:
            for f in t.fs:
                if f.sym is DELTA:
                    (p,), (q,) = f.args
                    for y, o in ((p, q), (q, p)):
                        if o in mp and isinstance(y, Ix) and y not in mp and y in free:
                            mp[y] = tuple(Ix(z.dim) for z in mp[o])
                            grow = True
    axes = [_sub_arg(a, mp) for a in v.axes]
    return Val(axes, [Term(t.c, subst_args(t.fs, mp), t.dims) for t in v.terms])


def split_pos(val, dims):
    """digits of a fixed position in the mixed radix `dims` (row major), or None"""
    val = norm(val)
    out = []
    for d in reversed(dims[1:]):
        q, r = sint.divmod_(val, d)
        out.append(Cn(r, d))
        val = SInt.of(q)
    out.append(Cn(val, dims[0]))
    return list(reversed(out))


def refine_pair(a, b):
    """Common refinement of two splittings of one axis.  Returns (refined_a, refined_b): lists parallel to a and b of
    tuples of new parts dims, or raises Unsupported."""
    a, b = list(a), list(b)
    ra = [[] for _ in a]
    rb = [[] for _ in b]
    i = j = 0
    da = a[0].dim if a else None
    db = b[0].dim if b else None
    while i < len(a) and j < len(b):
        if same_dim(da, db):
            ra[i].append(da)
            rb[j].append(da)
            i += 1
            j += 1
            da = a[i].dim if i < len(a) else None
            db = b[j].dim if j < len(b) else None
            continue
        # row major: leading digits first; one must divide the other
        q = dim_div(da, db)
        if q is not None:
            ra[i].append(db)
            rb[j].append(db)
            da = q
            j += 1
            db = b[j].dim if j < len(b) else None
            continue
        q = dim_div(db, da)
        if q is not None:
            ra[i].append(da)
            rb[j].append(da)
            db = q
            i += 1
            da = a[i].dim if i < len(a) else None
            continue
        raise Unsupported("cannot align index groupings %s | %s" % ([p.dim for p in a], [p.dim for p in b]))
    if i < len(a) or j < len(b):
        raise ShapeMismatch()
    return ra, rb


class ShapeMismatch(Exception):
    pass


def dim_div(a, b):
    """a / b as a dimension when b divides a syntactically"""
    a, b = norm(a), norm(b)
    if b.is_const() and a.is_const():
        return SInt.of(a.const() // b.const()) if b.const() and a.const() % b.const() == 0 else None
    X, rest = sint._split_by(a, b)
    if not SInt.of(rest).m:
        return SInt.of(X)
    return None


def set_split(v, axis, groups):
    """split the parts of axis `axis` of v: groups is parallel to its parts (lists of dims)"""
    a = v.axes[axis]
    for x, g in zip(a, groups):
        if len(g) > 1:
            v = split_ix(v, x, [Ix(d) for d in g])
    return v


def drop_ones(v):
    """remove index variables whose dimension is known to be one under the current path"""
    mp = {}
    for a in v.axes:
        for p in a:
            if dim_is_one(p.dim):
                mp[p] = ()
    if not mp:
        return v
    for t in v.terms:
        for f in t.fs:
            for p in f.parts():
                if isinstance(p, (Ix, Cn)) and p not in mp and dim_is_one(p.dim):
                    mp[p] = ()
    return Val([_sub_arg(a, mp) for a in v.axes], [Term(t.c, subst_args(t.fs, mp), t.dims) for t in v.terms])


def align(v, w, pairs):
    """make axis splittings of v and w identical for the given axis pairs"""
    v, w = drop_ones(v), drop_ones(w)
    for (i, j) in pairs:
        a, b = v.axes[i], w.axes[j]
        if len(a) == len(b) and all(same_dim(p.dim, q.dim) for p, q in zip(a, b)):
            continue
        if not same_dim(axis_dim(a), axis_dim(b)):
            raise ShapeMismatch()
        ra, rb = refine_pair(a, b)
        v = set_split(v, i, ra)
        w = set_split(w, j, rb)
    return v, w


def add(v, w):
    if len(v.axes) != len(w.axes):
        raise ShapeMismatch()
    w = w.rename()
    v, w = align(v, w, [(i, i) for i in range(len(v.axes))])
    mp = {}
    for a, b in zip(v.axes, w.axes):
        for p, q in zip(a, b):
            mp[q] = (p,)
    terms = list(v.terms)
    for t in w.terms:
        terms.append(Term(t.c, subst_args(t.fs, mp), t.dims))
    return compact(Val(v.axes, terms))


def compact(v):
    """merge identical terms when there are many"""
    if len(v.terms) <= 12:
        return v
    return collect(v)


def product(v, w, pairs=(), diag=()):
    """outer product contracted over the axis pairs; `diag` pairs are identified but kept (elementwise)"""
    w = w.rename()
    v, w = align(v, w, list(pairs) + list(diag))
    mp = {}
    for (i, j) in list(pairs) + list(diag):
        for p, q in zip(v.axes[i], w.axes[j]):
            mp[q] = (p,)
    drop_w = {j for (_, j) in pairs} | {j for (_, j) in diag}
    drop_v = {i for (i, _) in pairs}
    summed = [p for i in drop_v for p in v.axes[i]]
    axes = [a for i, a in enumerate(v.axes) if i not in drop_v] + [a for j, a in enumerate(w.axes) if j not in drop_w]
    fr = {p for a in axes for p in a}
    terms = []
    for t in v.terms:
        # the dummies of t must be fresh for every product term
        for u in w.terms:
            t2 = freshen(t, fr | set(summed))
            fs = t2.fs + subst_args(freshen(u, {p for a in w.axes for p in a}).fs, mp)
            dims = list(t2.dims) + list(u.dims)
            # summed indices absent from every factor
            present = {p for f in fs for p in f.parts() if isinstance(p, Ix)}
            ren = {}
            for p in summed:
                if p in present:
                    ren[p] = (Ix(p.dim),)
                else:
                    dims.append(p.dim)
            fs = subst_args(fs, ren)
            r = reduce_term(Term(cmul(t.c, u.c), fs, dims), fr)
            if r is not None:
                terms.append(r)
    return compact(Val(axes, terms))


def freshen(t, keep):
    mp = {}
    for f in t.fs:
        for p in f.parts():
            if isinstance(p, Ix) and p not in keep and p not in mp:
                mp[p] = (Ix(p.dim),)
    if not mp:
        return t
    return Term(t.c, subst_args(t.fs, mp), t.dims)


def trace_axes(v, i, j):
    """sum over equal indices of axes i and j"""
    v2, w2 = v, v
    a, b = v.axes[i], v.axes[j]
    if not same_dim(axis_dim(a), axis_dim(b)):
        raise ShapeMismatch()
    if len(a) != len(b) or not all(same_dim(p.dim, q.dim) for p, q in zip(a, b)):
        ra, rb = refine_pair(a, b)
        v = set_split(v, i, ra)
        v = set_split(v, j, rb)
        a, b = v.axes[i], v.axes[j]
    terms = []
    axes = [x for k, x in enumerate(v.axes) if k not in (i, j)]
    fr = {p for x in axes for p in x}
    for t in v.terms:
        mp = {}
        dims = list(t.dims)
        present = {p for f in t.fs for p in f.parts() if isinstance(p, Ix)}
        for p, q in zip(a, b):
            n = Ix(p.dim)
            mp[p] = (n,)
            mp[q] = (n,)
            if p not in present and q not in present:
                dims.append(p.dim)
        r = reduce_term(Term(t.c, subst_args(t.fs, mp), dims), fr)
        if r is not None:
            terms.append(r)
    return Val(axes, terms)


def sum_axis(v, i):
    a = v.axes[i]
    axes = [x for k, x in enumerate(v.axes) if k != i]
    fr = {p for x in axes for p in x}
    terms = []
    for t in v.terms:
        present = {p for f in t.fs for p in f.parts() if isinstance(p, Ix)}
        dims = list(t.dims)
        mp = {}
        for p in a:
            if p in present:
                mp[p] = (Ix(p.dim),)
            else:
                dims.append(p.dim)
        r = reduce_term(Term(t.c, subst_args(t.fs, mp), dims), fr)
        if r is not None:
            terms.append(r)
    return Val(axes, terms)


def fix_axis(v, i, pos):
    """v[..., pos, ...] on axis i"""
    a = v.axes[i]
    axes = [x for k, x in enumerate(v.axes) if k != i]
    if not a:
        return Val(axes, v.terms)
    if len(a) == 1:
        ps = [Cn(pos, a[0].dim)]
    else:
        ps = split_pos(pos, [p.dim for p in a])
    mp = {p: (c,) for p, c in zip(a, ps)}
    fr = {p for x in axes for p in x}
    terms = []
    for t in v.terms:
        r = reduce_term(Term(t.c, subst_args(t.fs, mp), t.dims), fr)
        if r is not None:
            e = expand_family(r, True)
            if e is None:
                terms.append(r)
            else:
                terms.extend(x for x in (reduce_term(y, fr) for y in e) if x is not None)
    return Val(axes, terms)


def diag_part(v):
    """vector of diagonal entries of a matrix"""
    v, w = align(v, v, [(0, 1)])
    a, b = v.axes
    mp = {q: (p,) for p, q in zip(a, b)}
    terms = []
    for t in v.terms:
        r = reduce_term(Term(t.c, subst_args(t.fs, mp), t.dims), set(a))
        if r is not None:
            terms.append(r)
    return Val((a,), terms)


def diag_mat(v):
    a = v.axes[0]
    b = tuple(Ix(p.dim) for p in a)
    return Val((a, b), [Term(t.c, tuple(t.fs) + tuple(deltas_of(a, b)), t.dims) for t in v.terms])


# --------------------------------------------------------------------------------------------- canonical form

def dim_key(d):
    c = sint.CTX
    d = norm(d)
    if d.is_const():
        return str(d.const())
    if c is None:
        return repr(d)
    return canon_dim(d)


def canon_dim(d):
    c = sint.CTX
    tab = c.caches.setdefault("dim", {})
    k = d.key()
    if k in tab:
        return tab[k]
    reps = c.caches.setdefault("dim_reps", [])
    for (q, sq) in reps:
        dd = norm(SInt.of(d - q))
        if dd.is_const():
            continue
        if c.entails(c.z(dd) == 0):
            tab[k] = sq
            return sq
    s = repr(d)
    reps.append((d, s))
    tab[k] = s
    return s


class CanonBudget(Unsupported):
    pass


def canon_term(t, axes):
    """(key, scalar part): canonical string of a term; free indices named by their axis"""
    names = {}
    for i, a in enumerate(axes):
        for j, p in enumerate(a):
            names[p] = "x%d.%d" % (i, j)
    # free indices tied by deltas: the first one replaces the others in the remaining factors
    rank = {p: (i, j) for i, a in enumerate(axes) for j, p in enumerate(a)}
    rep = {}
    rest = []
    for f in t.fs:
        if f.sym is DELTA and f.args[0][0] in rank and f.args[1][0] in rank:
            p, q = f.args[0][0], f.args[1][0]
            while p in rep:
                p = rep[p]
            while q in rep:
                q = rep[q]
            if p is not q:
                if rank[q] < rank[p]:
                    p, q = q, p
                rep[q] = p
        else:
            rest.append(f)
    if rep:
        mp, ties = {}, []
        for q in sorted(rep, key=lambda x: rank[x]):
            p = q
            while p in rep:
                p = rep[p]
            mp[q] = (p,)
            ties.append(Fac(DELTA, False, ((p,), (q,))))
        t = Term(t.c, tuple(subst_args(rest, mp)) + tuple(ties), t.dims)
    # connected components
    fs = [f for f in t.fs]
    n = len(fs)
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    owner = {}
    for k, f in enumerate(fs):
        for p in f.parts():
            if isinstance(p, Ix) and p not in names:
                if p in owner:
                    parent[find(k)] = find(owner[p])
                else:
                    owner[p] = k
    comps = {}
    for k in range(n):
        comps.setdefault(find(k), []).append(fs[k])
    keys = sorted(canon_component(c, names) for c in comps.values())
    keys = cancel_scalars(keys)
    dk = sorted(dim_key(d) for d in t.dims)
    for k in [k for k in keys if k.startswith("INV{DIM(")]:
        if k[8:-2] in dk:
            dk.remove(k[8:-2])
            keys.remove(k)
    return ("|".join(keys), "*".join(dk))


def cancel_scalars(keys):
    """inv(K) cancels K; sqrt(K) sqrt(K) = K"""
    keys = list(keys)
    changed = True
    while changed:
        changed = False
        for k in keys:
            if k.startswith("INV{") and k.endswith("}"):
                inner = k[4:-1].split("|")
                rest = list(keys)
                rest.remove(k)
                ok = True
                for x in inner:
                    if x in rest:
                        rest.remove(x)
                    else:
                        ok = False
                        break
                if ok:
                    keys = rest
                    changed = True
                    break
            if k.startswith("INV{SQRT{") and k.endswith("}}") and keys.count(k) >= 2 and "|" not in k:
                keys.remove(k)
                keys.remove(k)
                keys.append("INV{" + k[9:-2] + "}")
                keys.sort()
                changed = True
                break
            if k.startswith("SQRT{") and keys.count(k) >= 2:
                keys.remove(k)
                keys.remove(k)
                inner = k[5:-1]
                keys.extend(inner.split("|") if inner else [])
                keys.sort()
                changed = True
                break
    return sorted(keys)


def canon_component(fs, names):
    base = []
    for f in fs:
        if f.sym is DELTA:
            k = ("delta",)
        else:
            k = f.sym.key()
        if not f.args and isinstance(f.sym.meta, ScalarKey):
            return f.sym.meta.render(f.conj)
        base.append((str(k), f.conj))
    argc = []

    def pname(p):
        if isinstance(p, Cn):
            return "@" + canon_param(p.val)
        return names.get(p)
    occ = {}
    for k, f in enumerate(fs):
        for i, a in enumerate(f.args):
            for j, p in enumerate(a):
                if isinstance(p, Ix) and p not in names:
                    occ.setdefault(p, []).append((k, i, j))
    dk = {p: dim_key(p.dim) for p in occ}
    sym_delta = [f.sym is DELTA for f in fs]
    fcol = [hash_(("F",) + base[k]) for k in range(len(fs))]
    dcol = {p: hash_(("D", dk[p])) for p in occ}

    def refine(fcol, dcol):
        ncl = len(set(fcol)) + len(set(dcol.values()))
        while True:
            nf = []
            for k, f in enumerate(fs):
                sig = []
                for i, a in enumerate(f.args):
                    asig = tuple(pname(p) or dcol[p] for p in a)
                    sig.append(asig)
                if sym_delta[k]:
                    sig = sorted(sig, key=repr)
                nf.append(hash_((fcol[k], tuple(sig))))
            nd = {}
            for p, os_ in occ.items():
                nd[p] = hash_((dcol[p], tuple(sorted((nf[k], 0 if sym_delta[k] else i, j) for k, i, j in os_))))
            n2 = len(set(nf)) + len(set(nd.values()))
            fcol, dcol = nf, nd
            if n2 == ncl:
                return fcol, dcol
            ncl = n2
    budget = [4000]

    def render(fcol, dcol):
        # all dummies distinct: order by colour
        order = sorted(occ, key=lambda p: dcol[p])
        nm = {p: "d%d" % i for i, p in enumerate(order)}
        items = []
        for k, f in enumerate(fs):
            args = [".".join(pname(p) or nm[p] for p in a) for a in f.args]
            if sym_delta[k]:
                args.sort()
            items.append("%s%s(%s)" % (base[k][0], "*" if base[k][1] else "", ",".join(args)))
        items.sort()
        return ";".join(items) + "#" + ",".join(dk[p] for p in order)

    def search(fcol, dcol):
        budget[0] -= 1
        if budget[0] < 0:
            raise CanonBudget("canonical form budget")
        fcol, dcol = refine(fcol, dcol)
        cls = {}
        for p, c in dcol.items():
            cls.setdefault(c, []).append(p)
        amb = [(len(v), c, v) for c, v in cls.items() if len(v) > 1]
        if not amb:
            return render(fcol, dcol)
        amb.sort(key=lambda t: (t[0], t[1]))
        _, c, ps = amb[0]
        best = None
        for p in ps:
            d2 = dict(dcol)
            d2[p] = hash_(("pick", c))
            r = search(fcol, d2)
            if best is None or r < best:
                best = r
        return best
    return search(fcol, dcol)


def hash_(x):
    import hashlib
    return hashlib.blake2b(repr(x).encode(), digest_size=9).hexdigest()


class ScalarKey(object):
    """meta of a scalar symbol that stands for a function of a closed network (inverse, square root, ...)"""

    def __init__(self, fn, inner, conj_inner=None, val=None, make=None):
        self.fn = fn
        self.inner = inner
        self.val, self.make = val, make
        self.conj_inner = conj_inner if conj_inner is not None else inner

    def render(self, conj):
        return "%s{%s}" % (self.fn, self.conj_inner if conj else self.inner)

    def subst(self, s, mp):
        if self.val is not None and not val_vars(self.val) & set(mp):
            return s
        if self.val is None:
            raise Unsupported("function of a network at another site")
        from . import arr
        v = self.make(arr.Arr(self.val.subst_site(mp))).v
        if not v.axes and len(v.terms) == 1 and v.terms[0].c == ONE and not v.terms[0].dims and len(v.terms[0].fs) == 1:
            f = v.terms[0].fs[0]
            if not f.conj and isinstance(f.sym.meta, ScalarKey):
                return f.sym
        raise Unsupported("function of a network changes form at another site")


def val_vars(v):
    """integer variables of a network"""
    out = set()
    for a in v.axes:
        for p in a:
            out |= norm(p.dim).vars()
    for t in v.terms:
        for d in t.dims:
            out |= norm(SInt.of(d)).vars()
        for f in t.fs:
            for p in f.parts():
                out |= norm(p.dim).vars()
                if isinstance(p, Cn):
                    out |= norm(p.val).vars()
            if f.sym is not DELTA:
                for p in f.sym.params:
                    out |= norm(p).vars()
                for p in f.sym.dims:
                    out |= norm(p).vars()
                m = f.sym.meta
                if m is not None and hasattr(m, "free_vars"):
                    out |= m.free_vars()
                elif isinstance(m, ScalarKey) and m.val is not None:
                    out |= val_vars(m.val)
    return out


def no_capture(vs, mp):
    """a bound variable (kappa) must not be confused with one of the substituted values"""
    if any("kappa" in norm(SInt.of(b)).vars() for a, b in mp.items() if a in vs):
        raise Unsupported("sum inside a sum over the same sites")


class SumArr(object):
    """meta of an array symbol: the sum of row(kappa) over lo <= kappa < hi"""

    def __init__(self, row, lo, hi):
        self.row, self.lo, self.hi = row, norm(SInt.of(lo)), norm(SInt.of(hi))
        self._vs = None

    def free_vars(self):
        if self._vs is None:
            self._in = val_vars(self.row) - {"kappa"}
            self._vs = self._in | self.lo.vars() | self.hi.vars()
        return self._vs

    def sym(self):
        """(symbol, stored conjugated)"""
        from . import arr
        c = ctx()
        kv = SInt.var("kappa")
        tok = c.push_pc()
        try:
            c.assume(sint.cmp_("<=", self.lo, kv))
            c.assume(sint.cmp_("<", kv, self.hi))
            a, b = arr.canon_str(self.row), arr.canon_str(self.row.conj())
        finally:
            c.pop_pc(tok)
        conj = b < a
        if conj:
            self.row, a = self.row.conj(), b
        return Sym("SUM_%s" % hash_(a), (self.lo, self.hi), [SInt.of(d) for d in self.row.shape()], real=a == b, meta=self), conj

    def subst(self, s, mp):
        if not self.free_vars() & set(mp):
            return s
        mp = {a: b for a, b in mp.items() if a != "kappa"}
        no_capture(self._in, mp)
        m = SumArr(self.row.subst_site(mp), sint.subst_int(self.lo, mp), sint.subst_int(self.hi, mp))
        r, conj = m.sym()
        if conj:
            raise Unsupported("orientation of a sum changes")
        return r

    def expand(self, f):
        """an empty range or a single term"""
        d = norm(SInt.of(self.hi - self.lo))
        c = ctx()
        tab = c.caches.setdefault("sums", {})
        key = (c.npc, d.key())
        r = tab.get(key)
        if r is None:
            r = tab[key] = 0 if sint.known(sint.cmp_("<=", d, SInt.of(0))) else 1 if sint.known(sint.cmp_("==", d, SInt.of(1))) else -1
        if r < 0:
            return None
        if r == 0:
            return []
        v = self.row.subst_site({"kappa": self.lo})
        return instantiate(v.conj() if f.conj else v, f.args)


def collect(v):
    """merge equal terms (after reduction)"""
    acc = {}
    for t in v.terms:
        t = reduce_term(t, v.free())
        if t is None:
            continue
        k = canon_term(t, v.axes)
        if k in acc:
            acc[k] = (cadd(acc[k][0], t.c), acc[k][1])
        else:
            acc[k] = (t.c, t)
    return Val(v.axes, [Term(c, t.fs, t.dims) for c, t in acc.values() if not czero(c)])


def canon(v, rules=None):
    """dict canonical key -> coefficient, after applying the rewrite rules of the context"""
    v = normalise(drop_ones(v), rules)
    acc = {}
    for t in v.terms:
        k = canon_term(t, v.axes)
        acc[k] = cadd(acc.get(k, (Fr(0), Fr(0))), t.c)
    return {k: c for k, c in acc.items() if not czero(c)}


def fam_vars(m):
    if getattr(m, "_vs", None) is None:
        vs = set()
        rows = [m.row] if isinstance(m, Family) else [row for _, row in m.cases]
        for row in rows:
            if row is not None:
                vs |= val_vars(row)
        if isinstance(m, CaseFamily):
            for cs, _ in m.cases:
                for op, d, tr in cs:
                    vs |= norm(SInt.of(d)).vars()
        vs -= {"kappa"}
        m._in = vs
        vs = vs | m.lo.vars() | m.hi.vars() | m.n.vars()
        if m.base is not None:
            vs |= val_vars(m.base)
        m._vs = vs
    return m._vs


class Family(object):
    """meta of an array symbol given by rows: row(kappa) at the positions lo <= kappa < hi, elsewhere the rows of `base`
    (position axis first; None when the rows cover the axis)"""

    def __init__(self, row, n, lo=None, hi=None, base=None):
        self.row, self.n, self.base = row, norm(SInt.of(n)), base
        self.lo, self.hi = norm(SInt.of(0 if lo is None else lo)), norm(SInt.of(n if hi is None else hi))

    def sym(self):
        from . import arr
        c = ctx()
        kv = SInt.var("kappa")
        tok = c.push_pc()
        try:
            c.assume(sint.cmp_("<=", self.lo, kv))
            c.assume(sint.cmp_("<", kv, self.hi))
            key = arr.canon_str(self.row)
        finally:
            c.pop_pc(tok)
        if self.base is not None:
            key += "@%s..%s@%s" % (canon_param(self.lo), canon_param(self.hi), arr.canon_str(self.base))
        return Sym("FAM_%s" % hash_(key), (), [self.n] + [SInt.of(d) for d in self.row.shape()], meta=self)

    def free_vars(self):
        return fam_vars(self)

    def subst(self, s, mp):
        if not fam_vars(self) & set(mp):
            return s
        mp = {a: b for a, b in mp.items() if a != "kappa"}
        no_capture(self._in, mp)
        return Family(self.row.subst_site(mp), sint.subst_int(self.n, mp), sint.subst_int(self.lo, mp),
                      sint.subst_int(self.hi, mp), None if self.base is None else self.base.subst_site(mp)).sym()

    def at(self, pos, fork=False):
        pos = norm(SInt.of(pos))
        if self.base is not None:
            for b, inside in ((sint.cmp_("<=", self.lo, pos), None), (sint.cmp_("<", pos, self.hi), None)):
                k = bool(b) if fork else sint.known(b)
                if k is None:
                    return None
                if not k:
                    return fix_axis(self.base, 0, pos)
        return self.row.subst_site({"kappa": pos})


class CaseFamily(object):
    """rows at the positions lo <= kappa < hi given by cases: [(conditions, row)], a condition is (op, expression in kappa, truth)
    meaning (expression op 0) == truth; a row None and the other positions are those of `base`"""

    def __init__(self, cases, shape, n, lo, hi, base):
        self.cases, self.shape, self.n, self.base = cases, shape, norm(SInt.of(n)), base
        self.lo, self.hi = norm(SInt.of(lo)), norm(SInt.of(hi))

    def sym(self):
        from . import arr
        c = ctx()
        key = []
        tok = c.push_pc()
        try:
            kv = SInt.var("kappa")
            c.assume(sint.cmp_("<=", self.lo, kv))
            c.assume(sint.cmp_("<", kv, self.hi))
            for conds, row in self.cases:
                key.append("%s:%s" % (";".join("%s%s%s" % (canon_param(d), op, tr) for op, d, tr in conds),
                                      "-" if row is None else arr.canon_str(row)))
        finally:
            c.pop_pc(tok)
        key.append("@%s..%s@%s" % (canon_param(self.lo), canon_param(self.hi), arr.canon_str(self.base)))
        return Sym("FAM_%s" % hash_("|".join(key)), (), [self.n] + [SInt.of(d) for d in self.shape], meta=self)

    def free_vars(self):
        return fam_vars(self)

    def subst(self, s, mp):
        if not fam_vars(self) & set(mp):
            return s
        mp = {a: b for a, b in mp.items() if a != "kappa"}
        no_capture(self._in, mp)
        si = lambda e: SInt.of(sint.subst_int(e, mp))
        return CaseFamily([([(op, si(d), tr) for op, d, tr in cs], None if row is None else row.subst_site(mp))
                           for cs, row in self.cases], [si(SInt.of(d)) for d in self.shape], si(self.n), si(self.lo), si(self.hi),
                          self.base.subst_site(mp)).sym()

    def at(self, pos, fork=False):
        pos = norm(SInt.of(pos))
        for b in (sint.cmp_("<=", self.lo, pos), sint.cmp_("<", pos, self.hi)):
            k = bool(b) if fork else sint.known(b)
            if k is None:
                return None
            if not k:
                return fix_axis(self.base, 0, pos)
        for cs, row in self.cases:
            ok = True
            for op, d, tr in cs:
                b = sint.cmp_(op, norm(SInt.of(sint.subst_int(d, {"kappa": pos}))), SInt.of(0))
                k = bool(b) if fork else sint.known(b)
                if k is None:
                    return None
                if k != tr:
                    ok = False
                    break
            if ok:
                return fix_axis(self.base, 0, pos) if row is None else row.subst_site({"kappa": pos})
        return None


def resolve_rows(v):
    """v with the rows of families read at fixed positions put in, deciding (forking on) which row is meant"""
    for _ in range(20):
        out, ch = [], False
        for t in v.terms:
            new = expand_family(t, fork=True)
            if new is None:
                out.append(t)
            else:
                out.extend(new)
                ch = True
        v = Val(v.axes, out)
        if not ch:
            break
    return v


def expand_family(t, fork=False):
    """terms of t with one row of a family read at a fixed position put in, or None"""
    for i, f in enumerate(t.fs):
        m = f.sym.meta if f.sym is not DELTA else None
        if isinstance(m, (Family, CaseFamily)) and len(f.args[0]) == 1 and isinstance(f.args[0][0], Cn):
            row = m.at(f.args[0][0].val, fork)
            if row is None:
                continue
            if f.conj:
                row = row.conj()
            # the row's axes against the remaining arguments
            g = Fac(f.sym, f.conj, f.args)
            tt = Term(t.c, tuple(x for j, x in enumerate(t.fs) if j != i), t.dims)
            out = []
            for c, fs, dims in instantiate(row, f.args[1:]):
                out.append(Term(cmul(t.c, c), tuple(tt.fs) + tuple(fs), tuple(t.dims) + tuple(dims)))
            return out
        if m is not None and hasattr(m, "expand"):
            e = m.expand(f)
            if e is not None:
                rest = tuple(x for j, x in enumerate(t.fs) if j != i)
                return [Term(cmul(t.c, c), rest + tuple(fs), tuple(t.dims) + tuple(dims)) for c, fs, dims in e]
    return None


def normalise(v, rules=None, limit=4000):
    if rules is None:
        rules = ctx().rules if sint.CTX is not None else []
    fr = v.free()
    out = []
    work = list(v.terms)
    steps = 0
    seen = {}
    while work:
        t = work.pop()
        t = reduce_term(t, fr)
        if t is None:
            continue
        new = expand_family(t)
        if new is not None:
            work.extend(new)
            continue
        for r in rules:
            new = r.apply(t, fr)
            if new is not None:
                break
        if new is None:
            out.append(t)
        else:
            steps += 1
            if steps > limit:
                raise Unsupported("rewriting budget")
            work.extend(new)
            if len(work) + len(out) > 60:
                # merge duplicates to keep the expansion small
                vv = collect(Val(v.axes, work))
                work = list(vv.terms)
    return Val(v.axes, out)


def equal(v, w, rules=None):
    """(bool, detail): v == w as polynomials modulo the rules"""
    if len(v.axes) != len(w.axes):
        return False, "rank %d vs %d" % (len(v.axes), len(w.axes))
    try:
        d = add(v, w.scale(-1))
    except ShapeMismatch:
        return False, "shapes %s vs %s" % (v.shape(), w.shape())
    k = canon(d, rules)
    if k and all(abs(float(x)) < 1e-12 for c in k.values() for x in c):
        # constants such as the root of two are only known to machine precision
        kw = canon(w, rules)
        mag = lambda c: max(abs(c[0]), abs(c[1]))
        k = {a: c for a, c in k.items() if not (a in kw and mag(c) <= mag(kw[a]) * Fr(1, 10 ** 13))}
    if not k:
        return True, ""
    return False, "difference: " + " ; ".join("%s * %s%s" % (cstr(c), a, "*" + b if b else "")
                                               for (a, b), c in list(k.items())[:6])




# ---------------------------------------------------------------------------------------------- rewrite rules

class Rule(object):
    """pattern: list of (name, conj, args) with args lists of pattern variables; `inner` variables must be summed and
    occur nowhere else; parameters of the anchor symbol are passed to `params` which returns, for every pattern factor,
    the expected parameters (or None: any).  `rhs(bind, params)` returns a list of (coef, [Fac])."""

    def __init__(self, name, pattern, rhs, params=None, cond=None):
        self.name = name
        self.pattern = pattern
        self.rhs = rhs
        self.params = params
        self.cond = cond
        cnt = {}
        for (_, _, args) in pattern:
            for a in args:
                cnt[a] = cnt.get(a, 0) + 1
        self.inner = {a for a, c in cnt.items() if c > 1 and not a.isupper()}
        self.names = [p[0] for p in pattern]

    def apply(self, t, free):
        names = {}
        for k, f in enumerate(t.fs):
            if f.sym is DELTA:
                continue
            names.setdefault(f.sym.name, []).append(k)
        for nme in set(self.names):
            if len(names.get(nme, ())) < self.names.count(nme):
                return None
        nme, conj, args = self.pattern[0]
        for k in names[nme]:
            f = t.fs[k]
            want = self.params(f.sym.params) if self.params else None
            if self.params and want is None:
                continue
            for b in self._match(t, free, 0, {}, [], names, want):
                bind, used = b
                if not self._check_inner(t, free, bind, used):
                    continue
                if self.cond is not None and not self.cond(bind, [t.fs[i].sym for i in used]):
                    continue
                rest = [g for i, g in enumerate(t.fs) if i not in used]
                res = self.rhs(bind, [t.fs[i].sym for i in used])
                if res is None:
                    continue
                return [Term(cmul(t.c, x[0]), tuple(rest) + tuple(x[1]), tuple(t.dims) + tuple(x[2] if len(x) > 2 else ()))
                        for x in res]
        return None

    def _match(self, t, free, i, bind, used, names, want):
        if i == len(self.pattern):
            yield dict(bind), list(used)
            return
        nme, conj, args = self.pattern[i]
        for k in names.get(nme, ()):
            if k in used:
                continue
            f = t.fs[k]
            orients = [f.args]
            if f.sym.herm and conj is None:
                orients = [f.args]
            elif conj is not None and not f.sym.real and f.conj != conj and not f.sym.herm:
                continue
            if f.sym.herm and conj:
                orients = [(f.args[1], f.args[0])]
            if i == 0 and self.params:
                want = self.params(f.sym.params)
                if want is None:
                    continue
            if want is not None and want[i] is not None:
                if not all(canon_param(p) == canon_param(q) for p, q in zip(f.sym.params, want[i])):
                    continue
            for fa in orients:
                new = {}
                ok = True
                for a, b in zip(args, fa):
                    x = bind.get(a, new.get(a))
                    if x is None:
                        new[a] = b
                    elif not same_arg(x, b):
                        ok = False
                        break
                if not ok:
                    continue
                bind.update(new)
                used.append(k)
                for r in self._match(t, free, i + 1, bind, used, names, want):
                    yield r
                used.pop()
                for a in new:
                    del bind[a]

    def _check_inner(self, t, free, bind, used):
        us = set(used)
        for a in self.inner:
            for p in bind[a]:
                if not isinstance(p, Ix) or p in free:
                    return False
                for i, f in enumerate(t.fs):
                    if i in us:
                        continue
                    for q in f.parts():
                        if q is p:
                            return False
        # a summed variable must not be bound to two different pattern variables
        owner = {}
        for a, b in bind.items():
            for p in b:
                if isinstance(p, Ix):
                    if p in owner and owner[p] != a and (a in self.inner or owner[p] in self.inner):
                        return False
                    owner[p] = a
        # dims of length-1 inner variables may be empty tuples: fine
        return True


def same_arg(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p is q:
            continue
        if isinstance(p, Cn) and isinstance(q, Cn) and canon_param(p.val) == canon_param(q.val):
            continue
        return False
    return True


class ExpandRule(object):
    """a symbol is replaced by its definition: fn(sym) -> Val with the axes of the symbol"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def apply(self, t, free):
        for k, f in enumerate(t.fs):
            if f.sym is not DELTA and f.sym.name == self.name:
                v = self.fn(f.sym)
                if v is None:
                    continue
                v = v.conj() if f.conj else v
                return expand_factor(t, k, v, free)
        return None


def expand_factor(t, k, v, free):
    """replace factor k of term t by the value v"""
    v = v.rename()
    f = t.fs[k]
    rest = [g for i, g in enumerate(t.fs) if i != k]
    # align splits: args of f against axes of v
    mpv = {}
    t_sub = {}
    for a, b in zip(v.axes, f.args):
        if len(a) == len(b):
            for p, q in zip(a, b):
                mpv[p] = (q,)
            continue
        ra, rb = refine_pair(a, b)
        i = 0
        # split the axis of v
        if any(len(g) > 1 for g in rb):
            raise Unsupported("expansion with a finer definition grouping")
        for p, g in zip(a, ra):
            mpv[p] = tuple(b[i:i + len(g)])
            i += len(g)
    out = []
    for u in v.terms:
        u = freshen(u, v.free())
        fs = subst_args(u.fs, mpv)
        out.append(Term(cmul(t.c, u.c), tuple(rest) + tuple(fs), tuple(t.dims) + tuple(u.dims)))
    return out


def instantiate(v, args):
    """terms of v with its axes replaced by the given index arguments: list of (coef, factors, dims)"""
    v = v.rename()
    mp = {}
    for i, b in enumerate(args):
        a = v.axes[i]
        b = tuple(b)
        if len(a) == len(b):
            for p, q in zip(a, b):
                mp[p] = (q,)
            continue
        ra, rb = refine_pair(a, b)
        if any(len(g) > 1 for g in rb):
            raise Unsupported("instantiation needs a finer index")
        k = 0
        for p, g in zip(a, ra):
            mp[p] = tuple(b[k:k + len(g)])
            k += len(g)
    out = []
    for u in v.terms:
        u = freshen(u, v.free())
        out.append((u.c, subst_args(u.fs, mp), u.dims))
    return out


def positions_to_indices(v, mp, keep=False):
    """fixed positions that are exactly an integer variable of mp (name -> (axis, dim)) become open indices"""
    terms = []
    for t in v.terms:
        sub = {}
        extra = []
        for f in t.fs:
            if f.sym is not DELTA:
                for p in f.sym.params:
                    if p.vars() & set(mp):
                        raise Unsupported("label depends on the index variable")
            for p in f.parts():
                if p.dim.vars() & set(mp):
                    raise Unsupported("dimension depends on the index variable")
                if isinstance(p, Cn):
                    val = norm(p.val)
                    hit = val.vars() & set(mp)
                    if not hit:
                        continue
                    if len(hit) > 1:
                        raise Unsupported("position depends on two index variables")
                    (nme,) = hit
                    a, dim = mp[nme]
                    off = norm(SInt.of(val - SInt.var(nme)))
                    if nme in off.vars():
                        raise Unsupported("position %s is not an offset of an index variable" % val)
                    if off.is_const() and off.const() == 0 and same_dim(p.dim, dim):
                        sub[p] = a
                    else:
                        from . import arr
                        y = Ix(p.dim)
                        extra.append(Fac(arr.inc_sym(off, dim, p.dim), False, ((y,), a)))
                        sub[p] = (y,)
        for d in t.dims:
            if d.vars() & set(mp):
                raise Unsupported("dimension depends on the index variable")
        terms.append(Term(t.c, tuple(subst_args(t.fs, sub)) + tuple(extra), t.dims))
    return Val(v.axes, terms)


def align_axes(v, axes):
    """v with its axes renamed to the given ones (same splitting after refinement)"""
    w = Val(axes, ())
    v = v.rename()
    v2, w2 = align(v, w, [(i, i) for i in range(len(axes))])
    mp = {}
    for a, b in zip(v2.axes, axes):
        if len(a) != len(b):
            raise Unsupported("axis splitting differs")
        for p, q in zip(a, b):
            mp[p] = (q,)
    return Val(axes, [Term(t.c, subst_args(t.fs, mp), t.dims) for t in v2.terms])
