"""Symbolic integers (dimensions, sites, loop counters), symbolic booleans and the path context.

Integers are mathematical.  An SInt is a polynomial with integer coefficients over atoms; an atom is a variable, an
application of an uninterpreted function to an SInt (D(n), q(n): dimension families), or a mod/div term.  Comparisons
give SBool, whose truth value is decided by z3 under the path condition, or forks the path.
"""
import time
import z3


class Unsupported(Exception):
    """The code leaves the supported fragment: nothing is concluded (undischarged obligation)."""


class Infeasible(Exception):
    """The current path condition is contradictory."""


class PathDone(Exception):
    """The path ends here on purpose (an obligation of an inductive step was checked)."""


class SymRaise(ValueError):
    """The code under verification would raise on this path."""


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no verification context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------------------------------------------------- SInt

def _mono_mul(a, b):
    return tuple(sorted(a + b, key=repr))


class SInt(object):
    __slots__ = ("m", "_k")

    def __init__(self, m):
        self.m = m
        self._k = None

    # construction
    @staticmethod
    def of(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, bool):
            return SInt({(): int(x)}) if x else SInt({})
        if isinstance(x, int):
            return SInt({(): x}) if x else SInt({})
        if isinstance(x, float) and x == int(x):
            return SInt.of(int(x))
        it = getattr(x, "__index__", None)
        if it is not None:
            return SInt.of(it())
        raise Unsupported("not an integer: %r" % (x,))

    @staticmethod
    def var(name):
        return SInt({(("v", name),): 1})

    @staticmethod
    def app(fname, arg):
        arg = norm(SInt.of(arg))
        c = ctx()
        f = c.facts.get((fname, arg.key()))
        if f is not None:
            return f
        a = ("f", fname, arg.key())
        c.atom_args[a] = arg
        c.declare_atom(a)
        return SInt({(a,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((tuple(map(repr, mo)), co) for mo, co in self.m.items())))
        return self._k

    # queries
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    def atoms(self):
        s = set()
        for mo in self.m:
            s.update(mo)
        return s

    def vars(self):
        """all variable names occurring, also inside function arguments"""
        out = set()
        stack = list(self.atoms())
        while stack:
            a = stack.pop()
            if a[0] == "v":
                out.add(a[1])
            elif a[0] in ("mod", "div"):
                for s in ctx().atom_args[a]:
                    stack.extend(s.atoms())
            else:
                stack.extend(ctx().atom_args[a].atoms())
        return out

    # arithmetic
    def __add__(self, o):
        try:
            o = SInt.of(o)
        except Unsupported:
            return NotImplemented
        m = dict(self.m)
        for k, v in o.m.items():
            w = m.get(k, 0) + v
            if w:
                m[k] = w
            else:
                m.pop(k, None)
        return simp(SInt(m))

    __radd__ = __add__

    def __neg__(self):
        return SInt({k: -v for k, v in self.m.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        try:
            return self + (-SInt.of(o))
        except Unsupported:
            return NotImplemented

    def __rsub__(self, o):
        try:
            return SInt.of(o) + (-self)
        except Unsupported:
            return NotImplemented

    def __mul__(self, o):
        if isinstance(o, (float, complex)):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            return NotImplemented
        try:
            o = SInt.of(o)
        except Unsupported:
            return NotImplemented
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mono_mul(k1, k2)
                w = m.get(k, 0) + v1 * v2
                if w:
                    m[k] = w
                else:
                    m.pop(k, None)
        return simp(SInt(m))

    __rmul__ = __mul__

    def __pow__(self, e):
        if isinstance(e, int) and e >= 0:
            r = SInt.of(1)
            for _ in range(e):
                r = r * self
            return simp(r)
        raise Unsupported("symbolic power")

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __truediv__(self, o):
        from .arr import Arr
        return Arr.scalar(self) / o

    def __rtruediv__(self, o):
        from .arr import Arr
        return Arr.scalar(o) / Arr.scalar(self)

    def __abs__(self):
        return self if self >= 0 else -self

    # comparison
    def __eq__(self, o):
        if o is None:
            return False
        try:
            o = SInt.of(o)
        except (Unsupported, TypeError):
            return NotImplemented
        return cmp_("==", self, o)

    def __ne__(self, o):
        if o is None:
            return True
        try:
            o = SInt.of(o)
        except (Unsupported, TypeError):
            return NotImplemented
        return sb_not(cmp_("==", self, o))

    def __lt__(self, o):
        return cmp_("<", self, SInt.of(o))

    def __le__(self, o):
        return cmp_("<=", self, SInt.of(o))

    def __gt__(self, o):
        return cmp_("<", SInt.of(o), self)

    def __ge__(self, o):
        return cmp_("<=", SInt.of(o), self)

    def __hash__(self):
        n = norm(self)
        if n.is_const():
            return hash(n.const())
        return hash(n.key())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        n = norm(self)
        if n.is_const():
            return n.const()
        raise Unsupported("symbolic integer used where a concrete one is needed: %s" % n)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mo, co in sorted(self.m.items(), key=lambda t: repr(t)):
            s = "*".join(atom_str(a) for a in mo)
            if not s:
                s = str(co)
            elif co != 1:
                s = "%d*%s" % (co, s)
            out.append(s)
        return "+".join(out).replace("+-", "-")

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


def atom_str(a):
    if a[0] == "v":
        return a[1]
    if a[0] == "f":
        return "%s(%s)" % (a[1], ctx().atom_args[a] if CTX else "?")
    x, y = ctx().atom_args[a]
    return "(%s %s %s)" % (x, "%" if a[0] == "mod" else "//", y)


def simp(s):
    """plain int when constant (so that Python's own machinery works)"""
    if s.is_const():
        return s.const()
    return s


def norm(s):
    """normal form under the path's substitution (variable := linear form, learned from equalities)"""
    s = SInt.of(s)
    c = CTX
    if c is None or s.is_const():
        return s
    if c.facts:
        for a in s.atoms():
            if a[0] == "f" and (a[1], a[2]) in c.facts:
                s = subst_int(s, {})
                break
    if not c.subst:
        return s
    # quick check
    if not (s.vars() & set(c.subst)):
        return s
    for _ in range(12):
        n = subst_int(s, c.subst)
        if n.key() == s.key():
            return n
        s = n
        if not (s.vars() & set(c.subst)):
            return s
    return s


def subst_int(s, mp):
    """replace variables (by name) by SInts, also inside function arguments"""
    s = SInt.of(s)
    if s.is_const():
        return s
    out = SInt({})
    for mo, co in s.m.items():
        t = SInt.of(co)
        for a in mo:
            t = SInt.of(t * subst_atom(a, mp))
        out = SInt.of(out + t)
    return out


def subst_atom(a, mp):
    if a[0] == "v":
        if a[1] in mp:
            return SInt.of(mp[a[1]])
        return SInt({(a,): 1})
    if a[0] == "f":
        arg = ctx().atom_args[a]
        na = subst_int(arg, mp)
        return SInt.of(SInt.app(a[1], na))
    x, y = ctx().atom_args[a]
    nx, ny = subst_int(x, mp), subst_int(y, mp)
    if nx.key() == x.key() and ny.key() == y.key():
        return SInt({(a,): 1})
    qd, md = divmod_(nx, ny)
    return SInt.of(md if a[0] == "mod" else qd)


def refact(s):
    """re-apply the known family values (D(0) = 1 and the like) to atoms created before they were learned"""
    return subst_int(s, {})


def remod(s):
    """remainders and quotients again, with what is known now"""
    s = SInt.of(s)
    if not any(a[0] in ("mod", "div") for mo in s.m for a in mo):
        return s
    out = SInt({})
    for mo, co in s.m.items():
        t = SInt.of(co)
        for a in mo:
            if a[0] in ("mod", "div"):
                x, y = ctx().atom_args[a]
                q, m = divmod_(remod(x), remod(y))
                v = SInt.of(m if a[0] == "mod" else q)
                if any(b[0] == "v" and str(b[1]).startswith("q") and b not in s.atoms() for b in v.atoms()):
                    v = SInt({(a,): 1})
                t = SInt.of(t * v)
            else:
                t = SInt.of(t * SInt({(a,): 1}))
        out = SInt.of(out + t)
    return out


def divmod_(a, b):
    a, b = norm(a), norm(b)
    if a.is_const() and b.is_const():
        if b.const() == 0:
            raise SymRaise("integer division by zero")
        return a.const() // b.const(), a.const() % b.const()
    c = ctx()
    if b.is_const() and b.const() == 1:
        return simp(a), 0
    # split a = b*X + rest with 0 <= rest < b
    X, rest = _split_by(a, b)
    # drop inner mods by the same modulus: mod(e, b) + c  ==> (for the mod result) e + c
    r2 = SInt.of(rest)
    changed = False
    for mo, co in list(r2.m.items()):
        if len(mo) == 1 and mo[0][0] == "mod":
            x, y = c.atom_args[mo[0]]
            if norm(y).key() == b.key():
                r2 = SInt.of(r2 - SInt({mo: co}) + x * co)
                changed = True
    if entails_in_range(rest, b):
        return simp(SInt.of(X)), simp(SInt.of(rest))
    if changed:
        X2, r3 = _split_by(r2, b)
        if entails_in_range(r3, b):
            q = c.fresh("q")
            # the quotient is not needed when only the remainder is used
            return q, simp(SInt.of(r3))
        r2 = SInt.of(r3)
    base = r2 if changed else SInt.of(rest)
    # shift by +-1 modulus
    for k in (1, -1):
        sh = SInt.of(base + b * k)
        if entails_in_range(sh, b):
            return simp(SInt.of(SInt.of(X) - k)) if not changed else c.fresh("q"), simp(sh)
    am = ("mod", base.key(), b.key())
    ad = ("div", base.key(), b.key())
    for at in (am, ad):
        c.atom_args[at] = (base, b)
        c.declare_atom(at)
    qq = SInt({(ad,): 1})
    q = simp(SInt.of(qq + X)) if not changed else c.fresh("q")
    return q, simp(SInt({(am,): 1}))


def _split_by(a, b):
    """a = b*X + rest, X collecting the monomials divisible by the (single) monomial of b"""
    a, b = SInt.of(a), SInt.of(b)
    X, rest = SInt({}), SInt({})
    if len(b.m) != 1:
        # whole multiples of a compound modulus (N+1 etc.): only a == b itself
        if SInt.of(a - b).key() == SInt({}).key():
            return SInt.of(1), SInt.of(0)
        return X, a
    (bm, bc), = b.m.items()
    for mo, co in a.m.items():
        if co % bc == 0:
            l = list(mo)
            ok = True
            for at in bm:
                if at in l:
                    l.remove(at)
                else:
                    ok = False
                    break
            if ok:
                X = SInt.of(X + SInt({tuple(l): co // bc}))
                continue
        rest = SInt.of(rest + SInt({mo: co}))
    return X, rest


def entails_in_range(r, b):
    r = SInt.of(r)
    b = SInt.of(b)
    if r.is_const() and b.is_const():
        return 0 <= r.const() < b.const()
    c = ctx()
    return c.entails(z3.And(c.z(r) >= 0, c.z(r) < c.z(b)))


# --------------------------------------------------------------------------------------------------------- SBool

class SBool(object):
    __slots__ = ("f", "lin", "expr", "neg", "zero")

    def __init__(self, f, lin=None, expr=None, neg=False, zero=None):
        self.f = f
        self.lin = lin      # SInt d with meaning "d == 0", used to learn substitutions
        self.expr = expr    # (op, d): the condition is d op 0 (negated when neg)
        self.neg = neg
        self.zero = zero    # a network factor: the condition is "factor == 0" (negated when neg)

    def __bool__(self):
        return ctx().decide(self)

    def __invert__(self):
        return sb_not(self)

    def __and__(self, o):
        return sb_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return "SBool(%s)" % (self.f,)


def cmp_(op, a, b):
    d = norm(SInt.of(a - b))
    if d.is_const():
        v = d.const()
        return {"==": v == 0, "<": v < 0, "<=": v <= 0}[op]
    z = ctx().z(d)
    if op == "==":
        return SBool(z == 0, d, (op, d))
    if op == "<":
        return SBool(z < 0, None, (op, d))
    return SBool(z <= 0, None, (op, d))


def known(b):
    """True / False when the path condition decides it, else None"""
    c = ctx()
    if c.entails(as_f(b)):
        return True
    if c.entails(as_f(sb_not(b))):
        return False
    return None


def as_f(b):
    if isinstance(b, SBool):
        return b.f
    return z3.BoolVal(bool(b))


def sb_not(b):
    if isinstance(b, SBool):
        return SBool(z3.Not(b.f), None, b.expr, not b.neg, b.zero)
    return not b


def sb_and(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(z3.And(as_f(a), as_f(b)))
    return a and b


def sb_or(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(z3.Or(as_f(a), as_f(b)))
    return a or b


# ------------------------------------------------------------------------------------------------------- Context

class ZeroRule(object):
    """an entry known to be zero on this path"""
    name = "zero"

    def __init__(self, fac):
        self.fac = fac

    def apply(self, t, free):
        from .loops import fac_key
        from .net import Fac, DELTA
        k = fac_key(self.fac)
        for f in t.fs:
            if f.sym is not DELTA and f.sym.name == self.fac.sym.name:
                if fac_key(f) == k or fac_key(Fac(f.sym, not f.conj, f.args)) == k:
                    return []
        return None


class _Generic(object):
    def __init__(self, c, rng):
        self.c, self.rng = c, rng

    def __enter__(self):
        c = self.c
        self.ex = c.explorers[-1] if c.explorers else c
        self.pos = self.ex.pos
        self.tok = c.push_pc()
        for v, lo, hi in self.rng:
            c.assume(cmp_("<=", SInt.of(lo), SInt.of(v)))
            c.assume(cmp_("<", SInt.of(v), SInt.of(hi)))

    def __exit__(self, et, ev, tb):
        self.c.pop_pc(self.tok)
        if et is None and self.ex.pos != self.pos:
            raise Unsupported("decision about a generic element")
        return False


class Context(object):
    """One symbolic path.  `prefix` is the list of decisions to replay; new decisions are appended and their
    alternatives pushed on `pending`."""

    def __init__(self, prefix=(), z3_timeout=4000, stats=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", z3_timeout)
        self.deadline = None
        self.subst = {}
        self.facts = {}
        self.atom_args = {}
        self.zcache = {}
        self.zfun = {}
        self.zterm = {}
        self.declared = set()
        self.nonneg = {}            # family name -> lower bound
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.trace = []
        self.counter = 0
        self.journal = []
        self.loop_depth = 0
        self.explorers = []
        self.rules = []
        self.obls = []
        self.notes = []
        self.assumed = set()
        self.opaque = {}
        self.stats = stats if stats is not None else {"z3_calls": 0, "z3_time": 0.0}
        self.ent_cache = {}
        self.yes_stack = []
        self.yes = {}               # entailed formulas: they stay so while assumptions are added
        self.npc = 0
        self.pc_list = []
        self.hooks = {}
        self.specs = {}
        self.loop_cands = []
        self.caches = {}
        self.loops = []
        self.witnesses = []     # integers of the contract
        self.carried = []       # values of the contract that local variables of a loop may run through
        self.universal = []     # facts that hold everywhere in a range
        self.forks = []
        self.seq = 0

    def obligation(self, name, ok, detail=""):
        self.obls.append((name, bool(ok), detail, [] if ok else [(str(f)[:160], v) for f, v in self.trace]))

    def fresh(self, pfx="k"):
        self.counter += 1
        return SInt.var("%s#%d" % (pfx, self.counter))

    def fresh_id(self):
        self.counter += 1
        return self.counter

    # z3 translation
    def zatom(self, a):
        z = self.zcache.get(a)
        if z is not None:
            return z
        if a[0] == "v":
            z = z3.Int(a[1])
        elif a[0] == "f":
            f = self.zfun.setdefault(a[1], z3.Function(a[1], z3.IntSort(), z3.IntSort()))
            z = f(self.z(self.atom_args[a]))
        else:
            x, y = self.atom_args[a]
            nm = "%s!%d" % (a[0], len(self.zcache))
            z = z3.Int(nm)
        self.zcache[a] = z
        return z

    def z(self, s):
        s = SInt.of(s)
        key = s.key()
        got = self.zterm.get(key)
        if got is not None:
            dec = self.declared
            for a in got[1]:
                if a not in dec:
                    self.declare_atom(a)
            return got[0]
        tot, atoms = None, []
        for mo, co in s.m.items():
            if mo == ():
                continue
            t = z3.IntVal(co) if co != 1 else None
            for a in mo:
                if a not in self.declared:
                    self.declare_atom(a)
                atoms.append(a)
                za = self.zatom(a)
                t = za if t is None else t * za
            tot = t if tot is None else tot + t
        k = s.m.get((), 0)
        if tot is None:
            tot = z3.IntVal(k)
        elif k:
            tot = tot + k
        self.zterm[key] = (tot, atoms)
        return tot

    def declare_atom(self, a):
        if a in self.declared:
            return
        self.declared.add(a)
        if a[0] == "f":
            if a[1] in self.nonneg:
                self._add(self.zatom(a) >= self.nonneg[a[1]])
        elif a[0] in ("mod", "div"):
            x, y = self.atom_args[a]
            am, ad = ("mod", x.key(), y.key()), ("div", x.key(), y.key())
            self.atom_args[am] = self.atom_args[ad] = (x, y)
            self.declared.update((am, ad))
            zm, zd, zx, zy = self.zatom(am), self.zatom(ad), self.z(x), self.z(y)
            if y.is_const():
                self._add(z3.And(zm >= 0, zm < zy, zx == zd * zy + zm))
            else:
                # linear consequences of x = div * y + mod: enough here, and decidable quickly
                self._add(z3.And(zm >= 0, zm < zy, z3.Implies(z3.And(zx >= 0, zx < zy), z3.And(zd == 0, zm == zx)),
                                 z3.Implies(z3.And(zx >= zy, zx < 2 * zy), z3.And(zd == 1, zm == zx - zy)),
                                 z3.Implies(z3.And(zx < 0, zx >= -zy), z3.And(zd == -1, zm == zx + zy)),
                                 z3.Implies(zx >= 0, z3.And(zd >= 0, zm <= zx)), z3.Implies(zx < 0, zd < 0)))

    def _add(self, f):
        self.solver.add(f)
        self.pc_list.append(f)
        self.npc += 1

    def assume(self, b):
        if isinstance(b, SBool):
            self._add(b.f)
            self._learn(b)
            self._tight(b, True)
        elif not b:
            raise Infeasible()

    def witness(self, v):
        """v is an integer of the contract: facts that hold everywhere in a range are instantiated for it"""
        self.witnesses.append(v)
        for u in self.universal:
            self._instance(u, v)

    def everywhere(self, lo, hi, at):
        """for every i in [lo, hi): not all of at(i)"""
        u = (lo, hi, at)
        self.universal.append(u)
        for v in self.witnesses:
            self._instance(u, v)

    def _instance(self, u, v):
        lo, hi, at = u
        ins = [cmp_("<=", SInt.of(lo), v), cmp_("<", v, SInt.of(hi))]
        if any(known(b) is False for b in ins):
            return
        cs = at(v)
        if cs is None:
            return
        if len(cs) == 1 and all(known(b) for b in ins):
            self.assume(sb_not(cs[0]))
            return
        self._add(z3.Or(*[z3.Not(as_f(b)) for b in ins + cs]))

    def _tight(self, b, v):
        """a decided inequality that leaves a single value teaches an equality"""
        if b.expr is None or b.expr[0] == "==":
            return
        op, d = b.expr
        v = v != b.neg
        off = {("<", True): 1, ("<", False): 0, ("<=", True): 0, ("<=", False): -1}[(op, v)]
        e = norm(SInt.of(d + off))
        if not e.is_const() and self.entails(self.z(e) == 0):
            self._learn(SBool(self.z(e) == 0, e, ("==", e)))

    def _learn(self, b, val=True):
        """learn a substitution from an equality d == 0 that is linear in a plain variable"""
        if not val or b.lin is None:
            return
        d = norm(b.lin)
        best = None
        for mo, co in d.m.items():
            if len(mo) == 1 and mo[0][0] == "v" and abs(co) == 1:
                name = mo[0][1]
                rest = SInt({k: v for k, v in d.m.items() if k != mo})
                if name in rest.vars():
                    continue
                pr = self.subst_priority(name)
                if best is None or pr > best[0]:
                    best = (pr, name, SInt.of(rest * (-co)))
        if best is not None:
            self.subst[best[1]] = best[2]
            if self.facts:
                # known family values under the new names of their arguments
                for (f, key), val in list(self.facts.items()):
                    arg = self.atom_args.get(("f", f, key))
                    if arg is not None:
                        new = norm(arg).key()
                        if new != key and (f, new) not in self.facts:
                            self.facts[(f, new)] = simp(norm(SInt.of(val)))
                self.caches.clear()
            return
        # D(n) == const and the like: a fact about a family value
        for mo, co in d.m.items():
            if len(mo) == 1 and mo[0][0] == "f" and abs(co) == 1:
                rest = SInt({k: v for k, v in d.m.items() if k != mo})
                if mo[0] in rest.atoms():
                    continue
                a = mo[0]
                self.facts[(a[1], self.atom_args[a].key())] = simp(SInt.of(rest * (-co)))
                self.caches.clear()
                return

    def subst_priority(self, name):
        # loop variables first, then site variables, then sizes
        if "#" in name:
            return 3
        if name in ("n", "m", "k", "s"):
            return 2
        return 1

    def check(self, *fs):
        import time
        t = time.time()
        r = self.solver.check(*fs)
        self.stats["z3_calls"] += 1
        self.stats["z3_time"] += time.time() - t
        return r

    def entails(self, f):
        i = f.get_id()
        if i in self.yes:
            return True
        key = (self.npc, i)
        r = self.ent_cache.get(key)
        if r is None:
            r = (self.check(z3.Not(f)) == z3.unsat, f)
            if r[0]:
                self.yes[i] = f
            else:
                self.ent_cache[key] = r
        return r[0]

    def decide(self, b):
        f = b.f
        if self.entails(f):
            if b.lin is not None:
                self._learn(b)
            return True
        nf = z3.Not(f)
        if self.entails(nf):
            return False
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget")
        ex = self.explorers[-1] if self.explorers else self
        if ex.pos < len(ex.prefix):
            v = ex.prefix[ex.pos]
        else:
            v = True
            ex.pending.append(list(ex.prefix) + [False])
            ex.prefix.append(True)
        ex.pos += 1
        if v:
            self._add(f)
            self._learn(b)
        else:
            self._add(nf)
        self._tight(b, v)
        self.trace.append((f, v))
        if hasattr(ex, "forks"):
            ex.forks.append(b)
        if b.zero is not None and (v != b.neg) and hasattr(b.zero, "sym"):
            self.rules = self.rules + [ZeroRule(b.zero)]
        if len(self.trace) > 400:
            raise Unsupported("too many decisions on one path")
        return v

    def opaque_bool(self, key):
        b = self.opaque.get(key)
        if b is None:
            b = SBool(z3.Bool("ob!%d" % len(self.opaque)))
            self.opaque[key] = b
        return b

    def generic(self, *rng):
        """context manager: the variables are arbitrary in their ranges (name SInt, lo, hi); no decision may be taken inside,
        since a decision about a generic element does not hold for the others"""
        return _Generic(self, rng)

    def push_pc(self):
        self.solver.push()
        self.yes_stack.append(self.yes)
        self.yes = dict(self.yes)
        return (dict(self.subst), dict(self.facts), len(self.pc_list), set(self.declared), list(self.rules))

    def pop_pc(self, tok):
        self.solver.pop()
        self.yes = self.yes_stack.pop()
        self.subst, self.facts, n, self.declared, self.rules = tok
        del self.pc_list[n:]
        self.npc = self.npc + 1000003   # invalidate cache
        self.caches.clear()
