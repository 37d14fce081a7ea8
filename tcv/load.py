"""Loading of the real modules of /repo: the source text is read on every run, transformed mechanically and executed.

What the transformation changes (nothing else):
  * `for T in IT: BODY`      -> an explicit iteration object, so that a loop over a symbolic range becomes one
                                generic iteration (see tcv.loops); loops over concrete sequences run unchanged
  * list comprehensions over one generator, list displays -> the same through helper calls (symbolic length allowed)
  * `except` handlers        -> first statement re-raises the verifier's own control exceptions
  * names range, len, isinstance, abs, min, max, sum, enumerate, zip, reversed, list, int, float, complex resolve to
    versions that also accept symbolic values;   print is dropped
  * numpy, scipy, math       -> tcv.shim (exact symbolic arithmetic);  logging is dropped;  compiled modules are absent
"""
import ast
import builtins
import os
import sys
import types
from . import sint, arr, net, shim
from .sint import SInt, SBool, Unsupported, Infeasible, PathDone, SymRaise, ctx, norm, simp
from .arr import Arr
from .loops import Loop, SRange, PList, Poison, UNDEF, comp, ret_check

REPO = os.environ.get("TCV_REPO", "/repo")


class Transform(ast.NodeTransformer):
    def __init__(self, fname):
        self.n = 0
        self.fname = fname
        self.loops = []
        self.intry = 0

    def uid(self):
        self.n += 1
        return "__tcv_%d" % self.n

    def generic_loc(self, new, old):
        for x in (new if isinstance(new, list) else [new]):
            ast.copy_location(x, old)
            for y in ast.walk(x):
                if not hasattr(y, "lineno"):
                    ast.copy_location(y, old)
            ast.fix_missing_locations(x)
        return new

    def visit_FunctionDef(self, node):
        saved, self.loops, t, self.intry = self.loops, [], self.intry, 0
        self.generic_visit(node)
        self.loops, self.intry = saved, t
        return node

    def visit_Lambda(self, node):
        saved, self.loops, t, self.intry = self.loops, [], self.intry, 0
        self.generic_visit(node)
        self.loops, self.intry = saved, t
        return node

    def visit_Raise(self, node):
        """an exception raised by an iteration of a loop over a symbolic range ends the path of that iteration"""
        self.generic_visit(node)
        if self.loops and self.loops[-1] is not None and node.exc is not None and not self.intry:
            call = ast.Call(ast.Attribute(ast.Name(self.loops[-1], ast.Load()), "raising", ast.Load()), [], [])
            call.args = [ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), node.exc)]
            return self.generic_loc([ast.If(call, [ast.Continue()], []), node], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            call = ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "fmt", ast.Load()), [node.left, node.right], [])
            return self.generic_loc(call, node)
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.loops:
            val = node.value or ast.Constant(None)
            call = ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "ret_check", ast.Load()),
                            [val] + [ast.Name(l, ast.Load()) for l in self.loops], [])
            node.value = call
            return self.generic_loc(node, node)
        return node

    def visit_Break(self, node):
        if self.loops and self.loops[-1] is not None:
            loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
            call = ast.Call(ast.Attribute(ast.Name(self.loops[-1], ast.Load()), "brk", ast.Load()), [loc], [])
            return self.generic_loc([ast.If(call, [ast.Continue()], []), ast.Break()], node)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self.loops.append(None)
        node.body = self._body(node.body)
        self.loops.pop()
        node.orelse = self._body(node.orelse)
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, node):
        it = self.visit(node.iter)
        lid = self.uid()
        names = assigned_names(node)
        self.loops.append(lid)
        t, self.intry = self.intry, 0
        body = self._body(node.body)
        self.intry = t
        self.loops.pop()
        orelse = self._body(node.orelse)
        L = lambda: ast.Name(lid, ast.Load())
        head = ast.Assign([ast.Name(lid, ast.Store())],
                          ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "Loop", ast.Load()),
                                   [it, ast.Constant("%s:%d" % (self.fname, node.lineno)),
                                    ast.Tuple([ast.Constant(n) for n in names], ast.Load())], []))
        test = ast.Call(ast.Attribute(L(), "step", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        restore = []
        if names:
            restore = [ast.If(ast.Attribute(L(), "dirty", ast.Load()),
                              [ast.Assign([ast.Name(n, ast.Store())],
                                          ast.Call(ast.Attribute(L(), "get", ast.Load()), [ast.Constant(n)], []))
                               for n in names], [])]
        item = [ast.Assign([node.target], ast.Call(ast.Attribute(L(), "item", ast.Load()), [], []))]
        import copy
        if orelse and any(isinstance(x, ast.Attribute) and x.attr == "brk" and isinstance(x.value, ast.Name) and x.value.id == lid
                          for b in body for x in ast.walk(b)):
            orelse = [ast.If(ast.UnaryOp(ast.Not(), ast.Attribute(L(), "broken", ast.Load())), orelse, [])]
        w = ast.While(test, copy.deepcopy(restore) + item + body, orelse)
        return self.generic_loc([head, w] + restore, node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].is_async:
            g = node.generators[0]
            if isinstance(g.target, ast.Name):
                args = ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
                elt = ast.Lambda(args, node.elt)
                if g.ifs:
                    cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                    flt = ast.Lambda(args, cond)
                else:
                    flt = ast.Constant(None)
                call = ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "comp", ast.Load()), [elt, g.iter, flt], [])
                return self.generic_loc(call, node)
        call = ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "PList", ast.Load()), [node], [])
        return self.generic_loc(call, node)

    visit_GeneratorExp = None

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        call = ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "PList", ast.Load()), [node], [])
        return self.generic_loc(call, node)

    def visit_Try(self, node):
        tid = self.uid()
        self.intry += 1
        self.generic_visit(node)
        self.intry -= 1
        head = ast.Assign([ast.Name(tid, ast.Store())],
                          ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "tr", ast.Load()), [], []))
        for h in node.handlers:
            h.body.insert(0, ast.Expr(ast.Call(ast.Attribute(ast.Name("__tcv__", ast.Load()), "reraise", ast.Load()),
                                               [ast.Name(tid, ast.Load())], [])))
        return self.generic_loc([head, node], node)


del Transform.visit_GeneratorExp


def assigned_names(node):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)
    v = V()
    tgt(node.target)
    for s in node.body:
        v.visit(s)
    return out


class Helper(object):
    Loop = Loop
    PList = PList
    comp = staticmethod(comp)
    ret_check = staticmethod(ret_check)

    @staticmethod
    def fmt(s, x):
        """a formatted message; sizes in it need no value"""
        try:
            return s % x
        except Unsupported:
            return s

    @staticmethod
    def tr():
        c = sint.CTX
        return len(c.loops) if c is not None else 0

    @staticmethod
    def reraise(depth):
        e = sys.exc_info()[1]
        if isinstance(e, (Unsupported, Infeasible, PathDone, RecursionError, MemoryError)):
            raise e
        c = sint.CTX
        if getattr(e, "tcv_loop", False):
            raise Unsupported("exception of a loop over a symbolic range handled in the code")
        if c is not None:
            while len(c.loops) > depth:
                c.loops[-1].abandon()


# ------------------------------------------------------------------------------------------------ builtins

_len = builtins.len
_range = builtins.range
_isinstance = builtins.isinstance


def s_len(x):
    if _isinstance(x, PList):
        return x.length()
    if _isinstance(x, Arr):
        return x.shape[0]
    if hasattr(x, "tcv_len"):
        return x.tcv_len()
    return _len(x)


def s_range(*a):
    a = [simp(norm(x)) if _isinstance(x, SInt) else x for x in a]
    if not any(_isinstance(x, SInt) for x in a):
        a = [x.__index__() if _isinstance(x, Arr) else x for x in a]
        return _range(*a)
    if _len(a) == 1:
        return SRange(0, a[0])
    if _len(a) == 2:
        return SRange(a[0], a[1])
    if a[2] == 1:
        return SRange(a[0], a[1])
    if a[2] == -1:
        return SRange(a[0], a[1], -1)
    raise Unsupported("range step")


def s_isinstance(x, t):
    ts = t if _isinstance(t, tuple) else (t,)
    for y in ts:
        if y in (S_FLOAT, S_COMPLEX):
            if _isinstance(x, Arr) and x.ndim == 0:
                return True
        if y in (S_INT, int):
            if _isinstance(x, SInt):
                return True
        if y is S_LIST or y is list:
            if _isinstance(x, list):
                return True
            continue
        if y in (S_FLOAT, S_COMPLEX, S_INT):
            y = {S_FLOAT: float, S_COMPLEX: complex, S_INT: int}[y]
        if _isinstance(x, y):
            return True
    return False


def s_minmax(op):
    base = builtins.min if op == "min" else builtins.max

    def f(*a, **k):
        xs = list(a[0]) if _len(a) == 1 else list(a)
        if not any(_isinstance(x, (SInt, Arr)) for x in xs):
            return base(xs, **k)
        if any(_isinstance(x, Arr) for x in xs):
            raise Unsupported(op + " of symbolic values")
        r = xs[0]
        for x in xs[1:]:
            if op == "min":
                r = x if bool(sint.cmp_("<", SInt.of(x), SInt.of(r))) else r
            else:
                r = x if bool(sint.cmp_("<", SInt.of(r), SInt.of(x))) else r
        return r
    return f


def s_sum(xs, start=0):
    if _isinstance(xs, PList):
        return xs.tcv_sum()
    r = start
    for x in xs:
        r = r + x
    return r


def s_enumerate(x, start=0):
    if _isinstance(x, PList) and x.symbolic():
        raise Unsupported("enumerate of a symbolic list")
    return builtins.enumerate(x, start)


def s_reversed(x):
    if _isinstance(x, SRange):
        return SRange(x.hi - 1, x.lo - 1, -1) if x.step == 1 else SRange(x.hi + 1, x.lo + 1)
    if _isinstance(x, PList):
        return PList(builtins.reversed(x.concrete()))
    return builtins.reversed(x)


def s_list(x=()):
    if _isinstance(x, PList):
        x = x.copy()
        x.arr = False
        return x
    if _isinstance(x, SRange):
        return comp(lambda i: i, x, None)
    if _isinstance(x, Arr) and len(x.shape) and not norm(SInt.of(x.shape[0])).is_const():
        # views of the slices
        return PList.symbolic_list(x.shape[0], lambda i: x[i])
    return PList(x)


class _TypeLike(object):
    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def __call__(self, *a):
        return self.fn(*a)


def _to_int(x=0, *a):
    if _isinstance(x, SInt):
        return x
    if _isinstance(x, Arr):
        return x.__index__()
    return int(x, *a)


def _to_float(x=0.0):
    if _isinstance(x, (Arr, SInt)):
        return x
    return float(x)


def _to_complex(*a):
    if _isinstance(a[0], (Arr, SInt)):
        return a[0]
    return complex(*a)


S_INT = _TypeLike(int, _to_int)
S_FLOAT = _TypeLike(float, _to_float)
S_COMPLEX = _TypeLike(complex, _to_complex)
S_LIST = s_list


class NoLog(object):
    def __getattr__(self, n):
        if n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"):
            return 10

        def f(*a, **k):
            return NoLog() if n in ("getLogger", "StreamHandler", "Formatter", "NullHandler") else None
        return f

    def isEnabledFor(self, *a):
        return False


_CODE = {}


class Loader(object):
    """modules of the package under verification, executed against the shim"""

    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.ext = shim.build()
        self.sources = {}
        self.pkg = types.ModuleType("evoMPS")
        self.pkg.__path__ = []
        self.overrides = overrides or {}
        self.pkg.__version__ = "x"
        self.pkg.log = NoLog()
        ext_log = types.ModuleType("logging")
        ext_log.__getattr__ = lambda n: getattr(NoLog(), n)
        self.ext["logging"] = ext_log
        import copy as _copy
        self.ext["copy"] = _copy
        self.ext["time"] = types.SimpleNamespace(time=lambda: 0.0, clock=lambda: 0.0)
        fut = __import__("__future__")
        self.ext["__future__"] = fut
        self.ext["functools"] = __import__("functools")
        self.ext["sys"] = types.SimpleNamespace(stdout=types.SimpleNamespace(flush=lambda: None, write=lambda *a: None),
                                                version_info=sys.version_info)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name.split(".")[0] == "evoMPS":
            sub = name if level > 0 else ".".join(name.split(".")[1:])
            if level > 0 and name == "":
                pass
            if not sub:
                for f in fromlist or ():
                    if not hasattr(self.pkg, f):
                        setattr(self.pkg, f, self.load(f))
                return self.pkg
            m = self.load(sub)
            setattr(self.pkg, sub, m)
            if fromlist:
                return m
            return self.pkg
        if name in self.ext:
            if not fromlist and "." in name:
                return self.ext[name.split(".")[0]]
            return self.ext[name]
        raise ImportError(name)

    def load(self, sub):
        if sub in self.mods:
            return self.mods[sub]
        path = os.path.join(self.repo, "evoMPS", sub + ".py")
        if not os.path.exists(path):
            raise ImportError("evoMPS." + sub)
        if sub == "cuda_alternatives":
            raise ImportError(sub)
        src = open(path).read()
        self.sources[sub] = src
        key = (sub, path, src)
        if key not in _CODE:
            tree = ast.parse(src, path)
            tree = Transform(sub).visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[key] = compile(tree, path, "exec")
        code = _CODE[key]
        m = types.ModuleType("evoMPS." + sub)
        m.__file__ = path
        self.mods[sub] = m
        g = m.__dict__
        b = dict(vars(builtins))
        b.update(range=s_range, len=s_len, isinstance=s_isinstance, min=s_minmax("min"), max=s_minmax("max"),
                 sum=s_sum, enumerate=s_enumerate, reversed=s_reversed, list=S_LIST, int=S_INT, float=S_FLOAT,
                 complex=S_COMPLEX, print=lambda *a, **k: None, __import__=self.imp, xrange=s_range)
        bm = types.ModuleType("builtins")
        bm.__dict__.update(b)
        g["__builtins__"] = b
        g["__tcv__"] = Helper
        exec(code, g)
        for v in list(g.values()):
            if isinstance(v, type) and v.__module__ == m.__name__ and "__setattr__" not in v.__dict__ \
                    and not issubclass(v, BaseException):
                v.__setattr__ = jset
        return m


class _Missing(object):
    pass


MISSING = _Missing()


def jset(self, name, val):
    d = self.__dict__
    c = sint.CTX
    if c is not None:
        if not d:
            from .loops import seq
            d["_tcv_seq"] = seq()
        c.journal.append(("attr", self, name, d.get(name, MISSING)))
    pr = getattr(type(self), name, None)
    if isinstance(pr, property):
        pr.__set__(self, val)
        return
    d[name] = val
