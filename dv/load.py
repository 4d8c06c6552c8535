"""Mechanical extraction: the modules of /repo are parsed on every run and executed over the symbolic runtime.

The transformation keeps every statement; it only routes `for`, `break`, `return` in loops, container and attribute
stores through the runtime (dv.runtime).  `import`s of third party libraries are resolved to the shims of dv.npshim /
dv.xrshim (their assumed contracts)."""
import ast, builtins, os, types
from . import runtime as RT
from . import arrays as A
from .terms import Unsupported

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard"}


class Names(ast.NodeVisitor):
    def __init__(self):
        self.s = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.s and not n.id.startswith("__L"):
            self.s.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.s:
            self.s.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.loops = [[]]

    def visit_FunctionDef(self, n):
        self.loops.append([])
        self.generic_visit(n)
        self.loops.pop()
        return n

    def visit_Lambda(self, n):
        self.loops.append([])
        self.generic_visit(n)
        self.loops.pop()
        return n

    def visit_For(self, n):
        self.k += 1
        v = "__L%d__" % self.k
        if n.orelse:
            self.generic_visit(n)
            return n
        nm = Names()
        nm.visit(n.target)
        for s in n.body:
            nm.visit(s)
        names = nm.s
        self.loops[-1].append(v)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.loops[-1].pop()
        it = self.visit(n.iter)
        src = ast.parse(
            "%s = __rt__.loop(0, %r, locals())\n" % (v, tuple(names)) +
            "for %s_it__ in %s:\n" % (v, v) +
            "    try:\n"
            "        if %s.sym:\n" % v +
            "            (%s,) = %s.enter()\n" % (", ".join(names), v) +
            "        pass\n"
            "    finally:\n"
            "        %s.leave(locals())\n" % v +
            "if %s.sym:\n" % v +
            "    (%s,) = %s.exit()\n" % (", ".join(names), v)).body
        src[0].value.args[0] = it
        tryb = src[1].body[0]
        tgt = ast.Assign(targets=[n.target], value=ast.Name(id=v + "_it__", ctx=ast.Load()))
        tryb.body = [tryb.body[0], tgt] + body
        # plain copies of container stores are checked by the statements inside
        return src

    def visit_Break(self, n):
        v = self.loops[-1][-1] if self.loops[-1] else None
        if v is None or v.startswith("while"):
            return n
        return [ast.parse("%s.brk()" % v).body[0], n]

    def visit_Return(self, n):
        self.generic_visit(n)
        ls = [v for v in self.loops[-1] if not v.startswith("while")]
        return [ast.parse("%s.brk()" % v).body[0] for v in ls] + [n]

    def visit_While(self, n):
        self.k += 1
        v = "__w%d__" % self.k
        self.loops[-1].append("while")
        self.generic_visit(n)
        self.loops[-1].pop()
        n.body.insert(0, ast.parse("%s.tick()" % v).body[0])
        return [ast.parse("%s = __rt__.wh()" % v).body[0], n]

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in MUT:
            n.func = ast.Call(func=ast.Attribute(value=ast.Name(id="__rt__", ctx=ast.Load()), attr="mut", ctx=ast.Load()),
                              args=[f.value, ast.Constant(f.attr)], keywords=[])
        return n

    def stores(self, targets):
        pre = []

        def rec(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    rec(x)
            elif isinstance(t, ast.Starred):
                rec(t.value)
            elif isinstance(t, ast.Subscript):
                pre.append(self.mk("chk", t.value))
            elif isinstance(t, ast.Attribute):
                pre.append(self.mk("chkattr", t.value))
        for t in targets:
            rec(t)
        return pre

    def mk(self, f, e):
        e = ast.parse(ast.unparse(e), mode="eval").body
        return ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id="__rt__", ctx=ast.Load()), attr=f, ctx=ast.Load()), args=[e], keywords=[]))

    def visit_Assign(self, n):
        pre = self.stores(n.targets)
        self.generic_visit(n)
        return pre + [n]

    def visit_AugAssign(self, n):
        pre = self.stores([n.target])
        self.generic_visit(n)
        return pre + [n]


def transform(src, fname):
    t = ast.parse(src, fname)
    t = Tr().visit(t)
    ast.fix_missing_locations(t)
    return Code(compile(t, fname, "exec"))


class Code:
    def __init__(self, code):
        self.code = code


_exec = builtins.exec


def run_code(code, ns):
    ns["__rt__"] = RT
    ns["__builtins__"] = BUILTINS
    _exec(code.code, ns)


# ------------------------------------------------------------------ builtins
def py_int(x=0, *a):
    if isinstance(x, A.Num) or (isinstance(x, A.Arr) and x.ndim == 0):
        p = A.tp(x)
        if p.sort == "int":
            return A.num(p)
        if A.dec(A.ge0(p)):
            return A.num(A.tfloor(p))
        return A.num(A.tceil(p))
    if hasattr(x, "to_arr"):
        return py_int(A.num(A.tp(x)))
    return int(x, *a)


py_int.__name__ = "int"


def py_float(x=0.0):
    if isinstance(x, (A.Num, A.Arr)) or hasattr(x, "to_arr"):
        return A.num(A.tp(x))
    return float(x)


py_float.__name__ = "float"


def py_len(x):
    if isinstance(x, A.Arr):
        if not x.sh:
            raise TypeError("len() of unsized object")
        return A.num(x.sh[0])
    if hasattr(x, "sym_len"):
        return x.sym_len()
    if isinstance(x, RT.SymIter):
        return A.num(x.count)
    return len(x)


def py_isinstance(x, cs):
    cs = cs if isinstance(cs, tuple) else (cs,)
    for c in cs:
        if c is py_int:
            if isinstance(x, int) or (isinstance(x, A.Num) and x.t.sort == "int"):
                return True
        elif c is py_float:
            if isinstance(x, float) or (isinstance(x, A.Num) and x.t.sort != "int"):
                return True
        elif c is py_str:
            if isinstance(x, str):
                return True
        elif isinstance(c, tuple):
            if py_isinstance(x, c):
                return True
        elif isinstance(c, type):
            if isinstance(x, c):
                return True
        elif hasattr(c, "_sym_instance"):
            if c._sym_instance(x):
                return True
        else:
            raise Unsupported("isinstance with %r" % (c,))
    return False


def _flatargs(a):
    return list(a[0]) if len(a) == 1 else list(a)


def extremum(a, b, f):
    """min or max, resolved when the context decides it"""
    c = A.T.le(a, b)
    q = A.quick(c)
    if q is None and not (a.names if hasattr(a, "names") else ()):
        if A.X.entails(c):
            q = True
        elif A.X.entails(A.T.Not(c)):
            q = False
    if q is None:
        return f(a, b)
    return (a if q else b) if f is A.T.tmin else (b if q else a)


def py_min(*a, **k):
    if k:
        raise Unsupported("min with key")
    if len(a) == 1 and (isinstance(a[0], A.Arr) or hasattr(a[0], "to_arr")):
        return A.reduct(a[0], None, "min")
    xs = _flatargs(a)
    if all(isinstance(x, (int, float)) for x in xs):
        return min(xs)
    r = A.tp(xs[0])
    for x in xs[1:]:
        r = extremum(r, A.tp(x), A.T.tmin)
    return A.num(r)


def py_max(*a, **k):
    if k:
        raise Unsupported("max with key")
    if len(a) == 1 and (isinstance(a[0], A.Arr) or hasattr(a[0], "to_arr")):
        return A.reduct(a[0], None, "max")
    xs = _flatargs(a)
    if all(isinstance(x, (int, float)) for x in xs):
        return max(xs)
    r = A.tp(xs[0])
    for x in xs[1:]:
        r = extremum(r, A.tp(x), A.T.tmax)
    return A.num(r)


def py_sum(x, start=0):
    s = RT.as_iter(x)
    if s is not None:
        v = A.T.fresh("s")
        with A.X.assuming(A.ge0(v), A.lt(v, s.count)):
            t = A.tp(s.item(v))
        return A.num(A.T.Sum(v, s.count, t)) + start
    return sum(x, start)


def py_abs(x):
    return abs(x)


def py_reversed(x):
    s = RT.as_iter(x)
    return reversed(x) if s is None else s.__reversed__()


def py_print(*a, **k):
    return None


def py_str(x="", *a):
    return str(x, *a)


def py_bool(x=False):
    return bool(x)


def py_tuple(x=()):
    return tuple(x)


def py_round(x, n=None):
    if isinstance(x, (A.Num, A.Arr)):
        raise Unsupported("round of a symbolic number")
    return round(x) if n is None else round(x, n)


BUILTINS = dict(vars(builtins))
BUILTINS.update(range=RT.rng, len=py_len, min=py_min, max=py_max, int=py_int, float=py_float, isinstance=py_isinstance,
                enumerate=RT.enum, zip=RT.zipped, sum=py_sum, print=py_print, round=py_round, reversed=py_reversed)


class Stub:
    """library function without a contract"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub(self._name + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._name)

    def _sym_instance(self, x):
        return False

    def __mro_entries__(self, bases):
        return (object,)


class Loader:
    """modules of the package under verification, loaded from the current source"""

    def __init__(self, root, libs):
        self.root, self.libs = root, libs
        self.mods = {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and self.exists(full + "." + f):
                    setattr(m, f, self.load(full + "." + f))
            return m
        if name.split(".")[0] == "VolterraBasis":
            m = self.load(name)
            return m if fromlist else self.load("VolterraBasis")
        if name in self.libs or name.split(".")[0] in self.libs:
            top = self.libs[name.split(".")[0]] if name.split(".")[0] in self.libs else None
            if not fromlist:
                return top
            if name in self.libs:
                return self.libs[name]
            m = top
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        return Stub(name) if fromlist else Stub(name.split(".")[0])

    def path(self, full):
        parts = full.split(".")[1:]
        b = os.path.join(self.root, *parts)
        if os.path.isdir(b):
            return os.path.join(b, "__init__.py"), True
        return b + ".py", False

    def exists(self, full):
        if full == "VolterraBasis.fkernel":
            return True
        return os.path.exists(self.path(full)[0])

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        if full == "VolterraBasis.fkernel":
            from .fortran import FModule
            m = FModule(open(os.path.join(self.root, "fkernel.f90")).read(), transform)
            self.mods[full] = m
            return m
        p, ispkg = self.path(full)
        if not os.path.exists(p):
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__package__ = full if ispkg else full.rpartition(".")[0]
        m.__file__ = p
        self.mods[full] = m
        code = transform(open(p).read(), p)
        ns = m.__dict__
        b = dict(BUILTINS)
        b["__import__"] = self.imp
        ns["__rt__"] = RT
        ns["__builtins__"] = b
        _exec(code.code, ns)
        parent, _, last = full.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], last, m)
        return m
