"""Mechanical translation of fkernel.f90 (free form subset) to Python over the symbolic runtime.

Dropped by the extraction: comments, `implicit none`, `use`, write statements, the body of lapackMod.inv (LAPACK; replaced by
its contract: the inverse matrix).  Array bounds are kept: each element or section access becomes an obligation.
"""
import re
from . import terms as T
from . import ctx as X
from . import arrays as A
from .terms import P, And, Or, ge0, le, lt, ge, eq, Unsupported
from .arrays import Num, num, tp, Arr

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[edED][+-]?\d+)?|\.\d+(?:[edED][+-]?\d+)?|\d+[edED][+-]?\d+|\d+)|([A-Za-z_]\w*)|(\*\*|==|/=|<=|>=|\.\w+\.|[-+*/(),:<>=%])|('[^']*'|\"[^\"]*\"))")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        # 1.eq.2 style ambiguity: handle dotted operators after an integer
        m = re.match(r"\s*(\d+)(?=\.(?:eq|ne|lt|le|gt|ge|and|or)\.)", s[i:], re.I)
        if m:
            out.append(("n", m.group(1)))
            i += m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("Fortran token: " + s[i:i + 20])
        n, w, o, q = m.groups()
        out.append(("n", n) if n else ("w", w.lower()) if w else ("o", o.lower()) if o else ("s", q))
        i = m.end()
    return out


DOT = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">="}


class Ex:
    """expression parser: python text and type ('i', 'r', 'b')"""

    def __init__(self, toks, unit):
        self.t, self.i, self.u = toks, 0, unit

    def peek(self, v=None):
        if self.i >= len(self.t):
            return None
        k, x = self.t[self.i]
        return x if k == "o" else (None if v is None else None)

    def eat(self, v):
        if self.peek() != v:
            raise Unsupported("Fortran syntax: expected %r at %r" % (v, self.t[self.i:self.i + 5]))
        self.i += 1

    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.peek() == ".or.":
            self.i += 1
            b = self.and_()
            a = ("(%s or %s)" % (a[0], b[0]), "b")
        return a

    def and_(self):
        a = self.not_()
        while self.peek() == ".and.":
            self.i += 1
            b = self.not_()
            a = ("(%s and %s)" % (a[0], b[0]), "b")
        return a

    def not_(self):
        if self.peek() == ".not.":
            self.i += 1
            return ("(not %s)" % self.not_()[0], "b")
        return self.cmp()

    def cmp(self):
        a = self.add()
        o = self.peek()
        o = DOT.get(o, o)
        if o in ("==", "/=", "<", "<=", ">", ">="):
            self.i += 1
            b = self.add()
            return ("(%s %s %s)" % (a[0], "!=" if o == "/=" else o, b[0]), "b")
        return a

    def add(self):
        if self.peek() in ("+", "-"):
            o = self.peek()
            self.i += 1
            a = self.mul()
            a = ("(%s%s)" % (o, a[0]), a[1])
        else:
            a = self.mul()
        while self.peek() in ("+", "-"):
            o = self.peek()
            self.i += 1
            b = self.mul()
            a = ("(%s %s %s)" % (a[0], o, b[0]), ty(a, b))
        return a

    def mul(self):
        a = self.pow()
        while self.peek() in ("*", "/"):
            o = self.peek()
            self.i += 1
            b = self.pow()
            if o == "/" and ty(a, b) == "i":
                a = ("__F.idiv(%s, %s)" % (a[0], b[0]), "i")
            else:
                a = ("(%s %s %s)" % (a[0], o, b[0]), ty(a, b))
        return a

    def pow(self):
        a = self.prim()
        if self.peek() == "**":
            self.i += 1
            if self.peek() in ("+", "-"):
                o = self.peek()
                self.i += 1
                b = self.pow()
                b = ("(%s%s)" % (o, b[0]), b[1])
            else:
                b = self.pow()
            a = ("(%s ** %s)" % (a[0], b[0]), a[1])
        return a

    def args(self):
        """list of ('e', expr) ('s', lo, hi, step) ('k', name, expr)"""
        out = []
        self.eat("(")
        if self.peek() == ")":
            self.i += 1
            return out
        while True:
            if self.t[self.i][0] == "w" and self.i + 1 < len(self.t) and self.t[self.i + 1] == ("o", "="):
                n = self.t[self.i][1]
                self.i += 2
                out.append(("k", n, self.expr()))
            else:
                lo = hi = st = None
                sl = False
                if self.peek() != ":":
                    lo = self.expr()
                if self.peek() == ":":
                    sl = True
                    self.i += 1
                    if self.peek() not in (",", ")", ":"):
                        hi = self.expr()
                    if self.peek() == ":":
                        self.i += 1
                        st = self.expr()
                out.append(("s", lo, hi, st) if sl else ("e", lo))
            if self.peek() == ",":
                self.i += 1
                continue
            self.eat(")")
            return out

    def prim(self):
        k, x = self.t[self.i]
        if k == "n":
            self.i += 1
            if re.fullmatch(r"\d+", x):
                return (x, "i")
            x = x.lower().replace("d", "e")
            return ("__F.lit(%r)" % x, "r")
        if k == "o" and x == "(":
            self.i += 1
            a = self.expr()
            self.eat(")")
            return ("(%s)" % a[0], a[1])
        if k == "o" and x in (".true.", ".false."):
            self.i += 1
            return ("True" if x == ".true." else "False", "b")
        if k == "w":
            self.i += 1
            if self.peek() == "(":
                if x in self.u.arrays:
                    a = self.args()
                    return (self.u.index(x, a), self.u.types.get(x, "r"))
                a = self.args()
                return self.call(x, a)
            return (pyname(x), self.u.types.get(x, "r"))
        raise Unsupported("Fortran expression at %r" % (self.t[self.i:self.i + 5],))

    def call(self, f, a):
        pos = [z[1] for z in a if z[0] == "e"]
        kw = {z[1]: z[2] for z in a if z[0] == "k"}
        tx = ", ".join([p[0] for p in pos] + ["%s=%s" % (k, v[0]) for k, v in kw.items()])
        if f in ("matmul", "inv", "transpose", "dot_product"):
            return ("__F.%s(%s)" % (f, tx), "r")
        if f in ("sum", "abs", "sqrt", "exp", "maxval", "minval"):
            return ("__F.%s_(%s)" % (f, tx), pos[0][1] if f in ("sum", "abs") else "r")
        if f in ("min", "max"):
            return ("__F.%s_(%s)" % (f, tx), "r" if any(p[1] == "r" for p in pos) else "i")
        if f in ("mod", "modulo"):
            return ("__F.%s(%s)" % (f, tx), ty(*pos))
        if f == "size":
            return ("__F.size(%s)" % tx, "i")
        if f in ("dble", "real"):
            return ("(%s)" % pos[0][0], "r")
        raise Unsupported("Fortran function " + f)


def ty(a, b):
    return "i" if a[1] == "i" and b[1] == "i" else "r"


def pyname(x):
    return "v_" + x


class Unit:
    def __init__(self, name, args):
        self.name, self.args = name, args
        self.types, self.arrays, self.intent = {}, {}, {}     # arrays: name -> [(lo text, hi text)]
        self.locals = []
        self.body = []

    def index(self, x, a):
        b = self.arrays[x]
        if len(a) != len(b):
            raise Unsupported("rank of " + x)
        sp = []
        for z in a:
            if z[0] == "e":
                sp.append("('e', %s)" % z[1][0])
            elif z[0] == "s":
                sp.append("('s', %s, %s, %s)" % tuple("None" if q is None else q[0] for q in z[1:]))
            else:
                raise Unsupported("keyword index")
        return "__F.get(%s, [%s], [%s])" % (pyname(x), ", ".join(l for l, h in b), ", ".join(sp))

    def dims(self, x):
        return "[%s]" % ", ".join("(%s, %s)" % d for d in self.arrays[x])


def logical_lines(src):
    out, cur = [], ""
    for line in src.split("\n"):
        # strip comments outside strings
        q, res = None, ""
        for ch in line:
            if q:
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch == "!":
                break
            res += ch
        res = res.strip()
        if not res:
            continue
        if cur:
            res = res.lstrip("&")
        if res.endswith("&"):
            cur += res[:-1] + " "
            continue
        for part in (cur + res).split(";"):
            if part.strip():
                out.append(part.strip())
        cur = ""
    return out


def parse(src):
    units, cur, skip, depth = {}, None, None, 0
    for ln in logical_lines(src):
        low = ln.lower()
        if skip:
            if re.match(r"end\s*(function|subroutine)?\b.*", low) and re.match(r"end\s*%s" % skip, low):
                skip = None
            continue
        if re.match(r"(end\s*module|module\b|contains\b|implicit\b|use\b)", low):
            continue
        if re.match(r"function\s", low) or re.search(r"\bfunction\s+\w+\s*\(", low) and not low.startswith("end"):
            skip = "function"
            continue
        m = re.match(r"subroutine\s+(\w+)\s*\((.*)\)\s*$", low)
        if m:
            cur = Unit(m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()])
            cur.ind = 1
            units[cur.name] = cur
            continue
        if cur is None:
            raise Unsupported("Fortran line outside a subroutine: " + ln)
        if re.match(r"end\s*subroutine", low) or low == "end":
            cur = None
            continue
        decl = re.match(r"(double\s+precision|real(?:\s*\([^)]*\))?|integer|logical)\s*(.*?)::\s*(.*)$", low) if "::" in low else \
            re.match(r"(integer|double\s+precision)()\s+(.*)$", low) if re.match(r"(integer|double\s+precision)\s+\w", low) else None
        if decl:
            declare(cur, decl)
            continue
        stmt(cur, ln)
    return units


def split_top(s):
    out, d, c = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
        if ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(c)
            c = ""
        else:
            c += ch
    if c.strip():
        out.append(c)
    return [x.strip() for x in out]


def declare(u, m):
    base = "i" if m.group(1).startswith("integer") else "b" if m.group(1).startswith("logical") else "r"
    attrs = split_top(m.group(2).lstrip(","))
    dim, intent = None, None
    for a in attrs:
        if a.startswith("dimension"):
            dim = a[a.index("(") + 1:a.rindex(")")]
        elif a.startswith("intent"):
            intent = a[a.index("(") + 1:a.rindex(")")].replace(" ", "")
        elif a:
            raise Unsupported("Fortran attribute " + a)
    for v in split_top(m.group(3)):
        if "=" in v:
            raise Unsupported("Fortran initialiser")
        mm = re.match(r"(\w+)\s*(?:\((.*)\))?$", v)
        n = mm.group(1)
        u.types[n] = base
        u.intent[n] = intent
        d = mm.group(2) or dim
        if d:
            bs = []
            for part in split_top(d):
                lo, _, hi = part.partition(":")
                if _:
                    bs.append((Ex(tokens(lo), u).expr()[0], Ex(tokens(hi), u).expr()[0]))
                else:
                    bs.append(("1", Ex(tokens(lo), u).expr()[0]))
            u.arrays[n] = bs
            if n not in u.args:
                u.locals.append(n)


def put(u, s):
    u.body.append("    " * u.ind + s)


def stmt(u, ln):
    low = ln.lower()
    if re.match(r"(write|print)\b", low):
        return
    if low in ("return", "continue"):
        raise Unsupported("Fortran return")
    m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", low)
    if m:
        ps = [Ex(tokens(x), u).expr()[0] for x in split_top(m.group(2))]
        put(u, "for %s in __F.do(%s):" % (pyname(m.group(1)), ", ".join(ps)))
        u.ind += 1
        put(u, "pass")
        return
    if re.match(r"end\s*(do|if)\b", low):
        u.ind -= 1
        return
    m = re.match(r"if\s*\((.*)\)\s*then$", low)
    if m:
        put(u, "if %s:" % Ex(tokens(m.group(1)), u).expr()[0])
        u.ind += 1
        put(u, "pass")
        return
    m = re.match(r"else\s*if\s*\((.*)\)\s*then$", low)
    if m:
        u.ind -= 1
        put(u, "elif %s:" % Ex(tokens(m.group(1)), u).expr()[0])
        u.ind += 1
        put(u, "pass")
        return
    if low == "else":
        u.ind -= 1
        put(u, "else:")
        u.ind += 1
        put(u, "pass")
        return
    m = re.match(r"call\s+(\w+)\s*(\(.*\))$", low)
    if m:
        a = Ex(tokens(m.group(2)), u).args()
        if any(z[0] != "e" for z in a):
            raise Unsupported("call arguments")
        put(u, "__U[%r](%s)" % (m.group(1), ", ".join(z[1][0] for z in a)))
        return
    m = re.match(r"if\s*\(", low)
    if m:
        d = 0
        for i, ch in enumerate(low):
            if ch == "(":
                d += 1
            if ch == ")":
                d -= 1
                if d == 0:
                    break
        put(u, "if %s:" % Ex(tokens(low[low.index("("):i + 1]), u).expr()[0])
        u.ind += 1
        stmt(u, ln[i + 1:].strip())
        u.ind -= 1
        return
    # assignment
    e = Ex(tokens(ln), u)
    k, x = e.t[0]
    if k != "w":
        raise Unsupported("Fortran statement: " + ln)
    e.i = 1
    a = None
    if e.peek() == "(":
        a = e.args()
    e.eat("=")
    r = e.expr()
    if e.i != len(e.t):
        raise Unsupported("Fortran statement: " + ln)
    if x in u.arrays:
        if a is None:
            put(u, "%s[...] = %s" % (pyname(x), r[0]))
        else:
            g = u.index(x, a)
            put(u, "__F.set(%s, %s)" % (g[len("__F.get("):-1], r[0]))
    else:
        if a is not None:
            raise Unsupported("assignment to a function")
        if u.types.get(x) == "i" and r[1] == "r":
            raise Unsupported("real assigned to an integer")
        put(u, "%s = %s" % (pyname(x), r[0]))


def emit(u):
    out = ["def %s(%s):" % (u.name, ", ".join(pyname(a) for a in u.args))]
    for a in u.args:
        if a in u.arrays:
            out.append("    %s = __F.dummy(%s, %s, %r)" % (pyname(a), pyname(a), u.dims(a), a))
    for a in u.locals:
        out.append("    %s = __F.local(%s)" % (pyname(a), u.dims(a)))
    return "\n".join(out + u.body + ["    return None"])


# ------------------------------------------------------------------ run time support
class FRT:
    @staticmethod
    def lit(s):
        from fractions import Fraction as Fr
        x = Fr(s)
        return num(P.of(x)) if x.denominator != 1 else int(x)

    @staticmethod
    def do(a, b, s=1):
        from . import runtime
        st = tp(s).as_int()
        if not st:
            raise Unsupported("do step")
        return runtime.rng(a, b + (1 if st > 0 else -1), st)

    @staticmethod
    def idiv(a, b):
        p, r = tp(a), tp(b)
        if not A.dec(ge0(p)):
            return num(-T.fdiv(-p, r))
        return num(T.fdiv(p, r))

    @staticmethod
    def mod(a, b):
        p, r = tp(a), tp(b)
        if not A.dec(ge0(p)):
            return num(-T.tmod(-p, r))
        return num(T.tmod(p, r))

    @staticmethod
    def modulo(a, b):
        return num(T.tmod(tp(a), tp(b)))

    @staticmethod
    def view(arr, lows, specs):
        nsh, axmap = [], {}
        for k, (lo, sp) in enumerate(zip(lows, specs)):
            n = arr.sh[k]
            lo = tp(lo)
            if sp[0] == "e":
                i = tp(sp[1]) - lo
                A.oblige(And(ge0(i), lt(i, n)), "index within bounds")
                axmap[k] = ("f", i)
            else:
                a = T.ZERO if sp[1] is None else tp(sp[1]) - lo
                b = n if sp[2] is None else tp(sp[2]) - lo + 1
                if sp[3] is not None and tp(sp[3]).as_int() != 1:
                    raise Unsupported("strided section")
                cnt = b - a
                if cnt.const() is None and not A.dec(ge0(cnt)):
                    cnt = T.ZERO
                if not (sp[1] is None and sp[2] is None):
                    A.oblige(Or(le(cnt, 0), And(ge0(a), le(b, n))), "section within bounds")
                axmap[k] = ("a", len(nsh), a, 1)
                nsh.append(cnt)
        axes = []
        for ax in arr.axes:
            if ax[0] == "f":
                axes.append(ax)
            else:
                m = axmap[ax[1]]
                if m[0] == "f":
                    axes.append(("f", ax[2] + m[1] * ax[3]))
                else:
                    axes.append(("a", m[1], ax[2] + m[2] * ax[3], ax[3]))
        return Arr(arr.buf, nsh, axes)

    @staticmethod
    def get(arr, lows, specs):
        v = FRT.view(arr, lows, specs)
        return num(v.el(())) if v.ndim == 0 else v

    @staticmethod
    def set(arr, lows, specs, val):
        v = FRT.view(arr, lows, specs)
        if isinstance(val, Arr) and val.ndim != v.ndim:
            raise Unsupported("rank mismatch in an assignment")
        if isinstance(val, Arr):
            val = val.copy()
        v.assign(val)

    @staticmethod
    def dummy(a, dims, name):
        sh = [tp(h) - tp(l) + 1 for l, h in dims]
        if not isinstance(a, Arr):
            raise Unsupported("scalar actual argument for the array " + name)
        if a.ndim != len(sh):
            raise Unsupported("rank of the actual argument for " + name)
        out = list(a.axes)
        for k, (s, n) in enumerate(zip(sh, a.sh)):
            if s == n or X.entails(eq(s, n)):
                continue
            if k == len(sh) - 1:
                A.oblige(le(s, n), "actual argument large enough for " + name)
            else:
                A.oblige(eq(s, n), "shape of the actual argument for " + name)
        return Arr(a.buf, sh, a.axes)

    @staticmethod
    def local(dims):
        return A.empty([num(tp(h) - tp(l) + 1) for l, h in dims])

    @staticmethod
    def matmul(a, b):
        return A.matmul(a, b)

    @staticmethod
    def transpose(a):
        return A.transpose(a)

    @staticmethod
    def dot_product(a, b):
        return A.einsum("i,i->", a, b)

    @staticmethod
    def inv(a):
        return A.inv(a)

    @staticmethod
    def sum_(a, dim=None):
        return A.npsum(a, None if dim is None else dim - 1)

    @staticmethod
    def abs_(a):
        return abs(a)

    @staticmethod
    def sqrt_(a):
        return A.elem(T.sqrt, "f")(a)

    @staticmethod
    def exp_(a):
        return A.fun("exp")(a)

    @staticmethod
    def _mm(f, xs):
        r = xs[0]
        for x in xs[1:]:
            r = A.ew2(r, x, f) if isinstance(r, Arr) or isinstance(x, Arr) else num(f(tp(r), tp(x)))
        return r

    @staticmethod
    def min_(*xs):
        return FRT._mm(T.tmin, [A.named(x) if isinstance(x, A.Arr) else x for x in xs])

    @staticmethod
    def max_(*xs):
        return FRT._mm(T.tmax, [A.named(x) if isinstance(x, A.Arr) else x for x in xs])

    @staticmethod
    def size(a, dim=None):
        return a.size if dim is None else a.shape[dim - 1]


class FModule:
    """the extension module as Python sees it (f2py calling convention)"""

    def __init__(self, src, transform):
        self._units = parse(src)
        text = "\n\n".join(emit(u) for u in self._units.values())
        self._text = text
        ns = {"__F": FRT, "__U": {}}
        from .load import run_code
        run_code(transform(text, "fkernel.f90"), ns)
        for n in self._units:
            ns["__U"][n] = ns[n]
        self._ns = ns
        self._memo = {}

    def __getattr__(self, name):
        if name.startswith("_") or name not in self._units:
            raise AttributeError(name)
        return lambda *a, **k: self._call(name, a, k)

    def _call(self, name, args, kw):
        u = self._units[name]
        outs = [a for a in u.args if u.intent.get(a) == "out"]
        ins = [a for a in u.args if a not in outs]
        # dimensions that can be read off an input array
        infer = {}
        for d in ins:
            if d in u.arrays or u.types.get(d) != "i":
                continue
            for a in ins:
                if a in u.arrays:
                    for k, (lo, hi) in enumerate(u.arrays[a]):
                        if pyname(d) in re.findall(r"\w+", hi):
                            infer.setdefault(d, (a, k))
        order = [a for a in ins if a not in infer] + [a for a in ins if a in infer]
        if len(args) > len(order):
            raise TypeError("too many arguments")
        val = dict(zip(order, args))
        for k, v in kw.items():
            k = k.lower()
            if k not in order or k in val:
                raise TypeError("argument " + k)
            val[k] = v
        for a in order:
            if a not in val and a not in infer:
                raise TypeError("missing argument " + a)
        env = {"__F": FRT}
        for a in ins:
            if a in val and a in u.arrays:
                x = A.asarr(val[a])
                if x.ndim != len(u.arrays[a]):
                    raise ValueError("0-th dimension must be fixed: rank of " + a)
                val[a] = x.copy()
        for d, (a, k) in infer.items():
            if d in val:
                continue
            lo, hi = u.arrays[a][k]
            z = T.fresh("z")
            t = A.tp(eval(hi, {"__F": FRT, pyname(d): num(z)})) - A.tp(eval(lo, {"__F": FRT})) + 1
            l = T.lin_coeff(t, T.the_atom(z))
            c = None if l is None else l[0].const()
            if c is None or c == 0 or c.denominator != 1:
                raise Unsupported("dimension inference")
            # C integer division; the dimension is then compared with the declared one
            val[d] = num((val[a].sh[k] - l[1]).scale(c) if abs(c) == 1 else T.fdiv((val[a].sh[k] - l[1]).scale(1 if c > 0 else -1), P.of(abs(c))))
        env.update({pyname(a): v for a, v in val.items()})
        for a in ins:
            if a in u.arrays:
                for k, (lo, hi) in enumerate(u.arrays[a]):
                    s = A.tp(eval(hi, dict(env))) - A.tp(eval(lo, dict(env))) + 1
                    if not (s == val[a].sh[k] or X.entails(eq(s, val[a].sh[k]))):
                        A.oblige(eq(s, val[a].sh[k]), "shape of the argument %s of %s" % (a, name))
        res = []
        for a in outs:
            if a not in u.arrays:
                raise Unsupported("scalar output")
            sh = []
            for lo, hi in u.arrays[a]:
                s = A.tp(eval(hi, dict(env))) - A.tp(eval(lo, dict(env))) + 1
                sh.append(num(s))
            val[a] = A.zeros(sh)
            res.append(val[a])
        # the routine is a function of its input arguments: a call with the arguments of an earlier one returns the same values
        key = None
        if not RT_ACTIVE():
            key = (name,) + tuple(_argkey(val[a]) for a in ins)
            for conds, out in self._memo.get(key, ()):
                if conds <= set(A.ctxkey()):
                    out = [o.copy() for o in out]
                    return out[0] if len(out) == 1 else tuple(out)
        self._ns[name](*[val[a] for a in u.args])
        conds = frozenset(A.ctxkey())       # with the decisions taken inside the call
        if key is not None:
            self._memo.setdefault(key, []).append((conds, [o.copy() for o in res]))
        return res[0] if len(res) == 1 else tuple(res)


def RT_ACTIVE():
    from . import runtime
    return bool(runtime.ACTIVE)


def _argkey(v):
    if isinstance(v, Arr):
        ix = tuple(T.var("$f%s" % "abcdefgh"[k]) for k in range(v.ndim))
        with X.assuming(*[c for x, n in zip(ix, v.sh) for c in (T.ge0(x), T.lt(x, n))]):
            return (tuple(v.sh), A.el2p(v.el(ix)))
    return tp(v)
