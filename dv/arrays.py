"""Symbolic arrays: shapes and elements are terms; views share buffers; writes are logged for the loop runtime."""
import itertools, builtins
from fractions import Fraction as Fr
from . import terms as T
from . import ctx as X
from .terms import P, C, And, Or, Not, ge0, eq0, le, lt, ge, eq, TRUE, FALSE, Unsupported

newaxis = None


class Obligations:
    """hook: set by the runner. oblige(cond, label)"""
    hook = None


def oblige(cond, label):
    if Obligations.hook is not None and not (isinstance(cond, C) and cond.op == "true"):
        Obligations.hook(cond, label)


class ShapeError(Exception):
    """the code raises on these inputs (or may)"""


# ------------------------------------------------------------------ scalars
def tp(x):
    """term of a scalar"""
    if isinstance(x, P):
        return x
    if isinstance(x, Num):
        return x.t
    if isinstance(x, C):
        return T.iv(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            return el2p(x.el(()))
        if all(s.as_int() == 1 for s in x.sh):
            return el2p(x.el(tuple(T.ZERO for _ in x.sh)))
        raise Unsupported("array used as a scalar")
    if isinstance(x, complex):
        raise Unsupported("complex number")
    if hasattr(x, "to_arr"):
        return tp(x.to_arr())
    return P.of(x)


def el2p(v):
    return T.iv(v) if isinstance(v, (C, bool)) else v


def num(p):
    if isinstance(p, C):
        if p.op == "true":
            return True
        if p.op == "false":
            return False
        return p
    if isinstance(p, (int, float, bool)):
        return p
    c = p.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return Num(p)


class Num:
    """a symbolic number as the program sees it"""
    __slots__ = ("t",)
    shape = ()
    ndim = 0
    __array_priority__ = 100

    def __init__(self, t):
        self.t = t

    def to_term(self):
        return self.t

    def squeeze(self, axis=None): return self
    def copy(self): return self
    def flatten(self): return asarr(self).reshape(1)
    ravel = flatten

    def _b(self, o, f):
        if isinstance(o, (Arr,)) or hasattr(o, "to_arr") or hasattr(o, "xr_op") or isinstance(o, (Spec, Freq, Phase)):
            return NotImplemented
        try:
            return num(f(self.t, tp(o)))
        except Unsupported:
            if isinstance(o, (str, bytes, type(None), tuple, list, dict)):
                return NotImplemented
            raise

    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: b + a)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o):
        if isinstance(o, (tuple, list)):
            raise Unsupported("sequence repeated a symbolic number of times")
        return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o): return s._b(o, tdiv)
    def __rtruediv__(s, o): return s._b(o, lambda a, b: tdiv(b, a))
    def __floordiv__(s, o): return s._b(o, T.fdiv)
    def __rfloordiv__(s, o): return s._b(o, lambda a, b: T.fdiv(b, a))
    def __divmod__(s, o): return s // o, s % o
    def __mod__(s, o): return s._b(o, T.tmod)
    def __rmod__(s, o): return s._b(o, lambda a, b: T.tmod(b, a))
    def __pow__(s, o): return s._b(o, tpow)
    def __rpow__(s, o): return s._b(o, lambda a, b: tpow(b, a))
    def __neg__(s): return num(-s.t)
    def __pos__(s): return s
    def __abs__(s): return num(T.tabs(s.t))

    def _c(self, o, f):
        if isinstance(o, Arr) or hasattr(o, "to_arr") or hasattr(o, "xr_op"):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            raise Unsupported("comparison with infinity")
        return num(f(self.t, tp(o)))

    def __lt__(s, o): return s._c(o, T.lt)
    def __le__(s, o): return s._c(o, T.le)
    def __gt__(s, o): return s._c(o, T.gt)
    def __ge__(s, o): return s._c(o, T.ge)
    def __eq__(s, o):
        r = s._c(o, T.eq)
        return False if r is NotImplemented and not (isinstance(o, Arr) or hasattr(o, "to_arr")) else r
    def __ne__(s, o):
        r = s._c(o, T.eq)
        if r is NotImplemented:
            return True if not (isinstance(o, Arr) or hasattr(o, "to_arr")) else r
        return num(Not(r)) if isinstance(r, C) else (not r)
    def __hash__(s): return hash(s.t)
    def __bool__(s): return bool(Not(eq0(s.t)))
    def __index__(s):
        if s.t.sort == "int" and X.entails(And(ge0(s.t), lt(s.t, 8))):
            for k in range(8):
                if dec(eq(s.t, k)):
                    return k
        raise Unsupported("symbolic number used as a concrete index: %r" % (s.t,))
    def __int__(s): raise Unsupported("int() of a symbolic number")
    def __float__(s): raise Unsupported("float() of a symbolic number")
    def __repr__(s): return "<%r>" % (s.t,)
    def item(s): return s
    def __round__(s, n=0): raise Unsupported("round of a symbolic number")
    def conj(s): return s
    conjugate = conj
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s
    def astype(s, *a, **k): return s
    def reshape(s, *shp): return asarr(s).reshape(*shp)
    @property
    def real(s): return s
    @property
    def T(s): return s
    def __matmul__(s, o): return NotImplemented


def tdiv(a, b):
    return a / b


def tpow(a, b):
    k = b.as_int()
    if k is not None and abs(k) <= 12:
        return a ** k
    c = b.const()
    if c is not None and c == Fr(1, 2):
        return T.sqrt(a)
    if a.as_int() == 2 and b.sort == "int":
        return pow2(b)
    if a.as_int() == -1 and b.sort == "int":
        return T.ONE - T.tmod(b, P.of(2)).scale(Fr(2))
    return T.app("pow", (a, b))


def _pow_red(args):
    """a**(e+k) = a**e a**k (k > 0), a**k expanded"""
    b, e = args
    k = e.as_int()
    if k is not None:
        return b ** k if abs(k) <= 12 else None
    if e.sort == "int":
        k = int(e.d.get((), 0))
        if k > 0:
            return T.app("pow", (b, e - k)) * b ** k
    return None


T.REDUCE["pow"] = _pow_red


def pow2(e):
    """2**e for an integer term: constants pulled out (e >= 0 where it is used)"""
    c = e.d.get((), 0)
    if e.const() is not None:
        return P.of(Fr(2) ** int(c))
    return T.app("pow2", (e - P.of(c),), "int").scale(Fr(2) ** int(c))


def _pow2_facts(args):
    """2**e >= 1 for e >= 0; for e = ceil(log(n)/log(2)): 2**e >= n"""
    e = args[0]
    p = atom_p("pow2", args, "int")
    out = [Or(lt(e, 0), ge(p, 1))]
    for m, c in e.d.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].a[0] == "clog2" and len(e.d) == 1:
            n = m[0][0].a[1]
            out.append(Or(lt(n, 1), And(ge(p, n), ge(e, 0))))
    return out


def atom_p(name, args, sort):
    return T.atomP(T.rawapp(name, tuple(args), sort))


X.FACTS["pow2"] = _pow2_facts


def tceil(p):
    """ceiling of a real term"""
    if p.sort == "int":
        return p
    # ceil(log(n)/log(2) + c)
    c = p.d.get((), Fr(0))
    q = p - P.of(c)
    if c.denominator == 1 and len(q.d) == 1:
        (m, k), = q.d.items()
        if k == 1 and len(m) == 2:
            up = [a for a, e in m if e == 1]
            dn = [a for a, e in m if e == -1]
            if len(up) == 1 and len(dn) == 1 and up[0].kind == "app" and up[0].a[0] == "log" and dn[0].kind == "app" and dn[0].a[0] == "log" \
                    and dn[0].a[1].as_int() == 2:
                return T.app("clog2", (up[0].a[1],), "int") + P.of(c)
    if len(q.d) == 1:
        (m, k), = q.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].a[0] == "log2" and k == 1 and c.denominator == 1:
            return T.app("clog2", (m[0][0].a[1],), "int") + P.of(c)
    return -tfloor(-p)


def _rint_facts(args):
    """|x - rint(x)| <= 1/2"""
    r = T.atomP(T.rawapp("rint", tuple(args), "int"))
    d = args[0] - r
    return [T.ge0(d + P.of(Fr(1, 2))), T.ge0(P.of(Fr(1, 2)) - d)]


X.FACTS["rint"] = _rint_facts


def trint(p):
    """nearest integer (ties: unspecified)"""
    p = P.of(p)
    return p if p.sort == "int" else T.app("rint", (p,), "int")


def tfloor(p):
    if p.sort == "int":
        return p
    c = p.const()
    if c is not None:
        return P.of(c.numerator // c.denominator)
    # rational combination of integers: floor(q/d)
    den = 1
    ok = True
    for m, c in p.d.items():
        den = den * c.denominator // _gcd(den, c.denominator)
        for a, e in m:
            if a.sort != "int" or e < 0:
                ok = False
    if ok:
        return T.fdiv(p.scale(Fr(den)), P.of(den))
    return T.app("fdiv", (p, T.ONE), "int")


def _gcd(a, b):
    from math import gcd
    return gcd(a, b)


# ------------------------------------------------------------------ buffers and views
_serial = itertools.count()


class Buf:
    __slots__ = ("fn", "shape", "dtype", "tag", "nan", "serial", "zero")

    def __init__(self, shape, fn, dtype="f", nan=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        self.tag = None
        self.nan = nan
        self.zero = False
        self.serial = next(_serial)


class Tracker:
    """active recorders of writes (loop runtime)"""
    stack = []
    born = []       # buffers created since the innermost loop pass started


def ctxkey():
    return tuple([c.key if isinstance(c, C) else c for c in X.cur.conds])


def memo(fn):
    """cached reader; values may be simplified under the context, which is part of the key"""
    cache = {}

    def g(idx):
        k = (idx, ctxkey())
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[(idx, ctxkey())] = r      # a decision taken meanwhile belongs to the key
        return r
    return g


def shp(shape):
    if isinstance(shape, (int, Num, P)):
        shape = (shape,)
    return tuple(tp(s) for s in shape)


def new(shape, fn, dtype="f", nan=None):
    sh = shp(shape)
    b = Buf(sh, memo(fn), dtype, nan)
    return Arr(b, sh, tuple(("a", k, T.ZERO, 1) for k in range(len(sh))))


class Arr:
    __array_priority__ = 200
    __hash__ = object.__hash__

    def __init__(self, buf, sh, axes):
        self.buf, self.sh, self.axes = buf, tuple(sh), tuple(axes)

    # -- geometry
    @property
    def shape(self):
        return tuple(num(s) for s in self.sh)

    @property
    def ndim(self):
        return len(self.sh)

    @property
    def dtype(self):
        return Dtype(self.buf.dtype)

    @property
    def size(self):
        r = T.ONE
        for s in self.sh:
            r = r * s
        return num(r)

    @property
    def T(self):
        return transpose(self)

    def __len__(self):
        if not self.sh:
            raise TypeError("len() of unsized object")
        n = self.sh[0].as_int()
        if n is None:
            raise Unsupported("len() of an array of symbolic size")
        return n

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a numpy array")

    def bidx(self, idx):
        out = []
        for ax in self.axes:
            if ax[0] == "f":
                out.append(ax[1])
            else:
                out.append(ax[2] + idx[ax[1]] * ax[3] if (ax[2].d or ax[3] != 1) else idx[ax[1]])
        return tuple(out)

    def el(self, idx):
        return self.buf.fn(self.bidx(idx))

    def reader(self):
        """immutable snapshot of the content"""
        f, bi = self.buf.fn, self.bidx
        return lambda idx: f(bi(idx))

    def nanreader(self):
        n = self.buf.nan
        if n is None:
            return None
        bi = self.bidx
        return lambda idx: n(bi(idx))

    # -- indexing
    def view(self, key):
        """basic indexing; returns Arr view (or raises Unsupported for fancy indexing)"""
        if not isinstance(key, tuple):
            key = (key,)
        n_real = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_real)
            else:
                out.append(k)
        nsh, amap, pos = [], {}, 0    # old view axis -> ('f', P) or ('a', newaxis, start, step)
        for k in out:
            if k is None:
                nsh.append(T.ONE)
                continue
            n = self.sh[pos]
            if isinstance(k, slice):
                st, step, cnt = slice_norm(k, n)
                amap[pos] = ("a", len(nsh), st, step)
                nsh.append(cnt)
            else:
                amap[pos] = ("f", index_norm(k, n))
            pos += 1
        axes = []
        for ax in self.axes:
            if ax[0] == "f":
                axes.append(ax)
            else:
                m = amap[ax[1]]
                if m[0] == "f":
                    axes.append(("f", ax[2] + m[1] * ax[3]))
                else:
                    axes.append(("a", m[1], ax[2] + m[2] * ax[3], ax[3] * m[3]))
        return Arr(self.buf, nsh, axes)

    def __getitem__(self, key):
        fk = fancy_key(key)
        if fk is not None:
            return fancy_get(self, fk)
        v = self.view(key)
        if v.ndim == 0:
            return num(v.el(()))
        return v

    def __setitem__(self, key, val):
        fk = fancy_key(key)
        if fk is not None:
            fancy_set(self, fk, val)
            return
        self.view(key).assign(val)

    def assign(self, val):
        if self.buf.tag == "ro":
            raise Unsupported("write to an array whose aliasing is not tracked")
        val = asarr(val)
        if self.buf.dtype == "i" and val.buf.dtype == "f":
            raise Unsupported("assignment of reals to an integer array")
        vr = bcast_reader(val, self.sh, "assignment")
        vn = None
        if val.buf.nan is not None or self.buf.nan is not None:
            raise Unsupported("write of missing values")
        isb = self.buf.dtype == "b"
        axes, bsh = self.axes, self.buf.shape
        vsh = self.sh

        def region(b):
            """condition that buffer index b is written, and the view index"""
            cs, idx = [], [T.ZERO] * len(vsh)
            for a, x, n in zip(axes, b, bsh):
                if a[0] == "f":
                    cs.append(eq(x, a[1]))
                    continue
                _, k, st, step = a
                cnt = vsh[k]
                if step == 1 and not st.d and cnt == n:
                    idx[k] = x
                elif cnt.as_int() == 1:
                    cs.append(eq(x, st))
                elif step == 1:
                    cs += [ge(x, st), lt(x, st + cnt)]
                    idx[k] = x - st
                elif isinstance(step, int) and step == -1:
                    cs += [le(x, st), T.gt(x, st - cnt)]
                    idx[k] = st - x
                elif isinstance(step, int):
                    s = abs(step)
                    d = x - st if step > 0 else st - x
                    q = T.fdiv(d, P.of(s))
                    cs += [ge0(d), lt(q, cnt), eq(d, q * s)]
                    idx[k] = q
                else:
                    raise Unsupported("write with a symbolic step")
            return And(*cs), tuple(idx)
        old = self.buf.fn

        def val_at(b):
            v = vr(region(b)[1])
            return v if isb else el2p(v)
        cond_at = lambda b: region(b)[0]
        write(self.buf, cond_at, val_at)

    # -- methods
    def copy(self):
        return new(self.sh, self.reader(), self.buf.dtype, self.nanreader())

    __copy__ = copy

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, t, *a, **k):
        r = self.copy()
        return cast(r, t)

    def reshape(self, *shape, **kw):
        if kw:
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))

    flatten = ravel

    def sum(self, axis=None, keepdims=False, **k):
        return npsum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims)

    def min(self, axis=None):
        return reduct(self, axis, "min")

    def max(self, axis=None, keepdims=False):
        return reduct(self, axis, "max")

    def dot(self, o):
        return dot(self, o)

    def transpose(self, *ax):
        return transpose(self, ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else (ax or None))

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def swapaxes(self, a, b):
        return swapaxes(self, a, b)

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def fill(self, v):
        self[...] = v

    def item(self):
        return num(tp(self))

    def tolist(self):
        raise Unsupported("tolist")

    def any(self, *a, **k):
        return anyall(self, "any")

    def all(self, *a, **k):
        return anyall(self, "all")

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def data(self):
        return self

    @property
    def values(self):
        return self

    def __iter__(self):
        n = self.sh[0].as_int() if self.sh else None
        if n is None:
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.ndim == 0 or all(s.as_int() == 1 for s in self.sh):
            v = self.el(tuple(T.ZERO for _ in self.sh))
            return bool(v if isinstance(v, (C, bool)) else Not(eq0(v)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        raise Unsupported("float() of a symbolic array")

    def __index__(self):
        if self.ndim == 0:
            c = tp(self).as_int()
            if c is not None:
                return c
        raise Unsupported("array used as an index")

    def __repr__(self):
        return "Arr(%s)" % ",".join(map(repr, self.sh))

    # -- operators
    def __add__(s, o): return ew2(s, o, lambda a, b: a + b)
    def __radd__(s, o): return ew2(o, s, lambda a, b: a + b)
    def __sub__(s, o): return ew2(s, o, lambda a, b: a - b)
    def __rsub__(s, o): return ew2(o, s, lambda a, b: a - b)
    def __mul__(s, o): return ew2(s, o, lambda a, b: a * b, logic="and")
    def __rmul__(s, o): return ew2(o, s, lambda a, b: a * b, logic="and")
    def __truediv__(s, o): return ew2(s, o, tdiv, "f")
    def __rtruediv__(s, o): return ew2(o, s, tdiv, "f")
    def __floordiv__(s, o): return ew2(s, o, T.fdiv)
    def __rfloordiv__(s, o): return ew2(o, s, T.fdiv)
    def __mod__(s, o): return ew2(s, o, T.tmod)
    def __rmod__(s, o): return ew2(o, s, T.tmod)
    def __pow__(s, o): return ew2(s, o, tpow)
    def __rpow__(s, o): return ew2(o, s, tpow)
    def __neg__(s): return ew1(s, lambda a: -a)
    def __pos__(s): return s
    def __abs__(s): return ew1(s, T.tabs)
    def __matmul__(s, o): return matmul(s, o)
    def __rmatmul__(s, o): return matmul(o, s)
    def __lt__(s, o): return cmp2(s, o, T.lt)
    def __le__(s, o): return cmp2(s, o, T.le)
    def __gt__(s, o): return cmp2(s, o, T.gt)
    def __ge__(s, o): return cmp2(s, o, T.ge)
    def __eq__(s, o): return False if o is None or isinstance(o, str) else cmp2(s, o, T.eq)
    def __ne__(s, o): return True if o is None or isinstance(o, str) else cmp2(s, o, lambda a, b: Not(T.eq(a, b)))
    def __and__(s, o): return logic2(s, o, And)
    def __rand__(s, o): return logic2(o, s, And)
    def __or__(s, o): return logic2(s, o, Or)
    def __ror__(s, o): return logic2(o, s, Or)
    def __invert__(s): return new(s.sh, (lambda r: lambda i: Not(tc(r(i))))(s.reader()), "b")

    def _ip(self, r):
        """in place operation: the view keeps its identity"""
        self.assign(r)
        return self

    def __iadd__(s, o): return s._ip(s + o)
    def __isub__(s, o): return s._ip(s - o)
    def __imul__(s, o): return s._ip(s * o)
    def __itruediv__(s, o): return s._ip(s / o)
    def __ipow__(s, o): return s._ip(s ** o)


class Dtype:
    def __init__(self, k):
        self.kind = k
        self.name = {"f": "float64", "i": "int64", "b": "bool", "c": "complex128"}[k]
        self.itemsize = 8

    def __eq__(self, o):
        return dt_of(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    @property
    def type(self):
        return {"f": float, "i": int, "b": bool, "c": complex}[self.kind]


def dt_of(t):
    if t is None:
        return "f"
    if isinstance(t, Dtype):
        return t.kind
    if t is float or t is complex:
        return "f" if t is float else "c"
    if t is int:
        return "i"
    if t is bool:
        return "b"
    n = getattr(t, "__name__", None) or str(t)
    if "float" in n or "double" in n:
        return "f"
    if "complex" in n:
        return "c"
    if "bool" in n:
        return "b"
    if "int" in n:
        return "i"
    if "object" in n:
        raise Unsupported("object array")
    raise Unsupported("dtype %r" % (t,))


def write(buf, cond_at, val_at):
    """buf[b] = val_at(b) where cond_at(b)"""
    old = buf.fn
    isb = buf.dtype == "b"

    def fn(b):
        c = cond_at(b)
        if c.op == "true":
            return val_at(b)
        d = quick(c)
        if d is True:
            return val_at(b)
        if d is False:
            return old(b)
        if isb:
            return Or(And(c, tc(val_at(b))), And(Not(c), tc(old(b))))
        return T.ite(c, val_at(b), old(b))
    if Tracker.stack:
        Tracker.stack[-1].record(buf, cond_at, val_at)
    buf.fn = memo(fn)


def quick(c):
    """cheap decision of a condition (structural / small entailment)"""
    if isinstance(c, bool):
        return c
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if len(X.cur.conds) > 60:
        return None
    if X.entails(c, 500):
        return True
    if X.entails(Not(c), 500):
        return False
    return None


def tc(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, C):
        return v
    return Not(eq0(v))


# ------------------------------------------------------------------ index normalisation
def dec(c):
    """decide a geometric condition (branches when undecided)"""
    if isinstance(c, bool):
        return c
    return bool(c)


def index_norm(k, n):
    if isinstance(k, (bool,)):
        raise Unsupported("boolean index")
    p = tp(k)
    if p.sort != "int":
        raise Unsupported("non integer index")
    c = p.as_int()
    if c is not None:
        if c < 0:
            p = n + c
    elif not X.entails(ge0(p)):
        if dec(ge0(p)):
            pass
        else:
            p = n + p
    oblige(And(ge0(p), lt(p, n)), "index within bounds")
    return p


def slice_norm(s, n):
    """(start, step, count) of a slice of an axis of size n (numpy clamping rules)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Num):
        raise Unsupported("symbolic slice step")
    step = int(step)

    def clampp(v, lo, hi):
        p = tp(v)
        if p.sort != "int":
            raise TypeError("slice indices must be integers")
        c = p.as_int()
        if (c is not None and c < 0) or (c is None and not dec(ge0(p))):
            p = n + p
            if not dec(ge(p, lo)):
                p = P.of(lo)
            return p
        if not dec(le(p, hi)):
            p = P.of(hi)
        return p
    if step > 0:
        st = T.ZERO if s.start is None else clampp(s.start, 0, n)
        en = n if s.stop is None else clampp(s.stop, 0, n)
        d = en - st
        if d.const() is None or d.const() < 0:
            if not dec(ge0(d)):
                d = T.ZERO
        cnt = d if step == 1 else T.fdiv(d + (step - 1), P.of(step))
        return st, step, cnt
    st = n - 1 if s.start is None else clampp(s.start, -1, n - 1)
    if s.stop is None:
        en = P.of(-1)
    else:
        en = clampp(s.stop, -1, n - 1)
    d = st - en
    if not dec(ge0(d)):
        d = T.ZERO
    return st, step, (d if step == -1 else T.fdiv(d + (-step - 1), P.of(-step)))


def fancy_key(key):
    ks = key if isinstance(key, tuple) else (key,)
    ks = [(k.to_arr() if hasattr(k, "to_arr") else k) for k in ks]
    if any(isinstance(k, Arr) and k.ndim > 0 for k in ks) or any(isinstance(k, list) for k in ks):
        return tuple(ks)
    return None


def fancy_get(a, ks):
    ks = [asarr(k) if isinstance(k, list) else k for k in ks]
    if any(isinstance(k, Arr) and k.buf.dtype == "b" for k in ks):
        raise Unsupported("boolean mask indexing")
    if any(k is None for k in ks):
        raise Unsupported("fancy indexing")
    if any(k is Ellipsis for k in ks):
        p = [k is Ellipsis for k in ks].index(True)
        ks = ks[:p] + [slice(None)] * (a.ndim - len(ks) + 1) + ks[p + 1:]
    isarr = lambda k: isinstance(k, Arr) and k.ndim > 0
    pos = [i for i, k in enumerate(ks) if isarr(k)]
    adv = [i for i, k in enumerate(ks) if not isinstance(k, slice)]
    xs = [ks[i] for i in pos]
    xsh = xs[0].sh
    for x in xs[1:]:
        if x.ndim != len(xsh) or not all(p == q or X.entails(eq(p, q)) for p, q in zip(x.sh, xsh)):
            raise Unsupported("indexing by arrays of different shapes")
    v = a.view(tuple(slice(None) if isarr(k) else k for k in ks))
    # axes of the view that are indexed by arrays, and place of the axes of the result
    axs = [builtins.sum(1 for k in ks[:p] if isinstance(k, slice) or isarr(k)) for p in pos]
    at = axs[0] if adv == list(range(adv[0], adv[-1] + 1)) else 0
    rd, irs, m = v.reader(), [x.reader() for x in xs], len(xsh)
    plain = []      # no negative index

    def f(idx):
        sel = idx[at : at + m]
        rest = list(idx[:at] + idx[at + m:])
        for ax, ir, p in zip(axs, irs, plain):
            j = ir(sel)
            rest.insert(ax, j if p else T.ite(ge0(j), j, j + v.sh[ax]))
        return rd(tuple(rest))
    iv = [T.fresh("ix") for _ in xsh]
    with X.assuming(*[c for i, n in zip(iv, xsh) for c in (ge0(i), lt(i, n))]):
        for ax, ir in zip(axs, irs):
            j, n = ir(tuple(iv)), v.sh[ax]
            plain.append(X.entails(ge0(j)))
            oblige(And(ge(j, -n), lt(j, n)), "index within bounds")
    rest = [s for k, s in enumerate(v.sh) if k not in axs]
    return new(tuple(rest[:at]) + tuple(xsh) + tuple(rest[at:]), f, a.buf.dtype)


def fancy_set(a, ks, val):
    if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].buf.dtype == "b" and ks[0].ndim == a.ndim:
        m = ks[0].reader()
        v = asarr(val)
        if v.ndim != 0:
            raise Unsupported("masked assignment of an array")
        x = v.el(())
        o = a.copy()
        rd = o.reader()
        a[...] = new(a.sh, lambda i: T.ite(tc(m(i)), el2p(x), el2p(rd(i))), a.buf.dtype)
        return
    xs, n, vr = places(a, ks, val)
    i = T.fresh("ix")
    with X.assuming(ge0(i), lt(i, n)):
        ids = [k for k, x in enumerate(xs) if x((i,)) == i]
    if not ids:
        raise Unsupported("fancy assignment")
    d = ids[0]      # each place is written at most once
    rd = a.copy().reader()
    a[...] = new(a.sh, lambda ix: T.ite(And(lt(ix[d], n), *[eq(x((ix[d],)), j) for k, (x, j) in enumerate(zip(xs, ix)) if k != d]), el2p(vr((ix[d],))), el2p(rd(ix))), a.buf.dtype)


def places(a, ks, val):
    """places given by one line of indices per axis, and the values that go there"""
    ks = [asarr(k) for k in ks] if all(isinstance(k, (Arr, list)) or hasattr(k, "to_arr") for k in ks) else []
    if len(ks) != a.ndim or any(k.ndim != 1 or k.buf.dtype != "i" for k in ks):
        raise Unsupported("fancy assignment")
    n = ks[0].sh[0]
    for k in ks[1:]:
        same_dim(k.sh[0], n, "indices")
    v = asarr(val)
    if v.ndim:
        v = broadcast_to(v, (n,))
    vr = v.reader() if v.ndim else (lambda r: lambda ix: r(()))(v.reader())
    xs = []
    for k, m in zip(ks, a.sh):
        r = k.reader()
        i = T.fresh("ix")
        with X.assuming(ge0(i), lt(i, n)):
            j = r((i,))
            plain = X.entails(ge0(j))
            oblige(And(ge(j, -m), lt(j, m)), "index within bounds")
        xs.append(r if plain else (lambda ix, r=r, m=m: T.ite(ge0(r(ix)), r(ix), r(ix) + m)))
    return xs, n, vr


def add_at(a, ks, val):
    """adds each value at its place, those of the same place together"""
    xs, n, vr = places(a, ks if isinstance(ks, tuple) else (ks,), val)
    rd = a.copy().reader()

    def f(ix):
        i = T.fresh("i")
        with X.assuming(ge0(i), lt(i, n)):
            b = el2p(vr((i,)))
            for x, j in zip(xs, ix):
                b = b * T.iv(eq(x((i,)), j))
        return el2p(rd(ix)) + T.Sum(i, n, b)
    a[...] = new(a.sh, f, a.buf.dtype)


# ------------------------------------------------------------------ conversions and broadcasting
def asarr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if hasattr(x, "to_arr"):
        return x.to_arr()
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return new((0,), lambda i: T.ZERO)
        parts = [asarr(v) for v in x]
        sh = parts[0].sh
        for p in parts[1:]:
            if len(p.sh) != len(sh):
                raise Unsupported("ragged list")
            for a, b in zip(p.sh, sh):
                same_dim(a, b, "list of arrays")
        rs = [p.reader() for p in parts]
        dts = {p.buf.dtype for p in parts}
        dt = "b" if dts == {"b"} else ("i" if dts <= {"i", "b"} else "f")

        def f(idx):
            k = idx[0].as_int()
            if k is not None:
                return rs[k](idx[1:])
            r = el2p(rs[-1](idx[1:]))
            for j in range(len(rs) - 2, -1, -1):
                r = T.ite(eq(idx[0], j), el2p(rs[j](idx[1:])), r)
            return r if dt != "b" else tc(r)
        return new((len(x),) + sh, f, dt)
    if isinstance(x, (bool, C)):
        v = tc(x)
        return new((), lambda i: v, "b")
    if isinstance(x, complex):
        raise Unsupported("complex number")
    if isinstance(x, str) or x is None:
        raise Unsupported("array of %r" % (type(x),))
    if isinstance(x, float) and x != x:
        return new((), lambda i: T.ZERO, "f", nan=lambda i: TRUE)
    if type(x).__module__ == "numpy" and hasattr(x, "ndim") and x.ndim > 0:
        return asarr([v for v in x])
    p = tp(x)
    isint = isinstance(x, int) or (isinstance(x, Num) and p.sort == "int") or type(x).__name__.startswith("int")
    return new((), lambda i: p, "i" if isint else "f")


def same_dim(a, b, what):
    if a == b:
        return
    if X.entails(eq(a, b)):
        return
    oblige(eq(a, b), "matching sizes (%s)" % what)


def bshape(s1, s2, what="broadcast"):
    n = max(len(s1), len(s2))
    a = (T.ONE,) * (n - len(s1)) + tuple(s1)
    b = (T.ONE,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == y or y.as_int() == 1:
            out.append(x)
        elif x.as_int() == 1:
            out.append(y)
        elif X.entails(eq(x, y)):
            out.append(x)
        elif X.entails(eq(y, 1)):
            out.append(x)
        elif X.entails(eq(x, 1)):
            out.append(y)
        else:
            oblige(eq(x, y), "matching sizes (%s)" % what)
            out.append(x)
    return tuple(out)


def bcast_reader(a, sh, what="broadcast"):
    """reader of `a` on indices of the (larger) shape sh"""
    r = a.reader()
    k = len(sh) - len(a.sh)
    if k < 0:
        # leading axes of size one may be dropped (assignment)
        if all(s.as_int() == 1 for s in a.sh[:-k]):
            lead = (T.ZERO,) * (-k)
            fl = [s.as_int() == 1 for s in a.sh[-k:]]
            return lambda idx: r(lead + tuple(T.ZERO if f else i for f, i in zip(fl, idx)))
        raise ShapeError("could not broadcast %r to %r" % (a.sh, sh))
    ones = []
    for x, y in zip(a.sh, sh[k:]):
        if x == y:
            ones.append(False)
        elif x.as_int() == 1:
            ones.append(True)
        elif X.entails(eq(x, y)):
            ones.append(False)
        elif X.entails(eq(x, 1)):
            ones.append(True)
        else:
            oblige(eq(x, y), "matching sizes (%s)" % what)
            ones.append(False)
    if k == 0 and not any(ones):
        return r
    return lambda idx: r(tuple(T.ZERO if o else i for o, i in zip(ones, idx[k:])))


def breader(a, sh):
    """reader for shapes already known to be compatible"""
    r = a.reader()
    k = len(sh) - len(a.sh)
    ones = [x.as_int() == 1 and not (y.as_int() == 1) or (x != y and X.entails(eq(x, 1))) for x, y in zip(a.sh, sh[k:])]
    if k == 0 and not any(ones):
        return r, (lambda f: f)
    m = lambda idx: tuple(T.ZERO if o else i for o, i in zip(ones, idx[k:]))
    return (lambda idx: r(m(idx))), (lambda f: (lambda idx: f(m(idx))))


def wrap(a):
    """zero-dimensional arrays are returned as scalars"""
    if isinstance(a, Arr) and a.ndim == 0 and a.buf.nan is None:
        return num(a.el(()))
    return a


def nan_or(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    return lambda idx: Or(*[n(idx) for n in ns])


def special(x):
    return hasattr(x, "spec_op") or (hasattr(x, "xr_op") and not isinstance(x, Arr))


def ew2(a, b, f, dtype=None, logic=None):
    if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
        return NotImplemented
    if special(a) or special(b):
        return NotImplemented
    a, b = asarr(a), asarr(b)
    sh = bshape(a.sh, b.sh)
    (ra, ma), (rb, mb) = breader(a, sh), breader(b, sh)
    na, nb = a.nanreader(), b.nanreader()
    if logic == "and" and a.buf.dtype == "b" and b.buf.dtype == "b":
        return wrap(new(sh, lambda i: And(tc(ra(i)), tc(rb(i))), "b"))
    dt = dtype or ("i" if a.buf.dtype in "ib" and b.buf.dtype in "ib" else "f")
    return wrap(new(sh, lambda i: f(el2p(ra(i)), el2p(rb(i))), dt, nan_or(na and ma(na), nb and mb(nb))))


def cmp2(a, b, f):
    if special(a) or special(b):
        return NotImplemented
    a, b = asarr(a), asarr(b)
    sh = bshape(a.sh, b.sh)
    (ra, ma), (rb, mb) = breader(a, sh), breader(b, sh)
    na, nb = a.nanreader(), b.nanreader()
    n = nan_or(na and ma(na), nb and mb(nb))
    g = lambda i: f(el2p(ra(i)), el2p(rb(i)))
    return wrap(new(sh, (lambda i: And(Not(n(i)), g(i))) if n else g, "b"))


def logic2(a, b, f):
    a, b = asarr(a), asarr(b)
    sh = bshape(a.sh, b.sh)
    (ra, _), (rb, _) = breader(a, sh), breader(b, sh)
    return wrap(new(sh, lambda i: f(tc(ra(i)), tc(rb(i))), "b"))


def ew1(a, f, dtype=None):
    if hasattr(a, "xr_map"):
        return a.xr_map(lambda x: ew1(x, f, dtype))
    a = asarr(a)
    r = a.reader()
    return wrap(new(a.sh, lambda i: f(el2p(r(i))), dtype or ("f" if a.buf.dtype == "b" else a.buf.dtype), a.nanreader()))


def cast(a, t):
    k = dt_of(t)
    if k == "i" and a.buf.dtype == "f":
        raise Unsupported("conversion of reals to integers")
    if k == "c":
        raise Unsupported("complex array")
    r = a.reader()
    if k == "b":
        return new(a.sh, lambda i: tc(r(i)), "b")
    return new(a.sh, lambda i: el2p(r(i)), k, a.nanreader())


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    if any(hasattr(x, "xr_map") for x in (c, a, b)):
        c, a, b = [asarr(x) for x in (c, a, b)]
    c, a, b = asarr(c), asarr(a), asarr(b)
    sh = bshape(bshape(c.sh, a.sh), b.sh)
    (rc, mc), (ra, ma), (rb, mb) = breader(c, sh), breader(a, sh), breader(b, sh)
    na, nb = a.nanreader(), b.nanreader()
    nan = None
    if na or nb:
        fa = ma(na) if na else (lambda i: FALSE)
        fb = mb(nb) if nb else (lambda i: FALSE)
        def nan(i):
            x, y = fa(i), fb(i)
            if x == y or x is y:
                return x
            c1 = tc(rc(i))
            return Or(And(c1, x), And(Not(c1), y))
    if a.buf.dtype == "b" and b.buf.dtype == "b":
        return wrap(new(sh, lambda i: Or(And(tc(rc(i)), tc(ra(i))), And(Not(tc(rc(i))), tc(rb(i)))), "b"))
    return wrap(new(sh, lambda i: T.ite(tc(rc(i)), el2p(ra(i)), el2p(rb(i))), "f" if "f" in (a.buf.dtype, b.buf.dtype) else "i", nan))


# ------------------------------------------------------------------ axes
def norm_axis(ax, n):
    if isinstance(ax, Num):
        raise Unsupported("symbolic axis")
    ax = int(ax)
    if not -n <= ax < n:
        raise IndexError("axis out of bounds")
    return ax % n


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(norm_axis(x, n) for x in axes)
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    inv = {old: k for k, old in enumerate(axes)}
    return Arr(a.buf, [a.sh[k] for k in axes], [ax if ax[0] == "f" else ("a", inv[ax[1]], ax[2], ax[3]) for ax in a.axes])


def swapaxes(a, i, j):
    a = asarr(a)
    p = list(range(a.ndim))
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


def moveaxis(a, s, d):
    a = asarr(a)
    s, d = norm_axis(s, a.ndim), norm_axis(d, a.ndim)
    p = [k for k in range(a.ndim) if k != s]
    p.insert(d, s)
    return transpose(a, p)


def expand_dims(a, axis):
    a = asarr(a)
    axes = sorted(norm_axis(x, a.ndim + (len(axis) if isinstance(axis, (tuple, list)) else 1)) for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    key = [slice(None)] * a.ndim
    for x in axes:
        key.insert(x, None)
    return a.view(tuple(key))


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        axes = [k for k, s in enumerate(a.sh) if s.as_int() == 1]
        if any(s.as_int() is None and not X.entails(T.gt(s, 1)) and not X.entails(eq(s, 1)) for s in a.sh):
            raise Unsupported("squeeze of an axis of symbolic size")
    else:
        axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for k in axes:
            if a.sh[k].as_int() != 1:
                oblige(eq(a.sh[k], 1), "squeezed axis has size one")
    return wrap(a.view(tuple(0 if k in axes else slice(None) for k in range(a.ndim))))


def reshape(a, shape):
    a = asarr(a)
    shape = list(shp(shape)) if not isinstance(shape, int) else list(shp((shape,)))
    tot = tp(a.size)
    unk = [k for k, s in enumerate(shape) if s.as_int() == -1]
    if len(unk) > 1:
        raise ValueError("can only specify one unknown dimension")
    if unk:
        known = T.ONE
        for k, s in enumerate(shape):
            if k != unk[0]:
                known = known * s
        kc = known.as_int()
        if kc == 1:
            q = tot
        else:
            q = T.fdiv(tot, known)
            if "fdiv" in q.names:
                q2 = divide_exact(tot, known)
                if q2 is None:
                    from . import prove
                    q2 = prove.simp(q, prove.Budget(200))
                q = q2
            oblige(eq(q * known, tot), "reshape keeps the number of elements")
        shape[unk[0]] = q
    else:
        t2 = T.ONE
        for s in shape:
            t2 = t2 * s
        if t2 != tot:
            oblige(eq(t2, tot), "reshape keeps the number of elements")
    # axes that only gain or lose ones: a view
    src = [(k, s) for k, s in enumerate(a.sh) if s.as_int() != 1]
    dst = [(k, s) for k, s in enumerate(shape) if s.as_int() != 1]
    if len(src) == len(dst) and all(x[1] == y[1] or X.entails(eq(x[1], y[1])) for x, y in zip(src, dst)):
        m = {s[0]: d[0] for s, d in zip(src, dst)}
        axes = []
        for ax in a.axes:
            if ax[0] == "f":
                axes.append(ax)
            elif ax[1] in m:
                axes.append(("a", m[ax[1]], ax[2], ax[3]))
            else:
                axes.append(("f", ax[2]))
        return Arr(a.buf, shape, axes)
    r = a.reader()
    osh = a.sh
    groups = match_groups(osh, shape)

    def f(idx):
        out = [None] * len(osh)
        for (s0, s1), (d0, d1) in groups:
            ss, ds = osh[s0:s1], shape[d0:d1]
            if len(ss) == 1 and len(ds) == 1:
                out[s0] = idx[d0]
                continue
            lin = T.ZERO
            for k, s in zip(range(d0, d1), ds):
                lin = lin * s + idx[k]
            unravel(lin, ss, out, s0)
        return r(tuple(out))
    res = new(shape, f, a.buf.dtype, None)
    res.buf.tag = "ro"
    return res


def divide_exact(a, b):
    """polynomial a divided by the monomial b, when exact"""
    if len(b.d) != 1:
        return None
    (mb, cb), = b.d.items()
    q = {}
    for m, c in a.d.items():
        md = dict(m)
        for at, e in mb:
            if md.get(at, 0) < e:
                return None
            md[at] -= e
            if not md[at]:
                del md[at]
        q[tuple(sorted(md.items(), key=lambda t: t[0].id))] = c / cb
    r = P(q)
    return r if r.sort == "int" else None


def match_groups(s, d):
    """cut the two shapes into groups of equal product"""
    out = []
    i = j = 0
    while i < len(s) or j < len(d):
        i0, j0 = i, j
        a = s[i] if i < len(s) else T.ONE
        i = min(i + 1, len(s))
        b = d[j] if j < len(d) else T.ONE
        j = min(j + 1, len(d))
        ok = False
        # try to extend one or both sides
        best = None
        pa = a
        for ii in range(i, len(s) + 1):
            pb = b
            for jj in range(j, len(d) + 1):
                if pa == pb or X.entails(eq(pa, pb), 500):
                    if best is None or (ii + jj) < sum(best):
                        best = (ii, jj)
                    break
                if jj < len(d):
                    pb = pb * d[jj]
            if best:
                break
            if ii < len(s):
                pa = pa * s[ii]
        if best is None:
            best = (len(s), len(d))
        i, j = best
        out.append(((i0, i), (j0, j)))
    return out


def unravel(lin, sizes, out, off):
    for k in range(len(sizes) - 1, 0, -1):
        s = sizes[k]
        if s.as_int() == 1:
            out[off + k] = T.ZERO
            continue
        q = T.fdiv(lin, s)
        if "fdiv" in q.names:
            q = fd_simp(lin, s, q)
        out[off + k] = lin - q * s
        lin = q
    out[off] = lin


def fd_simp(lin, s, q):
    from . import prove
    r = prove.fdiv_resolve((lin, s))
    return q if r is None else r


# ------------------------------------------------------------------ reductions
def red_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    return sorted(norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))


def keep(idx, axes, n, vals):
    """full index from the kept one"""
    out, i, j = [], 0, 0
    for k in range(n):
        if k in axes:
            out.append(vals[j])
            j += 1
        else:
            out.append(idx[i])
            i += 1
    return tuple(out)


def npsum(a, axis=None, keepdims=False, **kw):
    if hasattr(a, "xr_map"):
        return a.sum(axis) if axis is None else npsum(a.to_arr(), axis)
    if isinstance(a, (list, tuple)) and axis is None and all(not isinstance(x, (Arr, list, tuple)) and not hasattr(x, "to_arr") for x in a):
        r = 0
        for x in a:
            r = r + x
        return r
    a = asarr(a)
    if a.buf.nan is not None:
        raise Unsupported("sum of missing values")
    axes = red_axes(a, axis)
    r, n, sh = a.reader(), a.ndim, a.sh
    ks = [k for k in range(n) if k not in axes]

    def f(idx):
        if keepdims:
            idx = tuple(idx[k] for k in ks)
        vs = [T.fresh("s") for _ in axes]
        with X.assuming(*[c for v, k in zip(vs, axes) for c in (ge0(v), lt(v, sh[k]))]):
            t = el2p(r(keep(idx, axes, n, vs)))
        for v, k in reversed(list(zip(vs, axes))):
            t = T.Sum(v, sh[k], t)
        return t
    osh = [T.ONE if k in axes else sh[k] for k in range(n)] if keepdims else [sh[k] for k in ks]
    if not osh and a.buf.dtype == "b":
        # a count is used as a size
        from . import prove
        return num(prove.simp(f(()), prove.Budget()))
    return wrap(new(osh, f, "i" if a.buf.dtype in "ib" else "f"))


def mean(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    n = T.ONE
    for k in red_axes(a, axis):
        n = n * a.sh[k]
    return npsum(a, axis, keepdims) / num(n)


WITNESS = {}    # name -> index where the extremum is attained
REDUCTS = {}    # name -> (reader of the element given (kept idx, reduced idx), sizes of the reduced axes, 'min'/'max')


def reduct(a, axis=None, kind="min", **kw):
    if isinstance(a, (list, tuple)) and len(a) and axis is None and all(not isinstance(x, (Arr, list, tuple)) and not hasattr(x, "to_arr") for x in a):
        r = tp(a[0])
        for x in a[1:]:
            r = (T.tmin if kind == "min" else T.tmax)(r, tp(x))
        return num(r)
    a = asarr(a)
    axes = red_axes(a, axis)
    r, n, sh = a.reader(), a.ndim, a.sh
    ks = [k for k in range(n) if k not in axes]
    if all(sh[k].as_int() is not None and sh[k].as_int() <= T.UNROLL[0] for k in axes):
        def f(idx):
            t = None
            for vs in itertools.product(*[range(sh[k].as_int()) for k in axes]):
                x = el2p(r(keep(idx, axes, n, [P.of(v) for v in vs])))
                t = x if t is None else (tmin if kind == "min" else tmax)(t, x)
            return t
        return wrap(new([sh[k] for k in ks], f, a.buf.dtype))
    from .runtime import generic_args
    g = generic_args()
    ng = len(g)
    cv = tuple(T.var("$r%d" % k) for k in range(n))
    try:
        key = None if g else (kind, tuple(axes), tuple(sh), el2p(r(cv)), a.buf.dtype)
    except Unsupported:
        key = None
    if key is not None and key in SAME:     # the same values: the same extremum
        return wrap(new([sh[k] for k in ks], lambda idx: T.app(SAME[key], tuple(idx), "int" if a.buf.dtype == "i" else "real"), a.buf.dtype))
    name = "%s!%d" % (kind, next(_rid))
    if key is not None:
        SAME[key] = name
    ga = [T.the_atom(x) for x in g]
    sizes = [sh[k] for k in axes]

    def element(args, red):
        """the element at the reduced index red, for the arguments (outer counters, kept index)"""
        with X.assuming(*[c for v, s in zip(red, sizes) for c in (ge0(v), lt(v, s))]):
            t = el2p(r(keep(tuple(args[ng:]), axes, n, red)))
        return T.subst(t, dict(zip(ga, args[:ng]))) if ng else t

    def facts(args):
        """bound of the elements at the index variables in scope"""
        if name in _busy:           # asked for again while deciding which elements are in range: nothing more is needed for that
            return []
        _busy.add(name)
        try:
            return facts_of(args)
        finally:
            _busy.discard(name)

    def facts_of(args):
        m = T.atomP(T.rawapp(name, tuple(args), "int" if a.buf.dtype == "i" else "real"))
        vs = []
        for c in X.cur.conds:
            if isinstance(c, C):
                for v in sorted(c.fv, key=lambda v: v.id):
                    if v.kind == "var" and v.sort == "int" and v not in vs and "!" in v.a[0]:
                        vs.append(v)
        out = []
        szs = [T.subst(z, dict(zip(ga, args[:ng]))) for z in sizes]
        cands = [(c,) for c in [T.ZERO] + [T.atomP(v) for v in vs[-4:]]] if len(axes) == 1 else list(itertools.product(*[[T.ZERO] if z.as_int() == 1 else [T.atomP(v) for v in vs[-4:]] for z in szs]))[:16]
        own = tuple(T.app("at%d:%s" % (k, name), tuple(args), "int") for k in range(len(axes)))
        cands += [w for n_, w in WITNESS.items() if len(w) == len(axes) and n_ != name]
        from . import prove
        for vv in cands + [own]:
            inside = And(*[x for v, z in zip(vv, szs) for x in (ge0(v), lt(v, z))])
            if vv is not own and not X.entails(inside):
                with X.assuming(inside):
                    if not X.consistent():
                        continue
            with X.assuming(inside):
                e = prove.simp(element(args, vv), prove.Budget())
            if vv is own:
                # the extremum is attained (non empty range)
                out.append(Or(*[lt(z, 1) for z in szs], And(inside, T.eq(m, e))))
            else:
                out.append(Or(Not(inside), le(m, e) if kind == "min" else ge(m, e)))
        return out
    if not g and not ks:
        WITNESS[name] = tuple(T.app("at%d:%s" % (k, name), (), "int") for k in range(len(axes)))
    if not NAMED:
        X.FACTS[name] = facts
        X.LINKED.add(name)
    REDUCTS[name] = (element, sizes, kind, ng)
    return wrap(new([sh[k] for k in ks], lambda idx: T.app(name, tuple(g) + tuple(idx), "int" if a.buf.dtype == "i" else "real"), a.buf.dtype))


_rid = itertools.count()
SAME = {}
_busy = set()


# when set (SymS.opaque), the smallest and largest values and their places are named, not developed in cases
OPAQUE = []
# when set (SymS.named_extrema), nothing is told of the extrema of arrays of any size but that the same values have the same ones
NAMED = []
_denoted = {}


def denoted(vals, facts, sort):
    """a name for a value determined by these values; facts(r, vals): what is known of it"""
    key = (facts.__name__, sort, tuple(vals))
    if key not in _denoted:
        fv = sorted({v for x in vals for v in x.fv}, key=lambda v: v.id)
        name = "denoted!%d" % len(_denoted)

        def fs(args):
            m = dict(zip(fv, args))
            return facts(atom_p(name, args, sort), [T.subst(x, m) if isinstance(x, P) else T.csubst(x, m) for x in vals])
        X.FACTS[name] = fs
        X.LINKED.add(name)
        _denoted[key] = (name, fv)
    name, fv = _denoted[key]
    return atomP_(name, [T.atomP(v) for v in fv], sort)


def atomP_(name, args, sort):
    return T.atomP(T.rawapp(name, tuple(args), sort))


def least_of(r, v):
    return [le(r, v[0]), le(r, v[1]), Or(T.eq(r, v[0]), T.eq(r, v[1]))]


def most_of(r, v):
    return [ge(r, v[0]), ge(r, v[1]), Or(T.eq(r, v[0]), T.eq(r, v[1]))]


def tmin(a, b):
    return denoted([P.of(a), P.of(b)], least_of, "real") if OPAQUE else T.tmin(a, b)


def tmax(a, b):
    return denoted([P.of(a), P.of(b)], most_of, "real") if OPAQUE else T.tmax(a, b)


def minimum(a, b):
    return ew2(a, b, tmin)


def maximum(a, b):
    return ew2(a, b, tmax)


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            a = a.ravel()
        axis = 0
    ax = norm_axis(axis, a.ndim)
    r = a.reader()

    def f(idx):
        v = T.fresh("s")
        return T.Sum(v, idx[ax] + 1, el2p(r(idx[:ax] + (v,) + idx[ax + 1:])))
    return new(a.sh, f, a.buf.dtype)


def anyall(a, kind):
    a = asarr(a)
    n = 1
    for s in a.sh:
        c = s.as_int()
        if c is None:
            raise Unsupported("any/all over a symbolic range")
        n *= c
    cs = []
    for ix in itertools.product(*[range(s.as_int()) for s in a.sh]):
        cs.append(tc(a.el(tuple(P.of(i) for i in ix))))
    return num((Or if kind == "any" else And)(*cs))


# ------------------------------------------------------------------ products
def einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported("einsum format")
    ops = [asarr(o) for o in ops]
    sub = sub.replace(" ", "")
    lhs, _, rhs = sub.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum operands")
    # ellipsis expansion (same number of axes for all)
    ne = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ne = max(ne, o.ndim - (len(s) - 3))
    el = "".join(chr(0x391 + k) for k in range(ne))
    full = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            s = s.replace("...", el[ne - k:])
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of subscripts")
        full.append(s)
    if not _:
        cnt = {}
        for s in full:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = el + "".join(sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in el))
    else:
        out = rhs.replace("...", el)
    size = {}
    for s, o in zip(full, ops):
        for ch, n in zip(s, o.sh):
            if ch in size and size[ch] != n:
                if size[ch].as_int() == 1:
                    size[ch] = n
                elif n.as_int() != 1:
                    same_dim(n, size[ch], "einsum " + sub)
            else:
                size.setdefault(ch, n)
    return contract_labels(full, ops, out, size)


def contract_labels(full, ops, out, size):
    """sum over the labels that are not in `out` of the product of the operands"""
    rs = [o.reader() for o in ops]
    shs = [o.sh for o in ops]
    summed = []
    for s in full:
        for ch in s:
            if ch not in out and ch not in summed:
                summed.append(ch)

    def f(idx):
        env = dict(zip(out, idx))
        vs = {ch: T.fresh("s") for ch in summed}
        env.update(vs)
        with X.assuming(*[c for ch, v in vs.items() for c in (ge0(v), lt(v, size[ch]))]):
            t = T.ONE
            for s, r, sh in zip(full, rs, shs):
                t = t * el2p(r(tuple(T.ZERO if (n.as_int() == 1 and size[ch] != n) else env[ch] for ch, n in zip(s, sh))))
        for ch in reversed(summed):
            t = T.Sum(vs[ch], size[ch], t)
        return t
    res = new([size[ch] for ch in out], f, "f")
    if len(ops) == 2:
        solve_lemma(full, ops, out, size, res)
    return wrap(res)


def solve_lemma(full, ops, out, size, res):
    """X = inv(M) B (or B inv(M)): remember  M X = B  (X M = B), to be instantiated at the indices of a goal"""
    from . import prove
    if not prove.MATINV or len(set(out)) != len(out):
        return
    for w in (0, 1):
        o, s = ops[w], full[w]
        if o.ndim != 2 or s[0] == s[1]:
            continue
        v = (T.fresh("i"), T.fresh("j"))
        with X.assuming(*[c for x, n in zip(v, o.sh) for c in (ge0(x), lt(x, n))]):
            e = el2p(o.el(v))
        try:
            at = T.the_atom(e)
        except Exception:
            continue
        if at.kind != "app" or at.a[0] not in prove.MATINV:
            continue
        mi = prove.MATINV[at.a[0]]
        pre, ij = at.a[1:1 + mi.npre], at.a[1 + mi.npre:]
        if tuple(ij) == v:
            p, q = s
        elif tuple(ij) == v[::-1]:
            q, p = s
        else:
            continue
        ob, sb = ops[1 - w], full[1 - w]
        n = mi.n(pre)
        for keep, con, left in ((p, q, True), (q, p, False)):
            if keep not in out or con in out or con not in sb or keep in sb:
                continue
            rhs = contract_labels([sb], [ob], [con if ch == keep else ch for ch in out], size)
            rb, rr = asarr(rhs).reader(), res.reader()
            pos = out.index(keep)

            def lem(vs, rb=rb, rr=rr, pos=pos, left=left):
                k = T.fresh("k")
                r = vs[pos]
                with X.assuming(ge0(k), lt(k, n)):
                    M = mi.M(pre, r, k) if left else mi.M(pre, k, r)
                    b = M * el2p(rr(tuple(vs[:pos]) + (k,) + tuple(vs[pos + 1:])))
                return T.Sum(k, n, b) - el2p(rb(tuple(vs)))
            prove.LEMMAS.append((at.a[0], [n if ch == keep else size[ch] for ch in out], lem))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def dot(a, b):
    if hasattr(a, "xr_map") and hasattr(b, "xr_map"):
        return a.dot(b)
    if not isinstance(a, (Arr, list, tuple)) and not hasattr(a, "to_arr") or not isinstance(b, (Arr, list, tuple)) and not hasattr(b, "to_arr"):
        return a * b
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return einsum("...i,i->...", a, b)
    la = "".join(chr(97 + k) for k in range(a.ndim))
    lb = "".join(chr(97 + a.ndim + k) for k in range(b.ndim))
    lb = lb[:-2] + la[-1] + lb[-1]
    return einsum("%s,%s->%s" % (la, lb, la[:-1] + lb[:-2] + lb[-1]), a, b)


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa = [axes[0]] if isinstance(axes[0], int) else list(axes[0])
        xb = [axes[1]] if isinstance(axes[1], int) else list(axes[1])
        xa, xb = [norm_axis(k, a.ndim) for k in xa], [norm_axis(k, b.ndim) for k in xb]
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(97 + a.ndim + k) for k in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    out = [c for k, c in enumerate(la) if k not in xa] + [c for k, c in enumerate(lb) if k not in xb]
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)


def outer(a, b):
    return einsum("i,j->ij", a, b)


# ------------------------------------------------------------------ construction
def zeros(shape, dtype=None, **k):
    dt = dt_of(dtype)
    return new(shape, lambda i: T.ZERO if dt != "b" else FALSE, dt)


def ones(shape, dtype=None, **k):
    return new(shape, lambda i: T.ONE, dt_of(dtype))


def empty(shape, dtype=None, **k):
    from .runtime import generic_args
    g = generic_args()
    name = "undef!%d" % next(_rid)
    return new(shape, lambda i: T.app(name, tuple(g) + tuple(i)), dt_of(dtype))


def full(shape, v, dtype=None):
    a = asarr(v)
    if a.ndim:
        raise Unsupported("np.full of an array")
    x = a.el(())
    return new(shape, lambda i: x, dt_of(dtype) if dtype is not None else a.buf.dtype)


def _like(a, k):
    """shape of numpy's `*_like` functions: that of the model unless given"""
    sh = k.pop("shape", None)
    for key in ("order", "subok", "device"):
        k.pop(key, None)
    if k:
        raise Unsupported("arguments %s of a *_like function" % sorted(k))
    return a.sh if sh is None else (tuple(sh) if isinstance(sh, (tuple, list)) else (sh,))


def zeros_like(a, dtype=None, **k):
    if hasattr(a, "xr_map"):
        if k or dtype is not None:
            raise Unsupported("zeros_like of a labelled array with arguments")
        return a.xr_map(lambda x: zeros_like(x))
    a = asarr(a)
    return zeros(_like(a, k), dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None, **k):
    if hasattr(a, "xr_map"):
        if k or dtype is not None:
            raise Unsupported("ones_like of a labelled array with arguments")
        return a.xr_map(lambda x: ones_like(x))
    a = asarr(a)
    return ones(_like(a, k), dtype if dtype is not None else a.dtype)


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(_like(a, k), dtype if dtype is not None else a.dtype)


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(_like(a, k), v, dtype if dtype is not None else a.dtype)


def eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    return new((n, m), lambda i: T.iv(eq(i[0] + tp(k), i[1])), dt_of(dtype))


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    lo, hi, st = tp(a), tp(b), tp(step)
    c = st.const()
    if c is None or c == 0:
        raise Unsupported("np.arange with a symbolic step")
    if lo.sort != "int" or hi.sort != "int" or st.sort != "int":
        n = tceil((hi - lo).scale(1 / c))
    else:
        d = hi - lo if c > 0 else lo - hi
        s = abs(int(c))
        n = d if s == 1 else T.fdiv(d + (s - 1), P.of(s))
    if not dec(ge0(n)):
        n = T.ZERO
    return new((n,), lambda i: lo + i[0].scale(c), "i" if (lo.sort == "int" and st.sort == "int" and not isinstance(step, float) and dt_of(dtype) != "f" or dtype is not None and dt_of(dtype) == "i" or dtype is None and lo.sort == st.sort == "int") else "f")


def linspace(a, b, n=50, endpoint=True, **k):
    if k.get("retstep"):
        raise Unsupported("retstep")
    if not endpoint:
        raise Unsupported("linspace without end point")
    n = tp(n)
    a, b = asarr(a), asarr(b)
    sh = bshape(a.sh, b.sh)
    (ra, _), (rb, _) = breader(a, sh), breader(b, sh)
    c = n.as_int()
    if c == 1 or (c is None and not dec(T.gt(n, 1))):
        return new((n,) + sh, lambda i: ra(i[1:]), "f")
    return new((n,) + sh, lambda i: ra(i[1:]) + i[0] * (rb(i[1:]) - ra(i[1:])) / (n - 1), "f")


def array(x, dtype=None, copy=True, ndmin=0, **k):
    a = asarr(x)
    if dtype is not None and dt_of(dtype) != a.buf.dtype:
        return cast(a, dtype)
    return a.copy()


def asarray(x, dtype=None, **k):
    a = asarr(x)
    if dtype is not None and dt_of(dtype) != a.buf.dtype:
        return cast(a, dtype)
    return a


def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    n = arrs[0].ndim
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis, n = 0, 1
    if any(a.ndim != n for a in arrs):
        raise ValueError("all the input array dimensions must match")
    ax = norm_axis(axis, n)
    for a in arrs[1:]:
        for k in range(n):
            if k != ax:
                same_dim(a.sh[k], arrs[0].sh[k], "concatenation")
    offs = [T.ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.sh[ax])
    rs = [a.reader() for a in arrs]
    nans = [a.nanreader() for a in arrs]
    dts = {a.buf.dtype for a in arrs}
    dt = "b" if dts == {"b"} else ("i" if dts <= {"i", "b"} else "f")

    def f(idx):
        j = len(rs) - 1
        sub = lambda k: idx[:ax] + (idx[ax] - offs[k],) + idx[ax + 1:]
        t = el2p(rs[j](sub(j)))
        for k in range(j - 1, -1, -1):
            c = lt(idx[ax], offs[k + 1])
            d = quick(c)
            t = el2p(rs[k](sub(k))) if d is True else t if d is False else T.ite(c, el2p(rs[k](sub(k))), t)
        return t if dt != "b" else tc(t)
    if any(nans):
        raise Unsupported("concatenation of missing values")
    sh = arrs[0].sh[:ax] + (offs[-1],) + arrs[0].sh[ax + 1:]
    return new(sh, f, dt)


def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    return concatenate([expand_dims(a, axis) for a in arrs], axis)


def vstack(arrs):
    return concatenate([asarr(a) if asarr(a).ndim > 1 else reshape(asarr(a), (1, -1)) for a in arrs], 0)


def hstack(arrs):
    arrs = [asarr(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        a = a if a.ndim == 1 else a.ravel()
        v = v if v.ndim == 1 else v.ravel()
        axis = 0
    return concatenate((a, v), axis)


def insert(a, pos, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        a, axis = (a if a.ndim == 1 else a.ravel()), 0
    ax = norm_axis(axis, a.ndim)
    p = tp(pos)
    if p.as_int() is not None and p.as_int() < 0:
        p = a.sh[ax] + p
    osh = a.sh[:ax] + (a.sh[ax] + 1,) + a.sh[ax + 1:]
    vsh = a.sh[:ax] + (T.ONE,) + a.sh[ax + 1:]
    if v.ndim >= a.ndim or v.ndim == 0:
        vr = bcast_reader(v, vsh, "insert")
    else:
        # numpy: values = moveaxis(values, 0, axis) for a scalar position
        v2 = v
        while v2.ndim < a.ndim:
            v2 = expand_dims(v2, 0)
        v2 = moveaxis(v2, 0, ax)
        vr = bcast_reader(v2, vsh, "insert")
    r = a.reader()

    def f(idx):
        j = idx[ax]
        sub = lambda q: idx[:ax] + (q,) + idx[ax + 1:]
        x = el2p(vr(sub(T.ZERO)))
        c1, c2 = eq(j, p), lt(j, p)
        if quick(c1) is True:
            return x
        return T.ite(c1, x, T.ite(c2, el2p(r(sub(j))), el2p(r(sub(j - 1)))))
    return new(osh, f, a.buf.dtype)


def flip(a, axis=None):
    a = asarr(a)
    axes = red_axes(a, axis)
    return a.view(tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim)))


def broadcast_to(a, shape):
    a = asarr(a)
    sh = shp(shape)
    r = new(sh, bcast_reader(a, sh), a.buf.dtype)
    r.buf.tag = "ro"
    return r


def broadcast_shapes(*s):
    r = shp(s[0])
    for x in s[1:]:
        r = bshape(r, shp(x))
    return tuple(num(x) for x in r)


def diag(a):
    a = asarr(a)
    r = a.reader()
    if a.ndim == 1:
        return new((a.sh[0], a.sh[0]), lambda i: T.iv(eq(i[0], i[1])) * el2p(r((i[0],))), "f")
    return new((a.sh[0],), lambda i: r((i[0], i[0])), a.buf.dtype)


def trace(a):
    return npsum(diag(a))


def diff(a, n=1, axis=-1):
    a = asarr(a)
    for _ in range(n):
        ax = norm_axis(axis, a.ndim)
        k1 = tuple(slice(1, None) if k == ax else slice(None) for k in range(a.ndim))
        k0 = tuple(slice(None, -1) if k == ax else slice(None) for k in range(a.ndim))
        a = a[k1] - a[k0]
    return a


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    ax = norm_axis(axis, y.ndim)
    k1 = tuple(slice(1, None) if k == ax else slice(None) for k in range(y.ndim))
    k0 = tuple(slice(None, -1) if k == ax else slice(None) for k in range(y.ndim))
    if x is not None:
        d = diff(asarr(x))
        if d.ndim == 1:
            d = reshape(d, tuple(-1 if k == ax else 1 for k in range(y.ndim)))
    else:
        d = dx
    return npsum(d * (y[k1] + y[k0]) / 2.0, axis=ax)


def simpson(y, x=None, dx=1.0, axis=-1, even=None):
    """composite Simpson rule on an odd number of regularly spaced points (scipy.integrate.simpson)"""
    y = asarr(y)
    ax = norm_axis(axis, y.ndim)
    n = y.sh[ax]
    m = divide_exact(n - 1, P.of(2))
    if m is None:
        raise Unsupported("Simpson rule on an even number of points")
    r = y.reader()
    if x is None:
        h = lambda q: tp(dx)
    else:
        xr_ = asarr(x)
        if xr_.ndim != 1:
            raise Unsupported("Simpson rule with several grids")
        rx = xr_.reader()
        q = T.fresh("q")
        h0 = rx((T.ONE,)) - rx((T.ZERO,))
        if not (rx((q + 1,)) - rx((q,)) - h0).d == {}:
            raise Unsupported("Simpson rule on an irregular grid")
        h = lambda q: h0

    def f(idx):
        v = T.fresh("s")
        at = lambda k: el2p(r(idx[:ax] + (k,) + idx[ax:]))
        return T.Sum(v, m, h(v).scale(Fr(1, 3)) * (at(v * 2) + at(v * 2 + 1).scale(Fr(4)) + at(v * 2 + 2)))
    return wrap(new(y.sh[:ax] + y.sh[ax + 1:], f, "f"))


# ------------------------------------------------------------------ linear algebra
def inv(a):
    """inverse matrix: an uninterpreted symbol with the rule  M * inv(M) = inv(M) * M = 1"""
    from . import prove
    from .runtime import generic_args
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported("inverse of a stack of matrices")
    same_dim(a.sh[0], a.sh[1], "square matrix")
    n = a.sh[0]
    r = a.reader()
    g = tuple(generic_args())
    i, j = T.fresh("i"), T.fresh("j")
    ent = el2p(r((i, j)))
    key = (g, n, T.subst(ent, {T.the_atom(i): T.var("$mi"), T.the_atom(j): T.var("$mj")}))
    name = _invs.get(key)
    if name is None:
        name = "inv!%d" % next(_rid)
        _invs[key] = name
        ga = [T.the_atom(x) for x in g]

        def M(pre, a_, b_):
            return T.subst(ent, dict(list(zip(ga, pre)) + [(T.the_atom(i), a_), (T.the_atom(j), b_)]))
        prove.MATINV[name] = prove.MatInv(M, lambda pre: T.subst(n, dict(zip(ga, pre))), len(g))
        for left in (True, False):
            def lem(vs, left=left):
                k = T.fresh("k")
                with X.assuming(ge0(k), lt(k, n)):
                    b = (M(g, vs[0], k) * T.app(name, g + (k, vs[1]))) if left else (T.app(name, g + (vs[0], k)) * M(g, k, vs[1]))
                return T.Sum(k, n, b) - T.iv(eq(vs[0], vs[1]))
            prove.LEMMAS.append((name, [n, n], lem))
    return new((n, n), lambda ix: T.app(name, g + tuple(ix)), "f")


_invs = {}


def solve(a, b):
    b = asarr(b)
    return matmul(inv(a), b)


# ------------------------------------------------------------------ discrete Fourier transform
class Spec:
    """spectrum along the last axis: sum of terms (coefficient array or None, [(conjugated, time signal Arr, offset shape)]) of period n"""
    spec_op = True
    __array_priority__ = 300

    half = False    # only the non-negative frequencies are kept (real signals)

    def __init__(self, n, sh, facs, half=False, coef=None, shift=None):
        self.n, self.sh, self.facs, self.half = n, tuple(sh), facs, half   # facs: list of (conj, Arr broadcastable to sh+(n,))
        self.coef = T.ONE if coef is None else coef         # real factor
        self.shift = T.ZERO if shift is None else shift     # turned by exp(2 i pi k shift/n): the signal is read `shift` points later

    @property
    def shape(self):
        return tuple(num(s) for s in self.sh + (num(self.n) // 2 + 1 if self.half else self.n,))

    @property
    def ndim(self):
        return len(self.sh) + 1

    def conj(self):
        return Spec(self.n, self.sh, [(not c, a) for c, a in self.facs], self.half, self.coef, -self.shift)

    conjugate = conj

    def copy(self):
        return Spec(self.n, self.sh, self.facs, self.half, self.coef, self.shift)

    def __mul__(self, o):
        if isinstance(o, Phase):
            if self.half or o.n != self.n and not X.entails(T.eq0(o.n - self.n)):
                raise Unsupported("spectrum times a phase of another grid")
            return Spec(self.n, self.sh, self.facs, False, self.coef * o.coef, self.shift + o.shift)
        if isinstance(o, (Num, int, float)) and not isinstance(o, bool) or isinstance(o, Arr) and o.ndim == 0:
            return Spec(self.n, self.sh, self.facs, self.half, self.coef * tp(o), self.shift)
        if not isinstance(o, Spec):
            raise Unsupported("spectrum times something else")
        same_dim(self.n, o.n, "Fourier transforms")
        if self.half != o.half:
            raise Unsupported("half a spectrum times a full one")
        return Spec(self.n, bshape(self.sh, o.sh), self.facs + o.facs, self.half, self.coef * o.coef, self.shift + o.shift)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Num, int, float)) and not isinstance(o, bool):
            return self * (Num(tdiv(T.ONE, tp(o))))
        raise Unsupported("spectrum divided by something else")

    def __imul__(self, o):
        self.__dict__.update((self * o).__dict__)
        return self

    def __itruediv__(self, o):
        self.__dict__.update((self / o).__dict__)
        return self

    def sym_len(self):
        return self.shape[0]

    @property
    def size(self):
        return self.shape[0] if not self.sh else raise_("size of a stack of spectra")

    def sqrt(self):
        """square root of the spectrum of a covariance of the periodic grid: the spectrum of an even real signal, of which the periodic
        product with itself is the covariance"""
        if self.half or len(self.facs) != 1 or self.facs[0][0] or self.sh:
            raise Unsupported("square root of this spectrum")
        from . import prove, runtime
        n, q = self.n, T.fresh("q")
        r = self.facs[0][1].reader()
        with X.assuming(ge0(q), lt(q, n)):
            sig = prove.simp(turned(lambda j: el2p(r((j,))), q, self.shift, n), prove.Budget())
        g = runtime.generic_args()
        for name, root in ROOTS.items():
            if root.npar == len(g) and X.entails(T.eq0(root.n - n)):
                with X.assuming(ge0(q), lt(q, n)):
                    if bool(prove.prove_goal(sig - root.f(g, q))):
                        oblige(ge0(self.coef), "square root")
                        return Spec(n, (), [(False, new((n,), lambda ix: T.app(name, tuple(g) + ix), "f"))], False, T.sqrt(self.coef))
        raise Unsupported("square root of a spectrum: of no covariance of the contract")

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        # full slices and new axes only, on the leading axes
        nn = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - nn)
            else:
                out.append(k)
        if any(k is not None and k != slice(None) for k in out) or out[-1] is None:
            raise Unsupported("indexing of a spectrum")
        nsh, pos = [], 0
        for k in out:
            if k is None:
                nsh.append(T.ONE)
            else:
                nsh.append((self.sh + (self.n,))[pos])
                pos += 1
        facs = []
        for c, a in self.facs:
            b = a
            while b.ndim < self.ndim:
                b = b.view((None, Ellipsis))
            w = b.view(tuple(out))
            if hasattr(a, "filled"):
                w.filled = a.filled
            facs.append((c, w))
        return Spec(self.n, nsh[:-1], facs, self.half, self.coef, self.shift)


def prove_simp(p):
    from . import prove
    return prove.simp(p, prove.Budget())


def raise_(m):
    raise Unsupported(m)


class Root:
    def __init__(self, n, npar, f):
        self.n, self.npar, self.f = n, npar, f


ROOTS = {}      # symbol -> the covariance, of the periodic grid, of which it is the root


def turned(f, q, m, n):
    """f((q + m) mod n), 0 <= q < n"""
    from . import prove
    m = prove.simp(m, prove.Budget())
    if m == T.ZERO:
        return f(q)
    if m.sort != "int":
        raise Unsupported("phase that is not a number of points: %s" % T.show(m))
    if not X.entails(And(le(m, n), ge(m, -n))):
        raise Unsupported("phase of more than one period")
    if X.entails(ge0(m)):
        j = lambda v: T.ite(lt(v, n), v, v - n)
    elif X.entails(le(m, 0)):
        j = lambda v: T.ite(ge0(v), v, v + n)
    else:
        j = lambda v: T.ite(lt(v, 0), v + n, T.ite(lt(v, n), v, v - n))
    v = T.fresh("v")
    return subst_lift(f(v), T.the_atom(v), j(q + m))


class Freq:
    """the frequencies k/n of a grid, in the order of the transform, times a real factor and, or not, the imaginary unit"""
    spec_op = True
    __array_priority__ = 300

    def __init__(self, n, coef, imag=False):
        self.n, self.coef, self.imag = n, coef, imag

    shape = property(lambda self: (num(self.n),))
    ndim = 1

    def __mul__(self, o):
        if isinstance(o, complex):
            if o.imag and not o.real:
                return Freq(self.n, self.coef * tp(o.imag * (-1 if self.imag else 1)), not self.imag)
            if o.imag:
                raise Unsupported("frequencies times a complex number")
            o = o.real
        if isinstance(o, (Num, int, float)) and not isinstance(o, bool) or isinstance(o, Arr) and o.ndim == 0:
            return Freq(self.n, self.coef * tp(o), self.imag)
        raise Unsupported("frequencies times something else")

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Num, int, float)) and not isinstance(o, bool) or isinstance(o, Arr) and o.ndim == 0:
            return Freq(self.n, tdiv(self.coef, tp(o)), self.imag)
        raise Unsupported("frequencies divided by something else")

    def __neg__(self):
        return self * -1

    def __getitem__(self, k):
        if self.imag or not isinstance(k, int) or k not in (0, 1):
            raise Unsupported("indexing of the frequencies")
        oblige(lt(k, self.n), "index of the frequencies")
        if k and not X.entails(ge(self.n, 3)):
            raise Unsupported("frequencies of two points")
        return num(tdiv(self.coef * k, self.n))

    def exp(self):
        if not self.imag:
            raise Unsupported("exponential of the frequencies")
        from . import prove
        from .npshim import PI
        return Phase(self.n, prove.simp(tdiv(self.coef, PI * 2), prove.Budget()))


class Phase:
    """exp(2 i pi k shift/n) times a real factor"""
    spec_op = True
    __array_priority__ = 300

    def __init__(self, n, shift, coef=None):
        self.n, self.shift, self.coef = n, shift, T.ONE if coef is None else coef

    def __mul__(self, o):
        if isinstance(o, Spec):
            return o * self
        if isinstance(o, Phase):
            same_dim(self.n, o.n, "phases")
            return Phase(self.n, self.shift + o.shift, self.coef * o.coef)
        if isinstance(o, (Num, int, float)) and not isinstance(o, bool) or isinstance(o, Arr) and o.ndim == 0:
            return Phase(self.n, self.shift, self.coef * tp(o))
        raise Unsupported("phase times something else")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * Num(tdiv(T.ONE, tp(o)))


def fftfreq(n, d=1.0):
    return Freq(tp(n), tdiv(T.ONE, tp(d)))


def rfft(a, n=None, axis=-1):
    s = fft(a, n, axis)
    return Spec(s.n, s.sh, s.facs, True)


def irfft(s, n=None, axis=-1):
    """of the spectrum of the transform of the same length only"""
    if not isinstance(s, Spec) or not s.half:
        raise Unsupported("inverse Fourier transform")
    m = (num(s.n) // 2) * 2 if n is None else n
    if not X.entails(T.eq0(tp(m) - s.n)):
        raise Unsupported("inverse Fourier transform of another length")
    return ifft(Spec(s.n, s.sh, s.facs, False, s.coef, s.shift), None, axis)


def fft(a, n=None, axis=-1):
    a = asarr(a)
    if norm_axis(axis, a.ndim) != a.ndim - 1:
        raise Unsupported("Fourier transform along an inner axis")
    N = a.sh[-1]
    n = N if n is None else tp(n)
    a = named(a)
    r = a.reader()
    oblige(ge(n, 1), "length of the Fourier transform")
    if n != N:
        pad = new(a.sh[:-1] + (n,), lambda i: T.ite(lt(i[-1], N), el2p(r(i)), 0), "f")
        pad.filled = N
    else:
        pad = a.copy()
    return Spec(n, a.sh[:-1], [(False, pad)])


_lets = {}


def named(a):
    """the array with its elements abbreviated by a symbol (expanded late by the prover), when they are not elementary"""
    from . import prove
    from .runtime import generic_args
    g = tuple(generic_args())
    ix = tuple(T.var("$g%s" % "abcdefgh"[k]) for k in range(a.ndim))
    with X.assuming(*[c for x, m in zip(ix, a.sh) for c in (ge0(x), lt(x, m))]):
        e = el2p(a.el(ix))
    if not e.hassum or a.buf.nan is not None:
        return a
    key = (g, tuple(a.sh), e)
    name = _lets.get(key)
    if name is None:
        name = "let!%d" % next(_rid)
        _lets[key] = name
        ga = [T.the_atom(x) for x in g + ix]
        T.LETNAMES[name] = e.names
        prove.LETS[name] = lambda args: T.subst(e, dict(zip(ga, args)))
    return new(a.sh, lambda i: T.app(name, g + tuple(i)), "f")


def ifft(s, n=None, axis=-1):
    if not isinstance(s, Spec) or s.half:
        raise Unsupported("inverse Fourier transform")
    if n is not None and not X.entails(T.eq0(tp(n) - s.n)):
        raise Unsupported("inverse Fourier transform of another length")
    if axis not in (-1, len(s.sh)):
        raise Unsupported("inverse Fourier transform along an inner axis")
    n = s.n
    sh = s.sh + (n,)
    if len(s.facs) == 1 and not s.facs[0][0]:
        s.shift = prove_simp(s.shift)
        if s.shift == T.ZERO and s.coef == T.ONE:
            return s.facs[0][1]
        rd, m, c = s.facs[0][1].reader(), s.shift, s.coef
        return new(sh, lambda ix: c * turned(lambda j: el2p(rd(ix[:-1] + (j,))), ix[-1], m, n), "f")
    if s.shift != T.ZERO:
        raise Unsupported("product of turned spectra")
    if s.coef != T.ONE:
        return num(s.coef) * ifft(Spec(s.n, s.sh, s.facs), None, axis)
    if len(s.facs) != 2:
        raise Unsupported("product of more than two spectra")
    (c1, a1), (c2, a2) = s.facs
    if c1 and c2:
        raise Unsupported("product of conjugated spectra")
    if c2:
        (c1, a1), (c2, a2) = (c2, a2), (c1, a1)
    r1, r2 = bcast_reader(a1, sh), bcast_reader(a2, sh)

    from . import prove

    def piece(idx, lo, hi, at):
        """sum over lo <= t < hi of x(t) y(at(t)), inside the ranges"""
        if X.entails(le(hi, lo)):
            return T.ZERO
        t = T.fresh("t")
        with X.assuming(ge(t, lo), lt(t, hi), ge0(t), lt(t, n)):
            b = prove.simp(el2p(r1(idx[:-1] + (t,))) * el2p(r2(idx[:-1] + (at(t),))), prove.Budget())
        return T.Sum(t, hi, b, lo=lo)

    def f(idx):
        t = T.fresh("t")
        k = idx[-1]
        if c1 and X.entails(And(ge0(k), lt(k, n))):
            e1, e2 = getattr(a1, "filled", n), getattr(a2, "filled", n)
            # x is zero from e1 on, y from e2 on
            hi = n - k
            for e in (e1, e2 - k):
                if X.entails(ge0(e)) and X.entails(le(e, hi)):
                    hi = e
            return piece(idx, T.ZERO, hi, lambda t: t + k) + piece(idx, n - k, e1 if X.entails(le(e1, n)) else n, lambda t: t + k - n)
        # correlation theorem (period n): sum_t x(t) y((t+k) mod n);  product: sum_t x(t) y((k-t) mod n)
        if c1:
            j = T.ite(lt(t + k, n), t + k, t + k - n)
        else:
            j = T.ite(ge0(k - t), k - t, k - t + n)
        with X.assuming(ge0(t), lt(t, n)):
            x = el2p(r1(idx[:-1] + (t,)))
            # y evaluated at a symbolic index, then substituted (keeps conditions structural)
            jj = T.fresh("j")
            y = el2p(r2(idx[:-1] + (jj,)))
        y = subst_lift(y, T.the_atom(jj), j)
        return T.Sum(t, n, x * y)
    return new(sh, f, "f")


def subst_lift(y, at, j):
    """substitution of a bracketed index"""
    if T.top_iv(j):
        a = T.first_iv(j)
        return T.ite(a.a, subst_lift(y, at, T.set_iv(j, a, 1)), subst_lift(y, at, T.set_iv(j, a, 0)))
    return T.subst(y, {at: j})


# ------------------------------------------------------------------ elementary functions
def fun(name):
    def g(x, *a, **k):
        return ew1(x, lambda t: T.app(name, (t,)), "f") if isinstance(x, Arr) or hasattr(x, "to_arr") or isinstance(x, (list, tuple)) else num(T.app(name, (tp(x),)))
    g.__name__ = name
    return g


def elem(f, dtype=None):
    def g(x, *a, **k):
        return ew1(x, f, dtype) if isinstance(x, Arr) or hasattr(x, "to_arr") or isinstance(x, (list, tuple)) else num(f(tp(x)))
    return g


def tlog(t):
    c = t.as_int()
    if c == 1:
        return T.ZERO
    if len(t.d) == 1:
        (m, k), = t.d.items()
        if k == 1 and len(m) == 1 and m[0][0].kind == "app" and m[0][0].a[0] == "exp":
            return m[0][0].a[1].scale(T.Fr(m[0][1]))
    return T.app("log", (t,))
