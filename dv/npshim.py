"""Assumed contracts of the numerical libraries used by the package (numpy, scipy, sklearn): symbolic versions."""
import builtins, collections, collections.abc, contextlib, copy, functools, itertools, math, operator, types, typing, warnings, abc
from fractions import Fraction as Fr
from . import terms as T
from . import ctx as X
from . import arrays as A
from .terms import P, C, And, Or, Not, ge0, eq0, le, lt, ge, eq, TRUE, FALSE, Unsupported
from .load import Stub

PI = T.var("pi", "real")
PI_FACT = And(T.gt(PI, 3), T.lt(PI, 4))


class NS:
    """namespace with a fallback: names without a contract are stubs"""

    def __init__(self, name, **k):
        self.__dict__.update(k)
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub(self._name + "." + n)


class ArrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, A.Arr)


class ndarray(metaclass=ArrMeta):
    pass


class Integer(metaclass=type("IM", (type,), {"__instancecheck__": lambda c, x: False})):
    pass


class Dt:
    def __init__(self, n):
        self.__name__ = n

    def _sym_instance(self, x):
        return False

    def __call__(self, x=0):
        if "int" in self.__name__:
            return A.tp(x).sort == "int" and A.num(A.tp(x)) or _u("integer conversion")
        return A.num(A.tp(x))


def _u(m):
    raise Unsupported(m)


def isin(x):
    return isinstance(x, (A.Arr, list, tuple)) or hasattr(x, "to_arr")


# ------------------------------------------------------------------ elementary functions
def fun1(name, x):
    return A.fun(name)(x)


for _n, _d in (("cosh", "sinh"), ("sinh", "cosh")):
    T.DERIV[_n] = (lambda d: lambda a, i: T.app(d, a))(_d)


def _sym_even(name, sign):
    """even / odd functions: canonical sign of the argument"""
    old = T.REDUCE.get(name)

    def red(a):
        if old is not None:
            r = old(a)
            if r is not None:
                return r
        p = a[0]
        if p.d:
            lead = min(p.d, key=lambda m: "*".join(sorted("%s^%d" % (x.key, e) for x, e in m)) if m else "~")
            if p.d[lead] < 0:
                return T.app(name, (-p,)).scale(Fr(sign))
        return None
    T.REDUCE[name] = red


T.REDUCE["cosh"] = lambda a: T.ONE if a[0].const() == 0 else None
T.REDUCE["sinh"] = lambda a: T.ZERO if a[0].const() == 0 else None
for _n, _s in (("cos", 1), ("cosh", 1), ("sin", -1), ("sinh", -1)):
    _sym_even(_n, _s)


def _pos(name, lo=0):
    X.FACTS[name] = lambda args: [T.gt(A.atom_p(name, args, "real"), lo) if lo == 0 else ge(A.atom_p(name, args, "real"), lo)]


_pos("exp")
_pos("cosh", 1)


def npround(x, decimals=0):
    if not (isinstance(decimals, int) and decimals == 0):
        raise Unsupported("rounding to decimals")
    return A.elem(A.trint, "f")(x)


def power(a, b):
    return a ** b if (isin(a) or isin(b)) and (isinstance(a, A.Arr) or isinstance(b, A.Arr) or hasattr(a, "to_arr")) else A.ew2(a, b, A.tpow)


def round_(x, decimals=0, **k):
    if isinstance(x, (int, float)):
        return builtins.round(x, decimals)
    raise Unsupported("np.round")


def npany(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        cs = [A.tc(v) if isinstance(v, (bool, C)) else A.tc(A.tp(v)) for v in x]
        return A.num(Or(*cs))
    return A.anyall(x, "any")


def npall(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        cs = [A.tc(v) if isinstance(v, (bool, C)) else A.tc(A.tp(v)) for v in x]
        return A.num(And(*cs))
    return A.anyall(x, "all")


def ravel(a):
    return A.asarr(a).ravel()


def npabs(x):
    return abs(x) if not isinstance(x, (list, tuple)) else abs(A.asarr(x))


def sqrt(x):
    if isinstance(x, A.Spec):
        return x.sqrt()
    return A.elem(T.sqrt, "f")(x)


def exp(x):
    return x.exp() if isinstance(x, A.Freq) else _exp(x)


_exp = A.fun("exp")


def real(x):
    return x if not isinstance(x, (list, tuple)) else A.asarr(x)


def conj(x):
    return x.conj() if hasattr(x, "conj") else x


def fmin(kind):
    def f(a, axis=None, **k):
        return A.reduct(a, axis, kind)
    return f


def cross(a, b, axis=-1):
    a, b = A.asarr(a), A.asarr(b)
    na, nb = a.sh[-1].as_int(), b.sh[-1].as_int()
    if na != 3 or nb != 3:
        raise Unsupported("np.cross")
    g = lambda x, i: x[..., i]
    return A.stack([g(a, 1) * g(b, 2) - g(a, 2) * g(b, 1), g(a, 2) * g(b, 0) - g(a, 0) * g(b, 2), g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0)], axis=-1)


# ------------------------------------------------------------------ decompositions of the matrices a contract builds from their factors
PSD = []        # (size, entry(i, j), symbol of the eigenvectors, symbol of the positive eigenvalues, rank)


def psd(name, n, rank):
    """any symmetric positive matrix of the given rank: U diag(s) U^T, U orthogonal, the first rank values of s positive, the others zero"""
    from . import prove
    u, s = name + "_U", name + "_s"
    prove.ORTH[u] = n
    prove.MATINV[u] = prove.MatInv(lambda pre, i, j: T.app(u, (j, i)), lambda pre: n, 0)

    def entry(i, j):
        m = T.fresh("m")
        with X.assuming(ge0(m), lt(m, rank)):
            b = T.app(u, (i, m)) * T.app(s, (m,)) * T.app(u, (j, m))
        return T.Sum(m, rank, b)
    PSD.append((n, entry, u, s, rank))
    return A.new((n, n), lambda ix: entry(*ix), "f")


def factors(a):
    a = A.asarr(a)
    if a.ndim != 2:
        raise Unsupported("decomposition of a stack of matrices")
    i, j = T.fresh("i"), T.fresh("j")
    for n, entry, u, s, rank in PSD:
        if all(x == n or X.entails(T.eq(x, n)) for x in a.sh):
            with X.assuming(ge0(i), lt(i, n), ge0(j), lt(j, n)):
                if A.el2p(a.el((i, j))) == entry(i, j):
                    return n, lambda k: T.iv(lt(k, rank)) * T.app(s, (k,)), lambda i, k: T.app(u, (i, k))
    raise Unsupported("decomposition of a matrix of which no factors are known")


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """contract of the decomposition of a symmetric positive matrix: U diag(s) U^T, s in decreasing order"""
    n, s, u = factors(a)
    S_ = A.new((n,), lambda ix: s(ix[0]), "f")
    return (A.new((n, n), lambda ix: u(ix[0], ix[1]), "f"), S_, A.new((n, n), lambda ix: u(ix[1], ix[0]), "f")) if compute_uv else S_


def eigh(a, UPLO="L"):
    """the same in increasing order"""
    n, s, u = factors(a)
    return A.new((n,), lambda ix: s(n - 1 - ix[0]), "f"), A.new((n, n), lambda ix: u(ix[0], n - 1 - ix[1]), "f")


def finfo(t=None):
    # exact arithmetic: the rounding of one is zero
    return types.SimpleNamespace(eps=A.num(T.ZERO), max=A.num(T.var("finfo_max", "real")))


def squeeze(a, axis=None):
    return a.squeeze(axis) if hasattr(a, "squeeze") else A.squeeze(a, axis)


def allclose(a, b, *x, **k):
    raise Unsupported("np.allclose")


def atleast(n):
    def f(a):
        a = A.asarr(a)
        while a.ndim < n:
            a = a.view((None, Ellipsis))
        return a
    return f


def tile(a, reps):
    a = A.asarr(a)
    reps = reps if isinstance(reps, (tuple, list)) else (reps,)
    n = max(a.ndim, len(reps))
    while a.ndim < n:
        a = a.view((None, Ellipsis))
    reps = (1,) * (n - len(reps)) + tuple(reps)
    sh = [s * A.tp(r) for s, r in zip(a.sh, reps)]
    r, osh = a.reader(), a.sh

    def f(idx):
        return r(tuple(T.ZERO if s.as_int() == 1 else (i if A.tp(k).as_int() == 1 else T.tmod(i, s)) for i, s, k in zip(idx, osh, reps)))
    return A.new(sh, f, a.buf.dtype)


def repeat(a, n, axis=None):
    a = A.asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    ax = A.norm_axis(axis, a.ndim)
    k = A.tp(n)
    r = a.reader()
    return A.new(a.sh[:ax] + (a.sh[ax] * k,) + a.sh[ax + 1:], lambda i: r(i[:ax] + (T.fdiv(i[ax], k),) + i[ax + 1:]), a.buf.dtype)


def kron(a, b):
    a, b = A.asarr(a), A.asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("np.kron")
    ra, rb = a.reader(), b.reader()
    p, q = b.sh
    return A.new((a.sh[0] * p, a.sh[1] * q), lambda i: A.el2p(ra((T.fdiv(i[0], p), T.fdiv(i[1], q)))) * A.el2p(rb((T.tmod(i[0], p), T.tmod(i[1], q)))), "f")


def ravel_multi_index(ix, dims):
    r = T.ZERO
    for i, n in zip(ix, dims):
        i, n = A.tp(i), A.tp(n)
        A.oblige(And(ge0(i), lt(i, n)), "index within bounds")
        r = r * n + i
    return A.num(r)


def unravel_index(k, dims):
    out = [None] * len(dims)
    k = A.tp(k)
    tot = T.ONE
    for n in dims:
        tot = tot * A.tp(n)
    A.oblige(And(ge0(k), lt(k, tot)), "index within bounds")
    A.unravel(k, [A.tp(n) for n in dims], out, 0)
    return tuple(A.num(x) for x in out)


def convolve(a, v, mode="full"):
    a, v = A.asarr(a), A.asarr(v)
    if a.ndim != 1 or v.ndim != 1:
        raise Unsupported("np.convolve")
    n, m = a.sh[0], v.sh[0]
    if mode != "full":
        if X.decide(lt(n, m)):
            a, v, n, m = v, a, m, n
        full = convolve(a, v)
        if mode == "valid":
            return full[A.num(m) - 1 : A.num(n)]
        if mode == "same":
            lo = (A.num(m) - 1) // 2
            return full[lo : lo + A.num(n)]
        raise Unsupported("np.convolve")
    ra, rv = a.reader(), v.reader()

    def f(idx):
        s = T.fresh("s")
        with X.assuming(ge0(s), lt(s, n)):
            t = T.ite(And(ge(idx[0], s), lt(idx[0] - s, m)), A.el2p(ra((s,))) * A.el2p(rv((idx[0] - s,))), 0)
        return T.Sum(s, n, t)
    return A.new((n + m - 1,), f, "f")


def correlate(a, v, mode="valid"):
    a, v = A.asarr(a), A.asarr(v)
    if a.ndim != 1 or v.ndim != 1 or (mode != "full" and X.decide(lt(a.sh[0], v.sh[0]))):
        raise Unsupported("np.correlate")
    return convolve(a, v[::-1], mode)


def nonzero(a):
    """places of the values that are not 0: each of a few values is decided, or all at once"""
    a = A.asarr(a)
    if a.ndim != 1:
        raise Unsupported("np.nonzero in several dimensions")
    r, n = a.reader(), a.sh[0]
    c = n.as_int()
    is0 = lambda i: Not(A.tc(r((i,)))) if a.buf.dtype == "b" else eq0(A.el2p(r((i,))))
    if c is None:
        i = T.fresh("i")
        with X.assuming(ge0(i), lt(i, n)):
            if X.entails(Not(is0(i))):
                return (A.arange(A.num(n)),)
        raise Unsupported("np.nonzero of values that may vanish")
    return (A.asarr([k for k in range(c) if not A.dec(is0(P.of(k)))]),)


def count_nonzero(a, axis=None, keepdims=False):
    r = A.npsum(A.where(A.asarr(a) != 0 if A.asarr(a).buf.dtype != "b" else a, 1, 0), axis, keepdims)
    try:
        t = A.tp(r)
    except Unsupported:
        return r
    # a count is used as a size
    from . import prove
    return A.num(prove.simp(t, prove.Budget()))


def clip(a, lo=None, hi=None, **k):
    r = a if hasattr(a, "xr_map") else A.asarr(a)
    if lo is not None:
        r = A.maximum(r, lo)
    return r if hi is None else A.minimum(r, hi)


def sign(x):
    return A.where(A.asarr(x) > 0, 1, A.where(A.asarr(x) < 0, -1, 0))


def logical_not(a):
    return A.where(a, False, True)


def array_equal(a, b, **k):
    a, b = A.asarr(a), A.asarr(b)
    if a.ndim != b.ndim or not all(X.decide(T.eq0(x - y)) for x, y in zip(a.sh, b.sh)):
        return False
    return A.anyall(a == b, "all")


def column_stack(arrs):
    return A.concatenate([x[:, None] if x.ndim == 1 else x for x in map(A.asarr, arrs)], 1)


def vdot(a, b):
    return A.dot(A.asarr(a).conj().ravel(), A.asarr(b).ravel())


def inner(a, b):
    a, b = A.asarr(a), A.asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return A.tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 1]))


def delete(a, k, axis=None):
    a = A.asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    ax = A.norm_axis(axis, a.ndim)
    p = A.index_norm(k, a.sh[ax])
    r = a.reader()
    return A.new(a.sh[:ax] + (a.sh[ax] - 1,) + a.sh[ax + 1:], lambda i: (lambda j: r(i[:ax] + (j,) + i[ax + 1:]))(T.ite(lt(i[ax], p), i[ax], i[ax] + 1)), a.buf.dtype)


def isnan(x):
    if hasattr(x, "xr_map"):
        return x.xr_map(isnan)
    a = A.asarr(x)
    n = a.nanreader()
    return A.wrap(A.new(a.sh, (lambda i: n(i)) if n else (lambda i: FALSE), "b"))


def logical(op):
    def f(a, b):
        return A.logic2(a, b, op)
    return f


def gradient(*a, **k):
    raise Unsupported("np.gradient")


# ------------------------------------------------------------------ polynomial families
class Poly:
    """derivative of order m of the n-th polynomial of a family"""

    def __init__(self, fam, n, m=0):
        self.fam, self.n, self.m = fam, n, m

    def deriv(self, m=1):
        return Poly(self.fam, self.n, self.m + m)

    def integ(self, m=1):
        return Poly(self.fam, self.n, self.m - m)

    def __call__(self, x):
        name = "poly:" + self.fam.name
        f = lambda t: T.app(name, (P.of(self.m), A.tp(self.n), t))
        return A.ew1(x, f, "f") if isin(x) else A.num(f(A.tp(x)))


class Family:
    def __init__(self, name):
        self.name = name
        self.__name__ = name
        T.DERIV["poly:" + name] = lambda a, i, s="poly:" + name: T.app(s, (a[0] + 1,) + a[1:]) if i == 2 else _u("derivative in the degree")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        _u("attribute %s of a polynomial family" % k)

    def basis(self, n):
        A.oblige(ge0(A.tp(n)), "degree of a polynomial")
        return Poly(self, n)

    def __deepcopy__(self, memo):
        return self


FAMS = {n: Family(n) for n in ("Polynomial", "Chebyshev", "Legendre", "Hermite", "HermiteE", "Laguerre")}


# ------------------------------------------------------------------ splines
_spl = {}


def content(x):
    """hashable description of the content of a value"""
    if isin(x):
        a = A.asarr(x)
        vs = [T.var("$c%d" % k) for k in range(a.ndim)]
        return (tuple(a.sh), A.el2p(a.el(tuple(vs))))
    return A.tp(x)


class BSpline:
    def __init__(self, t, c, k, extrapolate=True, axis=0, m=0, name=None):
        if name is None:
            key = (content(t), content(c), content(k))
            name = _spl.setdefault(key, "spl!%d" % len(_spl))
            T.DERIV.setdefault(name, lambda a, i, s=name: T.app(s, (a[0] + 1, a[1])) if i == 1 else _u("derivative in the order"))
        self.name, self.m = name, m

    def derivative(self, nu=1):
        return BSpline(None, None, None, m=self.m + nu, name=self.name)

    def antiderivative(self, nu=1):
        return BSpline(None, None, None, m=self.m - nu, name=self.name)

    def __call__(self, x, nu=0):
        f = lambda t: T.app(self.name, (P.of(self.m + nu), t))
        return A.ew1(x, f, "f") if isin(x) else A.num(f(A.tp(x)))


# ------------------------------------------------------------------ interpolating spline bases (FITPACK)
# splrep(x, y, k): knots of the interpolating spline of degree k on the n increasing points x (per: periodic, n - 1 + k coefficients,
# the last k equal to the first ones).  The spline with coefficients c is
# sum_j c_j bspl(j, m, .) with m the order of derivation (-1 for the primitive vanishing at x_0).  Assumed: sum_j bspl(j, 0, .) = 1
# (hence 0 for the derivatives and x - x_0 for the primitives), bspl(j, 0, .) >= 0 on [x_0, x_{n-1}].
class Knots:
    def __init__(self, name, n, k, x0):
        self.name, self.n, self.k, self.x0 = name, n, k, x0


# The coefficients are linear in the values y: c_j = sum_i W(j, i) y_i, with W determined by the points.
def splrep(x, y, *w, k=3, per=False, s=0, **kw):
    if w or kw or A.tp(s) != T.ZERO:
        raise Unsupported("splrep with options")
    x = A.asarr(x)
    n = x.sh[0].as_int()
    if n is None or not isinstance(k, int):
        raise Unsupported("spline basis with a symbolic number of knots")
    if not 1 <= k <= 5 or n <= k:
        raise ValueError("splrep: 1 <= k <= 5, more points than the degree")
    at = lambda i: A.el2p(x.el((P.of(i),) + (T.ZERO,) * (x.ndim - 1)))
    for i in range(n - 1):
        A.oblige(lt(at(i), at(i + 1)), "splrep: increasing points")
    m = n - 1 + k if per else n        # number of coefficients
    key = (tuple(at(i) for i in range(n)), k, bool(per))
    name = _fit.get(key)
    if name is None:
        name = _fit[key] = "bspl!%d" % len(_fit)
        T.DERIV[name] = lambda a, i, s=name: T.app(s, (a[0], a[1] + 1, a[2])) if i == 2 else _u("derivative in the order")
        lo, hi = at(0), at(n - 1)

        def pos(args, s=name):
            if args[1].as_int() != 0:
                return []
            all_ = [T.atomP(T.rawapp(s, (P.of(j),) + tuple(args[1:]), "real")) for j in range(m - 1)]
            tot = T.ZERO
            for w in all_:
                tot = tot + w
            return [Or(lt(args[2], lo), lt(hi, args[2]), And(*[ge(w, 0) for w in all_], le(tot, 1)))]
        X.FACTS[name] = pos
        X.LINKED.add(name)
        from . import evalt
        evalt.EVALMAP[name] = lambda ev, args, r: abs(r) / m if args[1] == 0 else r
    y = A.asarr(y)
    if y.ndim != 1:
        raise ValueError("splrep: one dimensional values")
    A.oblige(eq(y.sh[0], x.sh[0]), "splrep: as many values as points")
    ys = [A.el2p(y.el((P.of(i),))) for i in range(n)]

    def coef(idx):
        r = T.ZERO
        for i, v in enumerate(ys):
            if v != T.ZERO:
                r = r + v * T.app("splw:" + name, (idx[0], P.of(i)))
        return r
    return Knots(name, m, k, at(0)), A.new((P.of(m + k + 1),), coef, "f"), k


_fit = {}


class Der:
    """coefficients of a primitive"""

    def __init__(self, c, m):
        self.c, self.m = c, m


def splev(x, tck, der=0, **kw):
    t, c, k = tck
    if not isinstance(t, Knots) or kw or not isinstance(der, int):
        raise Unsupported("splev")
    m = der
    if isinstance(c, Der):
        c, m = c.c, der - c.m
    if k < 0 or m > k:
        raise ValueError("splev: order of derivation")
    c = [A.el2p(A.asarr(c).el((P.of(j),))) for j in range(t.n)]
    x0 = t.x0

    def f(u):
        v = [T.app(t.name, (P.of(j), P.of(m), u)) for j in range(t.n - 1)]
        if m < -1 and c[-1].d:
            raise Unsupported("iterated primitive of the last spline")
        tot = T.ONE if m == 0 else T.ZERO if m > 0 else u - x0
        r = c[-1] * tot
        for a, w in zip(c, v):
            r = r + (a - c[-1]) * w
        return r
    return A.ew1(x, f, "f") if isin(x) else A.num(f(A.tp(x)))


def splantider(tck, n=1):
    t, c, k = tck
    return t, Der(c.c, c.m + n) if isinstance(c, Der) else Der(c, n), k


# ------------------------------------------------------------------ statistics
def describe(a, axis=0, **k):
    a = A.asarr(a)
    R = collections.namedtuple("DescribeResult", ("nobs", "minmax", "mean", "variance", "skewness", "kurtosis"))
    n = a.shape[axis]
    mu = A.mean(a, axis)
    d = a - (mu if a.ndim == 1 else A.expand_dims(mu, axis))
    var = A.npsum(d * d, axis) / (n - 1)
    op = lambda s: A.new([x for i, x in enumerate(a.sh) if i != axis], (lambda c: lambda idx: T.app(s, tuple(idx)))(0), "f")
    return R(n, (A.reduct(a, axis, "min"), A.reduct(a, axis, "max")), mu, var, op("skewness!%d" % next(A._rid)), op("kurtosis!%d" % next(A._rid)))


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    y = A.asarr(y)
    ax = A.norm_axis(axis, y.ndim)
    k1 = tuple(slice(1, None) if k == ax else slice(None) for k in range(y.ndim))
    k0 = tuple(slice(None, -1) if k == ax else slice(None) for k in range(y.ndim))
    if x is not None:
        d = A.diff(A.asarr(x))
        if d.ndim == 1:
            d = A.reshape(d, tuple(-1 if k == ax else 1 for k in range(y.ndim)))
    else:
        d = dx
    r = A.cumsum(d * (y[k1] + y[k0]) / 2.0, ax)
    if initial is not None:
        z = A.full(tuple(T.ONE if k == ax else s for k, s in enumerate(r.sh)), initial, "float")
        r = A.concatenate((z, r), axis=ax)
    return r


def toeplitz(c, r=None):
    c = A.asarr(c)
    r = c if r is None else A.asarr(r)
    rc, rr = c.reader(), r.reader()
    return A.new((c.sh[0], r.sh[0]), lambda i: T.ite(ge(i[0], i[1]), A.el2p(rc((i[0] - i[1],))), A.el2p(rr((i[1] - i[0],)))), "f")


def hankel(c, r=None):
    c = A.asarr(c)
    rc = c.reader()
    n = c.sh[0]
    if r is None:
        return A.new((n, n), lambda i: T.ite(lt(i[0] + i[1], n), A.el2p(rc((i[0] + i[1],))), 0), "f")
    r = A.asarr(r)
    rr = r.reader()
    return A.new((n, r.sh[0]), lambda i: T.ite(lt(i[0] + i[1], n), A.el2p(rc((i[0] + i[1],))), A.el2p(rr((i[0] + i[1] - n + 1,)))), "f")


def expm(a):
    """exponential of a matrix of known size: one uninterpreted function of the entries per element"""
    a = A.asarr(a)
    n = a.sh[0].as_int() if a.ndim == 2 else None
    if n is None or a.sh[1].as_int() != n:
        raise Unsupported("exponential of a matrix of symbolic size")
    ent = tuple(A.el2p(a.el((P.of(i), P.of(j)))) for i in range(n) for j in range(n))
    if n == 1:
        return A.new(a.sh, lambda ix: T.app("exp", ent), "f")
    return A.new(a.sh, lambda ix: T.app("expm", tuple(ix) + ent), "f")


def _expm_red(a):
    if all(not e.d for e in a[2:]) and a[0].as_int() is not None and a[1].as_int() is not None:
        return P.of(int(a[0].as_int() == a[1].as_int()))
    return None


T.REDUCE["expm"] = _expm_red


# ------------------------------------------------------------------ optimiser
# curve_fit(f, x, y, p0): assumed to return the parameters of data that have exactly the form f, when they are (a precondition, checked)
EXACT = []      # the parameters the data of the contract were made with


def curve_fit(f, xdata, ydata, p0=None, **kw):
    if kw:
        raise Unsupported("curve_fit with options")
    x, y = A.asarr(xdata), A.asarr(ydata)
    np0 = len(p0)
    if x.ndim != 1 or y.ndim != 1:
        raise A.ShapeError("curve_fit: one dimensional data")
    A.oblige(eq(x.sh[0], y.sh[0]), "curve_fit: as many data as points")
    cand = [p for p in EXACT if len(p) == np0]
    if not cand:
        raise Unsupported("curve_fit on data of another form")
    from . import evalt
    i = T.fresh("i")
    with X.assuming(ge0(i), lt(i, y.sh[0])):
        gap = [A.tp(f(A.num(A.el2p(x.el((i,)))), *p)) - A.el2p(y.el((i,))) for p in cand]
        k = next((k for k, g in enumerate(gap) if not evalt.refute(g, list(X.cur.conds))), 0)
        A.oblige(eq0(gap[k]), "curve_fit: the data have the fitted form")
    return A.asarr(list(cand[k])), None


# ------------------------------------------------------------------ the modules
class Np(NS):
    @property
    def pi(self):
        if not any(c is PI_FACT for c in X.cur.conds):
            X.cur.conds.append(PI_FACT)
        return A.num(PI)


_el = {n: getattr(A, n) for n in (
    "einsum matmul dot tensordot outer zeros ones empty full zeros_like ones_like empty_like full_like eye arange linspace array asarray concatenate stack vstack "
    "hstack append insert flip broadcast_to broadcast_shapes diag trace diff where transpose swapaxes moveaxis expand_dims reshape cumsum mean minimum maximum").split()}
np = Np("numpy", **_el)
np.__dict__.update(
    ndarray=ndarray, newaxis=None, fun1=fun1, sum=A.npsum, min=fmin("min"), max=fmin("max"), amin=fmin("min"), amax=fmin("max"), sqrt=sqrt, abs=npabs, absolute=npabs, fabs=npabs,
    sin=A.fun("sin"), cos=A.fun("cos"), exp=exp, cosh=A.fun("cosh"), sinh=A.fun("sinh"), log=A.elem(A.tlog, "f"), log2=A.fun("log2"),
    ceil=A.elem(A.tceil, "f"), round=npround, rint=A.elem(A.trint, "f"), around=npround, floor=A.elem(A.tfloor, "f"), power=power, real=real, conj=conj, conjugate=conj, identity=lambda n, dtype=None: A.eye(n), any=npany, all=npall,
    ravel=ravel, squeeze=squeeze, cross=cross, finfo=finfo, trapz=A.trapezoid, trapezoid=A.trapezoid, atleast_1d=atleast(1), atleast_2d=atleast(2), square=lambda x: x * x,
    tile=tile, repeat=repeat, kron=kron, ravel_multi_index=ravel_multi_index, unravel_index=unravel_index, convolve=convolve, delete=delete, isnan=isnan,
    logical_and=logical(And), logical_or=logical(Or), multiply=lambda a, b: A.asarr(a) * b, add=lambda a, b: A.asarr(a) + b, subtract=lambda a, b: A.asarr(a) - b, divide=lambda a, b: A.asarr(a) / b,
    nan=float("nan"), NaN=float("nan"), inf=float("inf"), allclose=allclose, shape=lambda a: A.asarr(a).shape, ndim=lambda a: A.asarr(a).ndim, copy=lambda a: A.asarr(a).copy(), ascontiguousarray=A.asarray,
    float64=Dt("float64"), float32=Dt("float32"), int64=Dt("int64"), int32=Dt("int32"), bool_=Dt("bool_"), complex128=Dt("complex128"), integer=Dt("integer"), floating=Dt("floating"),
    correlate=correlate, nonzero=nonzero, count_nonzero=count_nonzero, clip=clip, sign=sign, logical_not=logical_not, array_equal=array_equal, column_stack=column_stack, vdot=vdot, inner=inner,
    negative=lambda x: -A.asarr(x), reciprocal=lambda x: 1 / A.asarr(x), float_power=power, isscalar=lambda x: not hasattr(x, "shape"), true_divide=lambda a, b: A.asarr(a) / b,
    fft=NS("numpy.fft", fft=A.fft, ifft=A.ifft, rfft=A.rfft, irfft=A.irfft, fftfreq=A.fftfreq), linalg=NS("numpy.linalg", inv=A.inv, solve=A.solve, svd=svd, eigh=eigh, eigvalsh=lambda a, *k: eigh(a)[0]), polynomial=NS("numpy.polynomial", **FAMS),
    random=NS("numpy.random"),
)

def randint(low, high=None, size=None, dtype=None):
    """an arbitrary integer of the range"""
    if size is not None:
        raise Unsupported("randint with a size")
    lo, hi = (T.ZERO, A.tp(low)) if high is None else (A.tp(low), A.tp(high))
    A.oblige(lt(lo, hi), "randint: empty range")
    v = T.fresh("draw")
    X.cur.conds.append(T.ge(v, lo))
    X.cur.conds.append(lt(v, hi))
    return A.num(v)


np.add.at = A.add_at
np.random.__dict__.update(randint=randint)


def argext(kind):
    def f(a, axis=None, **k):
        """the first place of the extremum, of a line of known length (one path per place), or along an axis of known length"""
        a = A.asarr(a)
        if not k and a.ndim and (a.ndim > 1 or a.buf.dtype == "b") and (axis is not None or a.ndim == 1):
            ax = A.norm_axis(axis or 0, a.ndim)
            n = a.sh[ax].as_int()
            if n is None or not 1 <= n <= 8:
                raise Unsupported("np.arg" + kind)
            rd, isb = a.reader(), a.buf.dtype == "b"

            def g(idx):
                v = [rd(idx[:ax] + (P.of(i),) + idx[ax:]) for i in range(n)]
                v = [A.tc(x) if isb else A.el2p(x) for x in v]

                def places(v):
                    for i in range(n):
                        if isb:
                            yield And(v[i] if kind == "max" else Not(v[i]), *[Not(w) if kind == "max" else w for w in v[:i]])
                        else:
                            up = (lambda x, y: lt(x, y)) if kind == "max" else (lambda x, y: lt(y, x))
                            yield And(*[up(w, v[i]) for w in v[:i]] + [Not(up(v[i], w)) for w in v[i + 1:]])

                def first_of(r, v):
                    cs = list(places(v))
                    none = And(*[Not(w) if kind == "max" else w for w in v]) if isb else FALSE
                    return [ge0(r), lt(r, n), Or(*[And(eq(r, i), c) for i, c in enumerate(cs)] + [And(eq(r, 0), none)])]
                if A.OPAQUE and n > 1:
                    first_of.__name__ = "arg%s%s" % (kind, "b" if isb else "")
                    return A.denoted(v, first_of, "int")
                r = T.ZERO
                for i, c in enumerate(places(v)):
                    r = r + T.iv(c) * i
                return r
            return A.wrap(A.new(a.sh[:ax] + a.sh[ax + 1:], g, "i"))
        if k or a.ndim != 1 or axis not in (None, 0, -1) or a.sh[0].as_int() is None or not 1 <= a.sh[0].as_int() <= 8:
            raise Unsupported("np.arg" + kind)
        v = [A.el2p(a.el((P.of(i),))) for i in range(a.sh[0].as_int())]
        best = 0
        for i in range(1, len(v)):
            if A.dec(lt(v[i], v[best]) if kind == "min" else lt(v[best], v[i])):
                best = i
        return best
    return f


np.__dict__.update(argmin=argext("min"), argmax=argext("max"))


_edges = {}


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    """bins equal intervals from end to end of the range, by default that of the data ("auto": a number that the data determine)"""
    a = A.asarr(a)
    if isinstance(bins, str) and bins == "auto" and range is None:
        name = _edges.setdefault(content(a), "autobins!%d" % len(_edges))
        X.FACTS[name] = lambda args, name=name: [ge(T.atomP(T.rawapp(name, tuple(args), "int")), 1)]
        bins = A.num(T.app(name, (), "int"))
    if isinstance(bins, str) or weights is not None or A.asarr(bins).ndim or A.asarr(bins).buf.dtype != "i":
        raise Unsupported("histogram_bin_edges with a rule, edges or weights")
    A.oblige(T.ge(A.tp(bins), 1), "histogram_bin_edges: at least one bin")
    lo, hi = (np.min(a), np.max(a)) if range is None else range
    A.oblige(lt(A.el2p(A.asarr(lo).el(())), A.el2p(A.asarr(hi).el(()))), "histogram_bin_edges: the range is not reduced to a point")
    return A.linspace(lo, hi, A.num(A.tp(bins)) + 1)


np.__dict__.update(histogram_bin_edges=histogram_bin_edges)
integrate = NS("scipy.integrate", trapezoid=A.trapezoid, simpson=A.simpson, cumulative_trapezoid=cumulative_trapezoid, trapz=A.trapezoid, simps=A.simpson)
interpolate = NS("scipy.interpolate", BSpline=BSpline, splrep=splrep, splev=splev, splantider=splantider)
stats = NS("scipy.stats", describe=describe)
linalg = NS("scipy.linalg", inv=A.inv, expm=expm, toeplitz=toeplitz, hankel=hankel)
scipy = NS("scipy", integrate=integrate, interpolate=interpolate, stats=stats, linalg=linalg, optimize=NS("scipy.optimize", curve_fit=curve_fit), spatial=NS("scipy.spatial"), sparse=NS("scipy.sparse"), signal=NS("scipy.signal"))


# ------------------------------------------------------------------ order
# argsort(a): a permutation perm that sorts a; rank is its inverse.  digitize(x, bins) for sorted bins: the number of bins <= x.  What holds
# for any two places is instantiated at the ranks of the elements a contract names (SymS.rank).
class Sorted:
    all = []

    def __init__(self, a):
        k = len(Sorted.all)
        Sorted.all.append(self)
        self.n, self.rd = a.sh[0], a.reader()
        self.perm, self.inv = "argsort!%d" % k, "rank!%d" % k
        self.named = []
        n = self.n
        for s in (self.perm, self.inv):
            X.FACTS[s] = lambda args, s=s: [ge0(A.atom_p(s, args, "int")), lt(A.atom_p(s, args, "int"), n)]
            X.LINKED.add(s)
        undo = lambda outer, inner: lambda args: args[0].d and next((a.a[1] for a in [T.the_atom(args[0])] if a.kind == "app" and a.a[0] == inner), None) if is_atom(args[0]) else None
        T.REDUCE[self.perm] = undo(self.perm, self.inv)
        T.REDUCE[self.inv] = undo(self.inv, self.perm)

    def val(self, j):
        """the j-th value in increasing order"""
        return A.el2p(self.rd((T.app(self.perm, (j,), "int"),)))

    def ranks(self):
        return [T.app(self.inv, (e,), "int") for e in self.named]

    def count(self, x, strict):
        """number of values <= x (< x when strict)"""
        name = "count%s%s" % ("<" if strict else "<=", self.perm[7:])

        def facts(args):
            r, x = A.atom_p(name, args, "int"), args[0]
            out = [ge0(r), le(r, self.n)]
            below = (lambda v: lt(v, x)) if strict else (lambda v: le(v, x))
            for j in [r - 1, r] + self.ranks():
                v = self.val(j)
                ok = And(ge0(j), lt(j, self.n))
                out.append(Or(Not(ok), ge(j, r), below(v)))
                out.append(Or(Not(ok), lt(j, r), Not(below(v))))
                out.append(Or(Not(ok), ge(j, r), lt(r, 1), le(v, self.val(r - 1))))
                out.append(Or(Not(ok), lt(j, r), ge(r, self.n), le(self.val(r), v)))
            return out
        X.FACTS[name] = facts
        X.LINKED.add(name)
        return T.app(name, (x,), "int")


def is_atom(p):
    try:
        return T.the_atom(p) is not None
    except Exception:
        return False


def argsort(a, axis=-1, kind=None, order=None, **k):
    a = A.asarr(a)
    if k or order is not None or a.ndim != 1:
        raise Unsupported("np.argsort")
    s = Sorted(a)
    return A.new(a.sh, lambda i: T.app(s.perm, (i[0],), "int"), "i")


def sort(a, axis=-1, kind=None, order=None):
    a = A.asarr(a)
    return a[argsort(a)]


def sorted_of(bins):
    j = T.fresh("j")
    for s in Sorted.all:
        if s.n == bins.sh[0]:
            with X.assuming(ge0(j), lt(j, s.n)):
                if A.el2p(bins.el((j,))) == s.val(j):
                    return s
    raise Unsupported("places in an array not known to be sorted")


def digitize(x, bins, right=False):
    x, b = A.asarr(x), A.asarr(bins)
    s = sorted_of(b)
    r = x.reader()
    return A.new(x.sh, lambda i: s.count(A.el2p(r(i)), bool(right)), "i")


def searchsorted(a, v, side="left", sorter=None):
    a = A.asarr(a)
    if sorter is not None:
        a = a[sorter]
    return digitize(v, a, right=side == "left")


def nextafter(a, b):
    """the machine number next to a: no other machine number in between, in particular no value of a sorted array"""
    if not isinstance(b, float) or b not in (float("inf"), -float("inf")):
        raise Unsupported("np.nextafter")
    up = b > 0
    name = "nextafter" + ("+" if up else "-")

    def facts(args):
        a, r = args[0], A.atom_p(name, args, "real")
        out = [lt(a, r) if up else lt(r, a)]
        for s in Sorted.all:
            for j in s.ranks():
                v = s.val(j)
                out.append(Or(Not(lt(a, v)), le(r, v)) if up else Or(Not(lt(v, a)), le(v, r)))
        return out
    X.FACTS[name] = facts
    X.LINKED.add(name)
    f = lambda t: T.app(name, (t,))
    return A.ew1(a, f, "f") if isin(a) else A.num(f(A.tp(a)))


np.__dict__.update(argsort=argsort, sort=sort, digitize=digitize, searchsorted=searchsorted, nextafter=nextafter)

# ------------------------------------------------------------------ sparse arrays: coordinates and values, those of the same place are added
class COO:
    def __init__(self, coords, data=None, shape=None, **kw):
        if kw or data is None or shape is None:
            raise Unsupported("sparse.COO")
        self.coords = [A.asarr(c) for c in coords] if isinstance(coords, (list, tuple)) else [coords[i] for i in range(A.asarr(coords).sh[0].as_int())]
        self.data = A.asarr(data)
        self.shape = shape
        self.sh = tuple(A.tp(n) for n in shape)
        n = self.data.sh[0]
        if self.data.ndim != 1 or len(self.coords) != len(self.sh):
            raise A.ShapeError("sparse.COO")
        for c in self.coords:
            A.oblige(eq(c.sh[0], n), "sparse.COO: one place per value")
        i = T.fresh("l")
        with X.assuming(ge0(i), lt(i, n)):
            for c, m in zip(self.coords, self.sh):
                v = A.el2p(c.el((i,)))
                A.oblige(And(ge0(v), lt(v, m)), "sparse.COO: places within the shape")

    def blocks(self):
        """the values, in blocks of one symbolic length"""
        n = self.data.sh[0]
        if len(n.d) == 1:
            (m, c), = n.d.items()
            if c.denominator == 1 and 1 <= c <= 64 and m:
                return int(c), P({m: T.Fr(1)})
        return 1, n

    def todense(self):
        K, n = self.blocks()
        rd, rc = self.data.reader(), [c.reader() for c in self.coords]
        from . import prove

        def f(idx):
            tot = T.ZERO
            for k in range(K):
                i = T.fresh("i")
                with X.assuming(ge0(i), lt(i, n)):
                    l = n * k + i
                    r = lambda x: prove.simp(A.el2p(x), prove.Budget(200))
                    b = r(rd((l,)))
                    for c, j in zip(rc, idx):
                        b = b * T.iv(eq(r(c((l,))), j))
                tot = tot + T.Sum(i, n, b)
            return tot
        return A.new(self.sh, f, "f")


class TransformerMixin:
    pass


class BaseEstimator:
    pass


sklearn = NS("sklearn", base=NS("sklearn.base", TransformerMixin=TransformerMixin, BaseEstimator=BaseEstimator))
_warn = types.SimpleNamespace(warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, catch_warnings=warnings.catch_warnings)

from .jobshim import joblib
LIBS = {"joblib": joblib, "sparse": NS("sparse", COO=COO), "numpy": np, "scipy": scipy, "scipy.integrate": integrate, "scipy.interpolate": interpolate, "scipy.stats": stats, "scipy.linalg": linalg, "scipy.optimize": scipy.optimize,
        "sklearn": sklearn, "sklearn.base": sklearn.base, "copy": copy, "warnings": _warn, "collections": collections, "itertools": itertools, "functools": functools,
        "operator": operator, "typing": typing, "abc": abc, "types": types, "contextlib": contextlib, "__future__": __import__("__future__")}
