"""Concrete reading of the contracts: the real package (scratch build) on seeded random inputs."""
import importlib, json, math, os, re, sys, time, traceback, random, io, contextlib, copy, warnings, signal
import numpy as np
from . import api
from .api import Skip, Case


class Violation(Exception):
    pass


class TooLong(Exception):
    pass


class S:
    """concrete mode"""
    symbolic = False

    def __init__(self, case, seed, sizes=None, tol=1e-7):
        import xarray
        self.case = Case(case)
        self.seed = seed
        self.big = seed % 5 == 0 or bool(os.environ.get("DV_BIG"))
        self.rng = np.random.RandomState(seed % (2 ** 31))
        self.np, self.xr = np, xarray
        self.forced = dict(sizes or {})
        self.used = {}
        self.tol = tol
        self.n_checks = 0
        self.fails = []
        self.where = []

    # -- inputs
    def vb(self, name=""):
        return importlib.import_module("VolterraBasis" + ("." + name if name else ""))

    def callee(self, mod, name, stand):
        pass                # the real callee runs

    def exact_fits(self, ps):
        pass                # the real optimiser runs

    def int(self, name, lo, hi=None, sym=True, strict=False):
        hi = lo + 6 if hi is None else hi
        if self.big and not strict and hi - lo >= 4:       # sizes that count times, points, lags: well beyond those of the other trials
            hi = lo + 4 * (hi - lo)
        v = self.forced.get(name)
        if v is None or v < lo or v > max(60, hi):
            v = int(self.rng.randint(lo, hi + 1))
        v = int(v)
        self.used[name] = v
        return v

    def real(self, name, lo=-2.0, hi=2.0):
        v = self.forced.get(name)
        if v is None or (lo >= 0 and v <= 0):
            v = float(self.rng.uniform(lo, hi))
        v = float(v)
        self.used[name] = v
        return v

    def arr(self, name, *shape, lo=-1.0, hi=1.0, ints=False):
        """`ints`: one trial in four takes a table of integers"""
        shape = tuple(int(s) for s in shape)
        if "#seed" in self.forced:          # replay of a counterexample: the contents it was evaluated with
            a = np.array([api.hashed(self.forced["#seed"], name, ix) for ix in np.ndindex(*shape)], dtype=float).reshape(shape)
            return lo + (hi - lo) * (a + 1) / 2
        a = self.rng.uniform(lo, hi, size=shape)
        if ints and np.random.RandomState((self.seed * 7 + 3) % (2 ** 31)).randint(4) == 0:
            a = np.rint(3 * a).astype(int)
        # what a table holds does not depend on how it is laid out in memory
        how = np.random.RandomState((self.seed * 31 + sum(map(ord, name))) % (2 ** 31)).randint(4)
        if how == 1:
            return np.asfortranarray(a)
        if how == 2 and a.ndim:
            big = np.full(a.shape[:-1] + (2 * a.shape[-1],), np.nan if a.dtype == float else 0)
            big = big.astype(a.dtype)
            big[..., ::2] = a
            return big[..., ::2]
        return a

    def psd(self, name, n, rank):
        """any symmetric positive matrix of that rank"""
        U = np.linalg.qr(self.arr(name + "_U", n, n))[0][:, :rank]
        return (U * self.arr(name + "_s", n, lo=0.5, hi=2.0)[:rank]) @ U.T

    def fourier(self, g, w, f, t, label):
        n, dt = len(f), t[1] - t[0]
        self.allclose(w, 2 * np.pi * np.fft.fftfreq(n) / dt, label)
        self.allclose(g, np.array([dt * sum(f[k] * np.exp(-1j * ww * t[k]) for k in range(n)) for ww in w]), label)

    def known(self, a, b):
        return isinstance(a, (int, np.integer)) and a == b

    def assume(self, c):
        if not c:
            raise Skip()

    half = 0.5

    def well(self, B):
        """make the (leading two axes) matrices well conditioned, in place"""
        n = B.shape[0]
        for i in range(n):
            B[i, i] += 1.0 + n

    def partial(self, f, X, p, d, h=1e-5):
        """numerical partial derivative of f at X with respect to X[p, d] (fourth order differences)"""
        def at(e):
            Y = X.copy()
            Y[p, d] += e
            return float(f(Y))
        return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)

    def splrep(self, x, y, k=3):
        import scipy.interpolate
        return scipy.interpolate.splrep(x, y, k=k)

    def splev(self, x, tck, der=0):
        import scipy.interpolate
        return scipy.interpolate.splev(x, tck, der=der)

    def opaque(self):
        pass

    def named_extrema(self):
        pass

    def any_of(self, *cs):
        return any(bool(c) for c in cs)

    def unroll(self, n):
        pass

    def ceq(self, a, b):
        return a == b

    def implies(self, c, f):
        if c:
            f()

    def local(self, f):
        f()

    def polyfam(self, name):
        return getattr(np.polynomial, name)

    def poly(self, fam, n, x):
        return float(fam.basis(n)(x))

    def spline_data(self):
        import scipy.interpolate
        k = self.rng.randint(3, 5)
        x = np.linspace(-1, 1, 9)
        t, c, k = scipy.interpolate.splrep(x, self.rng.uniform(-1, 1, 9), k=k)
        return t, c[: len(t) - k - 1], k

    def spline(self, t, c, k, x):
        import scipy.interpolate
        return float(scipy.interpolate.BSpline(t, c, k)(x))

    def lin(self, G, b):
        """solution of the linear system G x = b"""
        return np.linalg.solve(G, b)

    def history(self, ops, scribble=()):
        """what the objects went through before the calls of the contract: the same operations, on the same arrays while they had
        another content.  What they return, or raise, is of no interest."""
        import contextlib
        import io
        import warnings
        kept = [np.array(a) for a in scribble]
        for a in scribble:
            if a.dtype.kind == "f" and a.flags.writeable:
                a[...] = 0.97 * self.rng.permutation(a.ravel()).reshape(a.shape)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for op in ops:
                try:
                    op()
                except Exception:
                    pass
        for a, k in zip(scribble, kept):
            if a.flags.writeable:
                a[...] = k

    def in_range(self, X, lo, hi):
        X[...] = lo + (hi - lo) * (X + 1) / 2

    def vec(self, *xs):
        return np.array(xs, dtype=float)

    def abstract_basis(self, name, dim, const_removed=False, nmax=3, drop=0):
        return AbstractBasis(self, name, dim, const_removed, nmax, drop)

    def fit_recorder(self):
        return FitRecorder()

    # -- formulas
    def sum(self, lo, hi, f):
        t = 0.0
        for k in range(int(lo), int(hi)):
            t = t + f(k)
        return t

    def ite(self, c, a, b):
        return (a() if callable(a) else a) if c else (b() if callable(b) else b)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def abs(self, a):
        return abs(a)

    def fdiv(self, a, b):
        return a // b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    sqrt = staticmethod(math.sqrt)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    exp = staticmethod(math.exp)
    cosh = staticmethod(math.cosh)
    pi = math.pi
    pow = staticmethod(math.pow)

    def with_row(self, X, p, x, u):
        X = X.copy()
        X[p, 0] = x
        return X

    def v(self, x, *dims):
        """plain array of a result, in the given dimension order for labelled arrays"""
        if hasattr(x, "dims"):
            if dims:
                if set(x.dims) != set(dims):
                    self._fail("dims", "dimensions %r, expected %r" % (x.dims, dims))
                    raise Violation()
                x = x.transpose(*dims)
            return np.asarray(x.values)
        return np.asarray(x)

    # -- obligations
    def _fail(self, label, msg):
        self.fails.append({"obligation": label, "at": list(self.where), "message": msg})
        if len(self.fails) > 5:
            raise Violation()

    def eq(self, a, b, label="eq", scale=0.0, tol=None):
        self.n_checks += 1
        tol = tol or self.tol
        try:
            a, b = complex(a), complex(b)
        except TypeError:
            self._fail(label, "not scalars: %r %r" % (a, b))
            return
        s = max(abs(a), abs(b), 1e-3, float(scale))
        if not (abs(a - b) <= tol * s):
            self._fail(label, "code %r, specification %r" % (a if a.imag else a.real, b if b.imag else b.real))

    def integer(self, x, label):
        self.eq(x, round(float(x)), label, tol=1e-9)

    def le(self, a, b, label="le"):
        """a <= b up to rounding"""
        self.true(a <= b + 1e-7 * (1.0 + abs(float(b))), label)

    def true(self, c, label="cond"):
        self.n_checks += 1
        if not bool(c):
            self._fail(label, "condition false")

    def forall(self, ranges, f, label=None):
        def rec(i, idx):
            if i == len(ranges):
                self.where.append({n: v for (n, _, _), v in zip(ranges, idx)})
                try:
                    f(*idx)
                finally:
                    self.where.pop()
                return
            n, lo, hi = ranges[i]
            lo = lo(*idx) if callable(lo) else lo
            hi = hi(*idx) if callable(hi) else hi
            for k in range(int(lo), int(hi)):
                rec(i + 1, idx + [k])
        rec(0, [])

    def shape(self, x, shp, label="shape"):
        self.n_checks += 1
        s = tuple(int(k) for k in x.shape)
        if s != tuple(int(k) for k in shp):
            self._fail(label, "shape %r, specification %r" % (s, tuple(shp)))
            raise Violation()

    def same(self, a, b, label="same"):
        """two arrays are equal (frame conditions)"""
        self.n_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=(a.dtype.kind == "f")):
            self._fail(label, "arrays differ")

    def allclose(self, a, b, label="allclose", tol=None, scale=None):
        self.n_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self._fail(label, "shape %r, specification %r" % (a.shape, b.shape))
            return
        if a.size == 0:
            return
        tol = tol or self.tol
        s = scale if scale is not None else max(1e-3, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0)
        d = np.abs(a - b)
        if not np.all(d <= tol * s):
            k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            self._fail(label, "at %r: code %r, specification %r" % (tuple(int(x) for x in k), a[k], b[k]))

    def raises(self, f, label="raises"):
        self.n_checks += 1
        try:
            f()
        except Exception:
            return
        self._fail(label, "no exception")

    def contained(self, f, label):
        """run f in a child process: it must neither crash nor be stopped by a run time check"""
        self.n_checks += 1
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.path.join(os.environ.get("DV_OUT", "/tmp"), "child.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(dn, 1), os.dup2(dn, 2)
                f()
                os._exit(0)
            except BaseException:
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            msg = ""
            try:
                msg = open(os.path.join(os.environ.get("DV_OUT", "/tmp"), "child.log")).read()[-600:]
            except OSError:
                pass
            self._fail(label, "child status %d: %s" % (st, msg))
            raise Violation()

    def snapshot(self, x):
        return copy.deepcopy(x)


class AbstractBasis:
    """an arbitrary smooth family phi_k(x) = sin(a_k . x + b_k); deriv and hessian leave out the first
    `drop` functions when const_removed is set"""

    def __init__(self, S, name, dim, const_removed, nmax, drop=0):
        self.n_output_features_ = S.int("n_" + name, drop + 1, drop + nmax)
        self.dim = dim
        self.const_removed = const_removed
        self.drop = drop
        self.dim_out_basis = 1
        self.a = S.rng.uniform(0.5, 1.5, size=(self.n_output_features_, dim))
        self.b = S.rng.uniform(0, 3, size=(self.n_output_features_,))

    def fit(self, d):
        return self

    def _arg(self, X):
        X = np.asarray(X)
        assert X.ndim == 2 and X.shape[1] == self.dim, X.shape
        return X @ self.a.T + self.b

    def _cut(self, r):
        return r[:, self.drop:] if self.const_removed else r

    def basis(self, X):
        return np.sin(self._arg(X))

    def _deriv(self, X):
        return np.cos(self._arg(X))[:, :, None] * self.a[None]

    def _hess(self, X):
        return -np.sin(self._arg(X))[:, :, None, None] * self.a[None, :, :, None] * self.a[None, :, None, :]

    def deriv(self, X, deriv_order=1):
        if deriv_order == 2:
            return self.hessian(X)
        return self._cut(self._deriv(X))

    def hessian(self, X):
        return self._cut(self._hess(X))

    def antiderivative(self, X, order=1):
        return -np.cos(self._arg(X)) / self.a[:, 0]

    # specification functions: k counts all the functions
    def phi(self, X, p, k):
        return float(self.basis(np.asarray(X)[p : p + 1])[0, k])

    def dphi(self, X, p, k, d):
        return float(self._deriv(np.asarray(X)[p : p + 1])[0, k, d])

    def ddphi(self, X, p, k, d, e):
        return float(self._hess(np.asarray(X)[p : p + 1])[0, k, d, e])

    def aphi(self, X, p, k):
        return float(self.antiderivative(np.asarray(X)[p : p + 1])[0, k])


class FitRecorder:
    const_removed = True
    n_output_features_ = 2

    def fit(self, d):
        self.seen = d
        return self


def internal_gone(e):
    """a private helper that a contract calls by name no longer exists or has another signature: the contract does not apply"""
    f = traceback.extract_tb(e.__traceback__)[-1]
    if os.sep + "contracts" + os.sep not in f.filename:
        return False
    if isinstance(e, AttributeError):
        return (getattr(e, "name", None) or "").startswith("_")
    return isinstance(e, (TypeError, ValueError)) and re.search(r"[\w)\]]\._[a-z]", f.line or "") is not None


def run_one(c, case, seed, sizes=None):
    s = S(case, seed, sizes)
    out = {"contract": c.name, "case": {k: repr(v) for k, v in dict(case).items()}, "case_index": None, "seed": seed, "sizes": None, "hint": sizes, "status": "ok", "fails": []}
    buf = io.StringIO()
    rs = np.random.get_state()
    np.random.seed(seed % (2 ** 31))
    random.seed(seed)
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            c.f(s)
    except Skip:
        out["status"] = "skip"
    except Violation:
        pass
    except TooLong:
        raise
    except Exception as e:
      if internal_gone(e):
        out["status"] = "skip"
      else:
        s.fails.append({"obligation": "no exception on valid input", "at": list(s.where),
                        "message": "".join(traceback.format_exception_only(type(e), e)).strip(), "trace": traceback.format_exc()[-1500:]})
    np.random.set_state(rs)
    out["sizes"] = s.used
    out["checks"] = s.n_checks
    if s.fails:
        out["status"] = "fail"
        out["fails"] = s.fails
    return out


def run_prop(prop, seed, tier, hints=None, budget=None):
    cs = api.load(prop)
    res = {"prop": prop, "contracts": [], "fails": [], "evaluations": 0, "checks": 0, "skips": 0}
    t0 = time.time()
    mult = 1 if tier == "quick" else 12
    for c in cs:
        if not c.concrete or (hints is not None and c.name not in hints):
            continue
        n = n_ok = n_skip = n_checks = 0
        distinct = set()
        fails = []
        trials = max(1, c.trials * mult) if hints is None else 24
        t1 = time.time()
        for t in range(trials):
            for ci, case in enumerate(c.cases):
                if fails and t > 0:
                    break
                sd = (seed * 1000003 + hash_(c.name) + 7919 * t + 104729 * ci) % (2 ** 31)
                sz = None
                if hints is not None:
                    hs = [h["env"] for h in hints.get(c.name, []) if h["case"] == {k: repr(v) for k, v in dict(case).items()}]
                    if t >= len(hs):
                        continue
                    sz = hs[t]
                r = run_one(c, case, sd, sz)
                r["case_index"] = ci
                n += 1
                n_checks += r.get("checks", 0)
                if r["status"] == "skip":
                    n_skip += 1
                elif r["status"] == "fail":
                    if len(fails) < 3:
                        fails.append(r)
                else:
                    n_ok += 1
                    distinct.add((ci, json.dumps(r["sizes"], sort_keys=True, default=str)))
            if tier == "quick" and time.time() - t1 > 60 and t >= 1:
                break
            if tier != "quick" and time.time() - t1 > 300:
                break
        res["contracts"].append({"name": c.name, "targets": c.targets, "evaluations": n, "passed": n_ok, "skipped": n_skip,
                                 "distinct": len(distinct), "checks": n_checks, "failed": len(fails), "seconds": round(time.time() - t1, 2),
                                 "symbolic": c.symbolic, "why": c.why})
        res["evaluations"] += n
        res["checks"] += n_checks
        res["fails"] += fails
    res["seconds"] = round(time.time() - t0, 2)
    return res


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def main():
    prop, seed, tier, outp = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    hints = None
    if len(sys.argv) > 5 and os.path.exists(sys.argv[5]):
        hints = json.load(open(sys.argv[5]))
    r = run_prop(prop, seed, tier, hints)
    json.dump(r, open(outp, "w"), default=str)


if __name__ == "__main__":
    main()
