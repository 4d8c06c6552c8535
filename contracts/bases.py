"""Contracts of the elementary function bases (VolterraBasis/basis)."""
from dv.api import contract, product

B = "VolterraBasis/basis/_basis_features.py:"
L = "VolterraBasis/basis/_local_features.py:"


def points(S, dmax=3, name="X", lo=-2.0, hi=2.0):
    N = S.int("N", 1, 4)
    dim = S.int("dim", 1, dmax) if dmax > 1 else 1
    return N, dim, S.arr(name, N, dim, lo=lo, hi=hi)


def is_derivative(S, b, X, N, dim, ngroups, skip_first, skip_last=0, hess=True, anti=True, tol=2e-5):
    """deriv / hessian / antiderivative are the derivatives of basis, column by column.
    Column n*dim+d of basis() depends on coordinate d only; deriv() and hessian() leave out the constant group."""
    kept = ngroups - skip_first - skip_last
    g = b.deriv(X)
    S.shape(g, (N, kept * dim, dim), "shape of deriv")
    S.forall([("p", 0, N), ("n", 0, kept), ("d", 0, dim), ("e", 0, dim)], lambda p, n, d, e: S.eq(
        g[p, n * dim + d, e],
        S.partial(lambda Y: b.basis(Y)[p, (n + skip_first) * dim + d], X, p, e), "deriv is the gradient of basis", tol=tol, scale=1.0))
    if hess:
        h = b.hessian(X)
        S.shape(h, (N, kept * dim, dim, dim), "shape of hessian")
        S.forall([("p", 0, N), ("n", 0, kept), ("d", 0, dim), ("e", 0, dim), ("f", 0, dim)], lambda p, n, d, e, f: S.eq(
            h[p, n * dim + d, e, f],
            S.partial(lambda Y: b.deriv(Y)[p, n * dim + d, e], X, p, f), "hessian is the gradient of deriv", tol=tol, scale=1.0))
    if anti:
        a = b.antiderivative(X)
        S.shape(a, (N, ngroups * dim), "shape of antiderivative")
        phi = b.basis(X)
        S.forall([("p", 0, N), ("n", 0, ngroups), ("d", 0, dim), ("e", 0, dim)], lambda p, n, d, e: S.eq(
            S.partial(lambda Y: b.antiderivative(Y)[p, n * dim + d], X, p, e),
            S.ite(S.ceq(d, e), lambda: phi[p, n * dim + d], 0), "antiderivative is a primitive of basis", tol=tol, scale=1.0))


def describe(S, dim, mean=None, lo=None, hi=None):
    np = S.np
    D = S.vb("basis").DescribeResult
    z = np.zeros((dim,))
    return D(10, (z if lo is None else lo, z if hi is None else hi), z if mean is None else mean, z, z, z)


def fit(S, b, desc, X):
    """the basis fitted on the description; it may have been fitted and evaluated before"""
    if not S.symbolic and S.rng.randint(2):
        lo = S.rng.uniform(-1.4, -1.0, 5)
        for dim in [q for q in (1, 2, 3) if q != X.shape[1]] + [X.shape[1]]:
            other = describe(S, dim, mean=lo[:dim] + 1.3, lo=lo[:dim] - 1.0, hi=lo[:dim] + 3.0)
            Y = S.rng.uniform(-0.8, 0.8, (2, dim))
            S.history([lambda: b.fit(other)] + evaluations(b, Y))
        S.history(evaluations(b, X), [X])
    b = b.fit(desc)
    if not S.symbolic:
        S.history(evaluations(b, X), [X])
    return b


def evaluations(b, X):
    return [lambda: b.basis(X), lambda: b.deriv(X), lambda: b.hessian(X), lambda: b.antiderivative(X)]


@contract("C08", [B + "LinearFeatures.fit", B + "LinearFeatures.basis", B + "LinearFeatures.deriv", B + "LinearFeatures.hessian", B + "LinearFeatures.antiderivative"],
          product(center=[False, True], data=[False, True]))
def linear(S):
    N, dim, X = points(S)
    b = S.vb("basis").LinearFeatures(to_center=S.case.center)
    mean = S.arr("mean", dim)
    if S.case.data:
        Y = S.arr("Y", S.int("NY", 1, 5), dim)
        b = fit(S, b, Y, X)
        mu = lambda d: S.sum(0, Y.shape[0], lambda k: Y[k, d]) / Y.shape[0]
    else:
        b = fit(S, b, describe(S, dim, mean=mean), X)
        mu = lambda d: mean[d]
    S.eq(b.n_output_features_, dim, "number of features")
    f = b.basis(X)
    S.shape(f, (N, dim))
    S.forall([("p", 0, N), ("d", 0, dim)], lambda p, d: S.eq(f[p, d], X[p, d] - (mu(d) if S.case.center else 0), "linear features"))
    is_derivative(S, b, X, N, dim, 1, 0)


POLY = ["Polynomial", "Chebyshev", "Legendre", "Hermite", "HermiteE", "Laguerre"]


@contract("C08", [B + "PolynomialFeatures.fit", B + "PolynomialFeatures.basis", B + "PolynomialFeatures.deriv", B + "PolynomialFeatures.hessian", B + "PolynomialFeatures.antiderivative"],
          product(remove=[True, False], poly=POLY), trials=2)
def polynomial(S):
    N, dim, X = points(S, 2, lo=-0.9, hi=0.9)
    deg = S.int("deg", 1, 4)
    fam = S.polyfam(S.case.poly)
    b = fit(S, S.vb("basis").PolynomialFeatures(deg=deg, polynom=fam, remove_const=S.case.remove), describe(S, dim), X)
    S.eq(b.n_output_features_, dim * (deg + 1), "number of features")
    f = b.basis(X)
    S.shape(f, (N, dim * (deg + 1)))
    S.forall([("p", 0, N), ("n", 0, deg + 1), ("d", 0, dim)], lambda p, n, d: S.eq(
        f[p, n * dim + d], S.poly(fam, n, X[p, d]), "polynomial of degree n of coordinate d"))
    is_derivative(S, b, X, N, dim, deg + 1, 1 if S.case.remove else 0)


@contract("C08", [B + "FourierFeatures.fit", B + "FourierFeatures.basis", B + "FourierFeatures.deriv", B + "FourierFeatures.hessian", B + "FourierFeatures.antiderivative"],
          product(remove=[True, False]), trials=4)
def fourier(S):
    N, dim, X = points(S, 2)
    order = S.int("order", 1, 3)
    freq = S.real("freq", 0.5, 2.0)
    b = fit(S, S.vb("basis").FourierFeatures(order=order, freq=freq, remove_const=S.case.remove), describe(S, dim), X)
    ng = 2 * order + 1
    S.eq(b.n_output_features_, dim * ng, "number of features")
    f = b.basis(X)
    S.shape(f, (N, dim * ng))
    S.forall([("p", 0, N), ("d", 0, dim)], lambda p, d: S.eq(f[p, d], 1 / S.sqrt(2 * S.pi), "constant"))
    S.forall([("p", 0, N), ("m", 1, order + 1), ("d", 0, dim)], lambda p, m, d: (
        S.eq(f[p, (2 * m - 1) * dim + d], S.sin(m * freq * X[p, d]) / S.sqrt(S.pi), "sine of order m"),
        S.eq(f[p, 2 * m * dim + d], S.cos(m * freq * X[p, d]) / S.sqrt(S.pi), "cosine of order m")))
    is_derivative(S, b, X, N, dim, ng, 1 if S.case.remove else 0)


@contract("C08", [B + "SplineFctFeatures.fit", B + "SplineFctFeatures.basis", B + "SplineFctFeatures.deriv", B + "SplineFctFeatures.hessian", B + "SplineFctFeatures.antiderivative"], trials=4)
def spline_fct(S):
    N, dim, X = points(S, 2, lo=-0.8, hi=0.8)
    knots, coeffs, k = S.spline_data()
    b = fit(S, S.vb("basis").SplineFctFeatures(knots, coeffs, k), describe(S, dim), X)
    S.eq(b.n_output_features_, dim, "number of features")
    f = b.basis(X)
    S.shape(f, (N, dim))
    S.forall([("p", 0, N), ("d", 0, dim)], lambda p, d: S.eq(f[p, d], S.spline(knots, coeffs, k, X[p, d]), "spline of coordinate d"))
    is_derivative(S, b, X, N, dim, 1, 0)


@contract("C08", [L + "BSplineFeatures.fit", L + "BSplineFeatures.basis", L + "BSplineFeatures.deriv", L + "BSplineFeatures.hessian", L + "BSplineFeatures.antiderivative"],
          product(remove=[True, False], k=[1, 2, 3, 4], nk=[5, 8], per=[False, True]), trials=2, group="bspline")
def bspline(S):
    """B-splines on the fitted range: non negative, summing to one, consistent derivatives; the last one is left out of deriv when the constant is removed"""
    N = S.int("N", 1, 4)
    nk = S.case.nk
    lo, hi = S.real("lo", -2.0, -1.0), S.real("hi", 1.0, 2.0)
    S.assume(lo < hi)
    X = S.arr("X", N, 1, lo=-0.93, hi=0.93)
    S.in_range(X, lo, hi)
    b = S.vb("basis").BSplineFeatures(n_knots=nk, k=S.case.k, remove_const=S.case.remove, **({"periodic": True} if S.case.per else {}))
    if S.case.per:
        nk = nk - 1         # the two ends of the range are the same point
    b = fit(S, b, describe(S, 1, lo=S.vec(lo), hi=S.vec(hi)), X)
    S.eq(b.n_output_features_, nk, "number of features")
    f = b.basis(X)
    S.shape(f, (N, nk))
    S.forall([("p", 0, N)], lambda p: S.eq(S.sum(0, nk, lambda n: f[p, n]), 1, "partition of unity"))
    S.forall([("p", 0, N), ("n", 0, nk)], lambda p, n: S.true(f[p, n] >= (0 if S.symbolic else -1e-12), "non negative"))
    is_derivative(S, b, X, N, 1, nk, 0, 1 if S.case.remove else 0, hess=S.case.k > 2, tol=1e-4)
    if S.case.k == 2 and not S.symbolic and not S.case.per and S.np.all(S.np.abs((X - lo) * 2 * (nk - 1) / (hi - lo) % 1 - 0.5) < 0.48):
        is_derivative(S, b, X, N, 1, nk, 0, 1 if S.case.remove else 0, anti=False, tol=1e-4)
    if S.case.per and not S.symbolic:
        ends = S.np.array([[lo], [hi]])
        E, G = b.basis(ends), b.deriv(ends)
        S.allclose(E[0], E[1], "periodic")
        if S.case.k > 1:
            S.allclose(G[0], G[1], "periodic", scale=10.0)
        S.true(S.np.linalg.matrix_rank(b.basis(S.np.linspace(lo, hi, 60).reshape(-1, 1))) == nk, "independent functions")
    if S.case.k == 1 and not S.symbolic:
        S.same(b.hessian(X), S.np.zeros((N, nk - int(S.case.remove), 1, 1)), "no second derivative of linear splines")
    if not S.symbolic and not S.case.per:       # out of the fitted range, the functions and their derivatives go on together
        out = S.np.array([[lo - S.real("left", 0.05, 0.5)], [hi + S.real("right", 0.05, 0.5)]])
        is_derivative(S, b, out, 2, 1, nk, 0, 1 if S.case.remove else 0, hess=S.case.k > 2, tol=2e-3)


@contract("C08", [L + "BSplineFeatures.fit", L + "BSplineFeatures.basis", L + "BSplineFeatures.deriv", L + "BSplineFeatures.hessian", L + "BSplineFeatures.antiderivative"],
          product(remove=[True, False], k=[1, 3], nk=[5, 7], per=[False, True]), trials=2, group="bspline")
def bspline_given_knots(S):
    """B-splines on the given points, whatever their number: the same guarantees"""
    N = S.int("N", 1, 4)
    nk = S.case.nk
    pts = [S.real("lo", -2.0, -1.0)]
    for i in range(nk - 1):
        pts.append(pts[-1] + S.real("gap%d" % i, 0.3, 0.8))
    lo, hi = pts[0], pts[-1]
    X = S.arr("X", N, 1, lo=-0.93, hi=0.93)
    S.in_range(X, lo, hi)
    b = S.vb("basis").BSplineFeatures(n_knots=6, k=S.case.k, remove_const=S.case.remove, **({"periodic": True} if S.case.per else {}))
    b = b.fit(describe(S, 1, lo=S.vec(lo - 1), hi=S.vec(hi + 1)), knots=S.vec(*pts))
    if S.case.per:
        nk = nk - 1
    S.eq(b.n_output_features_, nk, "number of features")
    f = b.basis(X)
    S.shape(f, (N, nk))
    S.forall([("p", 0, N)], lambda p: S.eq(S.sum(0, nk, lambda n: f[p, n]), 1, "partition of unity"))
    S.forall([("p", 0, N), ("n", 0, nk)], lambda p, n: S.true(f[p, n] >= (0 if S.symbolic else -1e-12), "non negative"))
    if S.symbolic or S.case.k > 1 or S.np.all(S.np.abs(X - S.np.array(pts)) > 1e-3):
        is_derivative(S, b, X, N, 1, nk, 0, 1 if S.case.remove else 0, hess=S.case.k > 2, tol=1e-4)


@contract("C08", ["VolterraBasis/basis/_data_describe.py:quick_describe", "VolterraBasis/basis/_data_describe.py:minimal_describe", "VolterraBasis/basis/_data_describe.py:describe_from_dim"])
def describes(S):
    N, dim, X = points(S)
    m = S.vb("basis")
    q = m.quick_describe(X)
    S.eq(q.nobs, N, "number of samples")
    S.shape(q.mean, (dim,))
    d = m.minimal_describe(X)
    S.eq(d.nobs, N, "number of samples")
    S.forall([("d", 0, dim)], lambda e: (
        S.eq(d.mean[e], S.sum(0, N, lambda k: X[k, e]) / N, "mean"),))
    S.forall([("d", 0, dim), ("k", 0, N)], lambda e, k: (
        S.true(d.minmax[0][e] <= X[k, e], "lower bound"), S.true(X[k, e] <= d.minmax[1][e], "upper bound")))
    S.shape(m.describe_from_dim(dim).mean, (dim,))


FIT = ["linear", "centered", "polynomial", "fourier", "spline", "bspline", "smooth", "combined", "tensor"]


@contract("C08", ["VolterraBasis/basis:*.fit"], product(b=FIT), trials=3)
def fit_data(S):
    """fitting on an array of positions is fitting on the description of these positions"""
    m = S.vb("basis")
    kind = S.case.b
    if S.symbolic and kind == "bspline":
        return  # knots over the minimum and maximum of an arbitrary table: decided by execution only
    dim = 2 if kind == "tensor" else 1
    N = S.int("N", 1, 4)
    X = S.arr("X", N, dim, lo=-0.9, hi=0.9)
    n = S.int("n", 3, 9)
    Y = S.arr("Y", n, dim)
    args = S.spline_data() if kind == "spline" else None
    mk = {
        "linear": lambda: m.LinearFeatures(), "centered": lambda: m.LinearFeatures(to_center=True), "polynomial": lambda: m.PolynomialFeatures(deg=2),
        "fourier": lambda: m.FourierFeatures(order=1), "spline": lambda: m.SplineFctFeatures(*args), "bspline": lambda: m.BSplineFeatures(5, k=3),
        "smooth": lambda: m.SmoothIndicatorFeatures([[-0.5, -0.25], [0.25, 0.5]], "tricube"),
        "combined": lambda: m.FeaturesCombiner(m.LinearFeatures(to_center=True), m.FourierFeatures(order=1)),
        "tensor": lambda: m.TensorialBasis2D(m.FourierFeatures(order=1), m.LinearFeatures(to_center=True))}[kind]
    lo, hi, mean = S.np.min(Y, axis=0), S.np.max(Y, axis=0), S.np.mean(Y, axis=0)
    a, b = mk().fit(Y), mk().fit(describe(S, dim, mean=mean, lo=lo, hi=hi))
    S.eq(a.n_output_features_, b.n_output_features_, "number of features")
    f, g = a.basis(X), b.basis(X)
    q = b.n_output_features_
    S.shape(f, (N, q)), S.shape(g, (N, q))
    S.forall([("p", 0, N), ("k", 0, q)], lambda p, k: S.eq(f[p, k], g[p, k], "same functions", scale=1.0))
    if kind == "smooth":
        S.raises(lambda: mk().fit(S.arr("Z", n, 2)), "one dimension only")
        S.raises(lambda: m.SmoothIndicatorFeatures([[0, 1]], "other"), "unknown boundary")
        S.raises(lambda: a.antiderivative(X), "no primitive")
    if kind == "tensor":
        S.raises(lambda: a.antiderivative(X), "no primitive")


# ------------------------------------------------------------------ smooth indicators
def boundaries(S, ns):
    """ns ordered, disjoint transition intervals [lo, hi], and the lengths between consecutive end points"""
    pts, gaps = [S.real("s0", -3.0, -2.0)], []
    for i in range(2 * ns - 1):
        g = S.real("gap%d" % i, 0.2, 1.2)
        gaps.append(g)
        pts.append(pts[-1] + g)
    return [[pts[2 * i], pts[2 * i + 1]] for i in range(ns)], pts, gaps


IND = product(ns=[1, 2, 3], kind=["tricube", "triweight", "quartic"], periodic=[False, True], flip=[False, True])
IND = [c for c in IND if not (c["periodic"] and c["ns"] < 2)]


def located(S, ns, margin=0.0):
    """points, one of which (row p) lies in region r of the line: 0, 2, .. 2 ns are the states, 1, 3, .. the transitions.
    Its place inside the region is given by u: 0 <= u <= 1 (u >= 0 in the two unbounded regions)"""
    N = S.int("N", 1, 4)
    bd, pts, gaps = boundaries(S, ns)
    p = S.int("p", 0, 3)
    S.assume(p < N)
    out = []
    for r in range(2 * ns + 1):
        u = S.real("u%d" % r, 0.01, 0.99)
        x = pts[0] - u if r == 0 else pts[-1] + u if r == 2 * ns else pts[r - 1] + u * gaps[r - 1]
        out.append((r, u, x, S.with_row(S.arr("X%d" % r, N, 1, lo=-4.0, hi=6.0) if not S.symbolic else S.arr("X", N, 1), p, x, u)))
    return N, p, bd, out


def indicators(S, bd, X):
    return fit(S, S.vb("basis").SmoothIndicatorFeatures([[q, p] for p, q in bd] if S.case.flip else bd, S.case.kind, periodic=S.case.periodic), describe(S, 1), X)


@contract("C09", [L + "SmoothIndicatorFeatures.basis", L + "tricube", L + "triweight", L + "quartic"], IND, trials=2)
def indicator_values(S):
    """indicators take values in [0,1], sum to one at every point, and equal one inside their own state"""
    ns = S.case.ns
    N, p, bd, places = located(S, ns)
    b = indicators(S, bd, places[0][3])
    nf = ns if S.case.periodic else ns + 1
    S.eq(b.n_output_features_, nf, "number of features")
    for r, u, x, X in places:
        def at(r=r, u=u, x=x, X=X):
            S.history(evaluations(b, X), [X])
            if S.symbolic and 0 < r < 2 * ns:
                S.assume(u <= 1)
            f = b.basis(X)
            S.shape(f, (N, nf))
            S.eq(S.sum(0, nf, lambda n: f[p, n]), 1, "partition of unity")
            for n in range(nf):
                S.true(f[p, n] >= (0 if S.symbolic else -1e-12), "not below zero")
                S.true(f[p, n] <= (1 if S.symbolic else 1 + 1e-12), "not above one")
            if r % 2 == 0:
                S.eq(f[p, (r // 2) % nf], 1, "one inside its state")
        S.local(at)


@contract("C09", [L + "SmoothIndicatorFeatures.deriv", L + "SmoothIndicatorFeatures.hessian", L + "tricube", L + "triweight", L + "quartic"], IND, trials=2)
def indicator_derivatives(S):
    """inside every region of the line, deriv and hessian are the derivatives of basis and deriv"""
    ns = S.case.ns
    N, p, bd, places = located(S, ns)
    b = indicators(S, bd, places[0][3])
    nf = ns if S.case.periodic else ns + 1
    for r, u, x, X in places:
        def at(r=r, u=u, x=x, X=X):
            if S.symbolic and 0 < r < 2 * ns:
                S.assume(u < 1)
            g, h = b.deriv(X), b.hessian(X)
            S.shape(g, (N, nf, 1))
            S.shape(h, (N, nf, 1, 1))
            for n in range(nf):
                S.eq(g[p, n, 0], S.partial(lambda Y: b.basis(Y)[p, n], X, p, 0), "deriv is the derivative of basis", tol=1e-4, scale=1.0)
                S.eq(h[p, n, 0, 0], S.partial(lambda Y: b.deriv(Y)[p, n, 0], X, p, 0), "hessian is the derivative of deriv", tol=1e-4, scale=1.0)
        S.local(at)


@contract("C09", [L + "SmoothIndicatorFeatures.__init__", L + "SmoothIndicatorFeatures.fit"], trials=1)
def indicator_arguments(S):
    m = S.vb("basis")
    S.raises(lambda: m.SmoothIndicatorFeatures([[0, 1]], "unknown"), "unknown boundary type")
    S.raises(lambda: m.SmoothIndicatorFeatures([[0, 1]]).fit(describe(S, 2)), "dimension higher than one")
    f = lambda u, der=0: (1 - u) if der == 0 else (-1.0 + 0 * u if der == 1 else 0 * u)
    b = m.SmoothIndicatorFeatures([[0, 1]], f).fit(describe(S, 1))
    S.allclose(b.basis(S.np.array([[0.25]])), S.np.array([[0.75, 0.25]]), "custom boundary")


# ------------------------------------------------------------------ composite bases
M = "VolterraBasis/basis/_multidim_basis.py:"


@contract("C10", [B + "FeaturesCombiner.basis", B + "FeaturesCombiner.deriv", B + "FeaturesCombiner.hessian", B + "FeaturesCombiner.fit"],
          product(nb=[1, 2, 3, 4], removed=[False, True]), trials=2)
def combiner(S):
    """columns of the combination: those of each basis, in order"""
    N = S.int("N", 1, 3)
    dim = S.int("dim", 1, 2)
    X = S.arr("X", N, dim)
    sub = [S.abstract_basis("q%d" % i, dim, const_removed=(S.case.removed and i == 1)) for i in range(S.case.nb)]
    c = S.vb("basis").FeaturesCombiner(*sub)
    c = fit(S, c, describe(S, dim), X)
    tot = 0
    for s in sub:
        tot = tot + s.n_output_features_
    S.eq(c.n_output_features_, tot, "number of features")
    S.true(bool(c.const_removed) == any(s.const_removed for s in sub), "constant removed when one of the bases removes it")
    f, g, h = c.basis(X), c.deriv(X), c.hessian(X)
    S.shape(f, (N, tot))
    S.shape(g, (N, tot, dim))
    S.shape(h, (N, tot, dim, dim))
    off = 0
    for s in sub:
        S.forall([("p", 0, N), ("k", 0, s.n_output_features_)], lambda p, k: S.eq(f[p, off + k], s.phi(X, p, k), "columns of basis"))
        S.forall([("p", 0, N), ("k", 0, s.n_output_features_), ("d", 0, dim)], lambda p, k, d: S.eq(g[p, off + k, d], s.dphi(X, p, k, d), "columns of deriv"))
        S.forall([("p", 0, N), ("k", 0, s.n_output_features_), ("d", 0, dim), ("e", 0, dim)], lambda p, k, d, e: S.eq(h[p, off + k, d, e], s.ddphi(X, p, k, d, e), "columns of hessian"))
        off = off + s.n_output_features_


@contract("C10", [B + "FeaturesCombiner.deriv", B + "FeaturesCombiner.hessian", B + "FeaturesCombiner.__init__"], product(nb=[1, 2, 3], nested=[False, True]), trials=2)
def combiner_constant(S):
    """a combination asked to keep the constant functions keeps those of all its parts"""
    N = S.int("N", 1, 3)
    dim = S.int("dim", 1, 2)
    X = S.arr("X", N, dim)
    sub = [S.abstract_basis("q%d" % i, dim, const_removed=(i == S.case.nb - 1), drop=dim if i == S.case.nb - 1 else 0) for i in range(S.case.nb)]
    C = S.vb("basis").FeaturesCombiner
    c = C(C(*sub)) if S.case.nested else C(*sub)
    c = fit(S, c, describe(S, dim), X)
    tot = 0
    for s in sub:
        tot = tot + s.n_output_features_
    S.true(bool(c.const_removed), "constant removed when one of the bases removes it")
    S.shape(c.deriv(X), (N, tot - dim, dim))
    c.const_removed = False
    S.true(not c.const_removed, "constant kept")
    g, h = c.deriv(X), c.hessian(X)
    S.shape(g, (N, tot, dim))
    S.shape(h, (N, tot, dim, dim))
    off = 0
    for s in sub:
        S.forall([("p", 0, N), ("k", 0, s.n_output_features_), ("d", 0, dim)], lambda p, k, d: S.eq(g[p, off + k, d], s.dphi(X, p, k, d), "columns of deriv"))
        S.forall([("p", 0, N), ("k", 0, s.n_output_features_), ("d", 0, dim), ("e", 0, dim)], lambda p, k, d, e: S.eq(h[p, off + k, d, e], s.ddphi(X, p, k, d, e), "columns of hessian"))
        off = off + s.n_output_features_


@contract("C10", [M + "TensorialBasis2D.basis", M + "TensorialBasis2D.deriv", M + "TensorialBasis2D.hessian", M + "TensorialBasis2D.fit"], product(single=[False, True]), trials=3)
def tensor2d_combined(S):
    """products of combined bases: each coordinate has its own functions, fitted on its own description, constants included"""
    N = S.int("N", 1, 3)
    X = S.arr("X", N, 2)
    m = S.vb("basis")
    mk = lambda: m.FeaturesCombiner(m.LinearFeatures(to_center=True), m.FourierFeatures(order=1))
    t = m.TensorialBasis2D(mk()) if S.case.single else m.TensorialBasis2D(mk(), m.FeaturesCombiner(m.FourierFeatures(order=1), m.LinearFeatures(to_center=True)))
    mean = S.arr("mean", 2)
    t = fit(S, t, describe(S, 2, mean=mean), X)
    x, y = (lambda p: X[p, 0]), (lambda p: X[p, 1])
    q = 1 / S.sqrt(S.pi)
    lin = lambda c: [lambda z: z - mean[c], lambda z: 1, lambda z: 0]
    fou = [[lambda z: 1 / S.sqrt(2 * S.pi), lambda z: 0, lambda z: 0], [lambda z: q * S.sin(z), lambda z: q * S.cos(z), lambda z: -q * S.sin(z)], [lambda z: q * S.cos(z), lambda z: -q * S.sin(z), lambda z: -q * S.cos(z)]]
    one = [lin(0)] + fou
    two = [lin(1)] + fou if S.case.single else fou + [lin(1)]
    n1 = n2 = 4
    S.eq(t.n_output_features_, n1 * n2, "number of features")
    f, g, h = t.basis(X), t.deriv(X), t.hessian(X)
    S.shape(f, (N, n1 * n2)), S.shape(g, (N, n1 * n2, 2)), S.shape(h, (N, n1 * n2, 2, 2))
    for i in range(n1):
        for j in range(n2):
            c = i * n2 + j
            u, w = one[i], two[j]
            S.forall([("p", 0, N)], lambda p, c=c, u=u, w=w: (
                S.eq(f[p, c], u[0](x(p)) * w[0](y(p)), "product", 1.0),
                S.eq(g[p, c, 0], u[1](x(p)) * w[0](y(p)), "derivative along the first dimension", 1.0),
                S.eq(g[p, c, 1], u[0](x(p)) * w[1](y(p)), "derivative along the second dimension", 1.0),
                S.eq(h[p, c, 0, 0], u[2](x(p)) * w[0](y(p)), "second derivative 00", 1.0),
                S.eq(h[p, c, 0, 1], u[1](x(p)) * w[1](y(p)), "second derivative 01", 1.0),
                S.eq(h[p, c, 1, 0], u[1](x(p)) * w[1](y(p)), "second derivative 10", 1.0),
                S.eq(h[p, c, 1, 1], u[0](x(p)) * w[2](y(p)), "second derivative 11", 1.0)))


@contract("C10", [M + "TensorialBasis2D.basis", M + "TensorialBasis2D.deriv", M + "TensorialBasis2D.hessian"], product(single=[False, True]), trials=3)
def tensor2d(S):
    """products of the two families; gradient and symmetric hessian by the product rule"""
    N = S.int("N", 1, 3)
    X = S.arr("X", N, 2)
    b1 = S.abstract_basis("q1", 1, const_removed=True)
    b2 = None if S.case.single else S.abstract_basis("q2", 1, const_removed=True)
    t = S.vb("basis").TensorialBasis2D(b1, b2)
    S.true(not t.const_removed, "constant not removed")
    t = fit(S, t, describe(S, 2), X)
    n1 = b1.n_output_features_
    u = b1
    w = b1 if b2 is None else b2
    n2 = w.n_output_features_
    S.eq(t.n_output_features_, n1 * n2, "number of features")
    f, g, h = t.basis(X), t.deriv(X), t.hessian(X)
    S.shape(f, (N, n1 * n2))
    S.shape(g, (N, n1 * n2, 2))
    S.shape(h, (N, n1 * n2, 2, 2))
    x, y = X[:, 0:1], X[:, 1:2]

    def at(p, i, j):
        c = i * n2 + j
        a0, a1, a2 = u.phi(x, p, i), u.dphi(x, p, i, 0), u.ddphi(x, p, i, 0, 0)
        c0, c1, c2 = w.phi(y, p, j), w.dphi(y, p, j, 0), w.ddphi(y, p, j, 0, 0)
        S.eq(f[p, c], a0 * c0, "product")
        S.eq(g[p, c, 0], a1 * c0, "derivative along the first dimension")
        S.eq(g[p, c, 1], a0 * c1, "derivative along the second dimension")
        S.eq(h[p, c, 0, 0], a2 * c0, "second derivative 00")
        S.eq(h[p, c, 0, 1], a1 * c1, "second derivative 01")
        S.eq(h[p, c, 1, 0], a1 * c1, "second derivative 10")
        S.eq(h[p, c, 1, 1], a0 * c2, "second derivative 11")
    S.forall([("p", 0, N), ("i", 0, n1), ("j", 0, n2)], at)


@contract("C10", [M + "TensorialBasis2D.fit", M + "TensorialBasis2D.__init__"], product(single=[False, True]), trials=3)
def tensor2d_fit(S):
    """each one-dimensional basis is fitted on its own coordinate"""
    b1 = S.fit_recorder()
    b2 = None if S.case.single else S.fit_recorder()
    t = S.vb("basis").TensorialBasis2D(b1, b2)
    np = S.np
    D = S.vb("basis").DescribeResult
    lo, hi, mean, var, sk, ku = [S.arr(n, 2) for n in ("lo", "hi", "mean", "var", "sk", "ku")]
    t.fit(D(S.int("n", 1, 9), (lo, hi), mean, var, sk, ku))
    for q, r in ((0, t.b1.seen), (1, t.b2.seen)):
        for got, want in ((r.minmax[0], lo), (r.minmax[1], hi), (r.mean, mean), (r.variance, var), (r.skewness, sk), (r.kurtosis, ku)):
            S.shape(got, (1,))
            S.eq(got[0], want[q], "description of coordinate %d" % q)


@contract("C10", [M + "TensorialBasis2D.comb_indices", M + "TensorialBasis2D.split_index"], trials=3)
def tensor2d_indices(S):
    b1, b2 = S.abstract_basis("q1", 1), S.abstract_basis("q2", 1)
    t = S.vb("basis").TensorialBasis2D(b1, b2).fit(describe(S, 2))
    n1, n2 = b1.n_output_features_, b2.n_output_features_

    def at(i, j):
        S.eq(t.comb_indices(i, j), i * n2 + j, "combined index")
        k, l = t.split_index(i * n2 + j)
        S.eq(k, i, "split index")
        S.eq(l, j, "split index")
    S.forall([("i", 0, n1), ("j", 0, n2)], at)
    S.raises(lambda: t.fit(describe(S, 1)), "dimension other than two")
    S.raises(lambda: t.fit(describe(S, 3)), "dimension other than two")


# ------------------------------------------------------------------ point by point, whatever the number of points
def pointwise(S):
    """the functions are functions of the point: a row does not depend on the other points, on their number, nor on earlier calls"""
    np = S.np
    m = S.vb("basis")
    kind = S.case.b
    dim = 2 if kind == "tensor" else 1 if kind in ("bspline", "smooth") else S.rng.randint(1, 3)
    lo, hi = -np.ones(dim), np.ones(dim)
    mk = {
        "linear": lambda: m.LinearFeatures(to_center=True), "polynomial": lambda: m.PolynomialFeatures(deg=3), "fourier": lambda: m.FourierFeatures(order=2, freq=1.3),
        "spline": lambda: m.SplineFctFeatures(*arg), "bspline": lambda: m.BSplineFeatures(6, k=3), "smooth": lambda: m.SmoothIndicatorFeatures([[-0.5, -0.1], [0.3, 0.6]], "triweight"),
        "combined": lambda: m.FeaturesCombiner(m.LinearFeatures(), m.FourierFeatures(order=1)), "tensor": lambda: m.TensorialBasis2D(m.BSplineFeatures(5), m.FourierFeatures(order=1))}[kind]
    arg = S.spline_data() if kind == "spline" else None
    new = lambda: mk().fit(describe(S, dim, mean=0.1 * np.ones(dim), lo=lo, hi=hi))
    b = new()
    N = S.int("N", 600, 3000)
    X = S.rng.uniform(-0.99, 0.99, (N, dim))
    Y = X.copy()        # same ends, same extremes, same mean
    Y[1:-1] = S.rng.permutation(Y[1:-1])
    for name in ("basis", "deriv", "hessian", "antiderivative"):
        fn, ref = getattr(b, name), getattr(new(), name)
        try:
            F = fn(X)
        except NotImplementedError:
            continue
        S.true(F.shape[0] == N, "one row for each point")
        for i in [0, N - 1] + list(S.rng.randint(1, N - 1, 12)):
            S.allclose(F[i], ref(X[i : i + 1])[0], "%s: the row of a point is that of the point alone" % name, tol=1e-9, scale=1.0)
        G = fn(Y)
        for i in S.rng.randint(1, N - 1, 12):
            S.allclose(G[i], ref(Y[i : i + 1])[0], "%s: values at other points with the same ends" % name, tol=1e-9, scale=1.0)


WHY = "proved for any number of points, from a fresh basis; here many points, and repeated calls, on numbers"
contract("C08", ["VolterraBasis/basis:*"], product(b=["linear", "polynomial", "fourier", "spline", "bspline"]), trials=2, symbolic=False, why=WHY)(pointwise)
contract("C09", ["VolterraBasis/basis:*"], product(b=["smooth"]), trials=3, symbolic=False, why=WHY)(pointwise)
contract("C10", ["VolterraBasis/basis:*"], product(b=["combined", "tensor"]), trials=3, symbolic=False, why=WHY)(pointwise)
contract("C23", ["VolterraBasis/basis:*"], product(b=["linear", "polynomial", "fourier", "spline", "bspline", "smooth", "combined", "tensor"]), trials=1, symbolic=False, why=WHY)(pointwise)


@contract("C08", [B + "PolynomialFeatures.antiderivative", B + "SplineFctFeatures.antiderivative", L + "BSplineFeatures.antiderivative"], product(b=["polynomial", "spline", "bspline"]), trials=3, symbolic=False, why="repeated primitives, on numbers")
def repeated_primitives(S):
    """the derivative of a primitive of order n + 1 is the primitive of order n"""
    np = S.np
    m = S.vb("basis")
    arg = S.spline_data() if S.case.b == "spline" else None
    b = {"polynomial": lambda: m.PolynomialFeatures(deg=3), "spline": lambda: m.SplineFctFeatures(*arg), "bspline": lambda: m.BSplineFeatures(6, k=3)}[S.case.b]()
    b = b.fit(describe(S, 1, lo=-np.ones(1), hi=np.ones(1)))
    X, h = S.rng.uniform(-0.7, 0.7, (6, 1)), 1e-4
    for n in (1, 2):
        S.allclose((b.antiderivative(X + h, n + 1) - b.antiderivative(X - h, n + 1)) / (2 * h), b.antiderivative(X, n), "primitive of order %d" % (n + 1), tol=1e-5, scale=1.0)
