"""Frame conditions: inputs are left as they were; compiled kernels stay inside their arrays."""
from dv.api import contract, product
from contracts.models import setup as msetup, model, coeffs, CLS, MC
from contracts.estim import setup as esetup, estimator

K = "VolterraBasis/fkernel.f90:"
KER = {
    "rect_integral": ("dt", "Bo", "K"), "trapz_integral": ("dt", "Bo", "K"), "simpson_integral": ("dt", "Bo2", "K2"), "midpoint_integral": ("dt", "Bm", "K"),
    "kernel_first_kind_rect": ("B", "D", "dt"), "kernel_first_kind_midpoint": ("B2", "D2", "dt"),
    "kernel_first_kind_trapz": ("k0", "B", "D", "dt"), "kernel_first_kind_simpson": ("k0", "B", "D", "dt"),
    "kernel_second_kind_rect": ("k0", "B0", "B", "D", "dt"), "kernel_second_kind_trapz": ("k0", "B0", "B", "D", "dt"), "kernel_second_kind_simpson": ("k0", "B0", "B", "D", "dt"),
    "memory_rect": ("KM", "E", "dt"), "memory_trapz": ("KM", "E", "dt"),
    "corrs_rect": ("N0", "KC", "EC", "Lf", "dt"), "corrs_trapz": ("N0", "KC", "EC", "Lf", "dt"),
    "solve_ide_rect": ("KS", "E0", "f", "T", "dt"), "solve_ide_trapz": ("KS", "E0", "f", "T", "dt"), "solve_ide_trapz_stab": ("KS", "E0p", "f", "T", "dt"),
}


@contract("C04", [K + n for n in KER], product(name=list(KER)), trials=8)
def in_bounds(S):
    """for all sizes: every access of the kernel is inside the declared bounds, and its inputs are not modified"""
    L, M = S.int("L", 1, 9), S.int("M", 1, 7)
    nb, dx, do = S.int("nb", 1, 3), S.int("dx", 1, 2), S.int("dout", 1, 2)
    T = S.int("T", 1, 9)
    mk = {
        "dt": lambda: S.real("dt", 0.05, 0.3), "T": lambda: T,
        "B": lambda: S.arr("B", nb, nb, L + 1), "D": lambda: S.arr("D", nb, dx, L + 1),
        "B2": lambda: S.arr("B", nb, nb, L + 2), "D2": lambda: S.arr("D", nb, dx, L + 2),
        "Bo": lambda: S.arr("Bo", do, nb, L + 1), "K": lambda: S.arr("K", L + 1, nb, dx),
        "Bm": lambda: S.arr("Bm", do, nb, 2 * L + 1),
        "Bo2": lambda: S.arr("Bo", do, nb, L + 2), "K2": lambda: S.arr("K", L + 2, nb, dx),
        "B0": lambda: S.arr("B0", nb, nb), "k0": lambda: S.arr("k0", nb, dx),
        "KM": lambda: S.arr("K", M + 1, nb, dx), "E": lambda: S.arr("E", L + 1, nb),
        "KC": lambda: S.arr("K", M + 1, nb, dx), "EC": lambda: S.arr("E", M + L + 1, nb),
        "N0": lambda: S.arr("N0", M + L + 1, dx), "Lf": lambda: S.arr("Lf", M + L + 1, do),
        "KS": lambda: S.arr("K", M + 1, nb, nb), "E0": lambda: S.arr("E0", do, nb), "E0p": lambda: S.arr("E0", do, nb, lo=0.1), "f": lambda: S.arr("f", nb, nb),
    }
    args = [mk[a]() for a in KER[S.case.name]]
    for a, k in zip(args, KER[S.case.name]):
        if k in ("B", "B2", "B0"):
            S.well(a)
    if not S.symbolic:
        args = [S.np.asfortranarray(a) if hasattr(a, "shape") else a for a in args]
    before = [S.snapshot(a) for a in args]
    S.contained(lambda: getattr(S.vb("fkernel"), S.case.name)(*args), "access outside the bounds of an array")
    getattr(S.vb("fkernel"), S.case.name)(*args)
    for a, b, k in zip(args, before, KER[S.case.name]):
        if hasattr(a, "shape"):
            S.same(a, b, "input %s not modified" % k)


# ------------------------------------------------------------------ inputs of the Python interface
def check(S, before, now, what):
    for k in before:
        S.same(now[k], before[k], "%s left as it was by %s" % (k, what))


def snap(S, A, ds=None):
    r = {k: S.snapshot(v) for k, v in A.items()}
    return r


PREP = ["compute_va", "compute_va_jumps", "compute_va_gjf", "compute_va_gjf_jumps", "compute_a", "compute_a_from_vel", "concat_underdamped"]


@contract("C23", ["VolterraBasis/__init__.py:" + n for n in ("compute_va", "compute_va_gjf", "compute_a", "compute_a_from_vel", "concat_underdamped")], product(fn=PREP), trials=3)
def preparation(S):
    from contracts.traj import raw
    N, d, dt, A, ds = raw(S, ("x", "v", "a"), 4)
    before = snap(S, A)
    fn = S.case.fn
    src = ds if fn in ("compute_a", "compute_a_from_vel", "concat_underdamped") else ds[["x"]]
    if fn in ("compute_a", "compute_a_from_vel"):
        src = ds[["x", "v"]]
    names = set(src.data_vars) if not S.symbolic else None
    getattr(S.vb(), fn.replace("_jumps", ""))(src, **({"correct_jumps": True, "jump": 1.0, "jump_thr": S.half} if fn.endswith("_jumps") else {}))
    check(S, before, {c: S.v(ds[c], "time", "dim_x") for c in A}, fn)
    check(S, before, A, fn)
    S.eq(ds.attrs["dt"], dt, "time step kept")
    if not S.symbolic:
        S.true(set(src.data_vars) == names, "no variable added or removed")
        S.true(ds["x"].shape == (N, d), "length kept")


@contract("C23", ["VolterraBasis/__init__.py:xframe"], product(fix=[False, True]), trials=3)
def framing(S):
    N = S.int("N", 2, 9)
    x, t, v, a = S.arr("x", N), S.arr("t", N), S.arr("v", N), S.arr("a", N)
    A = dict(x=x, t=t, v=v, a=a)
    before = snap(S, A)
    S.vb().xframe(x, t, v=v, a=a, fix_time=S.case.fix, dt=S.half if S.case.fix else -1)
    check(S, before, A, "xframe")
    S.shape(x, (N,), "shape kept"), S.shape(v, (N,), "shape kept"), S.shape(a, (N,), "shape kept")


@contract("C23", ["VolterraBasis/correlation.py:" + n for n in ("correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND")],
          product(fn=["correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND"], cross=[False, True]), trials=3)
def correl(S):
    N = S.int("N", 2, 9)
    a, b = (S.arr("a", N), S.arr("b", N)) if S.case.fn.endswith("1D") else (S.arr("a", 2, 1 if S.case.cross else N, N)[:, 0] if False else S.arr("a", 2, N), S.arr("b", 2, N))
    if S.case.fn.endswith("ND") and S.case.cross:
        a = S.arr("a3", 2, 1, N)
    A = dict(a=a, b=b)
    before = snap(S, A)
    T = S.int("T", 1, 6)
    fn = getattr(S.vb("correlation"), S.case.fn)
    c = fn(a, b if S.case.cross else None, T)
    check(S, before, A, S.case.fn)
    c0 = S.snapshot(c)
    fn(0.5 * a, 0.3 * b if S.case.cross else None, T)
    S.same(c, c0, "the result of a call is not altered by the next ones")


BASES = ["linear", "centered", "polynomial", "fourier", "spline", "bspline", "smooth", "combined", "tensor"]


@contract("C23", ["VolterraBasis/basis:*"], product(b=BASES), trials=3)
def bases(S):
    """evaluating a basis changes neither the points nor the basis: repeated calls, in any order, agree"""
    from contracts.bases import describe
    np = S.np
    m = S.vb("basis")
    kind = S.case.b
    dim = 2 if kind == "tensor" else 1
    N = S.int("N", 1, 4)
    X = S.arr("X", N, dim, lo=-0.9, hi=0.9)
    if kind == "linear":
        b = m.LinearFeatures().fit(describe(S, dim))
    elif kind == "centered":
        b = m.LinearFeatures(to_center=True).fit(describe(S, dim, mean=S.arr("mean", dim)))
    elif kind == "polynomial":
        b = m.PolynomialFeatures(deg=2).fit(describe(S, dim))
    elif kind == "fourier":
        b = m.FourierFeatures(order=1).fit(describe(S, dim))
    elif kind == "spline":
        b = m.SplineFctFeatures(*S.spline_data()).fit(describe(S, dim))
    elif kind == "bspline":
        if S.symbolic:
            return
        b = m.BSplineFeatures(6, k=3).fit(describe(S, dim, lo=S.vec(-1.0), hi=S.vec(1.0)))
    elif kind == "smooth":
        if S.symbolic:
            return
        b = m.SmoothIndicatorFeatures([[-0.5, -0.1], [0.3, 0.6]], "tricube").fit(describe(S, dim))
    elif kind == "combined":
        b = m.FeaturesCombiner(m.LinearFeatures(), m.FourierFeatures(order=1)).fit(describe(S, dim))
    else:
        b = m.TensorialBasis2D(m.FourierFeatures(order=1), m.LinearFeatures()).fit(describe(S, dim))
    before = snap(S, dict(X=X))
    f1 = b.basis(X)
    try:
        g1 = b.deriv(X)
        h1 = b.hessian(X)
        a1 = b.antiderivative(X)
    except NotImplementedError:
        g1 = h1 = a1 = None
    check(S, before, dict(X=X), "evaluating the basis")
    S.shape(X, (N, dim), "shape kept")
    R = dict(values=f1) if g1 is None else dict(values=f1, derivatives=g1, second=h1, primitives=a1)
    kept = snap(S, R)
    Z = 0.5 * X  # other points, as many
    b.basis(Z)
    if g1 is not None:
        b.deriv(Z), b.hessian(Z), b.antiderivative(Z)
    check(S, kept, R, "the evaluations at other points")
    S.same(kept["values"], b.basis(X), "same values at the second call")
    if g1 is not None:
        S.same(kept["derivatives"], b.deriv(X), "same derivatives at the second call")
        S.same(kept["second"], b.hessian(X), "same second derivatives at the second call")
        S.same(kept["primitives"], b.antiderivative(X), "same primitives at the second call")


@contract("C23", ["VolterraBasis/models.py:" + n for n in ("ModelBase.compute_noise", "ModelBase.compute_corrs_w_noise", "ModelBase.force_eval", "ModelBase.pmf_eval", "ModelBase.kernel_eval")], MC, trials=2)
def models(S):
    """evaluations of a model change neither the trajectory nor the model"""
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = msetup(S, cls, S.case.remove, nmin=8)
    m = model(S, cls, b, dt, d, trunc=1000)
    m.rank_projection = False
    M, f, K = coeffs(S, m, b, ft, A, ds)
    S.assume(N >= M + 2)
    before = snap(S, dict(A, f=f, K=K))
    m.method = "trapz"

    def all_of_it(ds, x):
        return [*m.basis_vector(ds), m.force_eval(x), m.pmf_eval(x), m.kernel_eval(x), *m.compute_noise(ds), *m.compute_corrs_w_noise(ds)]
    first = all_of_it(ds, A["x"])
    if not S.symbolic:
        values = lambda rs: [S.np.array(S.np.asarray(r)) for r in rs]
        kept = values(first)
        all_of_it(ds * 0.5, 0.5 * A["x"])
        if cls != "Pos_gle_hybrid":
            m.kernel_eval(A["x"], 0.5 * m.kernel)
        if cls != "Pos_gle_with_friction":
            m.force_eval(A["x"], 0.5 * m.force_coeff)
        for i, (r, k) in enumerate(zip(values(first), kept)):
            S.same(r, k, "result %d of a call is not altered by the next ones" % i)
        for i, (r, k) in enumerate(zip(values(all_of_it(ds, A["x"])), kept)):
            S.same(r, k, "same result %d at another call" % i)
    check(S, before, dict(A, f=f, K=K), "the evaluations of the model")
    check(S, {c: before[c] for c in A}, {c: S.v(ds[c], "time", "dim_x") for c in A}, "the evaluations of the model")
    check(S, {"f": before["f"], "K": before["K"]}, {"f": S.v(m.force_coeff, "dim_basis", "dim_x"), "K": S.v(m.kernel, "time_kernel", "dim_basis", "dim_x")}, "the evaluations of the model")


@contract("C23", ["VolterraBasis/gle_estimation.py:Estimator_gle.*"], [dict(cls=c["cls"], remove=c["remove"]) for c in MC], trials=1)
def estimation(S):
    """estimating a model does not change the trajectories, and can be repeated with the same result"""
    cls = S.case.cls
    d, dt, tr, b, ft = esetup(S, cls, S.case.remove, 2, nmin=16)
    before = [snap(S, t[1]) for t in tr]
    e = estimator(S, cls, b, tr, d, dt, lag=3)
    e.model.rank_projection = False
    f1 = S.v(e.compute_mean_force().force_coeff, "dim_basis", "dim_x")
    e.compute_gram_force()
    e.compute_effective_mass()
    if S.symbolic:
        return
    e.compute_corrs()
    ms, raws = ["rect", "trapz", "second_kind_trapz", "midpoint"], []
    for me in ms:
        r1 = e.compute_kernel(method=me).kernel
        k1 = S.v(r1).copy()
        raws.append((r1, k1))
        S.same(k1, S.v(e.compute_kernel(method=me).kernel), "same kernel at the second call")
    for (r1, k1), me in zip(raws, ms):
        S.same(S.v(r1), k1, "a kernel is not altered by the computation of the next ones")
        S.same(S.v(e.compute_kernel(method=me).kernel), k1, "same kernel, whatever was computed in between")
    names = ["bkbkcorrw", "bkdxcorrw", "dotbkdxcorrw", "dotbkbkcorrw"]
    old = [S.v(getattr(e, k)) for k in names]
    kept = [o.copy() for o in old]
    e.compute_corrs(second_order_method=False)
    e.compute_corrs(vectorize=True, method="direct")
    e.compute_corrs()
    for k, o, o0 in zip(names, old, kept):
        S.same(o, o0, "correlations are not altered by the computation of others")
        S.same(S.v(getattr(e, k)), o0, "same correlations, whatever was computed in between")
    for t, bf in zip(tr, before):
        check(S, bf, t[1], "the estimation")
        check(S, bf, {c: S.v(t[2][c], "time", "dim_x") for c in t[1]}, "the estimation")
        S.true(set(t[2].data_vars) == {"x", "v", "a"}, "no variable added")
    S.same(f1, S.v(e.compute_mean_force().force_coeff, "dim_basis", "dim_x"), "same force at the second call")


@contract("C23", ["VolterraBasis/gle_integrate.py:Integrator_gle.run", "VolterraBasis/fit_prony.py:prony_fit_times_serie", "VolterraBasis/fit_memory.py:memory_fit"], symbolic=False, why="labelled recurrences, decompositions and optimisers", trials=4)
def other_inputs(S):
    from contracts.integ import setup, Fixed
    from contracts.fits import exponentials
    np = S.np
    it, d, dt, b, n, nk, M, f, K = setup(S)
    x0 = S.xr.Dataset({"x": (["time", "dim_x"], S.arr("x0", 2, d)), "v": (["time", "dim_x"], S.arr("v0", 2, d))}, coords={"time": np.arange(2) * dt}, attrs={"dt": dt})
    c0 = x0.copy(deep=True)
    k0, f0 = K.copy(), f.copy()
    r1 = it.run(6, x0=x0, set_noise_to_zero=True)
    r2 = it.run(6, x0=x0, set_noise_to_zero=True)
    S.true(x0.identical(c0), "initial conditions left as they were")
    S.true(r1.identical(r2), "same trajectory at the second run")
    r3 = r1.copy(deep=True)
    it.run(6, x0=0.5 * x0, set_noise_to_zero=True)
    S.true(r1.identical(r3), "a trajectory is not altered by the next runs")
    S.same(K, k0, "kernel left as it was")
    S.same(f, f0, "force left as it was")
    # a basis that is already fitted is used as it is
    B = S.vb("basis").BSplineFeatures(5, k=3).fit(S.np.array([[-3.0], [3.0]]))
    line = S.np.linspace(-2, 2, 9)[:, None]
    f0, g0 = B.basis(line), B.deriv(line)
    ds = S.xr.Dataset({c: (["time", "dim_x"], S.arr(c + "b", 30, 1)) for c in "xva"}, coords={"time": np.arange(30) * 0.1}, attrs={"dt": 0.1})
    e = S.vb("gle_estimation").Estimator_gle([ds, 0.5 * ds.assign_attrs(dt=0.1)], S.vb("models").Pos_gle, B, saveall=False, verbose=False, trunc=0.3)
    e.compute_mean_force(), e.compute_corrs(), e.compute_kernel()
    S.same(B.basis(line), f0, "a fitted basis is left as it was")
    S.same(B.deriv(line), g0, "a fitted basis is left as it was")
    K0, F0 = e.model.kernel.copy(deep=True), e.model.force_coeff.copy(deep=True)
    sim = S.vb("gle_integrate").Integrator_gle(e.model, coeffs_noise_kernel=np.zeros((K0.shape[2], K0.shape[1])), verbose=False)
    sim.run(5, x0=ds.isel(time=slice(0, 2)), set_noise_to_zero=True)
    S.true(e.model.kernel.identical(K0) and e.model.force_coeff.identical(F0), "the model left as it was")
    # trajectories keep their values, labels and attributes
    many = [S.xr.Dataset({c: (["time", "dim_x"], S.rng.normal(size=(80, 1))) for c in "xva"}, coords={"time": 3.0 + np.arange(80) * 0.1}, attrs={"dt": 0.1, "origin": "here"}) for i in range(3)]
    copies = [q.copy(deep=True) for q in many]
    vb = S.vb()
    for kw in (dict(bins=8), dict(bins=8, hist=True), dict(bins="auto", hist=True)):
        vb.compute_1d_fe(many, **kw)
    for fn in (vb.compute_va, vb.compute_va_gjf, vb.compute_a, vb.compute_a_from_vel, vb.concat_underdamped):
        [fn(q) for q in many]
    for cls in ("Pos_gle", "Pos_gle_overdamped", "Pos_gle_const_kernel"):
        e = S.vb("gle_estimation").Estimator_gle(many, getattr(S.vb("models"), cls), S.vb("basis").LinearFeatures(), saveall=False, verbose=False, trunc=0.4)
        e.compute_mean_force(), e.compute_effective_mass(), e.compute_gram_force(), e.compute_corrs(), e.compute_kernel("trapz"), e.compute_basis_mean(), e.describe_data()
        e.model.method = "trapz"
        e.compute_noise(many[0]), e.compute_projected_corrs(), e.compute_projected_corrs("v")
    for q, c in zip(many, copies):
        S.true(q.identical(c), "trajectories left as they were, with their labels and attributes")
    t, y = exponentials(S, 2, 15, 0.3)
    y0, t0 = y.copy(), t.copy()
    fits = lambda y: [*S.vb("fit_prony").prony_fit_times_serie(y, 0.3, N_keep=2), S.vb("fit_prony").prony_inspect_data(y, N_keep=2), S.vb("fit_memory").memory_fit(t, y, type="exp")[1],
                      S.vb("fit_prony").prony_series_eval(t, 1.0, np.diag(-y[:2])), S.vb("fit_memory").memory_fit_eval(t, y[:2], "exp")]
    first = fits(y)
    kept = [np.array(r) for r in first]
    fits(0.7 * y[::-1].copy())
    for i, (r, k) in enumerate(zip(first, kept)):
        S.same(np.asarray(r), k, "fit %d is not altered by the next ones" % i)
    for i, (r, k) in enumerate(zip(fits(y), kept)):
        S.same(np.asarray(r), k, "same fit %d at another call" % i)
    S.same(y, y0, "data left as they were")
    S.same(t, t0, "times left as they were")
