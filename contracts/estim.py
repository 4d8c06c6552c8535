"""Contracts of the estimator (VolterraBasis/gle_estimation.py)."""
import time
from dv.api import contract, product, Skip
from contracts.models import Feat, CLS, MC

F = "VolterraBasis/gle_estimation.py:"
E_ = F + "Estimator_gle."


def trajs(S, ntraj, nmin=4, d=None, cols=("x", "v", "a"), ints=False):
    """trajectories of various lengths, in the same dimension"""
    if d is None:
        d = S.int("d", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    out = []
    for i in range(ntraj):
        N = S.int("N%d" % i, nmin, nmin + 6)
        t0 = S.real("t%d" % i, -1, 40)     # recordings start at any time
        A = {c: S.arr("%s%d" % (c, i), N, d, ints=ints) for c in cols}
        ds = S.xr.Dataset({c: (["time", "dim_x"], A[c]) for c in cols}, coords={"time": t0 + S.np.arange(N) * dt}, attrs={"dt": dt})
        out.append((N, A, ds))
    return d, dt, out


def estimator(S, cls, b, tr, d, dt, lag=None, fresh=False, **kw):
    """an estimator on the trajectories, truncated after `lag` steps; it may have been used before, with other options"""
    kw.setdefault("saveall", False)
    kw.setdefault("verbose", False)
    if lag is not None:
        kw["trunc"] = lag * dt + dt / 2
    e = S.vb("gle_estimation").Estimator_gle([t[2] for t in tr], getattr(S.vb("models"), cls), b, **kw)
    if not (S.symbolic or fresh or kw["saveall"] or kw.get("n_jobs", 1) > 1) and S.rng.randint(2):
        rank = e.model.rank_projection
        ops = [e.describe_data, e.compute_mean_force, e.compute_gram_force, e.compute_gram_kernel, e.compute_effective_mass, e.compute_basis_mean, lambda: e.compute_basis_mean("kernel"),
               lambda: e.compute_corrs(second_order_method=False), lambda: e.compute_corrs(method="direct"), e.compute_corrs, e.compute_gram_kernel]
        S.rng.shuffle(ops)
        S.history([e.compute_mean_force, e.compute_corrs] + ops[:6] + [e.set_zero_force])     # no inversion: the compiled ones stop the process on singular systems
        e.model.rank_projection = rank
    return e


def wavg(S, tr, f):
    """sum_i N_i f_i / sum_i N_i"""
    W = sum([t[0] for t in tr])
    return sum([t[0] * f(i) for i, t in enumerate(tr)]) / W


def feats(S, cls, b, tr, d, remove):
    return [Feat(S, cls, b, t[1], d, remove) for t in tr]


NT = [1, 2, 3]


def setup(S, cls, remove, ntraj, nmin=4, nmax=2):
    d = 1 if cls == "Pos_gle_hybrid" else None
    d, dt, tr = trajs(S, ntraj, nmin, d, ints=True)
    b = S.abstract_basis("q", d, const_removed=remove, drop=d if remove else 0, nmax=nmax)
    return d, dt, tr, b, feats(S, cls, b, tr, d, remove)


# ------------------------------------------------------------------ averages over trajectories
def per_traj(weight, xva, model, scale=1.0, slow=None, **kw):
    """any statistic of one trajectory; the first one may well be the last to be ready"""
    if slow is not None and slow == weight:
        time.sleep(0.3)
    return xva["x"].mean("time") * scale, (xva["v"] * xva["v"]).mean("time")


@contract("C12", [E_ + "_loop_over_trajs_serial", E_ + "_loop_over_trajs_parallel", E_ + "__init__"], product(ntraj=NT, jobs=[1]) + [dict(ntraj=2, jobs=2), dict(ntraj=3, jobs=2)], trials=3)
def average(S):
    """averages over trajectories are weighted by their number of points, whatever the number of processes"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj)
    e = estimator(S, "Pos_gle", b, tr, d, dt, n_jobs=S.case.jobs)
    slow = {"slow": tr[0][0]} if S.case.jobs > 1 and not S.symbolic else {}
    r = e.loop_over_trajs(per_traj, e.model, scale=2, **slow)
    S.true(len(r) == 2, "one average per statistic")
    mx, mv = S.v(r[0], "dim_x"), S.v(r[1], "dim_x")
    S.shape(mx, (d,)), S.shape(mv, (d,))
    mean = lambda f, N: S.sum(0, N, f) / N
    S.forall([("k", 0, d)], lambda k: (
        S.eq(mx[k], wavg(S, tr, lambda i: 2 * mean(lambda t: tr[i][1]["x"][t, k], tr[i][0])), "weighted average"),
        S.eq(mv[k], wavg(S, tr, lambda i: mean(lambda t: tr[i][1]["v"][t, k] * tr[i][1]["v"][t, k], tr[i][0])), "weighted average")))


@contract("C12", [E_ + "_loop_over_trajs_serial", E_ + "_loop_over_trajs_parallel", E_ + "describe_data", E_ + "__init__"], product(jobs=[1, 3]), trials=2, symbolic=False, why="proved for any lengths (average, description); here many trajectories, some very long, on numbers")
def many_and_long(S):
    """averages over many trajectories of one point to tens of thousands of points"""
    np = S.np
    ns = [int(n) for n in S.rng.randint(3, 30, S.rng.randint(4, 14) if S.rng.randint(2) else S.rng.randint(20, 45))] + [int(S.rng.randint(33000, 90000)), int(S.rng.randint(100, 300))]
    S.rng.shuffle(ns)
    d, dt = 1, 0.1
    xs = [S.rng.normal(size=(n, d)) + S.rng.normal() for n in ns]
    ds = [S.xr.Dataset({c: (["time", "dim_x"], x * k) for k, c in ((1.0, "x"), (2.0, "v"), (-0.5, "a"))}, coords={"time": np.arange(len(x)) * dt}, attrs={"dt": dt}) for x in xs]
    e = S.vb("gle_estimation").Estimator_gle(ds, S.vb("models").Pos_gle, S.vb("basis").LinearFeatures(), saveall=False, verbose=False, trunc=dt, n_jobs=S.case.jobs)
    X = np.concatenate(xs)
    S.allclose(np.asarray(e.compute_basis_mean()), X.mean(axis=0), "weighted average", scale=1.0)
    S.allclose(np.asarray(e.compute_gram_force().gram_force), X.T @ X / len(X), "weighted average")
    S.allclose(np.asarray(e.compute_effective_mass().eff_mass), np.linalg.inv(4 * X.T @ X / len(X)), "weighted average")
    r = e.describe_data()
    S.eq(r.nobs, len(X), "number of points")
    S.allclose(r.mean, X.mean(axis=0), "mean over all points", scale=1.0)
    S.allclose(np.array(r.minmax), np.array([X.min(axis=0), X.max(axis=0)]), "range")
    S.eq(e.model.trunc_ind, 2, "number of lags")


@contract("C12", [E_ + "compute_mean_force", E_ + "compute_corrs"], product(ntraj=[2, 3]), trials=1)
def parallel_same(S):
    """one process or several: same mean force and correlations"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj, nmin=12)
    lag = S.int("lag", 1, 4)
    for t in tr:
        S.assume(t[0] >= lag + 1)
    res = []
    for jobs in (1, 2):
        e = estimator(S, "Pos_gle", b, tr, d, dt, lag=lag, n_jobs=jobs)
        if S.symbolic:
            e.model.trunc_ind = lag + 1     # its own contract: truncation
        e.compute_mean_force()
        e.compute_corrs()
        res.append([S.v(e.model.force_coeff), S.v(e.bkbkcorrw), S.v(e.bkdxcorrw), S.v(e.dotbkbkcorrw), S.v(e.dotbkdxcorrw)])
    for a, c in zip(*res):
        S.allclose(a, c, "independent of the number of processes")


@contract("C12", [E_ + "_do_check", E_ + "_do_check_obs", E_ + "_compute_trunc_ind"], product(ntraj=NT, long=[False, True]), trials=3)
def truncation(S):
    """lags up to the requested time, never longer than the shortest trajectory; a single trajectory needs no list"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj, nmin=5)
    if S.case.long:
        e = estimator(S, "Pos_gle", b, tr, d, dt, trunc=sum([t[0] for t in tr]) * dt)
        n = tr[0][0]
        for t in tr[1:]:
            n = S.min(n, t[0])
        S.eq(e.model.trunc_ind, n, "truncated at the shortest trajectory")
        S.eq(e.trunc_ind, n, "truncated at the shortest trajectory")
    else:
        lag = S.int("lag", 0, 4)
        for t in tr:
            S.assume(t[0] >= lag + 1)
        e = estimator(S, "Pos_gle", b, tr, d, dt, lag=lag)
        S.eq(e.model.trunc_ind, lag + 1, "number of lags")
    if S.case.ntraj == 1:
        VB = S.vb("gle_estimation").Estimator_gle
        e1 = VB(tr[0][2], S.vb("models").Pos_gle, b, saveall=False, verbose=False, trunc=3 * dt)
        S.true(len(e1.xva_list) == 1, "a single trajectory")
        no_dt = tr[0][2].copy()
        no_dt.attrs = {}
        S.raises(lambda: VB(no_dt, S.vb("models").Pos_gle, b, saveall=False, verbose=False), "no time step")
        S.raises(lambda: VB(tr[0][2].rename({"time": "t"}), S.vb("models").Pos_gle, b, saveall=False, verbose=False), "no time")
        S.raises(lambda: VB(tr[0][2][["x", "v"]].assign_attrs(dt=dt), S.vb("models").Pos_gle, b, saveall=False, verbose=False), "missing observable")


@contract("C12", [E_ + "describe_data", "VolterraBasis/basis/_data_describe.py:sum_describe"], product(ntraj=NT))
def description(S):
    """description of the data over all trajectories: number of points, range and mean"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj)
    e = estimator(S, "Pos_gle", b, tr, d, dt)
    r = e.describe_data()
    S.eq(r.nobs, sum([t[0] for t in tr]), "number of points")
    S.forall([("k", 0, d)], lambda k: S.eq(r.mean[k], wavg(S, tr, lambda i: S.sum(0, tr[i][0], lambda t: tr[i][1]["x"][t, k]) / tr[i][0]), "mean over all points"))
    for i, t in enumerate(tr):
        S.forall([("n", 0, t[0]), ("k", 0, d)], lambda n, k: (
            S.true(r.minmax[0][k] <= t[1]["x"][n, k], "lower bound"), S.true(r.minmax[1][k] >= t[1]["x"][n, k], "upper bound")))
    if not S.symbolic:
        X = S.np.concatenate([t[1]["x"] for t in tr])
        S.allclose(r.minmax[0], X.min(axis=0), "range")
        S.allclose(r.minmax[1], X.max(axis=0), "range")


# ------------------------------------------------------------------ mean force, gram matrices, masses
def tmean(S, tr, f):
    """average over all points of all trajectories of f(i, t)"""
    return wavg(S, tr, lambda i: S.sum(0, tr[i][0], lambda t: f(i, t)) / tr[i][0])


@contract("C13", [E_ + "compute_mean_force", E_ + "_projection_on_basis", F + "solve_linear"], [dict(c, ntraj=n) for c in MC for n in (1, 2)] + [dict(cls="Pos_gle", remove=True, ntraj=3)], trials=3)
def mean_force(S):
    """normal equations: <E_j E_k> c_k = <E_j obs>, averages over all points of all trajectories"""
    cls = S.case.cls
    d, dt, tr, b, ft = setup(S, cls, S.case.remove, S.case.ntraj, nmin=20)
    obs = "v" if cls in ["Pos_gle_overdamped", "Pos_gle_no_vel_basis"] else "a"
    e = estimator(S, cls, b, tr, d, dt)
    m = e.compute_mean_force()
    S.true(m is e.model, "returns the model")
    nf = ft[0].nf
    G = S.v(m.gram_force, "dim_basis", "dim_basis'")
    c = S.v(m.force_coeff, "dim_basis", "dim_x")
    S.shape(G, (nf, nf)), S.shape(c, (nf, d))
    gram = lambda j, k: tmean(S, tr, lambda i, t: ft[i].Ef(t, j) * ft[i].Ef(t, k))
    S.forall([("j", 0, nf), ("k", 0, nf)], lambda j, k: S.eq(G[j, k], gram(j, k), "gram matrix"))
    sc = 1.0 if S.symbolic else 1.0 + S.np.abs(c).max()
    S.forall([("j", 0, nf), ("o", 0, d)], lambda j, o: S.eq(
        S.sum(0, nf, lambda k: G[j, k] * c[k, o]), tmean(S, tr, lambda i, t: ft[i].Ef(t, j) * tr[i][1][obs][t, o]), "normal equations", sc, tol=1e-6))


@contract("C13", [E_ + "compute_mean_force", E_ + "compute_effective_mass", F + "solve_linear"], product(cls=["Pos_gle", "Pos_gle_overdamped", "Pos_gle_const_kernel"]), trials=3, symbolic=False, why="the equations are those of mean_force and masses: rounding on coordinates of very different units")
def mean_force_units(S):
    """the mean force and the mass solve their equations for each coordinate, whatever its unit"""
    np = S.np
    cls = S.case.cls
    obs = "v" if cls == "Pos_gle_overdamped" else "a"
    d, dt, tr = trajs(S, 2, 20, 2)
    unit = np.array([[1e-2, 1e2], [50.0, 2e-2], [1e-6, 1e-6], [1e5, 1e5]])[S.rng.randint(4)]
    for t in tr:
        for c in "xva":
            t[1][c] *= unit
    b = S.vb("basis").LinearFeatures()
    e = estimator(S, cls, b, tr, d, dt)
    c = S.v(e.compute_mean_force().force_coeff, "dim_basis", "dim_x")
    x, y = (np.concatenate([t[1][q] for t in tr]) for q in ("x", obs))
    s, sy = np.sqrt((x ** 2).mean(axis=0)), np.sqrt((y ** 2).mean(axis=0))
    want = np.linalg.solve((x / s).T @ (x / s), (x / s).T @ (y / sy))
    S.allclose(c * s[:, None] / sy, want, "normal equations", scale=1.0, tol=1e-5)
    W = S.v(e.compute_effective_mass().eff_mass, "dim_x'", "dim_x")
    v = np.concatenate([t[1]["v"] for t in tr])
    s = np.sqrt((v ** 2).mean(axis=0))
    S.allclose(((v / s).T @ (v / s) / len(v)) @ (s[:, None] * W * s), np.eye(2), "equipartition", scale=1.0, tol=1e-5)


@contract("C13", [E_ + "compute_gram_force", E_ + "compute_gram_kernel", E_ + "_compute_gram"], [dict(c, ntraj=n, proj=False) for c in MC if c["cls"] != "Pos_gle_hybrid" for n in (1, 2)] + [dict(cls="Pos_gle", remove=False, ntraj=2, proj=True)], trials=3)
def grams(S):
    cls = S.case.cls
    d, dt, tr, b, ft = setup(S, cls, S.case.remove, S.case.ntraj)
    e = estimator(S, cls, b, tr, d, dt)
    e.model.rank_projection = False
    nf, nk = ft[0].nf, ft[0].nk
    G = S.v(e.compute_gram_force().gram_force, "dim_basis", "dim_basis'")
    S.shape(G, (nf, nf))
    S.forall([("j", 0, nf), ("k", 0, nf)], lambda j, k: S.eq(G[j, k], tmean(S, tr, lambda i, t: ft[i].Ef(t, j) * ft[i].Ef(t, k)), "gram matrix of the force"))
    gk = lambda j, k: tmean(S, tr, lambda i, t: S.sum(0, d, lambda g: ft[i].K(t, j, g) * ft[i].K(t, k, g)))
    r = nk
    if S.case.proj:
        r = S.int("rank", 1, 3)
        P = S.arr("P", r, nk)
        e.model.rank_projection = True
        e.model.P_range = S.xr.DataArray(P, dims=["dim_basis", "dim_basis_old"])
        spec = lambda j, k: S.sum(0, nk, lambda p: S.sum(0, nk, lambda q: P[j, p] * gk(p, q) * P[k, q]))
    else:
        spec = gk
    H = S.v(e.compute_gram_kernel().gram_kernel, "dim_basis", "dim_basis'")
    S.shape(H, (r, r))
    S.forall([("j", 0, r), ("k", 0, r)], lambda j, k: S.eq(H[j, k], spec(j, k), "gram matrix of the kernel"))


@contract("C13", [E_ + "compute_effective_mass", E_ + "_compute_square_vel", E_ + "compute_basis_mean", E_ + "_compute_basis_mean"], product(ntraj=NT), trials=4)
def masses(S):
    """mass times <v v> is the identity; averages of the functions"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj, nmin=8)
    e = estimator(S, "Pos_gle", b, tr, d, dt)
    W = S.v(e.compute_effective_mass().eff_mass, "dim_x'", "dim_x")
    S.shape(W, (d, d))
    vv = lambda j, k: tmean(S, tr, lambda i, t: tr[i][1]["v"][t, j] * tr[i][1]["v"][t, k])
    sc = 1.0 if S.symbolic else S.np.abs(W).max()
    S.forall([("j", 0, d), ("k", 0, d)], lambda j, k: S.eq(S.sum(0, d, lambda q: vv(j, q) * W[q, k]), S.ite(S.ceq(j, k), 1, 0), "equipartition", sc))
    n = ft[0].nf
    B = S.v(e.compute_basis_mean(), "dim_basis")
    S.forall([("k", 0, n)], lambda k: S.eq(B[k], tmean(S, tr, lambda i, t: ft[i].Ef(t, k)), "mean of the functions"))
    B = S.v(e.compute_basis_mean(basis_type="kernel"), "dim_basis", "dim_x")
    S.forall([("k", 0, ft[0].nk), ("g", 0, d)], lambda k, g: S.eq(B[k, g], tmean(S, tr, lambda i, t: ft[i].K(t, k, g)), "mean of the functions"))


# ------------------------------------------------------------------ correlations
@contract("C13", E_ + "compute_effective_mass", product(d=[2, 3]), trials=3, symbolic=False, why="proved in masses; here velocities that are hardly correlated, or nearly dependent, on numbers")
def masses_extreme(S):
    np = S.np
    d, N = S.case.d, 400
    q = np.linalg.qr(S.rng.normal(size=(N, d)))[0] * np.sqrt(N)
    L = np.eye(d) + np.tril(S.rng.uniform(0.2, 1.0, (d, d)), -1) * 10 ** S.rng.uniform(-4, -1) if S.rng.randint(3) else np.tril(np.ones((d, d))) - 1e-3 * np.eye(d)
    V = q @ L.T * S.rng.uniform(0.1, 3.0, d)
    ds = S.xr.Dataset({c: (["time", "dim_x"], V) for c in "xva"}, coords={"time": np.arange(N) * 0.1}, attrs={"dt": 0.1})
    e = S.vb("gle_estimation").Estimator_gle(ds, S.vb("models").Pos_gle, S.vb("basis").LinearFeatures(), saveall=False, verbose=False, trunc=0.1)
    W, v2 = S.v(e.compute_effective_mass().eff_mass, "dim_x'", "dim_x"), V.T @ V / N
    S.allclose(W, np.linalg.inv(v2), "inverse of the mean squared velocity", tol=1e-7)
    S.allclose(W @ v2, np.eye(d), "equipartition", tol=1e-7)


def corr(S, tr, f, g, n):
    """weighted average over trajectories of 1/(N-n) sum_t f(i, t) g(i, t+n)"""
    return wavg(S, tr, lambda i: S.sum(0, tr[i][0] - n, lambda t: f(i, t) * g(i, t + n)) / (tr[i][0] - n))


CC = [dict(c, ntraj=2, method="fft", vec=False, second=True) for c in MC] + [dict(cls="Pos_gle", remove=True, ntraj=n, method=me, vec=v, second=s) for n in (1, 2) for me in ("fft", "direct") for v in (False, True) for s in (True, False)]


def prepared(S, cls, remove, ntraj, nmin=7):
    d, dt, tr, b, ft = setup(S, cls, remove, ntraj, nmin=nmin)
    obs = "v" if cls in ["Pos_gle_overdamped", "Pos_gle_no_vel_basis"] else "a"
    lag = S.int("lag", 1, nmin - 1)
    for t in tr:
        S.assume(t[0] >= lag + 1)
    e = estimator(S, cls, b, tr, d, dt, lag=lag)
    if S.symbolic:
        e.model.trunc_ind = lag + 1
    f = S.arr("f", ft[0].nf, d)
    e.model.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_x"))
    e.model.rank_projection = False
    ortho = lambda i, t, o: tr[i][1][obs][t, o] - S.sum(0, ft[0].nf, lambda k: ft[i].Ef(t, k) * f[k, o])
    return d, dt, tr, b, ft, e, lag + 1, ortho


@contract("C15", [E_ + "compute_corrs", E_ + "_correlation_ufunc"], CC, trials=3)
def correlations(S):
    """<E_j(0) E_k(n)>, <E_j(0) y_o(n)>, <dE_j(0) E_k(n)>, <dE_j(0) y_o(n)> with y = observable - mean force"""
    d, dt, tr, b, ft, e, T, ortho = prepared(S, S.case.cls, S.case.remove, S.case.ntraj)
    e.compute_corrs(method=S.case.method, vectorize=S.case.vec, second_order_method=S.case.second)
    nk = ft[0].nk
    BB = S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    BX = S.v(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    S.shape(BB, (nk, nk, T)), S.shape(BX, (nk, d, T))
    S.forall([("j", 0, nk), ("k", 0, nk), ("n", 0, T)], lambda j, k, n: S.eq(
        BB[j, k, n], corr(S, tr, lambda i, t: ft[i].E(t, j), lambda i, t: ft[i].E(t, k), n), "correlation of the features", 1.0))
    S.forall([("j", 0, nk), ("o", 0, d), ("n", 0, T)], lambda j, o, n: S.eq(
        BX[j, o, n], corr(S, tr, lambda i, t: ft[i].E(t, j), lambda i, t: ortho(i, t, o), n), "correlation of the features with the fluctuating observable", 1.0))
    DX = S.v(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    S.shape(DX, (nk, d, T if S.case.second else 1))
    S.forall([("j", 0, nk), ("o", 0, d), ("n", 0, T if S.case.second else 1)], lambda j, o, n: S.eq(
        DX[j, o, n], corr(S, tr, lambda i, t: ft[i].dE(t, j), lambda i, t: ortho(i, t, o), n), "correlation of the derivatives with the fluctuating observable", 1.0))
    if S.case.second:
        DB = S.v(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
        S.shape(DB, (nk, nk, T))
        S.forall([("j", 0, nk), ("k", 0, nk), ("n", 0, T)], lambda j, k, n: S.eq(
            DB[j, k, n], corr(S, tr, lambda i, t: ft[i].dE(t, j), lambda i, t: ft[i].E(t, k), n), "correlation of the derivatives with the features", 1.0))


@contract("C15", E_ + "compute_corrs", product(second=[True, False], ntraj=[1, 2]), trials=3)
def projected(S):
    """caller side of the range projection: P is asked for once, for the correlation at time zero and the given tolerance, and C becomes P C P^T"""
    d, dt, tr, b, ft, e, T, ortho = prepared(S, "Pos_gle", False, S.case.ntraj)
    nk = ft[0].nk
    r = S.int("rank", 1, 3)
    P = S.arr("P", r, nk)
    tol = S.real("tol", 0.1, 0.5)
    asked = []

    def project(*a, **kw):
        if len(a) + len(kw) != 2 or set(kw) - {"rank_tol", "B0"}:
            raise Skip()
        asked.append(a + tuple(kw[k] for k in ("rank_tol", "B0") if k in kw))
        return S.xr.DataArray(P, dims=["dim_basis", "dim_basis_old"])
    e.model.rank_projection = True
    e.model._set_range_projection = project
    e.compute_corrs(rank_tol=tol, second_order_method=S.case.second)
    if not asked:       # done otherwise: left to the contract `projection`
        raise Skip()
    S.eq(asked[0][0], tol, "tolerance")
    B0 = S.v(asked[0][1], "dim_basis'", "dim_basis")
    S.shape(B0, (nk, nk))
    ee = lambda j, k, n: corr(S, tr, lambda i, t: ft[i].E(t, j), lambda i, t: ft[i].E(t, k), n)
    S.forall([("j", 0, nk), ("k", 0, nk)], lambda j, k: S.eq(B0[j, k], ee(j, k, 0), "correlation at time zero"))
    BB = S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    BX = S.v(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    DX = S.v(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    S.shape(BB, (r, r, T)), S.shape(BX, (r, d, T)), S.shape(DX, (r, d, T if S.case.second else 1))
    two = lambda f, a, c, n: S.sum(0, nk, lambda j: S.sum(0, nk, lambda k: P[a, j] * f(j, k, n) * P[c, k]))
    S.forall([("a", 0, r), ("c", 0, r), ("n", 0, T)], lambda a, c, n: S.eq(BB[a, c, n], two(ee, a, c, n), "projected correlation", 10.0))
    S.forall([("a", 0, r), ("o", 0, d), ("n", 0, T)], lambda a, o, n: S.eq(
        BX[a, o, n], S.sum(0, nk, lambda j: P[a, j] * corr(S, tr, lambda i, t: ft[i].E(t, j), lambda i, t: ortho(i, t, o), n)), "projected correlation", 10.0))
    S.forall([("a", 0, r), ("o", 0, d), ("n", 0, T if S.case.second else 1)], lambda a, o, n: S.eq(
        DX[a, o, n], S.sum(0, nk, lambda j: P[a, j] * corr(S, tr, lambda i, t: ft[i].dE(t, j), lambda i, t: ortho(i, t, o), n)), "projected correlation", 10.0))
    if S.case.second:
        DB = S.v(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
        S.shape(DB, (r, r, T))
        de = lambda j, k, n: corr(S, tr, lambda i, t: ft[i].dE(t, j), lambda i, t: ft[i].E(t, k), n)
        S.forall([("a", 0, r), ("c", 0, r), ("n", 0, T)], lambda a, c, n: S.eq(DB[a, c, n], two(de, a, c, n), "projected correlation", 10.0))


@contract("C15", E_ + "compute_corrs", trials=2)
def corrs_need_force(S):
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, 1)
    e = estimator(S, "Pos_gle", b, tr, d, dt, fresh=True)
    S.raises(lambda: e.compute_corrs(), "no correlations before the mean force")


@contract("C13", E_ + "set_zero_force", MC, trials=2)
def zero_force(S):
    """no mean force: one zero per force feature and component of the observable"""
    cls = S.case.cls
    d, dt, tr, b, ft = setup(S, cls, S.case.remove, 1)
    e = estimator(S, cls, b, tr, d, dt)
    e.set_zero_force()
    c = S.v(e.model.force_coeff, "dim_basis", "dim_x")
    S.shape(c, (ft[0].nf, d))
    S.forall([("j", 0, ft[0].nf), ("o", 0, d)], lambda j, o: S.eq(c[j, o], 0, "zero"))


@contract("C12", E_ + "__init__", MC, trials=2)
def observable(S):
    """the observable is the last variable of the model unless another is asked for; the evaluations of the model are exposed"""
    cls = S.case.cls
    d, dt, tr, b, ft = setup(S, cls, S.case.remove, 2)
    e = estimator(S, cls, b, tr, d, dt)
    obs = "v" if cls in ["Pos_gle_overdamped", "Pos_gle_no_vel_basis"] else "a"
    S.true(e.model.L_obs == obs, "observable of the model")
    S.eq(e.model.dim_obs, d, "dimension of the observable")
    S.eq(e.model.dim_x, d, "dimension of the trajectory")
    S.eq(e.model.dt, dt, "time step")
    S.eq(e.dt, dt, "time step")
    other = "x" if cls == "Pos_gle_overdamped" else "v"
    S.true(estimator(S, cls, b, tr, d, dt, L_obs=other).model.L_obs == other, "observable asked for")
    for name in ["force_eval", "pmf_eval", "kernel_eval", "compute_noise", "compute_corrs_w_noise"]:
        S.true(getattr(e, name) == getattr(e.model, name), "the evaluations of the model are exposed")


@contract("C15", "VolterraBasis/models.py:ModelBase._set_range_projection", product(full=[False, True]))
def range_projection(S):
    """P has orthonormal rows, as many as the rank of the matrix, and nothing of the matrix is lost: P^T P A P^T P = A"""
    d = S.int("d", 1, 2)
    b = S.abstract_basis("q", d, nmax=4)
    m = S.vb("models").Pos_gle(b, 0.1, dim_x=d, dim_obs=d, trunc_ind=3)
    n = m.N_basis_elt_kernel
    R = n if S.case.full else S.int("R", 1, 3)
    if not S.case.full:
        S.assume(R < n)
    C = S.psd("C", n, R)
    P = m._set_range_projection(None, S.xr.DataArray(C, dims=("dim_basis'", "dim_basis")))
    S.true(P is m.P_range, "kept")
    P = S.v(P, "dim_basis", "dim_basis_old")
    S.shape(P, (R, n))
    S.forall([("a", 0, R), ("c", 0, R)], lambda a, c: S.eq(S.sum(0, n, lambda j: P[a, j] * P[c, j]), S.ite(a == c, lambda: 1, lambda: 0), "orthonormal rows", 1.0))
    PC = lambda a, k: S.sum(0, n, lambda j: P[a, j] * C[j, k])
    S.forall([("i", 0, n), ("k", 0, n)], lambda i, k: S.eq(S.sum(0, R, lambda a: P[a, i] * PC(a, k)), C[i, k], "nothing lost", 1.0))


@contract("C15", [E_ + "compute_corrs", "VolterraBasis/models.py:ModelBase._set_range_projection"], product(second=[True, False], deficient=[True, False], amp=["one", "small", "uneven"]), trials=3, symbolic=False,
          why="end to end; proved in parts (projected, range_projection)")
def projection(S):
    """range projection: P has orthonormal rows, as many as the rank; correlations become P C P^T; nothing of C is lost"""
    np = S.np
    d = S.int("d", 1, 2)
    d, dt, tr = trajs(S, 2, 14, d)
    sub = S.abstract_basis("q", d, nmax=2)
    n0 = sub.n_output_features_
    amp = np.full(n0, 1e-6) if S.case.amp == "small" else np.ones(n0)
    if S.case.amp == "uneven":
        amp[0] = 1e-4
    sub = Scaled(sub, amp)
    b = Padded(sub, d) if S.case.deficient else sub
    ft = feats(S, "Pos_gle", b, tr, d, False)
    lag = 2
    f = S.arr("f", ft[0].nf, d)
    res = []
    for proj in (False, True):
        e = estimator(S, "Pos_gle", b, tr, d, dt, lag=lag)
        e.model.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_x"))
        e.model.rank_projection = proj
        e.compute_corrs(second_order_method=S.case.second)
        res.append(e)
    e0, e = res
    P = S.v(e.model.P_range, "dim_basis", "dim_basis_old")
    C = S.v(e0.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    rank = np.linalg.matrix_rank(C[:, :, 0])
    S.shape(P, (rank if S.case.deficient else C.shape[0], C.shape[0]))
    S.allclose(P @ P.T, np.eye(P.shape[0]), "orthonormal rows")
    S.allclose(P.T @ (P @ C[:, :, 0] @ P.T) @ P, C[:, :, 0], "nothing lost", scale=np.abs(C).max())
    S.allclose(S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), np.einsum("aj,jkn,bk->abn", P, C, P), "projected correlations")
    S.allclose(S.v(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc"), np.einsum("aj,jon->aon", P, S.v(e0.bkdxcorrw, "dim_basis", "dim_x", "time_trunc")), "projected correlations")
    S.allclose(S.v(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc"), np.einsum("aj,jon->aon", P, S.v(e0.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")), "projected correlations")
    if S.case.second:
        S.allclose(S.v(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"),
                   np.einsum("aj,jkn,bk->abn", P, S.v(e0.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), P), "projected correlations")
    # another tolerance, on the same estimator: as many rows as singular values above it
    sv = np.linalg.svd(C[:, :, 0], compute_uv=False)[:rank]
    if rank > 1 and sv[-1] < 0.9 * sv[-2]:
        e.compute_corrs(rank_tol=0.5 * (sv[-1] + sv[-2]), second_order_method=S.case.second)
        S.shape(S.v(e.model.P_range, "dim_basis", "dim_basis_old"), (rank - 1, C.shape[0]), "singular values above the tolerance")
        S.shape(S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), (rank - 1, rank - 1, C.shape[2]), "singular values above the tolerance")
        e.compute_corrs(second_order_method=S.case.second)
        S.allclose(S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), np.einsum("aj,jkn,bk->abn", P, C, P), "back to the default tolerance")


class Scaled:
    """a basis times an amplitude per function"""
    const_removed = False

    def __init__(self, b, amp):
        self.b, self.amp = b, amp
        self.n_output_features_ = b.n_output_features_
        self.basis, self.deriv, self.hessian = [lambda X, f=f, r=r: f(X) * amp.reshape((-1,) + (1,) * r) for r, f in enumerate([b.basis, b.deriv, b.hessian])]

    def fit(self, x):
        return self


class Padded:
    """a basis with constant functions in front: the features of the kernel are rank deficient"""
    const_removed = False

    def __init__(self, b, d):
        self.b, self.d = b, d
        self.n_output_features_ = b.n_output_features_ + d

    def fit(self, x):
        return self

    def _pad(self, r, v):
        import numpy as np
        return np.concatenate((np.full((r.shape[0], self.d) + r.shape[2:], v), r), axis=1)

    def basis(self, X):
        return self._pad(self.b.basis(X), 1.0)

    def deriv(self, X, deriv_order=1):
        return self._pad(self.b.deriv(X), 0.0)

    def hessian(self, X):
        return self._pad(self.b.hessian(X), 0.0)

    def phi(self, X, p, k):
        return 1.0 if k < self.d else self.b.phi(X, p, k - self.d)

    def dphi(self, X, p, k, e):
        return 0.0 if k < self.d else self.b.dphi(X, p, k - self.d, e)

    def ddphi(self, X, p, k, e, g):
        return 0.0 if k < self.d else self.b.ddphi(X, p, k - self.d, e, g)


# ------------------------------------------------------------------ kernel
METHODS = ["rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def with_corrs(S, T, nmin=8):
    """an estimator holding arbitrary correlations over T times"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, 1, nmin=nmin)
    e = estimator(S, "Pos_gle", b, tr, d, dt)
    nk = ft[0].nk
    e.model.trunc_ind = T
    B, D = S.arr("B", nk, nk, T), S.arr("D", nk, d, T)
    Bd, Dd = S.arr("Bd", nk, nk, T), S.arr("Dd", nk, d, T)
    S.well(B)
    if not S.symbolic:
        Bd *= 0.3
    e.bkbkcorrw = S.xr.DataArray(B, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.dotbkbkcorrw = S.xr.DataArray(Bd, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.bkdxcorrw = S.xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    e.dotbkdxcorrw = S.xr.DataArray(Dd, dims=("dim_basis", "dim_x", "time_trunc"))
    if not S.symbolic and S.rng.randint(2):
        ops = [lambda me=me: e.compute_kernel(method=me) for me in METHODS]
        S.rng.shuffle(ops)
        S.history(ops[:4] + [e.check_volterra_inversion])                       # the same correlations, other methods
        kept = e.bkbkcorrw, e.dotbkbkcorrw, e.bkdxcorrw, e.dotbkdxcorrw
        e.bkbkcorrw, e.dotbkbkcorrw, e.bkdxcorrw, e.dotbkdxcorrw = kept[0] * 2, kept[1] * 1.5, kept[2] * 0.7, kept[3] * 0.6
        S.history(ops + [e.check_volterra_inversion])                           # other correlations
        e.bkbkcorrw, e.dotbkbkcorrw, e.bkdxcorrw, e.dotbkdxcorrw = kept
    return e, d, dt, nk, B, D, Bd, Dd


@contract("C16", E_ + "compute_kernel", product(method=METHODS, k0=[False, True, "zero"]) + [dict(method=me, k0=False, short=True) for me in METHODS], trials=3)
def kernel(S):
    """each method returns the solution of its own discretised equation, labelled with the times where it holds"""
    me = S.case.method
    T = S.int("T", 8, 10) if getattr(S.case, "short", False) else S.int("T", 12, 20)
    e, d, dt, nk, B, D, Bd, Dd = with_corrs(S, T)
    fk = S.vb("fkernel")
    k0 = S.np.zeros((nk, d)) if S.case.k0 == "zero" else S.arr("k0", nk, d)
    m = e.compute_kernel(method=me, k0=k0 if S.case.k0 else None)
    S.true(m.method == me, "method recorded")
    K = S.v(m.kernel, "time_kernel", "dim_basis", "dim_x")
    tk = S.v(m.kernel["time_kernel"])
    if not S.case.k0 and me in ["trapz", "second_kind_rect", "second_kind_trapz"]:
        z = lambda j, o: K[0, j, o]
        S.forall([("j", 0, nk), ("o", 0, d)], lambda j, o: S.eq(S.sum(0, nk, lambda k: B[j, k, 0] * K[0, k, o]), Dd[j, o, 0], "initial value: B(0) K(0) = dD/dt(0)", 1.0))
        k0 = S.lin(B[:, :, 0], Dd[:, :, 0])
    if me in ["rect", "rectangular"]:
        R = fk.kernel_first_kind_rect(B, D, dt)
        n, time, spec = T, (lambda i: i * dt), (lambda i, k, o: R[i, k, o])
    elif me == "midpoint":
        R = fk.kernel_first_kind_midpoint(B, D, dt)
        n, time, spec = S.fdiv(T - 1, 2), (lambda i: (2 * i + 1) * dt), (lambda i, k, o: R[i, k, o])
    elif me == "midpoint_w_richardson":
        # kernel at time 3(2i+1) dt from steps dt and 3 dt, the error of order dt^2 cancels: (9 K_dt - K_3dt)/8
        R = fk.kernel_first_kind_midpoint(B, D, dt)
        R3 = fk.kernel_first_kind_midpoint(B[:, :, ::3], D[:, :, ::3], 3 * dt)
        n = S.fdiv(S.fdiv(T + 2, 3) - 1, 2)
        time = lambda i: 3 * (2 * i + 1) * dt
        spec = lambda i, k, o: (9 * R[3 * i + 1, k, o] - R3[i, k, o]) / 8
    elif me == "trapz":
        R = fk.kernel_first_kind_trapz(k0, B, D, dt)
        n, time = T - 1, (lambda i: i * dt)
        spec = lambda i, k, o: S.ite(S.ceq(i, 0), lambda: k0[k, o], lambda: (R[i - 1, k, o] + 2 * R[i, k, o] + R[i + 1, k, o]) / 4)
    else:
        R = getattr(fk, "kernel_" + me)(k0, B[:, :, 0], Bd, Dd, dt)
        n, time, spec = T, (lambda i: i * dt), (lambda i, k, o: R[i, k, o])
    S.shape(K, (n, nk, d)), S.shape(tk, (n,))
    S.forall([("i", 0, n)], lambda i: S.eq(tk[i], time(i), "times of the kernel"))
    sc = 1.0 if S.symbolic else S.np.abs(S.np.asarray(R)).max()
    S.forall([("i", 0, n), ("k", 0, nk), ("o", 0, d)], lambda i, k, o: S.eq(K[i, k, o], spec(i, k, o), "values of the kernel", sc))


@contract("C16", E_ + "compute_kernel", product(method=["trapz", "second_kind_rect", "second_kind_trapz"], zero=[False, True]), trials=2, symbolic=False, why="a number in place of the matrix of initial values: conversion by f2py")
def kernel_number(S):
    """an initial value given as a number, for one function of one variable"""
    np = S.np
    T = S.int("T", 12, 20)
    tr = trajs(S, 1, 8, 1)
    e = S.vb("gle_estimation").Estimator_gle([t[2] for t in tr[2]], S.vb("models").Pos_gle, S.vb("basis").LinearFeatures(), verbose=False, saveall=False)
    e.model.trunc_ind = T
    B, D, Bd, Dd = S.arr("B", 1, 1, T), S.arr("D", 1, 1, T), 0.3 * S.arr("Bd", 1, 1, T), S.arr("Dd", 1, 1, T)
    S.well(B)
    e.bkbkcorrw, e.dotbkbkcorrw = [S.xr.DataArray(w, dims=("dim_basis'", "dim_basis", "time_trunc")) for w in (B, Bd)]
    e.bkdxcorrw, e.dotbkdxcorrw = [S.xr.DataArray(w, dims=("dim_basis", "dim_x", "time_trunc")) for w in (D, Dd)]
    k0 = 0.0 if S.case.zero else S.real("k0", 0.5, 2.0)
    K = e.compute_kernel(method=S.case.method, k0=k0).kernel.values.copy()
    S.eq(K[0, 0, 0], k0, "initial value", 1.0)
    S.allclose(e.compute_kernel(method=S.case.method, k0=np.array([[k0]])).kernel.values, K, "number or matrix")


@contract("C16", E_ + "compute_kernel", trials=2)
def kernel_errors(S):
    e, d, dt, nk, B, D, Bd, Dd = with_corrs(S, S.int("T", 12, 15))
    S.raises(lambda: e.compute_kernel(method="other"), "unknown method")
    k0 = S.arr("k0", nk, d)
    kept = e.dotbkdxcorrw, e.dotbkbkcorrw
    e.dotbkdxcorrw = None
    for me in ["trapz", "second_kind_rect", "second_kind_trapz"]:
        S.raises(lambda: e.compute_kernel(method=me), "derivatives needed for " + me)
    for me in ["second_kind_rect", "second_kind_trapz"]:
        S.raises(lambda: e.compute_kernel(method=me, k0=k0), "derivatives needed for " + me)
    e.dotbkdxcorrw, e.dotbkbkcorrw = kept[0], None
    for me in ["second_kind_rect", "second_kind_trapz"]:
        S.raises(lambda: e.compute_kernel(method=me, k0=k0), "derivatives needed for " + me)
    e.bkbkcorrw, kept = None, e.bkbkcorrw
    S.raises(lambda: e.compute_kernel(), "correlations needed")
    e.bkbkcorrw, e.bkdxcorrw = kept, None
    S.raises(lambda: e.compute_kernel(), "correlations needed")


@contract("C16", E_ + "compute_kernel", trials=3)
def kernel_default(S):
    """the rectangular inversion is the default one; a second call replaces the kernel of the first"""
    T = S.int("T", 12, 16)
    e, d, dt, nk, B, D, Bd, Dd = with_corrs(S, T)
    m = e.compute_kernel(method="midpoint")
    m = e.compute_kernel()
    S.true(m is e.model, "returns the model")
    S.true(m.method in ("rect", "rectangular"), "method recorded")
    K = S.v(m.kernel, "time_kernel", "dim_basis", "dim_x")
    R = S.vb("fkernel").kernel_first_kind_rect(B, D, dt)
    S.shape(K, (T, nk, d))
    sc = 1.0 if S.symbolic else S.np.abs(S.np.asarray(R)).max()
    S.forall([("i", 0, T), ("k", 0, nk), ("o", 0, d)], lambda i, k, o: S.eq(K[i, k, o], R[i, k, o], "values of the kernel", sc))
    tk = S.v(m.kernel["time_kernel"])
    S.forall([("i", 0, T)], lambda i: S.eq(tk[i], i * dt, "times of the kernel"))


@contract("C16", E_ + "check_volterra_inversion", product(diff=[False, True]), trials=4)
def check_inversion(S):
    """minus the trapezoidal integral of B(n-m) K(m) over m <= n, or its distance to D"""
    T = S.int("T", 6, 9)
    e, d, dt, nk, B, D, Bd, Dd = with_corrs(S, T)
    M = S.int("M", 1, 5)
    S.assume(M <= T)
    e.model.kernel = None
    S.raises(lambda: e.check_volterra_inversion(), "kernel needed")
    K = S.arr("K", M, nk, d)
    e.model.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"))
    r = S.v(e.check_volterra_inversion(return_diff=S.case.diff))
    S.shape(r, (nk, d, T))
    g = lambda n, m, j, o: S.sum(0, nk, lambda k: B[j, k, n - m] * K[m, k, o])
    I = lambda n, j, o: S.ite(n < M, lambda: -dt * S.sum(0, n, lambda m: (g(n, m, j, o) + g(n, m + 1, j, o)) / 2), 0)
    if not S.case.diff:
        S.forall([("n", 0, T), ("j", 0, nk), ("o", 0, d)], lambda n, j, o: S.eq(r[j, o, n], I(n, j, o), "trapezoidal integral", 1.0))
    else:
        S.forall([("n", 0, T), ("j", 0, nk), ("o", 0, d)], lambda n, j, o: S.eq(r[j, o, n], S.abs(I(n, j, o) - D[j, o, n]), "distance to the correlation", 1.0))


@contract("C16", [E_ + "compute_kernel", E_ + "compute_corrs", E_ + "compute_mean_force"], product(method=METHODS, proj=[False, True]), trials=2, symbolic=False,
          why="composition of the contracts of each step, checked end to end on numbers")
def pipeline(S):
    """from the trajectories to the kernel: the labelled kernel solves the labelled Volterra equation"""
    np = S.np
    me = S.case.method
    d, dt, tr = trajs(S, 2, 30, 1)
    sub = S.abstract_basis("q", 1, const_removed=True, nmax=2)
    b = Padded(sub, 1) if S.case.proj else sub
    if not S.case.proj:
        b.drop = 0
        b.const_removed = True
        b.n_output_features_ = sub.n_output_features_
    cls = "Pos_gle" if S.case.proj else "Pos_gle_no_vel_basis"
    e = estimator(S, cls, b, tr, d, dt, lag=14, L_obs="a")
    e.compute_mean_force()
    e.compute_corrs()
    S.true(bool(e.model.rank_projection) == S.case.proj, "projection")
    e.compute_kernel(method=me)
    B = S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    D = S.v(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    Bd = S.v(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    Dd = S.v(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")
    K = S.v(e.model.kernel, "time_kernel", "dim_basis", "dim_x")
    T = B.shape[-1]
    g = lambda Q, n, m: Q[:, :, n - m] @ K[m]
    z = 0 * K[0]
    sc = 1 + np.abs(K).max()
    if me in ["rect", "rectangular"]:
        for i in range(T - 1):
            S.allclose(dt * sum([g(B, i + 1, m) for m in range(i + 1)], z), -D[:, :, i + 1], "first kind equation", scale=sc, tol=1e-6)
    elif me == "midpoint":
        for i in range(K.shape[0]):
            S.allclose(2 * dt * sum([B[:, :, 2 * (i - m) + 1] @ K[m] for m in range(i + 1)], z), -D[:, :, 2 * i + 2], "first kind equation", scale=sc, tol=1e-6)
    elif me == "second_kind_rect":
        for i in range(1, T):
            S.allclose(B[:, :, 0] @ K[i], dt * sum([g(Bd, i, m) for m in range(i)], z) + Dd[:, :, i], "second kind equation", scale=sc, tol=1e-6)
    elif me == "second_kind_trapz":
        for i in range(1, T):
            S.allclose(B[:, :, 0] @ K[i], dt * sum([g(Bd, i, m) * (0.5 if m in (0, i) else 1) for m in range(i + 1)], z) + Dd[:, :, i], "second kind equation", scale=sc, tol=1e-6)
    if me in ["trapz", "second_kind_rect", "second_kind_trapz"]:
        S.allclose(B[:, :, 0] @ K[0], Dd[:, :, 0], "initial value", scale=sc, tol=1e-6)
    S.true(np.all(np.isfinite(K)), "finite kernel")


@contract("C15", E_ + "to_gfpe", product(ntraj=[1, 2]), trials=3)
def gfpe(S):
    """the derivatives of the features become the observable"""
    d, dt, tr, b, ft = setup(S, "Pos_gle_overdamped", False, S.case.ntraj)
    e = estimator(S, "Pos_gle_overdamped", b, tr, d, dt)
    e.model.rank_projection = True
    e.to_gfpe()
    S.true(e.model.L_obs == "dE", "new observable")
    n = ft[0].nk
    S.eq(e.model.dim_obs, n, "dimension of the observable")
    S.true(not e.model.rank_projection, "no projection")
    for i in range(S.case.ntraj):
        r = S.v(e.xva_list[i]["dE"], "time", "dim_dE")
        S.shape(r, (tr[i][0], n))
        S.forall([("t", 0, tr[i][0]), ("k", 0, n)], lambda t, k: S.eq(r[t, k], ft[i].dE(t, k), "derivative of the features"))


@contract("C18", [E_ + "compute_corrs", E_ + "compute_kernel"], [dict(second=True, method="rect"), dict(second=False, method="midpoint"), dict(second=True, method="second_kind_trapz")], trials=3)
def saved_results(S):
    """with saveall, the correlations and the kernel are written as computed, with their times"""
    import os, tempfile
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, 2, nmin=16)
    lag = S.int("lag", 2, 6)
    for t in tr:
        S.assume(t[0] >= lag + 1)
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            e = estimator(S, "Pos_gle", b, tr, d, dt, lag=lag, saveall=True)
            if S.symbolic:
                e.model.trunc_ind = lag + 1     # its own contract: truncation
            e.compute_mean_force()
            e.compute_corrs(second_order_method=S.case.second)
            e.compute_kernel(method=S.case.method)
            c = S.xr.load_dataset(e.corrsfile)
            k = S.xr.load_dataset(e.kernelfile)
        finally:
            os.chdir(here)
    S.allclose(S.v(c["bkbk"], "dim_basis'", "dim_basis", "time_trunc"), S.v(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), "saved correlations")
    S.allclose(S.v(c["bkdx"], "dim_basis", "dim_x", "time_trunc"), S.v(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc"), "saved correlations")
    S.allclose(c["time_trunc"].values, S.np.arange(lag + 1) * dt, "times of the correlations")
    if S.case.second:
        S.allclose(S.v(c["dotbkbk"], "dim_basis'", "dim_basis", "time_trunc"), S.v(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), "saved correlations")
        S.allclose(S.v(c["dotbkdx"], "dim_basis", "dim_x", "time_trunc"), S.v(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc"), "saved correlations")
    S.allclose(S.v(k["kernel"], "time_kernel", "dim_basis", "dim_x"), S.v(e.model.kernel, "time_kernel", "dim_basis", "dim_x"), "saved kernel")
    S.allclose(k["time_kernel"].values, e.model.kernel["time_kernel"].values, "times of the kernel")
    if not S.symbolic:
        S.true(S.np.array_equal(k["kernel"].values, e.model.kernel.transpose(*k["kernel"].dims).values), "saved kernel, to the last digit")
        S.true(S.np.array_equal(c["bkbk"].values, e.bkbkcorrw.transpose(*c["bkbk"].dims).values), "saved correlations, to the last digit")
        S.true(S.np.array_equal(c["bkdx"].values, e.bkdxcorrw.transpose(*c["bkdx"].dims).values), "saved correlations, to the last digit")


@contract("C06", E_ + "compute_projected_corrs", product(method=["rect", "trapz"], ntraj=[1, 2]) + [dict(method="rect", ntraj=3), dict(method="rect", ntraj=2, left="name"), dict(method="trapz", ntraj=2, left="call")], trials=3)
def projected_corrs(S):
    """averages over the trajectories of the correlations with the noise"""
    d, dt, tr, b, ft = setup(S, "Pos_gle", True, S.case.ntraj, nmin=8)
    e = estimator(S, "Pos_gle", b, tr, d, dt, lag=3)
    M = 3
    e.model.force_coeff = S.xr.DataArray(S.arr("f", ft[0].nf, d), dims=("dim_basis", "dim_x"))
    e.model.kernel = S.xr.DataArray(S.arr("K", M + 1, ft[0].nk, d), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": S.np.arange(M + 1) * dt})
    e.model.method = S.case.method
    kw = {"name": {"left_op": "v"}, "call": {"left_op": left}}.get(S.case.left, {})
    t, c = e.compute_projected_corrs(**kw)
    n = M + 1 if S.case.method == "rect" else M
    S.allclose(S.v(t), S.np.arange(n) * dt, "times")
    S.allclose(c, wavg(S, tr, lambda i: e.model.compute_corrs_w_noise(tr[i][2], **kw)[1]), "weighted average")


def left(xva):
    return 2.0 * xva["x"] + xva["v"]
