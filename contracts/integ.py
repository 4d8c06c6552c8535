"""Contracts of the integrators and noise generators (VolterraBasis/gle_integrate.py)."""
from dv.api import contract, product, Skip

F = "VolterraBasis/gle_integrate.py:"
I = F + "Integrator_gle."


def noise_contract(S, g):
    """contract of the constructor of the noise generator, for its callers: the kernel is square and sampled on the times;
    it keeps them and changes nothing else (property C20 is about what it generates)"""
    class Noise:
        def __init__(self, kernel, t, rng=None):
            S.shape(kernel, (t.shape[0], kernel.shape[2], kernel.shape[2]), "noise kernel: square, one matrix per time")
            S.true(t.shape[0] >= 2, "noise kernel: at least two times")
            self.kernel, self.t, self.rng = kernel, t, rng
    S.callee(g, "ColoredNoiseGenerator", Noise)


def setup(S, const=False, nmin=2, dmax=2):
    """an integrator with arbitrary force and kernel coefficients on an arbitrary basis (no noise)"""
    d = S.int("d", 1, dmax)
    dt = S.real("dt", 0.05, 0.3)
    b = S.abstract_basis("q", d, nmax=2)
    n = b.n_output_features_
    nk = d if const else n
    M = S.int("M", nmin, nmin + 4)      # last index of the kernel
    f = S.arr("f", n, d)
    K = S.arr("K", M + 1, nk, d)
    cls = "Integrator_gle_const_kernel" if const else "Integrator_gle"
    g = S.vb("gle_integrate")
    noise_contract(S, g)
    # the noise kernel is irrelevant here: square and diagonal
    cn = S.np.zeros((nk, d))
    it = getattr(g, cls)(None, coeffs_noise_kernel=cn, basis=b, force_coeff=f, kernel=K, dt=dt, verbose=False)
    return it, d, dt, b, n, nk, M, f, K


def reduced(S, E, K, nk, M, dt, m):
    """memory over the m past steps without the current time: trapezoidal rule of E(m-j) K(j), j >= 1"""
    loc = S.min(m, M)
    g = lambda j, l: S.sum(0, nk, lambda k: E(m - j, k) * K[j, k, l])
    return lambda l: dt * S.sum(1, loc, lambda j: g(j, l)) + dt / 2 * g(loc, l)


@contract("C19", [I + "_mem_int_red"], product(const=[False, True], rest=[False, True]))
def past_memory(S):
    """the past within the memory length, also when the last (or another) feature vanishes"""
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    m = S.int("m", 1, 9)
    E = S.arr("E", m, nk)
    if S.case.rest:
        E[m - 1 if S.symbolic or S.rng.randint(2) else S.rng.randint(m), :] = 0
    r = it._mem_int_red(E)
    S.shape(r, (d,))
    spec = reduced(S, lambda t, k: E[t, k], K, nk, M, dt, m)
    S.forall([("l", 0, d)], lambda l: S.eq(r[l], spec(l), "trapezoidal memory of the past", 1.0))


@contract("C19", [I + "basis_vector", F + "Integrator_gle_const_kernel.basis_vector"], product(const=[False, True], proj=[False, True]))
def features(S):
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    x, v = S.arr("x", 1, d), S.arr("v", 1, d)
    E0 = (lambda k: v[0, k]) if S.case.const else (lambda k: S.sum(0, d, lambda e: b.dphi(x, 0, k, e) * v[0, e]))
    r, spec = nk, E0
    if S.case.proj:
        r = S.int("rank", 1, 3)
        P = S.arr("P", r, nk)
        it.rank_projection, it.P_range = True, P
        spec = lambda k: S.sum(0, nk, lambda q: P[k, q] * E0(q))
    bk, E, _ = it.basis_vector(x, v)
    S.shape(bk, (1, n)), S.shape(E, (1, r))
    S.forall([("k", 0, n)], lambda k: S.eq(bk[0, k], b.phi(x, 0, k), "force features"))
    S.forall([("k", 0, r)], lambda k: S.eq(E[0, k], spec(k), "kernel features"))


def slope(S, b, x, v, f, K, dt, d, n, nk, const):
    """acceleration at (x, v): force + noise - memory, the memory interpolated between the last and current times"""
    def a(rmi, fr, alpha, lE, lr, l):
        E = (lambda k: v[0, k]) if const else (lambda k: S.sum(0, d, lambda e: b.dphi(x, 0, k, e) * v[0, e]))
        last = lr[l] + dt / 2 * S.sum(0, nk, lambda k: lE[k] * K[0, k, l])
        now = rmi[l] + dt / 2 * S.sum(0, nk, lambda k: E(k) * K[0, k, l])
        return S.sum(0, n, lambda k: b.phi(x, 0, k) * f[k, l]) + fr[l] - alpha * last - (1 - alpha) * now
    return a


@contract("C19", [I + "_f_rk", F + "Integrator_gle_const_kernel._f_rk"], product(const=[False, True]))
def right_hand_side(S):
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    x, v, rmi, fr, lr, lE = S.arr("x", 1, d), S.arr("v", 1, d), S.arr("rmi", d), S.arr("fr", d), S.arr("lr", d), S.arr("lE", nk)
    al = S.real("alpha", 0.0, 1.0)
    dx, dv = it._f_rk(x, v, rmi, fr, al, lE, lr)
    S.shape(dx, (1, d)), S.shape(dv, (1, d))
    a = slope(S, b, x, v, f, K, dt, d, n, nk, S.case.const)
    S.forall([("l", 0, d)], lambda l: (S.eq(dx[0, l], v[0, l], "velocity"), S.eq(dv[0, l], a(rmi, fr, al, lE, lr, l), "acceleration", 1.0)))


@contract("C19", [I + "_rk_step"], product(const=[False, True]))
def rk4(S):
    """classical Runge-Kutta step of the right hand side, memory weights 1, 1/2, 1/2, 0"""
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    x, v, rmi, fr, lr, lE = S.arr("x", 1, d), S.arr("v", 1, d), S.arr("rmi", d), S.arr("fr", d), S.arr("lr", d), S.arr("lE", nk)
    k = []
    X, V = x, v
    for al, h in [(1, dt / 2), (S.half, dt / 2), (S.half, dt), (0, None)]:
        q = it._f_rk(X, V, rmi, fr, al, lE, lr)
        k.append(q)
        if h is not None:
            X, V = x + q[0] * h, v + q[1] * h
    nx, nv, na = it._rk_step(x, v, rmi, fr, lE, lr)
    S.shape(nx, (1, d)), S.shape(nv, (1, d))
    S.forall([("l", 0, d)], lambda l: (
        S.eq(nx[0, l], x[0, l] + dt / 6 * (k[0][0][0, l] + 2 * k[1][0][0, l] + 2 * k[2][0][0, l] + k[3][0][0, l]), "position", 1.0),
        S.eq(nv[0, l], v[0, l] + dt / 6 * (k[0][1][0, l] + 2 * k[1][1][0, l] + 2 * k[2][1][0, l] + k[3][1][0, l]), "velocity", 1.0),
        S.eq(na[0, l] * dt, nv[0, l] - v[0, l], "mean acceleration", 1.0)))


@contract("C19", [I + "run"], product(const=[False, True], init=[False, True], noise=[False, True]), trials=5, symbolic=False,
          why="whole trajectory; proved as one step (run_steps) and what a step is")
def run(S):
    """the trajectory of run() is the iteration of the Runge-Kutta step with the memory of all its past"""
    np = S.np
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    T = S.int("T", 5, 12)
    xi = S.arr("xi", T, d)
    it.noise_generator = Fixed(xi)
    n0 = S.int("n0", 1, 5) if S.case.init else 1
    S.assume(n0 <= T)
    x0 = None
    X, V = np.zeros((T, d)), np.zeros((T, d))
    if S.case.init:
        X[:n0], V[:n0] = S.arr("x0", n0, d), S.arr("v0", n0, d)
        x0 = S.xr.Dataset({"x": (["time", "dim_x"], X[:n0].copy()), "v": (["time", "dim_x"], V[:n0].copy())}, coords={"time": np.arange(n0) * dt}, attrs={"dt": dt})
    # an integrator that has already run, also from other initial conditions
    go = lambda: it.run(T, x0=x0, set_noise_to_zero=not S.case.noise)
    it.noise_generator = Fixed(S.arr("another", T, d))
    S.history([go, lambda: it.run(T - 1)], [] if x0 is None else [x0["x"].values, x0["v"].values])
    first = it.run(T)
    kept = S.snapshot(first)
    it.noise_generator = Fixed(xi)
    tr = go()
    S.same(first["x"].values, kept["x"].values, "the trajectory of another run is not altered")
    w = xi if S.case.noise else 0 * xi
    E = np.zeros((T, nk))
    feat = lambda t: V[t] if S.case.const else np.array([sum(b.dphi(X, t, k, e) * V[t, e] for e in range(d)) for k in range(nk)])
    for t in range(n0):
        E[t] = feat(t)
    past = lambda m: np.array([reduced(S, lambda t, k: E[t, k], K, nk, M, dt, m)(l) for l in range(d)]) if m > 0 else np.zeros(d)
    acc = lambda x, v, rmi, fr, al, lE, lr: np.array([slope(S, b, x, v, f, K, dt, d, n, nk, S.case.const)(rmi, fr, al, lE, lr, l) for l in range(d)])[None]
    for t in range(n0, T):
        lr, rmi = past(t - 1), past(t)
        x, v = X[t - 1 : t], V[t - 1 : t]
        k1 = v, acc(x, v, rmi, w[t], 1.0, E[t - 1], lr)
        x2, v2 = x + k1[0] * dt / 2, v + k1[1] * dt / 2
        k2 = v2, acc(x2, v2, rmi, w[t], 0.5, E[t - 1], lr)
        x3, v3 = x + k2[0] * dt / 2, v + k2[1] * dt / 2
        k3 = v3, acc(x3, v3, rmi, w[t], 0.5, E[t - 1], lr)
        x4, v4 = x + k3[0] * dt, v + k3[1] * dt
        k4 = v4, acc(x4, v4, rmi, w[t], 0.0, E[t - 1], lr)
        X[t] = (x + dt * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]) / 6)[0]
        V[t] = (v + dt * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1]) / 6)[0]
        E[t] = feat(t)
    S.allclose(S.v(tr["x"], "time", "dim_x"), X, "positions", tol=1e-9)
    S.allclose(S.v(tr["v"], "time", "dim_x"), V, "velocities", tol=1e-9)
    S.allclose(tr["time"].values, (n0 - 1 + np.arange(T)) * dt, "times")
    S.eq(tr.attrs["dt"], dt, "time step")


@contract("C19", [I + "run"], product(const=[False, True], init=[False, True], noise=[False, True]), concrete=False)
def run_steps(S):
    """run() makes one (proved) step per time, from the last point, with the noise of that time and the memory of all the past, and keeps
    what it returns, whatever that is"""
    np = S.np
    it, d, dt, b, n, nk, M, f, K = setup(S, S.case.const)
    T = S.int("T", 1)
    xi = S.arr("xi", T, d)
    it.noise_generator = Fixed(xi)
    n0, x0 = 1, None
    if S.case.init:
        n0 = S.int("n0", 1)
        S.assume(n0 <= T)
        a, w = S.arr("x0", n0, d), S.arr("v0", n0, d)
        x0 = S.xr.Dataset({"x": (["time", "dim_x"], a), "v": (["time", "dim_x"], w)}, coords={"time": np.arange(n0) * dt}, attrs={"dt": dt})
    NX, NV, NA = S.arr("nx", T, 1, d), S.arr("nv", T, 1, d), S.arr("na", T, 1, d)
    calls = S.spied(it, "_rk_step", lambda q: (NX[q], NV[q], NA[q]), replay_as="run")
    tr = it.run(T, x0=x0, set_noise_to_zero=not S.case.noise)
    X, V = S.v(tr["x"], "time", "dim_x"), S.v(tr["v"], "time", "dim_x")
    S.shape(X, (T, d)), S.shape(V, (T, d))
    S.eq(tr.attrs["dt"], dt, "time step")
    S.forall([("t", 0, T)], lambda t: S.eq(tr["time"].values[t], (n0 - 1 + t) * dt, "times"))
    if S.case.init:
        S.forall([("t", 0, n0), ("l", 0, d)], lambda t, l: (S.eq(X[t, l], a[t, l], "given positions"), S.eq(V[t, l], w[t, l], "given velocities")))
    else:
        S.forall([("l", 0, d)], lambda l: (S.eq(X[0, l], 0, "from rest at the origin"), S.eq(V[0, l], 0, "from rest at the origin")))
    S.forall([("t", n0, T), ("l", 0, d)], lambda t, l: (S.eq(X[t, l], NX[t - n0, 0, l], "position after a step"), S.eq(V[t, l], NV[t - n0, 0, l], "velocity after a step")))
    x, v, rmi, fr, lE, lr = calls.args("x", "v", "rmi", "fr", "last_E", "last_rmi")
    E = lambda t, k: V[t, k] if S.case.const else S.sum(0, d, lambda e: b.dphi(X, t, k, e) * V[t, e])
    # features of a time, whether it is an initial one or the result of a step
    past = lambda m: reduced(S, E, K, nk, M, dt, m)

    def step(t, l):
        q = t - n0
        S.eq(x(q, 0, l), X[t - 1, l], "the step starts at the last position")
        S.eq(v(q, 0, l), V[t - 1, l], "the step starts at the last velocity")
        S.eq(fr(q, l), xi[t, l] if S.case.noise else 0, "noise of that time")
        S.eq(rmi(q, l), past(t)(l), "memory of the past")
        S.eq(lr(q, l), S.ite(t >= 2, lambda: past(t - 1)(l), lambda: 0), "memory at the last time")
    S.forall([("t", n0, T), ("l", 0, d)], step)
    S.forall([("t", n0, T), ("k", 0, nk)], lambda t, k: S.eq(lE(t - n0, k), E(t - 1, k), "features of the last time"))


class Fixed:
    def __init__(self, xi):
        self.xi = xi

    def generate(self, size):
        return self.xi[:size]


@contract("C19", [I + "__init__", I + "_copy_from_estimator"], product(trunc=[False, True]), trials=4)
def from_model(S):
    """an integrator built on a model uses its force, its (truncated) kernel and its time step"""
    d, dt = S.int("d", 1, 2), S.real("dt", 0.05, 0.3)
    b = S.abstract_basis("q", d, nmax=2)
    n = b.n_output_features_
    M = S.int("M", 3, 6)
    m = S.vb("models").Pos_gle_overdamped(b, dt, dim_x=d, dim_obs=d, trunc_ind=M + 1)
    f, K = S.arr("f", n, d), S.arr("K", M + 1, n, d)
    m.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_x"))
    m.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": S.np.arange(M + 1) * dt})
    noise_contract(S, S.vb("gle_integrate"))
    T = M + 1
    kw = {}
    if S.case.trunc:
        T = S.int("W", 2, 4)
        S.assume(T <= M + 1)
        kw["trunc_kernel"] = T
    cn = S.arr("cn", n, d)
    it = S.vb("gle_integrate").Integrator_gle(m, coeffs_noise_kernel=cn, verbose=False, **kw)
    N = it.noise_generator
    S.shape(N.kernel, (T, d, d), "noise kernel")
    S.forall([("i", 0, T), ("p", 0, d), ("l", 0, d)], lambda i, p, l: S.eq(N.kernel[i, p, l], S.sum(0, n, lambda k: cn[k, p] * K[i, k, l]), "correlation of the noise"))
    S.shape(N.t, (T,), "times of the noise kernel")
    S.forall([("i", 0, T)], lambda i: S.eq(N.t[i], i * dt, "times of the noise kernel"))
    S.eq(it.dt, dt, "time step")
    S.eq(it.trunc_kernel, T, "length of the memory")
    S.shape(it.kernel, (T, n, d))
    S.forall([("i", 0, T), ("k", 0, n), ("l", 0, d)], lambda i, k, l: S.eq(it.kernel[i, k, l], K[i, k, l], "kernel"))
    S.forall([("k", 0, n), ("l", 0, d)], lambda k, l: S.eq(it.force_coeff[k, l], f[k, l], "force"))


@contract("C19", [I + "initial_conditions"], product(many=[False, True]), trials=10)
def initial_conditions(S):
    """a window of n_mem + 1 consecutive points of one of the trajectories, times starting at zero"""
    np = S.np
    it, d, dt, b, n, nk, M, f, K = setup(S)
    nm = S.int("nm", 0, 3)
    tr = []
    for i in range(2 if S.case.many else 1):
        N = S.int("N%d" % i, 5, 9)
        S.assume(N >= nm + 1)
        # which and row say where a point comes from
        tr.append(S.xr.Dataset({"x": (["time", "dim_x"], S.arr("x%d" % i, N, d)), "v": (["time", "dim_x"], S.arr("v%d" % i, N, d)), "which": (["time"], np.zeros(N) + i), "row": (["time"], np.arange(N))},
                               coords={"time": 3 + np.arange(N) * dt}, attrs={"dt": dt}))
    before = [S.snapshot(t) for t in tr]
    S.history([lambda: it.initial_conditions(tr if S.case.many else tr[0], n_mem=1)])
    r = it.initial_conditions(tr if S.case.many else tr[0], n_mem=nm)
    S.shape(r["x"], (nm + 1, d)), S.shape(r["v"], (nm + 1, d))
    S.forall([("i", 0, nm + 1)], lambda i: S.eq(r["time"].values[i], i * dt, "times from zero"))
    src = tr[1] if r["which"].values[0] == 1 else tr[0]
    p = r["row"].values[0]
    X, V, x, v = src["x"].values, src["v"].values, r["x"].values, r["v"].values
    S.true(S.and_(p >= 0, p + nm < X.shape[0]), "inside the trajectory")
    S.forall([("i", 0, nm + 1), ("l", 0, d)], lambda i, l: (S.eq(x[i, l], X[p + i, l], "consecutive positions"), S.eq(v[i, l], V[p + i, l], "the velocities of these points")))
    for t, u in zip(tr, before):
        S.same(t["time"].values, u["time"].values, "the trajectory is not altered")
        S.same(t["x"].values, u["x"].values, "the trajectory is not altered")


# ------------------------------------------------------------------ noise
KL = F + "KarhunenLoeveNoiseGenerator."


@contract("C20", KL + "generate_stationary_covariancematrix", product(back=[False, True, "zero"]))
def toeplitz(S):
    """cov(m, n) = k(m-n) for m >= n, and the backward kernel (by default the mirror image) for m < n"""
    N = S.int("N", 1, 8)
    k = S.arr("k", N)
    S.assume(N >= 2)
    bw = S.arr("bw", N - 1)
    if S.case.back == "zero":       # no correlation with the past is not no backward kernel
        bw = S.np.zeros((N - 1,))
    C = S.vb("gle_integrate").KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k, backward_kernel=bw if S.case.back else None)
    S.shape(C, (N, N))
    S.forall([("m", 0, N), ("n", 0, N)], lambda m, n: S.eq(
        C[m, n], S.ite(m >= n, lambda: k[m - n], lambda: (bw[N - 1 - (n - m)] if S.case.back else k[n - m])), "stationary covariance"))


def linear_image(S, generate, probe=None):
    """the matrix of the linear map from the white noise that ``generate(rng)`` asks for, in the order it asks, to what it returns"""
    np = S.np
    sizes = []

    def dry(size=None, **kw):
        sizes.append(int(np.prod(size)))
        return np.zeros(size)
    zero = generate(dry)
    S.allclose(zero, 0.0 * zero, "no noise without white noise")
    n = sum(sizes)
    white = []

    def play(w):
        pos = [0]

        def rng(size=None, **kw):
            m = int(np.prod(size))
            part = w[pos[0] : pos[0] + m]
            pos[0] += m
            return part.reshape(size).copy()
        return rng
    L = np.array([generate(play(e)).ravel() for e in np.eye(n)]).T
    for _ in range(2):
        w = S.rng.uniform(-1, 1, n)
        S.allclose(generate(play(w)).ravel(), L @ w, "linear in the white noise")
    S.true(bool(np.all(np.isfinite(L))), "finite noise")
    return L


@contract("C20", [KL + "__init__", KL + "generate"], product(full=[False, True]), trials=4)
def karhunen_loeve_factors(S):
    """any covariance, of any rank: the noise is the image L w of the white noise w, L L^T is dt times the covariance; a shorter noise is its beginning"""
    n = S.int("n", 1, 6)
    R = n
    if not S.case.full:
        R = S.int("R", 1, 4)
        S.assume(R < n)
    dt = S.real("dt", 0.05, 0.5)
    C = S.psd("C", n, R)
    box, asked = [], []

    def rng(*a, **kw):
        if len(a) + len(kw) != 1 or set(kw) - {"size"}:
            raise Skip()
        asked.append((a + tuple(kw.values()))[0])
        return box[0]
    g = S.vb("gle_integrate").KarhunenLoeveNoiseGenerator(C, dt, rng=rng)

    def image(w, **kw):
        box[:] = [w]
        r = g.generate(**kw)
        if not (len(asked) == 1 and S.known(asked.pop(), n)):     # drawn otherwise: left to the contract `karhunen_loeve`
            raise Skip()
        return r
    unit = lambda m: image(S.np.where(S.np.arange(n) == m, 1.0, 0.0))
    def cov(i, j):
        S.eq(S.sum(0, n, lambda m: (lambda r: r[i] * r[j])(unit(m))), dt * C[i, j], "covariance", 1.0)
    S.forall([("i", 0, n), ("j", 0, n)], cov)
    w = S.arr("w", n)
    r = image(w)
    S.shape(r, (n,))
    S.forall([("i", 0, n)], lambda i: S.eq(r[i], S.sum(0, n, lambda m: unit(m)[i] * w[m]), "linear in the white noise", 1.0))
    k = S.int("k", 1, 4)
    S.assume(k <= n)
    q = image(w, size=k)
    S.shape(q, (k,))
    S.forall([("i", 0, k)], lambda i: S.eq(q[i], r[i], "first points"))
    S.raises(lambda: g.generate(n + 1), "no longer than the covariance")


@contract("C20", [KL + "__init__", KL + "generate"], product(kind=["definite", "repeated", "identity", "circulant", "constant", "rank1", "cosine"]), symbolic=False, why="end to end; the factors are proved in karhunen_loeve_factors", trials=10)
def karhunen_loeve(S):
    """the noise is a linear image of white noise, with covariance dt times the given matrix, whatever the multiplicities of its
    eigenvalues and its rank"""
    np = S.np
    n = S.int("n", 1, 7)
    dt = S.real("dt", 0.05, 0.5)
    A = S.arr("A", n, n)
    k = S.case.kind
    if k == "definite":
        C = A @ A.T + 0.1 * np.diag(np.arange(1, n + 1))
    elif k == "repeated":
        C = np.eye(n) * S.real("s", 0.5, 3.0) + np.ones((n, n))
    elif k == "identity":
        C = S.real("s", 0.01, 3.0) * np.eye(n)
    elif k == "circulant":
        h = S.arr("h", n)
        C = np.array([[sum(h[i] * h[(i + m - q) % n] for i in range(n)) for q in range(n)] for m in range(n)])
    elif k == "constant":
        C = S.real("s", 0.5, 3.0) * np.ones((n, n))
    elif k == "rank1":
        C = np.outer(A[0], A[0])
    else:
        m = np.arange(n)
        C = np.cos(S.real("om", 0.1, 3.0) * (m[:, None] - m[None, :]))
    unit = 10.0 ** -S.rng.choice([0, 0, 6, 10])      # whatever the unit of the noise
    C = unit * C
    C0 = C.copy()
    box = []
    g = S.vb("gle_integrate").KarhunenLoeveNoiseGenerator(C, dt, rng=lambda *a, **kw: box[0](*a, **kw))

    def generate(size):
        def f(rng):
            box[:] = [rng]
            return g.generate() if size is None else g.generate(size)
        return f
    L = linear_image(S, generate(None))
    S.shape(L, (n, L.shape[1]), "one noise per time")
    S.allclose(L @ L.T / unit, dt * C0 / unit, "covariance", tol=1e-6)
    m = S.int("m", 1, n, strict=True)
    Lm = linear_image(S, generate(m))
    S.shape(Lm, (m, Lm.shape[1]), "one noise per time")
    S.allclose(Lm @ Lm.T / unit, dt * C0[:m, :m] / unit, "covariance of the first points", tol=1e-6)
    box[:] = [lambda size: np.zeros(size)]
    S.raises(lambda: g.generate(n + 1), "no longer than the covariance")


@contract("C20", [F + "ft", F + "ift", F + "ColoredNoiseGenerator.__init__", F + "ColoredNoiseGenerator.generate"],
          product(kind=["periodic", "decaying", "white"], size=["short", "long"]), symbolic=False, why="end to end; the filter is proved in colored_filter", trials=6)
def colored(S):
    """the noise of any number of points is a linear image of white noise, with independent components; each is stationary, the
    first and last points included; its covariance, folded on the symmetrised time grid (of 2n-1 points), is the kernel; it is the
    kernel itself when the kernel decays before the end of the grid"""
    np = S.np
    k = S.case.kind
    n, d, dt = S.int("n", 2 if k != "decaying" else 30, 7 if k != "decaying" else 36), S.int("d", 1, 2), S.real("dt", 0.05, 0.5)
    t = np.arange(n) * dt
    P = 2 * n - 1
    K = np.zeros((n, d, d))
    for i in range(d):
        if k == "white":
            K[0, i, i] = S.real("a%d" % i, 0.5, 2.0)
        elif k == "decaying":
            K[:, i, i] = S.real("a%d" % i, 0.5, 2.0) * np.exp(-S.real("b%d" % i, 0.8, 2.0) * np.arange(n))
        else:  # any kernel that is a covariance on the periodic time grid
            h = S.arr("h%d" % i, P)
            h = np.array([0.5 * (h[q] + h[-q % P]) for q in range(P)])
            K[:, i, i] = [sum(h[m] * h[(m + q) % P] for m in range(P)) for q in range(n)]
    box = []
    tt = t[:, None] if S.int("column", 0, 1) else t
    K0 = K.copy()
    G = S.vb("gle_integrate").ColoredNoiseGenerator(K, tt, rng=lambda *a, **kw: box[0](*a, **kw))
    size = S.int("size", 1, n, strict=True) if S.case.size == "short" else S.int("size", P, P + 4)

    def generate(rng):
        box[:] = [rng]
        r = G.generate(size)
        S.shape(r, (size, d), "one noise per time and component")
        return r
    L = linear_image(S, generate).reshape(size, d, -1)
    C = np.einsum("iaw,jbw->iajb", L, L)
    tol = 2e-6
    for a in range(d):
        for b in range(d):
            c = C[:, a, :, b]
            if a != b:
                S.allclose(c, 0.0 * c, "independent components", tol=tol)
                continue
            S.allclose(c[1:, 1:], c[:-1, :-1], "stationary", tol=tol)
            S.allclose(c, c.T, "symmetric", tol=tol)
            cov = np.zeros(P + 1)
            cov[: min(size, P + 1)] = c[0, : P + 1]
            if k != "periodic":
                q = min(size, n)
                S.allclose(cov[:q], K0[:q, a, a], "covariance of a kernel that decays", tol=tol)
            if size >= P:
                fold = np.array([cov[q] + cov[P - q] for q in range(1, P)])
                S.allclose(cov[0], K0[0, a, a], "variance", tol=tol)
                S.allclose(fold[: n - 1], K0[1:, a, a], "covariance folded on the time grid", tol=tol)
                S.allclose(fold[n - 1 :], K0[:0:-1, a, a], "covariance folded on the time grid", tol=tol)


@contract("C20", [F + "ft", F + "ift", F + "ColoredNoiseGenerator.__init__", F + "ColoredNoiseGenerator.generate"],
          product(kind=["periodic", "decaying", "white"], size=["short", "long"]), concrete=False)
def colored_filter(S):
    """any kernel that is a covariance on the symmetrised time grid (assumed), components and sizes: each component of the noise is a white
    noise filtered by the root of the kernel, centred, by the same filter at all the points"""
    np = S.np
    n, d, dt = S.int("n", 2), S.int("d", 1), S.real("dt", 0.05, 0.5)
    t = np.arange(n) * dt
    P = 2 * n - 1
    K = S.arr("K", n, d, d)
    root = S.root("root", P, 1, lambda a, q: K[S.ite(q < n, q, P - q), a, a])
    G = S.vb("gle_integrate").ColoredNoiseGenerator(K, t[:, None] if S.case.kind == "white" else t, rng=S.white("w", "colored"))
    size = S.int("size", 1)
    if S.case.size == "short":
        S.assume(size <= n)
    else:
        S.assume(size >= P)
    r = G.generate(size)
    S.shape(r, (size, d), "one noise per time and component")
    w = S.arr("w", d, size + P - 1)
    S.forall([("i", 0, size), ("a", 0, d)], lambda i, a: S.eq(
        r[i, a], S.sum(0, P, lambda m: root(a, S.ite(m < n - 1, m + n, m - n + 1)) * w[a, i + P - 1 - m]), "filtered white noise", 1.0))


@contract("C20", [F + "ft", F + "ift"], trials=8)
def fourier_pair(S):
    """ift inverts ft for any time grid"""
    np = S.np
    n, dt, t0 = S.int("n", 3, 12), S.real("dt", 0.05, 0.5), S.real("t0", -1.0, 1.0)
    t = t0 + np.arange(n) * dt
    f = S.arr("f", n)
    f0 = f.copy()
    m = S.vb("gle_integrate")
    g, w = m.ft(f, t)
    S.fourier(g, w, f0, t, "Fourier integral")
    S.allclose(np.real(m.ift(g.copy(), w, t)), f0, "inverse transform")
