"""Contracts of the preparation of trajectories (VolterraBasis/__init__.py)."""
from dv.api import contract, product

F = "VolterraBasis/__init__.py:"


def raw(S, cols=("x",), nmin=4, extra=0):
    """a labelled trajectory of N points in dimension d"""
    N = S.int("N", nmin, nmin + 8)
    d = S.int("d", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    A = {c: S.arr(c, N, d, ints=True) for c in cols}
    ds = S.xr.Dataset({c: (["time", "dim_x"], A[c]) for c in cols}, coords={"time": S.np.arange(N) * dt}, attrs={"dt": dt})
    return N, d, dt, A, ds


@contract("C11", F + "xframe", product(flat=[False, True], v=[False, True], a=[False, True], fix=[False]))
def xframe(S):
    """labels: x(time, dim_x), time, dt; a one dimensional series becomes a single column"""
    N = S.int("N", 2, 9)
    d = 1 if S.case.flat else S.int("d", 1, 6)
    shp = (N,) if S.case.flat else (N, d)
    at = (lambda A, n, k: A[n]) if S.case.flat else (lambda A, n, k: A[n, k])
    x, v, a = S.arr("x", *shp, ints=True), S.arr("v", *shp, ints=True), S.arr("a", *shp, ints=True)
    t = S.arr("t", N)
    if S.case.a and not S.case.v:
        return
    ds = S.vb().xframe(x, t, v=v if S.case.v else None, a=a if S.case.a else None)
    for name, A, on in [("x", x, True), ("v", v, S.case.v), ("a", a, S.case.a)]:
        if on:
            w = S.v(ds[name], "time", "dim_x")
            S.shape(w, (N, d))
            S.forall([("n", 0, N), ("k", 0, d)], lambda n, k: S.eq(w[n, k], at(A, n, k), "values of " + name))
        else:
            S.true(name not in ds, "no variable " + name)
    tt = S.v(ds["time"])
    S.forall([("n", 0, N)], lambda n: S.eq(tt[n], t[n], "time labels"))
    S.eq(ds.attrs["dt"], t[1] - t[0], "time step")


@contract("C11", F + "xframe", product(flat=[False, True]), trials=3)
def xframe_lists(S):
    """lists are accepted as positions and times"""
    n = 3
    x, t = S.arr("x", n, ints=True) if S.case.flat else S.arr("x", n, 2, ints=True), S.arr("t", n)
    xs = [x[i] for i in range(n)] if S.case.flat else [[x[i, k] for k in range(2)] for i in range(n)]
    ds = S.vb().xframe(xs, [t[i] for i in range(n)])
    w, tt = S.v(ds["x"], "time", "dim_x"), S.v(ds["time"])
    S.shape(w, (n, 1 if S.case.flat else 2)), S.shape(tt, (n,))
    for i in range(n):
        S.eq(tt[i], t[i], "time labels")
        for k in range(1 if S.case.flat else 2):
            S.eq(w[i, k], x[i] if S.case.flat else x[i, k], "values of x")
    S.eq(ds.attrs["dt"], t[1] - t[0], "time step")


@contract("C11", F + "xframe", product(given=[False, True], flat=[False, True]))
def xframe_fix_time(S):
    """fix_time: regular times n dt, with dt given or the first step rounded to round_time"""
    N = S.int("N", 2, 9)
    d = 1 if S.case.flat else S.int("d", 1, 6)
    x, t = S.arr("x", N, ints=True) if S.case.flat else S.arr("x", N, d, ints=True), S.arr("t", N)
    t[1] = t[0] + S.real("step", 0.01, 1.0)
    r = S.real("r", 1e-3, 1e-2)
    dt = S.real("dt", 0.01, 1.0)
    S.assume(r > 0)
    S.assume(dt > 0)
    ds = S.vb().xframe(x, t, fix_time=True, round_time=r, dt=dt) if S.case.given else S.vb().xframe(x, t, fix_time=True, round_time=r)
    h = ds.attrs["dt"]
    tt = S.v(ds["time"])
    S.shape(tt, (N,))
    w = S.v(ds["x"], "time", "dim_x")
    S.shape(w, (N, d))
    S.forall([("n", 0, N), ("k", 0, d)], lambda n, k: S.eq(w[n, k], x[n] if S.case.flat else x[n, k], "values of x"))
    S.forall([("n", 0, N)], lambda n: S.eq(tt[n], n * h, "regular times"))
    if S.case.given:
        S.eq(h, dt, "given time step")
    else:
        S.integer(h / r, "rounded time step")
        S.le(S.abs(h - (t[1] - t[0])), r * S.half, "nearest rounding")


def wrapped(S, x, n, k, jump, thr):
    """difference x(n)-x(n-1), brought back by one period beyond the threshold"""
    d = x[n, k] - x[n - 1, k]
    e = d + S.ite(d > -thr, 0, jump)
    return e - S.ite(e < thr, 0, jump)


@contract("C11", F + "compute_va", product(jumps=[False, True, "default"], lamb=["half", "any"]))
def compute_va(S):
    """v = (lamb forward + (1-lamb) backward difference)/dt, a = second difference/dt^2, on the interior points"""
    N, d, dt, A, ds = raw(S, ("x",), 3)
    x = A["x"]
    kw = {}
    diff = lambda n, k: x[n, k] - x[n - 1, k]
    if S.case.jumps == "default":
        kw.update(correct_jumps=True)
        x *= 9
        diff = lambda n, k: wrapped(S, x, n, k, 2 * S.pi, 7 * S.pi / 4)
    elif S.case.jumps:
        jump, thr = S.real("jump", 1.0, 2.0), S.real("thr", 0.3, 0.9)
        S.assume(thr > 0)
        S.assume(jump > 0)
        kw.update(correct_jumps=True, jump=jump, jump_thr=thr)
        diff = lambda n, k: wrapped(S, x, n, k, jump, thr)
    else:
        x *= 9      # jumps are kept
    lam = S.half
    if S.case.lamb == "any":
        lam = S.real("lam", 0.0, 1.0)
        kw.update(lamb_finite_diff=lam)
    r = S.vb().compute_va(ds, **kw)
    out = {c: S.v(r[c], "time", "dim_x") for c in "xva"}
    tt = S.v(r["time"])
    for c in "xva":
        S.shape(out[c], (N - 2, d))
    S.eq(r.attrs["dt"], dt, "time step kept")
    S.forall([("n", 1, N - 1)], lambda n: S.eq(tt[n - 1], n * dt, "time labels"))
    S.forall([("n", 1, N - 1), ("k", 0, d)], lambda n, k: (
        S.eq(out["x"][n - 1, k], x[n, k], "position"),
        S.eq(out["v"][n - 1, k], (lam * diff(n + 1, k) + (1 - lam) * diff(n, k)) / dt, "velocity", 1.0),
        S.eq(out["a"][n - 1, k], (diff(n + 1, k) - diff(n, k)) / dt ** 2, "acceleration", 10.0)))


@contract("C11", F + "compute_va_gjf", product(jumps=[False, True, "default"]))
def compute_va_gjf(S):
    N, d, dt, A, ds = raw(S, ("x",), 3)
    x = A["x"]
    kw = {}
    diff = lambda n, k: x[n, k] - x[n - 1, k]
    if S.case.jumps == "default":
        kw.update(correct_jumps=True)
        x *= 9
        diff = lambda n, k: wrapped(S, x, n, k, 2 * S.pi, 7 * S.pi / 4)
    elif S.case.jumps:
        jump, thr = S.real("jump", 1.0, 2.0), S.real("thr", 0.3, 0.9)
        kw.update(correct_jumps=True, jump=jump, jump_thr=thr)
        diff = lambda n, k: wrapped(S, x, n, k, jump, thr)
    else:
        x *= 9      # jumps are kept
    r = S.vb().compute_va_gjf(ds, **kw)
    out = {c: S.v(r[c], "time", "dim_x") for c in "xva"}
    for c in "xva":
        S.shape(out[c], (N - 2, d))
    S.eq(r.attrs["dt"], dt, "time step kept")
    S.forall([("n", 1, N - 1), ("k", 0, d)], lambda n, k: (
        S.eq(out["x"][n - 1, k], x[n, k], "position"),
        S.eq(out["v"][n - 1, k], diff(n, k) / dt, "velocity", 1.0),
        S.eq(out["a"][n - 1, k], (diff(n + 1, k) - diff(n, k)) / dt ** 2, "acceleration", 10.0)))


@contract("C11", [F + "compute_a", F + "compute_a_from_vel"], product(fn=["compute_a", "compute_a_from_vel"]))
def compute_acc(S):
    """compute_a: second difference of x; compute_a_from_vel: centered difference of v; x, v kept; interior points"""
    N, d, dt, A, ds = raw(S, ("x", "v"), 3)
    x, v = A["x"], A["v"]
    r = getattr(S.vb(), S.case.fn)(ds)
    out = {c: S.v(r[c], "time", "dim_x") for c in "xva"}
    for c in "xva":
        S.shape(out[c], (N - 2, d))
    S.eq(r.attrs["dt"], dt, "time step kept")
    acc = (lambda n, k: (x[n + 1, k] - 2 * x[n, k] + x[n - 1, k]) / dt ** 2) if S.case.fn == "compute_a" else (
        lambda n, k: (v[n + 1, k] - v[n - 1, k]) / (2 * dt))
    S.forall([("n", 1, N - 1), ("k", 0, d)], lambda n, k: (
        S.eq(out["x"][n - 1, k], x[n, k], "position"),
        S.eq(out["v"][n - 1, k], v[n, k], "velocity"),
        S.eq(out["a"][n - 1, k], acc(n, k), "acceleration", 10.0)))


@contract("C11", F + "concat_underdamped")
def concat_underdamped(S):
    """x becomes (x, v) and v becomes (v, a)"""
    N, d, dt, A, ds = raw(S, ("x", "v", "a"), 2)
    r = S.vb().concat_underdamped(ds)
    X, V = S.v(r["x"], "time", "dim_x"), S.v(r["v"], "time", "dim_x")
    S.shape(X, (N, 2 * d))
    S.shape(V, (N, 2 * d))
    S.eq(r.attrs["dt"], dt, "time step kept")
    S.forall([("n", 0, N), ("k", 0, d)], lambda n, k: (
        S.eq(X[n, k], A["x"][n, k], "position"), S.eq(X[n, d + k], A["v"][n, k], "velocity"),
        S.eq(V[n, k], A["v"][n, k], "velocity"), S.eq(V[n, d + k], A["a"][n, k], "acceleration")))


@contract("C11", F + "compute_1d_fe", product(mode=["hist", "fe", "auto"], ntraj=[1, 3, 12]), trials=2, symbolic=False,
          why="proved in histogram_1d and free_energy_1d; here many trajectories, on numbers")
def compute_1d_fe(S):
    """occupation probability of the bins over all the trajectories, free energy -log of it, bin averages of v^2 and a"""
    np, xr = S.np, S.xr
    kT = S.real("kT", 0.5, 2.0)
    trajs, X, V, A = [], [], [], []
    for i in range(S.case.ntraj):
        N = S.int("N%d" % i, 60, 120) if i or S.case.ntraj < 12 else S.int("N%d" % i, 2, 6)
        x = np.sort(S.rng.normal(size=(N, 1)), axis=0) if i == 0 else S.rng.normal(size=(N, 1))
        v, a = S.arr("v", N, 1), S.arr("a", N, 1)
        trajs.append(xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], v), "a": (["time", "dim_x"], a)},
                                coords={"time": np.arange(N) * 0.1}, attrs={"dt": 0.1}))
        X.append(x), V.append(v), A.append(a)
    X, V, A = np.concatenate(X)[:, 0], np.concatenate(V)[:, 0], np.concatenate(A)[:, 0]
    nb = 12
    edges = np.linspace(X.min(), X.max(), nb)
    if S.case.mode == "auto":
        edges = np.histogram_bin_edges(X, bins="auto")
    sel = [(X > lo) & (X <= hi) for lo, hi in zip(edges[:-1], edges[1:])]
    cnt = np.array([s.sum() for s in sel])
    pf = cnt / cnt.sum()
    mid = (edges[1:] + edges[:-1]) / 2
    if S.case.mode != "fe":
        xf, h = S.vb().compute_1d_fe(trajs, bins="auto" if S.case.mode == "auto" else nb, kT=kT, hist=True)
        S.allclose(xf, mid, "centres of the bins")
        S.allclose(h, pf, "occupation probability")
        S.raises(lambda: S.vb().compute_1d_fe(trajs, bins=1.5), "bins of the wrong type")
        return
    if (cnt > 0).sum() < 5:
        return
    xf, fe, force, mean_a, force_tot, mass = S.vb().compute_1d_fe(trajs, bins=nb, kT=kT)
    ok = cnt > 0
    f = -np.log(pf[ok])
    S.allclose(xf, mid[ok], "centres of the bins")
    S.allclose(fe, f - f.min(), "free energy")
    m2 = np.array([(V[s] ** 2).mean() for s in np.array(sel)[ok]])
    S.allclose(mass, m2, "bin average of the squared velocity")
    S.allclose(mean_a, np.array([A[s].mean() for s in np.array(sel)[ok]]), "bin average of the acceleration")
    import scipy.interpolate as si
    inb = np.any(sel, axis=0)
    S.allclose(force, -kT * si.splev(xf, si.splrep(xf, f - f.min(), s=0), der=1) / (V[inb] ** 2).mean(), "force from the free energy")
    S.allclose(force_tot, si.splev(xf, si.splrep(xf, m2 * pf[ok], s=0), der=1) / pf[ok], "total force")


def samples(S, ntraj, nmin=4, v=True):
    """trajectories of any lengths; the positions are not all equal"""
    d = S.int("d", 1, 2)
    S.named_extrema()
    out, D = [], []
    for i in range(ntraj):
        N = S.int("N%d" % i, 2 if i else nmin, 40)
        A = {c: S.arr("%s%d" % (c, i), N, d, ints=True) for c in ("xva" if v else "x")}
        ds = S.xr.Dataset({c: (["time", "dim_x"], A[c]) for c in A}, coords={"time": S.np.arange(N) * 0.1}, attrs={"dt": 0.1})
        out.append(ds), D.append((N, A))
    return d, out, D


def per_bin(S, d, D, edges, f):
    """sum over all the samples with edges[i] < x <= edges[i+1] of f(arrays, n, k)"""
    def at(i):
        tot = 0
        for N, A in D:
            tot = tot + S.sum(0, N, lambda n: S.sum(0, d, lambda k: S.ite(S.and_(edges[i] < A["x"][n, k], A["x"][n, k] <= edges[i + 1]), f(A, n, k), 0)))
        return tot
    return at


@contract("C11", F + "compute_1d_fe", product(ntraj=[1, 2, 3], auto=[False, True]), trials=4)
def histogram_1d(S):
    """bins of equal width between the extreme positions; probability of a bin: its share of the samples that are in the bins"""
    np = S.np
    nb = S.int("nb", 2, 9)
    d, trajs, D = samples(S, S.case.ntraj)
    lo = np.min([np.min(A["x"], axis=0) for N, A in D])
    hi = np.max([np.max(A["x"], axis=0) for N, A in D])
    if S.case.auto:
        every = np.concatenate([A["x"] for N, A in D], axis=0)
        lo, hi = np.min(every), np.max(every)
        S.assume(lo < hi)
        edge = np.histogram_bin_edges(every, bins="auto")
        nb = edge.shape[0]
    else:
        S.assume(lo < hi)
        edge = np.linspace(lo, hi, nb)
    xf, h = S.vb().compute_1d_fe(trajs, bins="auto" if S.case.auto else nb, hist=True)
    S.shape(xf, (nb - 1,))
    S.shape(h, (nb - 1,))
    cnt = per_bin(S, d, D, edge, lambda A, n, k: 1)
    tot = S.sum(0, nb - 1, cnt)
    S.forall([("i", 0, nb - 1)], lambda i: (
        S.eq(xf[i], lo + (2 * i + 1) * (hi - lo) / (2 * (nb - 1)), "centre of the bin", 1.0),
        S.eq(h[i], cnt(i) / tot, "share of the samples")))


@contract("C11", F + "compute_1d_fe", product(hole=[None, 0, 1, 3], ntraj=[1, 2]), trials=4)
def free_energy_1d(S):
    """over the bins that are visited: free energy -log(probability) from its minimum, averages of v^2 and of a, derivatives of interpolating splines"""
    np = S.np
    kT = S.real("kT", 0.5, 2.0)
    nb = 6
    S.unroll(nb)
    S.opaque()
    d, trajs, D = samples(S, S.case.ntraj, 14)
    hole = S.case.hole
    if not S.symbolic:
        for N, A in D:      # numbers for which the assumptions hold
            x = np.linspace(0.0, 1.0, N)
            if hole is not None:
                x[(x > hole / 5) & (x <= (hole + 1) / 5)] = (hole + (1.5 if hole < 2 else -0.5)) / 5
                x[0] = 0.0
            A["x"][...] = x[:, None]
    lo = np.min([np.min(A["x"], axis=0) for N, A in D])
    hi = np.max([np.max(A["x"], axis=0) for N, A in D])
    S.assume(lo < hi)
    edge = np.linspace(lo, hi, nb)
    at = lambda f: [per_bin(S, d, D, edge, f)(i) for i in range(nb - 1)]
    cnt = at(lambda A, n, k: 1)
    for i in range(nb - 1):
        S.assume(S.ceq(cnt[i], 0) if i == hole else cnt[i] >= 1)
    tot = sum(cnt)
    v2, a = at(lambda A, n, k: A["v"][n, k] ** 2), at(lambda A, n, k: A["a"][n, k])
    xf, fe, force, mean_a, force_tot, mass = S.vb().compute_1d_fe(trajs, bins=nb, kT=kT)
    on = [i for i in range(nb - 1) if i != hole]
    mid = np.asarray([(edge[i] + edge[i + 1]) / 2 for i in on])
    p = [cnt[i] / tot for i in on]
    f = [-np.log(q) for q in p]
    for w in (xf, fe, force, mean_a, force_tot, mass):
        S.shape(w, (len(on),))
    for j, i in enumerate(on):
        S.eq(xf[j], mid[j], "centre of the bin", 1.0)
        S.eq(fe[j] - fe[0], f[j] - f[0], "free energy", 1.0)
        S.le(0, fe[j], "free energy from its minimum")
        S.eq(mass[j], v2[i] / cnt[i], "average of the squared velocity", 1.0)
        S.eq(mean_a[j], a[i] / cnt[i], "average of the acceleration", 1.0)
    S.true(S.any_of(*[S.ceq(fe[j], 0) for j in range(len(on))]), "the minimum of the free energy is 0")
    # the derivatives are those of the cubic splines through the values above
    vv = sum(v2) / tot
    F1 = S.splev(xf, S.splrep(xf, fe), der=1)
    F2 = S.splev(xf, S.splrep(xf, np.asarray([mass[j] * p[j] for j in range(len(on))])), der=1)
    for j in range(len(on)):
        S.eq(force[j], -F1[j] * kT / vv, "force", 1.0, 1e-6)
        S.eq(force_tot[j], F2[j] / p[j], "total force", 1.0, 1e-6)
