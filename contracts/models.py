"""Contracts of the models (VolterraBasis/models.py)."""
from dv.api import contract, product
from contracts.traj import raw
from contracts.fortran import ide_step

F = "VolterraBasis/models.py:"
CLS = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped"]


class Feat:
    """specification of the feature vectors of each model, functions of (time index, function index)"""

    def __init__(self, S, cls, b, A, d, remove):
        x, v, a = A["x"], A["v"], A["a"]
        n = b.n_output_features_
        c = d if remove else 0
        phi = lambda t, k: b.phi(x, t, k)
        vel = lambda t, k: S.sum(0, d, lambda e: b.dphi(x, t, k, e) * v[t, e])
        acc = lambda t, k: S.sum(0, d, lambda e: b.dphi(x, t, k, e) * a[t, e]) + S.sum(0, d, lambda e: S.sum(0, d, lambda g: b.ddphi(x, t, k, e, g) * v[t, e] * v[t, g]))
        if cls in ["Pos_gle", "Pos_gle_with_friction"]:
            self.nk = n - c
            self.E, self.dE = (lambda t, k: vel(t, k + c)), (lambda t, k: acc(t, k + c))
            self.K = lambda t, k, e: b.dphi(x, t, k + c, e)
        elif cls in ["Pos_gle_no_vel_basis", "Pos_gle_overdamped"]:
            self.nk = n
            self.E, self.dE = phi, vel
            self.K = lambda t, k, e: phi(t, k)
        elif cls == "Pos_gle_const_kernel":
            self.nk = d
            self.E, self.dE = (lambda t, k: v[t, k]), (lambda t, k: a[t, k])
            self.K = lambda t, k, e: S.ite(S.ceq(k, e), 1, 0)
        else:
            self.nk = n + 1
            self.E = lambda t, k: S.ite(k < 1, lambda: v[t, 0], lambda: phi(t, k - 1))
            self.dE = lambda t, k: S.ite(k < 1, lambda: a[t, 0], lambda: vel(t, k - 1))
            self.K = lambda t, k, e: phi(t, k)
        self.nf, self.Ef = n, phi
        if cls == "Pos_gle_with_friction":
            self.nf = n + self.nk
            self.Ef = lambda t, k: S.ite(k < n, lambda: phi(t, k), lambda: self.E(t, k - n))


def removable(cls):
    return [True, False] if cls in ["Pos_gle", "Pos_gle_with_friction"] else [False]


MC = [dict(cls=c, remove=r) for c in CLS for r in removable(c)]


def model(S, cls, b, dt, d, dim_obs=None, trunc=5, L_obs=None, **kw):
    kw = dict(kw)
    if L_obs is not None:
        kw["L_obs"] = L_obs
    return getattr(S.vb("models"), cls)(b, dt, dim_x=d, dim_obs=d if dim_obs is None else dim_obs, trunc_ind=trunc, **kw)


def setup(S, cls, remove, nmin=2, d=None, nmax=3):
    N, dd, dt, A, ds = raw(S, ("x", "v", "a"), nmin)
    if cls == "Pos_gle_hybrid":
        S.assume(S.ceq(dd, 1))
    b = S.abstract_basis("q", dd, const_removed=remove, drop=dd if remove else 0, nmax=nmax)
    return N, dd, dt, A, ds, b, Feat(S, cls, b, A, dd, remove)


@contract("C14", [F + c + ".basis_vector" for c in CLS], MC)
def features(S):
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove)
    m = model(S, cls, b, dt, d)
    S.eq(m.N_basis_elt, b.n_output_features_, "number of functions")
    S.eq(m.N_basis_elt_force, ft.nf, "number of force functions")
    S.eq(m.N_basis_elt_kernel, ft.nk, "number of kernel functions")
    Ef, E, dE = [S.v(r, "time", "dim_basis") for r in m.basis_vector(ds)]
    S.shape(Ef, (N, ft.nf)), S.shape(E, (N, ft.nk)), S.shape(dE, (N, ft.nk))
    S.forall([("t", 0, N), ("k", 0, ft.nf)], lambda t, k: S.eq(Ef[t, k], ft.Ef(t, k), "force features"))
    S.forall([("t", 0, N), ("k", 0, ft.nk)], lambda t, k: S.eq(E[t, k], ft.E(t, k), "kernel features"))
    S.forall([("t", 0, N), ("k", 0, ft.nk)], lambda t, k: S.eq(dE[t, k], ft.dE(t, k), "time derivative of the kernel features"))
    G = S.v(m.basis_vector(ds, compute_for="force"), "time", "dim_basis")
    S.shape(G, (N, ft.nf))
    S.forall([("t", 0, N), ("k", 0, ft.nf)], lambda t, k: S.eq(G[t, k], ft.Ef(t, k), "features of the force evaluation"))
    P = S.v(m.basis_vector(ds, compute_for="pmf"), "time", "dim_basis")
    S.shape(P, (N, b.n_output_features_))
    S.forall([("t", 0, N), ("k", 0, b.n_output_features_)], lambda t, k: S.eq(P[t, k], b.aphi(A["x"], t, k), "features of the free energy"))
    nk = ft.nk - 1 if cls == "Pos_gle_hybrid" else ft.nk
    K = S.v(m.basis_vector(ds, compute_for="kernel"), "time", "dim_basis", "dim_x")
    S.shape(K, (N, nk, d))
    S.forall([("t", 0, N), ("k", 0, nk), ("e", 0, d)], lambda t, k, e: S.eq(K[t, k, e], ft.K(t, k, e), "features of the kernel evaluation"))
    if cls == "Pos_gle_with_friction":
        H = S.v(m.basis_vector(ds, compute_for="force_eval"), "time", "dim_basis")
        S.shape(H, (N, b.n_output_features_))
        S.forall([("t", 0, N), ("k", 0, b.n_output_features_)], lambda t, k: S.eq(H[t, k], b.phi(A["x"], t, k), "position part of the force"))
    S.raises(lambda: m.basis_vector(ds, compute_for="other"), "unknown goal")


@contract("C14", [F + c + ".__init__" for c in CLS] + [F + "ModelBase._check_basis"], product(cls=CLS, remove=[False, True]))
def construction(S):
    """which models project on the range, which force the constant to be kept; unfitted bases are fitted, invalid ones refused"""
    cls = S.case.cls
    d = 1 if cls == "Pos_gle_hybrid" else S.int("d", 1, 2)
    b = S.abstract_basis("q", d, const_removed=S.case.remove, drop=d if S.case.remove else 0)
    m = model(S, cls, b, S.real("dt", 0.1, 0.2), d)
    vel = cls in ["Pos_gle", "Pos_gle_with_friction"]
    S.true(bool(m.rank_projection) == (vel and not S.case.remove), "range projection")
    if not vel and cls != "Pos_gle_const_kernel":
        S.true(not m.basis.const_removed, "constant kept in the basis")
    r = S.fit_recorder()
    if not hasattr(r, "basis"):
        S.raises(lambda: model(S, cls, r, 1.0, d), "basis without basis and deriv methods")


@contract("C14", [F + c + ".basis_vector" for c in CLS] + ["VolterraBasis/basis/_basis_features.py:FeaturesCombiner.deriv"], product(cls=CLS, last=[False, True]), trials=2)
def combined_features(S):
    """on a combination of bases, the constant kept or removed is the one of the model: as many derivatives as features"""
    cls = S.case.cls
    N, d, dt, A, ds = raw(S, ("x", "v", "a"), 3)
    if cls == "Pos_gle_hybrid":
        S.assume(S.ceq(d, 1))
    q = [S.abstract_basis("q", d), S.abstract_basis("r", d, const_removed=True, drop=d)]
    if S.case.last:
        q.reverse()
    b = S.vb("basis").FeaturesCombiner(*q)
    b.n_output_features_ = q[0].n_output_features_ + q[1].n_output_features_
    n0 = q[0].n_output_features_
    m = model(S, cls, b, dt, d)
    pick = lambda k, f, g: S.ite(k < n0, lambda: f(k), lambda: g(k - n0))
    vel = lambda z: lambda t, k: S.sum(0, d, lambda e: z.dphi(A["x"], t, k, e) * A["v"][t, e])
    cut = d if S.case.last else 0     # the constant comes first, when it is removed
    n = b.n_output_features_
    Ef, E, dE = [S.v(r, "time", "dim_basis") for r in m.basis_vector(ds)]
    K = S.v(m.basis_vector(ds, compute_for="kernel"), "time", "dim_basis", "dim_x")
    nk = m.N_basis_elt_kernel
    S.shape(E, (N, nk)), S.shape(dE, (N, nk)), S.shape(Ef, (N, m.N_basis_elt_force))
    S.shape(K, (N, nk - 1 if cls == "Pos_gle_hybrid" else nk, d))
    S.forall([("t", 0, N), ("k", 0, n)], lambda t, k: S.eq(Ef[t, k], pick(k, lambda k: q[0].phi(A["x"], t, k), lambda k: q[1].phi(A["x"], t, k)), "force features"))
    if cls in ["Pos_gle", "Pos_gle_with_friction"]:
        S.eq(nk, n - d, "number of kernel functions")
        c0, c1 = (d, 0) if S.case.last else (0, d)
        S.forall([("t", 0, N), ("k", 0, nk)], lambda t, k: S.eq(E[t, k], S.ite(
            k < n0 - c0, lambda: vel(q[0])(t, k + c0), lambda: vel(q[1])(t, k - (n0 - c0) + c1)), "kernel features"))
    elif cls in ["Pos_gle_no_vel_basis", "Pos_gle_overdamped"]:
        S.eq(nk, n, "number of kernel functions")
        S.forall([("t", 0, N), ("k", 0, n)], lambda t, k: (
            S.eq(E[t, k], Ef[t, k], "kernel features"),
            S.eq(dE[t, k], pick(k, lambda k: vel(q[0])(t, k), lambda k: vel(q[1])(t, k)), "time derivative of the kernel features")))
    elif cls == "Pos_gle_hybrid":
        S.eq(nk, n + 1, "number of kernel functions")
        S.forall([("t", 0, N), ("k", 0, n)], lambda t, k: (
            S.eq(E[t, k + 1], Ef[t, k], "kernel features"),
            S.eq(dE[t, k + 1], pick(k, lambda k: vel(q[0])(t, k), lambda k: vel(q[1])(t, k)), "time derivative of the kernel features")))


@contract("C14", [F + "ModelBase._check_basis", F + "ModelBase.basis_vector", "VolterraBasis/basis/_data_describe.py:describe_from_dim"], product(how=["data", "dim", "fitted", "nofit"]))
def basis_check(S):
    """an unfitted basis is fitted on the description of the data, or on a minimal one; a basis that cannot be fitted is refused"""
    models = S.vb("models")
    d = S.int("d", 1, 3)
    how = S.case.how
    b = Unfitted(S)
    if how == "data":
        D = S.vb("basis").DescribeResult
        z = S.np.zeros((d,))
        desc = D(10, (z, z), S.arr("mean", d), z, z, z)
        m = models.Pos_gle_overdamped(b, 1.0, dim_x=d, describe_data=desc)
        S.true(m.basis.seen is desc, "fitted on the description given")
    elif how == "dim":
        m = models.Pos_gle_overdamped(b, 1.0, dim_x=d)
        S.shape(m.basis.seen.mean, (d,), "description of the dimension")
        S.true(len(m.basis.seen.minmax) == 2, "range")
        S.shape(m.basis.seen.minmax[0], (d,), "description of the dimension")
        S.shape(m.basis.seen.minmax[1], (d,), "description of the dimension")
    elif how == "fitted":
        b.n_output_features_ = 3
        m = models.Pos_gle_overdamped(b, 1.0, dim_x=d)
        S.true(m.basis is b and b.seen is None, "a fitted basis is kept")
    else:
        b.fit = None
        S.raises(lambda: models.Pos_gle_overdamped(b, 1.0, dim_x=d), "a basis that cannot be fitted")
        b.n_output_features_ = 3
        b.deriv = None
        S.raises(lambda: models.Pos_gle_overdamped(b, 1.0, dim_x=d), "a basis without deriv")
        b.deriv, b.basis = (lambda X: X), None
        S.raises(lambda: models.Pos_gle_overdamped(b, 1.0, dim_x=d), "a basis without basis")
        return
    S.eq(m.N_basis_elt, 3, "number of functions")
    base = models.ModelBase(b, 1.0, dim_x=d)
    S.raises(lambda: base.basis_vector(None), "features of the base class")
    S.raises(lambda: base.evolve_volterra(None, 3), "evolution of the base class")


class Unfitted:
    """a basis that has not been fitted yet"""
    const_removed = False

    def __init__(self, S):
        self.seen = None

    def fit(self, desc):
        self.seen = desc
        self.n_output_features_ = 3
        return self

    def basis(self, X):
        return X

    def deriv(self, X):
        return X


# ------------------------------------------------------------------ evaluation
def coeffs(S, m, b, ft, A=None, ds=None):
    """arbitrary coefficients in a model, that may have been used before with others"""
    M = S.int("M", 1, 4)
    f = S.arr("f", ft.nf, m.dim_obs)
    K = S.arr("K", M + 1, ft.nk, m.dim_obs)
    fx = S.xr.DataArray(f, dims=("dim_basis", "dim_x"))
    Kx = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": S.np.arange(M + 1) * m.dt})
    if not S.symbolic and A is not None:
        used(S, m, ft, fx, Kx, A, ds)
    m.force_coeff, m.kernel = fx, Kx
    return M, f, K


def used(S, m, ft, fx, Kx, A, ds):
    """evaluations with other coefficients, or the same arrays with another content, on other data"""
    np, r = S.np, S.rng
    k = r.randint(3)
    if k == 0:
        return
    scribble = [x for x in A.values()]
    if k == 1:
        scribble += [fx.values, Kx.values]
    else:
        M = r.randint(1, 6)
        fx = S.xr.DataArray(r.uniform(-1, 1, fx.shape), dims=fx.dims)
        Kx = S.xr.DataArray(r.uniform(-1, 1, (M + 1,) + Kx.shape[1:]), dims=Kx.dims, coords={"time_kernel": np.arange(M + 1) * m.dt})
    state = {a: getattr(m, a) for a in ("method", "rank_projection", "P_range") if hasattr(m, a)}
    m.force_coeff, m.kernel = fx, Kx
    short = ds.isel(time=slice(0, max(2, ds.sizes["time"] - 1)))
    x = A["x"]

    def both():
        m.method = ["rect", "trapz"][r.randint(2)]
        m.rank_projection = False
    S.history([both] + [lambda q=q: m.basis_vector(q) for q in (short, ds)] + [lambda q=q: m.force_eval(q) for q in (x[:1], ds, x)] + [
        lambda: m.friction_force_eval(x), lambda: m.pmf_eval(x), lambda: m.kernel_eval(x[:1]), lambda: m.kernel_eval(x), lambda: m.get_const_kernel_part(),
        lambda: m.compute_noise(short), lambda: m.compute_noise(ds, trunc_kernel=2), lambda: m.compute_noise(ds), lambda: m.compute_noise(ds, start_point=1),
        lambda: m.compute_corrs_w_noise(short), lambda: m.compute_corrs_w_noise(ds, "v"), lambda: m.compute_corrs_w_noise(ds), lambda: m.laplace_transform_kernel()], scribble)
    for a in ("method", "rank_projection", "P_range"):
        if a in state:
            setattr(m, a, state[a])
        elif a in m.__dict__:
            delattr(m, a)


@contract("C17", [F + "ModelBase.force_eval", F + "Pos_gle_with_friction.force_eval", F + "Pos_gle_with_friction.friction_force_eval", F + "_convert_input_array_for_evaluation"], MC)
def force_eval(S):
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove)
    m = model(S, cls, b, dt, d)
    S.raises(lambda: m.force_eval(A["x"]), "no force before its computation")
    if cls == "Pos_gle_with_friction":
        S.raises(lambda: m.friction_force_eval(A["x"]), "no friction before its computation")
    M, f, K = coeffs(S, m, b, ft, A, ds)
    n = b.n_output_features_
    r = S.v(m.force_eval(A["x"]))
    S.shape(r, (N, d))
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(
        r[t, o], S.sum(0, n, lambda k: b.phi(A["x"], t, k) * f[k, o]), "force: sum of coefficients times functions") if cls == "Pos_gle_with_friction"
        else S.eq(r[t, o], S.sum(0, ft.nf, lambda k: ft.Ef(t, k) * f[k, o]), "force: sum of coefficients times functions"))
    q = S.v(m.force_eval(ds))
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(q[t, o], r[t, o], "same force on a labelled trajectory"))
    if cls == "Pos_gle_with_friction":
        g = S.v(m.friction_force_eval(A["x"]))
        S.shape(g, (N, d, d))
        S.forall([("t", 0, N), ("o", 0, d), ("e", 0, d)], lambda t, o, e: S.eq(
            g[t, o, e], S.sum(0, ft.nk, lambda k: ft.K(t, k, e) * f[n + k, o]), "friction matrix"))
    else:
        g = S.arr("g", ft.nf, d)
        w = S.v(m.force_eval(A["x"], coeffs=S.xr.DataArray(g, dims=("dim_basis", "dim_x"))))
        S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(w[t, o], S.sum(0, ft.nf, lambda k: ft.Ef(t, k) * g[k, o]), "force with given coefficients"))
        z = S.v(m.force_eval(A["x"], coeffs=S.xr.DataArray(S.np.zeros((ft.nf, d)), dims=("dim_basis", "dim_x"))))
        S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(z[t, o], 0, "no force with zero coefficients"))


@contract("C17", [F + "ModelBase.pmf_eval", F + "Pos_gle_with_friction.pmf_eval", F + "Pos_gle_overdamped.pmf_eval"], [dict(c, mass=w) for c in MC for w in (False, True)])
def pmf_eval(S):
    """-(primitive of the force) times the mass over kT; its minimum is zero unless set_zero is False"""
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove)
    m = model(S, cls, b, dt, d)
    S.raises(lambda: m.pmf_eval(A["x"]), "no free energy before the force")
    M, f, K = coeffs(S, m, b, ft, A, ds)
    kT = S.real("kT", 0.5, 2.0)
    W = S.arr("W", d, d)
    if S.case.mass:
        m.eff_mass = S.xr.DataArray(W, dims=("dim_x'", "dim_x"))
    n = b.n_output_features_
    raw_ = lambda t, o: S.sum(0, n, lambda k: b.aphi(A["x"], t, k) * f[k, o])
    if cls == "Pos_gle_overdamped" or not S.case.mass:
        spec = lambda t, o: -raw_(t, o) / kT
    else:
        spec = lambda t, o: -S.sum(0, d, lambda e: raw_(t, e) * W[e, o]) / kT
    q = m.pmf_eval(A["x"], set_zero=False)
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(q[t, o], kT * spec(t, o), "unit temperature by default"))
    p = m.pmf_eval(A["x"], kT=kT, set_zero=False)
    S.shape(p, (N, d))
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(p[t, o], spec(t, o), "minus the primitive of the force"))
    z = m.pmf_eval(A["x"], kT=kT)
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(z[t, o] - z[0, 0], spec(t, o) - spec(0, 0), "shifted by a constant"))
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.true(z[t, o] >= 0, "never negative"))
    S.eq(S.np.min(z), 0, "minimum at zero")
    g = S.arr("g", n, d)
    w = m.pmf_eval(A["x"], coeffs=S.xr.DataArray(g, dims=("dim_basis", "dim_x")), kT=kT, set_zero=False)
    raw_ = lambda t, o: S.sum(0, n, lambda k: b.aphi(A["x"], t, k) * g[k, o])
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: S.eq(w[t, o], spec(t, o), "free energy of given coefficients"))


@contract("C17", [F + "ModelBase.kernel_eval", F + "Pos_gle_hybrid.kernel_eval", F + "Pos_gle_hybrid.get_const_kernel_part", F + "matmulPrange"], [dict(c, proj=False) for c in MC] + [dict(cls="Pos_gle", remove=False, proj=True), dict(cls="Pos_gle_overdamped", remove=False, proj=True)])
def kernel_eval(S):
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove)
    m = model(S, cls, b, dt, d)
    m.rank_projection = False
    S.raises(lambda: m.kernel_eval(A["x"]), "no kernel before its computation")
    if cls == "Pos_gle_hybrid":
        S.raises(lambda: m.get_const_kernel_part(), "no kernel before its computation")
    M, f, K = coeffs(S, m, b, ft, A, ds)
    if S.case.proj:
        r = S.int("rank", 1, 3)
        P = S.arr("P", r, ft.nk)
        K = S.arr("KP", M + 1, r, d)
        m.rank_projection = True
        m.P_range = S.xr.DataArray(P, dims=["dim_basis", "dim_basis_old"])
        m.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": S.np.arange(M + 1) * dt})
        spec = lambda i, o, t, e: S.sum(0, r, lambda k: K[i, k, o] * S.sum(0, ft.nk, lambda q: P[k, q] * ft.K(t, q, e)))
    elif cls == "Pos_gle_hybrid":
        spec = lambda i, o, t, e: S.sum(0, ft.nk - 1, lambda k: K[i, k + 1, o] * ft.K(t, k, e))
        c = S.v(m.get_const_kernel_part(), "time_kernel", "dim_x")
        S.shape(c, (M + 1, d))
        S.forall([("i", 0, M + 1), ("o", 0, d)], lambda i, o: S.eq(c[i, o], K[i, 0, o], "position independent part"))
    else:
        spec = lambda i, o, t, e: S.sum(0, ft.nk, lambda k: K[i, k, o] * ft.K(t, k, e))
    r_ = S.v(m.kernel_eval(A["x"]), "time_kernel", "dim_x", "time", "dim_x'")
    S.shape(r_, (M + 1, d, N, d))
    S.forall([("i", 0, M + 1), ("o", 0, d), ("t", 0, N), ("e", 0, d)], lambda i, o, t, e: S.eq(
        r_[i, o, t, e], spec(i, o, t, e), "kernel: sum of coefficients times functions"))
    if cls != "Pos_gle_hybrid" and not S.case.proj:
        G = S.arr("G", 3, ft.nk, d)
        w = S.v(m.kernel_eval(A["x"], coeffs_ker=S.xr.DataArray(G, dims=("time_kernel", "dim_basis", "dim_x"))), "time_kernel", "dim_x", "time", "dim_x'")
        S.forall([("i", 0, 3), ("o", 0, d), ("t", 0, N), ("e", 0, d)], lambda i, o, t, e: S.eq(
            w[i, o, t, e], S.sum(0, ft.nk, lambda k: G[i, k, o] * ft.K(t, k, e)), "kernel with given coefficients"))
        S.raises(lambda: m.kernel_eval(A["x"], coeffs_ker=S.xr.DataArray(S.arr("H", 3, ft.nk, d + 1), dims=("time_kernel", "dim_basis", "dim_x"))), "coefficients of another shape")
        S.raises(lambda: m.kernel_eval(A["x"], coeffs_ker=S.xr.DataArray(S.arr("H2", 3, ft.nk + 1, d), dims=("time_kernel", "dim_basis", "dim_x"))), "coefficients of another shape")


@contract("C17", F + "ModelBase.laplace_transform_kernel", product(default=[False, True], mid=[False, True]) + [dict(default=False, mid=False, zero=True)])
def laplace(S):
    """Simpson integral of exp(-s t) K(t) over the times of the kernel, at regularly spaced s"""
    d = S.int("d", 1, 2)
    b = S.abstract_basis("q", d)
    dt = S.real("dt", 0.1, 0.3)
    T = S.int("T", 2, 6)
    m = model(S, "Pos_gle_overdamped", b, dt, d, trunc=T)
    S.raises(lambda: m.laplace_transform_kernel(), "no kernel before its computation")
    n = b.n_output_features_
    M = S.int("M", 1, 4)
    K = S.arr("K", 2 * M + 1, n, d)
    t0, h = (dt, 2 * dt) if S.case.mid else (0, dt)         # the midpoint methods know the kernel at odd times only
    kx = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t0 + S.np.arange(2 * M + 1) * h})
    if not S.symbolic and S.rng.randint(3):      # the same kernel with another content, then another kernel
        m.kernel = kx
        S.history([lambda: m.laplace_transform_kernel(), lambda: m.laplace_transform_kernel(0.1, 2.0, 3)], [K])
        m.kernel = kx.isel(time_kernel=slice(0, 2)) * 2
        S.history([lambda: m.laplace_transform_kernel(), lambda: m.laplace_transform_kernel(0.1, 2.0, 3)])
    m.kernel = kx
    if S.case.default:
        s0, s1, P = 0, 1 / dt, T
        s, L = m.laplace_transform_kernel()
    else:
        s0, s1, P = S.real("s0", 0.0, 1.0), 0 if S.case.zero else S.real("s1", 1.0, 3.0), S.int("P", 2, 5)
        s, L = m.laplace_transform_kernel(s_start=s0, s_end=s1, n_points=P)
    S.shape(s, (P,)), S.shape(L, (P, n, d))
    S.forall([("p", 0, P)], lambda p: S.eq(s[p], s0 + p * (s1 - s0) / (P - 1), "Laplace variable"))
    g = lambda p, i, k, o: S.exp(-s[p] * (t0 + i * h)) * K[i, k, o]
    S.forall([("p", 0, P), ("k", 0, n), ("o", 0, d)], lambda p, k, o: S.eq(
        L[p, k, o], h / 3 * S.sum(0, M, lambda q: g(p, 2 * q, k, o) + 4 * g(p, 2 * q + 1, k, o) + g(p, 2 * q + 2, k, o)), "Simpson quadrature"))


# ------------------------------------------------------------------ noise
METH = ["rectangular", "rect", None, "second_kind_rect", "trapz", "second_kind_trapz"]
TR = ["trapz", "second_kind_trapz"]


def projected(S, m, ft, M, d, dt, nr="rank"):
    r = S.int(nr, 1, 3)
    P = S.arr("P", r, ft.nk)
    K = S.arr("KP", M + 1, r, d)
    m.rank_projection = True
    m.P_range = S.xr.DataArray(P, dims=["dim_basis", "dim_basis_old"])
    m.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": S.np.arange(M + 1) * dt})
    return r, K, lambda t, k: S.sum(0, ft.nk, lambda q: P[k, q] * ft.E(t, q))


def memory(S, E, K, nb, M, dt, trapz):
    """memory term at step i of a trajectory of features E"""
    g = lambda i, j, l: S.sum(0, nb, lambda k: E(i - j, k) * K[j, k, l])
    if trapz:
        return lambda i, l: -dt * S.sum(0, S.min(i, M), lambda j: (g(i, j, l) + g(i, j + 1, l)) / 2)
    return lambda i, l: -dt * S.ite(i > 0, lambda: S.sum(0, S.min(i, M) + 1, lambda j: g(i, j, l)), 0)


@contract("C05", F + "ModelBase.compute_noise", [dict(cls=c["cls"], remove=c["remove"], method=me, proj=False) for c in MC for me in ("rect", "trapz")]
          + [dict(cls="Pos_gle", remove=True, method=me, proj=False) for me in METH] + [dict(cls="Pos_gle", remove=False, method=me, proj=True) for me in ("rect", "trapz")], trials=3)
def noise(S):
    """observable = force + memory + noise at every time, with the memory of the chosen quadrature"""
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove, nmin=3)
    obs = "v" if cls == "Pos_gle_overdamped" else "a"
    tr = S.int("tr", 2, 7)
    m = model(S, cls, b, dt, d, trunc=tr, L_obs=obs)
    S.raises(lambda: m.compute_noise(ds), "no noise before the force")
    M, f, K = coeffs(S, m, b, ft, A, ds)
    m.method = S.case.method
    nk, E = ft.nk, ft.E
    m.rank_projection = False
    if S.case.proj:
        nk, K, E = projected(S, m, ft, M, d, dt)
    time, xi, y, force, mem = m.compute_noise(ds)
    xi, y, force, mem = S.v(xi, "time", "dim_x"), S.v(y, "time", "dim_x"), S.v(force, "time", "dim_x"), S.v(mem)
    for r in (xi, y, force, mem):
        S.shape(r, (N, d))
    spec = memory(S, E, K, nk, S.min(M + 1, tr) - 1, dt, S.case.method in TR)
    sf = lambda t, o: S.sum(0, ft.nf, lambda k: ft.Ef(t, k) * f[k, o])
    S.forall([("t", 0, N)], lambda t: S.eq(time[t], t * dt, "times"))
    S.forall([("t", 0, N), ("o", 0, d)], lambda t, o: (
        S.eq(y[t, o], A[obs][t, o], "observable"), S.eq(force[t, o], sf(t, o), "mean force"),
        S.eq(mem[t, o], spec(t, o), "memory", 1.0), S.eq(xi[t, o], A[obs][t, o] - sf(t, o) - spec(t, o), "noise", 1.0)))
    m.method = "midpoint"
    S.raises(lambda: m.compute_noise(ds), "noise refused for the other quadratures")


@contract("C05", F + "ModelBase.compute_noise", product(method=["rect", "trapz"], count=["front", "back"]), trials=4)
def noise_window(S):
    """a window of the trajectory, counted from either end, and a truncated kernel"""
    N, d, dt, A, ds, b, ft = setup(S, "Pos_gle", True, nmin=6)
    m = model(S, "Pos_gle", b, dt, d, trunc=S.int("tr", 2, 7))
    M, f, K = coeffs(S, m, b, ft, A, ds)
    m.method = S.case.method
    lo, hi = S.int("lo", 0, 2), S.int("hi", 4, 6)
    tk = S.int("tk", 2, 3)
    S.assume(tk <= M + 1)
    S.assume(hi <= N)
    S.assume(lo + 2 <= hi)
    back = S.case.count == "back"
    if back:
        S.assume(hi < N)
    time, xi, y, force, mem = m.compute_noise(ds, trunc_kernel=tk, start_point=lo, end_point=hi - N if back else hi)
    xi, mem = S.v(xi, "time", "dim_x"), S.v(mem)
    S.shape(xi, (hi - lo, d))
    spec = memory(S, lambda t, k: ft.E(t + lo, k), K, ft.nk, tk - 1, dt, S.case.method in TR)
    S.forall([("t", 0, hi - lo)], lambda t: S.eq(time[t], (t + lo) * dt, "times"))
    S.forall([("t", 0, hi - lo), ("o", 0, d)], lambda t, o: (
        S.eq(mem[t, o], spec(t, o), "memory", 1.0),
        S.eq(xi[t, o], A["a"][t + lo, o] - S.sum(0, ft.nf, lambda k: ft.Ef(t + lo, k) * f[k, o]) - spec(t, o), "noise", 1.0)))


@contract("C06", F + "ModelBase.compute_corrs_w_noise", product(method=["rect", "trapz"], left=["none", "name", "wide", "call", "other", "array", "labelled"], proj=[False]) + product(method=METH, left=["none"], proj=[False]) + product(method=["rect", "trapz"], left=["none"], proj=[True]), trials=3)
def corrs_w_noise(S):
    N, d, dt, A, ds, b, ft = setup(S, "Pos_gle", not S.case.proj, nmin=7)
    m = model(S, "Pos_gle", b, dt, d, trunc=S.int("tr", 2, 7))
    S.raises(lambda: m.compute_corrs_w_noise(ds), "no correlations before the force")
    M, f, K = coeffs(S, m, b, ft, A, ds)
    m.kernel, kept = None, m.kernel
    S.raises(lambda: m.compute_corrs_w_noise(ds), "no correlations before the kernel")
    m.kernel = kept
    m.method = "midpoint"
    m.rank_projection = False
    S.assume(N >= M + 2)
    S.raises(lambda: m.compute_corrs_w_noise(ds), "refused for the other quadratures")
    m.method = S.case.method
    nk, E = ft.nk, ft.E
    if S.case.proj:
        nk, K, E = projected(S, m, ft, M, d, dt)
    xi0 = lambda t, o: A["a"][t, o] - S.sum(0, ft.nf, lambda k: ft.Ef(t, k) * f[k, o])
    Lf = S.arr("Lf", N, 2)
    ds["w"] = S.xr.DataArray(Lf, dims=("time", "dim_w"))
    op = {"none": None, "name": "v", "wide": "w", "call": (lambda z: S.v(z["x"], "time", "dim_x") * 2), "other": (lambda z: S.v(z["w"], "time", "dim_w") * 2), "array": Lf, "labelled": S.xr.DataArray(Lf, dims=("time", "dim_x"))}[S.case.left]
    left = {"none": xi0, "name": (lambda t, o: A["v"][t, o]), "call": (lambda t, o: 2 * A["x"][t, o]), "other": (lambda t, o: 2 * Lf[t, o]), "array": (lambda t, o: Lf[t, o]), "wide": (lambda t, o: Lf[t, o]), "labelled": (lambda t, o: Lf[t, o])}[S.case.left]
    do = 2 if S.case.left in ("array", "labelled", "wide", "other") else d
    times, c = m.compute_corrs_w_noise(ds, op)
    tr = S.case.method in TR
    T = M if tr else M + 1
    S.shape(c, (T, do, d))
    tt = S.v(times)
    S.shape(tt, (T,))
    S.forall([("n", 0, T)], lambda n: S.eq(tt[n], n * dt, "times"))
    g = lambda t, k, j, l: E(t, k) * K[j, k, l]
    if tr:
        xi = lambda n, t, l: xi0(t + n, l) + dt / 2 * S.sum(0, n, lambda j: S.sum(0, nk, lambda k: g(t + n - j, k, j, l) + g(t + n - j - 1, k, j + 1, l)))
    else:
        xi = lambda n, t, l: xi0(t + n, l) + dt * S.sum(0, n, lambda j: S.sum(0, nk, lambda k: g(t + n - j, k, j, l)))
    L = N - 1
    S.forall([("n", 0, T), ("o", 0, do), ("l", 0, d)], lambda n, o, l: S.eq(
        c[n, o, l], S.sum(0, L - n + 1, lambda t: left(t, o) * xi(n, t, l)) / (L - n + 1), "correlation with the projected noise", 1.0))


def evolved(S, m, G0, K, f, T):
    """the model may have been evolved before, with other coefficients and times"""
    if S.symbolic or not S.rng.randint(3):
        return
    ops = [lambda me=me, q=q: m.evolve_volterra(G0, q, method=me) for me in ("rect", "trapz", "trapz_stab") for q in (2, T)]
    S.history(ops, [G0, K, f])
    kept = m.kernel
    m.kernel = kept.isel(time_kernel=slice(0, 2)) * 2
    S.history(ops + [lambda: m.evolve_volterra(G0, T, trunc_ind=1)])
    m.kernel = kept


@contract("C07", F + "Pos_gle_overdamped.evolve_volterra", product(method=["rect", "trapz", "default"], trunc=[False, True, 0]))
def evolve(S):
    d = 1
    dt = S.real("dt", 0.05, 0.3)
    b = S.abstract_basis("q", d)
    n = b.n_output_features_
    M, T, do = S.int("M", 2, 6), S.int("T", 1, 8), n
    m = model(S, "Pos_gle_overdamped", b, dt, d, dim_obs=n)
    K, f, G0 = S.arr("K", M + 1, n, n), S.arr("f", n, n), S.arr("G0", do, n)
    m.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"))
    m.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_dE"))
    evolved(S, m, G0, K, f, T)
    kw = {} if S.case.method == "default" else {"method": S.case.method}
    W = M
    if S.case.trunc == 0 and S.case.trunc is not False:
        kw["trunc_ind"] = 0
    elif S.case.trunc:
        W = S.int("W", 1, 5)
        S.assume(W <= M)
        kw["trunc_ind"] = W + 1
    t, E = m.evolve_volterra(G0, T, **kw)
    S.shape(E, (do, n, T))
    S.forall([("i", 0, T)], lambda i: S.eq(t[i], i * dt, "times"))
    S.forall([("o", 0, do), ("k", 0, n)], lambda o, k: S.eq(E[o, k, 0], G0[o, k], "initial condition"))
    th, hi = (1, lambda i: S.min(i, W) - 1) if S.case.method == "rect" else (S.half, lambda i: S.min(i, W))
    S.forall([("i", 1, T), ("o", 0, do), ("k", 0, n)], lambda i, o, k: S.eq(
        ide_step(S, E, K, f, dt, i, o, k, n, th, hi(i)), 0, "discretised evolution", 1.0))
    S.raises(lambda: m.evolve_volterra(S.arr("bad", n + 1, n), T, **kw), "initial value of the wrong shape")
    m.force_coeff = S.xr.DataArray(S.arr("f2", n + 1, n), dims=("dim_basis", "dim_dE"))
    S.raises(lambda: m.evolve_volterra(G0, T, **kw), "force not square")
    m.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_dE"))
    m.kernel = S.xr.DataArray(S.arr("K2", M + 1, n + 1, n), dims=("time_kernel", "dim_basis", "dim_dE"))
    S.raises(lambda: m.evolve_volterra(G0, T, **kw), "kernel not square")


@contract("C07", F + "Pos_gle_overdamped.evolve_volterra", product(trunc=[False, True], short=[False, True]), trials=3)
def evolve_stab(S):
    """the stabilised scheme is the compiled one, on the truncated kernel, with the step of the model"""
    dt = S.real("dt", 0.05, 0.3)
    b = S.abstract_basis("q", 1)
    n = b.n_output_features_
    M, T = S.int("M", 2, 6), S.int("T", 1, 2 if S.case.short else 8)
    m = model(S, "Pos_gle_overdamped", b, dt, 1, dim_obs=n)
    K, f, G0 = S.arr("K", M + 1, n, n), S.arr("f", n, n), S.arr("G0", n, n, lo=0.1)
    m.kernel = S.xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"))
    m.force_coeff = S.xr.DataArray(f, dims=("dim_basis", "dim_dE"))
    evolved(S, m, G0, K, f, T)
    W, kw = M + 1, {}
    if S.case.trunc:
        W = S.int("W", 2, 5)
        S.assume(W <= M + 1)
        kw["trunc_ind"] = W
    seen = []

    def step(K_, E0, f_, T_, dt_):
        """contract of the compiled routine for this caller (its own contract is proved on its source)"""
        seen.append((K_, E0, f_, T_, dt_))
        return S.arr("R", n, n, T)
    S.callee(S.vb("models"), "solve_ide_trapz_stab", step)
    t, E = m.evolve_volterra(G0, T, method="trapz_stab", **kw)
    S.shape(E, (n, n, T))
    S.forall([("i", 0, T)], lambda i: S.eq(t[i], i * dt, "times"))
    if S.symbolic:
        S.true(len(seen) == 1, "one call")
        K_, E0, f_, T_, dt_ = seen[0]
        S.shape(K_, (W, n, n), "truncated kernel"), S.shape(E0, (n, n)), S.shape(f_, (n, n))
        S.eq(T_, T, "number of times"), S.eq(dt_, dt, "time step")
        S.forall([("i", 0, W), ("j", 0, n), ("k", 0, n)], lambda i, j, k: S.eq(K_[i, j, k], K[i, j, k], "kernel"))
        S.forall([("j", 0, n), ("k", 0, n)], lambda j, k: (S.eq(E0[j, k], G0[j, k], "initial value"), S.eq(f_[j, k], f[j, k], "force")))
    else:
        S.allclose(E, S.vb("fkernel").solve_ide_trapz_stab(K[:W], G0, f, T, dt), "the compiled scheme")


# ------------------------------------------------------------------ save and load
@contract("C18", [F + "ModelBase.save_model", F + "ModelBase.load_model"], [dict(c, part=p, file=False) for c in MC for p in ("all", "force", "none")] + [dict(c, part="all", file=True) for c in MC] + [dict(c, part=p, file=False, flip=True) for c in MC for p in ("all", "force")], trials=2)
def save_load(S):
    """a saved model, reloaded with the same basis, has the same content and gives the same evaluations"""
    cls = S.case.cls
    N, d, dt, A, ds, b, ft = setup(S, cls, S.case.remove)
    if S.case.file and S.symbolic:
        return
    obs = "v" if cls == "Pos_gle_overdamped" else "a"
    T = S.int("T", 3, 9)
    m = model(S, cls, b, dt, d, trunc=T, L_obs=obs)
    if getattr(S.case, "flip", False):
        m.rank_projection = not m.rank_projection
    content = {}
    M = S.int("M", 1, 4)
    nb = ft.nk
    if S.case.part != "none":
        content["force_coeff"] = (S.arr("f", ft.nf, d), ("dim_basis", "dim_x"))
        content["gram_force"] = (S.arr("Gf", ft.nf, ft.nf), ("dim_basis", "dim_basis'"))
    if S.case.part == "all":
        if m.rank_projection:
            nb = S.int("rank", 1, 3)
            content["P_range"] = (S.arr("P", nb, ft.nk), ("dim_basis", "dim_basis_old"))
        content["kernel"] = (S.arr("K", M + 1, nb, d), ("time_kernel", "dim_basis", "dim_x"))
        content["gram_kernel"] = (S.arr("Gk", nb, nb), ("dim_basis", "dim_basis'"))
        content["eff_mass"] = (S.arr("W", d, d), ("dim_x'", "dim_x"))
        content["inv_mass_coeff"] = (S.arr("iW", nb, d, d), ("dim_basis", "dim_x", "dim_x'"))
        m.method = "trapz"
    for k, (v, dims) in content.items():
        co = {"time_kernel": S.np.arange(M + 1) * dt} if k == "kernel" else None
        setattr(m, k, S.xr.DataArray(v, dims=dims, coords=co))
    proj = bool(m.rank_projection)
    sv = m.save_model()
    if S.case.file:
        import tempfile, os
        with tempfile.TemporaryDirectory() as tmp:
            sv.to_netcdf(os.path.join(tmp, "m.nc"))
            sv = S.xr.load_dataset(os.path.join(tmp, "m.nc"))
    attrs = dict(sv.attrs)
    w = getattr(S.vb("models"), cls).load_model(b, sv)
    S.true(dict(sv.attrs).keys() == attrs.keys(), "the save is not altered")
    S.eq(getattr(S.vb("models"), cls).load_model(b, sv, dt=2 * dt).dt, 2 * dt, "an argument of load_model replaces the saved one")
    S.eq(sv.attrs["dt"], m.dt, "the save is not altered by an argument of load_model")
    S.eq(getattr(S.vb("models"), cls).load_model(b, sv).dt, m.dt, "saved time step at another load")
    for k in ["dt", "dim_x", "dim_obs", "trunc_ind"]:
        S.eq(getattr(w, k), getattr(m, k), k)
    for k in ["N_basis_elt", "N_basis_elt_force", "N_basis_elt_kernel"]:
        S.eq(getattr(w, k), getattr(m, k), k)
    S.true(w.L_obs == obs, "observable")
    S.true(bool(w.rank_projection) == proj, "range projection")
    S.true(w.method == m.method, "inversion method")
    for k in ["force_coeff", "gram_force", "P_range", "kernel", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
        if k not in content:
            S.true(getattr(w, k) is None, k + " not set")
            continue
        v, dims = content[k]
        r = S.v(getattr(w, k), *dims)
        S.shape(r, v.shape)
        S.forall([("i%d" % i, 0, s) for i, s in enumerate(v.shape)], lambda *ix: S.eq(r[ix], v[ix], k))
    if S.case.part == "all":
        tk = S.v(w.kernel["time_kernel"])
        S.forall([("i", 0, M + 1)], lambda i: S.eq(tk[i], i * dt, "times of the kernel"))
    if not S.symbolic and S.case.part == "all":
        x = A["x"]
        S.allclose(w.force_eval(x), m.force_eval(x), "same force")
        S.allclose(w.pmf_eval(x), m.pmf_eval(x), "same free energy")
        if cls != "Pos_gle_hybrid":
            S.allclose(S.v(w.kernel_eval(x)), S.v(m.kernel_eval(x)), "same kernel")
        S.allclose(S.v(w.compute_noise(ds)[1]), S.v(m.compute_noise(ds)[1]), "same noise")
