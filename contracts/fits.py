"""Contracts of the fits of the memory kernel (VolterraBasis/fit_memory.py, fit_prony.py)."""
from dv.api import contract, product

F = "VolterraBasis/fit_memory.py:"
P = "VolterraBasis/fit_prony.py:"

FORMS = {
    "exp": (("a", "b"), lambda S, t, a, b: a * S.exp(-b * t)),
    "exponential": (("a", "b"), lambda S, t, a, b: a * S.exp(-b * t)),
    "expnorm": (("b",), lambda S, t, b: S.exp(-b * t)),
    "exp_norm": (("b",), lambda S, t, b: S.exp(-b * t)),
    "doubleexpnorm": (("b", "c", "al"), lambda S, t, b, c, al: al * S.exp(-b * t) + (1 - al) * S.exp(-c * t)),
    "double_exp_norm": (("b", "c", "al"), lambda S, t, b, c, al: al * S.exp(-b * t) + (1 - al) * S.exp(-c * t)),
    "sech": (("a", "b", "nu"), lambda S, t, a, b, nu: a / S.pow(S.cosh(b * t), nu)),
    "sech_one": (("a", "b"), lambda S, t, a, b: a / S.cosh(b * t)),
    "sech_two": (("a", "b"), lambda S, t, a, b: a / (S.cosh(b * t) * S.cosh(b * t))),
    "gaussian": (("a", "b"), lambda S, t, a, b: a * S.exp(-b * t * t)),
}


@contract("C21", [F + "memory_fit_eval"] + [F + n for n in ("exp_fct", "expnorm_fct", "double_expnorm_fct", "sech_fct", "sech_one_fct", "sech_two_fct", "gaussian_fct")], product(form=list(FORMS), pair=[False, True]), trials=3)
def forms(S):
    """each named form evaluates to its formula"""
    names, f = FORMS[S.case.form]
    N = S.int("N", 1, 6)
    t = S.arr("t", N, lo=-1.0, hi=2.0)
    p = [S.real(n, 0.2, 2.0) for n in names]
    ev = S.vb("fit_memory").memory_fit_eval
    r = ev(t, (S.case.form, p)) if S.case.pair else ev(t, p, type=S.case.form)
    S.shape(r, (N,))
    S.forall([("n", 0, N)], lambda n: S.eq(r[n], f(S, t[n], *p), "formula"))
    S.raises(lambda: ev(t, p, type="other"), "unknown form")


@contract("C21", F + "memory_kernel_eval", product(form=["exp", "sech_two", "gaussian", "doubleexpnorm"], nb=[1, 2], dx=[1, 2], pair=[False, True]), trials=2)
def kernel_forms(S):
    """component (k, d) of the kernel is evaluated with its own parameters"""
    names, f = FORMS[S.case.form]
    nb, dx = S.case.nb, S.case.dx
    N = S.int("N", 1, 6)
    t = S.arr("t", N, lo=0.0, hi=2.0)
    p = [[[S.real("%s_%d_%d" % (n, k, d), 0.2, 2.0) for n in names] for k in range(nb)] for d in range(dx)]
    ev = S.vb("fit_memory").memory_kernel_eval
    r = ev(t, (S.case.form, p)) if S.case.pair else ev(t, p, type=S.case.form)
    S.shape(r, (N, nb, dx))
    for k in range(nb):
        for d in range(dx):
            S.forall([("n", 0, N)], lambda n: S.eq(r[n, k, d], f(S, t[n], *p[d][k]), "formula of the component"))


def expm00(S, A, t):
    """element (0, 0) of the exponential of t A"""
    if S.symbolic:
        from dv.npshim import expm
    else:
        from scipy.linalg import expm
    return expm(A * t)[0, 0]


@contract("C21", [P + "prony_series_eval", P + "prony_series_kernel_eval"], product(m=[1, 2, 3], nb=[1, 2], dx=[1, 2]), trials=2)
def prony_eval(S):
    """y0 exp(t A)_00 for every time and component"""
    m = S.vb("fit_prony")
    N, nb, dx, q = S.int("N", 2, 6), S.case.nb, S.case.dx, S.case.m
    t = S.arr("t", N, lo=-1.0, hi=2.0)
    par = [[(S.real("y_%d_%d" % (k, d), 0.5, 2.0), S.arr("A_%d_%d" % (k, d), q, q)) for k in range(nb)] for d in range(dx)]
    r = m.prony_series_eval(t, *par[0][0])
    S.shape(r, (N,))
    S.forall([("n", 0, N)], lambda n: S.eq(r[n], par[0][0][0] * expm00(S, par[0][0][1], t[n]), "series"))
    K = m.prony_series_kernel_eval(t, par)
    S.shape(K, (N, nb, dx))
    for k in range(nb):
        for d in range(dx):
            S.forall([("n", 0, N)], lambda n: S.eq(K[n, k, d], par[d][k][0] * expm00(S, par[d][k][1], t[n]), "series of each component"))


def exponentials(S, n, N, dt):
    np = S.np
    t = np.arange(N) * dt
    b = np.cumsum(S.arr("b", n, lo=0.6, hi=1.5))
    c = S.arr("c", n, lo=0.5, hi=1.5)
    return t, sum(ci * np.exp(-bi * t) for ci, bi in zip(c, b))


SERIES = {"one": 1, "two": 2, "three": 3, "signs": 2, "slow": 2, "lasting": 1, "faint": 2, "cosine": 2, "cosine_exp": 3, "alternating": 1, "alternating_exp": 2}


def series(S, kind, dt):
    """an exact sum of decaying exponentials, real or in conjugate pairs, as a function of the time"""
    np = S.np
    r = lambda n, lo, hi: S.real(n + str(S.rng.randint(10 ** 6)), lo, hi)
    if kind in ("one", "two", "three", "signs"):
        n = SERIES[kind]
        b = np.cumsum(S.arr("b", n, lo=0.6, hi=1.5))
        c = S.arr("c", n, lo=0.5, hi=1.5)
        if kind == "signs":
            c[1] *= -0.6
        return lambda t: sum(ci * np.exp(-bi * t) for ci, bi in zip(c, b))
    if kind == "slow":          # one of the rates far below the inverse of the duration
        b, q, c = r("b", 0.6, 1.5), r("q", 0.001, 0.03), S.arr("c", 2, lo=0.5, hi=1.5)
        return lambda t: c[0] * np.exp(-b * t) + c[1] * np.exp(-q * t)
    if kind == "faint":         # one of the terms much smaller than the other
        b, c, q = r("b", 0.6, 1.5), r("c", 0.5, 1.5), 10 ** r("log", -4.5, -2.0)
        return lambda t: c * (np.exp(-b * t) + q * np.exp(-0.2 * b * t))
    if kind == "lasting":       # hardly decays
        c, q = r("c", 0.5, 1.5), r("q", 0.001, 0.02)
        return lambda t: c * np.exp(-q * t)
    a, b, w, p = r("a", 0.5, 1.5), r("b", 0.3, 1.0), r("w", 1.0, 3.0), r("p", -0.5, 0.5)
    if kind.startswith("alternating"):
        w, p = np.pi / dt, 0.0
        if S.rng.randint(2):
            b = r("fast", 2.4, 4.0) / dt if kind == "alternating_exp" else b
    e, q = (r("e", 0.3, 0.9), r("q", 1.0, 2.0)) if kind.endswith("_exp") else (0.0, 1.0)
    return lambda t: a * np.exp(-b * t) * np.cos(w * t + p) + e * np.exp(-q * t)


@contract("C21", [P + "prony_fit_times_serie", P + "get_jacobi_matrix_reduced", P + "ldl_hankel", P + "clean_eigenvalues", P + "prony_fit_kernel"], product(kind=list(SERIES), opt=["none", "keep", "more", "thres", "both"]), symbolic=False,
          why="singular and eigenvalue decompositions", trials=2)
def prony_fit(S):
    """fitting an exact sum of decaying exponentials and evaluating the fit gives the series back, also between and beyond the fitted times"""
    np = S.np
    m, fm = S.vb("fit_prony"), S.vb("fit_memory")
    n = SERIES[S.case.kind]
    N = S.int("N", 13, 40)
    dt = S.real("dt", 0.2, 0.3)
    t = np.arange(N) * dt
    f = [series(S, S.case.kind, dt) for i in range(2)]
    y = f[0](t)
    kw = {"none": {}, "keep": {"N_keep": n}, "more": {"N_keep": n + 2}, "thres": {"thres": 1e-9}, "both": {"thres": 1e-9, "N_keep": n}}[S.case.opt]
    y0, A = m.prony_fit_times_serie(y.copy(), dt, **kw)
    S.allclose(m.prony_series_eval(t, y0, A), y, "fitted series", tol=1e-5)
    y1, A1 = m.prony_fit_times_serie(y.copy(), dt, remove=False, **kw)
    S.allclose(m.prony_series_eval(t, y1, A1), y, "fitted series", tol=1e-5)
    far = np.sort(S.arr("far", 5, lo=0.0, hi=1.2 * N * dt))
    S.allclose(m.prony_series_eval(far, y0, A), f[0](far), "fitted series at other times", tol=1e-5)
    tc = t.reshape(N, 1)
    K = np.zeros((N, 2, 1))
    K[:, 0, 0], K[:, 1, 0] = y, f[1](t)
    for tt in (t, tc):
        L = m.prony_fit_kernel(tt, K, **kw)
        S.allclose(m.prony_series_kernel_eval(tt, L), K, "fitted kernel", tol=1e-5)
        S.allclose(fm.memory_fit_eval(tt, fm.memory_fit(tt, y.copy(), type="prony", **kw)), y, "fitted series", tol=1e-5)
        S.allclose(fm.memory_kernel_eval(tt, fm.memory_fit_kernel(tt, K, type="prony", **kw)), K, "fitted kernel", tol=1e-5)


@contract("C21", [P + "prony_inspect_data", P + "reconstruct_data"], product(opt=["none", "keep", "thres"]), symbolic=False, why="singular value decomposition", trials=4)
def prony_inspect(S):
    """data of low rank are not changed by the filtering"""
    np = S.np
    m = S.vb("fit_prony")
    N = 2 * S.int("h", 5, 9) + 1
    t, y = exponentials(S, 2, N, 0.3)
    y = y * S.real("scale", -2.0, 2.0)
    r = m.prony_inspect_data(y.copy(), **{"none": {}, "keep": {"N_keep": 2}, "thres": {"thres": 1e-9}}[S.case.opt])
    S.allclose(r, y, "filtered data", tol=1e-6)


class Vec:
    """the functions of the formulas, on arrays"""
    def __init__(self, S):
        np = S.np
        self.exp, self.cosh, self.pow = np.exp, np.cosh, lambda a, b: a ** b


NB, DX = 2, 2
CONVERGES = ("exp", "expnorm", "sech_one", "sech_two", "gaussian")       # from the initial guess of the code


@contract("C21", [F + "memory_fit", F + "memory_fit_kernel", F + "memory_fit_eval", F + "memory_kernel_eval"], product(form=list(FORMS)), trials=4)
def fit(S):
    """fitting data that have exactly the fitted form gives the data back (the optimiser finds exact parameters when they exist)"""
    np = S.np
    m = S.vb("fit_memory")
    form = S.case.form
    names, f = FORMS[form]
    if not S.symbolic and form not in CONVERGES:
        S.assume(False)         # convergence of the optimiser is not claimed
    N = S.int("N", 3) if S.symbolic else 60
    dt = S.real("dt", 0.04, 0.06)
    t = np.arange(N) * dt
    ps = [[[S.real("%s_%d_%d" % (n, k, d), 0.8, 1.6) for n in names] for k in range(NB)] for d in range(DX)]
    S.exact_fits([q for p in ps for q in p])
    y = f(Vec(S), t, *ps[0][0])
    keep = S.snapshot(y)
    r = m.memory_fit(t, y, type=form)
    S.true(r[0] == form, "name of the form")
    S.allclose(m.memory_fit_eval(t, r), y, "fitted data", tol=1e-4)
    S.allclose(m.memory_fit_eval(t, r[1], type=form), y, "fitted data", tol=1e-4)
    if form == "exp" and not S.symbolic:        # data that decay by many orders of magnitude: the tail as well
        tl = np.arange(400) * dt
        yl = f(Vec(S), tl, *ps[0][0])
        S.allclose(m.memory_fit_eval(tl, m.memory_fit(tl, yl, type=form)) / yl, np.ones(400), "tail of the fitted data", tol=1e-4)
    if form == "exp":
        r = m.memory_fit(t, y)
        S.true(r[0] in ("exp", "exponential"), "form by default")
        S.allclose(m.memory_fit_eval(t, r), y, "fitted data", tol=1e-4)
    K = np.zeros((N, NB, DX))
    for k in range(NB):
        for d in range(DX):
            K[:, k, d] = f(Vec(S), t, *ps[d][k])
    tt = t.reshape(N, 1)
    r = m.memory_fit(tt, y, type=form)
    S.allclose(m.memory_fit_eval(t, r), y, "fitted data, column of times", tol=1e-4)
    L = m.memory_fit_kernel(tt, K, type=form)
    S.allclose(m.memory_kernel_eval(t, L), K, "fitted kernel, column of times", tol=1e-4)
    if form == "exp":
        L = m.memory_fit_kernel(t, K)
        S.true(L[0] in ("exp", "exponential"), "form by default")
        S.allclose(m.memory_kernel_eval(t, L), K, "fitted kernel", tol=1e-4)
    L = m.memory_fit_kernel(t, K, type=form)
    S.true(L[0] == form, "name of the form of the kernel")
    S.allclose(m.memory_kernel_eval(t, L), K, "fitted kernel", tol=1e-4)
    S.same(y, keep, "the data are not altered")
    S.raises(lambda: m.memory_fit(t, y, type="other"), "unknown form")
    S.raises(lambda: m.memory_fit(t, K, type=form), "data of more than one dimension")


@contract("C21", [F + "memory_fit", F + "memory_fit_kernel", P + "prony_fit_kernel", F + "memory_fit_eval"], trials=4)
def prony_wiring(S):
    """series are fitted component by component, with the time step of the data (the fit of one series is a callee)"""
    np = S.np
    m, q = S.vb("fit_memory"), S.vb("fit_prony")
    N = S.int("N", 3) if S.symbolic else 15
    dt = S.real("dt", 0.2, 0.4)
    t = np.arange(N) * dt
    c = [[S.real("c_%d_%d" % (k, d), 0.5, 1.5) for k in range(NB)] for d in range(DX)]
    b = [[S.real("b_%d_%d" % (k, d), 0.6, 1.5) for k in range(NB)] for d in range(DX)]
    y = lambda k, d: c[d][k] * np.exp(-b[d][k] * t)

    def one(data, step, thres=None, N_keep=None, remove=True):
        """contract of prony_fit_times_serie, one exponential: data(n) = data(0) exp(a n step)"""
        S.eq(step, dt, "time step of the series")
        S.true(thres == 0.001 and N_keep == 1, "options of the series")
        return data[0], S.vec(S.np.log(data[1] / data[0]) / dt).reshape(1, 1)
    kw = {"thres": 0.001, "N_keep": 1}
    S.callee(m, "prony_fit_times_serie", one)
    S.callee(q, "prony_fit_times_serie", one)
    r = m.memory_fit(t, y(0, 0), type="prony", **kw)
    S.allclose(m.memory_fit_eval(t, r), y(0, 0), "series", tol=1e-5)
    K = np.zeros((N, NB, DX))
    for k in range(NB):
        for d in range(DX):
            K[:, k, d] = y(k, d)
    S.allclose(q.prony_series_kernel_eval(t, q.prony_fit_kernel(t, K, **kw)), K, "series of the kernel", tol=1e-5)
    S.allclose(m.memory_kernel_eval(t, m.memory_fit_kernel(t, K, type="prony", **kw)), K, "series of the kernel", tol=1e-5)


@contract("C21", P + "reconstruct_data", trials=4)
def hankel_data(S):
    """the series is read back from its Hankel matrix"""
    n = S.int("n", 0, 6)
    y = S.arr("y", 2 * n + 1)
    H = S.np.zeros((n + 1, n + 1))
    if S.symbolic:
        from dv.npshim import hankel
    else:
        from scipy.linalg import hankel
    H = hankel(y[: n + 1], y[n : 2 * n + 1])
    r = S.vb("fit_prony").reconstruct_data(H)
    S.shape(r, (2 * n + 1,))
    S.forall([("i", 0, 2 * n + 1)], lambda i: S.eq(r[i], y[i], "element"))


@contract("C21", F + "markovian_friction", product(nb=[1, 2], dx=[1, 2], col=[False, True]), trials=3)
def friction(S):
    """integral of every component of the kernel"""
    h, nb, dx = S.int("h", 1, 4), S.case.nb, S.case.dx
    N = 2 * h + 1
    dt = S.real("dt", 0.2, 0.4)
    t = S.np.arange(N) * dt
    K = S.arr("K", N, nb, dx)
    r = S.vb("fit_memory").markovian_friction(t.reshape(N, 1) if S.case.col else t, K)[1]
    for d in range(dx):
        for k in range(nb):
            S.eq(r[d][k], dt / 3 * S.sum(0, h, lambda j: K[2 * j, k, d] + 4 * K[2 * j + 1, k, d] + K[2 * j + 2, k, d]), "Simpson rule", 1.0)
