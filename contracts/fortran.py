"""Contracts of the compiled kernels (VolterraBasis/fkernel.f90).

Index conventions of the specification: kernels K(i, k, l), correlations B(j, k, n), D(j, l, n).
"""
from dv.api import contract, product

F = "VolterraBasis/fkernel.f90:"


def conv(S, w, B, K, j, l, n, nb, lo, hi):
    """sum_{lo<=m<hi} w(m) sum_k B[j,k,n-m] K[m,k,l]"""
    return S.sum(lo, hi, lambda m: w(m) * S.sum(0, nb, lambda k: B[j, k, n - m] * K[m, k, l]))


def mags(S, B, K, D, dt):
    return 1.0 if S.symbolic else 1e-3 + abs(dt) * S.np.abs(B).max() * S.np.abs(K).max() * B.shape[0] * K.shape[0] + S.np.abs(D).max()


def setup(S, lmin=2, name="B"):
    L = S.int("L", lmin, lmin + 6)      # last index: the series have L+1 points
    nb = S.int("nb", 1, 3)
    dx = S.int("dx", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    B = S.arr(name, nb, nb, L + 1)
    D = S.arr("D", nb, dx, L + 1)
    S.well(B)
    return L, nb, dx, dt, B, D


@contract("C02", F + "kernel_first_kind_rect")
def first_kind_rect(S):
    """dt sum_{m<=i} B(i+1-m) K(m) = -D(i+1), i < L"""
    L, nb, dx, dt, B, D = setup(S, 1)
    K = S.vb("fkernel").kernel_first_kind_rect(B, D, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, B, K, D, dt)
    S.forall([("i", 0, L), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        conv(S, lambda m: dt, B, K, j, l, i + 1, nb, 0, i + 1), -D[j, l, i + 1], "rectangular Volterra equation", sc))


@contract("C02", F + "kernel_first_kind_midpoint")
def first_kind_midpoint(S):
    """2 dt sum_{m<=i} B(2(i-m)+1) K(m) = -D(2i+2): K(m) is the kernel at time (2m+1) dt"""
    L, nb, dx, dt, B, D = setup(S, 2)
    n = S.fdiv(L, 2)
    K = S.vb("fkernel").kernel_first_kind_midpoint(B, D, dt)
    S.shape(K, (n, nb, dx))
    sc = mags(S, B, K, D, dt)
    S.forall([("i", 0, n), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        S.sum(0, i + 1, lambda m: 2 * dt * S.sum(0, nb, lambda k: B[j, k, 2 * (i - m) + 1] * K[m, k, l])),
        -D[j, l, 2 * i + 2], "midpoint Volterra equation", sc))


@contract("C02", F + "kernel_first_kind_trapz")
def first_kind_trapz(S):
    L, nb, dx, dt, B, D = setup(S, 1)
    k0 = S.arr("k0", nb, dx)
    K = S.vb("fkernel").kernel_first_kind_trapz(k0, B, D, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, B, K, D, dt)
    S.forall([("j", 0, nb), ("l", 0, dx)], lambda j, l: S.eq(K[0, j, l], k0[j, l], "initial value"))
    S.forall([("i", 1, L + 1), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        conv(S, lambda m: dt, B, K, j, l, i, nb, 1, i)
        + dt / 2 * S.sum(0, nb, lambda k: B[j, k, i] * K[0, k, l] + B[j, k, 0] * K[i, k, l]),
        -D[j, l, i], "trapezoidal Volterra equation", sc))


def simpson_sum(S, B, K, j, l, i, nb, dt):
    """composite Simpson rule of B(i-m)K(m) over m=0..i (odd i: trapezoidal rule on the first interval)"""
    g = lambda m: S.sum(0, nb, lambda k: B[j, k, i - m] * K[m, k, l])
    h = dt / 3
    odd = i - 2 * S.fdiv(i, 2)
    # pairs start at s = odd: weights h (1,4,2,...,4,1) on s..i
    np_ = S.fdiv(i - odd, 2)
    body = S.sum(0, np_, lambda q: h * g(odd + 2 * q) + 4 * h * g(odd + 2 * q + 1) + h * g(odd + 2 * q + 2))
    return body + odd * (dt / 2 * g(0) + dt / 2 * g(odd))


@contract("C02", F + "kernel_first_kind_simpson")
def first_kind_simpson(S):
    L, nb, dx, dt, B, D = setup(S, 1)
    k0 = S.arr("k0", nb, dx)
    K = S.vb("fkernel").kernel_first_kind_simpson(k0, B, D, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, B, K, D, dt)
    S.forall([("j", 0, nb), ("l", 0, dx)], lambda j, l: S.eq(K[0, j, l], k0[j, l], "initial value"))
    S.forall([("i", 1, L + 1), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        simpson_sum(S, B, K, j, l, i, nb, dt), -D[j, l, i], "Simpson Volterra equation", sc))


def setup2(S, lmin=1):
    L, nb, dx, dt, Bd, Dd = setup(S, lmin, "Bdot")
    B0 = S.arr("B0", nb, nb)
    S.well(B0)
    k0 = S.arr("k0", nb, dx)
    return L, nb, dx, dt, B0, Bd, Dd, k0


@contract("C03", F + "kernel_second_kind_rect")
def second_kind_rect(S):
    """B0 K(i) = dt sum_{m<i} Bdot(i-m) K(m) + Ddot(i)"""
    L, nb, dx, dt, B0, Bd, Dd, k0 = setup2(S)
    K = S.vb("fkernel").kernel_second_kind_rect(k0, B0, Bd, Dd, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, Bd, K, Dd, dt)
    S.forall([("j", 0, nb), ("l", 0, dx)], lambda j, l: S.eq(K[0, j, l], k0[j, l], "initial value"))
    S.forall([("i", 1, L + 1), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        S.sum(0, nb, lambda k: B0[j, k] * K[i, k, l]),
        conv(S, lambda m: dt, Bd, K, j, l, i, nb, 0, i) + Dd[j, l, i], "rectangular second kind equation", sc))


@contract("C03", F + "kernel_second_kind_trapz")
def second_kind_trapz(S):
    L, nb, dx, dt, B0, Bd, Dd, k0 = setup2(S)
    if not S.symbolic:
        Bd *= 0.2
    K = S.vb("fkernel").kernel_second_kind_trapz(k0, B0, Bd, Dd, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, Bd, K, Dd, dt)
    S.forall([("j", 0, nb), ("l", 0, dx)], lambda j, l: S.eq(K[0, j, l], k0[j, l], "initial value"))
    S.forall([("i", 1, L + 1), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        S.sum(0, nb, lambda k: B0[j, k] * K[i, k, l]),
        conv(S, lambda m: dt, Bd, K, j, l, i, nb, 1, i)
        + dt / 2 * S.sum(0, nb, lambda k: Bd[j, k, i] * K[0, k, l] + Bd[j, k, 0] * K[i, k, l]) + Dd[j, l, i],
        "trapezoidal second kind equation", sc))


@contract("C03", F + "kernel_second_kind_simpson")
def second_kind_simpson(S):
    L, nb, dx, dt, B0, Bd, Dd, k0 = setup2(S)
    if not S.symbolic:
        Bd *= 0.2
    K = S.vb("fkernel").kernel_second_kind_simpson(k0, B0, Bd, Dd, dt)
    S.shape(K, (L + 1, nb, dx))
    sc = mags(S, Bd, K, Dd, dt)
    S.forall([("j", 0, nb), ("l", 0, dx)], lambda j, l: S.eq(K[0, j, l], k0[j, l], "initial value"))
    S.forall([("i", 1, L + 1), ("j", 0, nb), ("l", 0, dx)], lambda i, j, l: S.eq(
        S.sum(0, nb, lambda k: B0[j, k] * K[i, k, l]), simpson_sum(S, Bd, K, j, l, i, nb, dt) + Dd[j, l, i],
        "Simpson second kind equation", sc))


# ------------------------------------------------------------------ quadratures
def quad_setup(S, nmin=1):
    n = S.int("n", nmin, nmin + 6)
    do, nb, dx = S.int("dout", 1, 2), S.int("nb", 1, 3), S.int("dx", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    return n, do, nb, dx, dt, S.arr("B", do, nb, n + 1), S.arr("K", n + 1, nb, dx)


def quad(name, w, nmin=1, sig=None):
    def f(S):
        n, do, nb, dx, dt, B, K = quad_setup(S, nmin)
        r = getattr(S.vb("fkernel"), name)(dt, B, K)
        S.shape(r, (do, dx))
        S.forall([("j", 0, do), ("l", 0, dx)], lambda j, l: S.eq(
            r[j, l], w(S, B, K, j, l, n, nb, dt), "quadrature"))
    f.__name__ = name + "_sum"
    return f


contract("C02", F + "rect_integral")(quad("rect_integral", lambda S, B, K, j, l, n, nb, dt: conv(S, lambda m: dt, B, K, j, l, n, nb, 0, n)))
contract("C02", F + "trapz_integral")(quad("trapz_integral", lambda S, B, K, j, l, n, nb, dt:
    conv(S, lambda m: dt, B, K, j, l, n, nb, 1, n) + dt / 2 * S.sum(0, nb, lambda k: B[j, k, n] * K[0, k, l])))
contract("C02", F + "simpson_integral")(quad("simpson_integral", lambda S, B, K, j, l, n, nb, dt:
    simpson_sum(S, B, K, j, l, n, nb, dt) - dt / 3 * S.sum(0, nb, lambda k: B[j, k, 0] * K[n, k, l]), 2))


# ------------------------------------------------------------------ memory term
def mem_setup(S):
    L = S.int("L", 1, 8)
    M = S.int("M", 1, 8)
    nb, dx = S.int("nb", 1, 3), S.int("dx", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    return L, M, nb, dx, dt, S.arr("K", M + 1, nb, dx), S.arr("E", L + 1, nb)


@contract("C05", F + "memory_rect")
def memory_rect(S):
    L, M, nb, dx, dt, K, E = mem_setup(S)
    m = S.vb("fkernel").memory_rect(K, E, dt)
    S.shape(m, (L + 1, dx))
    S.forall([("l", 0, dx)], lambda l: S.eq(m[0, l], 0, "no memory at the initial time"))
    S.forall([("i", 1, L + 1), ("l", 0, dx)], lambda i, l: S.eq(
        m[i, l], -dt * S.sum(0, S.min(i, M) + 1, lambda j: S.sum(0, nb, lambda k: E[i - j, k] * K[j, k, l])), "rectangular memory integral"))


@contract("C05", F + "memory_trapz")
def memory_trapz(S):
    L, M, nb, dx, dt, K, E = mem_setup(S)
    m = S.vb("fkernel").memory_trapz(K, E, dt)
    S.shape(m, (L + 1, dx))
    g = lambda i, j, l: S.sum(0, nb, lambda k: E[i - j, k] * K[j, k, l])
    S.forall([("l", 0, dx)], lambda l: S.eq(m[0, l], 0, "no memory at the initial time"))
    # composite trapezoidal rule: sum over the intervals [j, j+1] of the past
    S.forall([("i", 1, L + 1), ("l", 0, dx)], lambda i, l: S.eq(
        m[i, l], -dt * S.sum(0, S.min(i, M), lambda j: (g(i, j, l) + g(i, j + 1, l)) / 2), "trapezoidal memory integral"))


# ------------------------------------------------------------------ noise correlations
def corr_setup(S):
    M = S.int("M", 1, 6)
    L = S.int("L", 2, 12)
    S.assume(L >= M + 1)
    nb, dx, do = S.int("nb", 1, 3), S.int("dx", 1, 2), S.int("dobs", 1, 2)
    dt = S.real("dt", 0.05, 0.5)
    return L, M, nb, dx, do, dt, S.arr("N0", L + 1, dx), S.arr("K", M + 1, nb, dx), S.arr("E", L + 1, nb), S.arr("Lf", L + 1, do)


@contract("C06", F + "corrs_rect")
def corrs_rect(S):
    """the noise propagated over n steps, xi_n(t) = xi_0(t+n) + dt sum_{m<n} E(t+n-m) K(m), correlated with left(t)"""
    L, M, nb, dx, do, dt, N0, K, E, Lf = corr_setup(S)
    c = S.vb("fkernel").corrs_rect(N0, K, E, Lf, dt)
    S.shape(c, (M + 1, do, dx))
    noise = lambda n, t, l: N0[t + n, l] + dt * S.sum(0, n, lambda m: S.sum(0, nb, lambda k: E[t + n - m, k] * K[m, k, l]))
    S.forall([("n", 0, M + 1), ("o", 0, do), ("l", 0, dx)], lambda n, o, l: S.eq(
        c[n, o, l], S.sum(0, L - n + 1, lambda t: Lf[t, o] * noise(n, t, l)) / (L - n + 1), "correlation with the projected noise"))


@contract("C06", F + "corrs_trapz")
def corrs_trapz(S):
    L, M, nb, dx, do, dt, N0, K, E, Lf = corr_setup(S)
    c = S.vb("fkernel").corrs_trapz(N0, K, E, Lf, dt)
    S.shape(c, (M, do, dx))
    noise = lambda n, t, l: N0[t + n, l] + dt / 2 * S.sum(0, n, lambda m: S.sum(
        0, nb, lambda k: E[t + n - m, k] * K[m, k, l] + E[t + n - m - 1, k] * K[m + 1, k, l]))
    S.forall([("n", 0, M), ("o", 0, do), ("l", 0, dx)], lambda n, o, l: S.eq(
        c[n, o, l], S.sum(0, L - n + 1, lambda t: Lf[t, o] * noise(n, t, l)) / (L - n + 1), "correlation with the projected noise"))


# ------------------------------------------------------------------ integro-differential evolution
def ide_setup(S):
    T = S.int("T", 1, 9)        # number of times
    M = S.int("M", 1, 6)        # last index of the kernel
    nb, do = S.int("nb", 1, 3), S.int("dout", 1, 2)
    dt = S.real("dt", 0.05, 0.3)
    return T, M, nb, do, dt, S.arr("K", M + 1, nb, nb), S.arr("E0", do, nb), S.arr("f", nb, nb)


def ide_step(S, E, K, f, dt, i, o, k, nb, theta, hi):
    """residual of one implicit step: E(i)(1 + theta dt^2 K0) - E(i-1)(1 + dt f) + dt^2 sum_{1<=m<hi} E(i-m) K(m)"""
    g = lambda m: S.sum(0, nb, lambda q: E[o, q, i - m] * K[m, q, k])
    return (E[o, k, i] + theta * dt * dt * S.sum(0, nb, lambda q: E[o, q, i] * K[0, q, k])
            - E[o, k, i - 1] - dt * S.sum(0, nb, lambda q: E[o, q, i - 1] * f[q, k]) + dt * dt * S.sum(1, hi, g))


@contract("C07", F + "solve_ide_rect")
def ide_rect(S):
    T, M, nb, do, dt, K, E0, f = ide_setup(S)
    E = S.vb("fkernel").solve_ide_rect(K, E0, f, T, dt)
    S.shape(E, (do, nb, T))
    S.forall([("o", 0, do), ("k", 0, nb)], lambda o, k: S.eq(E[o, k, 0], E0[o, k], "initial condition"))
    S.forall([("i", 1, T), ("o", 0, do), ("k", 0, nb)], lambda i, o, k: S.eq(
        ide_step(S, E, K, f, dt, i, o, k, nb, 1, S.min(i, M) - 1), 0, "discretised evolution", 1.0))


@contract("C07", F + "solve_ide_trapz")
def ide_trapz(S):
    T, M, nb, do, dt, K, E0, f = ide_setup(S)
    E = S.vb("fkernel").solve_ide_trapz(K, E0, f, T, dt)
    S.shape(E, (do, nb, T))
    S.forall([("o", 0, do), ("k", 0, nb)], lambda o, k: S.eq(E[o, k, 0], E0[o, k], "initial condition"))
    S.forall([("i", 1, T), ("o", 0, do), ("k", 0, nb)], lambda i, o, k: S.eq(
        ide_step(S, E, K, f, dt, i, o, k, nb, S.half, S.min(i, M)), 0, "discretised evolution", 1.0))


@contract("C07", F + "solve_ide_trapz_stab")
def ide_trapz_stab(S):
    """each step of the trapezoidal scheme is clipped at zero and normalised to a total of one"""
    T, M, nb, do, dt, K, E0, f = ide_setup(S)
    if not S.symbolic:
        E0 = S.np.abs(E0) + 0.1
        K, f = 0.2 * K, 0.2 * f
    E = S.vb("fkernel").solve_ide_trapz_stab(K, E0, f, T, dt)
    S.shape(E, (do, nb, T))
    S.forall([("o", 0, do), ("k", 0, nb)], lambda o, k: S.eq(E[o, k, 0], E0[o, k], "initial condition"))
    S.forall([("i", 1, T), ("o", 0, do), ("k", 0, nb)], lambda i, o, k: S.true(E[o, k, i] >= 0, "never negative"))
    S.forall([("i", 1, T)], lambda i: S.eq(S.sum(0, do, lambda o: S.sum(0, nb, lambda k: E[o, k, i])), 1, "total of one"))
    if not S.symbolic:
        np = S.np
        iK = np.linalg.inv(np.eye(nb) + 0.5 * dt ** 2 * K[0])
        for i in range(1, T):
            mem = sum([E[:, :, i - m] @ K[m] for m in range(1, min(i, M))], np.zeros((do, nb))) * dt
            P = np.maximum((E[:, :, i - 1] - dt * mem + dt * E[:, :, i - 1] @ f) @ iK, 0)
            S.allclose(E[:, :, i], P / P.sum(), "clipped and normalised step")
