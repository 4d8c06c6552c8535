"""Contracts of VolterraBasis/correlation.py: out[..., n] = 1/(N-n) sum_{k<N-n} a[..., k] b[..., k+n]"""
from dv.api import contract, product

F = "VolterraBasis/correlation.py:"


def trunc_of(S, N, how):
    if how == "none":
        return None, N
    T = S.int("T", 1, 12)
    return T, S.min(N, T)


def lag(S, x, y, n, N):
    """average over the N-n available pairs of x(k) y(k+n)"""
    return S.sum(0, N - n, lambda k: x(k) * y(k + n)) / (N - n)


def one_d(name):
    def f(S):
        N = S.int("N", 1, 12)
        a = S.arr("a", N, ints=True)
        b = S.arr("b", N, ints=True)
        trunc, M = trunc_of(S, N, S.case.trunc)
        fn = getattr(S.vb("correlation"), name)
        c = fn(a, b if S.case.cross else None, trunc)
        S.shape(c, (M,))
        y = b if S.case.cross else a
        S.forall([("n", 0, M)], lambda n: S.eq(c[n], lag(S, lambda k: a[k], lambda k: y[k], n, N), "lagged average"))
    f.__name__ = name
    return f


def n_d(name):
    def f(S):
        N = S.int("N", 1, 12)
        D1, D2 = S.int("D1", 1, 3), S.int("D2", 1, 3)
        trunc, M = trunc_of(S, N, S.case.trunc)
        fn = getattr(S.vb("correlation"), name)
        if S.case.cross:
            a, b = S.arr("a", D1, 1, N, ints=True), S.arr("b", D2, N, ints=True)
            c = fn(a, b, trunc)
            S.shape(c, (D1, D2, M))
            S.forall([("i", 0, D1), ("j", 0, D2), ("n", 0, M)], lambda i, j, n: S.eq(
                c[i, j, n], lag(S, lambda k: a[i, 0, k], lambda k: b[j, k], n, N), "lagged average"))
        else:
            a = S.arr("a", D1, N, ints=True)
            c = fn(a, None, trunc)
            S.shape(c, (D1, D1, M))
            S.forall([("i", 0, D1), ("j", 0, D1), ("n", 0, M)], lambda i, j, n: S.eq(
                c[i, j, n], lag(S, lambda k: a[j, k], lambda k: a[i, k], n, N), "lagged average"))
    f.__name__ = name
    return f


CASES = product(cross=[False, True], trunc=["none", "some"])
contract("C01", F + "correlation_1D", CASES)(one_d("correlation_1D"))
contract("C01", F + "correlation_direct_1D", CASES)(one_d("correlation_direct_1D"))
contract("C01", F + "correlation_ND", CASES)(n_d("correlation_ND"))
contract("C01", F + "correlation_direct_ND", CASES)(n_d("correlation_direct_ND"))


@contract("C01", [F + n for n in ("correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND")], product(fn=["correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND"]), trials=2, symbolic=False,
          why="proved for all lengths above, in real arithmetic; here long series, on numbers")
def long_series(S):
    """series of about a hundred thousand points, at a few lags"""
    np = S.np
    N = 2 ** 17 - S.rng.randint(3) if S.rng.randint(2) else S.rng.randint(60000, 140000)
    T = S.int("T", 2, 7)
    x, y = S.rng.normal(size=N) + 0.5, S.rng.normal(size=N) - 0.5
    spec = [np.dot(x[: N - n], y[n:]) / (N - n) for n in range(T)]
    two = S.case.fn.endswith("ND")
    c = getattr(S.vb("correlation"), S.case.fn)(x.reshape(1, 1, N) if two else x, y.reshape(1, N) if two else y, T)
    S.allclose(c[0, 0] if two else c, np.array(spec), "lagged averages of long series", tol=1e-9, scale=1.0)
