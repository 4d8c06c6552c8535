"""Numeric evaluation of terms (counterexample search, soundness cross-check of the prover)."""
import math, hashlib, random
from fractions import Fraction as Fr
import numpy as np
from . import terms as T
from .terms import P
from . import prove as PR
from .api import hashed

BUILTIN = {"sin": math.sin, "cos": math.cos, "exp": lambda x: math.exp(min(x, 500)), "log": lambda x: math.log(x) if x > 0 else 0.0,
           "sqrt": lambda x: math.sqrt(x) if x >= 0 else 0.0, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh,
           "log2": lambda x: math.log2(x) if x > 0 else 0.0, "pow2": lambda x: 2.0 ** min(x, 60), "clog2": lambda x: math.ceil(math.log2(x) - 1e-12) if x > 0 else 0,
           "pow": lambda a, b: float(a) ** float(b) if a > 0 else 0.0, "rint": lambda x: round(x), "ceil": lambda x: math.ceil(x - 1e-9)}


def _expm(i, j, *ent):
    import scipy.linalg
    n = math.isqrt(len(ent))
    return float(scipy.linalg.expm(np.clip(np.array(ent, dtype=float).reshape(n, n), -50, 50))[int(i), int(j)])


BUILTIN["expm"] = _expm
EVALMAP = {}     # symbol -> f(ev, args, random value) : a value that satisfies its axioms (X.FACTS)


def axioms_ok(names):
    """every symbol with axioms is evaluated in a way that satisfies them"""
    from . import ctx
    return not any(n in ctx.FACTS and n not in EVALMAP and n not in BUILTIN and n not in REDUCTS() for n in names)


def AR():
    from . import arrays
    return arrays


def REDUCTS():
    from . import arrays
    return arrays.REDUCTS


def rnd(seed, name, args):
    """value of an uninterpreted function (also the content of the arrays when the counterexample is replayed)"""
    return hashed(seed, name, args)


class Ev:
    def __init__(self, env, seed=0, funcs=None):
        self.env = env          # var name -> number
        self.seed = seed
        self.funcs = funcs or {}
        self.memo = {}
        self.steps = 0

    def rnd(self, name, args):
        return rnd(self.seed, name, args)

    def p(self, p, loc=None, mags=None):
        loc = loc or {}
        tot = 0.0
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                if a.kind == "iv":      # brackets first: they guard undefined terms
                    if not self.c(a.a, loc):
                        t = 0.0
                        break
            if t == 0.0:
                continue
            for a, e in m:
                if a.kind == "iv":
                    continue
                x = self.a(a, loc)
                if e < 0:
                    t *= (1.0 / x) ** (-e) if x else 0.0
                else:
                    t *= x ** e
            tot += t
            if mags is not None:
                mags.append(abs(t))
        return tot

    def i(self, p, loc):
        return int(round(self.p(p, loc)))

    def a(self, a, loc):
        if a.kind == "var":
            if a in loc:
                return loc[a]
            n = a.a[0]
            if n in self.env:
                return float(self.env[n])
            v = self.rnd("var:" + n, ())
            if a.sort == "int":
                v = 0
            self.env[n] = v
            return v
        if not (a.fv & set(loc)):
            r = self.memo.get(a.id)
            if r is None:
                r = self._a(a, loc)
                self.memo[a.id] = r
            return r
        return self._a(a, loc)

    def _a(self, a, loc):
        self.steps += 1
        if self.steps > 3000000:
            raise T.Unsupported("numeric evaluation too long")
        if a.kind == "inv":
            x = self.p(a.a[0], loc)
            return 1.0 / x if x else 0.0
        if a.kind == "sum":
            bs, body = a.a
            tot = 0.0

            def rec(i, loc):
                nonlocal tot
                if i == len(bs):
                    tot += self.p(body, loc)
                    return
                b, h = bs[i]
                for k in range(self.i(h, loc)):
                    rec(i + 1, {**loc, b: k})
            rec(0, loc)
            return tot
        name, args = a.a[0], a.a[1:]
        vals = [self.p(x, loc) for x in args]
        return self.call(name, vals, a.sort)

    def call(self, name, vals, sort):
        if name == "fdiv":
            return math.floor(vals[0] / vals[1] + 1e-12) if vals[1] else 0
        if name in BUILTIN:
            return BUILTIN[name](*vals)
        if name in self.funcs:
            return float(self.funcs[name](*vals))
        key = (name,) + tuple(round(v, 9) for v in vals)
        if key in self.memo:
            return self.memo[key]
        cargs = tuple(P.of(int(round(v))) if abs(v - round(v)) < 1e-9 else P.of(Fr(v).limit_denominator(10 ** 12)) for v in vals)
        if name in PR.ORTH:
            n = self.i(PR.ORTH[name], {})
            k2 = (name, "mat")
            if k2 not in self.memo:
                self.memo[k2] = np.linalg.qr(np.array([[self.rnd(name, (i, j)) for j in range(n)] for i in range(n)]).reshape(n, n))[0]
            i, j = int(round(vals[-2])), int(round(vals[-1]))
            r = self.memo[k2][i, j] if 0 <= i < n and 0 <= j < n else 0.0
        elif name in PR.MATINV:
            mi = PR.MATINV[name]
            pre = cargs[:mi.npre]
            n = self.i(mi.n(pre), {})
            k2 = (name, "mat") + key[1:1 + mi.npre]
            if k2 not in self.memo:
                M = np.array([[self.p(mi.M(pre, P.of(i), P.of(j))) for j in range(n)] for i in range(n)])
                self.memo[k2] = np.linalg.inv(M)
            i, j = int(round(vals[-2])), int(round(vals[-1]))
            r = self.memo[k2][i, j] if 0 <= i < n and 0 <= j < n else 0.0
        elif name in AR().ROOTS:
            root = AR().ROOTS[name]
            k2 = (name, "mat") + key[1:-1]
            if k2 not in self.memo:
                n = self.i(root.n, {})
                f = np.array([self.p(root.f(cargs[:-1], P.of(q))) for q in range(n)])
                self.memo[k2] = np.fft.ifft(np.sqrt(np.abs(np.fft.fft(f).real))).real
            i = int(round(vals[-1]))
            r = self.memo[k2][i] if 0 <= i < len(self.memo[k2]) else 0.0
        elif name in REDUCTS():
            el, sizes, kind, ng = REDUCTS()[name]
            import itertools
            vs = [self.p(el(cargs, tuple(P.of(i) for i in ix))) for ix in itertools.product(*[range(self.i(s, {})) for s in sizes])]
            r = (min if kind == "min" else max)(vs) if vs else 0.0
        elif name in PR.LETS:
            r = self.p(PR.LETS[name](cargs))
        elif name in PR.DEFS:
            d = PR.DEFS[name]
            if self.c(d.domain(cargs), {}) and self.fa(d, cargs):
                r = self.p(d.value(cargs))
            else:
                r = self.rnd(name, vals)
        else:
            r = self.rnd(name, vals)
            if name in EVALMAP:
                r = EVALMAP[name](self, vals, r)
            if sort == "int":
                r = int(r * 5)
        self.memo[key] = r
        return r

    def fa(self, d, cargs):
        if d.forall is None:
            return True
        m = T.fresh("m")
        n, body = d.forall(cargs, m)
        return all(self.c(T.csubst(body, {T.the_atom(m): P.of(k)}), {}) for k in range(self.i(n, {})))

    def c(self, c, loc=None):
        loc = loc or {}
        if isinstance(c, bool):
            return c
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "and":
            return all(self.c(x, loc) for x in c.a)
        if c.op == "or":
            return any(self.c(x, loc) for x in c.a)
        if c.op == "not":
            return not self.c(c.a[0], loc)
        v = self.p(c.a[0], loc)
        if c.op == "ge0":
            return v >= -1e-12
        if c.op == "gt0":
            return v > 1e-12
        return abs(v) < 1e-9


def random_env(conds, rng, tries=200):
    """random assignment of the integer variables satisfying the conditions (small sizes)"""
    vs = set()
    for c in conds:
        if isinstance(c, T.C):
            vs |= {a for a in c.fv if a.kind == "var"}
    ints = sorted([a for a in vs if a.sort == "int"], key=lambda a: a.id)
    for t in range(tries):
        hi = 3 if t < 40 else 6 if t < 100 else 9
        env = {a.a[0]: rng.randint(0, hi) for a in ints}
        env["pi"] = math.pi
        for a in vs:
            if a.sort != "int" and a.a[0] not in env:
                env[a.a[0]] = rng.choice([rng.uniform(0.05, 2), rng.uniform(-2, 2)])
        ev = Ev(dict(env), seed=rng.randint(0, 10 ** 9))
        try:
            if all(ev.c(c) for c in conds):
                return env, ev.seed
        except (ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
            continue
    return None


def refute(R, conds, seed=1, tries=60, tol=1e-6):
    """search a valuation of the context where |R| > tol: returns (env, value) or None"""
    if not axioms_ok(R.names | {n for c in conds if isinstance(c, T.C) for n in T.cnames(c)}):
        return None
    rng = random.Random(seed)
    found = 0
    for _ in range(tries):
        e = random_env(conds, rng, 60)
        if e is None:
            # ask the solver for sizes
            continue
        found += 1
        env, sd = e
        ev = Ev(dict(env), seed=sd)
        mags = []
        try:
            v = ev.p(R, None, mags)
        except (ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
            continue
        if tol * max([1.0] + mags) < abs(v) < 1e12:
            return {**ev.env, "#seed": sd}, v
    return None


def refute_cond(c, conds, seed=1, tries=60):
    """search a valuation of the context where the condition fails"""
    if not axioms_ok({n for k in list(conds) + [c] if isinstance(k, T.C) for n in T.cnames(k)}):
        return None
    rng = random.Random(seed)
    for _ in range(tries):
        e = random_env(list(conds) + [T.Not(c)], rng, 60)
        if e is not None:
            env, sd = e
            return {**env, "#seed": sd}, "condition false"
    return None
