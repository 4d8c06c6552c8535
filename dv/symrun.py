"""Symbolic reading of the contracts: every obligation for all sizes and values, from the current sources."""
import json, multiprocessing, os, signal, sys, time, traceback, copy
from . import terms as T
from . import ctx as X
from . import prove as PR
from . import arrays as A
from . import runtime as RT
from . import evalt
from . import api
from .api import Skip, Case
from .terms import P, C, And, Or, Not, ge0, eq0, le, lt, ge, eq, TRUE, FALSE, Unsupported

LIMIT = {"quick": 240, "thorough": 1500}       # seconds per contract and case


class TimeUp(BaseException):
    pass


class Stop(Exception):
    """end of the path (violated shape obligation)"""


def clean_env(e):
    """sizes, numbers and seed of the array contents, for the replay"""
    return {k: (v if isinstance(v, int) else float(v)) for k, v in e.items() if not k.startswith("$") and "!" not in k}


class Sink:
    def __init__(self, contract, case, limit):
        self.contract, self.case = contract, case
        self.obl = []
        self.seen = {}
        self.where = []
        self.undecided = []
        self.spec = 0
        self.spied = False

    def snapshot(self):
        return list(X.cur.conds)

    def add(self, label, fn, key, neg):
        """fn() -> Result in the current context; neg: (term, conds) to look for a counterexample"""
        k = (key, A.ctxkey())
        if k in self.seen:
            return self.seen[k]
        o = {"contract": self.contract, "case": self.case, "label": label, "status": "unknown", "why": "", "env": None}
        saved, X.cur.oracle = X.cur.oracle, None
        hook, A.Obligations.hook = A.Obligations.hook, None
        t0 = time.time()
        try:
            try:
                r = fn()
                ok, why = bool(r), r.why
            except (Unsupported, X.Undecided) as e:
                ok, why = False, "%s: %s" % (type(e).__name__, e)
            if ok:
                o["status"] = "proved"
            else:
                o["why"] = str(why)[:500]
                cex = None
                try:
                    cex = neg()
                except (Unsupported, X.Undecided, RecursionError) as e:
                    o["why"] += " (no evaluation: %s)" % e
                if cex is not None:
                    # what is said of the calls of a helper is not a property of the results: left to the reading by execution
                    o["status"] = "unknown" if self.spied else "refuted"
                    o["env"] = clean_env(cex[0])
                    if self.spied:
                        o["replay_as"] = self.spied
                    o["why"] = "counterexample %s: residual %r; %s" % ({k: (v if isinstance(v, int) else float(v)) for k, v in cex[0].items()}, cex[1], o["why"])
                elif os.environ.get("DV_DEBUG"):
                    rr = r if "r" in dir() else None
                    print("UNKNOWN", self.contract, label, why)
                    try:
                        print("   residual", T.show(r.residual)[:1500] if r.residual is not None else None)
                        print("   ctx", [repr(c) for c in (r.ctx or [])])
                    except Exception as e:
                        print(e)
        finally:
            X.cur.oracle = saved
            A.Obligations.hook = hook
        o["seconds"] = round(time.time() - t0, 3)
        self.obl.append(o)
        self.seen[k] = o["status"]
        return o["status"]

    def zero(self, R, label):
        R = P.of(R)
        conds = self.snapshot()
        return self.add(label, lambda: PR.prove_goal(R), ("z", label, R), lambda: evalt.refute(R, conds))

    def cond(self, c, label):
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        conds = self.snapshot()
        return self.add(label, lambda: PR.prove_cond(c), ("c", label, c.key), lambda: evalt.refute_cond(c, conds))

    def hook(self, c, label, conds=None):
        if isinstance(c, bool):
            if c:
                return
            c = FALSE
        label = "well-definedness: " + label
        if conds is None:
            self.cond(c, label)
            return
        saved = X.cur.conds
        X.cur.conds = list(conds)
        try:
            self.cond(c, label)
        finally:
            X.cur.conds = saved


class Calls:
    def __init__(self, name, params):
        self.name, self.params, self.made = name, params, []

    def args(self, *names):
        """functions of the iteration and of the indices"""
        if sorted(names) != sorted(self.params):
            raise Unsupported("parameters of %s: %s" % (self.name, self.params))
        if not self.made:
            raise Unsupported("%s is not called" % self.name)
        L, rnd, rec = self.made[-1]
        if any(l is not L for l, _, _ in self.made) or len([1 for _, r, _ in self.made if r is rnd]) != 1 or len(L.paths) != 1:
            raise Unsupported("%s is not called once per iteration" % self.name)

        def fn(k):
            sh, xs, t = rec[k]

            def at(q, *ix):
                m = {L.qa: A.tp(q)}
                m.update(zip(xs, map(A.tp, ix)))
                return A.num(T.subst(RT.resolve(L, t), m))
            at.shape = sh
            return at
        return [fn(k) for k in names]


class SymS:
    symbolic = True
    rng = None

    def __init__(self, case, world, sink):
        self.case = Case(case)
        self.world = world
        self.sink = sink
        self.np, self.xr = world.np, world.xr

    # -- inputs
    def vb(self, name=""):
        return self.world.loader.load("VolterraBasis" + ("." + name if name else ""))

    def callee(self, mod, name, stand):
        """modular reading: the callers in mod see the contract of the callee (checked by its own contract), not its body"""
        setattr(mod, name, stand)

    def spied(self, obj, name, result, replay_as):
        """modular reading of a method called in a loop over a symbolic range: the call made at iteration q returns result(q), whatever
        that is; its arguments are recorded, to be stated by the contract as functions of the iteration; replay_as: contract of the same
        cases that runs the whole on numbers"""
        import inspect
        try:
            sig = inspect.signature(getattr(obj, name))
        except AttributeError:
            raise Unsupported("%s is not there" % name)
        calls = Calls(name, list(sig.parameters))
        self.sink.spied = replay_as

        def stub(*a, **kw):
            if not RT.ACTIVE or RT.ACTIVE[-1].__class__ is not RT.SymLoop:
                raise Unsupported("%s called outside of a loop" % name)
            L = RT.ACTIVE[-1]
            b = sig.bind(*a, **kw)
            rec = {}
            for k, v in b.arguments.items():
                v = A.asarr(v)
                xs = [T.fresh("x") for _ in v.sh]
                with X.assuming(*[c for x, n in zip(xs, v.sh) for c in (ge(x, 0), T.lt(x, n))]):
                    rec[k] = (tuple(v.sh), [T.the_atom(x) for x in xs], A.el2p(v.el(tuple(xs))))
            calls.made.append((L, L.paths, rec))
            return result(A.num(L.q))
        setattr(obj, name, stub)
        return calls

    def history(self, ops, scribble=()):
        """only in the reading by execution: here the state of the objects is the one their construction leaves"""

    def exact_fits(self, ps):
        """the data of the contract have exactly the fitted form, with one of these parameters"""
        from . import npshim
        npshim.EXACT[:] = [list(p) for p in ps]

    def int(self, name, lo, hi=None, sym=True, strict=False):
        v = T.var(name)
        X.cur.conds.append(ge(v, lo))
        return A.num(v)

    def real(self, name, lo=-2.0, hi=2.0):
        v = T.var(name, "real")
        if lo >= 0:
            X.cur.conds.append(T.gt(v, 0))
        return A.num(v)

    def arr(self, name, *shape, lo=-1.0, hi=1.0, ints=False):
        if lo >= 0:
            def pos(args, name=name):
                return [T.gt(T.atomP(T.rawapp(name, tuple(args), "real")), 0)]
            X.FACTS[name] = pos
            evalt.EVALMAP[name] = lambda ev, args, r: lo + (hi - lo) * (r + 1) / 2
        return A.new(shape, lambda idx: T.app(name, tuple(idx)), "f")

    def iarr(self, name, *shape, lo=0, hi=None):
        """array of integers, between lo (included) and hi (excluded)"""
        lo, hi = A.tp(lo), A.tp(hi)

        def rng(args):
            t = T.atomP(T.rawapp(name, tuple(args), "int"))
            return [le(lo, t), lt(t, hi)]
        X.FACTS[name] = rng
        X.LINKED.add(name)
        evalt.EVALMAP[name] = lambda ev, args, r: min(int(round(ev.p(hi))) - 1, int((r + 1) / 2 * (ev.p(hi) - ev.p(lo)) + ev.p(lo)))
        return A.new(shape, lambda idx: T.app(name, tuple(idx), "int"), "i")

    def opaque(self):
        """smallest and largest values are named, not developed in cases"""
        A.OPAQUE.append(True)

    def named_extrema(self):
        """the bounds of the values are not needed"""
        A.NAMED.append(True)

    def unroll(self, n):
        """sums of at most n terms are written out"""
        T.UNROLL[0] = n

    def rank(self, *es):
        """the place of these elements in the sorted arrays made so far is spoken of"""
        from . import npshim
        for s in npshim.Sorted.all:
            s.named += [A.tp(e) for e in es]

    def fn(self, name, *args):
        """any function of these arguments"""
        return A.num(T.app(name, tuple(A.tp(a) for a in args)))

    def stand_ins(self, replay_as):
        """the objects of another library are replaced by any objects of the same interface: what they refute is left to the reading by
        execution (contract replay_as)"""
        self.sink.spied = replay_as

    def psd(self, name, n, rank):
        """any symmetric positive matrix of that rank"""
        from . import npshim
        self.arr(name + "_s", n, lo=0.5, hi=2.0)
        return npshim.psd(name, A.tp(n), A.tp(rank))

    def root(self, name, n, npar, f):
        """the even signal of n points, for each value of the npar parameters, of which the periodic product with itself is the covariance f
        of the periodic grid"""
        self.np.pi      # its bounds are known before the loops
        A.ROOTS[name] = A.Root(A.tp(n), npar, lambda args, q: A.tp(f(*[A.num(x) for x in args], A.num(q))))
        return lambda *a: A.num(T.app(name, tuple(A.tp(x) for x in a)))

    def fourier(self, g, w, f, t, label):
        """g is the Fourier integral of f on the grid t, at the frequencies w"""
        if not isinstance(g, A.Spec) or not isinstance(w, A.Freq) or g.half or g.sh or len(g.facs) != 1 or g.facs[0][0] or w.imag:
            raise Unsupported("form of the spectrum")
        dt, t0 = A.tp(t[1] - t[0]), A.tp(t[0])
        for a, b in ((w.n, A.tp(f.shape[0])), (g.n, w.n), (w.coef * dt, A.tp(self.np.pi) * 2), (g.coef, dt), (g.shift * dt, -t0)):
            self.sink.zero(a - b, label)
        r, e = g.facs[0][1], A.asarr(f)
        self.forall([("q", 0, f.shape[0])], lambda q: self.sink.zero(A.el2p(r.el((A.tp(q),))) - A.el2p(e.el((A.tp(q),))), label))

    def white(self, name, replay_as):
        """what the generator of random numbers returns: the symbol name, of the iterations of the loops around the call and of the indices;
        called once, or once per iteration. replay_as: contract of the same cases that runs the whole on numbers"""
        self.sink.spied = replay_as
        made = []

        def rng(*a, size=None, **kw):
            if a or kw:
                raise Unsupported("drawing with other arguments than a size")
            L = RT.ACTIVE[-1] if RT.ACTIVE else None
            paths = L.paths if L is not None else None
            if made and (L is None or any(l is not L for l, _ in made) or any(p is paths for _, p in made)):
                raise Unsupported("more than one drawing")
            made.append((L, paths))
            g = RT.generic_args()
            sh = tuple(A.tp(n) for n in (size if isinstance(size, (tuple, list)) else (size,)))
            return A.new(sh, lambda ix: T.app(name, tuple(g) + tuple(ix)), "f")
        return rng

    def known(self, a, b):
        """whether an integer is this one"""
        try:
            return bool(X.entails(eq(A.tp(a), A.tp(b))))
        except Unsupported:
            return False

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Skip()
            return
        X.cur.conds.append(c)
        if not X.consistent():
            raise Skip()

    half = A.num(P.of(T.Fr(1, 2)))

    def well(self, B):
        pass

    def splrep(self, x, y, k=3):
        from .npshim import splrep
        return splrep(x, y, k=k)

    def splev(self, x, tck, der=0):
        from .npshim import splev
        return splev(x, tck, der)

    def ceq(self, a, b):
        return A.num(eq(A.tp(a), A.tp(b)))

    def implies(self, c, f):
        c = A.tc(c)
        with X.assuming(c):
            if X.consistent():
                self.local(f)

    def lin(self, G, b):
        return A.solve(G, b)

    def vec(self, *xs):
        return A.asarr(list(xs))

    def in_range(self, Xa, lo, hi):
        """precondition: the elements of Xa are between lo and hi"""
        lo, hi = A.tp(lo), A.tp(hi)
        name = T.the_atom(A.el2p(Xa.el(tuple(T.var("$e") for _ in Xa.sh)))).a[0]

        def rng(args):
            t = T.atomP(T.rawapp(name, tuple(args), "real"))
            return [le(lo, t), le(t, hi)]
        X.FACTS[name] = rng
        X.LINKED.add(name)
        evalt.EVALMAP[name] = lambda ev, args, r: ev.p(lo) + (ev.p(hi) - ev.p(lo)) * (r + 1) / 2

    def partial(self, f, Xa, p, d):
        """derivative of f(X) with respect to X[p, d], away from jumps"""
        p, d = A.tp(p), A.tp(d)
        if getattr(Xa, "coord", None) is not None:
            u, row = Xa.coord
            ua = T.the_atom(A.tp(u))
            isu = lambda a: T.ONE if a is ua else None
            x = A.el2p(Xa.el((p, d)))
            return A.num(T.diff(A.tp(f(Xa)), isu) / T.diff(x, isu))
        at = T.the_atom(A.el2p(Xa.el((p, d))))
        name = at.a[0]
        t = A.tp(f(Xa))

        def isx(a):
            if a.kind == "app" and a.a[0] == name:
                return T.iv(And(eq(a.a[1], p), eq(a.a[2], d)))
            return None
        return A.num(T.diff(t, isx))

    def with_row(self, Xa, p, x, u):
        """the points Xa with the (single coordinate of) row p at x, a function of the parameter u"""
        p, x = A.tp(p), A.tp(x)
        rd = A.asarr(Xa).reader()
        r = A.new(Xa.sh, lambda i: T.ite(eq(i[0], p), x, A.el2p(rd(i))), "f")
        r.coord = (u, p)
        return r

    def polyfam(self, name):
        from .npshim import FAMS
        return FAMS[name]

    def poly(self, fam, n, x):
        return fam.basis(n)(x)

    def spline_data(self):
        n, k = self.int("nk", 8), self.int("deg", 1)
        return self.arr("knots", n), self.arr("coeffs", n), k

    def spline(self, t, c, k, x):
        from .npshim import BSpline
        return BSpline(t, c, k)(x)

    def abstract_basis(self, name, dim, const_removed=False, nmax=3, drop=0):
        from .absbasis import AbstractBasis
        return AbstractBasis(self, name, dim, const_removed, drop)

    def fit_recorder(self):
        from .absbasis import FitRecorder
        return FitRecorder()

    # -- formulas
    def sum(self, lo, hi, f):
        lo, hi = A.tp(lo), A.tp(hi)
        v = T.fresh("m")
        with X.assuming(ge(v, lo), lt(v, hi)):
            if not X.consistent():
                return 0
            t = A.tp(f(A.num(v)))
        return A.num(T.Sum(v, hi, t, lo=lo))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            r = a if c else b
            return r() if callable(r) else r
        c = A.tc(c)
        with X.assuming(c):
            x = A.tp(a() if callable(a) else a) if X.consistent() else T.ZERO
        with X.assuming(Not(c)):
            y = A.tp(b() if callable(b) else b) if X.consistent() else T.ZERO
        return A.num(T.ite(c, x, y))

    def min(self, a, b):
        return A.num(T.tmin(A.tp(a), A.tp(b)))

    def max(self, a, b):
        return A.num(T.tmax(A.tp(a), A.tp(b)))

    def abs(self, a):
        return A.num(T.tabs(A.tp(a)))

    def fdiv(self, a, b):
        return A.num(T.fdiv(A.tp(a), A.tp(b)))

    def and_(self, *cs):
        return A.num(And(*[A.tc(c) for c in cs]))

    def or_(self, *cs):
        return A.num(Or(*[A.tc(c) for c in cs]))

    def not_(self, c):
        return A.num(Not(A.tc(c)))

    def any_of(self, *cs):
        return A.num(Or(*[A.tc(c) for c in cs]))

    def sqrt(self, x): return A.num(T.sqrt(A.tp(x)))
    def _f(self, n, x):
        return self.np.fun1(n, x)
    def sin(self, x): return self._f("sin", x)
    def cos(self, x): return self._f("cos", x)
    def exp(self, x): return self._f("exp", x)
    def cosh(self, x): return self._f("cosh", x)
    def pow(self, a, b): return A.num(A.tpow(A.tp(a), A.tp(b)))

    @property
    def pi(self):
        return self.np.pi

    def v(self, x, *dims):
        if hasattr(x, "dims"):
            if dims:
                if set(x.dims) != set(dims):
                    self.sink.cond(FALSE, "dimensions %r, expected %r" % (x.dims, dims))
                    raise Stop()
                x = x.transpose(*dims)
            return A.asarr(x)
        return A.asarr(x)

    # -- obligations
    def eq(self, a, b, label="eq", scale=0.0, tol=None):
        self.sink.zero(A.tp(a) - A.tp(b), label)

    def true(self, c, label="cond"):
        if isinstance(c, A.Num):
            c = Not(eq0(c.t))
        self.sink.cond(c if isinstance(c, (bool, C)) else bool(c), label)

    def le(self, a, b, label="le"):
        self.sink.cond(le(A.tp(a), A.tp(b)), label)

    def integer(self, x, label):
        self.sink.cond(TRUE if A.tp(x).sort == "int" else eq0(A.tp(x) - A.tfloor(A.tp(x))), label)

    def local(self, f):
        X.explore(f)

    def forall(self, ranges, f, label=None):
        def rec(i, idx):
            if i == len(ranges):
                self.local(lambda: f(*idx))
                return
            n, lo, hi = ranges[i]
            lo = lo(*idx) if callable(lo) else lo
            hi = hi(*idx) if callable(hi) else hi
            lo, hi = A.tp(lo), A.tp(hi)
            d = hi - lo
            if d.const() is not None and lo.const() is not None and d.const() <= 4:
                for k in range(int(lo.const()), int(hi.const())):
                    rec(i + 1, idx + [k])
                return
            v = T.fresh(n)
            with X.assuming(ge(v, lo), lt(v, hi)):
                if X.consistent():
                    rec(i + 1, idx + [A.num(v)])
        rec(0, [])

    def shape(self, x, shp, label="shape"):
        s = [A.tp(k) for k in x.shape]
        e = [A.tp(k) for k in shp]
        if len(s) != len(e):
            self.sink.cond(FALSE, label + ": %d dimensions, specification %d" % (len(s), len(e)))
            raise Stop()
        for a, b in zip(s, e):
            if self.sink.zero(a - b, label) == "refuted":
                raise Stop()

    def _all(self, a, b, label):
        a, b = self._plain(a), self._plain(b)
        self.shape(a, b.shape, label)
        self.forall([("x%d" % i, 0, n) for i, n in enumerate(a.shape)], lambda *ix: self.sink.zero(
            A.el2p(a.el(tuple(A.tp(i) for i in ix))) - A.el2p(b.el(tuple(A.tp(i) for i in ix))), label))

    def _plain(self, a):
        return A.asarr(a)

    def same(self, a, b, label="same"):
        self._all(a, b, label)

    def allclose(self, a, b, label="allclose", tol=None, scale=None):
        self._all(a, b, label)

    def raises(self, f, label="raises"):
        try:
            f()
        except (Unsupported, X.Undecided):
            raise
        except Exception:
            self.sink.cond(TRUE, label)
            return
        self.sink.cond(FALSE, label)

    def contained(self, f, label):
        f()

    def snapshot(self, x):
        return copy.deepcopy(x)


def install_facts():
    pass


def run_case(root, c, ci, case, tier):
    """executed in a child process"""
    from .world import World
    t0 = time.time()
    sink = Sink(c.name, {k: repr(v) for k, v in case.items()}, LIMIT[tier])
    out = {"contract": c.name, "targets": c.targets, "case": sink.case, "paths": 0, "precondition": False, "canary": None}

    def alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT[tier])
    sys.setrecursionlimit(20000)
    try:
        X.reset()
        world = World(root)
        s = None

        def run():
            RT.ACTIVE.clear(), RT.GEN.clear(), A.Tracker.stack.clear()
            S = SymS(case, world, sink)
            A.Obligations.hook = sink.hook
            out["paths"] += 1
            try:
                c.f(S)
            except Skip:
                return
            except Stop:
                pass
            except (Unsupported, X.Undecided) as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = [f for f in tb if "VolterraBasis" in f.filename or f.filename.endswith(".f90")]
                at = at[-1] if at else tb[-1]
                sink.undecided.append("%s%s: %s (%s:%s)" % (c.name, sink.case or "", e, os.path.basename(at.filename), at.lineno))
                if os.environ.get("DV_DEBUG"):
                    traceback.print_exc()
            except Exception as e:
                if os.environ.get("DV_DEBUG"):
                    traceback.print_exc()
                env = None
                try:
                    r = evalt.random_env(list(X.cur.conds), evalt.random.Random(1))
                    env = clean_env({**r[0], "#seed": r[1]}) if r else None
                except Exception:
                    pass
                sink.obl.append({"contract": c.name, "case": sink.case, "label": "no exception on valid input", "status": "exception",
                                 "why": "".join(traceback.format_exception_only(type(e), e)).strip()[:400], "env": env})
            finally:
                A.Obligations.hook = None
                RT.ACTIVE.clear(), RT.GEN.clear(), A.Tracker.stack.clear()
            # vacuity: the path is satisfiable by numbers, and a false statement is not accepted
            if not out["precondition"]:
                try:
                    r = evalt.random_env(list(X.cur.conds), evalt.random.Random(7), 400)
                    out["precondition"] = r is not None or X.model() is not None
                except Exception:
                    pass
            if out["canary"] is None and out["precondition"]:
                saved, X.cur.oracle = X.cur.oracle, None
                out["canary"] = not bool(PR.prove_zero(T.ONE))
                X.cur.oracle = saved
        X.explore(run)
    except TimeUp:
        sink.undecided.append("%s%s: time limit" % (c.name, sink.case or ""))
    except (Unsupported, X.Undecided, RecursionError, MemoryError) as e:
        sink.undecided.append("%s%s: %s" % (c.name, sink.case or "", e))
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        sink.undecided.append("%s%s: internal: %s" % (c.name, sink.case or "", "".join(traceback.format_exception_only(type(e), e)).strip()))
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    for o in sink.obl:
        if o["status"] in ("unknown", "exception"):
            sink.undecided.append("%s%s: %s not decided (%s)" % (c.name, sink.case or "", o["label"], o["why"][:160]))
    out["obligations"] = sink.obl
    out["undecided"] = sorted(set(sink.undecided))
    out["stats"] = dict(X.STATS)
    out["seconds"] = round(time.time() - t0, 2)
    return out


CS = []      # contracts of the property (inherited by the worker processes)


def _job(a):
    root, prop, name, ci, tier = a
    try:
        c = [c for c in CS if c.name == name][0]
        return run_case(root, c, ci, c.cases[ci], tier)
    except BaseException as e:
        return {"contract": name, "targets": [], "case": {}, "paths": 0, "precondition": True, "canary": True, "obligations": [],
                "undecided": ["%s: internal: %r" % (name, e)], "stats": {}, "seconds": 0}


def main():
    prop, root, outp = sys.argv[1:4]
    tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
    only = os.environ.get("DV_ONLY")
    cs = [c for c in api.load(prop)]
    CS.extend(cs)
    jobs = [(root, prop, c.name, ci, tier) for c in cs if c.symbolic for ci in range(len(c.cases)) if not only or only in c.name]
    res = []
    if os.environ.get("DV_SEQ"):
        res = [_job(j) for j in jobs]
    else:
        with multiprocessing.Pool(int(os.environ.get("DV_PROCS", 8)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_job, jobs, chunksize=1):
                res.append(r)
    res.sort(key=lambda r: (r["contract"], json.dumps(r["case"])))
    obs = [o for r in res for o in r["obligations"]]
    und = sorted({u for r in res for u in r["undecided"]})
    for c in cs:
        if not c.symbolic:
            und.append("%s: %s" % (c.name, c.why or "outside the verifier's reach"))
    # vacuity: obligations under a context for which no instance was found, or in which a false statement is accepted, do not count
    vac = []
    for r in res:
        if r["obligations"] and (not r["precondition"] or r["canary"] is False):
            vac.append("%s%s" % (r["contract"], r["case"]))
            und.append("%s%s: vacuous context, obligations not counted" % (r["contract"], r["case"]))
            for o in r["obligations"]:
                if o["status"] == "proved":
                    o["status"] = "vacuous"
    st = {}
    for r in res:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    contracts = [{"contract": r["contract"], "case": r["case"], "targets": r["targets"], "paths": r["paths"], "obligations": len(r["obligations"]),
                  "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "seconds": r["seconds"]} for r in res]
    out = {"obligations": [o for o in obs if o["status"] != "proved"], "generated": len(obs), "discharged": sum(o["status"] == "proved" for o in obs),
           "undecided": und, "contracts": contracts, "backends": {k: v for k, v in st.items() if "calls" in k}, "labels": sorted({o["label"] for o in obs}),
           "solver_seconds": round(sum(v for k, v in st.items() if "time" in k), 2), "vacuous": vac,
           "assumptions": ASSUMPTIONS}
    json.dump(out, open(outp, "w"), indent=1, default=str)
    print("%s: %d/%d discharged, %d refuted, %d undecided" % (prop, out["discharged"], out["generated"], sum(o["status"] == "refuted" for o in obs), len(und)))
    if os.environ.get("DV_VERBOSE"):
        for c in contracts:
            print("  ", c["contract"], c["case"], c["discharged"], "/", c["obligations"], "paths", c["paths"], c["seconds"], "s")
        for o in obs:
            if o["status"] != "proved":
                print("  ", o["status"], o["contract"], o["case"], o["label"], o["why"][:300])
        for u in und[:40]:
            if "no exception" not in u:
                print("   undecided:", u[:300])


ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic, integers are unbounded",
    "denominators and inverted matrices of the code are non singular (definedness precondition)",
    "arrays are finite, real and do not alias each other unless the code creates the alias",
]

if __name__ == "__main__":
    main()
