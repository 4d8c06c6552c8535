"""Execution of loops over a symbolic number of iterations.

The body of the loop is executed once per feasible path for a generic iteration q.  Everything the body
changes (array contents, rebound variables) becomes a state component: before iteration q it is the
uninterpreted symbol st!k(outer counters, q, index).  The transition R(q, index) read off the body is then
turned into a definition of the state (the loop invariant), by recognising
   accumulation            st(q+1,x) = st(q,x) + inc(q,x)
   last value              st(q+1,x) = V(q,x) on a region that does not depend on q
   map                     index x is written in one iteration g(x) only
   shift and accumulate    st(q+1,x) = st(q,x+e) + inc(q,x)
or, failing that, keeping the recursion st(q,x) = R(q-1,x) itself.  The recognised form is verified from R
(entailments proved by the SMT back end), never assumed.
"""
import itertools
from . import terms as T
from . import ctx as X
from . import prove as PR
from . import arrays as A
from .terms import P, C, And, Or, Not, ge0, eq0, le, lt, ge, eq, TRUE, FALSE, Unsupported

ACTIVE = []      # active symbolic loops, outermost first
GEN = []         # generic index variables (loop counters, vectorised indices)
_ids = itertools.count()


def generic_args():
    return tuple(GEN)


class Undef:
    """a variable that has no definite value"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _no(self, *a, **k):
        raise Unsupported("use of a variable without a definite value (%s)" % object.__getattribute__(self, "_why"))

    def __getattribute__(self, n):
        if n in ("__class__", "__dict__"):
            return object.__getattribute__(self, n)
        Undef._no(self)


for _n in "add radd sub rsub mul rmul truediv rtruediv floordiv mod pow neg abs lt le gt ge eq ne getitem setitem call iter len bool index int float hash".split():
    setattr(Undef, "__%s__" % _n, lambda self, *a, **k: Undef._no(self))

UNBOUND = object()


# ------------------------------------------------------------------ iterables of symbolic length
class SymIter:
    def __init__(self, count, item):
        self.count, self.item = count, item

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range in an expression")

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __reversed__(self):
        n, it = self.count, self.item
        return SymIter(n, lambda q: it(n - 1 - q))


def rng(*a):
    """range"""
    if all(isinstance(x, int) or (A.tp(x).as_int() is not None) for x in a):
        return range(*[x if isinstance(x, int) else A.tp(x).as_int() for x in a])
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi, st = A.tp(lo), A.tp(hi), A.tp(st)
    if any(x.sort != "int" for x in (lo, hi, st)):
        raise TypeError("range of a non integer")
    s = st.as_int()
    if not s:
        raise Unsupported("range with a symbolic step")
    d = hi - lo if s > 0 else lo - hi
    n = d if abs(s) == 1 else T.fdiv(d + (abs(s) - 1), P.of(abs(s)))
    if not A.dec(ge0(d)):
        return range(0)
    return SymIter(n, lambda q: A.num(lo + q * s))


def as_iter(x):
    """SymIter of an object, or None when it can be iterated natively"""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, A.Arr) and x.ndim and x.sh[0].as_int() is None:
        return SymIter(x.sh[0], lambda q: x[A.num(q)])
    if hasattr(x, "sym_iter"):
        return x.sym_iter()
    return None


def enum(x, start=0):
    s = as_iter(x)
    if s is None:
        return enumerate(x, start)
    return SymIter(s.count, lambda q: (A.num(A.tp(start) + q), s.item(q)))


def zipped(*xs):
    ss = [as_iter(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs)
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete iterables")
    n = ss[0].count
    for s in ss[1:]:
        if not (s.count == n or X.entails(eq(s.count, n))):
            raise Unsupported("zip of different lengths")
    return SymIter(n, lambda q: tuple(s.item(q) for s in ss))


# ------------------------------------------------------------------ loops
class ConcLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def leave(self, loc):
        pass

    def brk(self):
        pass


def loop(it, names, loc):
    s = as_iter(it)
    if s is None:
        return ConcLoop(it)
    return SymLoop(s, names, loc)


class Path:
    def __init__(self, conds, writes, fns, vals):
        self.conds, self.writes, self.fns, self.vals = conds, writes, fns, vals


class Comp:
    """a state component"""

    def __init__(self, key, name, shape, sort, isbool):
        self.key, self.name, self.shape, self.sort, self.isbool = key, name, shape, sort, isbool
        self.xs = [T.fresh("x") for _ in shape]


class SymLoop:
    sym = True

    def __init__(self, it, names, loc):
        self.it = it
        self.names = names
        self.pre = {n: loc.get(n, UNBOUND) for n in names}
        self.q = T.fresh("q")
        self.qa = T.the_atom(self.q)
        n = it.count
        if n.const() is None and not X.entails(ge0(n)):
            n = n if A.dec(ge0(n)) else T.ZERO
        self.n = n
        self.serial = next(A._serial)
        self.g = generic_args()
        self.bufs = {}       # Buf -> Comp
        self.nms = {}        # name -> Comp
        self.prefn = {}      # Buf -> content before the loop
        self.out = None

    # -- tracker interface
    def record(self, buf, cond_at, val_at):
        if buf.serial > self.serial:
            return
        if buf not in self.prefn:
            self.prefn[buf] = buf.fn
        self.writes.setdefault(buf, []).append(cond_at)

    def rng_conds(self):
        return [ge0(self.q), lt(self.q, self.n)]

    def __iter__(self):
        if self.n.const() is not None and self.n.const() <= 0:
            return
        for rnd in range(8):
            self.paths = []
            self.obls = []
            todo = [[]]
            while todo:
                pre = todo.pop()
                self.begin(pre)
                yield self.it.item(self.q)
                taken = self.taken
                for i in range(len(pre), len(taken)):
                    todo.append(taken[:i] + [False])
                if len(self.paths) > 64:
                    raise Unsupported("too many paths in a loop")
            if self.stable():
                break
        else:
            raise Unsupported("loop state does not stabilise")
        self.finish()

    def opaque(self, c):
        g, q, name, sort = self.g, self.q, c.name, c.sort
        if c.isbool:
            return lambda idx: Not(eq0(T.app(name, g + (q,) + tuple(idx), "int")))
        return lambda idx: T.app(name, g + (q,) + tuple(idx), sort)

    def begin(self, prefix):
        for b, f in self.prefn.items():
            b.fn = self.opaque(self.bufs[b]) if b in self.bufs else f
        self.writes = {}
        self.base = len(X.cur.conds)
        X.cur.conds.extend(self.rng_conds())
        self.base2 = len(X.cur.conds)
        self.saved_oracle = X.cur.oracle
        self.oracle = X.Oracle(prefix)
        X.cur.oracle = self.oracle
        ACTIVE.append(self)
        GEN.append(self.q)
        A.Tracker.stack.append(self)
        self.saved_hook = A.Obligations.hook
        if self.saved_hook is not None:
            def hook(cond, label, conds=None):
                self.obls.append((list(X.cur.conds) if conds is None else conds, cond, label))
            A.Obligations.hook = hook

    def enter(self):
        out = []
        for n in self.names:
            if n in self.nms:
                c = self.nms[n]
                if c.kind == "undef":
                    out.append(Undef("carried by a loop"))
                elif c.kind == "scalar":
                    out.append(A.num(self.opaque(c)(())))
                else:
                    out.append(A.new(c.shape, self.opaque(c), c.dtype))
            else:
                v = self.pre[n]
                out.append(Undef("unbound") if v is UNBOUND else v)
        return tuple(out)

    def leave(self, loc):
        if not ACTIVE or ACTIVE[-1] is not self:
            # an exception escaped an inner loop before it could clean up
            while ACTIVE and ACTIVE[-1] is not self:
                ACTIVE[-1].cleanup()
        fns = {b: b.fn for b in self.writes}
        path = X.cur.conds[self.base2:]
        self.taken = list(self.oracle.taken)
        self.paths.append(Path(And(*path), self.writes, fns, {n: loc.get(n, UNBOUND) for n in self.names}))
        self.cleanup()

    def cleanup(self):
        for b, f in self.prefn.items():
            b.fn = f
        del X.cur.conds[self.base:]
        X.cur.oracle = self.saved_oracle
        ACTIVE.pop()
        GEN.pop()
        A.Tracker.stack.pop()
        A.Obligations.hook = self.saved_hook

    def brk(self):
        raise Unsupported("break or return inside a loop over a symbolic range")

    # -- discovery of the state
    def stable(self):
        ok = True
        for p in self.paths:
            for b in p.writes:
                if b not in self.bufs:
                    self.bufs[b] = Comp(b, "st!%d" % next(_ids), b.shape, "int" if b.dtype == "i" else "real", b.dtype == "b")
                    ok = False
            for n in self.names:
                v0, v1 = self.pre[n], p.vals[n]
                if v0 is UNBOUND or v1 is v0 or isinstance(v1, Undef):
                    continue
                k0, k1 = kind(v0), kind(v1)
                c = self.nms.get(n)
                if c is None:
                    ok = False
                    c = self.nms[n] = Comp(n, "st!%d" % next(_ids), (), "real", False)
                    if k0[0] == "scalar" and k1[0] == "scalar":
                        c.kind = "scalar"
                        c.sort = k0[1]
                    elif k0[0] == "array" and k1[0] == "array" and len(v0.sh) == len(v1.sh):
                        c.kind, c.shape, c.dtype = "array", v0.sh, v1.buf.dtype
                        c.xs = [T.fresh("x") for _ in c.shape]
                        c.sort = "real" if "f" in (v0.buf.dtype, v1.buf.dtype) else "int"
                        if c.dtype == "b":
                            c.kind = "undef"
                    else:
                        c.kind = "undef"
                if c.kind == "scalar":
                    if k1[0] != "scalar":
                        c.kind = "undef"
                        ok = False
                    elif k1[1] == "real" and c.sort == "int":
                        c.sort = "real"
                        ok = False
                elif c.kind == "array" and not is_state(v1, c, self):
                    if k1[0] != "array" or len(v1.sh) != len(c.shape):
                        c.kind = "undef"
                        ok = False
                    else:
                        with X.assuming(*(self.rng_conds() + [p.conds])):
                            if not all(a == b or X.entails(eq(a, b)) for a, b in zip(v1.sh, c.shape)):
                                c.kind = "undef"
                                ok = False
        return ok

    # -- the definition of the state
    def finish(self):
        hook = A.Obligations.hook
        if hook is not None:
            for conds, cond, label in self.obls:
                hook(cond, label, conds)
        comps = []
        GEN.append(self.q)
        try:
            for b, c in self.bufs.items():
                with X.assuming(*self.rng_conds(), *xr(c)):
                    c.R, c.W = self.merge(c, lambda p: p.fns.get(b), lambda p: p.writes.get(b, ()))
                with X.assuming(*xr(c)):
                    c.preT = A.el2p(self.prefn[b](tuple(c.xs)))
                comps.append(c)
            for n, c in self.nms.items():
                if c.kind == "undef":
                    continue
                v0 = self.pre[n]
                rd0 = A.asarr(v0).reader()

                def val(p, n=n):
                    v = p.vals[n]
                    r = A.asarr(v).reader()
                    return lambda idx: A.el2p(r(idx))
                with X.assuming(*self.rng_conds(), *xr(c)):
                    c.R, c.W = self.merge(c, val, lambda p: (lambda b: TRUE,))
                with X.assuming(*xr(c)):
                    c.preT = A.el2p(rd0(tuple(c.xs)))
                comps.append(c)
        finally:
            GEN.pop()
        self.comps = comps
        solve(self, comps)
        # effect on the buffers
        for b, c in self.bufs.items():
            b.fn = self.prefn[b]
            cond = c.wcond
            A.write(b, (lambda ix, c=c, cond=cond: T.csubst(cond, dict(zip(map(T.the_atom, c.xs), ix)))),
                    (lambda ix, c=c: (lambda v: A.tc(v) if c.isbool else v)(T.subst(c.final, dict(zip(map(T.the_atom, c.xs), ix))))))

    def merge(self, c, fn_of, writes_of):
        idx = tuple(c.xs)
        st = T.app(c.name, self.g + (self.q,) + idx, c.sort)
        R, Ws = None, []
        for p in reversed(self.paths):
            with X.assuming(p.conds):
                f = fn_of(p)
                r = st if f is None else A.el2p(f(idx))
                w = Or(*[w(idx) for w in writes_of(p)])
            R = r if R is None else T.ite(p.conds, r, R)
            Ws.append(And(p.conds, w))
        return R, Or(*Ws)

    def exit(self):
        """values of the variables after the loop"""
        out = []
        if self.n.const() is not None and self.n.const() <= 0:
            return tuple(Undef("unbound") if self.pre[n] is UNBOUND else self.pre[n] for n in self.names)
        for n in self.names:
            v0 = self.pre[n]
            vs = [p.vals[n] for p in self.paths]
            if n in self.nms:
                c = self.nms[n]
                if c.kind == "scalar":
                    out.append(A.num(c.final))
                    continue
                if c.kind == "array":
                    t, xs = c.final, [T.the_atom(x) for x in c.xs]
                    out.append(A.new(c.shape, lambda ix, t=t, xs=xs: T.subst(t, dict(zip(xs, ix))), c.dtype))
                    continue
                if not X.entails(ge(self.n, 1)):
                    out.append(Undef("after a possibly empty loop"))
                    continue
            elif v0 is not UNBOUND:
                out.append(v0)
                continue
            elif not X.entails(ge(self.n, 1)):
                out.append(Undef("bound in a possibly empty loop"))
                continue
            try:
                out.append(self.last(vs))
            except Unsupported as e:
                out.append(Undef(str(e)))
        return tuple(out)

    def last(self, vs):
        if any(v is UNBOUND or isinstance(v, Undef) for v in vs):
            raise Unsupported("not bound on every path")
        ks = [kind(v)[0] for v in vs]
        m = {self.qa: self.n - 1}
        fin = lambda t: T.subst(resolve(self, t), m)
        if all(k == "scalar" for k in ks):
            r = None
            for p, v in zip(self.paths, vs):
                t = A.tp(v)
                r = t if r is None else T.ite(p.conds, t, r)
            return A.num(fin(r))
        if all(k == "array" for k in ks) and len(vs) == 1:
            v = vs[0]
            sh = [fin(s) for s in v.sh]
            xs = [T.fresh("x") for _ in sh]
            with X.assuming(*self.rng_conds(), self.paths[0].conds, *[c for x, s in zip(xs, v.sh) for c in (ge0(x), lt(x, s))]):
                t = A.el2p(v.el(tuple(xs)))
            t = fin(t)
            xa = [T.the_atom(x) for x in xs]
            isb = v.buf.dtype == "b"
            r = A.new(sh, lambda ix: (lambda z: A.tc(z) if isb else z)(T.subst(t, dict(zip(xa, ix)))), v.buf.dtype)
            r.buf.tag = "ro"
            return r
        if all(v is vs[0] for v in vs) and ks[0] == "const":
            return vs[0]
        raise Unsupported("object bound in a loop over a symbolic range")


def is_state(v, c, L):
    return False


def xr(c):
    return [k for x, s in zip(c.xs, c.shape) for k in (ge0(x), lt(x, s))]


def kind(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("const", None)
    if isinstance(v, (int, A.Num, float, P)):
        return ("scalar", A.tp(v).sort if not isinstance(v, float) else "real")
    if isinstance(v, A.Arr):
        return ("array", None)
    try:
        import numpy as np
        if isinstance(v, np.generic):
            return ("scalar", A.tp(v).sort)
    except Exception:
        pass
    return ("object", None)


# ------------------------------------------------------------------ recognition
class St:
    """definition of a state component: template over (outer counters, q, xs)"""

    def __init__(self, L, c, state):
        self.ga = [T.the_atom(x) for x in L.g]
        self.qa, self.xa = L.qa, [T.the_atom(x) for x in c.xs]
        self.state = state

    def at(self, args):
        n = len(self.ga)
        return T.subst(self.state, dict(list(zip(self.ga, args[:n])) + [(self.qa, args[n])] + list(zip(self.xa, args[n + 1:]))))


RESOLVED = {}     # st name -> St


def resolve(L, t):
    names = [c.name for c in getattr(L, "comps", []) if c.name in RESOLVED and RESOLVED[c.name].state is not None]
    for _ in range(4):
        if not (t.names & set(names)):
            return t
        t = T.mapapps(t, names, lambda n, a, s: RESOLVED[n].at(a))
    return t


def cresolve(L, c):
    names = [k.name for k in L.comps if k.name in RESOLVED and RESOLVED[k.name].state is not None]
    for _ in range(4):
        if not (set(T.cnames(c)) & set(names)):
            return c
        c = T.cmap(c, names, lambda n, a, s: RESOLVED[n].at(a))
    return c


def conj(c):
    return list(c.a) if c.op == "and" else [c]


def qfree(c, qa):
    """weaker condition that does not mention q"""
    if c.op == "and":
        return And(*[qfree(x, qa) for x in c.a])
    if c.op == "or":
        return Or(*[qfree(x, qa) for x in c.a])
    return TRUE if qa in c.fv else c


def stfree(c, names):
    if c.op == "and":
        return And(*[stfree(x, names) for x in c.a])
    if c.op == "or":
        return Or(*[stfree(x, names) for x in c.a])
    return TRUE if (set(T.cnames(c)) & names) else c


def solve(L, comps):
    pend = list(comps)
    allnames = {c.name for c in comps}

    def commit(c, state, final, wcond):
        if isinstance(state, str):      # shift: the closed definition is registered, the symbol stays
            RESOLVED[c.name] = St(L, c, None)
            c.final, c.wcond = final, wcond
            pend.remove(c)
            return
        RESOLVED[c.name] = St(L, c, state)
        c.final, c.wcond = final, wcond
        s = RESOLVED[c.name]
        n = L.n
        ng = len(L.g)
        ga = s.ga
        PR.DEFS[c.name] = PR.Def(lambda a: And(ge0(a[ng]), le(a[ng], T.subst(n, dict(zip(ga, a[:ng]))))), s.at, closed=True)
        pend.remove(c)
    prog = True
    while prog and pend:
        prog = False
        for c in list(pend):
            c.R, c.W = resolve(L, c.R), cresolve(L, c.W)
            others = (c.R.names | set(T.cnames(c.W))) & {k.name for k in pend if k is not c}
            if others:
                continue
            r = recognise(L, c, False)
            if r is not None:
                commit(c, *r)
                prog = True
        if not prog:
            for c in list(pend):
                c.R, c.W = resolve(L, c.R), cresolve(L, c.W)
                if set(T.cnames(c.W)) & {k.name for k in pend}:
                    continue
                r = recognise(L, c, True)
                if r is not None:
                    commit(c, *r)
                    prog = True
                    break
    for c in list(pend):
        # the recursion itself
        c.R, c.W = resolve(L, c.R), cresolve(L, c.W)
        s = RESOLVED[c.name] = St(L, c, None)
        ng = len(L.g)

        def value(a, c=c, s=s, ng=ng):
            m = dict(zip(s.ga, a[:ng]))
            xm = dict(zip(s.xa, a[ng + 1:]))
            nxt = T.subst(c.R, {**m, **xm, s.qa: a[ng] - 1})
            return T.ite(eq0(a[ng]), T.subst(c.preT, {**m, **xm}), nxt)
        PR.DEFS[c.name] = PR.Def(lambda a, s=s, ng=ng: And(ge0(a[ng]), le(a[ng], T.subst(L.n, dict(zip(s.ga, a[:ng]))))), value, pos=ng)
        c.final = T.app(c.name, L.g + (L.n,) + tuple(c.xs), c.sort)
        c.wcond = stfree(qfree(c.W, L.qa), allnames)
    for c in comps:
        late = getattr(c, "late", None)
        if late:
            late()


def recognise(L, c, rec):
    """(state template, final template, written condition) or None"""
    q, qa, n, name = L.q, L.qa, L.n, c.name
    xs = tuple(c.xs)
    xa = [T.the_atom(x) for x in xs]
    st = T.app(name, L.g + (q,) + xs, c.sort)
    R, W, pre = c.R, c.W, c.preT
    bud = PR.Budget(3000)
    ctx = L.rng_conds() + xr(c)
    if not rec:
        # accumulation
        D = R - st
        if name in D.names:
            D = PR.eqnorm(D)
        if name in D.names:
            with X.assuming(*ctx):
                D = PR.simp(D, bud)
        if name not in D.names and name not in T.cnames(W):
            m = T.fresh("m")
            state = pre + T.Sum(m, q, T.subst(D, {qa: m}))
            return state, T.subst(state, {qa: n}), stfree(qfree(W, qa), {name})
    if name in T.cnames(W):
        return None
    with X.assuming(*ctx, W):
        V = PR.simp(R, bud) if X.consistent() else R
    if not rec and qa not in W.fv and name not in V.names:
        # the last value
        Vp = T.subst(V, {qa: q - 1})
        state = T.ite(And(W, ge(q, 1)), Vp, pre)
        return state, T.ite(And(W, ge(n, 1)), T.subst(V, {qa: n - 1}), pre), W
    # map
    g = find_g(L, c, W, ctx)
    if g is not None:
        Wg = And(T.csubst(W, {qa: g}), ge0(g), lt(g, n))
        if not rec and name not in V.names:
            Vg = T.subst(V, {qa: g})
            with X.assuming(*xr(c), Wg):
                Vg = PR.simp(Vg, bud)
            return T.ite(And(Wg, lt(g, q)), Vg, pre), T.ite(Wg, Vg, pre), Wg
        if rec or name in V.names:
            F = "fin!%s" % name[3:]
            Fx = T.app(F, L.g + xs, c.sort)
            state = T.ite(And(Wg, ge(g, q)), pre, Fx)
            ng = len(L.g)
            ga = [T.the_atom(x) for x in L.g]
            box = {}

            def late():
                v = resolve(L, V)
                with X.assuming(*ctx, W):
                    v = PR.simp(v, PR.Budget(4000))
                box["v"] = T.ite(Wg, T.subst(v, {qa: g}), pre)

            def value(a):
                return T.subst(box["v"], dict(list(zip(ga, a[:ng])) + list(zip(xa, a[ng:]))))

            def domain(a):
                m = dict(list(zip(ga, a[:ng])) + list(zip(xa, a[ng:])))
                return And(*[T.csubst(k, m) for k in xr(c)])
            rp = [ng + i for i, x in enumerate(xa) if x in g.fv]
            PR.DEFS[F] = PR.Def(domain, value, pos=rp[0] if rp else None)
            c.late = late
            return state, Fx, Wg
    if rec:
        return None
    # shift and accumulate
    sh = [a for m in V.d for a, e in m if a.kind == "app" and a.a[0] == name]
    if len(set(sh)) == 1 and V.d.get(((sh[0], 1),)) == 1:
        a = sh[0]
        ng = len(L.g)
        if a.a[1 + ng] == q:
            e = [y - x for y, x in zip(a.a[2 + ng:], xs)]
            inc = V - T.atomP(a)
            if all(d.as_int() is not None for d in e) and name not in inc.names:
                m = T.fresh("m")
                back = [x + d * (q - 1 - m) for x, d in zip(xs, e)]
                body = T.subst(inc, dict([(qa, m)] + list(zip(xa, back))))
                state = T.subst(pre, dict(zip(xa, [x + d * q for x, d in zip(xs, e)]))) + T.Sum(m, q, body)
                ga = [T.the_atom(x) for x in L.g]

                def value(args, state=state):
                    return T.subst(state, dict(list(zip(ga, args[:ng])) + [(qa, args[ng])] + list(zip(xa, args[ng + 1:]))))

                def domain(args):
                    mm = dict(list(zip(ga, args[:ng])))
                    return And(ge0(args[ng]), le(args[ng], T.subst(n, mm)),
                               *[T.csubst(k, dict(zip(xa, args[ng + 1:]))) for k in xr(c)])

                def forall(args, mv):
                    mm = dict(list(zip(ga, args[:ng])) + [(qa, mv)] + [(x, ax + d * (args[ng] - 1 - mv)) for x, ax, d in zip(xa, args[ng + 1:], e)])
                    return args[ng], T.csubst(And(W, *xr(c)), mm)
                PR.DEFS[name] = PR.Def(domain, value, closed=True, forall=forall)
                c.shift = True
                return "shift", T.app(name, L.g + (n,) + xs, c.sort), stfree(qfree(W, qa), {name})
    return None


def find_g(L, c, W, ctx):
    """iteration in which index x is written, when unique"""
    q, qa = L.q, L.qa
    cands = []
    parts = W.a if W.op == "or" else (W,)
    for d in parts:
        for k in conj(d):
            if qa not in k.fv:
                continue
            if k.op == "eq0":
                s = T.solve_lin(k.a[0], qa)
                if s is not None and s.sort == "int":
                    cands.append(s)
                else:
                    l = T.lin_coeff(k.a[0], qa)
                    if l is not None and l[0].d:
                        b = l[0]
                        r = -l[1]
                        if b.const() is not None and b.const() < 0:
                            b, r = -b, -r
                        cands.append(T.fdiv(r, b))
            elif k.op == "ge0":
                l = T.lin_coeff(k.a[0], qa)
                if l is not None and l[0].d:
                    b = -l[0]
                    if b.const() is not None and b.const() <= 0:
                        continue
                    cands.append(T.fdiv(l[1], b))
    seen = []
    for g in cands:
        if g in seen:
            continue
        seen.append(g)
        if qa in g.fv:
            continue
        with X.assuming(*ctx, W):
            if X.entails(eq(q, g)):
                return g
    return None


# ------------------------------------------------------------------ side effects that are not tracked
def mut(obj, attr):
    """method that mutates a container"""
    if ACTIVE and isinstance(obj, (list, dict, set)):
        raise Unsupported("container changed inside a loop over a symbolic range")
    return getattr(obj, attr)


def chk(obj):
    if ACTIVE and isinstance(obj, (list, dict, set)):
        raise Unsupported("container changed inside a loop over a symbolic range")


def chkattr(obj):
    if ACTIVE:
        raise Unsupported("attribute changed inside a loop over a symbolic range")


class Whiles:
    def __init__(self):
        self.n = 0

    def tick(self):
        self.n += 1
        if self.n > 40:
            raise Unsupported("while loop")


def wh():
    return Whiles()
