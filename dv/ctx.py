"""Logical context (path condition), SMT back ends, branch exploration."""
import time, z3
from contextlib import contextmanager
from fractions import Fraction as Fr
from . import terms as T
from .terms import P, C, And, Or, Not, TRUE, FALSE

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "unknown": 0}
FACTS = {}   # function symbol -> f(args P tuple) -> list of C : axioms instantiated when the symbol occurs


LINKED = set()   # symbols whose axioms mention other variables: no splitting of the context


class Undecided(Exception):
    """a branch condition could not be decided and no exploration is active"""


class Ctx:
    def __init__(self):
        self.conds = []
        self.oracle = None
        self.cache = {}
        self.subs = {}        # variable -> term, each backed by an equality among the conditions
        self.scopes = []      # start positions of the active assumption scopes

    def key(self):
        return tuple(c.key for c in self.conds)


cur = Ctx()


def reset():
    global cur
    cur = Ctx()


@contextmanager
def assuming(*cs):
    me = cur
    sc = [len(me.conds)]
    me.scopes.append(sc)
    me.conds.extend(c for c in cs if not (isinstance(c, bool) and c) and not (isinstance(c, C) and c.op == "true"))
    try:
        yield
    finally:
        while me.scopes and me.scopes[-1] is not sc:
            me.scopes.pop()
        me.scopes.pop()
        del me.conds[sc[0]:]


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.done = set()

    def num(self, c, real):
        if real:
            return z3.RealVal(str(c))
        return z3.IntVal(int(c))

    def poly(self, p):
        """(z3 expr, is_int)"""
        k = ("p", p)
        if k in self.memo:
            return self.memo[k]
        isint = p.sort == "int"
        tot = None
        for m, c in p.d.items():
            t = None
            for a, e in m:
                x, ai = self.atom(a)
                if not isint and ai:
                    x = z3.ToReal(x)
                if e < 0:
                    i = z3.Real("inv!%d" % a.id)
                    xr = z3.ToReal(self.atom(a)[0]) if ai else self.atom(a)[0]
                    if ("i", a.id) not in self.done:
                        self.done.add(("i", a.id))
                        self.side.append(z3.Implies(xr != 0, i * xr == 1))
                    x = i
                    e = -e
                for _ in range(e):
                    t = x if t is None else t * x
            cv = self.num(c, not isint)
            t = cv if t is None else (t if c == 1 else cv * t)
            tot = t if tot is None else tot + t
        if tot is None:
            tot = self.num(0, not isint)
        self.memo[k] = (tot, isint)
        return tot, isint

    def real(self, p):
        x, i = self.poly(p)
        return z3.ToReal(x) if i else x

    def atom(self, a):
        k = ("a", a.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        if a.kind == "var":
            r = (z3.Int(a.a[0]), True) if a.sort == "int" else (z3.Real(a.a[0]), False)
        elif a.kind == "iv":
            r = (z3.If(self.cond(a.a), z3.IntVal(1), z3.IntVal(0)), True)
        elif a.kind == "inv":
            i = z3.Real("inv!%d" % a.id)
            x = self.real(a.a[0])
            self.side.append(z3.Implies(x != 0, i * x == 1))
            r = (i, False)
        elif a.kind == "sum":
            r = (z3.Int("sum!%d" % a.id), True) if a.sort == "int" else (z3.Real("sum!%d" % a.id), False)
        else:
            name, args = a.a[0], a.a[1:]
            if name == "fdiv":
                x, xi = self.poly(args[0])
                y, yi = self.poly(args[1])
                q = z3.Int("fdiv!%d" % a.id)
                self.memo[k] = (q, True)
                if xi and yi:
                    self.side.append(z3.Implies(y > 0, z3.And(y * q <= x, x < y * q + y)))
                else:
                    xr, yr = self.real(args[0]), self.real(args[1])
                    self.side.append(z3.Implies(yr > 0, z3.And(yr * z3.ToReal(q) <= xr, xr < yr * z3.ToReal(q) + yr)))
                r = (q, True)
            else:
                zs = []
                for x in args:
                    e, i = self.poly(x)
                    zs.append(e if i else e)
                sorts = [z.sort() for z in zs]
                rs = z3.IntSort() if a.sort == "int" else z3.RealSort()
                if zs:
                    f = z3.Function("%s/%s" % (name, "".join("I" if s == z3.IntSort() else "R" for s in sorts)), *(sorts + [rs]))
                    r = (f(*zs), a.sort == "int")
                else:
                    r = ((z3.Int(name) if a.sort == "int" else z3.Real(name)), a.sort == "int")
                self.memo[k] = r
                if name == "sqrt":
                    x = self.real(args[0])
                    self.side.append(z3.Implies(x >= 0, z3.And(r[0] >= 0, r[0] * r[0] == x)))
                f = FACTS.get(name)
                if f is not None and ("f", a.id) not in self.done:
                    self.done.add(("f", a.id))
                    for c in f(args):
                        self.side.append(self.cond(c))
        self.memo[k] = r
        return r

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op in ("ge0", "gt0", "eq0"):
            p = c.a[0]
            if p.sort == "int":
                x = self.poly(p)[0]
            else:
                # integer polynomial with rational coefficients: scale
                x = self.real(p)
            if c.op == "ge0":
                return x >= 0
            if c.op == "gt0":
                return x > 0
            return x == 0
        if c.op == "not":
            return z3.Not(self.cond(c.a[0]))
        if c.op == "and":
            return z3.And(*[self.cond(x) for x in c.a])
        if c.op == "or":
            return z3.Or(*[self.cond(x) for x in c.a])
        raise ValueError(c.op)


def _parts(cs):
    """groups of conditions that share no free variable and no function symbol: the conjunction is unsatisfiable if one of them is"""
    groups = []
    if any(isinstance(c, C) and any(n in LINKED for n in T.cnames(c)) for c in cs):
        return [cs]
    for c in cs:
        if not isinstance(c, C):
            c = TRUE if c else FALSE
        ks = set(c.fv) | set(T.cnames(c))
        if not ks:
            ks = {c.key}
        rest = []
        conds = [c]
        for g in groups:
            if g[0] & ks:
                ks |= g[0]
                conds = g[1] + conds
            else:
                rest.append(g)
        groups = rest + [(ks, conds)]
    return [g[1] for g in groups]


_CACHE = {}


def check(cs, timeout=2000):
    """satisfiability of a conjunction: 'sat' / 'unsat' / 'unknown'"""
    cs = [c for c in cs if not (isinstance(c, C) and c.op == "true")]
    for c in cs:
        if isinstance(c, C) and c.op == "false":
            return "unsat"
    key = tuple(sorted(c.key for c in cs))
    r = _CACHE.get(key)
    if r is not None and (r != "unknown"):
        return r
    ps = _parts(cs)
    if len(ps) > 1:
        r = "sat"
        for q in sorted(ps, key=len):
            x = check(q, timeout)
            if x == "unsat":
                r = x
                break
            if x == "unknown":
                r = x
        _CACHE[key] = r
        return r
    z = Z()
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in cs:
        s.add(z.cond(c))
    i = 0
    while i < len(z.side):
        s.add(z.side[i])
        i += 1
    t0 = time.time()
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == "unknown":
        r = _cvc5(s.to_smt2(), timeout)
        if r == "unknown":
            STATS["unknown"] += 1
    _CACHE[key] = r
    return r


def _cvc5(smt, timeout):
    import subprocess
    t0 = time.time()
    STATS["cvc5_calls"] += 1
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "--nl-ext-tplanes"], input=smt, capture_output=True, text=True,
                           timeout=timeout / 1000 + 3)
        out = p.stdout.strip().split("\n")[0]
        r = out if out in ("sat", "unsat") else "unknown"
        if r == "sat":
            r = "unknown"  # only trust unsat from the fallback
    except Exception:
        r = "unknown"
    STATS["cvc5_time"] += time.time() - t0
    return r


def entails(c, timeout=2000, extra=()):
    if isinstance(c, bool):
        return c
    if c.op == "true":
        return True
    conds = list(cur.conds) + list(extra)
    if c.key in {x.key for x in conds if isinstance(x, C)}:
        return True
    if c.op == "and":
        return all(entails(x, timeout, extra) for x in c.a)
    return check(conds + [Not(c)], timeout) == "unsat"


def consistent(extra=(), timeout=2000):
    return check(list(cur.conds) + list(extra), timeout) != "unsat"


def model(extra=(), timeout=3000):
    z = Z()
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in list(cur.conds) + list(extra):
        s.add(z.cond(c))
    for x in z.side:
        s.add(x)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_rational_value(v):
                out[d.name()] = Fr(v.numerator_as_long(), v.denominator_as_long())
    return out


# ------------------------------------------------------------------ branch exploration
class Oracle:
    """one run along a prefix of branch decisions"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.base = len(cur.conds)
        self.nscopes = len(cur.scopes)


def decide(c):
    if entails(c):
        return True
    if entails(Not(c)):
        return False
    o = cur.oracle
    if o is None:
        raise Undecided(repr(c))
    # a decision taken under local assumptions (the body of a sum, the range of an index) is a case split of the
    # whole path: it may only mention what is known outside these assumptions
    pos = cur.scopes[o.nscopes][0] if len(cur.scopes) > o.nscopes else len(cur.conds)
    known = set()
    for x in cur.conds[:pos]:
        if isinstance(x, C):
            known |= x.fv
    if {a for a in c.fv if a.sort == "int"} - known:
        raise Undecided("condition on a bound index: %r" % (c,))
    i = len(o.taken)
    v = o.prefix[i] if i < len(o.prefix) else True
    o.taken.append(v)
    cur.conds.insert(pos, c if v else Not(c))
    for sc in cur.scopes[o.nscopes:]:
        sc[0] += 1
    return v


MAX_PATHS = 200


def explore(run):
    """run() once per feasible path; yields (path conditions, result)"""
    out = []
    stack = [[]]
    saved = cur.oracle
    while stack:
        pre = stack.pop()
        base = len(cur.conds)
        o = Oracle(pre)
        cur.oracle = o
        ns = len(cur.scopes)
        try:
            r = run()
        finally:
            path = cur.conds[base:]
            del cur.conds[base:]
            del cur.scopes[ns:]
            cur.oracle = saved
        out.append((list(path), r))
        for i in range(len(pre), len(o.taken)):
            stack.append(o.taken[:i] + [False])
        if len(out) > MAX_PATHS:
            raise T.Unsupported("too many paths")
    return out
