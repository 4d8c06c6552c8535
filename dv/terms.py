"""Canonical terms of the verification conditions.

A term is a polynomial (class P) with rational coefficients over hash-consed atoms:
  var   integer or real variable
  app   application of a function symbol to terms (array reads, sin, sqrt, fdiv, ...)
  sum   multi-binder finite sum  sum_{k1<h1} sum_{k2<h2(k1)} ... monomial
  iv    Iverson bracket [c] of an atomic condition c  (so ite(c,a,b) = [c]a + (1-[c])b)
  inv   1/p for a polynomial p that is not a monomial
Machine floats are read as mathematical reals.
"""
import hashlib, itertools
from fractions import Fraction as Fr

_tab = {}
_cnt = itertools.count()


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "a", "sort", "fv", "key", "hasiv", "hassum", "names")

    def __repr__(self):
        return show_atom(self)


def _short(s):
    return s if len(s) < 160 else "#" + hashlib.md5(s.encode()).hexdigest()


def _mk(kind, a, sort, fv, key, hasiv=False, hassum=False, names=frozenset()):
    k = (kind, a)
    t = _tab.get(k)
    if t is None:
        t = Atom()
        t.id = next(_cnt)
        t.kind, t.a, t.sort, t.fv = kind, a, sort, fv
        t.key = _short(key)
        t.hasiv, t.hassum, t.names = hasiv, hassum, names
        _tab[k] = t
    return t


E0 = frozenset()


class P:
    __slots__ = ("d", "_h", "_fv", "_key", "_flags", "_names")

    def __init__(self, d):
        self.d = d
        self._h = self._fv = self._key = self._flags = self._names = None

    # -- basics
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, P):
            return self.d == o.d
        if isinstance(o, (int, float, Fr)):
            return self.d == P.of(o).d
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fr)):
            return P({(): Fr(x)} if x else {})
        if isinstance(x, float):
            if x == int(x) if abs(x) < 1e15 else False:
                return P.of(int(x))
            return P.of(Fr(repr(x)) if "e" not in repr(x) and "n" not in repr(x) else Fr(x))
        if hasattr(x, "to_term"):
            return x.to_term()
        try:
            import numpy as _n
            if isinstance(x, _n.integer):
                return P.of(int(x))
            if isinstance(x, _n.floating):
                return P.of(float(x))
        except ImportError:
            pass
        raise Unsupported("not a number: %r" % (type(x),))

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, e in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def names(self):
        if self._names is None:
            s = set()
            for m in self.d:
                for a, e in m:
                    s |= a.names
            self._names = frozenset(s)
        return self._names

    def _fl(self):
        if self._flags is None:
            iv = su = False
            for m in self.d:
                for a, e in m:
                    iv = iv or a.hasiv
                    su = su or a.hassum
            self._flags = (iv, su)
        return self._flags

    @property
    def hasiv(self):
        return self._fl()[0]

    @property
    def hassum(self):
        return self._fl()[1]

    @property
    def key(self):
        if self._key is None:
            ms = []
            for m, c in self.d.items():
                ms.append("*".join([str(c)] + sorted("%s^%d" % (a.key, e) for a, e in m)))
            self._key = _short("(" + "+".join(sorted(ms)) + ")")
        return self._key

    @property
    def sort(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return "real"
            for a, e in m:
                if a.sort != "int" or e < 0:
                    return "real"
        return "int"

    def const(self):
        if not self.d:
            return Fr(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def as_int(self):
        c = self.const()
        return int(c) if c is not None and c.denominator == 1 else None

    # -- arithmetic
    def __add__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if len(o.d) > len(self.d):
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def scale(self, c):
        return P({m: k * c for m, k in self.d.items()}) if c else ZERO

    def __mul__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        d = {}
        extra = []
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, f = mono_mul(m1, m2)
                if f is not None:
                    extra.append((m, c1 * c2, f))
                    continue
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        r = P(d)
        for m, c, f in extra:
            r = r + P({m: c}) * f
        return r

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, P):
            k = n.as_int()
            if k is None:
                c = n.const()
                if c is not None and c == Fr(1, 2):
                    return sqrt(self)
                return app("pow", (self, n), "real" if not (self.sort == "int") else "int")
            n = k
        if isinstance(n, float):
            if n == int(n):
                n = int(n)
            elif n == 0.5:
                return sqrt(self)
            else:
                return app("pow", (self, P.of(n)))
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, b):
        return P.of(b) ** self

    def __truediv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return self * inv(o)

    def __rtruediv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return o * inv(self)

    def __floordiv__(self, o):
        return fdiv(self, P.of(o))

    def __rfloordiv__(self, o):
        return fdiv(P.of(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        o = P.of(o)
        return self - o * fdiv(self, o)

    def __rmod__(self, o):
        o = P.of(o)
        return o - self * fdiv(o, self)

    def __repr__(self):
        return show(self)


def _co(x):
    if isinstance(x, P):
        return x
    if isinstance(x, (int, float, Fr)):
        return P.of(x)
    try:
        import numpy as _n
        if isinstance(x, (_n.integer, _n.floating)):
            return P.of(x)
    except ImportError:
        pass
    if hasattr(x, "to_term"):
        return x.to_term()
    return None


def mono_mul(m1, m2):
    """product of two monomials; second component: an extra factor when a rewriting fired"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    for a, e in m2:
        v = d.get(a, 0) + e
        if a.kind == "iv":
            v = 1
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a in list(d):
        if a.kind == "app" and a.a[0] == "sqrt" and abs(d[a]) >= 2:
            q = int(d[a] / 2)
            r = d[a] - 2 * q
            f = a.a[1] ** q if q > 0 else inv(a.a[1]) ** (-q)
            extra = f if extra is None else extra * f
            if r:
                d[a] = r
            else:
                del d[a]
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), extra


ZERO = P({})
ONE = P({(): Fr(1)})


def atomP(a, e=1):
    return P({((a, e),): Fr(1)})


def var(name, sort="int"):
    k = ("var", (name, sort))
    t = _tab.get(k)
    if t is None:
        t = _mk("var", (name, sort), sort, E0, name)
        t.fv = frozenset([t])
    return atomP(t)


_fresh = itertools.count()


def fresh(prefix, sort="int"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def the_atom(p):
    (m, c), = p.d.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


# ---------------------------------------------------------------- conditions
class C:
    """condition: ('ge0',P) ('gt0',P) ('eq0',P) ('not',C) ('and',..) ('or',..) True False"""
    __slots__ = ("op", "a", "_fv", "_key")

    def __init__(self, op, a=()):
        self.op, self.a = op, a
        self._fv = None
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = _short("%s(%s)" % (self.op, ",".join(x.key for x in self.a)))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, C) and self.key == o.key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for x in self.a:
                s |= x.fv
            self._fv = frozenset(s)
        return self._fv

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        from . import ctx
        return ctx.decide(self)

    def __invert__(self):
        return Not(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def to_term(self):
        return iv(self)

    # booleans used as numbers (numpy: mask * mask)
    def __mul__(self, o):
        if isinstance(o, C):
            return And(self, o)
        return iv(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        if self.op in ("ge0", "gt0", "eq0"):
            return "%r %s 0" % (self.a[0], {"ge0": ">=", "gt0": ">", "eq0": "=="}[self.op])
        return "%s%r" % (self.op, self.a)


TRUE, FALSE = C("true"), C("false")


def _norm_scale(p):
    """divide by the positive content so that equal conditions have equal keys"""
    from math import gcd
    if not p.d:
        return p
    den = 1
    for c in p.d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.d.values():
        g = gcd(g, int(c * den))
    return p.scale(Fr(den, g)) if g else p


def _lift(p, build):
    """cond/term over p where p may contain Iverson brackets: expand them out"""
    a = first_iv(p)
    c = a.a
    return c, build(set_iv(p, a, 1)), build(set_iv(p, a, 0))


def ge0(p):
    p = P.of(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if top_iv(p):
        c, x, y = _lift(p, ge0)
        return Or(And(c, x), And(Not(c), y))
    p = _norm_scale(p)
    if p.sort == "int":
        # tighten constant:  g*q + r >= 0 is handled by z3; keep as is
        return C("ge0", (p,))
    return C("ge0", (p,))


def gt0(p):
    p = P.of(p)
    if p.sort == "int":
        return ge0(p - 1)
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    if top_iv(p):
        c, x, y = _lift(p, gt0)
        return Or(And(c, x), And(Not(c), y))
    return C("gt0", (_norm_scale(p),))


def eq0(p):
    p = P.of(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if top_iv(p):
        c, x, y = _lift(p, eq0)
        return Or(And(c, x), And(Not(c), y))
    p = _norm_scale(p)
    q = -p
    if q.key < p.key:
        p = q
    return C("eq0", (p,))


def le(a, b):
    return ge0(P.of(b) - P.of(a))


def lt(a, b):
    return gt0(P.of(b) - P.of(a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(P.of(a) - P.of(b))


def Not(c):
    if c is True or c is False:
        return FALSE if c else TRUE
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "ge0":
        return gt0(-c.a[0])
    if c.op == "gt0":
        return ge0(-c.a[0])
    if c.op == "and":
        return Or(*[Not(x) for x in c.a])
    if c.op == "or":
        return And(*[Not(x) for x in c.a])
    return C("not", (c,))


def _flat(op, cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        if c.op == op:
            out += list(c.a)
        else:
            out.append(c)
    return out


def And(*cs):
    out, seen = [], set()
    for c in _flat("and", cs):
        if c.op == "true":
            continue
        if c.op == "false":
            return FALSE
        if c.key not in seen:
            seen.add(c.key)
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else C("and", tuple(out))


def Or(*cs):
    out, seen = [], set()
    for c in _flat("or", cs):
        if c.op == "false":
            continue
        if c.op == "true":
            return TRUE
        if c.key not in seen:
            seen.add(c.key)
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else C("or", tuple(out))


def iv(c):
    """Iverson bracket of a condition, as a polynomial over atomic brackets"""
    if isinstance(c, bool):
        return ONE if c else ZERO
    if c.op == "true":
        return ONE
    if c.op == "false":
        return ZERO
    if c.op == "and":
        r = ONE
        for x in c.a:
            r = r * iv(x)
        return r
    if c.op == "or":
        r = ONE
        for x in c.a:
            r = r * (ONE - iv(x))
        return ONE - r
    if c.op == "not":
        return ONE - iv(c.a[0])
    if c.op in ("ge0", "gt0"):
        n = Not(c)
        if n.key < c.key:
            return ONE - _ivatom(n)
    return _ivatom(c)


def _ivatom(c):
    return atomP(_mk("iv", c, "int", c.fv, "[" + c.key + "]", True, any(p.hassum for p in c.a if isinstance(p, P)),
                     frozenset().union(*[p.names for p in c.a if isinstance(p, P)])))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = P.of(a), P.of(b)
    if a == b:
        return a
    i = iv(c)
    return i * a + (ONE - i) * b


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(ge(a, b), a, b)


def tabs(a):
    a = P.of(a)
    c = a.const()
    if c is not None:
        return P.of(abs(c))
    return ite(ge0(a), a, -a)


def top_iv(p):
    for m in p.d:
        for a, e in m:
            if a.kind == "iv":
                return True
    return False


def first_iv(p):
    best = None
    for m in p.d:
        for a, e in m:
            if a.kind == "iv" and (best is None or a.id < best.id):
                best = a
    return best


def ivs(p):
    s = {}
    for m in p.d:
        for a, e in m:
            if a.kind == "iv":
                s[a.id] = a
    return [s[k] for k in sorted(s)]


def set_iv(p, at, val):
    d = {}
    for m, c in p.d.items():
        if any(a is at for a, e in m):
            if not val:
                continue
            m = tuple((a, e) for a, e in m if a is not at)
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return P(d)


# ---------------------------------------------------------------- function symbols
REDUCE = {}  # name -> f(args) -> P or None : simplifications at construction


def app(name, args, sort="real"):
    args = tuple(P.of(x) for x in args)
    for i, x in enumerate(args):
        if top_iv(x):
            a = first_iv(x)
            t = app(name, args[:i] + (set_iv(x, a, 1),) + args[i + 1:], sort)
            f = app(name, args[:i] + (set_iv(x, a, 0),) + args[i + 1:], sort)
            return ite(a.a, t, f)
    r = REDUCE.get(name)
    if r is not None:
        v = r(args)
        if v is not None:
            return v
    return atomP(rawapp(name, args, sort))


LETNAMES = {}  # abbreviation -> symbols of its value


def rawapp(name, args, sort="real"):
    fv = frozenset().union(*[x.fv for x in args]) if args else E0
    nm = frozenset().union(*[x.names for x in args]) if args else E0
    if name in LETNAMES:
        nm = nm | LETNAMES[name]
    return _mk("app", (name,) + args, sort, fv, "%s(%s)" % (name, ",".join(x.key for x in args)), False,
               any(x.hassum for x in args), nm | {name})


def fdiv(a, b):
    a, b = P.of(a), P.of(b)
    ca, cb = a.as_int(), b.as_int()
    if ca is not None and cb is not None and cb != 0:
        return P.of(ca // cb)
    if cb == 1:
        return a
    # pull out multiples of b
    if cb is not None and cb > 0:
        q, r = {}, {}
        for m, c in a.d.items():
            k = c.numerator // cb if c.denominator == 1 else 0
            if k:
                q[m] = Fr(k)
            if c - k * cb:
                r[m] = c - k * cb
        if q:
            return P(q) + fdiv(P(r), b)
    elif len(b.d) == 1 and list(b.d.values())[0] == 1:
        (mb, _), = b.d.items()
        q, r = {}, {}
        for m, c in a.d.items():
            md = dict(m)
            ok = c.denominator == 1
            for at, e in mb:
                if md.get(at, 0) < e:
                    ok = False
            if ok:
                for at, e in mb:
                    md[at] -= e
                    if not md[at]:
                        del md[at]
                q[tuple(sorted(md.items(), key=lambda t: t[0].id))] = c
            else:
                r[m] = c
        if q:
            return P(q) + fdiv(P(r), b)
    if not a.d:
        return ZERO
    return app("fdiv", (a, b), "int")


def tmod(a, b):
    return P.of(a) - P.of(b) * fdiv(a, b)


def sqrt(x):
    x = P.of(x)
    c = x.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P.of(Fr(n, d))
    # split a monomial:  sqrt(2*pi) = sqrt(2)*sqrt(pi)
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if c > 0 and (c != 1 or len(m) > 1) and len(m) >= 1 and all(a.kind == "var" and a.a[0] == "pi" for a, e in m):
            r = sqrt(P.of(c)) if c != 1 else ONE
            for a, e in m:
                r = r * sqrt(atomP(a)) ** e
            return r
    return app("sqrt", (x,))


def inv(p):
    p = P.of(p)
    c = p.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by the constant zero")
        return P.of(1 / c)
    if top_iv(p):
        a = first_iv(p)
        p1, p0 = set_iv(p, a, 1), set_iv(p, a, 0)
        i1 = inv(p1) if p1.d else ZERO
        i0 = inv(p0) if p0.d else ZERO
        return ite(a.a, i1, i0)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = P.of(1 / c)
        for a, e in m:
            out = out * P({((a, -e),): Fr(1)})
        return out
    # make monic on a canonical leading monomial
    lead = min(p.d, key=lambda m: "*".join(sorted("%s^%d" % (a.key, e) for a, e in m)) if m else "~")
    c = p.d[lead]
    q = p.scale(1 / c)
    at = _mk("inv", (q,), "real", q.fv, "inv" + q.key, False, q.hassum, q.names)
    return atomP(at).scale(1 / c)


# ---------------------------------------------------------------- sums
UNROLL = [4]     # sums of at most so many terms are written out


def Sum(v, hi, body, lo=0):
    """sum_{v=lo}^{hi-1} body ; v is a variable term; an empty range gives 0"""
    lo, hi, body = P.of(lo), P.of(hi), P.of(body)
    va = the_atom(v)
    if lo.d:
        body = subst(body, {va: v + lo})
        hi = hi - lo
    return _sum1(va, hi, body)


def _sum1(va, hi, body):
    if not body.d:
        return ZERO
    h = hi.as_int()
    if h is not None and h <= 0:
        return ZERO
    if h is not None and h <= UNROLL[0]:
        r = ZERO
        for k in range(h):
            r = r + subst(body, {va: P.of(k)})
        return r
    if top_iv(hi):
        a = first_iv(hi)
        return ite(a.a, _sum1(va, set_iv(hi, a, 1), body), _sum1(va, set_iv(hi, a, 0), body))
    out = ZERO
    for m, c in body.d.items():
        out = out + _summono(va, hi, m).scale(c)
    return out


def _summono(va, hi, m):
    free = [(a, e) for a, e in m if va not in a.fv]
    dep = [(a, e) for a, e in m if va in a.fv]
    pre = P({tuple(free): Fr(1)})
    if not dep:
        return pre * tmax(hi, 0)
    binders = [(va, hi)]
    rest = []
    fac = ONE
    for a, e in dep:
        if a.kind == "sum" and e > 0:
            for _ in range(e):
                bs, bod = open_sum(a)
                binders += bs
                fac = fac * bod
        else:
            rest.append((a, e))
    fac = fac * P({tuple(rest): Fr(1)})
    out = ZERO
    for mm, c in fac.d.items():
        out = out + mk_sum(binders, mm).scale(c)
    return pre * out


def open_sum(a):
    """fresh names for the binders of a sum atom: [(binder atom, hi)], body (P)"""
    bs, body = a.a
    m = {}
    out = []
    for b, hi in bs:
        f = fresh("k")
        hi2 = subst(hi, m)
        m[b] = f
        out.append((the_atom(f), hi2))
    return out, subst(body, m)


def mk_sum(binders, mono):
    """canonical multi-binder sum of a monomial (possibly dropping / factoring)"""
    # one-point rule for equality brackets on a binder
    for i, (b, hi) in enumerate(binders):
        for a, e in mono:
            if a.kind == "iv" and a.a.op == "eq0" and b in a.fv:
                sol = solve_lin(a.a.a[0], b)
                if sol is not None and sol.sort == "int" and not (sol.fv & {x for x, _ in binders[i + 1:]}):
                    rest = P({tuple((x, y) for x, y in mono if x is not a): Fr(1)})
                    body = subst(rest, {b: sol}) * iv(And(ge0(sol), lt(sol, hi)))
                    bs = binders[:i] + [(x, subst(h, {b: sol})) for x, h in binders[i + 1:]]
                    return mk_sums(bs, body)
    bset = [b for b, _ in binders]
    free = [(a, e) for a, e in mono if not any(b in a.fv for b in bset)]
    dep = [(a, e) for a, e in mono if any(b in a.fv for b in bset)]
    pre = P({tuple(free): Fr(1)})
    # a binder not used anywhere
    for i in range(len(binders) - 1, -1, -1):
        b, hi = binders[i]
        if not any(b in a.fv for a, e in dep) and not any(b in h.fv for _, h in binders[i + 1:]):
            bs = binders[:i] + binders[i + 1:]
            if not bs:
                return pre * tmax(hi, 0) * P({tuple(dep): Fr(1)})
            return pre * mk_sums(bs, P({tuple(dep): Fr(1)}) * tmax(hi, 0))
    # split into independent groups of binders
    groups = _groups(binders, dep)
    if len(groups) > 1:
        r = pre
        for bs, mm in groups:
            r = r * mk_sum(bs, tuple(mm))
        return r
    # factors of the monomial with a binder-dependent sum inside: flatten
    for a, e in dep:
        if a.kind == "sum" and e > 0:
            bs, bod = open_sum(a)
            dd = [(x, y) for x, y in dep if x is not a]
            if e > 1:
                dd.append((a, e - 1))
            return pre * mk_sums(binders + bs, bod * P({tuple(sorted(dd, key=lambda t: t[0].id)): Fr(1)}))
    return pre * atomP(_canon_sum(binders, tuple(dep)))


def mk_sums(binders, body):
    """sum of a polynomial over several binders"""
    out = ZERO
    if not binders:
        return body
    for m, c in body.d.items():
        out = out + mk_sum(list(binders), m).scale(c)
    return out


def _groups(binders, dep):
    names = [b for b, _ in binders]
    par = {b: b for b in names}

    def find(x):
        while par[x] is not x:
            x = par[x]
        return x
    def join(xs):
        xs = [x for x in names if x in xs]
        for y in xs[1:]:
            par[find(y)] = find(xs[0])
    for a, e in dep:
        join(a.fv)
    for b, h in binders:
        join(set(h.fv) | {b})
    g = {}
    for b, h in binders:
        g.setdefault(find(b).id, ([], []))[0].append((b, h))
    for a, e in dep:
        r = [b for b in names if b in a.fv][0]
        g[find(r).id][1].append((a, e))
    return list(g.values())


_canon_cache = {}


def _canon_sum(binders, mono):
    ck = (tuple((b.id, h) for b, h in binders), mono)
    r = _canon_cache.get(ck)
    if r is not None:
        return r
    n = len(binders)
    best = None
    body = P({mono: Fr(1)})
    depth = 1 + _depth(body)
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for perm in perms:
        bs = [binders[i] for i in perm]
        seen = set()
        ok = True
        later = {b for b, _ in bs}
        for b, h in bs:
            later.discard(b)
            if h.fv & (later | {b}):
                ok = False
                break
        if not ok:
            continue
        mp = {}
        nb = []
        for i, (b, h) in enumerate(bs):
            nv = var("$%d_%d" % (depth, i))
            nb.append((the_atom(nv), subst(h, mp)))
            mp[b] = nv
        nbody = subst(body, mp)
        key = "S{%s|%s}" % (";".join(h.key for _, h in nb), nbody.key)
        if best is None or key < best[0]:
            best = (key, tuple(nb), nbody)
    key, nb, nbody = best
    bset = {b for b, _ in nb}
    fv = set(nbody.fv)
    for _, h in nb:
        fv |= h.fv
    nm = set(nbody.names)
    for _, h in nb:
        nm |= h.names
    at = _mk("sum", (nb, nbody), "int" if nbody.sort == "int" else "real", frozenset(fv - bset), key,
             nbody.hasiv, True, frozenset(nm))
    _canon_cache[ck] = at
    return at


def _depth(p):
    d = 0
    for m in p.d:
        for a, e in m:
            d = max(d, _adepth(a))
    return d


_dcache = {}


def _adepth(a):
    if a.kind == "var":
        n = a.a[0]
        return int(n[1:].split("_")[0]) if n.startswith("$") and n[1].isdigit() else 0
    r = _dcache.get(a.id)
    if r is not None:
        return r
    if a.kind == "app":
        r = max([_depth(x) for x in a.a[1:]] + [0])
    elif a.kind == "inv":
        r = _depth(a.a[0])
    elif a.kind == "iv":
        r = _cdepth(a.a)
    else:
        bs, body = a.a
        r = max([_depth(body)] + [_depth(h) for _, h in bs] + [int(bs[0][0].a[0][1:].split("_")[0])])
    _dcache[a.id] = r
    return r


def _cdepth(c):
    return max([_depth(x) if isinstance(x, P) else _cdepth(x) for x in c.a] + [0])


# ---------------------------------------------------------------- substitution
def subst(p, mp):
    """simultaneous capture-free substitution {var atom: term}"""
    ks = frozenset(mp)
    if not (p.fv & ks):
        return p
    return _sub(p, mp, ks, {})


def _sub(p, mp, ks, memo):
    if not (p.fv & ks):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    keep = {}
    for m, c in p.d.items():
        if not any(a.fv & ks for a, e in m):
            keep[m] = c
            continue
        t = P({tuple((a, e) for a, e in m if not (a.fv & ks)): c})
        for a, e in m:
            if a.fv & ks:
                x = _suba(a, mp, ks, memo)
                t = t * (x ** e if e > 0 else _negpow(x, e))
        out = out + t
    out = out + P(keep)
    memo[p] = out
    return out


def _negpow(x, e):
    if not x.d:
        return ZERO
    return inv(x) ** (-e)


def _suba(a, mp, ks, memo):
    if a.kind == "var":
        return mp[a] if a in mp else atomP(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "app":
        args = tuple(_sub(x, mp, ks, memo) for x in a.a[1:])
        if a.a[0] == "fdiv":
            r = fdiv(*args)
        elif a.a[0] == "sqrt":
            r = sqrt(*args)
        else:
            r = app(a.a[0], args, a.sort)
    elif a.kind == "iv":
        r = iv(csubst_(a.a, mp, ks, memo))
    elif a.kind == "inv":
        q = _sub(a.a[0], mp, ks, memo)
        r = inv(q) if q.d else ZERO
    else:
        bs, body = a.a
        m2 = dict(mp)
        nb = []
        for b, h in bs:
            h2 = _sub(h, m2, frozenset(m2), {})
            f = fresh("k")
            m2[b] = f
            nb.append((the_atom(f), h2))
        b2 = _sub(body, m2, frozenset(m2), {})
        r = sum_over(nb, b2)
    memo[a] = r
    return r


def sum_over(binders, body):
    """nested sums from the inside out (bounds may contain brackets / constants)"""
    for b, h in reversed(binders):
        body = _sum1(b, h, body)
    return body


def csubst(c, mp):
    ks = frozenset(mp)
    if not (c.fv & ks):
        return c
    return csubst_(c, mp, ks, {})


def csubst_(c, mp, ks, memo):
    if c.op in ("ge0", "gt0", "eq0"):
        q = _sub(c.a[0], mp, ks, memo)
        return {"ge0": ge0, "gt0": gt0, "eq0": eq0}[c.op](q)
    if c.op == "not":
        return Not(csubst_(c.a[0], mp, ks, memo))
    if c.op == "and":
        return And(*[csubst_(x, mp, ks, memo) for x in c.a])
    if c.op == "or":
        return Or(*[csubst_(x, mp, ks, memo) for x in c.a])
    return c


def mapapps(p, names, f):
    """replace applications of the function symbols `names`: f(name, args, sort) -> P"""
    names = frozenset(names)
    return _mapp(p, names, f, {})


def _mapp(p, names, f, memo):
    if not (p.names & names):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.d.items():
        t = P({tuple((a, e) for a, e in m if not (a.names & names)): c})
        for a, e in m:
            if a.names & names:
                x = _mapa(a, names, f, memo)
                t = t * (x ** e if e > 0 else _negpow(x, e))
        out = out + t
    memo[p] = out
    return out


def _mapa(a, names, f, memo):
    if a.kind == "app":
        args = tuple(_mapp(x, names, f, memo) for x in a.a[1:])
        if a.a[0] in names:
            return f(a.a[0], args, a.sort)
        if a.a[0] == "fdiv":
            return fdiv(*args)
        if a.a[0] == "sqrt":
            return sqrt(*args)
        return app(a.a[0], args, a.sort)
    if a.kind == "iv":
        return iv(cmap(a.a, names, f, memo))
    if a.kind == "inv":
        q = _mapp(a.a[0], names, f, memo)
        return inv(q) if q.d else ZERO
    bs, body = open_sum(a)
    nb = [(b, _mapp(h, names, f, memo)) for b, h in bs]
    return sum_over(nb, _mapp(body, names, f, memo))


def cmap(c, names, f, memo=None):
    memo = {} if memo is None else memo
    if c.op in ("ge0", "gt0", "eq0"):
        return {"ge0": ge0, "gt0": gt0, "eq0": eq0}[c.op](_mapp(c.a[0], names, f, memo))
    if c.op == "not":
        return Not(cmap(c.a[0], names, f, memo))
    if c.op in ("and", "or"):
        g = And if c.op == "and" else Or
        return g(*[cmap(x, names, f, memo) for x in c.a])
    return c


def cnames(c):
    s = set()
    for x in c.a:
        s |= x.names if isinstance(x, P) else cnames(x)
    return s


def lin_coeff(p, va):
    """p = c*va + r with c, r free of va; None when not linear in va (or va occurs inside atoms)"""
    cc, rr = {}, {}
    for m, c in p.d.items():
        e = dict(m).get(va, 0)
        if any(va in a.fv and a is not va for a, _ in m) or e not in (0, 1):
            return None
        if e:
            cc[tuple((a, x) for a, x in m if a is not va)] = c
        else:
            rr[m] = c
    return P(cc), P(rr)


def solve_lin(p, va):
    """solution of p == 0 for va when its coefficient is +-1"""
    l = lin_coeff(p, va)
    if l is None:
        return None
    c = l[0].const()
    if c is None or abs(c) != 1:
        return None
    return l[1].scale(-c)


# ---------------------------------------------------------------- differentiation
DERIV = {}  # name -> f(args, i) -> P : partial derivative with respect to argument i


def diff(p, isx):
    """derivative of p; isx(app atom) -> P or None gives d atom (None: constant)"""
    out = ZERO
    for m, c in p.d.items():
        for a, e in m:
            da = _diffa(a, isx)
            if not da.d:
                continue
            rest = []
            for b, x in m:
                if b is a:
                    if e != 1:
                        rest.append((b, e - 1))
                else:
                    rest.append((b, x))
            out = out + P({tuple(rest): c * e}) * da
    return out


def _diffa(a, isx):
    if a.kind == "var":
        d = isx(a)
        return ZERO if d is None else d
    if a.kind == "app":
        d = isx(a)
        if d is not None:
            return d
        out = ZERO
        for i, x in enumerate(a.a[1:]):
            dx = diff(x, isx)
            if dx.d:
                f = DERIV.get(a.a[0])
                if f is None:
                    raise Unsupported("derivative of " + a.a[0])
                out = out + f(a.a[1:], i) * dx
        return out
    if a.kind == "inv":
        return -atomP(a, 2) * diff(a.a[0], isx)
    if a.kind == "iv":
        return ZERO  # derivative away from the jump; continuity is a separate obligation
    bs, body = open_sum(a)
    return sum_over(bs, diff(body, isx))


def _d(name):
    def deco(f):
        DERIV[name] = f
        return f
    return deco


DERIV["sin"] = lambda a, i: app("cos", a)
DERIV["cos"] = lambda a, i: -app("sin", a)
DERIV["exp"] = lambda a, i: app("exp", a)
DERIV["sqrt"] = lambda a, i: inv(sqrt(a[0])).scale(Fr(1, 2))
DERIV["log"] = lambda a, i: inv(a[0])


def _zero_red(val):
    return lambda a: P.of(val) if a[0].const() == 0 else None


REDUCE["sin"] = _zero_red(0)
REDUCE["cos"] = _zero_red(1)
REDUCE["exp"] = _zero_red(1)


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == "var":
        return a.a[0]
    if a.kind == "app":
        return "%s(%s)" % (a.a[0], ",".join(map(show, a.a[1:])))
    if a.kind == "iv":
        return "[%r]" % a.a
    if a.kind == "inv":
        return "1/(%s)" % show(a.a[0])
    bs, body = a.a
    return "SUM{%s}(%s)" % (",".join("%s<%s" % (b.a[0], show(h)) for b, h in bs), show(body))


def show(p):
    if not p.d:
        return "0"
    out = []
    for m, c in p.d.items():
        fs = [show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out)
