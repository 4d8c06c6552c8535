"""Discharging equalities and conditions.

prove_zero(R): R == 0 in the current context.  Steps, each an equality-preserving rewriting justified
by the context (SMT entailment): bracket resolution, sum range splitting, one-point rule, unfolding of
loop-defined symbols, matrix-inverse rule, sum alignment (shift / reversal / range difference),
clearing of denominators, and finally the SMT solver on the residual.
"""
import itertools
import math
from fractions import Fraction as Fr
from . import terms as T
from . import ctx as X
from .terms import P, C, ZERO, ONE, And, Or, Not, ge0, gt0, eq0, le, lt, ge, eq, iv, subst, atomP, the_atom, fresh

DEFS = {}     # name -> Def
MATINV = {}   # name -> MatInv
ORTH = {}     # name -> size: orthogonal matrices (their transpose is in MATINV)
LETS = {}     # name -> value(args): abbreviations, expanded when nothing else applies
LEMMAS = []   # (symbol, sizes, f): f(indices) == 0 for all indices below the sizes (postconditions of linear solves)
RULES = []    # extra rewriting rules  f(P) -> P or None


class Def:
    """symbol(args) == value(args) whenever domain(args); closed: unfold everywhere"""

    def __init__(self, domain, value, closed=False, forall=None, pos=None):
        self.domain, self.value, self.closed, self.forall = domain, value, closed, forall
        self.pos = pos      # position of the argument the recursion runs over


class MatInv:
    """symbol(pre..., i, j) is the (i,j) entry of the inverse of the n x n matrix M(pre, i, j)"""

    def __init__(self, M, n, npre=0):
        self.M, self.n, self.npre = M, n, npre


class Budget:
    def __init__(self, n=4000):
        self.n = n

    def tick(self, k=1):
        self.n -= k
        if self.n < 0:
            raise T.Unsupported("proof budget exhausted")


def ctxkey():
    return tuple(c.key for c in X.cur.conds)


# ------------------------------------------------------------------ simplification under context
def decide(c):
    """True / False / None"""
    if X.entails(c):
        return True
    if X.entails(Not(c)):
        return False
    return None


_simp_cache = {}


def simp(p, bud):
    for _ in range(60):
        if X.cur.subs and (p.fv & set(X.cur.subs)):
            p = subst(p, X.cur.subs)
        q = simp1(p, bud)
        if q == p:
            return p
        p = q
    return p


def simp1(p, bud):
    bud.tick()
    # closed definitions
    cn = [n for n in p.names if n in DEFS and DEFS[n].closed]
    # top level brackets
    for a in T.ivs(p):
        d = decide(a.a)
        if d is not None:
            p = T.set_iv(p, a, 1 if d else 0)
    out = ZERO
    changed = False
    for m, c in p.d.items():
        t = P({tuple((a, e) for a, e in m if a.kind not in ("sum", "app", "inv")): c})
        for a, e in m:
            if a.kind in ("sum", "app", "inv"):
                x = simp_atom(a, bud)
                if x is None:
                    t = t * P({((a, e),): Fr(1)})
                else:
                    changed = True
                    t = t * (x ** e if e > 0 else T._negpow(x, e))
        out = out + t
    return out if changed else p


def simp_atom(a, bud):
    key = (a.id, ctxkey(), len(DEFS))
    if key in _simp_cache:
        return _simp_cache[key]
    r = _simp_atom(a, bud)
    _simp_cache[key] = r
    return r


def _simp_atom(a, bud):
    if a.kind == "app":
        name = a.a[0]
        args = a.a[1:]
        ch = False
        na = []
        for x in args:
            y = simp1(x, bud) if (x.hassum or x.hasiv or any(n in DEFS for n in x.names)) else x
            ch = ch or (y != x)
            na.append(y)
        if ch:
            return T.fdiv(*na) if name == "fdiv" else T.sqrt(*na) if name == "sqrt" else T.app(name, na, a.sort)
        d = DEFS.get(name)
        if d is not None and d.closed and dom_ok(d, args):
            return d.value(args)
        if name == "fdiv":
            q = fdiv_resolve(args)
            if q is not None:
                return q
        if name == "pow" and args[1].sort == "int":
            k = int(args[1].d.get((), 0))
            if k < 0 and X.entails(Not(eq0(args[0]))):
                return T.app("pow", (args[0], args[1] - k)) * args[0] ** k
        return None
    if a.kind == "inv":
        x = simp1(a.a[0], bud)
        if x != a.a[0]:
            return T.inv(x) if x.d else ZERO
        return None
    return simp_sum(a, bud)


def fdiv_resolve(args):
    """floor division whose quotient is decided by the context: q*b <= a < (q+1)*b"""
    a, b = args
    cands = set()
    # candidates: coefficients of monomials that contain b
    bm = list(b.d.items())
    if len(bm) == 1 and bm[0][1] > 0:
        mb, cb = bm[0]
        q = ZERO
        for m, c in a.d.items():
            md = dict(m)
            if all(md.get(x, 0) >= e for x, e in mb):
                for x, e in mb:
                    md[x] -= e
                    if not md[x]:
                        del md[x]
                k = c / cb
                q = q + P({tuple(sorted(md.items(), key=lambda t: t[0].id)): Fr(k.numerator // k.denominator)})
        cands.add(q)
        cands.add(q + 1)
        cands.add(q - 1)
    for q in cands:
        if X.entails(And(gt0(b), ge0(a - q * b), lt(a, q * b + b))):
            return q
    return None


def dom_ok(d, args):
    c = d.domain(args)
    if not X.entails(c):
        return False
    if d.forall is not None:
        # side condition over all m in [0, n): proved for a generic m
        m = fresh("m")
        n, body = d.forall(args, m)
        with X.assuming(ge0(m), lt(m, n)):
            if X.consistent() and not X.entails(body):
                return False
    return True


def brange(bs):
    out = []
    for b, h in bs:
        bp = atomP(b)
        out.append(ge0(bp))
        out.append(lt(bp, h))
    return out


def real_step(k, r, strict, bud):
    """k*b + r >= 0 (> 0) over the integers b, with real k of known sign, where r/k is an integer plus a constant:
    (1, t) for b >= t, (-1, t) for b <= t"""
    if X.entails(gt0(k)):
        s = 1
    elif X.entails(gt0(-k)):
        s = -1
    else:
        return None
    q = simp1(r / k, bud) if s > 0 else simp1(r / (-k), bud)      # b >= -q, or b <= q
    c = Fr(q.d.get((), 0))
    qi = q - P.of(c)
    if qi.sort != "int":
        return None
    if s > 0:
        lo = math.floor(-c) + 1 if strict else math.ceil(-c)
        return 1, P.of(lo) - qi
    hi = math.ceil(c) - 1 if strict else math.floor(c)
    return -1, qi + P.of(hi)


def simp_sum(a, bud):
    """None if nothing changes"""
    bud.tick()
    bs, body = T.open_sum(a)
    with X.assuming(*brange(bs)):
        if not X.consistent():
            return ZERO
        b2 = simp1(body, bud)
        if b2 != body:
            return T.sum_over(bs, b2)
    (m, c), = body.d.items()
    # range splitting on a bracket that is linear in a binder
    for at, e in m:
        if at.kind != "iv" or at.a.op not in ("ge0", "gt0"):
            continue
        p = at.a.a[0]
        for i in range(len(bs) - 1, -1, -1):
            b, h = bs[i]
            if b not in p.fv or any(b in hh.fv for _, hh in bs[i + 1:]):
                continue
            l = T.lin_coeff(p, b)
            if l is None:
                continue
            k, r = l
            kc = k.const()
            step = None
            if kc is None or p.sort != "int":
                step = real_step(k, r, at.a.op == "gt0", bud)
                if step is None:
                    continue
                kc = step[0]
            if any(x in r.fv for x, _ in bs[i + 1:]):
                # move b to the innermost position when allowed
                if h.fv & {x for x, _ in bs[i + 1:]}:
                    continue
                bs2 = bs[:i] + bs[i + 1:] + [(b, h)]
            else:
                bs2 = bs
            j = [x for x, _ in bs2].index(b)
            if step is not None:
                t = step[1]
            elif abs(kc) != 1:
                # k*b + r >= 0 with integer k: b >= ceil(-r/k)
                if p.sort != "int":
                    continue
                kc = int(kc)
                if kc > 0:
                    t = -T.fdiv(r, P.of(kc))  # ceil(-r/k) = -floor(r/k)
                else:
                    t = T.fdiv(r, P.of(-kc))
            else:
                if p.sort != "int":
                    continue
                t = -r if kc > 0 else r
            rest = P({tuple((x, y) for x, y in m if x is not at): c})
            bp = atomP(b)
            if kc > 0:   # b >= t
                lo = T.tmax(t, 0)
                inner = T.Sum(bp, h, rest, lo=lo) if not T.top_iv(lo) else \
                    T.ite(ge0(t), T.Sum(bp, h, rest, lo=t), T.Sum(bp, h, rest))
            else:        # b <= t
                inner = T.ite(le(t + 1, h), T.Sum(bp, t + 1, rest), T.Sum(bp, h, rest))
            if j < len(bs2) - 1:
                inner = T.sum_over(bs2[j + 1:], inner) if not (h.fv & {x for x, _ in bs2[j + 1:]}) else None
                if inner is None:
                    continue
            return T.sum_over(bs2[:j], inner)
    # geometric sum
    if len(bs) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].a[0] == "pow":
        b, h = bs[0]
        x, e = m[0][0].a[1:]
        if b not in x.fv and e.sort == "int" and T.lin_coeff(e, b) is not None and T.lin_coeff(e, b)[0] == T.ONE and X.entails(And(ge0(h), Not(eq(x, 1)))):
            r = T.lin_coeff(e, b)[1]
            return (T.app("pow", (x, r + h)) - T.app("pow", (x, r))) / (x - 1) * P.of(c)
    # bound of the outermost binders simplified
    for i, (b, h) in enumerate(bs):
        with X.assuming(*brange(bs[:i])):
            h2 = simp1(h, bud) if (h.hassum or h.hasiv or any(n in DEFS for n in h.names) or "fdiv" in h.names) else h
        if h2 != h:
            nb = list(bs)
            nb[i] = (b, h2)
            return T.sum_over(nb, body)
    return None


def eqnorm(p):
    """[v == t] f(v) = [v == t] f(t)"""
    out = ZERO
    ch = False
    for m, c in p.d.items():
        mp = {}
        for a, e in m:
            if a.kind == "iv":
                for k in ([a.a] if a.a.op == "eq0" else [x for x in a.a.a if isinstance(x, C) and x.op == "eq0"] if a.a.op == "and" else []):
                    q = subst(k.a[0], mp)
                    for v in sorted(q.fv, key=lambda z: -z.id):
                        if v.kind == "var" and v.sort == "int":
                            t = T.solve_lin(q, v)
                            if t is not None and t.sort == "int" and v not in t.fv:
                                mp = {x: subst(y, {v: t}) for x, y in mp.items()}
                                mp[v] = t
                                break
        rest = tuple((a, e) for a, e in m if a.kind != "iv")
        if not mp or not rest:
            out = out + P({m: c})
            continue
        ivp = P({tuple((a, e) for a, e in m if a.kind == "iv"): c})
        n = subst(P({rest: Fr(1)}), mp)
        ch = True
        out = out + ivp * n
    return out if ch else p


# ------------------------------------------------------------------ matrix inverse rule
def inv_rewrite(p, bud):
    for m, c in p.d.items():
        for at, e in m:
            if at.kind != "sum" or e != 1:
                continue
            if not any(n in MATINV for n in at.names):
                continue
            x = inv_sum(at, bud)
            if x is not None:
                rest = P({tuple((a, y) for a, y in m if a is not at): c})
                return p - P({m: c}) + rest * x
    return None


def match(pat, val, binds, holes):
    """match a pattern term against a value; holes: var atoms that may be bound"""
    if len(pat.d) == 1:
        (m, c), = pat.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in holes:
            h = m[0][0]
            if h in binds:
                return binds[h] == val
            binds[h] = val
            return True
    return subst(pat, binds) == val if (pat.fv & set(holes)) else pat == val


def inv_sum(at, bud):
    bs, body = T.open_sum(at)
    (m, c), = body.d.items()
    for ia, ie in m:
        if ia.kind != "app" or ia.a[0] not in MATINV or ie != 1:
            continue
        mi = MATINV[ia.a[0]]
        pre = ia.a[1:1 + mi.npre]
        i, j = ia.a[1 + mi.npre:]
        for side in (0, 1):
            kk = i if side == 0 else j     # contracted index of the inverse
            other = j if side == 0 else i
            bi = [n for n, (b, h) in enumerate(bs) if atomP(b) == kk]
            if not bi:
                continue
            b, h = bs[bi[0]]
            if b in other.fv or any(b in x.fv for x in pre) or any(b in hh.fv for _, hh in bs[bi[0] + 1:]):
                continue
            nn = mi.n(pre)
            if not (h == nn or X.entails(eq(h, nn))):
                continue
            r = fresh("r")
            ra = the_atom(r)
            # M(r, k) for side 0 (M*IM = 1), M(k, r) for side 1 (IM*M = 1)
            M = mi.M(pre, r, atomP(b)) if side == 0 else mi.M(pre, atomP(b), r)
            # lead monomial: one factor (application) that depends on both indices, and the rest free of them
            # (always the same one, so that the rewriting terminates)
            leads = []
            for lm, lc in M.d.items():
                dep = [(a, e) for a, e in lm if a.fv & {ra, b}]
                if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].kind == "app":
                    leads.append((dep[0][0].a[0], len(lm), str(lc), lm, lc, dep[0][0]))
            leads.sort(key=lambda z: z[:3])
            for _, _, _, lm, lc, la in leads[:1]:
                for xa, xe in m:
                    if xa is ia or xa.kind != "app" or xa.a[0] != la.a[0] or xe != 1:
                        continue
                    if len(xa.a) != len(la.a):
                        continue
                    binds = {}
                    if not all(match(pp, vv, binds, [ra]) for pp, vv in zip(la.a[1:], xa.a[1:])):
                        continue
                    if ra not in binds or b in binds[ra].fv:
                        continue
                    others = [(a, e) for a, e in m if a is not ia and a is not xa]
                    if any(b in a.fv for a, e in others):
                        continue
                    rv = binds[ra]
                    coef = P({tuple((a, e) for a, e in lm if a is not la): lc})
                    Mr = subst(M - P({lm: lc}), {ra: rv})
                    inner = iv(eq(rv, other)) - T._sum1(b, h, Mr * atomP(ia))
                    newbody = P({tuple(others): c}) * inner * T.inv(coef)
                    nb = [x for n, x in enumerate(bs) if n != bi[0]]
                    return T.sum_over(nb, newbody)
    return None


# ------------------------------------------------------------------ sum alignment
def axis_view(at, i):
    """sum atom seen as sum over its i-th binder: (binder atom, hi, inner term) or None"""
    bs, body = T.open_sum(at)
    b, h = bs[i]
    others = [x for n, x in enumerate(bs) if n != i]
    if h.fv & {x for x, _ in others}:
        return None
    before = bs[:i]
    # the binder may appear in the bounds of later binders: fine (inner sum depends on it)
    return b, h, T.sum_over(others, body)


def lin_args(p, b, out=None):
    """(name, position path) -> list of (sigma, offset) for linear occurrences of b in application args"""
    out = {} if out is None else out
    for m in p.d:
        for a, e in m:
            _lin_atom(a, b, out)
    return out


def _lin_atom(a, b, out):
    if b not in a.fv:
        return
    if a.kind == "app":
        for i, x in enumerate(a.a[1:]):
            if b in x.fv:
                l = T.lin_coeff(x, b)
                if l is not None and l[0].as_int() is not None:
                    out.setdefault((a.a[0], i), []).append((int(l[0].const()), l[1]))
                else:
                    lin_args(x, b, out)
    elif a.kind == "sum":
        bs, body = T.open_sum(a)
        lin_args(body, b, out)
        for _, h in bs:
            l = T.lin_coeff(h, b) if b in h.fv else None
            if l is not None and l[0].const() in (1, -1):
                out.setdefault(("$hi", 0), []).append((int(l[0].const()), l[1]))
    elif a.kind == "inv":
        l = T.lin_coeff(a.a[0], b)
        if l is not None and l[0].const() in (1, -1):
            out.setdefault(("$inv", 0), []).append((int(l[0].const()), l[1]))
        lin_args(a.a[0], b, out)
    elif a.kind == "iv":
        for x in a.a.a:
            if isinstance(x, P) and b in x.fv:
                l = T.lin_coeff(x, b)
                if l is not None and l[0].const() in (1, -1):
                    out.setdefault(("$iv", 0), []).append((int(l[0].const()), l[1]))
                lin_args(x, b, out)
    elif a.kind == "var":
        out.setdefault(("$var", 0), []).append((1, ZERO))


def peel(x, y, b, f, bud):
    """F(x)-F(y) for the prefix sum F of f(b): term, or None when undecided"""
    d = x - y
    if d.const() is None and (d.hasiv or d.hassum):
        d = simp(d, bud)
    n = d.as_int()
    if n is None:
        for k in (0, 1, -1, 2, -2):
            if X.entails(eq0(d - k)):
                n = k
                break
    if n is not None:
        r = ZERO
        if 0 <= n <= 6:
            for k in range(n):
                r = r + subst(f, {b: y + k})
            return r, True
        if -6 <= n < 0:
            for k in range(-n):
                r = r - subst(f, {b: x + k})
            return r, True
    if X.entails(ge0(d)):
        return T.Sum(atomP(b), x, f, lo=y), False
    if X.entails(ge0(-d)):
        return -T.Sum(atomP(b), y, f, lo=x), False
    return None, False


def transforms(b1, f1, b2, f2):
    """candidate (sigma, t) with b2 = sigma*b1 + t"""
    l1, l2 = lin_args(f1, b1), lin_args(f2, b2)
    seen = []
    for k in l1:
        if k not in l2:
            continue
        for s1, o1 in l1[k]:
            for s2, o2 in l2[k]:
                # s2*b2 + o2 == s1*b1 + o1   ->  b2 = s2*(s1*b1 + o1 - o2)
                if abs(s1) != abs(s2):
                    continue
                sg, t = s1 // s2, (o1 - o2).scale(Fr(1, s2))
                if t.fv & {b1, b2}:
                    continue
                if t.sort == "int" and (sg, t) not in seen:
                    seen.append((sg, t))
    return seen[:24]


def align(p, bud):
    """eliminate one sum atom in favour of another one over the same summand"""
    terms = []
    for m, c in p.d.items():
        for at, e in m:
            if at.kind == "sum" and e == 1:
                rest = tuple((a, y) for a, y in m if a is not at)
                terms.append((at, rest, c, m))
    best = None
    for (x, y) in itertools.combinations(range(len(terms)), 2):
        a1, r1, c1, m1 = terms[x]
        a2, r2, c2, m2 = terms[y]
        if a1 is a2 or len(a1.a[0]) != len(a2.a[0]) or r1 != r2:
            continue
        res = align_pair(a1, a2, bud)
        if res is None:
            continue
        repl, exact = res       # a2 == repl (contains a1)
        q = p - P({m2: c2}) + P({r2: c2}) * repl
        if exact:
            return q
        if best is None and c1 == -c2:
            best = q
    return best


def align_two(p, bud):
    """alignment along two axes: shift one sum along an axis, then align along another"""
    terms = []
    for m, c in p.d.items():
        for at, e in m:
            if at.kind == "sum" and e == 1 and len(at.a[0]) >= 2:
                terms.append((at, tuple((a, y) for a, y in m if a is not at), c, m))
    for (x, y) in itertools.permutations(range(len(terms)), 2):
        a1, r1, c1, m1 = terms[x]
        a2, r2, c2, m2 = terms[y]
        if a1 is a2 or len(a1.a[0]) != len(a2.a[0]) or r1 != r2 or a1.names != a2.names:
            continue
        for i in range(len(a1.a[0])):
            v1 = axis_view(a1, i)
            if v1 is None:
                continue
            b1, h1, f1 = v1
            for j in range(len(a2.a[0])):
                v2 = axis_view(a2, j)
                if v2 is None:
                    continue
                b2, h2, f2 = v2
                for sg, t in transforms(b1, f1, b2, f2):
                    bud.tick(3)
                    g2 = subst(f2, {b2: atomP(b1).scale(sg) + t})
                    s2, e2 = (-t, h2 - t) if sg > 0 else (t - h2 + 1, t + 1)
                    if (s2 - e2 + h1) == ZERO and s2 == ZERO and sg > 0:
                        continue
                    if not (X.entails(ge0(h1)) and X.entails(ge0(h2))):
                        continue
                    up, ex1 = peel(e2, h1, b1, g2, bud)
                    if up is None or not ex1:
                        continue
                    lo, ex2 = peel(s2, ZERO, b1, g2, bud)
                    if lo is None or not ex2:
                        continue
                    n2 = T._sum1(b1, h1, g2)
                    if len(n2.d) != 1:
                        continue
                    (nm, nc), = n2.d.items()
                    if len(nm) != 1 or nm[0][0].kind != "sum" or nm[0][1] != 1:
                        continue
                    na = nm[0][0]
                    if na is a1:
                        rep = atomP(a1)
                    else:
                        res = align_pair(a1, na, bud)
                        if res is None or not res[1]:
                            continue
                        rep = res[0]
                    return p - P({m2: c2}) + P({r2: c2}) * (rep.scale(nc) + up - lo)
    return None


def align_pair(a1, a2, bud):
    for i in range(len(a1.a[0])):
        v1 = axis_view(a1, i)
        if v1 is None:
            continue
        b1, h1, f1 = v1
        for j in range(len(a2.a[0])):
            v2 = axis_view(a2, j)
            if v2 is None:
                continue
            b2, h2, f2 = v2
            if f1.names != f2.names:
                continue
            for sg, t in transforms(b1, f1, b2, f2):
                bud.tick(3)
                g2 = subst(f2, {b2: atomP(b1).scale(sg) + t})
                if g2 != f1:
                    with X.assuming(ge0(atomP(b1)), lt(atomP(b1), h1)):
                        g2 = simp(g2, bud)
                        if g2 != f1 and g2 != simp(f1, bud):
                            continue
                    if not (h1 == h2 or X.entails(eq(h1, h2))):
                        continue   # equality was only established inside the range of a1
                    # require same range for context-dependent equality
                    s2 = -t if sg > 0 else t - h2 + 1
                    if not X.entails(eq0(s2)):
                        continue
                    if X.entails(ge0(h1)):
                        return atomP(a1), True
                    continue
                if sg > 0:
                    s2, e2 = -t, h2 - t
                else:
                    s2, e2 = t - h2 + 1, t + 1
                if not (X.entails(ge0(h1)) and X.entails(ge0(h2))):
                    continue
                up, ex1 = peel(e2, h1, b1, f1, bud)
                if up is None:
                    continue
                lo, ex2 = peel(s2, ZERO, b1, f1, bud)
                if lo is None:
                    continue
                return atomP(a1) + up - lo, (ex1 and ex2)
    return None


def nonneg_bounds(p):
    """sum bounds whose sign is undecided (split candidates)"""
    for m in p.d:
        for a, e in m:
            if a.kind == "sum":
                for b, h in a.a[0]:
                    if not any(x.a[0].startswith("$") for x in h.fv if x.kind == "var"):
                        if not X.entails(ge0(h)):
                            return h
    return None


# ------------------------------------------------------------------ unfolding, denominators
def rec_occ(p, bound, out):
    """occurrences of recursive symbols: (max index value, kind, where)"""
    for m in p.d:
        for a, e in m:
            _rec_atom(a, bound, out)


def _rec_atom(a, bound, out):
    if not any(n in DEFS and not DEFS[n].closed for n in a.names):
        return
    if a.kind == "app":
        d = DEFS.get(a.a[0])
        if d is not None and not d.closed:
            if d.pos is None:
                v = None
            else:
                v = a.a[1 + d.pos]
            out.append((a.a[0], v, a))
        for x in a.a[1:]:
            rec_occ(x, bound, out)
    elif a.kind == "inv":
        rec_occ(a.a[0], bound, out)
    elif a.kind == "iv":
        _rec_cond(a.a, bound, out)
    elif a.kind == "sum":
        bs, body = a.a
        sub = []
        rec_occ(body, bound, sub)
        bset = {b for b, h in bs}
        for n, v, x in sub:
            if v is not None and (v.fv & bset):
                hit = v.fv & bset
                b = next(iter(hit))
                l = T.lin_coeff(v, b) if len(hit) == 1 else None
                h = dict(bs)[b]
                if l is not None and l[0].const() is not None and l[0].const() > 0 and not (h.fv & bset):
                    out.append((n, subst(v, {b: h - 1}), ("peel", a, b)))
                else:
                    out.append((n, None, None))
            else:
                out.append((n, v, x))


def _rec_cond(c, bound, out):
    for x in c.a:
        if isinstance(x, P):
            rec_occ(x, bound, out)
        elif isinstance(x, C):
            _rec_cond(x, bound, out)


def vmax(vs):
    """greatest of a list of terms, when the context decides"""
    best = None
    for v in vs:
        if best is None or v == best or X.entails(ge(v, best)):
            best = v
    return best


def unfold_at(p, name, v, bud):
    """replace name(.., v, ..) by its definition, also below sums"""
    d = DEFS[name]
    out = ZERO
    ch = False
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            x = None
            if name in a.names:
                x = _unfold_atom(a, name, v, d, bud)
            if x is None:
                t = t * P({((a, e),): Fr(1)})
            else:
                ch = True
                t = t * (x ** e if e > 0 else T._negpow(x, e))
        out = out + t
    return out if ch else None


def _unfold_atom(a, name, v, d, bud):
    if a.kind == "app":
        if a.a[0] == name and (d.pos is None or a.a[1 + d.pos] == v or X.entails(eq(a.a[1 + d.pos], v))):
            if dom_ok(d, a.a[1:]):
                return d.value(a.a[1:])
        return None
    if a.kind == "inv":
        x = unfold_at(a.a[0], name, v, bud)
        return None if x is None else T.inv(simp(x, bud))
    if a.kind == "sum":
        bs, body = T.open_sum(a)
        with X.assuming(*brange(bs)):
            if not X.consistent():
                return ZERO
            x = unfold_at(body, name, v, bud)
        return None if x is None else T.sum_over(bs, x)
    if a.kind == "iv":
        c = _unfold_cond(a.a, name, v, d, bud)
        return None if c is a.a else iv(c)
    return None


def _unfold_cond(c, name, v, d, bud):
    if name not in T.cnames(c):
        return c
    if c.op in ("ge0", "gt0", "eq0"):
        x = unfold_at(c.a[0], name, v, bud)
        return c if x is None else {"ge0": ge0, "gt0": gt0, "eq0": eq0}[c.op](x)
    if c.op == "not":
        return Not(_unfold_cond(c.a[0], name, v, d, bud))
    return (And if c.op == "and" else Or)(*[_unfold_cond(x, name, v, d, bud) for x in c.a])


def peel_last(p, at, b):
    """sum = sum without the last value of binder b + last term; needs a non-empty range"""
    bs, body = T.open_sum(at)
    i = [x for x, _ in at.a[0]].index(b)
    bb, h = bs[i]
    others = [x for n, x in enumerate(bs) if n != i]
    if h.fv & {x for x, _ in others}:
        return None
    inner = T.sum_over(others, body)
    rep = T.Sum(atomP(bb), h - 1, inner) + subst(inner, {bb: h - 1})
    out = ZERO
    for m, c in p.d.items():
        k = [e for a, e in m if a is at]
        if k:
            out = out + P({tuple((a, e) for a, e in m if a is not at): c}) * rep ** k[0]
        else:
            out = out + P({m: c})
    return out


def unfold(p, bud):
    """one step of recursion at the largest index: (new term or None, condition to split on or None)"""
    occ = []
    rec_occ(p, set(), occ)
    names = []
    for n, v, w in occ:
        if n not in names:
            names.append(n)
    for name in names:
        oc = [(v, w) for n, v, w in occ if n == name and w is not None]
        if DEFS[name].pos is None:
            q = unfold_at(p, name, None, bud)
            if q is not None:
                return q, None
            continue
        vs = [v for v, w in oc if v is not None]
        top = vmax(vs)
        if top is None:
            continue
        q = p
        for v, w in oc:
            if isinstance(w, tuple) and (v == top or X.entails(eq(v, top))):
                tops = {a for m in q.d for a, e in m if a.kind == "sum"}
                if w[1] not in tops:
                    continue
                h = dict(w[1].a[0])[w[2]]
                if not X.entails(ge(h, 1)):
                    if X.entails(le(h, 0)):
                        continue
                    return None, ge(h, 1)
                r = peel_last(q, w[1], w[2])
                if r is not None:
                    q = r
        r = unfold_at(q, name, top, bud)
        if r is not None:
            return r, None
    return None, None


def divisor(p):
    """variable and modulus of a floor division by a small constant"""
    for m in p.d:
        for a, e in m:
            if "fdiv" not in a.names:
                continue
            r = _div_atom(a)
            if r is not None:
                return r
    return None


def _div_atom(a):
    if a.kind == "app":
        if a.a[0] == "fdiv":
            k = a.a[2].as_int()
            if k is not None and 2 <= k <= 4:
                for x in a.a[1].fv:
                    if x.kind == "var" and x.sort == "int" and not x.a[0].startswith("$"):
                        l = T.lin_coeff(a.a[1], x)
                        if l is not None and l[0].const() is not None and abs(l[0].const()) == 1:
                            return x, k
        for y in a.a[1:]:
            r = divisor(y)
            if r is not None:
                return r
    elif a.kind == "inv":
        return divisor(a.a[0])
    elif a.kind == "sum":
        for b, h in a.a[0]:
            r = divisor(h)
            if r is not None:
                return r
        return divisor(a.a[1])
    elif a.kind == "iv":
        return _div_cond(a.a)
    return None


def _div_cond(c):
    for x in c.a:
        r = divisor(x) if isinstance(x, P) else _div_cond(x) if isinstance(x, C) else None
        if r is not None:
            return r
    return None


def split_mod(R, va, k, cont):
    """case analysis on the residue of an integer variable"""
    saved = dict(X.cur.subs)
    try:
        for r in range(k):
            q = fresh(va.a[0] + "q")
            t = q.scale(k) + r
            with X.assuming(eq0(atomP(va) - t)):
                if not X.consistent():
                    continue
                X.cur.subs = {x: subst(y, {va: t}) for x, y in saved.items()}
                X.cur.subs[va] = t
                res = cont(subst(R, {va: t}))
                if not res:
                    return res
        return Result(True)
    finally:
        X.cur.subs = saved


def clear_den(p):
    """multiply by the denominators (they are non-zero by the definedness assumptions)"""
    invs = {}
    neg = {}
    for m in p.d:
        for a, e in m:
            if a.kind == "inv" and e > 0:
                invs[a] = max(invs.get(a, 0), e)
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if not invs and not neg:
        return None
    out = ZERO
    for m, c in p.d.items():
        t = {a: e for a, e in m}
        f = ONE
        for a, k in invs.items():
            e = t.pop(a, 0)
            f = f * a.a[0] ** (k - e)
        for a, k in neg.items():
            e = t.get(a, 0)
            if a in t:
                del t[a]
            f = f * atomP(a) ** (k + e) if k + e else f
        out = out + P({tuple(sorted(t.items(), key=lambda z: z[0].id)): c}) * f
    return out


class Result:
    def __init__(self, ok, residual=None, ctx=None, why=""):
        self.ok, self.residual, self.ctx, self.why = ok, residual, ctx, why

    def __bool__(self):
        return self.ok


def eq_subs():
    """substitution given by the equalities of the context"""
    subs = dict(X.cur.subs)
    for c in X.cur.conds:
        if not isinstance(c, C) or c.op != "eq0":
            continue
        p = subst(c.a[0], subs) if subs else c.a[0]
        if not p.d:
            continue
        for v in sorted(p.fv, key=lambda a: -a.id):
            if v.kind != "var" or v.sort != "int":
                continue
            t = T.solve_lin(p, v)
            if t is None or t.sort != "int" or v in t.fv:
                continue
            subs = {x: subst(y, {v: t}) for x, y in subs.items()}
            subs[v] = t
            break
    return subs


def fixed_var(R):
    """an integer variable whose value is forced by the context"""
    for v in sorted(R.fv, key=lambda a: a.id):
        if v.kind == "var" and v.sort == "int" and not v.a[0].startswith("$"):
            for k in (0, 1):
                if X.entails(eq0(atomP(v) - k)):
                    return v, P.of(k)
    for c in X.cur.conds:
        if isinstance(c, C) and c.op == "ge0" and len(c.a[0].fv) <= 3 and len(c.a[0].d) <= 4:
            p = subst(c.a[0], X.cur.subs) if X.cur.subs else c.a[0]
            if p.d and p.fv & R.fv and X.entails(eq0(p)):
                for v in sorted(p.fv & R.fv, key=lambda a: -a.id):
                    if v.kind == "var" and v.sort == "int" and not v.a[0].startswith("$"):
                        t = T.solve_lin(p, v)
                        if t is not None and t.sort == "int" and v not in t.fv:
                            return v, t
    return None


def prove_zero(R, bud=None, unf=3, splits=16):
    saved = X.cur.subs
    X.cur.subs = eq_subs()
    try:
        return prove_zero_(R, bud, unf, splits)
    finally:
        X.cur.subs = saved


def prove_zero_(R, bud, unf, splits):
    bud = bud or Budget()
    if splits <= 0:
        return Result(False, R, list(X.cur.conds), "too many case splits")
    R = P.of(R)
    if not R.d:
        return Result(True)
    if not X.consistent():
        return Result(True)
    for _ in range(40):
        R = simp(R, bud)
        if not R.d:
            return Result(True)
        if "fdiv" in R.names:
            dv = divisor(R)
            if dv is not None:
                return split_mod(R, dv[0], dv[1], lambda r: prove_zero(r, bud, unf, splits - 1))
        for rule in RULES:
            q = rule(R)
            if q is not None:
                R = q
                break
        else:
            q = inv_rewrite(R, bud)
            if q is None:
                a = T.first_iv(R)
                if a is not None:
                    return split(R, a.a, bud, unf, splits)
                q = expand_lets(R)
            if q is None:
                q = align(R, bud)
            if q is None:
                q = align_two(R, bud)
            if q is None and unf > 0:
                q, sc = unfold(R, bud)
                if sc is not None:
                    return split(R, sc, bud, unf, splits)
                if q is not None:
                    unf -= 1
            if q is None:
                break
            R = q
    a = T.first_iv(R)
    if a is not None:
        return split(R, a.a, bud, unf, splits)
    fx = fixed_var(R)
    if fx is not None:
        with X.assuming(eq0(atomP(fx[0]) - fx[1])):
            return prove_zero(R, bud, unf, splits - 1)
    h = nonneg_bounds(R)
    if h is not None:
        return split(R, ge0(h), bud, unf, splits)
    q = clear_den(R)
    if q is not None:
        r = prove_zero(q, bud, unf, splits - 1)
        if r:
            return r
        return Result(False, R, list(X.cur.conds), r.why)
    if X.entails(eq0(R), timeout=4000):
        return Result(True)
    facts = ctx_facts(bud)
    if facts:
        with X.assuming(*facts):
            return prove_zero(R, bud, unf, splits - 1)
    return Result(False, R, list(X.cur.conds), "residual not reduced to zero")


def ctx_facts(bud):
    """what the conditions of the context on sums say once these sums are simplified"""
    known = {c.key for c in X.cur.conds if isinstance(c, C)}
    out = []
    for c in list(X.cur.conds):
        if isinstance(c, C) and c.op in ("ge0", "gt0", "eq0") and c.a[0].hassum:
            p = simp(c.a[0], bud)
            if p != c.a[0] and not p.hassum:
                n = {"ge0": ge0, "gt0": gt0, "eq0": eq0}[c.op](p)
                if n.key not in known:
                    out.append(n)
    return out


def split(R, c, bud, unf, splits):
    for cc, val in ((c, True), (Not(c), False)):
        with X.assuming(cc):
            if not X.consistent():
                continue
            r = prove_zero(R, bud, unf, splits - 1)
            if not r:
                return r
    return Result(True)


def prove_eq(a, b, **kw):
    return prove_zero(P.of(a) - P.of(b), **kw)


def prove_cond(c, bud=None, splits=8):
    """c holds in the current context"""
    bud = bud or Budget()
    if isinstance(c, bool):
        return Result(c, None, None, "constant condition")
    if c.op == "and":
        for x in c.a:
            r = prove_cond(x, bud, splits)
            if not r:
                return r
        return Result(True)
    if X.entails(c, timeout=5000):
        return Result(True)
    if c.op == "eq0":
        return prove_zero(c.a[0], bud)
    if c.op in ("ge0", "gt0"):
        p = simp(c.a[0], bud)
        if p != c.a[0]:
            return prove_cond({"ge0": ge0, "gt0": gt0}[c.op](p), bud, splits - 1) if splits > 0 else Result(False, p, list(X.cur.conds))
    if c.op == "ge0" and c.a[0].sort != "int":
        p = c.a[0]
        for _ in range(3):
            if nonneg(p):
                return Result(True)
            p, _c = unfold(p, bud)
            if p is None:
                break
            p = simp(p, bud)
    return Result(False, None, list(X.cur.conds), "not entailed: %r" % (c,))


def nonneg(p, depth=4):
    """p >= 0, read off its structure: sums, products and inverses of non-negative terms"""
    return depth > 0 and all(nonneg_mono(m, c, depth) for m, c in p.d.items())


def nonneg_mono(m, c, depth):
    ivs = [a.a for a, e in m if a.kind == "iv"]
    with X.assuming(*ivs):
        if not X.consistent():
            return True
        s = 1 if c > 0 else -1
        for a, e in m:
            if a.kind == "iv" or e % 2 == 0:
                continue
            if nonneg_atom(a, depth):
                continue
            t = atomP(a)
            if X.entails(ge0(t)):
                continue
            if X.entails(ge0(-t)):
                s = -s
                continue
            return False
        return s > 0


def nonneg_atom(a, depth):
    if a.kind == "inv":
        return nonneg(a.a[0], depth - 1)
    if a.kind == "sum":
        bs, body = T.open_sum(a)
        with X.assuming(*brange(bs)):
            return not X.consistent() or nonneg(body, depth - 1)
    return False


def expand_lets(p):
    """the term with its abbreviations replaced by their values, or None"""
    if not LETS or not any(n in LETS for n in p.names):
        return None
    out = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            x = _let_atom(a)
            t = t * (P({((a, e),): Fr(1)}) if x is None else (x ** e if e > 0 else T._negpow(x, e)))
        out = out + t
    return out


def _let_atom(a):
    if not any(n in LETS for n in a.names):
        return None
    if a.kind == "app":
        args = tuple(y if (x := expand_lets(y)) is None else x for y in a.a[1:])
        if a.a[0] in LETS:
            return LETS[a.a[0]](args)
        return T.app(a.a[0], args, a.sort)
    if a.kind == "inv":
        return T.inv(expand_lets(a.a[0]))
    if a.kind == "sum":
        bs, body = T.open_sum(a)
        with X.assuming(*brange(bs)):
            x = expand_lets(body)
        return T.sum_over(bs, x if x is not None else body)
    raise T.Unsupported("abbreviation in a condition")


def prove_goal(R):
    """zero, possibly after subtracting an instance of the postcondition of a linear solve"""
    R = P.of(R)
    ls = [l for l in LEMMAS if l[0] in R.names]
    if ls:
        r = by_lemma(R, ls)
        if r:
            return r
    return prove_zero(R)


def by_lemma(R, ls):
    import itertools
    cand = sorted({v for v in R.fv if v.kind == "var" and v.sort == "int"}, key=lambda v: v.id)
    cand = [atomP(v) for v in cand if "!" in v.a[0]] + [ZERO, ONE]
    tries = []
    bud = Budget(20000)
    saved = X.cur.subs
    X.cur.subs = eq_subs()
    try:
        R0 = simp(R, bud)
        n0 = size(R0)
        seen = 0
        for name, sizes, f in reversed(ls):
            for vs in itertools.product(cand, repeat=len(sizes)):
                if not all(X.entails(And(ge0(v), lt(v, n))) for v, n in zip(vs, sizes)):
                    continue
                seen += 1
                if seen > 40:
                    break
                L = f(vs)
                for sg in (1, -1):
                    D = simp(R0 - L.scale(Fr(sg)), bud)
                    if not D.d:
                        return Result(True)
                    if size(D) < n0:
                        tries.append((size(D), len(tries), D))
    finally:
        X.cur.subs = saved
    tries.sort(key=lambda t: t[:2])
    for _, _, D in tries[:3]:
        r = prove_zero(D)
        if r:
            return r
    return None


def size(p):
    return len(p.d)
