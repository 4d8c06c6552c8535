"""Contracts: one text, two readings.

A contract is a Python function c(S).  It builds inputs with S, calls the real code of /repo through
S.vb(module) and states obligations (S.eq, S.true, S.forall, ...).
  * symbolic reading (dv.symrun): the module is executed from its current source over terms, the
    obligations are discharged for all sizes and values by dv.prove (z3, cvc5);
  * concrete reading (dv.concrete): the freshly built package runs on numbers; used to replay
    counterexamples and as the bounded stand-in where the symbolic reading is out of reach.
"""

CONTRACTS = []


class Contract:
    def __init__(self, f, prop, targets, cases, symbolic, concrete, trials, why, name, group):
        self.f, self.prop, self.targets, self.cases = f, prop, targets, cases
        self.symbolic, self.concrete, self.trials, self.why = symbolic, concrete, trials, why
        self.name = name
        self.group = group


def contract(prop, targets, cases=None, symbolic=True, concrete=True, trials=6, why="", group=None):
    """prop: property id; targets: functions under contract; cases: list of dicts (configurations);
    symbolic=False: bounded stand-in only, with the reason in `why`"""
    if isinstance(targets, str):
        targets = [targets]

    def deco(f):
        CONTRACTS.append(Contract(f, prop, targets, cases or [{}], symbolic, concrete, trials, why, f.__name__, group))
        return f
    return deco


def product(**kw):
    import itertools
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


class Skip(Exception):
    """inputs outside the precondition"""


class Case(dict):
    __getattr__ = dict.get


def load(prop):
    """import the contract modules that state obligations for a property"""
    import importlib, os, re
    del CONTRACTS[:]
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for fn in sorted(os.listdir(here)):
        if fn.endswith(".py") and fn != "__init__.py":
            src = open(os.path.join(here, fn)).read()
            if re.search(r'"%s"' % prop, src):
                m = importlib.import_module("contracts." + fn[:-3])
                importlib.reload(m) if False else None
    return [c for c in CONTRACTS if c.prop == prop]


def hashed(seed, name, args):
    """number in [-1, 1) determined by its arguments"""
    import hashlib
    h = hashlib.md5(("%d|%s|%s" % (seed, name, ",".join("%.9g" % float(a) for a in args))).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2.0 ** 48 * 2 - 1
