"""Driver of one check: contracts of one property against /repo's working tree.

1. the package is copied to a scratch directory and its Fortran module is built there;
2. dv.symrun executes the current sources over terms and discharges the obligations (z3, cvc5);
3. dv.concrete runs the same contracts on the freshly built package: the bounded stand-in of what is out of
   the verifier's reach, and the replay of the counterexamples of step 2;
4. verdict: a violation needs a failed obligation on the real code, or an obligation refuted by the verifier.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known-findings.txt")
SYM_LIMIT = {"quick": 600, "thorough": 3000}
TRUST = [
    "dv/terms.py, dv/prove.py (normal forms, instantiation of sums and recurrences), z3 and cvc5",
    "dv/arrays.py, dv/xrshim.py: models of the numpy, xarray and scipy functions used by the code (cross-checked on numbers by the concrete reading of the same contracts)",
    "dv/fortran.py: reading of fkernel.f90 (cross-checked against the compiled module)",
    "machine arithmetic treated as mathematical (reals, unbounded integers)",
]


def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                head, _, what = l.partition(" | ")
                kv = dict(x.split("=", 1) for x in head.split()[1:] if "=" in x)
                r.append((kv, what))
    return r


def is_known(kn, contract, fails):
    for kv, what in kn:
        if kv.get("contract") == contract and all(f.get("obligation", "").replace(" ", "_") == kv.get("obligation") for f in fails):
            return what
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scr = tempfile.mkdtemp(prefix="dv_%s_" % prop)
    code = 2
    try:
        code = run(prop, tier, seed, scr, t0)
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    return code


def run(prop, tier, seed, scr, t0):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", DV_OUT=scr)
    benv = dict(env)
    if prop == "C04":
        benv["DV_FFLAGS"] = "-fcheck=all -O0"
    # the copy comes first: both readings see the same sources
    src = os.path.join(scr, "pkg")
    bld = subprocess.Popen(["bash", os.path.join(VERIF, "bin", "mkscratch.sh"), src], env=benv, cwd=scr)
    symout = os.path.join(scr, "sym.json")
    sym = None
    if os.path.exists(os.path.join(VERIF, "dv", "symrun.py")) and not os.environ.get("DV_NOSYM"):
        senv = dict(env, PYTHONPATH=VERIF)
        sym = subprocess.Popen(["timeout", "-k", "5", str(SYM_LIMIT[tier]), "python3-vt", "-B", "-m", "dv.symrun", prop, "/repo/VolterraBasis", symout, tier], env=senv, cwd=scr,
                               stdout=open(os.path.join(scr, "sym.log"), "w"), stderr=subprocess.STDOUT)
    if bld.wait() != 0:
        print("the package does not build:")
        try:
            print(open(os.path.join(src, "fbuild", "log")).read()[-3000:])
        except OSError:
            pass
        if sym:
            sym.kill()
        return 2
    cenv = dict(env, PYTHONPATH=src + ":" + VERIF)

    def concrete(hints=None, tag="c", only=None):
        o = os.path.join(scr, tag + ".json")
        cmd = ["timeout", "-k", "5", "600" if tier == "quick" else "3000", "/opt/venv/bin/python", "-B", "-m", "dv.concrete", prop, str(seed), tier, o]
        if hints:
            hp = os.path.join(scr, tag + "_hints.json")
            json.dump(hints, open(hp, "w"))
            cmd.append(hp)
        r = subprocess.run(cmd, env=cenv, cwd=scr, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(o):
            return None, r.stdout[-3000:]
        return json.load(open(o)), ""

    con, err = concrete()
    fails = list(con["fails"]) if con else []
    sres = None
    if sym:
        sym.wait()
        if os.path.exists(symout):
            sres = json.load(open(symout))
        else:
            print("the symbolic reading gave no result:\n" + open(os.path.join(scr, "sym.log")).read()[-2000:])
    refuted = [o for o in (sres or {}).get("obligations", []) if o["status"] == "refuted"]
    replayed = None
    raising = [o for o in (sres or {}).get("obligations", []) if o["status"] == "exception"]
    raising += [dict(o, contract=o["replay_as"]) for o in (sres or {}).get("obligations", []) if o.get("replay_as")]
    if (refuted or raising) and not fails and con:
        # replay of the counterexamples on the real code (an exception of the symbolic reading is only a hint)
        hints = {}
        for o in refuted + raising:
            if o.get("env"):
                h = {"case": o["case"], "env": o["env"]}
                hs = hints.setdefault(o["contract"], [])
                if h not in hs:
                    hs.append(h)
        if hints:
            replayed, err2 = concrete(hints, "replay")
            if replayed:
                fails = list(replayed["fails"])
    if con is None:
        # the real code could not be run to the end (for instance killed by a signal): this is itself a failure of the code
        print("the concrete reading ended abnormally:\n" + err)
        fails = [{"contract": "run", "case": {}, "fails": [{"obligation": "the package runs the contracts to the end", "message": err}]}]

    kn = known(prop)
    shown = set()
    new = []
    for f in fails:
        w = is_known(kn, f["contract"], f["fails"])
        if w:
            if w not in shown:
                shown.add(w)
                print("KNOWN-FINDING: property=%s %s" % (prop, w))
        else:
            new.append(f)
    evidence(prop, tier, seed, con, replayed, sres, new, refuted, time.time() - t0)
    rp = os.path.join(OUT, "replay_%s.json" % prop)
    if new:
        rec = {"property": prop, "kind": "failing input on the real code", "seed": seed, "tier": tier,
               "how": "bin/replay %s : runs the contract below on /repo with the same seed, sizes and case" % rp,
               "failures": new, "refuted_obligations": refuted[:10]}
        json.dump(rec, open(rp, "w"), indent=1, default=str)
        for f in new[:3]:
            print("contract %s case %s sizes %s" % (f["contract"], f.get("case"), f.get("sizes")))
            for x in f["fails"][:2]:
                print("   obligation: %s  at %s  %s" % (x.get("obligation"), x.get("at"), str(x.get("message"))[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if refuted:
        rec = {"property": prop, "kind": "obligation refuted by the verifier, not reproduced on the real code", "refuted_obligations": refuted[:20]}
        json.dump(rec, open(rp, "w"), indent=1, default=str)
        for o in refuted[:4]:
            print("contract %s case %s obligation %s: %s" % (o["contract"], o["case"], o["label"], o.get("why", "")[:400]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    tot = sum(c["checks"] for c in con["contracts"])
    if tot == 0 or not con["contracts"]:
        print("no obligation was evaluated")
        return 2
    s = sres or {}
    print("property=%s held: %d/%d obligations discharged, %d concrete evaluations (%d checks), %.1f s" % (
        prop, s.get("discharged", 0), s.get("generated", 0), con["evaluations"], tot, time.time() - t0))
    for u in s.get("undecided", [])[:20]:
        print("   bounded only: %s" % u)
    return 0


def evidence(prop, tier, seed, con, replayed, sres, new, refuted, wall):
    s = sres or {}
    con = con or {"contracts": [], "evaluations": 0}
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    lev = [c["level"] for c in man["checks"] if c["property"] == prop]
    cov = {
        "obligations": s.get("generated", 0),
        "discharged": s.get("discharged", 0),
        "checker_cmd": "python3-vt -m dv.symrun %s /repo/VolterraBasis OUT.json (run by bin/check %s)" % (prop, prop),
        "trusted_base": TRUST,
        "functions_under_contract": sorted({t for c in con["contracts"] for t in c["targets"]}),
        "contracts": s.get("contracts", []),
        "backends": s.get("backends", {}),
        "solver_seconds": s.get("solver_seconds", 0.0),
        "refuted": len(refuted),
        "bounded_only": s.get("undecided", []) if s else [c["name"] for c in con["contracts"]],
        "evaluations": con["evaluations"] + (replayed["evaluations"] if replayed else 0),
        "distinct_nontrivial": sum(c["distinct"] for c in con["contracts"]),
        "rule": "bounded stand-in and cross-check: each contract on seeded random inputs, sizes drawn in the small ranges written in the contract; distinct = different case and sizes, non-trivial = inside the precondition and at least one obligation evaluated",
        "samples": [{"contract": c["name"], "evaluations": c["evaluations"], "skipped": c["skipped"], "checks": c["checks"]} for c in con["contracts"]] or ["none"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lev[0] if lev else "other", "coverage": cov,
          "assumptions": s.get("assumptions", []) + ["a contract listed in bounded_only is checked on a bounded set of inputs and is not proved"],
          "wall_s": round(wall, 2), "violations": len(new) + (len(refuted) if not new else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
