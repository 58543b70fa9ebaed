#!/usr/bin/env python3
"""python3 check.py <property>   (VERIF_TIER, VERIF_SEED from the environment)"""
import json, random, re, sys
import gen, cases
from gen import C, Q, ADD, SUB, MUL, SCALE, NEG
from cases import clone, session_line
from vlib import Check, Broken, main

SESSION = "CONSTANT P = %d\nCONSTANT MaxSub = 8192\nSPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Moves\nVIEW View\nCHECK_DEADLOCK FALSE\n"
JUDGE = "CONSTANT P = %d\nSPECIFICATION Spec\nINVARIANT Bound\nCHECK_DEADLOCK FALSE\n"


def brief(circ):
    return {"n": circ["n"], "removed": circ["removed"], "u": circ["u"], "gates": len(circ["gates"]), "lookups": len(circ["lookups"]),
            "copied": len(circ["sigma"]), "wit": len(circ["wit"]), "inst": len(circ["inst"]), "fix": len(circ["fix"]), "tab": len(circ["tab"])}


def sessions(ck, pairs, field="F62", q=0, short=None, series=0):
    """pairs of (kind, prover statement, verifier statement) run for real and validated against Session;
    q: a prime modulo which the specification evaluates cells too large for it; series: so many at a time, one after another in one thread"""
    jobs = []
    for i, (kind, p, v) in enumerate(pairs):
        j = {"id": i, "cmd": "e2e", "field": field, "circ": gen.wire(p, field) if q else p, "seed": ck.rng.randrange(1 << 30), "srs": short(p["n"]) if short else ck.rng.choice([512, p["n"] - 1, p["n"] - 1])}
        if v is not p: j["vcirc"] = gen.wire(v, field) if q else v
        jobs.append(j)
    if series: res = [x for y in ck.run("e2e", [{"id": i, "cmd": "series", "jobs": b} for i, b in enumerate(batches(jobs, series))]) for x in y["res"]]
    else: res = ck.run("e2e", jobs)
    lines, by = [], {}
    stats = {}
    for j, r, (kind, p, v) in zip(jobs, res, pairs):
        if q: p, v = gen.reduced(p, q), gen.reduced(v, q)
        lines.append(session_line(j["id"], p, v, r, srs=j["srs"], kind=kind))
        by[j["id"]] = {"cmd": "series", "jobs": jobs[j["id"] // series * series:j["id"] + 1]} if series else j
        k = kind + ":" + "/".join(cases.classify(r))
        stats[k] = stats.get(k, 0) + 1
    ck.trace("TraceSession", lines, SESSION % q, by)
    ck.note("sessions_" + field + ("_huge" if q else "_short" if short else "_series" if series else ""), stats)
    ck.sample({"session": lines[0]["kind"], "statement": brief(lines[0]["circ"]), "outcome": [lines[0]["index"], lines[0]["prove"], lines[0]["verify"]]})
    return lines


def honest(ck, n, field, **over):
    out = []
    while len(out) < n:
        k, kw = gen.variety(ck.rng)
        kw.update(over)
        c, m = gen.make(ck.rng, **kw)
        out.append((k, c, c))
    return out


def adversarial(ck, n, fns, kw_fn):
    """n base statements, every adversary of fns on each"""
    out = []
    for _ in range(n):
        c, m = gen.make(ck.rng, **kw_fn(ck.rng))
        for f in fns:
            for kind, p, v in f(ck.rng, c, m):
                if cases.order(p) and cases.order(v): out.append((kind, p, v))
    return out


def covering(ck, n, fns, **over):
    """every adversary of fns on circuits that combine features in many ways"""
    out = []
    for c, m in gen.covering(ck.rng, n, 12 * n, 2, **over):
        for f in fns:
            for kind, p, v in f(ck.rng, c, m):
                if cases.order(p) and cases.order(v): out.append((kind, p, v))
    return out


def huge(ck, n, fns, kw_fn, field="BLS"):
    """the same over cells of any magnitude"""
    by = {}
    for _ in range(n):
        kw = kw_fn(ck.rng)
        kw.update(pool=gen.huge_pool(ck.rng), styles=False, vals=0)
        kw["maxdeg"] = min(kw["maxdeg"], 3)
        c, m = gen.make(ck.rng, **kw)
        todo = [("honest", c, c)] + [x for f in fns for x in f(ck.rng, c, m)]
        for kind, p, v in todo:
            q = gen.residue(p, v)
            if q: by.setdefault(q, []).append((kind, p, v))
    for q in sorted(by): sessions(ck, by[q], field, q)


def extractions(ck, n, kinds, known=None, perm_info=""):
    jobs = [cases.extraction(ck.rng, i, ck.rng.choice(kinds), perm_info=perm_info) for i in range(n)]
    res = ck.run("e2e", jobs)
    lines = [dict({"id": j["id"], "circ": cases.slim(j["circ"]), "d": r}, **({"known": known} if known else {})) for j, r in zip(jobs, res)]
    ck.trace("TraceExtract", lines, JUDGE % 257, {j["id"]: j for j in jobs})
    d = lines[0]["d"]
    ck.sample({"extraction": brief(lines[0]["circ"]), "coefficients_in_alpha": d.get("coefs"), "xi": d.get("xi"), "status": d["status"]})
    return lines


# ------------------------------------------------------------------------------------------
def c01(ck):
    sessions(ck, honest(ck, ck.n(200, 6000), "F62"))
    sessions(ck, [("mixed", c, c) for c, m in gen.covering(ck.rng, ck.n(90, 1500))])
    sessions(ck, honest(ck, ck.n(40, 600), "BLS"), "BLS")
    for f in ("BLS", "F62"): huge(ck, ck.n(20, 400), [], lambda r: gen.variety(r)[1], f)
    # large in one respect
    big = [large(ck.rng, k)[0] for k in LARGE * ck.n(2, 20)]
    big += [large(ck.rng, "rings")[0] for _ in range(ck.n(12, 100))]
    big += [large(ck.rng, "rows", n=n, copy_cols=3, lookups=1, t=ck.rng.randint(1, 4), gates=1)[0] for n in [64, 128, 256] * ck.n(1, 5)]
    sessions(ck, [("large", c, c) for c in big])
    for f, k in (("F62", 24), ("BLS", 8)): rings(ck, ck.n(k, 10 * k), f)
    # reference strings too short for the domain
    for f in ("BLS", "F62"): sessions(ck, honest(ck, ck.n(10, 100), f), f, short=lambda n: max(1, ck.rng.choice([n - 2, n // 2])))


def rings(ck, n, field):
    """columns that are monomials, opened over subgroups and their halves"""
    m = gen.BLS if field == "BLS" else gen.F62
    by = {}
    for i in range(n):
        c, _ = large(ck.rng, "rings")
        w = gen.root(m, c["n"])
        for col in c["wit"]:
            if col["label"].startswith("ring"):
                k = ck.rng.choice([1, 1, 3, c["n"] // 2, ck.rng.randrange(c["n"])])
                col["rows"] = [pow(w, j * k % c["n"], m) for j in range(c["n"])]
        q = gen.residue({k: [] if k != "wit" else [x for x in c["wit"] if not x["label"].startswith("ring")] for k in ("wit", "inst", "fix", "tab")}) or gen.RESIDUES[0]
        by.setdefault(q, []).append(("rings", c, c))
    for q in sorted(by): sessions(ck, by[q], field, q)


def design(ck, module, invs, **consts):
    """exhaustive check of a design model"""
    ck.design(module, "".join("CONSTANT %s = %s\n" % kv for kv in consts.items()) + "SPECIFICATION Spec\n"
              + "".join("INVARIANT %s\n" % i for i in invs) + "CHECK_DEADLOCK FALSE\n")


def c02(ck):
    design(ck, "FoldArg", ["Separated"], P=31, Width=ck.n(3, 4), Values="{0, 1, 30}")
    kw = lambda r: dict(n=r.choice([8] * 6 + [16] * 3 + [32]), nw=r.randint(1, 3), ni=r.randint(0, 2), nf=r.randint(0, 2), gates=r.choice([1, 2, 3, 4, 4, r.randint(9, 24)]), styles=r.random() < 0.3,
                        maxdeg=r.choice([2, 3, 4]), copy_cols=r.choice([0, 0, 2]), lookups=r.choice([0, 0, 1]), extra_unused=1, vals=3)
    sessions(ck, adversarial(ck, ck.n(45, 1200), [cases.gate_adversaries], kw))
    sessions(ck, covering(ck, ck.n(16, 300), [cases.gate_adversaries]))
    sessions(ck, adversarial(ck, ck.n(5, 60), [cases.gate_adversaries], kw), "BLS")
    sessions(ck, adversarial(ck, ck.n(2, 20), [cases.gate_adversaries], lambda r: dict(kw(r), n=4, t=1, maxrot=1, gates=r.choice([66, 80, 140]), maxdeg=2, copy_cols=0, lookups=0, vals=2)))
    sessions(ck, adversarial(ck, ck.n(1, 15), [cases.gate_adversaries], lambda r: dict(kw(r), n=r.choice([128, 256, 512]), gates=r.choice([1, 2]), maxdeg=2, copy_cols=0, lookups=0)))
    huge(ck, ck.n(6, 80), [cases.gate_adversaries], kw)
    extractions(ck, ck.n(120, 2500), ["gates", "gates", "zh", "both", "manygates"])


def c03(ck):
    perm = lambda **kw: design(ck, "PermArg", ["Complete", "Sound"], **kw)
    perm(P=31, U=2, K=2, M=1, W=2, Shift=3, Values="{0, 1}")
    perm(P=29, U=1, K=3, M=2, W=2, Shift=2, Values="{0, 1, 2}")
    if ck.thorough():
        perm(P=61, U=2, K=2, M=2, W=2, Shift=3, Values="{0, 1, 2}")
        perm(P=61, U=2, K=2, M=1, W=2, Shift=3, Values="{0, 1, 2}")
        perm(P=41, U=1, K=4, M=3, W=2, Shift=6, Values="{0, 1, 2}")
    kw = lambda r: dict(n=r.choice([8] * 6 + [16] * 3 + [32]), nw=r.randint(1, 5), ni=r.randint(0, 1), nf=r.randint(0, 1), gates=r.randint(1, 3),
                        maxdeg=r.choice([2, 2, 3, 4]), copy_cols=r.choice([r.randint(1, 8), r.randint(1, 8), r.randint(9, 20)]), t=r.randint(1, 4), styles=r.random() < 0.3, extra_unused=r.randint(0, 2), vals=3)
    sessions(ck, adversarial(ck, ck.n(45, 1200), [cases.copy_adversaries], kw))
    for k in (1, 4, 11): sessions(ck, covering(ck, ck.n(6, 120), [cases.copy_adversaries], copy_cols=k))
    sessions(ck, adversarial(ck, ck.n(5, 60), [cases.copy_adversaries], kw), "BLS")
    sessions(ck, adversarial(ck, ck.n(2, 20), [cases.copy_adversaries], lambda r: dict(kw(r), n=8, gates=1, maxdeg=2, copy_cols=r.choice([36, 70]))))
    sessions(ck, adversarial(ck, ck.n(1, 15), [cases.copy_adversaries], lambda r: dict(kw(r), n=r.choice([128, 256, 512]), gates=1, maxdeg=2, copy_cols=r.choice([2, 5]))))
    huge(ck, ck.n(6, 80), [cases.copy_adversaries], kw)
    extractions(ck, ck.n(120, 2500), ["copy", "copy", "both", "zh", "manycopy"])


def c04(ck):
    lookup = lambda **kw: design(ck, "LookupArg", ["Complete", "Sound", "Enforced"], **kw)
    lookup(P=29, U=2, Values="{0, 1, 2}")
    design(ck, "FoldArg", ["Separate"], P=31, Width=3, Values="{0, 1, 2}" if ck.thorough() else "{0, 1}")
    if ck.thorough():
        lookup(P=61, U=2, Values="{0, 1, 2, 5}")
        lookup(P=61, U=3, Values="{0, 1}")
    kw = lambda r: dict(n=r.choice([8] * 6 + [16] * 3 + [32]), nw=r.randint(1, 3), ni=r.randint(0, 1), nf=r.randint(0, 1), gates=r.randint(1, 2),
                        maxdeg=r.choice([2, 3]), lookups=r.choice([1, 2, 3, 3, 7]), width=r.choice([3, 3, 5, 9]), styles=r.random() < 0.2, t=r.randint(1, 4), vals=3, copy_cols=r.choice([0, 0, 2]))
    sessions(ck, adversarial(ck, ck.n(45, 1200), [cases.lookup_adversaries], kw))
    for k in (1, 2, 4): sessions(ck, covering(ck, ck.n(5, 120), [cases.lookup_adversaries], lookups=k))
    sessions(ck, adversarial(ck, ck.n(5, 60), [cases.lookup_adversaries], kw), "BLS")
    sessions(ck, adversarial(ck, ck.n(2, 20), [cases.lookup_adversaries], lambda r: dict(kw(r), n=8, **r.choice([dict(lookups=18, width=2), dict(lookups=2, width=20)]))))
    sessions(ck, adversarial(ck, ck.n(1, 15), [cases.lookup_adversaries], lambda r: dict(kw(r), n=r.choice([128, 256]), gates=1, maxdeg=2, lookups=1, width=2)))
    huge(ck, ck.n(6, 80), [cases.lookup_adversaries], kw)
    extractions(ck, ck.n(120, 2500), ["lookup", "lookup", "both", "wide"])
    # placeholder PermutationInfo: its row u = 0 stands in for the usable rows
    extractions(ck, ck.n(4, 20), ["lookup"], known="C04-placeholder-u", perm_info=ck.rng.choice(["dummy", "empty"]))


def c10(ck):
    kw = lambda r: dict(n=r.choice([8] * 6 + [16] * 3 + [32]), nw=r.randint(1, 3), ni=r.randint(1, 3), nf=r.randint(0, 2), gates=r.randint(1, 3),
                        maxdeg=r.choice([2, 3]), copy_cols=r.choice([0, 0, 2]), lookups=r.choice([0, 0, 1, 2]), width=3, vals=3)
    sessions(ck, adversarial(ck, ck.n(70, 1500), [cases.public_adversaries], kw))
    for k in (1, 3): sessions(ck, covering(ck, ck.n(8, 120), [cases.public_adversaries], ni=k))
    sessions(ck, adversarial(ck, ck.n(6, 60), [cases.public_adversaries], kw), "BLS")
    sessions(ck, adversarial(ck, ck.n(1, 15), [cases.public_adversaries], lambda r: dict(kw(r), n=r.choice([128, 256, 512]), gates=1, lookups=0)))
    huge(ck, ck.n(6, 80), [cases.public_adversaries], kw)
    substitutes(ck, ck.n(40, 400), "F62")
    for f, k in (("F62", ck.n(30, 300)), ("BLS", ck.n(4, 40))): shaped(ck, k, f)


def shaped(ck, n, field):
    """public columns that are zero, constant or a few coefficients only, exchanged for others like that"""
    r = ck.rng
    jobs = []
    for i in range(n):
        c = rich(r, n=r.choice([8, 8, 16]), ni=1)[0]
        m = c["n"]
        muts = []
        for v in (0, r.choice([1, 5, 77]), 0):
            k = len(c["inst"])
            c["inst"].append({"label": "shaped%d" % k, "perm": False, "rows": [v] * m})
            if r.random() < 0.5: c["gates"].append(SUB(Q("i", k, r.choice([0, 1])), Q("i", k, 0)) if r.random() < 0.5 else MUL(Q("i", k), C(0)))
            for d in range(m):
                muts.append([[k, d, r.choice([1, -1, 3, 2 ** 40]), "coeff"]])
                if v: muts.append([[k, 0, -v, "coeff"]] + ([[k, d, 2, "coeff"]] if d else []))
                if d: muts.append([[k, 0, 5, "coeff"], [k, d, r.choice([1, -1]), "coeff"]])
        jobs.append({"id": i, "cmd": "public", "field": field, "circ": c, "seed": r.randrange(1 << 30), "srs": 512, "imuts": muts})
    lines = [{"id": j["id"], "mode": "alter", "full": False, "circ": cases.slim(j["circ"]), "base": cases.norm(x["base"]), "counts": {},
              "res": [{"m": [{"f": "instance", "i": m[0][0], "op": "coeff"}], "noop": False, "v": cases.norm(v)} for m, v in zip(j["imuts"], x["res"])]} for j, x in zip(jobs, ck.run("e2e", jobs))]
    ck.note("shaped_" + field, sum(len(t["res"]) for t in lines))
    ck.trace("TraceProof", lines, PROOF, {j["id"]: j for j in jobs})


def substitutes(ck, n, field):
    """public columns that agree with the true ones wherever they are opened"""
    r = ck.rng
    jobs = []
    for i in range(n):
        c = large(r, r.choice(["public", "rows", "rows", "rotations", "single", "lookups"]), ni=r.randint(1, 3))[0]
        muts = []
        for k in range(len(c["inst"])):
            rots = {0} | {q[2] for e in c["gates"] + [e for l in c["lookups"] for e in l["exprs"]] for q in gen.queried(e) if q[:2] == ("i", k)}
            rots = sorted({x % c["n"] for x in rots})
            free = c["n"] - len(rots)
            if free > 0: muts += [[[k, d, r.choice([1, 7]), "vanish", rots]] for d in sorted({0, free - 1, r.randrange(free)})]
        jobs.append({"id": i, "cmd": "public", "field": field, "circ": c, "seed": r.randrange(1 << 30), "srs": 512, "script": {"xi": 918273645}, "imuts": muts})
    lines = [{"id": j["id"], "mode": "alter", "full": False, "circ": cases.slim(j["circ"]), "base": cases.norm(x["base"]), "counts": {},
              "res": [{"m": [{"f": "instance", "i": m[0][0], "op": "vanish"}], "noop": False, "v": cases.norm(v)} for m, v in zip(j["imuts"], x["res"])]} for j, x in zip(jobs, ck.run("e2e", jobs))]
    ck.note("substitutes", sum(len(t["res"]) for t in lines))
    ck.trace("TraceProof", lines, PROOF, {j["id"]: j for j in jobs})


def c22(ck):
    kw = lambda r: dict(n=r.choice([8] * 6 + [16] * 3 + [32]), nw=r.randint(1, 3), ni=r.randint(0, 2), nf=r.randint(0, 2), gates=r.randint(1, 4),
                        maxdeg=r.choice([2, 3]), removed=r.randint(1, 6), selectors=False, zscale=r.choice([1, 1, 1, 2, -1]), copy_cols=r.choice([0, 0, 0, 2, 4]),
                        lookups=r.choice([0, 0, 0, 1]), t=r.randint(2, 5), vals=3)
    sessions(ck, adversarial(ck, ck.n(50, 1500), [cases.removed_adversaries], kw))
    for k in (1, 3): sessions(ck, covering(ck, ck.n(8, 120), [cases.removed_adversaries], removed=k, selectors=False))
    sessions(ck, adversarial(ck, ck.n(5, 60), [cases.removed_adversaries], kw), "BLS")
    sessions(ck, adversarial(ck, ck.n(4, 60), [cases.removed_adversaries], lambda r: (lambda n: dict(kw(r), n=n, copy_cols=0, lookups=0, removed=r.randint(n // 2, n - 2)))(r.choice([16, 32, 64]))))
    huge(ck, ck.n(6, 80), [cases.removed_adversaries], kw)
    extractions(ck, ck.n(100, 2000), ["zh"])


PROOF = "CONSTANT P = 0\nSPECIFICATION Spec\nINVARIANT Bound\nCHECK_DEADLOCK FALSE\n"
SCRIPT = {"theta": 1234567, "beta": 7654321, "gamma": 1357911, "alpha": 0, "x1": 998877665, "x2": 554433221, "x3": 112233445, "x4": 667788990}


def rich(rng, **over):
    """circuits exercising every part of a proof"""
    kw = dict(n=rng.choice([8, 8, 16]), nw=rng.randint(1, 3), ni=rng.randint(1, 2), nf=rng.randint(0, 2), gates=rng.randint(1, 3),
              maxdeg=rng.choice([2, 3, 4]), copy_cols=rng.choice([0, 1, 3, 6]), lookups=rng.choice([0, 1, 2]), width=2, t=rng.randint(1, 4), vals=3)
    kw.update(over)
    if kw["n"] < 8: kw["maxrot"] = 1
    return gen.make(rng, **kw)


LARGE = ("single", "lookups", "copies", "columns", "public", "fixed", "rows", "blinding", "chunks", "tables", "gates", "rotations", "rings", "vgates", "vcopies", "vcolumns", "vlookups", "vwidth", "vchunks", "tiny", "domain")


def large(rng, kind, **over):
    """circuits beyond what the tests use, in one respect at a time"""
    kw = dict(n=8, nw=2, ni=1, nf=1, gates=rng.randint(1, 2), maxdeg=2, t=2, vals=2, width=1, copy_cols=rng.choice([0, 2]), lookups=rng.choice([0, 1]))
    # everything opened at one point only
    if kind == "single": kw.update(maxrot=0, copy_cols=0, lookups=0)
    if kind == "lookups": kw.update(lookups=rng.randint(4, 10))
    if kind == "copies": kw.update(copy_cols=rng.randint(9, 40), t=rng.choice([1, 2, 4]))
    if kind == "columns": kw.update(nw=rng.randint(9, 36))
    if kind == "public": kw.update(ni=rng.randint(4, 20))
    if kind == "fixed": kw.update(nf=rng.randint(4, 20))
    if kind == "rows": kw.update(n=rng.choice([32, 64]))
    if kind == "blinding": kw.update(n=rng.choice([16, 32]), copy_cols=rng.choice([2, 5]), lookups=1)
    if kind == "blinding": kw.update(t=rng.randint(5, kw["n"] - 6))
    if kind == "chunks": kw.update(maxdeg=rng.choice([7, 10, 12, 15]), vals=1, gates=1, maxrot=1, n=4, t=1)
    if kind == "tables": kw.update(lookups=rng.randint(1, 3), width=rng.choice([4, 8]))
    if kind == "gates": kw.update(gates=rng.randint(5, 24))
    # larger still
    if kind == "vgates": kw.update(n=4, t=1, maxrot=1, gates=rng.choice([66, 70, 130]))
    if kind == "vcopies": kw.update(copy_cols=rng.choice([50, 70]))
    if kind == "vcolumns": kw.update(nw=rng.choice([50, 70]), nf=rng.choice([1, 20]), ni=rng.choice([1, 20]))
    if kind == "vlookups": kw.update(lookups=rng.choice([14, 18]), t=1)
    if kind == "vwidth": kw.update(lookups=1, width=rng.choice([17, 24]))
    if kind == "vchunks": kw.update(maxdeg=2, n=4, t=1, vals=1, gates=1, maxrot=1)
    if kind == "tiny": kw.update(n=2, t=1, maxrot=0, maxdeg=rng.choice([3, 4, 6, 8]), vals=1, lookups=0)
    if kind == "domain": kw.update(n=rng.choice([128, 256, 512]), gates=1, t=rng.choice([2, 3, 40]))
    if kind == "rings": kw.update(n=rng.choice([4, 8, 16]), t=1, maxrot=1, lookups=0, copy_cols=0)
    if kind == "rotations": kw.update(n=rng.choice([32, 64]), nw=1, ni=1, gates=rng.randint(6, 14))
    if kind == "rotations": kw.update(maxrot=kw["n"] // 2 - 1)
    kw.update(over)
    while True:
        c, m = gen.make(rng, **kw)
        if kind == "rings":
            # constant or periodic columns opened at points that form a subgroup
            n = c["n"]
            for k in range(rng.randint(1, 3)):
                p = rng.choice([1, 1, 2, n // 2])
                row = [rng.randint(1, 5) for _ in range(p)]
                c["wit"].append({"label": "ring%d" % k, "perm": False, "rows": [row[i % p] * rng.choice([1, 1, -1]) if p == n // 2 else row[i % p] for i in range(n)]})
                h = rng.choice([4, 4, 8]) if n >= 8 else 4
                e = C(0)
                for x in range(h): e = ADD(e, SUB(Q("w", len(c["wit"]) - 1, x * n // h), Q("w", len(c["wit"]) - 1, x * n // h)))
                c["gates"].append(e)
        if kind in ("vchunks", "tiny"):
            # a degree that needs that many chunks, whatever the generator came up with
            d = rng.choice([13, 17, 20, 30] if kind == "vchunks" else [3, 4, 5, 8])
            w = Q("w", rng.randrange(len(c["wit"])), 0)
            e = SUB(w, w)
            for _ in range(d - 1): e = MUL(e, w)
            c["gates"].append(e)
        if kind != "single": return c, m
        if all(q[2] == 0 for g in c["gates"] for q in gen.queried(g)):
            e = C(0)
            for i in range(len(c["wit"])): e = ADD(e, SUB(Q("w", i), Q("w", i)))
            c["gates"].append(e)
            return c, m


def scripted(ck, cmd, circs, make_muts, field="F62", all_scripted=True, wo_blind=False, extra=None):
    """two passes: learn the lengths, then run the changes"""
    sh = ck.run("e2e", [{"id": i, "cmd": "shape", "field": field, "circ": c, "seed": 5, "srs": 512} for i, c in enumerate(circs)])
    jobs = []
    for i, (c, s) in enumerate(zip(circs, sh)):
        if s["status"] != "ok":
            ck.report({"id": i, "why": "no proof: " + s["status"]}, c, None, cmd)
            continue
        j = {"id": i, "cmd": cmd, "field": field, "circ": c, "seed": ck.rng.randrange(1 << 30), "srs": 512, "muts": make_muts(s["counts"]),
             "xi_row": ck.rng.randrange(c["n"]), "script": dict(SCRIPT) if all_scripted is True else dict(all_scripted or {})}
        if not all_scripted: del j["xi_row"]
        if wo_blind: j["wo_blind"] = True
        if cmd == "influence": j["imuts"] = []
        if extra: extra(j, c)
        jobs.append(j)
    return jobs, ck.run("e2e", jobs)


def judge_changes(ck, mode, jobs, res, full=True, **kw):
    lines, nres = [], 0
    for j, r in zip(jobs, res):
        rr = [dict(m=[{"f": x["f"], "i": x.get("i", 0), "op": x["op"]} for x in m], noop=q["noop"], v=cases.norm(q["v"]),
                   **({"ch": q["ch"]} if "ch" in q else {})) for m, q in zip(j["muts"], r["res"])]
        if mode == "influence":
            for m, q in zip(j.get("imuts", []), r.get("ires", [])):
                rr.append({"m": [{"f": "instance", "i": m[0][0], "op": "add"}], "noop": False, "v": cases.norm(q["v"]), "ch": q["ch"]})
        nres += len(rr)
        line = {"id": j["id"], "mode": mode, "full": full, "circ": cases.slim(j["circ"]), "base": r["base"], "res": rr,
                "counts": r.get("counts", {})}
        if mode == "influence": line.update(n=r.get("n", 0), agree=r.get("agree", False))
        lines.append(line)
    ck.trace("TraceProof", lines, PROOF, {j["id"]: j for j in jobs})
    ck.note(mode + "_changes" + kw.get("tag", ""), nres)
    if lines and lines[0]["res"]:
        ck.sample({"mode": mode, "statement": brief(lines[0]["circ"]), "change": lines[0]["res"][0]["m"], "verdict": lines[0]["res"][0]["v"]})


def c05(ck):
    r = ck.rng
    muts = lambda np, nv: lambda c: cases.single_changes(c) + cases.pair_changes(r, c, np) + cases.vector_changes(r, c, nv)
    # the quotient equation holds whatever the evaluations are: only the openings are left
    circs = [rich(r, const_gate=True)[0] for _ in range(ck.n(24, 300))]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, muts(60, 20)))
    # many columns opened at the same points
    circs = [rich(r, const_gate=True, nw=r.choice([10, 14, 20]), nf=r.choice([1, 1, 12]), copy_cols=r.choice([2, 12]), lookups=r.choice([1, 1, 5]))[0] for _ in range(ck.n(8, 80))]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, lambda c: cases.single_changes(c) + cases.opposite_changes(r, c, 150)), tag="_many")
    circs = [large(r, k, const_gate=True)[0] for k in LARGE * ck.n(1, 10)]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, lambda c: cases.single_changes(c) + cases.opposite_changes(r, c, 20)), tag="_large")
    # inputs without a blinding selector
    circs = [rich(r, const_gate=True, t=1)[0] for _ in range(ck.n(8, 80))]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, muts(30, 10), wo_blind=True), tag="_wo_blind")
    # ordinary challenges, both commitment schemes
    circs = [rich(r)[0] for _ in range(ck.n(10, 100))]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, muts(20, 10), all_scripted=None), tag="_derived")
    circs = [rich(r, n=8)[0] for _ in range(ck.n(3, 20))]
    judge_changes(ck, "alter", *scripted(ck, "alter", circs, muts(5, 5), all_scripted=None, field="BLS"), tag="_bls")


def c07(ck):
    r = ck.rng
    def extra(j, c):
        n = c["n"]
        j["imuts"] = [[[k, row, 1]] for k in range(len(c["inst"])) for row in range(n)] + [[[k, d, 1, "coeff"]] for k in range(len(c["inst"])) for d in range(n)]
    def muts(c):
        return cases.single_changes(c) + cases.pair_changes(r, c, 80) + cases.vector_changes(r, c, 30)
    circs = [rich(r, const_gate=True)[0] for _ in range(ck.n(24, 300))]
    jobs, res = scripted(ck, "influence", circs, muts, all_scripted={"alpha": 0}, extra=extra)
    judge_changes(ck, "influence", jobs, res)
    def extra_large(j, c):
        j["imuts"] = [[[k, row, 1]] for k in range(len(c["inst"])) for row in (range(c["n"]) if len(c["inst"]) < 4 else r.sample(range(c["n"]), 3))]
        # one coefficient of the public polynomial, the highest among them
        j["imuts"] += [[[k, d, 1, "coeff"]] for k in range(len(c["inst"])) for d in sorted({0, c["n"] - 1, *r.sample(range(c["n"]), min(4, c["n"]))})]
    circs = [large(r, k, const_gate=True)[0] for k in LARGE * ck.n(2, 12)]
    jobs, res = scripted(ck, "influence", circs, lambda c: cases.single_changes(c) + cases.vector_changes(r, c, 10), all_scripted={"alpha": 0}, extra=extra_large)
    judge_changes(ck, "influence", jobs, res, tag="_large")
    # the crate's own transcript; changes in any limb
    circs = [rich(r, n=8, const_gate=True, copy_cols=r.choice([1, 3]), lookups=1)[0] for _ in range(ck.n(3, 30))]
    hi = [1, "4294967296", "18446744073709551616", str(2 ** 128), str(2 ** 248)]
    def extra_bls(j, c):
        j["imuts"] = [[[k, row, v]] for k in range(len(c["inst"])) for row in r.sample(range(c["n"]), 3) for v in hi] + [[[k, c["n"] - 1, v, "coeff"]] for k in range(len(c["inst"])) for v in hi]
    jobs, res = scripted(ck, "influence", circs, lambda c: cases.single_changes(c) + cases.single_changes(c, hi[r.randrange(1, 5)]), all_scripted={"alpha": 0}, extra=extra_bls, field="BLS")
    judge_changes(ck, "influence", jobs, res, tag="_bls")
    # nothing scripted: prover and verifier agree
    circs = [rich(r)[0] for _ in range(ck.n(60, 600))] + [large(r, k)[0] for k in LARGE * ck.n(2, 12)]
    jobs, res = scripted(ck, "influence", circs, lambda c: [], all_scripted=None)
    judge_changes(ck, "influence", jobs, res, full=False, tag="_agree")


def c08(ck):
    out = ck.tlc("Malformed", "CONSTANT Pairs = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if True else ""), workers=1)
    muts = ck.emitted(out, "MUT")
    one = [m for m in muts if len(m) == 1]
    two = [m for m in muts if len(m) == 2]
    ck.note("enumerated", {"single": len(one), "pairs": len(two)})
    pick = lambda c: one + ck.rng.sample(two, min(len(two), ck.n(150, 3000)))
    r = ck.rng
    circs = [rich(r)[0] for _ in range(ck.n(10, 60))]
    judge_changes(ck, "malformed", *scripted(ck, "alter", circs, pick, all_scripted=None), full=False, tag="_derived")
    circs = [large(r, k)[0] for k in LARGE * ck.n(1, 4)]
    judge_changes(ck, "malformed", *scripted(ck, "alter", circs, lambda c: one + r.sample(two, ck.n(20, 200)), all_scripted=None), full=False, tag="_large")
    circs = [rich(r, const_gate=True)[0] for _ in range(ck.n(12, 60))]
    judge_changes(ck, "malformed", *scripted(ck, "alter", circs, pick), full=False, tag="_scripted")
    crashes(ck, ck.n(60, 600), ck.n(300, 2000))
    circs = [rich(r, n=8, copy_cols=3, lookups=1)[0] for _ in range(ck.n(1, 4))]
    judge_changes(ck, "malformed", *scripted(ck, "alter", circs, lambda c: one, all_scripted=None, field="BLS"), full=False, tag="_bls")


def crashes(ck, n, k):
    """a field so small that whatever a verifier stumbles over happens soon; verdicts mean nothing there"""
    r = ck.rng
    circs = []
    while len(circs) < n:
        c = (rich(r, const_gate=True, n=r.choice([4, 8, 16])) if len(circs) % 2 else large(r, r.choice(["rings", "copies", "single", "fixed"]), const_gate=True))[0]
        if c["n"] <= 16: circs.append(c)
    jobs = []
    for c in circs:
        c["deltas"] = [pow(3, i, 257) for i in range(len(c["sigma"]))]
        for k2 in ("wit", "inst", "fix", "tab"):
            for col in c[k2]: col["rows"] = [v % 257 for v in col["rows"]]
        dom = {pow(3, 256 // c["n"] * i, 257) for i in range(c["n"])}
        sc = {x: r.randrange(2, 257) for x in SCRIPT}
        sc.update(alpha=0, x3=r.choice([x for x in range(2, 257) if x not in dom]))
        jobs.append({"id": len(jobs), "cmd": "shape", "field": "F257", "circ": c, "seed": 5, "srs": 512, "script": sc, "xi_row": r.randrange(c["n"])})
    todo = []
    for j, s in zip(jobs, ck.run("e2e", jobs)):
        if s["status"] != "ok": continue
        slots = [x[0] for x in cases.single_changes(s["counts"]) if x[0]["f"] in cases.EVALS]
        pick = lambda: [dict(x, v=r.randrange(257)) for x in (slots if r.random() < 0.5 else r.sample(slots, r.randint(1, len(slots))))]
        todo.append(dict(j, cmd="alter", muts=[pick() for _ in range(k)]))
    lines = [{"id": j["id"], "mode": "crash", "circ": cases.slim(j["circ"]), "base": cases.norm(x["base"]), "res": sorted({cases.norm(q["v"]) for q in x["res"]})}
             for j, x in zip(todo, ck.run("e2e", todo)) if x["res"] or "panic" in x["base"]]
    ck.note("crash_hunts", {"circuits": len(lines), "proofs": k * len(lines)})
    ck.trace("TraceProof", lines, PROOF, {j["id"]: j for j in todo})


INFO = {"witness commitments": "witness_commitments", "witness evals": "witness_evals", "fixed oracle evals": "fixed_oracle_evals",
        "table oracle evals": "table_oracle_evals", "permutation oracle evals": "permutation_oracle_evals",
        "lookup commitments": "lookup_commitments", "lookup evals": "lookup_evals", "lookup z commitments": "lookup_z_commitments",
        "lookup z evals": "lookup_z_evals", "quotient chunk commitments": "quotient_chunk_commitments",
        "quotient chunks evals": "quotient_chunks_evals", "z commitments": "z_commitments", "z evals": "z_evals", "q evals": "q_evals"}


def c21(ck):
    import re
    r = ck.rng
    for field, n in (("F62", ck.n(120, 2000)), ("BLS", ck.n(10, 100))):
        circs = []
        while len(circs) < n:
            _, kw = gen.variety(r)
            circs.append(gen.make(r, **kw)[0] if len(circs) % 5 else large(r, LARGE[len(circs) // 5 % len(LARGE)])[0])
        jobs = [{"id": i, "cmd": "shape", "field": field, "circ": c, "seed": r.randrange(1 << 30), "srs": 512} for i, c in enumerate(circs)]
        lines = []
        for j, s in zip(jobs, ck.run("e2e", jobs)):
            line = {"id": j["id"], "mode": "shape", "circ": cases.slim(j["circ"]), "status": s["status"]}
            if s["status"] == "ok":
                info, single = {}, {"q blind eval": -1, "f commit": -1, "opening proof": -1}
                for l in s["info"].splitlines():
                    m = re.match(r"\s*([A-Za-z_ ]+?)\s*:?\s+(\d+),?\s*$", l)
                    if m:
                        k = m.group(1).replace("_", " ").strip().lower()
                        if k in INFO: info[INFO[k]] = int(m.group(2))
                        if k in single: single[k] = int(m.group(2))
                cm = re.search(r"(\d+) commitments", s["cum"]), re.search(r"(\d+) field elements", s["cum"])
                line.update({k: s[k] for k in ("counts", "rt", "same_bytes", "same_counts", "bad_same_bytes", "trunc",
                                               "unchecked_rt", "uncompressed_rt", "serialized_size_ok") if k in s})
                line.update(info=info, info_fixed=[single["q blind eval"], single["f commit"], single["opening proof"]],
                            cum_commitments=int(cm[0].group(1)) if cm[0] else -1, cum_evals=int(cm[1].group(1)) if cm[1] else -1,
                            verdict=cases.norm(s["verdict"]), verdict_rt=cases.norm(s.get("verdict_rt", "none")), bad_verdict_rt=cases.norm(s["bad_verdict_rt"]))
                for k, v in (("same_bytes", False), ("same_counts", False)): line.setdefault(k, v)
            else:
                line["counts"] = {"quotient_chunk_commitments": 0, "z_commitments": 0}
            lines.append(line)
        ck.trace("TraceProof", lines, PROOF, {j["id"]: j for j in jobs})
        ck.sample({"statement": brief(lines[0]["circ"]), "counts": lines[0]["counts"]})


def judged(ck, module, lines, by, p=0, extra=""):
    ck.trace(module, lines, "CONSTANT P = %d\n%sSPECIFICATION Spec\nINVARIANT Bound\nCHECK_DEADLOCK FALSE\n" % (p, extra), by)


PLAIN = "SPECIFICATION Spec\nINVARIANT Bound\nCHECK_DEADLOCK FALSE\n"


def relatives(r, c):
    """circuits that agree with c in sizes, labels and degrees, and not in something else"""
    out = [c]
    def add(f):
        a = clone(c)
        f(a)
        if a != c: out.append(a)
    k = r.randint(1, max(1, c["n"] // 4))
    for _ in range(3): add(lambda a: a.update(removed=sorted(r.sample(range(c["n"]), k))))
    for z in (2, -1): add(lambda a: a.update(zscale=z))
    for z in (3, 7): add(lambda a: a.update(zscale=z, removed=out[-1]["removed"]))
    def nocopies(a): a["sigma"] = [[[i, row] for row in range(c["n"])] for i in range(len(c["sigma"]))]
    add(nocopies)
    if c["deltas"]: add(lambda a: a.update(deltas=[r.randrange(2, 1 << 28) for _ in c["deltas"]]))
    add(lambda a: a["gates"].reverse())
    add(lambda a: a["lookups"].reverse())
    if c["gates"]:
        i = r.randrange(len(c["gates"]))
        add(lambda a: a["gates"].__setitem__(i, SCALE(a["gates"][i], r.choice([2, 3, -1]))))
        add(lambda a: a["gates"].__setitem__(i, NEG(a["gates"][i])))
        add(lambda a: a["gates"].__setitem__(i, ADD(a["gates"][i], C(1))))
        add(lambda a: a["gates"].__setitem__(i, SCALE(a["gates"][i], 0)))
    for t in "inst", "fix", "tab":
        if c[t]:
            i, row = r.randrange(len(c[t])), r.randrange(c["n"])
            add(lambda a: a[t][i]["rows"].__setitem__(row, a[t][i]["rows"][row] + r.choice([1, 5])))
    return out


def c09(ck):
    r = ck.rng
    # related circuits, one after another: a verdict depends on nothing that was seen before
    for field, m in (("F62", ck.n(24, 300)), ("BLS", ck.n(3, 30))):
        pairs = []
        for i in range(m):
            cs = relatives(r, rich(r, n=r.choice([8, 8, 16]), removed=0, zscale=1)[0])
            at = lambda: r.choice(cs)
            for _ in range(16):
                x = at()
                pairs.append(("relative", x, x))
            # proved for one, verified for another
            for _ in range(8): pairs.append(("cross", at(), at()))
            b = pairs[-24:]
            r.shuffle(b)
            pairs[-24:] = b
        sessions(ck, pairs, field, series=24)
    S, P = 2, 5
    L = ck.n(3, 4)
    out = ck.tlc("History", "CONSTANTS S = %d P = %d MaxLen = %d\nSPECIFICATION Spec\nINVARIANT Independent\nPROPERTY StatementKept\nCHECK_DEADLOCK FALSE\n" % (S, P, L), workers=1)
    hist = ck.emitted(out, "HIST")
    ck.note("histories", len(hist))
    jobs = []
    turn = 0
    for field, n, share in (("F62", ck.n(10, 30), 1.0), ("BLS", ck.n(2, 6), 0.02 if not ck.thorough() else 0.005)):
        for i in range(n):
            c = rich(r, n=8, **(dict(lookups=1, copy_cols=3, nf=1, t=3) if i % 2 else {}))[0]
            # a public column nobody queries: changing it changes the statement, not its satisfaction
            c["inst"].append({"label": "free_public", "perm": False, "rows": [r.randint(0, 9) for _ in range(c["n"])]})
            a = clone(c)
            a["inst"][-1]["rows"][r.randrange(c["n"])] += 1
            edits = cases.single_changes(ck.run("e2e", [{"id": 0, "cmd": "shape", "field": field, "circ": c, "seed": 5, "srs": 512}])[0]["counts"])
            # every kind of entry in turn
            def other():
                nonlocal turn
                fs = sorted({e[0]["f"] for e in edits})
                turn += 1
                return r.choice([e for e in edits if e[0]["f"] == fs[turn % len(fs)]])
            pool = [{"st": 0, "seed": 11, "edits": []}, {"st": 1, "seed": 12, "edits": []},
                    {"st": 0, "seed": 11, "edits": other()},
                    {"st": 0, "seed": 11, "edits": other()},
                    {"st": 0, "seed": 11, "edits": [{"f": r.choice(["witness_commitments", "quotient_chunk_commitments", "q_evals", "witness_evals"]), "op": r.choice(["droplast", "append", "empty"])}]}]
            hs = hist if share == 1.0 and not ck.thorough() else r.sample(hist, min(len(hist), 1500) if share == 1.0 else max(5, int(len(hist) * share)))
            jobs.append({"id": len(jobs), "cmd": "history", "field": field, "circ": c, "alts": [a], "pool": pool, "histories": hs, "srs": 512, "reuse": [1, 2, 3]})
    lines = []
    nv = 0
    # long histories of different proofs
    for i in range(ck.n(4, 30)):
        c = rich(r, n=r.choice([4, 8]), nw=2, copy_cols=r.choice([0, 2]), lookups=i % 2, nf=1, ni=1)[0]
        pool = [{"st": 0, "seed": k, "edits": []} for k in range(ck.n(160, 600))]
        for e in cases.single_changes(ck.run("e2e", [{"id": 0, "cmd": "shape", "field": "F62", "circ": c, "seed": 5, "srs": 512}])[0]["counts"]):
            if e[0]["f"] in cases.COMS: pool.append({"st": 0, "seed": r.randrange(160), "edits": [dict(e[0], op="set0")]})
            if r.random() < 0.2: pool.append({"st": 0, "seed": r.randrange(160), "edits": e})
        h = [[0, k] for k in range(len(pool))] + [[0, r.randrange(len(pool))] for _ in range(40)]
        jobs.append({"id": len(jobs), "cmd": "history", "field": "F62", "circ": c, "alts": [], "pool": pool, "histories": [h], "srs": 512, "reuse": [r.randrange(1 << 30) for _ in range(ck.n(40, 200))]})
    # the prover's columns under another key: the same queries, another quotient size
    keys = []
    for i in range(ck.n(12, 120)):
        c = rich(r, n=r.choice([8, 16]))[0]
        a = clone(c)
        g = r.choice(c["gates"])
        for _ in range(r.choice([2, 4, 8])): a["gates"].append(MUL(a["gates"][-1] if len(a["gates"]) > len(c["gates"]) else g, g))
        order = r.choice([[0, 1, 0], [1, 0, 1], [0, 1, 1, 0]])
        keys.append({"id": i, "cmd": "rekey", "field": "F62" if i % 6 else "BLS", "circs": [c, a], "order": order, "srs": 512})
    klines = [{"id": j["id"], "rekey": [cases.norm(v) for v in x["res"]]} for j, x in zip(keys, ck.run("e2e", keys))]
    ck.note("other_keys", len(klines))
    ck.trace("TraceHistory", klines, PLAIN, {j["id"]: j for j in keys})
    for j, x in zip(jobs, ck.run("e2e", jobs)):
        n2 = lambda v: [[cases.norm(y) for y in row] for row in v]
        lines.append({"id": j["id"], "base": x["base"], "histories": j["histories"], "runs": n2(x.get("runs", [])), "fresh": n2(x.get("fresh", [])),
                      "reuse": [cases.norm(y) for y in x.get("reuse", [])],
                      "expect": [["accept" if p["st"] == s and same else "reject" for p, same in zip(j["pool"], x.get("noop", []))] for s in range(1 + len(j["alts"]))]})
        nv += sum(len(h) for h in j["histories"])
    ck.note("verifications", nv)
    ck.sample({"history": lines[0]["histories"][7], "verdicts": lines[0]["runs"][7] if lines[0]["runs"] else lines[0]["base"]})
    ck.trace("TraceHistory", lines, PLAIN, {j["id"]: j for j in jobs})


FIELDS = {"F257": (257, 256), "F12289": (12289, 4096), "F40961": (40961, 8192), "F62": (0, 8192), "BLS": (0, 8192)}


def index_case(r, field):
    """any circuit, supported or not"""
    p, ms = FIELDS[field]
    n = r.choice([4, 8, 8, 16, 32, 64]) if p != 257 else r.choice([4, 8, 16, 16, 32])
    kw = dict(n=n, nw=r.randint(1, 3), ni=r.randint(0, 2), nf=r.randint(0, 2), gates=r.randint(1, 3), maxdeg=r.choice([1, 2, 2, 3, 4, 5, 6, 8, 9, 12]),
              maxrot=1, copy_cols=r.choice([0, 0, 1, 2, 3, 5, 9, 17]), lookups=r.choice([0, 0, 1, 2]), lookup_deg=r.choice([1, 1, 2, 3, 5]), t=r.randint(1, min(5, n - 2)), vals=1)
    if r.random() < 0.45: kw.update(removed=r.randint(1, n - 1), selectors=False)
    if kw["copy_cols"] and kw.get("removed"): kw["t"] = min(n - 2, r.choice([2, 3, 5, 9]))
    if r.random() < 0.2: kw["zscale"] = r.choice([2, 3, 5, -1])
    c = gen.Gen(r, **kw).build()
    x = r.random()
    if x < 0.06: c["gates"] = []
    elif x < 0.12: c["gates"] = [C(0)]
    elif x < 0.18: c["gates"] = [SUB(Q("w", 0, 0), Q("w", 0, 1))]
    elif x < 0.3:
        # a gate whose quotient just fits, or just does not
        e = Q("w", 0, 0)
        for _ in range(r.choice([1, 2, 3, 4, 7, 8])): e = MUL(e, Q("w", 0, r.choice([0, 1])))
        c["gates"] = [e]
    elif x < 0.5 and c["lookups"]:
        # a lookup for which it just fits, or just does not
        e, d = Q("w", 0, 0), r.choice([2, 3, 5, 6])
        for _ in range(d - 1): e = MUL(e, Q("w", 0, 0))
        t = (4 if d < 5 else 8) * n - ((d + 3) * (n - 1) + 1 - n) + r.choice([-1, 0, 0, 1, 1, 2, 2, 3])
        c["gates"] = [MUL(Q("w", 0, 0), Q("w", 0, 0))]
        c["lookups"][0]["exprs"][0] = e
        c["removed"] = list(range(n - max(0, min(t, n - 1)), n))
    if p:
        for k in ("wit", "inst", "fix", "tab"):
            for col in c[k]: col["rows"] = [v % p for v in col["rows"]]
    return c


def c13(ck):
    r = ck.rng
    for field, n in (("F257", ck.n(250, 4000)), ("F12289", ck.n(60, 800)), ("F40961", ck.n(60, 800)), ("F62", ck.n(250, 4000)), ("BLS", ck.n(25, 300))):
        p, ms = FIELDS[field]
        jobs = [{"id": i, "cmd": "index", "field": field, "circ": index_case(r, field), "srs": 64} for i in range(n)]
        lines, st = [], {}
        for j, x in zip(jobs, ck.run("e2e", jobs)):
            line = {"id": j["id"], "circ": cases.slim(j["circ"])}
            for s in ("p", "v"):
                k = x[s]["status"].split(":")[0]
                line[s] = {"kind": k, "raw": x[s]["status"]}
                if k == "ok":
                    d = dict(x[s]); del d["status"]
                    d["extgen"], d["gen"] = (d["extgen"], d["gen"]) if p else (0, 0)
                    line[s]["r"] = d
                st[k + ":" + x[s]["status"][:40]] = st.get(k + ":" + x[s]["status"][:40], 0) + 1
            lines.append(line)
        ck.note("index_" + field, st)
        ck.sample({"statement": brief(lines[0]["circ"]), "field": field, "index": {k: v for k, v in lines[0]["p"].get("r", lines[0]["p"]).items() if k != "inv"}})
        judged(ck, "TraceIndex", lines, {j["id"]: j for j in jobs}, p, "CONSTANT MaxSub = %d\n" % ms)


def c14(ck):
    r = ck.rng
    jobs = []
    for i in range(ck.n(60, 900)):
        kw = dict(copy_cols=r.choice([0, 1, 3, 6]), lookups=r.choice([0, 1, 2]), t=r.randint(1, 5), n=r.choice([8, 8, 16]))
        c = rich(r, **kw)[0] if i % 4 else large(r, LARGE[i // 4 % len(LARGE)] if i % 8 else r.choice(["blinding", "single"]))[0]
        jobs.append({"id": i, "cmd": "blind", "field": "F62", "circ": c, "seeds": [r.randrange(1 << 30) for _ in range(3)], "srs": 512,
                     "script": {"theta": r.randrange(1 << 30), "beta": r.randrange(1 << 30), "gamma": r.randrange(1 << 30)}})
    lines = [dict({"id": j["id"], "circ": cases.slim(j["circ"]), "status": x["status"]},
                  runs=[{k: q[k] for k in ("items", "verdict", "reused")} for q in x.get("runs", [])]) for j, x in zip(jobs, ck.run("e2e", jobs))]
    if lines[0]["runs"]: ck.sample({"statement": brief(lines[0]["circ"]), "items": lines[0]["runs"][0]["items"][:4]})
    judged(ck, "TraceBlind", lines, {j["id"]: j for j in jobs})
    # the verdict does not depend on the blinders: one statement, many seeds
    base = [honest(ck, 1, "F62")[0] for _ in range(ck.n(5, 20))]
    sessions(ck, [b for b in base for _ in range(ck.n(8, 40))])


def c20(ck):
    r = ck.rng
    for field, n in (("F62", ck.n(160, 3000)), ("BLS", ck.n(8, 60))):
        circs = [c for _, c, _ in honest(ck, n // 2, field)]
        kw = lambda q: dict(n=q.choice([4, 8, 16] * 4 + [32, 64]), maxrot=1 if q.random() < 0.5 else 2, nw=q.randint(1, 4), ni=q.randint(0, 2), nf=q.randint(0, 2), gates=q.choice([1, 2, 3, 4, 5, q.randint(6, 40)]), maxdeg=q.choice([2, 3, 4]),
                            copy_cols=q.choice([0, 0, 2]), lookups=q.choice([0, 0, 1]), removed=q.choice([0, 0, 2]), selectors=q.random() < 0.5, t=2, vals=3, extra_unused=1)
        fns = [cases.gate_adversaries, cases.removed_adversaries, cases.copy_adversaries, cases.lookup_adversaries, cases.public_adversaries]
        for k, p, v in adversarial(ck, n // 8, fns, kw):
            circs += [p, v] if v != p else [p]
        # long columns and many gates: the last row, the last gate
        for k, p, v in adversarial(ck, max(1, n // 20), [cases.gate_adversaries, cases.gate_adversaries], lambda q: dict(n=64, nw=2, ni=1, nf=0, gates=q.choice([1, 2, 20]), maxdeg=2, maxrot=1, selectors=False, vals=3)):
            if k.startswith("cell"): circs.append(p)
        jobs = [{"id": i, "cmd": "mock", "field": field, "circ": c, "srs": 64} for i, c in enumerate(circs)]
        st, lines, by = {}, [], {}
        for j, x in zip(jobs, ck.run("e2e", jobs)):
            m = x["mock"]
            if m.startswith("err:index"): continue
            m = "accept" if m == "accept" else "refused" if m == "err:refused" else m
            st[m] = st.get(m, 0) + 1
            at = re.search(r"VO number (\d+) failed at row (\d+)", x["why"])
            lines.append({"id": j["id"], "circ": cases.slim(j["circ"]), "mock": m, "at": [int(v) for v in at.groups()] if at else []})
            by[j["id"]] = j
        ck.note("mock_" + field, st)
        ck.sample({"statement": brief(lines[0]["circ"]), "mock": lines[0]["mock"]})
        judged(ck, "TraceMock", lines, by)


def batches(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def c11(ck):
    r = ck.rng
    for field, p in (("F12289", 12289), ("F257", 257), ("F40961", 40961), ("F62", 0), ("BLS", 0)):
        jobs = []
        for n in ([2, 4, 8, 16] if p else [4, 8, 32, 64, 128, 256]):
            for ratio in ([1, 2, 4, 8, 16, 32] if n < 8 else [1, 2, 4, 8] if n < 16 or p == 0 else [1, 4]):
                if field == "F257" and n * ratio > 128: continue
                for ty in ("w", "f", "fd", "i"):
                    if not p and ck.tier == "quick" and n * ratio > (256 if n < 128 else 512 if n < 256 and field == "F62" else 256): continue
                    rows = [r.randrange(p) for _ in range(n)] if p else r.sample(range(1, 1000), n)
                    allk = list(range(-n + 1, n))
                    # every rotation below the domain size; large domains take the ends and a sample
                    ks = allk if n <= 16 else sorted(set(allk[:6] + allk[-6:] + [0, 1, -1, n // 2, -n // 2] + r.sample(allk, ck.n(6, 40))))
                    jobs.append({"id": len(jobs), "field": field, "type": ty, "n": n, "ratio": ratio, "rows": rows, "ks": ks, "x": r.randrange(2, p) if p else "r%d" % r.randrange(99)})
        lines = []
        for j, x in zip(jobs, ck.run("rot", jobs)):
            t = dict(x); t.update({k: j[k] for k in ("id", "type", "n", "ratio", "rows", "x")})
            if not p: t["x"] = 0
            lines.append(t)
        ck.note("rotations_" + field, sum(len(j["ks"]) for j in jobs))
        ck.sample({"type": jobs[1]["type"], "n": jobs[1]["n"], "ratio": jobs[1]["ratio"], "rotations": jobs[1]["ks"], "rows": jobs[1]["rows"]})
        judged(ck, "TraceRot", lines, {j["id"]: j for j in jobs}, p)


def c12(ck):
    r = ck.rng
    inv = "".join("INVARIANT %s\n" % i for i in ("TypeOK", "Balanced", "DoneCorrect", "DoneIff", "Never"))
    ck.design("Permute", "CONSTANTS V = 2 MaxN = 3 Emit = FALSE\nSPECIFICATION Spec\n%sPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % inv)
    ck.design("Permute", "CONSTANTS V = 3 MaxN = %d Emit = FALSE\nSPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n" % (ck.n(3, 4), inv))
    import itertools
    small = []
    for v, n in ((2, 1), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4)) if not ck.thorough() else ((2, 1), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4), (3, 5), (2, 6)):
        for a in itertools.product(range(v), repeat=n):
            for s in itertools.product(range(v), repeat=n): small.append({"a": list(a), "s": list(s)})
    small += [{"a": [], "s": []}, {"a": [1], "s": []}, {"a": [], "s": [1]}, {"a": [1], "s": [1, 2]}, {"a": [1, 1], "s": [1]}, {"a": [1, 1, 2], "s": [1, 2]}]
    ck.note("exhaustive_inputs", len(small))
    big = []
    for _ in range(ck.n(1500, 30000)):
        n = r.choice([5, 6, 7, 8, 12, 16, 33, 64]) if len(big) % 20 else r.choice([128, 256, 300])
        vals = r.sample(range(-30, 120), r.choice([1, 2, 3, 5, min(n, 100)]))
        s = [r.choice(vals) for _ in range(n)]
        pool = s if r.random() < 0.85 else s + [777]
        if r.random() < 0.3: pool = r.sample(pool, min(len(pool), 2))
        big.append({"a": [r.choice(pool) for _ in range(n)], "s": s})
    mid = big[:len(big) // 3] + small[::7]
    jobs = [{"id": i, "field": f, "emb": e, "cases": b} for i, (f, e, b) in enumerate([(f, e, b) for f, e, cs in (("F257", "", small), ("F62", "", big), ("BLS", "", mid),
            ("F62", "high", mid[::2]), ("BLS", "high", mid), ("BLS", "top", mid[::2]), ("BLS", "rnd", mid[1::2])) for b in batches(cs, 250)])]
    lines = [{"id": j["id"], "cases": j["cases"], "res": x["res"]} for j, x in zip(jobs, ck.run("permute", jobs))]
    if any(j["field"] == "F257" and any(v < 0 or v > 256 for c in j["cases"] for v in c["a"] + c["s"]) for j in jobs): raise Broken("values do not fit")
    ck.note("cases", sum(len(j["cases"]) for j in jobs))
    ck.sample({"case": jobs[-1]["cases"][0], "result": lines[-1]["res"][0]})
    ck.trace("TracePermute", lines, PLAIN, {j["id"]: j for j in jobs})


GATES = {"mul": (2, 1, 0, 0), "arith": (3, 1, 5, 0), "arith4": (4, 1, 6, 0), "rescue": (5, 0, 4, 0), "delta": (1, 0, 1, 0), "xorand": (4, 0, 1, 0),
         "lookup:simple1": (1, 0, 0, 1), "lookup:simple3": (3, 0, 0, 3)}


def gate_table(r, g, p, n):
    nw, ni, nf, nt = GATES[g]
    lo = r.choice([2, 4, 8, p])
    w, i, f, t = ([[r.randrange(lo) for _ in range(n)] for _ in range(k)] for k in (nw, ni, nf, nt))
    if g == "lookup:simple1" or g == "lookup:simple3":
        w, t = ([[r.randrange(p) for _ in range(n)] for _ in range(k)] for k in (nw, nt))
        # more columns than the lookup needs
        w.append([r.randrange(p) for _ in range(n)]); t.append([r.randrange(p) for _ in range(n)])
    for k in range(n):
        if r.random() < 0.5: continue    # the other rows are made to satisfy the relation
        if g == "mul": i[0][k] = w[0][k] * w[1][k] % p
        elif g == "arith": i[0][k] = -(f[0][k] * w[0][k] * w[1][k] + f[1][k] * w[0][k] + f[2][k] * w[1][k] + f[3][k] * w[2][k] + f[4][k]) % p
        elif g == "arith4": f[5][k] = -(f[0][k] * w[0][k] * w[1][k] + f[1][k] * w[0][k] + f[2][k] * w[1][k] + f[3][k] * w[3][k] + f[4][k] * w[2][k] + i[0][k]) % p
        elif g == "rescue": w[4][k] = sum(f[q][k] * pow(w[q][k], 5, p) for q in range(4)) % p
        elif g == "delta" and k + 1 < n: w[0][k + 1] = (4 * w[0][k] + r.randint(0, 5)) % p
        elif g == "xorand":
            w[0][k], w[1][k] = r.randrange(4), r.randrange(4)
            w[2][k] = w[0][k] * w[1][k]
            f[0][k] = r.choice([1, p - 1])
            w[3][k] = r.choice([w[0][k] & w[1][k], w[0][k] ^ w[1][k], r.randrange(5)])
    if g == "delta": f[0] = [r.choice([0, 0, 0, 1, r.randrange(p)]) for _ in range(n)]
    return {"gate": g, "n": n, "wit": w, "inst": i, "fix": f, "tab": t}


def c15(ck):
    r = ck.rng
    for field, p in (("F257", 257), ("F12289", 12289), ("F40961", 40961)):
        jobs = []
        for g in GATES:
            for _ in range(ck.n(12, 250) if ":" not in g else 3):
                jobs.append(dict(gate_table(r, g, p, r.choice([1, 2, 64, 128])), id=len(jobs), field=field))
        # complete truth table of the two-bit gate, with every candidate result
        rows = [(a, b, q, d) for a in range(4) for b in range(4) for q in (1, p - 1) for d in list(range(5)) + [p - 1, p - 2]]
        jobs.append({"id": len(jobs), "field": field, "gate": "xorand", "n": len(rows), "wit": [[x[0] for x in rows], [x[1] for x in rows], [x[0] * x[1] for x in rows], [x[3] for x in rows]],
                     "inst": [], "fix": [[x[2] for x in rows]], "tab": []})
        # every product of small values, and every digit step
        rows = [(a, b, c) for a in range(5) for b in range(5) for c in range(17)]
        jobs.append({"id": len(jobs), "field": field, "gate": "mul", "n": len(rows), "wit": [[x[0] for x in rows], [x[1] for x in rows]], "inst": [[x[2] for x in rows]], "fix": [], "tab": []})
        rows = [v for a in range(6) for b in range(30) for v in (a, b)]
        jobs.append({"id": len(jobs), "field": field, "gate": "delta", "n": len(rows), "wit": [rows], "inst": [], "fix": [[0] * len(rows)], "tab": []})
        # one selector and one input at a time
        for g in ("arith", "arith4", "rescue"):
            nw, ni, nf, _ = GATES[g]
            cells = []
            for s in range(nf):
                for x in range(nw):
                    for y in range(nw):
                        for v in (1, 2, p - 3): cells.append(([v * (k == x) + 2 * (k == y and k != x) for k in range(nw)], r.choice([0, p - v]), [int(k == s) for k in range(nf)]))
            jobs.append({"id": len(jobs), "field": field, "gate": g, "n": len(cells), "wit": [[c[0][k] for c in cells] for k in range(nw)], "inst": [[c[1] for c in cells]] * ni,
                         "fix": [[c[2][k] for c in cells] for k in range(nf)], "tab": []})
        lines = [dict(x, **{k: j[k] for k in ("id", "gate", "n", "wit", "inst", "fix", "tab")}) for j, x in zip(jobs, ck.run("gates", jobs))]
        ck.note("rows_" + field, sum(j["n"] for j in jobs))
        ck.note("satisfied_rows_" + field, sum(v == 0 for x in lines if ":" not in x["gate"] for v in x["vals"][0]))
        ck.sample({"gate": lines[0]["gate"], "row": [c[0] for c in lines[0]["wit"] + lines[0]["inst"] + lines[0]["fix"]], "value": lines[0]["vals"][0][0], "reads": lines[0]["reads"]})
        judged(ck, "TraceGates", lines, {j["id"]: j for j in jobs}, p)


def tree(r, depth, cols, p):
    x = r.random()
    if depth == 0 or x < 0.15:
        if r.random() < 0.25: return C(r.choice([0, 1, -1, 2, r.randrange(p)]))
        t, i = r.choice(cols)
        return Q(t, i, r.choice([0, 0, 0, 1, -1, 2, -2, 3]))
    if x < 0.4: return MUL(tree(r, depth - 1, cols, p), tree(r, depth - 1, cols, p))
    if x < 0.6: return ADD(tree(r, depth - 1, cols, p), tree(r, depth - 1, cols, p))
    if x < 0.8: return SUB(tree(r, depth - 1, cols, p), tree(r, depth - 1, cols, p))
    if x < 0.9: return NEG(tree(r, depth - 1, cols, p))
    return SCALE(tree(r, depth - 1, cols, p), r.choice([0, 1, -1, 2, 3, r.randrange(p)]))


def c17(ck):
    r = ck.rng
    for field, p in (("F257", 257), ("F12289", 12289)):
        jobs = []
        for _ in range(ck.n(60, 1500)):
            n = r.choice([4, 4, 8])
            nw, ni, nf = r.randint(1, 3), r.randint(0, 2), r.randint(0, 2)
            cols = [("w", i) for i in range(nw)] + [("i", i) for i in range(ni)] + [("f", i) for i in range(nf)]
            mk = lambda k: [r.choice([[r.randrange(p) for _ in range(n)], [r.randrange(2) for _ in range(n)], [0] * n, [7] * n, [r.randrange(p) for _ in range(n)]]) for _ in range(k)]
            jobs.append({"id": len(jobs), "field": field, "n": n, "ratio": r.choice([1, 2, 4]), "x": r.randrange(p), "wit": mk(nw), "inst": mk(ni), "fix": mk(nf),
                         "trees": [tree(r, r.choice([1, 2, 3, 3]), cols, p) for _ in range(4)]})
        # every operator on every ordered pair of leaf kinds
        leaves = [C(3), C(0), Q("w", 0, 0), Q("w", 0, 1), Q("w", 0, -1), Q("i", 0, 1), Q("f", 0, -1), NEG(Q("w", 0, 0)), SCALE(Q("w", 0, 1), 5)]
        pairs = [op(a, b) for op in (ADD, SUB, MUL) for a in leaves for b in leaves] + [NEG(a) for a in leaves] + [SCALE(a, k) for a in leaves for k in (0, 1, -1, 4)]
        # every tree of depth two over a constant and a query
        one = [C(5), Q("w", 0, 1)]
        two = one + [op(a, b) for op in (ADD, SUB, MUL) for a in one for b in one] + [f(a) for a in one for f in (NEG, lambda e: SCALE(e, 3))]
        pairs += [op(a, b) for op in (ADD, SUB, MUL) for a in two for b in two] + [f(a) for a in two for f in (NEG, lambda e: SCALE(e, 0), lambda e: SCALE(e, 4))]
        for b in batches(pairs, 40):
            jobs.append({"id": len(jobs), "field": field, "n": 4, "ratio": 2, "x": r.randrange(p), "wit": [[r.randrange(p) for _ in range(4)]], "inst": [[r.randrange(p) for _ in range(4)]],
                         "fix": [[r.randrange(p) for _ in range(4)]], "trees": b})
        for j in jobs:
            if field == "F257" and j["n"] * j["ratio"] > 128: j["ratio"] = 2
        lines = [dict(x, **{k: j[k] for k in ("id", "n", "ratio", "x", "wit", "inst", "fix", "trees")}) for j, x in zip(jobs, ck.run("expr", jobs))]
        ck.note("trees_" + field, sum(len(j["trees"]) for j in jobs))
        ck.sample({"tree": jobs[0]["trees"][0], "degree": lines[0]["res"][0]["virt"]["deg"], "at": lines[0]["res"][0]["virt"]["at"]})
        judged(ck, "TraceExpr", lines, {j["id"]: j for j in jobs}, p)


BYTES = {"a": [97], "b": [98], "ab": [97, 98], "ba": [98, 97], "e": [], "z": [0], "zz": [0, 0], "L1": [5] * 200, "L2": [5] * 199 + [6], "L3": [6] + [5] * 199,
         "M1": list(range(32)), "M2": list(range(31)) + [99], "S": [5] * 32, "S2": [5] * 64,
         "T1": [5] * 63 + [1], "T2": [5] * 63 + [2], "T3": [5] * 65, "K1": [7] * 1000 + [1], "K2": [7] * 1000 + [2], "X1": [9] * 1500 + [1] + [9] * 3000, "X2": [9] * 4500 + [1], "X3": [9] * 4501, "Y1": [4] * 70000, "Y2": [4] * 69999 + [5], "Y3": [4] * 66000 + [5] + [4] * 3999, "Y4": [4] * 200000, "Y5": [4] * 199999 + [5]}
LONG = [k for k in sorted(BYTES) if len(BYTES[k]) > 60000]
MID = [k for k in sorted(BYTES) if k not in LONG]
SHORT = ["a", "b", "ab", "ba", "e", "z", "zz", "L1", "L2", "L3", "M1", "M2", "S", "S2"]


def c18(ck):
    r = ck.rng
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    progs = []
    for inits, inputs, draws, k in ((["a", "e"], ["a", "b", "e"], ["u64", "fill"], ck.n(4, 5)), (["a"], ["a", "b"], ["u64"], ck.n(7, 9)),
                                    (MID, MID, ["u64"], 2), (["e"], LONG, ["u64"], 2), (LONG, ["e"], ["u64"], 1), (SHORT, SHORT, ["u64"], ck.n(2, 3)), (["a", "b"], ["ab"], ["u64", "u32", "field", "fill", "try"], ck.n(3, 4))):
        out = ck.tlc("Rng", "CONSTANTS Inits = %s Inputs = %s Draws = %s MaxLen = %d\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTIES Grows Forgets\nCHECK_DEADLOCK FALSE\n" % (q(inits), q(inputs), q(draws), k), workers=1)
        ps = ck.emitted(out, "PROG")
        progs.append(sorted(ps, key=json.dumps))
    # longer random programs
    ops = [{"o": "absorb", "d": k} for k in MID] + [{"o": k, "d": ""} for k in ("u64", "u64", "u32", "fill", "field")] * 3
    progs.append([[{"o": "init", "d": r.choice(MID)}] + [dict(r.choice(ops)) for _ in range(r.randint(5, 40))] for _ in range(ck.n(150, 3000))])
    # inputs close to one another
    data, names = dict(BYTES), {}
    def name(b):
        known = next((k for k, v in BYTES.items() if v == b), None)
        if known: return known
        k = names.setdefault(bytes(b), "v%d" % len(names))
        data[k] = b
        return k
    near = []
    for _ in range(ck.n(60, 1000)):
        m = r.choice([1, 2, 3, 7, 8, 16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 160, 255, 256, 257, 500, r.randint(1, 600)])
        b = [r.choice([0, 0, 1, 255, r.randrange(256)]) for _ in range(m)] if r.random() < 0.3 else [r.randrange(256) for _ in range(m)]
        v = [b, b + [0], b + [0] * r.randint(2, 70), [0] + b, b[:-1], b[1:], b + [b[-1]], b + b, b[::-1], b[m // 2:] + b[:m // 2], [x ^ 0x80 for x in b]]
        for _ in range(6):
            k = r.randrange(m)
            v.append(b[:k] + [b[k] ^ (1 << r.randrange(8))] + b[k + 1:])
        near.append(sorted({name(x) for x in v}))
    progs.append([[{"o": "init", "d": "a"}, {"o": "absorb", "d": k}] for g in near for k in g])
    progs.append([[{"o": "init", "d": k}] for g in near for k in g])
    # cut in different places
    cuts = []
    for g in r.sample(near, 20):
        b = data[max(g, key=lambda k: len(data[k]))]
        for _ in range(4):
            k, l = sorted((r.randint(0, len(b)), r.randint(0, len(b))))
            cuts.append([{"o": "init", "d": "a"}] + [{"o": "absorb", "d": name(x)} for x in (b[:k], b[k:l], b[l:])])
            cuts.append([{"o": "init", "d": name(b[:k])}, {"o": "absorb", "d": name(b[k:])}])
    progs.append([json.loads(x) for x in sorted({json.dumps(c) for c in cuts})])
    ck.note("programs", [len(p) for p in progs])
    jobs = []
    for rng in ("chacha", "chacha8", "chacha20") if ck.thorough() else ("chacha", "chacha20"):
        for ps in progs:
            # every program ends with a wide draw
            ps = [[x for x in p] + [{"o": "u64", "d": ""}] for p in ps]
            jobs.append({"id": len(jobs), "rng": rng, "spec": ps, "progs": [{"init": data[p[0]["d"]], "ops": [dict(x, d=data.get(x["d"], []), n=12) for x in p[1:]]} for p in ps]})
    # the same programs once more in the same process: nothing outside the history matters
    lines = []
    res = ck.run("rng", [{k: j[k] for k in ("id", "rng", "progs")} for j in jobs] * 2)
    for j, x, y in zip(jobs, res, res[len(jobs):]):
        lines.append({"id": j["id"], "progs": j["spec"] + j["spec"][:200], "res": x["res"] + y["res"][:200]})
    ck.sample({"program": lines[0]["progs"][9], "drawn": lines[0]["res"][9]})
    ck.trace("TraceRng", lines, PLAIN, {j["id"]: {"rng": j["rng"]} for j in jobs})


def com_ops(p):
    f = lambda s: {"s": s["k"]} if s["rho"] else s["k"]
    out = []
    for o in p:
        o = dict(o)
        if "s" in o: o["s"] = f(o["s"])
        if "ss" in o: o["ss"] = [f(s) for s in o["ss"]]
        out.append(o)
    return out


def c19(ck):
    r = ck.rng
    cfg = lambda k: "CONSTANT MaxLen = %d\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n" % k
    progs = ck.emitted(ck.tlc("ComGen", cfg(ck.n(2, 3)), workers=1), "PROG")
    progs = sorted(progs, key=json.dumps)
    ck.note("enumerated_programs", len(progs))
    if len(progs) > ck.n(3000, 12000): progs = r.sample(progs, ck.n(3000, 12000))
    sc = [{"k": k, "rho": b} for k in (-3, -1, 0, 1, 2, 7) for b in (False,)] + [{"k": 1, "rho": True}, {"k": -1, "rho": True}]
    for _ in range(ck.n(250, 4000)):
        p, m, rh = [], 5, 0
        for _ in range(r.randint(2, 7)):
            pick = lambda: r.randrange(m) if r.random() < 0.5 else m - 1 - r.randrange(min(m, 3))
            s = lambda ok: r.choice(sc if ok else sc[:6])
            o = r.choice(["add", "addas", "neg", "scale", "zero", "msm", "msm", "scale", "add"])
            if o in ("add", "addas"): x = {"o": o, "a": pick(), "b": pick()}
            elif o == "neg": x = {"o": o, "a": pick()}
            elif o == "scale": x = {"o": o, "a": pick(), "s": s(rh < 2)}; rh += x["s"]["rho"]
            elif o == "zero": x = {"o": o}
            else:
                k = r.choice([0, 1, 2, 3, 5])
                x = {"o": o, "ix": [pick() for _ in range(k)], "ss": [s(False) for _ in range(k)]}
                if k and rh < 2 and r.random() < 0.4: x["ss"][r.randrange(k)] = sc[6]; rh += 1
            p.append(x); m += 1
        progs.append(p)
    # long sums
    for k in [8, 16, 31, 32, 33, 64, 65, 128, 200] * ck.n(1, 8):
        progs.append([{"o": "msm", "ix": [r.randrange(5) for _ in range(k)], "ss": [r.choice(sc[:6]) for _ in range(k)]}, {"o": "neg", "a": 5}])
        one = {"k": 1, "rho": False}
        progs.append([{"o": "msm", "ix": [0] * (k - 1) + [1], "ss": [one] * k}, {"o": "msm", "ix": [2] + [3] * (k - 1), "ss": [one] * k}])
    # combinations that cancel
    one, neg = {"k": 1, "rho": False}, {"k": -1, "rho": False}
    for a in range(5):
        progs += [[{"o": "neg", "a": a}, {"o": "add", "a": a, "b": 5}], [{"o": "scale", "a": a, "s": neg}, {"o": "add", "a": 5, "b": a}],
                  [{"o": "msm", "ix": [a, a], "ss": [one, neg]}], [{"o": "neg", "a": a}, {"o": "neg", "a": 5}, {"o": "msm", "ix": [6, a], "ss": [one, neg]}],
                  [{"o": "zero"}, {"o": "add", "a": 5, "b": a}], [{"o": "zero"}, {"o": "add", "a": a, "b": 5}], [{"o": "add", "a": a, "b": a}, {"o": "scale", "a": a, "s": {"k": 2, "rho": False}}]]
    jobs = [{"id": i, "seed": r.randrange(1 << 30), "progs": [com_ops(p) for p in b], "spec": b} for i, b in enumerate(batches(progs, 40))]
    lines = [{"id": j["id"], "progs": j["spec"], "res": x["res"]} for j, x in zip(jobs, ck.run("com", [{k: j[k] for k in ("id", "seed", "progs")} for j in jobs]))]
    ck.note("programs", len(progs))
    ck.sample({"program": progs[-30], "registers_equal": lines[-1]["res"][0].get("eq")})
    ck.trace("TraceCom", lines, PLAIN, {j["id"]: {k: j[k] for k in ("seed", "spec")} for j in jobs})


def layout(r, n, maxcols, maxdeg, coef, alias=False, shape=None):
    """columns with rotation sets, some sharing a set"""
    ks = list(range(-n + 1, n))
    sets = []
    if shape == "tall":
        # few sets, many columns in each
        sets = [[0]] if n == 1 or r.random() < 0.5 else [[0], sorted([0, r.choice([1, -1])])]
        return [{"kind": r.choice(["w", "w", "f"]), "co": [coef() for _ in range(r.choice([1, n, n, maxdeg]))], "rots": list(r.choice(sets))} for _ in range(r.randint(maxcols // 2, maxcols))]
    if shape == "many":
        # many sets, few columns in each, all meeting in one point
        while len(sets) < min(2 ** min(n - 1, 5), r.randint(4, 7)):
            x = sorted({0} | set(r.sample(range(1, n), r.randint(0, min(n - 1, 3)))))
            if x not in sets: sets.append(x)
        return [{"kind": r.choice(["w", "w", "f"]), "co": [coef() for _ in range(r.choice([1, n, n, maxdeg]))], "rots": list(x)} for x in sets for _ in range(r.choice([1, 1, 2]))]
    if shape == "far":
        # one or two sets of many rotations
        sets = [sorted(r.sample(range(-(n // 2) + 1, n // 2), r.randint(n // 2, n - 1))) for _ in range(r.randint(1, 2))]
        return [{"kind": r.choice(["w", "w", "f"]), "co": [coef() for _ in range(n)], "rots": list(x)} for x in sets for _ in range(r.randint(1, 2))]
    for _ in range(r.randint(1, 4)):
        pool, got = r.sample(ks, len(ks)), []
        want = r.choice([0, 1, 1, 2, 2, 3, min(5, n)])
        for k in pool:
            if len(got) < want and all((k - g) % n for g in got): got.append(k)
        sets.append(sorted(got))
    sets.append([0])
    if n > 1: sets += [[0, 1], [-1, 0] if r.random() < 0.5 else [1]]
    cols = []
    for _ in range(r.randint(1, maxcols)):
        d = r.choice([0, 1, n, n, n, maxdeg])
        co = [coef() for _ in range(d)]
        if r.random() < 0.1: co = [0] * d
        if cols and r.random() < 0.15: co = list(r.choice(cols)["co"])
        s = r.choice(sets)
        cols.append({"kind": r.choice(["w", "w", "f"]), "co": co, "rots": list(s)})
    if alias and n > 1:
        k = r.randint(1, n - 1)
        c = r.choice(cols)
        c["rots"] = sorted(set(x for x in c["rots"] if (x - k) % n) | {k, k - n})
    return cols


def groups(cols):
    return len({tuple(sorted(set(c["rots"]))) for c in cols})


def mo_edits(r, cols, k):
    nq = groups(cols)
    v = lambda: r.choice([1, -1, 5, "r%d" % r.randrange(50)])
    one = [{"f": "claim", "op": "add", "i": i, "k": a, "v": v()} for i, c in enumerate(cols) for a in range(len(c["rots"]))]
    q = [{"f": "q", "op": "add", "i": i, "v": v()} for i in range(nq)]
    com = [{"f": "com", "op": o, "i": i, "v": v()} for i in range(len(cols)) for o in ("add", "zero")]
    out = [[x] for x in one + q + com]
    out += [[{"f": "com", "op": "swap", "i": i, "h": h}] for i in range(len(cols)) for h in range(i)]
    out += [[{"f": "claim", "op": "swap", "i": i, "h": h}] for i in range(len(cols)) for h in range(i) if sorted(cols[i]["rots"]) == sorted(cols[h]["rots"])]
    out += [[{"f": "q", "op": "swap", "i": i, "h": h}] for i in range(nq) for h in range(i)]
    out += [[{"f": "q", "op": "drop", "i": i}] for i in range(nq)] + [[{"f": "q", "op": "empty"}], [{"f": "q", "op": "append", "v": 0}], [{"f": "q", "op": "append", "v": 3}]]
    out += [[{"f": "f", "op": "add", "v": v()}], [{"f": "f", "op": "zero"}], [{"f": "f", "op": "other"}], [{"f": "open", "op": "other"}]]
    # every pair of claims at one point, changed by opposite amounts; every pair of groups, by amounts that cancel
    opp = [[{"f": "claim", "op": "add", "i": i, "k": a, "v": 3}, {"f": "claim", "op": "add", "i": h, "k": cols[h]["rots"].index(t), "v": -3}]
           for i, c in enumerate(cols) for a, t in enumerate(c["rots"]) for h in range(i) if t in cols[h]["rots"]]
    can = [[{"f": "claim", "op": "cancel", "i": i, "h": h, "v": 3}] for i, c in enumerate(cols) for h in range(i) if set(c["rots"]) & set(cols[h]["rots"])]
    can += [[{"f": "q", "op": "add", "i": i, "v": 3}, {"f": "q", "op": "add", "i": h, "v": -3}] for i in range(nq) for h in range(i)]
    # claims whose interpolation passes through polynomials of lower degree
    for i, c in enumerate(cols):
        m = len(c["rots"])
        out += [[{"f": "claim", "op": "lead", "i": i, "k": a, "h": b, "v": v()}] for a, b in r.sample([(a, b) for a in range(m) for b in range(a)], min(m * (m - 1) // 2, 6 if m < 8 else 30))]
    out += r.sample(opp, min(len(opp), 8 * k)) + r.sample(can, min(len(can), 8 * k))
    pool = one + q + com
    for _ in range(k):
        if len(pool) < 2: break
        a, b = r.sample(pool, 2)
        if a["op"] == b["op"] == "add" and r.random() < 0.5:
            a, b = dict(a, v=4), dict(b, v=-4)
        out.append([a, b])
    return out


def c06(ck):
    r = ck.rng
    cls = lambda v: "accept" if v == "accept" else "ok" if v == "ok" else v.split(":")[0]
    for field, num, rand in (("F62", ck.n(150, 2500), True), ("F62", ck.n(100, 1500), False), ("BLS", ck.n(16, 150), True)):
        jobs = []
        for q in range(num):
            n = r.choice([1, 2, 4, 4, 8, 16])
            big = field == "BLS"
            shape = {0: "tall", 1: "many"}.get(q % 5) if q % 10 != 2 else "far"
            if shape == "far": n = r.choice([16, 32, 64])
            if shape == "many": n = max(n, 4)
            cols = layout(r, n, (6 if shape == "tall" else 4) if big else (24 if shape == "tall" else 8), n + 3, lambda: "r%d" % r.randrange(10 ** 6), alias=q % 9 == 8, shape=shape)
            j = {"id": len(jobs), "cmd": "tamper", "field": field, "n": n, "xi": "r%d" % r.randrange(10 ** 6), "oracles": cols, "seed": r.randrange(1 << 30),
                 "edits": mo_edits(r, cols, 10 if big else 40)}
            # challenges that do not react to the changes
            if not rand: j["script"] = ["r%d" % (r.randrange(10 ** 6)) for _ in range(4)]
            jobs.append(j)
        lines = []
        for j, x in zip(jobs, ck.run("mo", jobs)):
            t = {"id": j["id"], "mode": "tamper", "lay": {"n": j["n"], "om": 0, "xi": 0, "cols": [{"rots": c["rots"], "co": []} for c in j["oracles"]]}, "prove": cls(x["prove"]), "vs": [], "base": "", "again": [], "res": []}
            if x["prove"] == "ok":
                t.update(base=cls(x["base"]), again=[cls(v) for v in x["again"]], res=[{"noop": q["noop"], "v": cls(q["v"])} for q in x["res"]])
            else: t["vs"] = [cls(v) for v in x.get("vs", [])]
            lines.append(t)
        tag = field + ("" if rand else "_fixed_challenges")
        ck.note("layouts_" + tag, len(jobs)); ck.note("changes_" + tag, sum(len(t["res"]) for t in lines))
        ck.sample({"rotations": [c["rots"] for c in jobs[0]["oracles"]], "change": jobs[0]["edits"][0], "verdict": lines[0]["res"][0] if lines[0]["res"] else None})
        judged(ck, "TraceMo", lines, {j["id"]: j for j in jobs})
    # the value f has to take, in a field small enough to try them all
    jobs = []
    for _ in range(ck.n(80, 1200)):
        n = r.choice([1, 2, 4, 8])
        many = n >= 4 and len(jobs) % 3 == 0
        far = len(jobs) % 8 == 1
        if far: n = r.choice([16, 32])
        while True:
            cols = layout(r, n, 4, n, lambda: r.randrange(257), shape="far") if far else layout(r, n, 5, n + 1, lambda: r.randrange(257), shape="many" if many else None)
            if many:
                if groups(cols) <= 5 and len(cols) <= 6: break
            elif groups(cols) <= 3 and max(sum(sorted(c["rots"]) == sorted(d["rots"]) for d in cols) for c in cols) <= 3: break
        xi = r.randrange(1, 257)
        om = pow(3, 256 // n, 257)
        pts = {xi * pow(om, k, 257) % 257 for k in range(n)}
        samples = []
        for _ in range(5):
            x3 = r.choice([x for x in range(257) if x not in pts])
            samples.append({"ch": [r.randrange(2, 256), r.randrange(2, 256), x3, r.randrange(2, 256)], "claims": [[r.randrange(257) for _ in c["rots"]] for c in cols],
                            "q": [r.randrange(257) for _ in range(groups(cols))]})
        jobs.append({"id": len(jobs), "cmd": "exact", "field": "F257", "n": n, "xi": xi, "oracles": cols, "samples": samples})
        # where to start looking for the order in which groups are counted
        jobs[-1]["hint"] = [list(k) for k in sorted({tuple(sorted(set(c["rots"]))) for c in cols})]
    lines = [{"id": j["id"], "mode": "exact", "lay": {"n": j["n"], "om": x["om"] if j["n"] > 1 else 1, "xi": j["xi"], "cols": [{"rots": c["rots"], "co": c["co"]} for c in j["oracles"]]},
              "samples": j["samples"], "res": x["res"], "hint": j["hint"]} for j, x in zip(jobs, ck.run("mo", jobs))]
    ck.note("equations", sum(len(j["samples"]) for j in jobs))
    judged(ck, "TraceMo", lines, {j["id"]: j for j in jobs}, 257)
    # the weight of every claim and every q value, for many groups
    jobs = []
    for x in range(ck.n(10, 100)):
        n = r.choice([8, 16])
        if x % 3 == 2: cols = layout(r, n, 40, n, lambda: r.randrange(257), shape="tall")
        else:
            sets = set()
            want = r.choice([9, 12, 18, 24])
            while len(sets) < want: sets.add(tuple(sorted(r.sample(range(n), r.randint(1, 4)))))
            cols = [{"kind": "w", "co": [r.randrange(257) for _ in range(r.choice([1, n]))], "rots": list(x)} for x in sets for _ in range(r.choice([1, 1, 2]))]
            r.shuffle(cols)
        xi = r.randrange(1, 257)
        pts = {xi * pow(3, 256 // n * k, 257) % 257 for k in range(n)}
        gen3 = lambda: pow(3, r.randrange(1, 256, 2), 257)
        ch = [gen3(), gen3(), r.choice([x for x in range(257) if x not in pts]), gen3()]
        claims = [[r.randrange(256) for _ in c["rots"]] for c in cols]
        q = [r.randrange(256) for _ in range(groups(cols))]
        samples = [{"ch": ch, "claims": claims, "q": q}]
        samples += [{"ch": ch, "claims": [[v + (i == h and k == 0) for k, v in enumerate(row)] for h, row in enumerate(claims)], "q": q} for i in range(len(cols))]
        samples += [{"ch": ch, "claims": claims, "q": [v + (i == h) for h, v in enumerate(q)]} for i in range(len(q))]
        jobs.append({"id": len(jobs), "cmd": "exact", "field": "F257", "n": n, "xi": xi, "oracles": cols, "samples": samples})
    lines = [{"id": j["id"], "mode": "weights", "lay": {"n": j["n"], "om": x["om"], "xi": j["xi"], "cols": [{"rots": c["rots"], "co": c["co"]} for c in j["oracles"]]},
              "samples": j["samples"][:1], "res": x["res"]} for j, x in zip(jobs, ck.run("mo", jobs))]
    ck.note("weights", sum(len(t["res"]) - 1 for t in lines))
    judged(ck, "TraceMo", lines, {j["id"]: j for j in jobs}, 257)


ERRNAMES = ("MissingWitnessOracle", "MissingInstanceOracle", "MissingFixedOracle", "MissingLookupTableOracle", "WitnessTableNotAllowed", "InstanceTableNotAllowed",
            "UninitializedLookupExpr", "UninitializedLookupTableQuery", "UninitializedExpr")


def vo_defs(r, sizes, p, wide=False):
    def qs(e):
        return [{"t": e["t"], "i": e["i"], "r": e["r"]}] if e["k"] == "q" else [q for s in ("a", "b") if s in e for q in qs(e[s])]
    cols = [(t, i) for t in "wif" for i in range(sizes[t])]
    def one(kind, tabs):
        es = [tree(r, r.choice([0, 1, 2, 3]), cols, p) for _ in range(1 if kind == "g" else len(tabs))]
        if wide:
            # many queries in one expression
            for i in range(r.randint(10, 40)): es[i % len(es)] = ADD(es[i % len(es)], MUL(Q(*r.choice(cols), r.randint(-9, 9)), Q(*r.choice(cols), r.randint(-9, 9))))
        decl = [q for e in es for q in qs(e)]
        r.shuffle(decl)
        if r.random() < 0.3: decl += decl[:1]
        return {"kind": kind, "exprs": es, "decl": decl, "tables": tabs}
    tq = lambda t, m: {"t": t, "i": r.randrange(m), "r": r.randint(-9, 9) if wide else r.choice([0, 0, 1, -1, 2])}
    good = [tq("f", sizes["t"]) for _ in range(r.randint(4, 9) if wide else r.randint(1, 3))]
    bad = [tq("f", sizes["t"]) for _ in range(r.randint(0, 2))]
    bad.insert(r.randint(0, len(bad)), tq(r.choice("wi"), 1))
    if r.random() < 0.3: bad.append(tq(r.choice("wi"), 1))
    return [one("g", []), one("g", []), one("l", good), one("l", bad)]


def c16(ck):
    r = ck.rng
    cfg = "CONSTANTS NVos = 4 NSets = 2 Refused = {4} MaxLen = %d\nSPECIFICATION Spec\nINVARIANTS Registered NeverRefused LastWins Emit\nPROPERTY Local\nCHECK_DEADLOCK FALSE\n"
    progs = sorted(ck.emitted(ck.tlc("VOLife", cfg % ck.n(3, 4), workers=1), "PROG"), key=json.dumps)
    ck.note("programs", len(progs))
    p = 12289
    jobs = []
    for x in range(ck.n(24, 150)):
        sizes = {"w": r.randint(1, 4), "i": r.randint(1, 3), "f": r.randint(1, 3), "t": r.randint(1, 3)}
        if x % 4 == 3: sizes = {t: r.randint(4, 12) for t in "wift"}
        sets = []
        for side in r.sample("pv", 2) if x % 3 else "pp":
            # columns may be more than needed, in any order, under any labels
            sets.append(dict({t: r.sample(range(1, 40), sizes[t] + r.randint(0, 2)) for t in "wift"}, side=side))
        vos = vo_defs(r, sizes, p, x % 4 == 3)
        par = [[r.randrange(1, 12) for _ in range(4)] for _ in range(2)]
        for b in batches(r.sample(progs, min(len(progs), ck.n(200, 1500))), 40):
            jobs.append({"id": len(jobs), "cmd": "life", "sets": sets, "vos": vos, "par": par, "progs": b})
    # long histories
    for x in range(ck.n(10, 100)):
        jobs.append(dict(r.choice(jobs), id=len(jobs), progs=[[{"v": r.randint(1, 4), "s": r.randint(1, 2)} for _ in range(12)] for _ in range(4)]))
    lines = [dict(id=j["id"], mode="life", sets=j["sets"], vos=j["vos"], par=j["par"], progs=j["progs"], runs=x["runs"]) for j, x in zip(jobs, ck.run("vo", jobs))]
    ck.note("histories", sum(len(j["progs"]) for j in jobs))
    ck.sample({"program": jobs[0]["progs"][-1], "gates": jobs[0]["vos"][0], "observed": lines[0]["runs"][-1][-1]["regs"]})
    judged(ck, "TraceVO", lines, {j["id"]: j for j in jobs}, p)
    # one thing wrong at one stage of the real pipeline
    jobs = []
    for _ in range(ck.n(25, 300)):
        c = fault_circuit(r)
        fl = []
        for stage, side in (("index", "p"), ("index", "v"), ("prove", "p"), ("verify", "v")):
            for t, k in (("w", 3), ("i", 2), ("f", 2)):
                fl += [{"stage": stage, "side": side, "what": "rename", "t": t, "i": i, "in": ""} for i in range(k)]
            if stage != "index":
                fl += [{"stage": stage, "side": side, "what": "rename", "t": "t", "i": i, "in": ""} for i in range(len(c["tab"]))]
                fl += [{"stage": stage, "side": side, "what": "nonfixed", "t": t, "i": 0, "m": m, "in": "lookup"} for t in "wi" for m in range(len(c["tab"]))]
                # a table query naming a column that exists, but is not a table
                fl += [{"stage": stage, "side": side, "what": "nonfixed", "t": "f", "i": 0, "m": 0, "label": lab, "in": "lookup"} for lab in ("nowhere", c["fix"][0]["label"])]
            fl += [{"stage": stage, "side": side, "what": "unconfigured", "t": "w", "i": i, "in": "gate"} for i in range(len(c["gates"]))]
        for side in "pv":
            fl += [{"stage": "index", "side": side, "what": "unconfigured", "t": "w", "i": 0, "in": "lookup", "no": "both"}, {"stage": "index", "side": side, "what": "unconfigured", "t": "w", "i": 0, "in": "lookup", "no": "expr"}]
            fl += [{"stage": {"p": "prove", "v": "verify"}[side], "side": side, "what": "unconfigured", "t": "w", "i": 0, "in": "lookup", "no": "tab"}]
        jobs.append({"id": len(jobs), "cmd": "fault", "srs": 4 * c["n"] + 40, "circ": c, "faults": fl})
    lines = []
    for j, x in zip(jobs, ck.run("vo", jobs)):
        res = [{"s": "panic" if "panic:" in v else "err" if "err:" in v else v, "e": next((n for n in ERRNAMES if n + "(" in v or n in v.replace(")", " ").replace("(", " ").split()), v[:60])} for v in x["res"]]
        lines.append({"id": j["id"], "mode": "fault", "base": x["base"], "faults": j["faults"], "res": res})
    ck.note("faults", sum(len(j["faults"]) for j in jobs))
    ck.sample({"fault": jobs[0]["faults"][0], "reported": lines[0]["res"][0]})
    judged(ck, "TraceVO", lines, {j["id"]: j for j in jobs}, p)


def fault_circuit(r):
    """two gates and a lookup over separate columns, so that each column has one user"""
    n, u = 8, 5
    k = r.choice([1, 2])
    tab = [[r.randrange(9) for _ in range(n)] for _ in range(k)]
    lab = lambda t, i: "%s%s%d" % (t, r.choice(["", "_x", "ab"]), i)
    col = lambda t, i, rows, **kw: dict({"label": lab(t, i), "rows": rows}, **kw)
    pick = [r.randrange(u) for _ in range(n)]
    one, w = [1] * n, [[r.randrange(9) for _ in range(n)] for _ in range(2)]
    c = {"n": n, "removed": [], "u": u, "usable": u, "deltas": [1], "sigma": [], "qblind": [0] * (u + 1) + [1] * (n - u - 1),
         "wit": [col("w", 0, w[0], perm=False), col("w", 1, w[1], perm=False), col("w", 2, [tab[0][x] for x in pick], perm=False)],
         "inst": [col("i", 0, [a * b for a, b in zip(*w)]), col("i", 1, [0] * n)],
         "fix": [col("f", 0, one), col("f", 1, one)],
         "tab": [col("t", i, t) for i, t in enumerate(tab)],
         "gates": [SUB(MUL(MUL(Q("w", 0, 0), Q("w", 1, 0)), Q("f", 0, 0)), Q("i", 0, 0))],
         "lookups": [{"exprs": [ADD(MUL(Q("w", 2, 0), Q("f", 1, 0)), Q("i", 1, 0))], "tables": [{"i": i, "r": 0} for i in range(k)]}]}
    if k == 2:
        c["wit"].append(col("w", 3, [tab[1][x] for x in pick], perm=False))
        c["lookups"][0]["exprs"].append(Q("w", 3, 0))
    return c


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22}

if __name__ == "__main__":
    main(TABLE)
