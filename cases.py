"""Cases: honest statements, adversarial pairs of statements, and extraction inputs."""
import copy
import gen
from gen import C, Q, ADD, SUB, MUL, SCALE, NEG


def clone(x): return copy.deepcopy(x)


def order(c):
    """evaluate in the same magnitude as the specification can"""
    return gen.maxabs(c) < 2 ** 28


# ---------------------------------------------------------------- outcomes
def classify(r):
    """outcome of a harness run as steps of Session"""
    p, v = r["prove"], r["verify"]
    if p.startswith("err:index:"): return "refused", "none", "none"
    if p.startswith("panic:index:") or p.startswith("err:config") or p.startswith("panic:config"): return "broken", "none", "none"
    if p.startswith("panic:"): return "ok", "panicked", "none"
    if p != "ok": return "ok", "refused", "none"
    if v == "accept": return "ok", "ok", "accept"
    if v.startswith("panic:"): return "ok", "ok", "panic"
    return "ok", "ok", "reject"


def session_line(id_, circ, vcirc, r, srs=512, **kw):
    i, p, v = classify(r)
    return dict({"id": id_, "circ": dict(slim(circ), srs=srs), "vcirc": dict(slim(vcirc), srs=srs), "index": i, "prove": p, "verify": v,
                 "raw": (r["prove"] + " / " + r["verify"])[:160]}, **kw)


def slim(c):
    return {k: c[k] if k != "zscale" else c.get(k, 1) for k in ("n", "zscale", "removed", "u", "usable", "wit", "inst", "fix", "tab", "gates", "lookups", "sigma", "deltas", "qblind")}


# ---------------------------------------------------------------- changes to a statement
def amount(rng, small, rows):
    """how much to change a cell: among huge values, often by more than one limb"""
    if any(abs(v) > 2 ** 40 for v in rows) and rng.random() < 0.7: return rng.choice([2 ** 32, 2 ** 64, -2 ** 64, 2 ** 128, 2 ** 192, 2 ** 240])
    return rng.choice(small)


def bump(rng, col, row):
    col["rows"][row] += amount(rng, [1, -1, 2, 5, 17, -40], col["rows"])


def gate_adversaries(rng, circ, meta):
    """(kind, prover statement, verifier statement)"""
    out = []
    G = [g for g in meta["gates"] if g["act"]]
    off = 1 if circ["gates"] and circ["gates"][0] == C(0) else 0
    n = circ["n"]
    if G:
        g = rng.choice(G)
        row = rng.choice(g["act"])
        p = clone(circ)
        bump(rng, p["wit"][g["out"]], (row + g["rot"]) % n)
        out.append(("cell", p, clone(p)))
        # the last gate, or the last row
        g2 = rng.choice([G[-1], g])
        p = clone(circ)
        bump(rng, p["wit"][g2["out"]], (max(g2["act"]) + g2["rot"]) % n)
        out.append(("cell_last", p, clone(p)))
        # and more of them, when there are many
        for g2 in rng.sample(G, 8) + [G[-1]] if len(G) > 8 else []:
            p = clone(circ)
            bump(rng, p["wit"][g2["out"]], (rng.choice(g2["act"]) + g2["rot"]) % n)
            out.append(("cell_many", p, clone(p)))
            v = clone(circ)
            k = meta["gates"].index(g2) + off
            v["gates"][k] = ADD(v["gates"][k], C(rng.choice([1, -1, 7])))
            out.append(("shift_many", clone(circ), v))
        # the prover proves a weaker gate, with the same queries
        k = meta["gates"].index(g) + off
        p = clone(circ)
        p["gates"][k] = SCALE(p["gates"][k], 0)
        bump(rng, p["wit"][g["out"]], (row + g["rot"]) % n)
        v = clone(p); v["gates"][k] = circ["gates"][k]
        out.append(("relax", p, v))
        # a different constant
        v = clone(circ)
        v["gates"][k] = ADD(v["gates"][k], C(rng.choice([1, -1, 7])))
        out.append(("shift", clone(circ), v))
        # two violations that cancel in an unweighted sum of gates
        m = len(circ["gates"])
        if m - off >= 2:
            # every distance between the two, when there are many
            dist = sorted(set(rng.sample(range(1, m - off), min(m - off - 1, 24))) | {d for d in (32, 64, 128) if d < m - off})
            for d in dist:
                k1 = rng.randrange(off, m - d)
                a, b = rng.choice([(k1, k1 + d), (k1 + d, k1)])
                v = clone(circ)
                v["gates"][a] = ADD(v["gates"][a], C(3))
                v["gates"][b] = SUB(v["gates"][b], C(3))
                out.append(("cancel", clone(circ), v))
        # a gate that cannot be satisfied, known to both sides
        p = clone(circ)
        p["gates"].insert(rng.randint(0, m), rng.choice([C(1), C(-2), ADD(C(2), C(3)), SCALE(C(1), 7), NEG(C(4))]))
        out.append(("constant", p, clone(p)))
        # and one that always is
        p = clone(circ)
        p["gates"].insert(rng.randint(0, m), rng.choice([C(0), SUB(C(2), C(2)), SCALE(C(3), 0)]))
        out.append(("constant-zero", p, clone(p)))
        # selector switched off for the prover only
        s = [q for q in gen.queried(circ["gates"][k]) if q[0] == "f"]
        if s:
            p = clone(circ)
            q = s[0]
            p["fix"][q[1]]["rows"][(row + q[2]) % n] = 0
            bump(rng, p["wit"][g["out"]], (row + g["rot"]) % n)
            v = clone(p); v["fix"] = clone(circ["fix"])
            out.append(("selector", p, v))
    # rows nobody reads: still satisfied
    p = clone(circ)
    used = {(q[0], q[1]) for e in p["gates"] for q in gen.queried(e)}
    for l in p["lookups"]:
        for e in l["exprs"]: used |= {(q[0], q[1]) for q in gen.queried(e)}
    free = [i for i in range(len(p["wit"])) if ("w", i) not in used and not p["wit"][i]["perm"]]
    if free:
        bump(rng, p["wit"][rng.choice(free)], rng.randrange(n))
        out.append(("noise", p, clone(p)))
    return out


def removed_adversaries(rng, circ, meta):
    out = []
    n = circ["n"]
    rem = circ["removed"]
    G = meta["gates"]
    if not rem or not G: return out
    off = 1 if circ["gates"] and circ["gates"][0] == C(0) else 0
    g = rng.choice(G)
    # whatever the removed rows contain
    p = clone(circ)
    for r in rem:
        cell = (r + g["rot"]) % n
        if cell not in [(a + g["rot"]) % n for a in g["act"]]:
            p["wit"][g["out"]]["rows"][cell] = rng.choice([0, 5, -3, 100, 9999])
    out.append(("removed-any", p, clone(p)))
    # a remaining row violated
    if g["act"]:
        p = clone(circ)
        r = rng.choice(g["act"])
        bump(rng, p["wit"][g["out"]], (r + g["rot"]) % n)
        out.append(("remaining", p, clone(p)))
        # the row next to a removed one
        near = [a for a in g["act"] if (a + 1) % n in rem or (a - 1) % n in rem]
        if near:
            p = clone(circ)
            bump(rng, p["wit"][g["out"]], (rng.choice(near) + g["rot"]) % n)
            out.append(("next-to-removed", p, clone(p)))
        # the prover removes one more row
        p = clone(circ)
        p["removed"] = sorted(rem + [r])
        bump(rng, p["wit"][g["out"]], (r + g["rot"]) % n)
        v = clone(p); v["removed"] = list(rem)
        out.append(("removes-more", p, v))
        # the prover removes another row instead
        p = clone(circ)
        p["removed"] = sorted([x for x in rem if x != rem[0]] + [r])
        bump(rng, p["wit"][g["out"]], (r + g["rot"]) % n)
        rr = rem[0]
        v = clone(p); v["removed"] = list(rem)
        out.append(("removes-other", p, v))
    return out


def copy_adversaries(rng, circ, meta):
    out = []
    pc = [i for i, w in enumerate(circ["wit"]) if w["perm"]]
    n, u = circ["n"], circ["u"]
    if not pc: return out
    used = {(q[0], q[1]) for e in circ["gates"] for q in gen.queried(e)}
    for l in circ["lookups"]:
        for e in l["exprs"]: used |= {(q[0], q[1]) for q in gen.queried(e)}
    # a cell tied to another one
    tied = [(k, r) for k in range(len(pc)) for r in range(u) if circ["sigma"][k][r] != [k, r]]
    if tied:
        k, r = rng.choice(tied)
        p = clone(circ)
        bump(rng, p["wit"][pc[k]], r)
        out.append(("copy-cell", p, clone(p)))
        # the prover uses a permutation without that tie
        v = clone(p)
        p2 = clone(p)
        # cut (k,r) out of its cycle
        tgt = p2["sigma"][k][r]
        for kk in range(len(pc)):
            for rr in range(u):
                if p2["sigma"][kk][rr] == [k, r]: p2["sigma"][kk][rr] = tgt
        p2["sigma"][k][r] = [k, r]
        out.append(("copy-sigma", p2, v))
        # relax everything: identity
        p3 = clone(p)
        p3["sigma"] = [[[kk, rr] for rr in range(n)] for kk in range(len(pc))]
        out.append(("copy-identity", p3, clone(v)))
    # every column, when there are many; the outermost rows
    if len(pc) > 8:
        ends = sorted(tied)[:1] + sorted(tied)[-1:] + [x for x in tied if x[1] in (0, u - 1)]
        for k, r in rng.sample(tied, min(8, len(tied))) + rng.sample(ends, min(4, len(ends))):
            p = clone(circ)
            bump(rng, p["wit"][pc[k]], r)
            out.append(("copy-many", p, clone(p)))
    # unusable rows carry no copy constraint
    free = [k for k in range(len(pc)) if ("w", pc[k]) not in used]
    if free:
        p = clone(circ)
        for r in range(u, n): p["wit"][pc[free[0]]]["rows"][r] = rng.randint(0, 1000)
        out.append(("copy-unusable", p, clone(p)))
    # the separators of the columns differ
    if len(circ["deltas"]) > 1:
        v = clone(circ)
        p = clone(circ)
        p["deltas"] = circ["deltas"]
        out.append(("copy-same", p, v))
    return out


def lookup_adversaries(rng, circ, meta):
    out = []
    n = circ["n"]
    if not circ["lookups"]: return out
    li = rng.randrange(len(circ["lookups"]))
    l, lm = circ["lookups"][li], meta["lookups"][li]
    k = rng.randrange(len(lm))
    m = lm[k]
    us = circ["usable"]
    row = rng.choice([0, us - 1, rng.randrange(us)])
    if len(circ["lookups"]) > 4 or len(lm) > 6:
        for _ in range(8):
            l2 = rng.randrange(len(circ["lookups"]))
            m2 = rng.choice(meta["lookups"][l2])
            p = clone(circ)
            rows = p["wit"][m2["col"]]["rows"]
            rows[(rng.choice([0, us - 1, rng.randrange(us)]) + m2["rot"]) % n] += amount(rng, [50, -77, 1], rows)
            out.append(("lookup-many", p, clone(p)))
    # out of the table
    p = clone(circ)
    p["wit"][m["col"]]["rows"][(row + m["rot"]) % n] += amount(rng, [50, -77, 1], p["wit"][m["col"]]["rows"])
    out.append(("lookup-cell", p, clone(p)))
    # the prover proves a weaker lookup: the component is multiplied by zero and is the
    # first usable entry of its table
    t = l["tables"][k]
    p = clone(circ)
    first = circ["tab"][t["i"]]["rows"][(0 + t["r"]) % n]
    for kk in range(len(lm)):
        tt = l["tables"][kk]
        p["lookups"][li]["exprs"][kk] = ADD(SCALE(l["exprs"][kk], 0), C(circ["tab"][tt["i"]]["rows"][tt["r"] % n]))
    p["wit"][m["col"]]["rows"][(row + m["rot"]) % n] += 1000
    v = clone(p); v["lookups"] = clone(circ["lookups"])
    out.append(("lookup-relax", p, v))
    # the prover's table has the entry
    p = clone(circ)
    tb = p["tab"][t["i"]]["rows"]
    tb[rng.randrange(n)] += amount(rng, [3], tb)
    v = clone(p); v["tab"] = clone(circ["tab"])
    out.append(("lookup-table", p, v))
    # the entry exists, but only in an unusable row of the table
    p = clone(circ)
    un = [r for r in range(n) if all(((r - tt["r"]) % n) >= us for l2 in circ["lookups"] for tt in l2["tables"] if tt["i"] == t["i"])]
    if un:
        r = rng.choice(un)
        p["tab"][t["i"]]["rows"][r] = 4242
        p["wit"][m["col"]]["rows"][(row + m["rot"]) % n] += 4242 - gen_lookup_value(circ, l["exprs"][k], row)
        out.append(("lookup-unusable-entry", p, clone(p)))
    # tuples: right components from different rows
    if len(lm) >= 2:
        p = clone(circ)
        cols = {x: [c["rows"] for c in p[y]] for x, y in (("w", "wit"), ("i", "inst"), ("f", "fix"))}
        o = rng.randrange(us)
        val = circ["tab"][t["i"]]["rows"][(o + t["r"]) % n]
        p["wit"][m["col"]]["rows"][(row + m["rot"]) % n] += val - gen_lookup_value(circ, l["exprs"][k], row)
        out.append(("lookup-mixed", p, clone(p)))
        # the right components in the wrong order
        def put(p, kk, val):
            p["wit"][lm[kk]["col"]]["rows"][(row + lm[kk]["rot"]) % n] += val - gen_lookup_value(p, l["exprs"][kk], row)
        vals = [gen_lookup_value(circ, e, row) for e in l["exprs"]]
        ij = [(i, j) for i in range(len(lm)) for j in range(i)]
        for i, j in rng.sample(ij, min(len(ij), 12)):
            if signs(l["exprs"][i], lm[i]) and signs(l["exprs"][j], lm[j]):
                p = clone(circ)
                for a, b in ((i, j), (j, i)):
                    s = signs(l["exprs"][a], lm[a])
                    p["wit"][lm[a]["col"]]["rows"][(row + lm[a]["rot"]) % n] += s * (vals[b] - vals[a])
                out.append(("lookup-swap", p, clone(p)))
        # a tuple of the table, rotated
        if all(signs(e, x) for e, x in zip(l["exprs"], lm)):
            p = clone(circ)
            d = rng.randrange(1, len(lm))
            for a in range(len(lm)):
                p["wit"][lm[a]["col"]]["rows"][(row + lm[a]["rot"]) % n] += signs(l["exprs"][a], lm[a]) * (vals[(a + d) % len(lm)] - vals[a])
            out.append(("lookup-rotate", p, clone(p)))
    return out


def signs(e, m):
    """coefficient of the solved column in its component: ADD(q, rest), ADD(rest, q) or SUB(rest, q)"""
    is_q = lambda x: x["k"] == "q" and x["t"] == "w" and x["i"] == m["col"] and x["r"] == m["rot"]
    if e["k"] == "add" and (is_q(e["a"]) or is_q(e["b"])): return 1
    if e["k"] == "sub" and is_q(e["b"]): return -1
    return 0


def gen_lookup_value(circ, e, row):
    cols = {x: [c["rows"] for c in circ[y]] for x, y in (("w", "wit"), ("i", "inst"), ("f", "fix"))}
    return gen.ev(e, cols, row, circ["n"])


def public_adversaries(rng, circ, meta):
    out = []
    for k, c in enumerate(circ["inst"]):
        for row in rng.sample(range(circ["n"]), 2):
            p = clone(circ)
            v = clone(circ)
            v["inst"][k]["rows"][row] += amount(rng, [1, -1, 9, 1000], v["inst"][k]["rows"])
            out.append(("public", p, v))
    return out


# ---------------------------------------------------------------- extraction
OM257 = {4: pow(3, 64, 257), 8: pow(3, 32, 257), 16: pow(3, 16, 257)}


def extraction(rng, i, kind=None, circ=None, perm_info=""):
    """random challenges and claimed evaluations over the field of 257 elements"""
    kind = kind or rng.choice(["gates", "copy", "lookup", "both", "zh"])
    if circ is None:
        n = rng.choice([8, 8, 16]) if kind != "zh" else rng.choice([8, 16])
        kw = dict(n=n, nw=rng.randint(1, 3), ni=rng.randint(0, 2), nf=rng.randint(0, 2), gates=rng.randint(1, 4),
                  maxdeg=rng.choice([2, 3, 4]), t=rng.choice([1, 2, 3]), vals=256)
        if kind in ("copy", "both"): kw["copy_cols"] = rng.randint(1, 7 if n == 8 else 4)
        if kind in ("lookup", "both"):
            kw.update(lookups=rng.randint(1, 3), width=3, lookup_deg=rng.choice([1, 1, 2]), lookup_sel=rng.choice([0, 0.3]))
        if kind == "zh": kw.update(removed=rng.randint(1, 4), selectors=False, maxdeg=rng.choice([2, 3]),
                                   copy_cols=rng.choice([0, 2, 3]) if n == 16 else 0, lookups=rng.choice([0, 0, 1]) if n == 16 else 0, t=5)
        if kind == "manygates": kw.update(n=8, gates=rng.randint(9, 24), maxdeg=2, nw=2)
        if kind == "manycopy": kw.update(n=8, gates=1, maxdeg=2, copy_cols=rng.randint(9, 20))
        if kind == "wide": kw.update(n=8, gates=1, maxdeg=2, lookups=rng.choice([1, 2, 6]), width=rng.choice([5, 9]))
        if perm_info: kw.update(copy_cols=0, perm_info=perm_info)
        circ = gen.Gen(rng, **kw).build()
    c = clone(circ)
    n = c["n"]
    c["deltas"] = [pow(3, k, 257) for k in range(len(c["deltas"]))]
    for k in ("wit", "inst", "fix", "tab"):
        for col in c[k]: col["rows"] = [v % 257 for v in col["rows"]]
    xi = rng.choice([x for x in range(2, 257) if pow(x, n, 257) != 1])
    nz = len(c["deltas"])
    k = min(256, len(c["gates"]) + 2 * nz + 2 + 5 * len(c["lookups"]) + 3)
    al = rng.sample(range(1, 257), k)
    return {"id": i, "cmd": "extract", "field": "F257", "circ": c, "seed": rng.randrange(1 << 30), "srs": 512,
            "script": {"theta": rng.randint(2, 256), "beta": rng.randint(1, 256), "gamma": rng.randint(1, 256), "xi": xi},
            "alphas": al}


# ---------------------------------------------------------------- proofs under change
EVALS = ["witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals", "lookup_evals",
         "lookup_z_evals", "z_evals", "quotient_chunks_evals", "q_evals"]
COMS = ["witness_commitments", "lookup_commitments", "lookup_z_commitments", "z_commitments", "quotient_chunk_commitments"]


def slots(counts, fields): return [(f, i) for f in fields for i in range(counts[f])]


def single_changes(counts, v=1):
    m = [[{"f": f, "op": "add", "i": i, "v": v}] for f, i in slots(counts, EVALS + COMS)]
    m += [[{"f": "q_blind_eval", "op": "add", "i": 0, "v": v}], [{"f": "f_commit", "op": "add", "i": 0, "v": v}]]
    return m


def pair_changes(rng, counts, n, fields=EVALS + COMS):
    s = slots(counts, [f for f in fields if f in counts]) + [("q_blind_eval", 0)]
    out = []
    for _ in range(n):
        a, b = rng.sample(s, 2)
        v = rng.choice([1, 2, 5, "r5"])
        w = rng.choice([-1, 1, -2]) if isinstance(v, str) else rng.choice([-v, v, -v])
        if isinstance(v, str): v = 3; w = -3
        out.append([{"f": a[0], "op": "add", "i": a[1], "v": v}, {"f": b[0], "op": "add", "i": b[1], "v": w}])
    return out


def opposite_changes(rng, counts, n):
    """two entries of one vector changed by opposite amounts, at every distance"""
    s = [(f, i, h) for f in EVALS + COMS if f in counts for i in range(counts[f]) for h in range(i)]
    return [[{"f": f, "op": "add", "i": i, "v": 4}, {"f": f, "op": "add", "i": h, "v": -4}] for f, i, h in (rng.sample(s, n) if len(s) > n else s)]


def vector_changes(rng, counts, n):
    out = []
    for _ in range(n):
        f = rng.choice([f for f in EVALS + COMS if counts[f] >= 2] or ["quotient_chunks_evals"])
        i, j = rng.sample(range(counts[f]), 2) if counts[f] >= 2 else (0, 0)
        out.append([rng.choice([{"f": f, "op": "swap", "i": i, "j": j}, {"f": f, "op": "copy", "i": i, "j": j},
                                {"f": f, "op": "from2", "i": i}, {"f": f, "op": "all2", "i": 0}, {"f": f, "op": "set0", "i": i}])])
    return out


def norm(v):
    """verdict classes the specification knows"""
    return "accept" if v == "accept" else "panic" if v.startswith("panic:") else "reject"
