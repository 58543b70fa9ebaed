"""Generator of circuits (shared JSON form; see spec/Circuit.tla for their meaning).

Everything is derived from a random.Random passed in; values are small plain integers so that
the specification evaluates them exactly.
"""
import copy, random


def C(v): return {"k": "c", "v": v}
def Q(t, i, r=0): return {"k": "q", "t": t, "i": i, "r": r}
def NEG(a): return {"k": "neg", "a": a}
def ADD(a, b): return {"k": "add", "a": a, "b": b}
def SUB(a, b): return {"k": "sub", "a": a, "b": b}
def MUL(a, b): return {"k": "mul", "a": a, "b": b}
def SCALE(a, v): return {"k": "scale", "a": a, "v": v}


LABELS = ["b", "a", "a10", "a2", "B", "z", "w_1", "w_10", "w_2", "c", "aa", "ab", "_", "q", "x9", "x10",
          "agg_permutation_0", "quotient_chunk_0", "sigma_0", "q_blind", "lookup_a_prime_0_poly", "d", "e", "A",
          "out", "Out", "o1", "o11", "o2", "f", "g", "h", "k", "k0", "m", "mm", "n", "p", "r", "s", "t", "u", "v",
          "y", "y-1", "y+1", "1", "10", "2", "xi", "omega", "", " ", "Z",
          "agg_permutation_1", "agg_permutation_10", "quotient_chunk_1", "lookup_s_prime_0_poly", "lookup_0_agg_poly", "lookup_a_0_poly", "final_poly",
          "long" * 30, "long" * 30 + "1", "long" * 30 + "2", "x" * 300, "x" * 300 + "y", "é", "è", "日本", "\n", "a\nb", "\t", "#", "W", "{}", "%s", "0", "00", "-1"]


FAMILIES = [["1", "10", "2", "0", "00", "-1"], ["long" * 30, "long" * 30 + "1", "long" * 30 + "2", "x" * 300, "x" * 300 + "y"], ["", " ", "\n", "\t", "_", "#"], ["é", "è", "日本", "e"],
            ["a", "A", "aa", "ab", "a10", "a2", "a\nb"], ["w_1", "w_10", "w_2", "W"], ["o1", "o11", "out", "Out", "o2"],
            ["agg_permutation_0", "agg_permutation_1", "agg_permutation_10", "lookup_0_agg_poly", "lookup_a_prime_0_poly", "lookup_s_prime_0_poly", "quotient_chunk_0", "quotient_chunk_1", "sigma_0", "q_blind"]]


def ev(e, cols, row, n):
    k = e["k"]
    if k == "c": return e["v"]
    if k == "q": return cols[e["t"]][e["i"]][(row + e["r"]) % n]
    if k == "neg": return -ev(e["a"], cols, row, n)
    if k == "scale": return ev(e["a"], cols, row, n) * e["v"]
    a, b = ev(e["a"], cols, row, n), ev(e["b"], cols, row, n)
    return a + b if k == "add" else a - b if k == "sub" else a * b


def deg(e):
    k = e["k"]
    if k == "c": return 0
    if k == "q": return 1
    if k in ("neg", "scale"): return deg(e["a"])
    a, b = deg(e["a"]), deg(e["b"])
    return a + b if k == "mul" else max(a, b)


class Gen:
    def __init__(self, rng, n=8, nw=2, ni=1, nf=1, gates=2, maxdeg=3, maxrot=3, copy_cols=0, lookups=0,
                 width=2, removed=0, t=3, selectors=True, perm_info="", labels=True, out_perm=True, extra_unused=0,
                 const_gate=False, u=None, vals=4, lookup_deg=1, lookup_sel=0.0, styles=False, flat=False, sparse=1.0, pool=None, zscale=1, repr=False):
        self.r = rng
        self.o = dict(locals())
        del self.o["self"], self.o["rng"]

    def near(self):
        """a small rotation, different ones reaching different rows"""
        k = min(2, (self.o["n"] - 1) // 2)
        return self.r.randint(-k, k)

    def expr(self, d, leaves, depth=3):
        """random expression of degree at most d"""
        r = self.r
        if depth == 0 or r.random() < 0.15:
            if d == 0 or r.random() < 0.2: return C(r.randint(-3, 3))
            t, i = r.choice(leaves)
            return Q(t, i, r.randint(-self.o["maxrot"], self.o["maxrot"]) if r.random() < 0.6 else 0)
        k = r.choice(["add", "sub", "mul", "mul", "neg", "scale", "q"])
        if k == "q" and d > 0:
            t, i = r.choice(leaves)
            return Q(t, i, r.randint(-self.o["maxrot"], self.o["maxrot"]))
        if k == "mul" and d >= 2:
            d1 = r.randint(1, d - 1)
            return MUL(self.expr(d1, leaves, depth - 1), self.expr(d - d1, leaves, depth - 1))
        if k == "neg": return NEG(self.expr(d, leaves, depth - 1))
        if k == "scale": return SCALE(self.expr(d, leaves, depth - 1), r.randint(-2, 3))
        return {"k": "sub" if k == "sub" else "add", "a": self.expr(d, leaves, depth - 1), "b": self.expr(d, leaves, depth - 1)}

    def affine(self, leaves, depth=2):
        r = self.r
        if depth == 0: 
            if r.random() < 0.3: return C(r.randint(-2, 2))
            t, i = r.choice(leaves)
            return Q(t, i, self.near())
        k = r.choice(["add", "sub", "neg", "scale", "leaf"])
        if k == "leaf": return self.affine(leaves, 0)
        if k == "neg": return NEG(self.affine(leaves, depth - 1))
        if k == "scale": return SCALE(self.affine(leaves, depth - 1), r.randint(-2, 2))
        return {"k": k, "a": self.affine(leaves, depth - 1), "b": self.affine(leaves, depth - 1)}

    def build(self):
        o, r = self.o, self.r
        n = o["n"]
        zoned = o["copy_cols"] > 0 or o["lookups"] > 0
        t = min(o["t"], n - 1) if zoned else 0
        u = o["u"] if o["u"] is not None else (n - t if zoned else r.randint(0, n - 1))
        u = min(u, n - 1)
        usable = u
        val = lambda: r.choice(o["pool"]) if o["pool"] else r.randint(0, o["vals"])
        fill = lambda k: r.choice(o["pool"]) if o["pool"] else r.randint(0, k)
        def column():
            # columns whose polynomials are zero, constant, or of full degree
            st = r.choice(["rand", "rand", "zero", "const", "one"]) if o["styles"] else "rand"
            if st == "zero": return [0] * n
            if st == "const": return [val()] * n
            if st == "one":
                c = [0] * n
                c[r.choice([0, n - 1, r.randrange(n)])] = max(1, val())
                return c
            return [val() for _ in range(n)]
        base = {"w": [column() for _ in range(o["nw"])], "i": [column() for _ in range(o["ni"])], "f": [column() for _ in range(o["nf"])]}
        cols = {k: [list(c) for c in v] for k, v in base.items()}
        perm = [False] * o["nw"]
        rows = list(range(n))
        removed = []
        if o["removed"]:
            if zoned:
                zone = list(range(u + 1, n))
                removed = sorted(r.sample(zone, min(o["removed"], len(zone))))
            else:
                removed = sorted(r.sample(rows, min(o["removed"], n - 1)))
        leaves = [("w", i) for i in range(o["nw"])] + [("i", i) for i in range(o["ni"])] + [("f", i) for i in range(o["nf"])]
        gates, meta = [], []
        for g in range(o["gates"]):
            use_sel = o["selectors"] and r.random() < 0.7
            d = max(1, o["maxdeg"] - (1 if use_sel else 0))
            d = d if g == 0 else r.randint(1, d)
            f = self.expr(d, leaves)
            if g == 0 and deg(f) + (1 if use_sel else 0) < 2:
                f = MUL(Q(*r.choice(leaves), r.randint(-1, 1)), Q(*r.choice(leaves)))
            rr = r.randint(-o["maxrot"], o["maxrot"])
            oi = len(cols["w"])
            # flat: every gate is the zero polynomial
            out = [fill(9) for _ in range(n)] if not o["flat"] else [ev(f, cols, i - rr, n) for i in range(n)]
            perm.append(False)
            body = SUB(f, Q("w", oi, rr)) if r.random() < 0.5 else SUB(Q("w", oi, rr), f)
            if use_sel:
                si = len(cols["f"])
                sel = [0] * n
                for i in range(u if zoned else n):
                    sel[i] = 1 if r.random() < 0.7 else 0
                if not any(sel): sel[0] = 1
                cols["f"].append(sel)
                e = MUL(Q("f", si), body) if r.random() < 0.5 else MUL(body, Q("f", si))
                act = [i for i in rows if sel[i]]
            else:
                e = body
                act = [i for i in rows if i not in removed]
            cols["w"].append(out)
            for i in act:
                out[(i + rr) % n] = ev(f, cols, i, n)
            gates.append(e)
            meta.append({"out": oi, "rot": rr, "act": [i for i in act if i not in removed], "deg": deg(e)})
        # lookups: the first column of the sum is solved for
        lookups, tabs, lmeta = [], [], []
        for l in range(o["lookups"]):
            w = r.randint(1, o["width"])
            use_sel = r.random() < o["lookup_sel"]   # then the tables are its own: they get a row of zeros
            tidx, trot = [], []
            for k in range(w):
                if tabs and not use_sel and r.random() < 0.2:
                    tidx.append(r.randrange(len(tabs)))
                else:
                    tabs.append([fill(2 * o["vals"]) for _ in range(n)])
                    tidx.append(len(tabs) - 1)
                trot.append(self.near() if r.random() < 0.5 else 0)
            choice = [r.randrange(u) for _ in range(n)]
            exprs, lm = [], []
            sel, si = None, None
            if use_sel:
                # a selector column switches the lookup off: the table then has to contain zeros
                si = len(cols["f"])
                sel = [1 if r.random() < 0.6 else 0 for _ in range(n)]
                cols["f"].append(sel)
                z = r.randrange(u)
                for k in range(w): tabs[tidx[k]][(z + trot[k]) % n] = 0
            for k in range(w):
                rest = self.affine(leaves) if o["lookup_deg"] == 1 else self.expr(o["lookup_deg"], leaves)
                s = r.choice([1, -1])
                rr = self.near()
                li = len(cols["w"])
                c = [fill(9) for _ in range(n)]
                cols["w"].append(c)
                perm.append(False)
                for i in range(u):
                    c[(i + rr) % n] = s * (tabs[tidx[k]][(choice[i] + trot[k]) % n] - ev(rest, cols, i, n))
                q = Q("w", li, rr)
                e = ADD(q, rest) if s == 1 and r.random() < 0.5 else ADD(rest, q) if s == 1 else SUB(rest, q)
                exprs.append(MUL(Q("f", si), e) if sel else e)
                lm.append({"col": li, "rot": rr})
            lookups.append({"exprs": exprs, "tables": [{"i": tidx[k], "r": trot[k]} for k in range(w)]})
            lmeta.append(lm)
        # extra columns nobody queries
        for _ in range(o["extra_unused"]):
            cols["w"].append([val() for _ in range(n)])
            perm.append(False)
        # copy constraints among equal cells
        sigma, deltas = [], []
        if o["copy_cols"]:
            idx = list(range(len(cols["w"])))
            pc = sorted(r.sample(idx, min(o["copy_cols"], len(idx))))
            while len(pc) < o["copy_cols"]:
                cols["w"].append([val() for _ in range(n)])
                perm.append(False)
                pc.append(len(cols["w"]) - 1)
            for c in pc: perm[c] = True
            groups = {}
            for k, c in enumerate(pc):
                for row in range(u):
                    if r.random() < o["sparse"]: groups.setdefault(cols["w"][c][row], []).append((k, row))
            nxt = {}
            for v, cells in groups.items():
                r.shuffle(cells)
                i = 0
                while i < len(cells):
                    m = min(len(cells) - i, r.choice([1, 2, 2, 3, 4, 6]))
                    cyc = cells[i:i + m]
                    for a in range(m): nxt[cyc[a]] = cyc[(a + 1) % m]
                    i += m
            for k in range(len(pc)):
                sigma.append([list(nxt.get((k, row), (k, row))) for row in range(n)])
            deltas = [1] + [f"r{100 + i}" for i in range(1, len(pc))]
        if o["const_gate"]:
            gates.insert(0, C(0))
        nm = {}
        pool = list(LABELS)
        def labels(k, m):
            if o["labels"]:
                p = list(pool); r.shuffle(p)
                if r.random() < 0.4:
                    # labels that are close to one another come first
                    f = list(r.choice(FAMILIES)); r.shuffle(f)
                    p = f + [x for x in p if x not in f]
                while len(p) < m: p.append("%s%d" % (k, len(p)))
                return p[:m]
            return [f"{k}{i:02d}" for i in range(m)]
        lw, li, lf, lt = labels("w", len(cols["w"])), labels("i", len(cols["i"])), labels("f", len(cols["f"])), labels("t", len(tabs))
        circ = {
            "n": n, "zscale": o["zscale"], "removed": removed, "u": u, "usable": usable,
            "wit": [{"label": lw[i], "perm": perm[i], "rows": cols["w"][i]} for i in range(len(cols["w"]))],
            "inst": [{"label": li[i], "perm": False, "rows": cols["i"][i]} for i in range(len(cols["i"]))],
            "fix": [{"label": lf[i], "perm": False, "rows": cols["f"][i]} for i in range(len(cols["f"]))],
            "tab": [{"label": lt[i], "perm": False, "rows": tabs[i]} for i in range(len(tabs))],
            "gates": gates, "lookups": lookups, "sigma": sigma, "deltas": deltas,
            # with a placeholder PermutationInfo there is no row u: blinding starts at the first unusable row
            "qblind": [0 if (i <= u - (1 if o["perm_info"] and not o["copy_cols"] else 0) or not zoned) else 1 for i in range(n)],
        }
        pi = o["perm_info"]
        if pi and not o["copy_cols"]: circ["perm_info"] = pi
        self.meta = {"gates": meta, "lookups": lmeta}
        return circ


def queried(e, out=None):
    out = [] if out is None else out
    if e["k"] == "q": out.append((e["t"], e["i"], e["r"]))
    for s in ("a", "b"):
        if s in e: queried(e[s], out)
    return out


def maxabs(circ):
    """largest magnitude met while evaluating: the specification works with 32-bit integers"""
    n, m = circ["n"], 0
    cols = {"w": [c["rows"] for c in circ["wit"]], "i": [c["rows"] for c in circ["inst"]], "f": [c["rows"] for c in circ["fix"]]}
    def go(e, row):
        nonlocal m
        k = e["k"]
        if k == "c": v = e["v"]
        elif k == "q": v = cols[e["t"]][e["i"]][(row + e["r"]) % n]
        elif k == "neg": v = -go(e["a"], row)
        elif k == "scale": v = go(e["a"], row) * e["v"]
        else:
            a, b = go(e["a"], row), go(e["b"], row)
            v = a + b if k == "add" else a - b if k == "sub" else a * b
        m = max(m, abs(v))
        return v
    for row in range(n):
        for g in circ["gates"]: go(g, row)
        for l in circ["lookups"]:
            for e in l["exprs"]: go(e, row)
    return m


def represent(rng, c, meta):
    """the same rows reached by rotations of the other sign, each always written the same way"""
    n = c["n"]
    way = [0] + [rng.choice([k, k - n]) for k in range(1, n)]
    seen = set()
    def walk(e):
        if id(e) in seen: return
        seen.add(id(e))
        if e["k"] == "q": e["r"] = way[e["r"] % n]
        for s in ("a", "b"):
            if s in e: walk(e[s])
    for e in c["gates"] + [e for l in c["lookups"] for e in l["exprs"]]: walk(e)
    for l in c["lookups"]:
        for t in l["tables"]: t["r"] = way[t["r"] % n]
    for m in meta["gates"] + [m for l in meta["lookups"] for m in l]: m["rot"] = way[m["rot"] % n]


def make(rng, **kw):
    while True:
        g = Gen(rng, **kw)
        c = g.build()
        if g.o["repr"] if "repr" in kw else rng.random() < 0.2: represent(rng, c, g.meta)
        if kw.get("pool") or maxabs(c) < 2 ** 28:
            return c, g.meta


def variety(rng, size="quick"):
    """random shape parameters over everything the generator knows"""
    n = rng.choice([8, 8, 16, 16, 32])
    kind = rng.choice(["gates", "copy", "lookup", "both", "both", "many", "zh", "flat", "chunks", "wide", "far", "deep"])
    kw = dict(n=n, nw=rng.randint(1, 4), ni=rng.randint(0, 2), nf=rng.randint(0, 2), gates=rng.randint(1, 4),
              maxdeg=rng.choice([2, 3, 3, 4, 5]), t=rng.choice([1, 2, 3, 4, 5]), extra_unused=rng.randint(0, 2))
    if kw["maxdeg"] > 3: kw["vals"] = 2
    if kind == "copy": kw.update(copy_cols=rng.randint(1, 7))
    if kind == "lookup": kw.update(lookups=rng.randint(1, 3), width=3, perm_info=rng.choice(["", "", "dummy", "empty"]))
    if kind == "both": kw.update(copy_cols=rng.randint(1, 6), lookups=rng.randint(1, 3), width=3)
    if kind == "many": kw.update(gates=rng.randint(8, 20), copy_cols=rng.randint(5, 12), n=16, lookups=rng.randint(0, 2))
    if kw.get("lookups"): kw.update(lookup_deg=rng.choice([1, 1, 2, 3]), lookup_sel=rng.choice([0, 0.4]))
    if kind == "zh": kw.update(removed=rng.randint(1, 5), selectors=False, copy_cols=rng.choice([0, 0, 3, 5]),
                               lookups=rng.choice([0, 0, 1]), t=5, maxdeg=rng.choice([2, 3]))
    if rng.random() < 0.3: kw.update(styles=True)
    if kind == "flat": kw.update(flat=True, styles=True, vals=rng.choice([0, 0, 2]), maxdeg=rng.choice([2, 3]), copy_cols=rng.choice([0, 0, 2]), lookups=rng.choice([0, 0, 1]))
    # many grand products
    if kind == "chunks": kw.update(n=rng.choice([8, 16]), gates=rng.randint(1, 2), maxdeg=2, copy_cols=rng.randint(9, 26), t=rng.choice([1, 2, 3]), lookups=rng.choice([0, 0, 0, 1]), sparse=rng.choice([1.0, 0.3]))
    # many or wide lookups
    if kind == "wide": kw.update(n=rng.choice([8, 16]), maxdeg=2, gates=1, lookups=rng.choice([1, 2, 5, 11]), width=rng.choice([4, 8, 12]), copy_cols=rng.choice([0, 0, 3]), t=rng.choice([2, 3]))
    # rotations over the whole domain
    if kind == "far": kw.update(maxrot=n - 1, nw=rng.randint(2, 6), gates=rng.randint(2, 6), maxdeg=rng.choice([2, 3]), n=rng.choice([4, 8, 16, 64]), copy_cols=0)
    if kind == "far": kw["maxrot"] = kw["n"] // 2 - 1
    # many quotient chunks
    if kind == "deep": kw.update(n=rng.choice([4, 8]), gates=1, maxdeg=rng.choice([6, 9, 12, 15]), vals=1, nw=2, copy_cols=rng.choice([0, 0, 2, 9]), t=1, lookups=0, maxrot=1)
    if rng.random() < 0.25: kw.update(repr=True)
    if rng.random() < 0.1: kw.update(zscale=rng.choice([2, 3, -1]))
    # a selector-free gate needs its rows enforced everywhere that is not removed: fine, outputs are dedicated
    return kind, kw


def mixed(rng, **over):
    """every dimension of a circuit drawn on its own"""
    n = rng.choice([4, 4, 8, 8, 16, 32])
    kw = dict(n=n, nw=rng.choice([1, 2, 4]), ni=rng.choice([0, 1, 2, 3]), nf=rng.choice([0, 1, 2, 3]), gates=rng.choice([1, 2, 3, 5, 7]), maxdeg=rng.choice([2, 3, 4, 7]),
              copy_cols=rng.choice([0, 1, 1, 3, 6, 11]), lookups=rng.choice([0, 1, 2, 4]), width=rng.choice([1, 2, 3]), t=min(rng.choice([1, 2, 3, 4, 5]), n - 1),
              maxrot=rng.choice([0, 1, 3]) if n >= 8 else rng.choice([0, 1]), lookup_deg=rng.choice([1, 2, 3]), lookup_sel=rng.choice([0, 0.5]), styles=rng.random() < 0.2,
              removed=rng.choice([0, 0, 1, 2, 3]), extra_unused=rng.choice([0, 1]), repr=rng.random() < 0.3, zscale=rng.choice([1, 1, 1, 2, -1]))
    kw["vals"] = 1 if kw["maxdeg"] > 4 else 2
    if kw["removed"]: kw["selectors"] = False
    if n == 4: kw["gates"] = min(kw["gates"], 3)
    kw.update(over)
    return kw


def features(c):
    """what kind of circuit this is, coarsely"""
    few = lambda k, m: min(k, m)
    rots = {"w": set(), "i": set(), "f": set()}
    for e in c["gates"] + [e for l in c["lookups"] for e in l["exprs"]]:
        for q in queried(e): rots[q[0]].add(q[2])
    k = len(c["sigma"])
    f = {"n": few(c["n"], 32), "removed": few(len(c["removed"]), 2), "copied": k if k < 2 else 2 + (k > 4) + (k > 9), "lookups": few(len(c["lookups"]), 3),
         "width": few(max([len(l["exprs"]) for l in c["lookups"]], default=0), 3), "inst": few(len(c["inst"]), 3), "fix": few(len(c["fix"]), 3), "gates": few(len(c["gates"]), 5),
         "deg": few(max([deg(e) for e in c["gates"]], default=0), 5), "in": few(max([deg(e) for l in c["lookups"] for e in l["exprs"]], default=0), 3),
         "trot": any(t["r"] for l in c["lookups"] for t in l["tables"]), "t": few(c["n"] - c["u"], 4) if k or c["lookups"] else 0, "scaled": c.get("zscale", 1) != 1}
    for t in "wif": f["rot" + t] = ("-" if any(r < 0 for r in rots[t]) else "") + ("+" if any(r > 0 for r in rots[t]) else "")
    return sorted(f.items())


def covering(rng, k, pool=None, order=3, **over):
    """k circuits that show as many combinations of features as possible"""
    import itertools
    cands = [make(rng, **mixed(rng, **over)) for _ in range(pool or 8 * k)]
    combos = [frozenset(itertools.combinations(features(c), order)) for c, m in cands]
    seen, out, left = set(), [], set(range(len(cands)))
    while left and len(out) < k:
        # of a handful, the one that adds most
        b = max(rng.sample(sorted(left), min(24, len(left))), key=lambda i: len(combos[i] - seen))
        left.remove(b)
        seen |= combos[b]
        out.append(cands[b])
    return out


def huge_pool(rng):
    """values that agree in their low, middle or high parts"""
    x = rng.randrange(2 ** 20)
    return [x, x + 2 ** 32, x + 2 ** 64, x + 2 ** 128, x + 2 ** 200, 0, 1, rng.randrange(2 ** 250), 2 ** 64, 2 ** 192 + x]


RESIDUES = [46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271]


def residue(*circs):
    """a modulus under which different cells stay different"""
    vals = {v for c in circs for k in ("wit", "inst", "fix", "tab") for col in c[k] for v in col["rows"]}
    for q in RESIDUES:
        if len({v % q for v in vals}) == len(vals): return q
    return None


def reduced(c, q):
    c = copy.deepcopy(c)
    for k in ("wit", "inst", "fix", "tab"):
        for col in c[k]: col["rows"] = [v % q for v in col["rows"]]
    def go(x):
        if isinstance(x, dict): return {k: go(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [go(v) for v in x]
        return x % q if isinstance(x, int) and abs(x) >= 2 ** 30 else x
    c["gates"], c["lookups"] = go(c["gates"]), go(c["lookups"])
    return c


BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
F62 = 4611685318347718657


def root(m, n):
    """an element of order n (a power of two)"""
    x = 2
    while pow(x, (m - 1) // 2, m) == 1: x += 1
    return pow(x, (m - 1) // n, m)


def wire(c, field):
    """literals the harness can read"""
    m = BLS if field == "BLS" else F62
    def go(x):
        if isinstance(x, dict): return {k: go(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [go(v) for v in x]
        return str(x % m) if isinstance(x, int) and abs(x) >= 2 ** 60 else x
    return go(c)
