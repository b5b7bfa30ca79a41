import vt

PBE = ["def", "adder", "invadder", "dbladder", "dblgte", "dbldpw", "dblmix", "cardtot", "carddbl", "gte", "invgte", "dpw", "invdpw"]
CE = ["def", "tot", "inv", "dbl", "dbl2"]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C04", "inst", "oneshot", "T_OneShot"

    def scenarios(self):
        r, out = self.rng, []
        # cardinality: all sizes and bounds for every encoder
        for enc in CE:
            for raw in (False, True):
                if enc == "def" and raw:
                    continue
                for op in ("ub", "lb", "eq"):
                    for n in range(0, 6 if self.quick() else 9):
                        for b in range(0, n + 3):
                            l = self.lits(n, max(n, 1), 0.0)
                            out.append({"nv": max(n, 1), "ops": [{"op": "constr", "enc": enc, "raw": raw, "c": {"k": "card", "op": op, "l": l, "w": [], "b": b}}]})
        fam = [[], [1], [2], [0], [1, 1], [2, 2], [1, 2], [0, 1], [0, 0], [3, 3, 3], [1, 2, 3], [2, 2, 3], [0, 2, 5], [1, 1, 1, 1], [2, 4, 6], [1, 2, 4, 8],
               [3, 5, 7, 2], [-1], [-2, 3], [-1, -1, 2], [1, 1, 5], [6, 6, 6, 6], [5, 5, 5, 1]]
        for enc in PBE:
            for raw in (False, True):
                for op in ("ub", "lb", "eq"):
                    for ws in fam:
                        tot, neg = sum(abs(x) for x in ws), sum(x for x in ws if x < 0)
                        bs = list(range(neg - 2, neg + tot + 3))
                        if self.quick():
                            bs = sorted(set(r.sample(bs, 2) + [r.choice([neg - 1, neg, neg + tot, neg + tot + 1, 0])]))
                        for b in bs:
                            n = len(ws)
                            l = self.lits(n, max(n, 1), 0.15)
                            out.append({"nv": max(n, 1), "ops": [{"op": "constr", "enc": enc, "raw": raw, "c": {"k": "pb", "op": op, "l": l, "w": ws, "b": b}}]})
        if self.quick():
            pass
        for _ in range(700 if self.quick() else 20000):
            out.append(self.history())
        for _ in range(400 if self.quick() else 5000):
            nv = 4
            out.append({"nv": nv, "ops": [self.impl(nv) for _ in range(6)]})
        return out

    def lits(self, n, nv, dup):
        r = self.rng
        if r.random() < dup or n > nv:
            return [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(n)]
        return [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), n)]

    def con(self, nv, maxn=7):
        r = self.rng
        n = r.randint(0, maxn)
        l = self.lits(n, nv, 0.4)
        op = r.choice(["ub", "lb", "eq"])
        if r.random() < 0.35:
            return {"k": "card", "op": op, "l": l, "w": [], "b": r.randint(0, n + 1)}
        s = r.random()
        if s < 0.3:
            c = r.choice([1, 2, 3, 4, 7])
            w = [c] * n
        elif s < 0.6:
            w = [r.choice([0, 1, 1, 2, 3, 4, 5, 8, 13]) for _ in range(n)]
        else:
            w = [r.randint(-6, 9) for _ in range(n)]
        tot, neg = sum(abs(x) for x in w), sum(x for x in w if x < 0)
        b = r.choice([neg, neg + tot, neg + 1, neg + tot - 1, r.randint(neg - 1, neg + tot + 1), r.randint(neg, neg + tot)])
        return {"k": "pb", "op": op, "l": l, "w": w, "b": b}

    def history(self):
        r = self.rng
        nv = r.randint(1, 6)
        ops = []
        for _ in range(r.randint(1, 3)):
            c = self.con(nv)
            ops.append({"op": "constr", "enc": r.choice(CE if c["k"] == "card" else PBE), "raw": r.random() < 0.4, "c": c})
        return {"nv": nv, "gap": r.choice([0, 0, 3]), "ops": ops}

    def impl(self, nv):
        r = self.rng
        if r.random() < 0.5:
            f = r.choice(["ll", "lc", "ql", "qc", "lq", "cl", "cc", "cq", "qq"])

            def side(t):
                return [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(1 if t == "l" else r.randint(0, 3))]
            return {"op": "impl", "f": f, "a": side(f[0]), "b": side(f[1])}
        c = self.con(nv - 1, 4)
        lit = r.choice([-1, 1]) * (nv if r.random() < 0.8 else r.randint(1, nv))
        return {"op": "reify", "c": c, "lit": lit, "fwd": r.random() < 0.5}
