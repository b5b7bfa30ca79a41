import vt


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C08", "inst", "fio", "T_RoundTrip"

    def scenarios(self):
        return [self.instance() for _ in range(2500 if self.quick() else 60000)]

    def lits(self, n):
        r = self.rng
        return [r.choice([-1, 1]) * r.randint(1, self.nv) for _ in range(n)]

    def constr(self, clausal):
        r = self.rng
        k = "cl" if clausal else r.choice(["cl", "card", "pb", "pb"])
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.7 else r.randint(1, 3)
        if k == "cl":
            n = max(n, 1) if r.random() < 0.85 else n
            return {"k": "cl", "op": "lb", "l": self.lits(n), "w": [1] * n, "b": 1}
        op = r.choice(["ub", "lb", "eq"])
        if k == "card":
            return {"k": "card", "op": op, "l": self.lits(n), "w": [1] * n, "b": r.randint(0, n + 1)}
        w = [r.choice([-3, -2, -1, 0, 1, 1, 2, 3, 7]) for _ in range(n)]
        lo, hi = sum(x for x in w if x < 0), sum(x for x in w if x > 0)
        return {"k": "pb", "op": op, "l": self.lits(n), "w": w, "b": r.randint(lo - 1, hi + 1)}

    def instance(self):
        r = self.rng
        self.nv = r.randint(1, 4)
        ty = r.choice("SOMM")
        n = {"S": 0, "O": 1, "M": r.choice([0, 1, 2, 2, 3])}[ty]
        opb = r.random() < 0.5
        refuse = r.random() < 0.12
        cs = [self.constr(not opb and not refuse) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        softs = []
        for _ in range(r.choice([0, 1, 2, 3, 5]) if n else 0):
            m = r.choice([1, 1, 1, 0]) if opb and not refuse else r.choice([0, 1, 1, 2, 2, 3])
            softs.append({"c": self.lits(m), "w": r.choice([1, 1, 1, 2, 3, 10, r.randint(0, 99)]), "k": r.randrange(n)})
        unit = r.random() < 0.3
        if unit:
            for s in softs:
                s["w"] = 1
        scale = r.choice([1, 1, 1, 1000003, 2 ** 32, 2 ** 45])
        fmt = "opb" if opb else {"S": "cnf", "O": "wcnf", "M": "mcnf"}[ty]
        lines = r.random() < 0.25 and all(c["k"] == "cl" or opb for c in cs) and all(len(s["c"]) == 1 or not opb for s in softs)
        if lines:
            scale = 1
            if not opb:
                softs = [s for s in softs if s["w"] > 0]
        path = r.random() < 0.4
        return {"kind": "rt", "nv": self.nv, "ty": ty, "n": n, "nf": r.choice([0, 0, 0, r.randint(0, 9)]), "cs": cs, "softs": softs,
                "off": [r.choice([0, 0, r.randint(-5, 5)]) for _ in range(n)], "fmt": fmt, "first": r.choice([0, 1, 1, 1, 5]),
                "vol": 0 if r.random() < (0.9 if path else 0.98) else r.choice([300, 3000, 12000]),
                "noneg": r.random() < 0.5, "scale": scale, "lines": lines, "path": path,
                "ext": r.choice(["", ".txt", ".gz", ".bz2", ".xz", ".GZ"]) if path else ""}
