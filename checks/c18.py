import c07

SOLVERS = ["minisat", "minisat-simp", "glucose", "cadical", "batsat", "sim"]


class CHECK(c07.CHECK):
    prop, pkg, bin, trace = "C18", "slv", "msat", "T_MaxSat"

    def scenarios(self):
        return [self.history() for _ in range(1500 if self.quick() else 40000)]

    def solve(self):
        r = self.rng
        d = {"op": "solve", "s": r.choice(SOLVERS), "enc": r.choice(["gte", "adder"]), "how": r.choice(["inst", "inst", "inst", "reind", "dir", "raw"]),
             "pre": r.random() < 0.3}
        if d["how"] == "raw":
            n = r.choice([0, 1, 2, 3, 4, 5])
            d["cls"] = [self.lits(r.choice([0] + [1] * 4 + [2, 3, 3] * 4)) for _ in range(r.choice([0, 0, 1, 2, 4, 6]))]
            d["l"] = self.lits(n)
            d["w"] = [self.weight() for _ in range(n)]
        return d

    def history(self):
        r = self.rng
        self.nv = r.randint(1, 5)
        self.u = r.choice([1, 1, 2, 3, 7])
        self.mix = r.choice([0, 0, 0.2, 0.6, 1])
        ops, pool = [], [self.clause() for _ in range(3)]
        for _ in range(r.randint(1, 12)):
            x = r.random()
            if x < 0.3:
                ops.append({"op": "cs", "c": self.constr()})
            elif x < 0.6:
                ops.append({"op": "soft", "c": r.choice(pool) if r.random() < 0.2 else self.clause(), "w": self.weight()})
            elif x < 0.8:
                ops.append({"op": "lit", "l": self.lits(1)[0], "w": self.weight() * r.choice([1, 1, -1])})
            elif x < 0.85:
                ops.append({"op": "off", "w": r.randint(-9, 9)})
            else:
                ops.append(self.solve())
        # the same instance with different solvers and encodings
        ops += [self.solve() for _ in range(r.choice([1, 2, 3]))]
        return {"nv": self.nv, "ops": ops}
