from slvgen import *


class CHECK(SolverCheck):
    prop = "C10"

    models = {"quick": [("MC_Solver", {"B": b, "Depth": 3}) for b in ("minisat", "sim-minisat", "kissat")],
              "thorough": [("MC_Solver", {"B": b, "Depth": 4}) for b in ("minisat", "sim-minisat", "kissat")]}

    def scenarios(self):
        q = self.quick()
        s = self.short()
        for b in OTHERS + KISSAT:
            s += [self.hist(b) for _ in range((600 if b == "cadical" else 350) * (1 if q else 12))]
        return s

    def short(self):
        """Short histories of the specification, observed after every call"""
        r, q = self.rng, self.quick()
        if q:
            bs = self.behaviours([("MC_Solver", {"B": b, "Gen": True, "Depth": 6}, 40, 8) for b in ("minisat", "kissat")])
        else:
            bs = self.behaviours([("MC_Solver", {"B": b, "Gen": True, "Depth": 4}) for b in ("minisat", "kissat")] +
                                 [("MC_Solver", {"B": b, "Gen": True, "Depth": 8}, 300, 10) for b in ("minisat", "kissat")])
        out = []
        for b in OTHERS + KISSAT:
            src = [x for x in bs if (x["b"] == "kissat") == (b == "kissat")]
            for x in r.sample(src, min(len(src), 120 if q else 4000)):
                ops = []
                for o in x["ops"]:
                    ops.append(dict(o, how=r.randrange(5) if b in ("kissat", "glucose-simp") else r.randrange(9)) if o["o"] == "add" else o)
                    if o["o"] == "solve" or r.random() < 0.2:
                        c = [{"o": "vals", "h": r.randint(1, 3)}] + ([] if b in NOASS else [{"o": "core"}])
                        r.shuffle(c)
                        ops += c
                out.append({"b": b, "nv": 2, "ops": ([{"o": "freeze", "v": v} for v in (1, 2)] if b in FREEZE else []) + ops + [{"o": "stats"}]})
        return out

    def hist(self, b):
        r = self.rng
        nv = r.choice([1, 2, 3, 4, 4, 5])
        self.m = r.getrandbits(nv + 1)
        self.cv = nv if r.random() < 0.7 else r.randint(1, nv)
        ops = []
        n = r.choice([3, 6, 10, 16, 24])
        if r.random() < 0.3:
            ops += self.start(b, nv)
            n += len(ops)
        if b in FREEZE:
            ops += [{"o": "freeze", "v": v} for v in range(1, nv + 1) if r.random() < 0.6]
        while len(ops) < n:
            x = r.random()
            if x < 0.3:
                ops.append(self.add(b, nv))
            elif x < 0.6:
                ops.append(self.solve(b, nv))
            elif x < 0.78:
                ops.append({"o": "vals", "h": r.randint(1, nv + 2)})
            elif x < 0.95:
                if b not in NOASS:
                    ops.append({"o": "core"})
            elif x < 0.97:
                ops.append({"o": "reserve", "v": r.randint(1, nv + 2)})
            elif len(ops) > 3:
                ops.append({"o": "stats"})
        return {"b": b, "nv": nv, "ops": ops}
