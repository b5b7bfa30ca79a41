import vt
# inprocessing is scheduled early so that small formulas reach it
EAGER = [("elimint", 1), ("inprobeint", 1), ("reduceint", 2), ("restartint", 2), ("instantiate", 1), ("chronoalways", 1), ("restoreall", 2),
         ("shrink", 0), ("otfs", 0), ("minimize", 0), ("reverse", 1), ("phase", 0), ("stabilizeonly", 1), ("vivifyinst", 0), ("congruence", 0),
         ("sweep", 0), ("elimbackward", 0), ("fastelim", 0), ("luckyearly", 0), ("preprocesslight", 0), ("vivify", 0), ("probehbr", 0),
         ("decompose", 1), ("compactint", 1), ("condition", 1), ("conditionint", 1), ("cover", 1), ("ternary", 1), ("transred", 1),
         ("block", 1), ("lucky", 0), ("walk", 0), ("rephaseint", 2), ("chrono", 2), ("ilb", 1), ("flush", 1), ("flushint", 1)]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C19", "slv", "tracer", "T_Tracer"

    models = {"quick": [("MC_Tracer", {"Steps": 1})], "thorough": [("MC_Tracer", {"Steps": 2}), ("MC_Tracer", {"Steps": 1, "Ants": True, "Adds": 3})]}

    def calls(self):
        """Call histories of the specification"""
        q = self.quick()
        out = self.behaviours([("MC_Tracer", {"Gen": True, "Depth": 3 if q else 4, "NV": 1, "Ants": a}) for a in (False, True)] +
                              [("MC_Tracer", {"Gen": True, "Depth": 10, "NV": nv, "Ants": a}, 60 if q else 1500, 12) for a in (False, True) for nv in (2, 3)])
        for sc in out:
            sc["mode"] = "trace"
        return out

    def scenarios(self):
        n = 600 if self.quick() else 12000
        return self.calls() + [self.history() for _ in range(n)] + [self.file() for _ in range(n)]

    def clause(self, nv, k=None):
        r = self.rng
        k = k or r.choice([1, 2, 2, 3, 3, 3, 3, 4])
        c = [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(k, nv))]
        if r.random() < 0.04:
            c.append(r.choice(c))
        if r.random() < 0.02:
            c.append(-c[0])
        return c if r.random() > 0.004 else []

    def php(self, p, h):
        v = lambda i, j: i * h + j + 1
        return [[v(i, j) for j in range(h)] for i in range(p)] + \
               [[-v(a, j), -v(b, j)] for j in range(h) for a in range(p) for b in range(a)]

    def formula(self, nv):
        r = self.rng
        x = r.random()
        if x < 0.12:
            h = r.randint(2, 3)
            return self.php(h + 1, h), (h + 1) * h
        if x < 0.3:
            # parity chains and gates: equivalences and functional dependencies
            cs = []
            for v in range(3, nv + 1):
                a, b = r.choice([-1, 1]) * (v - 1), r.choice([-1, 1]) * r.randint(1, v - 2)
                cs += r.choice([[[v, a, -b], [v, -a, b], [-v, a, b], [-v, -a, -b]], [[-v, a], [-v, b], [v, -a, -b]], [[-v, a], [v, -a]]])
            return cs, nv
        m = r.choice([0.6, 2, 3.5, 4.3, 5, 6])
        k = r.choice([None, None, 3])
        return [self.clause(nv, k) for _ in range(int(m * nv))], nv

    def history(self):
        r = self.rng
        nv = r.randint(2, 9)
        cs, nv = self.formula(nv)
        if r.random() < 0.5:
            r.shuffle(cs)
        ops = []
        if r.random() < 0.35:
            ops.append({"op": "conf", "name": r.choice(["plain", "sat", "unsat", "default"])})
        if r.random() < 0.5:
            for k, v in r.sample(EAGER, r.randint(2, 14)):
                ops.append({"op": "opt", "name": k, "val": v})
        n = r.choice([1, 1, 1, 2, 3])
        for _ in range(n):
            ops.insert(r.randint(0, len(ops)), {"op": "connect", "ants": r.random() < 0.6})
        on = list(range(n))
        lits = lambda k: [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(k, nv))]
        for c in cs:
            ops.append({"op": "add", "c": c})
            if r.random() < 0.06:
                self.query(ops, lits)
            if r.random() < 0.02 and on:
                ops.append({"op": "peek", "i": r.choice(on)})
        for _ in range(r.randint(1, 7)):
            x = r.random()
            if x < 0.3:
                for _ in range(r.randint(1, 3)):
                    ops.append({"op": "add", "c": self.clause(nv + r.choice([0, 0, 1]))})
            if x > 0.92 and on:
                i = on.pop(r.randrange(len(on)))
                ops.append({"op": "disconnect", "i": i, "wrong": False})
            self.query(ops, lits)
            if on and r.random() < 0.3:
                ops.append({"op": "peek", "i": r.choice(on)})
        if on and r.random() < 0.1:
            ops.append({"op": "disconnect", "i": on[0], "wrong": r.random() < 0.7})
            self.query(ops, lits)
        return {"mode": "trace", "ops": ops}

    def query(self, ops, lits):
        r = self.rng
        if r.random() < 0.15:
            ops.append({"op": "tmp", "c": lits(r.randint(1, 3))})
        if r.random() < 0.12:
            ops.append({"op": "climit", "k": r.choice(["conflicts", "decisions"]), "n": r.randint(0, 3)})
        a = lits(r.randint(0, 4)) if r.random() < 0.6 else []
        if a and r.random() < 0.05:
            a.append(a[0])
        if a and r.random() < 0.05:
            a.append(-a[0])
        if r.random() < 0.15:
            ops.append({"op": "simplify", "a": a, "n": r.randint(0, 3)})
        else:
            ops.append({"op": "solve", "a": a})

    def file(self):
        r = self.rng
        cs, nv = self.formula(r.randint(3, 9))
        if r.random() < 0.7:
            cs += [self.clause(nv) for _ in range(3 * nv)]
        fmt = r.choice(["drat", "lrat", "frat", "fratd", "veripb", "veripb", "idrup", "lidrup"])
        ops = [{"op": "add", "c": c} for c in cs]
        if fmt in ("idrup", "lidrup"):
            for _ in range(r.randint(0, 6)):
                i = r.randint(0, len(ops))
                ops[i:i] = [self.fsolve(nv)] + [{"op": "add", "c": self.clause(nv)} for _ in range(r.choice([0, 0, 1, 2]))]
            ops += [self.fsolve(nv) for _ in range(r.randint(0, 4))]
        ops.append({"op": "solve", "a": []})
        return {"mode": "file", "fmt": fmt, "bin": fmt not in ("frat", "fratd", "veripb") and r.random() < 0.5, "ops": ops,
                "chk": r.random() < 0.5, "rup": r.random() < 0.4, "conf": r.choice([None, None, "plain", "sat", "unsat"]),
                "opts": r.sample(EAGER, r.randint(2, 14)) if r.random() < 0.5 else []}

    def fsolve(self, nv):
        r = self.rng
        o = {"op": "solve", "a": [r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(nv, r.choice([0, 1, 2, 3, 4])))]}
        if r.random() < 0.15:
            o["n"] = r.randint(0, 2)
        return o
