import vt, incgen

TYPES = ["tot", "tot", "invtot", "dbltot", "reftot", "celltot", "rawtot"]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C01", "enc", "incenc", "T_IncEnc"

    UNIQ = ("tot", "invtot", "dbltot", "reftot", "celltot")
    models = {"quick": [("MC_IncEnc", {"Ty": "dbltot", "Depth": 2})],
              "thorough": [("MC_IncEnc", {"Ty": t, "Depth": 3}) for t in ("tot", "dbltot")]}

    def scenarios(self):
        n = 1300 if self.quick() else 30000
        return [incgen.oom(self.rng, incgen.certified(self.rng, sc)) for sc in incgen.from_model(self, self.UNIQ, self.quick()) + [self.one() for _ in range(n)] + \
            [self.grow() for _ in range(n // 6)]]

    def grow(self):
        """encode, extend, encode again, into the same or a new collector, and use every bound"""
        r = self.rng
        ty = r.choice(TYPES)
        nv = r.choice([2, 3, 4, 5])
        init = incgen.rand_lits(r, nv, r.choice([1, 2, 3, 4, 5]), False)
        sc = {"nv": nv, "ty": ty, "from": r.random() < 0.5 and ty not in ("reftot", "celltot", "rawtot"), "init": {"lits": init}, "ops": []}
        top, kind = len(init), r.choice(["ub", "lb", "both"])
        for k in range(r.randint(2, 4)):
            if k and r.random() < 0.8:
                l = incgen.rand_lits(r, nv, r.choice([1, 1, 2, 3, 5]), r.random() < 0.2)
                sc["ops"].append({"op": "extend", "lits": l})
                top += len(l)
            new = r.random() < 0.2
            if new:
                sc["ops"].append({"op": "fresh"})
            if r.random() < 0.1:
                sc["ops"].append({"op": "reserve"})
            sc["ops"].append({"op": "encode", "k": kind, "chg": not new and r.random() < 0.6, "a": ["u", 0], "b": ["u", 0]})
            for x in range(top + 2):
                sc["ops"].append({"op": "enforce", "k": kind, "b": str(x)})
        if r.random() < 0.3:
            sc["ops"].append({"op": "obs"})
        return sc

    def one(self):
        r = self.rng
        ty = r.choice(TYPES)
        nv = r.choice([1, 2, 3, 3, 4, 4, 5] if self.quick() else [1, 2, 3, 4, 5, 6])
        dup = r.random() < 0.3
        cnt = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
        init = incgen.rand_lits(r, nv, cnt, dup)
        sc = {"nv": nv, "ty": ty, "from": r.random() < 0.5, "init": {"lits": init}, "ops": []}
        if ty in ("reftot", "celltot", "rawtot"):
            sc["from"] = False
            if not init:
                sc["init"]["lits"] = init = [r.randint(1, nv)]
        top = len(init)
        ops = sc["ops"]
        for _ in range(r.randint(1, 7)):
            x = r.random()
            if x < 0.15:
                l = incgen.rand_lits(r, nv, r.randint(0, 4), dup or r.random() < 0.3)
                ops.append({"op": "extend", "lits": l})
                top += len(l)
                if r.random() < 0.3:
                    self.enf(ops, [["i", 0], ["i", top]], top, r)
            elif x < 0.22:
                ops.append({"op": "reserve"})
            elif x < 0.29:
                ops.append({"op": "uservars", "n": r.randint(1, 3)})
            elif x < 0.34:
                ops.append({"op": "checkpoint"})
            elif x < 0.40:
                ops.append({"op": "fresh"})
                ops.append(self.enc(r, top, False))
                self.enf(ops, [ops[-1]["a"], ops[-1]["b"]], top, r)
            elif x < 0.5 and ops:
                ops.append({"op": "harden", "k": r.choice(["ub", "lb", "both"]), "b": r.randint(0, top + 1)})
            else:
                ops.append(self.enc(r, top, r.random() < 0.65))
                self.enf(ops, [ops[-1]["a"], ops[-1]["b"]], top, r)
            if r.random() < 0.12:
                ops.append({"op": "obs"})
        ops.append({"op": "obs"})
        return sc

    def enc(self, r, top, chg):
        a, b = incgen.rand_range(r, top)
        return {"op": "encode", "k": r.choice(["ub", "lb", "both"]), "chg": chg, "a": a, "b": b}

    def enf(self, ops, rg, top, r):
        for b in incgen.interesting(r, rg[0], rg[1], top)[: r.randint(1, 4)]:
            ops.append({"op": "enforce", "k": r.choice(["ub", "lb", "both"]), "b": str(b)})
