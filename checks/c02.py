import vt, incgen

BOTH = ["dblgte", "adder", "adder", "invadder", "dbladder", "cardtot", "cardinv"]
UB = ["gte", "gte", "refgte", "cellgte", "rawgte", "refdpw", "celldpw"]
LB = ["invgte"]
NOZERO = {}


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C02", "enc", "incenc", "T_IncEnc"

    UNIQ = ("gte", "refgte", "cellgte", "invgte", "dblgte", "adder", "invadder", "dbladder")
    models = {"quick": [("MC_IncEnc", {"Ty": t, "Depth": 2}) for t in ("dblgte", "gte")],
              "thorough": [("MC_IncEnc", {"Ty": t, "Depth": 3}) for t in ("dblgte", "gte", "invgte", "adder")]}

    def scenarios(self):
        n = 1500 if self.quick() else 30000
        return [incgen.oom(self.rng, incgen.certified(self.rng, sc)) for sc in incgen.from_model(self, self.UNIQ, self.quick()) + [self.dpw() if self.rng.random() < 0.2 else self.one() for _ in range(n)] + \
            [self.dpwprec() for _ in range(n // 5)] + [self.grow() for _ in range(n // 5)]]

    def grow(self):
        """encode, extend by something smaller, larger or of the same size, encode again, and use every value"""
        r = self.rng
        ty = r.choice(BOTH + BOTH + UB[:4] + LB)
        kind = "ub" if ty in UB else "lb" if ty in LB else r.choice(["ub", "lb", "both"])
        nv = r.choice([2, 3, 4, 5])
        ms = [r.choice([1, 1, 2, 3, 4, 7, 8]) for _ in range(4)]
        at = incgen.rand_lits(r, nv, r.choice([1, 2, 3, 4, 5]), False)
        sc = {"nv": nv, "ty": ty, "from": r.random() < 0.5 and "ref" not in ty and ty not in ("cellgte", "rawgte"), "mode": "grow", "ops": []}
        w = [r.choice([ms[0], r.randint(1, ms[0])]) for _ in at]
        sc["init"] = {"lits": at, "w": [str(x) for x in w]}
        top = sum(w)
        for k in range(r.randint(2, 3)):
            if k:
                l = incgen.rand_lits(r, nv, r.choice([1, 1, 2, 3]), r.random() < 0.2)
                w = [r.choice([ms[k], r.randint(1, ms[k])]) for _ in l]
                sc["ops"].append({"op": "extend", "lits": l, "w": [str(x) for x in w]})
                top += sum(w)
            if r.random() < 0.1:
                sc["ops"].append({"op": "reserve"})
            sc["ops"].append({"op": "encode", "k": kind, "chg": r.random() < 0.5, "a": ["u", 0], "b": ["u", 0]})
            vs = list(range(top + 2))
            for x in sorted(r.sample(vs, min(len(vs), 7))):
                sc["ops"].append({"op": "enforce", "k": kind, "b": str(x)})
        if r.random() < 0.3:
            sc["ops"].append({"op": "obs"})
        return sc

    def weights(self, r, n, mode):
        f = {"unit": lambda: 1, "small": lambda: r.randint(1, 4), "mid": lambda: r.randint(1, 12),
             "pow": lambda: 2 ** r.randint(0, 5), "const": None, "zero": lambda: r.randint(0, 3),
             "big": lambda: r.choice([10 ** 9 - 1, 10 ** 9, 2 ** 32, 10 ** 12 + 7, r.randint(1, 10 ** 15)])}
        if mode == "const":
            c = r.randint(1, 5)
            return [c] * n
        return [f[mode]() for _ in range(n)]

    def one(self):
        r = self.rng
        ty = r.choice(BOTH + UB + LB)
        kinds = ["ub"] if ty in UB else ["lb"] if ty in LB else ["ub", "lb", "both"]
        nv = r.choice([1, 2, 3, 3, 4, 4, 5] if self.quick() else [1, 2, 3, 4, 5, 6])
        mode = r.choice(["unit", "small", "small", "mid", "mid", "pow", "const", "zero"])
        if ty in ("gte", "invgte", "dblgte", "refgte", "cellgte", "rawgte") and r.random() < 0.1:
            mode = "big"
        dup = r.random() < 0.3
        init = incgen.rand_lits(r, nv, r.choice([0, 1, 2, 3, 4, 5, 6]), dup)
        w = self.weights(r, len(init), mode)
        ref = ty in ("refgte", "cellgte", "rawgte", "refdpw", "celldpw")
        if ref:
            if not init:
                init, w = [r.randint(1, nv)], [2]
            w = [max(1, x) for x in w]
        sc = {"nv": nv, "ty": ty, "from": (not ref) and r.random() < 0.5, "mode": mode,
              "init": {"lits": init, "w": [str(x) for x in w]}, "ops": []}
        self.top, self.ws = sum(w), list(w)
        ops = sc["ops"]
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.15 and ty not in ("refdpw", "celldpw"):
                l = incgen.rand_lits(r, nv, r.randint(0, 3), dup or r.random() < 0.3)
                lw = self.weights(r, len(l), mode)
                if ref:
                    lw = [max(1, x) for x in lw]
                ops.append({"op": "extend", "lits": l, "w": [str(x) for x in lw]})
                self.top += sum(lw)
                self.ws += lw
                if r.random() < 0.3:
                    self.enf(ops, ["i", 0], ["u", 0], kinds)
            elif x < 0.22:
                ops.append({"op": "reserve"})
            elif x < 0.27:
                ops.append({"op": "uservars", "n": r.randint(1, 3)})
            elif x < 0.32:
                ops.append({"op": "checkpoint"})
            elif x < 0.38:
                ops.append({"op": "next", "v": str(r.choice([0, 1, self.top, r.randint(0, self.top + 1)]))})
            elif x < 0.45:
                ops.append({"op": "fresh"})
                self.enc(ops, kinds, False, mode)
            elif x < 0.52 and ops and ty not in ("refdpw", "celldpw"):
                ops.append({"op": "harden", "k": r.choice(kinds), "b": str(self.val())})
            else:
                self.enc(ops, kinds, r.random() < 0.65, mode)
            if r.random() < 0.12:
                ops.append({"op": "obs"})
        ops.append({"op": "obs"})
        return sc

    def val(self):
        r = self.rng
        k = r.sample(self.ws, r.randint(0, len(self.ws))) if self.ws else []
        return max(0, sum(k) + r.choice([0, 0, -1, 1]))

    def enc(self, ops, kinds, chg, mode):
        r = self.rng
        if mode == "big":
            v = str(self.val())
            a, b = r.choice([(["i", v], ["i", v]), (["i", v], ["i", v]), (["i", v], ["e", str(int(v) + 1)])])
        else:
            a, b = incgen.rand_range(r, self.top)
        ops.append({"op": "encode", "k": r.choice(kinds), "chg": chg, "a": a, "b": b})
        self.enf(ops, a, b, kinds)

    def enf(self, ops, a, b, kinds):
        r = self.rng
        c = incgen.interesting(r, a, b, self.top)
        for x in c[: r.randint(1, 4)]:
            ops.append({"op": "enforce", "k": r.choice(kinds), "b": str(x)})

    def dpwprec(self):
        """raising the precision step by step, everything encoded before is used afterwards"""
        r = self.rng
        n = r.choice([2, 3, 3, 4, 4, 5])
        init = incgen.rand_lits(r, n, n, False)
        hi = r.choice([8, 16, 32, 64])
        f = r.choice([lambda: r.randint(1, hi), lambda: sum({2 ** r.randint(0, 5), 2 ** r.randint(0, 5)}), lambda: r.randint(hi // 2, hi),
                      lambda: r.choice([1, hi, hi + 1, hi // 2 + 1])])
        w = [f() for _ in init]
        sc = {"nv": n, "ty": "dpw", "from": r.random() < 0.7, "mode": "prec", "init": {"lits": init, "w": [str(x) for x in w]}, "ops": []}
        ops = sc["ops"]
        p = r.choice([x for x in (64, 32, 16, 8, 4, 2) if x <= max(w)] or [1])
        chg = r.random() < 0.8
        fresh = r.random() < 0.3
        while True:
            top = sum(x // p for x in w)
            ops.append({"op": "prec", "d": p})
            if r.random() < 0.3:
                ops.append({"op": "nextprec"})
            if r.random() < 0.15:
                ops.append({"op": "reserve"})
            for _ in range(r.randint(1, 2)):
                new = fresh and r.random() < 0.4
                if new:
                    ops.append({"op": "fresh"})
                a, b = (["u", 0], ["u", 0]) if r.random() < 0.3 else incgen.rand_range(r, max(1, top))
                ops.append({"op": "encode", "k": "ub", "chg": not new and chg and r.random() < 0.9, "a": a, "b": b})
                c = incgen.interesting(r, a, b, max(1, top)) + [r.randint(0, top + 1) for _ in range(3)]
                for x in c[: r.randint(2, 7)]:
                    ops.append({"op": "enforce", "k": "ub", "b": str(x)})
            ops.append({"op": "nextprec"})
            if p == 1 or r.random() < 0.1:
                ops.append({"op": "obs"})
                return sc
            p = r.choice([x for x in (1, 2, 4, 8, 16, 32, p // 2, p // 2) if x < p])

    def dpw(self):
        r = self.rng
        nv = r.choice([1, 2, 3, 4, 5])
        mode = r.choice(["unit", "small", "mid", "mid", "pow", "const"])
        init = incgen.rand_lits(r, nv, r.choice([0, 1, 2, 3, 4, 5]), r.random() < 0.2)
        w = self.weights(r, len(init), mode)
        sc = {"nv": nv, "ty": "dpw", "from": r.random() < 0.7, "mode": mode,
              "init": {"lits": init, "w": [str(x) for x in w]}, "ops": []}
        self.top, self.ws = sum(w), list(w)
        ops = sc["ops"]
        prec = 1
        built = False
        if r.random() < 0.5:
            prec = r.choice([1, 2, 4, 8])
            ops.append({"op": "prec", "d": prec})
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.12 and not built:
                l = incgen.rand_lits(r, nv, r.randint(1, 3), r.random() < 0.2)
                lw = self.weights(r, len(l), mode)
                ops.append({"op": "extend", "lits": l, "w": [str(x) for x in lw]})
                self.top += sum(lw)
                self.ws += lw
            elif x < 0.2:
                ops.append({"op": "reserve"})
                built = True
            elif x < 0.4 and prec > 1:
                prec //= 2
                ops.append({"op": "prec", "d": prec if prec > 1 or r.random() < 0.6 else 0})
            elif x < 0.45:
                ops.append({"op": "prec", "d": r.choice([0, 1, 2, 3, 6, 16])})
                return sc if not sc["ops"][:-1] else sc
            elif x < 0.5:
                ops.append({"op": "nextprec"})
            elif x < 0.55:
                ops.append({"op": "next", "v": str(r.randint(1, self.top + 1))})
            elif x < 0.6:
                ops.append({"op": "uservars", "n": 1})
            elif x < 0.65:
                ops.append({"op": "checkpoint"})
            else:
                a, b = incgen.rand_range(r, max(1, self.top // prec))
                ops.append({"op": "encode", "k": "ub", "chg": r.random() < 0.6, "a": a, "b": b})
                built = True
                for x in incgen.interesting(r, a, b, max(1, self.top // prec))[: r.randint(1, 5)]:
                    ops.append({"op": "enforce", "k": "ub", "b": str(x)})
                if r.random() < 0.3:
                    a, b = incgen.rand_range(r, self.top)
                    ops.append({"op": "limit", "a": a, "b": b})
                    for x in range(r.randint(0, 1), max(1, self.top // prec), 2):
                        ops.append({"op": "enforce", "k": "ub", "b": str(x)})
        return sc
