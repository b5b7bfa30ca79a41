import vt


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C07", "inst", "objinst", "T_ObjInst"

    def scenarios(self):
        return [self.history() for _ in range(1200 if self.quick() else 30000)]

    def lits(self, n):
        r = self.rng
        return [r.choice([-1, 1]) * r.randint(1, self.nv) for _ in range(n)]

    def constr(self):
        r = self.rng
        k = r.choice(["cl", "cl", "card", "pb"])
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        if k == "cl":
            n = max(n, 1) if r.random() < 0.9 else n
            return {"k": "cl", "op": "lb", "l": self.lits(n), "w": [1] * n, "b": 1}
        op = r.choice(["ub", "lb", "eq"])
        if k == "card":
            return {"k": "card", "op": op, "l": self.lits(n), "w": [1] * n, "b": r.randint(0, n)}
        w = [r.choice([-2, -1, 1, 1, 2, 3]) for _ in range(n)]
        lo, hi = sum(x for x in w if x < 0), sum(x for x in w if x > 0)
        return {"k": "pb", "op": op, "l": self.lits(n), "w": w, "b": r.randint(lo, hi)}

    def clause(self, units=True):
        r = self.rng
        return self.lits(r.choice([0, 1, 2, 2, 2, 3, 3, 4] if units else [1]))

    def weight(self):
        r = self.rng
        return r.choice([0, self.u, self.u, self.u, self.u, 1, 2, 3, r.randint(0, 50), 2 * self.u]) if r.random() < self.mix else self.u

    def history(self):
        r = self.rng
        self.nv = r.randint(1, 4)
        self.u = r.choice([1, 1, 2, 3, 7])
        # a few objectives stay unweighted throughout, others mix weights
        self.mix = r.choice([0, 0, 0.15, 0.4, 1])
        ops, objs, pool = [], [], [self.clause() for _ in range(4)]

        def make():
            op = r.choice(["make", "make", "compose", "lines", "data"])
            ty = r.choice("OM") if op != "data" else "M"
            n = 1 if ty == "O" else r.choice([0, 1, 2, 2, 3])
            how = r.choice(["cls", "cls", "ulit", "ilit"])
            unit = op == "data" or (op == "compose" and how != "cls")
            softs = [{"c": self.clause(not unit), "w": self.weight() * (r.choice([1, -1]) if op == "compose" and how == "ilit" else 1),
                      "k": r.randrange(n)} for _ in range(r.randint(0, 5))] if n else []
            if softs and r.random() < 0.4:
                softs.append(dict(r.choice(softs)))
            cs = [self.constr() for _ in range(r.randint(0, 3))]
            if op == "lines":
                cs = [c for c in cs if c["k"] == "cl"]
                for s in softs:
                    s["w"] = abs(s["w"])
            if op == "data":
                # one literal per variable
                seen, keep = set(), []
                for s in softs:
                    if (s["k"], abs(s["c"][0])) not in seen:
                        seen.add((s["k"], abs(s["c"][0])))
                        keep.append(s)
                softs = keep
            if op == "make":
                softs, cs = [], []
            ops.append({"op": op, "ty": ty, "n": n, "nf": r.choice([0, 0, 0, r.randint(0, 6)]), "how": how, "softs": softs, "cs": cs,
                        "max": [r.random() < 0.5 for _ in range(n)], "off": [r.randint(-5, 5) for _ in range(n)]})
            objs.append(n)
        make()
        for _ in range(r.randint(4, 14)):
            x, i = r.random(), r.randrange(len(objs))
            if x < 0.05 and len(objs) < 3:
                make()
                continue
            if x < 0.12:
                ops.append({"op": "add", "i": i, "cs": [self.constr()]})
                continue
            if x < 0.24:
                o = r.choice(["iconv", "iconv", "changevm", "reindex", "cost", "shuffle"])
                ops.append({"op": o, "i": i, "how": r.choice(["cls", "lits", "lits", "dec"]), "mark": r.random() < 0.4,
                            "ordered": r.random() < 0.5, "rand": r.random() < 0.25, "base": r.choice([0, 0, 3])})
                continue
            if not objs[i]:
                continue
            k = r.randrange(objs[i])
            o = r.choice(["setlit", "setlit", "inclit", "inclit", "inclitint", "setcl", "setcl", "inccl", "inccl", "inccl", "setoff", "incoff", "normalize", "normeq",
                          "get", "conv", "conv", "oshuffle"])
            d = {"op": o, "i": i, "k": k}
            if o in ("setlit", "inclit", "inclitint"):
                d["l"], d["w"] = self.lits(1)[0], self.weight()
                if o == "inclitint" and r.random() < 0.5:
                    d["w"] = -d["w"]
                if o == "setlit" and r.random() < 0.2:
                    d["w"] = 0
            elif o in ("setcl", "inccl"):
                c = r.choice(pool) if r.random() < 0.6 else self.clause()
                if r.random() < 0.25:
                    c = c[::-1]
                d["c"], d["w"] = c, self.weight() if r.random() < 0.85 else 0
            elif o in ("setoff", "incoff"):
                d["w"] = r.randint(-9, 9)
            elif o == "get":
                d["cls"] = pool + [self.clause()]
            elif o == "conv":
                d["how"] = r.choice(["cls", "ucls", "lits", "ulits", "ilits"])
            else:
                d["r"] = r.randint(0, 7)
            ops.append(d)
        for i, n in enumerate(objs):
            ops += [{"op": "get", "i": i, "k": k, "cls": pool} for k in range(n)]
            ops += [{"op": "cost", "i": i}, {"op": "iconv", "i": i, "how": r.choice(["cls", "lits", "dec"]), "mark": r.random() < 0.6}]
        return {"nv": self.nv, "ops": ops}
