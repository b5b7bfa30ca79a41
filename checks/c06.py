import vt


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C06", "inst", "satinst", "T_SatInst"

    def scenarios(self):
        return [self.history() for _ in range(1300 if self.quick() else 30000)]

    def lits(self, n):
        r = self.rng
        return [r.choice([-1, 1]) * r.randint(1, self.nv) for _ in range(n)]

    def constr(self, kinds=("cl", "cl", "card", "pb")):
        r = self.rng
        k = r.choice(kinds)
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        l = self.lits(n)
        if k == "cl":
            return {"k": "cl", "op": "lb", "l": l, "w": [1] * n, "b": 1}
        op = r.choice(["ub", "lb", "eq"])
        if k == "card":
            return {"k": "card", "op": op, "l": l, "w": [1] * n, "b": r.randint(0, n + 1)}
        w = [r.choice([1, 2, 3])] * n if r.random() < 0.4 else [r.choice([-2, -1, 0, 1, 1, 2, 3, 4]) for _ in range(n)]
        lo, hi = sum(x for x in w if x < 0), sum(x for x in w if x > 0)
        return {"k": "pb", "op": op, "l": l, "w": w, "b": r.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, r.randint(lo - 1, hi + 1)])}

    def history(self):
        r = self.rng
        self.nv = r.randint(1, 4)
        ops, ty = [], []
        cnf_world = r.random() < 0.2

        def make():
            if r.random() < 0.3:
                how = r.choice(["kcnf", "klines"]) if cnf_world else r.choice(["cnf", "cls", "cards", "pbs", "lines", "data"])
                k = {"cards": ["card"], "pbs": ["pb"], "data": ["pb"]}.get(how, ["cl"])
                ops.append({"op": "from", "how": how, "cs": [self.constr(k) for _ in range(r.randint(0, 3))]})
                ty.append("C" if cnf_world else "B")
            else:
                t = "C" if cnf_world else r.choice("BBBOR")
                ops.append({"op": "make", "ty": t, "n": r.choice([0, 0, r.randint(0, 7)])})
                ty.append(t)
        make()
        for _ in range(r.randint(3, 12)):
            x, i = r.random(), r.randrange(len(ty))
            if x < 0.07 and len(ty) < 3:
                make()
            elif x < 0.13 and len(ty) > 1:
                j = r.choice([k for k in range(len(ty)) if k != i])
                ops.append({"op": "extend", "i": i, "j": j})
            elif x < 0.40:
                how = r.choice(["one", "nary", "short", "and", "unitand", "extend", "collect", "collect0", "collect1"])
                kinds = ("cl",) if ty[i] == "C" or how[:3] in ("ext", "col") else ("cl", "card", "pb", "pb")
                if how[:3] == "col" and ty[i] not in ("BC" if how != "collect1" else "C"):
                    how = "extend"
                if how[:3] in ("ext", "col") and r.random() < 0.3:
                    # many clauses, each of them needed
                    ms = list(range(2 ** self.nv))
                    r.shuffle(ms)
                    ops.append({"op": "add", "i": i, "how": how, "cs": [
                        {"k": "cl", "op": "lb", "l": [v + 1 if m >> v & 1 else -v - 1 for v in range(self.nv)], "w": [1] * self.nv, "b": 1}
                        for m in ms[:r.randint(0, len(ms) - 1)]]})
                    continue
                ops.append({"op": "add", "i": i, "how": how, "cs": [self.constr(kinds) for _ in range(1 if how[:3] not in ("ext", "col") else r.randint(0, 3))]})
            elif x < 0.46:
                f = r.choice(["ll", "lc", "lq", "ql", "cl", "qc", "cc", "cq", "qq"])
                ops.append({"op": "impl", "i": i, "f": f, "a": self.lits(1 if f[0] == "l" else r.randint(0, 3)),
                            "b": self.lits(1 if f[1] == "l" else r.randint(0, 3))})
            else:
                o = r.choice(["newvar", "sanitize", "sanitize", "shuffle", "normalize", "normeq", "clear", "changevm", "tocnf", "intocnf",
                              "intopbs", "reindex", "eval", "violated"])
                d = {"op": o, "i": i, "lit": r.random() < 0.5, "k": r.randint(0, 11), "card": r.randint(0, 1), "pb": r.randint(0, 2),
                     "ordered": r.random() < 0.5, "rand": r.random() < 0.25, "base": r.choice([0, 0, 3])}
                if o == "reindex":
                    ty[i] = "R" if ty[i] != "C" else "C"
                if o == "changevm" and ty[i] != "C":
                    ty[i] = "O" if ty[i] == "B" else "B"
                ops.append(d)
        for i in range(len(ty)):
            ops += [{"op": "eval", "i": i}, {"op": "violated", "i": i}, {"op": r.choice(["intopbs", "intocnf"]), "i": i, "card": 0, "pb": 0}]
        return {"nv": self.nv, "ops": ops}
