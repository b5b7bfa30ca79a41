import vt


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C05", "inst", "constr", "T_ConstrObj"
    OPS = ["norm", "sanitize", "sort", "tocard", "topb", "tocl", "extcard", "invert", "split", "add", "remove", "removeall",
           "bound", "mut", "lits", "pig", "eval", "show", "canon"]

    def scenarios(self):
        r, out = self.rng, []
        # every small constraint: weights and bounds around every corner
        for how in ("card", "pb", "pbu", "pbcard"):
            for op in ("ub", "lb", "eq"):
                for n in range(0, 4):
                    wss = [[1] * n] if how in ("card", "pbcard") else self.weights(n, how == "pb")
                    for w in wss:
                        tot = sum(abs(x) for x in w)
                        lo = 0 if how in ("card", "pbcard") else -tot - 1
                        bs = range(lo, tot + 2) if not self.quick() else sorted({lo, -1, 0, 1, 2, tot - 1, tot, tot + 1, r.randint(lo, tot + 1)})
                        for b in bs:
                            if b < lo:
                                continue
                            ls = self.lits(n, 4, dup=r.random() < 0.2)
                            ops = [{"op": "eval"}] + [self.op(r.choice(self.OPS)) for _ in range(2)] + \
                                  [{"op": x} for x in ("pig", "split", "tocl")] + [{"op": r.choice(["tocard", "extcard", "norm", "invert"])}, {"op": "eval"}]
                            out.append({"nv": 4, "make": {"how": how, "op": op, "l": ls, "w": w, "b": b}, "ops": ops})
        if self.quick():
            r.shuffle(out)
            out = out[:1100]
        for _ in range(1200 if self.quick() else 30000):
            out.append(self.history())
        for _ in range(250 if self.quick() else 8000):
            out.append({"nv": 4, "expr": self.expr(self.rng.choice("VLCCFFSSSS"), 4)})
        return out

    def expr(self, want, d):
        """a formula of the wanted type built with operators"""
        r = self.rng
        leaf = d <= 0
        if want == "V":
            return {"t": "lit", "x": r.randint(1, 4), "v": True}
        if want == "L":
            if leaf or r.random() < 0.6:
                return {"t": "lit", "x": r.choice([-1, 1]) * r.randint(1, 4), "v": False}
            return {"t": "not", "a": self.expr(r.choice("VL"), d - 1), "asg": r.random() < 0.5}
        small = "VL" if leaf else "VLC"
        if want == "C":
            a = r.choice(small)
            return {"t": "or", "a": self.expr(a, d - 1), "b": self.expr(r.choice(small), d - 1), "asg": r.random() < 0.4}
        small = "VLC" if leaf else "VLCF"
        if want == "F":
            return {"t": "and", "a": self.expr(r.choice(small), d - 1), "b": self.expr(r.choice(small), d - 1), "asg": r.random() < 0.4}
        if leaf or r.random() < 0.2:
            return {"t": "inst", "a": self.expr(r.choice("VLCF"), d - 1)}
        return {"t": "and", "a": self.expr("S", d - 1), "b": self.expr(r.choice("VLCFS"), d - 1), "asg": r.random() < 0.4}

    def weights(self, n, signed):
        r = self.rng
        vals = [1, 2, 3, 0] + ([-1, -2] if signed else [])
        res = [[1] * n, [2] * n, [0] * n]
        if n:
            res += [[r.choice(vals) for _ in range(n)] for _ in range(6)] + [[3] * n]
        return res

    def lits(self, n, nv, dup):
        r = self.rng
        if dup or n > nv:
            return [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(n)]
        vs = r.sample(range(1, nv + 1), n)
        return [r.choice([-1, 1]) * v for v in vs]

    def op(self, name):
        r = self.rng
        o = {"op": name}
        if name == "add":
            n = r.randint(0, 2)
            o.update(l=[r.choice([-1, 1]) * r.randint(1, 4) for _ in range(n)], w=[r.randint(-3, 4) for _ in range(n)], alt=r.random() < 0.5)
        elif name in ("remove", "removeall"):
            o["l"] = [r.choice([-1, 1]) * r.randint(1, 3)]
        elif name == "bound":
            o["b"] = r.randint(-3, 8)
        elif name == "canon":
            o["p"] = [r.randint(0, 9) for _ in range(5)]
        elif name == "mut":
            o["i"] = r.randint(0, 3)
        return o

    def history(self):
        r = self.rng
        nv = r.randint(1, 4)
        how = r.choice(["cl", "clslice", "clcow", "card", "card", "cardunit", "cardcl", "pb", "pb", "pb", "pbu", "pbu", "pbunit", "pbcl", "pbcard"])
        n = r.randint(0, 6) if "unit" not in how else 1
        l = self.lits(n, nv, dup=r.random() < 0.6)
        style = r.random()
        if style < 0.25:
            c = r.choice([1, 2, 3, 5])
            w = [c] * n
        else:
            w = [r.choice([0, 1, 1, 2, 3, 4, 5]) * (r.choice([1, 1, -1]) if how == "pb" else 1) for _ in range(n)]
        tot = sum(abs(x) for x in w)
        b = r.randint(0, n + 2) if how in ("card", "pbcard") else r.choice([0, tot, tot - 1, r.randint(-tot - 1, tot + 2), r.randint(0, tot + 1)])
        nv = 4
        names = ["remove", "removeall", "norm", "sanitize", "add", "mut", "sort", "tocard", "topb", "show", "canon"] if how.startswith("cl") else self.OPS
        ops = [self.op(r.choice(names)) for _ in range(r.randint(1, 6))] + [{"op": "eval"}]
        make = {"how": how, "op": r.choice(["ub", "lb", "eq"]), "l": l, "w": w, "b": b}
        if how in ("pb", "pbu") and r.random() < 0.25:
            # the same constraint with weights a machine word cannot be careless about
            k = r.choice([2**31 - 1, 2**31, 2**32, 2**33 + 1, 10**12, 2**53 + 1, 2**56])
            make.update(k=str(k), d=str(r.choice([0, 1, k // 2, k - 1, r.randint(0, k - 1)])))
        return {"nv": nv, "make": make, "ops": ops}
