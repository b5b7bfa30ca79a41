import vt
TYPES = ["pairwise", "ladder", "bitwise", "cmd", "cmd1", "cmd2", "cmd3l", "cmd5b", "cmd2cmd2", "cmd3bim2l", "cmd4two",
         "bim", "bim1", "bim2", "bim3l", "bim5b", "bim2bim2", "bim6two", "bim8cmd", "two", "twol", "twob", "twocmd2", "twotwo", "twobim2"]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C03", "enc", "am1", "T_Am1"
    models = {"quick": [("MC_Am1", "MC_Am1.cfg")], "thorough": [("MC_Am1", "MC_Am1_deep.cfg")]}

    def scenarios(self):
        r, out = self.rng, []
        # every type and every length in sequence
        big = 26 if self.quick() else 40
        for ty in TYPES:
            for n in range(0, big):
                sc = {"nv": n, "ops": [{"op": "make", "ty": ty, "lits": self.polarity(range(1, n + 1)), "how": r.choice(["from", "iter", "ext"])},
                                       {"op": "encode", "i": 0}]}
                if n > 7:
                    sc["masks"] = self.true_vars(sc["ops"][0]["lits"], self.masks(n))
                out.append(sc)
            # larger groups: the masks are the pairs most likely to share all their auxiliary literals
            for n in [r.randint(27, 90) for _ in range(2 if self.quick() else 6)] + ([] if ty in ("pairwise", "cmd", "cmd5b") else [r.randint(120, 256), r.randint(257, 300)]):
                ls = self.polarity(range(1, n + 1))
                out.append({"nv": n, "masks": self.true_vars(ls, self.far(n)), "ops": [
                    {"op": "make", "ty": ty, "lits": ls, "how": r.choice(["from", "iter", "ext"])}, {"op": "encode", "i": 0}]})
            if not self.quick():
                for n in (47, 50, 63, 64, 65, 66):
                    ls = self.polarity(range(1, n + 1))
                    out.append({"nv": n, "masks": self.true_vars(ls, self.masks(n)[:400]), "ops": [
                        {"op": "make", "ty": ty, "lits": ls, "how": "iter"}, {"op": "encode", "i": 0}]})
        for _ in range(900 if self.quick() else 15000):
            out.append(self.history())
        return out

    def polarity(self, vs):
        m = self.rng.random()
        return [v if m < 0.4 else -v if m < 0.55 else self.rng.choice([-1, 1]) * v for v in vs]

    @staticmethod
    def true_vars(ls, masks):
        """the scenario's masks are sets of true variables; masks(n) and far(n) are sets of true literals"""
        return [[abs(l) for i, l in enumerate(ls, 1) if (i in m) == (l > 0)] for m in map(set, masks)]

    def masks(self, n):
        """all masks with at most two changes relative to both polarities, plus random ones"""
        r = self.rng
        ms = [[]] + [[i] for i in range(1, n + 1)]
        prs = [[i, j] for i in range(1, n + 1) for j in range(i + 1, n + 1)]
        r.shuffle(prs)
        ms += prs[:250]
        full = list(range(1, n + 1))
        ms += [full] + [[v for v in full if v != i] for i in full]
        ms += [[v for v in full if v not in p] for p in prs[:60]]
        ms += [[v for v in full if r.random() < 0.5] for _ in range(5)]
        return ms

    def far(self, n):
        r = self.rng
        ms, k = [[], [n]], 1
        while k < n:
            i = r.randint(1, n - k)
            ms += [[i, i + k], [n - k, n]]
            k *= 2
        w = int(n ** 0.5)
        for d in (3, 5, 6, 7, 9, w, w + 1):
            if d < n:
                i = r.randint(1, n - d)
                ms.append([i, i + d])
        ms += [[r.randint(1, n)] for _ in range(3)] + [sorted(r.sample(range(1, n + 1), 2)) for _ in range(8)]
        ms += [[v for v in range(1, n + 1) if v != r.randint(1, n)]]
        return ms

    def history(self):
        r = self.rng
        nv = r.randint(1, 7)
        ops, n = [], 0
        lens = []
        for _ in range(r.randint(2, 7)):
            x = r.random()
            if n == 0 or (x < 0.25 and n < 3):
                ls = [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(r.randint(0, 6))]
                if r.random() < 0.6:
                    s, o = set(), []
                    for l in ls:
                        if abs(l) not in s:
                            s.add(abs(l))
                            o.append(l)
                    ls = o
                ops.append({"op": "make", "ty": r.choice(TYPES), "lits": ls, "how": r.choice(["from", "iter", "ext"])})
                n += 1
            elif x < 0.5:
                ops.append({"op": "extend", "i": r.randrange(n), "lits": [r.choice([-1, 1]) * r.randint(1, nv) for _ in range(r.randint(0, 5))]})
            elif x < 0.57:
                ops.append({"op": "uservars", "n": r.randint(1, 2)})
            else:
                ops.append({"op": "encode", "i": r.randrange(n)})
        ops.append({"op": "encode", "i": r.randrange(n)})
        return {"nv": nv, "ops": ops}
