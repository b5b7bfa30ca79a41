from slvgen import *

CADOPT = [("seed", 0, 1000), ("chrono", 0, 1), ("elim", 0, 1), ("phase", 0, 1), ("lucky", 0, 1), ("probe", 0, 1), ("walk", 0, 1), ("stabilize", 0, 1), ("shrink", 0, 3),
          ("restartint", 2, 10), ("inprocessing", 0, 1), ("flush", 0, 1), ("vivify", 0, 1), ("forcephase", 0, 1), ("ilb", 0, 1)]
KISOPT = [("seed", 0, 1000), ("chrono", 0, 1), ("eliminate", 0, 1), ("phase", 0, 1), ("probe", 0, 1), ("stable", 0, 2), ("tier1", 1, 5), ("restartint", 1, 10), ("vivify", 0, 1),
          ("walkinitially", 0, 1), ("simplify", 0, 1)]


class CHECK(SolverCheck):
    prop = "C11"

    def scenarios(self):
        q = self.quick()
        s = []
        for b in OTHERS + KISSAT + ["sim-flaky"]:
            s += [self.hist(b) for _ in range((700 if b == "cadical" else 300) * (1 if q else 12))]
        for b in sorted(INTR | {"batsat"}):
            s += [self.hard(b) for _ in range(12 if q else 150)]
        self.rng.shuffle(s)
        return s

    # ---- controls on small instances ----
    def control(self, b, nv):
        r = self.rng
        c = []
        v = r.randint(1, min(nv + 1, 6))
        l = r.choice([1, -1]) * v
        if b in PHASED:
            c += [{"o": "phase", "l": l}] * 2 + [{"o": "unphase", "v": v, "lit": r.random() < 0.5}]
        if b in FREEZE:
            c += [{"o": "freeze", "v": v}] * 3 + [{"o": "melt", "v": v}, {"o": "frozen", "v": v}] * 2
        if b in LIMITS:
            k = r.choice(LIMITS[b])
            c += [{"o": "limit", "k": k, "n": r.choice([0, 1, 2, 5, 100, 10000, 2 ** 31 - 1])}] + [{"o": "limit", "k": k, "n": None}] * 2
        if b in PROP:
            c += [{"o": "prop", "a": self.assumps(nv), "ps": r.random() < 0.5}] * 5
        if b in INTR and r.random() < 0.4:
            c += [{"o": "int"}]
        if b in TERM:
            c += [{"o": "term", "n": r.choice([-1, -1, 0, 1, 2, 5])}] + [{"o": "termoff"}] * 2
        if b in LEARN:
            c += [{"o": "learn", "max": r.choice([0, 1, 2, 3, 10])}] * 2 + [{"o": "learnoff"}]
        if b in ("minisat-simp", "glucose-simp"):
            c += [{"o": "elim", "v": v}, {"o": "nums"}]
        if b == "sim-flaky":
            c += [{"o": "flaky", "n": r.choice([0, 1, 1, 2, 3]), "fail": r.random() < 0.5}] * 2
        if b == "cadical":
            c += [{"o": "flip", "l": r.choice([1, -1]) * r.randint(1, nv)}] * 4
            c += [{"o": "tmp", "c": self.near(nv, r.getrandbits(nv + 1)) if r.random() < 0.6 else self.clause(nv)}] * 3 + [{"o": "tmpcore"}] * 2
            a = self.assumps(nv) if r.random() < 0.5 else []
            c += [{"o": "simplify", "n": r.choice([0, 1, 2, 3]), "as": bool(a), "a": a}] * 2
            c += [{"o": "climit", "k": r.choice(["conflicts", "decisions", "terminate", "preprocessing", "localsearch"]), "n": r.choice([-1, 0, 1, 2, 10, 1000])}]
            c += [{"o": "fixed", "l": l}] * 2 + [{"o": "active"}, {"o": "cstats"}, {"o": "declare", "n": r.choice([1, 1, 2])}]
        if b == "kissat":
            c += [{"o": "climit", "k": r.choice(["conflicts", "decisions"]), "n": r.choice([0, 1, 2, 10, 1000])}] * 2
        if b in ("cadical", "kissat"):
            c += self.opts(b)
        return r.choice(c) if c else None

    def opts(self, b):
        r = self.rng
        n, lo, hi = r.choice(CADOPT if b == "cadical" else KISOPT)
        return [{"o": "opt", "name": n, "val": r.randint(lo, hi), "bad": False}, {"o": "getopt", "name": n}, {"o": "opt", "name": "nosuchoption", "val": 1, "bad": True},
                {"o": "conf", "name": r.choice(["default", "plain", "sat", "unsat"])}]

    def hist(self, b):
        r = self.rng
        nv = r.choice([1, 2, 3, 4, 4, 5])
        self.m = r.getrandbits(nv + 1)
        self.cv = nv if r.random() < 0.7 else r.randint(1, nv)
        ops = []
        n = r.choice([4, 8, 12, 20, 30])
        if b in ("cadical", "kissat") and r.random() < 0.4:
            for _ in range(r.randint(1, 5)):
                o = r.choice(self.opts(b))
                ops.append(o)
                if o["o"] == "opt" and not o["bad"] and r.random() < 0.7:
                    ops.append({"o": "getopt", "name": o["name"]})
        if r.random() < 0.5:
            ops += self.start(b, nv)
            n += len(ops)
        if b == "glucose-simp":
            ops += [{"o": "freeze", "v": v} for v in range(1, nv + 1) if r.random() < 0.6]
        ctl = r.choice([0.2, 0.4, 0.6])
        while len(ops) < n:
            x = r.random()
            if x < ctl:
                c = self.control(b, nv)
                if c:
                    ops.append(c)
                x = r.random()
                if c and c["o"] in ("tmp",) and x < 0.8:
                    ops.append(self.solve(b, nv))
                    if x < 0.5:
                        ops.append(r.choice([{"o": "tmpcore"}, {"o": "core"}, {"o": "vals", "h": nv}]))
                if c and c["o"] in ("prop", "simplify", "limit", "climit", "declare", "int") and x < 0.4:
                    ops.append(self.solve(b, nv))
                continue
            x = r.random()
            if x < 0.25:
                ops.append(self.add(b, nv))
            elif x < 0.55:
                ops.append(self.solve(b, nv))
            elif x < 0.68:
                ops.append({"o": "vals", "h": r.randint(1, nv + 2)})
            elif x < 0.78:
                if b not in NOASS:
                    ops.append({"o": "core"})
            elif x < 0.96:
                ops.append({"o": "stats"})
            else:
                ops.append({"o": "reserve", "v": r.randint(1, nv + 2)})
        return {"b": b, "nv": nv, "ops": ops}

    # ---- queries that take long ----
    def hard(self, b):
        r = self.rng
        ops = []
        kind = r.choice(["thread", "thread", "limit", "limit", "term", "plain"])
        if kind == "plain":
            p, h = r.choice([(4, 4), (5, 4), (6, 5), (6, 6), (7, 6)])
        else:
            p, h = r.choice([(12, 11), (13, 12), (14, 12)])
        if b == "batsat" and kind != "plain":
            kind = "term"
        if kind == "term" and b == "kissat":
            kind = "thread"  # this Kissat never calls the terminator
        ops.append({"o": "hadd", "p": p, "h": h})
        one = {"o": "solve", "as": False, "a": [], "must": kind != "plain"}
        for _ in range(1 if b == "kissat" else r.choice([1, 2, 3])):
            s = dict(one)
            if kind == "thread":
                s["us"] = r.choice([1, 10, 100, 1000, 5000, 20000, 60000])
            elif kind == "limit":
                k = r.choice(LIMITS.get(b, ["conflicts", "decisions"]))
                n = r.choice([0, 1, 7, 50, 300])
                ops.append({"o": "climit", "k": k, "n": n} if b == "kissat" else {"o": "limit", "k": k, "n": n * (100 if k == "prop" else 1)})
            elif kind == "term" and b in TERM:
                ops.append({"o": "term", "n": r.choice([0, 1, 5, 30])})
            elif kind == "term":
                s["us"] = 100
            if b != "kissat" and r.random() < 0.3:
                s["as"] = True
                s["a"] = [] if r.random() < 0.5 else [1]
            if b == "cadical" and r.random() < 0.4:
                ops.append({"o": "learn", "max": r.choice([1, 2, 5, 20])})
            ops.append(s)
            if kind == "plain" and r.random() < 0.5 and b != "kissat":
                ops.append(dict(s))
        if kind != "plain" and r.random() < 0.3:
            ops.append({"o": "stats"})
        return {"b": b, "nv": 3, "ops": ops}
