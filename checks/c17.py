import vt


class Gen:
    """Keeps just enough of the node structure to generate meaningful operations"""

    def __init__(self, r, nv):
        self.r, self.nv, self.h, self.ops, self.used = r, nv, [], [], set()

    def add(self, kind, vals, **kw):
        self.h.append(dict(kind=kind, vals=sorted(vals), **kw))

    def lit(self):
        return self.r.choice([-1, 1, 1]) * self.r.randint(1, self.nv)

    def cvals(self, c):
        out = set()
        for v in self.h[c["n"]]["vals"]:
            if v > c["off"]:
                x = v - c["off"]
                out.add((min(x, c["lim"]) if c["lim"] else x) * c["mul"])
        return out

    def con(self, n=None, mul=None, weighted=True):
        r = self.r
        if n is None:
            n = r.randrange(len(self.h)) if r.random() < 0.5 else r.randrange(max(0, len(self.h) - 4), len(self.h))
        h = self.h[n]
        vs = h["vals"]
        c = {"n": n, "off": 0, "mul": mul or (r.choice([1, 1, 1, 2, 3]) if weighted else 1), "lim": 0}
        if vs and h["kind"] != "dummy":
            s = r.random()
            if s < 0.15:
                v = r.choice(vs)
                c["off"], c["lim"] = v - 1, 1
            elif s < 0.3:
                c["off"] = r.randint(0, vs[-1] - 1)
            elif s < 0.4 and h["kind"] == "unit" and not weighted:
                c["off"] = r.randint(0, vs[-1] - 1)
                c["lim"] = r.randint(1, vs[-1] - c["off"])
        return c

    def sumvals(self, cons):
        s = {0}
        for c in cons:
            cv = {0} | self.cvals(c)
            s = {a + b for a in s for b in cv}
            if len(s) > 60:
                return None
        s.discard(0)
        return s

    def general(self, cons):
        return len({c["mul"] for c in cons}) > 1 or any(self.h[c["n"]]["kind"] == "general" for c in cons)

    def op(self, o, uses=(), push=0):
        o = dict(o, uses=list(uses), push=push)
        self.ops.append(o)

    def build(self):
        r = self.r
        s = r.random()
        if not self.h or s < 0.2:
            l = self.lit()
            self.op({"op": "leaf", "lit": l}, push=1)
            self.add("leaf", [1])
        elif s < 0.25:
            self.op({"op": "dummy"}, push=1)
            self.add("dummy", [])
        elif s < 0.4:
            n = r.randint(0, 5)
            ls = [self.lit() for _ in range(n)] if r.random() < 0.4 else [r.choice([-1, 1]) * v for v in r.sample(range(1, self.nv + 1), min(n, self.nv))]
            self.op({"op": "tree", "lits": ls}, push=int(bool(ls)))
            if ls:
                self.add("unit" if len(ls) > 1 else "leaf", range(1, len(ls) + 1))
        elif s < 0.5:
            n = r.randint(1, 4)
            ws = [r.choice([1, 1, 2, 2, 3, 4, 5]) for _ in range(n)]
            if r.random() < 0.7:
                ws.sort()
            wl = [[self.lit(), w] for w in ws]
            vals = {0}
            for w in ws:
                vals |= {v + w for v in vals}
            vals.discard(0)
            self.op({"op": "wtree", "lits": wl}, push=1)
            if len(set(ws)) == 1:
                self.add("unit" if n > 1 else "leaf", range(1, n + 1))
            else:
                # merging does not find a common divisor, only equal weights
                self.add("general", vals)
        elif s < 0.75:
            unit = r.random() < 0.5
            l, q = self.con(weighted=not unit), self.con(weighted=not unit)
            if l["mul"] == q["mul"] > 1 and not self.general([l, q]):
                q["mul"] += 1
            g = self.general([l, q])
            if g and (l["lim"] > 1 or q["lim"] > 1):
                return
            vs = self.sumvals([l, q])
            if not vs and (g or vs is None):
                return
            self.op({"op": "internal", "l": l, "r": q}, [l["n"], q["n"]], 1)
            self.add("general" if g else "unit", vs, cons=[l, q])
        else:
            k = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
            unit = r.random() < 0.5
            mul = r.choice([1, 2, 3])
            cons = [self.con(mul=mul) if unit else self.con() for _ in range(k)]
            vs = self.sumvals(cons)
            kind = r.choice(["merge", "balanced", "thorough"])
            if k and not vs:
                return
            if k > 1 and any(not self.cvals(c) for c in cons):
                # nodes without any output only where an inner node has nothing to say
                if self.general(cons):
                    return
            self.op({"op": "merge", "kind": kind, "cons": cons}, [c["n"] for c in cons], int(k > 0))
            if k == 1:
                self.h.append(self.h[cons[0]["n"]])
            elif k:
                g = self.general(cons)
                # only a multiplier common to all connections is moved to the result
                m = cons[0]["mul"] if len({c["mul"] for c in cons}) == 1 else 1
                self.add("general" if g else "unit", {v // m for v in vs})

    def scen(self, quick):
        r = self.r
        for _ in range(r.randint(2, 9)):
            self.build()
            if self.h and r.random() < 0.6:
                self.act()
        for _ in range(r.randint(0, 4)):
            if self.h:
                self.act()
        if self.h:
            self.check()
        return {"nv": self.nv, "gap": r.choice([0, 0, 3]), "ops": self.ops}

    def check(self):
        r = self.r
        roots = [len(self.h) - 1] + ([r.randrange(len(self.h))] if r.random() < 0.5 else [])
        self.op({"op": "check", "roots": roots}, roots)

    def act(self):
        r = self.r
        n = r.randrange(len(self.h)) if r.random() < 0.4 else len(self.h) - 1
        h = self.h[n]
        vs = h["vals"]
        s = r.random()
        if s < 0.12:
            top = (vs[-1] if vs else 1) + 2
            a, b = sorted([r.randint(0, top), r.randint(0, top)])
            self.op({"op": "obs", "h": n, "a": a, "b": b}, [n])
        elif s < 0.18:
            c = self.con(n)
            self.op({"op": "conlen", "c": c}, [n])
        elif s < 0.5:
            if not vs:
                return
            for _ in range(r.choice([1, 1, 2, 3])):
                cap = r.choice([0, 1, 2, 3, 5]) if r.random() < 0.08 else -1
                if h["kind"] == "general" or (r.random() < 0.3):
                    v = r.choice(vs) if r.random() < 0.85 else r.randint(1, vs[-1])
                    o = {"op": "def", "h": n, "val": v, "w": 1, "sem": "if"}
                else:
                    o = {"op": "def", "h": n, "val": r.choice(vs), "w": 0, "sem": r.choice(["if", "only", "iff"])}
                o["cap"] = cap if cap >= 0 else -1
                self.op(o, [n])
                if r.random() < 0.1 or cap >= 0:
                    self.check()
        elif s < 0.6:
            c = self.con(n, mul=1, weighted=False)
            if self.general([c]) and c["lim"] > 1:
                c["lim"] = 0
            self.op({"op": "reserve", "c": c}, [n])
        elif s < 0.65:
            if not vs:
                return
            top = vs[-1]
            a, b = sorted([r.randint(0, top), r.randint(0, top)])
            self.op({"op": "nreserve", "h": n, "a": a, "b": b}, [n])
        elif s < 0.72:
            self.check()
            self.op({"op": "reset", "sem": r.choice(["if", "only", "iff"])})
        elif s < 0.74:
            self.op({"op": "resetv"})
        elif s < 0.82:
            self.op({"op": "value", "h": n}, [n])
        elif s < 0.88:
            self.op({"op": "reserve", "c": {"n": n, "off": 0, "mul": 1, "lim": 0}}, [n])
            for m in range(len(self.h)):
                self.op({"op": "reserve", "c": {"n": m, "off": 0, "mul": 1, "lim": 0}}, [m])
            self.op({"op": "leaves", "h": n}, [n])
        elif s < 0.9:
            self.check()
        else:
            s = r.random()
            if s < 0.35:
                self.op({"op": "drain", "kind": "tail", "a": r.choice([0, 0, 1, 2, 5]), "b": 0})
            elif s < 0.6 or len(self.h) < 2:
                self.op({"op": "drain", "kind": r.choice(["ex", "inc", "from"]), "a": r.randint(0, 30), "b": r.randint(0, 30)})
            else:
                y = r.randrange(1, len(self.h))
                self.op({"op": "drain", "kind": "between", "a": 0, "b": 0, "x": y - 1, "y": y}, [y - 1, y])


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C17", "enc", "ndb", "T_NodeDb"

    def scenarios(self):
        r, out = self.rng, []
        for _ in range(2500 if self.quick() else 60000):
            out.append(Gen(r, r.randint(1, 5)).scen(self.quick()))
        # the pattern in which parts of the database are replaced
        for _ in range(200 if self.quick() else 3000):
            out.append(self.replace())
        return out

    def replace(self):
        r = self.rng
        g = Gen(r, 6)
        vs = list(range(1, 7))
        r.shuffle(vs)
        parts = [vs[:2], vs[2:4], vs[4:]]
        for p in parts:
            g.op({"op": "tree", "lits": p}, push=1)
            g.add("unit", [1, 2])
        if r.random() < 0.5:
            g.op({"op": "dummy"}, push=1)
            g.add("dummy", [])
        for _ in range(3):
            g.act()
        a, b = r.sample([0, 1, 2], 2)
        cons = [{"n": a, "off": 0, "mul": 1, "lim": 0}, {"n": b, "off": 0, "mul": 1, "lim": 0}]
        g.op({"op": "merge", "kind": "merge", "cons": cons}, [a, b], 1)
        g.add("unit", [1, 2, 3, 4])
        for _ in range(3):
            g.act()
        dead = 3 - a - b
        if dead > 0:
            g.op({"op": "drain", "kind": "between", "a": 0, "b": 0, "x": dead - 1, "y": dead}, [dead - 1, dead])
        for p in parts[dead:dead + 1]:
            g.op({"op": "leaf", "lit": p[0]}, push=1)
            g.add("leaf", [1])
        g.op({"op": "dummy"}, push=1)
        g.add("dummy", [])
        for _ in range(4):
            g.act()
        g.check()
        return {"nv": 6, "gap": 0, "ops": g.ops}
