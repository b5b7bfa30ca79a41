"""Call histories for the solver interfaces"""
import os, json
import vt

OTHERS = ["batsat", "minisat", "minisat-simp", "glucose", "glucose-simp", "cadical", "ipasir", "sim-minisat"]
KISSAT = ["kissat", "sim-kissat"]
PHASED = {"minisat", "minisat-simp", "glucose", "glucose-simp", "cadical"}
FREEZE = {"minisat-simp", "glucose-simp", "cadical"}
LIMITS = {"minisat": ["conf", "prop"], "minisat-simp": ["conf", "prop"], "glucose": ["conf", "prop"], "glucose-simp": ["conf", "prop"], "cadical": ["conf", "dec"]}
PROP = PHASED
INTR = PHASED | {"kissat"}
TERM = {"cadical", "ipasir", "kissat", "batsat"}
LEARN = {"cadical", "ipasir"}
NOASS = {"kissat"}


class SolverCheck(vt.Check):
    pkg, bin, trace = "slv", "solv", "T_Solver"
    scen_limit = 60

    def build(self):
        return (vt.build("slv", ["solv"])[0], vt.build("slvk", ["solvk"])[0])

    def exec_shard(self, exe, scen, trace):
        ls = open(scen).read().splitlines()
        parts = [[x for x in ls if json.loads(x)["b"] not in KISSAT], [x for x in ls if json.loads(x)["b"] in KISSAT]]
        out = b""
        for e, p, n in zip(exe, parts, "ab"):
            if p:
                open(scen + n, "w").write("\n".join(p) + "\n")
                vt.run_exec(e, scen + n, trace + n, self.scen_limit, 700 if self.quick() else 6000, self.exec_env)
                out += open(trace + n, "rb").read()
        open(trace, "wb").write(out)

    # ---- pieces of histories ----
    def lit(self, nv, extra=0):
        return self.rng.choice([1, -1]) * self.rng.randint(1, nv + extra)

    def clause(self, nv):
        r = self.rng
        n = r.choices([0, 1, 2, 3, 4], [1, 8, 40, 35, 12])[0]
        c = [self.lit(nv) for _ in range(n)]
        if r.random() < 0.04 and c:
            c.append(r.choice([-c[0], c[0]]))
        return c

    def near(self, nv, m):
        """A clause that the assignment m satisfies by few literals"""
        r = self.rng
        vs = r.sample(range(1, nv + 1), min(nv, r.choice([1, 2, 2, 3, 3, 4])))
        c = [-v if m & (1 << v) else v for v in vs]
        i = r.randrange(len(c))
        c[i] = -c[i]
        return c

    def add(self, b, nv, n=None):
        r = self.rng
        n = n if n is not None else r.choices([0, 1, 2, 4, 8, 14], [1, 5, 5, 4, 3, 2])[0]
        m = self.m if r.random() < 0.7 else r.getrandbits(nv + 1)
        # the ways of adding without a result panic on an error
        how = r.randrange(5) if b in ("kissat", "glucose-simp") else r.randrange(9)
        if b == "glucose-simp":
            n = min(n, 1)
        return {"o": "add", "cs": [self.near(self.cv, m) if r.random() < 0.75 else self.clause(self.cv) for _ in range(n)], "how": how}

    def start(self, b, nv):
        """Clauses to begin with"""
        r = self.rng
        n = r.choice([nv, 2 * nv, 4 * nv])
        return [self.add(b, nv, 1) for _ in range(n)] if b == "glucose-simp" else [self.add(b, nv, n)]

    def assumps(self, nv):
        r = self.rng
        x = r.random()
        if x < 0.1:
            return []
        a = [self.lit(nv) for _ in range(r.choice([1, 1, 2, 3, nv]))]
        if x < 0.5:
            a = [v if self.m & (1 << v) else -v for v in r.sample(range(1, nv + 1), r.randint(1, nv))]
            if r.random() < 0.4:
                a[r.randrange(len(a))] *= -1
        if x > 0.85:
            a.append(r.choice(a))
        if x > 0.93:
            a.insert(r.randrange(len(a) + 1), -r.choice(a))
        if r.random() < 0.08:
            # a long list, of few literals
            v = r.randint(1, nv)
            a = [v if self.m & (1 << v) else -v] * r.choice([17, 33, 65, 130, 300]) + a
        return a

    def solve(self, b, nv, p=0.5):
        r = self.rng
        if b in NOASS or r.random() > p:
            return {"o": "solve", "as": False, "a": []}
        a = self.assumps(nv)
        return {"o": "solve", "as": True, "a": a}
