import vt
from checks.c17 import Gen as NdbGen


def norm(op, l, w, b):
    """A constraint over literals as lists of terms of `>=` constraints"""
    ge = {"t": [[c, x] for x, c in zip(l, w)], "b": b}
    le = {"t": [[-c, x] for x, c in zip(l, w)], "b": -b}
    return {"ub": [le], "lb": [ge], "eq": [ge, le]}[op]


class DbGen(NdbGen):
    """Trees of the shared node database, with certified definitions"""

    def act(self):
        r = self.r
        n = r.randrange(len(self.h)) if r.random() < 0.4 else len(self.h) - 1
        h = self.h[n]
        vs = h["vals"]
        s = r.random()
        if s < 0.85:
            if not vs:
                return
            for _ in range(r.choice([1, 1, 2, 3])):
                cap = {"cap": r.choice([0, 1, 2, 3, 5])} if r.random() < 0.08 else {}
                if h["kind"] == "general" or r.random() < 0.3:
                    v = r.choice(vs) if r.random() < 0.85 else r.randint(1, vs[-1])
                    self.op(dict({"op": "def", "h": n, "val": v, "w": 1, "sem": "if"}, **cap), [n])
                else:
                    self.op(dict({"op": "def", "h": n, "val": r.choice(vs), "w": 0, "sem": r.choice(["if", "only", "iff"])}, **cap), [n])
        elif s < 0.95:
            self.op(write(r))

    def build(self):
        k = len(self.ops)
        super().build()
        # dummy nodes are not certified
        if len(self.ops) > k and self.ops[-1]["op"] == "dummy":
            self.ops.pop()
            self.h.pop()

    def check(self):
        pass


def write(r):
    k = r.choice(["comment", "lvl", "taut", "tautdel"])
    return {"op": "write", "k": k, "n": r.randint(0, 3)}


class Api:
    """Sequences of calls to the proof writer"""

    GUAR = ["NONE", "DERIVABLE IMPLICIT", "DERIVABLE FILE", "EQUISATISFIABLE IMPLICIT", "EQUISATISFIABLE FILE",
            "EQUIOPTIMAL IMPLICIT", "EQUIOPTIMAL FILE"]

    def __init__(self, rng):
        self.r = rng
        self.n = rng.choice([0, 0, 1, 2, 3, 4])
        self.next = self.n + 1
        self.lev = {i: 0 for i in range(1, self.n + 1)}
        self.lvl = 0
        self.pv = 0
        self.opt = rng.randint(0, 1)
        self.orders = []

    def var(self):
        r = self.r
        s = r.random()
        if s < 0.7 or (s < 0.85 and self.pv == 0):
            return r.choice([1, 1, 2, 3, 4, 17])
        return 1000 + r.randrange(self.pv) if s < 0.85 else r.randint(2000, 2003)

    def lit(self):
        return self.r.choice([1, -1]) * self.var()

    def lits(self, lo=0):
        return [self.lit() for _ in range(self.r.randint(lo, 4))]

    def coef(self):
        return self.r.choice([1, 1, 2, 3, -1, -2, 7])

    def constr(self):
        return {"t": [[self.coef(), self.lit()] for _ in range(self.r.randint(0, 4))], "b": self.r.randint(-3, 5)}

    def id(self):
        """One of the constraints there are, absolute or relative"""
        i = self.r.choice(sorted(self.lev))
        return i - self.next if self.r.random() < 0.4 else i

    def ids(self, lo=0):
        return [self.id() for _ in range(self.r.randint(lo, 3))] if self.lev else []

    def tree(self, d):
        """An expression and whether it is empty"""
        r = self.r
        s = r.random()
        if d == 0 or s < 0.25:
            if self.lev and r.random() < 0.6:
                return ["id", self.id()], False
            return (["empty"], True) if r.random() < 0.06 else (["ax", self.lit()], False)
        a, ea = self.tree(d - 1)
        if r.random() < 0.006:
            return ["weak", a], ea
        if s < 0.65:
            b, eb = self.tree(d - 1)
            return ["add", a, b], ea and eb
        if s < 0.8:
            m = r.choice([1, 2, 3, 5]) if r.random() < 0.95 else 0
            return ["mul", a, m], ea or m == 0
        return (["div", a, r.choice([1, 2, 3])] if s < 0.9 else ["sat", a]), ea

    def pol(self):
        for _ in range(9):
            x, empty = self.tree(self.r.randint(0, 4))
            if not empty:
                return x
        return ["ax", 1]

    def der(self):
        if self.r.random() < 0.5:
            return {"d": "pol", "x": self.pol()}
        return {"d": "rup", "c": self.constr(), "h": self.ids()}

    def goal(self):
        r = self.r
        g = {"g": "#", "n": r.randint(1, 3)} if r.random() < 0.5 or not self.lev else {"g": "id", "n": self.id()}
        return dict(g, ders=[self.der() for _ in range(r.randint(0, 3))], late=r.randint(0, 1))

    def goals(self):
        return [self.goal() for _ in range(self.r.choice([0, 0, 1, 2]))]

    def sub(self):
        return [self.goal() if self.r.random() < 0.6 else {"g": "-", "n": 0, "ders": [self.der()], "late": 0}
                for _ in range(self.r.choice([0, 0, 0, 1, 2, 3]))]

    def witness(self):
        r = self.r
        return [[self.var(), k, self.lit() if k == "l" else 0] for k in [r.choice("tfl") for _ in range(r.choice([0, 1, 1, 2, 3]))]]

    def concl(self):
        r = self.r
        k = r.choice(["NONE", "SAT", "UNSAT", "BOUNDS"])
        c = {"k": k, "id": 0, "lits": [], "lb": 0, "ub": 0}
        if k in ("UNSAT", "BOUNDS") and r.random() < 0.6:
            c["id"] = r.choice([-1, -2, 1, 5, 12])
        if k in ("SAT", "BOUNDS") and r.random() < 0.6:
            c["lits"] = self.lits(1)
        if k == "BOUNDS":
            c["lb"], c["ub"] = sorted(r.randint(-4, 9) for _ in range(2))
        return c

    def typed(self):
        """A constraint, in one of the types it can be given as"""
        r = self.r
        ck = r.choice(["own", "own", "clause", "cl", "card", "pb"])
        if ck == "own":
            return {"c": self.constr(), "ck": ck, "rc": {}}
        l = [r.choice([1, -1]) * v for v in r.sample(range(1, 8), r.randint(0, 4))]
        if ck in ("clause", "cl"):
            return {"c": {"t": [[1, x] for x in l], "b": 1}, "ck": ck, "rc": {"l": l}}
        op = r.choice(["ub", "lb"])
        w = [1 if ck == "card" else r.choice([1, 2, 3, -1, -2]) for _ in l]
        b = r.randint(0, 4) if ck == "card" else r.randint(-3, 6)
        return {"c": norm(op, l, w, b)[0], "ck": ck, "rc": {"op": op, "l": l, "w": w, "b": b}}

    def new(self, k=1):
        self.next += k - 1
        self.lev[self.next] = self.lvl
        self.next += 1

    def subids(self, sub):
        return sum(1 if g["g"] == "-" else 1 + len(g["ders"]) for g in sub)

    def range(self):
        """Two bounds that are not the wrong way around"""
        r = self.r
        for _ in range(20):
            b = []
            for _ in range(2):
                k = r.choice("iieu")
                i = r.randint(1, self.next - 1) if self.next > 1 else 1
                b.append([k, i - self.next if r.random() < 0.4 and self.next > i else i])
            ab = [x[1] if x[1] > 0 else self.next + x[1] for x in b]
            lo = {"i": ab[0], "e": ab[0] + 1, "u": 1}[b[0][0]]
            hi = {"i": ab[1] + 1, "e": ab[1], "u": self.next}[b[1][0]]
            if lo < hi:
                return b[0], b[1], range(lo, hi)
        return None

    def order(self):
        r = self.r
        vs = r.sample([1, 2, 3, 9], r.randint(1, 3))
        used = set()

        def ov(fresh):
            v = r.choice(vs)
            used.add(v)
            return r.choice([1, -1]) * (v + r.choice([3000, 4000, 5000] if fresh else [3000, 4000]))

        def oc(fresh):
            return {"t": [[self.coef(), ov(fresh)] for _ in range(r.randint(1, 3))], "b": r.randint(-1, 3)}

        def goal(i):
            return {"g": "#", "n": i, "late": 0, "ders": [{"d": "rup", "c": oc(True), "h": self.ids()} for _ in range(r.randint(0, 2))]}
        k = r.randint(0, 3)
        o = {"r": "order", "name": "o%d" % len(self.orders), "def": [oc(False) for _ in range(k)],
             "trans": [goal(i + 1) for i in range(k)], "hasrefl": int(k > 0 and r.random() < 0.5), "refl": []}
        if o["hasrefl"]:
            o["refl"] = [goal(i + 1) for i in range(k)]
        u = sorted(used)
        o.update(left=[3000 + v for v in u], right=[4000 + v for v in u], fresh=[5000 + v for v in u])
        self.orders.append(o["name"])
        return o

    def op(self):
        r = self.r
        k = r.choice(["pol"] * 5 + ["rup", "rup", "red", "red", "dom", "e", "ea", "i", "ia", "del", "delr", "delspec", "delc", "deld",
                                    "core", "corer", "sol", "solx", "soli", "obju", "eobj", "lvl", "wipe", "s2c", "f", "comment",
                                    "load", "newpv", "newpv", "order", "defconcl"])
        if k == "pol":
            o = {"x": self.pol()}
            self.new()
        elif k == "rup":
            o = dict(self.typed(), h=self.ids())
            self.new()
        elif k in ("red", "dom"):
            o = {"c": self.constr(), "w": self.witness(), "sub": self.sub()}
            self.new(2 + self.subids(o["sub"]) if o["sub"] else 1)
        elif k in ("e", "ea", "i", "ia"):
            o = dict(self.typed(), id=self.id() if self.lev and r.random() < 0.6 else 0)
            if k in ("ea", "ia"):
                self.new()
        elif k in ("del", "delc", "deld", "core"):
            ids = self.ids(1)
            if not ids:
                return None
            o = {"ids": ids}
            gone = [i if i > 0 else self.next + i for i in ids]
            if k == "del":
                o["sub"] = self.sub()
            if k != "core":
                for i in gone:
                    self.lev.pop(i, None)
            if k == "del" and o["sub"]:
                self.next += 1 + self.subids(o["sub"])
        elif k in ("delr", "corer"):
            b = self.range()
            if b is None:
                return None
            o = {"a": b[0], "b": b[1]}
            if k == "delr":
                for i in b[2]:
                    self.lev.pop(i, None)
        elif k == "delspec":
            o = self.typed()
            if o["ck"] != "own":
                return None
            o["c"]["b"] = r.randint(1000, 2000)
        elif k in ("sol", "solx", "soli"):
            if r.random() < 0.5:
                l = self.lits()
            else:
                l = [r.choice([1, -1]) * v for v in r.sample(range(1, 6), r.randint(0, 5))]
            if len({abs(x) for x in l}) < len(l):
                return None
            o = {"lits": l}
            if k != "sol":
                self.new()
        elif k in ("obju", "eobj"):
            if not self.opt:
                return None
            rs = int(k == "eobj" and r.random() < 0.4)
            if rs:
                t = [[r.randint(1, 5), r.choice([1, -1]) * v] for v in r.sample(range(1, 7), r.randint(0, 4))]
                if len(t) > 1 and r.random() < 0.5:
                    t = [[t[0][0], x] for _, x in t]
            else:
                t = [[self.coef(), self.lit()] for _ in range(r.randint(0, 4))]
            o = {"o": {"t": t, "b": r.choice([0, 0, 1, 4, -3])}}
            if k == "eobj":
                o["rs"] = rs
            else:
                o["k"] = r.choice(["new", "diff"])
                o["sub"] = self.goals() if o["k"] == "new" else []
                self.next += self.subids(o["sub"])
        elif k == "lvl":
            self.lvl = r.randint(0, 3)
            o = {"n": self.lvl}
        elif k == "wipe":
            o = {"n": r.randint(1, 3)}
            self.lev = {i: l for i, l in self.lev.items() if l < o["n"]}
        elif k == "s2c":
            o = {"v": r.choice(["on", "off"])}
        elif k == "f":
            o = {"n": self.n}
        elif k == "comment":
            m = r.randint(0, 1)
            o = {"m": m, "text": r.choice(["a", "pol 1", "", "rup 1 x1 >= 1 ;"] + (["a\nb", "a\n\npol 1\n", "f 3\r\nf 4"] if m else []))}
        elif k == "load":
            o = {"name": r.choice(self.orders) if self.orders else "other", "vars": [self.var() for _ in range(r.randint(0, 3))]}
        elif k == "newpv":
            self.pv += 1
            o = {}
        elif k == "order":
            o = self.order()
        else:
            o = {"out": r.choice(self.GUAR), "concl": self.concl()}
        return dict(o, r=k)

    def scen(self):
        r = self.r
        inputs = [{"t": [[self.coef(), self.lit()] for _ in range(r.randint(0, 3))], "b": r.randint(-2, 4)} for _ in range(self.n)]
        start = {"out": r.choice(self.GUAR), "concl": self.concl()} if r.random() < 0.3 else None
        ops = [o for o in (self.op() for _ in range(r.randint(1, 14))) if o]
        end = {"r": r.choice(["drop", "conclude"]), "out": r.choice(self.GUAR), "concl": self.concl()}
        return {"n": self.n, "inputs": inputs, "judge": 0, "opt": self.opt, "obj": {"t": [], "b": 0}, "start": start, "nv": 4,
                "ops": ops, "end": end}


class CHECK(vt.Check):
    models = {"quick": [("MC_Proof", {"NV": 3, "Depth": 1})],
              "thorough": [("MC_Proof", {"NV": 3, "Depth": 1, "Coef": 2}), ("MC_Proof", {"Depth": 2}), ("MC_Proof", {"Depth": 1, "Coef": 3})]}
    prop, pkg, bin, trace = "C13", "prf", "prf", "T_Proof"

    def scenarios(self):
        q = self.quick()
        out = []
        for gen, n in ((self.enc, 500), (self.constr, 700), (self.dbs, 400), (self.api, 500)):
            for _ in range(n if q else n * 20):
                s = gen()
                if s:
                    out.append(s)
        return out

    def base(self, inputs, nv, ops):
        r = self.rng
        return {"n": len(inputs), "inputs": inputs, "judge": 1, "opt": 0, "obj": {"t": [], "b": 0}, "nv": nv,
                "concl": r.choice(["drop", "explicit"]), "ops": ops}

    def rconstr(self, nv):
        r = self.rng
        n = r.randint(1, 3)
        return {"t": [[r.choice([1, 1, 2, -1, -2]), r.choice([1, -1]) * v] for v in r.sample(range(1, nv + 1), min(n, nv))], "b": r.randint(-1, 2)}

    def lits(self, n, nv):
        r = self.rng
        if r.random() < 0.15:
            return [r.choice([1, -1]) * r.randint(1, nv) for _ in range(n)]
        return [r.choice([1, 1, -1]) * v for v in r.sample(range(1, nv + 1), min(n, nv))]

    def range(self, top):
        r = self.rng
        a, b = sorted([r.randint(0, top), r.randint(0, top)])
        if r.random() < 0.3:
            b = a
        lo = r.choice([["i", a], ["i", a], ["i", a], ["u", 0], ["e", a]])
        hi = r.choice([["i", b], ["i", b], ["e", b + 1], ["e", b], ["u", 0]])
        if lo[0] == "e" and hi[0] == "e" and a == b:
            hi = ["i", b]
        return lo, hi

    def enc(self):
        r = self.rng
        nv = r.randint(1, 6)
        ops, en = [], []
        for _ in range(r.choice([1, 1, 1, 2])):
            ty = r.choice(["tot", "tot", "gte", "gte", "inv", "dbl", "card", "cinv"])
            n = r.randint(0, nv)
            l = [[x, 1 if ty in ("tot", "cinv") else r.choice([1, 1, 2, 2, 3, 4, 5])] for x in self.lits(n, nv)]
            ops.append({"op": "make", "ty": ty, "l": l})
            en.append([ty, sum(w for _, w in l), len(l)])
        for _ in range(r.randint(1, 6)):
            i = r.randrange(len(en))
            ty = en[i][0]
            if r.random() < 0.25:
                l = [[x, 1 if ty in ("tot", "cinv") else r.choice([1, 2, 3])] for x in self.lits(r.randint(0, 2), nv)]
                if en[i][2] + len(l) > 8:
                    continue
                en[i][1] += sum(w for _, w in l)
                en[i][2] += len(l)
                ops.append({"op": "extend", "i": i, "l": l})
            elif r.random() < 0.15:
                ops.append(write(r))
            else:
                k = {"tot": r.choice(["ub", "lb", "both"]), "gte": "ub", "inv": "lb", "dbl": r.choice(["ub", "lb", "both"]),
                     "card": r.choice(["ub", "lb", "both"]), "cinv": r.choice(["ub", "lb", "both"])}[ty]
                a, b = self.range(en[i][1] + 1)
                o = {"op": "encode", "i": i, "k": k, "chg": int(r.random() < 0.6), "a": a, "b": b}
                if r.random() < 0.08:
                    o["cap"] = r.choice([0, 1, 2, 3, 5, 8])
                ops.append(o)
        inputs = [self.rconstr(nv) for _ in range(r.choice([0, 0, 1, 2]))]
        return self.base(inputs, nv, ops)

    def constr(self):
        r = self.rng
        nv = r.randint(1, 6)
        inputs, cs = [], []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            op = r.choice(["ub", "lb", "eq"])
            n = r.randint(0, nv) if r.random() < 0.2 else r.randint(min(2, nv), nv)
            l = self.lits(n, nv)
            if r.random() < 0.5:
                w = [1] * len(l)
                b = r.randint(0, len(l) + 1)
                c = {"k": "card", "op": op, "l": l, "w": w, "b": b}
            else:
                s = r.random()
                if s < 0.3:
                    u = r.choice([1, 2, 3])
                    w = [r.choice([u, u, -u]) for _ in l]
                    b = r.randint(sum(x for x in w if x < 0) - 1, sum(x for x in w if x > 0) + 1)
                else:
                    w = [r.choice([1, 1, 2, 2, 3, 4, 5, -1, -2, -3]) for _ in l]
                    b = r.randint(sum(x for x in w if x < 0) - 1, sum(x for x in w if x > 0) + 1)
                c = {"k": "pb", "op": op, "l": l, "w": w, "b": b}
            cs.append((len(inputs) + 1, c))
            inputs += norm(op, l, w, b)
        if r.random() < 0.3:
            inputs.append(self.rconstr(nv))
        ops = []
        for i, c in cs:
            if r.random() < 0.15:
                ops.append(write(r))
            enc = r.choice(["def", "spec", "direct"])
            if enc == "direct":
                enc = r.choice({"card": ["tot", "cinv"], "pb": {"ub": ["gte"], "lb": ["inv"], "eq": []}[c["op"]] + ["dbl", "card"]}[c["k"]])
            o = {"op": "constr", "id": i, "enc": enc, "c": c}
            if r.random() < 0.05:
                o["cap"] = r.choice([0, 1, 2, 3, 5, 8])
            ops.append(o)
        return self.base(inputs, nv, ops)

    def dbs(self):
        r = self.rng
        g = DbGen(r, r.randint(1, 5))
        s = g.scen(True)
        ops = [{k: v for k, v in o.items() if k not in ("uses", "push")} for o in s["ops"]]
        if r.random() < 0.3 and any(o["op"] == "def" for o in ops):
            ops.append({"op": "delsem"})
        inputs = [self.rconstr(g.nv) for _ in range(r.choice([0, 0, 1, 2]))]
        return self.base(inputs, g.nv, ops)

    def api(self):
        return Api(self.rng).scen()
