import os, subprocess
import vt, incgen
UMAX = 2 ** 64 - 1
AMO = ["pairwise", "ladder", "bitwise", "commander", "bimander", "twoproduct"]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C15", "capix", "capix", "T_Capi"

    def build(self):
        tgt = vt.build_repo_bins("capi", ["--lib"])
        work = getattr(self, "work", None) or os.path.join(vt.VERIF, "work")
        os.makedirs(work, exist_ok=True)
        so = os.path.join(work, "libcapi.so")
        p = subprocess.run(["gcc", "-shared", "-o", so, "-Wl,--whole-archive", os.path.join(tgt, "librustsat_capi.a"),
                            "-Wl,--no-whole-archive", "-lm", "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise vt.ToolError("linking the C-API failed:\n" + p.stdout[-3000:])
        self.exec_env = {"VT_CAPI": so}
        return super().build()

    def scenarios(self):
        return [self.one() for _ in range(1600 if self.quick() else 30000)]

    def one(self):
        r = self.rng
        nv = r.choice([1, 2, 3, 4, 4, 5] if self.quick() else [1, 2, 3, 4, 5, 6])
        self.sc = {"nv": nv, "ops": []}
        self.hs = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            self.make()
        for _ in range(r.randint(2, 9)):
            live = [h for h in self.hs if not h["dead"]]
            x = r.random()
            if x < 0.05 or not live:
                self.make()
            elif x < 0.09:
                self.op("uservars", None, n=r.randint(1, 3))
            elif x < 0.12:
                h = r.choice(live)
                self.op("drop", h)
                h["dead"] = True
            else:
                self.step(r.choice(live))
        return self.sc

    def op(self, op, h, **kw):
        d = {"op": op, **kw}
        if h is not None:
            d["h"] = h["i"]
        self.sc["ops"].append(d)

    def make(self):
        r = self.rng
        ty = r.choice(["tot", "tot", "gte", "gte", "adder", "adder", "dpw", "dpw", r.choice(AMO)])
        h = {"i": len(self.hs), "ty": ty, "dead": False, "top": 0, "ws": [], "prec": 1, "mode": r.choice(["unit", "small", "mid", "pow", "zero"]),
             "dup": r.random() < 0.3, "used": []}
        self.hs.append(h)
        self.op("make", None, ty=ty)
        for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6])):
            self.add(h)

    def add(self, h):
        r = self.rng
        if r.random() < 0.04:
            self.op("add", h, lit=0, w="3")
            return
        nv = self.sc["nv"]
        vs = [v for v in range(1, nv + 1) if h["dup"] or v not in h["used"]]
        if not vs:
            return
        v = r.choice(vs)
        h["used"].append(v)
        w = {"unit": 1, "small": r.randint(1, 4), "mid": r.randint(1, 12), "pow": 2 ** r.randint(0, 4), "zero": r.randint(0, 3)}[h["mode"]]
        if h["ty"] == "tot" or h["ty"] in AMO:
            w = 1
        if h["ty"] == "dpw":
            w = max(1, w)
        h["top"] += w
        h["ws"].append(w)
        self.op("add", h, lit=r.choice([-1, 1]) * v, w=str(w))

    def step(self, h):
        r, ty = self.rng, h["ty"]
        x = r.random()
        if x < 0.2:
            for _ in range(r.randint(1, 3)):
                self.add(h)
            return
        if ty in AMO:
            self.op("encode", h)
            return
        if x < 0.27:
            self.op("reserve", h)
            return
        kinds = ["ub"] if ty in ("gte", "dpw") else ["ub", "lb"]
        top = max(1, h["top"] // h["prec"])
        if ty == "dpw" and x < 0.45:
            y = r.random()
            if y < 0.35 and h["prec"] > 1:
                h["prec"] //= 2
                self.op("prec", h, d=h["prec"])
            elif y < 0.5 and not any(o["op"] in ("encode", "reserve") and o["h"] == h["i"] for o in self.sc["ops"] if "h" in o):
                h["prec"] = r.choice([2, 4, 8])
                self.op("prec", h, d=h["prec"])
            elif y < 0.55:
                self.op("prec", h, d=r.choice([0, 3, 6]))
            elif y < 0.7:
                self.op("nextprec", h)
            elif y < 0.8:
                self.op("coarse", h, v=r.randint(1, h["top"] + 1))
            else:
                a = r.choice([0, r.randint(0, h["top"])])
                b = r.choice([UMAX, r.randint(a, h["top"] + 1)])
                self.op("limit", h, a=str(a), b=str(b))
                self.enf(h, top, ["ub"], [])
            return
        # (the assumptions of a dynamic polynomial watchdog fix its tare variables: as units they rule out other bounds)
        if x < 0.52 and ty != "dpw":
            self.op("harden", h, k=r.choice(kinds), b=str(r.randint(0, top + 1)))
            return
        a = r.choice([0, r.randint(0, top + 1), r.randint(0, top + 1)])
        b = r.choice([a, r.randint(a, top + 2), r.randint(a, top + 2), UMAX])
        if r.random() < 0.03:
            a = b = UMAX
        self.op("encode", h, k=r.choice(kinds), a=str(a), b=str(b))
        self.enf(h, top, kinds, [a, b, a - 1, b + 1])

    def enf(self, h, top, kinds, more):
        r = self.rng
        c = [x for x in {0, top, top + 1, r.randint(0, top), *more} if 0 <= x <= UMAX]
        r.shuffle(c)
        for b in c[: r.randint(1, 4)]:
            self.op("enforce", h, k=r.choice(kinds), b=str(b))
