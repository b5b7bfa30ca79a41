import bz2, gzip, itertools, lzma, os
import vt


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C16", "toolx", "toolx", "T_Tools"

    def build(self):
        tgt = vt.build_repo_bins("tools", ["--bins"])
        self.exec_env = {"VT_TOOLS": tgt}
        return super().build()

    def scenarios(self):
        r = self.rng
        kinds = [self.convert] * 4 + [self.shuffle] * 2 + [self.split] * 4 + [self.checksol] * 2 + [self.enumerate, self.propagate] + [self.generate] * 3
        return [r.choice(kinds)() for _ in range(2000 if self.quick() else 30000)]

    # ---- problems
    def lits(self, n):
        r = self.rng
        return [r.choice([-1, 1]) * r.randint(1, self.nv) for _ in range(n)]

    def distinct(self, n):
        r = self.rng
        return [r.choice([-1, 1]) * v for v in r.sample(range(1, self.nv + 1), min(n, self.nv))]

    def clause(self):
        r = self.rng
        n = r.choice([1, 2, 2, 2, 3, 3, 4])
        l = self.distinct(n) if r.random() < 0.7 else self.lits(n)
        return {"k": "cl", "op": "lb", "l": l, "w": [1] * len(l), "b": 1}

    def pb(self):
        r = self.rng
        l = self.distinct(r.randint(1, 4)) if r.random() < 0.7 else self.lits(r.randint(1, 4))
        w = [r.choice([-3, -2, -1, 1, 1, 1, 2, 3, 7]) for _ in l]
        if r.random() < 0.4:
            w = [1] * len(l)
        lo, hi = sum(x for x in w if x < 0), sum(x for x in w if x > 0)
        return {"k": "pb", "op": r.choice(["ub", "lb", "lb", "eq"]), "l": l, "w": w, "b": r.randint(lo - (r.random() < 0.1), hi + (r.random() < 0.1))}

    def weights(self, mode):
        r = self.rng
        return {"unit": 1, "small": r.randint(1, 4), "mid": r.randint(1, 99), "lvl": r.choice([1, 1, 4, 4, 20, 20, 100, 100]), "pow": 2 ** r.randint(0, 6),
                "g": r.choice([1, 2, 7, 14, 21, 50, 100]), "dbl": r.choice([2, 3, 6, 6, 18, 24, 36, 72])}[mode]

    def problem(self, fmt, n):
        r = self.rng
        self.nv = r.randint(1, 4)
        cs = [(self.pb() if fmt == "opb" and r.random() < 0.75 else self.clause()) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        softs, offs = [], [0] * n
        mode = r.choice(["unit", "small", "mid", "lvl", "lvl", "pow", "g", "dbl"])
        for k in range(n):
            for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
                w = self.weights(mode)
                if fmt == "opb":
                    (l,) = self.lits(1)
                    if r.random() < 0.2:
                        offs[k] -= w
                        softs.append({"c": [l], "w": w, "k": k, "t": [-w, l]})
                    else:
                        softs.append({"c": [-l], "w": w, "k": k, "t": [w, l]})
                else:
                    m = r.choice([1, 1, 1, 2, 2, 3])
                    softs.append({"c": self.distinct(m) if r.random() < 0.8 else self.lits(m), "w": w, "k": k})
        if fmt == "mcnf":
            n = max([s["k"] + 1 for s in softs], default=0)
            offs[n:] = []
        return cs, softs, offs

    def used(self, cs, softs):
        return max([abs(l) for c in cs for l in c["l"]] + [abs(l) for s in softs for l in s["c"]] + [0])

    def known(self, src, text, cs, softs):
        """The variables that a file tells about"""
        if src != "cnf" and "p wcnf" not in text:
            self.nv = self.used(cs, softs)

    # ---- files
    def dimacs(self, fmt, cs, softs, hdr_nv):
        r = self.rng
        lines = []
        for c in cs:
            lines.append(("" if fmt == "cnf" else "h ") + "".join(f"{l} " for l in c["l"]) + "0")
        for s in softs:
            pre = f"o {s['k'] + 1} " if fmt == "mcnf" else ""
            lines.append(f"{pre}{s['w']} " + "".join(f"{l} " for l in s["c"]) + "0")
        if fmt != "cnf" and r.random() < 0.4:
            r.shuffle(lines)
        if fmt == "cnf":
            lines.insert(0, f"p cnf {hdr_nv} {len(cs)}")
        if r.random() < 0.3:
            lines.insert(r.randint(0, len(lines)), "c a comment")
        if fmt == "wcnf" and r.random() < 0.2:
            top = sum(s["w"] for s in softs) + 1
            lines = [f"p wcnf {hdr_nv} {len(cs) + len(softs)} {top}"]
            lines += [f"{top} " + "".join(f"{l} " for l in c["l"]) + "0" for c in cs]
            lines += [f"{s['w']} " + "".join(f"{l} " for l in s["c"]) + "0" for s in softs]
        return "\n".join(lines) + "\n"

    def opb(self, cs, softs, n, first):
        r = self.rng
        lit = lambda l: ("~" if l < 0 else "") + f"x{abs(l) - 1 + first}"
        term = lambda w, l: f"{w:+d} {lit(l)} "
        out = []
        if r.random() < 0.7:
            out.append(f"* #variable= {self.nv} #constraint= {len(cs)}")
        for k in range(n):
            out.append("min: " + "".join(term(*s["t"]) for s in softs if s["k"] == k) + ";")
        for c in cs:
            op = {"ub": "<=", "lb": ">=", "eq": "="}[c["op"]]
            out.append("".join(term(w, l) for w, l in zip(c["w"], c["l"])) + f"{op} {c['b']} ;")
        return "\n".join(out) + "\n"

    def pack(self, name, text):
        """Possibly compresses the file"""
        r = self.rng
        x = r.random()
        if x < 0.8:
            return {"name": name, "text": text}
        ext, f = r.choice([(".gz", gzip.compress), (".bz2", bz2.compress), (".xz", lzma.compress)])
        return {"name": name + ext, "hex": f(text.encode()).hex()}

    def out(self, name):
        r = self.rng
        x = r.random()
        return None if x < 0.35 else name + r.choice(["", "", "", ".gz", ".bz2", ".xz"])

    def scen(self, runs, cs=(), softs=(), offs=(), n=0, **kw):
        return {"kind": runs[0]["k"], "nv": self.nv, "cs": list(cs), "softs": [{"c": s["c"], "w": s["w"], "k": s["k"]} for s in softs], "offs": list(offs), "n": n,
                "runs": runs, **kw}

    def io(self, run, f, out):
        """Input by path or standard input, output to a file or standard output"""
        r = self.rng
        run["files"] = [f]
        if out is None and "hex" not in f and r.random() < 0.5 and run["tool"] != "shuffledimacs" and not run.get("pathonly"):
            run["stdin"] = f["name"]
            run["outfile"] = None
        else:
            run["args"] = run["args"] + [f["name"]] + ([out] if out else [])
            run["outfile"] = out
        return run

    def convert(self):
        r = self.rng
        tool = r.choice(["cnf2opb", "wcnf2opb", "mcnf2opb", "opb2cnf", "opb2wcnf", "opb2mcnf", "mo2ilp", "mo2ilp"])
        if tool == "mo2ilp":
            return self.toilp()
        src, dst = tool.split("2")
        n = {"cnf": 0, "wcnf": 1}.get(dst if src == "opb" else src, r.choice([0, 1, 2, 2, 3]))
        cs, softs, offs = self.problem(src, n)
        n = len(offs)
        first = r.choice([0, 1, 1, 1, 3])
        args = [] if first == 1 and r.random() < 0.7 else ["--first-var-idx", str(first)]
        if src == "opb":
            text = self.opb(cs, softs, n, first)
        else:
            text = self.dimacs(src, cs, softs, self.nv)
            if r.random() < 0.5:
                args.append("--avoid-negated-lits")
        self.known(src, text, cs, softs)
        run = {"k": "conv", "tool": tool, "args": args, "fmt": dst, "first": first, "x": {"fmt": dst, "exact": False}}
        self.io(run, self.pack("in." + src, text), self.out("out." + dst))
        return self.scen([run], cs, softs, offs, n)

    def toilp(self):
        r = self.rng
        src = r.choice(["mcnf", "opb"])
        n = r.choice([1, 2, 2, 3])
        cs, softs, offs = self.problem(src, n)
        n = len(offs)
        first = r.choice([0, 1, 1, 3])
        fmt = r.choice(["fgt", "bauss"])
        args = ["--output-format", fmt, "--first-var-idx", str(first), "--unused-vars", "nothing"]
        text = self.opb(cs, softs, n, first) if src == "opb" else self.dimacs(src, cs, softs, self.nv)
        run = {"k": "conv", "tool": "mo2ilp", "args": args, "fmt": fmt, "first": first, "x": {"fmt": fmt, "exact": True}}
        mode = r.choice(["nothing", "remove", "assign-zero", "assign-zero"])
        args[-1] = mode
        seen = {abs(l) for c in cs for l in c["l"]} | {abs(l) for s in softs for l in s["c"]}
        if mode == "remove":
            # the variables that are left are numbered in order
            m = {v: i + 1 for i, v in enumerate(sorted(seen))}
            ren = lambda l: m[abs(l)] * (1 if l > 0 else -1)
            cs = [{**c, "l": [ren(l) for l in c["l"]]} for c in cs]
            softs = [{**s, "c": [ren(l) for l in s["c"]]} for s in softs]
            nv = len(seen)
        elif mode == "assign-zero":
            nv = max(seen or {0})
            cs = cs + [{"k": "cl", "op": "lb", "l": [-v], "w": [1], "b": 1} for v in range(1, nv) if v not in seen]
        else:
            nv = max(seen or {0})
        run["pathonly"] = r.random() < 0.5
        f = self.pack("in." + src, text)
        if not run["pathonly"]:
            args += ["--input-format", src]
        self.io(run, f, self.out("out.txt"))
        self.nv = nv
        return self.scen([run], cs, softs, offs, n)

    def shuffle(self):
        r = self.rng
        src = r.choice(["cnf", "wcnf", "mcnf"])
        n = {"cnf": 0, "wcnf": 1}.get(src, r.choice([1, 2, 3]))
        cs, softs, offs = self.problem(src, n)
        n = len(offs)
        text = self.dimacs(src, cs, softs, self.nv)
        self.known(src, text, cs, softs)
        f = self.pack("in." + src, text)
        run = {"k": "shuf", "tool": "shuffledimacs", "args": [], "fmt": src, "x": {}}
        self.io(run, f, "out." + src + r.choice(["", "", ".gz"]))
        return self.scen([run], cs, softs, offs, n)

    def split(self):
        r = self.rng
        src = r.choice(["wcnf", "wcnf", "opb"])
        dst = r.choice([None, "mcnf", "opb"])
        cs, softs, offs = self.problem(src, 1)
        first = r.choice([0, 1, 1, 3])
        dump = r.random() < 0.6
        if r.random() < 0.4:
            cs, softs = self.tight(src)
        text = self.opb(cs, softs, 1, first) if src == "opb" else self.dimacs(src, cs, softs, self.nv)
        self.known(src, text, cs, softs)
        args = ["--opb-first-var-idx", str(first), "--split-alg", r.choice(["bmo", "gcd", "gbmo", "gbmo"])]
        if dst:
            args += ["--output-format", dst]
        if dump:
            args.append("--always-dump")
        path = r.random() < 0.5
        if not path:
            args += ["--input-format", src]
        if r.random() < 0.2:
            args += ["--max-combs", str(r.randint(1, 8))]
        out = self.out("out.txt")
        fmt = dst or {"wcnf": "mcnf"}.get(src, src)
        run = {"k": "split", "tool": "gbmosplit", "args": args, "fmt": fmt, "first": first, "x": {"dump": dump, "stats": out is not None}, "pathonly": path}
        f = self.pack("in." + src, text)
        self.io(run, f, out)
        return self.scen([run], cs, softs, offs, 1)

    def tight(self, src):
        """Weights where the sum of the light ones is about the least distance between sums of the heavy ones"""
        r = self.rng
        while True:
            heavy = [r.randint(4, r.choice([15, 40])) for _ in range(r.choice([2, 3, 3, 4]))]
            if r.random() < 0.5:
                # a + d and b + c are the closest sums
                a, c, x, g = r.randint(4, 9), r.randint(20, 40), r.randint(3, 6), r.randint(2, 5)
                heavy = [a, a + x, c, c + x + g * r.choice([-1, 1])]
            sums = sorted({sum(c) for k in range(len(heavy) + 1) for c in itertools.combinations(heavy, k)})
            gap = min([b - a for a, b in zip(sums, sums[1:])])
            left = gap + r.choice([-1, 0, 0, 0, 1])
            if left > 0 and gap > 1:
                break
        light = []
        while left > 0 and len(light) < 2:
            light.append(r.randint(1, left) if len(light) < 1 else left)
            left -= light[-1]
        ws = heavy + light
        r.shuffle(ws)
        self.nv = len(ws)
        softs = []
        for v, w in enumerate(ws, 1):
            l = r.choice([-1, 1]) * v
            softs.append({"c": [-l], "w": w, "k": 0, "t": [w, l]} if src == "opb" else {"c": [l], "w": w, "k": 0})
        return [self.clause() for _ in range(r.choice([0, 0, 1]))], softs

    def source(self):
        """A problem in some input format"""
        r = self.rng
        src = r.choice(["cnf", "wcnf", "mcnf", "opb", "opb"])
        n = {"cnf": 0, "wcnf": 1}.get(src, r.choice([0, 1, 2, 3]))
        cs, softs, offs = self.problem(src, n)
        n = len(offs)
        first = r.choice([0, 1, 1, 3]) if src == "opb" else 1
        text = self.opb(cs, softs, n, first) if src == "opb" else self.dimacs(src, cs, softs, self.nv)
        self.known(src, text, cs, softs)
        return src, n, cs, softs, offs, first, text

    def checksol(self):
        r = self.rng
        while True:
            src, n, cs, softs, offs, first, text = self.source()
            if self.nv:
                break
        runs = []
        f = self.pack("in." + src, text)
        for _ in range(r.randint(1, 4)):
            a = [r.choice([0, 1]) for _ in range(self.nv)]
            part = r.random() < 0.15
            if part:
                a = [x if r.random() < 0.8 else -1 for x in a]
            lits = [(i + 1) * (1 if x == 1 else -1) for i, x in enumerate(a) if x >= 0]
            lines = ["s SATISFIABLE", "o 3"] if r.random() < 0.3 else []
            if -1 not in a and len(a) > 1 and r.random() < 0.4:
                lines.append("v " + "".join(map(str, a)))
            else:
                if r.random() < 0.3:
                    r.shuffle(lits)
                if r.random() < 0.3 and len(lits) > 1:
                    k = r.randint(1, len(lits) - 1)
                    lines.append("v " + " ".join(map(str, lits[:k])))
                    lits = lits[k:]
                lines.append("v " + " ".join(map(str, lits)) + " 0")
            sol = "\n".join(lines) + "\n"
            run = {"k": "check", "tool": "check-solution", "args": ["--opb-first-var-idx", str(first), f["name"]], "x": {"a": a}, "outfile": None}
            if r.random() < 0.3:
                run["args"] = run["args"] + ["--file-format", src]
            s = self.pack("sol.txt", sol)
            run["files"] = [f, s]
            if "hex" not in s and r.random() < 0.4:
                run["stdin"] = s["name"]
            else:
                run["args"] = run["args"] + [s["name"]]
            runs.append(run)
        return self.scen(runs, cs, softs, offs, n)

    def enumerate(self):
        r = self.rng
        while True:
            src, n, cs, softs, offs, first, text = self.source()
            if self.nv:
                break
        limit = r.choice([-1, -1, -1, r.randint(1, 4), 0])
        objs = r.random() < 0.7
        args = ["--opb-first-var-idx", str(first)] + ([] if limit < 0 else ["--enumerate-until", str(limit)]) + ([] if objs else ["--no-objective-values"])
        run = {"k": "enum", "tool": "enumerator", "args": args, "x": {"limit": limit, "objs": objs}}
        run["pathonly"] = r.random() < 0.5
        if not run["pathonly"]:
            run["args"] = args + ["--input-format", src]
        self.io(run, self.pack("in." + src, text), None)
        return self.scen([run], cs, softs, offs, n)

    def propagate(self):
        r = self.rng
        while True:
            src = r.choice(["cnf", "cnf", "opb"])
            cs, softs, offs = self.problem(src, 0)
            if cs:
                break
        first = r.choice([0, 1, 1, 3]) if src == "opb" else 1
        if src == "opb":
            self.nv = self.used(cs, softs)
        f = self.pack("in." + src, self.opb(cs, softs, 0, first) if src == "opb" else self.dimacs(src, cs, softs, self.nv))
        runs = []
        for _ in range(r.randint(1, 3)):
            a = self.distinct(r.randint(0, 3))
            if r.random() < 0.1:
                a = self.lits(2)
            ss = []
            for l in a:
                v = abs(l)
                ss.append(r.choice([str(l), ("-" if l < 0 else "") + f"x{v - 1 + first}", ("~" if l < 0 else "") + f"x{v - 1 + first}"]))
            run = {"k": "prop", "tool": "propagator", "args": ["--opb-first-var-idx", str(first), "--input-format", src, "--", f["name"]] + ss, "x": {"a": a}, "files": [f], "outfile": None}
            runs.append(run)
        return self.scen(runs, cs, [], [], 0)

    # ---- generated problems
    def generate(self):
        r = self.rng
        return r.choice([self.knapsack, self.knapsack, self.assignment, self.facility, self.clustering, self.clustering, self.rand, self.bad, self.bad])()

    def pbargs(self, args):
        r = self.rng
        first = r.choice([0, 1, 1, 3])
        return first, ["--first-var-idx", str(first)] + (["--avoid-negated-lits"] if r.random() < 0.5 else []) + args

    def gen(self, g, variants, files):
        """variants: (format, first index, problem name, arguments)"""
        r = self.rng
        runs = []
        for fmt, first, p, args in variants:
            out = None if r.random() < 0.4 else "out.txt"
            run = {"k": "gen", "tool": "encodings", "args": ([out] if out else []) + args, "fmt": fmt, "first": first, "files": files, "outfile": out,
                   "x": {"fmt": fmt, "p": p}}
            if files and r.random() < 0.4:
                run["args"] = [a for a in run["args"] if a != files[0]["name"]]
                run["stdin"] = files[0]["name"]
            runs.append(run)
        return self.scen(runs, g=g)

    def knvariants(self, p, args):
        r = self.rng
        out = []
        for v in r.choice([["pb"], ["cnf"], ["cnf", "pb"], ["single"]]):
            pass
        for v in r.choice([["pb"], ["cnf"], ["cnf", "pb"], ["single"]]):
            if v == "pb":
                first, a = self.pbargs(["knapsack"] + args)
                out.append(("opb", first, p, ["pb"] + a))
            elif v == "single":
                out.append(("wcnf", 1, p, ["cnf", "--single-objective", "knapsack"] + args))
            else:
                out.append(("mcnf", 1, p, ["cnf", "knapsack"] + args))
        return out

    def comment(self, lines):
        r = self.rng
        out = []
        for l in lines:
            if r.random() < 0.15:
                out.append(r.choice(["# comment", "", "  # more"]))
            out.append(l + (r.choice([" # note", "", ""]) if r.random() < 0.2 and l.strip().isdigit() else ""))
        return "\n".join(out) + "\n"

    def knapsack(self):
        r = self.rng
        n = r.randint(1, 5)
        p = r.choice([1, 2, 2, 3])
        w = [r.choice([0, r.randint(1, 9), r.randint(1, 9)]) for _ in range(n)]
        v = [[r.choice([0, r.randint(1, 20), r.randint(1, 20)]) for _ in range(n)] for _ in range(p)]
        cap = r.choice([0, sum(w), r.randint(0, sum(w) + 2), r.randint(0, sum(w) + 2)])
        self.nv = n
        lst = lambda l: "[" + r.choice([",", ", ", " , "]).join(map(str, l)) + "]"
        if r.random() < 0.6:
            rows = ["[" + lst(v[0])] + [lst(x) for x in v[1:]]
            rows = [x + ("," if i + 1 < p else "]") for i, x in enumerate(rows)]
            text = self.comment([str(p), str(n), str(cap)] + rows + [lst(w)])
            args = ["input"]
        else:
            text = self.comment([str(n), str(p), "1"] + [str(x) for o in v for x in o] + [str(x) for x in w] + [str(cap)])
            args = ["input", "--in-format", "v-opt-lib"]
        return self.gen({"k": "knap", "p": p, "w": w, "v": v, "cap": cap}, self.knvariants("knapsack", args + ["in.dat"]), [{"name": "in.dat", "text": text}])

    def assignment(self):
        r = self.rng
        n = r.choice([1, 2, 2, 2, 3])
        p = r.choice([1, 2, 3]) if n < 3 else r.choice([1, 2])
        c = [[[r.randint(0, 20) for _ in range(n)] for _ in range(n)] for _ in range(p)]
        self.nv = n * n
        row = lambda l: "[" + r.choice([",", ", "]).join(map(str, l)) + "]"
        lines = [str(p), str(n)]
        style = r.choice(["lib", "lib", "oneline", "spread"])
        if style == "oneline":
            sp = lambda: r.choice(["", "", " ", "  "])
            join = lambda l: "[" + sp() + (sp() + "," + sp()).join(l) + sp() + "]"
            lines.append(sp() + join([join([row(x) for x in o]) for o in c]) + sp())
        else:
            for k, o in enumerate(c):
                for t, x in enumerate(o):
                    pre = ("[" if k == 0 and t == 0 else "") + ("[" if t == 0 else "")
                    post = "," if t + 1 < n else "]"
                    lines.append(pre + row(x) + post)
                lines.append("," if k + 1 < p else "]")
        first, a = self.pbargs(["assignment", "in.dat"])
        return self.gen({"k": "assign", "p": p, "n": n, "c": c}, [("opb", first, "assignment", ["pb"] + a)], [{"name": "in.dat", "text": self.comment(lines)}])

    def facility(self):
        r = self.rng
        nc, nf = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 2)])
        c = [[[r.randint(0, 30) for _ in range(nf)] for _ in range(nc)] for _ in range(2)]
        o = [[r.randint(0, 30) for _ in range(nf)] for _ in range(2)]
        self.nv = nf * (nc + 1)
        row = lambda l: r.choice(["", " "]) + r.choice([" ", "  "]).join(map(str, l)) + r.choice(["", " "])
        lines = [str(nc), str(nf)]
        for k in range(2):
            lines += [""] + [row(x) for x in c[k]]
        for k in range(2):
            lines += ["", row(o[k])]
        first, a = self.pbargs(["facility-location", "in.dat"])
        return self.gen({"k": "facil", "p": 2, "nc": nc, "nf": nf, "c": c, "o": o}, [("opb", first, "facility location", ["pb"] + a)],
                        [{"name": "in.dat", "text": "\n".join(lines) + "\n"}])

    def clustering(self):
        r = self.rng
        n = r.choice([2, 2, 3, 3, 4, 4])
        names = r.sample(["a", "b", "c_1", "node2", "7", "x_"], n)
        mult, off, dc, hard = r.choice([(1000, 500, 1, 499), (10, 0, 1, 7), (100, 50, 10, 40), (1, 0, 1, 6)])
        lines, e, seen = [], [], []
        pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
        r.shuffle(pairs)
        # every node must appear
        keep = pairs if r.random() < 0.5 else pairs[: r.randint(1, len(pairs))]
        for i, j in keep:
            s = r.choice([mult * 2 + off, -mult * 2 + off, off] + [off + r.randint(-hard - 2, hard + 2) for _ in range(6)])
            x = s - off
            t = "dc" if abs(x) < dc else ("ml" if x > 0 else "cl") if abs(x) > hard else ("sim" if x > 0 else "dis")
            a, b = (i, j) if r.random() < 0.5 else (j, i)
            for v in (a, b):
                if v not in seen:
                    seen.append(v)
            # half a unit towards the value, so that truncation is safe
            val = (s + (0.5 if s > 0 else -0.5 if s < 0 else 0)) / mult
            lines.append(f"{names[a]}{r.choice([' ', '  '])}{names[b]} {val!r}")
            if t != "dc":
                e.append({"i": i + 1, "j": j + 1, "t": t, "w": abs(x)})
        if r.random() < 0.3:
            lines.insert(r.randint(0, len(lines)), r.choice(["% comment", "", "  % more"]))
        lines = [r.choice(["", "", " "]) + x + r.choice(["", "", " "]) for x in lines]
        if r.random() < 0.2:
            v = r.choice(seen)
            lines.append(f"{names[v]} {names[v]} {2.0 + off / mult}")
        single = r.choice(["", "", "outer", "inner"])
        args = ["cnf"] + (["--single-objective"] if single == "outer" else []) + ["clustering"] + (["--single-objective"] if single == "inner" else [])
        if (mult, off, dc, hard) != (1000, 500, 1, 499) or r.random() < 0.3:
            args += ["--multiplier", str(mult), "--offset", str(off), "--dont-care", str(dc), "--hard-threshold", str(hard)]
        self.nv = 1
        sc = self.gen({"k": "clus", "n": n, "e": e}, [("wcnf" if single else "mcnf", 1, "clustering", args + ["in.txt"])], [{"name": "in.txt", "text": "\n".join(lines) + "\n"}])
        sc["runs"][0]["x"].update(vecs=True, single=bool(single))
        return sc

    def bad(self):
        """Input the generators have to refuse: the announced and the actual sizes differ, or there is something unexpected"""
        r = self.rng
        self.nv = 1
        n, p = r.choice([2, 3]), r.choice([1, 2])
        row = lambda m: [str(r.randint(0, 9)) for _ in range(m)]
        off = r.choice([-1, 1])
        kind = r.choice(["knap", "knapv", "assign", "facil", "clus"])
        if kind == "knap":
            v, w = [row(n) for _ in range(p)], row(n)
            what = r.choice(["items", "objs", "weights", "weights", "end", "junk", "cut"])
            if what == "items":
                i = r.randrange(p)
                v[i] = row(n + off)
            elif what == "objs":
                v = [row(n) for _ in range(p + 1)]
            elif what == "weights":
                w = row(n + off)
            lst = lambda l: "[" + ",".join(l) + "]"
            rows = [lst(x) for x in v]
            if what == "junk":
                rows[-1] = rows[-1].replace(",", r.choice([",x", ";", ",-"]), 1)
            text = f"{p}\n{n}\n{r.randint(0, 20)}\n[" + ",\n".join(rows) + ("" if what == "end" else "]") + "\n" + ("" if what == "cut" else lst(w) + "\n")
            args = ["cnf", "knapsack", "input", "in.dat"]
        elif kind == "knapv":
            m = n * p + n + 1
            nums = [str(n), str(p), "1"] + row(m)
            what = r.choice(["cut", "cut", "junk", "constrs"])
            if what == "cut":
                nums = nums[:r.randrange(len(nums))]
            elif what == "junk":
                nums[r.randrange(len(nums))] = r.choice(["x", "-1", "1 2", "[1]"])
            else:
                nums[2] = r.choice(["0", "2", "3"])
            text = "\n".join(nums) + "\n"
            args = ["pb", "knapsack", "input", "--in-format", "v-opt-lib", "in.dat"]
        elif kind == "assign":
            c = [[row(n) for _ in range(n)] for _ in range(p)]
            what = r.choice(["agents", "tasks", "objs", "junk", "cut"])
            k = r.randrange(p)
            if what == "agents":
                c[k][r.randrange(n)] = row(n + off)
            elif what == "tasks":
                c[k] = [row(n) for _ in range(n + off)]
            elif what == "objs":
                c = [[row(n) for _ in range(n)] for _ in range(p + (1 if p == 1 else off))]
            body = "[" + ",\n".join("[" + ",".join("[" + ",".join(x) + "]" for x in o) + "]" for o in c) + "]"
            if what == "junk":
                i = r.randrange(len(body))
                body = body[:i] + r.choice(["x", "[", "]", ";"]) + body[i:]
            elif what == "cut":
                body = body[:r.randrange(len(body))]
            text = f"{p}\n{n}\n{body}\n"
            args = ["pb", "assignment", "in.dat"]
        elif kind == "facil":
            nc, nf = n, r.choice([2, 3])
            c = [[row(nf) for _ in range(nc)] for _ in range(2)]
            o = [row(nf) for _ in range(2)]
            what = r.choice(["row", "open", "cut", "junk"])
            k = r.randrange(2)
            if what == "row":
                c[k][r.randrange(nc)] = row(nf + off)
            elif what == "open":
                o[k] = row(nf + off)
            lines = [str(nc), str(nf)]
            for x in c:
                lines += [""] + [" ".join(y) for y in x]
            for x in o:
                lines += ["", " ".join(x)]
            if what == "cut":
                lines = lines[:r.randrange(len(lines) - 1)]
            elif what == "junk":
                i = r.choice([i for i, x in enumerate(lines) if x])
                lines[i] += r.choice([" x", " -1", " 1.5"])
            text = "\n".join(lines) + "\n"
            args = ["pb", "facility-location", "in.dat"]
        else:
            lines = ["a b 1.0", "b c -0.25"]
            lines.insert(r.randint(0, 2), r.choice(["a", "a c", "a c x", "a c 1.0 2", "a-b c 1.0", "# a", "c, a 1"]))
            text = "\n".join(lines) + "\n"
            args = ["cnf", "clustering", "in.txt"]
        return self.scen([{"k": "bad", "tool": "encodings", "args": ["out.txt"] + args, "files": [{"name": args[-1], "text": text}], "outfile": "out.txt", "x": {"p": kind}}])

    def rand(self):
        r = self.rng
        n, p = r.randint(1, 5), r.choice([1, 2, 3])
        a, b = r.randint(1, 9), r.randint(1, 12)
        g = {"k": "rand", "n": n, "p": p, "vmin": a, "vmax": a + b}
        args = ["random", "--n-items", str(n), "--n-objectives", str(p), "--min-value", str(a), "--max-value", str(a + b),
                "--min-weight", str(r.choice([0, 1, 3])), "--max-weight", str(r.randint(4, 12)), "--cap-fraction", str(r.randint(1, 3)), "--seed", str(r.randint(0, 99))]
        self.nv = n
        first, pa = self.pbargs(["knapsack"] + args)
        return self.gen(g, [("opb", first, "random knapsack", ["pb"] + pa), ("mcnf", 1, "random knapsack", ["cnf", "knapsack"] + args)], [])
