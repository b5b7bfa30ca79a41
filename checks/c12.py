import re
import vt

MAX = 2 ** 31 - 1
U32 = 2 ** 32 - 1


def big(n):
    return [n // 10 ** 9, n % 10 ** 9]


def tok(t):
    """Readings of a piece of a value line"""
    n = int(t) if re.fullmatch(r"-?[0-9]+", t) else None
    m = re.fullmatch(r"([~-]?)x([0-9]+)", t)
    pb = 0
    loose = bool(re.fullmatch(r"\+[0-9]+", t) or n is not None and (abs(n) >= 2 ** 31 or re.fullmatch(r"-?0[0-9]+", t)))
    # integers beyond 32 bit are no literals, but their size only matters at the limit
    if n is not None and abs(n) > 2 ** 31:
        loose, n = False, None
    if m:
        pb = int(m[2]) if 0 < int(m[2]) < 2 ** 20 else 0
        loose = m[2][0] == "0" and len(m[2]) > 1 or m[1] == "~"
        if m[1]:
            pb = -pb
    return {"int": n is not None, "v": n if n is not None and abs(n) < 2 ** 31 else 0, "bits": list(t) if re.fullmatch("[01]+", t) else [], "pb": pb, "x": "x" in t,
            "loose": loose}


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C12", "inst", "sout", "T_SolvOut"

    def scenarios(self):
        q = self.quick()
        s = [self.out() for _ in range(2500 if q else 60000)]
        s += [self.asg() for _ in range(700 if q else 15000)]
        s += self.convs(1 if q else 40)
        s += [self.ext() for _ in range(260 if q else 4000)]
        return s

    # ---- outputs ----
    def vlines(self):
        """Value lines, without gigantic assignments"""
        while True:
            ls = self.vlines0()
            if not any(re.fullmatch(r"-?[0-9]+", t) and 999 < abs(int(t)) < 2 ** 31 and not (len(ls) == len(l) == 1 and re.fullmatch("[01]+", t)) for l in ls for t in l):
                return ls

    def vlines0(self):
        r = self.rng
        nv = r.choice([1, 2, 3, 4, 12])
        vs = [v for v in range(1, nv + 1) if r.random() < 0.9]
        if r.random() < 0.15:
            r.shuffle(vs)
        pos = r.random()
        ls = [v if r.random() < pos else -v for v in vs]
        style = r.choice(["flow", "wrap", "single", "pb", "pbwrap", "mse", "flow", "wrap"])
        bad = r.random() < 0.25
        if style == "mse":
            if bad:
                nv = min(nv, 4)
            lines = [["".join(r.choice("01") for _ in range(nv))]]
            if bad:
                x = lines[0][0]
                i = r.randint(0, len(x))
                lines = r.choice([[[x[:i] + r.choice(["2", "-", "a", "_", ","]) + x[i:]]], [[x], [x]], [[x, x]], [[x], ["1", "-2", "0"]]])
            return lines
        pb = style.startswith("pb")
        ts = [("-x%d" % -l if l < 0 else "x%d" % l) if pb else str(l) for l in ls]
        if bad:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randint(0, len(ts))
                x = r.random()
                if x < 0.35 and ls:
                    l = r.choice(ls)
                    ts.insert(i, ("x%d" % l if l > 0 else "-x%d" % -l) if pb else str(l))
                elif x < 0.7 and ls:
                    l = -r.choice(ls)
                    ts.insert(i, ("x%d" % l if l > 0 else "-x%d" % -l) if pb else str(l))
                else:
                    ts.insert(i, r.choice(["a", "1a", "--1", "-", "x", "-x", "x0", "x-1", "1.0", "2147483648", "-2147483649", "99999999999999999999", "+1", "01", "-0", "é", "0",
                                           "x99999999999", "~x1", "1x", "xx1", "s", "v", "1,"]))
        if style in ("flow", "wrap", "single") and r.random() < 0.9:
            ts.append("0")
        n = {"flow": len(ts) or 1, "pb": len(ts) or 1, "single": 1}.get(style, r.randint(1, 4))
        lines = [ts[i:i + n] for i in range(0, len(ts), n)]
        if style == "single" and r.random() < 0.1:
            r.shuffle(lines)
        return lines or [[]]

    def render(self, tag, ts):
        r = self.rng
        s = tag + " "
        for i, t in enumerate(ts):
            s += t if i == 0 else r.choice([" ", " ", " ", "  ", "\t"]) + t
        return s + r.choice(["", "", "", " "])

    def out(self):
        r = self.rng
        lines = []
        sat = r.random() < 0.75
        st = [r.choice(["SATISFIABLE"] * 12 if sat else ["UNSATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "INDETERMINATE"])]
        x = r.random()
        if x < 0.06:
            st = []
        elif x < 0.12:
            st.append(r.choice(["SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "SATISFIABLE"]))
        elif x < 0.2:
            st[0] = r.choice(["SATISFIABLEX", "SAT", "satisfiable", "UNSATISFIABLE!", "UNSAT", "UNKNOWNS", "OPTIMUM FOUND", "", "SATISFIABLE SATISFIABLE", "NOT SATISFIABLE", "UN SATISFIABLE",
                              "INDETERMINATE?", "UNSATISFIABLE SATISFIABLE", "0"])
        kinds = {"SATISFIABLE": "SAT", "UNSATISFIABLE": "UNSAT", "UNKNOWN": "UNKNOWN", "INDETERMINATE": "UNKNOWN"}
        for s in st:
            lines.append((r.choice(["s ", "s ", "s ", "s  "]) + s + r.choice(["", "", "", " "]), {"tag": "s", "st": kinds.get(s, "bad"), "toks": []}))
        if r.random() < (0.93 if sat else 0.15):
            vl = [(self.render("v", ts), {"tag": "v", "st": "", "toks": [tok(t) for t in ts]}) for ts in self.vlines()]
            x = r.random()
            if x < 0.7:
                lines = lines + vl
            elif x < 0.9:
                lines = vl + lines
            else:
                i = r.randint(0, len(vl))
                lines = vl[:i] + lines + vl[i:]
        i = 0
        while i <= len(lines):
            if r.random() < 0.15:
                lines.insert(i, (r.choice(["c", "c s SATISFIABLE", "c v 1 2 0", "", "o 5", "  ", "sat", "value", "c é", "d 3", "vv 1", "c\ts UNSATISFIABLE", " s UNSATISFIABLE", " v 1"]),
                                 {"tag": "c", "st": "", "toks": []}))
                i += 1
            i += 1
        eol = r.choice(["\n", "\n", "\n", "\r\n"])
        b = (eol.join(x[0] for x in lines) + (eol if r.random() < 0.8 else "")).encode()
        sc = {"kind": "out", "lines": [x[1] for x in lines], "bytes": list(b)}
        if r.random() < 0.2:
            b = bytearray(b)
            for _ in range(r.randint(1, 4)):
                p = r.randint(0, len(b))
                if r.random() < 0.6:
                    b[p:p] = r.choice([b"\xff", b"\x00", b"v", b"s ", b"\nv ", b"x", "é".encode(), b"\r", b"\n", b"0", b"-", b"v \n", b"v x"])
                elif b:
                    del b[p:p + r.randint(1, 3)]
            # variables of a gigabyte of assignment are possible but not tried
            sc["bytes"] = list(re.sub(rb"[0-9]{6,}", b"99999999999", bytes(b)))
            sc["raw"] = True
        return sc

    # ---- assignments ----
    def asg(self):
        r = self.rng
        nv = r.choice([1, 2, 4, 6])
        ops = []
        for _ in range(r.randint(2, 10)):
            op = r.choice(["assign_var", "assign_var", "assign_lit", "assign_lit", "truncate", "replace", "set", "from_lits", "from_vals", "vline", "vline", "clone"])
            o = {"op": op, "v": r.randint(1, nv), "x": r.choice("10_"), "l": r.choice([1, -1]) * r.randint(1, nv)}
            if op == "replace":
                o["x"] = r.choice("10")
            if op == "from_lits":
                o["ls"] = [r.choice([1, -1]) * r.randint(1, nv) for _ in range(r.randint(0, 4))]
            if op == "from_vals":
                o["how"] = r.choice(["vec", "iter", "bool"])
                o["xs"] = [r.choice("10" if o["how"] == "bool" else "10_") for _ in range(r.randint(0, nv))]
            if op == "vline":
                ls = self.vlines()
                tags = ["v"] * len(ls)
                if r.random() < 0.1:
                    tags[r.randrange(len(tags))] = r.choice(["s", "c", "x", "é", "V", "λ"])
                o["text"] = "\n".join(self.render(t, ts) for t, ts in zip(tags, ls))
                o["lines"] = [{"tag": t, "st": "", "toks": [tok(x) for x in ts]} for t, ts in zip(tags, ls)]
                if "x" in "".join(tags):
                    o["op"] = "clone"
                o["new"] = r.random() < 0.5
                if r.random() < 0.05:
                    # nothing, or an empty line
                    o["text"], o["lines"] = r.choice([("", [{"tag": "", "st": "", "toks": []}]), ("v 1 -2\n\nv 3 0", [{"tag": "", "st": "", "toks": []}]),
                                                      ("é", [{"tag": "e", "st": "", "toks": []}]), ("é1 2", [{"tag": "e", "st": "", "toks": []}])])
            ops.append(o)
        return {"kind": "asg", "nv": nv, "ops": ops}

    # ---- integers ----
    def convs(self, n):
        r = self.rng
        edge = [0, 1, 2, 3, 5, 127, 2 ** 15, 2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1, MAX - 3, MAX - 2, MAX - 1, MAX]
        over = [MAX + 1, MAX + 2, 2 ** 32 - 2, U32]
        out = []
        for _ in range(n):
            cs = []

            def add(op, how, i, neg, n=0, **kw):
                cs.append({"op": op, "how": how, "i": big(i), "ival": i, "neg": neg, "n": big(n), "nval": n, **kw})
            rnd = [r.randint(0, MAX) for _ in range(4)]
            for neg in (False, True):
                for i in edge + over + rnd:
                    for how in ("Var::new", "Var::new_with_error", "pos_lit", "!Var"):
                        add("var", how, i, neg)
                    for how in ("Lit::new", "Lit::new_with_error", "Lit::positive", "Lit::positive_with_error"):
                        add("lit", how, i, neg)
                    add("var", "json Var", i, neg)
                for i in edge + rnd:
                    add("not", "!Lit", i, neg)
                    add("neg", "-Lit", i, neg)
                    for how in ("Lit::var", "lidx", "unchecked", "unchecked2"):
                        add("copy", how, i, neg)
                    add("serde", "bincode", i, neg)
                    for k in [0, 1, 2, r.randint(0, 9), MAX - i, MAX - i + 1, max(0, MAX - i - 1), i, i + 1, max(0, i - 1), 2 ** 31, U32, r.randint(0, U32)]:
                        for w in ("+", "+=", "-", "-="):
                            for t in ("Var", "Lit"):
                                add("add" if "+" in w else "sub", t + w, i, neg, k)
                for i in [0, 1, 2, 3, 2 ** 30, MAX - 1, MAX] + rnd:
                    add("from_ipasir", "from_ipasir", i, neg and i > 0, ip=-i if neg else i)
            add("from_ipasir", "from_ipasir", 2 ** 31, True, ip=-2 ** 31)
            # numbers in scenarios have to fit
            for c in cs:
                for k in ("ival", "nval"):
                    c[k] = c[k]
            r.shuffle(cs)
            out += [{"kind": "conv", "convs": cs[i:i + 60]} for i in range(0, len(cs), 60)]
        return out

    # ---- external solvers ----
    def ext(self):
        r = self.rng
        mode = r.choice(["answer"] * 10 + ["unknown", "silent", "code", "signal", "contradict", "novals"])
        nv = r.choice([1, 2, 3, 4, 4, 11]) if r.random() < 0.3 else r.randint(1, 4)
        inp = r.choice(["file_first", "file_last", "temp_first", "temp_last", "default", "pipe", "pipe"])
        ops = []
        def clause():
            # several literals over nv variables
            return [r.choice([1, -1]) * r.randint(1, nv) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4]) if r.random() < 0.97 else 0)]
        def probe():
            x = r.random()
            if x < 0.5:
                ops.append({"op": "val", "l": r.choice([1, -1]) * r.randint(1, nv)})
            else:
                ops.append({"op": "sol", "high": r.randint(1, nv + 1)})
        satish = mode in ("contradict", "novals")
        base = [r.choice([1, -1]) * v for v in range(1, nv + 1)]
        n = r.choice([0, 1, 2, 3, 5, 8])
        if satish:
            n = max(n, 1)
        for k in range(n):
            c = clause()
            if satish:
                # satisfiable, and mentioning a variable
                c = c + [r.choice(base)]
            ops.append({"op": "add", "c": c, "n": 1 if r.random() < 0.97 else r.choice([2, 20000]), "how": r.choice(["add", "ref", "cl", "cnf"])})
            if r.random() < 0.05:
                probe()
        if r.random() < 0.97:
            ops.append({"op": "solve"})
            for _ in range(r.randint(1, 4)):
                probe()
            if r.random() < 0.3:
                ops.append({"op": "add", "c": [1], "n": 1, "how": r.choice(["add", "ref", "cl"])})
            if r.random() < 0.3:
                ops.append({"op": "solve"})
            if r.random() < 0.3:
                probe()
        else:
            probe()
        style = r.choice(["flow", "wrap", "single", "pb", "mse"])
        if style == "mse" and (mode != "answer" or nv == 1):
            style = "flow"
        noise = lambda: r.choice([0, 0, 0, 3, 20000])
        return {"kind": "ext", "nv": nv, "ops": ops, "file": r.choice(["in.cnf", "in.cnf", "in.cnf.gz", "in.cnf.bz2", "in.cnf.xz"]), "out": r.choice(["pipe", "pipe", "default", "file"]),
                "fake": {"input": inp, "mode": mode, "style": style, "vfirst": r.random() < 0.3, "pre": noise(), "post": noise(), "zero": r.random() < 0.3}}
