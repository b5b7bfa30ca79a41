import re
import vt

LIM = 10 ** 17
U64, I64, I32, U32 = 2 ** 64 - 1, 2 ** 63 - 1, 2 ** 31 - 1, 2 ** 32 - 1
MAXIDX = (2 ** 32 - 1) // 2


def tok(text, sp, first=1, fmt="cnf"):
    """The record of a token: what its characters are, nothing about what they mean"""
    t = {"sp": sp}
    if re.fullmatch(r"[+-]?[0-9]+", text):
        v = int(text)
        d = text.lstrip("+-")
        a = min(abs(v), 2 * LIM)
        t.update(k="int", big=[a // 10 ** 9, a % 10 ** 9], neg=v < 0, sign=text[0] in "+-",
                 canon=(d == "0" and text == "0") or (d[0] != "0" and (text[0] != "+" or fmt == "opb")),
                 i32=-I32 <= v <= I32, u32=0 <= v <= U32, u64=0 <= v <= U64, i64=-I64 <= v <= I64,
                 small=not (LIM < abs(v) <= U64), v=v if abs(v) <= I32 else 0)
        # numbers near the limits of the machine are not judged
        if not t["small"] and t["canon"]:
            t["canon"] = False
        return t
    m = re.fullmatch(r"([~-]?)x([0-9]+)", text)
    if m:
        v = int(m[2])
        canon = m[2] == "0" or m[2][0] != "0"
        lit = v - first + 1
        loose = canon and first <= v and lit > 2 ** 31 - 1 and v - first <= MAXIDX
        t.update(k="var", bad=not canon or v < first or v > U32 or v - first > MAXIDX, loose=loose,
                 lit=(-lit if m[1] else lit) if 0 < lit <= I32 else 0)
        return t
    if text in ("<=", ">=", "<", ">", "=", "=>", "==", "=<", "!=", "><", "<>"):
        return {**t, "k": "op", "op": text}
    if text == ";":
        return {**t, "k": "end"}
    return {**t, "k": "word", "w": text, "c": text[0]}


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C09", "inst", "fio", "T_Parse"

    def scenarios(self):
        q = self.quick()
        files = [self.file() for _ in range(5000 if q else 100000)] + [self.file("tiny") for _ in range(1200 if q else 20000)]
        files += [self.zipped() for _ in range(400 if q else 8000)]
        lits = [self.litsc() for _ in range(300 if q else 4000)]
        raws = [self.raw(self.rng.choice(files)) for _ in range(1200 if q else 40000)]
        return files + lits + raws

    # ---- pieces ----
    def num(self, lo, hi):
        r = self.rng
        x = r.random()
        if x < 0.9:
            return str(r.randint(lo, hi))
        if x < 0.96:
            return str(r.choice([1, -1]) * r.choice([10 ** 9 - 1, 10 ** 9, 10 ** 9 + 1, 2 ** 32, 2 ** 45, 10 ** 16, r.randint(0, LIM // 10)]))
        return r.choice(["+3", "+1", "007", "-0", "00", str(U64), str(U64 + 1), str(I64), str(I64 + 1), str(-I64 - 1), str(-I64), str(-I64 - 2), "9" * 30,
                         str(2 ** 62), str(U64 - 1), str(I64 - 1), str(LIM + 1)])

    def lit(self):
        r = self.rng
        x = r.random()
        if x < 0.985:
            return str(r.choice([-1, 1]) * r.randint(1, self.nv))
        return r.choice(["+1", "01", "-0", str(I32), str(-I32), str(I32 + 1), str(-I32 - 1), "x1", "1.5", "--1", "-", "1e3", "٣"])

    def word(self):
        r = self.rng
        return r.choice(["p", "cnf", "wcnf", "h", "o", "c", "x", "abc", "%", "min:", "max:", "*", "v", "s", "~", "-", "+", "max", "min", "hh", "#", "é", "x0x", "::", "0x1",
                         "~1", "~~x1", "1,", "c0", "C", "H"])

    def tiny(self):
        """statements whose meaning changes with every small change of the bound or the operator"""
        r = self.rng
        lines = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t, cs = [], []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                cs.append(r.choice([-2, -1, 0, 1, 1, 2]))
                t += [(r.choice(["", "+"] if cs[-1] >= 0 else [""]) + str(cs[-1]), False),
                      (r.choice(["", "", "~", "-"]) + "x" + str(r.randint(self.first, self.first + self.nv - 1)), False)]
            b = sum(r.sample(cs, r.randint(0, len(cs)))) + r.choice([0, 0, 0, 1, -1])
            lines.append(t + [(r.choice([">=", "=", "<=", "<", ">"]), bool(t) and r.random() < 0.3), (str(b), r.random() < 0.3)] + ([(";", True)] if r.random() < 0.9 else []))
        return lines

    def file(self, kind=None):
        r = self.rng
        self.nv = r.randint(1, 4)
        self.first = r.choice([1, 1, 1, 0, 2])
        fmt = "opb" if kind else r.choice(["cnf", "wcnf", "wcnf", "mcnf", "opb", "opb", "opb"])
        lines = getattr(self, kind or fmt)()
        # damage
        if not kind and r.random() < 0.35:
            for _ in range(r.choice([1, 1, 2])):
                self.damage(lines, fmt)
        out, toks = [], []
        cm = "*" if fmt == "opb" else "c"
        for ln in lines:
            s, ts = "", []
            for i, (text, glue) in enumerate(ln):
                # after the start of a comment nothing matters
                sp = i == 0 or not glue
                if i and sp:
                    s += r.choice([" ", " ", " ", "  ", "\t", " \t "])
                s += text
                ts.append(tok(text, sp, self.first, fmt))
            # tokenizing has to be unambiguous
            if r.random() < 0.1:
                s = r.choice([" ", "\t", "  "]) + s
            if r.random() < 0.15:
                s += r.choice([" ", "\t", "  "])
            out.append(s)
            toks.append(ts)
        eol = r.choice(["\n", "\n", "\n", "\r\n"])
        text = eol.join(out) + (eol if r.random() < 0.7 or not out else "")
        return {"kind": "parse", "nv": self.nv, "fmt": fmt, "first": self.first, "lines": toks, "text": text, "hdr": r.random() < 0.3}

    def damage(self, lines, fmt):
        r = self.rng
        if not lines:
            return
        i = r.randrange(len(lines))
        ln = lines[i]
        x = r.random()
        if x < 0.2:
            lines.insert(i, [(self.word(), False)] + [(self.lit(), False) for _ in range(r.randint(0, 2))])
        elif x < 0.4 and ln:
            j = r.randrange(len(ln))
            # a glued token must not fall onto another one
            if j + 1 < len(ln) and ln[j + 1][1]:
                ln[j + 1] = (ln[j + 1][0], False)
            del ln[j]
        elif x < 0.55:
            ln.insert(r.randint(0, len(ln)), (self.word(), False))
            for j in range(len(ln) - 1):
                if ln[j][0] in ("c", "*") or not re.fullmatch(r"[\d+-]*", ln[j][0]) :
                    pass
            self.unglue(ln)
        elif x < 0.7:
            ln.insert(r.randint(0, len(ln)), (self.num(-3, 9), False))
            self.unglue(ln)
        elif x < 0.8:
            del lines[i]
        elif x < 0.9:
            lines.insert(r.randint(0, len(lines)), list(ln))
        elif len(ln) > 1:
            j = r.randrange(len(ln) - 1)
            ln[j], ln[j + 1] = ln[j + 1], ln[j]
            self.unglue(ln)

    def unglue(self, ln):
        """White space wherever a token boundary could otherwise be lost"""
        for j in range(1, len(ln)):
            a, b = ln[j - 1][0], ln[j][0]
            if ln[j][1] and not (re.fullmatch(r"[~-]?x?\d+", a) and re.fullmatch(r"[<>=;]+", b) or a == ";" or
                                 re.fullmatch(r"[<>=]+", a) and re.fullmatch(r"-?\d+", b)):
                ln[j] = (b, False)

    def clause(self, end=True):
        r = self.rng
        c = [(self.lit(), False) for _ in range(r.choice([0, 1, 2, 2, 3, 3]))]
        if not c or r.random() < 0.9:
            c.append(("0", False))
        return c

    def comment(self):
        r = self.rng
        if r.random() < 0.5:
            return [(r.choice(["c", "c", "comment", "cnf", "c0"]), False)] + [(self.word(), False) for _ in range(r.randint(0, 3))]
        return [("c", False)] + self.clause()

    def sprinkle(self, lines):
        r = self.rng
        out = []
        for ln in lines:
            while r.random() < 0.15:
                out.append(self.comment() if r.random() < 0.7 else [])
            out.append(ln)
        while r.random() < 0.15:
            out.append(self.comment() if r.random() < 0.7 else [])
        return out

    def pline(self, name, top=None):
        r = self.rng
        nv = str(r.choice([self.nv, self.nv, r.randint(0, 9)])) if r.random() < 0.96 else r.choice([str(I32), str(I32 + 1), str(U32), str(U32 + 1), "-1", "x"])
        ln = [("p", False), (name, False), (nv, False), (self.num(0, 9) if r.random() < 0.3 else "3", False)]
        if top is not None:
            ln.append((top, False))
        return ln

    def cnf(self):
        r = self.rng
        b = [self.clause() for _ in range(r.choice([0, 1, 2, 3, 4]))]
        return self.sprinkle(([self.pline("cnf")] if r.random() < 0.95 else []) + b)

    def weight(self):
        return self.num(0, 6) if self.rng.random() < 0.5 else str(self.rng.choice([1, 2, 3, 5]))

    def hard(self):
        return [("h", False)] + self.clause()

    def wcnf(self):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4, 5])
        if r.random() < 0.45:
            top = r.choice(["4", "5", "3", "1", "0", "100", self.num(0, 9)])
            b = [[(r.choice([top, self.weight(), self.weight()]), False)] + self.clause() for _ in range(n)]
            return self.sprinkle([self.pline("wcnf", top)] + b)
        return self.sprinkle([self.hard() if r.random() < 0.4 else [(self.weight(), False)] + self.clause() for _ in range(n)])

    def mcnf(self):
        r = self.rng
        b = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
            if r.random() < 0.35:
                b.append(self.hard())
            else:
                o = str(r.choice([1, 2, 3, 1, 2, 3, 10, 99, 100, 101, r.randint(1, 130)]) if r.random() < 0.1 else r.randint(1, 3)) if r.random() < 0.95 else r.choice(["0", "01", "-1", "+1", str(U64), str(U64 + 1), str(I64), str(2 ** 61)])
                b.append([("o", False), (o, r.random() < 0.3), (self.weight(), False)] + self.clause())
        return self.sprinkle(b)

    def terms(self):
        r = self.rng
        t = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4])):
            c = self.num(-5, 5)
            if c.isdigit() and c[0] != "0" and r.random() < 0.2:
                c = "+" + c
            v = r.randint(self.first, self.first + self.nv - 1) if r.random() < 0.98 else \
                r.choice([self.first - 1 if self.first else 0, 2 ** 31, 2 ** 31 - 1, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 10 ** 12, "00", "01"])
            t += [(c, False), (r.choice(["", "", "", "~", "-"]) + "x" + str(v), r.random() < 0.01)]
        return t

    def stmt(self):
        r = self.rng
        if r.random() < 0.2:
            return [(r.choice(["min:", "min:", "max:"]), False)] + self.terms()
        op = r.choice([">=", "=", "<=", "<", ">"]) if r.random() < 0.97 else r.choice(["=>", "==", "=<", "!=", "><"])
        t = self.terms()
        return t + [(op, bool(t) and r.random() < 0.3), (self.num(-6, 9), r.random() < 0.3)]

    def opb(self):
        r = self.rng
        lines, ln = [], []
        objs = 0
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            s = self.stmt()
            if s[0][0] in ("min:", "max:"):
                objs += 1
                if objs > 1 and r.random() < 0.5:
                    continue
            ln = ln + s
            if r.random() < 0.85:
                ln = ln + [(";", r.random() < 0.7)]
                if r.random() < 0.2:
                    continue
            lines.append(ln)
            ln = []
        if ln:
            lines.append(ln)
        if r.random() < 0.3:
            lines.insert(0, [("min:", False)] + self.terms() + [(";", False)])
        out = []
        for ln in lines:
            while r.random() < 0.15:
                out.append([] if r.random() < 0.3 else [("*", False)] + [(self.word(), False) for _ in range(r.randint(0, 3))])
            if r.random() < 0.05 and ln[-1][0] == ";":
                ln = ln + [("*", False), ("foo", False)]
            self.unglue(ln)
            out.append(ln)
        return out

    def zipped(self):
        """read from a path, of any compression, in one or several members, with long comments in front"""
        r = self.rng
        f = self.file(r.choice([None, None, "tiny"]))
        ext = r.choice([".gz", ".bz2", ".xz", ".GZ", ".Bz2", ".xZ", "", ".txt"])
        plain = ext in ("", ".txt")
        f["zip"] = {"ext": ext, "parts": r.choice([1, 1, 2, 3]), "pad": r.choice([0, 0, 5, 100, 200, 2000]), "cut": 0 if plain or r.random() < 0.85 else r.choice([1, 4, 9])}
        return f

    def litsc(self):
        r = self.rng
        self.nv, self.first = 3, r.choice([0, 1, 5])
        if r.random() < 0.4:
            t = self.lit() if r.random() < 0.7 else self.word()
            return {"kind": "lit", "nv": 1, "fmt": "cnf", "first": 1, "text": t, "tok": tok(t, True)}
        t = r.choice(["", "", "~", "-", "+", "~~", "!"]) + "x" + r.choice([str(r.randint(0, 9)), "01", "", str(U32), str(U32 + 1), str(2 ** 31), str(2 ** 31 - 1), str(2 ** 31 + 5), "-1", "1 "])
        return {"kind": "lit", "nv": 1, "fmt": "opb", "first": self.first, "text": t, "tok": tok(t, True, self.first, "opb")}

    def raw(self, f):
        """Bytes: a generated file with random damage at the level of characters"""
        r = self.rng
        b = bytearray(f["text"].encode())
        if r.random() < 0.1:
            b = bytearray(r.randrange(256) for _ in range(r.randint(0, 40)))
        for _ in range(r.randint(1, 6)):
            x = r.random()
            p = r.randint(0, len(b))
            if x < 0.4:
                b[p:p] = r.choice([b"0", b"9", b"-", b"+", b" ", b"\n", b"\r", b"x", b"~", b";", b"c", b"h", b"o", b"p ", b"*", b"\x00", b"\xff", "é".encode(), "\u00a0".encode(),
                                   "\u2028".encode(), b"min:", b">=", b"<", b"=", b"18446744073709551615", b"9223372036854775807", b"2147483648", b"p cnf 4294967295 1",
                                   b"p wcnf 3 3 5", b"\t", b"\x0b", b"\x0c"])
            elif x < 0.7 and b:
                q = min(len(b), p + r.randint(1, 4))
                del b[p:q]
            elif b:
                q = r.randint(0, len(b))
                b[p:p] = b[min(p, q):max(p, q)][:60]
        # an objective index is the size of a table
        s = re.sub(rb"o(\s*)(\d{4,15})(?!\d)", rb"o\g<1>7", bytes(b))
        return {"kind": "raw", "nv": 2, "bytes": list(s)}
