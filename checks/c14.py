import vt

KEYS = ["i32", "u8", "i64", "str", "sstr", "tup", "vec", "opt", "unit"]


class CHECK(vt.Check):
    prop, pkg, bin, trace = "C14", "inst", "varman", "T_VarMan"

    TYS = ("basic", "reindex", "object", "rand")
    models = {"quick": [("MC_VarMan", {"Ty": t}) for t in TYS],
              "thorough": [("MC_VarMan", {"Ty": t, "Depth": 5}) for t in TYS]}

    def scenarios(self):
        return self.short() + [self.history(ty) for ty in ("basic", "reindex", "object", "rand") for _ in range(500 if self.quick() else 12000)]

    def short(self):
        """All short histories of the specification, followed by observations"""
        d = 3 if self.quick() else 4
        out = self.behaviours([("MC_VarMan", {"Ty": t, "Gen": True, "Depth": d}) for t in self.TYS] +
                              [("MC_VarMan", {"Ty": t, "Gen": True, "Depth": 9, "Top": 4}, 100 if self.quick() else 3000, 12) for t in self.TYS])
        for sc in out:
            ty = sc["ops"][0]["ty"]
            gone = {o["j"] for o in sc["ops"] if o["op"] == "combine"}
            for i in range(sum(o["op"] == "make" for o in sc["ops"])):
                if i in gone:
                    continue
                if ty == "reindex" or ty == "rand" and not any(o["op"] in ("forget", "combine") for o in sc["ops"]):
                    for v in range(4):
                        sc["ops"].append({"op": "reindex", "i": i, "v": v, "lit": v % 2 == 0, "neg": v % 4 == 0})
                    for v in range(5):
                        sc["ops"].append({"op": "reverse", "i": i, "v": v, "lit": v % 2 == 1, "neg": v % 3 == 0})
                elif ty == "object":
                    sc["ops"] += [{"op": "object", "i": i, "t": "i32", "k": k} for k in range(2)]
                sc["ops"].append({"op": "newvar", "i": i})
        return out

    def history(self, ty):
        r = self.rng
        ops, live, forgot = [], [], set()
        top = r.choice([4, 8, 20])

        def make():
            n = r.choice([0, 0, r.randint(0, 6)]) if ty != "rand" else r.randint(0, 7)
            d = n == 0 and ty != "rand" and r.random() < 0.7
            ops.append({"op": "make", "ty": ty, "n": n, "default": d})
            live.append(sum(1 for o in ops if o["op"] == "make") - 1)
        make()
        for _ in range(r.randint(3, 16)):
            x = r.random()
            i = r.choice(live)
            if x < 0.06 and len(live) < 3:
                make()
            elif x < 0.12 and len(live) > 1:
                j = r.choice([k for k in live if k != i])
                live.remove(j)
                if j in forgot:
                    forgot.add(i)
                ops.append({"op": "combine", "i": i, "j": j})
            elif x < 0.27:
                ops.append({"op": r.choice(["newvar", "newlit"]), "i": i})
            elif x < 0.35:
                ops.append({"op": "mark", "i": i, "v": r.randint(0, top)})
            elif x < 0.41:
                ops.append({"op": "incr", "i": i, "v": r.randint(0, top)})
            elif x < 0.46:
                forgot.add(i)
                ops.append({"op": "forget", "i": i, "v": r.randint(0, top)})
            elif ty == "object":
                ops.append({"op": "object", "i": i, "t": r.choice(KEYS), "k": r.randint(0, 4)})
            elif ty == "reindex" or (ty == "rand" and i not in forgot):
                ops.append({"op": r.choice(["reindex", "reindex", "reverse"]), "i": i, "v": r.choice([r.randint(0, 5), r.randint(0, top)]),
                            "lit": r.random() < 0.5, "neg": r.random() < 0.5})
            else:
                ops.append({"op": "newvar", "i": i})
        if ty in ("reindex", "rand"):
            i = live[0]
            if not (ty == "rand" and i in forgot):
                for v in range(8):
                    ops.append({"op": "reindex", "i": i, "v": v, "lit": True, "neg": v % 2 == 1})
                for v in range(12):
                    ops.append({"op": "reverse", "i": i, "v": v, "lit": True, "neg": v % 2 == 0})
        ops.append({"op": "newvar", "i": live[0]})
        return {"ops": ops}
