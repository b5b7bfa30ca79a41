"""Random histories for the incremental encodings (richer than TLC's constants allow)"""
UMAX = 18446744073709551615


def rand_lits(rng, nv, n, dup):
    out = []
    for _ in range(n):
        if dup or nv == 0:
            out.append(rng.choice([-1, 1]) * rng.randint(1, max(nv, 1)))
        else:
            v = [x for x in range(1, nv + 1) if x not in [abs(o) for o in out]]
            if not v:
                break
            out.append(rng.choice([-1, 1]) * rng.choice(v))
    return out


def rand_range(rng, top, huge=True):
    def b(v, kinds):
        return [rng.choice(kinds), v]
    r = rng.random()
    if r < 0.25:
        v = rng.randint(0, top + 1)
        return ["i", v], ["i", v]
    if r < 0.33:
        return ["u", 0], ["u", 0]
    if r < 0.45:
        return ["u", 0], b(rng.randint(0, top + 2), "ie")
    if r < 0.57:
        return b(rng.randint(0, top + 2), "iie"), ["u", 0]
    if huge and r < 0.60:
        return b(rng.randint(0, top), "i"), ["i", str(UMAX)]
    if huge and r < 0.61:
        return ["e", str(UMAX)], ["u", 0]
    lo = rng.randint(0, top + 1)
    hi = rng.randint(lo, top + 3)
    return b(lo, "iie"), b(hi, "ie")


def interesting(rng, a, b, top):
    """bounds to try after encoding range a..b"""
    lo = 0 if a[0] == "u" else int(a[1]) + (a[0] == "e")
    hi = top if b[0] == "u" else int(b[1]) - (b[0] == "e")
    c = {lo, hi, lo - 1, hi + 1, rng.randint(0, top + 1), top, 0}
    if lo < hi:
        c.add(rng.randint(lo, min(hi, top + 5)) if min(hi, top + 5) >= lo else lo)
    c = sorted(x for x in c if 0 <= x <= UMAX)
    rng.shuffle(c)
    return c


def from_model(check, types, quick):
    """Histories of the specification (MC_IncEnc), every bound tried after each encoding"""
    rng = check.rng
    if quick:
        jobs = [("MC_IncEnc", {"Ty": t, "Gen": True, "Depth": 5}, 12, 7) for t in types]
    else:
        jobs = [("MC_IncEnc", {"Ty": t, "Gen": True, "Depth": 3}) for t in types] + \
               [("MC_IncEnc", {"Ty": t, "Gen": True, "Depth": 6, "W2": 3}, 150, 8) for t in types]
    bs = check.behaviours(jobs)
    rng.shuffle(bs)
    card = {"tot", "invtot", "dbltot", "reftot", "celltot"}
    out, per = [], {}
    for b in bs:
        ty, ops = b["ty"], b["ops"]
        if per.get(ty, 0) >= (60 if quick else 3000):
            continue
        new = ops[0]
        if ty in ("reftot", "celltot", "refgte", "cellgte") and not new["lits"]:
            continue
        per[ty] = per.get(ty, 0) + 1
        kinds = ["ub"] if ty in ("gte", "refgte", "cellgte", "dpw") else ["lb"] if ty == "invgte" else ["ub", "lb", "both"]
        init = {"lits": new["lits"]} if ty in card else {"lits": new["lits"], "w": new["w"]}
        sc = {"nv": 2, "ty": ty, "from": False, "mode": "small", "init": init, "ops": []}
        top = sum(map(int, new["w"]))
        for o in ops[1:]:
            o = dict(o)
            if o["op"] == "extend":
                top += sum(map(int, o["w"]))
                if ty in card:
                    del o["w"]
            sc["ops"].append(o)
            if o["op"] == "encode":
                full = o is ops[-1]
                for x in range(top + 2):
                    sc["ops"].append({"op": "enforce", "k": rng.choice(kinds) if not full else o["k"], "b": str(x)})
        for x in range(top + 2):
            sc["ops"] += [{"op": "enforce", "k": k, "b": str(x)} for k in kinds]
        out.append(sc)
    return out


def oom(rng, sc, p=0.1):
    """Let some encoding calls run out of memory before they are tried again"""
    if rng.random() >= p:
        return sc
    ops, fails = [], rng.choice([0.3, 1])
    for i, o in enumerate(sc["ops"]):
        if o["op"] == "encode" and rng.random() < fails:
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(o, cap=rng.choice([0, 0, 1, 2, 3, 4, 6, 9, 15])))
                if rng.random() < 0.3 and i + 1 < len(sc["ops"]) and sc["ops"][i + 1]["op"] == "enforce":
                    ops.append(sc["ops"][i + 1])
        ops.append(o)
    sc["ops"] = ops
    return sc


def certified(rng, sc, p=0.1):
    """Encode with certification"""
    if rng.random() < p:
        f = rng.choice([0.5, 1, 1])
        for o in sc["ops"]:
            if o["op"] == "encode" and rng.random() < f:
                o["cert"] = True
    return sc
