"""Driver shared by all checks: build, scenario execution, TLC, verdict, evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARD = 8

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="nightly-2026-07-07-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           INSTA_UPDATE="no", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CFLAGS", "CXXFLAGS"):
    ENV.pop(k, None)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(pkg, bins, timeout=800):
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "-p", pkg]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return [os.path.join(HARNESS, "target", "debug", b) for b in bins]


def build_repo_bins(pkg, extra, timeout=800):
    """Builds binaries of a /repo package into the harness target directory"""
    tgt = os.path.join(HARNESS, "target", "repo")
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", f"/repo/{pkg}/Cargo.toml",
           "--target-dir", tgt] + extra
    p = subprocess.run(cmd, cwd="/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    if p.returncode != 0:
        raise ToolError("repo build failed:\n" + p.stdout[-4000:])
    return os.path.join(tgt, "debug")


def run_exec(exe, scen, trace, limit, total, env=None):
    """Runs one executor over one shard; a crash or hang becomes an event and execution resumes"""
    if os.path.exists(trace):
        os.remove(trace)
    skip, t0, n = 0, time.time(), sum(1 for _ in open(scen))
    e = dict(ENV)
    e["VT_SCEN_LIMIT"] = str(limit)
    e.update(env or {})
    bad = 0
    while True:
        left = total - (time.time() - t0)
        if left < 1:
            raise ToolError("executor out of time")
        try:
            p = subprocess.run([exe, scen, trace, str(skip)], env=e, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=left, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("executor out of time")
        prog = open(trace + ".progress").read() if os.path.exists(trace + ".progress") else ""
        if p.returncode == 0 and prog == "done":
            return
        if prog in ("", "done"):
            raise ToolError(f"executor failed ({p.returncode}, {scen} scenario index {prog}): {p.stderr[-2000:]}")
        i = int(prog)
        sid = json.loads(open(scen).read().splitlines()[i])["id"]
        # drop a partially written last line
        data = open(trace, "rb").read() if os.path.exists(trace) else b""
        if data and not data.endswith(b"\n"):
            data = data[: data.rfind(b"\n") + 1]
        has_new = any(json.loads(x)["s"] == sid for x in data.decode().splitlines()[-400:])
        with open(trace, "wb") as f:
            f.write(data)
            # a panic outside the guarded calls is as much an answer as an abort
            ev = "hang" if p.returncode == 97 else "crash"
            log(f"executor: {ev} ({p.returncode}) in scenario {sid}: {p.stderr[-600:]}")
            if not has_new:
                f.write((json.dumps({"s": sid, "e": "new", "stub": True}) + "\n").encode())
            f.write((json.dumps({"s": sid, "e": ev, "code": p.returncode}) + "\n").encode())
        bad += 1
        skip = i + 1
        if bad >= 3 or skip >= n:
            if bad >= 3 and skip < n:
                log("executor: too many crashes/hangs, remaining scenarios of this shard dropped")
            return


def tlc(module, cfg, workdir, workers=1, env=None, timeout=800, xmx="2g", extra=()):
    md = os.path.join(workdir, "md-" + os.path.basename(module) + "-" + str(random.getrandbits(40)))
    e = dict(ENV)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(4, workers))}", "-Xss64m", f"-Xmx{xmx}", "-Djava.io.tmpdir=" + workdir, "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-nowarning",
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timeout on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def cfg_with(module, consts, workdir):
    """The configuration of a design model with other values for its constants"""
    txt = open(os.path.join(SPECS, module + ".cfg")).read()
    for k, v in consts.items():
        v = "TRUE" if v is True else "FALSE" if v is False else f'"{v}"' if isinstance(v, str) else str(v)
        txt, n = re.subn(rf"^ {k} = .*$", f" {k} = {v}", txt, flags=re.M)
        if n != 1:
            raise ToolError(f"{module}.cfg has no constant {k}")
    path = os.path.join(workdir, f"{module}-{random.getrandbits(40)}.cfg")
    open(path, "w").write(txt)
    return path


def model_check(module, cfg, workdir, timeout=600, workers=8, xmx="6g", extra=()):
    """Exhaustive check of a design model; any error is a tool error (the specs are ours)"""
    if isinstance(cfg, dict):
        cfg = cfg_with(module, cfg, workdir)
    rc, out = tlc(module, cfg, workdir, workers=workers, timeout=timeout, xmx=xmx, extra=extra)
    if rc != 0:
        raise ToolError(f"design model {module}/{cfg} failed:\n{out[-3000:]}")
    return tlc_counts(out)


def simulate(module, cfg, workdir, num, depth, seed, timeout=300, tag="SCEN "):
    """Behaviours of the specification, printed as JSON by the model"""
    if isinstance(cfg, dict):
        cfg = cfg_with(module, cfg, workdir)
    rc, out = tlc(module, cfg, workdir, workers=1, timeout=timeout,
                  extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            res.append(json.loads(json.loads(line)[len(tag):]))
    if rc != 0 or not res:
        raise ToolError(f"simulation of {module} failed ({rc}):\n{out[-3000:]}")
    return res


def enumerate_model(module, cfg, workdir, timeout=300, tag="SCEN "):
    if isinstance(cfg, dict):
        cfg = cfg_with(module, cfg, workdir)
    rc, out = tlc(module, cfg, workdir, workers=1, timeout=timeout)
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            res.append(json.loads(json.loads(line)[len(tag):]))
    if rc != 0 or not res:
        raise ToolError(f"enumeration of {module} failed ({rc}):\n{out[-3000:]}")
    return res, tlc_counts(out)


def validate(module, trace, workdir, timeout=800, xmx="3g", cfg="trace.cfg"):
    """Returns (rejections [(scenario, event, why)], states). An event on which the specification
    cannot be evaluated is outside the specification, i.e. rejected."""
    lines = [x for x in open(trace).read().splitlines()]
    if not lines:
        return [], (0, 0)
    rej, gen, dis = [], 0, 0
    start = 0
    cur = trace
    for attempt in range(6):
        if start >= len(lines):
            break
        if start:
            cur = trace + f".r{attempt}"
            open(cur, "w").write("\n".join(lines[start:]) + "\n")
        rc, out = tlc(module, cfg, workdir, env={"TRACE": cur}, timeout=timeout, xmx=xmx)
        g, d = tlc_counts(out)
        gen, dis = gen + g, dis + d
        for m in re.finditer(r'^"REJECT (\d+) (-?\d+) (.*)"$', out, re.M):
            ln = start + int(m.group(1)) - 1
            rej.append((int(m.group(2)), json.loads(lines[ln]), m.group(3)))
        n = len(lines) - start
        if rc == 0 and f'"ACCEPTED-UPTO {n}"' in out:
            return rej, (gen, dis)
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if not ls or "Error" not in out:
            raise ToolError(f"trace validation of {module} failed:\n{out[-3000:]}")
        at = start + int(ls[-1]) - 1
        ev = json.loads(lines[at])
        msg = [x for x in out.splitlines() if "Error" in x or "evaluat" in x]
        log("specification not evaluable on", lines[at][:600], msg[:3], out[-1500:])
        rej.append((ev["s"], ev, "event outside the specification (not evaluable)"))
        nxt = at + 1
        while nxt < len(lines) and json.loads(lines[nxt])["s"] == ev["s"]:
            nxt += 1
        start = nxt
    return rej, (gen, dis)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(prop, sc, ev, why, known):
    """A listed finding names the property, the judgement and the input characteristics"""
    for f in known.get("findings", []):
        if f["property"] != prop or not re.fullmatch(f["why"], why):
            continue
        if all(re.fullmatch(str(v), str(_get(sc, k))) for k, v in f.get("scenario", {}).items()) and \
           all(re.fullmatch(str(v), str(_get(ev, k))) for k, v in f.get("event", {}).items()):
            return f
    return None


def _get(o, path):
    for k in path.split("."):
        o = o.get(k, "") if isinstance(o, dict) else ""
    return o


def shuffle_shards(scen, n):
    return [scen[i::n] for i in range(n)]


class Check:
    """One property check. Subclasses set the fields and override scenarios()."""
    prop = None
    pkg, bin, trace = None, None, None
    level = "model_checking"
    scen_limit = 20
    models = {"quick": [], "thorough": []}  # (module, cfg)
    exec_env = {}
    assumptions = []

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(f"{self.prop}-{seed}")
        self.work = os.path.join(VERIF, "work", f"{self.prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.extra_cov = {}

    def quick(self):
        return self.tier == "quick"

    def scenarios(self):
        raise NotImplementedError

    def behaviours(self, jobs):
        """Behaviours of the specification: jobs are (module, constants) for all of them or
        (module, constants, number, depth) for random ones"""
        def one(j):
            if len(j) == 2:
                return enumerate_model(j[0], j[1], self.work, 800 if self.quick() else 3000)
            return simulate(j[0], j[1], self.work, j[2], j[3], self.rng.getrandbits(31), 800 if self.quick() else 3000), (0, 0)
        out = []
        with cf.ThreadPoolExecutor(4) as ex:
            for b, (g, d) in ex.map(one, jobs):
                self.transitions += g
                self.states += d
                out += b
        seen = {json.dumps(b, sort_keys=True): b for b in out}
        self.extra_cov["behaviours_from_model"] = self.extra_cov.get("behaviours_from_model", 0) + len(seen)
        return list(seen.values())

    def build(self):
        return build(self.pkg, [self.bin])[0]

    def exec_shard(self, exe, scen, trace):
        run_exec(exe, scen, trace, self.scen_limit, 700 if self.quick() else 6000, self.exec_env)

    def run(self):
        t = time.time()
        exe = self.build()
        log(f"[{self.prop}] build {time.time()-t:.1f}s")
        t = time.time()
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(model_check, m, c, self.work, 800 if self.quick() else 6000, 2, "3g")
                    for m, c in self.models[self.tier]]
            scen = self.scenarios()
            for f in futs:
                g, d = f.result()
                self.transitions += g
                self.states += d
        for i, s in enumerate(scen):
            s["id"] = i
        log(f"[{self.prop}] design models + {len(scen)} scenarios {time.time()-t:.1f}s")
        t = time.time()
        shards = [s for s in shuffle_shards(scen, NSHARD) if s]
        rej, nev = [], 0

        def one(k):
            sf, tf = os.path.join(self.work, f"scen{k}.ndjson"), os.path.join(self.work, f"trace{k}.ndjson")
            with open(sf, "w") as f:
                for s in shards[k]:
                    f.write(json.dumps(s) + "\n")
            self.exec_shard(exe, sf, tf)
            te = time.time()
            r, c = validate(self.trace, tf, self.work, timeout=800 if self.quick() else 6000)
            return r, c, sum(1 for _ in open(tf)), te

        with cf.ThreadPoolExecutor(NSHARD) as ex:
            for r, (g, d), n, te in ex.map(one, range(len(shards))):
                rej += r
                nev += n
                self.transitions += g
                self.states += d
        log(f"[{self.prop}] executed and validated {nev} events {time.time()-t:.1f}s")
        return self.finish(scen, rej, nev)

    def finish(self, scen, rej, nev):
        byid = {s["id"]: s for s in scen}
        known = load_known()
        viol, kn = [], {}
        for sid, ev, why in rej:
            f = match_known(self.prop, byid.get(sid, {}), ev, why, known)
            if f:
                kn.setdefault(f["what"], 0)
                kn[f["what"]] += 1
            else:
                viol.append((sid, ev, why))
        badids = {v[0] for v in rej}
        samples = [s for s in scen if s["id"] not in badids][:2]
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": len(scen),
            "events_validated": nev, "rejected_events": len(rej), "known_finding_events": sum(kn.values()),
            "samples": samples if samples else scen[:1],
        }
        cov.update(self.extra_cov)
        evd = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
               "coverage": cov, "assumptions": self.assumptions, "violations": len(viol),
               "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(evd, f, indent=1)
        for f in known.get("findings", []):
            if f["property"] == self.prop:
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if not viol:
            print(f"OK property={self.prop} tier={self.tier} scenarios={len(scen)} events={nev} "
                  f"states={self.states} wall={time.time()-self.t0:.1f}s")
            if not os.environ.get("VT_KEEP"):
                shutil.rmtree(self.work, ignore_errors=True)
            return 0
        groups = {}
        for sid, ev, why in viol:
            g = os.environ.get("VT_GROUP")  # triage: also group by a field of the scenario
            groups.setdefault(why + (f" [{byid.get(sid, {}).get(g)}]" if g else ""), []).append((sid, ev))
        for gi, (why, items) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))):
            sid, ev = min(items, key=lambda x: len(json.dumps(byid.get(x[0], {}))))
            path = os.path.join(self.work, f"replay{gi}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "why": why, "count": len(items), "event": ev,
                           "scenario": byid.get(sid), "executor": self.bin, "spec": self.trace,
                           "rerun": f"python3 {VERIF}/run.py {self.prop} --replay {path}"}, f, indent=1)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {len(items)}x {why}; e.g. {json.dumps(ev)[:700]}")
            print(f"  scenario {json.dumps(byid.get(sid))[:900]}")
        return 1

    def replay(self, path):
        sc = json.load(open(path))["scenario"]
        sf, tf = os.path.join(self.work, "r.ndjson"), os.path.join(self.work, "rt.ndjson")
        open(sf, "w").write(json.dumps(sc) + "\n")
        self.exec_shard(self.build(), sf, tf)
        print(open(tf).read())
        r, _ = validate(self.trace, tf, self.work)
        for x in r:
            print("REJECTED", x)
        return 1 if r else 0
