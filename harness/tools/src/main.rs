//! Runs the command line tools built from /repo/tools on files in a scratch directory and reads
//! what they write with readers of its own
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vtcore::*;

/// `sum w*l op b`, literals are 1-based variables
#[derive(Clone, Debug)]
struct C {
    t: Vec<(i64, i64)>,
    op: char,
    b: i64,
}
/// An instance as read back: hard constraints, and per objective the weighted terms that count
/// when the literal set is falsified (soft clauses), plus a constant
#[derive(Default, Debug)]
struct Inst {
    cs: Vec<C>,
    softs: Vec<Vec<(Vec<i64>, i64)>>,
    off: Vec<i64>,
    nv: i64,
}
impl Inst {
    fn obj(&mut self, k: usize) -> &mut Vec<(Vec<i64>, i64)> {
        while self.softs.len() <= k {
            self.softs.push(vec![]);
            self.off.push(0);
        }
        &mut self.softs[k]
    }
    fn clause(&mut self, l: Vec<i64>) {
        self.cs.push(C {
            t: l.into_iter().map(|l| (1, l)).collect(),
            op: '>',
            b: 1,
        });
    }
    fn term(&mut self, k: usize, w: i64, l: i64) {
        if w >= 0 {
            self.obj(k).push((vec![-l], w));
        } else {
            self.obj(k).push((vec![l], -w));
            self.off[k] += w;
        }
    }
}
type R<T> = Result<T, String>;
fn num(s: &str) -> R<i64> {
    s.parse::<i64>().map_err(|_| format!("not a number: {s}"))
}
fn dlits(toks: &[&str]) -> R<Vec<i64>> {
    let (last, rest) = toks.split_last().ok_or("empty line")?;
    if *last != "0" {
        return Err("clause does not end with 0".into());
    }
    rest.iter()
        .map(|t| num(t).and_then(|l| if l == 0 { Err("0 in clause".into()) } else { Ok(l) }))
        .collect()
}
fn dimacs(text: &str, fmt: &str) -> R<Inst> {
    let mut i = Inst::default();
    let mut hdr = None;
    if fmt == "wcnf" {
        i.obj(0);
    }
    for line in text.lines() {
        let toks: Vec<&str> = line.split_ascii_whitespace().collect();
        let Some(first) = toks.first() else { continue };
        if *first == "c" {
            continue;
        }
        if fmt == "cnf" {
            if *first == "p" {
                if toks.len() != 4 || toks[1] != "cnf" || hdr.is_some() {
                    return Err("bad header".into());
                }
                hdr = Some((num(toks[2])?, num(toks[3])?));
                continue;
            }
            if hdr.is_none() {
                return Err("clause before header".into());
            }
            i.clause(dlits(&toks)?);
        } else if *first == "h" {
            i.clause(dlits(&toks[1..])?);
        } else if fmt == "mcnf" {
            if *first != "o" || toks.len() < 4 {
                return Err("bad soft clause".into());
            }
            let k = num(toks[1])?;
            if k < 1 {
                return Err("bad objective".into());
            }
            let w = num(toks[2])?;
            let c = dlits(&toks[3..])?;
            i.obj(k as usize - 1).push((c, w));
        } else {
            let w = num(first)?;
            let c = dlits(&toks[1..])?;
            i.obj(0).push((c, w));
        }
    }
    if fmt == "cnf" {
        let Some((n, m)) = hdr else {
            return Err("no header".into());
        };
        if m != i.cs.len() as i64 {
            return Err("header has the wrong number of clauses".into());
        }
        i.nv = n;
        if i.cs.iter().flat_map(|c| &c.t).any(|t| t.1.abs() > n) {
            return Err("header has too few variables".into());
        }
    }
    Ok(i)
}
fn opb(text: &str, first: i64) -> R<Inst> {
    let mut i = Inst::default();
    let mut hint = None;
    let mut body = String::new();
    for line in text.lines() {
        if let Some(c) = line.strip_prefix('*') {
            let t: Vec<&str> = c.split_ascii_whitespace().collect();
            if t.first() == Some(&"#variable=") && t.len() >= 4 && t[2] == "#constraint=" {
                hint = Some((num(t[1])?, num(t[3])?));
            }
            continue;
        }
        body.push_str(line);
        body.push('\n');
    }
    let mut k = 0;
    let trail = body.rsplit(';').next().unwrap_or("").trim().to_string();
    if !trail.is_empty() {
        return Err("statement without ';'".into());
    }
    let n = body.matches(';').count();
    let mut n_ext = 0;
    for st in body.split(';').take(n) {
        let mut toks: Vec<&str> = st.split_ascii_whitespace().collect();
        let is_obj = toks.first() == Some(&"min:");
        if is_obj {
            toks.remove(0);
            i.obj(k);
        }
        let mut t = vec![];
        let mut j = 0;
        let mut op = None;
        let neg = |w: &str| -> R<(i64, i64)> {
            let (s, v) = if let Some(v) = w.strip_prefix('~') {
                (-1, v)
            } else {
                (1, w)
            };
            let v = num(v.strip_prefix('x').ok_or(format!("bad literal {w}"))?)?;
            if v < first {
                return Err("variable below the first index".into());
            }
            Ok((1, s * (v - first + 1)))
        };
        while j < toks.len() {
            if [">=", "<=", "="].contains(&toks[j]) {
                op = Some((
                    toks[j].chars().next().unwrap(),
                    num(toks.get(j + 1).ok_or("no bound")?)?,
                ));
                if j + 2 != toks.len() {
                    return Err("junk after bound".into());
                }
                break;
            }
            let w = num(toks[j])?;
            let l = neg(toks.get(j + 1).ok_or("coefficient without literal")?)?.1;
            i.nv = i.nv.max(l.abs());
            t.push((w, l));
            j += 2;
        }
        if is_obj {
            if op.is_some() {
                return Err("bound in objective".into());
            }
            for (w, l) in t {
                i.term(k, w, l);
            }
            k += 1;
        } else {
            let Some((op, b)) = op else {
                return Err("constraint without operator".into());
            };
            n_ext += 1;
            i.cs.push(C { t, op, b });
        }
    }
    if let Some((v, c)) = hint {
        if c != n_ext {
            return Err("hint has the wrong number of constraints".into());
        }
        if v < i.nv {
            return Err("hint has too few variables".into());
        }
    }
    Ok(i)
}
/// The matrix formats of mo2ilp
fn ilp(text: &str, fmt: &str) -> R<Inst> {
    let mut i = Inst::default();
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let row = |s: &str| -> R<Vec<i64>> { s.split_ascii_whitespace().map(num).collect() };
    let mut it = lines.into_iter();
    let head = row(it.next().ok_or("empty")?)?;
    if head.len() != if fmt == "fgt" { 3 } else { 5 } {
        return Err("bad first line".into());
    }
    let (n, m, p) = (head[0] as usize, head[1] as usize, head[2] as usize);
    i.nv = n as i64;
    if fmt == "fgt" && p > 0 {
        let l: Vec<&str> = it
            .next()
            .ok_or("no objective types")?
            .split_ascii_whitespace()
            .collect();
        if l.len() != p || l.iter().any(|x| *x != "minsum") {
            return Err("bad objective types".into());
        }
    }
    let (mut nzo, mut nzc) = (0, 0);
    for k in 0..p {
        let r = row(it.next().ok_or("cost matrix")?)?;
        if r.len() != n {
            return Err("cost row has the wrong length".into());
        }
        i.obj(k);
        for (v, w) in r.into_iter().enumerate() {
            if w != 0 {
                nzo += 1;
                i.term(k, w, v as i64 + 1);
            }
        }
    }
    let mut rows = vec![];
    for _ in 0..m {
        let r = row(it.next().ok_or("constraint matrix")?)?;
        if r.len() != n {
            return Err("constraint row has the wrong length".into());
        }
        nzc += r.iter().filter(|w| **w != 0).count();
        rows.push(
            r.into_iter()
                .enumerate()
                .filter(|x| x.1 != 0)
                .map(|(v, w)| (w, v as i64 + 1))
                .collect::<Vec<_>>(),
        );
    }
    for t in rows {
        let r = row(it.next().ok_or("right-hand sides")?)?;
        if r.len() != 2 {
            return Err("bad right-hand side".into());
        }
        let op = match r[0] {
            0 => '>',
            1 => '<',
            2 => '=',
            _ => return Err("bad operator".into()),
        };
        i.cs.push(C { t, op, b: r[1] });
    }
    if fmt == "fgt" {
        for want in [0, 1] {
            let r = if n == 0 {
                vec![]
            } else {
                row(it.next().ok_or("variable bounds")?)?
            };
            if r.len() != n || r.iter().any(|x| *x != want) {
                return Err("bad variable bounds".into());
            }
        }
    } else if head[3] != nzc as i64 || head[4] != nzo {
        return Err(format!("wrong number of non-zeroes in the first line"));
    }
    if it.next().is_some() {
        return Err("junk at the end".into());
    }
    Ok(i)
}

const UNKNOWN: i64 = -1;
/// Whether the constraints have a solution under `units`, and the least value of every objective
struct Sem {
    cs: Vec<C>,
    softs: Vec<Vec<(Vec<i64>, i64)>>,
    off: Vec<i64>,
    clausal: Option<dpll::Dpll>,
    soft_aux: Vec<i64>,
    aux: Vec<i64>,
}
impl Sem {
    fn new(i: Inst, nv: i64) -> R<Self> {
        let clausal =
            i.cs.iter()
                .all(|c| c.op == '>' && c.b == 1 && c.t.iter().all(|t| t.0 == 1));
        let mut aux: Vec<i64> =
            i.cs.iter()
                .flat_map(|c| c.t.iter().map(|t| t.1.abs()))
                .filter(|v| *v > nv)
                .collect();
        let mut soft_aux: Vec<i64> = i
            .softs
            .iter()
            .flatten()
            .flat_map(|s| s.0.iter().map(|l| l.abs()))
            .filter(|v| *v > nv)
            .collect();
        aux.extend(&soft_aux);
        for v in [&mut aux, &mut soft_aux] {
            v.sort_unstable();
            v.dedup();
        }
        if soft_aux.len() > 14 || (!clausal && aux.len() > 16) {
            return Err("too many auxiliary variables".into());
        }
        let cls: Vec<Vec<i64>> = i.cs.iter().map(|c| c.t.iter().map(|t| t.1).collect()).collect();
        Ok(Sem {
            clausal: clausal.then(|| dpll::Dpll::new(&cls)),
            cs: i.cs,
            softs: i.softs,
            off: i.off,
            soft_aux,
            aux,
        })
    }
    fn holds(&self, a: &BTreeMap<i64, bool>) -> bool {
        self.cs.iter().all(|c| {
            let s: i64 = c.t.iter().filter(|t| a[&t.1.abs()] == (t.1 > 0)).map(|t| t.0).sum();
            match c.op {
                '>' => s >= c.b,
                '<' => s <= c.b,
                _ => s == c.b,
            }
        })
    }
    fn costs(&self, a: &BTreeMap<i64, bool>) -> Vec<i64> {
        self.softs
            .iter()
            .zip(&self.off)
            .map(|(o, off)| {
                off + o
                    .iter()
                    .filter(|s| s.0.iter().all(|l| a[&l.abs()] != (*l > 0)))
                    .map(|s| s.1)
                    .sum::<i64>()
            })
            .collect()
    }
    /// All cost vectors of solutions extending the units
    fn vecs(&mut self, units: &[i64]) -> Vec<Vec<i64>> {
        let mut out = vec![];
        let pick = if self.clausal.is_some() {
            self.soft_aux.clone()
        } else {
            self.aux.clone()
        };
        for m in 0..(1u64 << pick.len()) {
            let mut u = units.to_vec();
            u.extend(
                pick.iter()
                    .enumerate()
                    .map(|(i, v)| if (m >> i) & 1 == 1 { *v } else { -*v }),
            );
            let a: BTreeMap<i64, bool> = u.iter().map(|l| (l.abs(), *l > 0)).collect();
            let sat = match &mut self.clausal {
                Some(d) => d.solve(&u).is_some(),
                None => self.holds(&a),
            };
            if sat {
                let v = self.costs(&a);
                if !out.contains(&v) {
                    out.push(v);
                }
            }
        }
        out.sort();
        out
    }
}
fn meaning(i: Inst, nv: usize) -> R<Value> {
    let n = i.softs.len();
    let out_nv = i.nv;
    let mut s = Sem::new(i, nv as i64)?;
    let mut sat = vec![];
    let mut costs = vec![vec![]; n];
    for m in masks(nv) {
        let v = s.vecs(&mask_units(&m));
        sat.push(u8::from(!v.is_empty()));
        for (k, c) in costs.iter_mut().enumerate() {
            c.push(v.iter().map(|v| v[k]).min().unwrap_or(UNKNOWN));
        }
    }
    Ok(json!({"sat": sat, "costs": costs, "nv": out_nv}))
}

struct Run {
    rc: i64,
    out: String,
    err: String,
    file: Option<String>,
}
fn unpack(p: &Path) -> Option<String> {
    let prog = match p.extension().and_then(|e| e.to_str()) {
        Some("gz") => Some("gzip"),
        Some("bz2") => Some("bzip2"),
        Some("xz") => Some("xz"),
        _ => None,
    };
    if !p.exists() {
        return None;
    }
    let bytes = match prog {
        Some(prog) => {
            let o = Command::new(prog)
                .arg("-dc")
                .arg(p)
                .stdin(Stdio::null())
                .output()
                .expect("harness: decompressor");
            if !o.status.success() {
                return Some("(not decompressible)".into());
            }
            o.stdout
        }
        None => std::fs::read(p).expect("harness: read"),
    };
    Some(String::from_utf8_lossy(&bytes).into_owned())
}
fn run(dir: &Path, r: &Value) -> Run {
    for f in r["files"].as_array().into_iter().flatten() {
        let bytes: Vec<u8> = match f["hex"].as_str() {
            Some(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect(),
            None => f["text"].as_str().unwrap().as_bytes().to_vec(),
        };
        let name = f["name"].as_str().unwrap();
        assert!(!name.contains('/'), "harness: file name");
        std::fs::write(dir.join(name), bytes).expect("harness: write");
    }
    let bin = PathBuf::from(std::env::var("VT_TOOLS").expect("harness: VT_TOOLS")).join(r["tool"].as_str().unwrap());
    let mut cmd = Command::new(bin);
    cmd.current_dir(dir)
        .env_clear()
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for a in r["args"].as_array().into_iter().flatten() {
        cmd.arg(a.as_str().unwrap());
    }
    if let Some(n) = r["stdin"].as_str() {
        cmd.stdin(std::fs::File::open(dir.join(n)).expect("harness: stdin"));
    } else {
        cmd.stdin(Stdio::null());
    }
    let mut ch = cmd.spawn().expect("harness: tool does not start");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = std::io::Read::read_to_end(&mut se, &mut b);
        b
    });
    // kills the tool when it takes too long
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let pid = ch.id();
    let w = std::thread::spawn(move || {
        if rx.recv_timeout(std::time::Duration::from_secs(10)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
            let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
            return true;
        }
        false
    });
    let mut out = vec![];
    let _ = std::io::Read::read_to_end(&mut so, &mut out);
    let st = ch.wait().expect("harness: wait");
    let _ = tx.send(());
    let hung = w.join().unwrap();
    let rc = if hung { -99 } else { st.code().map_or(-1, i64::from) };
    Run {
        rc,
        out: String::from_utf8_lossy(&out).into_owned(),
        err: String::from_utf8_lossy(&h.join().unwrap()).into_owned(),
        file: r["outfile"].as_str().and_then(|n| unpack(&dir.join(n))),
    }
}
fn bits(s: &str) -> Vec<i64> {
    s.bytes()
        .map(|b| match b {
            b'1' => 1,
            b'0' => 0,
            _ => -1,
        })
        .collect()
}
fn clean(mut s: String) -> String {
    s.retain(|c| c.is_ascii() && !c.is_ascii_control() && c != '"' && c != '\\');
    s.truncate(120);
    s
}
fn scenario(sc: &Value, tr: &mut Tracer) {
    let nv = us(&sc["nv"]);
    let dir = std::env::temp_dir().join(format!("vt-tools-{}-{}", std::process::id(), sc["id"]));
    std::fs::create_dir_all(&dir).expect("harness: scratch directory");
    let list = |k: &str| sc[k].as_array().cloned().unwrap_or_default();
    tr.ev(json!({"e": "new", "stub": false, "masks": masks(nv), "cs": list("cs"), "softs": list("softs"), "n": us(&sc["n"]), "offs": list("offs"),
        "g": sc.get("g").cloned().unwrap_or(json!({"k": ""}))}));
    for r in sc["runs"].as_array().unwrap() {
        let o = run(&dir, r);
        let k = r["k"].as_str().unwrap();
        let fmt = r["fmt"].as_str().unwrap_or("");
        let panicked = o.err.contains("panicked at");
        let mut ev =
            json!({"e": k, "tool": r["tool"], "rc": o.rc, "panic": panicked, "msg": clean(o.err.clone()), "x": r["x"]});
        let text = if r["outfile"].is_string() {
            o.file.clone()
        } else {
            Some(o.out.clone())
        };
        if ["conv", "shuf", "split", "gen"].contains(&k) {
            let parsed = match &text {
                None => Err("no output".to_string()),
                Some(t) => match fmt {
                    "opb" => opb(t, r["first"].as_i64().unwrap_or(1)),
                    "fgt" | "bauss" => ilp(t, fmt),
                    _ => dimacs(t, fmt),
                },
            };
            let some = text.as_ref().is_some_and(|t| !t.trim().is_empty());
            let res = if k == "gen" && r["x"]["vecs"] == true {
                parsed.and_then(|i| {
                    let n = i.softs.len();
                    let mut s = Sem::new(i, 0)?;
                    Ok(json!({"n": n, "vecs": s.vecs(&[])}))
                })
            } else {
                parsed.and_then(|i| meaning(i, nv))
            };
            ev["some"] = json!(some);
            match res {
                Ok(d) => {
                    ev["ok"] = json!(true);
                    ev["d"] = d;
                }
                Err(e) => {
                    ev["ok"] = json!(false);
                    ev["d"] = json!({"sat": [], "costs": [], "nv": 0});
                    ev["perr"] = json!(clean(e));
                }
            }
        }
        match k {
            "split" => {
                let m: Vec<i64> = o
                    .out
                    .lines()
                    .filter_map(|l| l.strip_prefix("multiplier: "))
                    .filter_map(|x| x.trim().parse().ok())
                    .collect();
                ev["mults"] = json!(m);
                let st = |p: &str| -> Vec<i64> {
                    o.out
                        .lines()
                        .filter_map(|l| l.strip_prefix(p))
                        .filter_map(|x| x.trim().parse().ok())
                        .collect()
                };
                ev["stats"] = json!({"n": st("n-softs: "), "sum": st("weight-sum: "), "min": st("min-weight: "), "max": st("max-weight: ")});
            }
            "check" => {
                let vals: Option<Vec<i64>> = o
                    .out
                    .lines()
                    .find_map(|l| l.strip_prefix("objective values: "))
                    .and_then(|l| {
                        l.split(',')
                            .map(|x| x.trim())
                            .filter(|x| !x.is_empty())
                            .map(|x| x.parse().ok())
                            .collect()
                    });
                ev["acc"] = json!(vals.is_some());
                ev["vals"] = json!(vals.unwrap_or_default());
                ev["unsat"] = json!(o.out.starts_with("unsatisfied constraint:"));
            }
            "enum" => {
                let mut ms = vec![];
                let mut os: Vec<Vec<i64>> = vec![];
                let mut junk = false;
                for l in o.out.lines() {
                    if let Some(v) = l.strip_prefix("v ") {
                        ms.push(bits(v.trim()));
                    } else if let Some(v) = l.strip_prefix('o') {
                        os.push(v.split_ascii_whitespace().map(|x| x.parse().unwrap_or(-77)).collect());
                    } else {
                        junk = true;
                    }
                }
                ev["ms"] = json!(ms);
                ev["os"] = json!(os);
                ev["junk"] = json!(junk);
            }
            "prop" => {
                let ls: Vec<i64> = o
                    .out
                    .trim()
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (s, v) = match x.strip_prefix('~').or_else(|| x.strip_prefix('-')) {
                            Some(v) => (-1, v),
                            None => (1, x),
                        };
                        v.trim_start_matches('x').parse::<i64>().map_or(0, |v| s * (v + 1))
                    })
                    .collect();
                ev["ls"] = json!(ls);
                ev["confl"] = json!(o.err.contains("assumptions propagated to conflict"));
            }
            _ => {}
        }
        tr.ev(ev);
    }
    std::fs::remove_dir_all(&dir).expect("harness: cleanup");
}
fn main() {
    main_loop(scenario);
}
