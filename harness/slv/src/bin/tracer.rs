//! Replays histories on CaDiCaL and records everything its proof tracing interface reports
use rustsat::solvers::*;
use rustsat::types::{Clause, Lit};
use rustsat_cadical::{
    CaDiCaL, CaDiCaLAssignment, CaDiCaLClause, ClauseId, Conclusion, Config, Limit, ProofFormat, ProofTracerHandle,
    TraceProof,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use vtcore::{guard, icl, ilit, lits, main_loop, serde_json, Tracer};

type Log = Rc<RefCell<Vec<Value>>>;
struct Rec {
    log: Log,
    t: usize,
    alive: Rc<RefCell<bool>>,
    n: usize,
}
impl Rec {
    fn ev(&mut self, mut v: Value) {
        self.n += 1;
        v["t"] = json!(self.t);
        self.log.borrow_mut().push(v);
    }
}
impl Drop for Rec {
    fn drop(&mut self) {
        *self.alive.borrow_mut() = false;
    }
}
fn cl(c: &CaDiCaLClause) -> Value {
    let o: Vec<i64> = c.iter().map(ilit).collect();
    assert!(
        o.len() == c.len()
            && c.is_empty() == o.is_empty()
            && c.to_owned().iter().copied().map(ilit).eq(o.iter().copied())
    );
    json!(o)
}
fn ass(c: &CaDiCaLAssignment) -> Value {
    let o: Vec<i64> = c.iter().map(ilit).collect();
    assert!(o.len() == c.len() && c.is_empty() == o.is_empty());
    json!(o)
}
fn ids(a: &[ClauseId]) -> Vec<i64> {
    a.iter().map(|i| i.0).collect()
}
fn res(r: SolverResult) -> &'static str {
    match r {
        SolverResult::Sat => "sat",
        SolverResult::Unsat => "unsat",
        SolverResult::Interrupted => "int",
    }
}
impl TraceProof for Rec {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, restored: bool) {
        self.ev(json!({"e":"orig","id":id.0,"red":redundant,"c":cl(clause),"rest":restored}));
    }
    fn add_derived_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        self.ev(json!({"e":"der","id":id.0,"red":redundant,"c":cl(clause),"ants":ids(antecedents)}));
    }
    fn delete_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause) {
        self.ev(json!({"e":"del","id":id.0,"red":redundant,"c":cl(clause)}));
    }
    fn weaken_minus(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.ev(json!({"e":"weak","id":id.0,"c":cl(clause)}));
    }
    fn strengthen(&mut self, id: ClauseId) {
        self.ev(json!({"e":"strong","id":id.0}));
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        self.ev(json!({"e":"status","r":res(status),"id":id.0}));
    }
    fn finalize_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.ev(json!({"e":"final","id":id.0,"c":cl(clause)}));
    }
    fn begin_proof(&mut self, id: ClauseId) {
        self.ev(json!({"e":"begin","id":id.0}));
    }
    fn solve_query(&mut self) {
        self.ev(json!({"e":"query"}));
    }
    fn add_assumption(&mut self, assumption: Lit) {
        self.ev(json!({"e":"asm","l":ilit(assumption)}));
    }
    fn add_constraint(&mut self, constraint: &CaDiCaLClause) {
        self.ev(json!({"e":"constr","c":cl(constraint)}));
    }
    fn reset_assumptions(&mut self) {
        self.ev(json!({"e":"reset"}));
    }
    fn add_assumption_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        self.ev(json!({"e":"asmcl","id":id.0,"c":cl(clause),"ants":ids(antecedents)}));
    }
    fn conclude_unsat(&mut self, conclusion: Conclusion, failing: &[ClauseId]) {
        let k = match conclusion {
            Conclusion::Conflict => "conflict",
            Conclusion::Assumptions => "assumptions",
            Conclusion::Constraint => "constraint",
        };
        self.ev(json!({"e":"cunsat","k":k,"ids":ids(failing)}));
    }
    fn conclude_sat(&mut self, solution: &CaDiCaLAssignment) {
        self.ev(json!({"e":"csat","m":ass(solution)}));
    }
    fn conclude_unknown(&mut self, solution: &CaDiCaLAssignment) {
        self.ev(json!({"e":"cunk","m":ass(solution)}));
    }
    fn notify_equivalence(&mut self, first: Lit, second: Lit) {
        self.ev(json!({"e":"equiv","a":ilit(first),"b":ilit(second)}));
    }
}
struct Slot {
    h: Option<ProofTracerHandle<Rec>>,
    alive: Rc<RefCell<bool>>,
    seen: usize,
}

fn num(d: &[u8], p: &mut usize) -> Option<u64> {
    let (mut x, mut s) = (0u64, 0);
    loop {
        let b = *d.get(*p)?;
        *p += 1;
        x |= u64::from(b & 0x7f) << s;
        s += 7;
        if b & 0x80 == 0 {
            return Some(x);
        }
    }
}
fn blits(d: &[u8], p: &mut usize) -> Option<Vec<i64>> {
    let mut o = vec![];
    loop {
        match num(d, p)? {
            0 => return Some(o),
            x => o.push(if x & 1 == 1 {
                -((x >> 1) as i64)
            } else {
                (x >> 1) as i64
            }),
        }
    }
}
fn tlits<'a>(t: &mut impl Iterator<Item = &'a str>) -> Option<Vec<i64>> {
    let mut o = vec![];
    loop {
        match t.next()?.parse::<i64>().ok()? {
            0 => return Some(o),
            x => o.push(x),
        }
    }
}
fn bids(d: &[u8], p: &mut usize) -> Option<Vec<u64>> {
    let mut o = vec![];
    loop {
        match num(d, p)? {
            0 => return Some(o),
            x => o.push(x),
        }
    }
}
const STATUS: [(&str, &str); 3] = [("SATISFIABLE", "sat"), ("UNSATISFIABLE", "unsat"), ("UNKNOWN", "int")];
fn idr(k: u8) -> &'static str {
    match k {
        b'd' => "fdels",
        b'w' => "fweaks",
        _ => "frests",
    }
}
/// A clause as unit weight constraint
fn pbcl(t: &str) -> Option<Vec<i64>> {
    let mut o = vec![];
    let mut w = t.split_ascii_whitespace();
    while let Some(k) = w.next() {
        let l = w.next()?;
        let (s, n) = l.strip_prefix('~').map_or((1, l), |n| (-1, n));
        if k != "1" {
            return None;
        }
        o.push(s * n.strip_prefix('x')?.parse::<i64>().ok()?);
    }
    Some(o)
}
/// Steps of a proof file in the format that was asked for
fn parse(d: &[u8], fmt: &str, bin: bool) -> Option<Vec<Value>> {
    let mut o = vec![];
    if bin {
        let mut p = 0;
        while p < d.len() {
            let k = d[p];
            p += 1;
            o.push(match (fmt, k) {
                ("drat", b'a') => json!({"e":"der","id":0,"red":true,"c":blits(d, &mut p)?,"ants":[]}),
                ("drat", b'd') => json!({"e":"fdel","c":blits(d, &mut p)?}),
                ("lrat", b'a') => {
                    let id = num(d, &mut p)? >> 1;
                    json!({"e":"der","id":id,"red":true,"c":blits(d, &mut p)?,"ants":blits(d, &mut p)?})
                }
                ("lrat", b'd') => json!({"e":"fdels","ids":blits(d, &mut p)?}),
                ("lidrup", b'i') => {
                    json!({"e":"orig","id":num(d, &mut p)?,"red":false,"c":blits(d, &mut p)?,"rest":false})
                }
                ("lidrup", b'l') => {
                    let id = num(d, &mut p)?;
                    json!({"e":"der","id":id,"red":true,"c":blits(d, &mut p)?,"ants":bids(d, &mut p)?})
                }
                ("lidrup", b'd' | b'w' | b'r') => json!({"e":idr(k),"ids":bids(d, &mut p)?}),
                ("lidrup", b'u') => json!({"e":"fcore","c":blits(d, &mut p)?,"ants":bids(d, &mut p)?}),
                ("idrup", b'i') => json!({"e":"orig","id":0,"red":false,"c":blits(d, &mut p)?,"rest":false}),
                ("idrup", b'l') => json!({"e":"der","id":0,"red":true,"c":blits(d, &mut p)?,"ants":[]}),
                ("idrup", b'd') => json!({"e":"fdel","c":blits(d, &mut p)?}),
                ("idrup", b'w') => json!({"e":"fweak","c":blits(d, &mut p)?}),
                ("idrup", b'r') => json!({"e":"frest","c":blits(d, &mut p)?}),
                ("idrup", b'u') => json!({"e":"fcore","c":blits(d, &mut p)?,"ants":[]}),
                ("idrup" | "lidrup", b'q') => json!({"e":"fquery","a":blits(d, &mut p)?}),
                ("idrup" | "lidrup", b'm') => json!({"e":"fmodel","m":blits(d, &mut p)?}),
                ("idrup" | "lidrup", b'e') => json!({"e":"ftrail","m":blits(d, &mut p)?}),
                ("idrup" | "lidrup", b's') => {
                    let (w, r) = STATUS.iter().find(|(w, _)| d[p..].starts_with(w.as_bytes()))?;
                    p += w.len();
                    json!({"e":"fstatus","r":r})
                }
                _ => return None,
            });
        }
        return Some(o);
    }
    let t = std::str::from_utf8(d).ok()?;
    let mut pol: Vec<i64> = vec![];
    for l in t.lines() {
        if l.starts_with("c ") || l == "c" {
            continue;
        }
        let mut w = l.split_ascii_whitespace().peekable();
        match fmt {
            "drat" => {
                if w.peek() == Some(&"d") {
                    w.next();
                    o.push(json!({"e":"fdel","c":tlits(&mut w)?}));
                } else {
                    o.push(json!({"e":"der","id":0,"red":true,"c":tlits(&mut w)?,"ants":[]}));
                }
            }
            "lrat" => {
                let id = w.next()?.parse::<i64>().ok()?;
                if w.peek() == Some(&"d") {
                    w.next();
                    o.push(json!({"e":"fdels","ids":tlits(&mut w)?}));
                } else {
                    o.push(json!({"e":"der","id":id,"red":true,"c":tlits(&mut w)?,"ants":tlits(&mut w)?}));
                }
            }
            "lidrup" | "idrup" => {
                let ids = fmt == "lidrup";
                let k = w.next()?;
                let id = if ids && (k == "i" || k == "l") {
                    w.next()?.parse::<i64>().ok()?
                } else {
                    0
                };
                if k == "s" {
                    let s = w.next()?;
                    o.push(json!({"e":"fstatus","r":STATUS.iter().find(|(w, _)| s == *w)?.1}));
                    continue;
                }
                let c = tlits(&mut w)?;
                let ants = if ids && (k == "l" || k == "u") {
                    tlits(&mut w)?
                } else {
                    vec![]
                };
                o.push(match k {
                    "i" => json!({"e":"orig","id":id,"red":false,"c":c,"rest":false}),
                    "l" => json!({"e":"der","id":id,"red":true,"c":c,"ants":ants}),
                    "d" | "w" | "r" if ids => json!({"e":idr(k.as_bytes()[0]),"ids":c}),
                    "d" => json!({"e":"fdel","c":c}),
                    "w" => json!({"e":"fweak","c":c}),
                    "r" => json!({"e":"frest","c":c}),
                    "u" => json!({"e":"fcore","c":c,"ants":ants}),
                    "q" => json!({"e":"fquery","a":c}),
                    "m" => json!({"e":"fmodel","m":c}),
                    "e" => json!({"e":"ftrail","m":c}),
                    _ => return None,
                });
            }
            "veripb" => {
                let l = l.strip_suffix(';')?;
                let v: Vec<&str> = l.split(' ').collect();
                w = "".split_ascii_whitespace().peekable();
                match v[0] {
                    "pol" => {
                        pol = v[1..].iter().filter_map(|t| t.parse::<i64>().ok()).rev().collect();
                        let mut x = vec![];
                        for (i, id) in pol.iter().rev().enumerate() {
                            x.push(if i == 0 { id.to_string() } else { format!("{id} + s") });
                        }
                        if v[1..].join(" ") != x.join(" ") {
                            return None;
                        }
                    }
                    "e" => {
                        let (c, id) = l[2..].split_once(">= 1 : ")?;
                        o.push(json!({"e":"der","id":id.parse::<i64>().ok()?,"red":true,"c":pbcl(c)?,"ants":pol}));
                        pol = vec![];
                    }
                    "rup" => {
                        let c = l[4..].strip_suffix(">= 1")?;
                        o.push(json!({"e":"der","id":0,"red":true,"c":pbcl(c)?,"ants":[]}));
                    }
                    "core" | "del" if v.len() == 3 && v[1] == "id" => {
                        o.push(json!({"e":format!("v-{}", v[0]),"id":v[2].parse::<i64>().ok()?}));
                    }
                    "delc" if v.len() == 2 => o.push(json!({"e":"v-delc","id":v[1].parse::<i64>().ok()?})),
                    "output" if l == "output NONE" => (),
                    "conclusion" if l == "conclusion NONE" => o.push(json!({"e":"v-end","r":"sat","id":0})),
                    "conclusion" => {
                        o.push(json!({"e":"v-end","r":"unsat","id":l.strip_prefix("conclusion UNSAT : ")?.parse::<i64>().ok()?}));
                    }
                    "end" if l == "end pseudo-Boolean proof" => (),
                    _ => return None,
                }
            }
            "frat" | "fratd" => match w.next()? {
                "o" => {
                    let id = w.next()?.parse::<i64>().ok()?;
                    o.push(json!({"e":"orig","id":id,"red":false,"c":tlits(&mut w)?,"rest":false}));
                }
                "a" => {
                    let id = w.next()?.parse::<i64>().ok()?;
                    let c = tlits(&mut w)?;
                    let ants = if w.next() == Some("l") { tlits(&mut w)? } else { vec![] };
                    if (fmt == "fratd") != ants.is_empty() {
                        return None;
                    }
                    o.push(json!({"e":"der","id":id,"red":true,"c":c,"ants":ants}));
                }
                "d" => {
                    let id = w.next()?.parse::<i64>().ok()?;
                    o.push(json!({"e":"del","id":id,"red":true,"c":tlits(&mut w)?}));
                }
                "f" => {
                    let id = w.next()?.parse::<i64>().ok()?;
                    o.push(json!({"e":"final","id":id,"c":tlits(&mut w)?}));
                }
                _ => return None,
            },
            _ => return None,
        }
        if w.next().is_some() {
            return None;
        }
    }
    Some(o)
}
fn file_mode(sc: &Value, tr: &mut Tracer) {
    let dir = std::env::temp_dir().join(format!("vt-tracer-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("p.proof");
    let fmt = sc["fmt"].as_str().unwrap();
    let binary = sc["bin"] == true;
    let format = match fmt {
        "drat" => ProofFormat::Drat { binary },
        "lrat" => ProofFormat::Lrat { binary },
        "frat" => ProofFormat::Frat { binary, drat: false },
        "idrup" => ProofFormat::Idrup { binary },
        "lidrup" => ProofFormat::Lidrup { binary },
        "veripb" => ProofFormat::VeriPB {
            checked_deletion: sc["chk"] == true,
            drat: sc["rup"] == true,
        },
        _ => ProofFormat::Frat { binary, drat: true },
    };
    let mut s = CaDiCaL::default();
    if let Some(c) = sc["conf"].as_str() {
        s.set_configuration(conf(c)).unwrap();
    }
    for o in sc["opts"].as_array().unwrap() {
        s.set_option(o[0].as_str().unwrap(), o[1].as_i64().unwrap() as i32)
            .unwrap();
    }
    s.trace_proof(&path, format).unwrap();
    let mut cls: Vec<Clause> = vec![];
    let mut ops = vec![];
    let mut r = SolverResult::Interrupted;
    for o in sc["ops"].as_array().unwrap() {
        if o["op"] == "add" {
            let c: Clause = lits(&o["c"]).into_iter().collect();
            s.add_clause_ref(&c).unwrap();
            ops.push(json!({"k":"add","c":icl(&c)}));
            cls.push(c);
        } else {
            if let Some(n) = o["n"].as_i64() {
                s.set_limit(Limit::Conflicts(n as i32)).unwrap();
            }
            let a = lits(&o["a"]);
            r = s.solve_assumps(&a).unwrap();
            let core: Vec<i64> = match r {
                SolverResult::Unsat => s.core().unwrap().into_iter().map(ilit).collect(),
                _ => vec![],
            };
            ops.push(json!({"k":"solve","a":o["a"],"r":res(r),"core":core}));
        }
    }
    drop(s);
    let data = std::fs::read(&path).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    let steps = parse(&data, fmt, binary);
    // added clauses have the ids that no derived clause has, in the order they were added
    let used: Vec<i64> = steps
        .iter()
        .flatten()
        .filter(|e| e["e"] == "der")
        .map(|e| e["id"].as_i64().unwrap())
        .collect();
    let free: Vec<i64> = (1..)
        .filter(|i| fmt == "drat" || !used.contains(i))
        .take(cls.len())
        .collect();
    tr.ev(json!({"e":"file","fmt":fmt,"bin":binary,"cls":cls.iter().map(icl).collect::<Vec<_>>(),"ids":free,"r":res(r),"ops":ops,"chk":sc["chk"] == true,"rup":sc["rup"] == true}));
    match steps {
        None => tr.ev(json!({"e":"ferr","head":String::from_utf8_lossy(&data[..data.len().min(200)])})),
        Some(st) => {
            for mut e in st {
                e["t"] = json!(1);
                tr.ev(e);
            }
        }
    }
    tr.ev(json!({"e":"fend"}));
}
fn conf(c: &str) -> Config {
    match c {
        "default" => Config::Default,
        "plain" => Config::Plain,
        "sat" => Config::Sat,
        _ => Config::Unsat,
    }
}
fn run(sc: &Value, tr: &mut Tracer) {
    tr.ev(json!({"e":"new"}));
    if sc["mode"] == "file" {
        return file_mode(sc, tr);
    }
    let log: Log = Rc::default();
    let mut s = CaDiCaL::default();
    let mut other = CaDiCaL::default();
    let mut sl: Vec<Slot> = vec![];
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        // what is asked for, what is reported, and what it returned
        let mut pre = o.clone();
        pre["e"] = json!(format!("u-{op}"));
        pre.as_object_mut().unwrap().remove("op");
        tr.ev(pre);
        let r = guard(|| step(&mut s, &mut other, &mut sl, &log, op, o));
        for e in log.borrow_mut().drain(..) {
            tr.ev(e);
        }
        match r {
            Ok(v) => tr.ev(json!({"e":"ret","op":op,"v":v})),
            Err(m) => {
                tr.ev(json!({"e":"panic","op":op,"msg":m}));
                return;
            }
        }
    }
    drop(s);
    // events while the solver is dropped are not judged, the tracers must be unaffected
    log.borrow_mut().clear();
    let al: Vec<bool> = sl.iter().map(|x| *x.alive.borrow()).collect();
    tr.ev(json!({"e":"end","alive":al}));
}
fn step(
    s: &mut CaDiCaL<'static, 'static>,
    other: &mut CaDiCaL<'static, 'static>,
    sl: &mut Vec<Slot>,
    log: &Log,
    op: &str,
    o: &Value,
) -> Value {
    let i = o["i"].as_u64().unwrap_or(0) as usize;
    match op {
        "connect" => {
            let alive = Rc::new(RefCell::new(true));
            let h = s.connect_proof_tracer(
                Rec {
                    log: log.clone(),
                    t: sl.len() + 1,
                    alive: alive.clone(),
                    n: 0,
                },
                o["ants"] == true,
            );
            sl.push(Slot {
                h: Some(h),
                alive,
                seen: 0,
            });
            json!(sl.len())
        }
        "disconnect" => {
            let h = sl[i].h.take().unwrap();
            if o["wrong"] == true {
                let e = other.disconnect_proof_tracer(h).is_err();
                return json!({"err": e, "alive": *sl[i].alive.borrow()});
            }
            match s.disconnect_proof_tracer(h) {
                Ok(r) => json!({"err": false, "alive": *sl[i].alive.borrow(), "t": r.t}),
                Err(_) => json!({"err": true}),
            }
        }
        "peek" => {
            let h = sl[i].h.as_ref().unwrap();
            let p = s.proof_tracer_mut(h);
            let (t, n) = (p.t, p.n);
            p.n = 0;
            sl[i].seen = n;
            json!({"t": t, "n": n})
        }
        "conf" => {
            s.set_configuration(conf(o["name"].as_str().unwrap())).unwrap();
            json!(0)
        }
        "opt" => {
            s.set_option(o["name"].as_str().unwrap(), o["val"].as_i64().unwrap() as i32)
                .unwrap();
            json!(0)
        }
        "add" => {
            let c: Clause = lits(&o["c"]).into_iter().collect();
            s.add_clause_ref(&c).unwrap();
            json!(0)
        }
        "tmp" => {
            let c: Clause = lits(&o["c"]).into_iter().collect();
            s.add_tmp_clause(&c).unwrap();
            json!(0)
        }
        "climit" => {
            let n = o["n"].as_i64().unwrap() as i32;
            s.set_limit(if o["k"] == "conflicts" {
                Limit::Conflicts(n)
            } else {
                Limit::Decisions(n)
            })
            .unwrap();
            json!(0)
        }
        "solve" => {
            let a = lits(&o["a"]);
            let r = if a.is_empty() {
                s.solve().unwrap()
            } else {
                s.solve_assumps(&a).unwrap()
            };
            let core: Vec<i64> = if r == SolverResult::Unsat {
                s.core().unwrap().into_iter().map(ilit).collect()
            } else {
                vec![]
            };
            json!({"r": res(r), "core": core})
        }
        "simplify" => {
            let a = lits(&o["a"]);
            let n = o["n"].as_u64().unwrap() as u32;
            let r = if a.is_empty() {
                s.simplify(n).unwrap()
            } else {
                s.simplify_assumps(&a, n).unwrap()
            };
            json!({"r": res(r)})
        }
        x => panic!("harness: op {x}"),
    }
}
fn main() {
    main_loop(run)
}
