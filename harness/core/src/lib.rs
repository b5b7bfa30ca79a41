//! Shared parts of the scenario executors: JSON plumbing, panic capture,
//! tracking clause collector and variable manager, and a small satisfiability
//! procedure that shares no code with rustsat.
use rustsat::encodings::CollectClauses;
use rustsat::instances::ManageVars;
use rustsat::types::{Clause, Lit, Var};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub use serde_json;

pub mod dpll;

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("harness panic: {loc} {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc} {msg}"));
    }));
}

/// Runs code under test; a panic is data
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| {
            let mut s = p.borrow().clone();
            s.retain(|c| c != '\n' && c != '"' && c != '\\' && c.is_ascii());
            s.truncate(160);
            s
        })),
    }
}

pub struct Tracer {
    out: Box<dyn Write>,
    s: i64,
    pub n: usize,
}

impl Tracer {
    /// Emits one event; `e` must be an object
    pub fn ev(&mut self, mut e: Value) {
        e["s"] = json!(self.s);
        writeln!(self.out, "{e}").unwrap();
        self.n += 1;
    }
    pub fn flush(&mut self) {
        self.out.flush().unwrap();
    }
}

/// Standard main: `exe scenarios.ndjson trace.ndjson [skip]`. Runs every scenario through `f`.
/// A scenario taking longer than the limit ends the process with status 97 (the driver records
/// the hang and resumes behind it).
pub fn main_loop(f: impl Fn(&Value, &mut Tracer)) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
    let limit: u64 = std::env::var("VT_SCEN_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let started = Arc::new(AtomicU64::new(0));
    let t0 = std::time::Instant::now();
    {
        let started = started.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let st = started.load(Ordering::SeqCst);
            if st != 0 && t0.elapsed().as_secs() + 1 > st + limit {
                std::process::exit(97);
            }
        });
    }
    let rd = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("scenario file"));
    let file = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("trace file");
    let prog = format!("{}.progress", args[2]);
    let mut tr = Tracer { out: Box::new(std::io::BufWriter::with_capacity(1 << 16, file)), s: 0, n: 0 };
    for (i, line) in rd.lines().enumerate() {
        if i < skip {
            continue;
        }
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario json");
        std::fs::write(&prog, format!("{i}")).unwrap();
        tr.s = sc["id"].as_i64().unwrap();
        started.store(t0.elapsed().as_secs() + 1, Ordering::SeqCst);
        f(&sc, &mut tr);
        started.store(0, Ordering::SeqCst);
        tr.flush();
    }
    std::fs::write(&prog, "done").unwrap();
}

pub fn ilit(l: Lit) -> i64 {
    let v = i64::from(l.var().idx32()) + 1;
    if l.is_neg() {
        -v
    } else {
        v
    }
}
pub fn mklit(i: i64) -> Lit {
    let v = Var::new((i.unsigned_abs() - 1) as u32);
    v.lit(i < 0)
}
pub fn lits(v: &Value) -> Vec<Lit> {
    v.as_array().map(|a| a.iter().map(|x| mklit(x.as_i64().unwrap())).collect()).unwrap_or_default()
}
pub fn icl(c: &Clause) -> Vec<i64> {
    c.iter().map(|l| ilit(*l)).collect()
}
pub fn us(v: &Value) -> usize {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_u64().unwrap() as usize,
    }
}
pub fn is(v: &Value) -> isize {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_i64().unwrap() as isize,
    }
}
/// Big naturals travel as `[hi, lo]` in base 10^9 (TLC has 32-bit integers); values whose high
/// part does not fit are capped.
pub fn bn(x: usize) -> Value {
    let hi = x / 1_000_000_000;
    if hi > 2_000_000_000 {
        json!([2_000_000_000u64, 0])
    } else {
        json!([hi, x % 1_000_000_000])
    }
}

/// Clause collector that remembers everything it was given
#[derive(Default, Clone)]
pub struct Col {
    pub cls: Vec<Vec<i64>>,
    /// How many more clauses fit
    pub left: Option<usize>,
}
impl CollectClauses for Col {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        for c in it {
            match &mut self.left {
                Some(0) => {
                    return Err(rustsat::OutOfMemory::TryReserve(
                        Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err(),
                    ))
                }
                Some(n) => *n -= 1,
                None => (),
            }
            self.cls.push(icl(&c));
        }
        Ok(())
    }
}

/// Variable manager that logs what it hands out. With `gap > 0` the returned variables are not
/// contiguous (the counting interface stays consistent: skipped variables count as used).
pub struct Vm {
    pub next: u32,
    pub gap: u32,
    pub handed: Vec<u32>,
}
impl Vm {
    pub fn new(first: u32, gap: u32) -> Self {
        Vm { next: first, gap, handed: vec![] }
    }
    pub fn take_new(&mut self) -> Vec<u32> {
        std::mem::take(&mut self.handed)
    }
}
impl ManageVars for Vm {
    fn new_var(&mut self) -> Var {
        let v = self.next;
        self.next += 1;
        self.handed.push(v);
        Var::new(v)
    }
    fn max_var(&self) -> Option<Var> {
        if self.next == 0 {
            None
        } else {
            Some(Var::new(self.next - 1))
        }
    }
    fn increase_next_free(&mut self, v: Var) -> bool {
        if v.idx32() > self.next {
            self.next = v.idx32();
            return true;
        }
        false
    }
    fn combine(&mut self, other: Self) {
        self.next = self.next.max(other.next);
    }
    fn n_used(&self) -> u32 {
        self.next
    }
    fn forget_from(&mut self, min_var: Var) {
        self.next = self.next.min(min_var.idx32());
    }
}

/// All (or the given sampled) assignments of the first `nv` variables as 0/1 vectors
pub fn masks(nv: usize) -> Vec<Vec<u8>> {
    (0..(1usize << nv)).map(|m| (0..nv).map(|i| ((m >> i) & 1) as u8).collect()).collect()
}
pub fn mask_units(m: &[u8]) -> Vec<i64> {
    m.iter()
        .enumerate()
        .map(|(i, b)| if *b == 1 { i as i64 + 1 } else { -(i as i64 + 1) })
        .collect()
}
/// For each mask: 1 if the clauses plus assumptions are satisfiable under it, else 0
pub fn sat_per_mask(cls: &[Vec<i64>], masks: &[Vec<u8>], assumps: &[i64]) -> Vec<u8> {
    let mut d = dpll::Dpll::new(cls);
    masks
        .iter()
        .map(|m| {
            let mut a = mask_units(m);
            a.extend_from_slice(assumps);
            u8::from(d.solve(&a).is_some())
        })
        .collect()
}
/// Variables (1-based) above `base` occurring in the clauses, sorted
pub fn aux_vars(cls: &[Vec<i64>], base: u32) -> Vec<i64> {
    let mut v: Vec<i64> = cls
        .iter()
        .flatten()
        .map(|l| l.abs())
        .filter(|v| *v > i64::from(base))
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}
