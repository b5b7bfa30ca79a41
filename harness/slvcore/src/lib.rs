//! Replays call histories on the real solver interfaces and records everything observable
use rustsat::encodings::CollectClauses;
use rustsat::instances::Cnf;
use rustsat::solvers::{ControlSignal, InterruptSolver, PropagateResult, Solve, SolveStats, SolverResult, SolverState, StateError};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use vtcore::{guard, icl, ilit, lits, mklit, serde_json, Tracer};

pub type R<T> = anyhow::Result<T>;
pub type TermCb = Box<dyn FnMut() -> ControlSignal>;
pub type LearnCb = Box<dyn FnMut(Clause)>;

/// What a backend offers beyond solving
pub struct Ext<S> {
    pub solve_a: Option<fn(&mut S, &[Lit]) -> R<SolverResult>>,
    pub core: Option<fn(&mut S) -> R<Vec<Lit>>>,
    pub phase: Option<fn(&mut S, Lit) -> R<()>>,
    pub unphase: Option<fn(&mut S, Var, bool) -> R<()>>,
    pub freeze: Option<fn(&mut S, Var) -> R<()>>,
    pub melt: Option<fn(&mut S, Var) -> R<()>>,
    pub frozen: Option<fn(&mut S, Var) -> R<bool>>,
    pub flip: Option<fn(&mut S, Lit) -> R<bool>>,
    pub flippable: Option<fn(&mut S, Lit) -> R<bool>>,
    pub limc: Option<fn(&mut S, Option<u32>) -> R<()>>,
    pub limd: Option<fn(&mut S, Option<u32>) -> R<()>>,
    pub limp: Option<fn(&mut S, Option<u32>) -> R<()>>,
    pub prop: Option<fn(&mut S, &[Lit], bool) -> R<PropagateResult>>,
    pub interrupter: Option<fn(&mut S) -> Box<dyn InterruptSolver + Send>>,
    pub counts: Option<fn(&S) -> [usize; 3]>,
    pub term: Option<fn(&mut S, Option<TermCb>)>,
    pub learn: Option<fn(&mut S, Option<(LearnCb, usize)>)>,
    pub other: fn(&mut S, &Value) -> Option<Value>,
}

impl<S> Default for Ext<S> {
    fn default() -> Self {
        Ext {
            solve_a: None,
            core: None,
            phase: None,
            unphase: None,
            freeze: None,
            melt: None,
            frozen: None,
            flip: None,
            flippable: None,
            limc: None,
            limd: None,
            limp: None,
            prop: None,
            interrupter: None,
            counts: None,
            term: None,
            learn: None,
            other: |_, _| None,
        }
    }
}

#[macro_export]
macro_rules! incremental {
    ($e:ident) => {
        $e.solve_a = Some(|s, a| s.solve_assumps(a));
        $e.core = Some(|s| s.core());
    };
}
#[macro_export]
macro_rules! phased {
    ($e:ident) => {
        $e.phase = Some(|s, l| s.phase_lit(l));
        $e.unphase = Some(|s, v, as_lit| {
            if as_lit {
                s.unphase_lit(v.neg_lit())
            } else {
                s.unphase_var(v)
            }
        });
    };
}
#[macro_export]
macro_rules! freezing {
    ($e:ident) => {
        $e.freeze = Some(|s, v| s.freeze_var(v));
        $e.melt = Some(|s, v| s.melt_var(v));
        $e.frozen = Some(|s, v| s.is_frozen(v));
    };
}
#[macro_export]
macro_rules! interrupting {
    ($e:ident) => {
        $e.interrupter = Some(|s| Box::new(s.interrupter()));
    };
}
#[macro_export]
macro_rules! minisat_like {
    ($e:ident) => {
        incremental!($e);
        phased!($e);
        interrupting!($e);
        $e.limc = Some(|s, l| s.limit_conflicts(l));
        $e.limp = Some(|s, l| s.limit_propagations(l));
        $e.prop = Some(|s, a, p| s.propagate(a, p));
        $e.counts = Some(|s| [s.conflicts(), s.decisions(), s.propagations()]);
    };
}

fn stname(s: SolverState) -> &'static str {
    match s {
        SolverState::Configuring => "Configuring",
        SolverState::Input => "Input",
        SolverState::Sat => "Sat",
        SolverState::Unsat => "Unsat",
        SolverState::Unknown => "Unknown",
    }
}
pub fn resname(r: SolverResult) -> &'static str {
    match r {
        SolverResult::Sat => "Sat",
        SolverResult::Unsat => "Unsat",
        SolverResult::Interrupted => "Int",
    }
}
pub fn tv(t: TernaryVal) -> i64 {
    match t {
        TernaryVal::True => 1,
        TernaryVal::False => 0,
        TernaryVal::DontCare => -1,
    }
}
pub fn err(e: anyhow::Error) -> Value {
    if let Some(s) = e.downcast_ref::<StateError>() {
        return json!({"k": "state", "req": stname(s.required_state), "act": stname(s.actual_state)});
    }
    let m = e.to_string();
    if m.contains("eliminated") {
        return json!({"k": "elim", "m": m});
    }
    json!({"k": "other", "m": e.to_string().chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(80).collect::<String>()})
}
pub fn wrap<T>(r: Result<R<T>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => f(v),
        Ok(Err(e)) => err(e),
        Err(m) => json!({"k": "panic", "m": m}),
    }
}
pub fn ok(_: ()) -> Value {
    json!({"k": "ok"})
}
pub fn var(v: &Value) -> Var {
    Var::new((v.as_u64().unwrap() - 1) as u32)
}
fn vv(a: &Assignment) -> Vec<i64> {
    a.iter_ternary().map(tv).collect()
}
trait IterT {
    fn iter_ternary(&self) -> Box<dyn Iterator<Item = TernaryVal> + '_>;
}
impl IterT for Assignment {
    fn iter_ternary(&self) -> Box<dyn Iterator<Item = TernaryVal> + '_> {
        Box::new((0..self.len()).map(move |i| self.var_value(Var::new(i as u32))))
    }
}

fn add<S: Solve + SolveStats + CollectClauses>(s: &mut S, cls: &[Clause], how: u64) -> R<()> {
    match how {
        0 => cls.iter().try_for_each(|c| Solve::add_clause(s, c.clone())),
        1 => cls.iter().try_for_each(|c| s.add_clause_ref(c)),
        2 => cls.iter().try_for_each(|c| {
            let sl: &[Lit] = c.as_ref();
            match sl {
                [a] => s.add_unit(*a),
                [a, b] => s.add_binary(*a, *b),
                [a, b, d] => s.add_ternary(*a, *b, *d),
                _ => Solve::add_clause(s, c.clone()),
            }
        }),
        3 => s.add_cnf(cls.iter().cloned().collect::<Cnf>()),
        4 => s.add_cnf_ref(&cls.iter().cloned().collect::<Cnf>()),
        5 => {
            s.extend(cls.iter().cloned());
            Ok(())
        }
        6 => {
            s.extend(cls.iter());
            Ok(())
        }
        7 => Ok(s.extend_clauses(cls.iter().cloned())?),
        _ => cls
            .iter()
            .try_for_each(|c| Ok(CollectClauses::add_clause(s, c.clone())?)),
    }
}

/// Pigeons into holes, as clauses over p(i, h) = i * holes + h + 1
fn php(p: i64, h: i64) -> Vec<Clause> {
    let v = |i: i64, k: i64| i * h + k + 1;
    let mut c = vec![];
    for i in 0..p {
        c.push((0..h).map(|k| mklit(v(i, k))).collect());
    }
    for k in 0..h {
        for i in 0..p {
            for j in i + 1..p {
                c.push([mklit(-v(i, k)), mklit(-v(j, k))].into_iter().collect());
            }
        }
    }
    c
}

struct CbState {
    calls: Rc<RefCell<(i64, i64)>>, // calls, terminate answers
    learned: Rc<RefCell<Vec<Clause>>>,
    tm: Option<std::rc::Weak<()>>,
    lm: Option<std::rc::Weak<()>>,
}

fn values<S: Solve>(s: &S, n: u64) -> R<(Vec<i64>, Vec<i64>)> {
    let mut p = vec![];
    let mut g = vec![];
    for i in 1..=n as i64 {
        p.push(tv(s.lit_val(mklit(i))?));
        g.push(tv(s.lit_val(mklit(-i))?));
    }
    Ok((p, g))
}

pub fn run<S>(mut s: S, x: &Ext<S>, sc: &Value, tr: &mut Tracer)
where
    S: Solve + SolveStats,
{
    let nv = sc["nv"].as_u64().unwrap();
    let mut hard: Vec<Clause> = vec![];
    let mut cb = CbState {
        calls: Rc::default(),
        learned: Rc::default(),
        tm: None,
        lm: None,
    };
    for op in sc["ops"].as_array().unwrap() {
        let o = op["o"].as_str().unwrap();
        let mut ev = op.clone();
        ev.as_object_mut().unwrap().remove("o");
        ev["e"] = json!(o);
        let a = lits(&op["a"]);
        let none = "harness: operation not offered";
        match o {
            "add" => {
                let cls: Vec<Clause> = op["cs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| lits(c).into_iter().collect())
                    .collect();
                ev["r"] = wrap(guard(|| add(&mut s, &cls, op["how"].as_u64().unwrap())), ok);
            }
            "hadd" => {
                hard = php(op["p"].as_i64().unwrap(), op["h"].as_i64().unwrap());
                ev["r"] = wrap(guard(|| add(&mut s, &hard, 1)), ok);
            }
            "solve" => {
                let c0 = x.counts.map(|f| f(&s));
                *cb.calls.borrow_mut() = (0, 0);
                cb.learned.borrow_mut().clear();
                let thr = op.get("us").and_then(|u| u.as_u64()).map(|us| {
                    let i = x.interrupter.expect(none)(&mut s);
                    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let d = done.clone();
                    (
                        std::thread::spawn(move || {
                            std::thread::sleep(std::time::Duration::from_micros(us));
                            i.interrupt();
                            d.store(true, std::sync::atomic::Ordering::SeqCst);
                        }),
                        done,
                    )
                });
                let r = if op["as"].as_bool().unwrap() {
                    guard(|| x.solve_a.expect(none)(&mut s, &a))
                } else {
                    guard(|| s.solve())
                };
                if let Some((t, _)) = thr {
                    t.join().unwrap();
                }
                ev["r"] = wrap(r, |r| json!({"k": "res", "v": resname(r)}));
                for (k, d) in [("us", json!(0)), ("must", json!(false)), ("fals", json!(0)), ("lmax", json!(0))] {
                    if op.get(k).is_none() {
                        ev[k] = d;
                    }
                }
                if !hard.is_empty() {
                    ev["fals"] = json!(-1);
                    if ev["r"]["v"] == "Sat" {
                        ev["fals"] = wrap(
                            guard(|| {
                                let sol = s.full_solution()?;
                                Ok(hard
                                    .iter()
                                    .filter(|c| !c.iter().any(|l| sol.lit_value(*l) == TernaryVal::True))
                                    .count())
                            }),
                            |n| json!(n),
                        );
                    }
                }
                let c1 = x.counts.map(|f| f(&s));
                ev["dc"] = match (c0, c1) {
                    (Some(a), Some(b)) => json!((0..3)
                        .map(|i| b[i] as i64 - a[i] as i64)
                        .map(|v| v.clamp(-1, 1 << 30))
                        .collect::<Vec<_>>()),
                    _ => json!([0, 0, 0]),
                };
                let (n, t) = *cb.calls.borrow();
                ev["calls"] = json!([n.min(1 << 30), t.min(1 << 30)]);
                if hard.is_empty() {
                    ev["lrn"] = json!(cb.learned.borrow().iter().take(60).map(icl).collect::<Vec<_>>());
                } else {
                    ev["lrn"] = json!([]);
                    // only the length matters for large instances, and being implied for a satisfiable one
                    ev["lmax"] = json!(cb.learned.borrow().iter().map(|c| c.len()).max().unwrap_or(0));
                }
            }
            "vals" => {
                ev["r"] = wrap(
                    guard(|| values(&s, nv + 2)),
                    |(p, n)| json!({"k": "vals", "p": p, "n": n}),
                );
                let h = op["h"].as_u64().unwrap();
                ev["sol"] = wrap(
                    guard(|| s.solution(Var::new((h - 1) as u32))),
                    |a| json!({"k": "sol", "a": vv(&a)}),
                );
                ev["full"] = wrap(guard(|| s.full_solution()), |a| json!({"k": "sol", "a": vv(&a)}));
                ev["vv"] = wrap(
                    guard(|| s.var_val(Var::new((h - 1) as u32))),
                    |v| json!({"k": "val", "v": tv(v)}),
                );
                ev["mxv"] = json!(s.max_var().map_or(0, |v| v.idx() + 1));
            }
            "core" => {
                ev["r"] = wrap(
                    guard(|| x.core.expect(none)(&mut s)),
                    |c| json!({"k": "core", "c": c.iter().map(|l| ilit(*l)).collect::<Vec<_>>()}),
                );
            }
            "stats" => {
                let st = s.stats();
                ev["sat"] = json!(st.n_sat);
                ev["uns"] = json!(st.n_unsat);
                ev["trm"] = json!(st.n_terminated);
                ev["ncl"] = json!(st.n_clauses);
                ev["mxv"] = json!(st.max_var.map_or(0, |v| v.idx() + 1));
                ev["avg"] = json!((st.avg_clause_len * 1000.0).round() as i64);
                ev["same"] = json!(
                    st.n_sat == s.n_sat_solves()
                        && st.n_unsat == s.n_unsat_solves()
                        && st.n_terminated == s.n_terminated()
                        && st.n_sat + st.n_unsat + st.n_terminated == s.n_solves()
                        && st.n_clauses == SolveStats::n_clauses(&s)
                        && st.max_var == s.max_var()
                        && s.n_vars() == st.max_var.map_or(0, |v| v.idx() + 1)
                        && st.avg_clause_len == s.avg_clause_len()
                        && st.cpu_solve_time == s.cpu_solve_time()
                );
            }
            "reserve" => ev["r"] = wrap(guard(|| s.reserve(var(&op["v"]))), ok),
            "phase" => {
                ev["r"] = wrap(
                    guard(|| x.phase.expect(none)(&mut s, mklit(op["l"].as_i64().unwrap()))),
                    ok,
                )
            }
            "unphase" => {
                ev["r"] = wrap(
                    guard(|| x.unphase.expect(none)(&mut s, var(&op["v"]), op["lit"].as_bool().unwrap())),
                    ok,
                )
            }
            "freeze" => ev["r"] = wrap(guard(|| x.freeze.expect(none)(&mut s, var(&op["v"]))), ok),
            "melt" => ev["r"] = wrap(guard(|| x.melt.expect(none)(&mut s, var(&op["v"]))), ok),
            "frozen" => {
                ev["r"] = wrap(
                    guard(|| x.frozen.expect(none)(&mut s, var(&op["v"]))),
                    |b| json!({"k": "b", "v": b}),
                )
            }
            "flip" => {
                let l = mklit(op["l"].as_i64().unwrap());
                let b = wrap(guard(|| values(&s, nv)), |(p, _)| json!(p));
                let fl = wrap(
                    guard(|| x.flippable.expect(none)(&mut s, l)),
                    |b| json!({"k": "b", "v": b}),
                );
                let m = wrap(guard(|| values(&s, nv)), |(p, _)| json!(p));
                let r = wrap(guard(|| x.flip.expect(none)(&mut s, l)), |b| json!({"k": "b", "v": b}));
                let a = wrap(guard(|| values(&s, nv)), |(p, _)| json!(p));
                ev["bef"] = if b.is_array() { b } else { json!([]) };
                ev["mid"] = if m.is_array() { m } else { json!([]) };
                ev["aft"] = if a.is_array() { a } else { json!([]) };
                ev["can"] = fl;
                ev["r"] = r;
            }
            "limit" => {
                let n = op["n"].as_u64().map(|n| n as u32);
                let f = match op["k"].as_str().unwrap() {
                    "conf" => x.limc,
                    "dec" => x.limd,
                    _ => x.limp,
                };
                ev["n"] = json!(op["n"].as_i64().map_or(-1, |n| n.min(1 << 30)));
                ev["r"] = wrap(guard(|| f.expect(none)(&mut s, n)), ok);
            }
            "int" => {
                ev["r"] = wrap(
                    guard(|| {
                        x.interrupter.expect(none)(&mut s).interrupt();
                        Ok(())
                    }),
                    ok,
                )
            }
            "term" => {
                let n = op["n"].as_i64().unwrap();
                let calls = cb.calls.clone();
                let mark = Rc::new(());
                let old = cb.tm.replace(Rc::downgrade(&mark));
                ev["r"] = wrap(
                    guard(|| {
                        x.term.expect(none)(
                            &mut s,
                            Some(Box::new(move || {
                                let _keep = &mark;
                                let mut c = calls.borrow_mut();
                                c.0 += 1;
                                if n >= 0 && c.0 > n {
                                    c.1 += 1;
                                    ControlSignal::Terminate
                                } else {
                                    ControlSignal::Continue
                                }
                            })),
                        );
                        Ok(())
                    }),
                    ok,
                );
                ev["alive"] = json!(old.is_some_and(|w| w.upgrade().is_some()));
            }
            "termoff" => {
                ev["r"] = wrap(
                    guard(|| {
                        x.term.expect(none)(&mut s, None);
                        Ok(())
                    }),
                    ok,
                );
                ev["alive"] = json!(cb.tm.take().is_some_and(|w| w.upgrade().is_some()));
                ev["other"] = json!(cb.lm.as_ref().map_or(0, |w| if w.upgrade().is_some() { 1 } else { 2 }));
            }
            "learn" => {
                let st = cb.learned.clone();
                let mark = Rc::new(());
                let old = cb.lm.replace(Rc::downgrade(&mark));
                ev["r"] = wrap(
                    guard(|| {
                        x.learn.expect(none)(
                            &mut s,
                            Some((
                                Box::new(move |c| {
                                    let _keep = &mark;
                                    st.borrow_mut().push(c);
                                }),
                                op["max"].as_u64().unwrap() as usize,
                            )),
                        );
                        Ok(())
                    }),
                    ok,
                );
                ev["alive"] = json!(old.is_some_and(|w| w.upgrade().is_some()));
            }
            "learnoff" => {
                ev["r"] = wrap(
                    guard(|| {
                        x.learn.expect(none)(&mut s, None);
                        Ok(())
                    }),
                    ok,
                );
                ev["alive"] = json!(cb.lm.take().is_some_and(|w| w.upgrade().is_some()));
                ev["other"] = json!(cb.tm.as_ref().map_or(0, |w| if w.upgrade().is_some() { 1 } else { 2 }));
            }
            "prop" => {
                ev["r"] = wrap(
                    guard(|| x.prop.expect(none)(&mut s, &a, op["ps"].as_bool().unwrap())),
                    |p| json!({"k": "prop", "p": p.propagated.iter().map(|l| ilit(*l)).collect::<Vec<_>>(), "c": p.conflict}),
                );
            }
            "new" => unreachable!(),
            _ => {
                let r = guard(|| (x.other)(&mut s, op));
                match r {
                    Ok(Some(v)) => ev["r"] = v,
                    Ok(None) => panic!("harness: operation {o} not offered"),
                    Err(m) if m.contains("harness") => panic!("{m}"),
                    Err(m) => ev["r"] = json!({"k": "panic", "m": m}),
                }
            }
        }
        if ev["r"]["k"] == "panic" && ev["r"]["m"].as_str().unwrap().contains("harness") {
            panic!("{}", ev["r"]["m"]);
        }
        tr.ev(ev);
    }
}
