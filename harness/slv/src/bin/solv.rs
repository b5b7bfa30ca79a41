//! Replays call histories on the real solver interfaces and records everything observable
use rustsat::solvers::*;
use rustsat::types::Clause;
use serde_json::{json, Value};
use slvcore::*;
use vtcore::{lits, main_loop, mklit, serde_json};

#[path = "../ipasir.rs"]
mod ipasir;

type Cad = rustsat_cadical::CaDiCaL<'static, 'static>;
fn cadical_other(s: &mut Cad, op: &Value) -> Option<Value> {
    use rustsat_cadical::{Config, Limit, Statistic};
    let a = lits(&op["a"]);
    Some(match op["o"].as_str().unwrap() {
        "tmp" => {
            let c: Clause = lits(&op["c"]).into_iter().collect();
            wrap(Ok(s.add_tmp_clause(&c).map_err(Into::into)), ok)
        }
        "tmpcore" => wrap(Ok(s.tmp_clause_in_core()), |b| json!({"k": "b", "v": b})),
        "simplify" => {
            let n = op["n"].as_u64().unwrap() as u32;
            let r = if op["as"].as_bool().unwrap() {
                s.simplify_assumps(&a, n)
            } else {
                s.simplify(n)
            };
            wrap(Ok(r), |r| json!({"k": "res", "v": resname(r)}))
        }
        "opt" => wrap(
            Ok(s.set_option(op["name"].as_str().unwrap(), op["val"].as_i64().unwrap() as i32)),
            ok,
        ),
        "getopt" => wrap(
            Ok(s.get_option(op["name"].as_str().unwrap())),
            |v| json!({"k": "int", "v": v.clamp(-(1 << 30), 1 << 30)}),
        ),
        "conf" => wrap(
            Ok(s.set_configuration(match op["name"].as_str().unwrap() {
                "default" => Config::Default,
                "plain" => Config::Plain,
                "sat" => Config::Sat,
                _ => Config::Unsat,
            })),
            ok,
        ),
        "climit" => {
            let n = op["n"].as_i64().unwrap() as i32;
            wrap(
                Ok(s.set_limit(match op["k"].as_str().unwrap() {
                    "terminate" => Limit::Terminate(n),
                    "conflicts" => Limit::Conflicts(n),
                    "decisions" => Limit::Decisions(n),
                    "preprocessing" => Limit::Preprocessing(n),
                    _ => Limit::LocalSearch(n),
                })),
                ok,
            )
        }
        "fixed" => json!({"k": "val", "v": tv(s.current_lit_val(mklit(op["l"].as_i64().unwrap())))}),
        "active" => json!({"k": "nums", "v": [s.get_active(), s.get_irredundant(), s.get_redundant()]}),
        "declare" => {
            let n = op["n"].as_u64().unwrap() as u32;
            let v = if n == 1 {
                s.declare_one_more_variable()
            } else {
                s.declare_more_variables(n)
            };
            json!({"k": "int", "v": v.idx() + 1})
        }
        "cstats" => {
            let all = [
                Statistic::Conflicts,
                Statistic::Decisions,
                Statistic::Ticks,
                Statistic::Propagations,
                Statistic::Clauses,
                Statistic::Redundant,
                Statistic::Irredundant,
                Statistic::Fixed,
                Statistic::Eliminated,
                Statistic::Substituted,
            ];
            json!({"k": "nums", "v": all.iter().map(|x| s.get_statistic(*x).min(1 << 30)).collect::<Vec<_>>()})
        }
        _ => return None,
    })
}
macro_rules! simp_other {
    ($t:ty) => {
        |s: &mut $t, op: &Value| {
            Some(match op["o"].as_str().unwrap() {
                "elim" => json!({"k": "b", "v": s.var_eliminated(var(&op["v"]))}),
                "nums" => json!({"k": "nums", "v": [s.n_assigns(), s.n_learnts()]}),
                _ => return None,
            })
        }
    };
}

thread_local! {
    /// How many of the next queries are interrupted
    static PENDING: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// How many of the next queries fail
    static FAILING: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// The failure of a query
#[derive(Debug)]
struct Failure;
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failing on request")
    }
}
impl std::error::Error for Failure {}
/// A solver that can only be used once and gets interrupted
#[derive(Default)]
struct Flaky(rustsat_minisat::core::Minisat);
impl Extend<Clause> for Flaky {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        self.0.extend(iter);
    }
}
impl<'a> Extend<&'a Clause> for Flaky {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, iter: T) {
        self.0.extend(iter);
    }
}
impl Solve for Flaky {
    fn signature(&self) -> &'static str {
        "flaky"
    }
    fn solve(&mut self) -> R<SolverResult> {
        if FAILING.get() > 0 {
            FAILING.set(FAILING.get() - 1);
            return Err(Failure.into());
        }
        match PENDING.get() {
            0 => self.0.solve(),
            n => {
                PENDING.set(n - 1);
                Ok(SolverResult::Interrupted)
            }
        }
    }
    fn lit_val(&self, lit: rustsat::types::Lit) -> R<rustsat::types::TernaryVal> {
        self.0.lit_val(lit)
    }
    fn add_clause_ref<C>(&mut self, clause: &C) -> R<()>
    where
        C: AsRef<rustsat::types::Cl> + ?Sized,
    {
        self.0.add_clause_ref(clause)
    }
}
fn flaky_other(_: &mut simulators::Incremental<Flaky>, op: &Value) -> Option<Value> {
    if op["o"] != "flaky" {
        return None;
    }
    if op["fail"].as_bool().unwrap_or_default() {
        FAILING.set(op["n"].as_u64().unwrap());
    } else {
        PENDING.set(op["n"].as_u64().unwrap());
    }
    Some(ok(()))
}

fn main() {
    main_loop(|sc, tr| {
        tr.ev(json!({"e": "new", "b": sc["b"], "nv": sc["nv"]}));
        match sc["b"].as_str().unwrap() {
            "batsat" => {
                let mut e: Ext<rustsat_batsat::BasicSolver> = Ext::default();
                incremental!(e);
                e.term = Some(|s, cb| match cb {
                    Some(cb) => {
                        let cb = std::cell::RefCell::new(cb);
                        s.batsat_mut()
                            .cb_mut()
                            .set_stop(move || matches!((cb.borrow_mut())(), ControlSignal::Terminate));
                    }
                    None => *s.batsat_mut().cb_mut() = Default::default(),
                });
                run(rustsat_batsat::BasicSolver::default(), &e, sc, tr);
            }
            "minisat" => {
                let mut e: Ext<rustsat_minisat::core::Minisat> = Ext::default();
                minisat_like!(e);
                run(rustsat_minisat::core::Minisat::default(), &e, sc, tr);
            }
            "minisat-simp" => {
                let mut e: Ext<rustsat_minisat::simp::Minisat> = Ext {
                    other: simp_other!(rustsat_minisat::simp::Minisat),
                    ..Ext::default()
                };
                minisat_like!(e);
                freezing!(e);
                run(rustsat_minisat::simp::Minisat::default(), &e, sc, tr);
            }
            "glucose" => {
                let mut e: Ext<rustsat_glucose::core::Glucose> = Ext::default();
                minisat_like!(e);
                run(rustsat_glucose::core::Glucose::default(), &e, sc, tr);
            }
            "glucose-simp" => {
                let mut e: Ext<rustsat_glucose::simp::Glucose> = Ext {
                    other: simp_other!(rustsat_glucose::simp::Glucose),
                    ..Ext::default()
                };
                minisat_like!(e);
                freezing!(e);
                run(rustsat_glucose::simp::Glucose::default(), &e, sc, tr);
            }
            "cadical" => {
                let mut e: Ext<Cad> = Ext {
                    other: cadical_other,
                    ..Ext::default()
                };
                incremental!(e);
                phased!(e);
                freezing!(e);
                interrupting!(e);
                e.flip = Some(|s, l| s.flip_lit(l));
                e.flippable = Some(|s, l| s.is_flippable(l));
                e.limc = Some(|s, l| s.limit_conflicts(l));
                e.limd = Some(|s, l| s.limit_decisions(l));
                e.prop = Some(|s, a, p| s.propagate(a, p));
                e.counts = Some(|s| [s.conflicts(), s.decisions(), s.propagations()]);
                e.term = Some(|s, cb| match cb {
                    Some(cb) => s.attach_terminator(cb),
                    None => s.detach_terminator(),
                });
                e.learn = Some(|s, cb| match cb {
                    Some((cb, n)) => s.attach_learner(cb, n),
                    None => s.detach_learner(),
                });
                run(Cad::default(), &e, sc, tr);
            }
            "ipasir" => {
                let mut e: Ext<rustsat_ipasir::IpasirSolver<'static, 'static>> = Ext::default();
                incremental!(e);
                e.term = Some(|s, cb| match cb {
                    Some(cb) => s.attach_terminator(cb),
                    None => s.detach_terminator(),
                });
                e.learn = Some(|s, cb| match cb {
                    Some((cb, n)) => s.attach_learner(cb, n),
                    None => s.detach_learner(),
                });
                run(rustsat_ipasir::IpasirSolver::default(), &e, sc, tr);
            }
            "sim-minisat" => {
                let mut e: Ext<simulators::Incremental<rustsat_minisat::core::Minisat>> = Ext::default();
                incremental!(e);
                run(simulators::Incremental::default(), &e, sc, tr);
            }
            "sim-flaky" => {
                PENDING.set(0);
                FAILING.set(0);
                let mut e: Ext<simulators::Incremental<Flaky>> = Ext {
                    other: flaky_other,
                    ..Ext::default()
                };
                incremental!(e);
                run(simulators::Incremental::default(), &e, sc, tr);
            }
            b => panic!("harness: backend {b}"),
        }
    });
}
