//! Replays histories that build an optimization instance and solve it by MaxSAT search
use inst::sat::{mk, Con};
use rustsat::algs::maxsat::{SolutionImprovingSearch as Sis, Solve as Alg};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer};
use rustsat::instances::{BasicVarManager, ManageVars, OptInstance, ReindexVars, ReindexingVarManager};
use rustsat::solvers::{Solve, SolveIncremental, SolveStats};
use rustsat::types::{Assignment, Clause, Lit, Var};
use serde_json::{json, Value};
use vtcore::*;

type Res = Result<Option<(Assignment, i64)>, String>;
type Inst = OptInstance<BasicVarManager>;

fn show(r: Res, ren: &[u32]) -> Value {
    match r {
        Err(p) => json!({"k":"panic","p":[],"cost":0,"m":p}),
        Ok(None) => json!({"k":"none","p":[],"cost":0}),
        Ok(Some((a, c))) => json!({"k":"sol","cost":c.clamp(-1_000_000_000, 1_000_000_000),"p":ren.iter().map(|v| {
            use rustsat::types::TernaryVal::*;
            match a.var_value(Var::new(*v)) {
                True => 1,
                False => 0,
                DontCare => -1,
            }
        }).collect::<Vec<i8>>()}),
    }
}

fn whole<A: Alg, VM: ManageVars + Default>(i: OptInstance<VM>) -> Res
where
    A::Solver: Default,
{
    guard(|| i.solve_maxsat::<A>().map(|(a, c)| (a, c as i64)))
}

/// The search on a solver that was loaded by hand
fn direct<A: Alg>(mut s: A::Solver, cls: Vec<Clause>, obj: &[(Lit, usize)], off: i64, pre: bool) -> Res {
    guard(|| {
        for c in cls {
            s.add_clause(c).unwrap();
        }
        if pre {
            s.solve().unwrap();
        }
        A::solve(&mut s, obj).map(|(a, c)| (a, c as i64 + off))
    })
}

fn run<S>(i: &Inst, o: &Value, ren: &[u32]) -> Value
where
    S: SolveIncremental + SolveStats + Default,
{
    if o["enc"] == "gte" {
        run_alg::<Sis<S, GeneralizedTotalizer>>(i, o, ren)
    } else {
        run_alg::<Sis<S, BinaryAdder>>(i, o, ren)
    }
}

fn run_alg<A: Alg>(i: &Inst, o: &Value, ren: &[u32]) -> Value
where
    A::Solver: Default,
{
    let pre = o["pre"] == true;
    match o["how"].as_str().unwrap() {
        "inst" => show(whole::<A, _>(i.clone()), ren),
        "reind" => {
            let mut r = i.clone().reindex(ReindexingVarManager::default());
            let ren: Vec<u32> = ren.iter().map(|v| r.constraints_mut().var_manager_mut().reindex(Var::new(*v)).idx32()).collect();
            show(whole::<A, _>(r), &ren)
        }
        "dir" => {
            let r = guard(|| i.clone().into_hard_cls_soft_lits());
            match r {
                Err(p) => show(Err(p), ren),
                Ok((hard, (soft, off), _vm)) => {
                    let obj: Vec<_> = soft.into_iter().collect();
                    show(direct::<A>(A::Solver::default(), hard.into_iter().collect(), &obj, off as i64, pre), ren)
                }
            }
        }
        "raw" => {
            let cls = o["cls"].as_array().unwrap().iter().map(|c| Clause::from(lits(c).as_slice())).collect();
            let obj: Vec<(Lit, usize)> = lits(&o["l"]).into_iter().zip(o["w"].as_array().unwrap().iter().map(us)).collect();
            show(direct::<A>(A::Solver::default(), cls, &obj, 0, pre), ren)
        }
        _ => panic!("harness: unknown way"),
    }
}

fn main() {
    main_loop(|sc, tr| {
        let nv = us(&sc["nv"]);
        let ms: Vec<Vec<u8>> = (0..1usize << nv).map(|x| (0..nv).map(|v| (x >> v & 1) as u8).collect()).collect();
        let ren: Vec<u32> = (0..nv as u32).collect();
        tr.ev(json!({"e":"new","masks":ms}));
        let mut i: Inst = OptInstance::new();
        for o in sc["ops"].as_array().unwrap() {
            let mut ev = o.clone();
            ev["e"] = o["op"].clone();
            let r = guard(|| match o["op"].as_str().unwrap() {
                "cs" => match mk(&ren, &o["c"]) {
                    Con::Cl(c) => i.constraints_mut().add_clause(c),
                    Con::Card(c) => i.constraints_mut().add_card_constr(c),
                    Con::Pb(c) => i.constraints_mut().add_pb_constr(c),
                },
                "soft" => i.objective_mut().increase_soft_clause(us(&o["w"]), Clause::from(lits(&o["c"]).as_slice())),
                "lit" => i.objective_mut().increase_soft_lit_int(is(&o["w"]), mklit(is(&o["l"]) as i64)),
                "off" => i.objective_mut().increase_offset(is(&o["w"])),
                "solve" => {
                    ev["r"] = match o["s"].as_str().unwrap() {
                        "minisat" => run::<rustsat_minisat::core::Minisat>(&i, o, &ren),
                        "minisat-simp" => run::<rustsat_minisat::simp::Minisat>(&i, o, &ren),
                        "glucose" => run::<rustsat_glucose::core::Glucose>(&i, o, &ren),
                        "cadical" => run::<rustsat_cadical::CaDiCaL>(&i, o, &ren),
                        "batsat" => run::<rustsat_batsat::BasicSolver>(&i, o, &ren),
                        "sim" => run::<rustsat::solvers::simulators::Incremental<rustsat_minisat::core::Minisat>>(&i, o, &ren),
                        _ => panic!("harness: unknown solver"),
                    }
                }
                _ => panic!("harness: unknown operation"),
            });
            if let Err(p) = r {
                if p.contains("harness") {
                    panic!("{p}");
                }
                ev["e"] = json!("panic");
                ev["m"] = json!(p);
            }
            tr.ev(ev);
        }
    });
}
