//! Reading satisfiability instances back: models projected to the original variables
use rustsat::instances::{BasicVarManager, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, Var};
use serde_json::Value;
use vtcore::*;

/// Not available for this scenario
pub fn na<T>() -> T {
    panic!("harness: operation not available")
}
/// Translates an abstract literal
pub fn tl(ren: &[u32], l: Lit) -> Lit {
    Var::new(ren[l.vidx()]).lit(l.is_neg())
}
pub fn tls(ren: &[u32], v: &Value) -> Vec<Lit> {
    lits(v).into_iter().map(|l| tl(ren, l)).collect()
}
pub enum Con {
    Cl(Clause),
    Card(CardConstraint),
    Pb(PbConstraint),
}
pub fn mk(ren: &[u32], c: &Value) -> Con {
    let op = c["op"].as_str().unwrap();
    let l = tls(ren, &c["l"]);
    match c["k"].as_str().unwrap() {
        "cl" => Con::Cl(Clause::from(l.as_slice())),
        "card" => {
            let b = us(&c["b"]);
            Con::Card(match op {
                "ub" => CardConstraint::new_ub(l, b),
                "lb" => CardConstraint::new_lb(l, b),
                _ => CardConstraint::new_eq(l, b),
            })
        }
        _ => {
            let w: Vec<isize> = c["w"].as_array().unwrap().iter().map(is).collect();
            let b = is(&c["b"]);
            let l: Vec<(Lit, isize)> = l.into_iter().zip(w).collect();
            Con::Pb(match op {
                "ub" => PbConstraint::new_ub(l, b),
                "lb" => PbConstraint::new_lb(l, b),
                _ => PbConstraint::new_eq(l, b),
            })
        }
    }
}
pub fn raw_pb(c: &PbConstraint, m: &[u8]) -> bool {
    let s: i128 = c.iter().map(|(l, w)| if (m[l.vidx()] == 1) != l.is_neg() { *w as i128 } else { 0 }).sum();
    let b = c.bound() as i128;
    match c {
        PbConstraint::Ub(_) => s <= b,
        PbConstraint::Lb(_) => s >= b,
        PbConstraint::Eq(_) => s == b,
    }
}
pub fn raw_card(c: &CardConstraint, m: &[u8]) -> bool {
    let s = c.iter().filter(|l| (m[l.vidx()] == 1) != l.is_neg()).count();
    let b = c.bound();
    match c {
        CardConstraint::Ub(_) => s <= b,
        CardConstraint::Lb(_) => s >= b,
        CardConstraint::Eq(_) => s == b,
    }
}
/// Satisfiability of clauses and other constraints (the latter over images of original
/// variables) for every assignment of the original variables
pub fn sat_of(ms: &[Vec<u8>], ren: &[u32], cls: &[Vec<i64>], cards: &[CardConstraint], pbs: &[PbConstraint]) -> Vec<u8> {
    let mut d = dpll::Dpll::new(cls);
    let top = cards
        .iter()
        .flat_map(|c| c.iter().copied())
        .chain(pbs.iter().flat_map(|c| c.iter().map(|x| x.0)))
        .map(|l| l.vidx() + 1)
        .chain(ren.iter().map(|v| *v as usize + 1))
        .max()
        .unwrap_or(0);
    // variables of such constraints that are no images of original variables are enumerated
    let mut extra: Vec<usize> =
        cards.iter().flat_map(|c| c.iter().copied()).chain(pbs.iter().flat_map(|c| c.iter().map(|x| x.0))).map(Lit::vidx).filter(|v| !ren.contains(&(*v as u32))).collect();
    extra.sort_unstable();
    extra.dedup();
    assert!(extra.len() < 8, "harness: too many unmapped variables");
    ms.iter()
        .map(|m| {
            u8::from((0..1usize << extra.len()).any(|x| {
                let mut full: Vec<u8> = vec![9; top];
                for (i, r) in ren.iter().enumerate() {
                    full[*r as usize] = m[i];
                }
                for (i, v) in extra.iter().enumerate() {
                    full[*v] = (x >> i & 1) as u8;
                }
                let a: Vec<i64> = (0..top).filter(|v| full[*v] != 9).map(|v| if full[v] == 1 { v as i64 + 1 } else { -(v as i64 + 1) }).collect();
                cards.iter().all(|c| raw_card(c, &full)) && pbs.iter().all(|c| raw_pb(c, &full)) && d.solve(&a).is_some()
            }))
        })
        .collect()
}
pub fn v1(v: Var) -> i64 {
    i64::from(v.idx32()) + 1
}
pub type Parts = (Vec<Vec<i64>>, Vec<CardConstraint>, Vec<PbConstraint>);
/// All constraints, read through the public conversion interface
pub fn parts(b: SatInstance<BasicVarManager>) -> Parts {
    let (mut cards, mut pbs) = (vec![], vec![]);
    let (cnf, _) = b.into_cnf_with_encoders(|c, _, _| cards.push(c), |p, _, _| pbs.push(p));
    (cnf.iter().map(icl).collect(), cards, pbs)
}
pub fn vars_of(p: &Parts) -> Vec<i64> {
    let mut v: Vec<i64> = p.0.iter().flatten().map(|l| l.abs()).collect();
    v.extend(p.1.iter().flat_map(|c| c.iter().map(|l| v1(l.var()))));
    v.extend(p.2.iter().flat_map(|c| c.iter().map(|l| v1(l.0.var()))));
    v.sort_unstable();
    v.dedup();
    v
}
