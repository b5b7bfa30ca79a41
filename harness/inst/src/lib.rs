//! Shared by the executors on constraints and instances: plain dumps of constraint objects
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal};
use serde_json::{json, Value};
use vtcore::*;

pub mod sat;

pub fn cap(x: i128) -> i64 {
    x.clamp(-1_000_000_000, 1_000_000_000) as i64
}
pub fn dump_cl(c: &Clause) -> Value {
    json!({"k":"cl","op":"lb","l":icl(c),"w":vec![1;c.len()],"b":1})
}
pub fn dump_card(c: &CardConstraint) -> Value {
    let op = match c {
        CardConstraint::Ub(_) => "ub",
        CardConstraint::Lb(_) => "lb",
        CardConstraint::Eq(_) => "eq",
    };
    json!({"k":"card","op":op,"l":c.iter().map(|l| ilit(*l)).collect::<Vec<_>>(),"w":vec![1;c.len()],"b":cap(c.bound() as i128)})
}
pub fn dump_pb(c: &PbConstraint) -> Value {
    let op = match c {
        PbConstraint::Ub(_) => "ub",
        PbConstraint::Lb(_) => "lb",
        PbConstraint::Eq(_) => "eq",
    };
    json!({"k":"pb","op":op,"l":c.iter().map(|l| ilit(l.0)).collect::<Vec<_>>(),
           "w":c.iter().map(|l| cap(l.1 as i128)).collect::<Vec<_>>(),"b":cap(c.bound() as i128)})
}
/// Literals with signed weights
pub fn wlits(l: &Value, w: &Value) -> Vec<(Lit, isize)> {
    lits(l).into_iter().zip(w.as_array().unwrap().iter().map(is)).collect()
}
pub fn mk_card(op: &str, l: &Value, b: usize) -> CardConstraint {
    let l = lits(l);
    match op {
        "ub" => CardConstraint::new_ub(l, b),
        "lb" => CardConstraint::new_lb(l, b),
        _ => CardConstraint::new_eq(l, b),
    }
}
pub fn mk_pb(op: &str, l: &Value, w: &Value, b: isize) -> PbConstraint {
    let l = wlits(l, w);
    match op {
        "ub" => PbConstraint::new_ub(l, b),
        "lb" => PbConstraint::new_lb(l, b),
        _ => PbConstraint::new_eq(l, b),
    }
}
pub fn mk_pb_u(op: &str, l: &Value, w: &Value, b: isize) -> PbConstraint {
    let l: Vec<(Lit, usize)> = wlits(l, w).into_iter().map(|(l, w)| (l, w as usize)).collect();
    match op {
        "ub" => PbConstraint::new_ub_unsigned(l, b),
        "lb" => PbConstraint::new_lb_unsigned(l, b),
        _ => PbConstraint::new_eq_unsigned(l, b),
    }
}
pub fn tv(v: TernaryVal) -> &'static str {
    match v {
        TernaryVal::True => "T",
        TernaryVal::False => "F",
        TernaryVal::DontCare => "D",
    }
}
/// All partial assignments of `nv` variables: 0 false, 1 true, 2 unassigned
pub fn partials(nv: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..nv {
        out = out.into_iter().flat_map(|p: Vec<u8>| (0..3).map(move |x| [p.clone(), vec![x]].concat())).collect();
    }
    out
}
pub fn assignment(p: &[u8]) -> Assignment {
    p.iter()
        .map(|x| match x {
            0 => TernaryVal::False,
            1 => TernaryVal::True,
            _ => TernaryVal::DontCare,
        })
        .collect()
}
