//! One-shot encodings of constraints and the implication encodings
use inst::*;
use rustsat::encodings::atomics;
use rustsat::encodings::card::{self, Totalizer};
use rustsat::encodings::pb::{self, BinaryAdder, DynamicPolyWatchdog, GeneralizedTotalizer};
use rustsat::encodings::ConstraintEncodingError;
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit};
use serde_json::{json, Value};
use vtcore::*;

type InvTot = card::simulators::Inverted<Totalizer>;
type DblTot = card::simulators::Double<Totalizer, InvTot>;
type DblTot2 = card::simulators::Double<InvTot, Totalizer>;
type InvGte = pb::simulators::Inverted<GeneralizedTotalizer>;
type DblGte = pb::simulators::Double<GeneralizedTotalizer, InvGte>;
type InvDpw = pb::simulators::Inverted<DynamicPolyWatchdog>;
type DblDpw = pb::simulators::Double<DynamicPolyWatchdog, InvDpw>;
type DblMix = pb::simulators::Double<DynamicPolyWatchdog, InvGte>;
type InvAdder = pb::simulators::Inverted<BinaryAdder>;
type DblAdder = pb::simulators::Double<BinaryAdder, InvAdder>;
type CardTot = pb::simulators::Card<Totalizer>;
type CardDbl = pb::simulators::Card<DblTot>;

enum Res {
    Ok,
    Unsat,
    Na,
}
fn ce(r: Result<(), ConstraintEncodingError>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(ConstraintEncodingError::Unsat) => Res::Unsat,
        Err(_) => panic!("out of memory"),
    }
}
fn card_free<E: card::BoundBoth + FromIterator<Lit>>(c: CardConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    card::encode_cardinality_constraint::<E, _>(c, col, vm).unwrap();
    Res::Ok
}
fn card_raw<E: card::BoundBoth + FromIterator<Lit>>(c: CardConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    ce(E::encode_constr(c, col, vm))
}
fn pb_free<E: pb::BoundBoth + FromIterator<(Lit, usize)>>(c: PbConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    pb::encode_pb_constraint::<E, _>(c, col, vm).unwrap();
    Res::Ok
}
fn pb_raw<E: pb::BoundBoth + FromIterator<(Lit, usize)>>(c: PbConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    ce(E::encode_constr(c, col, vm))
}
fn pb_ub<E: pb::BoundUpper + FromIterator<(Lit, usize)>>(c: PbConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    match c {
        PbConstraint::Ub(c) => ce(E::encode_ub_constr(c, col, vm)),
        _ => Res::Na,
    }
}
fn pb_lb<E: pb::BoundLower + FromIterator<(Lit, usize)>>(c: PbConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    match c {
        PbConstraint::Lb(c) => ce(E::encode_lb_constr(c, col, vm)),
        _ => Res::Na,
    }
}
fn enc_card(enc: &str, raw: bool, c: CardConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    macro_rules! t {
        ($t:ty) => {
            if raw {
                card_raw::<$t>(c, col, vm)
            } else {
                card_free::<$t>(c, col, vm)
            }
        };
    }
    match enc {
        "def" => {
            card::default_encode_cardinality_constraint(c, col, vm).unwrap();
            Res::Ok
        }
        "tot" => t!(Totalizer),
        "inv" => t!(InvTot),
        "dbl" => t!(DblTot),
        _ => t!(DblTot2),
    }
}
fn enc_pb(enc: &str, raw: bool, c: PbConstraint, col: &mut Col, vm: &mut Vm) -> Res {
    macro_rules! t {
        ($t:ty) => {
            if raw {
                pb_raw::<$t>(c, col, vm)
            } else {
                pb_free::<$t>(c, col, vm)
            }
        };
    }
    match enc {
        "def" => {
            pb::default_encode_pb_constraint(c, col, vm).unwrap();
            Res::Ok
        }
        "adder" => t!(BinaryAdder),
        "invadder" => t!(InvAdder),
        "dbladder" => t!(DblAdder),
        "dblgte" => t!(DblGte),
        "dbldpw" => t!(DblDpw),
        "dblmix" => t!(DblMix),
        "cardtot" => t!(CardTot),
        "carddbl" => t!(CardDbl),
        "gte" => pb_ub::<GeneralizedTotalizer>(c, col, vm),
        "invgte" => pb_lb::<InvGte>(c, col, vm),
        "dpw" => pb_ub::<DynamicPolyWatchdog>(c, col, vm),
        "invdpw" => pb_lb::<InvDpw>(c, col, vm),
        x => panic!("encoder {x}"),
    }
}
fn implication(f: &str, a: &[Lit], b: &[Lit]) -> Vec<Clause> {
    match f {
        "ll" => vec![atomics::lit_impl_lit(a[0], b[0])],
        "lc" => vec![atomics::lit_impl_clause(a[0], b)],
        "ql" => vec![atomics::cube_impl_lit(a, b[0])],
        "qc" => vec![atomics::cube_impl_clause(a, b)],
        "lq" => atomics::lit_impl_cube(a[0], b).collect(),
        "cl" => atomics::clause_impl_lit(a, b[0]).collect(),
        "cc" => atomics::clause_impl_clause(a, b).collect(),
        "cq" => atomics::clause_impl_cube(a, b).collect(),
        _ => atomics::cube_impl_cube(a, b).collect(),
    }
}

fn run(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms = masks(nv);
    let gap = sc["gap"].as_u64().unwrap_or(0) as u32;
    let mut vm = Vm::new(nv as u32 + gap, 0);
    let mut col = Col::default();
    tr.ev(json!({"e":"new","nv":nv,"masks":ms}));
    for o in sc["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "constr" => {
                let c = &o["c"];
                let raw = o["raw"] == true;
                let enc = o["enc"].as_str().unwrap();
                let before = col.cls.len();
                let (op, isc) = (c["op"].as_str().unwrap(), c["k"] == "card");
                let r = guard(|| {
                    if isc {
                        enc_card(enc, raw, mk_card(op, &c["l"], us(&c["b"])), &mut col, &mut vm)
                    } else {
                        enc_pb(enc, raw, mk_pb(op, &c["l"], &c["w"], is(&c["b"])), &mut col, &mut vm)
                    }
                });
                let newv: Vec<i64> = vm.take_new().iter().map(|v| i64::from(*v) + 1).collect();
                let own = &col.cls[before..];
                let rs = match &r {
                    Ok(Res::Ok) => "ok",
                    Ok(Res::Unsat) => "unsat",
                    Ok(Res::Na) => continue,
                    Err(_) => "panic",
                };
                tr.ev(json!({"e":"constr","enc":enc,"raw":raw,"c":c,"r":rs,"msg":r.as_ref().err().cloned().unwrap_or_default(),
                    "new":newv,"aux":aux_vars(own, nv as u32),"own":sat_per_mask(own, &ms, &[]),"sat":sat_per_mask(&col.cls, &ms, &[])}));
                if r.is_err() {
                    return;
                }
            }
            "impl" => {
                let f = o["f"].as_str().unwrap();
                let (a, b) = (lits(&o["a"]), lits(&o["b"]));
                match guard(|| implication(f, &a, &b)) {
                    Ok(v) => tr.ev(json!({"e":"impl","f":f,"a":o["a"],"b":o["b"],"r":"ok","got":v.iter().map(dump_cl).collect::<Vec<_>>()})),
                    Err(m) => tr.ev(json!({"e":"impl","f":f,"a":o["a"],"b":o["b"],"r":"panic","msg":m})),
                }
            }
            "reify" => {
                let c = &o["c"];
                let (op, isc, fwd) = (c["op"].as_str().unwrap(), c["k"] == "card", o["fwd"] == true);
                let lit = mklit(o["lit"].as_i64().unwrap());
                let r = guard(|| {
                    if isc {
                        let k = mk_card(op, &c["l"], us(&c["b"]));
                        if fwd {
                            atomics::lit_impl_card(lit, &k)
                        } else {
                            atomics::card_impl_lit(&k, lit)
                        }
                    } else {
                        let k = mk_pb(op, &c["l"], &c["w"], is(&c["b"]));
                        if fwd {
                            atomics::lit_impl_pb(lit, &k)
                        } else {
                            atomics::pb_impl_lit(&k, lit)
                        }
                    }
                });
                match r {
                    Ok(p) => tr.ev(json!({"e":"reify","c":c,"lit":o["lit"],"fwd":fwd,"r":"ok","got":dump_pb(&p)})),
                    Err(m) => tr.ev(json!({"e":"reify","c":c,"lit":o["lit"],"fwd":fwd,"r":"panic","msg":m})),
                }
            }
            x => panic!("op {x}"),
        }
    }
}
fn main() {
    main_loop(run)
}
