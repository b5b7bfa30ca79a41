//! Records proofs: text written by the certified encodings and by the proof writer itself, together
//! with what was claimed about it (clauses handed out, identifiers returned, what was asked for)
mod api;
mod parse;
use rustsat::encodings::card::{self, Totalizer};
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::pb::{self, GeneralizedTotalizer};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::encodings::{cert, CollectClauses};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ops::Bound;
use std::rc::Rc;
use vtcore::*;

/// The proof text written so far and the events derived from it
#[derive(Clone, Default)]
pub struct Rec {
    text: Rc<RefCell<Vec<u8>>>,
    evs: Rc<RefCell<Vec<Value>>>,
}
impl Rec {
    pub fn flush(&self) {
        let t = std::mem::take(&mut *self.text.borrow_mut());
        let t = String::from_utf8(t).unwrap_or_else(|_| "not utf8\n".into());
        self.evs.borrow_mut().extend(parse::rules(&t).into_iter().map(|mut r| {
            r["e"] = json!("l");
            r
        }));
    }
    pub fn ev(&self, e: Value) {
        self.flush();
        self.evs.borrow_mut().push(e);
    }
}
pub struct Wr(Rec);
impl std::io::Write for Wr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.text.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn aid(id: pigeons::AbsConstraintId) -> i64 {
    id.to_string().parse().unwrap()
}

/// Collector of certified clauses
struct Cc {
    rec: Rec,
    cls: Vec<Vec<i64>>,
    left: usize,
}
impl Cc {
    fn put(&mut self, c: Clause, id: i64) -> Result<(), rustsat::OutOfMemory> {
        if self.left == 0 {
            return Err(rustsat::OutOfMemory::TryReserve(
                Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err(),
            ));
        }
        self.left -= 1;
        self.rec.ev(json!({"e": "claim", "cl": icl(&c), "id": id}));
        self.cls.push(icl(&c));
        Ok(())
    }
}
impl CollectClauses for Cc {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        it.into_iter().try_for_each(|c| self.put(c, 0))
    }
}
impl cert::CollectClauses for Cc {
    fn extend_cert_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = (Clause, pigeons::AbsConstraintId)>,
    {
        it.into_iter().try_for_each(|(c, i)| self.put(c, aid(i)))
    }
}

type Pf = pigeons::Proof<Wr>;
type Rg = (Bound<usize>, Bound<usize>);
type InvGte = pb::simulators::Inverted<GeneralizedTotalizer>;
type CardTot = pb::simulators::Card<Totalizer>;
type CInv = card::simulators::Inverted<Totalizer>;
type DblGte = pb::simulators::Double<GeneralizedTotalizer, InvGte>;
enum En {
    Tot(Totalizer),
    Gte(GeneralizedTotalizer),
    Inv(InvGte),
    Dbl(DblGte),
    CTot(CardTot),
    CInv(CInv),
}
fn wl(v: &Value) -> Vec<(Lit, usize)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| (mklit(x[0].as_i64().unwrap()), us(&x[1])))
        .collect()
}
impl En {
    fn new(ty: &str, l: &[(Lit, usize)]) -> En {
        match ty {
            "tot" => En::Tot(l.iter().map(|x| x.0).collect()),
            "gte" => En::Gte(l.iter().copied().collect()),
            "inv" => En::Inv(l.iter().copied().collect()),
            "card" => En::CTot(l.iter().copied().collect()),
            "cinv" => En::CInv(l.iter().map(|x| x.0).collect()),
            _ => En::Dbl(l.iter().copied().collect()),
        }
    }
    fn extend(&mut self, l: &[(Lit, usize)]) {
        match self {
            En::Tot(t) => t.extend(l.iter().map(|x| x.0)),
            En::Gte(t) => t.extend(l.iter().copied()),
            En::Inv(t) => t.extend(l.iter().copied()),
            En::Dbl(t) => t.extend(l.iter().copied()),
            En::CTot(t) => t.extend(l.iter().copied()),
            En::CInv(t) => t.extend(l.iter().map(|x| x.0)),
        }
    }
    fn encode(
        &mut self,
        k: &str,
        chg: bool,
        r: Rg,
        c: &mut Cc,
        vm: &mut Vm,
        p: &mut Pf,
    ) -> Result<(), cert::EncodingError> {
        use card::cert as cc;
        use pb::cert as pc;
        match self {
            En::Tot(t) => match (k, chg) {
                ("ub", false) => cc::BoundUpper::encode_ub_cert(t, r, c, vm, p),
                ("ub", _) => cc::BoundUpperIncremental::encode_ub_change_cert(t, r, c, vm, p),
                ("lb", false) => cc::BoundLower::encode_lb_cert(t, r, c, vm, p),
                ("lb", _) => cc::BoundLowerIncremental::encode_lb_change_cert(t, r, c, vm, p),
                (_, false) => cc::BoundBoth::encode_both_cert(t, r, c, vm, p),
                _ => cc::BoundBothIncremental::encode_both_change_cert(t, r, c, vm, p),
            },
            En::Gte(t) => match chg {
                false => pc::BoundUpper::encode_ub_cert(t, r, c, vm, p),
                true => pc::BoundUpperIncremental::encode_ub_change_cert(t, r, c, vm, p),
            },
            En::Inv(t) => match chg {
                false => pc::BoundLower::encode_lb_cert(t, r, c, vm, p),
                true => pc::BoundLowerIncremental::encode_lb_change_cert(t, r, c, vm, p),
            },
            En::CInv(t) => match (k, chg) {
                ("ub", false) => cc::BoundUpper::encode_ub_cert(t, r, c, vm, p),
                ("ub", _) => cc::BoundUpperIncremental::encode_ub_change_cert(t, r, c, vm, p),
                ("lb", false) => cc::BoundLower::encode_lb_cert(t, r, c, vm, p),
                ("lb", _) => cc::BoundLowerIncremental::encode_lb_change_cert(t, r, c, vm, p),
                (_, false) => cc::BoundBoth::encode_both_cert(t, r, c, vm, p),
                _ => cc::BoundBothIncremental::encode_both_change_cert(t, r, c, vm, p),
            },
            En::CTot(t) => match (k, chg) {
                ("ub", false) => pc::BoundUpper::encode_ub_cert(t, r, c, vm, p),
                ("ub", _) => pc::BoundUpperIncremental::encode_ub_change_cert(t, r, c, vm, p),
                ("lb", false) => pc::BoundLower::encode_lb_cert(t, r, c, vm, p),
                ("lb", _) => pc::BoundLowerIncremental::encode_lb_change_cert(t, r, c, vm, p),
                (_, false) => pc::BoundBoth::encode_both_cert(t, r, c, vm, p),
                _ => pc::BoundBothIncremental::encode_both_change_cert(t, r, c, vm, p),
            },
            En::Dbl(t) => match (k, chg) {
                ("ub", false) => pc::BoundUpper::encode_ub_cert(t, r, c, vm, p),
                ("ub", _) => pc::BoundUpperIncremental::encode_ub_change_cert(t, r, c, vm, p),
                ("lb", false) => pc::BoundLower::encode_lb_cert(t, r, c, vm, p),
                ("lb", _) => pc::BoundLowerIncremental::encode_lb_change_cert(t, r, c, vm, p),
                (_, false) => pc::BoundBoth::encode_both_cert(t, r, c, vm, p),
                _ => pc::BoundBothIncremental::encode_both_change_cert(t, r, c, vm, p),
            },
        }
    }
}
fn bound(v: &Value) -> Bound<usize> {
    match v[0].as_str().unwrap() {
        "i" => Bound::Included(us(&v[1])),
        "e" => Bound::Excluded(us(&v[1])),
        _ => Bound::Unbounded,
    }
}
pub fn card_of(c: &Value) -> CardConstraint {
    let (l, b) = (lits(&c["l"]), us(&c["b"]));
    match c["op"].as_str().unwrap() {
        "ub" => CardConstraint::new_ub(l, b),
        "lb" => CardConstraint::new_lb(l, b),
        _ => CardConstraint::new_eq(l, b),
    }
}
pub fn pb_of(c: &Value) -> PbConstraint {
    let l = c["l"].as_array().unwrap().iter().zip(c["w"].as_array().unwrap());
    let l: Vec<(Lit, isize)> = l.map(|(l, w)| (mklit(l.as_i64().unwrap()), is(w))).collect();
    let b = is(&c["b"]);
    match c["op"].as_str().unwrap() {
        "ub" => PbConstraint::new_ub(l, b),
        "lb" => PbConstraint::new_lb(l, b),
        _ => PbConstraint::new_eq(l, b),
    }
}

struct St {
    en: Vec<En>,
    db: Db,
    h: Vec<NodeId>,
    cc: Cc,
    vm: Vm,
    p: Option<Pf>,
}
fn con(s: &St, c: &Value) -> NodeCon {
    let (id, off, mul, lim) = (s.h[us(&c["n"])], us(&c["off"]), us(&c["mul"]), us(&c["lim"]));
    if lim == 1 {
        NodeCon::single(id, off + 1, mul)
    } else if lim > 0 {
        NodeCon::limited(id, off, lim, mul)
    } else if off > 0 {
        NodeCon::offset_weighted(id, off, mul)
    } else if mul > 1 {
        NodeCon::weighted(id, mul)
    } else {
        NodeCon::full(id)
    }
}
fn step(s: &mut St, o: &Value) -> String {
    let fin = |r: Result<(), cert::EncodingError>| match r {
        Ok(()) => "ok".to_string(),
        Err(cert::EncodingError::OutOfMemory(_)) => "oom".into(),
        Err(e) => format!("err {e}"),
    };
    let p = s.p.as_mut().unwrap();
    match o["op"].as_str().unwrap() {
        "make" => {
            s.en.push(En::new(o["ty"].as_str().unwrap(), &wl(&o["l"])));
            "ok".into()
        }
        "extend" => {
            s.en[us(&o["i"])].extend(&wl(&o["l"]));
            "ok".into()
        }
        "encode" => {
            let e = &mut s.en[us(&o["i"])];
            fin(e.encode(
                o["k"].as_str().unwrap(),
                o["chg"] == json!(1),
                (bound(&o["a"]), bound(&o["b"])),
                &mut s.cc,
                &mut s.vm,
                p,
            ))
        }
        "constr" => {
            let id = pigeons::AbsConstraintId::new(us(&o["id"]));
            let c = &o["c"];
            let dir = |r: Result<(), cert::ConstraintEncodingError>| match r {
                Ok(()) => "ok".to_string(),
                Err(cert::ConstraintEncodingError::OutOfMemory(_)) => "oom".into(),
                Err(cert::ConstraintEncodingError::Unsat) => "unsat".into(),
                Err(e) => format!("err {e}"),
            };
            use card::cert::BoundBoth as CB;
            use pb::cert::BoundBoth as PB;
            use pb::cert::{BoundLower, BoundUpper};
            match o["enc"].as_str().unwrap() {
                "def" | "spec" => (),
                "tot" => {
                    return dir(<Totalizer as CB>::encode_constr_cert(
                        (card_of(c), id),
                        &mut s.cc,
                        &mut s.vm,
                        p,
                    ))
                }
                "cinv" => {
                    return dir(<CInv as CB>::encode_constr_cert(
                        (card_of(c), id),
                        &mut s.cc,
                        &mut s.vm,
                        p,
                    ))
                }
                "dbl" => {
                    return dir(<DblGte as PB>::encode_constr_cert(
                        (pb_of(c), id),
                        &mut s.cc,
                        &mut s.vm,
                        p,
                    ))
                }
                "card" => {
                    return dir(<CardTot as PB>::encode_constr_cert(
                        (pb_of(c), id),
                        &mut s.cc,
                        &mut s.vm,
                        p,
                    ))
                }
                "gte" => match pb_of(c) {
                    PbConstraint::Ub(c) => {
                        return dir(GeneralizedTotalizer::encode_ub_constr_cert(
                            (c, id),
                            &mut s.cc,
                            &mut s.vm,
                            p,
                        ))
                    }
                    _ => panic!("harness gte"),
                },
                _ => match pb_of(c) {
                    PbConstraint::Lb(c) => return dir(InvGte::encode_lb_constr_cert((c, id), &mut s.cc, &mut s.vm, p)),
                    _ => panic!("harness inv"),
                },
            }
            fin(match (c["k"].as_str().unwrap(), o["enc"].as_str().unwrap()) {
                ("card", "def") => {
                    card::cert::default_encode_cardinality_constraint((card_of(c), id), &mut s.cc, &mut s.vm, p)
                }
                ("card", _) => card::cert::encode_cardinality_constraint::<Totalizer, _, _>(
                    (card_of(c), id),
                    &mut s.cc,
                    &mut s.vm,
                    p,
                ),
                (_, "def") => pb::cert::default_encode_pb_constraint((pb_of(c), id), &mut s.cc, &mut s.vm, p),
                _ => pb::cert::encode_pb_constraint::<DblGte, _, _>((pb_of(c), id), &mut s.cc, &mut s.vm, p),
            })
        }
        "leaf" => {
            let id = s.db.insert(Node::leaf(mklit(o["lit"].as_i64().unwrap())));
            s.h.push(id);
            "ok".into()
        }
        "tree" => {
            s.h.extend(s.db.lit_tree(lits(&o["lits"])));
            "ok".into()
        }
        "wtree" => {
            let id = s.db.weighted_lit_tree(&wl(&o["lits"])).unwrap().id;
            s.h.push(id);
            "ok".into()
        }
        "internal" => {
            let n = Node::internal(con(s, &o["l"]), con(s, &o["r"]), &s.db);
            let id = s.db.insert(n);
            s.h.push(id);
            "ok".into()
        }
        "merge" => {
            let mut c: Vec<NodeCon> = o["cons"].as_array().unwrap().iter().map(|c| con(s, c)).collect();
            let r = match o["kind"].as_str().unwrap() {
                "merge" => s.db.merge(&mut c),
                "balanced" => s.db.merge_balanced(&c),
                _ => s.db.merge_thorough(&mut c),
            };
            s.h.extend(r.map(|c| c.id));
            "ok".into()
        }
        "def" => {
            let (id, val) = (s.h[us(&o["h"])], us(&o["val"]));
            let n = s.db[id].n_leaves();
            let sem = match o["sem"].as_str().unwrap() {
                "if" => Semantics::If,
                "only" => Semantics::OnlyIf,
                _ => Semantics::IfAndOnlyIf,
            };
            let r = if o["w"] == json!(1) {
                let mut lv = vec![(mklit(1), 0); n];
                s.db.define_weighted_cert(id, val, &mut s.cc, &mut s.vm, p, (&mut lv, false, false))
                    .map(|_| ())
            } else {
                let mut lv = vec![mklit(1); n];
                s.db.define_unweighted_cert(id, val - 1, sem, &mut s.cc, &mut s.vm, p, (&mut lv, false, false))
                    .map(|_| ())
            };
            fin(r)
        }
        "reset" => {
            s.db.reset_encoded(Semantics::IfAndOnlyIf);
            "ok".into()
        }
        "delsem" => match s.db.delete_semantics(p) {
            Ok(()) => "ok".into(),
            Err(e) => format!("err {e}"),
        },
        "write" => {
            // other things the user logs in between
            match o["k"].as_str().unwrap() {
                "comment" => p.comment(&"a comment; red 1 x1 >= 1 ;").unwrap(),
                "lvl" => p.set_level(us(&o["n"])).unwrap(),
                "taut" => {
                    p.operations::<rustsat::types::Var>(&pigeons::OperationSequence::from(pigeons::Axiom::from(
                        mklit(1),
                    )))
                    .unwrap();
                }
                _ => {
                    // derive something and delete it again
                    p.operations::<rustsat::types::Var>(&pigeons::OperationSequence::from(pigeons::Axiom::from(
                        mklit(1),
                    )))
                    .unwrap();
                    p.delete_ids::<rustsat::types::Var, Clause, _, _>([pigeons::ConstraintId::last(1)], None)
                        .unwrap();
                }
            }
            "ok".into()
        }
        x => panic!("harness op {x}"),
    }
}

fn run(sc: &Value, tr: &mut Tracer) {
    let rec = Rec::default();
    let nin = us(&sc["n"]);
    let start: Vec<&Value> = sc["start"].as_object().iter().map(|_| &sc["start"]).collect();
    rec.ev(json!({"e": "new", "start": start, "n": nin, "inputs": sc["inputs"], "judge": sc["judge"], "opt": sc["opt"], "obj": sc["obj"]}));
    if sc["judge"] == json!(0) {
        api::run(sc, &rec);
    } else {
        let mut s = St {
            en: vec![],
            db: Db::default(),
            h: vec![],
            cc: Cc {
                rec: rec.clone(),
                cls: vec![],
                left: usize::MAX,
            },
            vm: Vm::new(us(&sc["nv"]) as u32, 0),
            p: None,
        };
        s.p = Some(pigeons::Proof::new(Wr(rec.clone()), nin, false).unwrap());
        rec.flush();
        let mut dead = false;
        for o in sc["ops"].as_array().unwrap() {
            s.cc.left = o["cap"].as_u64().map_or(usize::MAX, |c| c as usize);
            let r = guard(|| step(&mut s, o));
            let (r, msg) = match r {
                Ok(r) => (r, String::new()),
                Err(m) => {
                    assert!(!m.contains("harness"), "{m}");
                    ("panic".into(), m)
                }
            };
            let nid = aid(s.p.as_ref().unwrap().next_id());
            rec.ev(json!({"e": "op", "op": o["op"], "cid": o["id"].as_i64().unwrap_or(0), "eq": (o["c"]["op"] == json!("eq")) as i64, "r": r, "msg": msg, "nid": nid}));
            if r == "panic" {
                dead = true;
                break;
            }
        }
        let p = s.p.take().unwrap();
        if !dead {
            if sc["concl"] == json!("drop") {
                drop(p);
            } else {
                p.conclude::<rustsat::types::Var>(pigeons::OutputGuarantee::None, &pigeons::Conclusion::None)
                    .unwrap();
            }
            rec.ev(json!({"e": "done"}));
        }
    }
    rec.flush();
    for e in rec.evs.borrow_mut().drain(..) {
        tr.ev(e);
    }
}
fn main() {
    main_loop(run)
}
