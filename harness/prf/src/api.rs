//! Drives the proof writer directly
use crate::{aid, card_of, pb_of, Rec, Wr};
use pigeons::*;
use rustsat::types::{Clause, Var};
use serde_json::{json, Value};
use vtcore::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    X(Var),
    P(ProofOnlyVar),
    N(&'static str),
}
pub struct Vf(V);
impl From<V> for Vf {
    fn from(v: V) -> Self {
        Vf(v)
    }
}
impl std::fmt::Display for Vf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            V::X(v) => write!(f, "{}", <Var as VarLike>::Formatter::from(v)),
            V::P(v) => write!(f, "{}", <ProofOnlyVar as VarLike>::Formatter::from(v)),
            V::N(s) => write!(f, "{}", <&'static str as VarLike>::Formatter::from(s)),
        }
    }
}
impl VarLike for V {
    type Formatter = Vf;
}
const NAMES: [&str; 4] = ["y_z0", "y_z1", "y_z2", "y_z3"];

struct Own {
    t: Vec<(isize, Axiom<V>)>,
    b: isize,
}
impl ConstraintLike<V> for Own {
    fn rhs(&self) -> isize {
        self.b
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        self.t.iter().copied()
    }
}
struct Obj {
    t: Vec<(isize, Axiom<V>)>,
    c: isize,
}
impl ObjectiveLike<V> for Obj {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        self.t.iter().copied()
    }
    fn offset(&self) -> isize {
        self.c
    }
}
/// A constraint in an order
struct OOwn {
    t: Vec<(isize, Axiom<OrderVar<Var>>)>,
    b: isize,
}
impl ConstraintLike<OrderVar<Var>> for OOwn {
    fn rhs(&self) -> isize {
        self.b
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<OrderVar<Var>>)> {
        self.t.iter().copied()
    }
}

struct Cx {
    pv: Vec<ProofOnlyVar>,
}
fn cid(v: &Value) -> ConstraintId {
    let n = v.as_i64().unwrap();
    if n < 0 {
        ConstraintId::last(n.unsigned_abs() as usize)
    } else {
        ConstraintId::abs(n as usize)
    }
}
fn cids(v: &Value) -> Vec<ConstraintId> {
    v.as_array().unwrap().iter().map(cid).collect()
}
fn idbound(v: &Value) -> std::ops::Bound<ConstraintId> {
    match v[0].as_str().unwrap() {
        "i" => std::ops::Bound::Included(cid(&v[1])),
        "e" => std::ops::Bound::Excluded(cid(&v[1])),
        _ => std::ops::Bound::Unbounded,
    }
}
impl Cx {
    fn var(&self, n: i64) -> V {
        match n {
            0..=999 => V::X(mklit(n).var()),
            1000..=1999 => V::P(self.pv[n as usize - 1000]),
            _ => V::N(NAMES[n as usize - 2000]),
        }
    }
    fn lit(&self, v: &Value) -> Axiom<V> {
        let n = v.as_i64().unwrap();
        self.var(n.abs()).axiom(n < 0)
    }
    fn terms(&self, v: &Value) -> Vec<(isize, Axiom<V>)> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| (is(&x[0]), self.lit(&x[1])))
            .collect()
    }
    fn own(&self, v: &Value) -> Own {
        Own {
            t: self.terms(&v["t"]),
            b: is(&v["b"]),
        }
    }
    fn obj(&self, v: &Value) -> Obj {
        Obj {
            t: self.terms(&v["t"]),
            c: is(&v["b"]),
        }
    }
    fn lits(&self, v: &Value) -> Vec<Axiom<V>> {
        v.as_array().unwrap().iter().map(|x| self.lit(x)).collect()
    }
    fn ops(&self, v: &Value) -> OperationSequence<V> {
        match v[0].as_str().unwrap() {
            "id" => cid(&v[1]).into(),
            "ax" => self.lit(&v[1]).into(),
            "empty" => OperationSequence::empty(),
            "add" => match (v[1][0].as_str().unwrap(), v[2][0].as_str().unwrap()) {
                // the different ways to add something up
                ("ax", "ax") => self.lit(&v[1][1]) + self.lit(&v[2][1]),
                ("id", "ax") => cid(&v[1][1]) + self.lit(&v[2][1]),
                ("ax", "id") => self.lit(&v[1][1]) + cid(&v[2][1]),
                (_, "id") => {
                    let mut a = self.ops(&v[1]);
                    a += cid(&v[2][1]);
                    a
                }
                ("id", _) => cid(&v[1][1]) + self.ops(&v[2]),
                ("ax", _) => self.lit(&v[1][1]) + self.ops(&v[2]),
                _ => self.ops(&v[1]) + self.ops(&v[2]),
            },
            "mul" => match v[1][0].as_str().unwrap() {
                "ax" => self.lit(&v[1][1]) * us(&v[2]),
                "id" => us(&v[2]) * self.ops(&v[1]),
                _ => {
                    let mut a = self.ops(&v[1]);
                    a *= us(&v[2]);
                    a
                }
            },
            "div" => match v[1][0].as_str().unwrap() {
                "ax" => self.lit(&v[1][1]) / us(&v[2]),
                "id" => self.ops(&v[1]) / us(&v[2]),
                _ => {
                    let mut a = self.ops(&v[1]);
                    a /= us(&v[2]);
                    a
                }
            },
            "sat" => self.ops(&v[1]).saturate(),
            "weak" => self.ops(&v[1]).weaken(),
            x => panic!("harness tree {x}"),
        }
    }
    fn subst(&self, v: &Value) -> Vec<Substitution<V>> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| {
                let w = self.var(x[0].as_i64().unwrap());
                match x[1].as_str().unwrap() {
                    "t" => w.substitute_fixed(true),
                    "f" => w.substitute_fixed(false),
                    _ => w.substitute_literal(self.lit(&x[2])),
                }
            })
            .collect()
    }
    fn der<C>(&self, v: &Value, c: &impl Fn(&Value) -> C) -> Derivation<V, C> {
        match v["d"].as_str().unwrap() {
            "rup" => Derivation::Rup(c(&v["c"]), cids(&v["h"])),
            _ => self.ops(&v["x"]).into(),
        }
    }
    fn goals(&self, v: &Value) -> Vec<ProofGoal<V, Own>> {
        v.as_array().unwrap().iter().map(|g| self.goal(g)).collect()
    }
    fn goal(&self, g: &Value) -> ProofGoal<V, Own> {
        let n = &g["n"];
        let id = if g["g"] == json!("#") {
            ProofGoalId::specific(us(n))
        } else {
            cid(n).into()
        };
        let d = g["ders"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| self.der(d, &|c| self.own(c)));
        if g["late"] == json!(1) {
            let mut pg = ProofGoal::empty(id);
            pg.extend(d);
            pg
        } else {
            ProofGoal::new(id, d)
        }
    }
    fn sub(&self, v: &Value) -> Vec<SubproofElement<V, Own>> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|g| {
                if g["g"] == json!("-") {
                    self.der(&g["ders"][0], &|c| self.own(c)).into()
                } else {
                    self.goal(g).into()
                }
            })
            .collect()
    }
    fn concl(&self, v: &Value) -> Conclusion<V> {
        let id = (v["id"] != json!(0)).then(|| cid(&v["id"]));
        let lits = self.lits(&v["lits"]);
        let lits = (!lits.is_empty()).then_some(lits);
        match v["k"].as_str().unwrap() {
            "NONE" => Conclusion::None,
            "SAT" => Conclusion::Sat(lits),
            "UNSAT" => Conclusion::Unsat(id),
            _ => Conclusion::Bounds {
                range: is(&v["lb"])..is(&v["ub"]) + 1,
                lb_id: id,
                ub_sol: lits,
            },
        }
    }
}
fn guarantee(v: &Value) -> OutputGuarantee {
    match v.as_str().unwrap() {
        "NONE" => OutputGuarantee::None,
        "DERIVABLE IMPLICIT" => OutputGuarantee::Derivable(OutputType::Implicit),
        "DERIVABLE FILE" => OutputGuarantee::Derivable(OutputType::File),
        "EQUISATISFIABLE IMPLICIT" => OutputGuarantee::Equisatisfiable(OutputType::Implicit),
        "EQUISATISFIABLE FILE" => OutputGuarantee::Equisatisfiable(OutputType::File),
        "EQUIOPTIMAL IMPLICIT" => OutputGuarantee::Equioptimal(OutputType::Implicit),
        _ => OutputGuarantee::Equioptimal(OutputType::File),
    }
}
fn ovar(n: i64, o: &mut Order<Var, OOwn>) -> Axiom<OrderVar<Var>> {
    let a = n.abs();
    let v = mklit(a % 1000).var();
    let (l, r) = o.use_var(v);
    let x = match a / 1000 {
        3 => l,
        4 => r,
        _ => OrderVar::FreshRight(v),
    };
    x.axiom(n < 0)
}
fn oconstr(v: &Value, o: &mut Order<Var, OOwn>) -> OOwn {
    let t = v["t"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (is(&x[0]), ovar(x[1].as_i64().unwrap(), o)))
        .collect();
    OOwn { t, b: is(&v["b"]) }
}
fn oders(v: &Value, o: &mut Order<Var, OOwn>) -> Vec<Derivation<OrderVar<Var>, OOwn>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|d| Derivation::Rup(oconstr(&d["c"], o), cids(&d["h"])))
        .collect()
}

/// Writes a rule about one constraint with the constraint given as one of the types that can be used
macro_rules! with_c {
    ($cx:expr, $o:expr, $c:ident => $own:expr, $rs:expr) => {
        match $o["ck"].as_str().unwrap() {
            "own" => {
                let $c = $cx.own(&$o["c"]);
                $own
            }
            "clause" => {
                let $c: Clause = lits(&$o["rc"]["l"]).into_iter().collect();
                $rs
            }
            "cl" => {
                let c: Clause = lits(&$o["rc"]["l"]).into_iter().collect();
                let cl: &rustsat::types::Cl = &c;
                let $c = Ref(cl);
                $rs
            }
            "card" => {
                let $c = card_of(&$o["rc"]);
                $rs
            }
            _ => {
                let $c = pb_of(&$o["rc"]);
                $rs
            }
        }
    };
}
struct Ref<'a>(&'a rustsat::types::Cl);
impl ConstraintLike<Var> for Ref<'_> {
    fn rhs(&self) -> isize {
        self.0.rhs()
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.0.sum_iter()
    }
}

/// Identifier returned by the call (0: none)
fn step(cx: &mut Cx, p: &mut Proof<Wr>, o: &Value) -> i64 {
    let some = |v: &Value| (v != &json!(0)).then(|| cid(v));
    match o["r"].as_str().unwrap() {
        "pol" => aid(p.operations(&cx.ops(&o["x"])).unwrap()),
        "rup" => {
            let h = cids(&o["h"]);
            aid(
                with_c!(cx, o, c => p.reverse_unit_prop(&c, h).unwrap(), p.reverse_unit_prop::<Var, _, _>(&c, h).unwrap()),
            )
        }
        "red" | "dom" => {
            let (w, s) = (cx.subst(&o["w"]), cx.sub(&o["sub"]));
            let c = cx.own(&o["c"]);
            aid(if o["r"] == json!("red") {
                p.redundant(&c, w, s)
            } else {
                p.dominated(&c, w, s)
            }
            .unwrap())
        }
        "e" => {
            let i = some(&o["id"]);
            with_c!(cx, o, c => p.equals(&c, i).unwrap(), p.equals::<Var, _>(&c, i).unwrap());
            0
        }
        "ea" => {
            let i = some(&o["id"]);
            aid(with_c!(cx, o, c => p.equals_add(&c, i).unwrap(), p.equals_add::<Var, _>(&c, i).unwrap()))
        }
        "i" => {
            let i = some(&o["id"]);
            with_c!(cx, o, c => p.implied(&c, i).unwrap(), p.implied::<Var, _>(&c, i).unwrap());
            0
        }
        "ia" => {
            let i = some(&o["id"]);
            aid(with_c!(cx, o, c => p.implied_add(&c, i).unwrap(), p.implied_add::<Var, _>(&c, i).unwrap()))
        }
        "del" => {
            p.delete_ids(cids(&o["ids"]), cx.sub(&o["sub"])).unwrap();
            0
        }
        "delr" => {
            p.delete_id_range((idbound(&o["a"]), idbound(&o["b"]))).unwrap();
            0
        }
        "delspec" => {
            with_c!(cx, o, c => p.delete_constr(&c).unwrap(), p.delete_constr::<Var, _>(&c).unwrap());
            0
        }
        "delc" => {
            p.delete_core_ids(cids(&o["ids"])).unwrap();
            0
        }
        "deld" => {
            p.delete_derived_ids(cids(&o["ids"])).unwrap();
            0
        }
        "core" => {
            p.move_ids_to_core(cids(&o["ids"])).unwrap();
            0
        }
        "corer" => {
            p.move_range_to_core((idbound(&o["a"]), idbound(&o["b"]))).unwrap();
            0
        }
        "sol" => {
            p.solution(cx.lits(&o["lits"])).unwrap();
            0
        }
        "solx" => aid(p.exclude_solution(cx.lits(&o["lits"])).unwrap()),
        "soli" => aid(p.improve_solution(cx.lits(&o["lits"])).unwrap()),
        "obju" => {
            let ob = cx.obj(&o["o"]);
            if o["k"] == json!("new") {
                p.update_objective(&ObjectiveUpdate::new(ob, cx.goals(&o["sub"])))
                    .unwrap();
            } else {
                p.update_objective::<V, Obj, Own>(&ObjectiveUpdate::diff(ob)).unwrap();
            }
            0
        }
        "eobj" => {
            if o["rs"] == json!(1) {
                let mut ob = rustsat::instances::Objective::new();
                for x in o["o"]["t"].as_array().unwrap() {
                    ob.add_soft_lit(us(&x[0]), mklit(x[1].as_i64().unwrap()));
                }
                ob.set_offset(is(&o["o"]["b"]));
                p.obj_equals(&ob).unwrap();
            } else {
                p.obj_equals(&cx.obj(&o["o"])).unwrap();
            }
            0
        }
        "lvl" => {
            p.set_level(us(&o["n"])).unwrap();
            0
        }
        "wipe" => {
            p.wipe_level(us(&o["n"])).unwrap();
            0
        }
        "s2c" => {
            p.strengthening_to_core(o["v"] == json!("on")).unwrap();
            0
        }
        "f" => {
            p.verify_num_constraints(us(&o["n"])).unwrap();
            0
        }
        "comment" => {
            if o["m"] == json!(1) {
                p.multiline_comment(o["text"].as_str().unwrap()).unwrap();
            } else {
                p.comment(&o["text"].as_str().unwrap()).unwrap();
            }
            0
        }
        "load" => {
            p.load_order(
                o["name"].as_str().unwrap(),
                o["vars"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| cx.var(v.as_i64().unwrap())),
            )
            .unwrap();
            0
        }
        "newpv" => {
            cx.pv.push(p.new_proof_var());
            0
        }
        "order" => {
            let mut or: Order<Var, OOwn> = Order::new(o["name"].as_str().unwrap().into());
            for i in 0..o["def"].as_array().unwrap().len() {
                let c = oconstr(&o["def"][i], &mut or);
                let t = oders(&o["trans"][i]["ders"], &mut or);
                let r = (o["hasrefl"] == json!(1)).then(|| oders(&o["refl"][i]["ders"], &mut or));
                or.add_definition_constraint(c, t, r);
            }
            p.define_order(&or).unwrap();
            0
        }
        "defconcl" => {
            p.update_default_conclusion(guarantee(&o["out"]), &cx.concl(&o["concl"]));
            0
        }
        x => panic!("harness api {x}"),
    }
}

pub fn run(sc: &Value, rec: &Rec) {
    let opt = sc["opt"] == json!(1);
    let n = us(&sc["n"]);
    let mut cx = Cx { pv: vec![] };
    let r = guard(|| match sc["start"].as_object() {
        Some(s) => {
            Proof::new_with_conclusion(Wr(rec.clone()), n, opt, guarantee(&s["out"]), &cx.concl(&s["concl"])).unwrap()
        }
        None => Proof::new(Wr(rec.clone()), n, opt).unwrap(),
    });
    let mut p = match r {
        Ok(p) => p,
        Err(m) => {
            rec.ev(json!({"e": "ret", "r": "panic", "msg": m, "id": 0, "nid": 0, "fid": 0}));
            return;
        }
    };
    rec.ev(json!({"e": "ret", "r": "ok", "msg": "", "id": 0, "nid": aid(p.next_id()), "fid": aid(p.first_proof_id())}));
    for o in sc["ops"].as_array().unwrap() {
        rec.ev(json!({"e": "call", "want": o}));
        let r = guard(|| step(&mut cx, &mut p, o));
        match r {
            Ok(id) => rec.ev(json!({"e": "ret", "r": "ok", "msg": "", "id": id,
                "nid": aid(p.next_id()), "fid": aid(p.first_proof_id())})),
            Err(m) => {
                assert!(!m.contains("harness"), "{m}");
                rec.ev(json!({"e": "ret", "r": "panic", "msg": m, "id": 0, "nid": 0, "fid": 0}));
                std::mem::forget(p);
                return;
            }
        }
    }
    let c = &sc["end"];
    rec.ev(json!({"e": "call", "want": c}));
    if c["r"] == json!("drop") {
        drop(p);
    } else {
        let g = guarantee(&c["out"]);
        let _ = p.conclude(g, &cx.concl(&c["concl"])).unwrap();
    }
    rec.ev(json!({"e": "ret", "r": "ok", "msg": "", "id": 0, "nid": 0, "fid": 0}));
    rec.ev(json!({"e": "done"}));
}
