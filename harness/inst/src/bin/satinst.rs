//! Replays histories on satisfiability instances
use inst::sat::*;
use inst::*;
use rustsat::encodings::card::{self, Totalizer};
use rustsat::encodings::pb::{self, BinaryAdder, GeneralizedTotalizer};
use rustsat::encodings::CollectClauses;
use rustsat::instances::fio::opb::{Objective, ObjectiveSense};
use rustsat::instances::fio::{dimacs::CnfLine, opb::Data};
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, ObjectVarManager, RandReindVarManager, ReindexVars, ReindexingVarManager,
    SatInstance,
};
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde_json::{json, Value};
use vtcore::*;

type InvTot = card::simulators::Inverted<Totalizer>;
type DblTot = card::simulators::Double<Totalizer, InvTot>;
type InvGte = pb::simulators::Inverted<GeneralizedTotalizer>;
type DblGte = pb::simulators::Double<GeneralizedTotalizer, InvGte>;

enum I {
    B(SatInstance<BasicVarManager>),
    R(SatInstance<ReindexingVarManager>),
    O(SatInstance<ObjectVarManager>),
    Q(SatInstance<RandReindVarManager>),
    C(Cnf),
}
macro_rules! on {
    ($s:expr, $i:ident => $e:expr, $c:ident => $f:expr) => {
        match $s {
            I::B($i) => $e,
            I::R($i) => $e,
            I::O($i) => $e,
            I::Q($i) => $e,
            I::C($c) => $f,
        }
    };
}
struct Slot {
    inst: I,
    ren: Vec<u32>, // original variable i -> current variable (0-based)
    aux: bool,
}
fn basic<VM: ManageVars>(i: SatInstance<VM>) -> (SatInstance<BasicVarManager>, VM) {
    i.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used())))
}
fn back<VM: ManageVars>(i: SatInstance<BasicVarManager>, vm: VM) -> SatInstance<VM> {
    let vm = std::cell::RefCell::new(Some(vm));
    i.change_var_manager(|_| vm.borrow_mut().take().unwrap()).0
}
/// A copy of the instance with a basic variable manager
fn copy(s: &mut Slot) -> SatInstance<BasicVarManager> {
    fn c<VM: ManageVars>(i: SatInstance<VM>) -> (SatInstance<VM>, SatInstance<BasicVarManager>) {
        let (b, vm) = basic(i);
        let cp = b.clone();
        (back(b, vm), cp)
    }
    macro_rules! k {
        ($i:expr, $v:path) => {{
            let (i, b) = c($i);
            s.inst = $v(i);
            b
        }};
    }
    match std::mem::replace(&mut s.inst, I::C(Cnf::new())) {
        I::B(i) => k!(i, I::B),
        I::R(i) => k!(i, I::R),
        I::O(i) => k!(i, I::O),
        I::Q(i) => k!(i, I::Q),
        I::C(c) => {
            let r = SatInstance::from(c.clone());
            s.inst = I::C(c);
            r
        }
    }
}
fn dump(s: &mut Slot, ms: &[Vec<u8>]) -> Value {
    let p: Parts = match &s.inst {
        I::C(c) => (c.iter().map(icl).collect(), vec![], vec![]),
        _ => parts(copy(s)),
    };
    let vars = vars_of(&p);
    let sat = sat_of(ms, &s.ren, &p.0, &p.1, &p.2);
    let top = vars.iter().max().copied().unwrap_or(0);
    on!(&s.inst, i => json!({"sat":sat,"vars":vars,"vs":i.var_set().into_iter().map(v1).collect::<Vec<_>>(),
        "ncl":i.n_clauses(),"ncard":i.n_cards(),"npb":i.n_pbs(),"n":i.n_constraints(),
        "lcl":i.cnf().len(),"lcard":p.1.len(),"lpb":p.2.len(),
        "max":i.max_var().map_or(-1, |v| i64::from(v.idx32())),"used":i.n_vars()}),
      c => json!({"sat":sat,"vars":vars,"vs":vars,"ncl":c.len(),"ncard":0,"npb":0,"n":c.len() + usize::from(c.is_empty() != (c.len() == 0)),
        "lcl":p.0.len(),"lcard":0,"lpb":0,"max":top - 1,"used":top}))
}
macro_rules! adders {
    ($i:expr, $how:expr, $a:expr, $b:expr) => {{
        let (a, b): (&[Lit], &[Lit]) = ($a, $b);
        match $how {
            "ll" => $i.add_lit_impl_lit(a[0], b[0]),
            "lc" => $i.add_lit_impl_clause(a[0], b),
            "lq" => $i.add_lit_impl_cube(a[0], b),
            "ql" => $i.add_cube_impl_lit(a, b[0]),
            "cl" => $i.add_clause_impl_lit(a, b[0]),
            "qc" => $i.add_cube_impl_clause(a, b),
            "cc" => $i.add_clause_impl_clause(a, b),
            "cq" => $i.add_clause_impl_cube(a, b),
            _ => $i.add_cube_impl_cube(a, b),
        }
    }};
}
macro_rules! clause_adders {
    ($i:expr, $how:expr, $c:expr) => {{
        let c: &Clause = $c;
        match $how {
            "nary" => $i.add_nary(c.as_ref()),
            "short" if c.len() == 1 => $i.add_unit(c[0]),
            "short" if c.len() == 2 => $i.add_binary(c[0], c[1]),
            "short" if c.len() == 3 => $i.add_ternary(c[0], c[1], c[2]),
            "and" => *$i &= c.clone(),
            "unitand" if c.len() == 1 => *$i &= c[0],
            _ => $i.add_clause(c.clone()),
        }
    }};
}
fn add(s: &mut Slot, cons: Vec<Con>, how: &str) {
    if how == "extend" || how.starts_with("collect") {
        let cls: Vec<Clause> = cons
            .into_iter()
            .map(|c| match c {
                Con::Cl(c) => c,
                _ => na(),
            })
            .collect();
        match &mut s.inst {
            I::B(i) if how == "collect" => i.extend_clauses(cls).unwrap(),
            // nothing or only a lower bound known about the number of clauses
            I::B(i) if how == "collect0" => {
                let mut it = cls.into_iter();
                i.extend_clauses(std::iter::from_fn(move || it.next())).unwrap();
            }
            I::C(c) if how == "collect0" => {
                let mut it = cls.into_iter();
                c.extend_clauses(std::iter::from_fn(move || it.next())).unwrap();
            }
            I::C(c) if how == "collect1" => {
                let mut it = cls.into_iter();
                let head: Vec<Clause> = it.by_ref().take(2).collect();
                c.extend_clauses(head.into_iter().chain(std::iter::from_fn(move || it.next())))
                    .unwrap();
            }
            I::C(c) if how == "collect" => c.extend_clauses(cls.into_iter().filter(|_| true)).unwrap(),
            I::B(i) => Extend::<Clause>::extend(i, cls),
            I::R(i) => Extend::<Clause>::extend(i, cls),
            I::O(i) => Extend::<Clause>::extend(i, cls),
            I::Q(i) => Extend::<Clause>::extend(i, cls),
            I::C(c) => c.extend(cls),
        }
        return;
    }
    for c in cons {
        match c {
            Con::Cl(c) => on!(&mut s.inst, i => clause_adders!(i, how, &c), k => clause_adders!(k, how, &c)),
            Con::Card(c) => on!(&mut s.inst, i => i.add_card_constr(c), _k => na()),
            Con::Pb(c) => on!(&mut s.inst, i => i.add_pb_constr(c), _k => na()),
        }
    }
}
fn card_enc(how: u64) -> impl FnMut(CardConstraint, &mut Cnf, &mut dyn ManageVars) {
    move |c, cnf, vm| match how {
        0 => card::default_encode_cardinality_constraint(c, cnf, vm).unwrap(),
        _ => card::encode_cardinality_constraint::<DblTot, _>(c, cnf, vm).unwrap(),
    }
}
fn pb_enc(how: u64) -> impl FnMut(PbConstraint, &mut Cnf, &mut dyn ManageVars) {
    move |c, cnf, vm| match how {
        0 => pb::default_encode_pb_constraint(c, cnf, vm).unwrap(),
        1 => pb::encode_pb_constraint::<DblGte, _>(c, cnf, vm).unwrap(),
        _ => pb::encode_pb_constraint::<BinaryAdder, _>(c, cnf, vm).unwrap(),
    }
}
fn reind<VM: ManageVars>(i: SatInstance<VM>, ren: &mut [u32], ordered: bool, rand: bool, base: u32) -> (I, Value) {
    let ov: Vec<i64> = i.var_set().into_iter().map(v1).collect();
    let oren = ren.to_vec();
    let n = i.n_vars();
    fn go<VM: ManageVars, R: ReindexVars>(i: SatInstance<VM>, r: R, ordered: bool, ren: &mut [u32]) -> SatInstance<R> {
        let mut n = if ordered { i.reindex_ordered(r) } else { i.reindex(r) };
        for v in ren.iter_mut() {
            *v = n.var_manager_mut().reindex(Var::new(*v)).idx32();
        }
        n
    }
    let inst = if rand {
        I::Q(go(
            i,
            RandReindVarManager::init(n.max(ren.iter().max().map_or(0, |m| m + 1))),
            ordered,
            ren,
        ))
    } else {
        I::R(go(
            i,
            ReindexingVarManager::from_next_free(Var::new(base)),
            ordered,
            ren,
        ))
    };
    // indices (1-based) of the original variables that occurred
    let occ: Vec<usize> = (0..oren.len())
        .filter(|k| ov.contains(&(i64::from(oren[*k]) + 1)))
        .map(|k| k + 1)
        .collect();
    (inst, json!({"ovars":occ,"oren":oren,"ordered":ordered && !rand}))
}
/// DIMACS lines with headers and comments in between
fn lines(cls: impl Iterator<Item = Clause>) -> impl Iterator<Item = CnfLine> {
    [CnfLine::Header(1, 0), CnfLine::Comment("a".into())]
        .into_iter()
        .chain(cls.flat_map(|c| [CnfLine::Clause(c), CnfLine::Comment(" 1 0".into())]))
}
/// OPB data with comments and objectives in between
fn data(cons: &[Con]) -> impl Iterator<Item = Data> + '_ {
    cons.iter().flat_map(|c| {
        [
            Data::Cmt("x1 >= 1;".into()),
            Data::Constr(if let Con::Pb(c) = c { c.clone() } else { na() }),
            Data::Obj(Objective {
                sense: ObjectiveSense::Minimize,
                terms: vec![],
                offset: 0,
            }),
        ]
    })
}
fn run(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms = masks(nv);
    let mut sl: Vec<Slot> = vec![];
    tr.ev(json!({"e":"new","nv":nv,"masks":ms}));
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        let r = guard(|| step(&mut sl, op, o, &ms, nv));
        match r {
            Ok(Some(e)) => tr.ev(e),
            Ok(None) => (),
            Err(m) if m.contains("harness") => panic!("{m}"),
            Err(m) => {
                tr.ev(json!({"e":"panic","op":op,"msg":m}));
                return;
            }
        }
    }
}
fn r1(ren: &[u32]) -> Vec<u32> {
    ren.iter().map(|v| v + 1).collect()
}
fn step(sl: &mut Vec<Slot>, op: &str, o: &Value, ms: &[Vec<u8>], nv: usize) -> Option<Value> {
    let ident: Vec<u32> = (0..nv as u32).collect();
    let i = o["i"].as_u64().unwrap_or(0) as usize;
    match op {
        "make" => {
            let nf = o["n"].as_u64().unwrap() as u32;
            let inst = match o["ty"].as_str().unwrap() {
                "B" if nf == 0 => I::B(SatInstance::new()),
                "B" => I::B(SatInstance::new_with_manager(BasicVarManager::from_next_free(
                    Var::new(nf),
                ))),
                "O" => I::O(SatInstance::new_with_manager(ObjectVarManager::from_next_free(
                    Var::new(nf),
                ))),
                "R" => I::R(SatInstance::new_with_manager(ReindexingVarManager::from_next_free(
                    Var::new(nf),
                ))),
                _ => I::C(Cnf::new()),
            };
            let nf = if matches!(inst, I::C(_)) { 0 } else { nf };
            let kind = if matches!(inst, I::C(_)) { "C" } else { "I" };
            sl.push(Slot {
                inst,
                ren: ident,
                aux: false,
            });
            let d = dump(sl.last_mut().unwrap(), ms);
            return Some(json!({"e":"make","i":sl.len(),"k":kind,"next":nf,"d":d}));
        }
        "from" => {
            let cons: Vec<Con> = o["cs"].as_array().unwrap().iter().map(|c| mk(&ident, c)).collect();
            let cls = || cons.iter().map(|c| if let Con::Cl(c) = c { c.clone() } else { na() });
            let inst = match o["how"].as_str().unwrap() {
                "cnf" => I::B(SatInstance::from(cls().collect::<Cnf>())),
                "cls" => I::B(cls().collect()),
                "lines" => I::B(lines(cls()).collect()),
                "klines" => I::C(lines(cls()).collect()),
                "data" => I::B(data(&cons).collect()),
                "cards" => I::B(
                    cons.iter()
                        .map(|c| if let Con::Card(c) = c { c.clone() } else { na() })
                        .collect(),
                ),
                "pbs" => I::B(
                    cons.iter()
                        .map(|c| if let Con::Pb(c) = c { c.clone() } else { na() })
                        .collect(),
                ),
                _ => I::C(cls().collect()),
            };
            let kind = if matches!(inst, I::C(_)) { "C" } else { "I" };
            sl.push(Slot {
                inst,
                ren: ident.clone(),
                aux: false,
            });
            let d = dump(sl.last_mut().unwrap(), ms);
            return Some(json!({"e":"from","k":kind,"i":sl.len(),"cs":o["cs"],"ren":r1(&ident),"d":d}));
        }
        "extend" => {
            let j = o["j"].as_u64().unwrap() as usize;
            let same = sl[i].ren == sl[j].ren
                && !sl[j].aux
                && std::mem::discriminant(&sl[i].inst) == std::mem::discriminant(&sl[j].inst);
            if !same || matches!(sl[i].inst, I::R(_) | I::Q(_)) {
                return None;
            }
            // keep slot j in place but empty
            let b = std::mem::replace(&mut sl[j].inst, I::C(Cnf::new()));
            let (keep, b) = match b {
                I::B(x) => (I::B(x.clone()), I::B(x)),
                I::C(x) => (I::C(x.clone()), I::C(x)),
                _ => {
                    sl[j].inst = b;
                    return None;
                }
            };
            sl[j].inst = keep;
            match (&mut sl[i].inst, b) {
                (I::B(a), I::B(b)) => a.extend(b),
                (I::C(a), I::C(b)) => *a = std::mem::take(a).join(b),
                _ => na(),
            }
            let d = dump(&mut sl[i], ms);
            return Some(json!({"e":"extend","i":i + 1,"j":j + 1,"d":d}));
        }
        _ => (),
    }
    let s = &mut sl[i];
    let mut ev = json!({"e":op,"i":i + 1});
    macro_rules! take {
        ($x:ident => $e:expr, $c:ident => $f:expr) => {
            match std::mem::replace(&mut s.inst, I::C(Cnf::new())) {
                I::B($x) => I::B($e),
                I::R($x) => I::R($e),
                I::O($x) => I::O($e),
                I::Q($x) => I::Q($e),
                I::C($c) => I::C($f),
            }
        };
    }
    match op {
        "add" => {
            let cons: Vec<Con> = o["cs"].as_array().unwrap().iter().map(|c| mk(&s.ren, c)).collect();
            if matches!(s.inst, I::C(_)) && cons.iter().any(|c| !matches!(c, Con::Cl(_))) {
                return None;
            }
            add(s, cons, o["how"].as_str().unwrap());
            ev["cs"] = o["cs"].clone();
            ev["ren"] = json!(r1(&s.ren));
        }
        "impl" => {
            let (a, b) = (tls(&s.ren, &o["a"]), tls(&s.ren, &o["b"]));
            let f = o["f"].as_str().unwrap();
            on!(&mut s.inst, i => adders!(i, f, &a, &b), c => adders!(c, f, &a, &b));
            ev["a"] = o["a"].clone();
            ev["b"] = o["b"].clone();
            ev["ka"] = json!(&f[..1]);
            ev["kb"] = json!(&f[1..]);
            ev["ren"] = json!(r1(&s.ren));
        }
        "newvar" => {
            if matches!(s.inst, I::C(_)) {
                return None;
            }
            let v = on!(&mut s.inst, i => if o["lit"] == true { i.new_lit().var() } else { i.new_var() }, _c => na());
            ev["v"] = json!(v.idx32());
        }
        "sanitize" => s.inst = take!(x => x.sanitize(), c => c.sanitize()),
        "shuffle" => s.inst = take!(x => x.shuffle(), c => c.shuffle()),
        "clear" => {
            let I::C(c) = &mut s.inst else { return None };
            let n = c.len();
            ev["idx"] = json!((0..n).all(|k| c[k] == *c.iter().nth(k).unwrap()));
            c.shrink_to_fit();
            ev["cap"] = json!(c.capacity() >= n && c.len() == n);
            if o["lit"] == true {
                c.clear();
            }
            ev["clear"] = o["lit"].clone();
        }
        "normalize" => {
            if !matches!(s.inst, I::C(_)) {
                return None;
            }
            s.inst = take!(x => x, c => c.normalize());
        }
        "normeq" => {
            let I::C(c) = &s.inst else { return None };
            // the same set of sets of literals: rotated, with repeated clauses and literals
            let k = o["k"].as_u64().unwrap() as usize;
            let mut cls: Vec<Clause> = c
                .iter()
                .map(|c| {
                    let mut l: Vec<Lit> = c.iter().copied().collect();
                    if !l.is_empty() {
                        let r = k % l.len();
                        l.rotate_left(r);
                        if k % 3 == 0 {
                            l.push(l[0]);
                        }
                    }
                    Clause::from(l.as_slice())
                })
                .collect();
            if !cls.is_empty() {
                let r = k % cls.len();
                cls.rotate_left(r);
                if k % 2 == 0 {
                    cls.push(cls[0].clone());
                }
            }
            ev["r"] = json!(c.clone().normalize() == cls.into_iter().collect::<Cnf>().normalize());
            return Some(ev);
        }
        "changevm" => {
            s.inst = match std::mem::replace(&mut s.inst, I::C(Cnf::new())) {
                I::B(i) => I::O(
                    i.change_var_manager(|vm| ObjectVarManager::from_next_free(Var::new(vm.n_used())))
                        .0,
                ),
                I::R(i) => I::B(basic(i).0),
                I::O(i) => I::B(basic(i).0),
                I::Q(i) => I::B(basic(i).0),
                I::C(c) => {
                    s.inst = I::C(c);
                    return None;
                }
            };
        }
        "tocnf" => {
            if matches!(s.inst, I::C(_)) {
                return None;
            }
            s.aux = true;
            let (a, b) = (o["card"].as_u64().unwrap(), o["pb"].as_u64().unwrap());
            // original variables that were not mentioned yet must not be taken for auxiliary ones
            let top = Var::new(*s.ren.iter().max().unwrap());
            on!(&mut s.inst, i => i.var_manager_mut().mark_used(top), _c => na());
            if a == 0 && b == 0 {
                on!(&mut s.inst, i => i.convert_to_cnf(), _c => na());
            } else {
                on!(&mut s.inst, i => i.convert_to_cnf_with_encoders(card_enc(a), pb_enc(b)), _c => na());
            }
        }
        "intocnf" => {
            let mut c = copy(s);
            c.var_manager_mut().mark_used(Var::new(*s.ren.iter().max().unwrap()));
            let (a, b) = (o["card"].as_u64().unwrap(), o["pb"].as_u64().unwrap());
            let (cnf, vm) = if a == 0 && b == 0 {
                c.into_cnf()
            } else {
                c.into_cnf_with_encoders(card_enc(a), pb_enc(b))
            };
            let p: Parts = (cnf.iter().map(icl).collect(), vec![], vec![]);
            ev["sat"] = json!(sat_of(ms, &s.ren, &p.0, &p.1, &p.2));
            ev["used"] = json!(vm.n_used());
            ev["vars"] = json!(vars_of(&p));
            return Some(ev);
        }
        "intopbs" => {
            let c = copy(s);
            if s.aux {
                return None;
            }
            let n = c.n_constraints();
            let (pbs, vm) = c.into_pbs();
            ev["samen"] = json!(n == pbs.len());
            let p: Parts = (vec![], vec![], pbs);
            ev["sat"] = json!(sat_of(ms, &s.ren, &p.0, &p.1, &p.2));
            ev["used"] = json!(vm.n_used());
            ev["vars"] = json!(vars_of(&p));
            return Some(ev);
        }
        "reindex" => {
            let (ord, rand, base) = (
                o["ordered"] == true,
                o["rand"] == true,
                o["base"].as_u64().unwrap() as u32,
            );
            let inst = std::mem::replace(&mut s.inst, I::C(Cnf::new()));
            let (inst, x) = match inst {
                I::B(i) => reind(i, &mut s.ren, ord, rand, base),
                I::R(i) => reind(i, &mut s.ren, ord, rand, base),
                I::O(i) => reind(i, &mut s.ren, ord, rand, base),
                I::Q(i) => reind(i, &mut s.ren, ord, rand, base),
                I::C(c) => {
                    s.inst = I::C(c);
                    return None;
                }
            };
            s.inst = inst;
            for k in ["ovars", "oren", "ordered"] {
                ev[k] = x[k].clone();
            }
            ev["ren"] = json!(r1(&s.ren));
        }
        "eval" | "violated" => {
            if op == "violated" && (s.aux || matches!(s.inst, I::C(_))) {
                return None;
            }
            let ps = partials(nv);
            let used = match &s.inst {
                I::C(c) => vars_of(&(c.iter().map(icl).collect(), vec![], vec![])),
                _ => vars_of(&parts(copy(s))),
            };
            ev["aux"] = json!(used.iter().any(|v| !s.ren.iter().any(|r| i64::from(*r) + 1 == *v)));
            let mut res = vec![];
            let p: Parts = match &s.inst {
                I::C(c) => (c.iter().map(icl).collect(), vec![], vec![]),
                _ => parts(copy(s)),
            };
            let mut each = vec![];
            for part in &ps {
                let mut a = Assignment::default();
                for (k, x) in part.iter().enumerate() {
                    match x {
                        0 => a.assign_var(Var::new(s.ren[k]), TernaryVal::False),
                        1 => a.assign_var(Var::new(s.ren[k]), TernaryVal::True),
                        _ => (),
                    }
                }
                if op == "eval" {
                    // what the single constraints evaluate to
                    let mut e: Vec<&str> =
                        p.0.iter()
                            .map(|c| tv(lits(&json!(c)).into_iter().collect::<Clause>().evaluate(&a)))
                            .chain(p.1.iter().map(|c| tv(c.evaluate(&a))))
                            .chain(p.2.iter().map(|c| tv(c.evaluate(&a))))
                            .collect();
                    e.sort_unstable();
                    e.dedup();
                    each.push(e);
                    res.push(json!(on!(&s.inst, i => tv(i.evaluate(&a)), c => tv(c.evaluate(&a)))));
                    continue;
                }
                let inv = |mut d: Value| {
                    let l: Vec<i64> = d["l"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|x| {
                            let x = x.as_i64().unwrap();
                            let k = s
                                .ren
                                .iter()
                                .position(|r| i64::from(*r) + 1 == x.abs())
                                .map_or(0, |k| k as i64 + 1);
                            k * x.signum()
                        })
                        .collect();
                    // a constraint over other variables is only judged by the models
                    d["un"] = json!(l.contains(&0));
                    d["l"] = json!(l);
                    d
                };
                res.push(on!(&s.inst, i => match i.unsat_constraint(&a) {
                    None => json!({"k":"none","un":false}),
                    Some(ConstraintRef::Clause(c)) => { let mut d = inv(dump_cl(c)); d["in"] = json!(p.0.contains(&icl(c))); d }
                    Some(ConstraintRef::Card(c)) => { let mut d = inv(dump_card(c)); d["in"] = json!(p.1.contains(c)); d }
                    Some(ConstraintRef::Pb(c)) => { let mut d = inv(dump_pb(c)); d["in"] = json!(p.2.contains(c)); d }
                }, _c => na()));
            }
            ev["ps"] = json!(ps);
            ev["r"] = json!(res);
            ev["each"] = json!(each);
            return Some(ev);
        }
        x => panic!("harness: op {x}"),
    }
    ev["d"] = dump(s, ms);
    Some(ev)
}
fn main() {
    main_loop(run)
}
