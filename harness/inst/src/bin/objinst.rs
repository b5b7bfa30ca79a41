//! Replays histories on objectives and (multi-objective) optimization instances
use inst::sat::*;
use inst::*;
use rustsat::instances::fio::dimacs::{McnfLine, WcnfLine};
use rustsat::instances::fio::opb;
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, MultiOptInstance, Objective, OptInstance, RandReindVarManager, ReindexVars, ReindexingVarManager,
    SatInstance,
};
use rustsat::types::{Clause, Lit, Var};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vtcore::*;

type B = BasicVarManager;
type R = ReindexingVarManager;
type Q = RandReindVarManager;
enum I {
    OB(OptInstance<B>),
    OR(OptInstance<R>),
    OQ(OptInstance<Q>),
    MB(MultiOptInstance<B>),
    MR(MultiOptInstance<R>),
    MQ(MultiOptInstance<Q>),
}
macro_rules! on {
    ($s:expr, $i:ident => $e:expr) => {
        on!($s, $i => $e, $i => $e)
    };
    ($s:expr, $i:ident => $e:expr, $m:ident => $f:expr) => {
        match $s {
            I::OB($i) => $e,
            I::OR($i) => $e,
            I::OQ($i) => $e,
            I::MB($m) => $f,
            I::MR($m) => $f,
            I::MQ($m) => $f,
        }
    };
}
/// As `on`, but rebuilding the instance
macro_rules! map {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            I::OB($i) => I::OB($e),
            I::OR($i) => I::OR($e),
            I::OQ($i) => I::OQ($e),
            I::MB($i) => I::MB($e),
            I::MR($i) => I::MR($e),
            I::MQ($i) => I::MQ($e),
        }
    };
}
struct Slot {
    inst: I,
    ren: Vec<u32>,
    aux: bool,
}
impl I {
    fn nobj(&self) -> usize {
        on!(self, _i => 1, m => m.n_objectives())
    }
    fn obj(&self, k: usize) -> &Objective {
        on!(self, i => i.objective_ref(), m => m.objective_ref(k))
    }
    fn obj_mut(&mut self, k: usize) -> &mut Objective {
        on!(self, i => i.objective_mut(), m => m.objective_mut(k))
    }
    fn objs(&self) -> Vec<Objective> {
        on!(self, i => vec![i.objective_ref().clone()], m => m.iter_obj().cloned().collect())
    }
    fn nothing() -> I {
        I::OB(OptInstance::new())
    }
}
fn basic<VM: ManageVars>(i: SatInstance<VM>) -> (SatInstance<BasicVarManager>, VM) {
    i.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used())))
}
fn back<VM: ManageVars>(i: SatInstance<BasicVarManager>, vm: VM) -> SatInstance<VM> {
    let vm = std::cell::RefCell::new(Some(vm));
    i.change_var_manager(|_| vm.borrow_mut().take().unwrap()).0
}
/// A copy of the constraints with a basic variable manager
fn constrs(i: &mut I) -> SatInstance<B> {
    fn c<VM: ManageVars>(s: &mut SatInstance<VM>, blank: VM) -> SatInstance<B> {
        let (b, vm) = basic(std::mem::replace(s, SatInstance::new_with_manager(blank)));
        let cp = b.clone();
        *s = back(b, vm);
        cp
    }
    match i {
        I::OB(i) => i.constraints_ref().clone(),
        I::MB(i) => i.constraints_ref().clone(),
        I::OR(i) => c(i.constraints_mut(), R::default()),
        I::MR(i) => c(i.constraints_mut(), R::default()),
        I::OQ(i) => c(i.constraints_mut(), Q::init(1)),
        I::MQ(i) => c(i.constraints_mut(), Q::init(1)),
    }
}
/// A copy with a basic variable manager; the manager knows exactly what the original one knows
fn copy(i: &mut I) -> I {
    let c = constrs(i);
    let objs = i.objs();
    if on!(i, _i => true, _m => false) {
        let mut n = OptInstance::new();
        *n.constraints_mut() = c;
        *n.objective_mut() = objs.into_iter().next().unwrap();
        I::OB(n)
    } else {
        let mut n = MultiOptInstance::new(objs.len());
        *n.constraints_mut() = c;
        for (o, x) in n.iter_obj_mut().zip(objs) {
            *o = x;
        }
        I::MB(n)
    }
}
/// Translates back to original literals; other variables are numbered from 1001
fn inv(ren: &[u32], l: i64) -> i64 {
    let v = l.unsigned_abs() as u32 - 1;
    l.signum() * ren.iter().position(|r| *r == v).map_or(1001 + i64::from(v), |k| k as i64 + 1)
}
type Items = BTreeMap<Vec<i64>, usize>;
fn items(ren: &[u32], it: impl IntoIterator<Item = (Clause, usize)>) -> Items {
    let mut m = Items::new();
    for (c, w) in it {
        *m.entry(icl(&c).into_iter().map(|l| inv(ren, l)).collect()).or_default() += w;
    }
    m
}
fn jitems(m: &Items) -> Value {
    json!(m.iter().filter(|x| *x.1 != 0).map(|(c, w)| json!({"c":c,"w":w})).collect::<Vec<_>>())
}
fn dump_obj(ren: &[u32], o: &Objective) -> Value {
    json!({"items":jitems(&items(ren, o.iter_soft_cls())),"off":o.offset()})
}
fn dump(s: &mut Slot, ms: &[Vec<u8>]) -> Value {
    let c = constrs(&mut s.inst);
    let used = c.n_vars();
    let p = parts(c);
    let objs: Vec<Value> = s.inst.objs().iter().map(|o| dump_obj(&s.ren, o)).collect();
    let mut vars = vars_of(&p);
    let sat = sat_of(ms, &s.ren, &p.0, &p.1, &p.2);
    let top = vars.iter().max().copied().unwrap_or(0);
    for o in s.inst.objs() {
        for (c, _) in o.iter_soft_cls() {
            vars.extend(icl(&c).iter().map(|l| l.abs()));
        }
    }
    vars.sort_unstable();
    vars.dedup();
    json!({"sat":sat,"objs":objs,"used":used,"top":top,"vars":vars,"n":s.inst.nobj(),
        "vs":on!(&s.inst, i => i.var_set()).into_iter().map(v1).collect::<Vec<_>>()})
}
/// The least cost reachable under the hard clauses for every assignment of the original
/// variables (-1 if there is none): soft literals over other variables are enumerated
fn mincosts(ms: &[Vec<u8>], ren: &[u32], hard: &[Vec<i64>], soft: &[(i64, usize)]) -> Vec<i64> {
    let mut d = dpll::Dpll::new(hard);
    let mut free: Vec<i64> = soft.iter().map(|s| s.0.abs()).filter(|v| !ren.contains(&(*v as u32 - 1))).collect();
    free.sort_unstable();
    free.dedup();
    assert!(free.len() <= 14, "harness: too many relaxation variables");
    ms.iter()
        .map(|m| {
            let mut best = -1;
            for x in 0..1usize << free.len() {
                let mut a: Vec<i64> = ren.iter().enumerate().map(|(i, r)| if m[i] == 1 { i64::from(*r) + 1 } else { -(i64::from(*r) + 1) }).collect();
                a.extend(free.iter().enumerate().map(|(i, v)| if x >> i & 1 == 1 { *v } else { -*v }));
                let c = soft.iter().filter(|s| a.contains(&s.0)).map(|s| s.1 as i64).sum::<i64>();
                if (best < 0 || c < best) && d.solve(&a).is_some() {
                    best = c;
                }
            }
            best
        })
        .collect()
}
fn clause(ren: &[u32], v: &Value) -> Clause {
    Clause::from(tls(ren, v).as_slice())
}
fn vmax(xs: impl Iterator<Item = i64>) -> i64 {
    xs.map(i64::abs).max().unwrap_or(0)
}
fn reind<VM: ManageVars>(s: I, ren: &mut [u32], ordered: bool, rand: bool, base: u32) -> (I, Value) {
    let _ = std::marker::PhantomData::<VM>;
    let ov: Vec<i64> = on!(&s, i => i.var_set()).into_iter().map(v1).collect();
    let oren = ren.to_vec();
    let n = ov.iter().max().copied().unwrap_or(0) as u32;
    let n = n.max(on!(&s, i => i.constraints_ref().n_vars())).max(ren.iter().max().unwrap() + 1);
    macro_rules! go {
        ($i:expr, $r:expr) => {{
            let r = $r;
            let mut n = if ordered { $i.reindex_ordered(r) } else { $i.reindex(r) };
            for v in ren.iter_mut() {
                *v = n.constraints_mut().var_manager_mut().reindex(Var::new(*v)).idx32();
            }
            n
        }};
    }
    let inst = if rand {
        on!(s, i => I::OQ(go!(i, Q::init(n))), m => I::MQ(go!(m, Q::init(n))))
    } else {
        on!(s, i => I::OR(go!(i, R::from_next_free(Var::new(base)))), m => I::MR(go!(m, R::from_next_free(Var::new(base)))))
    };
    let occ: Vec<usize> = (0..oren.len()).filter(|k| ov.contains(&(i64::from(oren[*k]) + 1))).map(|k| k + 1).collect();
    (inst, json!({"ovars":occ,"oren":oren,"ordered":ordered && !rand}))
}
fn add(s: &mut Slot, cs: &Value) {
    for c in cs.as_array().unwrap() {
        match mk(&s.ren, c) {
            Con::Cl(c) => on!(&mut s.inst, i => i.constraints_mut().add_clause(c)),
            Con::Card(c) => on!(&mut s.inst, i => i.constraints_mut().add_card_constr(c)),
            Con::Pb(c) => on!(&mut s.inst, i => i.constraints_mut().add_pb_constr(c)),
        }
    }
}
fn old(o: Option<usize>) -> i64 {
    o.map_or(-1, |w| w as i64)
}
fn assign(ren: &[u32], p: &[u8]) -> rustsat::types::Assignment {
    let mut a = rustsat::types::Assignment::default();
    for (k, x) in p.iter().enumerate() {
        if *x < 2 {
            a.assign_var(Var::new(ren[k]), (*x == 1).into());
        }
    }
    a
}
/// Soft literals or clauses judged by the least cost
fn lit_conv(ms: &[Vec<u8>], ren: &[u32], hard: &Cnf, soft: Vec<(Lit, usize)>) -> (Vec<i64>, i64) {
    let h: Vec<Vec<i64>> = hard.iter().map(icl).collect();
    let s: Vec<(i64, usize)> = soft.into_iter().map(|(l, w)| (ilit(l), w)).collect();
    let top = vmax(h.iter().flatten().copied().chain(s.iter().map(|x| x.0)));
    (mincosts(ms, ren, &h, &s), top)
}
fn step(sl: &mut Vec<Slot>, op: &str, o: &Value, ms: &[Vec<u8>], nv: usize) -> Option<Value> {
    let ident: Vec<u32> = (0..nv as u32).collect();
    let i = o["i"].as_u64().unwrap_or(0) as usize;
    let softs = |v: &Value| -> Vec<(Value, usize, isize, usize)> {
        v.as_array().unwrap().iter().map(|x| (x["c"].clone(), x["w"].as_i64().unwrap().unsigned_abs() as usize, is(&x["w"]), x["k"].as_u64().unwrap_or(0) as usize)).collect()
    };
    if op == "make" || op == "compose" || op == "lines" || op == "data" {
        let n = o["n"].as_u64().unwrap() as usize;
        let vm = || BasicVarManager::from_next_free(Var::new(o["nf"].as_u64().unwrap() as u32));
        let ss = softs(&o["softs"]);
        let inst = match op {
            "make" => match o["ty"].as_str().unwrap() {
                "O" => I::OB(OptInstance::new_with_manager(vm())),
                _ => I::MB(MultiOptInstance::new_with_manager(n, vm())),
            },
            "compose" => {
                let mut sat = SatInstance::new_with_manager(vm());
                let mut t = Slot { inst: I::nothing(), ren: ident.clone(), aux: false };
                add(&mut t, &o["cs"]);
                if let I::OB(x) = t.inst {
                    sat.extend(x.decompose().0);
                }
                // the objectives are collected from an iterator
                let mut objs: Vec<Objective> = (0..n)
                    .map(|k| {
                        let it = ss.iter().filter(|s| s.3 == k);
                        match o["how"].as_str().unwrap() {
                            "ulit" => it.map(|s| (!lits(&s.0)[0], s.1)).collect(),
                            "ilit" => it.map(|s| (!lits(&s.0)[0], s.2)).collect(),
                            _ => it.map(|s| (clause(&ident, &s.0), s.1)).collect(),
                        }
                    })
                    .collect();
                if o["ty"] == "O" {
                    I::OB(OptInstance::compose(sat, objs.remove(0)))
                } else {
                    I::MB(MultiOptInstance::compose(sat, objs))
                }
            }
            "lines" => {
                let hard: Vec<Clause> = o["cs"].as_array().unwrap().iter().map(|c| clause(&ident, &c["l"])).collect();
                if o["ty"] == "O" {
                    let h = hard.into_iter().map(WcnfLine::Hard);
                    I::OB(h.chain(ss.iter().map(|s| WcnfLine::Soft(clause(&ident, &s.0), s.1))).chain([WcnfLine::Comment("c".into())]).collect())
                } else {
                    let h = hard.into_iter().map(McnfLine::Hard);
                    // the last objective is mentioned so that their number is known
                    let fill = (n > 0).then(|| McnfLine::Soft(clause(&ident, &json!([1])), 0, n - 1));
                    I::MB(h.chain(fill).chain(ss.iter().map(|s| McnfLine::Soft(clause(&ident, &s.0), s.1, s.3))).collect())
                }
            }
            _ => {
                let mut v: Vec<opb::Data> = o["cs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| {
                        opb::Data::Constr(match mk(&ident, c) {
                            Con::Cl(c) => rustsat::types::constraints::PbConstraint::new_lb(c.iter().map(|l| (*l, 1)), 1),
                            Con::Card(c) => c.into(),
                            Con::Pb(c) => c,
                        })
                    })
                    .collect();
                for k in 0..n {
                    v.push(opb::Data::Obj(opb::Objective {
                        sense: if o["max"][k] == true { opb::ObjectiveSense::Maximize } else { opb::ObjectiveSense::Minimize },
                        terms: ss.iter().filter(|s| s.3 == k).map(|s| (s.1, !lits(&s.0)[0])).collect(),
                        offset: is(&o["off"][k]),
                    }));
                }
                I::MB(v.into_iter().collect())
            }
        };
        sl.push(Slot { inst, ren: ident, aux: false });
        let d = dump(sl.last_mut().unwrap(), ms);
        return Some(json!({"e":op,"i":sl.len(),"n":n,"softs":o["softs"],"cs":o["cs"],"how":o["how"],"max":o["max"],"off":o["off"],"d":d}));
    }
    let s = &mut sl[i];
    let mut ev = json!({"e":op,"i":i + 1});
    let k = o["k"].as_u64().unwrap_or(0) as usize;
    if o.get("k").is_some() {
        if k >= s.inst.nobj() {
            return None;
        }
        ev["k"] = json!(k + 1);
    }
    match op {
        "add" => {
            add(s, &o["cs"]);
            ev["cs"] = o["cs"].clone();
        }
        "setlit" | "inclit" | "inclitint" => {
            let l = tl(&s.ren, lits(&json!([o["l"]]))[0]);
            let w = &o["w"];
            let obj = s.inst.obj_mut(k);
            ev["old"] = json!(-2);
            match op {
                "setlit" => ev["old"] = json!(old(obj.add_soft_lit(us(w), l))),
                "inclit" => obj.increase_soft_lit(us(w), l),
                _ => obj.increase_soft_lit_int(is(w), l),
            }
            ev["l"] = o["l"].clone();
            ev["w"] = o["w"].clone();
        }
        "setcl" | "inccl" => {
            let c = clause(&s.ren, &o["c"]);
            let obj = s.inst.obj_mut(k);
            ev["old"] = json!(-2);
            if op == "setcl" {
                ev["old"] = json!(old(obj.add_soft_clause(us(&o["w"]), c)));
            } else {
                obj.increase_soft_clause(us(&o["w"]), c);
            }
            ev["c"] = o["c"].clone();
            ev["w"] = o["w"].clone();
        }
        "setoff" => {
            s.inst.obj_mut(k).set_offset(is(&o["w"]));
            ev["w"] = o["w"].clone();
        }
        "incoff" => {
            s.inst.obj_mut(k).increase_offset(is(&o["w"]));
            ev["w"] = o["w"].clone();
        }
        "normalize" => {
            let x = std::mem::take(s.inst.obj_mut(k)).normalize();
            *s.inst.obj_mut(k) = x;
        }
        "oshuffle" => {
            let x = std::mem::take(s.inst.obj_mut(k)).shuffle();
            *s.inst.obj_mut(k) = x;
        }
        "shuffle" => s.inst = map!(std::mem::replace(&mut s.inst, I::nothing()), i => i.shuffle()),
        "normeq" => {
            // the same objective built in a different order
            let x = s.inst.obj(k).clone();
            let mut its: Vec<(Clause, usize)> = x.iter_soft_cls().into_iter().collect();
            let r = us(&o["r"]);
            if !its.is_empty() {
                let n = its.len();
                its.rotate_left(r % n);
            }
            let mut y = Objective::new();
            for (c, w) in its {
                let mut l: Vec<Lit> = c.iter().copied().collect();
                let n = l.len();
                l.rotate_left(r % n);
                let c = Clause::from(l.as_slice());
                if r % 2 == 0 && w > 1 {
                    y.increase_soft_clause(w - 1, c.clone());
                    y.increase_soft_clause(1, c);
                } else {
                    y.increase_soft_clause(w, c);
                }
            }
            y.increase_offset(x.offset());
            ev["r"] = json!(x.normalize() == y.normalize());
            return Some(ev);
        }
        "get" => {
            let obj = s.inst.obj(k);
            let qs: Vec<i64> = (1..=nv as i64).flat_map(|v| [v, -v]).collect();
            let lw: Vec<i64> = qs.iter().map(|q| old(obj.lit_weight(tl(&s.ren, lits(&json!([q]))[0])))).collect();
            let cw: Vec<i64> = o["cls"].as_array().unwrap().iter().map(|c| old(obj.clause_weight(&clause(&s.ren, c)))).collect();
            let ps = partials(nv);
            let cost: Vec<isize> = ps.iter().map(|p| obj.evaluate(&assign(&s.ren, p))).collect();
            let cost0: Vec<usize> = ps.iter().map(|p| obj.evaluate_no_offset(&assign(&s.ren, p))).collect();
            let sl = match obj.iter_soft_lits() {
                Ok(it) => jitems(&items(&s.ren, it.into_iter().map(|(l, w)| (rustsat::clause![!l], w)))),
                Err(_) => json!("err"),
            };
            let c = |x: usize| cap(x as i128);
            let vs: Vec<i64> = obj.iter_soft_cls().into_iter().flat_map(|(c, _)| icl(&c)).collect();
            for (key, v) in [
                ("qs", json!(qs)), ("lw", json!(lw)), ("cls", o["cls"].clone()), ("cw", json!(cw)), ("ps", json!(ps)), ("cost", json!(cost)),
                ("cost0", json!(cost0)), ("empty", json!(obj.is_empty())), ("constant", json!(obj.constant())), ("off", json!(obj.offset())),
                ("nl", json!(obj.n_lits())), ("nc", json!(obj.n_clauses())), ("ns", json!(obj.n_softs())),
                ("ls", json!(obj.lit_weight_sum())), ("cs", json!(obj.clause_weight_sum())), ("ws", json!(obj.weight_sum())),
                ("maxl", json!(c(obj.max_lit_weight()))), ("maxc", json!(c(obj.max_clause_weight()))), ("max", json!(c(obj.max_weight()))),
                ("minl", json!(c(obj.min_lit_weight()))), ("minc", json!(c(obj.min_clause_weight()))), ("min", json!(c(obj.min_weight()))),
                ("mvok", json!(obj.max_var().map_or(0, v1) == vmax(vs.into_iter()))), ("slok", json!(sl != "err")),
                ("sl", if sl == "err" { json!([]) } else { sl }),
            ] {
                ev[key] = v;
            }
            return Some(ev);
        }
        "conv" => {
            let obj = s.inst.obj(k).clone();
            let base = constrs(&mut s.inst).n_vars().max(s.ren.iter().max().unwrap() + 1).max(obj.max_var().map_or(0, |v| v.idx32() + 1));
            let mut vm = BasicVarManager::from_next_free(Var::new(base));
            let how = o["how"].as_str().unwrap();
            ev["how"] = o["how"].clone();
            ev["lits"] = json!(how.ends_with("lits"));
            let (mut its, mut costs, mut top, off) = (Items::new(), vec![], 0, obj.offset());
            let mut unit = 1;
            let (hard, soft, noff) = match how {
                "cls" => {
                    let (c, off) = obj.into_soft_cls();
                    its = items(&s.ren, c);
                    (Cnf::new(), vec![], off)
                }
                "ucls" => {
                    let (c, w, off) = obj.into_unweighted_soft_cls();
                    unit = w;
                    its = items(&s.ren, c.into_iter().map(|c| (c, w)));
                    (Cnf::new(), vec![], off)
                }
                "lits" => {
                    let (h, (l, off)) = obj.into_soft_lits(&mut vm);
                    (h, l.into_iter().collect(), off)
                }
                "ulits" => {
                    let (h, l, w, off) = obj.into_unweighted_soft_lits(&mut vm);
                    (h, l.into_iter().map(|l| (l, w)).collect(), off)
                }
                _ => {
                    let mut obj = obj;
                    let h = obj.convert_to_soft_lits(&mut vm);
                    let l: Vec<_> = obj.iter_soft_lits().unwrap().into_iter().collect();
                    (h, l, obj.offset())
                }
            };
            if how.ends_with("lits") {
                (costs, top) = lit_conv(ms, &s.ren, &hard, soft);
            }
            let _ = off;
            ev["items"] = jitems(&its);
            ev["costs"] = json!(costs);
            ev["off"] = json!(noff);
            ev["unit"] = json!(unit);
            ev["cover"] = json!(top <= i64::from(vm.n_used()));
            return Some(ev);
        }
        "iconv" => {
            // conversions of the entire instance
            let how = o["how"].as_str().unwrap();
            let c = copy(&mut s.inst);
            let top0 = s.ren.iter().max().unwrap() + 1;
            let mut c = c;
            if o["mark"] == true {
                on!(&mut c, i => i.constraints_mut().var_manager_mut().increase_next_free(Var::new(top0)));
            } else {
                // every original variable has to occur, otherwise it may be taken for an auxiliary one
                let vs = on!(&c, i => i.var_set());
                let used = on!(&c, i => i.constraints_ref().n_vars());
                if s.ren.iter().any(|r| *r >= used && !vs.contains(&Var::new(*r))) {
                    return None;
                }
            }
            ev["how"] = o["how"].clone();
            let (mut its, mut costs, mut offs): (Vec<Items>, Vec<Vec<i64>>, Vec<isize>) = (vec![], vec![], vec![]);
            let (hard, vm): (Parts, BasicVarManager);
            let mut top = 0;
            let cls = |c: Cnf| -> Vec<Vec<i64>> { c.iter().map(icl).collect() };
            match (how, c) {
                ("cls", I::OB(c)) => {
                    let (h, (sc, off), v) = c.into_hard_cls_soft_cls();
                    its.push(items(&s.ren, sc));
                    offs.push(off);
                    (hard, vm) = ((cls(h), vec![], vec![]), v);
                }
                ("cls", I::MB(c)) => {
                    let (h, sc, v) = c.into_hard_cls_soft_cls();
                    for (sc, off) in sc {
                        its.push(items(&s.ren, sc));
                        offs.push(off);
                    }
                    (hard, vm) = ((cls(h), vec![], vec![]), v);
                }
                ("lits", I::OB(c)) => {
                    let (h, (sl, off), v) = c.into_hard_cls_soft_lits();
                    let (c, t) = lit_conv(ms, &s.ren, &h, sl.into_iter().collect());
                    costs.push(c);
                    top = t;
                    offs.push(off);
                    (hard, vm) = ((cls(h), vec![], vec![]), v);
                }
                ("lits", I::MB(c)) => {
                    let (h, sl, v) = c.into_hard_cls_soft_lits();
                    for (sl, off) in sl {
                        let (c, t) = lit_conv(ms, &s.ren, &h, sl.into_iter().collect());
                        costs.push(c);
                        top = top.max(t);
                        offs.push(off);
                    }
                    (hard, vm) = ((cls(h), vec![], vec![]), v);
                }
                (_, I::OB(c)) => {
                    let (c, ob) = c.decompose();
                    its.push(items(&s.ren, ob.iter_soft_cls()));
                    offs.push(ob.offset());
                    vm = BasicVarManager::from_next_free(Var::new(c.n_vars()));
                    hard = parts(c);
                }
                (_, I::MB(c)) => {
                    let (c, obs) = c.decompose();
                    for ob in obs {
                        its.push(items(&s.ren, ob.iter_soft_cls()));
                        offs.push(ob.offset());
                    }
                    vm = BasicVarManager::from_next_free(Var::new(c.n_vars()));
                    hard = parts(c);
                }
                _ => panic!("harness: conversion"),
            }
            ev["lits"] = json!(how == "lits");
            ev["sat"] = json!(sat_of(ms, &s.ren, &hard.0, &hard.1, &hard.2));
            top = top.max(vmax(vars_of(&hard).into_iter()));
            for it in &its {
                // untranslated literals are shifted by 1000
                top = top.max(vmax(it.keys().flatten().map(|l| if l.abs() > 1000 { l.abs() - 1000 } else { i64::from(s.ren[l.unsigned_abs() as usize - 1]) + 1 })));
            }
            ev["items"] = json!(its.iter().map(jitems).collect::<Vec<_>>());
            ev["costs"] = json!(costs);
            ev["offs"] = json!(offs);
            ev["cover"] = json!(top <= i64::from(vm.n_used()));
            return Some(ev);
        }
        "changevm" => {
            s.inst = match std::mem::replace(&mut s.inst, I::nothing()) {
                I::OR(i) => I::OB(i.change_var_manager(|vm| B::from_next_free(Var::new(vm.n_used()))).0),
                I::OQ(i) => I::OB(i.change_var_manager(|vm| B::from_next_free(Var::new(vm.n_used()))).0),
                I::OB(i) => I::OR(i.change_var_manager(|vm| R::from_next_free(Var::new(vm.n_used()))).0),
                I::MR(i) => I::MB(i.change_var_manager(|vm| B::from_next_free(Var::new(vm.n_used()))).0),
                I::MQ(i) => I::MB(i.change_var_manager(|vm| B::from_next_free(Var::new(vm.n_used()))).0),
                I::MB(i) => I::MR(i.change_var_manager(|vm| R::from_next_free(Var::new(vm.n_used()))).0),
            };
        }
        "reindex" => {
            let (ord, rand, base) = (o["ordered"] == true, o["rand"] == true, o["base"].as_u64().unwrap() as u32);
            let inst = std::mem::replace(&mut s.inst, I::nothing());
            let (inst, x) = reind::<B>(inst, &mut s.ren, ord, rand, base);
            s.inst = inst;
            for k in ["ovars", "oren", "ordered"] {
                ev[k] = x[k].clone();
            }
            ev["ren"] = json!(s.ren.iter().map(|v| v + 1).collect::<Vec<_>>());
        }
        "cost" => {
            let ps = partials(nv);
            ev["r"] = json!(ps
                .iter()
                .map(|p| {
                    let a = assign(&s.ren, p);
                    on!(&s.inst, i => i.cost(&a).map(|c| vec![c]), m => m.cost(&a)).map_or(json!({"no":true,"c":[]}), |c| json!({"no":false,"c":c}))
                })
                .collect::<Vec<_>>());
            ev["ps"] = json!(ps);
            return Some(ev);
        }
        x => panic!("harness: op {x}"),
    }
    let _ = s.aux;
    ev["d"] = dump(s, ms);
    Some(ev)
}
fn run(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms = masks(nv);
    let mut sl: Vec<Slot> = vec![];
    tr.ev(json!({"e":"new","nv":nv,"masks":ms}));
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        match guard(|| step(&mut sl, op, o, &ms, nv)) {
            Ok(Some(e)) => tr.ev(e),
            Ok(None) => (),
            Err(m) if m.contains("harness") => panic!("{m}"),
            Err(m) => {
                tr.ev(json!({"e":"panic","op":op,"msg":m}));
                return;
            }
        }
    }
}
fn main() {
    main_loop(run)
}
