//! Replays histories on variable managers
use rustsat::instances::{BasicVarManager, ManageVars, ObjectVarManager, RandReindVarManager, ReindexVars, ReindexingVarManager};
use rustsat::types::Var;
use serde_json::{json, Value};
use vtcore::*;

enum M {
    B(BasicVarManager),
    R(ReindexingVarManager),
    O(ObjectVarManager),
    X(RandReindVarManager),
}
macro_rules! each {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::B($x) => $e,
            M::R($x) => $e,
            M::O($x) => $e,
            M::X($x) => $e,
        }
    };
}
fn make(ty: &str, n: u32, default: bool) -> M {
    let v = Var::new(n);
    match (ty, default) {
        ("basic", true) => M::B(BasicVarManager::default()),
        ("reindex", true) => M::R(ReindexingVarManager::default()),
        ("object", true) => M::O(ObjectVarManager::default()),
        ("basic", _) => M::B(BasicVarManager::from_next_free(v)),
        ("reindex", _) => M::R(ReindexingVarManager::from_next_free(v)),
        ("object", _) => M::O(ObjectVarManager::from_next_free(v)),
        _ => M::X(RandReindVarManager::init(n)),
    }
}
fn object(m: &mut ObjectVarManager, ty: &str, k: i64) -> Var {
    match ty {
        "i32" => m.object_var(k as i32),
        "u8" => m.object_var(k as u8),
        "i64" => m.object_var(k),
        "str" => m.object_var(format!("{k}")),
        "sstr" => m.object_var(if k % 2 == 0 { "even" } else { "odd" }),
        "tup" => m.object_var((k as u8, k as u8 + 1)),
        "vec" => m.object_var(vec![k as u8; k as usize % 3]),
        "opt" => m.object_var(if k == 0 { None } else { Some(k as i32) }),
        _ => m.object_var(()),
    }
}
/// Identifies equal keys
fn key(ty: &str, k: i64) -> String {
    match ty {
        "sstr" => format!("sstr{}", k % 2),
        "vec" => format!("vec{}", if k % 3 == 0 { "".into() } else { format!("{k}x{}", k % 3) }),
        "unit" => "unit".into(),
        _ => format!("{ty}:{k}"),
    }
}
fn ov(v: Option<Var>) -> i64 {
    v.map_or(-1, |v| i64::from(v.idx32()))
}

fn run(sc: &Value, tr: &mut Tracer) {
    tr.ev(json!({"e":"new"}));
    let mut ms: Vec<Option<M>> = vec![];
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        let i = o["i"].as_u64().unwrap_or(0) as usize;
        let v = o["v"].as_u64().unwrap_or(0) as u32;
        let r = guard(|| -> Value {
            if op == "make" {
                let n = o["n"].as_u64().unwrap() as u32;
                let m = make(o["ty"].as_str().unwrap(), n, o["default"] == true);
                ms.push(Some(m));
                return json!({"ty":o["ty"],"n":n});
            }
            if op == "combine" {
                let j = o["j"].as_u64().unwrap() as usize;
                let b = ms[j].take().unwrap();
                match (ms[i].as_mut().unwrap(), b) {
                    (M::B(a), M::B(b)) => a.combine(b),
                    (M::R(a), M::R(b)) => a.combine(b),
                    (M::O(a), M::O(b)) => a.combine(b),
                    (M::X(a), M::X(b)) => a.combine(b),
                    _ => panic!("harness: combine"),
                }
                return json!({"j":j+1});
            }
            let m = ms[i].as_mut().unwrap();
            match op {
                "newvar" => json!({"v": each!(m, m => m.new_var()).idx32()}),
                "newlit" => {
                    let l = each!(m, m => m.new_lit());
                    json!({"v": l.var().idx32(), "pos": l.is_pos()})
                }
                "mark" => json!({"arg":v,"r":each!(m, m => m.mark_used(Var::new(v)))}),
                "incr" => json!({"arg":v,"r":each!(m, m => m.increase_next_free(Var::new(v)))}),
                "forget" => {
                    each!(m, m => m.forget_from(Var::new(v)));
                    json!({"arg":v})
                }
                "reindex" => {
                    let neg = o["neg"] == true;
                    let l = Var::new(v).lit(neg);
                    let (out, s) = match m {
                        M::R(m) => if o["lit"] == true { let x = m.reindex_lit(l); (x.var(), x.is_neg() == neg) } else { (m.reindex(Var::new(v)), true) },
                        M::X(m) => if o["lit"] == true { let x = m.reindex_lit(l); (x.var(), x.is_neg() == neg) } else { (m.reindex(Var::new(v)), true) },
                        _ => panic!("harness: reindex"),
                    };
                    json!({"arg":v,"v":out.idx32(),"sign":s})
                }
                "reverse" => {
                    let neg = o["neg"] == true;
                    let l = Var::new(v).lit(neg);
                    let (out, s) = match m {
                        M::R(m) => if o["lit"] == true { let x = m.reverse_lit(l); (x.map(|l| l.var()), x.is_none_or(|l| l.is_neg() == neg)) } else { (m.reverse(Var::new(v)), true) },
                        M::X(m) => if o["lit"] == true { let x = m.reverse_lit(l); (x.map(|l| l.var()), x.is_none_or(|l| l.is_neg() == neg)) } else { (m.reverse(Var::new(v)), true) },
                        _ => panic!("harness: reverse"),
                    };
                    json!({"arg":v,"v":ov(out),"sign":s})
                }
                "object" => {
                    let M::O(m) = m else { panic!("harness: object") };
                    let (t, k) = (o["t"].as_str().unwrap(), o["k"].as_i64().unwrap());
                    json!({"key":key(t, k),"v":object(m, t, k).idx32()})
                }
                x => panic!("harness: op {x}"),
            }
        });
        match r {
            Ok(mut e) => {
                e["e"] = json!(op);
                e["i"] = json!(if op == "make" { ms.len() } else { i + 1 });
                let m = if op == "make" { ms.last().unwrap() } else { &ms[i] }.as_ref().unwrap();
                e["max"] = json!(ov(each!(m, m => m.max_var())));
                e["used"] = json!(each!(m, m => m.n_used()));
                tr.ev(e);
            }
            Err(m) => {
                tr.ev(json!({"e":"panic","op":o,"msg":m}));
                return;
            }
        }
    }
}
fn main() {
    main_loop(run)
}
