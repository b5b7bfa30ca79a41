//! Replays histories of operations on constraint objects
use inst::*;
use pigeons::ConstraintLike;
use rustsat::instances::{Cnf, SatInstance};
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint, PbToCardError};
use rustsat::types::{Cl, Clause, Lit, Var, WLitIter};
use serde_json::{json, Value};
use vtcore::*;

#[derive(Clone)]
enum Cur {
    Cl(Clause),
    Card(CardConstraint),
    Pb(PbConstraint),
}
use Cur::*;
thread_local! {
    /// Weights and bounds of a pseudo-Boolean constraint are those of the scenario times this factor
    static SCALE: std::cell::Cell<i128> = const { std::cell::Cell::new(1) };
    /// What is added to an upper bound and taken from a lower bound, less than the factor
    static REST: std::cell::Cell<i128> = const { std::cell::Cell::new(0) };
}
fn scale() -> i128 {
    SCALE.get()
}
fn plain() {
    SCALE.set(1);
    REST.set(0);
}
fn unw(w: i128) -> i64 {
    if w % scale() == 0 {
        cap(w / scale())
    } else {
        -999_999
    }
}
fn unb(op: &str, b: i128) -> i64 {
    match op {
        "ub" => cap(b.div_euclid(scale())),
        "lb" => cap(-((-b).div_euclid(scale()))),
        _ => unw(b),
    }
}
fn scaled(w: &Value) -> Value {
    json!(w
        .as_array()
        .unwrap()
        .iter()
        .map(|w| i64::try_from(i128::from(w.as_i64().unwrap()) * scale()).unwrap())
        .collect::<Vec<_>>())
}
fn bound(op: &str, b: &Value) -> isize {
    let b = i128::from(b.as_i64().unwrap()) * scale();
    isize::try_from(match op {
        "ub" => b + REST.get(),
        "lb" => b - REST.get(),
        _ => b,
    })
    .unwrap()
}
fn pb_op(c: &PbConstraint) -> &'static str {
    match c {
        PbConstraint::Ub(_) => "ub",
        PbConstraint::Lb(_) => "lb",
        PbConstraint::Eq(_) => "eq",
    }
}
fn dump_pb(c: &PbConstraint) -> Value {
    json!({"k":"pb","op":pb_op(c),"l":c.iter().map(|l| ilit(l.0)).collect::<Vec<_>>(),
           "w":c.iter().map(|l| unw(l.1 as i128)).collect::<Vec<_>>(),"b":unb(pb_op(c), c.bound() as i128)})
}
impl Cur {
    fn dump(&self) -> Value {
        match self {
            Cl(c) => dump_cl(c),
            Card(c) => dump_card(c),
            Pb(c) => dump_pb(c),
        }
    }
    fn flags(&self) -> Value {
        let mut v = match self {
            Cl(c) => {
                json!({"taut": c.is_tautology(), "unsat": c.is_empty(), "pos": false, "neg": false, "cl": true, "card": true,
                "len": c.len(), "wsum": c.len(), "bound": 1, "empty": c.is_empty(), "unit": c.is_unit(), "binary": c.is_binary()})
            }
            Card(c) => {
                json!({"taut": c.is_tautology(), "unsat": c.is_unsat(), "pos": c.is_positive_assignment(), "neg": c.is_negative_assignment(),
                "cl": c.is_clause(), "card": true, "len": c.len(), "wsum": c.n_lits(), "bound": cap(c.bound() as i128), "empty": c.is_empty()})
            }
            Pb(c) => {
                json!({"taut": c.is_tautology(), "unsat": c.is_unsat(), "pos": c.is_positive_assignment(), "neg": c.is_negative_assignment(),
                "cl": c.is_clause(), "card": c.is_card(), "len": c.len(), "wsum": unw(c.weight_sum() as i128), "bound": unb(pb_op(c), c.bound() as i128), "empty": c.is_empty()})
            }
        };
        v["e"] = json!("flags");
        v
    }
}
fn make(m: &Value) -> Cur {
    let op = m["op"].as_str().unwrap();
    plain();
    if let Some(k) = m["k"].as_str() {
        SCALE.set(k.parse().unwrap());
        REST.set(m["d"].as_str().unwrap().parse().unwrap());
    }
    match m["how"].as_str().unwrap() {
        "cl" => Cl(lits(&m["l"]).into_iter().collect()),
        "clslice" => Cl(Clause::from(&lits(&m["l"])[..])),
        "clcow" => {
            let l = lits(&m["l"]);
            Cl(self::Cl::new(&l[..]).to_owned())
        }
        "card" => Card(mk_card(op, &m["l"], us(&m["b"]))),
        "cardunit" => Card(CardConstraint::new_unit(lits(&m["l"])[0])),
        "cardcl" => Card(CardConstraint::from(lits(&m["l"]).into_iter().collect::<Clause>())),
        "pb" => Pb(mk_pb(op, &m["l"], &scaled(&m["w"]), bound(op, &m["b"]))),
        "pbu" => Pb(mk_pb_u(op, &m["l"], &scaled(&m["w"]), bound(op, &m["b"]))),
        "pbunit" => Pb(PbConstraint::new_unit(lits(&m["l"])[0])),
        "pbcl" => Pb(PbConstraint::from(lits(&m["l"]).into_iter().collect::<Clause>())),
        "pbcard" => Pb(PbConstraint::from(mk_card(op, &m["l"], us(&m["b"])))),
        x => panic!("make {x}"),
    }
}
fn eval(c: &Cur, nv: usize) -> Vec<&'static str> {
    partials(nv)
        .iter()
        .map(|p| {
            let a = assignment(p);
            tv(match c {
                Cl(c) => c.evaluate(&a),
                Card(c) => c.evaluate(&a),
                Pb(c) => c.evaluate(&a),
            })
        })
        .collect()
}
fn terms<C: ConstraintLike<Var>>(c: &C) -> (Vec<i64>, Vec<i64>) {
    c.sum_iter()
        .map(|(w, a)| {
            let v = i64::from(a.var().idx32()) + 1;
            (if a.is_neg() { -v } else { v }, unw(w as i128))
        })
        .unzip()
}

fn step(c: &mut Option<Cur>, o: &Value, nv: usize) -> Value {
    let op = o["op"].as_str().unwrap();
    let cur = c.take().unwrap();
    macro_rules! same {
        ($x:expr) => {{
            let n = $x;
            let d = n.dump();
            *c = Some(n);
            json!({"e":"same","op":op,"r":"ok","got":d})
        }};
    }
    macro_rules! fail {
        ($x:expr, $r:expr) => {{
            *c = Some($x);
            json!({"e":"same","op":op,"r":$r})
        }};
    }
    match (op, cur) {
        ("eval", k) => {
            let v = eval(&k, nv);
            *c = Some(k);
            json!({"e":"eval","vals":v})
        }
        ("norm", Cl(k)) => match k.clone().normalize() {
            Some(k) => same!(Cl(k)),
            None => fail!(Cl(k), "taut"),
        },
        ("sanitize", Cl(k)) => match k.clone().sanitize() {
            Some(k) => same!(Cl(k)),
            None => fail!(Cl(k), "taut"),
        },
        ("canon", k) => {
            let p: Vec<usize> = o["p"].as_array().unwrap().iter().map(us).collect();
            let shuf = |n: usize| {
                let mut ix: Vec<usize> = (0..n).collect();
                ix.sort_by_key(|i| p[i % p.len()] * 100 + i * p[0] % 7);
                ix
            };
            let eq = match &k {
                Cl(k) => {
                    let mut other: Clause = shuf(k.len()).into_iter().map(|i| k[i]).collect();
                    if let Some(l) = k.iter().next() {
                        other.add(*l);
                    }
                    k.clone().normalize() == other.normalize()
                }
                Card(k) => {
                    let ix = shuf(k.len());
                    let mut it: Vec<Lit> = k.iter().copied().collect();
                    it = ix.iter().map(|i| it[*i]).collect();
                    let other = match k {
                        CardConstraint::Ub(_) => CardConstraint::new_ub(it, k.bound()),
                        CardConstraint::Lb(_) => CardConstraint::new_lb(it, k.bound()),
                        CardConstraint::Eq(_) => CardConstraint::new_eq(it, k.bound()),
                    };
                    k.clone().normalize() == other.normalize()
                }
                Pb(k) => {
                    let ix = shuf(k.len());
                    let mut it: Vec<(Lit, usize)> = k.iter().copied().collect();
                    it = ix.iter().map(|i| it[*i]).collect();
                    let other = match k {
                        PbConstraint::Ub(_) => PbConstraint::new_ub_unsigned(it, k.bound()),
                        PbConstraint::Lb(_) => PbConstraint::new_lb_unsigned(it, k.bound()),
                        PbConstraint::Eq(_) => PbConstraint::new_eq_unsigned(it, k.bound()),
                    };
                    k.clone().normalize() == other.normalize()
                }
            };
            *c = Some(k);
            json!({"e":"canon","eq":eq})
        }
        ("show", k) => {
            let s = match &k {
                Cl(k) => ConstraintRef::Clause(k).to_string(),
                Card(k) => ConstraintRef::Card(k).to_string(),
                Pb(k) => ConstraintRef::Pb(k).to_string(),
            };
            *c = Some(k);
            match shown(&s) {
                Some(g) => json!({"e":"same","op":op,"r":"ok","got":g,"text":s}),
                None => json!({"e":"same","op":op,"r":"text not understood","text":s}),
            }
        }
        ("sort", Cl(mut k)) => {
            k.sort();
            same!(Cl(k))
        }
        ("norm", Card(k)) => same!(Card(k.normalize())),
        ("norm", Pb(k)) => same!(Pb(k.normalize())),
        ("tocard", Cl(k)) => same!(Card(k.into())),
        ("topb", Cl(k)) => same!(Pb(k.into())),
        ("topb", Card(k)) => same!(Pb(k.into())),
        ("tocl", Card(k)) => match k.clone().into_clause() {
            Ok(k) => same!(Cl(k)),
            Err(_) => fail!(Card(k), "noclause"),
        },
        ("tocl", Pb(k)) => match k.clone().into_clause() {
            Ok(k) => {
                plain();
                same!(Cl(k))
            }
            Err(_) => fail!(Pb(k), "noclause"),
        },
        ("tocard", Pb(k)) => match k.clone().into_card_constr() {
            Ok(k) => {
                plain();
                same!(Card(k))
            }
            Err(e) => fail!(
                Pb(k),
                match e {
                    PbToCardError::NotACard => "nocard",
                    PbToCardError::Unsat => "unsat",
                    PbToCardError::Tautology => "taut",
                }
            ),
        },
        ("extcard", Pb(k)) if scale() == 1 => same!(Card(k.extend_to_card_constr())),
        ("invert", Card(CardConstraint::Ub(k))) => same!(Card(CardConstraint::Lb(k.invert()))),
        ("invert", Card(CardConstraint::Lb(k))) => same!(Card(CardConstraint::Ub(k.invert()))),
        ("invert", Pb(PbConstraint::Ub(k))) => same!(Pb(PbConstraint::Lb(k.invert()))),
        ("invert", Pb(PbConstraint::Lb(k))) => same!(Pb(PbConstraint::Ub(k.invert()))),
        ("split", Card(CardConstraint::Eq(k))) => {
            let (l, u) = k.clone().split();
            *c = Some(Card(CardConstraint::Eq(k)));
            json!({"e":"split","lb":dump_card(&CardConstraint::Lb(l)),"ub":dump_card(&CardConstraint::Ub(u))})
        }
        ("split", Pb(PbConstraint::Eq(k))) => {
            let (l, u) = k.clone().split();
            *c = Some(Pb(PbConstraint::Eq(k)));
            json!({"e":"split","lb":dump_pb(&PbConstraint::Lb(l)),"ub":dump_pb(&PbConstraint::Ub(u))})
        }
        ("add", k) => {
            let l = lits(&o["l"]);
            let mut w = o["w"].clone();
            let n = match k {
                Cl(mut k) => {
                    w = json!(vec![1; l.len()]);
                    if o["alt"] == true {
                        k.extend(l);
                    } else {
                        for l in l {
                            k.add(l);
                        }
                    }
                    Cl(k)
                }
                Card(mut k) => {
                    w = json!(vec![1; l.len()]);
                    k.add(l);
                    Card(k)
                }
                Pb(mut k) => {
                    k.add(wlits(&o["l"], &scaled(&o["w"])));
                    Pb(k)
                }
            };
            let d = n.dump();
            *c = Some(n);
            json!({"e":"add","l":o["l"],"w":w,"r":"ok","got":d})
        }
        ("remove" | "removeall", Cl(mut k)) => {
            let l = mklit(o["l"][0].as_i64().unwrap());
            let found = if op == "remove" {
                k.remove(l)
            } else {
                k.remove_thorough(l)
            };
            let d = dump_cl(&k);
            *c = Some(Cl(k));
            json!({"e":"remove","all":op == "removeall","lit":o["l"][0],"found":found,"got":d})
        }
        ("bound", Card(mut k)) => {
            let b = o["b"].as_i64().unwrap().max(0);
            k.set_bound(b as usize);
            let d = dump_card(&k);
            *c = Some(Card(k));
            json!({"e":"bound","b":b,"got":d})
        }
        ("bound", Pb(mut k)) => {
            let b = o["b"].as_i64().unwrap();
            k.set_bound(bound(pb_op(&k), &o["b"]));
            let d = dump_pb(&k);
            *c = Some(Pb(k));
            json!({"e":"bound","b":b,"got":d})
        }
        // flip one literal in place
        ("mut", k) => {
            let i = o["i"].as_u64().unwrap() as usize;
            let flip = |l: &mut Lit| *l = !*l;
            let n = match k {
                Cl(mut k) => {
                    if let Some(l) = k.iter_mut().nth(i) {
                        flip(l);
                    }
                    Cl(k)
                }
                Card(mut k) => {
                    if let Some(l) = k.iter_mut().nth(i) {
                        flip(l);
                    }
                    Card(k)
                }
                Pb(mut k) => {
                    if let Some(l) = k.iter_mut().nth(i) {
                        flip(&mut l.0);
                    }
                    Pb(k)
                }
            };
            let d = n.dump();
            *c = Some(n);
            json!({"e":"mut","i":i+1,"got":d})
        }
        ("lits", k) => {
            let d = match k.clone() {
                Cl(k) => k.into_iter().map(|l| (ilit(l), 1)).unzip(),
                Card(k) => k.into_lits().into_iter().map(|l| (ilit(l), 1)).unzip(),
                Pb(k) => into_terms(k.into_lits()),
            };
            *c = Some(k);
            let (l, w): (Vec<i64>, Vec<i64>) = d;
            json!({"e":"terms","l":l,"w":w})
        }
        ("pig", k) => {
            let (d, rhs) = match &k {
                Cl(k) => (terms(k), k.rhs()),
                Card(CardConstraint::Eq(_)) | Pb(PbConstraint::Eq(_)) => {
                    *c = Some(k);
                    return Value::Null;
                }
                Card(k) => (terms(k), k.rhs()),
                Pb(k) => (terms(k), k.rhs()),
            };
            *c = Some(k);
            json!({"e":"same","op":"pig","r":"ok","keep":true,"got":{"k":"pb","op":"lb","l":d.0,"w":d.1,"b":unb("lb", rhs as i128)}})
        }
        (_, k) => {
            *c = Some(k);
            Value::Null
        }
    }
}
/// Reads the printed form of a constraint
fn shown(s: &str) -> Option<Value> {
    let first = i64::from(Var::new(0).to_string() == "x0");
    let lit = |s: &str| -> Option<i64> {
        let (n, s) = s.strip_prefix('~').map_or((false, s), |s| (true, s));
        let v = s.strip_prefix('x')?.parse::<i64>().ok()? + first;
        Some(if n { -v } else { v })
    };
    if let Some(s) = s.strip_prefix('(') {
        let s = s.strip_suffix(')')?;
        let l: Vec<i64> = if s.is_empty() {
            vec![]
        } else {
            s.split('|').map(lit).collect::<Option<_>>()?
        };
        return Some(json!({"k":"cl","op":"lb","w":vec![1; l.len()],"b":1,"l":l}));
    }
    let (op, m) = [("lb", " >= "), ("ub", " <= "), ("eq", " = ")]
        .into_iter()
        .find(|x| s.contains(x.1))?;
    let (sum, b) = s.split_once(m)?;
    let (mut l, mut w) = (vec![], vec![]);
    for t in sum.split(" + ").filter(|t| !t.is_empty()) {
        match t.split_once(' ') {
            Some((a, b)) => {
                w.push(unw(a.parse::<i128>().ok()?));
                l.push(lit(b)?);
            }
            None => {
                w.push(if scale() == 1 { 1 } else { -999_999 });
                l.push(lit(t)?);
            }
        }
    }
    Some(json!({"k":"pb","op":op,"l":l,"w":w,"b":unb(op, b.parse::<i128>().ok()?)}))
}

enum Form {
    V(Var),
    L(Lit),
    C(Clause),
    F(Cnf),
    S(SatInstance),
}
/// Builds a formula with the operators of the types
fn build(t: &Value) -> Form {
    use Form::*;
    let asg = t["asg"] == true;
    match t["t"].as_str().unwrap() {
        "lit" => {
            let l = mklit(t["x"].as_i64().unwrap());
            if t["v"] == true {
                V(l.var())
            } else {
                L(l)
            }
        }
        "not" => match build(&t["a"]) {
            V(v) => L(if asg { -v } else { !v }),
            L(l) => L(if asg { -l } else { !l }),
            _ => panic!("not"),
        },
        "or" => C(match (build(&t["a"]), build(&t["b"])) {
            (V(a), V(b)) => a | b,
            (V(a), L(b)) => a | b,
            (V(a), C(b)) => a | b,
            (L(a), V(b)) => a | b,
            (L(a), L(b)) => a | b,
            (L(a), C(b)) => a | b,
            (C(mut a), b) if asg => {
                match b {
                    V(b) => a |= b,
                    L(b) => a |= b,
                    C(b) => a |= b,
                    _ => panic!("or"),
                }
                a
            }
            (C(a), V(b)) => a | b,
            (C(a), L(b)) => a | b,
            (C(a), C(b)) => a | b,
            _ => panic!("or"),
        }),
        "and" => match (build(&t["a"]), build(&t["b"])) {
            (V(a), V(b)) => F(a & b),
            (V(a), L(b)) => F(a & b),
            (V(a), C(b)) => F(a & b),
            (V(a), F(b)) => F(a & b),
            (L(a), V(b)) => F(a & b),
            (L(a), L(b)) => F(a & b),
            (L(a), C(b)) => F(a & b),
            (L(a), F(b)) => F(a & b),
            (C(a), V(b)) => F(a & b),
            (C(a), L(b)) => F(a & b),
            (C(a), C(b)) => F(a & b),
            (C(a), F(b)) => F(a & b),
            (F(mut a), b) if asg => {
                match b {
                    V(b) => a &= b,
                    L(b) => a &= b,
                    C(b) => a &= b,
                    F(b) => a &= b,
                    S(_) => panic!("and"),
                }
                F(a)
            }
            (F(a), V(b)) => F(a & b),
            (F(a), L(b)) => F(a & b),
            (F(a), C(b)) => F(a & b),
            (F(a), F(b)) => F(a & b),
            (S(mut a), b) if asg => {
                match b {
                    V(b) => a &= b,
                    L(b) => a &= b,
                    C(b) => a &= b,
                    F(b) => a &= b,
                    S(b) => a &= b,
                }
                S(a)
            }
            (S(a), V(b)) => S(a & b),
            (S(a), L(b)) => S(a & b),
            (S(a), C(b)) => S(a & b),
            (S(a), F(b)) => S(a & b),
            (S(a), S(b)) => S(a & b),
            _ => panic!("and"),
        },
        // the whole instance so far
        "inst" => S(match build(&t["a"]) {
            V(a) => SatInstance::new() & a,
            L(a) => SatInstance::new() & a,
            C(a) => SatInstance::new() & a,
            F(a) => SatInstance::from_iter(a),
            S(a) => a,
        }),
        x => panic!("tree {x}"),
    }
}
fn ilits(c: &[Lit]) -> Vec<i64> {
    c.iter().map(|l| ilit(*l)).collect()
}
fn expr(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let r = guard(|| {
        let cls = match build(&sc["expr"]) {
            Form::V(v) => vec![vec![ilit(v.pos_lit())]],
            Form::L(l) => vec![vec![ilit(l)]],
            Form::C(c) => vec![ilits(c.as_ref())],
            Form::F(f) => f.iter().map(|c| ilits(c.as_ref())).collect(),
            Form::S(s) => s.into_cnf().0.iter().map(|c| ilits(c.as_ref())).collect(),
        };
        cls
    });
    let mut ev = json!({"e":"expr","masks":masks(nv),"tree":sc["expr"]});
    match r {
        Ok(c) => {
            ev["r"] = json!("ok");
            ev["got"] = json!(c);
        }
        Err(m) => {
            ev["r"] = json!("panic");
            ev["got"] = json!([]);
            ev["msg"] = json!(m);
        }
    }
    tr.ev(ev);
}

fn into_terms(i: impl WLitIter) -> (Vec<i64>, Vec<i64>) {
    i.into_iter().map(|(l, w)| (ilit(l), unw(w as i128))).unzip()
}

fn run(sc: &Value, tr: &mut Tracer) {
    if !sc["expr"].is_null() {
        return expr(sc, tr);
    }
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let m = &sc["make"];
    let made = guard(|| make(m));
    let mut ev = json!({"e":"new","nv":nv,"masks":masks(nv),"pas":partials(nv),"how":m["how"],"op":m["op"],"l":m["l"],"w":m["w"],"b":m["b"]});
    match &made {
        Ok(c) => {
            ev["r"] = json!("ok");
            ev["got"] = c.dump();
        }
        Err(e) => {
            ev["r"] = json!("panic");
            ev["msg"] = json!(e);
        }
    }
    tr.ev(ev);
    let Ok(c) = made else { return };
    let mut cur = Some(c);
    for o in sc["ops"].as_array().unwrap() {
        match guard(|| (step(&mut cur, o, nv), cur.as_ref().unwrap().flags())) {
            Ok((e, f)) => {
                if !e.is_null() {
                    tr.ev(e);
                    tr.ev(f);
                }
            }
            Err(msg) => {
                tr.ev(json!({"e":"panic","op":o,"msg":msg}));
                return;
            }
        }
    }
}
fn main() {
    main_loop(run)
}
