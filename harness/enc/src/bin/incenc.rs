//! Replays histories on the incremental cardinality and pseudo-Boolean encodings
use enc::{make, Enc, Rng};
use rustsat::encodings::cert::EncodingError;
use rustsat::encodings::pb::dpw::PrecisionError;
use rustsat::types::{Assignment, Lit};
use serde_json::{json, Value};
use std::ops::Bound;
use vtcore::*;

fn bound(v: &Value) -> Bound<usize> {
    match v[0].as_str().unwrap() {
        "i" => Bound::Included(us(&v[1])),
        "e" => Bound::Excluded(us(&v[1])),
        _ => Bound::Unbounded,
    }
}
fn range(o: &Value) -> Rng {
    (bound(&o["a"]), bound(&o["b"]))
}
fn jb(v: &Value) -> Value {
    match v[0].as_str().unwrap() {
        "u" => json!({"t": "u", "v": [0, 0]}),
        t => json!({"t": t, "v": bn(us(&v[1]))}),
    }
}
fn wl(o: &Value) -> Vec<(Lit, usize)> {
    let l = lits(&o["lits"]);
    let w: Vec<usize> = match o["w"].as_array() {
        Some(a) => a.iter().map(us).collect(),
        None => vec![1; l.len()],
    };
    l.into_iter().zip(w).collect()
}
fn jw(l: &[(Lit, usize)]) -> (Vec<i64>, Vec<Value>) {
    (
        l.iter().map(|x| ilit(x.0)).collect(),
        l.iter().map(|x| bn(x.1)).collect(),
    )
}

fn run(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms = masks(nv);
    let ty = sc["ty"].as_str().unwrap();
    let name = match ty {
        "rawtot" => "tot",
        "rawgte" => "gte",
        "refdpw" | "celldpw" => "dpw",
        t => t,
    };
    let mut vm = Vm::new(nv as u32, 0);
    let mut proof = pigeons::Proof::new(std::io::sink(), 0, false).unwrap();
    let mut col = Col::default();
    let init = wl(&sc["init"]);
    let from = sc["from"].as_bool().unwrap_or(false);
    let (il, iw) = jw(&init);
    let mut e: Box<dyn Enc> = match guard(|| make(ty, &init, from)) {
        Ok(e) => e,
        Err(p) => {
            tr.ev(json!({"e":"new","ty":name,"nv":nv,"masks":ms,"lits":il,"w":iw,"r":"panic","msg":p,"sum":[0,0]}));
            return;
        }
    };
    let sum = guard(|| e.wsum());
    tr.ev(json!({"e":"new","ty":name,"nv":nv,"masks":ms,"lits":il,"w":iw,
        "r": if sum.is_ok() {"ok"} else {"panic"}, "sum": bn(sum.clone().unwrap_or(0))}));
    if sum.is_err() {
        return;
    }
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        match op {
            "extend" => {
                let l = wl(o);
                let (il, iw) = jw(&l);
                let r = guard(|| {
                    e.extend(&l);
                    e.wsum()
                });
                let p = r.is_err();
                tr.ev(json!({"e":"extend","lits":il,"w":iw,"r": if p {"panic"} else {"ok"},
                    "msg": r.clone().err().unwrap_or_default(), "sum": bn(r.unwrap_or(0))}));
                if p {
                    return;
                }
            }
            "encode" | "reserve" => {
                let before = col.cls.len();
                col.left = o["cap"].as_u64().map(|c| c as usize);
                let r = if op == "encode" {
                    guard(|| {
                        let k = o["k"].as_str().unwrap();
                        if o["cert"].as_bool().unwrap_or_default() {
                            match e.encode_cert(k, o["chg"].as_bool().unwrap(), range(o), &mut col, &mut vm, &mut proof)
                            {
                                None => (),
                                Some(Ok(())) => return true,
                                Some(Err(EncodingError::OutOfMemory(_))) => return false,
                                Some(Err(e)) => panic!("{e}"),
                            }
                        }
                        e.encode(k, o["chg"].as_bool().unwrap(), range(o), &mut col, &mut vm)
                            .is_ok()
                    })
                } else {
                    guard(|| {
                        e.reserve(&mut vm);
                        true
                    })
                };
                col.left = None;
                let newv: Vec<i64> = vm.take_new().iter().map(|v| i64::from(*v) + 1).collect();
                let aux = aux_vars(&col.cls[before..], nv as u32);
                let st = if r.is_ok() { guard(|| e.stats()) } else { Ok(None) };
                let mut ev = json!({"e":op, "r": match &r {Ok(true)=>"ok", Ok(false)=>"oom", Err(_)=>"panic"},
                    "msg": r.clone().err().unwrap_or_default(),
                    "new": newv, "aux": aux, "ncl": col.cls.len()-before,
                    "cap": o["cap"].is_u64(), "hasst": matches!(st, Ok(Some(_))),
                    "stcl": st.clone().ok().flatten().map_or(0, |s| s.0), "stv": st.ok().flatten().map_or(0, |s| s.1)});
                if op == "encode" {
                    ev["k"] = o["k"].clone();
                    ev["chg"] = o["chg"].clone();
                    ev["a"] = jb(&o["a"]);
                    ev["b"] = jb(&o["b"]);
                }
                tr.ev(ev);
                if r.is_err() {
                    return;
                }
                if op == "encode" && o["nofree"].as_bool() != Some(true) {
                    tr.ev(json!({"e":"free","sat": sat_per_mask(&col.cls, &ms, &[])}));
                }
            }
            "enforce" | "harden" => {
                let k = o["k"].as_str().unwrap();
                let b = us(&o["b"]);
                let r = guard(|| e.enforce(k, b));
                let (rs, msg, ass): (String, String, Vec<i64>) = match r {
                    Ok(Ok(a)) => ("ok".into(), String::new(), a.iter().map(|l| ilit(*l)).collect()),
                    Ok(Err(s)) => (s, String::new(), vec![]),
                    Err(p) => ("panic".into(), p, vec![]),
                };
                let sat = if rs == "ok" {
                    sat_per_mask(&col.cls, &ms, &ass)
                } else {
                    vec![]
                };
                let aux: Vec<i64> = aux_vars(&[ass.clone()], nv as u32);
                tr.ev(json!({"e":op,"k":k,"b":bn(b),"r":rs,"msg":msg,"sat":sat,"aux":aux}));
                if op == "harden" && rs == "ok" {
                    col.cls.extend(ass.iter().map(|a| vec![*a]));
                }
                if rs == "panic" {
                    return;
                }
            }
            "obs" => {
                let r = guard(|| {
                    let ins = e
                        .inputs()
                        .map(|v| v.into_iter().map(|(l, w)| json!([ilit(l), bn(w)])).collect::<Vec<_>>());
                    let ext: Vec<u8> = ms
                        .iter()
                        .filter_map(|m| {
                            let a: Assignment = (0..nv).map(|i| Lit::new(i as u32, m[i] == 0)).collect();
                            let x: Vec<i64> = e.strict(&a)?.into_iter().map(ilit).collect();
                            Some(u8::from(sat_per_mask(&col.cls, std::slice::from_ref(m), &x)[0] == 1))
                        })
                        .collect();
                    (ins, ext)
                });
                match r {
                    Ok((i, x)) => {
                        tr.ev(json!({"e":"obs","r":"ok","has":i.is_some(),"ins":i.unwrap_or_default(),"ext":x}))
                    }
                    Err(m) => {
                        tr.ev(json!({"e":"obs","r":"panic","msg":m}));
                        return;
                    }
                }
            }
            "uservars" => {
                let n = o["n"].as_u64().unwrap() as u32;
                let first = vm.next;
                vm.next += n;
                tr.ev(json!({"e":"uservars","vars": (0..n).map(|i| i64::from(first+i)+1).collect::<Vec<_>>()}));
            }
            "fresh" => {
                col = Col::default();
                tr.ev(json!({"e":"fresh"}));
            }
            "checkpoint" => {
                let r = guard(|| e.checkpoint());
                let (rs, m) = match r {
                    Ok(Ok(())) => ("ok", String::new()),
                    Ok(Err(m)) => ("err", m.replace(['"', '\\', '\n'], " ")),
                    Err(m) => ("panic", m),
                };
                tr.ev(json!({"e":"checkpoint","r":rs,"msg":m}));
                if rs != "ok" {
                    return;
                }
            }
            "next" => {
                let v = us(&o["v"]);
                let r = guard(|| (e.next_higher(v), e.next_lower(v), e.coarse_ub(v), e.coarse_lb(v)));
                match r {
                    Ok((h, l, cu, cl)) => tr.ev(json!({"e":"next","r":"ok","v":bn(v),"has":h.is_some(),
                        "hi":bn(h.unwrap_or(0)),"lo":bn(l.unwrap_or(0)),"cu":bn(cu),"cl":bn(cl)})),
                    Err(m) => {
                        tr.ev(json!({"e":"next","r":"panic","msg":m,"v":bn(v)}));
                        return;
                    }
                }
            }
            "prec" => {
                let d = us(&o["d"]);
                let r = guard(|| e.dpw().unwrap().set_precision(d));
                let rs = match &r {
                    Ok(Ok(())) => "ok",
                    Ok(Err(PrecisionError::NotPow2)) => "notpow2",
                    Ok(Err(PrecisionError::PrecisionDecreased)) => "decreased",
                    Err(_) => "panic",
                };
                tr.ev(json!({"e":"prec","d":d,"r":rs}));
                if r.is_err() {
                    return;
                }
            }
            "nextprec" => {
                let r = guard(|| {
                    let d = e.dpw().unwrap();
                    (d.next_precision(), d.is_max_precision())
                });
                match r {
                    Ok((n, m)) => tr.ev(json!({"e":"nextprec","r":"ok","n":n,"max":m})),
                    Err(m) => {
                        tr.ev(json!({"e":"nextprec","r":"panic","msg":m}));
                        return;
                    }
                }
            }
            "limit" => {
                let before = col.cls.len();
                let r = guard(|| e.dpw().unwrap().limit_range(range(o), &mut col).is_ok());
                let aux = aux_vars(&col.cls[before..], nv as u32);
                let sat = if r.is_ok() {
                    sat_per_mask(&col.cls, &ms, &[])
                } else {
                    vec![]
                };
                tr.ev(
                    json!({"e":"limit","r": match r {Ok(true)=>"ok",Ok(false)=>"oom",Err(_)=>"panic"},
                    "a":jb(&o["a"]),"b":jb(&o["b"]),"ncl":col.cls.len()-before,"aux":aux,"sat":sat}),
                );
                if r.is_err() {
                    return;
                }
            }
            _ => panic!("harness: unknown op {op}"),
        }
    }
}

fn main() {
    main_loop(run);
}
