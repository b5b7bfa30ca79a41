//! Replays histories of C-API calls on the library built from /repo/capi
use serde_json::{json, Value};
use std::ffi::{c_char, c_int, c_void, CString};
use vtcore::*;

extern "C" {
    fn dlopen(name: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}
type H = *mut c_void;
type Cb = extern "C" fn(c_int, *mut c_void);
const MAGIC: u64 = 0x5eed_ca11_ab1e_0001;

/// What a callback gets as its data pointer
struct Data {
    magic: u64,
    idx: usize,
    lits: Vec<c_int>,
}
extern "C" fn collect(l: c_int, d: *mut c_void) {
    let d = unsafe { &mut *d.cast::<Data>() };
    d.lits.push(l);
}

struct Lib(*mut c_void);
impl Lib {
    fn open() -> Self {
        let p = CString::new(std::env::var("VT_CAPI").expect("harness: VT_CAPI")).unwrap();
        let l = unsafe { dlopen(p.as_ptr(), 2) };
        assert!(!l.is_null(), "harness: cannot load the C-API");
        Lib(l)
    }
    fn sym(&self, ty: &str, f: &str) -> *mut c_void {
        let n = CString::new(format!("{ty}_{f}")).unwrap();
        let s = unsafe { dlsym(self.0, n.as_ptr()) };
        assert!(!s.is_null(), "harness: no symbol {ty}_{f}");
        s
    }
}
macro_rules! call {
    ($lib:expr, $ty:expr, $f:expr, ($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        let p = $lib.sym($ty, $f);
        let f: unsafe extern "C" fn($($t),*) -> $r = unsafe { std::mem::transmute(p) };
        unsafe { f($($a),*) }
    }};
}
fn code(c: c_int) -> &'static str {
    match c {
        0 => "ok",
        1 => "notenc",
        2 => "unsat",
        3 => "state",
        4 => "litinv",
        5 => "notpow2",
        6 => "decreased",
        _ => "unknown",
    }
}
fn cname(ty: &str) -> &str {
    match ty {
        "adder" => "bin_adder",
        t => t,
    }
}
fn is_amo(ty: &str) -> bool {
    !["tot", "gte", "adder", "dpw"].contains(&ty)
}

struct Handle {
    ty: String,
    h: H,
    cls: Vec<Vec<i64>>,
    data: Box<Data>,
}

/// Splits what the callback got into clauses
fn take(h: &mut Handle, i: usize) -> (Vec<Vec<i64>>, bool, bool) {
    let ok = h.data.magic == MAGIC && h.data.idx == i;
    let mut out = vec![];
    let mut cur = vec![];
    for l in std::mem::take(&mut h.data.lits) {
        if l == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(i64::from(l));
        }
    }
    (out, cur.is_empty(), ok)
}

fn run(sc: &Value, tr: &mut Tracer) {
    let lib = Lib::open();
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms = masks(nv);
    tr.ev(json!({"e":"new","nv":nv,"masks":ms}));
    let mut used = nv as u32;
    let mut hs: Vec<Handle> = vec![];
    let cb: Cb = collect;
    for o in sc["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        let i = o["h"].as_u64().unwrap_or(0) as usize;
        tr.flush();
        if op == "make" {
            let ty = o["ty"].as_str().unwrap();
            let h = call!(lib, cname(ty), "new", () -> H,);
            let data = Box::new(Data {
                magic: MAGIC,
                idx: hs.len(),
                lits: vec![],
            });
            hs.push(Handle {
                ty: ty.into(),
                h,
                cls: vec![],
                data,
            });
            tr.ev(json!({"e":"make","ty":ty}));
            continue;
        }
        if op == "uservars" {
            let u0 = used;
            used += o["n"].as_u64().unwrap() as u32;
            tr.ev(json!({"e":"uservars","u0":u0,"u1":used}));
            continue;
        }
        let ty = hs[i].ty.clone();
        let cn = cname(&ty);
        let h = hs[i].h;
        let dp: *mut c_void = std::ptr::from_mut(hs[i].data.as_mut()).cast();
        let u0 = used;
        match op {
            "add" => {
                let l = o["lit"].as_i64().unwrap() as c_int;
                let w = if o["w"].is_null() { 1 } else { us(&o["w"]) };
                let r = if ty == "tot" || is_amo(&ty) {
                    call!(lib, cn, "add", (H, c_int) -> c_int, h, l)
                } else {
                    call!(lib, cn, "add", (H, c_int, usize) -> c_int, h, l, w)
                };
                let valid = l != 0 && l != c_int::MIN;
                tr.ev(json!({"e":"add","h":i+1,"lit": if valid {l} else {0},"valid":valid,"w":bn(w),"r":code(r)}));
            }
            "reserve" => {
                call!(lib, cn, "reserve", (H, &mut u32) -> (), h, &mut used);
                tr.ev(json!({"e":"call","op":"reserve","h":i+1,"u0":u0,"u1":used,"r":"ok","aux":[],"ncl":0,"term":true,"data":true}));
            }
            "encode" => {
                let mut ev = json!({"e":"call","op":"encode","h":i+1,"u0":u0,"r":"ok"});
                if is_amo(&ty) {
                    call!(lib, cn, "encode", (H, &mut u32, Cb, *mut c_void) -> (), h, &mut used, cb, dp);
                } else {
                    let k = o["k"].as_str().unwrap();
                    let (a, b) = (us(&o["a"]), us(&o["b"]));
                    let f = format!("encode_{k}");
                    call!(lib, cn, &f, (H, usize, usize, &mut u32, Cb, *mut c_void) -> (), h, a, b, &mut used, cb, dp);
                    ev["k"] = json!(k);
                    ev["chg"] = json!(true);
                    ev["a"] = json!({"t":"i","v":bn(a)});
                    ev["b"] = json!({"t":"i","v":bn(b)});
                }
                let (cls, term, data) = take(&mut hs[i], i);
                ev["u1"] = json!(used);
                ev["aux"] = json!(aux_vars(&cls, nv as u32));
                ev["ncl"] = json!(cls.len());
                ev["term"] = json!(term);
                ev["data"] = json!(data);
                hs[i].cls.extend(cls);
                let sat = sat_per_mask(&hs[i].cls, &ms, &[]);
                if is_amo(&ty) {
                    ev["sat"] = json!(sat);
                    tr.ev(ev);
                } else {
                    tr.ev(ev);
                    tr.ev(json!({"e":"call","op":"free","h":i+1,"u0":used,"u1":used,"term":true,"data":true,"aux":[],"sat":sat}));
                }
            }
            "enforce" | "harden" => {
                let k = o["k"].as_str().unwrap();
                let b = us(&o["b"]);
                let f = format!("enforce_{k}");
                let mut ass: Vec<i64> = vec![];
                let r;
                let (mut data, mut nass) = (true, 0);
                if ty == "tot" {
                    let mut a: c_int = 0x7bad_0000;
                    r = call!(lib, cn, &f, (H, usize, &mut c_int) -> c_int, h, b, &mut a);
                    if r == 0 && a == 0x7bad_0000 {
                        nass = 2;
                    } else if a != 0x7bad_0000 && a != 0 {
                        ass.push(i64::from(a));
                        nass = 1;
                    }
                } else {
                    r = call!(lib, cn, &f, (H, usize, Cb, *mut c_void) -> c_int, h, b, cb, dp);
                    data = hs[i].data.magic == MAGIC && hs[i].data.idx == i;
                    ass = std::mem::take(&mut hs[i].data.lits)
                        .into_iter()
                        .map(i64::from)
                        .collect();
                    nass = ass.len();
                }
                let term = !ass.contains(&0);
                let sat = if r == 0 && term {
                    sat_per_mask(&hs[i].cls, &ms, &ass)
                } else {
                    vec![]
                };
                tr.ev(
                    json!({"e":"enf","op":op,"h":i+1,"u0":u0,"u1":used,"k":k,"b":bn(b),"r":code(r),"nass":nass,
                    "aux":aux_vars(&[ass.clone()], nv as u32),"sat":sat,"term":term,"data":data}),
                );
                if op == "harden" && r == 0 {
                    hs[i].cls.extend(ass.iter().map(|a| vec![*a]));
                }
            }
            "prec" => {
                let d = us(&o["d"]);
                let r = call!(lib, cn, "set_precision", (H, usize) -> c_int, h, d);
                tr.ev(json!({"e":"call","op":"prec","h":i+1,"u0":u0,"u1":used,"aux":[],"term":true,"data":true,"d":d,"r":code(r)}));
            }
            "nextprec" => {
                let n = call!(lib, cn, "next_precision", (H) -> usize, h);
                let m = call!(lib, cn, "is_max_precision", (H) -> bool, h);
                tr.ev(json!({"e":"call","op":"nextprec","h":i+1,"u0":u0,"u1":used,"aux":[],"term":true,"data":true,"r":"ok","n":n,"max":m}));
            }
            "coarse" => {
                let v = us(&o["v"]);
                let c = call!(lib, cn, "coarse_ub", (H, usize) -> usize, h, v);
                tr.ev(json!({"e":"coarse","h":i+1,"v":bn(v),"cu":bn(c)}));
            }
            "limit" => {
                let (a, b) = (us(&o["a"]), us(&o["b"]));
                call!(lib, cn, "limit_range", (H, usize, usize, Cb, *mut c_void) -> (), h, a, b, cb, dp);
                let (cls, term, data) = take(&mut hs[i], i);
                let (aux, ncl) = (aux_vars(&cls, nv as u32), cls.len());
                hs[i].cls.extend(cls);
                let sat = sat_per_mask(&hs[i].cls, &ms, &[]);
                tr.ev(json!({"e":"call","op":"limit","h":i+1,"u0":u0,"u1":used,"r":"ok","a":{"t":"i","v":bn(a)},"b":{"t":"i","v":bn(b)},
                    "ncl":ncl,"aux":aux,"sat":sat,"term":term,"data":data}));
            }
            "drop" => {
                call!(lib, cn, "drop", (H) -> (), h);
                tr.ev(json!({"e":"drop","h":i+1}));
            }
            _ => panic!("harness: unknown op {op}"),
        }
    }
}

fn main() {
    main_loop(run);
}
