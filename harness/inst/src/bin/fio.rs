//! Reads and writes instance files: parsing of generated files, and writing followed by reading
use inst::sat::*;
use rustsat::instances::fio::dimacs::{self, CnfLine, McnfLine, WcnfLine};
use rustsat::instances::fio::opb;
use rustsat::instances::{BasicVarManager, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::constraints::PbConstraint;
use rustsat::types::{Clause, Lit, Var};
use serde_json::{json, Value};
use vtcore::*;

type B = BasicVarManager;
enum I {
    S(SatInstance<B>),
    O(OptInstance<B>),
    M(MultiOptInstance<B>),
}
impl I {
    fn split(self) -> (SatInstance<B>, Vec<Objective>) {
        match self {
            I::S(i) => (i, vec![]),
            I::O(i) => {
                let (c, o) = i.decompose();
                (c, vec![o])
            }
            I::M(i) => i.decompose(),
        }
    }
    fn join(ty: &str, c: SatInstance<B>, mut o: Vec<Objective>) -> I {
        match ty {
            "S" => I::S(c),
            "O" => I::O(OptInstance::compose(c, o.remove(0))),
            _ => I::M(MultiOptInstance::compose(c, o)),
        }
    }
}
fn big(x: u128) -> Value {
    bn(usize::try_from(x).unwrap_or(usize::MAX))
}
fn tval(m: &[u8], l: Lit) -> bool {
    m.get(l.vidx()).is_some_and(|x| *x == 1) != l.is_neg()
}
/// A number as a pair of naturals
fn signed(x: i128) -> Value {
    json!([big(x.max(0) as u128), big((-x).max(0) as u128)])
}
fn obj_cost(o: &opb::Objective, m: &[u8]) -> Value {
    signed(
        o.terms
            .iter()
            .filter(|t| tval(m, t.1))
            .map(|t| t.0 as i128)
            .sum::<i128>()
            + o.offset as i128,
    )
}
fn pb_item(c: &PbConstraint, ms: &[Vec<u8>]) -> Value {
    let sat: Vec<u8> = ms
        .iter()
        .map(|m| {
            let s: i128 = c.iter().map(|(l, w)| if tval(m, *l) { *w as i128 } else { 0 }).sum();
            let b = c.bound() as i128;
            u8::from(match c {
                PbConstraint::Ub(_) => s <= b,
                PbConstraint::Lb(_) => s >= b,
                PbConstraint::Eq(_) => s == b,
            })
        })
        .collect();
    json!({"k":"pb","sat":sat})
}
fn wcnf_item(d: dimacs::WcnfData) -> Value {
    match d {
        dimacs::WcnfData::HardClause(c) => json!({"k":"hard","l":icl(&c)}),
        dimacs::WcnfData::SoftClause { weight, clause } => json!({"k":"soft","w":bn(weight),"o":1,"l":icl(&clause)}),
        dimacs::WcnfData::Comment(_) => json!({"k":"cmt"}),
    }
}
fn cnf_item(d: dimacs::CnfData) -> Value {
    match d {
        dimacs::CnfData::Clause(c) => json!({"k":"hard","l":icl(&c)}),
        dimacs::CnfData::Comment(_) => json!({"k":"cmt"}),
    }
}
/// Collects the items up to the first error; whether the iterator ends within the limit is
/// checked by exhausting it. Errors are also rendered.
struct Run {
    items: Vec<Value>,
    err: bool,
    left: usize,
}
impl Run {
    fn all<T>(&mut self, it: impl Iterator<Item = Result<T, rustsat::instances::fio::Error>>, f: impl Fn(T) -> Value) {
        for x in it {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            match x {
                Ok(x) => {
                    let v = f(x);
                    if !self.err {
                        self.items.push(v);
                    }
                }
                Err(e) => self.error(&e),
            }
        }
    }
    fn error(&mut self, e: &rustsat::instances::fio::Error) {
        let _ = e.to_string();
        if !self.err {
            self.items.push(json!({"k":"err"}));
        }
        self.err = true;
    }
}
fn items(fmt: &str, text: &[u8], first: u32, ms: &[Vec<u8>], hdr: bool) -> Run {
    let mut r = Run {
        items: vec![],
        err: false,
        left: text.len() + 3,
    };
    let rd = std::io::BufReader::new(text);
    match fmt {
        "cnf" => {
            let mut p = dimacs::Parser::<dimacs::CnfHeader, _>::new(rd);
            if hdr {
                let mut h = Run { items: vec![], err: false, left: text.len() + 3 };
                h.all(&mut p, |_| Value::Null);
                r.left = r.left.min(h.left + 1);
                // a malformed header ends the items
                if h.err {
                    r.items = vec![json!({"k":"err"})];
                    let _ = p.forward_to_body();
                    return r;
                }
            }
            match p.forward_to_body() {
                Ok(h) => r.all(h.body_parser, cnf_item),
                Err(e) => r.error(&e),
            }
        }
        "wcnf" => {
            let mut p = dimacs::Parser::<dimacs::WcnfHeader, _>::new(rd);
            if hdr {
                let mut h = Run { items: vec![], err: false, left: text.len() + 3 };
                h.all(&mut p, |_| Value::Null);
                r.left = r.left.min(h.left + 1);
                // a malformed header ends the items
                if h.err {
                    r.items = vec![json!({"k":"err"})];
                    let _ = p.forward_to_body();
                    return r;
                }
            }
            match p.forward_to_body() {
                Ok(dimacs::WcnfHeaderData::Pre22 { body_parser, .. }) => r.all(body_parser, wcnf_item),
                Ok(dimacs::WcnfHeaderData::Post22(p)) => r.all(p, wcnf_item),
                Ok(dimacs::WcnfHeaderData::Empty(_)) => (),
                Err(e) => r.error(&e),
            }
        }
        "mcnf" => r.all(dimacs::Parser::<dimacs::Mcnf, _>::new(rd), |d| match d {
            dimacs::McnfData::HardClause(c) => json!({"k":"hard","l":icl(&c)}),
            dimacs::McnfData::SoftClause { obj_idx, weight, clause } => json!({"k":"soft","w":bn(weight),"o":obj_idx.min(1 << 30),"l":icl(&clause)}),
            dimacs::McnfData::Comment(_) => json!({"k":"cmt"}),
        }),
        _ => r.all(opb::Parser::new(rd, opb::Options { first_var_idx: first, no_negated_lits: true }), |d| match d {
            opb::Data::Cmt(_) => json!({"k":"cmt"}),
            opb::Data::Constr(c) => pb_item(&c, ms),
            opb::Data::Obj(o) => {
                json!({"k":"obj","max":o.sense == opb::ObjectiveSense::Maximize,"cost":ms.iter().map(|m| obj_cost(&o, m)).collect::<Vec<_>>()})
            }
        }),
    }
    r
}
fn read(fmt: &str, ty: &str, text: &[u8], opts: opb::Options) -> Result<I, rustsat::instances::fio::Error> {
    let rd = std::io::BufReader::new(text);
    Ok(match (fmt == "opb", ty) {
        (false, "S") => I::S(SatInstance::from_dimacs(rd)?),
        (false, "O") => I::O(OptInstance::from_dimacs(rd)?),
        (false, _) => I::M(MultiOptInstance::from_dimacs(rd)?),
        (_, "S") => I::S(SatInstance::from_opb(rd, opts)?),
        (_, "O") => I::O(OptInstance::from_opb(rd, opts)?),
        _ => I::M(MultiOptInstance::from_opb(rd, opts)?),
    })
}
fn read_path(fmt: &str, ty: &str, p: &str, opts: opb::Options) -> Result<I, rustsat::instances::fio::Error> {
    Ok(match (fmt == "opb", ty) {
        (false, "S") => I::S(SatInstance::from_dimacs_path(p)?),
        (false, "O") => I::O(OptInstance::from_dimacs_path(p)?),
        (false, _) => I::M(MultiOptInstance::from_dimacs_path(p)?),
        (_, "S") => I::S(SatInstance::from_opb_path(p, opts)?),
        (_, "O") => I::O(OptInstance::from_opb_path(p, opts)?),
        _ => I::M(MultiOptInstance::from_opb_path(p, opts)?),
    })
}
/// Reads a path with the reader, for the formats without a choice of compression
fn objective_costs(o: &Objective, ms: &[Vec<u8>]) -> Vec<i128> {
    ms.iter()
        .map(|m| {
            o.iter_soft_cls()
                .into_iter()
                .filter(|(c, _)| !c.iter().any(|l| tval(m, *l)))
                .map(|x| x.1 as i128)
                .sum::<i128>()
                + o.offset() as i128
        })
        .collect()
}
/// Models, costs, and used variables; nothing for very large variables
fn dump(i: I, ms: &[Vec<u8>], nv: usize) -> Option<(Vec<u8>, Vec<Vec<i128>>, u32)> {
    let (c, objs) = i.split();
    let used = c.n_vars();
    let p = parts(c);
    if vars_of(&p).iter().any(|v| *v > nv as i64)
        || objs.iter().any(|o| {
            o.iter_soft_cls()
                .into_iter()
                .any(|(c, _)| c.iter().any(|l| l.vidx() >= nv))
        })
    {
        return None;
    }
    let ident: Vec<u32> = (0..nv as u32).collect();
    let sat = sat_of(ms, &ident, &p.0, &p.1, &p.2);
    Some((sat, objs.iter().map(|o| objective_costs(o, ms)).collect(), used))
}
fn opts(o: &Value) -> opb::Options {
    opb::Options {
        first_var_idx: o["first"].as_u64().unwrap() as u32,
        no_negated_lits: o["noneg"] == true,
    }
}
/// Builds the instance described by the scenario; weights are multiplied by the scale
fn build(o: &Value, scale: usize) -> I {
    let ty = o["ty"].as_str().unwrap();
    let mut c: SatInstance<B> = SatInstance::new_with_manager(BasicVarManager::from_next_free(Var::new(
        o["nf"].as_u64().unwrap() as u32,
    )));
    // clauses that say nothing, for the size of the file
    let mut x = Lcg(99);
    for _ in 0..o["vol"].as_u64().unwrap_or(0) {
        let mut cl: Vec<Lit> = (0..x.next() >> 61)
            .map(|_| Var::new((x.0 >> 40) as u32 % us(&o["nv"]) as u32).lit(x.next() >> 63 == 1))
            .collect();
        cl.insert((x.next() >> 33) as usize % (cl.len() + 1), Var::new(0).pos_lit());
        cl.insert((x.next() >> 33) as usize % (cl.len() + 1), Var::new(0).neg_lit());
        c.add_clause(cl.into_iter().collect());
    }
    let ident: Vec<u32> = (0..8).collect();
    for x in o["cs"].as_array().unwrap() {
        match mk(&ident, x) {
            Con::Cl(x) => c.add_clause(x),
            Con::Card(x) => c.add_card_constr(x),
            Con::Pb(_) => {
                let t = inst::wlits(&x["l"], &x["w"])
                    .into_iter()
                    .map(|(l, w)| (l, w * scale as isize));
                let b = is(&x["b"]) * scale as isize;
                c.add_pb_constr(match x["op"].as_str().unwrap() {
                    "ub" => PbConstraint::new_ub(t, b),
                    "lb" => PbConstraint::new_lb(t, b),
                    _ => PbConstraint::new_eq(t, b),
                });
            }
        }
    }
    let n = us(&o["n"]);
    let mut objs: Vec<Objective> = vec![Objective::new(); n];
    for s in o["softs"].as_array().unwrap() {
        let cl = Clause::from(lits(&s["c"]).as_slice());
        objs[us(&s["k"])].increase_soft_clause(us(&s["w"]) * scale, cl);
    }
    for (k, ob) in objs.iter_mut().enumerate() {
        ob.increase_offset(is(&o["off"][k]) * scale as isize);
    }
    I::join(ty, c, objs)
}
fn write(i: &I, fmt: &str, op: opb::Options, path: Option<&str>) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    macro_rules! w {
        ($i:expr) => {
            match (fmt == "opb", path) {
                (false, None) => $i.write_dimacs(&mut v).map_err(|e| e.to_string()),
                (false, Some(p)) => $i.write_dimacs_path(p).map_err(|e| e.to_string()),
                (true, None) => $i.write_opb(&mut v, op).map_err(|e| e.to_string()),
                (true, Some(p)) => $i.write_opb_path(p, op).map_err(|e| e.to_string()),
            }
        };
    }
    match i {
        I::S(i) => w!(i)?,
        I::O(i) => w!(i)?,
        I::M(i) => w!(i)?,
    }
    Ok(v)
}
/// Writes through the line interfaces with comments in between
fn write_lines(o: &Value, scale: usize, fmt: &str, op: opb::Options) -> Vec<u8> {
    let ident: Vec<u32> = (0..8).collect();
    let mut v = vec![];
    let cs: Vec<Con> = o["cs"].as_array().unwrap().iter().map(|x| mk(&ident, x)).collect();
    let softs: Vec<(Clause, usize, usize)> = o["softs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| (Clause::from(lits(&s["c"]).as_slice()), us(&s["w"]) * scale, us(&s["k"])))
        .collect();
    let hard = |c: &Con| match c {
        Con::Cl(c) => c.clone(),
        _ => na(),
    };
    match (fmt, o["ty"].as_str().unwrap()) {
        ("opb", _) => {
            let mut ls = vec![opb::FileLine::Comment("comment".into())];
            for k in 0..us(&o["n"]) {
                ls.push(opb::FileLine::Objective(
                    softs
                        .iter()
                        .filter(|s| s.2 == k)
                        .map(|s| (!s.0[0], s.1))
                        .collect::<Vec<(Lit, usize)>>(),
                ));
                ls.push(opb::FileLine::Comment(String::new()));
            }
            for c in cs {
                ls.push(match c {
                    Con::Cl(c) => opb::FileLine::Clause(c),
                    Con::Card(c) => opb::FileLine::Card(c),
                    Con::Pb(c) => opb::FileLine::Pb(c),
                });
                ls.push(opb::FileLine::Comment("1 x1 >= 2;".into()));
            }
            opb::write_opb_lines(&mut v, ls.into_iter(), op).unwrap();
        }
        (_, "S") => {
            let mut ls = vec![
                CnfLine::Comment("comment".into()),
                CnfLine::Header(us(&o["used"]) as u32, cs.len()),
                CnfLine::Comment("x".into()),
            ];
            for c in &cs {
                ls.push(CnfLine::Clause(hard(c)));
                ls.push(CnfLine::Comment("1 0".into()));
            }
            dimacs::write_cnf(&mut v, ls.into_iter()).unwrap();
        }
        (_, "O") => {
            let mut ls = vec![WcnfLine::Comment("comment".into())];
            for s in softs {
                ls.push(WcnfLine::Soft(s.0, s.1));
                ls.push(WcnfLine::Comment("1 0".into()));
            }
            for c in &cs {
                ls.push(WcnfLine::Hard(hard(c)));
                ls.push(WcnfLine::Comment("1 0".into()));
            }
            dimacs::write_wcnf(&mut v, ls.into_iter()).unwrap();
        }
        _ => {
            let mut ls = vec![McnfLine::Comment("comment".into())];
            for s in softs {
                ls.push(McnfLine::Soft(s.0, s.1, s.2));
                ls.push(McnfLine::Comment("1 0".into()));
            }
            for c in &cs {
                ls.push(McnfLine::Hard(hard(c)));
                ls.push(McnfLine::Comment("1 0".into()));
            }
            dimacs::write_mcnf(&mut v, ls.into_iter()).unwrap();
        }
    }
    v
}
fn roundtrip(o: &Value, ms: &[Vec<u8>], nv: usize, dir: &str, ev: &mut impl FnMut(Value)) {
    let scale = us(&o["scale"]);
    let fmt = o["fmt"].as_str().unwrap();
    let ty = o["ty"].as_str().unwrap();
    let op = opts(o);
    let small = |i: I| {
        let Some((sat, costs, used)) = dump(i, ms, nv) else {
            return json!({"sat":[],"costs":[],"used":0});
        };
        let div = |x: i128| {
            if x % scale as i128 == 0 {
                inst::cap(x / scale as i128)
            } else {
                1_999_999_999
            }
        };
        json!({"sat":sat,"costs":costs.into_iter().map(|c| c.into_iter().map(div).collect::<Vec<_>>()).collect::<Vec<_>>(),"used":used})
    };
    let inst = build(o, scale);
    let used = match &inst {
        I::S(i) => i.n_vars(),
        I::O(i) => i.constraints_ref().n_vars(),
        I::M(i) => i.constraints_ref().n_vars(),
    };
    let mut o = o.clone();
    o["used"] = json!(used);
    ev(json!({"e":"build","ty":ty,"n":o["n"],"cs":o["cs"],"softs":o["softs"],"off":o["off"],"used":used}));
    let ext = o["ext"].as_str().unwrap();
    let path = format!("{dir}/rt-{}{ext}", std::process::id());
    let pathopt = (o["path"] == true).then_some(path.as_str());
    let mut cur = inst;
    for round in 0..2 {
        let txt = if o["lines"] == true && round == 0 {
            Ok(write_lines(&o, scale, fmt, op))
        } else {
            write(&cur, fmt, op, pathopt)
        };
        let txt = match txt {
            Ok(t) => {
                ev(json!({"e":"write","fmt":fmt,"ok":true,"lines":o["lines"]}));
                t
            }
            Err(_) => {
                ev(json!({"e":"write","fmt":fmt,"ok":false,"lines":o["lines"]}));
                break;
            }
        };
        let in_file = pathopt.is_some() && !(o["lines"] == true && round == 0);
        let rd = |ty: &str| {
            if in_file {
                read_path(fmt, ty, &path, op)
            } else {
                read(fmt, ty, &txt, op)
            }
        };
        let mut tys = vec![ty];
        if fmt == "opb" && ty != "M" {
            tys.push("M");
        }
        let mut nxt = None;
        for (k, t) in tys.into_iter().enumerate() {
            match rd(t) {
                Ok(i) => {
                    let cp = rd(t).ok();
                    ev(json!({"e":"read","as":t,"fmt":fmt,"ok":true,"d":small(i)}));
                    if k == 0 {
                        nxt = cp;
                    }
                }
                Err(_) => ev(json!({"e":"read","as":t,"fmt":fmt,"ok":false,"d":{"sat":[],"costs":[],"used":0}})),
            }
        }
        let Some(n) = nxt else { break };
        cur = n;
    }
    let _ = std::fs::remove_file(&path);
}
/// Writes the text, after comments of some length, to a file of as many compressed members as asked
/// for, and cuts off its end
fn pack(z: &Value, fmt: &str, text: &[u8], dir: &str) -> String {
    let ext = z["ext"].as_str().unwrap();
    let path = format!("{dir}/zip-{}{ext}", std::process::id());
    let mut all = vec![];
    let mut x = Lcg(us(&z["pad"]) as u64);
    for _ in 0..us(&z["pad"]) {
        all.extend_from_slice(if fmt == "opb" { b"* " } else { b"c " });
        for _ in 0..3 {
            all.extend_from_slice(format!("{:016x}", x.next()).as_bytes());
        }
        all.push(b'\n');
    }
    all.extend_from_slice(text);
    let n = us(&z["parts"]);
    let mut bytes = vec![];
    for i in 0..n {
        // members of different lengths, also empty ones
        let (a, b) = (all.len() * i * i / (n * n), all.len() * (i + 1) * (i + 1) / (n * n));
        {
            let mut w = rustsat::instances::fio::open_compressed_uncompressed_write(&path).expect("harness: write");
            std::io::Write::write_all(&mut w, &all[a..b]).expect("harness: write");
        }
        bytes.extend(std::fs::read(&path).expect("harness: read"));
    }
    bytes.truncate(bytes.len() - us(&z["cut"]).min(bytes.len() - 1));
    std::fs::write(&path, bytes).expect("harness: write");
    path
}
struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 {
        self.0 = self
            .0
            .wrapping_mul(6_364_136_223_846_793_005)
            .wrapping_add(1_442_695_040_888_963_407);
        self.0
    }
}
fn main() {
    let dir = std::env::args()
        .nth(2)
        .and_then(|p| {
            std::path::Path::new(&p)
                .parent()
                .map(|p| p.to_string_lossy().into_owned())
        })
        .unwrap();
    main_loop(|sc, tr| {
        let nv = us(&sc["nv"]);
        let ms = masks(nv);
        tr.ev(json!({"e":"new","masks":ms}));
        let kind = sc["kind"].as_str().unwrap();
        if kind == "rt" {
            let mut evs = vec![];
            let r = guard(|| roundtrip(sc, &ms, nv, &dir, &mut |e| evs.push(e)));
            for e in evs {
                tr.ev(e);
            }
            if let Err(e) = r {
                assert!(!e.contains("harness"), "{e}");
                tr.ev(json!({"e":"panic","op":sc["fmt"],"msg":e}));
            }
            return;
        }
        if kind == "raw" {
            let bytes: Vec<u8> = sc["bytes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap() as u8)
                .collect();
            for fmt in ["cnf", "wcnf", "mcnf", "opb"] {
                let r = guard(|| {
                    let mut term = true;
                    for hdr in [false, true] {
                        term &= items(fmt, &bytes, 1, &ms, hdr).left > 0;
                    }
                    for ty in ["S", "O", "M"] {
                        if let Err(e) = read(fmt, ty, &bytes, opb::Options::default()) {
                            let _ = e.to_string();
                        }
                    }
                    if let Ok(s) = std::str::from_utf8(&bytes) {
                        let _ = dimacs::parse_lit(s);
                        let _ = opb::parse_lit(s, opb::Options::default());
                    }
                    term
                });
                tr.ev(match r {
                    Ok(term) => json!({"e":"raw","fmt":fmt,"term":term}),
                    Err(e) => json!({"e":"panic","op":fmt,"msg":e}),
                });
            }
            return;
        }
        let fmt = sc["fmt"].as_str().unwrap();
        let first = us(&sc["first"]) as u32;
        let text = sc["text"].as_str().unwrap().as_bytes();
        if kind == "lit" {
            let t = sc["text"].as_str().unwrap();
            let r = guard(|| match fmt {
                "opb" => opb::parse_lit(
                    t,
                    opb::Options {
                        first_var_idx: first,
                        no_negated_lits: true,
                    },
                )
                .map(ilit)
                .map_err(|e| e.to_string()),
                _ => dimacs::parse_lit(t).map(ilit).map_err(|e| e.to_string()),
            });
            tr.ev(match r {
                Ok(r) => {
                    json!({"e":"lit","fmt":fmt,"tok":sc["tok"],"r":r.unwrap_or(0).clamp(-2_147_483_647, 2_147_483_647)})
                }
                Err(e) => json!({"e":"panic","op":"parse_lit","msg":e}),
            });
            return;
        }
        let zip = sc["zip"].is_object().then(|| pack(&sc["zip"], fmt, text, &dir));
        for hdr in [false, true] {
            if zip.is_some() {
                break;
            }
            if hdr && (fmt == "mcnf" || fmt == "opb" || sc["hdr"] != true) {
                continue;
            }
            match guard(|| items(fmt, text, first, &ms, hdr)) {
                Ok(r) => tr.ev(json!({"e":"items","fmt":fmt,"lines":sc["lines"],"items":r.items,"term":r.left > 0})),
                Err(e) => tr.ev(json!({"e":"panic","op":fmt,"msg":e})),
            }
        }
        let tys: &[&str] = match fmt {
            "cnf" => &["S"],
            "wcnf" => &["O"],
            "mcnf" => &["M"],
            _ => &["S", "O", "M"],
        };
        for ty in tys {
            let opts = opb::Options {
                first_var_idx: first,
                no_negated_lits: true,
            };
            let r = guard(|| {
                match &zip {
                    Some(p) => read_path(fmt, ty, p, opts),
                    None => read(fmt, ty, text, opts),
                }
                .map(|i| dump(i, &ms, nv))
                .map_err(|e| e.to_string())
            });
            if zip.is_some() && us(&sc["zip"]["cut"]) > 0 {
                tr.ev(json!({"e":"cut","fmt":fmt,"ext":sc["zip"]["ext"],"ok":r.is_ok_and(|r| r.is_ok())}));
                continue;
            }
            tr.ev(match r {
                Ok(Ok(Some((sat, costs, used)))) => json!({"e":"inst","fmt":fmt,"ty":ty,"lines":sc["lines"],"err":false,"big":false,"sat":sat,"used":used,
                    "costs":costs.into_iter().map(|c| c.into_iter().map(signed).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                Ok(Ok(None)) => json!({"e":"inst","fmt":fmt,"ty":ty,"lines":sc["lines"],"err":false,"big":true}),
                Ok(Err(_)) => json!({"e":"inst","fmt":fmt,"ty":ty,"lines":sc["lines"],"err":true,"big":false}),
                Err(e) => json!({"e":"panic","op":format!("{fmt} as {ty}"),"msg":e}),
            });
        }
        if let Some(p) = zip {
            std::fs::remove_file(p).expect("harness: remove");
        }
    });
}
