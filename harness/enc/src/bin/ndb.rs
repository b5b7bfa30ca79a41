//! Replays histories on the totalizer database
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::encodings::CollectClauses;
use rustsat::types::{Assignment, Clause, Lit};
use serde_json::{json, Value};
use vtcore::*;

/// Collector that runs out of memory after a number of clauses
struct Limited<'a> {
    col: &'a mut Vec<Vec<i64>>,
    left: usize,
}
impl CollectClauses for Limited<'_> {
    fn n_clauses(&self) -> usize {
        self.col.len()
    }
    fn extend_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        for c in it {
            if self.left == 0 {
                return Err(rustsat::OutOfMemory::TryReserve(
                    Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err(),
                ));
            }
            self.left -= 1;
            self.col.push(icl(&c));
        }
        Ok(())
    }
}
fn sem(v: &Value) -> Semantics {
    match v.as_str().unwrap() {
        "if" => Semantics::If,
        "only" => Semantics::OnlyIf,
        "iff" => Semantics::IfAndOnlyIf,
        x => panic!("harness semantics {x}"),
    }
}
fn assignment(m: &[u8]) -> Assignment {
    m.iter()
        .enumerate()
        .map(|(i, b)| mklit(if *b == 1 { i as i64 + 1 } else { -(i as i64 + 1) }))
        .collect()
}

struct Run {
    db: Db,
    h: Vec<Option<NodeId>>,
    cls: Vec<Vec<i64>>,
    cif: usize,
    conly: usize,
    vm: Vm,
    masks: Vec<Vec<u8>>,
}
impl Run {
    fn id(&self, v: &Value) -> NodeId {
        self.h[us(v)].expect("harness: dead handle")
    }
    fn con(&self, c: &Value) -> NodeCon {
        let (id, off, mul, lim) = (self.id(&c["n"]), us(&c["off"]), us(&c["mul"]), us(&c["lim"]));
        if lim == 1 {
            NodeCon::single(id, off + 1, mul)
        } else if lim > 0 {
            NodeCon::limited(id, off, lim, mul)
        } else if off > 0 {
            NodeCon::offset_weighted(id, off, mul)
        } else if mul > 1 {
            NodeCon::weighted(id, mul)
        } else {
            NodeCon::full(id)
        }
    }
    fn cons(&self, v: &Value) -> Vec<NodeCon> {
        v.as_array().unwrap().iter().map(|c| self.con(c)).collect()
    }
    /// the length limit is only observable through the largest transmitted value
    fn jcon(&self, c: NodeCon) -> Value {
        let big = c.map(1_000_000) / c.multiplier();
        json!({"id": c.id.0, "off": c.offset(), "div": c.divisor(), "mul": c.multiplier(), "lim": if big < 900_000 { big } else { 0 }})
    }
    fn outs(&self) -> Vec<Value> {
        let mut out = vec![];
        for (i, id) in self.h.iter().enumerate() {
            let Some(id) = id else { continue };
            let n = &self.db[*id];
            if n.is_leaf() {
                continue;
            }
            for v in n.vals(..) {
                if let Some(l) = n.lit(v) {
                    out.push(json!([
                        i + 1,
                        v,
                        ilit(*l),
                        u8::from(n.semantics_if(v)),
                        u8::from(n.semantics_only_if(v))
                    ]));
                }
            }
        }
        out
    }
    fn refs(&self) -> Vec<Vec<usize>> {
        self.db
            .iter()
            .map(|n| match (n.left(), n.right()) {
                (Some(l), Some(r)) => vec![l.id.0, r.id.0],
                (None, None) => vec![],
                _ => vec![999_999],
            })
            .collect()
    }
    fn ids(&self) -> Vec<i64> {
        self.h.iter().map(|h| h.map_or(-1, |h| h.0 as i64)).collect()
    }
    fn news(&mut self) -> Vec<i64> {
        self.vm.take_new().iter().map(|v| i64::from(*v) + 1).collect()
    }
    fn step(&mut self, o: &Value, e: &mut Value) {
        match o["op"].as_str().unwrap() {
            "leaf" => {
                let id = self.db.insert(Node::leaf(mklit(o["lit"].as_i64().unwrap())));
                self.h.push(Some(id));
                e["id"] = json!(id.0);
            }
            "dummy" => {
                let id = self.db.insert(Node::Dummy);
                self.h.push(Some(id));
                e["id"] = json!(id.0);
            }
            "internal" => {
                let (l, r) = (self.con(&o["l"]), self.con(&o["r"]));
                let n = Node::internal(l, r, &self.db);
                let id = self.db.insert(n);
                self.h.push(Some(id));
                e["id"] = json!(id.0);
            }
            "tree" => {
                let id = self.db.lit_tree(lits(&o["lits"]));
                if let Some(id) = id {
                    self.h.push(Some(id));
                }
                e["id"] = json!(id.map_or(-1, |i| i.0 as i64));
            }
            "wtree" => {
                let l: Vec<(Lit, usize)> = o["lits"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (mklit(x[0].as_i64().unwrap()), us(&x[1])))
                    .collect();
                let c = self.db.weighted_lit_tree(&l).expect("non-empty");
                self.h.push(Some(c.id));
                e["con"] = self.jcon(c);
            }
            "merge" => {
                let mut c = self.cons(&o["cons"]);
                let r = match o["kind"].as_str().unwrap() {
                    "merge" => self.db.merge(&mut c),
                    "balanced" => self.db.merge_balanced(&c),
                    _ => self.db.merge_thorough(&mut c),
                };
                if let Some(c) = r {
                    self.h.push(Some(c.id));
                    e["con"] = self.jcon(c);
                    e["none"] = json!(0);
                } else {
                    e["none"] = json!(1);
                }
            }
            "obs" => {
                let n = &self.db[self.id(&o["h"])];
                let (a, b) = (us(&o["a"]), us(&o["b"]));
                e["max"] = json!(n.max_val());
                e["nout"] = json!(n.len());
                e["vals"] = json!(n.vals(..).collect::<Vec<_>>());
                e["ex"] = json!(n.vals(a..b).collect::<Vec<_>>());
                e["inc"] = json!(n.vals(a..=b).collect::<Vec<_>>());
                e["from"] = json!(n.vals(a..).collect::<Vec<_>>());
                e["to"] = json!(n.vals(..b).rev().collect::<Vec<_>>());
                e["xx"] = json!(n
                    .vals((std::ops::Bound::Excluded(a), std::ops::Bound::Included(b)))
                    .collect::<Vec<_>>());
                e["dep"] = json!(n.depth());
                e["nl"] = json!(n.n_leaves());
                e["leaf"] = json!(u8::from(n.is_leaf()));
            }
            "conlen" => {
                let c = self.con(&o["c"]);
                e["n"] = json!(self.db.con_len(c));
            }
            "def" => {
                let (id, val) = (self.id(&o["h"]), us(&o["val"]));
                let mut col = Limited {
                    col: &mut self.cls,
                    left: o["cap"].as_u64().map_or(usize::MAX, |c| c as usize),
                };
                let r = if o["w"] == json!(1) {
                    self.db.define_weighted(id, val, &mut col, &mut self.vm)
                } else {
                    self.db
                        .define_unweighted(id, val - 1, sem(&o["sem"]), &mut col, &mut self.vm)
                        .map(Some)
                };
                e["r"] = json!(match r {
                    Ok(Some(l)) => ilit(l),
                    Ok(None) => 0,
                    Err(_) => 99_999,
                });
                e["new"] = json!(self.news());
                e["outs"] = json!(self.outs());
            }
            "reserve" => {
                let c = self.con(&o["c"]);
                self.db.reserve_vars(c, &mut self.vm);
                e["new"] = json!(self.news());
                e["outs"] = json!(self.outs());
            }
            "nreserve" => {
                let id = self.id(&o["h"]);
                let (a, b) = (us(&o["a"]), us(&o["b"]));
                self.db[id].reserve_vars(a..=b, &mut self.vm);
                e["new"] = json!(self.news());
                e["outs"] = json!(self.outs());
            }
            "reset" => {
                self.db.reset_encoded(sem(&o["sem"]));
                if o["sem"] != json!("only") {
                    self.cif = self.cls.len();
                }
                if o["sem"] != json!("if") {
                    self.conly = self.cls.len();
                }
                e["outs"] = json!(self.outs());
            }
            "resetv" => {
                self.db.reset_vars();
                self.cls.clear();
                self.cif = 0;
                self.conly = 0;
                e["outs"] = json!(self.outs());
            }
            "value" => {
                let id = self.id(&o["h"]);
                let v: Vec<usize> = self.masks.iter().map(|m| self.db.value(id, &assignment(m))).collect();
                e["v"] = json!(v);
            }
            "leaves" => {
                let id = self.id(&o["h"]);
                let l: Vec<Value> = self.db.leaf_iter(id).lits().map(|(l, w)| json!([ilit(l), w])).collect();
                e["l"] = json!(l);
            }
            "check" => {
                // what the emitted clauses say about every output that is marked as defined
                let outs = self.outs();
                let mut tab = vec![];
                let mut seen = std::collections::HashSet::new();
                for x in &outs {
                    let l = x[2].as_i64().unwrap();
                    if !seen.insert(l) {
                        continue;
                    }
                    let i = if x[3] == json!(1) {
                        sat_per_mask(&self.cls[self.cif..], &self.masks, &[-l])
                    } else {
                        vec![]
                    };
                    let n = if x[4] == json!(1) {
                        sat_per_mask(&self.cls[self.conly..], &self.masks, &[l])
                    } else {
                        vec![]
                    };
                    tab.push(json!({"h": x[0], "v": x[1], "i": i, "n": n}));
                }
                e["tab"] = json!(tab);
                // one strict extension for all roots together
                let mut ext = vec![];
                let mut sat = vec![];
                let mut dp = dpll::Dpll::new(&self.cls);
                for m in &self.masks {
                    let a = assignment(m);
                    let mut x: Vec<i64> = vec![];
                    for h in o["roots"].as_array().unwrap() {
                        x.extend(self.db.strictly_extend_assignment(self.id(h), &a).map(ilit));
                    }
                    x.sort_unstable();
                    x.dedup();
                    let mut u = mask_units(m);
                    u.extend_from_slice(&x);
                    sat.push(u8::from(dp.solve(&u).is_some()));
                    ext.push(x);
                }
                e["ext"] = json!(ext);
                e["sat"] = json!(sat);
                e["outs"] = json!(outs);
            }
            "drain" => {
                let (a, b) = (us(&o["a"]), us(&o["b"]));
                let len = self.db.len();
                let (a, b) = match o["kind"].as_str().unwrap() {
                    "tail" => (len - 1 - a % len, len - 1),
                    "between" => ((self.id(&o["x"]).0 + 1).min(len - 1), self.id(&o["y"]).0),
                    _ => (a % len, b % len),
                };
                let (a, b) = (a.min(b), a.max(b));
                e["before"] = json!(self.refs());
                let r = match o["kind"].as_str().unwrap() {
                    "ex" => self.db.drain(NodeId(a)..NodeId(b + 1)).map(|d| d.count()),
                    "from" => self.db.drain(NodeId(a)..).map(|d| d.count()),
                    _ => self.db.drain(NodeId(a)..=NodeId(b)).map(|d| d.count()),
                };
                let b = if o["kind"] == json!("from") { len - 1 } else { b };
                e["a"] = json!(a);
                e["b"] = json!(b);
                match r {
                    Ok(n) => {
                        e["n"] = json!(n);
                        e["x"] = json!([]);
                        for h in &mut self.h {
                            if let Some(i) = h {
                                if i.0 >= a && i.0 <= b {
                                    *h = None;
                                } else if i.0 > b {
                                    *h = Some(NodeId(i.0 - (b - a + 1)));
                                }
                            }
                        }
                    }
                    Err(x) => {
                        e["n"] = json!(-1);
                        e["x"] = json!([x.referencing.0, x.referenced.0]);
                    }
                }
                e["after"] = json!(self.refs());
                e["ids"] = json!(self.ids());
                e["outs"] = json!(self.outs());
            }
            x => panic!("harness op {x}"),
        }
    }
}

fn run(sc: &Value, tr: &mut Tracer) {
    let nv = us(&sc["nv"]);
    let mut r = Run {
        db: Db::default(),
        h: vec![],
        cls: vec![],
        cif: 0,
        conly: 0,
        vm: Vm::new(nv as u32, us(&sc["gap"]) as u32),
        masks: masks(nv),
    };
    tr.ev(json!({"e":"new","masks":r.masks}));
    let h = |o: &Value| -> Vec<usize> { o.as_array().unwrap().iter().map(us).collect() };
    for o in sc["ops"].as_array().unwrap() {
        // operations on handles that a drain removed are skipped
        let used: Vec<usize> = o["uses"].as_array().map(|_| h(&o["uses"])).unwrap_or_default();
        if used.iter().any(|u| r.h[*u].is_none()) || (o["op"] == json!("drain") && r.db.is_empty()) {
            if o["push"] == json!(1) {
                r.h.push(None);
                tr.ev(json!({"e":"skip","push":1}));
            }
            continue;
        }
        let mut e = json!({"e": o["op"], "o": o});
        let (nh, ncl) = (r.h.len(), r.cls.len());
        let res = guard(|| {
            r.step(o, &mut e);
            if r.h.len() > nh {
                e["dep"] = json!(r.db[r.h[nh].unwrap()].depth());
            }
        });
        match res {
            Ok(()) => {
                e["len"] = json!(r.db.len());
                e["ncl"] = json!(r.cls.len().saturating_sub(ncl));
                e["lv"] = json!(r
                    .db
                    .iter()
                    .enumerate()
                    .filter(|(_, n)| n.is_leaf())
                    .map(|(i, n)| vec![i as i64, ilit(n[1])])
                    .collect::<Vec<_>>());
                e["dm"] = json!(r
                    .db
                    .iter()
                    .enumerate()
                    .filter(|(_, n)| matches!(n, Node::Dummy))
                    .map(|(i, _)| i)
                    .collect::<Vec<_>>());
                e["iter"] = json!(r.db.iter().count());
                e["empty"] = json!(u8::from(r.db.is_empty()));
                tr.ev(e);
            }
            Err(m) => {
                assert!(!m.contains("harness"), "{m}");
                tr.ev(json!({"e":"panic","op":o["op"],"o":o,"msg":m}));
                return;
            }
        }
    }
}
fn main() {
    main_loop(run)
}
