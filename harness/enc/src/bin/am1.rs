//! Replays histories on the at-most-one encodings
use rustsat::encodings::am1::{Bimander, Bitwise, Commander, Encode, Ladder, Pairwise, TwoProduct};
use rustsat::encodings::{EncodeStats, IterInputs};
use rustsat::types::Lit;
use serde_json::{json, Value};
use vtcore::*;

trait Am1 {
    fn ext(&mut self, l: &[Lit]);
    fn enc(&mut self, c: &mut Col, vm: &mut Vm) -> bool;
    fn st(&self) -> (usize, u32);
    fn lits(&self) -> (usize, Vec<Lit>);
}
impl<T: Encode + EncodeStats + IterInputs + Extend<Lit>> Am1 for T {
    fn ext(&mut self, l: &[Lit]) {
        self.extend(l.iter().copied());
    }
    fn enc(&mut self, c: &mut Col, vm: &mut Vm) -> bool {
        self.encode(c, vm).is_ok()
    }
    fn st(&self) -> (usize, u32) {
        (self.n_clauses(), self.n_vars())
    }
    fn lits(&self) -> (usize, Vec<Lit>) {
        (self.n_lits(), self.iter().collect())
    }
}
fn mk<T: Am1 + Default + From<Vec<Lit>> + FromIterator<Lit> + Extend<Lit> + 'static>(l: &[Lit], how: &str) -> Box<dyn Am1> {
    match how {
        "from" => Box::new(T::from(l.to_vec())),
        "iter" => Box::new(T::from_iter(l.iter().copied())),
        _ => {
            let mut t = T::default();
            t.extend(l.iter().copied());
            Box::new(t)
        }
    }
}
macro_rules! types {
    ($ty:expr, $l:expr, $h:expr; $($n:literal => $t:ty),* $(,)?) => {
        match $ty { $($n => mk::<$t>($l, $h),)* t => panic!("unknown type {t}") }
    };
}
fn make(ty: &str, l: &[Lit], how: &str) -> Box<dyn Am1> {
    types!(ty, l, how;
        "pairwise" => Pairwise, "ladder" => Ladder, "bitwise" => Bitwise,
        "cmd" => Commander, "cmd1" => Commander<1>, "cmd2" => Commander<2>, "cmd3l" => Commander<3, Ladder>, "cmd5b" => Commander<5, Bitwise>,
        "cmd2cmd2" => Commander<2, Commander<2>>, "cmd3bim2l" => Commander<3, Bimander<2, Ladder>>, "cmd4two" => Commander<4, TwoProduct>,
        "bim" => Bimander, "bim1" => Bimander<1>, "bim2" => Bimander<2>, "bim3l" => Bimander<3, Ladder>, "bim5b" => Bimander<5, Bitwise>,
        "bim2bim2" => Bimander<2, Bimander<2>>, "bim6two" => Bimander<6, TwoProduct<Bitwise>>, "bim8cmd" => Bimander<8, Commander<3>>,
        "two" => TwoProduct, "twol" => TwoProduct<Ladder>, "twob" => TwoProduct<Bitwise>, "twocmd2" => TwoProduct<Commander<2>>,
        "twotwo" => TwoProduct<TwoProduct>, "twobim2" => TwoProduct<Bimander<2>>,
    )
}

fn run(sc: &Value, tr: &mut Tracer) {
    let nv = sc["nv"].as_u64().unwrap() as usize;
    let ms: Vec<Vec<u8>> = match sc["masks"].as_array() {
        Some(a) => a
            .iter()
            .map(|t| {
                let mut m = vec![0; nv];
                for v in t.as_array().unwrap() {
                    m[v.as_u64().unwrap() as usize - 1] = 1;
                }
                m
            })
            .collect(),
        None => masks(nv),
    };
    let mut vm = Vm::new(nv as u32, 0);
    let mut col = Col::default();
    tr.ev(json!({"e":"new","nv":nv,"masks":ms}));
    let mut encs: Vec<Box<dyn Am1>> = vec![];
    for o in sc["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "make" => {
                let l = lits(&o["lits"]);
                encs.push(make(o["ty"].as_str().unwrap(), &l, o["how"].as_str().unwrap()));
                tr.ev(json!({"e":"make","ty":o["ty"],"lits":o["lits"]}));
            }
            "extend" => {
                let i = o["i"].as_u64().unwrap() as usize;
                encs[i].ext(&lits(&o["lits"]));
                let (n, it) = encs[i].lits();
                tr.ev(json!({"e":"extend","i":i+1,"lits":o["lits"],"n":n,"it":it.iter().map(|l| ilit(*l)).collect::<Vec<_>>()}));
            }
            "uservars" => {
                let v: Vec<u32> = (0..o["n"].as_u64().unwrap()).map(|_| rustsat::instances::ManageVars::new_var(&mut vm).idx32() + 1).collect();
                vm.take_new();
                tr.ev(json!({"e":"uservars","vars":v}));
            }
            "encode" => {
                let i = o["i"].as_u64().unwrap() as usize;
                let before = col.cls.len();
                let r = guard(|| encs[i].enc(&mut col, &mut vm));
                let newv: Vec<i64> = vm.take_new().iter().map(|v| i64::from(*v) + 1).collect();
                let (sc_, sv) = encs[i].st();
                tr.ev(json!({"e":"encode","i":i+1,"r": match &r {Ok(true)=>"ok", Ok(false)=>"oom", Err(_)=>"panic"}, "msg": r.clone().err().unwrap_or_default(),
                    "ncl": col.cls.len()-before, "new": newv, "aux": aux_vars(&col.cls[before..], nv as u32), "stcl": sc_, "stv": sv,
                    "sat": sat_per_mask(&col.cls, &ms, &[]), "own": sat_per_mask(&col.cls[before..], &ms, &[])}));
                if r.is_err() {
                    return;
                }
            }
            x => panic!("op {x}"),
        }
    }
}
fn main() {
    main_loop(run)
}
