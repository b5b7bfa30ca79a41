//! Uniform access to all incremental encodings of rustsat
use rustsat::encodings::card::{self, Totalizer};
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::pb::{self, dpw, BinaryAdder, DynamicPolyWatchdog, GeneralizedTotalizer};
use rustsat::encodings::{cert, totdb, CollectClauses, EncodeStats, EnforceError, IterWeightedInputs};
use rustsat::types::{Assignment, Clause, Lit};
use rustsat::OutOfMemory;
use std::cell::RefCell;
use std::ops::Bound;
use vtcore::{Col, Vm};

pub type Rng = (Bound<usize>, Bound<usize>);

pub fn err_str(e: EnforceError) -> String {
    match e {
        EnforceError::NotEncoded => "notenc".into(),
        EnforceError::Unsat => "unsat".into(),
    }
}

pub trait Enc {
    fn extend(&mut self, l: &[(Lit, usize)]);
    fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory>;
    /// Encodes with certification, if the encoding can
    fn encode_cert(
        &mut self,
        _k: &str,
        _chg: bool,
        _r: Rng,
        _col: &mut Col,
        _vm: &mut Vm,
        _p: &mut Pf,
    ) -> Option<Result<(), cert::EncodingError>> {
        None
    }
    fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String>;
    fn reserve(&mut self, vm: &mut Vm);
    fn stats(&self) -> Option<(usize, u32)>;
    fn wsum(&self) -> usize;
    fn next_higher(&self, _v: usize) -> Option<usize> {
        None
    }
    fn next_lower(&self, _v: usize) -> Option<usize> {
        None
    }
    fn coarse_ub(&self, v: usize) -> usize {
        v
    }
    fn coarse_lb(&self, v: usize) -> usize {
        v
    }
    fn checkpoint(&mut self) -> Result<(), String>;
    /// The reported inputs
    fn inputs(&self) -> Option<Vec<(Lit, usize)>> {
        None
    }
    /// Strict extension of an input assignment to the variables of the encoding
    fn strict(&self, _a: &Assignment) -> Option<Vec<Lit>> {
        None
    }
    /// Dynamic polynomial watchdog only
    fn dpw(&mut self) -> Option<&mut DynamicPolyWatchdog> {
        None
    }
}

/// A proof nobody looks at
pub type Pf = pigeons::Proof<std::io::Sink>;
struct Cc<'a>(&'a mut Col);
impl CollectClauses for Cc<'_> {
    fn n_clauses(&self) -> usize {
        self.0.n_clauses()
    }
    fn extend_clauses<T: IntoIterator<Item = Clause>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        self.0.extend_clauses(it)
    }
}
impl cert::CollectClauses for Cc<'_> {
    fn extend_cert_clauses<T>(&mut self, it: T) -> Result<(), OutOfMemory>
    where
        T: IntoIterator<Item = (Clause, pigeons::AbsConstraintId)>,
    {
        self.0.extend_clauses(it.into_iter().map(|x| x.0))
    }
}
macro_rules! certified {
    ($m:ident, $($k:literal $tr:ident $enc:ident $itr:ident $ienc:ident),*) => {
        fn encode_cert(
            &mut self,
            k: &str,
            chg: bool,
            r: Rng,
            col: &mut Col,
            vm: &mut Vm,
            p: &mut Pf,
        ) -> Option<Result<(), cert::EncodingError>> {
            let mut c = Cc(col);
            Some(match (k, chg) {
                $(
                    ($k, false) => $m::cert::$tr::$enc(self, r, &mut c, vm, p),
                    ($k, true) => $m::cert::$itr::$ienc(self, r, &mut c, vm, p),
                )*
                _ => panic!("harness: kind"),
            })
        }
    };
    ($m:ident) => {
        certified!(
            $m,
            "ub" BoundUpper encode_ub_cert BoundUpperIncremental encode_ub_change_cert,
            "lb" BoundLower encode_lb_cert BoundLowerIncremental encode_lb_change_cert,
            "both" BoundBoth encode_both_cert BoundBothIncremental encode_both_change_cert
        );
    };
}
macro_rules! ck {
    () => {
        fn checkpoint(&mut self) -> Result<(), String> {
            let s = bincode::serialize(self).map_err(|e| format!("ser {e}"))?;
            *self = bincode::deserialize(&s).map_err(|e| format!("de {e}"))?;
            Ok(())
        }
    };
    (no) => {
        fn checkpoint(&mut self) -> Result<(), String> {
            Ok(())
        }
    };
}
macro_rules! stats {
    (yes) => {
        fn stats(&self) -> Option<(usize, u32)> {
            Some((EncodeStats::n_clauses(self), EncodeStats::n_vars(self)))
        }
    };
    (no) => {
        fn stats(&self) -> Option<(usize, u32)> {
            None
        }
    };
}
macro_rules! both {
    ($m:ident) => {
        fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
            use $m::{
                BoundBoth as _, BoundBothIncremental as _, BoundLower as _, BoundLowerIncremental as _,
                BoundUpper as _, BoundUpperIncremental as _,
            };
            match (k, chg) {
                ("ub", false) => self.encode_ub(r, col, vm),
                ("lb", false) => self.encode_lb(r, col, vm),
                ("both", false) => self.encode_both(r, col, vm),
                ("ub", true) => self.encode_ub_change(r, col, vm),
                ("lb", true) => self.encode_lb_change(r, col, vm),
                _ => self.encode_both_change(r, col, vm),
            }
        }
        fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
            use $m::{BoundBoth as _, BoundLower as _, BoundUpper as _};
            match k {
                "ub" => self.enforce_ub(b).map_err(|e| err_str(e.into())),
                "lb" => self.enforce_lb(b).map_err(err_str),
                _ => self.enforce_eq(b).map_err(err_str),
            }
        }
    };
}
macro_rules! strict {
    (yes) => {
        fn strict(&self, a: &Assignment) -> Option<Vec<Lit>> {
            Some(self.strictly_extend_assignment(a).collect())
        }
    };
    (no) => {};
}
macro_rules! card_enc {
    ($t:ty, $st:ident, $ext:ident) => {
        impl Enc for $t {
            fn extend(&mut self, l: &[(Lit, usize)]) {
                Extend::extend(self, l.iter().map(|(l, _)| *l));
            }
            both!(card);
            certified!(card);
            fn reserve(&mut self, vm: &mut Vm) {
                card::EncodeIncremental::reserve(self, vm);
            }
            stats!($st);
            fn wsum(&self) -> usize {
                card::Encode::n_lits(self)
            }
            strict!($ext);
            ck!();
        }
    };
}
type InvTot = card::simulators::Inverted<Totalizer>;
type DblTot = card::simulators::Double<Totalizer, InvTot>;
card_enc!(Totalizer, yes, yes);
card_enc!(InvTot, yes, no);
card_enc!(DblTot, yes, no);

macro_rules! pb_common {
    ($st:ident) => {
        fn reserve(&mut self, vm: &mut Vm) {
            pb::EncodeIncremental::reserve(self, vm);
        }
        stats!($st);
        fn wsum(&self) -> usize {
            pb::Encode::weight_sum(self)
        }
        fn next_higher(&self, v: usize) -> Option<usize> {
            Some(pb::Encode::next_higher(self, v))
        }
        fn next_lower(&self, v: usize) -> Option<usize> {
            Some(pb::Encode::next_lower(self, v))
        }
    };
}
macro_rules! ub_only {
    () => {
        fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
            use pb::{BoundUpper as _, BoundUpperIncremental as _};
            match (k, chg) {
                ("ub", false) => self.encode_ub(r, col, vm),
                ("ub", true) => self.encode_ub_change(r, col, vm),
                _ => panic!("harness: kind"),
            }
        }
        fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
            assert_eq!(k, "ub");
            pb::BoundUpper::enforce_ub(self, b).map_err(err_str)
        }
        fn coarse_ub(&self, v: usize) -> usize {
            pb::BoundUpper::coarse_ub(self, v)
        }
    };
}
macro_rules! lb_only {
    () => {
        fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
            use pb::{BoundLower as _, BoundLowerIncremental as _};
            match (k, chg) {
                ("lb", false) => self.encode_lb(r, col, vm),
                ("lb", true) => self.encode_lb_change(r, col, vm),
                _ => panic!("harness: kind"),
            }
        }
        fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
            assert_eq!(k, "lb");
            pb::BoundLower::enforce_lb(self, b).map_err(err_str)
        }
        fn coarse_lb(&self, v: usize) -> usize {
            pb::BoundLower::coarse_lb(self, v)
        }
    };
}
macro_rules! both_coarse {
    () => {
        fn coarse_ub(&self, v: usize) -> usize {
            pb::BoundUpper::coarse_ub(self, v)
        }
        fn coarse_lb(&self, v: usize) -> usize {
            pb::BoundLower::coarse_lb(self, v)
        }
    };
}

impl Enc for GeneralizedTotalizer {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        Extend::extend(self, l.iter().copied());
    }
    pb_common!(yes);
    ub_only!();
    certified!(pb, "ub" BoundUpper encode_ub_cert BoundUpperIncremental encode_ub_change_cert);
    strict!(yes);
    ck!();
}
type InvGte = pb::InvertedGeneralizedTotalizer;
type DblGte = pb::DoubleGeneralizedTotalizer;
impl Enc for InvGte {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        Extend::extend(self, l.iter().copied());
    }
    pb_common!(yes);
    lb_only!();
    certified!(pb, "lb" BoundLower encode_lb_cert BoundLowerIncremental encode_lb_change_cert);
    ck!();
}
macro_rules! pb_both {
    ($t:ty, $st:ident $(, $c:ident)?) => {
        impl Enc for $t {
            $(certified!($c);)?
            fn extend(&mut self, l: &[(Lit, usize)]) {
                Extend::extend(self, l.iter().copied());
            }
            pb_common!($st);
            both!(pb);
            both_coarse!();
            ck!();
        }
    };
}
type InvAdder = pb::simulators::Inverted<BinaryAdder>;
type DblAdder = pb::simulators::Double<BinaryAdder, InvAdder>;
type CardTot = pb::simulators::Card<Totalizer>;
type CardInv = pb::simulators::Card<InvTot>;
pb_both!(DblGte, yes, pb);
pb_both!(BinaryAdder, yes);
pb_both!(InvAdder, yes);
pb_both!(DblAdder, yes);
pb_both!(CardTot, no, pb);
pb_both!(CardInv, no, pb);

impl Enc for DynamicPolyWatchdog {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        for (l, w) in l {
            self.add_input(*l, *w).expect("harness: add_input after encoding");
        }
    }
    pb_common!(yes);
    ub_only!();
    ck!();
    fn inputs(&self) -> Option<Vec<(Lit, usize)>> {
        Some(IterWeightedInputs::iter(self).collect())
    }
    fn dpw(&mut self) -> Option<&mut DynamicPolyWatchdog> {
        Some(self)
    }
}

/// Watchdog encoding referencing a shared database, built when first needed
pub struct RefDpw {
    pub db: totdb::Db,
    pub ins: Vec<(Lit, usize)>,
    pub structure: Option<dpw::Structure>,
    pub cell: bool,
}
impl RefDpw {
    pub fn new(cell: bool) -> Self {
        RefDpw {
            db: totdb::Db::default(),
            ins: vec![],
            structure: None,
            cell,
        }
    }
    fn build(&mut self, vm: &mut Vm) {
        if self.structure.is_none() {
            let mut m: Vec<(Lit, usize)> = vec![];
            for (l, w) in &self.ins {
                match m.iter_mut().find(|x| x.0 == *l) {
                    Some(x) => x.1 += w,
                    None => m.push((*l, *w)),
                }
            }
            let mut q = dpw::lit_weight_queue(m.into_iter(), &mut self.db);
            self.structure = Some(dpw::build_structure(&mut q, 1, true, &mut self.db, vm));
        }
    }
}
macro_rules! with_dpw {
    ($s:ident, $e:ident, $b:expr) => {{
        let st = $s.structure.as_ref().unwrap();
        if $s.cell {
            let rc = RefCell::new(&mut $s.db);
            let mut $e = dpw::referenced::DynamicPolyWatchdogCell::new(st, &rc);
            let _ = &mut $e;
            $b
        } else {
            let mut $e = dpw::referenced::DynamicPolyWatchdog::new(st, &mut $s.db);
            let _ = &mut $e;
            $b
        }
    }};
}
impl Enc for RefCell<RefDpw> {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        let s = self.get_mut();
        assert!(s.structure.is_none(), "harness: extending a referenced watchdog");
        s.ins.extend(l.iter().copied());
    }
    fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
        use pb::{BoundUpper as _, BoundUpperIncremental as _};
        let s = self.get_mut();
        assert_eq!(k, "ub");
        s.build(vm);
        with_dpw!(
            s,
            e,
            if chg {
                e.encode_ub_change(r, col, vm)
            } else {
                e.encode_ub(r, col, vm)
            }
        )
    }
    fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
        assert_eq!(k, "ub");
        let mut s = self.borrow_mut();
        let s = &mut *s;
        if s.structure.is_none() {
            return if b >= s.ins.iter().map(|x| x.1).sum() {
                Ok(vec![])
            } else {
                Err("notenc".into())
            };
        }
        let sum = s.ins.iter().map(|x| x.1).sum();
        // the referenced encoding only knows an upper bound on the total
        with_dpw!(
            s,
            e,
            match pb::BoundUpper::enforce_ub(&e, b) {
                Err(_) if b >= sum && b < pb::Encode::weight_sum(&e) => Ok(vec![]),
                r => r.map_err(err_str),
            }
        )
    }
    fn reserve(&mut self, vm: &mut Vm) {
        let s = self.get_mut();
        s.build(vm);
        with_dpw!(s, e, pb::EncodeIncremental::reserve(&mut e, vm));
    }
    stats!(no);
    fn wsum(&self) -> usize {
        // the referenced encoding only knows an upper bound
        let mut s = self.borrow_mut();
        let s = &mut *s;
        let sum = s.ins.iter().map(|x| x.1).sum();
        if s.structure.is_some() {
            with_dpw!(s, e, assert!(pb::Encode::weight_sum(&e) >= sum, "total too small"));
        }
        sum
    }
    fn coarse_ub(&self, v: usize) -> usize {
        let mut s = self.borrow_mut();
        let s = &mut *s;
        if s.structure.is_none() {
            return v;
        }
        with_dpw!(s, e, pb::BoundUpper::coarse_ub(&e, v))
    }
    fn checkpoint(&mut self) -> Result<(), String> {
        let s = self.get_mut();
        let t = bincode::serialize(&(&s.db, &s.structure)).map_err(|e| format!("ser {e}"))?;
        (s.db, s.structure) = bincode::deserialize(&t).map_err(|e| format!("de {e}"))?;
        Ok(())
    }
}

/// Totalizer referencing a shared database (by mutable reference or through a cell)
pub struct RefTot {
    pub db: totdb::Db,
    pub root: Option<NodeId>,
    pub cell: bool,
}
impl RefTot {
    pub fn new(cell: bool) -> Self {
        RefTot {
            db: totdb::Db::default(),
            root: None,
            cell,
        }
    }
}
macro_rules! with_tot {
    ($s:ident, $e:ident, $b:expr, $none:expr) => {{
        let Some(root) = $s.root else { return $none };
        if $s.cell {
            let rc = RefCell::new(&mut $s.db);
            let mut $e = card::totalizer::referenced::TotCell::new(root, &rc);
            let _ = &mut $e;
            $b
        } else {
            let mut $e = card::totalizer::referenced::Tot::new(root, &mut $s.db);
            let _ = &mut $e;
            $b
        }
    }};
}
impl Enc for RefCell<RefTot> {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        let s = self.get_mut();
        let Some(t) = s.db.lit_tree(l.iter().map(|(l, _)| *l)) else {
            return;
        };
        s.root = Some(match s.root {
            None => t,
            Some(o) => s.db.merge(&mut [NodeCon::full(o), NodeCon::full(t)]).unwrap().id,
        });
    }
    fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
        use card::{
            BoundBoth as _, BoundBothIncremental as _, BoundLower as _, BoundLowerIncremental as _, BoundUpper as _,
            BoundUpperIncremental as _,
        };
        let s = self.get_mut();
        with_tot!(
            s,
            e,
            match (k, chg) {
                ("ub", false) => e.encode_ub(r, col, vm),
                ("lb", false) => e.encode_lb(r, col, vm),
                ("both", false) => e.encode_both(r, col, vm),
                ("ub", true) => e.encode_ub_change(r, col, vm),
                ("lb", true) => e.encode_lb_change(r, col, vm),
                _ => e.encode_both_change(r, col, vm),
            },
            Ok(())
        )
    }
    fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
        use card::{BoundBoth as _, BoundLower as _, BoundUpper as _};
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_tot!(
            s,
            e,
            match k {
                "ub" => e.enforce_ub(b).map_err(|e| err_str(e.into())),
                "lb" => e.enforce_lb(b).map_err(err_str),
                _ => e.enforce_eq(b).map_err(err_str),
            },
            // no root: nothing to reference, mirror the empty sum
            if b == 0 || k == "ub" {
                Ok(vec![])
            } else {
                Err("unsat".into())
            }
        )
    }
    fn reserve(&mut self, vm: &mut Vm) {
        let s = self.get_mut();
        with_tot!(s, e, card::EncodeIncremental::reserve(&mut e, vm), ())
    }
    stats!(no);
    fn wsum(&self) -> usize {
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_tot!(s, e, card::Encode::n_lits(&e), 0)
    }
    fn checkpoint(&mut self) -> Result<(), String> {
        let s = self.get_mut();
        let t = bincode::serialize(&s.db).map_err(|e| format!("ser {e}"))?;
        s.db = bincode::deserialize(&t).map_err(|e| format!("de {e}"))?;
        Ok(())
    }
}

/// Generalized totalizer referencing a shared database
pub struct RefGte {
    pub db: totdb::Db,
    pub root: Option<NodeCon>,
    pub cons: Vec<NodeCon>,
    pub maxw: usize,
    pub cell: bool,
}
impl RefGte {
    pub fn new(cell: bool) -> Self {
        RefGte {
            db: totdb::Db::default(),
            root: None,
            cons: vec![],
            maxw: 0,
            cell,
        }
    }
}
macro_rules! with_gte {
    ($s:ident, $e:ident, $b:expr, $none:expr) => {{
        let Some(root) = $s.root else { return $none };
        if $s.cell {
            let rc = RefCell::new(&mut $s.db);
            let mut $e = pb::gte::referenced::GteCell::new(root, $s.maxw, &rc);
            let _ = &mut $e;
            $b
        } else {
            let mut $e = pb::gte::referenced::Gte::new(root, $s.maxw, &mut $s.db);
            let _ = &mut $e;
            $b
        }
    }};
}
impl Enc for RefCell<RefGte> {
    fn extend(&mut self, l: &[(Lit, usize)]) {
        let s = self.get_mut();
        let mut cons: Vec<NodeCon> = l
            .iter()
            .map(|(l, w)| NodeCon::weighted(s.db.insert(totdb::Node::leaf(*l)), *w))
            .collect();
        s.maxw = l.iter().map(|(_, w)| *w).max().unwrap_or(0).max(s.maxw);
        if let Some(r) = s.root {
            cons.push(r);
        }
        s.root = s.db.merge(&mut cons);
    }
    fn encode(&mut self, k: &str, chg: bool, r: Rng, col: &mut Col, vm: &mut Vm) -> Result<(), OutOfMemory> {
        use pb::{BoundUpper as _, BoundUpperIncremental as _};
        let s = self.get_mut();
        assert_eq!(k, "ub");
        with_gte!(
            s,
            e,
            if chg {
                e.encode_ub_change(r, col, vm)
            } else {
                e.encode_ub(r, col, vm)
            },
            Ok(())
        )
    }
    fn enforce(&self, k: &str, b: usize) -> Result<Vec<Lit>, String> {
        assert_eq!(k, "ub");
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_gte!(s, e, pb::BoundUpper::enforce_ub(&e, b).map_err(err_str), Ok(vec![]))
    }
    fn reserve(&mut self, vm: &mut Vm) {
        let s = self.get_mut();
        with_gte!(s, e, pb::EncodeIncremental::reserve(&mut e, vm), ())
    }
    stats!(no);
    fn wsum(&self) -> usize {
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_gte!(s, e, pb::Encode::weight_sum(&e), 0)
    }
    fn next_higher(&self, v: usize) -> Option<usize> {
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_gte!(s, e, Some(pb::Encode::next_higher(&e, v)), None)
    }
    fn next_lower(&self, v: usize) -> Option<usize> {
        let mut s = self.borrow_mut();
        let s = &mut *s;
        with_gte!(s, e, Some(pb::Encode::next_lower(&e, v)), None)
    }
    fn checkpoint(&mut self) -> Result<(), String> {
        let s = self.get_mut();
        let t = bincode::serialize(&s.db).map_err(|e| format!("ser {e}"))?;
        s.db = bincode::deserialize(&t).map_err(|e| format!("de {e}"))?;
        Ok(())
    }
}

/// `from`: initial literals are given through `FromIterator`; otherwise by extending the default
pub fn make(ty: &str, init: &[(Lit, usize)], from: bool) -> Box<dyn Enc> {
    macro_rules! c {
        ($t:ty) => {{
            let mut e: $t = if from {
                init.iter().map(|(l, _)| *l).collect()
            } else {
                <$t>::default()
            };
            if !from && !init.is_empty() {
                Enc::extend(&mut e, init);
            }
            Box::new(e)
        }};
    }
    macro_rules! p {
        ($t:ty) => {{
            let mut e: $t = if from {
                init.iter().copied().collect()
            } else {
                <$t>::default()
            };
            if !from && !init.is_empty() {
                Enc::extend(&mut e, init);
            }
            Box::new(e)
        }};
    }
    macro_rules! r {
        ($e:expr) => {{
            let mut e = RefCell::new($e);
            if !init.is_empty() {
                Enc::extend(&mut e, init);
            }
            Box::new(e)
        }};
    }
    match ty {
        "tot" => c!(Totalizer),
        "rawtot" => {
            let mut db = totdb::Db::default();
            let root = db.lit_tree(init.iter().map(|(l, _)| *l)).expect("harness: no inputs");
            Box::new(Totalizer::from_raw(root, 0, db))
        }
        "rawgte" => {
            let mut db = totdb::Db::default();
            let mut cons: Vec<NodeCon> = init
                .iter()
                .map(|(l, w)| NodeCon::weighted(db.insert(totdb::Node::leaf(*l)), *w))
                .collect();
            let root = db.merge(&mut cons).expect("harness: no inputs");
            Box::new(GeneralizedTotalizer::from_raw(
                root,
                db,
                init.iter().map(|x| x.1).max().unwrap(),
            ))
        }
        "refdpw" => r!(RefDpw::new(false)),
        "celldpw" => r!(RefDpw::new(true)),
        "invtot" => c!(InvTot),
        "dbltot" => c!(DblTot),
        "reftot" => r!(RefTot::new(false)),
        "celltot" => r!(RefTot::new(true)),
        "gte" => p!(GeneralizedTotalizer),
        "invgte" => p!(InvGte),
        "dblgte" => p!(DblGte),
        "adder" => p!(BinaryAdder),
        "invadder" => p!(InvAdder),
        "dbladder" => p!(DblAdder),
        "cardtot" => p!(CardTot),
        "cardinv" => p!(CardInv),
        "dpw" => p!(DynamicPolyWatchdog),
        "refgte" => r!(RefGte::new(false)),
        "cellgte" => r!(RefGte::new(true)),
        _ => panic!("harness: unknown encoding {ty}"),
    }
}
