//! A small solver behind the IPASIR C functions, so that the bindings can be driven without an external library
use core::ffi::{c_char, c_int, c_void};

type TermFn = unsafe extern "C" fn(*const c_void) -> c_int;
type LearnFn = unsafe extern "C" fn(*const c_void, *const c_int);

#[derive(Default)]
struct Solver {
    cls: Vec<Vec<c_int>>,
    cur: Vec<c_int>,
    assumps: Vec<c_int>,
    max: usize,
    model: Vec<c_int>,
    failed: Vec<c_int>,
    term: Option<(usize, TermFn)>,
    learn: Option<(usize, c_int, LearnFn)>,
}

fn sat(cls: &[Vec<c_int>], m: u32) -> bool {
    cls.iter()
        .all(|c| c.iter().any(|l| ((m >> (l.abs() - 1)) & 1 == 1) == (*l > 0)))
}
impl Solver {
    fn models(&self, a: &[c_int]) -> Option<u32> {
        let mut cls = self.cls.clone();
        cls.extend(a.iter().map(|l| vec![*l]));
        (0..1u32 << self.max).find(|m| sat(&cls, *m))
    }
    fn solve(&mut self) -> c_int {
        let a = std::mem::take(&mut self.assumps);
        self.max = self
            .max
            .max(a.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0));
        assert!(self.max <= 16, "harness: too many variables");
        for _ in 0..2 * self.cls.len() {
            if let Some((p, f)) = self.term {
                if unsafe { f(p as *const c_void) } != 0 {
                    return 0;
                }
            }
        }
        if let Some((p, max, f)) = self.learn {
            // all implied clauses over two variables
            for x in 1..=self.max as c_int {
                for y in 0..x {
                    for s in 0..4 {
                        let mut c = vec![if s & 1 == 0 { x } else { -x }];
                        if y > 0 {
                            c.push(if s & 2 == 0 { y } else { -y });
                        }
                        let neg: Vec<_> = c.iter().map(|l| -l).collect();
                        if c.len() as c_int <= max && self.models(&neg).is_none() {
                            c.push(0);
                            unsafe { f(p as *const c_void, c.as_ptr()) };
                        }
                    }
                }
            }
        }
        match self.models(&a) {
            Some(m) => {
                self.model = (1..=self.max)
                    .map(|v| {
                        // report unconstrained variables as such
                        let occ = |l: &c_int| l.unsigned_abs() as usize == v;
                        if a.iter().any(occ) || self.cls.iter().any(|c| c.iter().any(occ)) {
                            if (m >> (v - 1)) & 1 == 1 {
                                v as c_int
                            } else {
                                -(v as c_int)
                            }
                        } else {
                            0
                        }
                    })
                    .collect();
                10
            }
            None => {
                self.failed = a.clone();
                let mut i = 0;
                while i < self.failed.len() {
                    let mut f = self.failed.clone();
                    let l = f.remove(i);
                    f.retain(|k| *k != l);
                    if self.models(&f).is_none() {
                        self.failed = f;
                    } else {
                        i += 1;
                    }
                }
                20
            }
        }
    }
}

unsafe fn get<'a>(s: *mut c_void) -> &'a mut Solver {
    &mut *s.cast::<Solver>()
}
#[no_mangle]
pub extern "C" fn ipasir_signature() -> *const c_char {
    c"enumerator".as_ptr()
}
#[no_mangle]
pub extern "C" fn ipasir_init() -> *mut c_void {
    Box::into_raw(Box::<Solver>::default()).cast()
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_release(s: *mut c_void) {
    drop(Box::from_raw(s.cast::<Solver>()));
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_add(s: *mut c_void, l: c_int) {
    let s = get(s);
    if l == 0 {
        let c = std::mem::take(&mut s.cur);
        s.cls.push(c);
    } else {
        s.max = s.max.max(l.unsigned_abs() as usize);
        s.cur.push(l);
    }
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_assume(s: *mut c_void, l: c_int) {
    get(s).assumps.push(l);
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_solve(s: *mut c_void) -> c_int {
    get(s).solve()
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_val(s: *mut c_void, l: c_int) -> c_int {
    let v = get(s).model.get(l.unsigned_abs() as usize - 1).copied().unwrap_or(0);
    if v == 0 {
        0
    } else if (v > 0) == (l > 0) {
        l
    } else {
        -l
    }
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_failed(s: *mut c_void, l: c_int) -> c_int {
    c_int::from(get(s).failed.contains(&l))
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_set_terminate(s: *mut c_void, p: *const c_void, f: Option<TermFn>) {
    get(s).term = f.map(|f| (p as usize, f));
}
/// # Safety
/// IPASIR
#[no_mangle]
pub unsafe extern "C" fn ipasir_set_learn(s: *mut c_void, p: *const c_void, max: c_int, f: Option<LearnFn>) {
    get(s).learn = f.map(|f| (p as usize, max, f));
}
