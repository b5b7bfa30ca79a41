//! The oracle: a small clause-learning SAT procedure (watched literals, first-UIP learning,
//! activity-ordered decisions), independent of every solver interface of the repository.
pub struct Dpll {
    n: usize,
    cls: Vec<Vec<usize>>, // literals as 2*v + sign
    watch: Vec<Vec<usize>>,
    units: Vec<usize>,
    empty: bool,
    val: Vec<u8>, // per literal: 0 undef 1 true 2 false
    occ: Vec<usize>,
    order: Vec<usize>,
    act: Vec<f64>,
    inc: f64,
    level: Vec<usize>,
    reason: Vec<usize>,
    trail: Vec<usize>,
    lim: Vec<usize>,
}
const NONE: usize = usize::MAX;

fn enc(l: i64) -> usize {
    let v = (l.unsigned_abs() - 1) as usize;
    2 * v + usize::from(l < 0)
}

impl Dpll {
    pub fn new(cls: &[Vec<i64>]) -> Self {
        let n = cls.iter().flatten().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
        let mut s = Dpll {
            n,
            cls: vec![],
            watch: vec![vec![]; 2 * n],
            units: vec![],
            empty: false,
            val: vec![0; 2 * n],
            occ: vec![0; n],
            order: vec![],
            act: vec![0.0; n],
            inc: 1.0,
            level: vec![0; n],
            reason: vec![NONE; n],
            trail: vec![],
            lim: vec![],
        };
        for c in cls {
            let mut e: Vec<usize> = c.iter().map(|l| enc(*l)).collect();
            e.sort_unstable();
            e.dedup();
            if e.windows(2).any(|w| w[0] ^ 1 == w[1] && w[0] / 2 == w[1] / 2) {
                continue;
            }
            for l in &e {
                s.occ[l / 2] += 1;
            }
            match e.len() {
                0 => s.empty = true,
                1 => s.units.push(e[0]),
                _ => {
                    let i = s.cls.len();
                    s.watch[e[0]].push(i);
                    s.watch[e[1]].push(i);
                    s.cls.push(e);
                }
            }
        }
        s.order = (0..n).filter(|v| s.occ[*v] > 0).collect();
        for v in 0..n {
            s.act[v] = s.occ[v] as f64 * 1e-3;
        }
        s
    }
    fn grow(&mut self, v: usize) {
        if v >= self.n {
            self.n = v + 1;
            self.watch.resize(2 * self.n, vec![]);
            self.val.resize(2 * self.n, 0);
            self.occ.resize(self.n, 0);
            self.act.resize(self.n, 0.0);
            self.level.resize(self.n, 0);
            self.reason.resize(self.n, NONE);
        }
    }
    fn assign(&mut self, l: usize, why: usize) -> bool {
        match self.val[l] {
            1 => true,
            2 => false,
            _ => {
                self.val[l] = 1;
                self.val[l ^ 1] = 2;
                self.level[l / 2] = self.lim.len();
                self.reason[l / 2] = why;
                self.trail.push(l);
                true
            }
        }
    }
    /// Propagates from trail position `head`; returns a conflicting clause
    fn propagate(&mut self, mut head: usize) -> Option<usize> {
        while head < self.trail.len() {
            let f = self.trail[head] ^ 1; // became false
            head += 1;
            let mut ws = std::mem::take(&mut self.watch[f]);
            let mut i = 0;
            let mut confl = None;
            while i < ws.len() {
                let ci = ws[i];
                let other;
                let mut repl = None;
                {
                    let c = &mut self.cls[ci];
                    if c[0] == f {
                        c.swap(0, 1);
                    }
                    other = c[0];
                    if self.val[other] == 1 {
                        i += 1;
                        continue;
                    }
                    for k in 2..c.len() {
                        if self.val[c[k]] != 2 {
                            c.swap(1, k);
                            repl = Some(c[1]);
                            break;
                        }
                    }
                }
                if let Some(r) = repl {
                    self.watch[r].push(ci);
                    ws.swap_remove(i);
                    continue;
                }
                if !self.assign(other, ci) {
                    confl = Some(ci);
                    break;
                }
                i += 1;
            }
            self.watch[f] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
    fn undo(&mut self, lvl: usize) {
        if self.lim.len() > lvl {
            let at = self.lim[lvl];
            for l in self.trail.drain(at..) {
                self.val[l] = 0;
                self.val[l ^ 1] = 0;
            }
            self.lim.truncate(lvl);
        }
    }
    /// First-UIP clause (asserting literal first) and the level to jump to
    fn analyze(&mut self, confl: usize) -> (Vec<usize>, usize) {
        let cur = self.lim.len();
        let mut seen = vec![false; self.n];
        let mut learnt = vec![0];
        let mut open = 0;
        let mut ci = confl;
        let mut idx = self.trail.len();
        let mut skip = NONE;
        loop {
            for q in self.cls[ci].clone() {
                let v = q / 2;
                if q == skip || seen[v] || self.level[v] == 0 {
                    continue;
                }
                seen[v] = true;
                self.act[v] += self.inc;
                if self.level[v] == cur {
                    open += 1;
                } else {
                    learnt.push(q);
                }
            }
            let l = loop {
                idx -= 1;
                let l = self.trail[idx];
                if seen[l / 2] {
                    break l;
                }
            };
            open -= 1;
            if open == 0 {
                learnt[0] = l ^ 1;
                break;
            }
            skip = l;
            ci = self.reason[l / 2];
        }
        self.inc *= 1.05;
        if self.inc > 1e100 {
            for a in &mut self.act {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        let mut back = 0;
        if learnt.len() > 1 {
            let m = (1..learnt.len()).max_by_key(|i| self.level[learnt[*i] / 2]).unwrap();
            learnt.swap(1, m);
            back = self.level[learnt[1] / 2];
        }
        (learnt, back)
    }
    /// Satisfiable under the given literals? Returns the true literals (1-based, signed) if so.
    pub fn solve(&mut self, assumps: &[i64]) -> Option<Vec<i64>> {
        for a in assumps {
            self.grow((a.unsigned_abs() - 1) as usize);
        }
        let res = self.run(assumps);
        let out = if res {
            Some(
                self.trail
                    .iter()
                    .map(|l| if l % 2 == 0 { (l / 2) as i64 + 1 } else { -((l / 2) as i64 + 1) })
                    .collect(),
            )
        } else {
            None
        };
        self.undo(0);
        out
    }
    fn run(&mut self, assumps: &[i64]) -> bool {
        if self.empty {
            return false;
        }
        // level zero
        for l in self.units.clone() {
            if !self.assign(l, NONE) {
                self.empty = true;
                return false;
            }
        }
        if self.propagate(0).is_some() {
            self.empty = true;
            return false;
        }
        loop {
            let l = if self.lim.len() < assumps.len() {
                let a = enc(assumps[self.lim.len()]);
                if self.val[a] == 2 {
                    return false;
                }
                a
            } else {
                let mut best = NONE;
                for &v in &self.order {
                    if self.val[2 * v] == 0 && (best == NONE || self.act[v] > self.act[best]) {
                        best = v;
                    }
                }
                if best == NONE {
                    return true;
                }
                2 * best + 1
            };
            let mut at = self.trail.len();
            self.lim.push(at);
            self.assign(l, NONE);
            while let Some(c) = self.propagate(at) {
                if self.lim.is_empty() {
                    self.empty = true;
                    return false;
                }
                let (learnt, back) = self.analyze(c);
                self.undo(back);
                at = self.trail.len();
                if learnt.len() == 1 {
                    self.units.push(learnt[0]);
                    self.assign(learnt[0], NONE);
                } else {
                    let ci = self.cls.len();
                    self.watch[learnt[0]].push(ci);
                    self.watch[learnt[1]].push(ci);
                    let first = learnt[0];
                    self.cls.push(learnt);
                    self.assign(first, ci);
                }
            }
        }
    }
    /// All models projected to variables `1..=nv`, as 0/1 vectors (nv small)
    pub fn projected(&mut self, nv: usize) -> Vec<Vec<u8>> {
        crate::masks(nv).into_iter().filter(|m| self.solve(&crate::mask_units(m)).is_some()).collect()
    }
}

#[cfg(test)]
mod tests {
    /// against brute force
    #[test]
    fn brute() {
        let mut x = 88172645463325252u64;
        let mut rnd = move |n: u64| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x % n
        };
        for _ in 0..20000 {
            let n = 1 + rnd(7) as i64;
            let m = rnd(30);
            let cls: Vec<Vec<i64>> = (0..m)
                .map(|_| (0..1 + rnd(3)).map(|_| (1 + rnd(n as u64) as i64) * if rnd(2) == 0 { 1 } else { -1 }).collect())
                .collect();
            let mut s = super::Dpll::new(&cls);
            for _ in 0..4 {
                let asm: Vec<i64> =
                    (0..rnd(3)).map(|_| (1 + rnd(n as u64) as i64) * if rnd(2) == 0 { 1 } else { -1 }).collect();
                let holds = |c: &Vec<i64>, a: u32| c.iter().any(|l| (a >> (l.abs() - 1) & 1 == 1) == (*l > 0));
                let want = (0..1u32 << n)
                    .any(|a| cls.iter().all(|c| holds(c, a)) && asm.iter().all(|l| holds(&vec![*l], a)));
                let got = s.solve(&asm);
                assert_eq!(got.is_some(), want);
                if let Some(g) = got {
                    assert!(cls.iter().all(|c| c.iter().any(|l| g.contains(l)) || c.iter().any(|l| c.contains(&-l))));
                    assert!(g.iter().all(|l| !g.contains(&-l)));
                }
            }
        }
    }
}
