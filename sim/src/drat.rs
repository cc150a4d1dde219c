//! Forward DRAT checker. Accepts when unit propagation over the accumulated clauses refutes.
//! Tautologies are dropped on entry. Deletions of clauses that are unit under the root assignment are ignored (as drat-trim does).
use std::collections::BTreeMap;

pub struct Checker {
    n: usize,
    cls: Vec<Option<Vec<i32>>>,
    watch: Vec<Vec<usize>>,
    val: Vec<i8>,
    reason: Vec<usize>,
    trail: Vec<i32>,
    qh: usize,
    root_conflict: bool,
    index: BTreeMap<Vec<i32>, Vec<usize>>,
    pub lemmas: usize,
    pub deletions: usize,
    pub rats: usize,
    pub units: usize,
}
const NONE: usize = usize::MAX;
fn wi(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + usize::from(l < 0)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Proof {
    Refutes,
    /// parsed and every step is fine, but no refutation
    Incomplete,
    Bad(String),
}

impl Checker {
    pub fn new(nv: usize, cls: &[Vec<i32>]) -> Checker {
        let mut c = Checker {
            n: nv,
            cls: Vec::new(),
            watch: vec![Vec::new(); 2 * nv + 2],
            val: vec![0; nv + 1],
            reason: vec![NONE; nv + 1],
            trail: Vec::new(),
            qh: 0,
            root_conflict: false,
            index: BTreeMap::new(),
            lemmas: 0,
            deletions: 0,
            rats: 0,
            units: 0,
        };
        for k in cls {
            c.add(k);
        }
        c
    }
    fn v(&self, l: i32) -> i8 {
        let x = self.val[l.unsigned_abs() as usize];
        if l > 0 { x } else { -x }
    }
    fn set(&mut self, l: i32, r: usize) {
        self.val[l.unsigned_abs() as usize] = if l > 0 { 1 } else { -1 };
        self.reason[l.unsigned_abs() as usize] = r;
        self.trail.push(l);
    }
    fn add(&mut self, lits: &[i32]) {
        let mut d = lits.to_vec();
        d.sort_unstable();
        d.dedup();
        if d.iter().any(|l| *l > 0 && d.contains(&-l)) {
            return; // a tautology constrains nothing (and must not spoil RAT checks)
        }
        let id = self.cls.len();
        self.index.entry(d.clone()).or_default().push(id);
        if d.is_empty() {
            self.root_conflict = true;
            self.cls.push(Some(d));
            return;
        }
        // non-false literals first
        let mut e = d;
        e.sort_by_key(|&l| match self.v(l) { 1 => 0, 0 => 1, _ => 2 });
        if e.len() == 1 {
            let l = e[0];
            self.cls.push(Some(e));
            match self.v(l) {
                1 => (),
                -1 => self.root_conflict = true,
                _ => self.set(l, id),
            }
        } else {
            self.watch[wi(e[0])].push(id);
            self.watch[wi(e[1])].push(id);
            let (a, b) = (self.v(e[0]), self.v(e[1]));
            let l0 = e[0];
            self.cls.push(Some(e));
            if a == -1 {
                self.root_conflict = true;
            } else if a == 0 && b == -1 {
                self.set(l0, id);
            }
        }
        if !self.root_conflict && self.propagate() {
            self.root_conflict = true;
        }
    }
    /// true on conflict
    fn propagate(&mut self) -> bool {
        while self.qh < self.trail.len() {
            let p = self.trail[self.qh];
            self.qh += 1;
            let mut ws = std::mem::take(&mut self.watch[wi(-p)]);
            let mut i = 0;
            let mut confl = false;
            while i < ws.len() {
                let c = ws[i];
                let Some(mut cl) = self.cls[c].take() else {
                    ws.swap_remove(i);
                    continue;
                };
                if cl[0] == -p {
                    cl.swap(0, 1);
                }
                let first = cl[0];
                if self.v(first) == 1 {
                    self.cls[c] = Some(cl);
                    i += 1;
                    continue;
                }
                let mut moved = false;
                for k in 2..cl.len() {
                    if self.v(cl[k]) != -1 {
                        cl.swap(1, k);
                        self.watch[wi(cl[1])].push(c);
                        moved = true;
                        break;
                    }
                }
                self.cls[c] = Some(cl);
                if moved {
                    ws.swap_remove(i);
                    continue;
                }
                if self.v(first) == -1 {
                    confl = true;
                    break;
                }
                self.set(first, c);
                i += 1;
            }
            self.watch[wi(-p)].append(&mut ws);
            if confl {
                return true;
            }
        }
        false
    }
    fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            let l = self.trail.pop().unwrap();
            self.val[l.unsigned_abs() as usize] = 0;
            self.reason[l.unsigned_abs() as usize] = NONE;
        }
        self.qh = to;
    }
    fn rup(&mut self, lits: &[i32]) -> bool {
        let mark = self.trail.len();
        for &l in lits {
            match self.v(l) {
                1 => {
                    self.undo(mark);
                    return true;
                }
                -1 => (),
                _ => self.set(-l, NONE),
            }
        }
        let r = self.propagate();
        self.undo(mark);
        r
    }
    fn rat(&mut self, lits: &[i32]) -> bool {
        let Some(&p) = lits.first() else { return false };
        let ids: Vec<usize> = (0..self.cls.len()).filter(|&i| self.cls[i].as_ref().is_some_and(|c| c.contains(&-p))).collect();
        for i in ids {
            let mut res: Vec<i32> = lits.to_vec();
            let c = self.cls[i].clone().unwrap();
            let mut taut = false;
            for l in c {
                if l != -p {
                    if res.contains(&-l) {
                        taut = true;
                        break;
                    }
                    res.push(l);
                }
            }
            if !taut && !self.rup(&res) {
                return false;
            }
        }
        true
    }
    fn delete(&mut self, lits: &[i32]) -> Result<(), String> {
        let mut d = lits.to_vec();
        d.sort_unstable();
        d.dedup();
        self.deletions += 1;
        if d.len() <= 1 {
            return Ok(()); // unit deletions are ignored
        }
        let Some(ids) = self.index.get_mut(&d) else { return Ok(()) }; // drat-trim warns and ignores
        let id = *ids.last().unwrap();
        // ignore the deletion of a reason
        let is_reason = self.cls[id].as_ref().is_some_and(|c| c.iter().any(|l| self.val[l.unsigned_abs() as usize] != 0 && self.reason[l.unsigned_abs() as usize] == id));
        if is_reason {
            return Ok(());
        }
        ids.pop();
        if ids.is_empty() {
            self.index.remove(&d);
        }
        self.cls[id] = None;
        Ok(())
    }
    /// `strict`: report a malformed text as bad; otherwise it is merely incomplete
    pub fn check(&mut self, text: &str) -> Proof {
        if self.root_conflict || self.propagate() {
            return Proof::Refutes;
        }
        let mut lits: Vec<i32> = Vec::new();
        let mut del = false;
        for (ln, line) in text.lines().enumerate() {
            for t in line.split_whitespace() {
                if t == "d" {
                    if !lits.is_empty() {
                        return Proof::Bad(format!("line {}: 'd' inside a clause", ln + 1));
                    }
                    del = true;
                    continue;
                }
                let Ok(x) = t.parse::<i32>() else {
                    return Proof::Bad(format!("line {}: token {t:?}", ln + 1));
                };
                if x != 0 {
                    if x.unsigned_abs() as usize > self.n {
                        return Proof::Bad(format!("line {}: variable {x} out of range", ln + 1));
                    }
                    lits.push(x);
                    continue;
                }
                if del {
                    if let Err(e) = self.delete(&lits) {
                        return Proof::Bad(format!("line {}: {e}", ln + 1));
                    }
                } else {
                    self.lemmas += 1;
                    if lits.len() == 1 {
                        self.units += 1;
                    }
                    if !self.rup(&lits) {
                        if self.rat(&lits) {
                            self.rats += 1;
                        } else {
                            return Proof::Bad(format!("line {}: clause {:?} is neither RUP nor RAT", ln + 1, lits));
                        }
                    }
                    self.add(&lits);
                    if self.root_conflict {
                        return Proof::Refutes;
                    }
                }
                lits.clear();
                del = false;
            }
        }
        Proof::Incomplete
    }
}

/// the proof says explicitly, as its last step, that it derived the empty clause
pub fn states_empty_clause(text: &str) -> bool {
    text.ends_with('\n') && text.lines().last().is_some_and(|l| l.trim() == "0")
}

/// every step follows and the empty clause is derived
pub fn check(nv: usize, cls: &[Vec<i32>], text: &str) -> (Proof, usize, usize, usize) {
    let mut c = Checker::new(nv, cls);
    let mut r = c.check(text);
    if r == Proof::Refutes && !states_empty_clause(text) {
        r = Proof::Incomplete;
    }
    (r, c.lemmas, c.deletions, c.rats)
}

/// what a reader of the file may conclude: `Bad` if some complete step does not follow, `Refutes` if
/// propagation over the steps refutes the formula (an unterminated last step is not a step)
pub fn check_prefix(nv: usize, cls: &[Vec<i32>], text: &str) -> Proof {
    Checker::new(nv, cls).check(text)
}
