//! Small independent CDCL solver, the reference for verdicts. Checks its own SAT answers.
pub struct Ref {
    n: usize,
    cls: Vec<Vec<i32>>,
    watch: Vec<Vec<usize>>,
    val: Vec<i8>,
    level: Vec<usize>,
    reason: Vec<usize>,
    trail: Vec<i32>,
    lim: Vec<usize>,
    qh: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<usize>,
    pos: Vec<usize>,
    pub conflicts: u64,
}
const NONE: usize = usize::MAX;
fn wi(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + usize::from(l < 0)
}
impl Ref {
    fn v(&self, l: i32) -> i8 {
        let x = self.val[l.unsigned_abs() as usize];
        if l > 0 { x } else { -x }
    }
    fn enqueue(&mut self, l: i32, r: usize) {
        let v = l.unsigned_abs() as usize;
        self.val[v] = if l > 0 { 1 } else { -1 };
        self.level[v] = self.lim.len();
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> Option<usize> {
        while self.qh < self.trail.len() {
            let p = self.trail[self.qh];
            self.qh += 1;
            let mut ws = std::mem::take(&mut self.watch[wi(-p)]);
            let mut i = 0;
            let mut confl = None;
            while i < ws.len() {
                let c = ws[i];
                if self.cls[c][0] == -p {
                    self.cls[c].swap(0, 1);
                }
                let first = self.cls[c][0];
                if self.v(first) == 1 {
                    i += 1;
                    continue;
                }
                let mut moved = false;
                for k in 2..self.cls[c].len() {
                    if self.v(self.cls[c][k]) != -1 {
                        self.cls[c].swap(1, k);
                        let nw = wi(self.cls[c][1]);
                        self.watch[nw].push(c);
                        ws.swap_remove(i);
                        moved = true;
                        break;
                    }
                }
                if moved {
                    continue;
                }
                if self.v(first) == -1 {
                    confl = Some(c);
                    break;
                }
                self.enqueue(first, c);
                i += 1;
            }
            self.watch[wi(-p)].append(&mut ws);
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
    fn less(&self, a: usize, b: usize) -> bool {
        self.act[a] > self.act[b] || (self.act[a] == self.act[b] && a < b)
    }
    fn up(&mut self, mut i: usize) {
        while i > 0 {
            let p = (i - 1) / 2;
            if self.less(self.heap[i], self.heap[p]) {
                self.heap.swap(i, p);
                self.pos[self.heap[i]] = i;
                self.pos[self.heap[p]] = p;
                i = p;
            } else {
                break;
            }
        }
    }
    fn down(&mut self, mut i: usize) {
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.less(self.heap[c + 1], self.heap[c]) {
                c += 1;
            }
            if self.less(self.heap[c], self.heap[i]) {
                self.heap.swap(i, c);
                self.pos[self.heap[i]] = i;
                self.pos[self.heap[c]] = c;
                i = c;
            } else {
                break;
            }
        }
    }
    fn insert(&mut self, v: usize) {
        if self.pos[v] == NONE {
            self.pos[v] = self.heap.len();
            self.heap.push(v);
            self.up(self.heap.len() - 1);
        }
    }
    fn pop(&mut self) -> Option<usize> {
        let top = *self.heap.first()?;
        let last = self.heap.pop().unwrap();
        self.pos[top] = NONE;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.pos[last] = 0;
            self.down(0);
        }
        Some(top)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.pos[v] != NONE {
            self.up(self.pos[v]);
        }
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for i in (to..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = l.unsigned_abs() as usize;
            self.val[v] = 0;
            self.phase[v] = l > 0;
            self.insert(v);
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl);
        self.qh = to;
    }
}

/// Some(Some(model)) sat, Some(None) unsat, None: gave up after `budget` conflicts
pub fn solve(nv: usize, cls: &[Vec<i32>], budget: u64) -> Option<Option<Vec<i32>>> {
    let mut s = Ref {
        n: nv,
        cls: Vec::new(),
        watch: vec![Vec::new(); 2 * nv + 2],
        val: vec![0; nv + 1],
        level: vec![0; nv + 1],
        reason: vec![NONE; nv + 1],
        trail: Vec::new(),
        lim: Vec::new(),
        qh: 0,
        act: vec![0.0; nv + 1],
        inc: 1.0,
        phase: vec![false; nv + 1],
        heap: Vec::new(),
        pos: vec![NONE; nv + 1],
        conflicts: 0,
    };
    let mut units = Vec::new();
    for c in cls {
        let mut d = c.clone();
        d.sort_by_key(|l| (l.abs(), *l));
        d.dedup();
        if d.windows(2).any(|w| w[0] == -w[1]) {
            continue;
        }
        match d.len() {
            0 => return Some(None),
            1 => units.push(d[0]),
            _ => {
                let i = s.cls.len();
                s.watch[wi(d[0])].push(i);
                s.watch[wi(d[1])].push(i);
                s.cls.push(d);
            }
        }
    }
    for v in 1..=nv {
        s.insert(v);
    }
    for u in units {
        match s.v(u) {
            1 => (),
            -1 => return Some(None),
            _ => s.enqueue(u, NONE),
        }
    }
    let nbase = s.cls.len();
    let mut seen = vec![false; nv + 1];
    let mut restart_at = 100u64;
    let mut luby_i = 1u64;
    let mut max_learnt = nbase / 2 + 3000;
    loop {
        if let Some(confl) = s.propagate() {
            s.conflicts += 1;
            if s.lim.is_empty() {
                return Some(None);
            }
            if s.conflicts > budget {
                return None;
            }
            let mut learnt = vec![0i32];
            let mut cnt = 0;
            let mut p = 0i32;
            let mut c = confl;
            let mut idx = s.trail.len();
            let lvl = s.lim.len();
            loop {
                let lits = s.cls[c].clone();
                for q in lits {
                    if q == p {
                        continue;
                    }
                    let v = q.unsigned_abs() as usize;
                    if !seen[v] && s.level[v] > 0 {
                        seen[v] = true;
                        s.bump(v);
                        if s.level[v] == lvl {
                            cnt += 1;
                        } else {
                            learnt.push(q);
                        }
                    }
                }
                loop {
                    idx -= 1;
                    if seen[s.trail[idx].unsigned_abs() as usize] {
                        break;
                    }
                }
                p = s.trail[idx];
                let v = p.unsigned_abs() as usize;
                c = s.reason[v];
                seen[v] = false;
                cnt -= 1;
                if cnt == 0 {
                    break;
                }
            }
            learnt[0] = -p;
            for l in &learnt {
                seen[l.unsigned_abs() as usize] = false;
            }
            let mut bl = 0;
            if learnt.len() > 1 {
                let mut m = 1;
                for k in 2..learnt.len() {
                    if s.level[learnt[k].unsigned_abs() as usize] > s.level[learnt[m].unsigned_abs() as usize] {
                        m = k;
                    }
                }
                learnt.swap(1, m);
                bl = s.level[learnt[1].unsigned_abs() as usize];
            }
            s.cancel(bl);
            if learnt.len() == 1 {
                s.enqueue(learnt[0], NONE);
            } else {
                let i = s.cls.len();
                s.watch[wi(learnt[0])].push(i);
                s.watch[wi(learnt[1])].push(i);
                let l0 = learnt[0];
                s.cls.push(learnt);
                s.enqueue(l0, i);
            }
            s.inc /= 0.95;
        } else {
            if s.conflicts >= restart_at {
                // luby
                luby_i += 1;
                let mut k = 1u64;
                while (1 << k) - 1 < luby_i {
                    k += 1;
                }
                let mut i = luby_i;
                let mut kk = k;
                while (1u64 << kk) - 1 != i {
                    i -= (1 << (kk - 1)) - 1;
                    kk = 1;
                    while (1u64 << kk) - 1 < i {
                        kk += 1;
                    }
                }
                restart_at = s.conflicts + 100 * (1 << (kk - 1));
                s.cancel(0);
                if s.cls.len() - nbase > max_learnt {
                    // drop half of the long learnt clauses (all assignments are at level 0: no reasons needed)
                    let mut keep = s.cls[..nbase].to_vec();
                    let learnt = s.cls[nbase..].to_vec();
                    let half = learnt.len() / 2;
                    for (i, c) in learnt.into_iter().enumerate() {
                        if i >= half || c.len() <= 6 {
                            keep.push(c);
                        }
                    }
                    max_learnt += 500;
                    s.cls = keep;
                    for w in s.watch.iter_mut() {
                        w.clear();
                    }
                    for r in s.reason.iter_mut() {
                        *r = NONE;
                    }
                    // re-propagate the level-0 trail over rebuilt watches
                    s.qh = 0;
                    for i in 0..s.cls.len() {
                        // watch literals that are not false if possible
                        let mut c = std::mem::take(&mut s.cls[i]);
                        c.sort_by_key(|&l| match s.v(l) { 1 => 0, 0 => 1, _ => 2 });
                        s.watch[wi(c[0])].push(i);
                        s.watch[wi(c[1])].push(i);
                        s.cls[i] = c;
                    }
                    continue;
                }
            }
            let mut dec = 0;
            while let Some(v) = s.pop() {
                if s.val[v] == 0 {
                    dec = v;
                    break;
                }
            }
            if dec == 0 {
                let m: Vec<i32> = (1..=s.n).map(|v| if s.val[v] > 0 { v as i32 } else { -(v as i32) }).collect();
                for c in cls {
                    assert!(c.iter().any(|l| m[l.unsigned_abs() as usize - 1] == *l), "reference solver model check");
                }
                return Some(Some(m));
            }
            let l = if s.phase[dec] { dec as i32 } else { -(dec as i32) };
            s.lim.push(s.trail.len());
            s.enqueue(l, NONE);
        }
    }
}

/// exhaustive, for self tests
pub fn brute(nv: usize, cls: &[Vec<i32>]) -> bool {
    (0u64..1 << nv).any(|m| cls.iter().all(|c| c.iter().any(|&l| (m >> (l.unsigned_abs() - 1) & 1 == 1) == (l > 0))))
}
