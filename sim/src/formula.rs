//! Formulas and the workload generator.
use crate::rng::Rng;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Formula {
    pub nv: usize,
    pub cls: Vec<Vec<i32>>,
    pub family: String,
    /// a known model, when the construction provides one
    pub planted: bool,
}

impl Formula {
    pub fn dimacs(&self) -> String {
        let mut s = format!("p cnf {} {}\n", self.nv, self.cls.len());
        for c in &self.cls {
            for l in c {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            s.push_str("0\n");
        }
        s
    }
    pub fn max_var(&self) -> usize {
        self.cls.iter().flatten().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
    }
    /// index of a clause that the (possibly partial) assignment does not satisfy
    pub fn unsatisfied(&self, val: &dyn Fn(i32) -> Option<bool>) -> Option<usize> {
        self.cls.iter().position(|c| !c.iter().any(|&l| val(l.abs()) == Some(l > 0)))
    }
    /// judge a model as the solver returns it: one literal per variable, in order
    pub fn judge_model(&self, m: &[i32]) -> Result<(), String> {
        if m.len() != self.nv {
            return Err(format!("model has {} literals for {} variables", m.len(), self.nv));
        }
        for (i, l) in m.iter().enumerate() {
            if l.unsigned_abs() as usize != i + 1 {
                return Err(format!("literal {} stands at position {}", l, i + 1));
            }
        }
        match self.unsatisfied(&|v| Some(m[v as usize - 1] > 0)) {
            Some(i) => Err(format!("model falsifies clause {:?}", self.cls[i])),
            None => Ok(()),
        }
    }
    pub fn lits(&self) -> usize {
        self.cls.iter().map(|c| c.len()).sum()
    }
}

fn lit(r: &mut Rng, v: usize) -> i32 {
    if r.chance(50) { v as i32 } else { -(v as i32) }
}

pub fn rand_clause(r: &mut Rng, n: usize, k: usize) -> Vec<i32> {
    let mut c: Vec<i32> = Vec::new();
    let mut guard = 0;
    while c.len() < k.min(n) && guard < 1000 {
        guard += 1;
        let v = r.us(1, n);
        if !c.iter().any(|l| l.unsigned_abs() as usize == v) {
            c.push(lit(r, v));
        }
    }
    c
}

pub fn ksat(r: &mut Rng, n: usize, k: usize, ratio: f64) -> Formula {
    let m = (n as f64 * ratio) as usize;
    let cls = (0..m.max(1)).map(|_| rand_clause(r, n, k)).collect();
    Formula { nv: n, cls, family: format!("{k}sat"), planted: false }
}

pub fn planted(r: &mut Rng, n: usize, ratio: f64) -> Formula {
    let model: Vec<bool> = (0..=n).map(|_| r.chance(50)).collect();
    let m = (n as f64 * ratio) as usize;
    let mut cls = Vec::new();
    while cls.len() < m {
        let k = if r.chance(80) { 3 } else { r.us(2, 5) };
        let mut c = rand_clause(r, n, k);
        if !c.iter().any(|&l| model[l.unsigned_abs() as usize] == (l > 0)) {
            // balanced planting: flip a random literal
            let i = r.below(c.len() as u64) as usize;
            c[i] = -c[i];
        }
        cls.push(c);
    }
    Formula { nv: n, cls, family: "planted".into(), planted: true }
}

pub fn mixed(r: &mut Rng, n: usize) -> Formula {
    let m = (n as f64 * (1.5 + r.below(300) as f64 / 100.0)) as usize;
    let maxk = r.us(2, 7);
    let mut cls = Vec::new();
    for _ in 0..m.max(1) {
        let k = match r.below(20) {
            0 => 1,
            1..=5 => 2,
            _ => r.us(2, maxk.max(3)),
        };
        cls.push(rand_clause(r, n, k));
    }
    if r.chance(80) {
        // few units, otherwise trivial
        let mut u = 0;
        cls.retain(|c| c.len() > 1 || { u += 1; u <= 2 });
    }
    Formula { nv: n, cls, family: "mixed".into(), planted: false }
}

pub fn binary_heavy(r: &mut Rng, n: usize) -> Formula {
    let mut cls = Vec::new();
    for _ in 0..(n as f64 * (0.6 + r.below(40) as f64 / 100.0)) as usize {
        cls.push(rand_clause(r, n, 2));
    }
    for _ in 0..(n as f64 * (0.8 + r.below(200) as f64 / 100.0)) as usize {
        let k = r.us(3, 4);
        cls.push(rand_clause(r, n, k));
    }
    Formula { nv: n, cls, family: "binheavy".into(), planted: false }
}

pub fn php(pigeons: usize, holes: usize) -> Formula {
    let v = |p: usize, h: usize| (p * holes + h + 1) as i32;
    let mut cls = Vec::new();
    for p in 0..pigeons {
        cls.push((0..holes).map(|h| v(p, h)).collect());
    }
    for h in 0..holes {
        for p in 0..pigeons {
            for q in p + 1..pigeons {
                cls.push(vec![-v(p, h), -v(q, h)]);
            }
        }
    }
    Formula { nv: pigeons * holes, cls, family: "php".into(), planted: pigeons <= holes }
}

fn xor_clauses(vars: &[i32], rhs: bool, out: &mut Vec<Vec<i32>>) {
    let k = vars.len();
    for m in 0..(1u32 << k) {
        // forbid assignments with the wrong parity
        if (m.count_ones() % 2 == 1) != rhs {
            out.push((0..k).map(|i| if m >> i & 1 == 1 { -vars[i] } else { vars[i] }).collect());
        }
    }
}

/// Tseitin parity on a random cubic-ish graph
pub fn tseitin(r: &mut Rng, nodes: usize) -> Formula {
    let nodes = (nodes.max(4) / 2) * 2;
    let mut inc: Vec<Vec<i32>> = vec![Vec::new(); nodes];
    let mut e = 0;
    let mut add = |a: usize, b: usize, inc: &mut Vec<Vec<i32>>| {
        e += 1;
        inc[a].push(e);
        inc[b].push(e);
    };
    for i in 0..nodes {
        add(i, (i + 1) % nodes, &mut inc);
    }
    let mut p: Vec<usize> = (0..nodes).collect();
    r.shuffle(&mut p);
    for w in p.chunks(2) {
        if w.len() == 2 {
            add(w[0], w[1], &mut inc);
        }
    }
    let odd = r.chance(60);
    let mut cls = Vec::new();
    let mut charge = vec![false; nodes];
    for c in charge.iter_mut() {
        *c = r.chance(50);
    }
    let par = charge.iter().filter(|c| **c).count() % 2 == 1;
    if par != odd {
        charge[0] = !charge[0];
    }
    for i in 0..nodes {
        xor_clauses(&inc[i], charge[i], &mut cls);
    }
    r.shuffle(&mut cls);
    Formula { nv: e as usize, cls, family: "tseitin".into(), planted: !odd }
}

/// a random system of parity equations
pub fn parity(r: &mut Rng, n: usize) -> Formula {
    let m = (n as f64 * (0.7 + r.below(45) as f64 / 100.0)) as usize;
    let sat = r.chance(50);
    let model: Vec<bool> = (0..=n).map(|_| r.chance(50)).collect();
    let mut cls = Vec::new();
    for _ in 0..m {
        let k = r.us(2, 4).min(n);
        let vs: Vec<i32> = rand_clause(r, n, k).iter().map(|l| l.abs()).collect();
        let rhs = if sat { vs.iter().filter(|v| model[**v as usize]).count() % 2 == 1 } else { r.chance(50) };
        xor_clauses(&vs, rhs, &mut cls);
    }
    Formula { nv: n, cls, family: "parity".into(), planted: sat }
}

pub fn colouring(r: &mut Rng, nodes: usize, k: usize) -> Formula {
    let v = |i: usize, c: usize| (i * k + c + 1) as i32;
    let mut cls = Vec::new();
    for i in 0..nodes {
        cls.push((0..k).map(|c| v(i, c)).collect::<Vec<_>>());
        if r.chance(50) {
            for c in 0..k {
                for d in c + 1..k {
                    cls.push(vec![-v(i, c), -v(i, d)]);
                }
            }
        }
    }
    let dens = match k { 3 => 2.0 + r.below(60) as f64 / 100.0, _ => 3.8 + r.below(120) as f64 / 100.0 };
    for _ in 0..(nodes as f64 * dens) as usize {
        let a = r.below(nodes as u64) as usize;
        let b = r.below(nodes as u64) as usize;
        if a != b {
            for c in 0..k {
                cls.push(vec![-v(a, c), -v(b, c)]);
            }
        }
    }
    Formula { nv: nodes * k, cls, family: "colour".into(), planted: false }
}

/// random circuit: gates with Tseitin encoding, and a constraint on outputs; or a miter of a
/// circuit with a rewritten copy
pub fn circuit(r: &mut Rng, inputs: usize, gates: usize) -> Formula {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    let mut n = inputs as i32;
    let mut sig: Vec<i32> = (1..=n).collect();
    let mut defs: Vec<(u64, i32, i32)> = Vec::new();
    let gate = |kind: u64, a: i32, b: i32, n: &mut i32, cls: &mut Vec<Vec<i32>>| -> i32 {
        *n += 1;
        let o = *n;
        match kind {
            0 => { cls.push(vec![-o, a]); cls.push(vec![-o, b]); cls.push(vec![o, -a, -b]); }
            1 => { cls.push(vec![o, -a]); cls.push(vec![o, -b]); cls.push(vec![-o, a, b]); }
            _ => {
                cls.push(vec![-o, a, b]); cls.push(vec![-o, -a, -b]);
                cls.push(vec![o, -a, b]); cls.push(vec![o, a, -b]);
            }
        }
        o
    };
    for _ in 0..gates {
        let kind = r.below(3);
        let lo = sig.len().saturating_sub(r.us(3, 12));
        let a = sig[r.us(lo.min(sig.len() - 1), sig.len() - 1)] * if r.chance(50) { 1 } else { -1 };
        let b = sig[r.below(sig.len() as u64) as usize] * if r.chance(50) { 1 } else { -1 };
        if a.abs() == b.abs() {
            continue;
        }
        let o = gate(kind, a, b, &mut n, &mut cls);
        defs.push((kind, a, b));
        sig.push(o);
    }
    let mut planted = false;
    if r.chance(50) && !defs.is_empty() {
        // miter: rebuild with De Morgan / xor identities, assert some output differs
        let mut map: Vec<i32> = (0..=inputs as i32).collect();
        let look = |map: &Vec<i32>, l: i32| if l > 0 { map[l as usize] } else { -map[(-l) as usize] };
        let bug = r.chance(40);
        let bug_at = r.below(defs.len() as u64) as usize;
        for (i, &(kind, a, b)) in defs.iter().enumerate() {
            let (a2, b2) = (look(&map, a), look(&map, b));
            let o = if bug && i == bug_at {
                gate((kind + 1) % 3, a2, b2, &mut n, &mut cls)
            } else {
                match kind {
                    0 => -gate(1, -a2, -b2, &mut n, &mut cls),
                    1 => -gate(0, -b2, -a2, &mut n, &mut cls),
                    _ => {
                        let p = gate(0, a2, -b2, &mut n, &mut cls);
                        let q = gate(0, -a2, b2, &mut n, &mut cls);
                        gate(1, p, q, &mut n, &mut cls)
                    }
                }
            };
            map.push(o);
        }
        let outs = r.us(1, 3).min(defs.len());
        let mut ors = Vec::new();
        for j in 0..outs {
            let g = (inputs + defs.len() - j) as i32;
            let d = gate(2, g, map[g as usize], &mut n, &mut cls);
            ors.push(d);
        }
        cls.push(ors);
    } else {
        // evaluate on a random input to fix outputs consistently (sat) or at random
        let mut val = vec![false; n as usize + 1];
        for v in val.iter_mut().take(inputs + 1).skip(1) {
            *v = r.chance(50);
        }
        let ev = |val: &Vec<bool>, l: i32| val[l.unsigned_abs() as usize] == (l > 0);
        for (i, &(kind, a, b)) in defs.iter().enumerate() {
            let (x, y) = (ev(&val, a), ev(&val, b));
            val[inputs + 1 + i] = match kind { 0 => x && y, 1 => x || y, _ => x != y };
        }
        let consistent = r.chance(50);
        planted = consistent;
        let outs = r.us(1, (defs.len() / 3).max(1)).min(defs.len());
        for j in 0..outs {
            let g = (inputs + defs.len() - j) as i32;
            if g <= 0 { break; }
            let want = if consistent { val[g as usize] } else { r.chance(50) };
            let l = if want { g } else { -g };
            if r.chance(60) {
                cls.push(vec![l]);
            } else {
                let o = sig[r.below(sig.len() as u64) as usize];
                let o = if consistent && !val[o as usize] { -o } else { o };
                if o.abs() != l.abs() { cls.push(vec![l, o]); }
            }
        }
    }
    Formula { nv: n as usize, cls, family: "circuit".into(), planted }
}

/// at-most-one groups with a cover: exact-cover-like
pub fn cover(r: &mut Rng, n: usize) -> Formula {
    let groups = r.us(n / 6 + 1, n / 2 + 2);
    let mut cls = Vec::new();
    for _ in 0..groups {
        let k = r.us(2, 6).min(n);
        let c: Vec<i32> = rand_clause(r, n, k).iter().map(|l| l.abs()).collect();
        for i in 0..c.len() {
            for j in i + 1..c.len() {
                cls.push(vec![-c[i], -c[j]]);
            }
        }
        cls.push(c);
    }
    Formula { nv: n, cls, family: "cover".into(), planted: false }
}

/// chains of implications with equivalences: many units and eliminations at the root level
pub fn chains(r: &mut Rng, n: usize) -> Formula {
    let mut cls = Vec::new();
    let mut p: Vec<usize> = (1..=n).collect();
    r.shuffle(&mut p);
    let sgn: Vec<i32> = (0..=n).map(|_| if r.chance(50) { 1 } else { -1 }).collect();
    for w in p.windows(2) {
        let (a, b) = (w[0] as i32 * sgn[w[0]], w[1] as i32 * sgn[w[1]]);
        match r.below(5) {
            0 => (),
            1 => { cls.push(vec![-a, b]); cls.push(vec![a, -b]); }
            _ => cls.push(vec![-a, b]),
        }
    }
    for _ in 0..r.us(1, n) {
        let k = r.us(2, 4);
        cls.push(rand_clause(r, n, k));
    }
    Formula { nv: n, cls, family: "chains".into(), planted: false }
}

/// small search space but exhaustive weirdness
pub fn tiny(r: &mut Rng) -> Formula {
    let n = r.us(1, 8);
    let m = r.us(1, 5 * n);
    let mut cls = Vec::new();
    for _ in 0..m {
        let k = match r.below(12) { 0 => 1, 1..=5 => 2, _ => r.us(2, 4) };
        cls.push(rand_clause(r, n, k.min(n)));
    }
    Formula { nv: n, cls, family: "tiny".into(), planted: false }
}

/// many clauses share literals: subsumption and strengthening opportunities
pub fn subsumable(r: &mut Rng, n: usize) -> Formula {
    let q = 3.0 + r.below(130) as f64 / 100.0;
    let mut f = if r.chance(50) { ksat(r, n, 3, q) } else { planted(r, n, 4.0) };
    let base = f.cls.clone();
    for _ in 0..r.us(1, base.len()) {
        let mut c = r.pick(&base).clone();
        for _ in 0..r.us(0, 3) {
            let v = r.us(1, n);
            if !c.iter().any(|l| l.unsigned_abs() as usize == v) {
                let l = lit(r, v);
                c.push(l);
            }
        }
        if r.chance(40) {
            // self-subsumption: flip one literal of the copy
            let i = r.below(c.len() as u64) as usize;
            c[i] = -c[i];
            f.planted = false;
        }
        f.cls.push(c);
    }
    f.family = "subsumable".into();
    f
}

/// long clauses that search shortens: pairs whose resolvent subsumes both, over a searchable core
pub fn longsub(r: &mut Rng, n: usize) -> Formula {
    let q = 3.2 + r.below(100) as f64 / 100.0;
    let mut f = if r.chance(40) { ksat(r, n, 3, q) } else { planted(r, n, q) };
    f.planted = false;
    let m = r.us(1, n);
    for _ in 0..m {
        let k = r.us(4, 12).min(n.saturating_sub(1));
        let c = rand_clause(r, n, k);
        match r.below(4) {
            0 => f.cls.push(c),
            1 | 2 => {
                // x and not x behind the same literals
                let v = r.us(1, n);
                if c.iter().any(|l| l.unsigned_abs() as usize == v) {
                    continue;
                }
                for s in [1, -1] {
                    let mut d = c.clone();
                    d.push(s * v as i32);
                    let i = r.below(d.len() as u64) as usize;
                    let e = d.len() - 1;
                    d.swap(i, e);
                    f.cls.push(d);
                }
            }
            _ => {
                // a literal that another literal of the clause implies
                if c.len() >= 2 {
                    f.cls.push(vec![-c[0], c[1]]);
                }
                f.cls.push(c);
            }
        }
    }
    f.family = "longsub".into();
    f
}

/// at-most-k by sequential counters and clauses that push against them
pub fn cardinality(r: &mut Rng, n: usize) -> Formula {
    let mut cls = Vec::new();
    let mut nv = n;
    for _ in 0..r.us(1, 3) {
        let m = r.us(3, n.max(3)).min(n);
        let k = r.us(1, (m / 2).max(1));
        let xs = rand_clause(r, n, m);
        // s(i,j): at least j of the first i
        let mut s = vec![vec![0i32; k + 1]; xs.len()];
        for row in s.iter_mut() {
            for x in row.iter_mut().skip(1) {
                nv += 1;
                *x = nv as i32;
            }
        }
        for i in 0..xs.len() {
            cls.push(vec![-xs[i], s[i][1]]);
            if i > 0 {
                for j in 1..=k {
                    cls.push(vec![-s[i - 1][j], s[i][j]]);
                    if j > 1 {
                        cls.push(vec![-xs[i], -s[i - 1][j - 1], s[i][j]]);
                    }
                }
                cls.push(vec![-xs[i], -s[i - 1][k]]);
            }
        }
    }
    for _ in 0..r.us(1, 3 * n) {
        let k = r.us(2, 5).min(n);
        cls.push(rand_clause(r, n, k));
    }
    Formula { nv, cls, family: "card".into(), planted: false }
}

/// a total order without a minimum: unsatisfiable; with a defect now and then
pub fn ordering(r: &mut Rng, n: usize) -> Formula {
    let n = n.max(2);
    let v = |i: usize, j: usize| -> i32 {
        let (a, b, s) = if i < j { (i, j, 1) } else { (j, i, -1) };
        s * (a * n + b + 1) as i32
    };
    let mut cls = Vec::new();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i < j && i < k && j != k {
                    cls.push(vec![-v(i, j), -v(j, k), -v(k, i)]);
                }
            }
        }
    }
    let skip = if r.chance(30) { r.below(n as u64) as usize } else { n };
    for j in 0..n {
        if j != skip {
            cls.push((0..n).filter(|i| *i != j).map(|i| v(i, j)).collect());
        }
    }
    Formula { nv: n * n, cls, family: "order".into(), planted: skip < n }
}

/// one very long clause (just beyond `base` literals), nearly all of whose literals a few variables switch
/// off together, and clauses over those that are left
pub fn wide(r: &mut Rng, base: usize) -> Formula {
    let n = base + r.us(0, 14);
    let mut free: Vec<i32> = (base - 6..=n).filter(|_| r.chance(66)).map(|i| i as i32).collect();
    for _ in 0..r.below(4) {
        let v = r.us(1, base - 7) as i32;
        if !free.contains(&v) {
            free.push(v);
        }
    }
    let ns = r.us(1, 3);
    let mut sign = vec![1i32; n + 1];
    if r.chance(30) {
        for x in sign.iter_mut() {
            if r.chance(50) {
                *x = -1;
            }
        }
    }
    let mut cls: Vec<Vec<i32>> = vec![(1..=n).map(|i| i as i32 * sign[i]).collect()];
    for i in 1..=n {
        if !free.contains(&(i as i32)) {
            cls.push(vec![-((n + r.us(1, ns)) as i32), -(i as i32) * sign[i]]);
        }
    }
    let mut pool: Vec<(i32, u64)> = free.iter().map(|&v| (v * sign[v as usize], 75)).collect();
    pool.extend((1..=ns).map(|j| ((n + j) as i32, 25)));
    pool.extend((1..=4).map(|j| ((n + ns + j) as i32, 50)));
    let m = pool.len() * r.us(8, 24) / 10;
    for _ in 0..m {
        let k = r.us(2, 3);
        let mut c: Vec<i32> = Vec::new();
        while c.len() < k {
            let (v, neg) = *r.pick(&pool);
            if !c.iter().any(|x| x.unsigned_abs() == v.unsigned_abs()) {
                c.push(if r.chance(neg) { -v } else { v });
            }
        }
        cls.push(c);
    }
    if r.chance(50) {
        r.shuffle(&mut cls);
    }
    Formula { nv: n + ns + 4, cls, family: format!("wide{base}"), planted: false }
}

/// union of disjoint parts, variables interleaved
fn disjoint(r: &mut Rng, a: Formula, b: Formula) -> Formula {
    let n = a.nv + b.nv;
    let mut p: Vec<i32> = (1..=n as i32).collect();
    r.shuffle(&mut p);
    let ren = |l: i32, off: usize| { let v = p[l.unsigned_abs() as usize - 1 + off]; if l > 0 { v } else { -v } };
    let mut cls: Vec<Vec<i32>> = a.cls.iter().map(|c| c.iter().map(|&l| ren(l, 0)).collect()).collect();
    cls.extend(b.cls.iter().map(|c| c.iter().map(|&l| ren(l, a.nv)).collect::<Vec<i32>>()));
    r.shuffle(&mut cls);
    Formula { nv: n, cls, family: format!("{}+{}", a.family, b.family), planted: a.planted && b.planted }
}

/// a small core inside something large: many variables, many clauses, a variable with many occurrences,
/// or a long clause; the padding has a model of its own
pub fn big(r: &mut Rng, most: u64) -> Formula {
    let mut f = if r.chance(30) { tiny(r) } else { base(r, 0) };
    let kind = r.below(5);
    let nv = f.nv.max(f.max_var());
    f.nv = nv;
    match kind {
        // many variables: the core is scattered among them
        0 => {
            let n = nv + match r.below(4) { 0 => r.us(200, 300), 1 => r.us(1000, 5000), _ => (65_400 + r.us(0, 5000)).min(most as usize) };
            let mut at: std::collections::BTreeSet<i32> = [n as i32].into();
            while at.len() < nv.min(n) {
                at.insert(if r.chance(30) { n - r.us(0, (n - 1).min(200)) } else { r.us(1, n) } as i32);
            }
            let p: Vec<i32> = at.into_iter().collect();
            for l in f.cls.iter_mut().flatten() {
                let v = p[(l.unsigned_abs() as usize - 1) % p.len()];
                *l = if *l > 0 { v } else { -v };
            }
            f.nv = n;
        }
        // variables with many occurrences
        1 => {
            let occ = *r.pick(&[90, 240, 780, 990, 1300, 2000]) + r.us(0, 40);
            let pads = r.us(20, 400);
            for _ in 0..r.us(1, 3) {
                let h = r.us(1, nv.max(1)) as i32;
                let one = r.chance(30);
                for _ in 0..occ {
                    let l = if one || r.chance(50) { h } else { -h };
                    let mut c = vec![l, (nv + r.us(1, pads)) as i32];
                    if r.chance(60) {
                        let w = nv + r.us(1, pads);
                        c.push(lit(r, w));
                    }
                    c.dedup_by_key(|x| x.unsigned_abs());
                    r.shuffle(&mut c);
                    f.cls.push(c);
                }
            }
            f.nv = nv + pads;
        }
        // many clauses
        2 | 3 => {
            let m = match r.below(5) { 0 => r.us(3000, 9000), 1 => r.us(19_000, 22_000), 2 => r.us(32_000, 34_000), 3 => 65_400 + r.us(0, 500), _ => 99_990 + r.us(0, 60) };
            let m = m.min(most as usize + 50);
            let pads = r.us(m / 5, m).max(4);
            let sign: Vec<bool> = (0..=pads).map(|_| r.chance(50)).collect();
            for _ in 0..m.saturating_sub(f.cls.len()) {
                let k = r.us(2, 4);
                let mut c: Vec<i32> = Vec::new();
                for i in 0..k {
                    let v = r.us(1, pads);
                    let x = (nv + v) as i32;
                    if !c.iter().any(|y: &i32| y.unsigned_abs() == x.unsigned_abs()) {
                        c.push(if sign[v] == (i == 0 || r.chance(75)) { x } else { -x });
                    }
                }
                if r.chance(1) && nv > 0 {
                    let w = r.us(1, nv);
                    c.push(lit(r, w));
                }
                f.cls.push(c);
            }
            f.nv = nv + pads;
        }
        // long clauses
        _ => {
            let k = match r.below(4) { 0 => r.us(60, 70), 1 => r.us(95, 130), 2 => r.us(250, 260), _ => (8100 + r.us(0, 200)).min(most as usize) };
            for _ in 0..r.us(1, 3) {
                let mut c: Vec<i32> = (1..=k).map(|i| { let v = nv + i; lit(r, v) }).collect();
                if r.chance(50) && nv > 0 {
                    let w = r.us(1, nv);
                    c.push(lit(r, w));
                }
                // most of its literals are switched off by few variables, in the model as well
                for l in c.clone() {
                    if r.chance(85) && l.unsigned_abs() as usize > nv {
                        f.cls.push(vec![-l, (nv + k + r.us(1, 3)) as i32]);
                    }
                }
                r.shuffle(&mut c);
                f.cls.push(c);
            }
            for _ in 0..r.us(0, 30) {
                let (a, b) = (nv + r.us(1, k + 3), nv + r.us(1, k + 3));
                if a != b {
                    f.cls.push(vec![lit(r, a), lit(r, b)]);
                }
            }
            f.planted = false;
            f.nv = nv + k + 3;
        }
    }
    if kind != 0 && r.chance(50) {
        r.shuffle(&mut f.cls);
    }
    f.family = format!("big{kind}-{}", f.family);
    f.nv = f.nv.max(f.max_var());
    f
}

/// noise that does not change the models
fn decorate(r: &mut Rng, f: &mut Formula) {
    if r.chance(15) && !f.cls.is_empty() {
        // duplicate clauses, duplicated literals, permuted literals
        for _ in 0..r.us(1, 5) {
            let mut c = r.pick(&f.cls).clone();
            if r.chance(50) {
                let l = *r.pick(&c);
                c.push(l);
            }
            r.shuffle(&mut c);
            f.cls.push(c);
        }
    }
    if r.chance(8) && f.nv > 0 {
        // tautologies
        for _ in 0..r.us(1, 3) {
            let v = r.us(1, f.nv) as i32;
            let mut c = vec![v, -v];
            let w = r.us(1, f.nv);
            c.push(lit(r, w));
            r.shuffle(&mut c);
            f.cls.push(c);
        }
    }
    if r.chance(10) {
        // variables that occur nowhere (the vector interface cannot declare them beyond the maximum)
        let gap = r.us(1, 4);
        for c in f.cls.iter_mut() {
            for l in c.iter_mut() {
                let v = l.unsigned_abs() as usize;
                if v % 3 == 0 {
                    *l = if *l > 0 { *l } else { -(v as i32) };
                }
            }
        }
        let n = f.nv + gap;
        let mut p: Vec<i32> = (1..=n as i32).collect();
        r.shuffle(&mut p);
        for c in f.cls.iter_mut() {
            for l in c.iter_mut() {
                let v = p[l.unsigned_abs() as usize - 1];
                *l = if *l > 0 { v } else { -v };
            }
        }
        f.nv = n;
    }
    if r.chance(30) {
        r.shuffle(&mut f.cls);
    }
}

/// `scale` 0: a few ms per solve, 1: tens of ms, 2: hundreds of ms
pub fn generate(r: &mut Rng, scale: usize) -> Formula {
    if r.below(150) == 0 {
        let b = *r.pick(&[26, 58, 122, 250]);
        let mut f = wide(r, b);
        f.nv = f.nv.max(f.max_var());
        return f;
    }
    let mut f = base(r, scale);
    decorate(r, &mut f);
    if f.nv < f.max_var() {
        f.nv = f.max_var();
    }
    f
}

fn base(r: &mut Rng, scale: usize) -> Formula {
    let s = scale;
    match r.below(26) {
        0 => tiny(r),
        1..=4 => {
            let n = match s { 0 => r.us(10, 90), 1 => r.us(60, 150), _ => r.us(130, 200) };
            let q = 3.9 + r.below(60) as f64 / 100.0;
            ksat(r, n, 3, q)
        }
        5 => {
            let n = match s { 0 => r.us(8, 35), 1 => r.us(30, 55), _ => r.us(45, 70) };
            let q = 9.0 + r.below(120) as f64 / 100.0;
            ksat(r, n, 4, q)
        }
        6 | 7 => {
            let n = match s { 0 => r.us(20, 150), 1 => r.us(100, 300), _ => r.us(200, 350) };
            let q = 3.6 + r.below(90) as f64 / 100.0;
            planted(r, n, q)
        }
        8 => { let n = match s { 0 => r.us(8, 80), 1 => r.us(50, 200), _ => r.us(150, 400) }; mixed(r, n) }
        9 => { let n = match s { 0 => r.us(10, 100), 1 => r.us(60, 200), _ => r.us(100, 300) }; binary_heavy(r, n) }
        10 => {
            let h = match s { 0 => r.us(2, 6), 1 => r.us(5, 7), _ => r.us(6, 8) };
            let p = if r.chance(65) { h + 1 } else { h };
            php(p, h)
        }
        11 => { let n = match s { 0 => r.us(4, 16), 1 => r.us(12, 24), _ => r.us(20, 30) }; tseitin(r, n) }
        12 => { let n = match s { 0 => r.us(6, 30), 1 => r.us(20, 50), _ => r.us(40, 70) }; parity(r, n) }
        13 => { let n = match s { 0 => r.us(5, 25), 1 => r.us(15, 50), _ => r.us(40, 90) }; let k = if r.chance(70) { 3 } else { 4 }; colouring(r, n, k) }
        14..=16 => {
            let (i, g) = match s { 0 => (r.us(3, 8), r.us(3, 30)), 1 => (r.us(5, 10), r.us(20, 80)), _ => (r.us(8, 14), r.us(60, 160)) };
            circuit(r, i, g)
        }
        17 => { let n = match s { 0 => r.us(8, 40), 1 => r.us(30, 80), _ => r.us(60, 120) }; cover(r, n) }
        18 => { let n = match s { 0 => r.us(5, 60), 1 => r.us(40, 200), _ => r.us(150, 500) }; chains(r, n) }
        19 | 20 => { let n = match s { 0 => r.us(8, 70), 1 => r.us(50, 120), _ => r.us(100, 170) }; subsumable(r, n) }
        21 | 22 => { let n = match s { 0 => r.us(8, 70), 1 => r.us(50, 140), _ => r.us(120, 200) }; longsub(r, n) }
        23 => { let n = match s { 0 => r.us(4, 14), 1 => r.us(10, 24), _ => r.us(20, 40) }; cardinality(r, n) }
        24 => { let n = match s { 0 => r.us(3, 7), 1 => r.us(6, 10), _ => r.us(9, 14) }; ordering(r, n) }
        _ => {
            let a = base(r, 0);
            let b = base(r, s.min(1));
            disjoint(r, a, b)
        }
    }
}

/// formulas that keep the search busy for long (used where a deadline must fall inside a search)
pub fn hard(r: &mut Rng) -> Formula {
    match r.below(4) {
        0 => php(r.us(9, 10) + 1, r.us(9, 10)),
        1 => { let n = r.us(220, 300); ksat(r, n, 3, 4.3) }
        2 => { let n = r.us(60, 80); tseitin(r, n) }
        _ => { let n = r.us(70, 100); ksat(r, n, 4, 9.9) }
    }
}
