//! A scenario: everything one simulated run depends on, as text.  A scenario file is a replay file.
use crate::formula::Formula;
use crate::rng::mix;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub seed: u64,
    pub k: u64,
    pub kv: BTreeMap<String, String>,
    pub plan: Vec<String>,
    pub ops: Vec<String>,
    pub fs: Vec<Formula>,
}

/// What a run showed.
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub viol: Option<(String, String)>,
    pub nontrivial: bool,
    pub sig: u64,
    pub cov: BTreeMap<String, u64>,
    /// schedule that was drawn, in explicit form (for minimisation)
    pub switches: Vec<String>,
    /// simulated nanoseconds that passed
    pub sim_ns: u64,
    /// simulated executions of the system under test inside this scenario
    pub runs: u64,
    pub note: String,
}

impl Out {
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.cov.entry(name.to_string()).or_default() += n;
        }
    }
    pub fn fail(&mut self, class: &str, msg: impl Into<String>) {
        if self.viol.is_none() {
            let m: String = msg.into();
            self.viol = Some((class.to_string(), m.replace('\n', " | ")));
        }
    }
    pub fn absorb(&mut self, x: u64) {
        self.sig = mix(self.sig ^ x);
    }
    pub fn absorb_str(&mut self, s: &str) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in s.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        self.absorb(h);
    }
}

impl Scn {
    pub fn new(prop: &str, seed: u64, k: u64) -> Scn {
        Scn { prop: prop.into(), seed, k, ..Scn::default() }
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.kv.insert(k.to_string(), v.to_string());
    }
    pub fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn int(&self, k: &str, d: i64) -> i64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn f(&self, k: &str, d: f64) -> f64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn on(&self, k: &str) -> bool {
        self.int(k, 0) != 0
    }
    pub fn plan_text(&self) -> String {
        self.plan.iter().map(|l| format!("{l}\n")).collect()
    }

    pub fn to_text(&self) -> String {
        let mut s = format!("splrsim-scenario 1\nprop {}\nseed {}\nk {}\n", self.prop, self.seed, self.k);
        for (k, v) in &self.kv {
            s += &format!("kv {k} {v}\n");
        }
        for p in &self.plan {
            s += &format!("plan {p}\n");
        }
        for o in &self.ops {
            s += &format!("op {o}\n");
        }
        for f in &self.fs {
            s += &format!("formula {} {}\n", f.nv, if f.family.is_empty() { "-" } else { &f.family });
            if f.planted {
                s += "planted\n";
            }
            for c in &f.cls {
                s += "c";
                for l in c {
                    s += &format!(" {l}");
                }
                s += "\n";
            }
        }
        s += "end\n";
        s
    }
    pub fn from_text(t: &str) -> Result<Scn, String> {
        let mut s = Scn::default();
        let mut ended = false;
        for (i, line) in t.lines().enumerate() {
            let (h, rest) = line.split_once(' ').unwrap_or((line, ""));
            match h {
                "splrsim-scenario" | "#" => (),
                "prop" => s.prop = rest.into(),
                "seed" => s.seed = rest.parse().map_err(|e| format!("line {i}: {e}"))?,
                "k" => s.k = rest.parse().map_err(|e| format!("line {i}: {e}"))?,
                "kv" => {
                    let (k, v) = rest.split_once(' ').unwrap_or((rest, ""));
                    s.kv.insert(k.into(), v.into());
                }
                "plan" => s.plan.push(rest.into()),
                "op" => s.ops.push(rest.into()),
                "formula" => {
                    let (nv, fam) = rest.split_once(' ').unwrap_or((rest, "-"));
                    s.fs.push(Formula {
                        nv: nv.parse().map_err(|e| format!("line {i}: {e}"))?,
                        family: fam.into(),
                        ..Formula::default()
                    });
                }
                "planted" => s.fs.last_mut().ok_or("planted")?.planted = true,
                "c" => {
                    let c: Result<Vec<i32>, _> = rest.split_whitespace().map(|w| w.parse::<i32>()).collect();
                    s.fs.last_mut().ok_or("clause")?.cls.push(c.map_err(|e| format!("line {i}: {e}"))?);
                }
                "end" => {
                    ended = true;
                    break;
                }
                "" => (),
                _ => return Err(format!("line {i}: {line}")),
            }
        }
        if ended { Ok(s) } else { Err("truncated scenario".into()) }
    }

    pub fn size(&self) -> usize {
        self.kv.len() * 2 + self.plan.len() * 2 + self.ops.len() * 4 + self.fs.iter().map(|f| 2 + f.cls.len() * 3 + f.lits() + f.nv).sum::<usize>()
    }
}

/// Reduce `s` while `fails` holds.  `fails` decides by running the candidate.
pub fn shrink(s: &Scn, fails: &mut dyn FnMut(&Scn) -> bool, budget: &mut dyn FnMut() -> bool) -> Scn {
    let mut cur = s.clone();
    loop {
        let before = cur.size();
        // lists first: schedule/fault plan, operations
        ddmin(&mut cur, |s| &mut s.plan, fails, budget);
        ddmin(&mut cur, |s| &mut s.ops, fails, budget);
        for i in 0..cur.fs.len() {
            ddmin(&mut cur, move |s| &mut s.fs[i].cls, fails, budget);
        }
        // options back to their defaults
        let keys: Vec<String> = cur.kv.keys().cloned().collect();
        for k in keys {
            if !budget() {
                return cur;
            }
            let mut c = cur.clone();
            c.kv.remove(&k);
            if fails(&c) {
                cur = c;
            }
        }
        // literals and variables
        for i in 0..cur.fs.len() {
            if cur.fs[i].lits() < 400 {
                let mut ci = 0;
                while ci < cur.fs[i].cls.len() {
                    let mut li = 0;
                    while ci < cur.fs[i].cls.len() && cur.fs[i].cls[ci].len() > 1 && li < cur.fs[i].cls[ci].len() {
                        if !budget() {
                            return cur;
                        }
                        let mut c = cur.clone();
                        c.fs[i].cls[ci].remove(li);
                        if fails(&c) { cur = c } else { li += 1 }
                    }
                    ci += 1;
                }
            }
            if budget() && cur.fs[i].planted {
                let mut c = cur.clone();
                c.fs[i].planted = false;
                if fails(&c) {
                    cur = c;
                }
            }
            let mv = cur.fs[i].max_var();
            if budget() && mv < cur.fs[i].nv {
                let mut c = cur.clone();
                c.fs[i].nv = mv;
                if fails(&c) {
                    cur = c;
                }
            }
            // rename variables densely
            if budget() {
                let mut c = cur.clone();
                let mut map: BTreeMap<u32, i32> = BTreeMap::new();
                for cl in &c.fs[i].cls {
                    for l in cl {
                        map.insert(l.unsigned_abs(), 0);
                    }
                }
                for (j, v) in map.values_mut().enumerate() {
                    *v = j as i32 + 1;
                }
                let n = map.len();
                if n < c.fs[i].nv {
                    for cl in &mut c.fs[i].cls {
                        for l in cl.iter_mut() {
                            *l = l.signum() * map[&l.unsigned_abs()];
                        }
                    }
                    c.fs[i].nv = n;
                    if fails(&c) {
                        cur = c;
                    }
                }
            }
        }
        if !budget() || cur.size() >= before {
            return cur;
        }
    }
}

fn ddmin<T: Clone>(cur: &mut Scn, field: impl Fn(&mut Scn) -> &mut Vec<T>, fails: &mut dyn FnMut(&Scn) -> bool, budget: &mut dyn FnMut() -> bool) {
    let mut chunk = field(cur).len().div_ceil(2);
    while chunk >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < field(cur).len() {
            if !budget() {
                return;
            }
            let mut c = cur.clone();
            {
                let v = field(&mut c);
                let e = (i + chunk).min(v.len());
                v.drain(i..e);
            }
            if fails(&c) {
                *cur = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            return;
        }
        if chunk > 1 {
            chunk = chunk.div_ceil(2);
            if chunk == 1 && field(cur).is_empty() {
                return;
            }
        } else if !any {
            return;
        }
    }
}
