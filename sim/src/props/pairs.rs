//! C12 (same input and options, same result) and C13 (independent solvers in one process): results of
//! runs that differ only in what must not matter are compared.  Every run of a scenario happens in a
//! process of its own, forked from one in which no solver has ever run, unless sharing the process is
//! what is varied.
use super::core::truth;
use super::Prop;
use crate::driver;
use crate::formula::{self, Formula};
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, fresh_dir, in_sim, Built, Got, SEC};
use crate::sub::{self, Cmd, EINTR};
use splr::*;
use std::path::Path;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// run `f` in a forked child and return what it wrote, or how it died
fn forked(name: &str, f: impl FnOnce() -> String) -> Result<String, (String, String)> {
    let out = solve::scratch().join(name);
    let _ = std::fs::remove_file(&out);
    // SAFETY: this process has a single thread here; the child ends with _exit
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) };
        driver::arm_watchdog(driver::CPU_LIMIT_S);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let code = match r {
            Ok(t) => i32::from(std::fs::write(&out, t).is_err()),
            Err(_) => 3,
        };
        unsafe { _exit(code) };
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    let sig = st & 0x7f;
    match (sig, (st >> 8) & 0xff) {
        (0, 0) => Ok(std::fs::read_to_string(&out).unwrap_or_default()),
        (0, sub::DEADLOCK) => Err(("deadlock".into(), "all threads are blocked".into())),
        (0, c) => Err(("crash".into(), format!("the process ended with status {c}"))),
        (24 | 27, _) => Err(("hang".into(), format!("no end within {} s of processor time", driver::CPU_LIMIT_S))),
        (s, _) => Err(("crash".into(), format!("the process was killed by signal {s}"))),
    }
}

/// what must not depend on anything but the input and the options
#[derive(Clone, Debug, PartialEq, Default)]
struct Res {
    got: String,
    conflicts: u64,
    proof: String,
    /// simulated time between the creation of the solver and its answer
    took: u64,
}
impl Res {
    fn text(&self) -> String {
        format!("{}\n{} {}\n{}", self.got, self.conflicts, self.took, self.proof)
    }
    fn parse(t: &str) -> Option<Res> {
        let (got, rest) = t.split_once('\n')?;
        let (nums, proof) = rest.split_once('\n')?;
        let (c, k) = nums.split_once(' ')?;
        Some(Res { got: got.into(), conflicts: c.parse().ok()?, took: k.parse().ok()?, proof: proof.into() })
    }
    fn differs(&self, o: &Res) -> Option<(&'static str, String)> {
        let short = |s: &str| s.chars().take(60).collect::<String>();
        let w = |s: &str| s.split(' ').next().unwrap_or("").to_string();
        if w(&self.got) != w(&o.got) {
            return Some(("verdict-differs", format!("{} and {}", short(&self.got), short(&o.got))));
        }
        if self.got != o.got {
            return Some(("model-differs", format!("{} and {}", short(&self.got), short(&o.got))));
        }
        if self.proof != o.proof {
            let at = self.proof.lines().zip(o.proof.lines()).position(|(a, b)| a != b).unwrap_or(self.proof.lines().count().min(o.proof.lines().count()));
            return Some(("proof-differs", format!("proofs of {} and {} bytes differ in line {}", self.proof.len(), o.proof.len(), at + 1)));
        }
        if self.conflicts != o.conflicts {
            return Some(("search-differs", format!("{} and {} conflicts", self.conflicts, o.conflicts)));
        }
        None
    }
}
fn show(g: &Got) -> String {
    match g {
        Got::Sat(m) => format!("sat {m:?}"),
        Got::Unsat { .. } => "unsat".into(),
        Got::Err(e) => format!("err {e}"),
        Got::Panic(p) => format!("panic {p}"),
    }
}

/// disturb the heap of this thread
fn junk(seed: u64) {
    if seed == 0 {
        return;
    }
    let mut r = Rng::new(seed);
    let n = r.us(1, 200);
    let mut v: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let k = r.logu(20_000) as usize;
            vec![1u8; k + 1]
        })
        .collect();
    r.shuffle(&mut v);
    let keep = v.len() / 2;
    std::mem::forget(v.split_off(keep));
}

enum Part {
    Built(Box<Solver>, u64),
    Done(Res),
}
fn begin(s: &Scn, f: &Formula, dir: &Path) -> Part {
    let cfg = solve::config(s, dir);
    let t0 = solve::shim().now();
    match solve::construct(s, f, cfg, Some(&dir.join("in.cnf"))) {
        Built::Ok(v) => Part::Built(v, t0),
        Built::Done(g, v) => {
            if let (Some(mut v), true) = (v, s.on("cfg.certify")) {
                v.save_certification();
            }
            Part::Done(Res { got: show(&g), took: solve::shim().now() - t0, ..Res::default() })
        }
    }
}
fn finish(s: &Scn, mut v: Box<Solver>, t0: u64) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.solve()));
    let got = match r {
        Ok(x) => solve::to_got(x),
        Err(_) => {
            std::mem::forget(v);
            return Res { got: format!("panic {}", solve::panic_text()), took: solve::shim().now() - t0, ..Res::default() };
        }
    };
    if s.on("cfg.certify") {
        v.save_certification();
    }
    let conflicts = v.asg.derefer(assign::property::Tusize::NumConflict) as u64;
    Res { got: show(&got), conflicts, took: solve::shim().now() - t0, proof: String::new() }
}
fn whole(s: &Scn, f: &Formula, dir: &Path) -> Res {
    match begin(s, f, dir) {
        Part::Built(v, t0) => finish(s, v, t0),
        Part::Done(r) => r,
    }
}
fn proof_of(s: &Scn, dir: &Path) -> String {
    if s.on("cfg.certify") { std::fs::read_to_string(dir.join("proof.drat")).unwrap_or_else(|_| "no proof file".into()) } else { String::new() }
}

// ------------------------------------------------------------------------------------------- C12
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        gen: gen12,
        run: run12,
        quick: 60_000,
        thorough: 2_000_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula, options and two environments (hash seed, clock pace and jumps below a tenth of the limit, heap layout, splitting and interruption of reads and writes, directory; the same process or two processes; library or splr command), solves in both and compares verdict, model, proof and number of conflicts; non-trivial: the search had a conflict; distinct: by hash of both executions",
        level: "exploration",
        real: "real: the whole splr library, and the shipped splr binary in the command scenarios. simulated: clock, entropy, every open/read/write of formula and proof. stub: none",
    }
}

fn env12(r: &mut Rng, w: char, t_ns: u64, file: bool, certify: bool) -> Vec<String> {
    let mut p = vec![format!("{w} hash {}", r.next() >> 1)];
    let start = if r.chance(30) { 1 + r.below(10) } else { r.below(1 << 60) };
    let tick = match r.below(4) { 0 => 0, 1 => r.below(100), 2 => r.below(t_ns / 100_000 + 1), _ => r.below(t_ns / 3000 + 1) };
    let atick = match r.below(4) { 0 => r.below(t_ns / 2_000_000 + 1), 1 => r.below(t_ns / 100_000_000 + 1), _ => 0 };
    p.push(format!("{w} clock {start} {tick} {atick} {}", if r.chance(30) { r.below(t_ns / 100_000 + 1) } else { 0 }));
    if r.chance(40) {
        p.push(format!("{w} wall {} {} {}", r.below(1 << 40), *r.pick(&[50, 300, 1000]), *r.pick(&[1, 100, 100_000]) * SEC));
    }
    if r.chance(50) {
        let mut left = t_ns / 12;
        for _ in 0..r.us(1, 4) {
            let j = r.logu(left + 1);
            left -= j.min(left);
            let k = if r.chance(60) { 1 + r.below(25) } else { r.logu(500) };
            p.push(if r.chance(70) { format!("{w} jump read {k} {j}") } else { format!("{w} jump alloc {} {j}", r.logu(100_000)) });
        }
    }
    if file && r.chance(70) {
        let m = match r.below(3) { 0 => 1 + r.below(8), 1 => 1 + r.below(200), _ => 1 + r.logu(9000) };
        p.push(format!("{w} chunk cnf r {} {m}", r.below(1 << 30)));
    }
    if file && r.chance(40) {
        for _ in 0..r.us(1, 5) {
            p.push(format!("{w} fault cnf read {} err {EINTR}", r.logu(40)));
        }
    }
    if certify && r.chance(50) {
        let m = match r.below(3) { 0 => 1 + r.below(20), 1 => 1 + r.below(500), _ => 1 + r.logu(9000) };
        p.push(format!("{w} chunk proof w {} {m}", r.below(1 << 30)));
    }
    if certify && r.chance(30) {
        p.push(format!("{w} fault proof write {} err {EINTR}", r.logu(20)));
    }
    p
}

fn gen12(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let cli = r.chance(10);
    let sc = super::core::pick_scale(r, thorough).max(usize::from(r.chance(if cli { 30 } else { 15 })));
    let mut f = formula::generate(r, sc);
    solve::sometimes_big(r, &mut s, &mut f, 400, 20_000);
    s.set("mode", if cli { "cli" } else { *r.pick(&["apart", "together"]) });
    s.set("iface", *r.pick(&["vec", "file", "file", "api"]));
    if !cli {
        solve::gen_cfg(r, &mut s);
        solve::gen_hooks(r, &mut s);
    }
    let t = *r.pick(&[5000i64, 5000, 100_000, 40, 7]);
    if t != 5000 {
        s.set("cfg.timeout", t);
    }
    let certify = r.chance(60);
    if certify {
        s.set("cfg.certify", 1);
    }
    let file = cli || s.str("iface", "") == "file";
    for w in ['a', 'b'] {
        s.ops.extend(env12(r, w, t as u64 * SEC, file, certify));
        if r.chance(50) {
            s.set(&format!("{w}.junk"), 1 + r.below(1 << 40));
        }
        if r.chance(30) {
            s.set(&format!("{w}.dir"), "d".repeat(r.us(2, 60)));
        }
        if cli && r.chance(50) {
            s.ops.push(format!("{w} pad {}", r.below(1 << 16)));
        }
    }
    s.fs.push(f);
    s
}
fn env_plan(s: &Scn, w: &str) -> String {
    s.ops.iter().filter_map(|o| o.strip_prefix(w)).filter_map(|o| o.strip_prefix(' ')).map(|l| format!("{l}\n")).collect()
}

fn run12(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let t_ns = (s.f("cfg.timeout", 5000.0) * SEC as f64) as u64;
    let mode = s.str("mode", "apart");
    let mut res: Vec<Res> = vec![];
    if mode == "cli" {
        for w in ["a", "b"] {
            let d = fresh_dir(&s.str(&format!("{w}.dir"), w));
            std::fs::write(d.join("in.cnf"), f.dimacs()).expect("write");
            let mut args: Vec<String> = vec!["-q".into(), "-C".into()];
            if s.on("cfg.certify") {
                args.push("-c".into());
            }
            if s.has("cfg.timeout") {
                args.extend(["-t".into(), s.str("cfg.timeout", "5000")]);
            }
            args.push("in.cnf".into());
            let plan = env_plan(s, w);
            let start = solve::clock_start(&plan);
            let e = sub::run(&Cmd { bin: "splr", args, env: vec![], dir: &d, plan: sub::dir_plan(&d, &[("cnf", "in.cnf"), ("ans", "ans_in.cnf"), ("proof", "proof.drat")]) + &plan, stdin: None });
            sub::account(&mut o, &e, start);
            let ans = std::fs::read_to_string(d.join("ans_in.cnf")).unwrap_or_default();
            let words = sub::result_lines(&e.out);
            let stats = ans.lines().find(|l| l.contains("#conflict:")).unwrap_or("").to_string();
            let model = match sub::answer(&ans) {
                sub::Answer::Sat { model, .. } => format!("{model:?}"),
                a => format!("{a:?}"),
            };
            if stats.contains("#conflict:") && !stats.contains("#conflict:          0,") {
                o.nontrivial = true;
            }
            res.push(Res { got: format!("{words:?},{} {model} {stats}", e.how()).replace('\n', " "), conflicts: 0, proof: proof_of(s, &d), took: e.now.saturating_sub(start) });
            let _ = std::fs::remove_dir_all(&d);
        }
    } else {
        let dirs: Vec<_> = ["a", "b"].iter().map(|w| fresh_dir(&s.str(&format!("{w}.dir"), w).replace('d', if *w == "a" { "x" } else { "y" }))).collect();
        for d in &dirs {
            std::fs::write(d.join("in.cnf"), f.dimacs()).expect("write");
        }
        let body = |i: usize| -> String {
            let w = ["a", "b"][i];
            let d = &dirs[i];
            let plan = format!("dir {}\nclass cnf in.cnf\nclass proof proof.drat\n", d.display()) + &env_plan(s, w);
            let (r, st, log) = in_sim(&plan, || {
                junk(s.u(&format!("{w}.junk"), 0));
                solve::hooks_on(s);
                whole(s, f, d)
            });
            let mut r = r.unwrap_or_else(|p| Res { got: format!("panic {p}"), ..Res::default() });
            r.proof = proof_of(s, d);
            let cov = log.lines().filter(|l| l.starts_with("J ")).count();
            format!("{} {} {cov} {} {} {}\n{}", st.loghash, st.alloc, st.fault[5], st.fault[6], st.fault[7], r.text())
        };
        let texts = if mode == "together" {
            forked("f.0", || format!("{}\x01{}", body(0), body(1))).map(|t| t.split('\x01').map(String::from).collect::<Vec<_>>())
        } else {
            forked("f.0", || body(0)).and_then(|a| Ok(vec![a, forked("f.1", || body(1))?]))
        };
        for d in &dirs {
            let _ = std::fs::remove_dir_all(d);
        }
        match texts {
            Err((c, m)) => {
                o.hit(&format!("run_ended_by.{c}"));
                o.note = m;
                return o; // crashes and hangs are the subject of C03
            }
            Ok(v) => {
                for t in v {
                    let (h, rest) = t.split_once('\n').expect("header");
                    let n: Vec<u64> = h.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    o.absorb(n[0]);
                    o.absorb(n[1]);
                    o.add("fault.clock_jump", n[2]);
                    o.add("fault.eintr", n[3]);
                    o.add("fault.chunked_read", n[4]);
                    o.add("fault.chunked_write", n[5]);
                    res.push(Res::parse(rest).expect("result"));
                }
            }
        }
        o.runs += 2;
        o.sim_ns += res.iter().map(|r| r.took).sum::<u64>();
        o.nontrivial = res[0].conflicts > 0;
        o.add("sum.conflicts", res[0].conflicts);
    }
    for r in &res {
        o.absorb_str(&r.text());
    }
    o.hit(&format!("mode.{mode}"));
    o.hit(&format!("outcome.{}", res[0].got.split(' ').next().unwrap_or("")));
    o.note = format!("{mode} {} nv={} nc={} -> {} conflicts={}, {} proof bytes, {:.3}s / {:.3}s", f.family, f.nv, f.cls.len(), res[0].got.chars().take(50).collect::<String>(), res[0].conflicts, res[0].proof.len(), res[0].took as f64 / 1e9, res[1].took as f64 / 1e9);
    // near the limit the clock may cut preprocessing short
    if res.iter().any(|r| r.took as f64 >= 0.099 * t_ns as f64) {
        o.hit("skipped_near_limit");
        o.nontrivial = false;
        return o;
    }
    o.hit("compared");
    if let Some((c, m)) = res[0].differs(&res[1]) {
        o.fail(c, m);
    }
    o
}

// ------------------------------------------------------------------------------------------- C13
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        gen: gen13,
        run: run13,
        quick: 30_000,
        thorough: 1_200_000,
        crash: true,
        hang: true,
        rule: "a scenario draws 2 to 4 solvers (formula, interface, options, limits, proofs) and runs them in one process, in threads under a seeded scheduler that switches at allocations, clock readings and system calls, or one after another with interleaved construction, solving and dropping; each result is compared with that of the same solver alone in a fresh process; non-trivial: threads were switched at least twice or the solvers were interleaved in sequence; distinct: by hash of the schedule and all results",
        level: "exploration",
        real: "real: the whole splr library. simulated: clock, entropy, thread schedule, file I/O. stub: none",
    }
}

fn overlay(s: &Scn, i: usize) -> Scn {
    let mut q = Scn::new(&s.prop, s.seed, s.k);
    let p = format!("{i}.");
    for (k, v) in &s.kv {
        if let Some(x) = k.strip_prefix(&p) {
            q.kv.insert(x.into(), v.clone());
        }
    }
    q
}

fn gen13(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let top = if r.chance(30) { 4 } else { 3 };
    let n = r.us(2, top);
    let twins = r.chance(15);
    for i in 0..n {
        let sc = usize::from(r.chance(if thorough { 25 } else { 12 }));
        let f = if twins && i > 0 { s.fs[0].clone() } else { formula::generate(r, sc) };
        s.fs.push(f);
        let mut q = Scn::new("", 0, 0);
        q.set("iface", *r.pick(&["vec", "vec", "file", "api"]));
        if r.chance(60) {
            solve::gen_cfg(r, &mut q);
        }
        if r.chance(60) {
            solve::gen_hooks(r, &mut q);
        }
        if r.chance(60) {
            q.set("cfg.certify", 1);
        }
        match r.below(20) {
            0..=3 => q.set("cfg.timeout", r.range(1, 30)),
            4 => q.set("cfg.timeout", r.range(30, 1000)),
            5 | 6 => {
                let nc = s.fs[i].cls.len() as u64;
                q.set("cfg.cl", nc + r.logu(nc + 20));
            }
            7 | 8 => q.set("drop", 1),
            _ => (),
        }
        // solvers come to life at different times
        if r.chance(25) {
            q.set("nap", r.logu(5000));
        }
        for (k, v) in q.kv {
            s.set(&format!("{i}.{k}"), v);
        }
    }
    s.plan.push(format!("hash {}", r.next() >> 1));
    let tick = *r.pick(&[0u64, 10, 1000, 20_000, 2_000_000]);
    s.plan.push(format!("clock {} {tick} {} 0", r.below(1 << 50), if r.chance(50) { r.below(3000) } else { 0 }));
    solve::gen_wall(r, &mut s);
    if r.chance(40) {
        s.plan.push(format!("jump read {} {}", 1 + r.below(40), r.logu(200 * SEC)));
    }
    if r.chance(70) {
        s.set("mode", "threads");
        let gap = match r.below(4) { 0 => 1 + r.below(20), 1 => 20 + r.below(300), 2 => 300 + r.below(3000), _ => 0 };
        s.plan.push(format!("sched {} {} {gap}", r.below(1 << 40), *r.pick(&[5, 30, 60, 100])));
    } else {
        s.set("mode", "sequence");
        // an order of construction and of solving
        let mut steps: Vec<String> = vec![];
        let mut made: Vec<usize> = vec![];
        let mut left: Vec<usize> = (0..n).collect();
        while !left.is_empty() || !made.is_empty() {
            if !left.is_empty() && (made.is_empty() || r.chance(60)) {
                let j = r.us(0, left.len() - 1);
                let i = left.remove(j);
                steps.push(format!("make {i}"));
                made.push(i);
            } else {
                let j = r.us(0, made.len() - 1);
                steps.push(format!("solve {}", made.remove(j)));
            }
        }
        s.ops = steps;
    }
    s
}

/// time passes before a solver is created, unless the clock is the real one
fn nap(s: &Scn, q: &Scn) {
    let seam = if s.str("mode", "threads") == "threads" { "sched " } else { "clock " };
    let n = if s.plan.iter().any(|l| l.starts_with(seam)) { q.u("nap", 0) } else { 0 };
    if n > 0 {
        std::thread::sleep(std::time::Duration::from_secs(n));
    }
}

fn run13(s: &Scn) -> Out {
    let mut o = Out::default();
    let n = s.fs.len();
    let subs: Vec<Scn> = (0..n).map(|i| overlay(s, i)).collect();
    let threads = s.str("mode", "threads") == "threads";
    let mk = |i: usize, w: &str| {
        let d = fresh_dir(&format!("{w}{i}"));
        std::fs::write(d.join("in.cnf"), s.fs[i].dimacs()).expect("write");
        d
    };
    let hash = s.plan.iter().find(|l| l.starts_with("hash ")).cloned().unwrap_or_else(|| "hash 1".into());
    let mut alone: Vec<Res> = vec![];
    for i in 0..n {
        let d = mk(i, "s");
        let q = &subs[i];
        let r = forked("f.s", || {
            let (r, st, _) = in_sim(&format!("{hash}\nclock 1000 10 0 0\ndir {}\nclass cnf in.cnf\n", d.display()), || {
                solve::hooks_on(q);
                whole(q, &s.fs[i], &d)
            });
            let _ = st;
            r.unwrap_or_else(|p| Res { got: format!("panic {p}"), ..Res::default() }).text()
        });
        match r {
            // crashes and hangs of a lone solver are the subject of C03
            Err((c, m)) => {
                o.hit(&format!("lone_run_ended_by.{c}"));
                o.note = m;
                return o;
            }
            Ok(t) => {
                let mut r = Res::parse(&t).expect("result");
                r.proof = proof_of(q, &d);
                alone.push(r);
            }
        }
    }
    let dirs: Vec<_> = (0..n).map(|i| mk(i, "j")).collect();
    let start = solve::clock_start(&s.plan_text());
    let plan = s.plan_text() + &format!("dir {}\nclass cnf in.cnf\n", solve::scratch().display());
    let joint = forked("f.j", || {
        let (r, st, log) = in_sim(&plan, || -> Vec<Option<Res>> {
            if threads {
                std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|i| {
                            let (q, f, d) = (&subs[i], &s.fs[i], &dirs[i]);
                            std::thread::Builder::new()
                                .name("sim".into())
                                .stack_size(16 << 20)
                                .spawn_scoped(sc, move || {
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                        nap(s, q);
                                        solve::hooks_on(q);
                                        if q.on("drop") {
                                            drop(begin(q, f, d));
                                            return None;
                                        }
                                        Some(whole(q, f, d))
                                    }));
                                    r.unwrap_or_else(|_| Some(Res { got: format!("panic {}", solve::panic_text()), ..Res::default() }))
                                })
                                .expect("thread")
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
                })
            } else {
                let mut out: Vec<Option<Res>> = vec![None; n];
                let mut made: Vec<Option<Part>> = (0..n).map(|_| None).collect();
                for op in &s.ops {
                    let Some((w, i)) = op.split_once(' ') else { continue };
                    let Ok(i) = i.parse::<usize>() else { continue };
                    if i >= n {
                        continue;
                    }
                    solve::hooks_on(&subs[i]);
                    match (w, made[i].take()) {
                        ("make", None) => made[i] = Some({
                            nap(s, &subs[i]);
                            begin(&subs[i], &s.fs[i], &dirs[i])
                        }),
                        ("solve", Some(_)) if subs[i].on("drop") => (),
                        ("solve", Some(Part::Built(v, t0))) => out[i] = Some(finish(&subs[i], v, t0)),
                        ("solve", Some(Part::Done(r))) => out[i] = Some(r),
                        (_, x) => made[i] = x,
                    }
                }
                out
            }
        });
        let mut t = format!("{} {} {} {}\n", st.sw, st.loghash, st.now, log.lines().filter(|l| l.starts_with("J ")).count());
        for l in log.lines().filter_map(|l| l.strip_prefix("W ")) {
            t += &format!("W {l}\n");
        }
        match r {
            Ok(v) => {
                for x in v {
                    t += "\x01";
                    if let Some(x) = x {
                        t += &x.text();
                    }
                }
            }
            Err(p) => t += &format!("\x02{p}"),
        }
        t
    });
    o.runs += n as u64 + 1;
    o.note = format!("{} {} solvers: {:?}", s.str("mode", "threads"), n, alone.iter().map(|r| r.got.split(' ').next().unwrap_or("").to_string()).collect::<Vec<_>>());
    let text = match joint {
        Err((c, m)) => {
            o.fail(&c, format!("the process with all solvers died although each alone is fine: {m}"));
            return o;
        }
        Ok(t) => t,
    };
    if let Some((_, p)) = text.split_once('\x02') {
        o.fail("panic", format!("panicked at {p}"));
        return o;
    }
    let mut parts = text.split('\x01');
    let head = parts.next().unwrap_or("");
    let mut hl = head.lines();
    let nums: Vec<u64> = hl.next().unwrap_or("").split(' ').map(|x| x.parse().unwrap_or(0)).collect();
    o.switches = hl.filter_map(|l| l.strip_prefix("W ")).map(String::from).collect();
    o.absorb(nums[1]);
    o.add("fault.preemption", nums[0]);
    o.add("fault.clock_jump", nums[3]);
    o.sim_ns += nums[2].saturating_sub(start);
    o.nontrivial = if threads { nums[0] >= 2 } else { n > 1 };
    o.hit(&format!("mode.{}", s.str("mode", "threads")));
    for (i, p) in parts.enumerate() {
        let q = &subs[i];
        let Some(mut r) = Res::parse(p) else {
            o.hit("dropped");
            continue;
        };
        r.proof = proof_of(q, &dirs[i]);
        o.absorb_str(&r.text());
        let t_ns = (q.f("cfg.timeout", 5000.0) * SEC as f64) as u64;
        let f = solve::effective(q, &s.fs[i]);
        if q.u("nap", 0) > 0 {
            o.hit("late_solver");
        }
        if (r.took as f64) < 0.099 * t_ns as f64 {
            o.hit("compared");
            o.hit(&format!("outcome.{}", r.got.split(' ').next().unwrap_or("")));
            if let Some((c, m)) = alone[i].differs(&r) {
                o.fail(c, format!("solver {i}, alone and with others: {m}"));
            }
        } else if r.got == "err TimeOut" {
            o.hit("timed_out");
            if r.took < t_ns {
                o.fail("early-timeout", format!("solver {i} gave up after {} ns of {t_ns} ns", r.took));
            }
        } else if let Some(m) = r.got.strip_prefix("sat [") {
            o.hit("judged_model");
            let m: Vec<i32> = m.trim_end_matches(']').split(", ").filter_map(|x| x.parse().ok()).collect();
            if let Err(e) = f.judge_model(&m) {
                o.fail("bad-model", format!("solver {i}: {e}"));
            }
        } else if r.got == "unsat" {
            o.hit("judged_unsat");
            if truth(&f) == Some(true) {
                o.fail("false-unsat", format!("solver {i}"));
            }
        } else if r.got != alone[i].got {
            o.fail("error", format!("solver {i} ended with {}", r.got));
        }
    }
    for i in 0..n {
        let _ = std::fs::remove_dir_all(solve::scratch().join(format!("s{i}")));
        let _ = std::fs::remove_dir_all(solve::scratch().join(format!("j{i}")));
    }
    o
}
