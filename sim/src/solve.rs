//! One solver run inside the simulator, in this process, on a thread of its own.
use crate::formula::Formula;
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::shim::{Shim, Stats};
use splr::state::Stat;
use splr::types::{CNFDescription, Instantiate};
use splr::*;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::sync::OnceLock;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let shown = format!("{loc}: {msg}");
        if std::env::var_os("SPLRSIM_PANICS").is_some() || msg.contains("unsafe precondition") || std::thread::current().name() != Some("sim") {
            eprintln!("panic {shown}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = shown);
    }));
}
/// the message without the line number: stable under unrelated edits
pub fn panic_text() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn shim() -> &'static Shim {
    static S: OnceLock<Shim> = OnceLock::new();
    S.get_or_init(|| Shim::get().expect("the simulation shim is not loaded"))
}

/// the scratch directory of this process
pub fn scratch() -> &'static Path {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::var("SPLRSIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(format!("/dev/shm/splrsim.{}", std::process::id())));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    })
}
/// a fresh sub-directory with a name of fixed length (paths must not leak into behaviour)
pub fn fresh_dir(name: &str) -> PathBuf {
    let d = scratch().join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Sat(Vec<i32>),
    Unsat { build: bool },
    Err(String),
    Panic(String),
}
impl Got {
    pub fn is_unsat(&self) -> bool {
        matches!(self, Got::Unsat { .. })
    }
    pub fn word(&self) -> String {
        match self {
            Got::Sat(_) => "sat".into(),
            Got::Unsat { build: true } => "unsat-at-build".into(),
            Got::Unsat { build: false } => "unsat".into(),
            Got::Err(e) => format!("err {e}"),
            Got::Panic(e) => format!("panic {e}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub got: Got,
    pub proof: Option<String>,
    pub conflicts: u64,
    pub clauses_left: u64,
    pub probes: Vec<(&'static str, u64)>,
    pub stats: Stats,
    pub log: String,
    /// conflicts counted when the marked time was passed
    pub mark_conflicts: Option<u64>,
    /// search stages begun when the marked time was passed, and at the end
    pub mark_stage: u64,
    pub stats_end_stage: u64,
    pub start_ns: u64,
}

/// knobs that a scenario may set, with the range they are drawn from
/// now and then, a large formula instead of `f`
pub fn sometimes_big(r: &mut Rng, s: &mut Scn, f: &mut Formula, one_in: u64, most: u64) {
    if r.below(one_in) == 0 {
        *f = crate::formula::big(r, most);
        s.set("slow", 1);
    }
}
pub fn gen_cfg(r: &mut Rng, s: &mut Scn) {
    if r.chance(30) {
        return;
    }
    let dense = r.chance(30);
    let p = if dense { 60 } else { 18 };
    if r.chance(p) {
        s.set("cfg.crl", *r.pick(&[0, 1, 2, 3, 4, 6, 8, 12, 300, 65535]));
    }
    if r.chance(p) {
        s.set("cfg.cr1", *r.pick(&["0.0", "0.05", "0.1", "0.4", "0.7", "0.95", "1.0"]));
    }
    if r.chance(p) {
        s.set("cfg.cr2", *r.pick(&["0.0", "0.01", "0.1", "0.3", "0.8", "1.0"]));
    }
    if r.chance(p) {
        s.set("cfg.rlt", *r.pick(&["0.0", "0.4", "0.8", "1.0", "1.2", "1.5", "3.0", "10.0", "1e300"]));
    }
    if r.chance(p) {
        s.set("cfg.ecl", *r.pick(&[0, 1, 2, 3, 5, 10, 200, 100_000_000]));
    }
    if r.chance(p) {
        s.set("cfg.evl", *r.pick(&[0, 1, 2, 4, 16, 64, 100_000]));
    }
    if r.chance(p) {
        s.set("cfg.evo", *r.pick(&[0, 1, 2, 4, 8, 30, 1_000_000]));
    }
    if r.chance(p) {
        s.set("cfg.vdr", *r.pick(&["0.0", "0.5", "0.8", "0.9", "0.99", "0.999", "1.0"]));
    }
    if r.chance(p) {
        s.set("cfg.cbt", *r.pick(&[0, 1, 4, 1000]));
    }
    if r.chance(12) {
        s.set("cfg.elim", 0);
    }
    if r.chance(10) {
        s.set("cfg.loud", 1);
    }
    if r.chance(8) {
        s.set("cfg.journal", 1);
    }
}

pub fn config(s: &Scn, dir: &Path) -> Config {
    let mut c = Config::default();
    c.io_odir = dir.to_path_buf();
    c.quiet_mode = !s.on("cfg.loud");
    c.show_journal = s.on("cfg.journal");
    c.use_certification = s.on("cfg.certify");
    c.c_timeout = s.f("cfg.timeout", c.c_timeout);
    c.c_cls_lim = s.u("cfg.cl", 0) as usize;
    c.cls_rdc_lbd = s.u("cfg.crl", u64::from(c.cls_rdc_lbd)) as u16;
    c.cls_rdc_rm1 = s.f("cfg.cr1", c.cls_rdc_rm1);
    c.cls_rdc_rm2 = s.f("cfg.cr2", c.cls_rdc_rm2);
    c.rst_lbd_thr = s.f("cfg.rlt", c.rst_lbd_thr);
    c.elm_cls_lim = s.u("cfg.ecl", c.elm_cls_lim as u64) as usize;
    c.elm_grw_lim = s.u("cfg.evl", c.elm_grw_lim as u64) as usize;
    c.elm_var_occ = s.u("cfg.evo", c.elm_var_occ as u64) as usize;
    c.vrw_dcy_rat = s.f("cfg.vdr", c.vrw_dcy_rat);
    c.c_cbt_thr = s.u("cfg.cbt", u64::from(c.c_cbt_thr)) as _;
    c.enable_eliminator = s.int("cfg.elim", 1) != 0;
    c
}

/// legal moments for heuristic events
pub fn gen_hooks(r: &mut Rng, s: &mut Scn) {
    if r.chance(35) {
        return;
    }
    s.set("sim.seed", r.next() >> 1);
    let mut rate = [0u64; 4];
    for (i, x) in rate.iter_mut().enumerate() {
        if r.chance(65) {
            *x = r.logu(if i == 3 { 400 } else { 1000 });
        }
    }
    s.set("sim.rates", format!("{},{},{},{}", rate[0], rate[1], rate[2], rate[3]));
}
pub fn hooks_on(s: &Scn) {
    let r: Vec<u16> = s.str("sim.rates", "0,0,0,0").split(',').map(|x| x.parse().unwrap_or(0)).collect();
    splr::sim::configure(s.u("sim.seed", 0), [r[0], r[1], r[2], r[3]]);
}

pub const SEC: u64 = 1_000_000_000;

/// a wall clock that somebody sets forward and back while the monotonic clock goes on
pub fn gen_wall(r: &mut Rng, s: &mut Scn) {
    if r.chance(30) {
        s.plan.push(format!("wall {} {} {}", r.below(1 << 40), *r.pick(&[50, 300, 1000]), *r.pick(&[1, 100, 100_000]) * SEC));
    }
}
/// a clock: start, pace and jumps. `budget_ns` bounds the total of all jumps.
pub fn gen_clock(r: &mut Rng, s: &mut Scn, timeout_s: f64, frac: f64) {
    let start = if r.chance(20) { r.below(10) * SEC + 1 } else { r.below(1 << 50) };
    let t = (timeout_s * 1e9) as u64;
    let tick = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => 100,
        3 => 1 + r.below(t / 100_000 + 2),
        _ => r.below(2000),
    };
    let atick = match r.below(4) {
        0 => 0,
        1 => r.below(100),
        2 => r.below(t / 10_000_000 + 2),
        _ => 0,
    };
    s.plan.push(format!("clock {start} {tick} {atick} {}", if r.chance(30) { r.below(100_000) } else { 0 }));
    gen_wall(r, s);
    if r.chance(60) {
        let mut left = (t as f64 * frac) as u64;
        for _ in 0..r.us(1, 6) {
            let j = match r.below(3) {
                0 => (t as f64 * (0.08 + 0.3 * (r.below(1000) as f64 / 1000.0))) as u64,
                1 => r.logu(t.max(1)),
                _ => (t as f64 * (0.1 + 0.8 * (r.below(1000) as f64 / 1000.0))) as u64,
            };
            if j > left {
                continue;
            }
            left -= j;
            if r.chance(75) {
                s.plan.push(format!("jump read {} {j}", if r.chance(60) { 1 + r.below(30) } else { r.logu(600) }));
            } else {
                s.plan.push(format!("jump alloc {} {j}", r.logu(200_000)));
            }
        }
    }
}
pub fn gen_hash(r: &mut Rng, s: &mut Scn) {
    s.plan.push(format!("hash {}", r.next() >> 1));
}

// ---------------------------------------------------------------- the mark: conflicts at the deadline
static MARK_SOLVER: AtomicPtr<Solver> = AtomicPtr::new(std::ptr::null_mut());
static MARK_CONF: AtomicU64 = AtomicU64::new(u64::MAX);
static MARK_STAGE: AtomicU64 = AtomicU64::new(0);
extern "C" fn mark_hit() {
    let p = MARK_SOLVER.load(Ordering::Relaxed);
    if !p.is_null() {
        // SAFETY: the pointer is set only while the solver is inside solve() on this thread
        let (n, g) = unsafe { ((*p).asg.derefer(assign::property::Tusize::NumConflict) as u64, (*p).state.stm.current_stage() as u64) };
        MARK_CONF.store(n, Ordering::Relaxed);
        MARK_STAGE.store(g, Ordering::Relaxed);
    }
}

fn probes(s: &Solver) -> Vec<(&'static str, u64)> {
    use assign::property::Tusize as A;
    use cdb::property::Tusize as C;
    vec![
        ("conflicts", s.asg.derefer(A::NumConflict) as u64),
        ("restarts", s.asg.derefer(A::NumRestart) as u64),
        ("reductions", s.cdb.derefer(C::NumReduction) as u64),
        ("vars_eliminated", s.asg.derefer(A::NumEliminatedVar) as u64),
        ("simplifications", s.state.stats[Stat::Simplify] as u64),
        ("subsumed", s.state.stats[Stat::SubsumedClause] as u64),
        ("vivified_clauses", s.state.stats[Stat::VivifiedClause] as u64),
        ("vivified_vars", s.state.stats[Stat::VivifiedVar] as u64),
        ("stages", s.state.stm.current_stage() as u64),
        ("cycles", s.state.stm.current_cycle() as u64),
        ("segments", s.state.stm.current_segment() as u64),
    ]
}

pub enum Built {
    Ok(Box<Solver>),
    Done(Got, Option<Box<Solver>>),
}

pub fn err_name(e: &SolverError) -> String {
    match e {
        SolverError::RootLevelConflict(_) => "RootLevelConflict".into(),
        e => format!("{e:?}"),
    }
}

/// Construct a solver through one of the public interfaces.
pub fn construct(s: &Scn, f: &Formula, cfg: Config, file: Option<&Path>) -> Built {
    match s.str("iface", "vec").as_str() {
        "file" => {
            let mut cfg = cfg;
            cfg.cnf_file = file.expect("file").to_path_buf();
            match Solver::build(&cfg) {
                Ok(s) => Built::Ok(Box::new(s)),
                Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => Built::Done(Got::Unsat { build: true }, None),
                Err(e) => Built::Done(Got::Err(err_name(&e)), None),
            }
        }
        "api" => {
            let mut v = Box::new(Solver::instantiate(
                &cfg,
                &CNFDescription { num_of_variables: s.u("api.vars", f.nv as u64).min(f.nv as u64) as usize, ..CNFDescription::default() },
            ));
            let mut nv = s.u("api.vars", f.nv as u64).min(f.nv as u64) as usize;
            let mut r = Rng::new(s.u("api.seed", 1));
            while nv < f.nv && r.chance(50) {
                nv += 1;
                v.add_var();
            }
            for c in &f.cls {
                let m = c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
                while nv < m {
                    nv += 1;
                    v.add_var();
                }
                let res = if c.len() == 1 && r.chance(50) { v.add_assignment(c[0]).map(|_| ()) } else { v.add_clause(c).map(|_| ()) };
                match res {
                    Ok(()) => (),
                    Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => return Built::Done(Got::Unsat { build: true }, Some(v)),
                    Err(e) => return Built::Done(Got::Err(err_name(&e)), Some(v)),
                }
            }
            while nv < f.nv {
                nv += 1;
                v.add_var();
            }
            Built::Ok(v)
        }
        _ => match Solver::try_from((cfg, f.cls.as_ref())) {
            Ok(s) => Built::Ok(Box::new(s)),
            Err(Ok(Certificate::UNSAT)) | Err(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Built::Done(Got::Unsat { build: true }, None),
            Err(Ok(Certificate::SAT(_))) => Built::Done(Got::Err("SAT without a solver".into()), None),
            Err(Err(e)) => Built::Done(Got::Err(err_name(&e)), None),
        },
    }
}

pub fn to_got(r: splr::solver::SolverResult) -> Got {
    match r {
        Ok(Certificate::SAT(m)) => Got::Sat(m),
        Ok(Certificate::UNSAT) => Got::Unsat { build: false },
        Err(e) => Got::Err(err_name(&e)),
    }
}

/// the formula as the chosen interface sees it (the vector interface has no declared variables)
pub fn effective(s: &Scn, f: &Formula) -> Formula {
    let mut g = f.clone();
    if matches!(s.str("iface", "vec").as_str(), "vec" | "cert") {
        g.nv = f.max_var();
    }
    g
}

/// Run `f` in a fresh simulated thread (fresh thread locals, so hash seeds come from the plan).
pub fn in_sim<T: Send>(plan: &str, body: impl FnOnce() -> T + Send) -> (Result<T, String>, Stats, String) {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .name("sim".into())
            .stack_size(16 << 20)
            .spawn_scoped(sc, || {
                shim().arm(plan);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                let st = shim().stats();
                shim().disarm();
                let lg = shim().log();
                (r.map_err(|_| panic_text()), st, lg)
            })
            .expect("thread")
            .join()
            .expect("simulated thread")
    })
}

/// Solve formula 0 of the scenario.
pub fn solve(s: &Scn, plan: &str, dirname: &str) -> Run {
    solve_formula(s, &s.fs[0], plan, dirname)
}
pub fn solve_formula(s: &Scn, f: &Formula, plan: &str, dirname: &str) -> Run {
    let dir = fresh_dir(dirname);
    let file = dir.join("in.cnf");
    let iface = s.str("iface", "vec");
    if iface == "file" {
        std::fs::write(&file, f.dimacs()).expect("write");
    }
    let cfg = config(s, &dir);
    let certify = cfg.use_certification;
    let timeout = cfg.c_timeout;
    let pf = dir.join("proof.drat");
    MARK_SOLVER.store(std::ptr::null_mut(), Ordering::Relaxed);
    MARK_CONF.store(u64::MAX, Ordering::Relaxed);
    let (res, stats, log) = in_sim(plan, || {
        shim().on_mark(mark_hit);
        hooks_on(s);
        if iface == "cert" {
            return (to_got(Certificate::try_from(f.cls.clone())), vec![], 0, 0);
        }
        match construct(s, f, cfg, Some(&file)) {
            Built::Done(g, sv) => {
                if let (Some(mut v), true) = (sv, certify) {
                    v.save_certification();
                }
                (g, vec![], 0, 0)
            }
            Built::Ok(mut v) => {
                MARK_SOLVER.store(&mut *v, Ordering::Relaxed);
                shim().mark_at((shim().now() + (timeout * SEC as f64).ceil() as u64).max(1));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.solve()));
                MARK_SOLVER.store(std::ptr::null_mut(), Ordering::Relaxed);
                let g = match r {
                    Ok(x) => to_got(x),
                    Err(_) => Got::Panic(panic_text()),
                };
                if let Got::Panic(_) = g {
                    std::mem::forget(v);
                    return (g, vec![], 0, 0);
                }
                if certify {
                    v.save_certification();
                }
                let mut p = probes(&v);
                let fired = splr::sim::fired();
                for (n, x) in ["hook_stage", "hook_cycle", "hook_segment", "hook_restart"].iter().zip(fired) {
                    p.push((n, x));
                }
                let c = v.asg.derefer(assign::property::Tusize::NumConflict) as u64;
                let n = v.cdb.derefer(cdb::property::Tusize::NumClause) as u64;
                (g, p, c, n)
            }
        }
    });
    let (got, probes, conflicts, clauses_left) = match res {
        Ok(x) => x,
        Err(e) => (Got::Panic(e), vec![], 0, 0),
    };
    let proof = if certify { std::fs::read_to_string(&pf).ok() } else { None };
    let end_stage = probes.iter().find(|p| p.0 == "stages").map_or(0, |p| p.1);
    let mc = MARK_CONF.load(Ordering::Relaxed);
    Run {
        got,
        proof,
        conflicts,
        clauses_left,
        probes,
        stats,
        log,
        mark_stage: MARK_STAGE.load(Ordering::Relaxed),
        stats_end_stage: end_stage,
        mark_conflicts: (mc != u64::MAX).then_some(mc),
        start_ns: clock_start(plan),
    }
}
pub fn clock_start(plan: &str) -> u64 {
    plan.lines().find_map(|l| l.strip_prefix("clock ")).and_then(|r| r.split(' ').next()?.parse().ok()).unwrap_or(0)
}

/// common bookkeeping: coverage counters and the signature of what was observed
pub fn account(o: &mut Out, run: &Run) {
    o.runs += 1;
    for (n, x) in &run.probes {
        o.add(&format!("sum.{n}"), *x);
        if *x > 0 {
            o.hit(&format!("runs_with.{n}"));
        }
    }
    for (n, x) in ["io_error", "short_io", "crash", "early_eof", "quota", "eintr", "chunked_read", "chunked_write"].iter().zip(run.stats.fault) {
        o.add(&format!("fault.{n}"), x);
    }
    o.add("fault.clock_jump", run.log.lines().filter(|l| l.starts_with("J ")).count() as u64);
    o.add("fault.wall_clock_set", run.log.lines().filter(|l| l.starts_with("V ")).count() as u64);
    o.add("sum.clock_reads", run.stats.clock);
    o.add("sum.thread_switches", run.stats.sw);
    o.sim_ns += run.stats.now.saturating_sub(run.start_ns);
    o.hit(&format!("outcome.{}", run.got.word().split(' ').take(2).collect::<Vec<_>>().join("_").chars().take(40).collect::<String>()));
    o.absorb(run.stats.loghash);
    o.absorb(run.conflicts);
    o.absorb(run.stats.alloc);
    o.absorb_str(&run.got.word());
    if let Got::Sat(m) = &run.got {
        for l in m {
            o.absorb(*l as u64);
        }
    }
    if let Some(p) = &run.proof {
        o.absorb_str(p);
    }
}
