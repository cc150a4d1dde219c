//! C06 (time limit) and C08 (clause limit): one solve in process, with the limit placed inside the run.
use super::core::truth;
use super::Prop;
use crate::drat;
use crate::formula::{self, Formula};
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, account, effective, fresh_dir, Got, SEC};
use crate::sub::{self, Cmd, Word};

const REAL: &str = "real: the whole splr library, and the shipped splr binary in the command scenarios. simulated: clock, entropy, moments of heuristic events. stub: none";

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        gen: gen06,
        run: run06,
        quick: 200_000,
        thorough: 1_000_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula (a third of them too hard to finish), a time limit (whole or fractional seconds, zero to minutes), a clock pace and jumps so that the limit passes at a drawn moment (construction, preprocessing, any stage of the search) or just not; non-trivial: the limit passed, or a time-out was reported; distinct: by hash of clock/alloc trace, conflicts, outcome, model and proof",
        level: "exploration",
        real: REAL,
    }
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        gen: gen08,
        run: run08,
        quick: 220_000,
        thorough: 1_500_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula and a clause limit around the number of clauses (from far below to far above, with many values within a few clauses of it), options, hash seed, clock and moved heuristic events; non-trivial: the limit was reached or came within 10 percent; distinct: by hash of clock/alloc trace, conflicts, outcome, model and proof",
        level: "exploration",
        real: REAL,
    }
}

fn word(g: &Got) -> String {
    g.word()
}

/// a right verdict, or the complaint
pub fn judge_verdict(f: &Formula, g: &Got) -> Result<&'static str, (&'static str, String)> {
    match g {
        Got::Sat(m) => match f.judge_model(m) {
            Ok(()) => Ok("model_checked"),
            Err(e) => Err(("bad-model", e)),
        },
        Got::Unsat { .. } => match truth(f) {
            Some(true) => Err(("false-unsat", format!("answered {} for a satisfiable formula", word(g)))),
            Some(false) => Ok("unsat_confirmed"),
            None => Ok("unsat_undecided"),
        },
        _ => Ok("no_verdict"),
    }
}

// ------------------------------------------------------------------------------------------- C06
fn gen06(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let cli = r.chance(8);
    let hard = r.chance(if cli { 20 } else { 35 });
    let f = if hard { formula::hard(r) } else { let sc = super::core::pick_scale(r, thorough).max(usize::from(r.chance(50))); formula::generate(r, sc) };
    let t = match r.below(10) {
        0..=3 => format!("{}", r.range(1, 4)),
        4 => format!("{}", r.range(5, 600)),
        5 => format!("0.{}", r.range(1, 9)),
        6 | 7 => format!("{}.{}", r.range(1, 4), r.range(1, 9)),
        8 => format!("{}.{:03}", r.range(1, 20), r.range(1, 999)),
        _ => "0".into(),
    };
    s.set("cfg.timeout", &t);
    s.set("iface", if cli { "cli" } else { *r.pick(&["vec", "vec", "file", "api"]) });
    solve::gen_hash(r, &mut s);
    if !cli {
        solve::gen_cfg(r, &mut s);
        if r.chance(30) {
            solve::gen_hooks(r, &mut s);
        }
        if r.chance(10) {
            s.set("cfg.certify", 1);
        }
    }
    let tns = (s.f("cfg.timeout", 1.0) * SEC as f64) as u64;
    let start = if r.chance(10) { 1 } else { r.below(1 << 50) };
    // a hard formula must not run for ever: time passes with its allocations at least slowly
    let per_alloc = |n: u64| tns / n.max(1) + 1;
    let atick = if hard { per_alloc(r.logu(20_000) + 300) } else if r.chance(60) { per_alloc(r.logu(60_000) + 50) } else { 0 };
    // a clock that stands still is no clock when the limit is zero
    let tick = if r.chance(50) { r.below(tns / 200 + 2) } else { r.below(1000) }.max(u64::from(tns == 0));
    s.plan.push(format!("clock {start} {tick} {atick} 0"));
    solve::gen_wall(r, &mut s);
    if r.chance(50) {
        for _ in 0..r.us(1, 4) {
            let j = match r.below(5) {
                0 => tns - r.logu(tns.max(1)).min(tns),
                1 => tns + r.logu(tns.max(1)),
                2 => r.logu(tns.max(1)),
                3 => tns / 2 + r.below(tns / 2 + 1),
                _ => 3 * tns,
            };
            match r.below(3) {
                0 => s.plan.push(format!("jump read {} {j}", if r.chance(60) { 1 + r.below(20) } else { r.logu(400) })),
                _ => s.plan.push(format!("jump alloc {} {j}", r.logu(100_000))),
            }
        }
    }
    s.fs.push(f);
    s
}

fn run06(s: &Scn) -> Out {
    let mut o = Out::default();
    let t = s.f("cfg.timeout", 1.0);
    let tns = (t * SEC as f64).floor() as u64;
    if s.str("iface", "vec") == "cli" {
        let f = &s.fs[0];
        let d = fresh_dir("c");
        std::fs::write(d.join("in.cnf"), f.dimacs()).expect("write");
        let start = solve::clock_start(&s.plan_text());
        let e = sub::run(&Cmd {
            bin: "splr",
            args: vec!["-q".into(), "-C".into(), "-t".into(), s.str("cfg.timeout", "1"), "in.cnf".into()],
            env: vec![],
            dir: &d,
            plan: s.plan_text() + &sub::dir_plan(&d, &[("cnf", "in.cnf"), ("ans", "ans_in.cnf")]),
            stdin: None,
        });
        sub::account(&mut o, &e, start);
        let passed = e.now.saturating_sub(start);
        let lines = sub::result_lines(&e.out);
        o.note = format!("cli -t {t} {} nv={} -> {lines:?} {} after {:.3}s", f.family, f.nv, e.how(), passed as f64 / 1e9);
        o.nontrivial = passed >= tns;
        if let Some(sig) = e.signal {
            o.fail("abnormal-end", format!("killed by signal {sig}: {}", e.err.lines().next().unwrap_or("")));
            return o;
        }
        match lines.as_slice() {
            [Word::Unknown] => {
                o.hit("cli_timeout");
                if passed < tns {
                    o.fail("early-timeout", format!("gave up after {passed} ns of a limit of {tns} ns"));
                }
            }
            [Word::Sat] if truth(f) == Some(false) => o.fail("wrong-verdict", "SATISFIABLE for an unsatisfiable formula"),
            [Word::Unsat] if truth(f) == Some(true) => o.fail("wrong-verdict", "UNSATISFIABLE for a satisfiable formula"),
            [_] => (),
            _ => o.fail("no-result", format!("result lines {lines:?}, {}", e.how())),
        }
        return o;
    }
    let f = effective(s, &s.fs[0]);
    let run = solve::solve(s, &s.plan_text(), "c");
    account(&mut o, &run);
    let end = run.stats.now;
    let passed = end.saturating_sub(run.start_ns);
    o.note = format!("{} nv={} nc={} T={t} -> {} conflicts={} (at the deadline {:?}) after {:.3}s", f.family, f.nv, f.cls.len(), run.got.word(), run.conflicts, run.mark_conflicts, passed as f64 / 1e9);
    o.nontrivial = passed >= tns;
    match &run.got {
        Got::Panic(p) => o.fail("panic", format!("panicked at {p}")),
        Got::Err(e) if e == "TimeOut" => {
            o.nontrivial = true;
            o.hit("timed_out");
            if passed < tns {
                o.fail("early-timeout", format!("reported a time-out after {passed} ns of a limit of {tns} ns"));
            }
        }
        Got::Err(e) => o.fail("error", format!("ended with {e}")),
        g => match judge_verdict(&f, g) {
            Ok(w) => o.hit(w),
            Err((c, m)) => o.fail(c, m),
        },
    }
    // once the limit has passed, the run must come to an end
    if let Some(before) = run.mark_conflicts {
        o.hit("deadline_inside_solve");
        let extra = run.conflicts.saturating_sub(before);
        o.add("sum.conflicts_after_deadline", extra);
        let stages = run.stats_end_stage.saturating_sub(run.mark_stage);
        // a stage ends after a number of conflicts that grows with those before it; those learning a
        // unit or a binary clause are not counted by the solver, hence the room per variable
        let bound = 2 * before + 1000 + 4 * f.nv as u64;
        o.hit(&format!("stages_after_deadline.{}", stages.min(9)));
        if stages > 1 {
            o.fail("limit-ignored", format!("{stages} search stages were begun after the time limit had passed"));
        }
        if extra > bound {
            o.fail("limit-ignored", format!("{extra} conflicts after the time limit had passed ({before} before it)"));
        }
    }
    o
}

// ------------------------------------------------------------------------------------------- C08
fn gen08(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = super::core::pick_scale(r, thorough);
    let mut f = formula::generate(r, sc);
    solve::sometimes_big(r, &mut s, &mut f, 300, 20_000);
    let nc = f.cls.len() as u64;
    let lim = match r.below(10) {
        0 => r.below(nc + 2),
        1..=4 => (nc + r.logu(40)).saturating_sub(r.below(4)),
        5 | 6 => nc + r.logu(nc + 10),
        7 => nc + nc / 3 + r.below(nc + 3),
        8 => 3 * nc + r.logu(1000),
        _ if r.chance(40) => *r.pick(&[u64::MAX, u64::MAX / 2, u64::MAX / 3 + 1, u64::MAX / 4 + 1, 1 << 32, 1 << 61]),
        _ => 0,
    };
    s.set("cfg.cl", lim);
    s.set("iface", *r.pick(&["vec", "vec", "file", "api"]));
    solve::gen_cfg(r, &mut s);
    solve::gen_hooks(r, &mut s);
    solve::gen_hash(r, &mut s);
    solve::gen_clock(r, &mut s, 5000.0, 0.9);
    if r.chance(60) {
        s.set("cfg.certify", 1);
    }
    s.fs.push(f);
    s
}

/// lemmas written to a proof, before it ends
fn lemmas(p: &str) -> u64 {
    p.lines().filter(|l| !l.starts_with('d') && !l.is_empty()).count() as u64
}

fn run08(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = effective(s, &s.fs[0]);
    let run = solve::solve(s, &s.plan_text(), "c");
    account(&mut o, &run);
    let lim = s.u("cfg.cl", 0);
    let nc = f.cls.len() as u64;
    o.note = format!("{} nv={} nc={nc} limit={lim} -> {} conflicts={}", f.family, f.nv, run.got.word(), run.conflicts);
    o.nontrivial = lim > 0 && (run.got == Got::Err("OutOfMemory".into()) || lim <= nc + nc / 10 + 1);
    match &run.got {
        Got::Panic(p) => o.fail("panic", format!("panicked at {p}")),
        Got::Err(e) if e == "OutOfMemory" => {
            o.hit("out_of_memory");
            if lim == 0 {
                o.fail("unfounded", "memory exhaustion without a clause limit");
            }
            match &run.proof {
                Some(p) => {
                    o.hit("judged_by_proof_length");
                    let n = lemmas(p);
                    if nc + n < lim {
                        o.fail("unfounded", format!("memory exhaustion with limit {lim}, {nc} clauses given and {n} derived"));
                    }
                }
                None => {
                    let bound = 10 * nc + 10 * run.conflicts + 10_000;
                    if lim > bound {
                        o.fail("unfounded", format!("memory exhaustion with limit {lim}, {nc} clauses given and {} conflicts", run.conflicts));
                    }
                }
            }
        }
        Got::Err(e) => o.fail("error", format!("ended with {e}")),
        g => {
            match judge_verdict(&f, g) {
                Ok(w) => o.hit(w),
                Err((c, m)) => o.fail(c, m),
            }
            if let (Got::Unsat { build: false }, Some(p)) = (g, &run.proof) {
                if drat::check(f.nv, &f.cls, p).0 == drat::Proof::Refutes {
                    o.hit("unsat_proved");
                }
            }
        }
    }
    o
}
