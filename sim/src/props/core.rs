//! C01-C04: one solve in process under a simulated clock, hash seeds, options and moved heuristic
//! events.
use super::Prop;
use crate::drat::{self, Proof};
use crate::formula::{self, Formula};
use crate::refsat;
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, account, effective, Got, SEC};

const RULE: &str = "a scenario draws a formula (25 families), an interface (vector, file, incremental API, one-shot), options, a hash seed, a clock (pace, jumps that may cut preprocessing short) and the moments of stage/cycle/segment/restart events; non-trivial: the run had a conflict, an elimination or a subsumption; distinct: by hash of clock/alloc trace, conflicts, outcome, model and proof";
const REAL: &str = "real: the whole splr library (parser, API, preprocessing, search, proof writer). simulated: clock, entropy, moments of heuristic events. stub: none";

pub fn c01() -> Prop {
    Prop { id: "C01", gen: |r, s, t| gen(r, s, t, 1), run: |s| run(s, 1), quick: 100_000, thorough: 2_500_000, crash: false, hang: false, rule: RULE, level: "exploration", real: REAL }
}
pub fn c02() -> Prop {
    Prop { id: "C02", gen: |r, s, t| gen(r, s, t, 2), run: |s| run(s, 2), quick: 100_000, thorough: 2_500_000, crash: false, hang: false, rule: RULE, level: "exploration", real: REAL }
}
pub fn c03() -> Prop {
    Prop { id: "C03", gen: |r, s, t| gen(r, s, t, 3), run: |s| run(s, 3), quick: 100_000, thorough: 2_500_000, crash: true, hang: true, rule: RULE, level: "exploration", real: REAL }
}
pub fn c04() -> Prop {
    Prop { id: "C04", gen: |r, s, t| gen(r, s, t, 4), run: |s| run(s, 4), quick: 150_000, thorough: 2_500_000, crash: false, hang: false, rule: RULE, level: "exploration", real: REAL }
}

pub fn pick_scale(r: &mut Rng, thorough: bool) -> usize {
    let x = r.below(1000);
    if thorough {
        if x < 700 { 0 } else if x < 940 { 1 } else { 2 }
    } else if x < 860 {
        0
    } else if x < 985 {
        1
    } else {
        2
    }
}

fn gen(r: &mut Rng, mut s: Scn, thorough: bool, what: u32) -> Scn {
    let scale = pick_scale(r, thorough);
    let mut f = formula::generate(r, scale);
    // steer towards the outcome the property speaks about
    for _ in 0..3 {
        let wrong = match what {
            1 => matches!(f.family.as_str(), "php" | "tseitin") && !f.planted,
            2 => f.family == "php",
            4 => f.planted,
            _ => false,
        };
        if !wrong || r.chance(20) {
            break;
        }
        f = formula::generate(r, scale);
    }
    let very_wide = what != 4 && r.below(if thorough { 600 } else { 1500 }) == 0;
    if very_wide {
        f = formula::wide(r, (1 << 16) - 6);
        s.set("slow", 1);
    }
    if !very_wide {
        solve::sometimes_big(r, &mut s, &mut f, 280, if what == 4 { 6000 } else { 110_000 });
    }
    s.set("iface", *r.pick(&["vec", "vec", "vec", "file", "api", "api", "cert"]));
    if what == 4 && s.str("iface", "") == "cert" {
        s.set("iface", "vec");
    }
    if s.str("iface", "") == "api" {
        s.set("api.seed", r.below(1 << 30));
        if r.chance(60) {
            s.set("api.vars", r.below(f.nv as u64 + 1));
        }
    }
    solve::gen_cfg(r, &mut s);
    if very_wide && r.chance(70) {
        s.set("cfg.elim", 0);
    }
    solve::gen_hooks(r, &mut s);
    solve::gen_hash(r, &mut s);
    let timeout = if r.chance(60) { 5000 } else { r.range(1, 200) };
    if timeout != 5000 {
        s.set("cfg.timeout", timeout);
    }
    if r.chance(2) {
        s.set("cfg.timeout", *r.pick(&["1e10", "1e20", "1e300", "inf"]));
    }
    let late = (what == 1 || what == 2) && r.chance(12);
    solve::gen_clock(r, &mut s, timeout as f64, if late { 2.5 } else { 0.93 });
    if what == 4 || (what == 2 && r.chance(50)) || r.chance(if what == 3 { 35 } else { 15 }) {
        s.set("cfg.certify", 1);
    }
    if what == 2 && f.cls.len() > 15_000 {
        // the reference solver is faster than the proof checker here
        s.kv.remove("cfg.certify");
    }
    if s.str("iface", "") == "cert" {
        // the one-shot interface uses the default configuration
        s.kv.retain(|k, _| !k.starts_with("cfg."));
    }
    s.fs.push(f);
    s
}

/// is the formula satisfiable? None: the budget did not suffice
pub fn truth(f: &Formula) -> Option<bool> {
    if f.planted {
        return Some(true);
    }
    refsat::solve(f.nv, &f.cls, 400_000).map(|m| m.is_some())
}

fn run(s: &Scn, what: u32) -> Out {
    let mut o = Out::default();
    let f = effective(s, &s.fs[0]);
    let run = solve::solve(s, &s.plan_text(), "c");
    account(&mut o, &run);
    o.nontrivial = run.probes.iter().any(|(n, x)| matches!(*n, "conflicts" | "vars_eliminated" | "subsumed") && *x > 0);
    o.note = format!("{} nv={} nc={} -> {} conflicts={}", f.family, f.nv, f.cls.len(), run.got.word(), run.conflicts);
    let timeout_ns = (s.f("cfg.timeout", 5000.0) * SEC as f64) as u64;
    let passed = run.stats.now.saturating_sub(run.start_ns) >= timeout_ns;
    if passed {
        o.hit("deadline_passed");
    }
    match what {
        1 => {
            if let Got::Sat(m) = &run.got {
                o.hit("judged");
                if let Err(e) = f.judge_model(m) {
                    o.fail("bad-model", e);
                }
            }
        }
        2 => {
            if run.got.is_unsat() {
                let proved = run.proof.as_ref().is_some_and(|p| drat::check(f.nv, &f.cls, p).0 == Proof::Refutes);
                if proved {
                    o.hit("judged_by_proof");
                } else {
                    match truth(&f) {
                        Some(true) => o.fail("false-unsat", format!("answered {} for a satisfiable formula", run.got.word())),
                        Some(false) => o.hit("judged_by_reference_solver"),
                        None => o.hit("undecided_by_reference"),
                    }
                }
            }
        }
        3 => {
            if !passed {
                o.hit("judged");
                match &run.got {
                    Got::Panic(p) => o.fail("panic", format!("panicked at {p}")),
                    Got::Err(e) => o.fail("error", format!("ended with {e} although no limit was hit")),
                    _ => (),
                }
            }
        }
        _ => {
            let by_api = s.str("iface", "vec") == "api";
            if let Got::Panic(p) = &run.got {
                o.fail("crash-while-certifying", format!("no answer and no proof: panicked at {p}"));
            }
            if run.got == (Got::Unsat { build: false }) || (by_api && run.got.is_unsat()) {
                o.hit("judged");
                match &run.proof {
                    None => o.fail("no-proof", "no proof file after an unsatisfiable answer"),
                    Some(p) => {
                        let (v, lemmas, dels, rats) = drat::check(f.nv, &f.cls, p);
                        o.add("sum.lemmas", lemmas as u64);
                        o.add("sum.deletions", dels as u64);
                        o.add("sum.rat_lemmas", rats as u64);
                        match v {
                            Proof::Refutes => (),
                            Proof::Incomplete => o.fail("incomplete-proof", "the proof does not derive the empty clause"),
                            Proof::Bad(w) => o.fail("bad-proof", format!("{w:?}")),
                        }
                    }
                }
            }
        }
    }
    o
}
