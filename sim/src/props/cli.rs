//! The shipped commands as simulated processes: C05 (proof files and failing disks), C07 (SPLR_TIMEOUT
//! against the solver), C09 (verdict line, exit status, answer file), C10 (crashes) and C16 (dmcr).
use super::core::truth;
use super::Prop;
use crate::drat::{self, Proof};
use crate::formula::{self, Formula};
use crate::refsat;
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, fresh_dir, SEC};
use crate::sub::{self, Answer, Cmd, Ended, Word, EINTR, EIO, ENOSPC};
use splr::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------------------------------- the command
/// draw options of the splr command that must not matter for the result
fn gen_opts(r: &mut Rng, s: &mut Scn) {
    if r.chance(50) {
        s.set("opt.q", 1);
    }
    if r.chance(15) {
        s.set("opt.color", 1);
    }
    if r.chance(25) {
        s.set("opt.o", "out");
    }
    if r.chance(20) {
        s.set("opt.r", *r.pick(&["res.txt", "-", "in.ans", "sub/res.txt", "./res.txt"]));
    }
    if s.on("opt.c") && r.chance(20) {
        s.set("opt.p", *r.pick(&["p.out", "cert.drat", "sub/p.out", "sub/../cert.drat", "./p"]));
    }
    if r.chance(25) {
        s.set("opt.long", 1);
    }
    if r.chance(10) {
        s.set("opt.heatmap", 1);
    }
    if r.chance(25) {
        s.set("opt.in", *r.pick(&["sub/in.cnf", "./in.cnf", "sub/../in.cnf", "sub/deep/in.cnf"]));
    }
    if r.chance(25) {
        solve::gen_cfg(r, s);
        for k in ["cfg.cbt", "cfg.elim", "cfg.loud"] {
            s.kv.remove(k);
        }
    }
}
/// tuning options as the command line spells them
const TUNE: [(&str, &str); 8] =
    [("cfg.cl", "--cl"), ("cfg.crl", "--crl"), ("cfg.cr1", "--cr1"), ("cfg.cr2", "--cr2"), ("cfg.rlt", "--rlt"), ("cfg.ecl", "--ecl"), ("cfg.evl", "--evl"), ("cfg.evo", "--evo")];
fn input(s: &Scn) -> String {
    // the directory of the input must not stand in for a missing output directory
    s.str(if s.on("no_odir") { "" } else { "opt.in" }, "in.cnf")
}
struct Paths {
    ans: Option<PathBuf>,
    proof: PathBuf,
}
fn paths(s: &Scn, d: &Path) -> Paths {
    let o = d.join(s.str("opt.o", "."));
    let ans = match s.str("opt.r", "").as_str() {
        "-" => None,
        "" => Some(o.join("ans_in.cnf")),
        x => Some(o.join(x)),
    };
    Paths { ans, proof: o.join(s.str("opt.p", "proof.drat")) }
}
fn args(s: &Scn) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let long = s.on("opt.long");
    let mut put = |short: &str, name: &str, v: Option<String>| {
        a.push(if long { name } else { short }.to_string());
        a.extend(v);
    };
    for (k, o) in TUNE.iter().chain([("cfg.vdr", "--vdr")].iter()) {
        if s.has(k) {
            put(o, o, Some(s.str(k, "")));
        }
    }
    if !s.on("opt.color") {
        put("-C", "--no-color", None);
    }
    if s.on("opt.q") {
        put("-q", "--quiet", None);
    }
    if s.on("cfg.journal") {
        put("-j", "--journal", None);
    }
    if s.on("opt.heatmap") {
        put("-H", "--heatmap", None);
    }
    if s.on("opt.c") {
        put("-c", "--certify", None);
        if s.has("opt.p") {
            put("-p", "--proof", Some(s.str("opt.p", "")));
        }
    }
    for (k, o, l) in [("opt.o", "-o", "--dir"), ("opt.r", "-r", "--result"), ("opt.t", "-t", "--timeout")] {
        if s.has(k) {
            put(o, l, Some(s.str(k, "")));
        }
    }
    a.push(input(s));
    a
}
fn base(p: &Path) -> String {
    p.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default()
}
/// a directory with the input; the output directory exists unless the scenario says otherwise
fn world(s: &Scn, name: &str, f: &Formula) -> PathBuf {
    let d = fresh_dir(name);
    let cnf = d.join(input(s));
    for sub in ["sub", "sub/deep"].iter().filter(|x| input(s).starts_with(**x)) {
        std::fs::create_dir_all(d.join(sub)).expect("mkdir");
    }
    std::fs::write(cnf, f.dimacs()).expect("write");
    if s.has("opt.o") && !s.on("no_odir") {
        std::fs::create_dir_all(d.join(s.str("opt.o", "."))).expect("mkdir");
    }
    if !s.on("no_odir") && [s.str("opt.p", ""), s.str("opt.r", "")].iter().any(|x| x.starts_with("sub/")) {
        std::fs::create_dir_all(d.join(s.str("opt.o", ".")).join("sub")).expect("mkdir");
    }
    d
}
fn splr(s: &Scn, d: &Path, plan: &str, env: Vec<(String, String)>) -> Ended {
    let p = paths(s, d);
    let ans = p.ans.as_deref().map_or_else(|| "ans_in.cnf".into(), base);
    let proof = base(&p.proof);
    let plan = sub::dir_plan(d, &[("cnf", "in.cnf"), ("ans", &ans), ("proof", &proof)]) + plan;
    sub::run(&Cmd { bin: "splr", args: args(s), env, dir: d, plan, stdin: None })
}
fn clock_plan(r: &mut Rng) -> String {
    let tick = match r.below(3) { 0 => 0, 1 => r.below(1000), _ => r.below(2_000_000) };
    format!("clock {} {tick} {} {}", r.below(1 << 50), if r.chance(40) { r.below(2000) } else { 0 }, if r.chance(30) { r.below(1_000_000) } else { 0 })
}

/// declare many more variables, so that an answer is longer than the buffers it passes through
fn bloat(r: &mut Rng, f: &mut Formula, percent: u64) {
    if r.chance(percent) {
        f.nv += r.logu(4000) as usize;
    }
}

/// exactly one result line, the right exit status, and a verdict that is true
fn verdict(o: &mut Out, s: &Scn, f: &Formula, e: &Ended, start: u64) -> Option<Word> {
    if let Some(sig) = e.signal {
        o.fail("abnormal-end", format!("killed by signal {sig}: {}", e.err.lines().next().unwrap_or("")));
        return None;
    }
    if e.code == Some(sub::DEADLOCK) && e.log.contains("DEADLOCK") {
        o.fail("deadlock", "all threads are blocked");
        return None;
    }
    let words = sub::result_lines(&e.out);
    let [w] = words.as_slice() else {
        o.fail("result-lines", format!("{} result lines ({words:?}), {}", words.len(), e.how()));
        return None;
    };
    if e.code != Some(w.exit()) {
        o.fail("exit-status", format!("result line {w:?} but {}", e.how()));
        return None;
    }
    let t = truth(f);
    match w {
        Word::Sat if t == Some(false) => o.fail("wrong-verdict", "SATISFIABLE for an unsatisfiable formula"),
        Word::Unsat if t == Some(true) => o.fail("wrong-verdict", "UNSATISFIABLE for a satisfiable formula"),
        Word::Unknown => {
            let limit = limit_ns(s);
            if s.u("cfg.cl", 0) > 0 && e.out.contains("OutOfMemory") {
                o.hit("clause_limit");
            } else if e.now.saturating_sub(start) < limit {
                o.fail("early-unknown", format!("gave up after {} ns of {limit} ns", e.now.saturating_sub(start)));
            }
        }
        _ => (),
    }
    Some(*w)
}
/// the earliest time at which the result may be unknown
fn limit_ns(s: &Scn) -> u64 {
    let t = (s.f("opt.t", 5000.0) * SEC as f64) as u64;
    match s.str("env.timeout", "").parse::<u64>() {
        Ok(x) => t.min(x.saturating_mul(SEC)),
        Err(_) => t,
    }
}
/// is this text the complete statement of `w`?
fn complete(f: &Formula, w: Word, text: &str) -> Result<(), String> {
    match (w, sub::answer(text)) {
        (Word::Sat, Answer::Sat { model, terminated: true }) => f.judge_model(&model),
        (Word::Unsat, Answer::Unsat { terminated: true }) => Ok(()),
        (Word::Unknown, Answer::Unknown { terminated: true }) => Ok(()),
        (_, a) => Err(format!("{w:?} was reported, the answer is {}", format!("{a:?}").chars().take(80).collect::<String>())),
    }
}
/// the path named by a line such as " Certificate|file: x"
fn announced(e: &Ended, what: &str) -> Option<String> {
    let key = format!("{what}|file:");
    sub::plain(&e.out).lines().find_map(|l| l.split_once(&key).map(|x| x.1.trim().to_string()))
}
/// an announced certificate must be there and refute the formula
fn certificate(o: &mut Out, f: &Formula, d: &Path, e: &Ended) -> bool {
    let Some(p) = announced(e, "Certificate") else { return false };
    o.hit("certificate_announced");
    let Ok(b) = std::fs::read(d.join(&p)) else {
        o.fail("missing-proof", format!("the announced certificate file {p} does not exist"));
        return true;
    };
    let (v, ..) = drat::check(f.nv, &f.cls, &String::from_utf8_lossy(&b));
    match v {
        Proof::Refutes => o.hit("certificate_valid"),
        Proof::Incomplete => o.fail("incomplete-proof", format!("the announced certificate file of {} bytes does not derive the empty clause", b.len())),
        Proof::Bad(m) => o.fail("bad-proof", format!("the announced certificate file is no proof: {m}")),
    }
    true
}
fn unsat_formula(r: &mut Rng, thorough: bool, scale1: u64) -> Formula {
    let mut f = Formula::default();
    for _ in 0..8 {
        let sc = if r.chance(scale1) { 1 + usize::from(thorough && r.chance(15)) } else { 0 };
        f = formula::generate(r, sc);
        if truth(&f) == Some(false) {
            break;
        }
    }
    f
}
fn note(s: &Scn, f: &Formula, e: &Ended) -> String {
    format!("{} {} nv={} nc={} -> {:?} {}", args(s).join(" "), f.family, f.nv, f.cls.len(), sub::result_lines(&e.out), e.how())
}

/// the result and its answer, given what went wrong on the answer file; `strict`: an answer must exist
fn judge_answer(o: &mut Out, s: &Scn, f: &Formula, d: &Path, e: &Ended, w: Word, hard: bool) {
    let p = paths(s, d);
    let shown = complete(f, w, &stdout_answer(&e.out));
    let file = p.ans.as_ref().map(|x| std::fs::read(x).map(|b| String::from_utf8_lossy(&b).into_owned()));
    match file {
        // the answer goes to standard output
        None => {
            if let Err(m) = shown {
                if e.hard_fault("out") && sub::admits_failure(e) {
                    o.hit("failure_admitted");
                // refuted while loading: the result line is all there is
                } else if w != Word::Unsat || sub::answer(&stdout_answer(&e.out)) != Answer::None {
                    o.fail("bad-answer", format!("on standard output: {m}"));
                }
            } else {
                o.hit("answer_shown");
            }
        }
        Some(Err(_)) => {
            if w == Word::Unsat && announced(e, "Result").is_none() {
                o.hit("refuted_while_loading");
            } else if shown.is_ok() {
                o.hit("answer_shown_instead");
            } else if hard && sub::admits_failure(e) {
                o.hit("failure_admitted");
            } else {
                o.fail("no-answer", "there is no answer file, and nothing says so");
            }
        }
        Some(Ok(t)) => match complete(f, w, &t) {
            Ok(()) => {
                o.hit("answer_complete");
                if let Some(a) = announced(e, "Result") {
                    if !d.join(&a).exists() {
                        o.fail("no-answer", format!("the announced answer file {a} does not exist"));
                    }
                }
            }
            // refuted while loading: a file left from before is not this run's
            Err(_) if w == Word::Unsat && announced(e, "Result").is_none() && s.has("stale") && t == stale_text(s) => o.hit("refuted_while_loading"),
            Err(m) => {
                if hard && (sub::admits_failure(e) || shown.is_ok()) {
                    o.hit("failure_admitted");
                } else {
                    o.fail("bad-answer", m);
                }
            }
        },
    }
}
/// the part of standard output that can be an answer: the result lines name the input, an answer does not
fn stdout_answer(out: &str) -> String {
    sub::plain(out)
}
fn stale_text(s: &Scn) -> String {
    match s.str("stale", "").as_str() {
        "sat" => "c old\ns SATISFIABLE\nv 1 2 3 0\n".into(),
        "unsat" => "c old\ns UNSATISFIABLE\n0\n".into(),
        "long" => "s SATISFIABLE\nv ".to_string() + &"-1 1 ".repeat(20_000) + "0\n",
        "zero" => "0\n".into(),
        "junk" => "x\n-3 0\n".repeat(3000),
        _ => String::new(),
    }
}

// ------------------------------------------------------------------------------------------- C05
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        gen: gen05,
        run: run05,
        quick: 30_000,
        thorough: 1_000_000,
        crash: false,
        hang: false,
        rule: "a scenario draws a formula (mostly unsatisfiable), options and faults on the proof file (creation refused, EIO/ENOSPC at the k-th write, disk full after n bytes, short and interrupted writes, stale file, missing directory) and runs the shipped splr command; non-trivial: a fault on the proof file fired; distinct: by hash of the I/O history and output",
        level: "exploration",
        real: "real: the shipped splr binary. simulated: clock, entropy, outcome of every open/read/write/close. stub: none",
    }
}
fn gen05(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let f = unsat_formula(r, thorough, 35);
    s.set("opt.c", 1);
    gen_opts(r, &mut s);
    s.plan.push(format!("hash {}", r.next() >> 1));
    s.plan.push(clock_plan(r));
    match r.below(12) {
        0 => s.plan.push(format!("fault proof open 1 err {}", *r.pick(&[2, 13, 24, 28, 30, 5, 4]))),
        1 | 2 => s.plan.push(format!("fault proof write {} err {}", 1 + r.logu(6), *r.pick(&[EIO, ENOSPC]))),
        3..=6 => s.plan.push(format!("quota proof {} {ENOSPC}", r.logu(150_000))),
        7 => {
            s.plan.push(format!("chunk proof w {} {}", r.below(1 << 30), 1 + r.logu(9000)));
            s.plan.push(format!("fault proof write {} err {}", 1 + r.logu(300), *r.pick(&[EIO, ENOSPC])));
        }
        8 => s.plan.push(format!("chunk proof w {} {}", r.below(1 << 30), 1 + r.logu(9000))),
        9 => {
            for _ in 0..r.us(1, 6) {
                s.plan.push(format!("fault proof write {} err {EINTR}", 1 + r.logu(10)));
            }
        }
        10 => {
            for _ in 0..r.us(1, 6) {
                s.plan.push(format!("fault proof write {} short {}", 1 + r.logu(10), 1 + r.logu(8000)));
            }
        }
        _ => {
            if r.chance(30) {
                if r.chance(50) {
                    s.set("opt.o", "out");
                } else {
                    s.set("opt.p", "sub/p.out");
                }
                s.set("no_odir", 1);
            } else if r.chance(40) {
                s.set("proof_is_dir", 1);
            }
        }
    }
    if r.chance(25) {
        s.set("stale", *r.pick(&["zero", "junk", "junk"]));
    }
    if r.chance(8) {
        s.plan.push(format!("quota ans {} {ENOSPC}", r.logu(5000)));
    }
    s.fs.push(f);
    s
}
fn run05(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let d = world(s, "c", f);
    let p = paths(s, &d);
    if s.on("proof_is_dir") {
        let _ = std::fs::create_dir_all(&p.proof);
    } else if s.has("stale") && !s.on("no_odir") {
        std::fs::write(&p.proof, stale_text(s)).expect("stale");
    }
    let start = solve::clock_start(&s.plan_text());
    let e = splr(s, &d, &s.plan_text(), vec![]);
    sub::account(&mut o, &e, start);
    o.note = note(s, f, &e) + &format!(" {:?}", e.fired("proof"));
    o.nontrivial = !e.fired("proof").is_empty() || s.on("proof_is_dir") || s.on("no_odir") || s.plan.iter().any(|l| l.starts_with("chunk proof") || l.contains(" short "));
    let Some(w) = verdict(&mut o, s, f, &e, start) else { return o };
    let hard = e.hard_fault("proof") || s.on("no_odir") || s.on("proof_is_dir") || e.fired("proof").iter().any(|l| l.contains("quota"));
    let ann = certificate(&mut o, f, &d, &e);
    if ann && w != Word::Unsat {
        o.fail("certificate-without-refutation", format!("a certificate was announced with {w:?}"));
    }
    if ann && hard {
        o.fail("announced-after-failure", format!("a certificate was announced although the proof file failed: {:?}", e.fired("proof")));
    }
    if !ann && !hard && w == Word::Unsat {
        // refuted while loading: there is no search and no report
        let reported = p.ans.as_ref().map_or(sub::answer(&e.out) != Answer::None, |x| x.exists());
        if reported {
            o.fail("not-announced", "nothing failed, but no certificate was announced");
        } else {
            o.hit("refuted_while_loading");
        }
    }
    if !ann && hard && w == Word::Unsat {
        o.hit("withheld");
    }
    o
}

// ------------------------------------------------------------------------------------------- C09
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        gen: gen09,
        run: run09,
        quick: 60_000,
        thorough: 1_200_000,
        crash: false,
        hang: false,
        rule: "a scenario draws a formula, output options, a time limit and faults on the answer file and standard output, and runs the shipped splr command; result line, exit status, truth and answer are compared; non-trivial: a fault fired on answer or standard output, or the time limit passed; distinct: by hash of the I/O history and output",
        level: "exploration",
        real: "real: the shipped splr binary. simulated: clock, entropy, outcome of every open/read/write/close. stub: none",
    }
}
fn gen09(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = if r.chance(25) { 1 + usize::from(thorough && r.chance(10)) } else { 0 };
    let mut f = formula::generate(r, sc);
    bloat(r, &mut f, 30);
    solve::sometimes_big(r, &mut s, &mut f, 500, 6000);
    solve::sometimes_big(r, &mut s, &mut f, 3000, 70_000);
    if r.chance(20) {
        s.set("opt.c", 1);
    }
    gen_opts(r, &mut s);
    if r.chance(8) {
        s.set("cfg.cl", 1 + r.logu(400));
    }
    s.plan.push(format!("hash {}", r.next() >> 1));
    if r.chance(15) {
        let t = r.range(1, 50);
        s.set("opt.t", t);
        s.plan.push(format!("clock {} {} {} 0", r.below(1 << 50), r.below(1000), r.below(50)));
        s.plan.push(format!("jump alloc {} {}", r.logu(6000), t as u64 * SEC + r.below(SEC)));
    } else {
        s.plan.push(clock_plan(r));
    }
    match r.below(11) {
        0 => s.plan.push(format!("fault ans open 1 err {}", *r.pick(&[2, 13, 24, 28, 30, 5, 4]))),
        1 => s.plan.push(format!("fault ans write {} err {}", 1 + r.logu(3), *r.pick(&[EIO, ENOSPC]))),
        2..=4 => s.plan.push(format!("quota ans {} {ENOSPC}", r.logu(9000))),
        5 => {
            s.plan.push(format!("chunk ans w {} {}", r.below(1 << 30), 1 + r.logu(5000)));
            s.plan.push(format!("fault ans write {} err {}", 1 + r.logu(100), *r.pick(&[EIO, ENOSPC])));
        }
        6 => s.plan.push(format!("chunk ans w {} {}", r.below(1 << 30), 1 + r.logu(5000))),
        7 => {
            for _ in 0..r.us(1, 4) {
                let l = if r.chance(50) { format!("fault ans write {} err {EINTR}", 1 + r.logu(4)) } else { format!("fault ans write {} short {}", 1 + r.logu(4), 1 + r.logu(5000)) };
                s.plan.push(l);
            }
        }
        8 => {
            if r.chance(50) {
                s.set("opt.o", "out");
                s.set("no_odir", 1);
            } else {
                s.set("ans_is_dir", 1);
            }
        }
        _ => (),
    }
    match r.below(10) {
        0 => s.plan.push(format!("chunk out w {} {}", r.below(1 << 30), 1 + r.logu(300))),
        1 => s.plan.push(format!("fault out write {} err {EINTR}", 1 + r.logu(30))),
        2 => s.plan.push(format!("fault out write {} short {}", 1 + r.logu(30), 1 + r.logu(60))),
        3 if r.chance(30) => s.plan.push(format!("fault out write {} err {}", 1 + r.logu(30), *r.pick(&[EIO, ENOSPC, 32]))),
        _ => (),
    }
    if r.chance(30) {
        s.set("stale", *r.pick(&["sat", "unsat", "long"]));
    }
    s.fs.push(f);
    s
}
fn run09(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let d = world(s, "c", f);
    let p = paths(s, &d);
    if let Some(a) = &p.ans {
        if s.on("ans_is_dir") {
            let _ = std::fs::create_dir_all(a);
        } else if s.has("stale") && !s.on("no_odir") {
            std::fs::write(a, stale_text(s)).expect("stale");
        }
    }
    let start = solve::clock_start(&s.plan_text());
    let e = splr(s, &d, &s.plan_text(), vec![]);
    sub::account(&mut o, &e, start);
    o.note = note(s, f, &e) + &format!(" {:?} {:?}", e.fired("ans"), e.fired("out"));
    o.nontrivial = !e.fired("ans").is_empty() || !e.fired("out").is_empty() || s.on("no_odir") || s.on("ans_is_dir") || e.now.saturating_sub(start) >= limit_ns(s) || s.u("cfg.cl", 0) > 0 || s.plan.iter().any(|l| l.starts_with("chunk") || l.contains(" short "));
    let out_hard = e.hard_fault("out");
    if out_hard && e.signal == Some(6) {
        o.hit("ended_by_failing_stdout");
        return o;
    }
    let Some(w) = verdict(&mut o, s, f, &e, start) else { return o };
    o.hit(&format!("verdict.{w:?}"));
    let hard = e.hard_fault("ans") || e.fired("ans").iter().any(|l| l.contains("quota")) || s.on("no_odir") || s.on("ans_is_dir");
    judge_answer(&mut o, s, f, &d, &e, w, hard);
    certificate(&mut o, f, &d, &e);
    o
}

// ------------------------------------------------------------------------------------------- C07
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        gen: gen07,
        run: run07,
        quick: 50_000,
        thorough: 1_500_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula, options and a value of SPLR_TIMEOUT, measures a run without expiry, and lets the time-out expire at a drawn allocation (half of the time among the last 400, around the report) under a seeded scheduler that switches between the time-out thread and the main thread at allocations, locks and system calls; non-trivial: the time-out expired before the end of the run; distinct: by hash of schedule, I/O history and output",
        level: "exploration",
        real: "real: the shipped splr binary with its time-out thread. simulated: clock, sleep, entropy, thread schedule, locks, outcome of every I/O call. stub: none",
    }
}
fn gen07(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = if r.chance(20) { 1 + usize::from(thorough && r.chance(10)) } else { 0 };
    let mut f = formula::generate(r, sc);
    bloat(r, &mut f, 15);
    solve::sometimes_big(r, &mut s, &mut f, 500, 20_000);
    if r.chance(30) {
        s.set("opt.c", 1);
    }
    gen_opts(r, &mut s);
    let t: String = match r.below(40) {
        0 => "0".into(),
        1 => r.pick(&["18446744073709551615", "18446744073709552", "18446744073709551", "9223372036854775808", "36893488147419104"]).to_string(),
        2 => r.pick(&["abc", "-1", "1.5", "", "99999999999999999999"]).to_string(),
        3 => "100000".into(),
        4..=9 => "1".into(),
        _ => r.range(1, 4000).to_string(),
    };
    s.set("env.timeout", &t);
    s.plan.push(format!("hash {}", r.next() >> 1));
    s.plan.push(format!("clock {} {} 0 0", r.below(1 << 50), *r.pick(&[0u64, 1, 1000])));
    solve::gen_wall(r, &mut s);
    if r.chance(50) {
        s.set("tail", 1 + r.below(400));
    } else {
        s.set("permille", r.below(1001));
    }
    let gap = match r.below(5) { 0 | 1 => 1 + r.below(6), 2 => 1 + r.below(40), 3 => 20 + r.below(300), _ => 0 };
    s.plan.push(format!("sched {} {} {gap}", r.below(1 << 40), *r.pick(&[5, 30, 60, 100])));
    if r.chance(10) {
        s.plan.push(format!("chunk ans w {} {}", r.below(1 << 30), 1 + r.logu(3000)));
    }
    if r.chance(10) {
        s.plan.push(format!("chunk out w {} {}", r.below(1 << 30), 1 + r.logu(60)));
    }
    s.fs.push(f);
    s
}
fn run07(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let tv = s.str("env.timeout", "");
    let mut quiet: String = s.plan.iter().filter(|l| l.starts_with("hash") || l.starts_with("clock")).map(|l| format!("{l}\n")).collect();
    // the main thread goes on and the time-out thread waits
    quiet += "sched 1 0 0\n";
    // how long is the run when nothing expires?
    let d = world(s, "p", f);
    let probe = splr(s, &d, &quiet, vec![("SPLR_TIMEOUT".into(), "4000000".into())]);
    o.runs += 1;
    let n = probe.alloc;
    let start = solve::clock_start(&s.plan_text());
    let t: Option<u64> = tv.parse::<u64>().ok();
    let mut plan = s.plan_text();
    if !s.plan.iter().any(|l| l.starts_with("sched")) {
        // a minimised scenario: the threads stay under control
        plan = "schedx\n".to_string() + &plan;
    }
    if let Some(t) = t.filter(|t| *t > 0 && *t < 1_000_000) {
        let at = if s.has("permille") { n * s.u("permille", 0) / 1000 } else { n.saturating_sub(s.u("tail", 1)) };
        plan = format!("jump alloc {} {}\n", at.max(1), t * SEC) + &plan;
    }
    let d = world(s, "c", f);
    let e = splr(s, &d, &plan, vec![("SPLR_TIMEOUT".into(), tv.clone())]);
    sub::account(&mut o, &e, start);
    o.switches = e.switches();
    let passed = e.now.saturating_sub(start);
    let t_ns = t.map_or(u64::MAX, |t| t.saturating_mul(SEC));
    o.nontrivial = passed >= t_ns;
    o.note = note(s, f, &e) + &format!(" T={tv} after {:.3}s, {} switches, {n} allocations", passed as f64 / 1e9, e.sw);
    let Some(w) = verdict(&mut o, s, f, &e, start) else { return o };
    if passed >= t_ns {
        o.hit(&format!("expired.{w:?}"));
    }
    if w != Word::Unknown {
        judge_answer(&mut o, s, f, &d, &e, w, false);
        certificate(&mut o, f, &d, &e);
    }
    o
}

// ------------------------------------------------------------------------------------------- C10
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        gen: gen10,
        run: run10,
        quick: 12_000,
        thorough: 500_000,
        crash: false,
        hang: false,
        rule: "a scenario draws a formula and a sequence of runs of the splr command in one directory, each killed at a drawn I/O operation (a write in flight is torn after a drawn number of bytes), then a run to the end and a run of dmcr; the files left are judged after every kill; non-trivial: a run was killed after it had opened an output file; distinct: by hash of all I/O histories and outputs",
        level: "exploration",
        real: "real: the shipped splr and dmcr binaries. simulated: clock, entropy, process death, torn writes, split writes. stub: none (what was written before a kill survives, as after a process kill; loss of a page cache is not simulated: no sync is promised)",
    }
}
fn gen10(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = if r.chance(25) { 1 + usize::from(thorough && r.chance(10)) } else { 0 };
    let mut f = if r.chance(40) { unsat_formula(r, thorough, 30) } else { formula::generate(r, sc) };
    solve::sometimes_big(r, &mut s, &mut f, 500, 6000);
    bloat(r, &mut f, 15);
    s.set("opt.c", 1);
    gen_opts(r, &mut s);
    s.kv.remove("opt.in");
    if s.str("opt.r", "") == "-" {
        s.kv.remove("opt.r");
    }
    // the directory holds the results of an earlier version of the input
    let earlier = r.chance(45).then(|| earlier_version(r, &f));
    let n = r.us(1, 4);
    for _ in 0..n {
        let flags = *r.pick(&["c", "c", "-"]);
        let p = if r.chance(60) { r.range(500, 1100) } else { r.range(0, 1000) };
        s.ops.push(format!("run {flags} {p} {} {}", if r.chance(60) { r.logu(9000) } else { 0 }, r.below(1 << 30)));
    }
    s.plan.push(format!("hash {}", r.next() >> 1));
    s.plan.push(clock_plan(r));
    if r.chance(50) {
        s.plan.push(format!("chunk ans w {} {}", r.below(1 << 30), 1 + r.logu(3000)));
    }
    if r.chance(40) {
        s.plan.push(format!("chunk proof w {} {}", r.below(1 << 30), 1 + r.logu(9000)));
    }
    s.fs.push(f);
    s.fs.extend(earlier);
    s
}
/// a formula that the input may have been before it was edited
fn earlier_version(r: &mut Rng, f: &Formula) -> Formula {
    let mut g = f.clone();
    g.planted = false;
    if r.chance(50) {
        // the same with some variables negated
        let flip: BTreeSet<u32> = (0..g.nv as u32 + 1).filter(|_| r.chance(30)).collect();
        for l in g.cls.iter_mut().flatten() {
            if flip.contains(&l.unsigned_abs()) {
                *l = -*l;
            }
        }
    }
    if r.chance(60) {
        let p = 1 + r.logu(60);
        g.cls.retain(|_| !r.chance(p));
    }
    g
}
type Before = (Option<Vec<u8>>, Option<Vec<u8>>);
fn outputs(s: &Scn, d: &Path) -> Before {
    let p = paths(s, d);
    (p.ans.and_then(|x| std::fs::read(x).ok()), std::fs::read(p.proof).ok())
}
/// what is left and was not there before the first run (`was`)
fn leftovers(o: &mut Out, s: &Scn, f: &Formula, d: &Path, input: &[u8], when: &str, was: &Before) {
    if std::fs::read(d.join("in.cnf")).ok().as_deref() != Some(input) {
        o.fail("input-changed", format!("the input file changed {when}"));
    }
    let now = outputs(s, d);
    if now.0.is_some() && now.0 == was.0 {
        o.hit("left.earlier_answer");
    } else if let Some(b) = now.0 {
        match sub::answer(&String::from_utf8_lossy(&b)) {
            Answer::Sat { model, terminated: true } => {
                o.hit("left.sat_complete");
                if let Err(m) = f.judge_model(&model) {
                    o.fail("false-answer", format!("the answer file left {when} passes for a model: {m}"));
                }
            }
            Answer::Sat { .. } => o.hit("left.sat_cut"),
            Answer::Unsat { .. } => {
                o.hit("left.unsat");
                if truth(f) == Some(true) {
                    o.fail("false-answer", format!("the answer file left {when} says UNSATISFIABLE, the formula has a model"));
                }
            }
            Answer::Unknown { .. } => o.hit("left.unknown"),
            Answer::None => o.hit("left.no_statement"),
        }
    }
    if now.1.is_some() && now.1 == was.1 {
        o.hit("left.earlier_proof");
    } else if let Some(b) = now.1 {
        match drat::check_prefix(f.nv, &f.cls, &String::from_utf8_lossy(&b)) {
            Proof::Refutes => {
                o.hit("left.proof_complete");
                if truth(f) == Some(true) {
                    o.fail("false-proof", format!("the proof left {when} refutes a formula that has a model"));
                }
            }
            _ => o.hit("left.proof_cut"),
        }
    }
}
fn run10(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let d = world(s, "p", f);
    let plan = s.plan_text();
    let start = solve::clock_start(&plan);
    let probe = splr(s, &d, &plan, vec![]);
    o.runs += 1;
    let total = probe.io;
    let d = world(s, "c", f);
    let input = f.dimacs().into_bytes();
    let mut told = vec![];
    if let Some(g) = s.fs.get(1) {
        std::fs::write(d.join("in.cnf"), g.dimacs()).expect("write");
        let e = splr(s, &d, &plan, vec![]);
        sub::account(&mut o, &e, start);
        std::fs::write(d.join("in.cnf"), &input).expect("write");
        told.push(format!("earlier {:?}", sub::result_lines(&e.out)));
    }
    let was = outputs(s, &d);
    for op in &s.ops {
        let w: Vec<&str> = op.split(' ').collect();
        let (Some(fl), Some(pm), Some(torn), Some(h)) = (w.get(1), w.get(2).and_then(|x| x.parse::<u64>().ok()), w.get(3), w.get(4)) else { continue };
        let mut q = s.clone();
        if *fl != "c" {
            q.kv.remove("opt.c");
            q.kv.remove("opt.p");
        }
        let k = 1 + pm * total / 1000;
        let e = splr(&q, &d, &(plan.replace("hash ", "# ") + &format!("hash {h}\ncrash {k} {torn}\n")), vec![]);
        sub::account(&mut o, &e, start);
        if e.crashed() {
            o.hit("kills");
            if e.log.contains("O ans open") || e.log.contains("O proof open") {
                o.nontrivial = true;
            }
        } else {
            verdict(&mut o, &q, f, &e, start);
        }
        told.push(format!("{}@{k}", e.how()));
        leftovers(&mut o, s, f, &d, &input, &format!("by run {} ({})", told.len(), e.how()), &was);
        // what the checker makes of the answer that was left
        if s.ops.len() % 2 == 1 {
            let ans = paths(s, &d).ans.filter(|a| a.exists());
            if let Some(a) = ans.filter(|a| was.0.is_none() || std::fs::read(a).ok() != was.0) {
                let c = dmcr(&d, vec!["-C".into(), "-a".into(), a.display().to_string(), "in.cnf".into()], "", None);
                sub::account(&mut o, &c, 0);
                if c.out.contains("A valid assignment") {
                    let t = std::fs::read(&a).unwrap_or_default();
                    if !satisfied_by(f, &readings(&t)) {
                        o.fail("false-answer", "dmcr accepts the answer file a killed run left, but it is no model");
                    }
                    o.hit("left.accepted_by_dmcr");
                }
            }
        }
    }
    // and once more, to the end
    let e = splr(s, &d, &plan, vec![]);
    sub::account(&mut o, &e, start);
    o.note = note(s, f, &e) + &format!(" {total} operations, {told:?}");
    if let Some(w) = verdict(&mut o, s, f, &e, start) {
        let p = paths(s, &d);
        let file = p.ans.as_ref().and_then(|x| std::fs::read(x).ok());
        // refuted while loading: no report is written, a killed run cannot have left one either
        if w == Word::Unsat && announced(&e, "Result").is_none() && (file.is_none() || file == was.0) {
            o.hit("refuted_while_loading");
        } else {
            judge_answer(&mut o, s, f, &d, &e, w, false);
            if !certificate(&mut o, f, &d, &e) && w == Word::Unsat {
                o.fail("not-announced", "nothing failed in the last run, but no certificate was announced");
            }
        }
    }
    leftovers(&mut o, s, f, &d, &input, "by the last run", &was);
    o
}

// ------------------------------------------------------------------------------------------- C16
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        gen: gen16,
        run: run16,
        quick: 110_000,
        thorough: 2_500_000,
        crash: false,
        hang: true,
        rule: "a scenario draws a formula, an answer (a model, or damaged: truncated, bits flipped, blocks lost or doubled, literals changed, foreign literals) and how it is delivered (file or standard input, split, interrupted, failing, cut reads), and runs the shipped dmcr command, or injects assignments through the library; the report is judged against the literals; non-trivial: the answer was damaged or a read fault fired; distinct: by hash of formula, answer and history",
        level: "exploration",
        real: "real: the shipped dmcr binary, and the splr library for injected assignments. simulated: outcome of every open/read, corruption of the answer. stub: none",
    }
}
fn dmcr(d: &Path, args: Vec<String>, plan: &str, stdin: Option<PathBuf>) -> Ended {
    let plan = sub::dir_plan(d, &[("cnf", "in.cnf"), ("ans", "ans_in.cnf"), ("ans2", "a.txt")]) + plan;
    sub::run(&Cmd { bin: "dmcr", args, env: vec![], dir: d, plan, stdin })
}
/// the literal lists an answer text may be taken for: its first v-line, or all of them
fn readings(t: &[u8]) -> Vec<Vec<i32>> {
    let text = String::from_utf8_lossy(t);
    let mut first: Option<Vec<i32>> = None;
    let mut all = vec![];
    'o: for l in text.lines() {
        let Some(v) = l.strip_prefix("v ") else { continue };
        for w in v.split_whitespace() {
            match w.parse::<i32>() {
                Ok(0) => break 'o,
                Ok(x) => all.push(x),
                Err(_) => break 'o,
            }
        }
        if first.is_none() {
            first = Some(all.clone());
        }
    }
    let first = first.unwrap_or_else(|| all.clone());
    if first == all { vec![all] } else { vec![first, all] }
}
/// the literals that follow from the unit clauses of the formula
fn forced(f: &Formula) -> BTreeSet<i32> {
    let mut v: BTreeSet<i32> = BTreeSet::new();
    loop {
        let mut grown = false;
        for c in &f.cls {
            if c.iter().any(|l| v.contains(l)) {
                continue;
            }
            let mut free: Vec<i32> = c.iter().copied().filter(|l| !v.contains(&-l)).collect();
            free.sort_unstable();
            free.dedup();
            if let [l] = free.as_slice() {
                v.insert(*l);
                grown = true;
            }
        }
        if !grown {
            return v;
        }
    }
}
/// is one of the lists consistent, in range, and with the forced literals a satisfying assignment?
fn satisfied_by(f: &Formula, lists: &[Vec<i32>]) -> bool {
    lists.iter().any(|ls| {
        let mut v: BTreeSet<i32> = ls.iter().copied().collect();
        if ls.iter().any(|l| *l == 0 || *l == i32::MIN || l.unsigned_abs() as usize > f.nv) {
            return false;
        }
        v.extend(forced(f));
        v.iter().all(|l| !v.contains(&-l)) && f.cls.iter().all(|c| c.iter().any(|l| v.contains(l) || c.contains(&-l)))
    })
}
fn gen16(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let mut f = Formula::default();
    for _ in 0..5 {
        let sc = usize::from(r.chance(if thorough { 25 } else { 12 }));
        f = formula::generate(r, sc);
        if truth(&f) != Some(false) {
            break;
        }
    }
    solve::sometimes_big(r, &mut s, &mut f, 300, 70_000);
    if r.chance(1) {
        f = Formula { family: "empty".into(), ..Formula::default() };
    }
    let lib = r.chance(35);
    s.set("mode", if lib { "lib" } else { "cmd" });
    let n = f.nv.max(1) as i64;
    let lit = |r: &mut Rng| -> i64 {
        match r.below(10) {
            0 => *r.pick(&[0, n + 1, -n - 1, i64::from(i32::MAX), i64::from(i32::MIN), i64::from(i32::MIN) + 1, 1 << 30, -(1 << 30), (1 << 30) + 1, 2 * n, 99_999_999_999]),
            1 => r.range(-2 * n, 2 * n),
            _ => if r.chance(50) { r.range(1, n) } else { -r.range(1, n) },
        }
    };
    if lib {
        s.set("iface", *r.pick(&["vec", "file", "api"]));
        // lists to inject, one call each; "m A B" stands for the literals A..B of the model
        for _ in 0..r.us(1, 4) {
            if r.chance(60) {
                let a = if r.chance(60) { 0 } else { r.range(0, n) };
                let b = if r.chance(60) { n } else { r.range(a, n) };
                s.ops.push(format!("m {a} {b}"));
            } else {
                let k = r.us(1, 4);
                let ls: Vec<String> = (0..k).map(|_| lit(r).clamp(i64::from(i32::MIN), i64::from(i32::MAX)).to_string()).collect();
                s.ops.push(format!("l {}", ls.join(" ")));
            }
        }
        s.fs.push(f);
        return s;
    }
    s.set("form", *r.pick(&["splr", "splr", "plain", "v"]));
    s.set("via", *r.pick(&["default", "-a", "stdin"]));
    if r.chance(75) {
        for _ in 0..r.us(1, 3) {
            let i = r.below(n as u64);
            let l = match r.below(12) {
                0 | 1 => format!("neg {i}"),
                2 | 3 => format!("del {i}"),
                4 => format!("set {i} {}", lit(r)),
                5 => format!("ins {i} {}", lit(r)),
                6 => format!("swap {i} {}", r.below(n as u64)),
                7 | 8 => format!("trunc {}", r.below(1001)),
                9 => format!("flip {} {}", r.below(1001), r.below(8)),
                10 => format!("lose {} {}", r.below(1001), 1 + r.logu(200)),
                _ => format!("double {} {}", r.below(1001), 1 + r.logu(200)),
            };
            s.ops.push(l);
        }
    }
    let cls = match s.str("via", "").as_str() { "default" => "ans", "-a" => "ans2", _ => "in" };
    match r.below(8) {
        0 => s.plan.push(format!("chunk {cls} r {} {}", r.below(1 << 30), 1 + r.logu(300))),
        1 => {
            s.plan.push(format!("chunk {cls} r {} {}", r.below(1 << 30), 1 + r.logu(100)));
            s.plan.push(format!("fault {cls} read {} err {EIO}", 1 + r.logu(20)));
        }
        2 => {
            s.plan.push(format!("chunk {cls} r {} {}", r.below(1 << 30), 1 + r.logu(100)));
            s.plan.push(format!("fault {cls} read {} eof 0", 1 + r.logu(20)));
        }
        3 => s.plan.push(format!("fault {cls} read {} err {EINTR}", 1 + r.logu(3))),
        4 if r.chance(30) => s.plan.push(format!("fault {cls} open 1 err {}", *r.pick(&[EIO, 13, 2]))),
        _ => (),
    }
    if r.chance(15) {
        s.plan.push(format!("chunk cnf r {} {}", r.below(1 << 30), 1 + r.logu(3000)));
    }
    s.fs.push(f);
    s
}
fn model_of(f: &Formula) -> Option<Vec<i32>> {
    let m = refsat::solve(f.nv, &f.cls, 200_000)??;
    let set: BTreeSet<i32> = m.into_iter().collect();
    Some((1..=f.nv as i32).map(|v| if set.contains(&-v) { -v } else { v }).collect())
}
/// the answer text of a scenario, and whether it is still the undamaged model
fn answer_text(s: &Scn, model: &[i32]) -> (Vec<u8>, bool) {
    let mut ls: Vec<i64> = model.iter().map(|x| i64::from(*x)).collect();
    let num = |w: &[&str], i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
    for op in &s.ops {
        let w: Vec<&str> = op.split(' ').collect();
        let i = num(&w, 1).max(0) as usize;
        match w[0] {
            "neg" if i < ls.len() => ls[i] = -ls[i],
            "del" if i < ls.len() => {
                ls.remove(i);
            }
            "set" if i < ls.len() => ls[i] = num(&w, 2),
            "ins" if i <= ls.len() => ls.insert(i, num(&w, 2)),
            "swap" => {
                let j = num(&w, 2).max(0) as usize;
                if i < ls.len() && j < ls.len() {
                    ls.swap(i, j);
                }
            }
            _ => (),
        }
    }
    let body = ls.iter().map(|x| format!("{x} ")).collect::<String>();
    let mut t = match s.str("form", "splr").as_str() {
        "splr" => format!("c This file was generated by splr for in.cnf\nc \nc in.cnf , #var: {}\nc  #conflict: 1\nc \ns SATISFIABLE\nv {body}0\n", model.len()),
        "plain" => format!("s SATISFIABLE\nv {body}0\n"),
        _ => format!("v {body}0\n"),
    }
    .into_bytes();
    for op in &s.ops {
        let w: Vec<&str> = op.split(' ').collect();
        let at = (num(&w, 1).max(0) as usize * t.len()) / 1000;
        let n = num(&w, 2).max(0) as usize;
        match w[0] {
            "trunc" => t.truncate(at),
            "flip" if at < t.len() => t[at] ^= 1 << (n & 7),
            "lose" => {
                let e = (at + n).min(t.len());
                t.drain(at.min(e)..e);
            }
            "double" => {
                let e = (at + n).min(t.len());
                let b: Vec<u8> = t[at.min(e)..e].to_vec();
                t.splice(e..e, b);
            }
            _ => (),
        }
    }
    (t, s.ops.is_empty())
}
/// a report of invalidity must name a clause that is not satisfied
fn judge_named(o: &mut Out, f: &Formula, c: &[i32], lists: &[Vec<i32>]) {
    let set: BTreeSet<i32> = c.iter().copied().collect();
    if !f.cls.iter().any(|k| set.iter().all(|l| k.contains(l))) {
        o.fail("foreign-clause", format!("reported as not satisfied: {c:?}, which is no clause of the formula"));
    } else if lists.iter().all(|ls| c.iter().any(|l| ls.contains(l) && !ls.contains(&-l))) {
        o.fail("satisfied-clause", format!("reported as not satisfied: {c:?}, which the assignment satisfies"));
    }
}
fn run16(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let eff;
    let f = if s.str("mode", "cmd") == "lib" {
        // without a header, unused variables at the end do not exist
        eff = solve::effective(s, f);
        &eff
    } else {
        f
    };
    let Some(model) = model_of(f) else {
        o.hit("no_model");
        return o;
    };
    if s.str("mode", "cmd") == "lib" {
        lib16(&mut o, s, f, &model);
        return o;
    }
    let (text, intact) = answer_text(s, &model);
    let d = fresh_dir("c");
    std::fs::write(d.join("in.cnf"), f.dimacs()).expect("write");
    let via = s.str("via", "default");
    let mut a = vec!["-C".to_string()];
    let mut stdin = None;
    let (name, cls) = match via.as_str() { "default" => ("ans_in.cnf", "ans"), "-a" => ("a.txt", "ans2"), _ => ("stdin.txt", "in") };
    std::fs::write(d.join(name), &text).expect("write");
    match via.as_str() {
        "-a" => a.extend(["-a".into(), "a.txt".into()]),
        "default" => (),
        _ => stdin = Some(d.join(name)),
    }
    a.push("in.cnf".into());
    let e = dmcr(&d, a, &s.plan_text(), stdin);
    sub::account(&mut o, &e, 0);
    o.absorb_str(&String::from_utf8_lossy(&text));
    let fired = e.fired(cls);
    o.nontrivial = !intact || !fired.is_empty();
    let out = sub::plain(&e.out);
    let line = out.lines().last().unwrap_or("").to_string();
    o.note = format!("{via} {} nv={} nc={} {:?} {fired:?} -> {} {line}", f.family, f.nv, f.cls.len(), s.ops, e.how());
    // what was delivered: a read that was cut short ends the text
    let cut = fired.iter().any(|l| l.contains("eof") || (l.contains(" err ") && !l.ends_with(" err 4")));
    let got = if cut && !e.log.contains("TRUNC") {
        let p = format!("O {cls} read #");
        let n: usize = e.log.lines().take_while(|l| !(l.starts_with(&format!("F {cls} ")) && !l.ends_with(" err 4"))).filter_map(|l| l.strip_prefix(&p)).filter_map(|l| l.split(' ').nth(1)?.parse::<usize>().ok()).sum();
        text[..n.min(text.len())].to_vec()
    } else {
        text.clone()
    };
    let mut lists = readings(&got);
    if cut {
        // the rest may have been read after the fault
        lists.extend(readings(&text));
    }
    if let Some(sig) = e.signal {
        o.hit("aborted");
        if sig != 6 {
            o.fail("killed", format!("dmcr was killed by signal {sig}"));
        } else if intact && !cut {
            o.fail("abort-on-good-answer", format!("dmcr aborted on a complete correct answer: {}", e.err.lines().nth(1).unwrap_or("")));
        }
        return o;
    }
    if out.contains("A valid assignment") {
        o.hit("accepted");
        if !satisfied_by(f, &lists) {
            o.fail("accepted-non-model", format!("accepted {}", format!("{:?}", lists[0]).chars().take(120).collect::<String>()));
        }
        return o;
    }
    o.hit("rejected");
    if let Some((_, c)) = out.split_once("due to [") {
        let c: Vec<i32> = c.split(']').next().unwrap_or("").split(", ").filter_map(|x| x.parse().ok()).collect();
        o.hit("clause_named");
        judge_named(&mut o, f, &c, &lists);
    }
    if intact && !cut && !fired.iter().any(|l| l.starts_with("open")) {
        o.fail("rejected-good-answer", format!("a complete correct answer was not reported valid: {line}"));
    }
    o
}

fn lib16(o: &mut Out, s: &Scn, f: &Formula, model: &[i32]) {
    let d = fresh_dir("c");
    let (r, st, _) = solve::in_sim(&format!("hash {}\nclock 1000 10 0 0\ndir {}\nclass cnf in.cnf\n", s.k, d.display()), || -> Vec<(String, String)> {
        let mut out = vec![];
        let solve::Built::Ok(mut v) = solve::construct(s, f, Config::default(), Some(&d.join("in.cnf"))) else { return out };
        for op in &s.ops {
            let ls = list_of(op, model);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (v.inject_assignment(&ls), v.validate())));
            match r {
                Ok((Ok(()), x)) => out.push(("ok".to_string(), format!("{x:?}"))),
                Ok((Err(e), _)) => {
                    out.push(("err".to_string(), format!("{e:?}")));
                    break;
                }
                Err(_) => {
                    std::mem::forget(v);
                    out.push(("panic".to_string(), solve::panic_text()));
                    break;
                }
            }
        }
        out
    });
    o.runs += 1;
    o.absorb(st.loghash);
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            o.fail("panic", format!("panicked at {p}"));
            return;
        }
    };
    o.note = format!("lib {} nv={} nc={} {:?} -> {r:?}", f.family, f.nv, f.cls.len(), s.ops);
    let mut all: Vec<i32> = vec![];
    let fc = forced(f);
    for (op, (how, what)) in s.ops.iter().zip(&r) {
        o.absorb_str(&format!("{op} {how} {what}"));
        let ls = list_of(op, model);
        let bad = ls.iter().any(|l| *l == 0 || *l == i32::MIN || l.unsigned_abs() as usize > f.nv);
        all.extend(&ls);
        let clash = all.iter().any(|l| *l != i32::MIN && (all.contains(&-*l) || fc.contains(&-*l)));
        o.nontrivial |= bad || clash || op.starts_with('l');
        o.hit(&format!("inject.{how}"));
        match how.as_str() {
            "panic" if !bad => o.fail("panic", format!("injecting {ls:?} panicked at {what}")),
            "err" if !bad && !clash && !ls.is_empty() => o.fail("rejected-good-answer", format!("injecting {ls:?} was refused: {what}")),
            "ok" if bad => o.fail("accepted-foreign-literal", format!("{ls:?} with {} variables was accepted", f.nv)),
            "ok" => {
                if what == "None" {
                    o.hit("lib.valid");
                    if !satisfied_by(f, &[all.clone()]) {
                        o.fail("accepted-non-model", format!("{all:?} was found valid"));
                    }
                } else {
                    let c: Vec<i32> = what.trim_start_matches("Some([").trim_end_matches("])").split(", ").filter_map(|x| x.parse().ok()).collect();
                    o.hit("lib.invalid");
                    judge_named(o, f, &c, &[all.clone()]);
                    let set: BTreeSet<i32> = all.iter().copied().collect();
                    if f.cls.iter().all(|c| c.iter().any(|l| set.contains(l) || c.contains(&-l))) && !clash {
                        o.fail("rejected-good-answer", format!("{all:?} satisfies every clause but was found invalid by {c:?}"));
                    }
                }
            }
            _ => (),
        }
    }
}
fn list_of(op: &str, model: &[i32]) -> Vec<i32> {
    let w: Vec<i64> = op.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
    if op.starts_with('m') {
        let a = w.first().map_or(0, |x| *x as usize).min(model.len());
        let b = w.get(1).map_or(0, |x| *x as usize).min(model.len()).max(a);
        model[a..b].to_vec()
    } else {
        w.iter().map(|x| *x as i32).collect()
    }
}
