//! C11 (loading) and C15 (saving): formula files under split, interrupted and failing I/O.
use super::core::truth;
use super::Prop;
use crate::formula;
use crate::refsat;
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, fresh_dir, in_sim, Got};
use crate::sub::{self, Cmd, Word, EINTR, EIO, ENOSPC};
use splr::cdb::ClauseDBIF;
use splr::cnf::{CnfIf, CNF};
use splr::*;
use std::path::Path;

const REAL: &str = "real: the parsers and writers of the splr library, the solver behind them, the shipped splr binary in the command scenarios. simulated: clock, entropy, every open/read/write of the formula file. stub: none";

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        gen: gen11,
        run: run11,
        quick: 200_000,
        thorough: 1_200_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula file (with comments and odd spacing in part of them), a reader (Solver::build, CNF::load, the splr command), and how the file is delivered: split reads, interrupted reads, a failing open, a failing read at a drawn position, a literal or a byte corrupted at a drawn position; non-trivial: a fault fired or a read was split; distinct: by hash of I/O trace, outcome and loaded formula",
        level: "exploration",
        real: REAL,
    }
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        gen: gen15,
        run: run15,
        quick: 250_000,
        thorough: 1_200_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a formula, a way to build the container (vector, incremental, loaded from a file) or a solver that has not started, and write behaviour: short, interrupted, failing at a drawn call, disk full after a drawn number of bytes; non-trivial: a fault fired or a write was split, or the formula has unit clauses; distinct: by hash of I/O trace, outcome and saved bytes",
        level: "exploration",
        real: REAL,
    }
}

// ------------------------------------------------------------------------------------------- C11
/// the text of the file: kv `style` decorates it, ops corrupt it
fn file_text(s: &Scn) -> Vec<u8> {
    let f = &s.fs[0];
    let style = s.u("style", 0);
    let mut r = Rng::new(style);
    let mut nv = f.nv as i64;
    if let Some(x) = s.kv.get("declare") {
        nv = x.parse().unwrap_or(nv);
    }
    let mut t = String::new();
    // white space is free: kinds of it that a file may use
    let (tabs, crlf, blank, unended) = if style > 0 { (r.chance(25), r.chance(15), r.chance(20), r.chance(20)) } else { (false, false, false, false) };
    let eol = if crlf { "\r\n" } else { "\n" };
    let ws = |r: &mut Rng| if tabs { *r.pick(&[" ", "\t", "  ", " \t "]) } else { " " };
    if style > 0 {
        for _ in 0..r.below(3) {
            t += "c a comment with numbers 1 2 0";
            t += eol;
        }
        // comments of every length, in every language
        match r.below(12) {
            0 => (0..r.us(50, 500)).for_each(|i| t += &format!("c {i} p cnf 3 3{eol}")),
            1 => t += &format!("c{}{eol}", " 1 -2 0 é∀x".repeat(1 + r.logu(7000) as usize)),
            2 => t += &format!("c{eol}c p cnf 1 1{eol}cp cnf 2 2{eol}"),
            _ => (),
        }
    }
    t += &format!("p{}cnf{}{nv}{}{}{eol}", ws(&mut r), ws(&mut r), ws(&mut r), f.cls.len());
    for (i, c) in f.cls.iter().enumerate() {
        if style > 0 && r.chance(10) {
            t += "c between the clauses";
            if r.chance(5) {
                t += &" 3 0 ∨".repeat(r.logu(3000) as usize);
            }
            t += eol;
        }
        if blank && r.chance(10) {
            t += eol;
        }
        if tabs && r.chance(20) {
            t += ws(&mut r);
        }
        for (j, l) in c.iter().enumerate() {
            let mut tok = l.to_string();
            for o in &s.ops {
                let w: Vec<&str> = o.split(' ').collect();
                if w[0] == "lit" && w.len() == 4 && w[1].parse() == Ok(i) && w[2].parse() == Ok(j) {
                    tok = w[3].to_string();
                }
            }
            t += &tok;
            t += ws(&mut r);
        }
        t += if style > 0 && r.chance(30) { "0 " } else { "0" };
        if !(unended && i + 1 == f.cls.len()) {
            t += eol;
        }
    }
    let mut b = t.into_bytes();
    for o in &s.ops {
        let w: Vec<&str> = o.split(' ').collect();
        if let ["byte", p, v] = w[..] {
            let n = b.len();
            b[p.parse::<usize>().unwrap_or(0) % n] = v.parse().unwrap_or(0xff);
        }
    }
    b
}

/// does the text name a variable beyond the declared number?
fn out_of_range(s: &Scn) -> bool {
    let nv = s.u("declare", s.fs[0].nv as u64);
    s.fs[0].max_var() as u64 > nv
        || s.ops.iter().any(|o| {
            let w: Vec<&str> = o.split(' ').collect();
            w[0] == "lit"
                && w[1].parse::<usize>().is_ok_and(|i| i < s.fs[0].cls.len() && w[2].parse::<usize>().is_ok_and(|j| j < s.fs[0].cls[i].len()))
                && w[3].parse::<i128>().is_ok_and(|x| x.unsigned_abs() > u128::from(nv))
        })
}

fn gen11(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = super::core::pick_scale(r, thorough).min(1);
    let mut f = formula::generate(r, sc);
    if f.cls.is_empty() || (sc == 0 && r.chance(40)) {
        f = formula::tiny(r);
    }
    solve::sometimes_big(r, &mut s, &mut f, 300, 20_000);
    if f.cls.iter().all(|c| c.is_empty()) {
        f.cls.push(vec![1]);
        f.nv = f.nv.max(1);
    }
    let target = *r.pick(&["solver", "solver", "solver", "cnf", "cnf", "cli"]);
    s.set("target", target);
    if r.chance(40) {
        s.set("style", 1 + r.below(1 << 30));
    }
    solve::gen_hash(r, &mut s);
    let len = file_text(&{
        let mut q = s.clone();
        q.fs.push(f.clone());
        q
    })
    .len() as u64;
    if r.chance(70) {
        let m = match r.below(3) { 0 => 1 + r.below(8), 1 => 1 + r.below(200), _ => 1 + r.logu(9000) };
        s.plan.push(format!("chunk cnf r {} {m}", r.below(1 << 30)));
    }
    // interrupted reads are always on the table
    if r.chance(50) {
        for _ in 0..r.us(1, 6) {
            s.plan.push(format!("fault cnf read {} err {EINTR}", r.logu(60)));
        }
    }
    match r.below(10) {
        0..=2 => (),
        3 | 4 => {
            let top = if r.chance(50) { 4 } else { len / 20 + 4 };
            let k = r.logu(top);
            s.plan.push(format!("fault cnf read {k} err {}", *r.pick(&[EIO, 116, 12, 110, 21])));
        }
        5 => s.plan.push(format!("fault cnf open 1 err {}", *r.pick(&[13, 24, 23, EIO, 12, 2]))),
        6 => {
            for _ in 0..r.us(1, 3) {
                // half of the time in the header
                let at = if r.chance(50) { r.below(len.min(30)) } else { r.below(len.max(1)) };
                let v = *r.pick(&[0xffu8, b'0', b'1', b'9', b'-', b' ', b'\n', b'x', b'%', b'c', b'p', 0, b'\r', b'\t']);
                s.ops.push(format!("byte {at} {v}"));
            }
        }
        _ => {
            // a literal out of range
            for _ in 0..r.us(1, 2) {
                let i = r.us(0, f.cls.len() - 1);
                if f.cls[i].is_empty() {
                    continue;
                }
                let j = r.us(0, f.cls[i].len() - 1);
                let nv = f.nv as i128;
                let v: i128 = match r.below(8) {
                    0..=2 => nv + 1,
                    3 => nv + r.logu(1000) as i128,
                    4 => 2 * nv + 1,
                    5 => r.range(1 << 20, 1 << 30) as i128,
                    6 => *r.pick(&[2_147_483_647i128, 2_147_483_648, 4_294_967_297, -2_147_483_648]),
                    _ => 10i128.pow(r.below(20) as u32 + 10) + r.below(1000) as i128,
                };
                s.ops.push(format!("lit {i} {j} {}", if r.chance(50) { -v } else { v }));
            }
            if r.chance(15) {
                s.ops.clear();
                s.set("declare", r.below(f.max_var() as u64));
            }
        }
    }
    s.fs.push(f);
    s
}

/// what a load produced
#[derive(Clone, Debug, PartialEq)]
enum Loaded {
    Clauses { nv: usize, cls: Vec<Vec<i32>>, units: Vec<i32>, got: Got, conflicts: u64 },
    Unsat,
    Err(String),
}

fn solver_content(s: &Solver) -> Vec<Vec<i32>> {
    s.cdb
        .iter()
        .skip(1)
        .filter(|c| !c.is_dead())
        .map(|c| {
            let mut v: Vec<i32> = c.iter().map(|l| i32::from(*l)).collect();
            v.sort_unstable();
            v
        })
        .collect()
}

fn load_solver(file: &Path, dir: &Path) -> Loaded {
    use splr::assign::VarManipulateIF;
    let cfg = Config { cnf_file: file.to_path_buf(), quiet_mode: true, io_odir: dir.to_path_buf(), ..Config::default() };
    match Solver::build(&cfg) {
        Ok(mut v) => {
            let cls = solver_content(&v);
            let nv = v.asg.num_vars;
            let units = (1..=nv).filter_map(|i| v.asg.assign(i).map(|b| if b { i as i32 } else { -(i as i32) })).collect();
            let got = solve::to_got(v.solve());
            let conflicts = v.asg.derefer(assign::property::Tusize::NumConflict) as u64;
            Loaded::Clauses { nv, cls, units, got, conflicts }
        }
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => Loaded::Unsat,
        Err(e) => Loaded::Err(format!("{e:?}")),
    }
}
fn load_cnf(file: &Path) -> Loaded {
    match CNF::load(file) {
        Ok(c) => match parse(&c.dump_to_string()) {
            Ok((nv, cls, _)) => Loaded::Clauses { nv: nv.max(c.num_vars() as usize), cls, units: vec![], got: Got::Err("none".into()), conflicts: 0 },
            Err(e) => Loaded::Err(format!("unreadable dump: {e}")),
        },
        Err(e) => Loaded::Err(format!("{e:?}")),
    }
}

/// a plain reader of DIMACS text: (variables, clauses, declared clauses)
pub fn parse(t: &str) -> Result<(usize, Vec<Vec<i32>>, usize), String> {
    let mut head = None;
    let mut cls = vec![];
    let mut cur = vec![];
    for l in t.lines() {
        if l.starts_with('c') {
            continue;
        }
        if l.starts_with('p') {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() != 4 || w[1] != "cnf" || head.is_some() {
                return Err(format!("header {l}"));
            }
            head = Some((w[2].parse::<usize>().map_err(|e| e.to_string())?, w[3].parse::<usize>().map_err(|e| e.to_string())?));
            continue;
        }
        for w in l.split_whitespace() {
            match w.parse::<i32>().map_err(|e| format!("{e}: {w}"))? {
                0 => cls.push(std::mem::take(&mut cur)),
                x => cur.push(x),
            }
        }
    }
    let (nv, nc) = head.ok_or("no header")?;
    if !cur.is_empty() {
        return Err("the last clause is not terminated".into());
    }
    Ok((nv, cls, nc))
}

fn clean(c: &[i32]) -> Option<Vec<i32>> {
    let mut v = c.to_vec();
    v.sort_unstable();
    v.dedup();
    if v.iter().any(|l| v.binary_search(&-l).is_ok()) { None } else { Some(v) }
}
/// do two formulas have the same models?  None: undecided
pub fn equivalent(nv: usize, a: &[Vec<i32>], b: &[Vec<i32>]) -> Option<Result<(), String>> {
    let norm = |x: &[Vec<i32>]| -> std::collections::BTreeSet<Vec<i32>> { x.iter().filter_map(|c| clean(c)).collect() };
    let (na, nb) = (norm(a), norm(b));
    if na == nb {
        return Some(Ok(()));
    }
    let implied = |x: &[Vec<i32>], c: &[i32]| -> Option<bool> {
        let mut q = x.to_vec();
        q.extend(c.iter().map(|l| vec![-l]));
        refsat::solve(nv, &q, 100_000).map(|m| m.is_none())
    };
    let mut unsure = false;
    for (x, y, w) in [(a, &nb, "first"), (b, &na, "second")] {
        let own = if std::ptr::eq(x.as_ptr(), a.as_ptr()) { &na } else { &nb };
        for c in y.iter().filter(|c| !own.contains(*c)) {
            match implied(x, c) {
                Some(true) => (),
                Some(false) => return Some(Err(format!("the {w} does not imply {c:?}"))),
                None => unsure = true,
            }
        }
    }
    if unsure { None } else { Some(Ok(())) }
}

fn sum(o: &mut Out, st: &crate::shim::Stats, start: u64) {
    o.runs += 1;
    for (n, x) in ["io_error", "short_io", "crash", "early_eof", "disk_full", "eintr", "chunked_read", "chunked_write"].iter().zip(st.fault) {
        o.add(&format!("fault.{n}"), x);
    }
    o.sim_ns += st.now.saturating_sub(start);
    o.absorb(st.loghash);
}

fn run11(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let d = fresh_dir("c");
    let file = d.join("in.cnf");
    let bytes = file_text(s);
    std::fs::write(&file, &bytes).expect("write");
    let damaged = s.ops.iter().any(|x| x.starts_with("byte "));
    let beyond = out_of_range(s);
    let target = s.str("target", "solver");
    if target == "cli" {
        let mut args = vec!["-C".to_string()];
        if s.seed % 2 == 0 {
            args.push("-q".into());
        }
        args.push("in.cnf".into());
        let e = sub::run(&Cmd {
            bin: "splr",
            args,
            env: vec![],
            dir: &d,
            plan: sub::dir_plan(&d, &[("cnf", "in.cnf"), ("ans", "ans_in.cnf")]) + "clock 1000 10 10 0\n" + &s.plan_text(),
            stdin: None,
        });
        sub::account(&mut o, &e, 1000);
        let hard = e.hard_fault("cnf");
        o.nontrivial = !e.fired("cnf").is_empty() || beyond || damaged || s.plan.iter().any(|p| p.starts_with("chunk"));
        let lines = sub::result_lines(&e.out);
        let verdict = lines.iter().find(|w| **w != Word::Unknown).copied().or(match e.code {
            Some(10) => Some(Word::Sat),
            Some(20) => Some(Word::Unsat),
            _ => None,
        });
        o.note = format!("splr on {} nv={} nc={} -> {lines:?} {} faults {:?}", f.family, f.nv, f.cls.len(), e.how(), e.fired("cnf"));
        if matches!(e.signal, Some(4 | 7 | 8 | 11)) {
            o.fail("crash", format!("splr was killed by signal {}", e.signal.unwrap()));
        }
        if hard || beyond {
            if let Some(v) = verdict {
                // an input that is unsatisfiable before the fault is met may be reported as such
                let early = beyond && !hard && v == Word::Unsat;
                if !early {
                    o.fail(if hard { "verdict-after-error" } else { "verdict-on-corrupt" }, format!("{v:?} although the input could not be read: {:?}", if hard { e.fired("cnf") } else { s.ops.clone() }));
                }
            }
            return o;
        }
        if damaged {
            return o;
        }
        match verdict {
            Some(Word::Sat) => match sub::answer(&std::fs::read_to_string(d.join("ans_in.cnf")).unwrap_or_default()) {
                sub::Answer::Sat { model, .. } => {
                    if let Err(m) = f.judge_model(&model) {
                        o.fail("bad-model", m);
                    }
                }
                a => o.fail("no-answer", format!("answer file: {a:?}")),
            },
            Some(Word::Unsat) if truth(f) == Some(true) => o.fail("false-unsat", "UNSATISFIABLE for a satisfiable file"),
            Some(_) => (),
            None => o.fail("no-verdict", format!("{}: {}", e.how(), e.err.lines().next().unwrap_or(""))),
        }
        return o;
    }
    let plan = "clock 1000 10 0 0\n".to_string() + &format!("dir {}\nclass cnf in.cnf\n", d.display()) + &s.plan_text();
    let is_cnf = target == "cnf";
    let (res, st, log) = in_sim(&plan, || if is_cnf { load_cnf(&file) } else { load_solver(&file, &d) });
    sum(&mut o, &st, 1000);
    let hard: Vec<&str> = log.lines().filter(|l| l.starts_with("F cnf ") && l.contains(" err ") && !l.ends_with(" err 4")).collect();
    o.nontrivial = log.contains("F cnf ") || beyond || damaged || st.fault[6] > 0;
    o.note = format!("{target} {} nv={} nc={} -> {} hard faults {hard:?}", f.family, f.nv, f.cls.len(), match &res { Ok(Loaded::Clauses { cls, .. }) => format!("{} clauses", cls.len()), x => format!("{x:?}") });
    let got = match res {
        Err(p) => {
            o.fail("panic", format!("loading panicked at {p}"));
            return o;
        }
        Ok(x) => x,
    };
    o.absorb_str(&format!("{got:?}"));
    if !hard.is_empty() {
        o.hit("judged_read_error");
        match got {
            Loaded::Err(_) => (),
            _ => o.fail("error-swallowed", format!("loading went on after {hard:?}")),
        }
        return o;
    }
    if damaged {
        o.hit("judged_damaged_byte");
        // where the damaged text is still plainly a formula, that formula has been loaded
        let t = String::from_utf8_lossy(&bytes).into_owned();
        let plain = t.lines().all(|l| l.starts_with('c') || l.starts_with("p cnf ") || l.split_whitespace().enumerate().all(|(i, w)| w.parse::<i32>().is_ok_and(|x| x.to_string() == w && (x != 0 || i > 0))) && l.trim_end().ends_with(" 0") && l.split_whitespace().filter(|w| *w == "0").count() == 1);
        let first = t.lines().find(|l| !l.starts_with('c')).is_some_and(|l| l.starts_with("p cnf "));
        if let (true, Ok((nv, want, nc)), false) = (plain && first && std::str::from_utf8(&bytes).is_ok(), parse(&t), beyond) {
            let top = want.iter().flatten().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
            match &got {
                Loaded::Clauses { cls, units, .. } if top <= nv => {
                    o.hit("judged_damaged_formula");
                    let mut all = cls.clone();
                    all.extend(units.iter().map(|u| vec![*u]));
                    if let Some(Err(e)) = equivalent(nv, &want, &all) {
                        o.fail("wrong-formula", e);
                    }
                }
                Loaded::Clauses { .. } if !is_cnf => o.fail("corruption-accepted", "a literal beyond the declared range was accepted"),
                Loaded::Err(e) if top <= nv && nc == want.len() && want.iter().all(|c| !c.is_empty()) => o.fail("spurious-error", format!("loading failed with {e}")),
                _ => (),
            }
        }
        return o;
    }
    if beyond {
        o.hit("judged_out_of_range");
        match (&got, is_cnf) {
            (Loaded::Err(_), _) => (),
            // the container documents no range check, but must not load something else
            (Loaded::Clauses { cls, .. }, true) => {
                let t = String::from_utf8_lossy(&bytes).into_owned();
                match parse(&t) {
                    Ok((_, want, _)) => {
                        let n = want.iter().flatten().chain(cls.iter().flatten()).map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
                        if n < 100_000 {
                            if let Some(Err(e)) = equivalent(n, &want, cls) {
                                o.fail("wrong-formula", e);
                            }
                        }
                    }
                    Err(e) => o.fail("corruption-accepted", format!("a literal that does not fit was accepted: {e}")),
                }
            }
            // the contradiction stands before the corruption
            (Loaded::Unsat, false) => o.hit("unsat_before_corruption"),
            (x, _) => o.fail("corruption-accepted", format!("a literal beyond the declared range was accepted: {:?}", format!("{x:?}").chars().take(80).collect::<String>())),
        }
        return o;
    }
    // nothing but splitting and interruption: exactly the formula
    match &got {
        Loaded::Err(e) => o.fail("spurious-error", format!("loading failed with {e}")),
        Loaded::Unsat => {
            o.hit("judged_unsat");
            if truth(f) == Some(true) {
                o.fail("false-unsat", "loading reported unsatisfiable for a satisfiable file");
            }
        }
        Loaded::Clauses { nv, cls, units, got, .. } => {
            o.hit("judged_formula");
            let want_nv = if is_cnf { f.max_var() } else { f.nv };
            if *nv != want_nv {
                o.fail("wrong-formula", format!("{nv} variables instead of {want_nv}"));
            }
            let mut all = cls.clone();
            all.extend(units.iter().map(|u| vec![*u]));
            if let Some(Err(e)) = equivalent(f.nv, &f.cls, &all) {
                o.fail("wrong-formula", e);
            }
            if !is_cnf {
                match got {
                    Got::Sat(m) => {
                        if let Err(e) = f.judge_model(m) {
                            o.fail("bad-model", e);
                        }
                    }
                    Got::Unsat { .. } => {
                        if truth(f) == Some(true) {
                            o.fail("false-unsat", "unsatisfiable for a satisfiable file");
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    o
}

// ------------------------------------------------------------------------------------------- C15
fn gen15(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = super::core::pick_scale(r, thorough).min(1);
    let mut f = if r.chance(25) { formula::tiny(r) } else { formula::generate(r, sc) };
    solve::sometimes_big(r, &mut s, &mut f, 600, 6000);
    // no empty clause: the container refuses it
    f.cls.retain(|c| !c.is_empty());
    for _ in 0..r.below(4) {
        if f.nv > 0 && r.chance(60) {
            let v = r.us(1, f.nv) as i32;
            let at = r.us(0, f.cls.len());
            f.cls.insert(at, vec![if r.chance(50) { v } else { -v }]);
            f.planted = false;
        }
    }
    s.set("how", *r.pick(&["vec", "add", "add", "load", "solver", "solver"]));
    if r.below(5000) == 0 {
        // around the number of clauses from which the container no longer looks for duplicates
        s.set("slow", 1);
        let m = 99_992 + r.us(0, 18);
        f = formula::Formula { nv: r.us(3000, 40_000), planted: false, family: "many".into(), cls: vec![] };
        let mut seen = std::collections::BTreeSet::new();
        while f.cls.len() < m {
            let c = formula::rand_clause(r, f.nv, if f.cls.len() % 3 == 0 { 2 } else { 3 });
            if seen.insert(clean(&c)) || f.cls.len() + 20 > m {
                f.cls.push(c);
            }
            if f.cls.len() + 20 > m && r.chance(20) {
                let c = r.pick(&f.cls).clone();
                f.cls.push(c);
            }
        }
        f.nv = f.max_var();
        s.set("how", if f.cls.len() > 100_000 && r.chance(30) { "load" } else { "many" });
        s.set("tail", r.below(20));
    }
    if s.str("how", "") == "solver" {
        s.set("iface", *r.pick(&["vec", "vec", "api"]));
        if s.str("iface", "") == "api" {
            s.set("api.seed", r.below(1 << 30));
            s.set("api.vars", r.below(f.nv as u64 + 1));
        }
    }
    solve::gen_hash(r, &mut s);
    if r.chance(60) {
        let m = match r.below(3) { 0 => 1 + r.below(8), 1 => 1 + r.below(300), _ => 1 + r.logu(9000) };
        s.plan.push(format!("chunk sav w {} {m}", r.below(1 << 30)));
    }
    if r.chance(40) {
        for _ in 0..r.us(1, 5) {
            s.plan.push(format!("fault sav write {} err {EINTR}", r.logu(30)));
        }
    }
    if s.str("how", "") != "solver" || r.chance(15) {
        let len = f.dimacs().len() as u64;
        match r.below(10) {
            0..=3 => (),
            4 | 5 => {
                let top = if r.chance(60) { 3 } else { 40 };
                s.plan.push(format!("fault sav write {} err {}", r.logu(top), *r.pick(&[EIO, ENOSPC, 122, 27])));
            }
            6 => s.plan.push(format!("fault sav open 1 err {}", *r.pick(&[13, 28, 30, 24]))),
            _ => s.plan.push(format!("quota sav {} {ENOSPC}", match r.below(3) { 0 => r.below(len + 2), 1 => len.saturating_sub(r.logu(64)), _ => r.logu(len + 1) })),
        }
    }
    s.fs.push(f);
    s
}

fn run15(s: &Scn) -> Out {
    let mut o = Out::default();
    let f = &s.fs[0];
    let d = fresh_dir("c");
    let (src, out) = (d.join("src.cnf"), d.join("out.cnf"));
    std::fs::write(&src, f.dimacs()).expect("write");
    let how = s.str("how", "add");
    let plan = "clock 1000 10 0 0\n".to_string() + &format!("dir {}\nclass sav out.cnf\n", d.display()) + &s.plan_text();
    // what the container holds; None: it was not built
    let (res, st, log) = in_sim(&plan, || -> Result<Option<(Option<String>, usize, Vec<Vec<i32>>)>, String> {
        if how == "solver" {
            let cfg = Config { quiet_mode: true, io_odir: d.clone(), ..Config::default() };
            return match solve::construct(s, f, cfg, None) {
                solve::Built::Ok(v) => {
                    v.dump_cnf(&out);
                    Ok(Some((None, v.asg.num_vars, f.cls.clone())))
                }
                solve::Built::Done(..) => Ok(None),
            };
        }
        let mut held = vec![];
        let c = match how.as_str() {
            "vec" => match CNF::from_vec_i32(&f.cls) {
                Ok(c) => {
                    held = f.cls.clone();
                    c
                }
                Err(_) => return Ok(None),
            },
            "load" => match CNF::load(&src) {
                Ok(c) => {
                    held = f.cls.clone();
                    c
                }
                Err(e) => return Err(format!("loading the original failed: {e:?}")),
            },
            _ => {
                let mut c = CNF::default();
                let mut rest = &f.cls[..];
                if how == "many" {
                    let (a, b) = f.cls.split_at(f.cls.len().saturating_sub(s.u("tail", 0) as usize));
                    match CNF::from_vec_i32(a) {
                        Ok(x) => c = x,
                        Err(_) => return Ok(None),
                    }
                    held = a.to_vec();
                    rest = b;
                }
                for x in rest {
                    if c.add_clause(x).is_ok() {
                        held.push(x.clone());
                    } else if !held.iter().any(|y| clean(y) == clean(x)) {
                        return Err(format!("the clause {x:?} was refused"));
                    }
                }
                c
            }
        };
        let nv = c.num_vars() as usize;
        let w = c.save(&out);
        Ok(Some((Some(w.map_or_else(|e| format!("{e:?}"), |()| "ok".into())), nv, held)))
    });
    sum(&mut o, &st, 1000);
    let hard: Vec<&str> = log.lines().filter(|l| l.starts_with("F sav ") && l.contains(" err ") && !l.ends_with(" err 4")).collect();
    let units = f.cls.iter().any(|c| c.len() == 1);
    o.nontrivial = log.contains("F sav ") || st.fault[7] > 0 || units;
    o.note = format!("{how} {} nv={} nc={} -> {} hard faults {hard:?}", f.family, f.nv, f.cls.len(), match &res { Ok(Ok(Some((w, ..)))) => format!("{w:?}"), Ok(Ok(None)) => "not built".into(), x => format!("{:?}", x.as_ref().err()) });
    let built = match res {
        Err(p) => {
            // the clause dump of a solver has no way to return an error
            if how != "solver" || hard.is_empty() {
                o.fail("panic", format!("saving panicked at {p}"));
            }
            return o;
        }
        Ok(Err(e)) => {
            o.fail("refused", e);
            return o;
        }
        Ok(Ok(None)) => {
            o.hit("not_built");
            return o;
        }
        Ok(Ok(Some(x))) => x,
    };
    let (saved, nv, held) = built;
    let bytes = std::fs::read(&out).unwrap_or_default();
    o.absorb_str(&String::from_utf8_lossy(&bytes));
    if !hard.is_empty() {
        if let Some(w) = saved {
            o.hit("judged_write_error");
            if w == "ok" {
                o.fail("failure-hidden", format!("saving reported success although {hard:?}"));
            }
        }
        return o;
    }
    if let Some(w) = &saved {
        if w != "ok" {
            o.fail("spurious-error", format!("saving failed with {w}"));
            return o;
        }
    }
    o.hit("judged_round_trip");
    let text = String::from_utf8_lossy(&bytes).into_owned();
    match parse(&text) {
        Err(e) => o.fail("unreadable", format!("the saved file is not a formula: {e}")),
        Ok((fnv, cls, nc)) => {
            if fnv != nv {
                o.fail("wrong-variables", format!("{fnv} variables saved, {nv} held"));
            }
            if nc != cls.len() {
                o.fail("wrong-count", format!("{nc} clauses announced, {} saved", cls.len()));
            }
            match equivalent(fnv.max(f.nv), &held, &cls) {
                Some(Ok(())) => o.hit("equivalent"),
                Some(Err(e)) => o.fail("lossy", format!("the saved formula differs: {e} (first: held, second: saved)")),
                None => o.hit("equivalence_undecided"),
            }
        }
    }
    if how == "many" && held.len() <= 100_000 {
        // reading it again takes the library long
        o.hit("judged_many");
        return o;
    }
    // and the library must be able to read its own file
    let again = std::panic::catch_unwind(|| CNF::load(&out));
    match again {
        Err(_) => o.fail("reload-panic", format!("loading the saved file panicked at {}", solve::panic_text())),
        Ok(Err(e)) => o.fail("reload", format!("loading the saved file failed: {e:?}")),
        Ok(Ok(c)) => {
            if let Ok((_, cls, _)) = parse(&c.dump_to_string()) {
                if let Some(Err(e)) = equivalent(nv.max(f.nv), &held, &cls) {
                    o.fail("lossy", format!("the reloaded formula differs: {e} (first: held, second: reloaded)"));
                }
            }
            if saved.is_some() && c.num_vars() as usize != nv {
                o.fail("wrong-variables", format!("{} variables reloaded, {nv} held", c.num_vars()));
            }
        }
    }
    o
}
