//! C14: histories of additions, copies, drops and solves over one family of solvers.
use super::core::truth;
use super::Prop;
use crate::drat::{self, Proof};
use crate::formula::{self, Formula};
use crate::rng::Rng;
use crate::scn::{Out, Scn};
use crate::solve::{self, fresh_dir, in_sim, Got, SEC};
use splr::types::{CNFDescription, Instantiate};
use splr::*;

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        gen,
        run,
        quick: 220_000,
        thorough: 4_000_000,
        crash: true,
        hang: true,
        rule: "a scenario draws a base formula and an interface, then a sequence of operations on a growing family of solvers (add variable, clause, assignment; invalid, duplicate, tautological and contradicting additions; copy, dump, drop, solve) under a simulated clock whose limit may pass between or inside the solves, with proofs on or off; every call and every solve is judged against the reference formula of that solver; non-trivial: a copy was taken, an addition was refused or a variable was added; distinct: by hash of the results of all calls, models and the proof",
        level: "exploration",
        real: "real: the whole splr library. simulated: clock, entropy, moments of heuristic events. stub: none",
    }
}

fn gen(r: &mut Rng, mut s: Scn, thorough: bool) -> Scn {
    let sc = if r.chance(if thorough { 20 } else { 6 }) { 1 } else { 0 };
    let mut f = if r.chance(35) { formula::tiny(r) } else { formula::generate(r, sc) };
    crate::solve::sometimes_big(r, &mut s, &mut f, 500, 6000);
    if r.chance(70) {
        f.cls.retain(|c| !c.is_empty());
    }
    let b = if r.chance(30) { f.nv } else { r.us(0, f.nv) };
    let keep = r.below(101);
    let mut base = Formula { nv: b, cls: vec![], planted: false, family: f.family.clone() };
    let mut later: Vec<Vec<i32>> = vec![];
    for c in &f.cls {
        let m = c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
        if m <= b && r.chance(keep) {
            base.cls.push(c.clone());
        } else {
            later.push(c.clone());
        }
    }
    if r.chance(50) {
        r.shuffle(&mut later);
    }
    s.set("iface", *r.pick(&["api", "api", "vec", "file"]));
    solve::gen_cfg(r, &mut s);
    solve::gen_hooks(r, &mut s);
    solve::gen_hash(r, &mut s);
    let timeout = if r.chance(55) { 5000 } else { r.range(1, 100) };
    if timeout != 5000 {
        s.set("cfg.timeout", timeout);
    }
    let late = r.chance(25);
    solve::gen_clock(r, &mut s, timeout as f64, if late { 3.0 } else { 0.9 });
    if r.chance(55) {
        s.set("cfg.certify", 1);
    }
    // the variables of each solver, as the generator believes
    let start_nv = if s.str("iface", "") == "vec" { base.max_var() } else { b };
    let mut nv = vec![start_nv];
    let mut alive = vec![true];
    let lit = |r: &mut Rng, n: usize| -> i32 {
        let v = r.us(1, n.max(1)) as i32;
        if r.chance(50) { v } else { -v }
    };
    let text = |c: &[i32]| c.iter().map(|l| format!(" {l}")).collect::<String>();
    let bads = |r: &mut Rng, n: usize| -> i32 {
        match r.below(6) {
            0 => 0,
            1 | 2 => n as i32 + 1,
            3 => -(n as i32) - 1,
            4 => *r.pick(&[i32::MAX, i32::MIN, -i32::MAX, 1 << 30]),
            _ => n as i32 + 1 + r.below(1000) as i32,
        }
    };
    let noise = 3 + r.below(30);
    let copies = *r.pick(&[0u64, 2, 2, 5, 20]);
    let mut ops: Vec<String> = vec![];
    for c in &later {
        let m = c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
        for i in 0..nv.len() {
            if !alive[i] || (i > 0 && r.chance(25)) {
                continue;
            }
            while nv[i] < m {
                ops.push(format!("var {i}"));
                nv[i] += 1;
            }
            if c.len() == 1 && r.chance(60) {
                ops.push(format!("unit {i}{}", text(c)));
            } else {
                ops.push(format!("clause {i}{}", text(c)));
            }
        }
        if r.chance(noise) {
            let i = r.us(0, nv.len() - 1);
            let n = nv[i];
            match r.below(9) {
                0 => {
                    let mut d = c.clone();
                    let x = bads(r, n);
                    let at = r.us(0, d.len());
                    d.insert(at, x);
                    ops.push(format!("clause {i}{}", text(&d)));
                }
                1 => ops.push(format!("unit {i} {}", bads(r, n))),
                2 => ops.push(format!("unit {i} {}", lit(r, n))),
                3 => {
                    let l = lit(r, n);
                    ops.push(format!("unit {i} {l}"));
                    ops.push(format!("{} {i} {}", if r.chance(50) { "unit" } else { "clause" }, -l));
                }
                4 => {
                    let l = lit(r, n);
                    ops.push(format!("clause {i} {l} {} {}", lit(r, n), -l));
                }
                5 => {
                    let (a, b) = (lit(r, n), lit(r, n));
                    ops.push(format!("clause {i} {a} {b} {a} {b}"));
                }
                6 => {
                    ops.push(format!("var {i}"));
                    nv[i] += 1;
                }
                7 => ops.push(format!("dump {i}")),
                _ => {
                    // literals all false: a refused clause
                    let k = r.us(1, 3);
                    let v: Vec<i32> = (0..k).map(|_| lit(r, n)).collect();
                    for l in &v {
                        ops.push(format!("unit {i} {}", -l));
                    }
                    ops.push(format!("clause {i}{}", text(&v)));
                }
            }
        }
        if r.chance(copies) && nv.len() < 5 {
            let i = r.us(0, nv.len() - 1);
            if alive[i] {
                ops.push(format!("clone {i}"));
                nv.push(nv[i]);
                alive.push(true);
                if r.chance(15) {
                    ops.push(format!("drop {i}"));
                    alive[i] = false;
                } else if r.chance(15) {
                    ops.push(format!("solve {i}"));
                    alive[i] = false;
                }
            }
        }
    }
    if r.chance(30) && nv.len() < 5 {
        let i = r.us(0, nv.len() - 1);
        if alive[i] {
            ops.push(format!("clone {i}"));
            nv.push(nv[i]);
            alive.push(true);
        }
    }
    // trailing variables without any clause
    if r.chance(25) {
        for _ in 0..r.us(1, 4) {
            ops.push(format!("var {}", r.us(0, nv.len() - 1)));
        }
    }
    let mut order: Vec<usize> = (0..nv.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        if alive[i] {
            ops.push(format!("{} {i}", if r.chance(92) { "solve" } else { "drop" }));
        }
    }
    // an occasional operation on a solver that is gone is skipped by the runner
    s.ops = ops;
    s.fs.push(base);
    s
}

struct Held {
    v: Box<Solver>,
    f: Formula,
    original: bool,
}
struct Solved {
    id: usize,
    f: Formula,
    got: Got,
    original: bool,
    at: u64,
}

fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let dir = fresh_dir("c");
    let file = dir.join("in.cnf");
    let mut base = s.fs[0].clone();
    let iface = s.str("iface", "api");
    if iface == "vec" {
        base.nv = base.max_var();
    }
    base.nv = base.nv.max(base.max_var());
    std::fs::write(&file, base.dimacs()).expect("write");
    let mut cfg = solve::config(s, &dir);
    let certify = cfg.use_certification;
    let t_ns = (cfg.c_timeout * SEC as f64) as u64;
    let plan = s.plan_text();
    let start = solve::clock_start(&plan);
    let mut calls: Vec<String> = vec![];
    let mut wrong: Vec<(&'static str, String)> = vec![];
    // (formula that must be unsatisfiable, what was refused)
    let mut refused: Vec<(Formula, String)> = vec![];
    let mut solved: Vec<Solved> = vec![];
    let (mut copies, mut vars, mut rejected) = (0u64, 0u64, 0u64);
    let (res, st, log) = in_sim(&plan, || {
        solve::hooks_on(s);
        let built: Result<Solver, ()> = match iface.as_str() {
            "vec" => Solver::try_from((cfg, base.cls.as_ref())).map_err(|_| ()),
            "file" => {
                cfg.cnf_file = file.clone();
                Solver::build(&cfg).map_err(|_| ())
            }
            _ => Ok(Solver::instantiate(&cfg, &CNFDescription { num_of_variables: base.nv, ..CNFDescription::default() })),
        };
        let Ok(v) = built else {
            refused.push((base.clone(), "the base formula".into()));
            return;
        };
        let mut ops: Vec<String> = vec![];
        let mut f0 = base.clone();
        if iface == "api" {
            f0.cls.clear();
            for c in &base.cls {
                ops.push(format!("clause 0{}", c.iter().map(|l| format!(" {l}")).collect::<String>()));
            }
        }
        ops.extend(s.ops.iter().cloned());
        let mut fam: Vec<Option<Held>> = vec![Some(Held { v: Box::new(v), f: f0, original: true })];
        for op in &ops {
            let mut w = op.split(' ');
            let name = w.next().unwrap_or("");
            let i: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            let lits: Vec<i32> = w.filter_map(|x| x.parse().ok()).collect();
            let Some(slot) = fam.get_mut(i) else { continue };
            let Some(h) = slot else { continue };
            match name {
                "var" => {
                    let n = h.v.add_var();
                    h.f.nv += 1;
                    vars += 1;
                    if n != h.f.nv {
                        wrong.push(("wrong-variables", format!("add_var returned {n}, expected {}", h.f.nv)));
                    }
                }
                "clause" | "unit" => {
                    let bad = lits.iter().any(|l| *l == 0 || l.unsigned_abs() as usize > h.f.nv);
                    let res = if name == "unit" {
                        let Some(l) = lits.first() else { continue };
                        h.v.add_assignment(*l).map(|_| ())
                    } else {
                        h.v.add_clause(&lits).map(|_| ())
                    };
                    calls.push(format!("{name}:{}", match &res { Ok(()) => "ok".into(), Err(e) => solve::err_name(e) }));
                    match res {
                        Ok(()) if bad => wrong.push(("bad-literal-accepted", format!("{op} with {} variables", h.f.nv))),
                        Ok(()) => h.f.cls.push(if name == "unit" { vec![lits[0]] } else { lits.clone() }),
                        Err(SolverError::InvalidLiteral) => {
                            rejected += 1;
                            if !bad {
                                wrong.push(("good-literal-refused", format!("{op} with {} variables", h.f.nv)));
                            }
                        }
                        Err(_) if bad => wrong.push(("wrong-error", format!("{op} with {} variables: {}", h.f.nv, calls.last().unwrap()))),
                        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::Inconsistent) => {
                            rejected += 1;
                            let mut g = h.f.clone();
                            g.cls.push(lits.clone());
                            refused.push((g, op.clone()));
                        }
                        Err(e) => wrong.push(("wrong-error", format!("{op}: {e:?}"))),
                    }
                }
                "clone" => {
                    let h2 = Held { v: h.v.clone(), f: h.f.clone(), original: false };
                    copies += 1;
                    fam.push(Some(h2));
                }
                "dump" => h.v.dump_cnf(&dir.join("dump.cnf")),
                "drop" => *slot = None,
                "solve" => {
                    let mut h = slot.take().unwrap();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.v.solve()));
                    let got = match r {
                        Ok(x) => solve::to_got(x),
                        Err(_) => Got::Panic(solve::panic_text()),
                    };
                    if let Got::Panic(_) = got {
                        solved.push(Solved { id: i, f: h.f, got, original: h.original, at: solve::shim().now() });
                        std::mem::forget(h.v);
                        return;
                    }
                    if certify {
                        // a copy has no proof of its own; saving must not hurt that of the original
                        h.v.save_certification();
                    }
                    solved.push(Solved { id: i, f: h.f, got, original: h.original, at: solve::shim().now() });
                }
                _ => (),
            }
        }
        splr::sim::configure(0, [0; 4]);
    });
    o.runs = solved.len().max(1) as u64;
    o.sim_ns = st.now.saturating_sub(start);
    o.add("fault.clock_jump", log.lines().filter(|l| l.starts_with("J ")).count() as u64);
    o.absorb(st.loghash);
    for c in &calls {
        o.absorb_str(c);
        o.hit(&format!("call.{c}"));
    }
    o.add("sum.copies", copies);
    o.add("sum.variables_added", vars);
    o.nontrivial = copies + vars + rejected > 0;
    o.note = format!("{} {iface} nv={} calls={} copies={copies} -> {:?}", base.family, base.nv, calls.len(), solved.iter().map(|x| format!("{}:{}", x.id, x.got.word())).collect::<Vec<_>>());
    if let Err(p) = res {
        o.fail("panic", format!("panicked at {p}"));
        return o;
    }
    if let Some((c, m)) = wrong.first() {
        o.fail(c, m);
        return o;
    }
    let mut seen: std::collections::BTreeMap<u64, ()> = Default::default();
    for (g, what) in &refused {
        let mut probe = Out::default();
        probe.absorb_str(&format!("{} {:?}", g.nv, g.cls));
        if seen.insert(probe.sig, ()).is_some() {
            continue;
        }
        o.hit("judged_refusal");
        if truth(g) == Some(true) {
            o.fail("refused-without-cause", format!("{what} was refused as conflicting, but the formula with it has a model"));
            return o;
        }
    }
    let proof = std::fs::read_to_string(dir.join("proof.drat")).ok();
    for x in &solved {
        o.hit(&format!("outcome.{}", x.got.word().split(' ').take(2).collect::<Vec<_>>().join("_").chars().take(40).collect::<String>()));
        if x.original { o.hit("solved_original") } else { o.hit("solved_copy") }
        o.absorb_str(&x.got.word());
        match &x.got {
            Got::Sat(m) => {
                for l in m {
                    o.absorb(*l as u64);
                }
                o.hit("judged_model");
                if let Err(e) = x.f.judge_model(m) {
                    o.fail("bad-model", format!("solver {}: {e}", x.id));
                }
            }
            Got::Unsat { .. } => {
                let mut proved = false;
                if let (true, true, Some(p)) = (x.original, certify, &proof) {
                    let (v, ..) = drat::check(x.f.nv, &x.f.cls, p);
                    o.hit("judged_proof");
                    match v {
                        Proof::Refutes => proved = true,
                        Proof::Incomplete => o.fail("incomplete-proof", format!("solver {}: the proof does not derive the empty clause", x.id)),
                        Proof::Bad(w) => o.fail("bad-proof", format!("solver {}: {w}", x.id)),
                    }
                } else if x.original && certify {
                    o.fail("no-proof", "no proof file after an unsatisfiable answer");
                }
                if !proved {
                    o.hit("judged_unsat");
                    if truth(&x.f) == Some(true) {
                        o.fail("false-unsat", format!("solver {} answered unsatisfiable for a satisfiable formula", x.id));
                    }
                }
            }
            Got::Err(e) if e == "TimeOut" => {
                if x.at.saturating_sub(start) < t_ns {
                    o.fail("early-timeout", format!("solver {}: time-out after {} ns of a limit of {t_ns} ns", x.id, x.at.saturating_sub(start)));
                }
            }
            Got::Err(e) => o.fail("error", format!("solver {} ended with {e}", x.id)),
            Got::Panic(p) => o.fail("panic", format!("solver {} panicked at {p}", x.id)),
        }
    }
    o
}
