//! The driver: spreads scenarios over worker processes, attributes deaths, minimises, reports.
use crate::props::{self, Prop};
use crate::scn::{self, Out, Scn};
use crate::solve;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const CPU_LIMIT_S: i64 = 30;

/// what every simulated process gets: no address randomisation, bounded memory, no core files
pub fn contain(mem: u64, cpu: u64) {
    unsafe {
        personality(0x0040000);
        if mem > 0 {
            setrlimit(9, &[mem, mem]);
        }
        if cpu > 0 {
            setrlimit(0, &[cpu, cpu + 1]);
        }
        setrlimit(4, &[0, 0]);
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}
pub fn arm_watchdog(s: i64) {
    unsafe {
        setitimer(2, &[0, 0, s, 0], std::ptr::null_mut());
    }
}

fn home() -> PathBuf {
    std::env::var("SPLRSIM_HOME").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}
pub fn shim_path() -> PathBuf {
    std::env::var("SPLRSIM_SHIM").map_or_else(|_| home().join("target/shim.so"), PathBuf::from)
}

fn base_cmd(scratch: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.env_clear();
    for k in ["PATH", "SPLRSIM_HOME", "SPLRSIM_BIN", "SPLRSIM_SHIM", "SPLRSIM_PANICS"] {
        if let Ok(v) = std::env::var(k) {
            c.env(k, v);
        }
    }
    c.env("LD_PRELOAD", shim_path()).env("SPLRSIM_SCRATCH", scratch).stdin(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            contain(8 << 30, 0);
            Ok(())
        });
    }
    c
}

/// Bring process-wide lazily initialised state into a fixed condition, so that a scenario behaves the
/// same whatever ran before it in this process.
fn warm_up(prop: &str) {
    solve::quiet_panics();
    let _ = solve::scratch();
    print!(" ");
    let _ = std::io::stdout().flush();
    if matches!(prop, "C12" | "C13" | "C17") {
        return; // no solver may have run in this process
    }
    let s = Scn::from_text("splrsim-scenario 1\nprop C01\nseed 0\nk 0\nkv cfg.loud 1\nplan hash 1\nformula 3 -\nc 1 2\nc -1 3\nc -2 -3\nend\n").unwrap();
    let _ = solve::solve(&s, "hash 1\n", "warm");
    let _ = solve::in_sim("hash 1\n", || {
        if solve::scratch().exists() {
            std::panic::panic_any("warm");
        }
    });
}

/// processor time after which a scenario counts as hanging
fn limit(s: &Scn) -> i64 {
    if s.has("slow") { 4 * CPU_LIMIT_S } else { CPU_LIMIT_S }
}

fn run_guarded(p: &Prop, s: &Scn) -> Result<Out, String> {
    std::panic::catch_unwind(|| (p.run)(s)).map_err(|_| solve::panic_text())
}

// ------------------------------------------------------------------------------ worker side
pub fn work(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let (start, stride, end): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let until: u64 = a[6].parse().unwrap();
    warm_up(p.id);
    let err = std::io::stderr();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut k = start;
    let mut n = 0;
    let mut buf = String::new();
    while k < end && now_s() < until {
        let s = props::scenario(&p, seed, k, thorough);
        arm_watchdog(limit(&s));
        // one write per scenario keeps the pipe cheap; the S line must be out before the run starts
        let _ = err.lock().write_all(format!("{buf}@@S {k}\n").as_bytes());
        buf.clear();
        match run_guarded(&p, &s) {
            Ok(o) => {
                for (n, x) in &o.cov {
                    *cov.entry(n.clone()).or_default() += x;
                }
                buf += &format!("@@R {k} {} {} {} {}\n", u8::from(o.nontrivial), o.sig, o.sim_ns, o.runs);
                if let Some((c, m)) = o.viol {
                    buf += &format!("@@V {k} {c} {m}\n");
                }
                if n < 2 && o.nontrivial {
                    n += 1;
                    buf += &format!("@@N {k} {}\n", o.note.replace('\n', " | "));
                }
            }
            Err(e) => buf += &format!("@@H {k} {e}\n"),
        }
        k += stride;
        if (k / stride) % 32 == 0 {
            for (n, x) in std::mem::take(&mut cov) {
                buf += &format!("@@C {n} {x}\n");
            }
        }
    }
    for (n, x) in cov {
        buf += &format!("@@C {n} {x}\n");
    }
    buf += "@@E\n";
    let _ = err.lock().write_all(buf.as_bytes());
    0
}
fn now_s() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

/// run one scenario file in this process; exit 0 (held), 3 (violated), 4 (harness error)
pub fn one(a: &[String]) -> i32 {
    let s = match std::fs::read_to_string(&a[0]).map_err(|e| e.to_string()).and_then(|t| Scn::from_text(&t)) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("@@H 0 {e}");
            return 4;
        }
    };
    let Some(p) = props::find(&s.prop) else { return 4 };
    warm_up(p.id);
    arm_watchdog(a.get(1).and_then(|x| x.parse().ok()).unwrap_or(CPU_LIMIT_S));
    match run_guarded(&p, &s) {
        Ok(o) => {
            let mut b = format!("@@R {} {} {} {} {}\n@@N {} {}\n", s.k, u8::from(o.nontrivial), o.sig, o.sim_ns, o.runs, s.k, o.note.replace('\n', " | "));
            for w in &o.switches {
                b += &format!("@@W {w}\n");
            }
            for (n, x) in &o.cov {
                b += &format!("@@C {n} {x}\n");
            }
            if let Some((c, m)) = &o.viol {
                b += &format!("@@V {} {c} {m}\n", s.k);
            }
            let _ = std::io::stderr().write_all(b.as_bytes());
            if o.viol.is_some() { 3 } else { 0 }
        }
        Err(e) => {
            eprintln!("@@H {} {e}", s.k);
            4
        }
    }
}

// ------------------------------------------------------------------------------ driver side
#[derive(Clone, Debug)]
pub struct Verdict {
    pub class: String,
    pub msg: String,
    pub sig: String,
    pub switches: Vec<String>,
    pub harness: bool,
    pub raw: String,
}

fn death(status: std::process::ExitStatus) -> Option<(String, String)> {
    match status.signal() {
        Some(27) | Some(24) => Some(("hang".into(), format!("no end within {CPU_LIMIT_S} s of processor time"))),
        Some(n) => Some(("crash".into(), format!("the process was killed by signal {n}"))),
        None => None,
    }
}

/// run one scenario in a fresh process
pub fn run_child(s: &Scn, scratch: &Path, tag: &str, cpu: i64) -> Verdict {
    let f = scratch.join(format!("{tag}.scn"));
    std::fs::write(&f, s.to_text()).expect("write scenario");
    let sd = scratch.join(format!("{tag}.d"));
    let mut c = base_cmd(sd.to_str().unwrap());
    c.arg("one").arg(&f).arg(cpu.to_string()).stdout(Stdio::null()).stderr(Stdio::piped());
    let out = c.output().expect("spawn");
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut v = Verdict { class: String::new(), msg: String::new(), sig: String::new(), switches: vec![], harness: false, raw: text.clone() };
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("@@V ") {
            let mut it = r.splitn(3, ' ');
            it.next();
            v.class = it.next().unwrap_or("").into();
            v.msg = it.next().unwrap_or("").into();
        } else if let Some(r) = l.strip_prefix("@@W ") {
            v.switches.push(r.into());
        } else if let Some(r) = l.strip_prefix("@@R ") {
            v.sig = r.split(' ').nth(2).unwrap_or("").into();
        } else if let Some(r) = l.strip_prefix("@@H ") {
            v.harness = true;
            v.msg = r.into();
        }
    }
    if let (true, Some((c, m))) = (v.class.is_empty(), death(out.status)) {
        v.class = c;
        let last = text.lines().filter(|l| !l.starts_with("@@") && !l.trim().is_empty() && !l.contains("RUST_BACKTRACE")).find(|l| l.contains("unsafe precondition")).unwrap_or("");
        v.msg = if last.is_empty() { m } else { format!("{m}: {last}") };
    } else if v.class.is_empty() && !out.status.success() {
        v.harness = true;
    }
    let _ = std::fs::remove_dir_all(&sd);
    let _ = std::fs::remove_file(&f);
    v
}

enum Ev {
    Line(usize, String),
    Eof(usize),
}

struct Worker {
    child: Child,
    cur: Option<u64>,
    clean: bool,
    live: bool,
}

fn spawn_worker(w: usize, p: &Prop, seed: u64, tier: &str, start: u64, stride: u64, end: u64, until: u64, scratch: &Path, tx: &mpsc::Sender<Ev>) -> Worker {
    let mut c = base_cmd(scratch.join(format!("w{w}")).to_str().unwrap());
    c.args(["work", p.id, &seed.to_string(), tier, &start.to_string(), &stride.to_string(), &end.to_string(), &until.to_string()]);
    c.stdout(Stdio::null()).stderr(Stdio::piped());
    let mut child = c.spawn().expect("worker");
    let e = child.stderr.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(e).split(b'\n') {
            let Ok(l) = l else { break };
            if tx.send(Ev::Line(w, String::from_utf8_lossy(&l).into_owned())).is_err() {
                return;
            }
        }
        let _ = tx.send(Ev::Eof(w));
    });
    Worker { child, cur: None, clean: false, live: true }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// listed findings: `known: property=C07 class=<class> contains=<text>` (the text must occur in the message)
fn known_findings(id: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let (p, r) = l.strip_prefix("property=")?.split_once(' ')?;
            let (c, r) = r.strip_prefix("class=")?.split_once(' ')?;
            (p == id).then(|| (c.to_string(), r.strip_prefix("contains=").unwrap_or(r).to_string(), l.to_string()))
        })
        .collect()
}

pub fn check(a: &[String]) -> i32 {
    let id = &a[0];
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).filter(|t| t == "thorough").map_or("quick", |_| "thorough").to_string();
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: u64 = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16));
    let count: u64 = opt("--count").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let wall: u64 = opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 240 });
    let t0 = Instant::now();
    println!("{id}: seed {seed}, tier {tier}, {count} scenarios, {workers} workers");
    let scratch = PathBuf::from(format!("/dev/shm/splrsim-{:08}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let code = campaign(&p, seed, &tier, count, workers, wall, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

#[allow(clippy::too_many_arguments)]
fn campaign(p: &Prop, seed: u64, tier: &str, count: u64, workers: u64, wall: u64, scratch: &Path, t0: Instant) -> i32 {
    let until = now_s() + wall;
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<Worker> = (0..workers)
        .map(|w| spawn_worker(w as usize, p, seed, tier, w, workers, count, until, scratch, &tx))
        .collect();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let (mut evals, mut nontrivial, mut sim_ns, mut runs) = (0u64, 0u64, 0u128, 0u64);
    let mut notes: Vec<(u64, String)> = vec![];
    let mut viols: BTreeMap<u64, (String, String)> = BTreeMap::new();
    let mut harness: Vec<(u64, String)> = vec![];
    let known = known_findings(p.id);
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut deaths = 0u64;
    let mut live = workers;
    let hard_stop = t0 + Duration::from_secs(wall + 120);
    while live > 0 {
        let ev = match rx.recv_timeout(Duration::from_secs(5)) {
            Ok(e) => e,
            Err(_) => {
                if Instant::now() > hard_stop {
                    for w in &mut ws {
                        let _ = w.child.kill();
                    }
                    break;
                }
                continue;
            }
        };
        match ev {
            Ev::Line(w, l) => {
                if let Some(r) = l.strip_prefix("@@S ") {
                    let k: u64 = r.parse().unwrap_or(0);
                    ws[w].cur = Some(k);
                    if viols.keys().next().is_some_and(|&b| k > b) {
                        ws[w].clean = true;
                        let _ = ws[w].child.kill();
                    }
                } else if let Some(r) = l.strip_prefix("@@R ") {
                    let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                    evals += 1;
                    if v[1] == 1 && sigs.insert(v[2]) {
                        nontrivial += 1;
                    }
                    sim_ns += u128::from(v[3]);
                    runs += v[4];
                    ws[w].cur = None;
                } else if let Some(r) = l.strip_prefix("@@V ") {
                    let mut it = r.splitn(3, ' ');
                    let k: u64 = it.next().unwrap().parse().unwrap();
                    let (c, m) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
                    if let Some(f) = known.iter().find(|f| f.0 == c && m.contains(&f.1)) {
                        known_hit.insert(f.2.clone());
                    } else {
                        viols.insert(k, (c, m));
                    }
                } else if let Some(r) = l.strip_prefix("@@N ") {
                    let (k, n) = r.split_once(' ').unwrap_or((r, ""));
                    notes.push((k.parse().unwrap_or(0), n.into()));
                } else if let Some(r) = l.strip_prefix("@@C ") {
                    let (n, x) = r.split_once(' ').unwrap_or((r, "0"));
                    *cov.entry(n.into()).or_default() += x.parse::<u64>().unwrap_or(0);
                } else if let Some(r) = l.strip_prefix("@@H ") {
                    let (k, n) = r.split_once(' ').unwrap_or((r, ""));
                    harness.push((k.parse().unwrap_or(0), n.into()));
                    ws[w].cur = None;
                } else if l == "@@E" {
                    ws[w].clean = true;
                } else if std::env::var_os("SPLRSIM_PANICS").is_some() {
                    eprintln!("{l}");
                }
            }
            Ev::Eof(w) => {
                let st = ws[w].child.wait().expect("wait");
                ws[w].live = false;
                if ws[w].clean {
                    live -= 1;
                    continue;
                }
                deaths += 1;
                let k = ws[w].cur.take();
                let d = death(st);
                let mut next = k.map_or(count, |k| k + workers);
                match (k, d) {
                    (Some(k), Some((c, m))) => {
                        cov.entry(format!("worker_{c}")).and_modify(|x| *x += 1).or_insert(1);
                        if (c == "crash" && p.crash) || (c == "hang" && p.hang) {
                            viols.insert(k, (c, m));
                        }
                    }
                    (k, _) => {
                        harness.push((k.unwrap_or(0), format!("worker ended with {st}")));
                        next = count;
                    }
                }
                if deaths > 40 || viols.keys().next().is_some_and(|&b| next > b) {
                    next = count;
                }
                if next < count && now_s() < until {
                    ws[w] = spawn_worker(w, p, seed, tier, next, workers, count, until, scratch, &tx);
                } else {
                    live -= 1;
                }
            }
        }
    }
    drop(tx);
    let wall_s = t0.elapsed().as_secs_f64();
    notes.sort();
    for l in &known_hit {
        println!("KNOWN-FINDING: {l}");
    }
    let mut samples: Vec<String> = notes.iter().take(4).map(|(k, n)| format!("k={k}: {n}")).collect();
    if let Some((k, _)) = notes.first() {
        let t = props::scenario(p, seed, *k, tier == "thorough").to_text();
        samples.push(t.chars().take(1500).collect());
    }
    write_evidence(p, tier, seed, evals, nontrivial, runs, sim_ns, wall_s, &cov, &samples, viols.len());
    println!("{}: {evals} scenarios ({nontrivial} distinct non-trivial), {runs} simulated runs, {wall_s:.1} s", p.id);
    let mut show = cov.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
    if show.len() > 1500 {
        show.truncate(1500);
    }
    println!("{}: {show}", p.id);
    if let Some((&k, (c, m))) = viols.iter().next() {
        println!("{}: scenario {k} violates: [{c}] {m}", p.id);
        let path = minimise(p, seed, k, tier == "thorough", c, scratch);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some((k, e)) = harness.first() {
        println!("{}: HARNESS ERROR in scenario {k}: {e}", p.id);
        return 2;
    }
    if evals == 0 {
        println!("{}: nothing was explored", p.id);
        return 2;
    }
    0
}

fn explicit(s: &Scn, switches: &[String]) -> Option<Scn> {
    if switches.is_empty() || switches.len() > 6000 || !s.plan.iter().any(|l| l.starts_with("sched ")) {
        return None;
    }
    let mut e = s.clone();
    e.plan.retain(|l| !l.starts_with("sched ") && !l.starts_with("fair "));
    e.plan.push("schedx".into());
    e.plan.extend(switches.iter().map(|w| format!("switch {w}")));
    Some(e)
}

fn minimise(p: &Prop, seed: u64, k: u64, thorough: bool, class: &str, scratch: &Path) -> PathBuf {
    let t0 = Instant::now();
    let orig = props::scenario(p, seed, k, thorough);
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{seed}-{k}.scn", p.id));
    let cpu = if class == "hang" { limit(&orig) / 4 } else { limit(&orig) };
    let mut tries = 0u64;
    let mut fails = |c: &Scn| {
        tries += 1;
        let v = run_child(c, scratch, "m", cpu);
        !v.harness && v.class == class
    };
    let mut cur = orig.clone();
    let first = run_child(&cur, scratch, "m", limit(&orig));
    let mut reproduced = first.class == class;
    if reproduced {
        if let Some(e) = explicit(&cur, &first.switches) {
            if fails(&e) {
                cur = e;
            }
        }
        let mut budget = || t0.elapsed() < Duration::from_secs(60);
        cur = scn::shrink(&cur, &mut fails, &mut budget);
        let again = run_child(&cur, scratch, "m", limit(&orig));
        if again.class != class {
            cur = orig.clone();
            reproduced = false;
        } else {
            println!("{}: minimised from size {} to {} in {tries} runs: [{}] {}", p.id, orig.size(), cur.size(), again.class, again.msg);
        }
    }
    if !reproduced {
        println!("{}: the replay in a fresh process did not show the same class (got [{}] {})", p.id, first.class, first.msg);
    }
    std::fs::write(&path, cur.to_text()).expect("replay file");
    path
}

/// `shrink FILE OUT`: minimise a violating scenario file
pub fn shrink(a: &[String]) -> i32 {
    let s = std::fs::read_to_string(&a[0]).map_err(|e| e.to_string()).and_then(|t| Scn::from_text(&t)).expect("scenario");
    let scratch = PathBuf::from(format!("/dev/shm/splrsim-{:08}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let v = run_child(&s, &scratch, "m", limit(&s));
    println!("[{}] {}", v.class, v.msg);
    if !v.class.is_empty() {
        let t0 = Instant::now();
        let mut fails = |c: &Scn| {
            let w = run_child(c, &scratch, "m", if v.class == "hang" { limit(&s) / 4 } else { limit(&s) });
            !w.harness && w.class == v.class
        };
        let start = explicit(&s, &v.switches).filter(|e| fails(e)).unwrap_or_else(|| s.clone());
        let out = scn::shrink(&start, &mut fails, &mut || t0.elapsed() < Duration::from_secs(300));
        std::fs::write(&a[1], out.to_text()).expect("write");
    }
    let _ = std::fs::remove_dir_all(&scratch);
    0
}

pub fn replay(a: &[String]) -> i32 {
    let t = match std::fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let s = match Scn::from_text(&t) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let scratch = PathBuf::from(format!("/dev/shm/splrsim-{:08}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let v = run_child(&s, &scratch, "r", limit(&s));
    let _ = std::fs::remove_dir_all(&scratch);
    print!("{}", v.raw);
    if v.harness {
        println!("harness error: {}", v.msg);
        return 2;
    }
    let p = props::find(&s.prop);
    let counts = !v.class.is_empty() && p.is_some_and(|p| (v.class != "crash" || p.crash) && (v.class != "hang" || p.hang));
    if counts {
        println!("[{}] {}", v.class, v.msg);
        println!("VIOLATION property={} replay={}", s.prop, a[0]);
        1
    } else {
        println!("no violation");
        0
    }
}

pub fn show(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let th = a.get(3).is_some_and(|x| x == "thorough");
    print!("{}", props::scenario(&p, a[1].parse().unwrap(), a[2].parse().unwrap(), th).to_text());
    0
}

/// signatures of a range of scenarios, for determinism checks
pub fn trace(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    if std::env::var_os("SPLRSIM_SCRATCH").is_none() {
        let scratch = format!("/dev/shm/splrsim-{:08}", std::process::id());
        let st = base_cmd(&scratch).arg("trace").args(a).stdout(Stdio::null()).stderr(Stdio::inherit()).status().expect("spawn");
        let _ = std::fs::remove_dir_all(&scratch);
        return st.code().unwrap_or(9);
    }
    warm_up(p.id);
    let seed: u64 = a[1].parse().unwrap();
    let (from, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let step: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
    for k in (0..n).map(|i| from + i * step) {
        arm_watchdog(CPU_LIMIT_S);
        let s = props::scenario(&p, seed, k, false);
        match run_guarded(&p, &s) {
            Ok(o) => eprintln!("{k} {:016x} {} {}", o.sig, o.note, o.viol.map_or(String::new(), |v| format!("VIOL [{}] {}", v.0, v.1))),
            Err(e) => eprintln!("{k} harness {e}"),
        }
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, tier: &str, seed: u64, evals: u64, nontrivial: u64, runs: u64, sim_ns: u128, wall_s: f64, cov: &BTreeMap<String, u64>, samples: &[String], nviol: usize) {
    let group = |pre: &str| -> String {
        let v: Vec<String> = cov.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {v}", json_str(&k[pre.len()..]))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let rest: Vec<String> = cov
        .iter()
        .filter(|(k, _)| !["fault.", "sum.", "outcome.", "runs_with."].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let hours = wall_s / 3600.0;
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {nontrivial},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {runs},\n  \"scenarios_per_hour\": {:.0},\n  \"simulated_runs_per_hour\": {:.0},\n  \"simulated_seconds\": {:.1},\n  \"faults_fired\": {},\n  \"outcomes\": {},\n  \"reach_runs_with\": {},\n  \"reach_totals\": {},\n  \"other_counts\": {{{}}},\n  \"components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall_s:.2},\n \"violations\": {nviol}\n}}\n",
        json_str(p.id),
        json_str(tier),
        json_str(p.level),
        json_str(p.rule),
        samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        evals as f64 / hours,
        runs as f64 / hours,
        sim_ns as f64 / 1e9,
        group("fault."),
        group("outcome."),
        group("runs_with."),
        group("sum."),
        rest.join(", "),
        json_str(p.real),
        ["the seeded search samples schedules, faults and formulas; it does not enumerate them", "the reference SAT solver, the DRAT checker and the model judge in /verif/sim are right", "the simulation shim reproduces what the kernel may do"].map(|x| json_str(x)).join(", "),
    );
    let d = home().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id)), s).expect("evidence");
}
