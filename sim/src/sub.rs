//! One run of a shipped command (splr, dmcr) as a simulated process: the preloaded shim decides its
//! clock, entropy, I/O outcomes, faults, thread schedule and its death.
use crate::driver;
use crate::solve::{scratch, SEC};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn alarm(s: u32) -> u32;
}

pub struct Cmd<'a> {
    pub bin: &'a str,
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub dir: &'a Path,
    pub plan: String,
    pub stdin: Option<PathBuf>,
}

#[derive(Clone, Debug, Default)]
pub struct Ended {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub log: String,
    /// from the E line
    pub now: u64,
    pub alloc: u64,
    pub io: u64,
    pub sw: u64,
}

pub const CRASHED: i32 = 98;
pub const DEADLOCK: i32 = 97;

impl Ended {
    pub fn crashed(&self) -> bool {
        self.code == Some(CRASHED)
    }
    /// fault lines fired on a class: (op, text)
    pub fn fired(&self, class: &str) -> Vec<String> {
        let p = format!("F {class} ");
        self.log.lines().filter(|l| l.starts_with(&p)).map(|l| l[p.len()..].to_string()).collect()
    }
    /// did an error that cannot be retried fire on this class?
    pub fn hard_fault(&self, class: &str) -> bool {
        self.fired(class).iter().any(|l| l.contains(" err ") && !l.ends_with(" err 4"))
    }
    pub fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn switches(&self) -> Vec<String> {
        self.log.lines().filter_map(|l| l.strip_prefix("W ")).map(String::from).collect()
    }
}

fn bin(name: &str) -> PathBuf {
    std::env::var("SPLRSIM_BIN").map_or_else(|_| PathBuf::from("/verif/target/bin/release"), PathBuf::from).join(name)
}

/// the part of every plan that maps the files of a run to classes
pub fn dir_plan(dir: &Path, classes: &[(&str, &str)]) -> String {
    let mut p = format!("std\ndir {}\n", dir.display());
    for (n, b) in classes {
        p += &format!("class {n} {b}\n");
    }
    p
}

pub fn run(c: &Cmd) -> Ended {
    let s = scratch();
    let (plan, log, out, err) = (s.join("plan"), s.join("log"), s.join("stdout"), s.join("stderr"));
    std::fs::write(&plan, &c.plan).expect("plan");
    if !log.exists() {
        let f = std::fs::File::create(&log).expect("log");
        f.set_len(1 << 20).expect("log");
    } else {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().write(true).open(&log).expect("log");
        f.write_all(&[0; 8]).expect("log");
    }
    let fo = std::fs::File::create(&out).expect("stdout");
    let fe = std::fs::File::create(&err).expect("stderr");
    let mut k = Command::new(bin(c.bin));
    k.args(&c.args).current_dir(c.dir).env_clear();
    k.env("LD_PRELOAD", driver::shim_path()).env("SPLRSIM_PLAN", &plan).env("SPLRSIM_LOG", &log);
    for (a, b) in &c.env {
        k.env(a, b);
    }
    match &c.stdin {
        Some(p) => k.stdin(std::fs::File::open(p).expect("stdin")),
        None => k.stdin(Stdio::null()),
    };
    k.stdout(fo).stderr(fe);
    unsafe {
        k.pre_exec(|| {
            driver::contain(8 << 30, 25);
            alarm(120);
            Ok(())
        });
    }
    let st = k.status().expect("run");
    assert!(st.code() != Some(96), "bad plan:\n{}", c.plan);
    let raw = std::fs::read(&log).expect("log");
    let n = u64::from_le_bytes(raw[..8].try_into().unwrap()) as usize;
    let text = String::from_utf8_lossy(&raw[8..(8 + n).min(raw.len())]).into_owned();
    let mut e = Ended {
        code: st.code(),
        signal: st.signal(),
        out: String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).into_owned(),
        err: String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned(),
        log: text,
        ..Ended::default()
    };
    if let Some(l) = e.log.lines().rev().find(|l| l.starts_with("E ")).map(String::from) {
        let kv: BTreeMap<&str, u64> = l[2..].split(' ').filter_map(|x| x.split_once('=')).filter_map(|(a, b)| Some((a, b.parse().ok()?))).collect();
        let g = |n: &str| kv.get(n).copied().unwrap_or(0);
        (e.now, e.alloc, e.io, e.sw) = (g("now"), g("alloc"), g("io"), g("sw"));
    }
    e
}

/// remove terminal control sequences
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Word {
    Sat,
    Unsat,
    Unknown,
}
impl Word {
    pub fn exit(self) -> i32 {
        match self {
            Word::Sat => 10,
            Word::Unsat => 20,
            Word::Unknown => 0,
        }
    }
}

fn word(l: &str) -> Option<(Word, bool)> {
    let i = l.find("s SATISFIABLE").map(|i| (i, Word::Sat, 13));
    let i = i.or_else(|| l.find("s UNSATISFIABLE").map(|i| (i, Word::Unsat, 15)));
    let (i, w, n) = i.or_else(|| l.find("s UNKNOWN").map(|i| (i, Word::Unknown, 9)))?;
    Some((w, l[i + n..].trim().is_empty()))
}

/// the result lines of a run: those that name the input (an answer shown on stdout has a bare line)
pub fn result_lines(out: &str) -> Vec<Word> {
    plain(out).lines().filter_map(word).filter(|x| !x.1).map(|x| x.0).collect()
}

/// an answer as text (a file, or part of stdout)
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    /// no statement at all
    None,
    Sat { model: Vec<i32>, terminated: bool },
    Unsat { terminated: bool },
    Unknown { terminated: bool },
}
pub fn answer(text: &str) -> Answer {
    let text = plain(text);
    let mut state: Option<Word> = None;
    let mut model = vec![];
    let mut terminated = false;
    for raw in text.split_inclusive('\n') {
        let full = raw.ends_with('\n');
        let l = raw.trim_end_matches('\n');
        if l.starts_with('c') {
            continue;
        }
        if let Some((w, true)) = word(l) {
            if l.starts_with("s ") && full {
                state = Some(w);
                model.clear();
                terminated = false;
                continue;
            }
        }
        if state == Some(Word::Sat) && l.starts_with("v") {
            for t in l[1..].split_whitespace() {
                match t.parse::<i32>() {
                    Ok(0) => terminated = true,
                    Ok(x) => model.push(x),
                    Err(_) => break,
                }
            }
        }
        if l.trim() == "0" && state.is_some_and(|w| w != Word::Sat) {
            terminated = true;
        }
    }
    match state {
        None => Answer::None,
        Some(Word::Sat) => Answer::Sat { model, terminated },
        Some(Word::Unsat) => Answer::Unsat { terminated },
        Some(Word::Unknown) => Answer::Unknown { terminated },
    }
}

/// does the output admit that something could not be written?
pub fn admits_failure(e: &Ended) -> bool {
    let t = format!("{}\n{}", plain(&e.out), e.err).to_lowercase();
    ["abort", "fail", "error", "cannot", "can't", "couldn't", "could not", "unable", "panicked"].iter().any(|w| t.contains(w))
}

pub const ENOSPC: i32 = 28;
pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;

/// bookkeeping common to all command runs
pub fn account(o: &mut crate::scn::Out, e: &Ended, start: u64) {
    o.runs += 1;
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for l in e.log.lines() {
        for b in l.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        let mut w = l.split(' ');
        match w.next() {
            Some("F") => {
                let (c, op, k) = (w.next().unwrap_or(""), w.next().unwrap_or(""), l);
                let kind = if k.contains("crash") {
                    "crash".to_string()
                } else if k.contains("quota") {
                    "disk_full".into()
                } else if k.contains("eof") {
                    "early_eof".into()
                } else if k.ends_with(" err 4") {
                    "eintr".into()
                } else {
                    "error".into()
                };
                o.hit(&format!("fault.{c}_{op}_{kind}"));
            }
            Some("J") => o.hit("fault.clock_jump"),
            Some("V") => o.hit("fault.wall_clock_set"),
            Some("W") => o.hit("fault.preemption"),
            Some("O") => o.hit("sum.io_operations"),
            _ => (),
        }
    }
    o.absorb(h);
    o.absorb_str(&e.how());
    o.absorb_str(&e.out);
    o.sim_ns += e.now.saturating_sub(start).min(1_000_000 * SEC);
    o.hit(&format!("outcome.{}", e.how().replace(' ', "_")));
}
