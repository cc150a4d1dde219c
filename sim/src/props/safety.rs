//! C17: no input, option, fault or schedule makes the library touch memory outside its data.
//!
//! The scenarios of the other properties that run the library in this process are run again by a harness
//! in which the compiler has put a check before every unchecked access (`-Zub-checks`); a failing check
//! ends the process. What those scenarios are about is judged elsewhere.
use super::{core, files, history, limits, pairs, Prop};
use crate::rng::Rng;
use crate::scn::{Out, Scn};

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        gen,
        run,
        quick: 200_000,
        thorough: 2_000_000,
        crash: true,
        hang: false,
        rule: "a scenario is drawn from the generators of the properties that run the library in process (solving, limits, loading, saving, histories, several solvers, options, clocks, faults) and runs in a harness built with checks before every unchecked memory access; a failing check or a memory fault ends the process; non-trivial: as in the property the scenario comes from; distinct: by its signature",
        level: "exploration",
        real: "real: the whole splr library as shipped, plus compiler-inserted checks of unchecked accesses. simulated: as in the property the scenario comes from. stub: none",
    }
}
fn parts() -> Vec<Prop> {
    vec![core::c01(), core::c03(), core::c03(), core::c04(), limits::c06(), limits::c08(), files::c11(), pairs::c13(), history::c14(), history::c14(), files::c15(), super::cli::c16()]
}
fn gen(r: &mut Rng, s: Scn, thorough: bool) -> Scn {
    let ps = parts();
    let p = r.pick(&ps);
    for _ in 0..20 {
        let mut q = (p.gen)(r, Scn::new(s.prop.as_str(), s.seed, s.k), thorough);
        // the commands are other binaries, without checks
        let command = match p.id {
            "C06" => q.str("iface", "") == "cli",
            "C11" => q.str("target", "") == "cli",
            "C16" => q.str("mode", "cmd") != "lib",
            _ => false,
        };
        if !command {
            q.set("part", p.id);
            return q;
        }
    }
    let mut q = (core::c03().gen)(r, s, thorough);
    q.set("part", "C03");
    q
}
fn run(s: &Scn) -> Out {
    let id = s.str("part", "C03");
    let p = parts().into_iter().find(|p| p.id == id).unwrap_or_else(core::c03);
    let mut o = (p.run)(s);
    o.hit(&format!("part.{id}"));
    if let Some((c, m)) = o.viol.take() {
        // a check that fails inside a forked run is reported by the part
        if c == "crash" && m.contains("signal") {
            o.fail("crash", m);
        } else {
            o.hit(&format!("not_judged_here.{c}"));
        }
    }
    o
}
