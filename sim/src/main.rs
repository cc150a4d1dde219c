mod drat;
mod driver;
mod formula;
mod props;
mod refsat;
mod rng;
mod scn;
mod shim;
mod solve;
mod sub;
use std::io::Write;

fn selftest() {
    for k in 0..20000 {
        let mut r = rng::Rng::scenario(1, "T", k);
        let f = formula::tiny(&mut r);
        let a = refsat::solve(f.nv, &f.cls, 100_000).unwrap().is_some();
        assert_eq!(a, refsat::brute(f.nv, &f.cls));
    }
    println!("ok");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("check") => driver::check(&a[1..]),
        Some("work") => driver::work(&a[1..]),
        Some("one") => driver::one(&a[1..]),
        Some("shrink") => driver::shrink(&a[1..]),
        Some("replay") => driver::replay(&a[1..]),
        Some("show") => driver::show(&a[1..]),
        Some("trace") => driver::trace(&a[1..]),
        Some("selftest") => {
            selftest();
            0
        }
        _ => {
            eprintln!("usage: splrsim check PROP | replay FILE | show PROP SEED K | trace PROP SEED FROM COUNT | selftest");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
