pub mod cli;
pub mod core;
pub mod files;
pub mod history;
pub mod limits;
pub mod pairs;
pub mod safety;
use crate::rng::Rng;
use crate::scn::{Out, Scn};

pub struct Prop {
    pub id: &'static str,
    /// draw scenario `k`
    pub gen: fn(&mut Rng, Scn, bool) -> Scn,
    /// run it and judge it
    pub run: fn(&Scn) -> Out,
    /// scenarios in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// violation classes the driver may report when the run takes the process down or never ends
    pub crash: bool,
    pub hang: bool,
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static str,
}

pub fn all() -> Vec<Prop> {
    vec![core::c01(), core::c02(), core::c03(), core::c04(), cli::c05(), limits::c06(), cli::c07(), limits::c08(), cli::c09(), cli::c10(), files::c11(), pairs::c12(), pairs::c13(), history::c14(), files::c15(), cli::c16(), safety::c17()]
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
/// scenario `k` of `prop` under `seed`
pub fn scenario(p: &Prop, seed: u64, k: u64, thorough: bool) -> Scn {
    let mut r = Rng::scenario(seed, p.id, k);
    (p.gen)(&mut r, Scn::new(p.id, seed, k), thorough)
}
