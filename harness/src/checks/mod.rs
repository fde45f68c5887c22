use crate::engine::*;

pub struct Probe { pub name: &'static str, pub fails: bool, pub desc: String }

pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    pub rule: &'static str,
    pub probes: fn(&Cfg) -> Vec<Probe>,
    pub assumptions: &'static [&'static str],
}

pub fn no_probes(_: &Cfg) -> Vec<Probe> { vec![] }

pub mod link;
pub mod data;
pub mod config;
pub mod progs;
pub mod expr;
pub mod stdlib;
pub mod embed;
pub mod text;
pub mod types;
pub mod refine;
pub mod lifetimes;
pub mod threads;
pub mod modules;
pub mod fuzz;
pub mod meta;
pub mod listing;

pub fn all() -> Vec<Check> {
    vec![meta::check(), listing::check(), fuzz::check(), modules::check(), threads::check(), lifetimes::c09(), lifetimes::c10(), refine::check(), types::check(), text::check(), embed::check(), config::c13(), config::c22(), config::c23(), expr::check(), link::check(), data::check(), progs::c02(), progs::c03(), progs::c04(), progs::c12(), progs::c16(), progs::c17(), progs::c18(), stdlib::check20(), stdlib::check21()]
}
