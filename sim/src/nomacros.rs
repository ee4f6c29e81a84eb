//! In the place of macros.rs when the macros do not accept its declarations, so that the other checks still work.
pub const STATS: &[&str] = &[];
pub const FIRST: usize = 36;
pub fn sizes() -> Vec<usize> { vec![] }
pub fn run(_prog: &crate::prog::Program, _verbose: bool) {}
pub fn generate(prop: u32, seed: u64) -> crate::prog::Program { crate::prog::generate(prop, seed) }
