//! Deterministic simulation of node_tree. See /verif/DESIGN.md.

#![allow(invalid_runtime_symbol_definitions)]

mod alloc;
#[macro_use]
mod classes;
mod ev;
mod model;
mod prng;
mod prog;
mod real;
mod sup;
mod sysim;
mod vals;
mod storage;
mod chain;
#[cfg_attr(not(feature = "macros"), path = "nomacros.rs")]
mod macros;
mod damage;
mod aside;

use prog::Program;

pub const RULE: &str = "a state is a digest of the tree's shape, names, owners, modes, statuses, singletons, live connections, held pointers and stored scenes after a step (or of the file system and outcome, for the storage simulations); only states that differ from all earlier ones are counted";
pub const REAL: &[&str] = &["node_tree and node_tree_derive, built from /repo", "the Rust standard library and every dependency (chrono, toml_edit, ...)"];
pub const STUB: &[&str] = &["monotonic and wall clock", "entropy", "file system and disk (page cache, journal, crash semantics)", "standard output and error", "heap allocator (no reuse, nodes on pages of their own)", "application classes (callbacks that perform the program's operations)"];
pub const ASSUMPTIONS: &[&str] = &["the tree is single threaded, as its types are neither Send nor Sync", "the simulated disk keeps the order of directory operations, and loses or tears any data that was not synchronised"];

pub fn generate(prop: u32, seed: u64) -> Program {
    match prop {
        15 | 16 | 23 => storage::generate(prop, seed),
        25 => macros::generate(prop, seed),
        14 if seed % 2 == 0 => storage::generate(prop, seed),
        _ => prog::generate(prop, seed)
    }
}
pub fn shrink_blob(b: &str) -> Vec<String> { storage::shrink(b) }
pub fn prepare() { for s in classes::sizes().into_iter().chain(vals::pay_sizes()).chain(macros::sizes()) { alloc::register_node_size(s); } }
/// Simulated runs per check: what eight cores do in some 30 s (quick), or more than they do in the time a thorough check gets.
pub fn budget(prop: u32, tier: &str) -> u64 {
    if tier == "thorough" { return 2_000_000; }
    match prop { 2 => 12_000, 14 => 16_000, 15 | 24 => 21_000, 5 | 9 | 11 | 13 | 17 | 19 | 27 => 27_000, _ => 40_000 }
}
pub fn stat_names(prop: u32) -> Vec<(usize, &'static str)> {
    let tree = ["callbacks", "frames", "nodes added", "nodes removed", "panics", "failures", "signals emitted", "nested callbacks", "changes during a frame", "looks at removed nodes", "crash reports",
        "log entries", "pauses", "save and load round trips", "deepest node", "most nodes", "operations by destructors", "frames within frames"];
    let tree = tree.into_iter().enumerate();
    let storage = storage::STATS.iter().enumerate().map(|(i, n)| (i + storage::FIRST, *n));
    match prop { 25 => macros::STATS.iter().enumerate().map(|(i, n)| (i + macros::FIRST, *n)).collect(), 15 | 16 | 23 => storage.collect(), 14 => tree.chain(storage).collect(), _ => tree.collect() }
}
pub fn is_max(stat: usize) -> bool { stat == 14 || stat == 15 || stat == storage::FIRST + 12 }
pub fn fault_counts(prop: u32, ops: &[u64], stats: &[u64]) -> Vec<(&'static str, u64)> {
    use prog::K::*;
    let s = |i: usize| stats[storage::FIRST + i];
    if prop == 25 { return vec![("panics of constructors and settings", stats[macros::FIRST + 3])]; }
    if matches!(prop, 15 | 16 | 23) { return vec![("power failures", s(9)), ("damaged inputs", s(6)), ("process changes", s(11))]; }
    [("callback panics", Panic), ("failed accesses", Fail), ("accesses through dangling pointers", UsePtr), ("stalls (monotonic clock)", Mono), ("wall clock jumps", Wall), ("nodes removed", Free), ("children removed", RemoveChild), ("terminations", Terminate), ("queued terminations", QueueTerm), ("operations on other trees", Other)]
        .iter().map(|(n, k)| (*n, ops[*k as usize])).collect()
}

/// Performs one run, in the process that was forked for it.
pub fn run(prog: &Program, verbose: bool) {
    if prog.prop == 25 { return macros::run(prog, verbose); }
    if !prog.blob.is_empty() { return storage::run(prog, verbose); }
    sysim::sys().start(prog.seed, prog.mono0 as i128, prog.wall0 as i128 * 1_000_000_000 + 500_000_000);
    real::start(prog);
    let mut m = model::Model::new(prog);
    m.keep = verbose;
    for i in 0..prog.steps.len() {
        sup::out().step = i as u64;
        let tr = real::step(i);
        m.check(i, tr);
        sup::out().trace_hash = m.trace_hash;
        if m.over { break; }
    }
    sysim::sys().active = false;
    let o = sup::out();
    o.sim_ns = m.simulated_ns() as u64;
    for (i, s) in m.states.iter().take(o.states.len()).enumerate() { o.states[i] = *s; o.nstates = i as u64 + 1; }
    let s = &m.stats;
    for (i, v) in [s.callbacks, s.frames, s.added, s.removed, s.panics, s.fails, s.emits, s.nested, s.in_frame_changes, s.stale, s.reports, s.log_items, s.pauses, s.trips, s.deepest, s.most, s.in_drops, s.inner_frames].into_iter().enumerate() { o.stats[i] = v; }
    if verbose { for l in &m.log_lines { println!("{l}"); } }
    if !m.found.is_empty() {
        o.mask = m.found.iter().fold(0, |a, v| a | v.mask) as u64;
        let mut t: Vec<String> = m.found.iter().map(|v| {
            let l: Vec<String> = (1..28).filter(|n| v.mask != model::ALL && v.mask & (1 << n) != 0).map(|n| format!("P{n:02}")).collect();
            format!("[{}] {}", if l.is_empty() { "all".into() } else { l.join(" ") }, v.text)
        }).collect();
        t.truncate(8);
        sup::put_text(&t.join("\n"));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = |s: &str| s.trim_start_matches('P').parse::<u32>().expect("a property such as P01");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => sup::check(&sup::Args {
            prop: prop(&a[2]), tier: opt("--tier").unwrap_or("quick".into()),
            seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            runs: opt("--runs").and_then(|s| s.parse().ok()), evidence: opt("--evidence"), replays: opt("--replays").unwrap_or("/tmp/replays".into()), known: opt("--known"),
            workers: opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8), wall: opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(300),
        }),
        Some("replay") => sup::replay(&a[2], a.iter().any(|x| x == "-v")),
        Some("bench") => sup::bench(&a[2]),
        Some("show") => { sup::show(prop(&a[2]), a[3].parse().unwrap()); 0 }
        _ => { eprintln!("usage: nt_sim check P01 [--tier quick|thorough] [--seed N] [--runs N] | replay FILE [-v] | show P01 SEED"); 2 }
    };
    std::process::exit(code);
}
