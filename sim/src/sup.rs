//! The supervisor. Every simulated run is a process of its own that is forked from a worker, so that whatever a run does
//! (crash, hang, corrupt its memory) is observed from outside and cannot affect the next one. Runs are numbered, a
//! run's number and the seed decide its program, and the program decides everything that happens in it.

use crate::prog::{Program, K, KINDS};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub const EXIT_OOM: i32 = 91;
pub const EXIT_DOUBLE_FREE: i32 = 92;
pub const EXIT_BAD_FREE: i32 = 93;
pub const EXIT_SEGV: i32 = 94;
pub const EXIT_HANG: i32 = 95;
pub const EXIT_DEADLOCK: i32 = 96;
pub const EXIT_HARNESS: i32 = 97;

extern "C" { fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32; }
pub const NSTATS: usize = 48;
const NOPS: usize = 64;
const TEXT: usize = 16384;
const MAX_STATES: usize = 512;
const STATE_BITS: usize = 1 << 28;

/// What a run leaves behind for its worker.
#[repr(C)]
pub struct Out {
    pub done: u64, pub mask: u64, pub trace_hash: u64, pub sim_ns: u64, pub addr: u64, pub nstates: u64,
    pub stats: [u64; NSTATS], pub ops: [u64; NOPS], pub fired: [u64; 6],
    pub states: [u64; MAX_STATES],
    pub text_len: u64, pub text: [u8; TEXT],
    pub panic_len: u64, pub panic: [u8; 512],
    pub step: u64,
}
/// What all workers share.
#[repr(C)]
struct Totals { runs: u64, states: u64, sim_ns: u64, stats: [u64; NSTATS], ops: [u64; NOPS], fired: [u64; 6], rerun: u64, differed: u64, truncated: u64, other: u64, digest: u64, harness: u64 }

static mut OUT: *mut Out = std::ptr::null_mut();
pub fn out() -> &'static mut Out { unsafe { &mut *OUT } }
pub fn has_out() -> bool { unsafe { !OUT.is_null() } }

unsafe fn shared(len: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { eprintln!("harness: out of memory"); std::process::exit(2); }
    p as *mut u8
}
pub fn die(code: i32, addr: usize) -> ! {
    unsafe {
        if !OUT.is_null() { (*OUT).addr = addr as u64; }
        libc::_exit(code)
    }
}
unsafe extern "C" fn on_segv(_s: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) { die(EXIT_SEGV, (*info).si_addr() as usize) }
unsafe extern "C" fn on_time(_s: i32) { die(EXIT_HANG, 0) }

pub fn put_text(t: &str) {
    let o = out();
    let b = t.as_bytes();
    let n = b.len().min(TEXT);
    o.text[..n].copy_from_slice(&b[..n]);
    o.text_len = n as u64;
}

/* ---------------------------------------------------------------- one run */

#[derive(Clone, Debug)]
pub struct Outcome { pub kind: String, pub mask: u32, pub text: String, pub trace_hash: u64 }
impl Outcome {
    /// Whether the property was violated.
    fn violates(&self, prop: u32) -> bool { self.kind != "ok" && self.kind != "harness" && self.mask & (1 << prop) != 0 }
}

fn child(prog: &Program, verbose: bool) -> ! {
    let prog = prog.clone();
    let r = std::thread::Builder::new().stack_size(48 << 20).spawn(move || unsafe {
        let mut act: libc::sigaction = std::mem::zeroed();
        act.sa_sigaction = on_segv as *const () as usize;
        act.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP] { libc::sigaction(s, &act, std::ptr::null_mut()); }
        act.sa_sigaction = on_time as *const () as usize;
        act.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGPROF, &act, std::ptr::null_mut());
        let st = libc::stack_t { ss_sp: libc::mmap(std::ptr::null_mut(), 1 << 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0), ss_flags: 0, ss_size: 1 << 16 };
        libc::sigaltstack(&st, std::ptr::null_mut());
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 12, tv_usec: 0 } };
        setitimer(2, &t, std::ptr::null_mut());
        libc::alarm(150);
        crate::alloc::activate();
        std::panic::set_hook(Box::new(|i| {
            let t = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let t = format!("{t} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
            let o = out();
            let n = t.len().min(512);
            o.panic[..n].copy_from_slice(&t.as_bytes()[..n]);
            o.panic_len = n as u64;
        }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::run(&prog, verbose)));
        if r.is_err() { die(EXIT_HARNESS, 0); }
        crate::sysim::sys().active = false;
        if let Some(a) = crate::alloc::check_poison() {
            if out().mask == 0 { out().mask = u32::MAX as u64; put_text(&format!("memory at {a:#x} was written to after it had been released")); }
        }
        for i in 0..6 { out().fired[i] = crate::sysim::sys().fired[i]; }
        out().done = 1;
        libc::_exit(0)
    });
    match r { Ok(h) => { let _ = h.join(); die(EXIT_HARNESS, 1) }, Err(_) => die(EXIT_HARNESS, 2) }
}

/// What only happens as long as there are other trees is about them.
fn run_once(prog: &Program, verbose: bool) -> Outcome {
    let mut o = run_once_raw(prog, verbose);
    if prog.prop != 27 || o.kind != "violation" || o.mask & 1 << 27 != 0 { return o; }
    let mut alone = prog.clone();
    for s in &mut alone.steps {
        for x in std::iter::once(&mut s.op).chain(s.trig.iter_mut().map(|t| &mut t.1)) { if x.k == K::Other { x.k = K::Nop; } }
    }
    let n = std::mem::size_of::<Out>();
    let kept = unsafe { std::slice::from_raw_parts(OUT as *const u8, n) }.to_vec();
    if run_once_raw(&alone, false).kind == "ok" { o.mask |= 1 << 27; o.text = format!("with other trees in the program only: {}", o.text); }
    unsafe { std::ptr::copy_nonoverlapping(kept.as_ptr(), OUT as *mut u8, n); }
    o
}
fn run_once_raw(prog: &Program, verbose: bool) -> Outcome {
    unsafe {
        std::ptr::write_bytes(OUT as *mut u8, 0, std::mem::size_of::<Out>());
        let pid = libc::fork();
        if pid == 0 { child(prog, verbose); }
        if pid < 0 { return Outcome { kind: "harness".into(), mask: 0, text: "fork failed".into(), trace_hash: 0 }; }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let o = out();
        let text = String::from_utf8_lossy(&o.text[..o.text_len as usize]).into_owned();
        let panic = String::from_utf8_lossy(&o.panic[..o.panic_len as usize]).into_owned();
        let at = format!(" in step {}", o.step);
        let r = |kind: &str, mask: u32, text: String| Outcome { kind: kind.into(), mask, text, trace_hash: o.trace_hash };
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let known = match s { libc::SIGABRT => "the process was aborted", libc::SIGALRM => "the program came to a standstill", libc::SIGKILL => return r("harness", 0, "killed".into()), _ => "the process was ended by a signal" };
            return r("crash", u32::MAX, format!("{known} (signal {s}){at}{}", if panic.is_empty() { String::new() } else { format!("; last panic: {panic}") }));
        }
        match libc::WEXITSTATUS(st) {
            0 if o.done == 1 && o.mask == 0 => r("ok", 0, String::new()),
            0 if o.done == 1 => r("violation", o.mask as u32, text),
            EXIT_SEGV => {
                let (k, t) = match crate::alloc::classify(o.addr as usize) { 1 => ("released", "a node was accessed after it had been released"), 2 => ("heap", "invalid access to the heap"), _ => ("segv", "invalid memory access") };
                r(k, u32::MAX, format!("{t} (address {:#x}){at}", o.addr))
            }
            EXIT_DOUBLE_FREE => r("double free", u32::MAX, format!("memory was released twice{at}")),
            EXIT_BAD_FREE => r("bad free", u32::MAX, format!("memory that was not allocated was released{at}")),
            EXIT_OOM => r("oom", u32::MAX, format!("unbounded memory consumption{at}")),
            EXIT_HANG => r("hang", u32::MAX, format!("the program does not finish{at}")),
            EXIT_DEADLOCK => r("deadlock", u32::MAX, format!("deadlock{at}")),
            c => r("harness", 0, format!("exit code {c}; {panic}{at}")),
        }
    }
}

/* ---------------------------------------------------------------- minimising */

fn size(p: &Program) -> u64 { p.steps.len() as u64 * 100 + p.steps.iter().map(|s| s.trig.len() as u64 * 60 + s.op.a.iter().filter(|x| **x != 0).count() as u64 + s.trig.iter().map(|t| (t.0 != 0) as u64 + t.1.a.iter().filter(|x| **x != 0).count() as u64).sum::<u64>()).sum::<u64>()
    + p.scenes.iter().map(|s| s.count() as u64 * 10).sum::<u64>() + p.blob.iter().map(|b| 20 + b.len() as u64).sum::<u64>() }

fn minimise(prog: &Program, first: &Outcome, budget: usize) -> (Program, Outcome, usize) {
    use crate::prog::{Op, Spec, K};
    let mut best = prog.clone();
    let mut seen = first.clone();
    let mut tries = 0;
    let t0 = Instant::now();
    let attempt = |p: Program, best: &mut Program, seen: &mut Outcome, tries: &mut usize| -> bool {
        if *tries >= budget || t0.elapsed().as_secs() > 90 || size(&p) >= size(best) { return false; }
        *tries += 1;
        let o = run_once(&p, false);
        if o.violates(prog.prop) && o.kind == first.kind { *best = p; *seen = o; true } else { false }
    };
    loop {
        let before = size(&best);
        // Steps, in ever smaller pieces. The first one creates the tree.
        let mut n = best.steps.len() / 2;
        while n >= 1 {
            let mut i = if best.blob.is_empty() { 1 } else { 0 };
            while i < best.steps.len() {
                let mut p = best.clone();
                p.steps.drain(i..(i + n).min(p.steps.len()));
                if !attempt(p, &mut best, &mut seen, &mut tries) { i += n; }
            }
            n /= 2;
        }
        let mut n = best.blob.len() / 2;
        if best.blob.len() == 1 { n = 1; }
        while n >= 1 {
            let mut i = 0;
            while i < best.blob.len() {
                let mut p = best.clone();
                p.blob.drain(i..(i + n).min(p.blob.len()));
                if !attempt(p, &mut best, &mut seen, &mut tries) { i += n; }
            }
            n /= 2;
        }
        for i in 0..best.blob.len() {
            for q in crate::shrink_blob(&best.blob[i]) {
                let mut p = best.clone();
                p.blob[i] = q;
                attempt(p, &mut best, &mut seen, &mut tries);
            }
        }
        // Triggers.
        for i in 0..best.steps.len() {
            let mut j = 0;
            while j < best.steps[i].trig.len() {
                let mut p = best.clone();
                p.steps[i].trig.remove(j);
                if !attempt(p, &mut best, &mut seen, &mut tries) { j += 1; }
            }
        }
        // Nodes of the scenes.
        fn prune(s: &Spec, at: &mut usize) -> Option<Spec> {
            let mut c = s.clone();
            c.kids.clear();
            for k in &s.kids {
                if *at == 0 { *at = usize::MAX; continue; }
                if *at != usize::MAX { *at -= 1; }
                if let Some(k) = prune(k, at) { c.kids.push(k); }
            }
            Some(c)
        }
        for s in 0..best.scenes.len() {
            let mut i = 0;
            while i + 1 < best.scenes[s].count() {
                let mut at = i;
                let mut p = best.clone();
                p.scenes[s] = prune(&best.scenes[s], &mut at).unwrap();
                if !attempt(p, &mut best, &mut seen, &mut tries) { i += 1; }
            }
        }
        if best.scenes.len() > 1 { let mut p = best.clone(); p.scenes.pop(); attempt(p, &mut best, &mut seen, &mut tries); }
        // Operands.
        for i in 0..best.steps.len() {
            for j in 0..4 {
                if best.steps[i].op.a[j] != 0 { let mut p = best.clone(); p.steps[i].op.a[j] = 0; attempt(p, &mut best, &mut seen, &mut tries); }
            }
            for t in 0..best.steps[i].trig.len() {
                for j in 0..4 {
                    if best.steps[i].trig[t].1.a[j] != 0 { let mut p = best.clone(); p.steps[i].trig[t].1.a[j] = 0; attempt(p, &mut best, &mut seen, &mut tries); }
                }
            }
        }
        if size(&best) >= before || tries >= budget { break; }
    }
    let _ = Op { k: K::Nop, a: [0; 4] };
    (best, seen, tries)
}

/* ---------------------------------------------------------------- commands */

pub struct Args { pub prop: u32, pub tier: String, pub seed: u64, pub runs: Option<u64>, pub evidence: Option<String>, pub replays: String, pub known: Option<String>, pub workers: u64, pub wall: u64 }

fn program_of(a: &Args, i: u64) -> Program { crate::generate(a.prop, a.seed.wrapping_mul(1_000_003).wrapping_add(i)) }

fn init() { unsafe { OUT = shared(std::mem::size_of::<Out>()) as *mut Out; } crate::prepare(); }

pub fn show(prop: u32, seed: u64) { print!("{}", crate::generate(prop, seed).to_text()); }

/// Performs a replay file. Returns the exit code.
pub fn replay(file: &str, verbose: bool) -> i32 {
    init();
    let text = match std::fs::read_to_string(file) { Ok(t) => t, Err(e) => { eprintln!("{file}: {e}"); return 2; } };
    let prog = match Program::from_text(&text) { Ok(p) => p, Err(e) => { eprintln!("{file}: {e}"); return 2; } };
    let o = run_once(&prog, verbose);
    let exp = text.lines().find_map(|l| l.strip_prefix("# trace ")).and_then(|x| u64::from_str_radix(x.trim(), 16).ok());
    println!("outcome: {} ({})", o.kind, o.text);
    println!("trace {:016x}{}", o.trace_hash, match exp { Some(e) if e == o.trace_hash => " (as recorded)", Some(_) => " (DIFFERENT from what was recorded)", None => "" });
    if o.kind == "harness" { return 2; }
    if o.violates(prog.prop) { println!("VIOLATION property=P{:02} replay={file}", prog.prop); return 1; }
    0
}

/// Performs a replay file a thousand times.
pub fn bench(file: &str) -> i32 {
    init();
    let prog = Program::from_text(&std::fs::read_to_string(file).unwrap()).unwrap();
    for _ in 0..1000 { run_once(&prog, false); }
    0
}

pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    init();
    let runs = a.runs.unwrap_or_else(|| crate::budget(a.prop, &a.tier));
    let (min, stop, totals, bits, tbits) = unsafe {
        let p = shared(4096);
        ((&*(p as *const AtomicU64)), (&*(p.add(64) as *const AtomicU64)), shared(std::mem::size_of::<Totals>() * 64) as *mut Totals, shared(STATE_BITS / 8), shared(STATE_BITS / 8))
    };
    min.store(u64::MAX, SeqCst);
    let mark = |bits: *mut u8, h: u64| -> bool {
        let h = (h ^ (h >> 31)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let b = (h >> 36) as usize % STATE_BITS;
        let w = unsafe { &*(bits.add(b / 8) as *const std::sync::atomic::AtomicU8) };
        w.fetch_or(1 << (b % 8), SeqCst) & (1 << (b % 8)) == 0
    };
    let mut pids = vec![];
    for k in 0..a.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { OUT = shared(std::mem::size_of::<Out>()) as *mut Out; }
            let tot = unsafe { &mut *totals.add(k as usize) };
            let mut i = k;
            while i < runs {
                if min.load(SeqCst) < i { break; }
                if t0.elapsed().as_secs() > a.wall { tot.truncated = 1; break; }
                let prog = program_of(a, i);
                let o = run_once(&prog, false);
                if o.kind == "harness" {
                    // Nothing is known about this run. The check has no answer if that is all there is to report.
                    if tot.harness == 0 { eprintln!("harness error in run {i} of P{:02}: {}", a.prop, o.text); }
                    tot.harness += 1;
                    stop.fetch_add(1, SeqCst);
                    if stop.load(SeqCst) > 2000 { break; }
                    i += a.workers;
                    continue;
                }
                let r = out();
                tot.runs += 1;
                tot.sim_ns = tot.sim_ns.wrapping_add(r.sim_ns);
                for j in 0..NSTATS { if crate::is_max(j) { tot.stats[j] = tot.stats[j].max(r.stats[j]); } else { tot.stats[j] += r.stats[j]; } }
                for j in 0..NOPS { tot.ops[j] += r.ops[j]; }
                for j in 0..6 { tot.fired[j] += r.fired[j]; }
                for j in 0..r.nstates as usize { if mark(bits, r.states[j]) { tot.states += 1; } }
                mark(tbits, r.trace_hash);
                if std::env::var_os("SIM_HASHES").is_some() { eprintln!("hash {i} {:016x}", r.trace_hash); }
                tot.digest = tot.digest.wrapping_add((r.trace_hash ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                if o.kind != "ok" && !o.violates(a.prop) {
                    tot.other += 1;
                    if std::env::var_os("SIM_OTHER").is_some() { eprintln!("run {i} (seed {}): {}", a.seed.wrapping_mul(1_000_003).wrapping_add(i), o.text); }
                }
                if o.violates(a.prop) { min.fetch_min(i, SeqCst); break; }
                // Some of the runs are performed twice, which has to give the same result.
                if i % 97 == 13 {
                    let again = run_once(&prog, false);
                    tot.rerun += 1;
                    if again.trace_hash != o.trace_hash || again.kind != o.kind { tot.differed += 1; eprintln!("run {i} of P{:02} is not repeatable", a.prop); }
                }
                i += a.workers;
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids { let mut st = 0; unsafe { while libc::waitpid(p, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {} } }
    if stop.load(SeqCst) != 0 && min.load(SeqCst) == u64::MAX { return 2; }

    let mut t: Totals = unsafe { std::mem::zeroed() };
    for k in 0..a.workers as usize {
        let x = unsafe { &*totals.add(k) };
        t.runs += x.runs; t.states += x.states; t.sim_ns = t.sim_ns.wrapping_add(x.sim_ns); t.rerun += x.rerun; t.differed += x.differed; t.truncated += x.truncated; t.other += x.other; t.digest = t.digest.wrapping_add(x.digest);
        for j in 0..NSTATS { if crate::is_max(j) { t.stats[j] = t.stats[j].max(x.stats[j]); } else { t.stats[j] += x.stats[j]; } }
        for j in 0..NOPS { t.ops[j] += x.ops[j]; }
        for j in 0..6 { t.fired[j] += x.fired[j]; }
    }
    let traces: u64 = unsafe { std::slice::from_raw_parts(tbits as *const u64, STATE_BITS / 64) }.iter().map(|x| x.count_ones() as u64).sum();
    let searched = t0.elapsed().as_secs_f64();

    let hit = min.load(SeqCst);
    let mut violations = 0;
    let mut known_hit = vec![];
    if hit != u64::MAX {
        let prog = program_of(a, hit);
        let o = run_once(&prog, false);
        if !o.violates(a.prop) {
            // A violation which does not happen again is reported as it is, with the program it was seen in.
            eprintln!("run {hit} did not fail again");
        }
        let (small, seen, tries) = if o.violates(a.prop) { minimise(&prog, &o, 3000) } else { (prog.clone(), o.clone(), 0) };
        let known = a.known.as_ref().and_then(|k| std::fs::read_to_string(k).ok()).unwrap_or_default();
        let tag = format!("KNOWN-FINDING: property=P{:02} ", a.prop);
        let finding = known.lines().filter_map(|l| l.strip_prefix(tag.as_str())).find(|l| l.split(" :: ").next().map(|s| !s.is_empty() && seen.text.contains(s)).unwrap_or(false));
        if let Some(f) = finding {
            println!("{tag}{f}");
            known_hit.push(f.to_string());
        } else {
            violations = 1;
            let _ = std::fs::create_dir_all(&a.replays);
            let path = format!("{}/P{:02}-{}-{}.replay", a.replays, a.prop, a.seed, hit);
            let mut text = format!("# violation of P{:02}, {}: {}\n# found in run {hit} of seed {}, program of {} reduced to {} in {tries} runs\n# trace {:016x}\n", a.prop, seen.kind, seen.text.replace('\n', "\n# "), a.seed, size(&prog), size(&small), seen.trace_hash);
            text += &small.to_text();
            if let Err(e) = std::fs::write(&path, text) { eprintln!("{path}: {e}"); }
            let again = run_once(&small, false);
            eprintln!("P{:02} {}: {}\n(replayed: {})", a.prop, seen.kind, seen.text, if again.trace_hash == seen.trace_hash && again.kind == seen.kind { "same" } else { "DIFFERENT" });
            println!("VIOLATION property=P{:02} replay={path}", a.prop);
        }
    }
    if let Some(e) = &a.evidence {
        let wall = t0.elapsed().as_secs_f64();
        let esc = |s: &str| s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32), c => c.to_string() }).collect::<String>();
        let ops: Vec<String> = KINDS.iter().enumerate().filter(|(i, _)| t.ops[*i] > 0).map(|(i, (_, n))| format!("\"{n}\": {}", t.ops[i])).collect();
        let names = crate::stat_names(a.prop);
        let stats: Vec<String> = names.iter().map(|(i, n)| format!("\"{n}\": {}", t.stats[*i])).collect();
        let faults: Vec<String> = crate::sysim::FAULTS.iter().enumerate().map(|(i, f)| format!("\"disk {}\": {}", format!("{f:?}").to_lowercase(), t.fired[i])).chain(crate::fault_counts(a.prop, &t.ops, &t.stats).into_iter().map(|(n, c)| format!("\"{n}\": {c}"))).collect();
        let samples: Vec<String> = [0, runs / 3, 2 * runs / 3].iter().map(|&i| { let p = program_of(a, i); format!("{{\"run\": {i}, \"seed\": {}, \"program\": \"{}\"}}", p.seed, esc(&p.to_text().chars().take(700).collect::<String>())) }).collect();
        let j = |v: &[&str]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let text = format!("{{\n  \"property\": \"P{:02}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": \"{}\",\n    \"runs\": {},\n    \"runs_planned\": {},\n    \"cut_short_by_time\": {},\n    \"runs_per_hour\": {:.0},\n    \"seeds_per_hour\": {:.0},\n    \"simulated_seconds\": {:.3},\n    \"distinct_traces\": {},\n    \"distinct_states\": {},\n    \"digest_of_all_traces\": \"{:016x}\",\n    \"faults_injected\": {{{}}},\n    \"operations\": {{{}}},\n    \"activity\": {{{}}},\n    \"runs_ended_by_other_violations\": {},\n    \"repeated_runs\": {},\n    \"repeated_runs_that_differed\": {},\n    \"real_components\": [{}],\n    \"stub_components\": [{}],\n    \"known_findings\": [{}],\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            a.prop, esc(&a.tier), a.seed, t.runs, t.states.min(t.runs.max(t.states)), esc(crate::RULE), t.runs, runs, t.truncated > 0,
            t.runs as f64 / searched * 3600.0, t.runs as f64 / searched * 3600.0, t.sim_ns as f64 / 1e9, traces, t.states, t.digest,
            faults.join(", "), ops.join(", "), stats.join(", "), t.other, t.rerun, t.differed, j(crate::REAL), j(crate::STUB), j(&known_hit.iter().map(|s| s.as_str()).collect::<Vec<_>>()), samples.join(", "), j(crate::ASSUMPTIONS), wall, violations);
        if let Some(d) = std::path::Path::new(e).parent() { let _ = std::fs::create_dir_all(d); }
        if let Err(x) = std::fs::write(e, text) { eprintln!("{e}: {x}"); return 2; }
    }
    println!("P{:02} {}: {} runs, {} distinct states, {} distinct traces, {} other, {:.1} s, {} violation(s)", a.prop, a.tier, t.runs, t.states, traces, t.other, t0.elapsed().as_secs_f64(), violations);
    violations
}
