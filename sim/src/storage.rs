//! The storage simulations: scenes and values are saved and loaded, on a simulated disk that fails, by processes that
//! crash, and from data that was damaged. Every line of a program is one event.

use crate::prng::{fnv, Rng, FNV0};
use crate::prog::Program;
use crate::sup;
use crate::sysim::{sys, Fault, FaultKind};
use crate::vals::{self, Pay};
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub const STATS: &[&str] = &["values sent through text", "scenes", "nodes", "texts saved", "files saved", "loads", "damaged inputs", "damaged inputs accepted", "damaged inputs rejected", "power failures", "failed saves", "later processes", "most text"];
pub const FIRST: usize = 20;
fn count(i: usize, n: u64) { sup::out().stats[FIRST + i] += n; }
fn most(n: u64) { let s = &mut sup::out().stats[FIRST + 12]; *s = (*s).max(n); }

/* ---------------------------------------------------------------- scenes */

fn name(r: &mut Rng, plain: bool, n: u64) -> String {
    if plain { return format!("N{n}"); }
    let s = match r.below(9) {
        0 => "Node".to_string(),
        1 => ["_", "a_b", "_0", "a_1", "1_1_1", "0", "a.b", "\"", "'", "a b", " ", "metadata", "#", "[x]", "é", "日本", "\u{1f600}", "\n", "\t", "\\", "a\"b'c", "=", "true", "1979-05-27"][r.below(24) as usize].to_string(),
        2 => format!("Node{}", r.below(12)),
        3 | 4 => vals::any_text(r, 3),
        _ => format!("N{n}"),
    };
    let s: String = s.chars().filter(|c| *c != '/').collect();
    if s.is_empty() { format!("E{n}") } else { s }
}

/// A scene that the seed decides. `flags`: 1: plain and distinct names, 2: a chain, 4: only simple nodes.
pub fn scene(seed: u64, size: u64, nodes: u64, flags: u64) -> NodeScene {
    fn one(r: &mut Rng, size: u64, flags: u64, n: &mut u64) -> NodeScene {
        let kind = if flags & 4 != 0 { 0 } else { r.below(vals::KINDS.len() as u64) as usize };
        let mut b = vals::make(kind, r, size);
        let nm = name(r, flags & 1 != 0, *n);
        unsafe { b.set_name_unchecked(&nm) };
        *n += 1;
        NodeScene::new_dyn(b)
    }
    fn grow(r: &mut Rng, size: u64, flags: u64, n: &mut u64, left: &mut u64, depth: u64) -> NodeScene {
        let mut s = one(r, size, flags, n);
        let kids = if flags & 2 != 0 { 1 } else { r.below(5) };
        for _ in 0..kids {
            if *left == 0 || depth > 300 { break; }
            *left -= 1;
            let own = r.chance(1, 3);
            let k = grow(r, size, flags, n, left, depth + 1);
            if own { s.append_as_owner(k) } else { s.append(k) }
        }
        s
    }
    let mut r = Rng::new(seed);
    let (mut n, mut left) = (0, nodes);
    let mut s = grow(&mut r, size, flags, &mut n, &mut left, 0);
    while left > 0 {
        left -= 1;
        let k = one(&mut r, size, flags, &mut n);
        if r.chance(1, 3) { s.append_as_owner(k) } else { s.append(k) }
    }
    if r.chance(1, 5) { s.is_owner = false; }
    count(1, 1);
    count(2, nodes + 1);
    s
}
pub fn node_of(s: &NodeScene) -> ManuallyDrop<Box<dyn Node>> { ManuallyDrop::new(unsafe { s.get_node() }) }
fn total(s: &NodeScene) -> usize { 1 + s.children().iter().map(total).sum::<usize>() }

/// The first difference between two scenes.
pub fn compare(a: &NodeScene, b: &NodeScene, names: bool) -> Option<String> {
    let _a = crate::alloc::aside();
    let (mut x, mut y) = (node_of(a), node_of(b));
    let at = format!("{:?}", x.name());
    if names && x.name() != y.name() { return Some(format!("a node named {:?} instead of {at}", y.name())); }
    if x.name_as_type() != y.name_as_type() { return Some(format!("{at} is a {} instead of a {}", y.name_as_type(), x.name_as_type())); }
    if a.is_owner != b.is_owner { return Some(format!("{at} is {}an owner", if b.is_owner { "" } else { "not " })); }
    let p: &mut dyn Node = &mut **y;
    if let Some(d) = vals::pay(&mut **x).differs(p) { return Some(format!("in {at}, {d}")); }
    if a.children().len() != b.children().len() { return Some(format!("{at} has {} children instead of {}", b.children().len(), a.children().len())); }
    a.children().iter().zip(b.children()).find_map(|(x, y)| compare(x, y, names))
}
fn digest(s: &NodeScene, h: u64) -> u64 {
    let _a = crate::alloc::aside();
    let mut x = node_of(s);
    let mut h = fnv(h, x.name().as_bytes());
    h = fnv(h, vals::pay(&mut **x).shows().as_bytes());
    h = fnv(h, &[s.is_owner as u8, s.children().len() as u8]);
    s.children().iter().fold(h, |h, c| digest(c, h))
}

/* ---------------------------------------------------------------- a run */

struct Run { prop: u32, hash: u64, found: Option<String>, log: Vec<String>, keep: bool, rng: Rng, shelf: BTreeMap<String, Shelf> }
/// What a scene file may contain: now, and after a power failure.
#[derive(Clone, Default)]
struct Shelf { now: Vec<Option<Content>>, later: Vec<Option<Content>> }
#[derive(Clone, Copy, PartialEq, Debug)]
struct Content { seed: u64, size: u64, nodes: u64, flags: u64 }
impl Content {
    fn build(&self) -> NodeScene { scene(self.seed, self.size, self.nodes, self.flags) }
    fn model(&self) -> NodeScene { let _a = crate::alloc::aside(); self.build() }
}

fn clip(s: &str) -> String { let t: String = s.chars().take(1500).collect(); if t.len() < s.len() { format!("{t}...") } else { t } }

impl Run {
    fn say(&mut self, s: String) { self.hash = fnv(self.hash, s.as_bytes()); if self.keep { self.log.push(s); } }
    fn bad(&mut self, s: String) { if self.found.is_none() { self.say(format!("VIOLATED: {s}")); self.found = Some(s); } }
    fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let o = sup::out();
                let t = String::from_utf8_lossy(&o.panic[..o.panic_len as usize]).into_owned();
                self.bad(format!("{what} panicked: {t}"));
                None
            }
        }
    }
}

fn faults(w: &[&str]) -> Vec<Fault> {
    w.chunks(3).filter(|c| c.len() == 3).filter_map(|c| Some(Fault {
        at: c[0].parse().ok()?,
        kind: match c[1] { "err" => FaultKind::Err, "short" => FaultKind::Short, "eintr" => FaultKind::Eintr, "full" => FaultKind::Full, "torn" => FaultKind::Torn, "crash" => FaultKind::Crash, _ => return None },
        arg: c[2].parse().ok()?,
    })).collect()
}

pub fn run(prog: &Program, verbose: bool) {
    sys().start(prog.seed, prog.mono0 as i128, prog.wall0 as i128 * 1_000_000_000 + 500_000_000);
    sys().tracing = verbose;
    sys().disk.put("/sim/notes.txt", b"not a scene");
    sys().disk.put("/sim/old.scn.bak", b"a_0 = 3");
    sys().disk.mkdir("/sim/sub");
    sys().disk.sync_all();
    let mut r = Run { prop: prog.prop, hash: FNV0, found: None, log: vec![], keep: verbose, rng: Rng::new(prog.seed), shelf: BTreeMap::new() };
    let mut text = Vec::new(); // the input that is being damaged
    let mut base: Option<Content> = None;
    let mut damaged = false;
    let mut states = vec![];
    for (i, line) in prog.blob.iter().enumerate() {
        sup::out().step = i as u64;
        let w: Vec<&str> = line.split_whitespace().collect();
        let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        r.say(format!("> {line}"));
        match w.first().copied() {
            Some("val") => value(&mut r, n(1), n(2), n(3), n(4)),
            Some("hurt") => hurt(&mut r, n(1), n(2), n(3), n(4)),
            Some("trip") => trip(&mut r, Content { seed: n(1), size: n(2), nodes: n(3), flags: n(4) }, n(5), n(6), &faults(&w[7.min(w.len())..])),
            Some("save") => save(&mut r, w[1], Content { seed: n(2), size: n(3), nodes: n(4), flags: n(5) }, n(6), n(7), &faults(&w[8.min(w.len())..])),
            Some("load") => look(&mut r, Some((n(1), faults(&w[2.min(w.len())..])))),
            Some("crash") => { count(9, 1); let mut q = Rng::new(n(1)); sys().power_cycle(&mut q); for s in r.shelf.values_mut() { s.now = s.later.clone(); } look(&mut r, None); }
            Some("base") => {
                let c = Content { seed: n(1), size: n(2), nodes: n(3), flags: n(4) };
                let s = c.build();
                if let Some(Ok(t)) = r.guard("saving", || s.save_to_str()) { text = t.into_bytes(); }
                base = Some(c);
                damaged = false;
            }
            Some("feed") => feed(&mut r, &text, if damaged { None } else { base }, n(1), n(2), &faults(&w[3.min(w.len())..])),
            Some(_) if crate::damage::apply(&mut text, &w) => { damaged = true; most(text.len() as u64); }
            _ => r.say(format!("(ignored: {line})"))
        }
        for t in std::mem::take(&mut sys().trace) { r.log.push(format!("    {t}")); }
        states.push(r.hash);
        if r.found.is_some() { break; }
    }
    sys().active = false;
    let o = sup::out();
    o.trace_hash = r.hash;
    for (i, s) in states.iter().take(o.states.len()).enumerate() { o.states[i] = *s; o.nstates = i as u64 + 1; }
    if verbose { for l in &r.log { println!("{l}"); } }
    if let Some(f) = &r.found { o.mask = 1 << r.prop; sup::put_text(&format!("[P{:02}] {}", r.prop, clip(f))); }
}

/* ---------------------------------------------------------------- values (P23) */

fn value(r: &mut Run, ty: u64, wrap: u64, seed: u64, size: u64) {
    count(0, 1);
    let (tn, fs) = vals::TYPES[ty as usize % vals::TYPES.len()];
    let f = fs[wrap as usize % fs.len()];
    match r.guard(&format!("saving or loading a value of {tn}"), || f.both(seed, size)) {
        Some(Ok(h)) => r.say(format!("{tn} {h:x}")),
        Some(Err(e)) => r.bad(e),
        None => ()
    }
}

/// Damages what a value is saved as.
fn hurt(r: &mut Run, ty: u64, wrap: u64, seed: u64, size: u64) {
    count(6, 1);
    let (tn, fs) = vals::TYPES[ty as usize % vals::TYPES.len()];
    let f = fs[wrap as usize % fs.len()];
    match r.guard(&format!("loading a damaged value of {tn}"), || f.hurt(seed, size)) {
        Some(Ok(h)) => { count(if h > 1 { 7 } else { 8 }, 1); r.say(format!("{tn} {h:x}")) }
        Some(Err(e)) => r.bad(e),
        None => ()
    }
}

/* ---------------------------------------------------------------- round trips (P14, P23) */

/// Runs something in a process of its own, and gives what it wrote.
fn elsewhere(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    const LEN: usize = 4 << 20;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(100);
            let Ok(v) = catch_unwind(AssertUnwindSafe(f)) else { libc::_exit(4) };
            if v.len() + 8 > LEN { libc::_exit(3); }
            (p as *mut u64).write(v.len() as u64);
            std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), v.len());
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 { return None; }
        let n = (p as *const u64).read() as usize;
        Some(std::slice::from_raw_parts(p.add(8), n).to_vec())
    }
}

fn trip(r: &mut Run, c: Content, mode: u64, chop: u64, fl: &[Fault]) {
    let mut s = c.build();
    let hash = s.structural_hash();
    let dir = Path::new(["/sim", "/sim/sub", ""][(c.seed % 3) as usize]);
    let file = dir.join("scene.scn");
    // Where it goes through: text, a file, a later process.
    let text = match mode % 3 {
        0 => { count(3, 1); r.guard("saving", || s.save_to_str()) }
        1 => {
            count(4, 1);
            sys().arm(fl.to_vec(), chop as usize, None);
            let res = r.guard("saving", || s.save(dir, "scene"));
            match res { Some(Err(e)) => Some(Err(e)), Some(Ok(())) => Some(Ok(String::new())), None => None }
        }
        _ => {
            count(11, 1);
            let got = elsewhere(|| {
                sys().entropy = Rng::new(c.seed ^ 99);
                let mut v = s.structural_hash().to_le_bytes().to_vec();
                match s.save(dir, "scene") { Ok(()) => v.extend(sys().disk.peek(file.to_str().unwrap()).unwrap_or_default()), Err(_) => () }
                v
            });
            match got {
                Some(v) => {
                    if v[..8] != hash.to_le_bytes() { r.bad("the structural hash differs between processes".into()); }
                    sys().disk.put(file.to_str().unwrap(), &v[8..]);
                    sys().arm(fl.to_vec(), chop as usize, None);
                    // Only the program's seed is left of the scene.
                    s = c.build();
                    Some(Ok(String::new()))
                }
                None => { r.bad("saving in another process failed".into()); None }
            }
        }
    };
    let back = match text {
        None => { sys().disarm(); return }
        Some(Err(e)) => { sys().disarm(); r.bad(format!("saving failed: {e}")); return }
        Some(Ok(t)) if mode % 3 == 0 => { most(t.len() as u64); r.guard("loading", || NodeScene::load_from_str(&t).map_err(|e| format!("{e} in {t}"))) }
        Some(Ok(_)) => { let b = r.guard("loading", || NodeScene::load(&file)); sys().disarm(); b }
    };
    count(5, 1);
    let b = match back { None => return, Some(Err(e)) => { r.bad(format!("what was saved could not be loaded: {e}")); return } Some(Ok(b)) => b };
    if let Some(d) = compare(&s, &b, true) { r.bad(format!("the loaded scene differs: {d}")); return; }
    if b.structural_hash() != hash { r.bad("the loaded scene has another structural hash".into()); }
    if s.structural_hash() != hash { r.bad("saving changed the scene's structural hash".into()); }
    let fresh = c.model();
    if let Some(d) = compare(&fresh, &s, true) { r.bad(format!("saving changed the scene: {d}")); }
    // Once more, from the loaded one, and from a copy of it.
    let copy = b.clone();
    if let Some(d) = compare(&b, &copy, true) { r.bad(format!("a copy differs: {d}")); }
    match r.guard("saving again", || copy.save_to_str().and_then(|t| NodeScene::load_from_str(&t))) {
        None => (),
        Some(Err(e)) => r.bad(format!("saving or loading a loaded scene failed: {e}")),
        Some(Ok(x)) => if let Some(d) = compare(&s, &x, true) { r.bad(format!("the scene differs when it is saved again: {d}")) }
    }
    let d = digest(&b, FNV0);
    r.say(format!("{} nodes, {d:x}", total(&b)));
    if c.flags & 8 != 0 { in_tree(r, &s, b, c.flags & 1 != 0); }
}

/// A loaded scene lives in a tree, from which it is saved and loaded again.
fn in_tree(r: &mut Run, s: &NodeScene, b: NodeScene, names: bool) {
    let n = total(s);
    let done = r.guard("using the scene in a tree", || {
        let mut tree = TreeSimple::new(b, LoggerVerbosity::NoDebug);
        for _ in 0..2 { sys().mono_ns += 1_000_000; tree.process(); }
        let branch = tree.root().save_as_branch();
        let res = branch.save_to_str().and_then(|t| NodeScene::load_from_str(&t));
        std::mem::forget(tree);
        (branch, res)
    });
    let Some((branch, res)) = done else { return };
    if total(&branch) != n { r.bad(format!("a tree of the scene has {} nodes instead of {n}", total(&branch))); return; }
    match res {
        Err(e) => r.bad(format!("a branch could not be saved and loaded: {e}")),
        Ok(x) => {
            // Siblings may have had to be renamed, and the root always is an owner.
            let mut y = s.clone();
            y.is_owner = true;
            let mut x2 = x;
            x2.is_owner = true;
            if let Some(d) = compare(&y, &x2, names) { r.bad(format!("a branch of the scene differs: {d}")); }
        }
    }
}

/* ---------------------------------------------------------------- crashes and errors while saving (P15) */

fn where_is(name: &str) -> (&'static Path, String) {
    let dir = if name.ends_with('2') { "/sim/sub" } else { "/sim" };
    (Path::new(dir), format!("{dir}/{name}.scn"))
}

fn save(r: &mut Run, name: &str, c: Content, chop: u64, room: u64, fl: &[Fault]) {
    let s = c.build();
    let (dir, _) = where_is(name);
    count(4, 1);
    let before = sys().fired;
    sys().arm(fl.to_vec(), chop as usize, if room == 0 { None } else { Some(room as usize - 1) });
    let res = r.guard("saving", || s.save(dir, name));
    let crashed = sys().crashed;
    let serious = (0..6).any(|i| i != 1 && i != 2 && sys().fired[i] != before[i]) || crashed;
    sys().disarm();
    let Some(res) = res else { return };
    let shelf = r.shelf.entry(name.to_string()).or_insert_with(|| Shelf { now: vec![None], later: vec![None] });
    let add = |v: &mut Vec<Option<Content>>, x: Option<Content>| if !v.contains(&x) { v.push(x) };
    if crashed {
        // Nobody learns what the call would have returned.
        count(9, 1);
        add(&mut shelf.later, Some(c));
        let mut q = r.rng.fork(3);
        sys().power_cycle(&mut q);
        for s in r.shelf.values_mut() { s.now = s.later.clone(); }
        r.say("power failure".into());
    } else if res.is_ok() {
        shelf.now = vec![Some(c)];
        shelf.later = vec![Some(c)];
        r.say("saved".into());
    } else {
        count(10, 1);
        add(&mut shelf.now, Some(c));
        add(&mut shelf.later, Some(c));
        r.say("not saved".into());
        if !serious { r.bad(format!("saving failed without a reason: {}", res.err().unwrap())); return; }
    }
    if let Some(d) = compare(&c.model(), &s, true) { r.bad(format!("saving changed the scene: {d}")); return; }
    look(r, None);
}

/// Every scene file has to be what it may be.
fn look(r: &mut Run, how: Option<(u64, Vec<Fault>)>) {
    let names: Vec<String> = r.shelf.keys().cloned().collect();
    for name in names {
        let (_, file) = where_is(&name);
        let shelf = r.shelf[&name].clone();
        let there = sys().disk.peek(&file).is_some();
        if let Some((chop, f)) = &how { sys().arm(f.clone(), *chop as usize, None); }
        let before = sys().fired;
        let got = r.guard("loading", || NodeScene::load(Path::new(&file)));
        let failed = sys().fired[0] != before[0];
        sys().disarm();
        count(5, 1);
        let Some(got) = got else { return };
        let actual = match got {
            Err(_) if !there => None,
            Err(_) if failed => continue,
            Err(e) => { r.bad(format!("{name}.scn is damaged: {e}")); return }
            Ok(s) => match shelf.now.iter().flatten().find(|c| compare(&c.model(), &s, true).is_none()) {
                Some(c) => Some(*c),
                None => {
                    let what: Vec<String> = shelf.now.iter().map(|c| match c { None => "absent".into(), Some(c) => compare(&c.model(), &s, true).unwrap_or_default() }).collect();
                    r.bad(format!("{name}.scn is none of the scenes it may be: {}", what.join("; ")));
                    return
                }
            }
        };
        if actual.is_none() && !shelf.now.contains(&None) { r.bad(format!("{name}.scn is gone")); return; }
        r.say(format!("{name}: {:?}", actual.map(|c| c.seed)));
        let e = r.shelf.get_mut(&name).unwrap();
        e.now = vec![actual];
    }
    for (f, d) in [("/sim/notes.txt", &b"not a scene"[..]), ("/sim/old.scn.bak", b"a_0 = 3")] {
        if sys().disk.peek(f).as_deref() != Some(d) { r.bad(format!("{f} was changed")); }
    }
}

/* ---------------------------------------------------------------- damaged data (P16) */

/// What a text says about the shape of a scene, according to an independent reading of it. `None` if it is ambiguous.
fn reading(doc: &toml_edit::DocumentMut) -> Option<Vec<(String, String, bool, Option<usize>, toml_edit::Table)>> {
    let mut out: Vec<(String, String, bool, Option<usize>, toml_edit::Table)> = vec![];
    let mut ids: BTreeMap<i128, usize> = BTreeMap::new();
    for (k, v) in doc.iter() {
        let t = v.as_table()?;
        let m = t.get("metadata")?.as_inline_table()?;
        let (name, id) = k.rsplit_once('_')?;
        let id: i128 = id.parse().ok()?;
        let parent = if out.is_empty() { None } else {
            let p = m.get("parent")?.as_integer()? as i128;
            Some(if p == 0 { 0 } else { *ids.get(&p)? })
        };
        if (id == 0 && !out.is_empty()) || ids.contains_key(&id) { return None; }
        ids.insert(id, out.len());
        out.push((name.into(), m.get("type_name")?.as_str()?.into(), m.get("is_owner")?.as_bool()?, parent, t.clone()));
    }
    Some(out)
}

/// What a text leaves out that nobody could make up for.
fn lacks(doc: &toml_edit::DocumentMut) -> Option<String> {
    let _a = crate::alloc::aside();
    let ids: Vec<i128> = doc.iter().filter_map(|(k, _)| k.rsplit_once('_')?.1.parse().ok()).collect();
    for (i, (k, v)) in doc.iter().enumerate() {
        let m = v.as_table().and_then(|t| t.get("metadata")).and_then(|m| m.as_inline_table());
        let Some(m) = m else { return Some(format!("what {k:?} is")) };
        if !m.get("type_name").is_some_and(|x| x.is_str()) { return Some(format!("the type of {k:?}")); }
        if !m.get("is_owner").is_some_and(|x| x.is_bool()) { return Some(format!("whether {k:?} owns")); }
        if i == 0 { continue; }
        match m.get("parent").and_then(|x| x.as_integer()) {
            None => return Some(format!("the parent of {k:?}")),
            Some(p) if p > 0 && !ids.contains(&(p as i128)) => return Some(format!("the parent {p} of {k:?}")),
            _ => ()
        }
    }
    None
}

fn check_reading(s: &NodeScene, want: &[(String, String, bool, Option<usize>, toml_edit::Table)]) -> Option<String> {
    let _a = crate::alloc::aside();
    fn go(s: &NodeScene, i: usize, want: &[(String, String, bool, Option<usize>, toml_edit::Table)]) -> Option<String> {
        let mut n = node_of(s);
        let (name, ty, own, _, t) = &want[i];
        if n.name() != name { return Some(format!("a node is named {:?} instead of {name:?}", n.name())); }
        if n.name_as_type() != *ty { return Some(format!("{name:?} is a {} instead of a {ty}", n.name_as_type())); }
        if s.is_owner != *own { return Some(format!("the ownership of {name:?} differs")); }
        if let Some(d) = vals::pay(&mut **n).denies(t) { return Some(d); }
        let kids: Vec<usize> = (0..want.len()).filter(|&k| want[k].3 == Some(i) && k > 0).collect();
        if kids.len() != s.children().len() { return Some(format!("{name:?} has {} children instead of {}", s.children().len(), kids.len())); }
        kids.iter().zip(s.children()).find_map(|(&k, c)| go(c, k, want))
    }
    if want.is_empty() { return Some("there is a scene although the text has none".into()); }
    go(s, 0, want)
}

fn feed(r: &mut Run, data: &[u8], intact: Option<Content>, via: u64, chop: u64, fl: &[Fault]) {
    count(6, 1);
    let as_text = std::str::from_utf8(data).ok();
    let before = sys().fired;
    // Files under names that scenes do not have may be rejected for that.
    let name = match via { 3 => "/sim/in.txt", 4 => "/sim/in", 5 => "/sim/.scn", 6 => "/sim/in.SCN", _ => "/sim/in.scn" };
    let path = if via == 7 { "/sim/not/in.scn" } else if via == 8 { "" } else if via == 9 { "/sim" } else { name };
    let intact = if via > 2 { None } else { intact };
    let res = match (via, as_text) {
        (0, Some(t)) => r.guard("loading", || NodeScene::load_from_str(t)),
        _ => {
            sys().disk.put(name, data);
            sys().arm(fl.to_vec(), chop as usize, None);
            let x = r.guard("loading", || NodeScene::load(Path::new(path)));
            sys().disarm();
            x
        }
    };
    let failed = sys().fired[0] != before[0];
    let Some(res) = res else { return };
    let s = match res {
        Err(e) => {
            count(8, 1);
            r.say(format!("rejected: {} bytes", data.len()));
            if intact.is_some() && !failed { r.bad(format!("an undamaged scene was rejected: {e}")); }
            return
        }
        Ok(s) => s
    };
    count(7, 1);
    if failed && via != 0 { r.say("a read error was survived".into()); }
    if let Some(c) = intact { if let Some(d) = compare(&c.model(), &s, true) { r.bad(format!("an undamaged scene differs: {d}")); return; } }
    let Some(t) = as_text else { r.bad("a scene was made of what is no text".into()); return };
    match t.parse::<toml_edit::DocumentMut>() {
        Err(e) => { r.bad(format!("a scene was made of what is not valid: {e}")); return }
        Ok(doc) => if let Some(what) = lacks(&doc) { r.bad(format!("a scene was made of a text that lacks {what}")); return } else if let Some(want) = reading(&doc) {
            if let Some(d) = check_reading(&s, &want) { r.bad(format!("the scene is not what its text says: {d}")); return; }
        }
    }
    // A sound scene can be used like any other.
    let d = digest(&s, FNV0);
    r.say(format!("accepted: {} nodes {d:x}", total(&s)));
    let saved = r.guard("saving a loaded scene", || s.save_to_str());
    match saved {
        None => return,
        Some(Err(e)) => { r.bad(format!("a loaded scene could not be saved: {e}")); return }
        Some(Ok(t)) => match r.guard("loading again", || NodeScene::load_from_str(&t)) {
            None => return,
            Some(Err(e)) => { r.bad(format!("a loaded scene could not be loaded again: {e}")); return }
            Some(Ok(x)) => if let Some(d) = compare(&s, &x, true) { r.bad(format!("a loaded scene differs when it is saved and loaded again: {d}")); return }
        }
    }
    let copy = s.clone();
    in_tree(r, &copy, s, false);
}

/* ---------------------------------------------------------------- programs */

fn transient(r: &mut Rng) -> String {
    let n = r.below(5);
    (0..n).map(|_| format!(" {} {} {}", r.below(14), if r.chance(1, 2) { "short" } else { "eintr" }, r.below(5000))).collect()
}
fn chop(r: &mut Rng) -> u64 { if r.chance(1, 3) { 1 + r.below(300) } else { 0 } }
fn small(r: &mut Rng) -> u64 { match r.below(8) { 0 => 0, 1..=4 => r.below(4), 5 | 6 => r.below(12), _ => r.below(50) } }

pub fn generate(prop: u32, seed: u64) -> Program {
    let mut r = Rng::new(seed.wrapping_mul(0x2000_0003).wrapping_add(prop as u64 * 0x51_7CC1_B727));
    let mut b = vec![];
    let tag = |r: &mut Rng| r.below(1 << 40);
    match prop {
        23 => {
            // Every type in turn, most often within something else.
            for _ in 0..r.range(4, 14) { b.push(format!("val {} {} {} {}", r.below(vals::TYPES.len() as u64), r.below(7), tag(&mut r), r.below(9))); }
            if r.chance(2, 3) { b.push(format!("trip {} {} {} {} {} {}{}", tag(&mut r), r.below(9), r.below(3), 1, r.below(3), chop(&mut r), transient(&mut r))); }
        }
        14 => for _ in 0..r.range(1, 3) {
            let flags = r.below(2) | if r.chance(1, 10) { 2 } else { 0 } | if r.chance(1, 4) { 4 } else { 0 } | if r.chance(1, 2) { 8 } else { 0 };
            let nodes = if flags & 6 == 6 { r.below(120) } else { small(&mut r) };
            b.push(format!("trip {} {} {} {flags} {} {}{}", tag(&mut r), r.below(6), nodes, r.below(3), chop(&mut r), transient(&mut r)));
        },
        15 => {
            // Some of these are what another one might be kept as in the meantime.
            let mut names = vec!["a", "b", "c2", "scene.scn"];
            let k = r.range(1, 5) as usize;
            let near = ["a.tmp", "~a", "a~", ".a", "_a", "a.scn", "a.bak", "a.new", "a.old", "a_tmp", "tmp", "a.scn.tmp", "temp", "a1", "aa", "A", "a.scn.bak", "a-tmp", ".tmp", "a.part", "a.swp", "tmp_a", "tmp.a"];
            for _ in 0..2 { let at = r.below(3) as usize; names.insert(at, near[r.below(near.len() as u64) as usize]); }
            for _ in 0..r.range(2, 9) {
                match r.below(8) {
                    0 => b.push(format!("crash {}", tag(&mut r))),
                    1 => b.push(format!("load {}{}", chop(&mut r), if r.chance(1, 3) { format!(" {} err {}", r.below(6), r.below(9)) } else { transient(&mut r) })),
                    _ => {
                        let mut f = String::new();
                        match r.below(6) {
                            0 => (),
                            1 => f = transient(&mut r),
                            n => for _ in 0..(if n == 5 { 2 } else { 1 }) {
                                let far = if r.chance(1, 3) { 30 } else { 7 };
                                let kind = ["err", "full", "torn", "crash", "crash", "err", "short", "eintr"][r.below(8) as usize];
                                f += &format!(" {} {kind} {}", r.below(far), r.below(1 << 16));
                            }
                        }
                        let room = if r.chance(1, 6) { 1 + r.below(3000) } else { 0 };
                        b.push(format!("save {} {} {} {} {} {} {room}{f}", names[r.below(k as u64) as usize], tag(&mut r), r.below(4), small(&mut r).min(12), 4 * r.below(2) + r.below(2), chop(&mut r)));
                    }
                }
            }
            if r.chance(1, 2) { b.push(format!("crash {}", tag(&mut r))); }
            b.push(format!("save {} {} 2 2 0 0 0", names[r.below(k as u64) as usize], tag(&mut r)));
        }
        _ => { for _ in 0..r.below(9) { b.push(format!("hurt {} {} {} {}", r.below(vals::TYPES.len() as u64), if r.chance(1, 2) { 0 } else { r.below(7) }, tag(&mut r), r.below(5))); }
        for _ in 0..r.range(1, 3) {
            b.push(format!("base {} {} {} {}", tag(&mut r), r.below(5), r.below(6), r.below(2) | 4 * r.chance(1, 3) as u64));
            for _ in 0..(if r.chance(1, 12) { 0 } else { r.range(1, 4) }) { b.push(crate::damage::any(&mut r)); }
            let via = if r.chance(1, 24) { 3 + r.below(7) } else { r.below(3) };
            let mut f = String::new();
            if via == 2 { for _ in 0..r.range(1, 2) { f += &format!(" {} {} {}", r.below(6), ["err", "short", "eintr"][r.below(3) as usize], r.below(5000)); } }
            b.push(format!("feed {via} {}{f}", if via == 0 { 0 } else { chop(&mut r) }));
        } }
    }
    Program { prop, seed: r.next(), verbosity: 0, mono0: r.below(1 << 40), wall0: 1_700_000_000, root_scene: true, scenes: vec![], steps: vec![], blob: b }
}

/// Smaller versions of a line.
pub fn shrink(line: &str) -> Vec<String> {
    let w: Vec<&str> = line.split(' ').collect();
    let mut out = vec![];
    for i in 1..w.len() {
        if let Ok(n) = w[i].parse::<u64>() {
            for m in [0, n / 10, n.saturating_sub(1)] {
                if m < n { let mut v: Vec<String> = w.iter().map(|s| s.to_string()).collect(); v[i] = m.to_string(); out.push(v.join(" ")); }
            }
        }
    }
    let from = match w[0] { "trip" => 7, "save" => 8, "load" => 2, "feed" => 3, _ => usize::MAX };
    let mut i = from;
    while i != usize::MAX && i + 3 <= w.len() {
        let mut v = w.clone();
        v.drain(i..i + 3);
        out.push(v.join(" "));
        i += 3;
    }
    out
}
