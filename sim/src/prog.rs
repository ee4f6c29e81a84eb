//! Programs: what one simulated run does. A program is generated from a seed alone, before anything runs, and consists
//! of a configuration, scenes, and a list of steps. A step is an operation of the driver (such as processing a frame)
//! together with triggers: operations that are performed by the n-th callback which happens during the step. All
//! operands are small integers that are resolved against the state at hand, so any part of a program can be left out
//! and what remains is still a program. This is also the format of replay files.

use crate::prng::Rng;

macro_rules! ops { ($($n:ident),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub enum K { $($n),* }
    pub const KINDS: &[(K, &str)] = &[$((K::$n, stringify!($n))),*];
} }
ops! {
    Nop, Frame, AddNode, AddScene, Free, RemoveChild, RemoveMissing, Rename, TakePtr, CheckPtrs, UsePtr, RegSingle, FindSingle,
    Connect, Disconnect, Emit, Pause, Unpause, QueueTerm, Terminate, Mono, Wall, Post, Fail, Soft, Panic, Path, AbsPath,
    SetMode, SetField, SaveBranch, CloneSlot, AppendSlot, TextTrip, DiskTrip, AddSlot, CheckSlot, TopDown, Header, SelfCheck,
    BaseTrip, Lookup, AddSame, Chain, Churn, Orphan, Other,
}
pub fn kind_of(s: &str) -> Option<K> { KINDS.iter().find(|(_, n)| *n == s).map(|(k, _)| *k) }
pub fn name_of(k: K) -> &'static str { KINDS.iter().find(|(x, _)| *x == k).unwrap().1 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Op { pub k: K, pub a: [u64; 4] }
#[derive(Clone, PartialEq, Debug)]
pub struct Step { pub op: Op, pub trig: Vec<(u64, Op)> }

#[derive(Clone, PartialEq, Debug)]
pub struct Spec { pub class: u64, pub name: u64, pub tag: u64, pub mode: u64, pub num: i64, pub owner: bool, pub kids: Vec<Spec> }

#[derive(Clone, PartialEq, Debug)]
pub struct Program {
    pub prop: u32,
    pub seed: u64,       // of everything that is random while the program runs (entropy, crash outcomes)
    pub verbosity: u64,
    pub mono0: u64,
    pub wall0: i64,
    pub root_scene: bool, // start from scene 0, or from its root node alone
    pub scenes: Vec<Spec>,
    pub steps: Vec<Step>,
    pub blob: Vec<String>, // the storage simulations keep their own lines here
}

pub const NAMES: &[&str] = &["", "A", "B", "A1", "A2", "A9", "A10", "B1", "Node", "Node0", "Node1", "N99", "N100", "A09", "A00", "007", "7", "9", "42",
    "x y", "\u{e4}\u{df}1", "\u{7bc0}9", "\u{663}", "A\u{663}", "A1B2", "Z9Z9", "n_1", "n_", "_3", "A_0", "x18446744073709551615", "x18446744073709551616",
    "x99999999999999999999999", "x9223372036854775806", "a.b", "...", "-", "Aa1", "A1 ", "a[0]", "tab\tname", "Alpha", "Beta", "Alpha1"];
pub const NCLASS: u64 = 4;

impl Spec {
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(|k| k.count()).sum::<usize>() }
}

/* ---------------------------------------------------------------- text */

impl Program {
    pub fn to_text(&self) -> String {
        let mut s = format!("program v1\nprop P{:02}\nseed {}\nverbosity {}\nmono {}\nwall {}\nroot {}\n",
            self.prop, self.seed, self.verbosity, self.mono0, self.wall0, if self.root_scene { "scene" } else { "node" });
        for sc in &self.scenes {
            s += "scene\n";
            fn put(n: &Spec, d: usize, s: &mut String) {
                *s += &format!("{}node {} {} {} {} {} {}\n", "  ".repeat(d + 1), n.class, n.name, n.tag, n.mode, n.num, n.owner as u64);
                for k in &n.kids { put(k, d + 1, s); }
            }
            put(sc, 0, &mut s);
        }
        for st in &self.steps {
            s += &format!("step {}\n", op_text(&st.op));
            for (at, op) in &st.trig { s += &format!("  at {} {}\n", at, op_text(op)); }
        }
        for b in &self.blob { s += &format!("blob {b}\n"); }
        s
    }
    pub fn from_text(t: &str) -> Result<Program, String> {
        let mut p = Program { prop: 0, seed: 0, verbosity: 0, mono0: 0, wall0: 0, root_scene: true, scenes: vec![], steps: vec![], blob: vec![] };
        for line in t.lines() {
            let depth = (line.len() - line.trim_start().len()) / 2;
            let w: Vec<&str> = line.split_whitespace().collect();
            let num = |i: usize| -> Result<u64, String> { w.get(i).ok_or(format!("bad line: {line}"))?.parse::<u64>().map_err(|e| format!("{e}: {line}")) };
            match w.first().copied() {
                None | Some("program") => (),
                Some(x) if x.starts_with('#') => (),
                Some("prop") => p.prop = w.get(1).ok_or("prop")?[1..].parse().map_err(|e| format!("{e}"))?,
                Some("seed") => p.seed = num(1)?,
                Some("verbosity") => p.verbosity = num(1)?,
                Some("mono") => p.mono0 = num(1)?,
                Some("wall") => p.wall0 = w.get(1).ok_or("wall")?.parse().map_err(|e| format!("{e}"))?,
                Some("root") => p.root_scene = w.get(1) == Some(&"scene"),
                Some("scene") => p.scenes.push(Spec { class: 99, name: 0, tag: 0, mode: 0, num: 0, owner: true, kids: vec![] }),
                Some("node") => {
                    let n = Spec { class: num(1)?, name: num(2)?, tag: num(3)?, mode: num(4)?, num: w.get(5).ok_or("num")?.parse().map_err(|e| format!("{e}"))?, owner: num(6)? != 0, kids: vec![] };
                    let sc = p.scenes.last_mut().ok_or("node outside a scene")?;
                    if depth <= 1 { *sc = n; } else {
                        let mut at = sc;
                        for _ in 2..depth { at = at.kids.last_mut().ok_or("bad depth")?; }
                        at.kids.push(n);
                    }
                }
                Some("step") => p.steps.push(Step { op: op_parse(&w[1..])?, trig: vec![] }),
                Some("at") => { let at = num(1)?; p.steps.last_mut().ok_or("at outside a step")?.trig.push((at, op_parse(&w[2..])?)); }
                Some("blob") => p.blob.push(line[5..].to_string()),
                Some(x) => return Err(format!("unknown line: {x}"))
            }
        }
        Ok(p)
    }
}
fn op_text(o: &Op) -> String { format!("{} {} {} {} {}", name_of(o.k), o.a[0], o.a[1], o.a[2], o.a[3]) }
fn op_parse(w: &[&str]) -> Result<Op, String> {
    let k = kind_of(w.first().ok_or("no op")?).ok_or(format!("unknown op {}", w[0]))?;
    let mut a = [0; 4];
    for (i, x) in w.iter().skip(1).take(4).enumerate() { a[i] = x.parse().map_err(|e| format!("{e}"))?; }
    Ok(Op { k, a })
}

/* ---------------------------------------------------------------- generation */

/// Weights of the operations, how many steps there are, and so on, for each property.
#[derive(Clone)]
pub struct Profile {
    pub w: Vec<(K, u32)>,       // in callbacks and from the driver
    pub frames: u32,            // weight of a frame among the steps
    pub steps: (u64, u64),
    pub nodes: (u64, u64),      // per scene
    pub trig: (u64, u64),       // triggers per step
    pub deep: bool,
    pub panics: u32,
    pub modes: bool,
    pub verbosity_all: bool,
    pub churn: Option<u64>,
    pub fragile: bool,
    pub drops: u32,             // in twelve frames, how many have triggers of destructors
}

pub fn profile(prop: u32) -> Profile {
    use K::*;
    let mut w: Vec<(K, u32)> = vec![
        (AddNode, 10), (AddScene, 8), (Free, 12), (RemoveChild, 8), (RemoveMissing, 1), (Rename, 4), (TakePtr, 3), (CheckPtrs, 2), (UsePtr, 1),
        (RegSingle, 2), (FindSingle, 2), (Connect, 3), (Disconnect, 1), (Emit, 3), (Pause, 1), (Unpause, 2), (QueueTerm, 1), (Terminate, 0),
        (Mono, 2), (Wall, 1), (Post, 3), (Fail, 0), (Soft, 1), (Panic, 0), (Path, 2), (AbsPath, 1), (SetMode, 1), (SetField, 2), (SaveBranch, 2),
        (CloneSlot, 1), (AppendSlot, 1), (TextTrip, 1), (DiskTrip, 0), (AddSlot, 2), (CheckSlot, 1), (TopDown, 1), (Header, 0), (SelfCheck, 2), (Lookup, 1), (AddSame, 1), (Chain, 0), (Churn, 0), (Orphan, 0), (Frame, 0),
    ];
    let mut p = Profile { w: vec![], frames: 30, steps: (2, 10), nodes: (1, 8), trig: (0, 4), deep: false, panics: 0, modes: true, verbosity_all: false, fragile: matches!(prop, 17 | 21 | 22), drops: match prop { 22 => 4, 1 | 6 | 21 => 1, _ => 0 }, churn: match prop { 2 => Some(2), 3 => Some(3), 4 | 18 => Some(0), 13 => Some(1), _ => None } };
    let mut set = |w: &mut Vec<(K, u32)>, l: &[(K, u32)]| for (k, v) in l { w.iter_mut().find(|x| x.0 == *k).unwrap().1 = *v; };
    match prop {
        1 => set(&mut w, &[(TopDown, 6), (AddScene, 12), (Free, 14), (RemoveChild, 12), (Lookup, 4), (Panic, 1), (Churn, 1), (Orphan, 2)]),
        2 => { set(&mut w, &[(Rename, 30), (AddNode, 20), (AddScene, 12), (AddSlot, 6), (AddSame, 10), (SaveBranch, 5), (Churn, 2)]); p.frames = 8; p.steps = (4, 25); }
        3 => set(&mut w, &[(Path, 30), (AbsPath, 14), (Rename, 8), (Free, 10), (Lookup, 4), (Churn, 2)]),
        4 => set(&mut w, &[(TakePtr, 20), (CheckPtrs, 18), (AddNode, 16), (Free, 14), (RemoveChild, 8), (UsePtr, 2), (Soft, 4), (Churn, 3)]),
        5 => { set(&mut w, &[(AddScene, 25), (AddNode, 15), (AddSlot, 12), (SaveBranch, 6), (TextTrip, 8), (DiskTrip, 3), (Free, 14), (Panic, 1), (AddSame, 6)]); p.frames = 15; }
        6 => { set(&mut w, &[(Free, 30), (RemoveChild, 20), (AddNode, 8), (AddSlot, 5), (SaveBranch, 4), (TextTrip, 4), (QueueTerm, 4), (SelfCheck, 4), (Panic, 1)]); p.trig = (1, 5); }
        7 => { set(&mut w, &[(Free, 16), (RemoveChild, 10), (AddNode, 14), (Rename, 6), (Pause, 3), (Unpause, 4), (Terminate, 1), (QueueTerm, 2), (Frame, 2)]); p.frames = 50; p.trig = (1, 5); }
        8 => { set(&mut w, &[(SetMode, 25), (Pause, 14), (Unpause, 14), (QueueTerm, 2), (AddNode, 8), (Free, 6), (Frame, 2)]); p.frames = 60; p.deep = true; }
        9 => { set(&mut w, &[(Mono, 40), (Wall, 20), (Panic, 2), (Free, 4), (Frame, 2)]); p.frames = 60; p.panics = 3; p.steps = (4, 20); }
        10 => { set(&mut w, &[(QueueTerm, 14), (Terminate, 6), (Pause, 6), (Unpause, 6), (Post, 6), (Fail, 2), (Free, 8)]); p.frames = 60; p.steps = (3, 12); }
        11 => set(&mut w, &[(AddScene, 25), (AddSlot, 14), (AppendSlot, 10), (SaveBranch, 10), (TextTrip, 6), (DiskTrip, 3), (CloneSlot, 5), (Free, 8), (AddNode, 12), (AddSame, 6)]),
        12 => set(&mut w, &[(RegSingle, 40), (FindSingle, 30), (Free, 14), (Post, 8), (AddNode, 10), (RemoveChild, 8)]),
        13 => { set(&mut w, &[(Connect, 35), (Emit, 30), (Disconnect, 18), (Free, 8), (Panic, 1), (Churn, 2)]); p.trig = (0, 6); p.steps = (4, 18); p.frames = 10; }
        17 => { set(&mut w, &[(SaveBranch, 20), (CloneSlot, 15), (AppendSlot, 10), (AddSlot, 18), (SetField, 15), (CheckSlot, 20), (TextTrip, 5), (DiskTrip, 2), (AddScene, 10), (Connect, 6), (Emit, 5), (Free, 8), (AddSame, 6)]); p.frames = 10; p.steps = (4, 16); }
        18 => { set(&mut w, &[(Post, 45), (Wall, 10), (Mono, 10), (Rename, 8), (RegSingle, 6), (Free, 8), (RemoveChild, 4), (Header, 2), (Fail, 1), (Churn, 1)]); p.steps = (3, 14); }
        19 => { set(&mut w, &[(Post, 40), (Header, 5), (AddScene, 10), (Rename, 3), (Fail, 2), (Free, 6), (RegSingle, 2)]); p.deep = true; p.nodes = (3, 22); p.frames = 40; }
        20 => set(&mut w, &[(Fail, 20), (UsePtr, 15), (TakePtr, 18), (Soft, 30), (Free, 16), (RemoveChild, 6), (CheckPtrs, 6), (Post, 2), (Chain, 12)]),
        21 => { set(&mut w, &[(Panic, 20), (Free, 14), (RemoveChild, 12), (Emit, 14), (Connect, 14), (AddScene, 10), (Disconnect, 4), (Fail, 1), (Frame, 2)]); p.panics = 4; p.trig = (1, 5); p.steps = (3, 14); }
        22 => { set(&mut w, &[(Free, 35), (RemoveChild, 16), (SelfCheck, 14), (Emit, 10), (Connect, 12), (Panic, 1), (SaveBranch, 4), (CloneSlot, 3), (AddSlot, 4), (AddScene, 12), (Orphan, 3), (Frame, 2)]); p.trig = (1, 6); }
        24 => { set(&mut w, &[(Chain, 60), (Free, 8), (RemoveChild, 4), (AddNode, 8), (Soft, 2), (Fail, 1)]); p.frames = 8; p.steps = (6, 20); }
        27 => { set(&mut w, &[(Frame, 2), (RegSingle, 12), (Free, 12), (Connect, 8), (Emit, 8), (Pause, 6), (Unpause, 4), (QueueTerm, 3), (Terminate, 1), (Fail, 2), (Panic, 2), (Post, 6), (Rename, 4), (Mono, 6), (Header, 2)]); w.push((Other, 90)); p.panics = 1; p.trig = (1, 5); p.frames = 25; p.steps = (4, 14); }
        _ => ()
    }
    p.w = w;
    p
}

struct Gen { r: Rng, tag: u64, p: Profile, names: Vec<u64>, nscenes: u64, wild: bool }

impl Gen {
    fn name(&mut self) -> u64 { if self.r.chance(1, 3) { self.r.below(NAMES.len() as u64) } else { *self.r.pick(&self.names.clone()) } }
    fn mode(&mut self) -> u64 { if self.p.modes && self.r.chance(1, 3) { self.r.below(4) } else { 0 } }
    fn spec(&mut self, budget: &mut u64, depth: u64) -> Spec {
        *budget = budget.saturating_sub(1);
        self.tag += 1;
        let mut s = Spec { class: self.r.below(NCLASS), name: self.name(), tag: self.tag, mode: self.mode(), num: self.num(),
            owner: self.r.chance(1, 4), kids: vec![] };
        let kids = if self.p.deep && self.r.chance(2, 3) { 1 } else { self.r.below(4) };
        for _ in 0..kids {
            if *budget == 0 || depth > 24 { break; }
            let k = self.spec(budget, depth + 1);
            s.kids.push(k);
        }
        s
    }
    /// Which copy of a node is going to panic.
    fn fragile(&mut self) -> u64 { if self.p.fragile && self.r.chance(1, 5) { 1 + self.r.below(8) } else { 0 } }
    fn num(&mut self) -> i64 { match self.r.below(4) { 0 => self.r.next() as i64, 1 => -1, _ => self.r.below(100) as i64 } }
    /// Which node an operation is about: most often one close to the node whose callback is running.
    fn sel(&mut self, in_cb: bool) -> u64 {
        let m = if in_cb { self.r.weighted(&[6, 8, 4, 4, 2, 4, 2]) as u64 } else { [0, 0, 0, 4][self.r.below(4) as usize] };
        (self.r.below(64) << 4) | m
    }
    fn op(&mut self, in_cb: bool) -> Op {
        let w: Vec<u32> = self.p.w.iter().map(|x| x.1).collect();
        let mut k = self.p.w[self.r.weighted(&w)].0;
        if k == K::Panic && !in_cb { k = K::Emit; }
        // Trees would die out soon if as many nodes were removed from outside as from within.
        if matches!(k, K::Free | K::RemoveChild) && !in_cb && self.r.chance(1, 2) { k = K::AddScene; }
        let s = |g: &mut Gen| g.sel(in_cb);
        let r = |g: &mut Gen, n: u64| g.r.below(n);
        let a = match k {
            K::AddNode => [s(self), r(self, NCLASS), self.name(), { self.tag += 1; self.tag << 8 | self.mode() << 4 | r(self, 3) }],
            K::AddScene => [s(self), r(self, self.nscenes.max(1)), r(self, 3), r(self, 4)],
            K::AddSame => [s(self), s(self), r(self, 3), 0],
            K::Free => [s(self), if r(self, 8) == 0 { 2 } else { r(self, 2) }, 0, 0],
            K::RemoveChild => [s(self), r(self, 16), r(self, 3), 0],
            K::Frame => [match r(self, 3) { 0 => 0, 1 => r(self, 1_000_000), _ => r(self, 3_000_000_000) }, 0, 0, 0],
            K::RemoveMissing => [s(self), 0, 0, 0],
            K::Rename => [s(self), self.name(), r(self, 3), r(self, 8)],
            K::TakePtr => [s(self), s(self), r(self, 17), r(self, 64)],
            K::UsePtr => [r(self, 8), r(self, 4), r(self, 2), r(self, 2)],
            K::RegSingle => [s(self), r(self, 6), r(self, 2), 0],
            K::FindSingle => [s(self), r(self, 6), r(self, 2), 0],
            K::Connect => [s(self), s(self), r(self, 2), r(self, 8)],
            K::Disconnect => [r(self, 32), 0, 0, 0],
            K::Emit => [s(self), r(self, 2), r(self, 1000), (r(self, 3) == 0) as u64],
            K::Mono => [match r(self, 5) { 0 => 0, 1 => r(self, 1000), 2 => r(self, 1_000_000_000), 3 => r(self, 60_000_000_000), _ => if self.r.chance(1, 8) { r(self, 1_000_000_000_000_000_000) } else { r(self, 4_000_000_000_000) } }, 0, 0, 0],
            K::Wall => [r(self, 11_000_000_000), r(self, 1_000_000_000), r(self, 4), 0],
            // Equal warnings of several nodes of a crash report.
            K::Post if self.p.deep && self.p.w.iter().any(|x| x.0 == K::Post && x.1 >= 40) && self.r.chance(1, 3) => [s(self), 2, 8, 0],
            K::Post => [s(self), self.r.weighted(&[3, 3, 3, if self.p.w.iter().any(|x| x.0 == K::Post && x.1 >= 6) { 2 } else { 0 }]) as u64, r(self, 12) % 11, 0],
            K::Fail => [s(self), r(self, 17), { let x = r(self, 4); s(self) | (x & 1) << 12 | (x >> 1) << 13 }, 0],
            K::Soft => [s(self), r(self, 8), s(self), 0],
            K::Chain => [s(self), r(self, 1 << 40), r(self, 32), s(self)],
            K::Churn => { let kind = match self.p.churn { Some(k) => k, None => r(self, 4) };
                [s(self), kind, match r(self, 60) { 0 => 5000, 1 if !in_cb => 70000, x => 20 + x * 5 }, r(self, 1 << 30)] }
            K::Orphan => [r(self, 20), self.r.chance(1, 2) as u64, self.name(), r(self, 4)],
            K::Panic => [r(self, 3), 0, 0, 0],
            K::Path => [s(self), s(self), r(self, 1 << 16), r(self, 8)],
            K::AbsPath => [s(self), s(self), r(self, 4), 0],
            K::SetMode => [s(self), r(self, 4), 0, 0],
            K::SetField => [s(self), r(self, 1000), r(self, 5), 0],
            K::SaveBranch => [s(self), r(self, 8), self.fragile(), 0],
            K::CloneSlot => [r(self, 8), r(self, 7), self.fragile(), 0],
            K::TextTrip => [r(self, 8), self.fragile(), 0, 0],
            K::CheckSlot => [r(self, 8), 0, 0, 0],
            K::DiskTrip => [r(self, 8), r(self, 1 << 20), 0, 0],
            K::AppendSlot => [r(self, 8), r(self, 8), r(self, 2), r(self, 16)],
            K::AddSlot => [s(self), r(self, 8), r(self, 3), r(self, 2)],
            K::TopDown => [s(self), r(self, 2), 0, 0],
            K::Lookup => [s(self), s(self), r(self, 4), 0],
            K::Other => [r(self, 10), r(self, 12), r(self, 12), r(self, 2)],
            K::Header => [r(self, 2), r(self, 4), 0, 0],
            _ => [0; 4]
        };
        Op { k, a }
    }
}

pub fn generate(prop: u32, seed: u64) -> Program {
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0001).wrapping_add(prop as u64 * 0x9E37_79B9_7F4A));
    let mut p = profile(prop);
    // Every run has another mix: some operations are left out, others are made more likely.
    for x in p.w.iter_mut() {
        match r.below(6) { 0 => x.1 /= 4, 1 => x.1 *= 3, _ => () }
    }
    // Immediate ends, failures and panics are rare enough for most runs to get somewhere.
    if !r.chance(1, 3) { for x in p.w.iter_mut() { if matches!(x.0, K::Terminate) || (matches!(x.0, K::QueueTerm) && prop != 10 && prop != 6) { x.1 = 0; } } }
    if p.panics == 0 && !r.chance(1, 4) { for x in p.w.iter_mut() { if x.0 == K::Panic { x.1 = 0; } } }
    if r.chance(1, 6) { p.deep = !p.deep; }
    let size = r.below(4);
    let nnames = r.range(1, 5);
    let names: Vec<u64> = (0..nnames).map(|_| r.below(NAMES.len() as u64)).collect();
    let mut g = Gen { r, tag: 0, p, names, nscenes: 0, wild: false };
    g.wild = g.r.chance(1, 8);
    let mut scenes = vec![];
    for i in 0..g.r.range(1, 3) {
        let (lo, hi) = g.p.nodes;
        let mut budget = if i == 0 { g.r.range(lo + 1, hi + size * 2) } else { g.r.range(1, hi.min(7)) };
        scenes.push(g.spec(&mut budget, 0));
    }
    // Now and then a scene is very wide, or very deep.
    if g.r.chance(1, 120) {
        let n = g.r.range(20, 120);
        let deep = g.r.chance(1, 2);
        let mut left: Vec<Spec> = (0..n).map(|_| g.spec(&mut 1, 99)).collect();
        if deep {
            let mut at = left.pop().unwrap();
            while let Some(mut up) = left.pop() { up.kids = vec![at]; at = up; }
            left.push(at);
        }
        scenes[0].kids.extend(left);
    }
    g.nscenes = scenes.len() as u64;
    let root_scene = g.r.chance(7, 8);
    let verbosity = if g.p.verbosity_all || g.r.chance(1, 2) { 0 } else { g.r.below(4) };
    let mut steps = vec![];
    let n = g.r.range(g.p.steps.0, g.p.steps.1) * [1, 1, 2, 3][g.r.below(4) as usize];
    let size0 = scenes[0].count() as u64;
    // The creation of the tree is a step of its own, so that its callbacks can have triggers.
    for i in 0..n + 1 {
        let total: u32 = g.p.w.iter().map(|x| x.1).sum();
        let op = if i == 0 { Op { k: K::Nop, a: [0; 4] } }
            else if g.r.below(100) < g.p.frames as u64 || total == 0 {
                Op { k: K::Frame, a: [match g.r.below(4) { 0 => 0, 1 => g.r.below(1_000_000), 2 => 16_666_667, _ => g.r.below(3_000_000_000) }, 0, 0, 0] }
            } else { g.op(false) };
        let mut trig = vec![];
        let cb_heavy = matches!(op.k, K::Frame | K::Nop | K::AddScene | K::AddSlot | K::Free | K::RemoveChild | K::Emit | K::AddNode | K::AddSame);
        if cb_heavy && total > 0 {
            let (lo, hi) = g.p.trig;
            let (lo, hi) = if i == 0 { (0, hi / 2) } else { (lo, hi) };
            for _ in 0..g.r.range(lo, hi) {
                let span = if op.k == K::Frame || i == 0 { size0 + 6 } else { 6 };
                let at = g.r.below(span);
                trig.push((at, g.op(true)));
                // Several operations in the same callback.
                if g.r.chance(1, 4) { trig.push((at, g.op(true))); }
            }
            // And what nodes do when they are destroyed, as the frame starts.
            if op.k == K::Frame && g.r.chance(g.p.drops as u64, 12) {
                for _ in 0..g.r.range(1, 3) {
                    let o = g.op(false);
                    let fine = matches!(o.k, K::Free | K::RemoveChild | K::AddNode | K::AddScene | K::AddSame | K::Rename | K::TakePtr | K::CheckPtrs | K::RegSingle | K::FindSingle | K::Connect | K::Disconnect | K::Path | K::AbsPath | K::SetMode | K::SetField | K::SaveBranch | K::AddSlot | K::TopDown | K::Lookup | K::Pause | K::Unpause);
                    let o = if fine && (o.k != K::Free || o.a[1] != 2) { o } else { let s = g.sel(false); Op { k: K::Free, a: [s, 0, 0, 0] } };
                    trig.push((crate::real::AT_DROP + g.r.below(3), o));
                }
            }
            if g.p.panics > 0 && i > 0 && g.r.chance(g.p.panics as u64, 12) { let at = g.r.below(size0 + 4); trig.push((at, Op { k: K::Panic, a: [g.r.below(3), 0, 0, 0] })); }
        }
        steps.push(Step { op, trig });
    }
    // What happened last has its consequences in the next frames.
    for _ in 0..2 { steps.push(Step { op: Op { k: K::Frame, a: [1_000_000, 0, 0, 0] }, trig: vec![] }); }
    let seed2 = g.r.next();
    Program { prop, seed: seed2, verbosity, mono0: g.r.below(1 << 50), // A clock from before 1970 is for the check of the log alone.
        wall0: match g.r.below(4) { 0 if prop == 18 => -(g.r.below(600_000_000) as i64), 0 => g.r.below(600_000_000) as i64, 1 => g.r.below(9_000_000_000) as i64, _ => 1_700_000_000 + g.r.below(100_000_000) as i64 },
        root_scene, scenes, steps, blob: vec![] }
}
