//! The reference model: what the documentation and the properties say that a program has to do. It performs each step
//! after the library did, consumes the events that were recorded of it one by one, and reports every difference.
//! Where the properties leave a choice (the order of listeners, whether a node that is added during a frame is still
//! processed in it, ...) the model follows what was recorded as long as that is one of the choices.

use crate::classes::{greets, marks, NAMES_OF_CLASSES};
use crate::ev::{Ev, V};
use crate::prng::{fnv, FNV0};
use crate::prog::{name_of, Op, Program, Spec, K, NAMES};
use crate::real::{footer, header, message, name_at, single};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Mask = u32;
pub const fn p(n: u32) -> Mask { 1 << n }
pub const ALL: Mask = u32::MAX;
type Uid = usize;

pub enum Stop { Unwind(Un), Bad }
#[derive(Clone, Copy)]
pub enum Un { Sim(u64), Lib }
type R<T = ()> = Result<T, Stop>;

/// What is expected of a value.
#[derive(Clone, Debug)]
enum X { U(u64), I(i64), F(f64, f64), S(String), B(bool), N(Option<Uid>), L(Vec<X>), Any, Serial(Uid), Name(Uid), OneOf(Vec<X>) }

#[derive(Clone, Debug)]
struct Status { code: u64, msg: Option<String> } // no message: any

#[derive(Clone, Debug)]
struct Node {
    class: u64, name: String, wished: Option<String>, tag: u64, mode: u64, num: i64, deft: u64, plain: Option<u64>, uniq: Option<u64>,
    parent: Option<Uid>, kids: Vec<Uid>, owner: Uid, depth: u64, status: Status,
    in_tree: bool, was_in_tree: bool, exiting: bool, loaded: bool, singleton: Option<String>,
    rid: Option<u64>, serial: Option<u64>, running: u32, dropped: bool,
}
#[derive(Clone, Debug)]
struct Scene { uid: Uid, owner: bool, disk: bool, kids: Vec<Scene> }
#[derive(Clone, Debug)]
struct Conn { node: Uid, sig: u64, target: Option<Uid>, by_macro: bool, once: bool, rid: Option<u64>, connected: bool }
#[derive(Clone, Debug)]
struct Ptr { target: Uid, owner: Uid, typed: Option<u64> }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase { Process, Queued, Terminating, Terminated }

struct Report { lines: Vec<(usize, String, bool)>, warns: Vec<(String, Option<String>, bool)>, panics: Vec<(String, Option<String>, bool)>, header: String, footer: String, time: String, exact: bool }
struct Item { user: bool, admitted: bool, level: u64, ident: Option<String>, text: String, time: String, report: Option<Report>, mask: Mask }

pub struct Violation { pub mask: Mask, pub text: String }

#[derive(Default, Clone)]
pub struct Stats { pub callbacks: u64, pub frames: u64, pub added: u64, pub removed: u64, pub panics: u64, pub fails: u64, pub emits: u64, pub nested: u64,
    pub in_frame_changes: u64, pub stale: u64, pub reports: u64, pub log_items: u64, pub pauses: u64, pub trips: u64, pub in_drops: u64, pub inner_frames: u64, pub deepest: u64, pub most: u64 }

pub struct Model {
    prog: Program, n: Vec<Node>, root: Option<Uid>, phase: Phase, paused: bool,
    mono: i128, wall: i128, last_frame: (i128, i128),
    slots: Vec<Option<Scene>>, ptrs: Vec<Option<Ptr>>, conns: Vec<Conn>, posts: u64,
    items: Vec<Item>, header: String, footer: String, log: String,
    trace: Vec<Ev>, pos: usize, cb: u64, trig: Vec<(u64, Op)>, depth: u64,
    removed: Vec<Uid>, new: BTreeSet<Uid>, in_frame: bool, in_drop: bool,
    rids: HashMap<u64, Uid>, spent: Vec<(u64, u64)>, serials: HashMap<u64, Uid>, dead_serials: BTreeSet<u64>, hashes: BTreeMap<String, u64>,
    panicked: bool, step: usize, base: Mask,
    pub found: Vec<Violation>, pub states: Vec<u64>, pub trace_hash: u64, pub stats: Stats, pub over: bool, pub log_lines: Vec<String>, pub keep: bool,
    pub mono0: i128,
}

fn none() -> Status { Status { code: 0, msg: Some(String::new()) } }
pub fn time_text(ns: i128) -> String {
    let secs = ns.div_euclid(1_000_000_000) as i64;
    let (days, rest) = (secs.div_euclid(86400), secs.rem_euclid(86400));
    // Civil date from the days since 1970.
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    format!("{d:02}/{m:02}/{y:04} {:02}:{:02}:{:02}", rest / 3600, rest / 60 % 60, rest % 60)
}
pub fn plain_text(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() { if c.is_ascii_alphabetic() { break; } }
        } else { o.push(c); }
    }
    o
}
/// The name a node gets if it asks for one, given those of its siblings.
fn unique(name: &str, taken: &[String]) -> String {
    if !taken.iter().any(|t| t == name) { return name.to_string(); }
    let mut stem = name.trim_end_matches(|c: char| c.is_ascii_digit());
    let mut at = 0u128;
    while stem.len() < name.len() {
        let digits = &name[stem.len()..];
        match digits.parse::<usize>() {
            Ok(v) if v < usize::MAX / 2 && (digits.len() == 1 || !digits.starts_with('0')) => { at = v as u128; break; }
            _ => stem = &name[..stem.len() + 1],
        }
    }
    loop {
        at += 1;
        let n = format!("{stem}{at}");
        if !taken.contains(&n) { return n; }
    }
}
/// Whether a name is one that a node may be given instead of a taken one: what comes before its number, and a number.
pub fn derived(name: &str, from: &str) -> bool {
    let stem = from.trim_end_matches(|c: char| c.is_ascii_digit());
    match name.strip_prefix(stem) {
        Some(d) => !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()),
        None => false
    }
}

impl Model {
    pub fn new(prog: &Program) -> Model {
        Model {
            prog: prog.clone(), n: vec![], root: None, phase: Phase::Process, paused: false,
            mono: prog.mono0 as i128, wall: prog.wall0 as i128 * 1_000_000_000 + 500_000_000, last_frame: (0, 0),
            slots: vec![None; 8], ptrs: vec![None; 8], conns: vec![], posts: 0, items: vec![],
            header: "Unfortunately the program has crashed.".into(), footer: "Goodbye World! (Program Exited)".into(), log: String::new(),
            trace: vec![], pos: 0, cb: 0, trig: vec![], depth: 0, removed: vec![], new: BTreeSet::new(), in_frame: false, in_drop: false,
            rids: HashMap::new(), spent: vec![], serials: HashMap::new(), dead_serials: BTreeSet::new(), hashes: BTreeMap::new(), panicked: false, step: 0, base: 0,
            found: vec![], states: vec![], trace_hash: FNV0, stats: Stats::default(), over: false, log_lines: vec![], keep: false, mono0: prog.mono0 as i128,
        }
    }
    pub fn simulated_ns(&self) -> i128 { self.mono - self.mono0 }

    /* ------------------------------------------------------------ events */

    fn bad(&mut self, mask: Mask, text: String) {
        let extra = if self.panicked { p(21) } else { 0 };
        if self.found.len() < 40 { self.found.push(Violation { mask: mask | extra, text: format!("step {} ({}): {text}", self.step, self.prog.steps.get(self.step).map(|s| name_of(s.op.k)).unwrap_or("?")) }); }
    }
    fn fatal<T>(&mut self, mask: Mask, text: String) -> R<T> { self.bad(mask, text); Err(Stop::Bad) }
    fn peek(&mut self) -> Option<&Ev> {
        while self.pos < self.trace.len() && (self.trace[self.pos].k == "drop" || self.trace[self.pos].k == "freed") {
            let freed = self.trace[self.pos].k == "freed";
            if let V::U(s) = self.trace[self.pos].f[0] { if freed { self.bad(p(22) | p(13) | p(21), format!("what listener {s} owns was released while it was running")) } else { self.dropped(s) } }
            self.pos += 1;
        }
        self.trace.get(self.pos)
    }
    fn dropped(&mut self, serial: u64) {
        if !self.dead_serials.insert(serial) { self.bad(p(22) | p(21), "a node was destroyed twice".into()); }
        let Some(&u) = self.serials.get(&serial) else { return };
        self.n[u].dropped = true;
        let n = &self.n[u];
        let what = format!("node {u} \"{}\"", n.name);
        if n.in_tree { self.bad(p(22) | p(1) | p(21), format!("{what} was destroyed while it is in the tree")); }
        else if n.running > 0 { self.bad(p(22) | p(21), format!("{what} was destroyed while one of its functions is running")); }
        else if !n.was_in_tree { self.bad(p(22) | p(17), format!("{what} was destroyed although it is part of a scene, not of the tree")); }
    }
    fn kind_mask(k: &Ev) -> Mask {
        match (k.k, k.f.first()) {
            ("cb", Some(V::S(s))) => match s.as_str() {
                "process" => p(7) | p(8) | p(10) | p(6),
                "ready" | "loaded" => p(5),
                "terminal" => p(6) | p(10),
                _ => p(13),
            },
            ("caught", Some(V::S(_))) => ALL,
            ("op", _) | ("end", _) | ("done", _) | ("ret", _) | ("tree", _) => 0,
            _ => 0
        }
    }
    /// Takes the next event, which has to be of the given kind.
    fn take(&mut self, k: &'static str, mask: Mask, what: impl Fn() -> String) -> R<Ev> {
        match self.peek().cloned() {
            Some(e) if e.k == k => { self.pos += 1; Ok(e) }
            // Nodes are destroyed by the start of the next frame at the latest. That this one, whose destructor acts on the
            // tree, was destroyed any earlier is fine, but what that means for what follows is not specified.
            Some(Ev { k: "dropping", .. }) => Err(Stop::Bad),
            Some(e) => { let m = mask | Self::kind_mask(&e) | self.base; self.fatal(m, format!("expected {}, but got: {}", what(), e.show())) }
            None => { let m = mask | self.base; self.fatal(m, format!("expected {}, but nothing happened", what())) }
        }
    }
    fn same(&mut self, v: &V, x: &X) -> bool {
        match (v, x) {
            (_, X::Any) => true,
            (V::U(a), X::U(b)) => a == b,
            (V::I(a), X::I(b)) => a == b,
            (V::F(a), X::F(lo, hi)) => { let a = *a as f64; let tol = 1e-9 + hi.abs() * 1e-6; a.is_finite() && a >= lo - tol && a <= hi + tol }
            (V::S(a), X::S(b)) => a == b,
            (V::B(a), X::B(b)) => a == b,
            (V::N(None), X::N(None)) => true,
            (V::N(Some(r)), X::N(Some(u))) => self.bind(*r, *u),
            (V::L(a), X::L(b)) => a.len() == b.len() && a.iter().zip(b).fold(true, |ok, (v, x)| self.same(v, x) && ok),
            (V::U(s), X::Serial(u)) => {
                if let Some(&o) = self.serials.get(s) { return o == *u; }
                if self.n[*u].serial.is_some() || self.dead_serials.contains(s) { return false; }
                self.n[*u].serial = Some(*s);
                self.serials.insert(*s, *u);
                true
            }
            (V::S(a), X::Name(u)) => {
                if self.n[*u].name == *a { return true; }
                // Another number would be fine as well.
                let (Some(wish), Some(par)) = (self.n[*u].wished.clone(), self.n[*u].parent) else { return false };
                let taken = self.n[par].kids.iter().any(|k| *k != *u && self.n[*k].name == *a);
                if !taken && wish != *a && derived(a, &wish) { self.n[*u].name = a.clone(); return true; }
                false
            }
            (v, X::OneOf(l)) => l.clone().iter().any(|x| self.same(v, x)),
            _ => false
        }
    }
    fn bind(&mut self, rid: u64, u: Uid) -> bool {
        match (self.n[u].rid, self.rids.get(&rid)) {
            (Some(r), _) => r == rid,
            (None, Some(_)) => false,
            (None, None) if self.spent.iter().any(|s| s.0 <= rid && rid <= s.1) => false,
            (None, None) => { self.n[u].rid = Some(rid); self.rids.insert(rid, u); true }
        }
    }
    fn want(&mut self, k: &'static str, mask: Mask, what: &str, f: Vec<(Mask, &str, X)>) -> R {
        let e = self.take(k, mask, || what.to_string())?;
        self.compare(&e, what, mask, f)
    }
    fn compare(&mut self, e: &Ev, what: &str, mask: Mask, f: Vec<(Mask, &str, X)>) -> R {
        if e.f.len() != f.len() { return self.fatal(mask | self.base | ALL * (e.k == "caught") as u32, format!("{what}: {} values instead of {}: {}", e.f.len(), f.len(), e.show())); }
        for (v, (m, name, x)) in e.f.iter().zip(f.into_iter()) {
            if !self.same(v, &x) {
                let exp = self.show(&x);
                let got = Ev { k: "", f: vec![v.clone()] }.show();
                self.bad(if m == 0 { mask } else { m } | self.base, format!("{what}: {name} is{got} instead of {exp}"));
            }
        }
        Ok(())
    }
    fn show(&self, x: &X) -> String {
        match x {
            X::U(a) => format!("{a}"), X::I(a) => format!("{a}"), X::S(a) => format!("{a:?}"), X::B(a) => (if *a { "yes" } else { "no" }).into(),
            X::F(a, b) => if a == b { format!("{a}") } else { format!("{a}..{b}") },
            X::N(None) => "@-".into(), X::N(Some(u)) => self.id(*u), X::L(l) => format!("[{}]", l.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(" ")),
            X::Any => "anything".into(), X::Serial(u) => format!("{:?}", self.n[*u].serial), X::Name(u) => format!("{:?}", self.n[*u].name),
            X::OneOf(l) => l.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(" or ")
        }
    }
    fn id(&self, u: Uid) -> String { match self.n[u].rid { Some(r) => format!("@{r}"), None => format!("@new({})", self.n[u].name) } }
    fn hint(&mut self) -> Option<(String, Option<Uid>, u64)> {
        let e = self.peek()?.clone();
        if e.k != "cb" { return None; }
        let V::S(kind) = &e.f[0] else { return None };
        let conn = if let V::L(l) = &e.f[1] { if let V::U(c) = l[0] { c } else { 0 } } else { 0 };
        let u = match e.f.get(2) { Some(V::N(Some(r))) => self.rids.get(r).copied(), _ => None };
        // A node that was not seen before can only be recognised by its identity later on.
        Some((kind.clone(), u, conn))
    }

    /* ------------------------------------------------------------ the tree */

    fn add(&mut self, node: Node) -> Uid { self.n.push(node); self.n.len() - 1 }
    fn fresh(&mut self, class: u64, name: &str, tag: u64, mode: u64, num: i64) -> Uid {
        self.add(Node { class: class % 4, name: name.to_string(), wished: None, tag, mode, num, deft: 0, plain: Some(7), uniq: Some(5), parent: None, kids: vec![], owner: 0, depth: 0,
            status: none(), in_tree: false, was_in_tree: false, exiting: false, loaded: false, singleton: None, rid: None, serial: None, running: 0, dropped: false })
    }
    fn named(class: u64, name: u64) -> &'static str { match NAMES[name as usize % NAMES.len()] { "" => NAMES_OF_CLASSES[class as usize % 4], n => n } }
    fn build(&mut self, sp: &Spec) -> Scene {
        let uid = self.fresh(sp.class, Self::named(sp.class, sp.name), sp.tag, sp.mode, sp.num);
        let mut kids = vec![];
        for k in &sp.kids { kids.push(self.build(k)); }
        Scene { uid, owner: sp.owner, disk: false, kids }
    }
    fn clone_node(&mut self, u: Uid) -> Uid {
        let o = self.n[u].clone();
        let c = self.fresh(o.class, &o.name, o.tag, o.mode, o.num);
        self.n[c].deft = o.deft;
        self.n[c].plain = o.plain;
        self.n[c].uniq = None;
        c
    }
    fn clone_scene(&mut self, s: &Scene) -> Scene {
        let uid = self.clone_node(s.uid);
        let kids = s.kids.iter().map(|k| self.clone_scene(k)).collect();
        Scene { uid, owner: s.owner, disk: s.disk, kids }
    }
    fn reload(&mut self, s: &Scene) -> Scene {
        let o = self.n[s.uid].clone();
        let uid = self.fresh(o.class, &o.name, 0, 0, o.num);
        self.n[uid].plain = None;
        self.n[uid].uniq = None;
        let kids = s.kids.iter().map(|k| self.reload(k)).collect();
        Scene { uid, owner: s.owner, disk: true, kids }
    }
    fn save(&mut self, u: Uid) -> Scene {
        let uid = self.clone_node(u);
        let mut kids = vec![];
        for k in self.n[u].kids.clone() {
            let mut s = self.save(k);
            s.owner = self.n[k].owner == k;
            kids.push(s);
        }
        Scene { uid, owner: true, disk: false, kids }
    }
    fn size(s: &Scene) -> usize { 1 + s.kids.iter().map(Self::size).sum::<usize>() }
    fn size_of(&self, u: Uid) -> usize { 1 + self.n[u].kids.iter().map(|&k| self.size_of(k)).sum::<usize>() }
    fn bfs_of(&self, u: Uid) -> Vec<Uid> {
        let mut v = vec![u];
        let mut i = 0;
        while i < v.len() { v.extend(self.n[v[i]].kids.iter()); i += 1; }
        v
    }
    fn bfs(&self) -> Vec<Uid> { self.root.map(|r| self.bfs_of(r)).unwrap_or_default() }
    fn pre(&self, u: Uid, d: u64, out: &mut Vec<(Uid, u64)>) { out.push((u, d)); for &k in &self.n[u].kids { self.pre(k, d + 1, out); } }
    fn below(&self, u: Uid, top: Uid) -> bool { let mut a = Some(u); while let Some(x) = a { if x == top { return true; } a = self.n[x].parent; } false }
    fn path(&self, u: Uid) -> String {
        let mut s = self.n[u].name.clone();
        let mut a = self.n[u].parent;
        while let Some(x) = a { s = format!("{}/{s}", self.n[x].name); a = self.n[x].parent; }
        s
    }
    fn ident(&self, u: Uid) -> Option<String> {
        if !self.n[u].in_tree { return None; }
        Some(match &self.n[u].singleton { Some(s) => s.clone(), None => format!("[{}]", self.path(u)) })
    }
    fn pick(&self, sel: u64, me: Option<Uid>) -> Option<Uid> {
        let (mode, idx) = (sel & 15, (sel >> 4) as usize);
        let all = self.bfs();
        if all.is_empty() { return None; }
        let any = Some(all[idx % all.len()]);
        let me = me.filter(|m| self.n[*m].in_tree);
        let near = |u: Uid| { let k = &self.n[u].kids; if k.is_empty() { u } else { k[idx % k.len()] } };
        let parent = |u: Uid| self.n[u].parent.unwrap_or(u);
        match (mode, me) {
            (4, _) => all.last().copied(),
            (0, _) | (6.., _) | (_, None) => any,
            (1, Some(m)) => Some(m),
            (2, Some(m)) => Some(parent(m)),
            (3, Some(m)) => Some(near(m)),
            (5, Some(m)) => Some(near(parent(m))),
        }
    }
    fn look(&self, u: Uid, extra: Mask) -> Vec<(Mask, &'static str, X)> {
        let n = &self.n[u];
        let mut f = vec![(p(1) | p(4) | extra, "the node", X::N(Some(u))), (p(1) | p(4) | p(22) | extra, "the identity", X::Serial(u)), (p(1) | extra, "whether it is in the tree", X::B(n.in_tree))];
        if n.in_tree {
            f.extend([(p(1) | extra, "the parent", X::N(n.parent)), (p(11) | (extra & p(6)), "the owner", X::N(Some(n.owner))),
                (p(1) | extra, "the list of children", X::L(n.kids.iter().map(|&k| X::N(Some(k))).collect())), (p(1) | extra, "the depth", X::U(n.depth)),
                (p(2), "the name", X::Name(u)), (p(1) | p(4), "whether its ID resolves to itself", X::B(true))]);
        }
        f
    }
    fn attach(&mut self, parent: Option<Uid>, s: Scene, root: bool, batch: &mut Vec<Uid>) {
        let u = s.uid;
        self.stats.added += 1;
        let owner = match parent { None => u, Some(par) => if s.owner { u } else { self.n[par].owner } };
        let (depth, name, wished) = match parent {
            None => (0, self.n[u].name.clone(), None),
            Some(par) => {
                let taken: Vec<String> = self.n[par].kids.iter().map(|&k| self.n[k].name.clone()).collect();
                let wish = self.n[u].name.clone();
                let name = unique(&wish, &taken);
                (self.n[par].depth + 1, name.clone(), if name != wish { Some(wish) } else { None })
            }
        };
        let n = &mut self.n[u];
        n.parent = parent;
        n.owner = owner;
        n.depth = depth;
        n.name = name;
        n.wished = wished;
        n.in_tree = true;
        n.was_in_tree = true;
        n.loaded = s.disk;
        if root { self.root = Some(u); }
        if let Some(par) = parent { self.n[par].kids.push(u); }
        self.stats.deepest = self.stats.deepest.max(depth);
        if self.in_frame { self.new.insert(u); self.stats.in_frame_changes += 1; }
        batch.push(u);
        for k in s.kids { self.attach(Some(u), k, false, batch); }
    }
    fn add_child(&mut self, parent: Uid, s: Scene) -> R {
        let mut batch = vec![];
        self.attach(Some(parent), s, false, &mut batch);
        self.ready(batch)
    }
    fn ready(&mut self, batch: Vec<Uid>) -> R {
        let mut left = batch;
        loop {
            left.retain(|&u| self.n[u].in_tree);
            let Some(mut u) = left.last().copied() else { return Ok(()) };
            if let Some((k, Some(h), _)) = self.hint() {
                if (k == "ready" || k == "loaded") && left.contains(&h) && !left.iter().any(|&x| x != h && self.below(x, h)) { u = h; }
            }
            left.retain(|&x| x != u);
            if self.n[u].loaded {
                self.n[u].loaded = false;
                self.callback(u, "loaded", X::Any, p(5))?;
            }
            if self.n[u].in_tree { self.callback(u, "ready", X::Any, p(5))?; }
        }
    }
    fn callback(&mut self, u: Uid, kind: &str, extra: X, mask: Mask) -> R {
        self.stats.callbacks += 1;
        let what = format!("{kind}() of node {} \"{}\"", self.id(u), self.n[u].name);
        let e = self.take("cb", mask, || what.clone())?;
        let wrong = match (&e.f[0], e.f.get(2)) {
            (V::S(k), Some(V::N(Some(r)))) => k != kind || match (self.n[u].rid, self.rids.get(r)) { (Some(x), _) => x != *r, (None, o) => o.is_some() },
            _ => true
        };
        if wrong { let m = mask | Self::kind_mask(&e) | self.base; return self.fatal(m, format!("expected {what}, but got: {}", e.show())); }
        let mut f = vec![(mask, "the callback", X::S(kind.to_string())), (mask | if kind == "process" { p(9) } else { 0 }, "the argument", extra)];
        f.extend(self.look(u, mask & (p(5) | p(6))));
        self.compare(&e, &what, mask, f)?;
        self.n[u].running += 1;
        let r = self.during(Some(u));
        self.n[u].running -= 1;
        r
    }
    /// What happens while a callback is running.
    fn during(&mut self, me: Option<Uid>) -> R {
        let at = self.cb;
        self.cb += 1;
        self.depth += 1;
        if self.depth > 1 { self.stats.nested += 1; }
        let r = (|| {
            let ops: Vec<Op> = if self.in_drop { vec![] } else { self.trig.iter().filter(|t| t.0 == at).map(|t| t.1).collect() };
            for op in ops {
                self.exec(&op, me)?;
                self.shape()?;
            }
            self.want("end", 0, "the end of the callback", vec![])
        })();
        self.depth -= 1;
        r
    }
    fn shape(&mut self) -> R {
        let mut l = vec![];
        if let Some(r) = self.root { self.pre(r, 0, &mut l); }
        self.stats.most = self.stats.most.max(l.len() as u64);
        let x = X::L(l.iter().map(|&(u, d)| X::L(vec![X::N(Some(u)), X::U(d)])).collect());
        let before = self.found.len();
        self.want("tree", p(1), "the tree", vec![(p(1) | p(21) * self.panicked as u32, "the list of nodes with their depths", x)])?;
        if self.found.len() > before { return Err(Stop::Bad); }
        Ok(())
    }
    fn remove_branch(&mut self, top: Uid, reason: &str) -> R {
        while self.n[top].in_tree {
            let left: Vec<Uid> = self.bfs_of(top).into_iter().filter(|&u| !self.n[u].exiting).collect();
            let Some(mut u) = left.first().copied() else { break };
            if let Some((k, Some(h), _)) = self.hint() {
                if k == "terminal" && left.contains(&h) && !left.iter().any(|&x| x != h && self.below(h, x)) { u = h; }
            }
            self.n[u].exiting = true;
            self.callback(u, "terminal", X::S(reason.into()), p(6))?;
        }
        if !self.n[top].in_tree { return Ok(()); }
        if let Some(par) = self.n[top].parent { self.n[par].kids.retain(|&k| k != top); }
        if self.root == Some(top) { self.root = None; }
        for u in self.bfs_of(top) {
            let n = &mut self.n[u];
            n.in_tree = false;
            n.parent = None;
            n.singleton = None;
            self.removed.push(u);
            self.stats.removed += 1;
            if self.in_frame { self.stats.in_frame_changes += 1; }
        }
        // Their lists of children no longer matter, but those who hold on to them keep seeing the same.
        Ok(())
    }
    fn free(&mut self, u: Uid) -> R {
        let root = self.root == Some(u);
        self.remove_branch(u, "Freed")?;
        if root { self.phase = Phase::Terminated; }
        Ok(())
    }

    /* ------------------------------------------------------------ frames */

    fn mode(&self, u: Uid) -> u64 {
        let mut a = Some(u);
        while let Some(x) = a { if self.n[x].mode != 0 { return self.n[x].mode; } a = self.n[x].parent; }
        2
    }
    fn eligible(&self, mode: u64) -> bool { mode == 1 || mode == if self.paused { 3 } else { 2 } }
    fn visit(&mut self, u: Uid, inherited: u64, delta: &X) -> R {
        if !self.n[u].in_tree || self.phase == Phase::Terminated { return Ok(()); }
        let mode = if self.n[u].mode != 0 { self.n[u].mode } else { inherited };
        let next = |m: &mut Self, k: &str| matches!(m.hint(), Some((x, Some(h), _)) if x == k && h == u);
        match self.phase {
            Phase::Terminating => {
                if !self.n[u].exiting && (!self.new.contains(&u) || next(self, "terminal")) {
                    self.n[u].exiting = true;
                    self.callback(u, "terminal", X::S("TreeExit".into()), p(6) | p(10))?;
                }
            }
            _ => {
                let (a, b) = (self.eligible(mode), self.eligible(self.mode(u)));
                let go = if a != b || (a && self.new.contains(&u)) { next(self, "process") } else { a };
                if go { self.callback(u, "process", delta.clone(), p(7) | p(8) | if self.phase == Phase::Queued { p(10) } else { 0 })?; }
                else if next(self, "process") { return self.fatal(p(8), format!("process() of node {} \"{}\" although its mode does not allow for it", self.id(u), self.n[u].name)); }
            }
        }
        let mut seen = BTreeSet::new();
        while self.n[u].in_tree && self.phase != Phase::Terminated {
            let Some(k) = self.n[u].kids.iter().copied().find(|k| !seen.contains(k)) else { break };
            seen.insert(k);
            self.visit(k, mode, delta)?;
        }
        Ok(())
    }
    fn frame(&mut self) -> R {
        self.stats.frames += 1;
        let nested = self.in_frame;
        if nested { self.stats.inner_frames += 1; }
        // What is removed in a frame may still be running until that frame is over.
        let due = if nested { vec![] } else { std::mem::take(&mut self.removed) };
        let mut acted = false;
        while let (false, Some(Ev { k: "dropping", f })) = (nested, self.peek().cloned()) {
            let V::U(k) = f[0] else { break };
            self.pos += 1;
            self.in_drop = true;
            self.base |= p(22);
            let ops: Vec<Op> = self.trig.iter().filter(|t| t.0 == crate::real::AT_DROP + k).map(|t| t.1).collect();
            for op in ops { self.exec(&op, None)?; self.shape()?; }
            self.in_drop = false;
            self.stats.in_drops += 1;
            self.want("gone", 0, "the end of the destruction", vec![])?;
            acted = true;
        }
        for u in due {
            if self.n[u].serial.is_some() && !self.n[u].dropped { self.bad(p(22), format!("node {} \"{}\" was removed, but it was not destroyed by the start of the next frame", self.id(u), self.n[u].name)); }
        }
        // Whether those destructors ran before the (empty) frame or after it cannot be told, and either is fine.
        if acted && matches!(self.peek(), Some(Ev { k: "ret", .. })) { return Err(Stop::Bad); }
        if self.phase != Phase::Terminated {
            let (lo, hi) = ((self.mono - self.last_frame.1) as f64 / 1e9, (self.mono - self.last_frame.0) as f64 / 1e9);
            self.last_frame = (self.mono, self.mono);
            for u in self.bfs() { self.n[u].status = none(); }
            let outer = std::mem::take(&mut self.new);
            self.in_frame = true;
            let r = match self.root { Some(r) => self.visit(r, 2, &X::F(lo, hi)), None => Ok(()) };
            self.in_frame = nested;
            if nested { self.new.extend(outer); }
            r?;
            // Which nodes are told about the end of the tree by which of the two frames is not specified.
            if nested && self.phase == Phase::Queued { return Err(Stop::Bad); }
            match self.phase { Phase::Queued => self.phase = Phase::Terminating, Phase::Terminating => self.phase = Phase::Terminated, _ => () }
        }
        let st = match (self.phase, self.paused) {
            (Phase::Process, false) => "running", (Phase::Process, true) => "paused", (Phase::Queued, false) => "queued", (Phase::Queued, true) => "queued paused",
            (Phase::Terminating, _) => "terminating", (Phase::Terminated, _) => "terminated"
        };
        let over = self.phase == Phase::Terminated;
        self.want("ret", p(10) | p(7) | p(8), "the end of the frame", vec![(p(10) | p(20), "the status", X::S(st.into())), (p(10), "whether the tree is active", X::B(!over)), (p(10), "whether the tree has terminated", X::B(over))])
    }

    /* ------------------------------------------------------------ signals */

    fn emit(&mut self, u: Uid, sig: u64, v: u64) -> R {
        self.stats.emits += 1;
        let mut left: Vec<usize> = (0..self.conns.len()).filter(|&c| self.conns[c].connected && self.conns[c].node == u && self.conns[c].sig == sig).collect();
        loop {
            left.retain(|&c| self.conns[c].connected);
            let Some(mut c) = left.first().copied() else { return Ok(()) };
            let alive = |m: &Self, c: usize| m.conns[c].target.map(|t| m.n[t].in_tree).unwrap_or(true);
            let h = self.hint();
            let hinted = match &h {
                Some((k, who, id)) if k == "heard" && *id >= u64::MAX - 1 => left.iter().copied().find(|&c| self.conns[c].by_macro && self.conns[c].once == (*id != u64::MAX) && self.conns[c].target.is_some() && self.conns[c].target == *who),
                Some((k, _, id)) if k == "heard" || k == "bare" => left.iter().copied().find(|&c| c as u64 == *id),
                _ => None
            };
            match hinted {
                Some(x) => c = x,
                None => if let Some(x) = left.iter().copied().find(|&c| !alive(self, c)) { c = x; }
            }
            // Which of several listeners without a target failed, and so whether one for a single time is used up now,
            // cannot be told from outside. As their order is not specified, the run ends here.
            let dead: Vec<usize> = left.iter().copied().filter(|&c| !alive(self, c)).collect();
            if !alive(self, c) && dead.len() > 1 && dead.iter().any(|&c| self.conns[c].once) { return Err(Stop::Bad); }
            left.retain(|&x| x != c);
            let conn = self.conns[c].clone();
            if conn.once { self.conns[c].connected = false; }
            let id = if conn.by_macro { u64::MAX - conn.once as u64 } else { c as u64 };
            let arg = X::L(vec![X::U(id), X::U(v)]);
            match conn.target {
                None => {
                    let e = self.take("cb", p(13), || format!("listener {c} to be called"))?;
                    if e.f.len() != 2 || e.f[0] != V::S("bare".into()) { let m = p(13) | Self::kind_mask(&e); return self.fatal(m, format!("expected listener {c} to be called, but got: {}", e.show())); }
                    if !self.same(&e.f[1], &arg) { return self.fatal(p(13), format!("a listener was called wrongly: {}, expected {}", e.show(), self.show(&arg))); }
                    self.stats.callbacks += 1;
                    self.during(None)?;
                }
                Some(t) if alive(self, c) => self.callback(t, "heard", arg, p(13))?,
                Some(_) => { self.stats.stale += 1; return self.fail(conn.node); }
            }
        }
    }

    /* ------------------------------------------------------------ logging */

    fn admitted(&self, level: u64) -> bool { level >= self.prog.verbosity.min(3) }
    fn report(&self, u: Uid) -> Report {
        let time = time_text(self.wall);
        let mut r = Report { lines: vec![], warns: vec![], panics: vec![], header: self.header.clone(), footer: self.footer.clone(), time, exact: self.n[u].in_tree };
        let Some(origin) = (if self.n[u].in_tree { Some(u) } else { self.root }) else { return r };
        let mut start = origin;
        for _ in 0..6 { if let Some(x) = self.n[start].parent { start = x; } }
        let limit = self.n[origin].depth - self.n[start].depth + 6;
        let mut l = vec![];
        self.pre(start, 0, &mut l);
        for (x, d) in l {
            let n = &self.n[x];
            let must = d <= limit;
            r.lines.push((d as usize, n.name.clone(), must));
            let e = (n.name.clone(), n.status.msg.clone(), must);
            match n.status.code { 1 => r.warns.push(e), 2 => r.panics.push(e), _ => () }
        }
        r
    }
    fn post(&mut self, u: Uid, level: u64, text: Option<String>, mask: Mask) {
        if self.n[u].in_tree && level >= 2 { self.n[u].status = Status { code: level - 1, msg: text.clone() }; }
        let admitted = self.admitted(level);
        let report = if level == 3 { self.stats.reports += 1; Some(self.report(u)) } else { None };
        self.items.push(Item { user: text.is_some(), admitted, level, ident: self.ident(u), text: text.unwrap_or_default(), time: time_text(self.wall), report, mask });
        self.stats.log_items += 1;
        if level == 3 { self.phase = Phase::Terminated; }
    }
    fn fail<T>(&mut self, owner: Uid) -> R<T> {
        self.stats.fails += 1;
        if !self.n[owner].in_tree { self.stats.stale += 1; }
        self.post(owner, 3, None, p(20) | p(18));
        Err(Stop::Unwind(Un::Lib))
    }
    fn check_log(&mut self, e: &Ev) {
        let (V::S(new), V::U(len), V::U(hash), V::S(out)) = (&e.f[0], &e.f[1], &e.f[2], &e.f[3]) else { return };
        let items = std::mem::take(&mut self.items);
        if *hash != fnv(FNV0, self.log.as_bytes()) || *len != (self.log.len() + new.len()) as u64 { self.bad(p(18), "what was in the log before was changed or lost".into()); return; }
        self.log += new;
        let levels = ["DEBUG", "INFO", "WARN", "PANIC!"];
        let mut rest: &str = new;
        let mut it = items.iter().filter(|i| i.admitted).peekable();
        while !rest.is_empty() || it.peek().is_some() {
            let line = it.peek().filter(|i| i.user).map(|i| format!("<{} UTC> | {} | {} | {}\n", i.time, i.ident.clone().unwrap_or_default(), levels[i.level as usize], i.text));
            if let Some(l) = line.as_ref().filter(|l| rest.starts_with(l.as_str())) {
                rest = &rest[l.len()..];
                let i = it.next().unwrap();
                if let Some(r) = &i.report { match self.check_report(rest, r) { Some(x) => rest = x, None => return } }
                continue;
            }
            // Lines of the library itself: only warnings and panics have to be accounted for.
            let end = rest.find('\n').map(|x| x + 1).unwrap_or(rest.len());
            let parts: Vec<&str> = rest[..end].trim_end_matches('\n').splitn(4, " | ").collect();
            let own = parts.len() == 4 && parts[0].starts_with('<') && parts[0].ends_with(" UTC>");

            let shown = rest.chars().take(200).collect::<String>();
            let expected = it.peek().map(|i| if i.user { line.clone().unwrap_or_default() } else { format!("a {} line of the library", levels[i.level as usize]) });
            let mask = p(18) | it.peek().map(|i| i.mask).unwrap_or(p(20));
            if own && (parts[2] == "DEBUG" || parts[2] == "INFO") && !has_token(parts[3]) {
                if !self.admitted((parts[2] == "INFO") as u64) { self.bad(p(18), format!("a line below the verbosity is in the log: {shown:?}")); return; }
                rest = &rest[end..];
            } else if own && it.peek().map(|i| !i.user && levels[i.level as usize] == parts[2] && i.ident.as_ref().map(|x| x == parts[1]).unwrap_or(true) && *parts[0] == format!("<{} UTC>", i.time)).unwrap_or(false) {
                rest = &rest[end..];
                let i = it.next().unwrap();
                if let Some(r) = &i.report { match self.check_report(rest, r) { Some(x) => rest = x, None => return } }
            } else {
                self.bad(mask, format!("expected {expected:?} in the log, but found {shown:?}"));
                return;
            }
        }
        // The same goes for the output, apart from the colours.
        let out = plain_text(out);
        let mut at = 0;
        for i in items.iter().filter(|i| i.user) {
            let tail = format!(" | {} | {}\n", levels[i.level as usize], i.text);
            let line = format!("<{} UTC> | {}{tail}", i.time, i.ident.clone().unwrap_or_default());
            let count = match out.matches(&tail).count() { n if n > 1 && !has_token(&i.text) => 1, n => n };
            if !i.admitted {
                if count > 0 { self.bad(p(18), format!("a message below the verbosity was printed: {:?}", i.text)); return; }
                continue;
            }
            match out[at..].find(&line) {
                Some(x) if count == 1 => at += x + line.len(),
                _ => { self.bad(p(18), format!("expected the line {line:?} exactly once and in order on the output, which is {:?}", out.chars().take(600).collect::<String>())); return; }
            }
        }
    }
    /// Checks a crash report at the start of the text, and returns what follows it.
    fn check_report<'a>(&mut self, text: &'a str, r: &Report) -> Option<&'a str> {
        let start = text.trim_start_matches('\n');
        let end = format!("\n{}\n", r.footer);
        let (true, Some(at)) = (start.starts_with(&r.header), start.find(&end)) else {
            self.bad(p(19) | p(18) | p(20), format!("expected a crash report with the header {:?} and footer {:?}, but found {:?}", r.header, r.footer, text.chars().take(400).collect::<String>()));
            return None;
        };
        let rest = &start[at + end.len()..];
        let body = plain_text(&start[r.header.len().min(at)..at]);
        if !body.contains(&r.time) { self.bad(p(19) | p(18), format!("the crash report does not have the time {}: {body:?}", r.time)); }
        if !r.exact { return Some(rest); }
        let cut = |a: &str, b: &str| -> Option<String> { let i = body.find(a)? + a.len(); let j = body[i..].find(b)? + i; Some(body[i..j].to_string()) };
        let (Some(tree), Some(warns), Some(panics)) = (cut("[REPORT START]\n", "\n[Same-Frame Warnings]"), cut("\n[Same-Frame Warnings]\n", "\n\n[Same-Frame Panics]"), cut("\n[Same-Frame Panics]\n", "\n\n[REPORT END]")) else {
            self.bad(p(19), format!("the crash report lacks a part: {body:?}"));
            return Some(rest);
        };
        let mut lines = tree.trim_end_matches('\n').split('\n').map(|l| {
            let (mut d, mut l) = (0, l);
            while let Some(x) = ["\u{2502}   ", "\u{251c}\u{2500}\u{2500} ", "    ", "\u{2514}\u{2500}\u{2500} "].iter().find_map(|c| l.strip_prefix(c)) { l = x; d += 1; }
            (d, l.to_string())
        }).peekable();
        for (d, name, must) in &r.lines {
            let hit = match lines.peek() { Some((x, n)) => x == d && (n == name || (!must && n == "...")), None => false };
            if hit { lines.next(); }
            else if *must { self.bad(p(19), format!("the drawing in the crash report does not show {name:?} at level {d} where it should: {tree}")); return Some(rest); }
        }
        if let Some(x) = lines.next() { self.bad(p(19), format!("the drawing in the crash report shows {x:?}, which is not there: {tree}")); return Some(rest); }
        for (part, list, what) in [(warns, &r.warns, "warnings"), (panics, &r.panics, "panics")] {
            let t: &str = part.trim_end_matches('\n');
            if t == "None" && list.iter().all(|x| !x.2) { continue; }
            let mut todo = 20_000;
            if !listed(t, &mut list.iter().collect(), &mut todo) {
                self.bad(p(19), format!("the crash report has other {what} than those of this frame, {list:?}: {part:?}"));
                return Some(rest);
            }
        }
        Some(rest)
    }

    /* ------------------------------------------------------------ paths */

    fn resolve(&self, from: Uid, path: &str) -> Option<Uid> {
        let mut at = from;
        let mut segs = path.split('/').filter(|s| !s.is_empty());
        if path.starts_with('/') {
            at = self.root?;
            if segs.next() != Some(self.n[at].name.as_str()) { return None; }
        }
        for s in segs {
            at = match s { "." => at, ".." => self.n[at].parent?, s => *self.n[at].kids.iter().find(|&&k| self.n[k].name == s)? };
        }
        Some(at)
    }

    /* ------------------------------------------------------------ operations */

    fn slot_fields(&self, s: &Scene, d: u64, out: &mut Vec<X>) {
        let n = &self.n[s.uid];
        out.push(X::L(vec![X::U(d), X::S(format!("nt_sim::classes::{}", NAMES_OF_CLASSES[n.class as usize])), X::S(n.name.clone()), X::B(s.owner), X::Serial(s.uid), X::U(n.tag), X::B(false),
            X::I(n.num), X::U(n.deft), Self::opt(n.plain), Self::opt(n.uniq)]));
        for k in &s.kids { self.slot_fields(k, d + 1, out); }
    }
    fn opt(x: Option<u64>) -> X { X::L(x.into_iter().map(X::U).collect()) }
    fn key(&self, s: &Scene) -> String { format!("{}{}({})", self.n[s.uid].class, s.owner as u8, s.kids.iter().map(|k| self.key(k)).collect::<String>()) }
    /// Scenes of the same structure have the same hash, and others have others.
    fn hash_ok(&mut self, s: &Scene, v: &V) -> bool {
        let V::U(h) = v else { return false };
        let k = self.key(s);
        match self.hashes.get(&k) {
            Some(x) => x == h,
            None => { let new = !self.hashes.values().any(|x| x == h); self.hashes.insert(k, *h); new }
        }
    }
    fn check_slot(&mut self, i: usize) -> R {
        let Some(s) = self.slots[i].clone() else { return Ok(()) };
        let e = self.take("slot", p(17), || format!("the scene in slot {i}"))?;
        let mut l = vec![];
        self.slot_fields(&s, 0, &mut l);
        self.compare(&e, &format!("the scene in slot {i}"), p(17), vec![(p(17) | p(14) | p(11), "the list of its nodes", X::L(l)), (0, "the hash", X::Any)])?;
        if !self.hash_ok(&s, &e.f[1].clone()) { self.bad(p(14) | p(17), format!("the structural hash of the scene in slot {i} does not tell its structure")); }
        Ok(())
    }
    fn begin(&mut self, op: &Op, f: Vec<X>) -> R {
        let e = self.take("op", 0, || format!("operation {}", name_of(op.k)))?;
        let ok = e.f[0] == V::S(name_of(op.k).into()) && e.f.len() == f.len() + 1 && f.iter().zip(e.f[1..].to_vec().iter()).all(|(x, v)| self.same(v, x));
        if !ok { let exp: Vec<String> = f.iter().map(|x| self.show(x)).collect(); return self.fatal(p(1) | p(2) | p(3) | self.base, format!("the tree is not as it should be: {} with {} became: {}", name_of(op.k), exp.join(" "), e.show())); }
        Ok(())
    }
    fn target(&mut self, op: &Op, i: usize, me: Option<Uid>) -> R<Option<Uid>> {
        let t = self.pick(op.a[i], me);
        if t.is_none() { self.begin(op, vec![X::N(None)])?; }
        Ok(t)
    }
    fn caught(&mut self, r: R, catch: bool) -> R {
        match r {
            Err(Stop::Unwind(u)) if catch => self.want_caught(u),
            r => r
        }
    }
    /// Whether the copying of a node panicked, as it may.
    fn copy_failed(&mut self, n: u64, nodes: usize) -> R<bool> {
        let due = n > 0 && n <= nodes as u64;
        let failed = due || n > 0 && matches!(self.peek(), Some(Ev { k: "caught", .. }));
        if failed { self.want_caught(Un::Sim(crate::real::NO_COPY))?; }
        Ok(failed)
    }
    fn want_caught(&mut self, u: Un) -> R {
        self.panicked = true;
        self.stats.panics += 1;
        let e = self.take("caught", match u { Un::Lib => p(20) | p(21), Un::Sim(_) => p(21) }, || "a panic to be caught".to_string())?;
        let ok = match u { Un::Sim(x) => e.f[0] == V::U(x), Un::Lib => e.f[0] == V::S("library".into()) };
        if !ok { return self.fatal(ALL, format!("another panic than expected: {}", e.show())); }
        Ok(())
    }
    fn exec(&mut self, op: &Op, me: Option<Uid>) -> R {
        let a = op.a;
        macro_rules! target { ($i:expr) => { match self.target(op, $i, me)? { Some(t) => t, None => return Ok(()) } } }
        let nn = |u: Uid| X::N(Some(u));
        match op.k {
            K::Nop | K::BaseTrip => self.begin(op, vec![]),
            K::Frame => {
                self.mono += a[0] as i128;
                self.begin(op, vec![])?;
                if self.depth > 0 && !self.in_frame { return Ok(()); }
                self.frame()
            }
            K::AddNode => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                if self.bfs().len() > 150 { return Ok(()); }
                let (tag, mode, via) = (a[3] >> 8, (a[3] >> 4) & 15, a[3] & 3);
                let uid = self.fresh(a[1], Self::named(a[1], a[2]), tag, mode, tag as i64);
                self.add_child(t, Scene { uid, owner: via == 1, disk: false, kids: vec![] })
            }
            K::AddScene => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                if self.bfs().len() > 150 { return Ok(()); }
                let sp = self.prog.scenes[a[1] as usize % self.prog.scenes.len()].clone();
                let mut s = self.build(&sp);
                match a[2] { 1 => s.owner = true, 2 => s.owner = false, _ => () }
                self.add_child(t, s)
            }
            K::AddSame => {
                let (t, src) = (target!(0), target!(1));
                self.begin(op, vec![nn(t), nn(src)])?;
                if self.bfs().len() > 150 || self.size_of(src) > 30 { return Ok(()); }
                let s = self.save(src);
                let c = self.clone_scene(&s);
                self.add_child(t, c)?;
                if self.n[t].in_tree { self.add_child(t, s)?; }
                Ok(())
            }
            K::Free => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                if self.root == Some(t) && a[1] != 2 { return Ok(()); }
                self.free(t)
            }
            K::RemoveChild => {
                let t = target!(0);
                let k = self.n[t].kids.clone();
                self.begin(op, vec![nn(t), X::U(k.len() as u64)])?;
                if k.is_empty() { return Ok(()); }
                self.remove_branch(k[a[1] as usize % k.len()], "RemovedAsChild")?;
                self.want("ret", p(1) | p(6), "the removal of a child", vec![(p(1), "whether it succeeded", X::B(true))])
            }
            K::RemoveMissing => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                self.post(t, 2, None, p(18) | p(1));
                self.want("ret", p(1), "the removal of a child that does not exist", vec![(p(1), "whether it succeeded", X::B(false))])
            }
            K::Rename => {
                let t = target!(0);
                let name = match (a[2], self.n[t].parent) {
                    (1, _) => self.n[t].name.clone(),
                    (0, _) | (_, None) => name_at(a[1]).to_string(),
                    (_, Some(par)) => { let k = &self.n[par].kids; self.n[k[a[3] as usize % k.len()]].name.clone() }
                };
                self.begin(op, vec![nn(t), X::S(name.clone())])?;
                let taken: Vec<String> = match self.n[t].parent { Some(par) => self.n[par].kids.iter().filter(|&&k| k != t).map(|&k| self.n[k].name.clone()).collect(), None => vec![] };
                let u = unique(&name, &taken);
                self.n[t].wished = if u != name { Some(name) } else { None };
                self.n[t].name = u;
                self.want("ret", p(2), "renaming", vec![(p(2), "the new name", X::Name(t))])
            }
            K::TakePtr => {
                let (o, t) = (target!(0), target!(1));
                self.begin(op, vec![nn(o), nn(t)])?;
                let class = self.n[t].class;
                let ptr = match a[2] {
                    0 => Some(Ptr { target: t, owner: o, typed: None }),
                    1 | 3 => Some(Ptr { target: t, owner: o, typed: Some(class) }),
                    2 => None,
                    4 => Some(Ptr { target: t, owner: o, typed: None }),
                    5 | 6 => Some(Ptr { target: t, owner: t, typed: Some(class) }),
                    way => {
                        let kids = &self.n[o].kids;
                        let to = match way { 10 | 11 => self.n[o].parent, 12 | 13 => Some(self.n[o].owner), _ => if kids.is_empty() { None } else { Some(kids[(a[3] >> 3) as usize % kids.len()]) } };
                        to.map(|to| Ptr { target: to, owner: o, typed: if matches!(way, 8 | 11 | 13) || way > 15 { Some(self.n[to].class) } else { None } })
                    }
                };
                self.want("ret", p(4) | p(3), "getting a pointer", vec![(p(4) | if a[2] == 3 || a[2] == 4 { p(3) } else { 0 }, "whether there is one", X::B(ptr.is_some()))])?;
                if ptr.is_some() { self.ptrs[a[3] as usize % 8] = ptr; }
                Ok(())
            }
            K::CheckPtrs => {
                self.begin(op, vec![])?;
                for i in 0..8 {
                    let Some(q) = self.ptrs[i].clone() else { continue };
                    let ok = self.n[q.target].in_tree;
                    let class = self.n[q.target].class;
                    let ser = || if ok { X::Serial(q.target) } else { X::S("null".into()) };
                    let nod = || if ok { nn(q.target) } else { X::S("null".into()) };
                    if !ok { self.stats.stale += 1; }
                    let m = p(4) | p(20);
                    let mut f = vec![(0, "the slot", X::U(i as u64)), (p(4), "is_valid()", X::B(ok)), (p(4), "is_null()", X::B(!ok)), (m, "try_get()", nod()), (m, "try_get()", ser()), (m, "try_get_mut()", nod())];
                    if q.typed.is_some() { f.push((p(4), "try_to_dyn()", nod())); } else {
                        for c in 0..4 {
                            f.push((p(4), "is()", X::B(ok && class == c)));
                            f.push((p(4), "to()", if !ok { X::S("null".into()) } else if class == c { nn(q.target) } else { X::S("type".into()) }));
                        }
                        f.push((p(4), "is_of()", X::B(ok && greets(class))));
                        f.push((p(4), "is_of()", X::B(ok && marks(class))));
                        f.push((p(4), "cast()", if ok && greets(class) { X::Serial(q.target) } else { X::S("cast".into()) }));
                        f.push((p(4), "cast_mut()", if ok && marks(class) { X::Serial(q.target) } else { X::S("cast".into()) }));
                    }
                    self.want("ptr", p(4), &format!("the pointer in slot {i}"), f)?;
                }
                let none = || X::N(None);
                self.want("ways", p(3), "paths of the root", vec![(p(3), "the node at the root's path", X::N(self.root)), (p(3), "the node of a relative path from nowhere", none()), (p(3), "the parent of the root", none())])
            }
            K::UsePtr => {
                let q = self.ptrs[a[0] as usize % 8].clone();
                self.begin(op, vec![X::B(q.is_some())])?;
                let Some(q) = q else { return Ok(()) };
                let r = if self.n[q.target].in_tree { self.want("ret", p(4) | p(20), "using a pointer", vec![(p(4), "the node", X::Serial(q.target))]) } else { self.fail(q.owner) };
                self.caught(r, a[2] & 1 == 1)
            }
            K::Other => {
                self.begin(op, vec![])?;
                self.want("other", p(27), "the other trees", vec![(p(27), "what is not as it should be in another tree", X::S(String::new()))])
            }
            K::RegSingle => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let name = single(a[1]);
                let ok = !self.bfs().iter().any(|&u| self.n[u].singleton.as_ref() == Some(&name));
                if ok { self.n[t].singleton = Some(name); }
                self.want("ret", p(12), "registering a singleton", vec![(p(12), "whether it succeeded", X::B(ok))])
            }
            K::FindSingle => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let name = single(a[1]);
                let u = self.bfs().into_iter().find(|&u| self.n[u].singleton.as_ref() == Some(&name));
                self.want("ret", p(12), "looking up a singleton", vec![(p(12), "the node", X::N(u))])
            }
            K::Connect => {
                let (from, to) = (target!(0), target!(1));
                self.begin(op, vec![nn(from), nn(to)])?;
                let (sig, once, flavour) = (a[2] & 1, a[3] & 1 == 1, a[3] >> 1);
                let by_macro = flavour == 2 && self.n[from].class == self.n[to].class;
                let id = self.conns.len();
                let e = self.take("ret", p(13), || "connecting".into())?;
                let rid = match (&e.f[0], &e.f[1]) {
                    (V::U(i), V::L(l)) if *i == id as u64 => match l.first() { Some(V::U(r)) => Some(*r), _ => None },
                    _ => None
                };
                if rid.is_none() != by_macro { return self.fatal(p(13) | p(4), format!("connecting did not work: {}", e.show())); }
                if let Some(r) = rid { if self.conns.iter().any(|c| c.node == from && c.sig == sig && c.rid == Some(r)) { self.bad(p(13), format!("the connection ID {r} was given to two connections")); } }
                self.conns.push(Conn { node: from, sig, target: if flavour == 3 { None } else { Some(to) }, by_macro, once, rid, connected: true });
                Ok(())
            }
            K::Disconnect => {
                let len = self.conns.len();
                self.begin(op, vec![X::U(len as u64)])?;
                if len == 0 { return Ok(()); }
                let i = a[0] as usize % len;
                if self.conns[i].rid.is_none() { return Ok(()); }
                if !self.n[self.conns[i].node].in_tree { return self.want("ret", p(13), "disconnecting", vec![]); }
                let was = std::mem::replace(&mut self.conns[i].connected, false);
                self.want("ret", p(13), "disconnecting", vec![(p(13), "whether the connection existed", X::B(was))])
            }
            K::Emit => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let r = self.emit(t, a[1], a[2]).and_then(|_| self.want("ret", p(13), "the end of the emission", vec![]));
                self.caught(r, a[3] & 1 == 1)
            }
            K::Pause | K::Unpause | K::QueueTerm | K::Terminate => {
                self.begin(op, vec![])?;
                let live = matches!(self.phase, Phase::Process | Phase::Queued);
                match op.k {
                    K::Pause if live => { self.paused = true; self.stats.pauses += 1; }
                    K::Unpause if live => { self.paused = false; }
                    K::QueueTerm if self.phase == Phase::Process => self.phase = Phase::Queued,
                    K::Terminate => self.phase = Phase::Terminated,
                    _ => ()
                }
                Ok(())
            }
            K::Mono => { self.begin(op, vec![])?; self.mono += a[0] as i128; Ok(()) }
            K::Wall => {
                self.begin(op, vec![])?;
                let d = a[0] as i128 * 1_000_000_000 + a[1] as i128;
                match a[2] { 0 => self.wall = d, 1 => self.wall += d / 1000, 2 => self.wall -= d / 1000, _ => self.wall += a[1] as i128 }
                if self.prog.prop != 18 { self.wall = self.wall.max(0); }
                Ok(())
            }
            K::Post => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let msg = message(a[2], self.posts);
                self.posts += 1;
                self.post(t, a[1].min(3), Some(msg), p(18));
                Ok(())
            }
            K::Header => {
                self.begin(op, vec![])?;
                if a[0] == 0 { self.header = header(a[1]).into(); } else { self.footer = footer(a[1]).into(); }
                Ok(())
            }
            K::Fail => {
                let (t, t2) = (target!(0), target!(2));
                self.begin(op, vec![nn(t), nn(t2)])?;
                let kill = (a[2] >> 12) & 1 == 1 && self.root != Some(t);
                let r = (|| {
                    if kill && self.n[t].in_tree { self.free(t)?; }
                    self.want("failing", p(20), "a failure to come", vec![])?;
                    self.fail(t)
                })();
                self.caught(r, (a[2] >> 13) & 1 == 1)
            }
            K::Soft => {
                let (t, t2) = (target!(0), target!(2));
                self.begin(op, vec![nn(t), nn(t2)])?;
                self.soft(a[1], t, t2)
            }
            K::Chain => {
                let (t, t2) = (target!(0), target!(3));
                self.begin(op, vec![nn(t), nn(t2)])?;
                let e = self.take("chain", p(24) | p(20), || "a chain of combinators".into())?;
                if let V::S(diff) = &e.f[0] { if !diff.is_empty() { return self.fatal(p(24), diff.clone()); } }
                if e.f[1] != V::B(true) { return Ok(()); }
                let kill = a[2] & 2 == 2 && self.root != Some(t);
                let r = (|| {
                    if kill && self.n[t].in_tree { self.free(t)?; }
                    self.want("failing", p(20) | p(24), "a failure to come", vec![])?;
                    self.fail(t)
                })();
                self.caught(r, a[2] & 16 == 16)
            }
            K::Churn => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let mask = match a[1] { 0 => p(4) | p(1), 1 => p(13), 2 => p(2), _ => p(3) | p(1) };
                let e = self.take("ret", mask, || "many nodes or connections to come and go".into())?;
                if let V::L(l) = &e.f[0] {
                    for x in l {
                        let V::L(x) = x else { continue };
                        let (V::U(lo), V::U(hi)) = (&x[0], &x[1]) else { continue };
                        if self.rids.keys().any(|r| r >= lo && r <= hi) || self.spent.iter().any(|s| s.0 <= *hi && s.1 >= *lo) { self.bad(p(4), format!("an ID among {lo} to {hi} was that of another node")); }
                        self.spent.push((*lo, *hi));
                    }
                }
                if e.f[1] != V::U(0) { return self.fatal(mask, format!("of many {}: {}", ["nodes, some were not as they should be", "connections, some were not as they should be", "names, some were not as they should be", "nodes in a line, some were not as they should be"][a[1] as usize % 4], e.show())); }
                Ok(())
            }
            K::Panic => { self.begin(op, vec![])?; Err(Stop::Unwind(Un::Sim(a[0]))) }
            K::Path => {
                let (t, t2) = (target!(0), target!(1));
                // The path itself was made up by the harness.
                let e = self.take("op", 0, || "operation Path".into())?;
                let (true, V::S(path)) = (e.f.len() == 3 && self.same(&e.f[1], &nn(t)), &e.f[2]) else { return self.fatal(p(1) | p(3), format!("the tree is not as it should be: {}", e.show())) };
                let r = self.resolve(t, path);
                let class = self.n[t2].class;
                let err = || X::S("path".into());
                let typed = |m: &Self, c: u64| match r { None => err(), Some(u) if m.n[u].class == c => nn(u), Some(_) => X::S("type".into()) };
                let d = || match r { None => err(), Some(u) => nn(u) };
                let f = vec![(p(3), "the node at this path", d()), (p(3), "the node at this path after a conversion to text", d()), (p(3), "the ID of the node at this path", X::N(r)),
                    (p(3) | p(4), "the typed node at this path", typed(self, class)), (p(3) | p(4), "the wrongly typed node at this path", typed(self, (class + 1 + a[3] % 3) % 4)),
                    (p(3), "the text", X::S(format!("{}{}", if path.starts_with('/') { "/" } else { "" }, path.split('/').filter(|s| !s.is_empty()).collect::<Vec<_>>().join("/")))), (p(3), "whether the text makes the same path", X::B(true))];
                self.want("ret", p(3), &format!("the path {path:?}"), f)
            }
            K::AbsPath => {
                let (t, t2) = (target!(0), target!(1));
                self.begin(op, vec![nn(t), nn(t2)])?;
                let path = format!("/{}", self.path(t2));
                self.want("ret", p(3), &format!("the absolute path {path:?}"), vec![(p(3), "the text", X::S(path)), (p(3), "the node", nn(t2)), (p(3), "the node after a conversion to text", nn(t2)), (p(3), "the ID", nn(t2)), (p(3), "whether it is absolute", X::B(true)),
                    (p(3), "the node of a path made of its parts", nn(t2)), (p(3), "the node at this path under another root", X::S("path".into())),
                    (p(3), "the node by its parent", if self.n[t2].parent.is_some() { nn(t2) } else { X::S("path".into()) }), (p(3), "the node at this path with needless segments", nn(t2)), (p(3), "the node of a relative path made of its parts", nn(t2))])
            }
            K::SetMode => { let t = target!(0); self.begin(op, vec![nn(t)])?; self.n[t].mode = a[1]; Ok(()) }
            K::SetField => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let n = &mut self.n[t];
                match a[2] { 0 => n.num = a[1] as i64, 1 => n.deft = a[1], 2 => n.plain = Some(a[1]), 3 => n.uniq = Some(a[1]), _ => n.uniq = None }
                Ok(())
            }
            K::SaveBranch => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let size = self.size_of(t);
                if size > 60 { return Ok(()); }
                if self.copy_failed(a[2], size)? { return Ok(()); }
                let s = self.save(t);
                self.slots[a[1] as usize % 8] = Some(s);
                Ok(())
            }
            K::CloneSlot => {
                let i = a[0] as usize % 8;
                self.begin(op, vec![])?;
                let Some(s) = self.slots[i].clone() else { return Ok(()) };
                if self.copy_failed(a[2], Self::size(&s))? { return Ok(()); }
                let c = self.clone_scene(&s);
                self.slots[(i + 1 + a[1] as usize % 7) % 8] = Some(c);
                Ok(())
            }
            K::AppendSlot => {
                let (i, j) = (a[0] as usize % 8, a[1] as usize % 8);
                self.begin(op, vec![])?;
                let (true, Some(x), Some(y)) = (i != j, self.slots[i].clone(), self.slots[j].as_ref()) else { return Ok(()) };
                let fits = Self::size(&x) + Self::size(y) <= 60;
                let mut c = if a[3] & 1 == 0 { self.clone_scene(&x) } else { x };
                if !fits { self.slots[i] = Some(c); return Ok(()); }
                if a[3] & 1 == 1 { self.slots[i] = None; }
                c.owner = a[2] != 0;
                self.slots[j].as_mut().unwrap().kids.push(c);
                Ok(())
            }
            K::TextTrip | K::DiskTrip => {
                let i = a[0] as usize % 8;
                let Some(s) = self.slots[i].clone() else { return self.begin(op, vec![]) };
                self.begin(op, vec![X::Any])?;
                if op.k == K::TextTrip && self.copy_failed(a[1], 0)? { return Ok(()); }
                self.stats.trips += 1;
                let m = p(14) | p(17) | p(5) | p(11);
                let e = self.take("ret", m, || "saving and loading".into())?;
                if e.f[0] == V::S("error".into()) { return self.fatal(m, format!("saving and loading a scene failed: {}", e.show())); }
                if !self.hash_ok(&s, &e.f[0].clone()) || !self.hash_ok(&s, &e.f[1].clone()) { self.bad(p(14) | p(11), "the structural hash of a scene is not the same after loading it".into()); }
                let mut l = vec![];
                self.slot_fields(&s, 0, &mut l);
                self.want("slot", p(14), "the scene that was saved", vec![(p(14), "the list of its nodes", X::L(l))])?;
                let b = self.reload(&s);
                self.slots[i] = Some(b);
                Ok(())
            }
            K::AddSlot => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let i = a[1] as usize % 8;
                let Some(s) = self.slots[i].clone() else { return Ok(()) };
                if self.bfs().len() > 150 || Self::size(&s) > 60 { return Ok(()); }
                let mut s = if a[3] & 1 == 0 { self.clone_scene(&s) } else { self.slots[i] = None; s };
                match a[2] { 1 => s.owner = true, 2 => s.owner = false, _ => () }
                self.add_child(t, s)
            }
            K::CheckSlot => {
                let i = a[0] as usize % 8;
                self.begin(op, vec![X::B(self.slots[i].is_some())])?;
                self.check_slot(i)
            }
            K::TopDown => {
                let t = target!(0);
                self.begin(op, vec![nn(t)])?;
                let l: Vec<X> = self.bfs_of(t).into_iter().skip((a[1] != 1) as usize).map(nn).collect();
                let len = l.len() as u64;
                self.want("ret", p(1), "the top-down listing", vec![(p(1), "the list", X::L(l)), (p(1), "the number of valid nodes", X::U(len))])
            }
            K::Lookup => {
                let (t, t2) = (target!(0), target!(1));
                self.begin(op, vec![nn(t), nn(t2)])?;
                let i = a[2] as usize;
                let n = self.n[t].clone();
                let child = n.kids.get(i).copied();
                let range = || X::S("range".into());
                let typed = |m: &Self, u: Option<Uid>, c: u64, e: &str| match u { None => X::S(e.into()), Some(u) if m.n[u].class == c => nn(u), Some(_) => X::S("type".into()) };
                let m = p(1) | p(4);
                let mut f = vec![(p(1), "get_child_dyn()", child.map(nn).unwrap_or_else(range)), (p(1), "num_children()", X::U(n.kids.len() as u64)), (p(1), "childless()", X::B(n.kids.is_empty())),
                    (p(1), "is_root()", X::B(n.parent.is_none())), (p(11), "is_owner()", X::B(n.owner == t)), (p(1), "depth()", X::U(n.depth)),
                    (p(1), "parent_dyn()", n.parent.map(nn).unwrap_or(X::S("noparent".into()))), (p(11), "owner_dyn()", nn(n.owner)), (p(1), "this_dyn()", nn(t)), (p(2), "name()", X::Name(t))];
                for c in 0..4 { f.push((m, "get_child()", typed(self, child, c, "range"))); }
                for c in 0..4 { f.push((m, "parent()", typed(self, n.parent, c, "noparent"))); }
                for c in 0..4 { f.push((m | p(11), "owner()", typed(self, Some(n.owner), c, ""))); }
                let three = || X::L(vec![nn(t), X::N(None), nn(t2)]);
                f.push((p(1), "get_nodes()", three()));
                f.push((p(1), "get_all_valid_nodes()", X::L(vec![nn(t), nn(t2)])));
                f.push((p(1), "root_mut()", X::N(self.root)));
                f.push((p(1), "get_all_valid_nodes_mut()", X::L(vec![nn(t)])));
                if t == t2 { for _ in 0..2 { f.push((p(1), "whether borrowing a node twice is refused", X::B(true))); } }
                if t != t2 { f.push((p(1), "get_nodes_mut()", three())); }
                self.want("ret", p(1), "looking around", f)
            }
            K::Orphan => {
                self.begin(op, vec![])?;
                let u = me.filter(|_| a[3] != 0);
                if let Some(u) = u {
                    if a[1] == 1 && self.n[u].in_tree && self.root != Some(u) { self.free(u)?; }
                    if self.n[u].in_tree { return Ok(()); }
                    self.stats.stale += 1;
                }
                if let (Some(u), true) = (u, a[0] >= 17) { self.n[u].name = crate::real::name_at(a[2]).to_string(); }
                let m = p(1) | p(22);
                self.want("ret", m, "using a node outside of all trees", vec![(m, "whether it was refused", X::B(a[0] < 17)), (m, "in_tree()", X::B(false)), (m | p(2), "whether the name is as given", if a[0] < 17 { X::Any } else { X::B(true) })])
            }
            K::SelfCheck => {
                self.begin(op, vec![])?;
                let Some(u) = me else { return Ok(()) };
                let n = self.n[u].clone();
                let mut f = self.look(u, p(22));
                if !n.in_tree { self.stats.stale += 1; }
                f.extend([(p(1), "is_stray()", X::B(!n.in_tree)), (p(1), "is_root()", X::B(n.in_tree && n.parent.is_none())), (p(1) | p(11), "is_owner()", X::B(n.in_tree && n.owner == u)),
                    (p(1) | p(2) | p(22), "the name", X::Name(u)), (p(19), "the status", self.status(u)), (p(22), "the tag", X::U(n.tag)), (p(22), "num", X::I(n.num)), (p(22), "deft", X::U(n.deft)), (p(22), "plain", Self::opt(n.plain)), (p(22), "uniq", Self::opt(n.uniq))]);
                self.want("ret", p(22) | p(1), "a node looking at itself", f)
            }
        }
    }
    fn status(&self, u: Uid) -> X {
        let s = &self.n[u].status;
        match s.code { 0 => X::L(vec![X::U(0)]), c => X::L(vec![X::U(c), s.msg.clone().map(X::S).unwrap_or(X::Any)]) }
    }
    fn soft(&mut self, kind: u64, t: Uid, t2: Uid) -> R {
        let nn = |u: Uid| X::N(Some(u));
        let (class, n) = (self.n[t2].class, self.n[t].clone());
        let b = |l: &[u8]| l.iter().map(|&x| X::B(x == 1)).collect::<Vec<_>>();
        let typed = |m: &Self, u: Option<Uid>, c: u64, e: &str| match u { None => X::S(e.into()), Some(u) if m.n[u].class == c => nn(u), Some(_) => X::S("type".into()) };
        let mut x: Vec<X> = vec![];
        match kind {
            0 => { x.extend(b(&[0, 1, 0, 1, 0, 0, 1])); x.extend([X::U(1), X::U(3), nn(t), nn(t), X::U(0), X::B(true), X::B(false), X::B(true)]); }
            1 => { x.extend(b(&[1, 0, 1, 0, 1, 1, 0])); x.extend([X::U(2), X::U(4), nn(t), nn(t), X::U(9), nn(t)]); }
            2 => { x.push(X::B(false)); x.extend([nn(t), nn(t), X::U(0), X::U(1), X::B(false), nn(t), nn(t), X::B(true), X::B(true)]); }
            3 => for c in 0..4 { x.push(X::B(class == c)); x.push(typed(self, Some(t2), c, "")); x.push(typed(self, Some(t2), c, "")); },
            4 => for c in 0..4 { x.push(typed(self, n.parent, c, "noparent")); x.push(typed(self, Some(n.owner), c, "")); x.push(typed(self, n.kids.first().copied(), c, "range")); },
            5 => { x.push(n.parent.map(nn).unwrap_or(X::S("noparent".into()))); x.push(X::B(n.parent.is_some())); for _ in 0..3 { x.push(X::S("path".into())); } }
            6 => for _ in 0..5 { x.push(X::S("null".into())); },
            _ => { x.extend([X::B(greets(class)), X::B(marks(class)), X::B(greets(class)), X::B(marks(class)), X::U(greets(class) as u64)]); }
        }
        let f = x.into_iter().map(|x| (p(20) | p(4), "a result", x)).collect();
        self.want("ret", p(20) | p(4), &format!("operations of kind {kind} that must not fail"), f)
    }

    /* ------------------------------------------------------------ the driver */

    fn create(&mut self) -> R {
        let e = self.take("op", 0, || "the creation of the tree".into())?;
        let _ = e;
        let sp = self.prog.scenes[0].clone();
        let s = if self.prog.root_scene { self.build(&sp) } else {
            let uid = self.fresh(sp.class, Self::named(sp.class, sp.name), sp.tag, sp.mode, sp.num);
            Scene { uid, owner: false, disk: false, kids: vec![] }
        };
        let before = self.mono;
        let mut batch = vec![];
        self.attach(None, s, true, &mut batch);
        let r = self.ready(batch);
        self.last_frame = (before, self.mono);
        r
    }
    fn snapshot(&mut self) -> R {
        self.shape()?;
        for u in self.bfs() {
            let n = self.n[u].clone();
            let mut f = self.look(u, 0);
            f.extend([(p(19) | p(20), "the status", self.status(u)), (p(5) | p(14), "whether it has just been loaded", X::B(n.loaded)),
                (p(3), "the absolute path", X::S(format!("/{}", self.path(u)))), (p(12), "the singleton name", X::S(n.singleton.clone().unwrap_or_default())),
                (p(1), "is_root()", X::B(n.parent.is_none())), (p(11), "is_owner()", X::B(n.owner == u)), (p(1), "num_children()", X::U(n.kids.len() as u64)),
                (p(1) | p(17), "the type", X::S(format!("nt_sim::classes::{}", NAMES_OF_CLASSES[n.class as usize]))), (p(17) | p(14), "the tag", X::U(n.tag)),
                (p(17) | p(14), "num", X::I(n.num)), (p(17) | p(14), "deft", X::U(n.deft)), (p(17) | p(14), "plain", Self::opt(n.plain)), (p(17) | p(14), "uniq", Self::opt(n.uniq))]);
            self.want("node", p(1), &format!("node {} \"{}\"", self.id(u), n.name), f)?;
        }
        let f = (0..6).map(|i| { let name = single(i); (p(12), "the node of a singleton name", X::N(self.bfs().into_iter().find(|&u| self.n[u].singleton.as_ref() == Some(&name)))) }).collect();
        self.want("singles", p(12), "the singletons", f)?;
        let e = self.take("log", p(18), || "the log".into())?;
        self.check_log(&e);
        for i in 0..8 { self.check_slot(i)?; }
        self.peek();
        if let Some(e) = self.peek().cloned() { return self.fatal(ALL, format!("unexpected: {}", e.show())); }
        Ok(())
    }
    /// Does what the step should do, and compares it to what happened.
    pub fn check(&mut self, i: usize, trace: Vec<Ev>) {
        let _a = crate::alloc::aside();
        for e in &trace {
            let t = e.show();
            let whole = if e.k == "log" { Ev { k: "log", f: vec![e.f[0].clone(), e.f[1].clone(), e.f[3].clone()] }.show() } else { t.clone() };
            self.trace_hash = fnv(self.trace_hash, repeatable(&whole).as_bytes());
            if self.keep { self.log_lines.push(format!("{i}: {t}")); }
        }
        self.trace = trace;
        self.pos = 0;
        self.cb = 0;
        self.step = i;
        let st = self.prog.steps[i].clone();
        self.trig = st.trig;
        self.in_frame = false;
        self.depth = 0;
        self.base = Self::op_mask(st.op.k) | if self.panicked { p(21) } else { 0 };
        let r = if i == 0 { self.base |= p(5); self.create() } else { self.exec(&st.op, None) };
        let r = match r {
            Ok(()) => self.want("done", 0, "the step to be done", vec![]),
            Err(Stop::Unwind(u)) => { if i == 0 { self.over = true; } self.want_caught(u) }
            Err(Stop::Bad) => Err(Stop::Bad)
        };
        // A node that was being processed when a frame was cut short is no longer running.
        let r = r.and_then(|_| if self.over { Ok(()) } else { self.snapshot() });
        if r.is_err() || !self.found.is_empty() { self.over = true; }
        let s = self.state();
        self.states.push(s);
    }
    /// What an operation is mostly about, so that its failure counts for that.
    fn op_mask(k: K) -> Mask {
        match k {
            K::Frame => p(7) | p(10), K::AddNode | K::AddScene => p(1) | p(5), K::AddSame | K::SaveBranch | K::CloneSlot | K::AppendSlot | K::CheckSlot => p(17), K::AddSlot => p(17) | p(5),
            K::Free | K::RemoveChild => p(1) | p(6) | p(22), K::RemoveMissing => p(1), K::Rename => p(2), K::TakePtr | K::CheckPtrs => p(4), K::UsePtr | K::Fail | K::Soft => p(20) | p(4), K::Chain => p(20) | p(24),
            K::RegSingle | K::FindSingle => p(12), K::Connect | K::Disconnect | K::Emit => p(13), K::Pause | K::Unpause | K::SetMode => p(8), K::QueueTerm | K::Terminate => p(10),
            K::Mono | K::Wall => p(9), K::Post => p(18) | p(19), K::Header => p(19), K::Path | K::AbsPath => p(3), K::TextTrip | K::DiskTrip => p(14), K::TopDown | K::Lookup => p(1), K::Churn => p(1) | p(2) | p(3) | p(4) | p(13), K::SelfCheck | K::Orphan => p(22),
            K::Panic => p(21), K::Other => p(27), _ => 0
        }
    }
    /// A digest of the state of the tree: its shape and everything that decides how it behaves.
    fn state(&self) -> u64 {
        let mut l = vec![];
        if let Some(r) = self.root { self.pre(r, 0, &mut l); }
        let pos: HashMap<Uid, u64> = l.iter().enumerate().map(|(i, x)| (x.0, i as u64)).collect();
        let mut h = fnv(FNV0, &[self.phase as u8, self.paused as u8, self.panicked as u8]);
        for (u, d) in &l {
            let n = &self.n[*u];
            h = fnv(h, &[*d as u8, n.class as u8, n.mode as u8, n.status.code as u8, n.singleton.is_some() as u8, n.exiting as u8, *pos.get(&n.owner).unwrap_or(&255) as u8]);
            h = fnv(h, n.name.as_bytes());
        }
        for c in self.conns.iter().filter(|c| c.connected) { h = fnv(h, &[*pos.get(&c.node).unwrap_or(&255) as u8, c.sig as u8, c.once as u8, c.target.and_then(|t| pos.get(&t)).copied().unwrap_or(254) as u8]); }
        for q in self.ptrs.iter().flatten() { h = fnv(h, &[*pos.get(&q.target).unwrap_or(&255) as u8, q.typed.unwrap_or(9) as u8]); }
        for s in self.slots.iter().flatten() { h = fnv(h, self.key(s).as_bytes()); }
        h
    }
}

/// An event without what is not decided by the program: addresses in messages of the library, and hashes of texts with such.
fn repeatable(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    let mut rest = t;
    while let Some(i) = rest.find("0x") {
        o.push_str(&rest[..i + 2]);
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    o.push_str(rest);
    o
}

/// Whether a text consists of the given entries, except for some that need not be there. Entries may look alike, so that
/// every way to tell them apart is tried.
fn listed(t: &str, list: &mut Vec<&(String, Option<String>, bool)>, todo: &mut u32) -> bool {
    if t.is_empty() { return list.iter().all(|x| !x.2); }
    if *todo == 0 { return true; }
    *todo -= 1;
    let mut tried: Vec<(String, Option<String>, bool)> = vec![];
    for i in 0..list.len() {
        let e = list[i];
        if tried.contains(e) { continue; }
        let head = match &e.1 { Some(m) => format!("{} - {m}", e.0), None => format!("{} - ", e.0) };
        let Some(rest) = t.strip_prefix(&head) else { continue };
        let rest = if e.1.is_some() { rest } else { &rest[rest.find('\n').unwrap_or(rest.len())..] };
        if !rest.is_empty() && !rest.starts_with('\n') { continue; }
        tried.push(e.clone());
        list.remove(i);
        let ok = listed(rest.strip_prefix('\n').unwrap_or(rest), list, todo);
        list.insert(i, e);
        if ok { return true; }
    }
    false
}
/// Whether a message has a number that makes it unique.
fn has_token(t: &str) -> bool {
    let v: Vec<&str> = t.split('#').collect();
    v.len() >= 3 && v[1..v.len() - 1].iter().any(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()))
}
