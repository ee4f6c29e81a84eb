//! Other trees in the same program (P27). They are small, and have a model of their own; what the tree under test and the
//! other ones do must not show in them.

use crate::sysim::sys;
use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::trees::TreeSimple;
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Did { Ready(u64), Process(u64, f32), Terminal(u64), Heard(u64, u64) }
static mut DID: Vec<Did> = Vec::new();
#[allow(static_mut_refs)]
fn did() -> &'static mut Vec<Did> { unsafe { &mut DID } }

class! {
    pub declare Aside;
    pub signal on_a(v: u64);
    pub let tag: u64;
    hk _init(tag: u64) {}
    hk ready(&mut self) { did().push(Did::Ready(*self.tag)) }
    hk process(&mut self, delta: f32) { did().push(Did::Process(*self.tag, delta)) }
    hk terminal(&mut self, _reason: TerminationReason) { did().push(Did::Terminal(*self.tag)) }
    fn hear(&self, v: &u64) { did().push(Did::Heard(*self.tag, *v)) }
}

#[derive(Clone, Copy, PartialEq)]
enum Phase { Running, Queued, Terminating, Over }
pub struct Other { tree: Box<TreeSimple>, tags: u64, kids: Vec<(RID, u64)>, listeners: Vec<u64>, singles: BTreeMap<&'static str, RID>, phase: Phase, paused: bool, last: i128, diff: String }

const SINGLES: [&str; 3] = ["S0", "S1", "s0"];
fn same(a: &Did, b: &Did) -> bool {
    match (a, b) { (Did::Process(t, x), Did::Process(u, y)) => t == u && (x - y).abs() <= 1e-6 * y.abs(), _ => a == b }
}

impl Other {
    pub fn new(base: u64) -> Other {
        did().clear();
        let now = sys().mono_ns;
        let tree = TreeSimple::new(Aside::new(base), LoggerVerbosity::OnlyPanics);
        let mut o = Other { tree, tags: base, kids: vec![], listeners: vec![], singles: BTreeMap::new(), phase: Phase::Running, paused: false, last: now, diff: String::new() };
        o.expect("being created", &[Did::Ready(base)]);
        o
    }
    fn root(&mut self) -> &'static mut dyn Node { unsafe { &mut *(self.tree.root_mut() as *mut dyn Node) } }
    fn base(&self) -> u64 { self.tags & !0xffff }
    fn bad(&mut self, t: String) { if self.diff.is_empty() { self.diff = t; } }
    fn expect(&mut self, what: &str, l: &[Did]) {
        let d = std::mem::take(did());
        if d.len() != l.len() || !d.iter().zip(l).all(|(a, b)| same(a, b)) { self.bad(format!("{what} did {d:?} instead of {l:?}")); }
    }
    fn all(&self) -> Vec<u64> { std::iter::once(self.base()).chain(self.kids.iter().map(|k| k.1)).collect() }

    /// Performs an operation on this tree, and tells what is not as it should be.
    pub fn act(&mut self, kind: u64, x: u64, y: u64) -> String {
        did().clear();
        let over = self.phase == Phase::Over;
        match kind {
            0 | 1 => {
                if over { *self = Other::new(self.base()); return self.look(); }
                let delta = Duration::from_nanos((sys().mono_ns - self.last) as u64).as_secs_f32();
                self.last = sys().mono_ns;
                let status = self.tree.process();
                let all = self.all();
                match self.phase {
                    Phase::Terminating => {
                        let l: Vec<Did> = all.into_iter().map(Did::Terminal).collect();
                        self.expect("the last frame", &l);
                        self.phase = Phase::Over;
                    }
                    _ => {
                        let l: Vec<Did> = if self.paused { vec![] } else { all.into_iter().map(|t| Did::Process(t, delta)).collect() };
                        self.expect("a frame", &l);
                        if self.phase == Phase::Queued { self.phase = Phase::Terminating; }
                    }
                }
                let fine = match status {
                    TreeStatus::Process(p) => self.phase == Phase::Running && (p == TreeProcess::Paused) == self.paused,
                    TreeStatus::QueuedTermination(_) => false,
                    TreeStatus::Terminating => self.phase == Phase::Terminating,
                    TreeStatus::Terminated => self.phase == Phase::Over,
                };
                if !fine { self.bad(format!("the frame ended with {status:?}")); }
            }
            _ if over || self.phase == Phase::Terminating => (),
            2 | 3 => {
                if self.kids.len() > 5 { return self.look(); }
                self.tags += 1;
                let tag = self.tags;
                self.root().add_child(Aside::new(tag));
                let rid = self.root().children().last().map(|c| c.rid());
                match rid { Some(r) => self.kids.push((r, tag)), None => self.bad("a child was not added".into()) }
                self.expect("adding a child", &[Did::Ready(tag)]);
            }
            4 => {
                if self.kids.is_empty() { return self.look(); }
                let (rid, tag) = self.kids.remove(x as usize % self.kids.len());
                match self.tree.get_node_mut(rid) { Some(n) => n.free(), None => self.bad("a child does not resolve".into()) }
                self.listeners.retain(|t| *t != tag);
                self.singles.retain(|_, r| *r != rid);
                self.expect("removing a child", &[Did::Terminal(tag)]);
            }
            5 => {
                let name = SINGLES[x as usize % 3];
                let rid = match self.kids.len() { 0 => self.root().rid(), n => self.kids[y as usize % n].0 };
                if self.singles.values().any(|r| *r == rid) { return self.look(); }
                let ok = !self.singles.contains_key(name);
                let r = self.tree.register_as_singleton(rid, name.to_string());
                if r != Some(ok) { self.bad(format!("registering the singleton {name:?} gave {r:?}")); }
                if ok { self.singles.insert(name, rid); }
            }
            6 => if self.phase == Phase::Running { if y & 1 == 0 { self.tree.pause(); self.paused = true } else { self.tree.unpause(); self.paused = false } },
            7 => {
                if self.kids.is_empty() || self.listeners.len() > 5 { return self.look(); }
                let (rid, tag) = self.kids[x as usize % self.kids.len()];
                let ptr = unsafe { &mut *(&mut *self.tree as *mut TreeSimple) }.as_dyn_raw_mut();
                let root = self.root();
                let to = unsafe { Tp::<Aside>::new(ptr, root.rid(), rid) }.to_option();
                match (to, root.as_any_ref().downcast_ref::<Aside>()) {
                    (Some(to), Some(r)) => { unsafe { r.on_a.connect(move |v| { if to.is_valid() { to.hear(v) } }); } self.listeners.push(tag) }
                    _ => self.bad("a pointer to a child could not be made".into())
                }
            }
            8 => {
                let root = self.root();
                if let Some(r) = root.as_any_ref().downcast_ref::<Aside>() { r.on_a.emit(y); }
                let mut l: Vec<u64> = self.listeners.clone();
                l.sort();
                did().sort_by_key(|d| match d { Did::Heard(t, _) => *t, _ => 0 });
                let l: Vec<Did> = l.into_iter().map(|t| Did::Heard(t, y)).collect();
                self.expect("emitting a signal", &l);
            }
            9 => match x % 4 {
                0 if self.phase == Phase::Running => { self.tree.queue_termination(); self.phase = Phase::Queued; }
                1 => { self.tree.set_default_header_on_panic("Another tree's header"); self.tree.set_default_footer_on_panic("Another tree's footer"); }
                _ => ()
            },
            _ => (),
        }
        self.look()
    }
    /// Compares the whole tree.
    pub fn look(&mut self) -> String {
        if self.phase != Phase::Over {
            let want = self.kids.clone();
            let tag = |n: &dyn Node| n.as_any_ref().downcast_ref::<Aside>().map(|a| *a.tag);
            let root = self.root();
            if tag(root) != Some(self.base()) || !root.is_root() { self.bad("the root is another node".into()); }
            let rr = root.rid();
            let have: Vec<(RID, u64)> = root.children().iter().map(|c| (c.rid(), tag(&**c).unwrap_or(0))).collect();
            if have != want { self.bad(format!("the children are {have:?} instead of {want:?}")); }
            let mut names: Vec<String> = vec![];
            for (rid, t) in &want {
                let Some(n) = self.tree.get_node(*rid) else { self.bad(format!("@{rid} does not resolve")); continue };
                let n: &'static dyn Node = unsafe { &*(n as *const dyn Node) };
                if tag(n) != Some(*t) { self.bad(format!("@{rid} resolves to another node")); }
                if n.parent_dyn().to_option().map(|p| p.rid()) != Some(rr) || n.depth() != 1 || !n.in_tree() { self.bad(format!("@{rid} is somewhere else")); }
                if !matches!(n.status(), NodeStatus::Normal) { self.bad(format!("the status of @{rid} is {:?}", n.status())); }
                if self.tree.get_node_rid(n.get_absolute_path(), None) != Some(*rid) { self.bad(format!("the path of @{rid} does not lead to it")); }
                names.push(n.name().to_string());
            }
            names.sort();
            if names.windows(2).any(|w| w[0] == w[1]) { self.bad(format!("the names are {names:?}")); }
            if want.len() == 1 && names[0] != "Aside" && self.tags == self.base() + 1 { self.bad(format!("the only child's name is {:?}", names[0])); }
            for s in SINGLES {
                let (have, want) = (self.tree.get_node_rid(s, Some(rr)), self.singles.get(s).copied());
                if have != want { self.bad(format!("the singleton {s:?} is {have:?} instead of {want:?}")); }
            }
        }
        let log = self.tree.get_log();
        if !log.is_empty() { self.bad(format!("the log is {log:?}")); }
        std::mem::take(&mut self.diff)
    }
}
