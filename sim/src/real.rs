//! Performs a program's operations on the real library, and records what can be observed.

use crate::classes::*;
use crate::ev::{nodes, opt, s, Ev, V};
use crate::prog::{name_of, Op, Program, Spec, K, NAMES};
use crate::sysim::sys;
use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::structs::node_tree_base::NodeIdentity;
use node_tree::trees::TreeSimple;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub enum Cb { Loaded, Ready, Process(f32), Terminal(TerminationReason), Heard(u64, u64) }
pub struct SimPanic(pub u64);

enum Ptr { Dyn(TpDyn<'static>), A(Tp<'static, Alpha>), B(Tp<'static, Beta>), C(Tp<'static, Gamma>), D(Tp<'static, Delta>) }
trait IntoPtr { fn into_ptr(self) -> Ptr; }
impl IntoPtr for Tp<'static, Alpha> { fn into_ptr(self) -> Ptr { Ptr::A(self) } }
impl IntoPtr for Tp<'static, Beta> { fn into_ptr(self) -> Ptr { Ptr::B(self) } }
impl IntoPtr for Tp<'static, Gamma> { fn into_ptr(self) -> Ptr { Ptr::C(self) } }
impl IntoPtr for Tp<'static, Delta> { fn into_ptr(self) -> Ptr { Ptr::D(self) } }

#[derive(Clone, Copy)]
struct Conn { node: *const dyn Node, sig: u64, rid: Option<RID> }
#[derive(Clone, Copy)]
pub struct Me { rid: RID, ptr: *mut dyn Node }

pub struct World {
    prog: Program,
    tree: Option<Box<TreeSimple>>,
    tp: Option<*mut dyn NodeTree>,
    pub trace: Vec<Ev>,
    trig: Vec<(u64, Op)>,
    cb: u64,
    drops: Option<u64>,
    in_drop: bool,
    framing: bool,
    copies: u64,
    slots: Vec<Option<NodeScene>>,
    ptrs: Vec<Option<Ptr>>,
    conns: Vec<Conn>,
    posts: u64,
    log_at: usize,
    root_path: String,
    pub over: bool,
    others: Vec<crate::aside::Other>,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World { unsafe { W.as_mut().expect("harness: no world") } }
#[allow(static_mut_refs)]
fn wo() -> Option<&'static mut World> { unsafe { W.as_mut() } }

fn ev(k: &'static str, f: Vec<V>) { w().trace.push(Ev { k, f }); }
pub fn dropped(serial: u64) {
    let Some(w0) = wo() else { return };
    w0.trace.push(Ev { k: "drop", f: vec![V::U(serial)] });
    // What is destroyed when a frame starts may do something itself.
    let Some(k) = w0.drops else { return };
    if w0.in_drop || std::thread::panicking() { return; }
    w0.drops = Some(k + 1);
    let ops: Vec<Op> = w0.trig.iter().filter(|t| t.0 == AT_DROP + k).map(|t| t.1).collect();
    if ops.is_empty() { return; }
    w0.in_drop = true;
    ev("dropping", vec![V::U(k)]);
    for op in ops { exec(&op, None); shape(); }
    ev("gone", vec![]);
    w().in_drop = false;
}
/// Lets the n-th copy of a node from now on panic. Gives nothing if that happened.
fn fragile<T>(n: u64, f: impl FnOnce() -> T) -> Option<T> {
    if n == 0 { return Some(f()); }
    w().copies = n;
    let r = catch_unwind(AssertUnwindSafe(f));
    w().copies = 0;
    match r { Ok(x) => Some(x), Err(p) => { unwound(p); None } }
}
pub fn copying() {
    let Some(w0) = wo() else { return };
    if w0.copies > 0 { w0.copies -= 1; if w0.copies == 0 { panic_any(SimPanic(NO_COPY)); } }
}
pub const NO_COPY: u64 = 777;
pub const AT_DROP: u64 = 1000;
pub fn tree_ptr() -> *mut dyn NodeTree { w().tp.expect("harness: no tree") }
fn tree() -> &'static mut dyn NodeTree { unsafe { &mut *tree_ptr() } }
fn node(rid: RID) -> &'static mut dyn Node { tree().get_node_mut(rid).expect("harness: no such node") }
fn st(n: &'static mut dyn Node) -> &'static mut dyn Sim { sim_mut(n) }

pub fn message(kind: u64, token: u64) -> String {
    match kind {
        0 => format!("message #{token}#"),
        1 => format!("{{}} %s \u{20ac}\u{1F600} \u{e9} #{token}#"),
        2 => format!("two\nlines #{token}#"),
        3 => format!("#{token}#"),
        6 => format!("cr\r\nlf #{token}#"),
        10 => format!("#{token}# {}", "l\u{f6}ng ".repeat(1 + (token * 37 % 211) as usize)),
        8 => "again".into(),
        9 => String::new(),
        7 => format!("\0 \t\u{85}\u{2028}\u{feff}\r #{token}#"),
        4 => format!("a | WARN | <b> #{token}# \\n \"quoted\""),
        _ => format!("  spaces #{token}#  "),
    }
}
pub fn header(i: u64) -> &'static str { ["HEADER ONE", "Header \u{20ac} two", "h3", "A longer header. With two sentences."][i as usize % 4] }
pub fn footer(i: u64) -> &'static str { ["FOOTER ONE", "Footer \u{20ac} two", "f3", "A longer footer. With two sentences."][i as usize % 4] }
/// Names of singletons, some of which are only almost the same.
pub fn single(i: u64) -> String { ["S0", "s0", "S", "S0 ", "\u{17f}0", "S1"][i as usize % 6].to_string() }
pub fn name_at(i: u64) -> &'static str { match NAMES[i as usize % NAMES.len()] { "" => "A", n => n } }

/* ---------------------------------------------------------------- looking at the tree */

fn root() -> Option<RID> { if w().tp.is_none() { return None; } tree().get_node(0).map(|n| n.rid()) }
fn kids(rid: RID) -> Vec<RID> { node(rid).children().iter().map(|c| c.rid()).collect() }
/// All nodes level by level, as found by following the children.
fn bfs() -> Vec<RID> {
    let mut v: Vec<RID> = root().into_iter().collect();
    let mut i = 0;
    while i < v.len() && v.len() < 3000 { let k = kids(v[i]); v.extend(k); i += 1; }
    v
}
fn pick(sel: u64, me: Option<Me>) -> Option<RID> {
    let (mode, idx) = (sel & 15, (sel >> 4) as usize);
    let all = bfs();
    if all.is_empty() { return None; }
    let any = Some(all[idx % all.len()]);
    let me = me.filter(|m| unsafe { &*m.ptr }.in_tree()).map(|m| m.rid);
    let near = |rid: RID| { let k = kids(rid); if k.is_empty() { rid } else { k[idx % k.len()] } };
    let parent = |rid: RID| { let n = node(rid); if n.is_root() { rid } else { n.parent_dyn().to_option().map(|p| p.rid()).unwrap_or(rid) } };
    match (mode, me) {
        (4, _) => all.last().copied(),
        (0, _) | (6.., _) | (_, None) => any,
        (1, Some(m)) => Some(m),
        (2, Some(m)) => Some(parent(m)),
        (3, Some(m)) => Some(near(m)),
        (5, Some(m)) => Some(near(parent(m))),
    }
}
fn look(n: &dyn Node) -> Vec<V> {
    let rid = n.rid();
    let here = n as *const dyn Node as *const u8;
    let in_tree = n.in_tree();
    let mut f = vec![V::N(Some(rid)), V::U(sim(n).ident().serial), V::B(in_tree)];
    if in_tree {
        let parent = if n.is_root() { None } else { n.parent_dyn().to_option().map(|p| p.rid()) };
        let k: Vec<RID> = n.children().iter().map(|c| c.rid()).collect();
        f.extend([V::N(parent), V::N(Some(n.owner_dyn().rid())), nodes(&k), V::U(n.depth() as u64), s(n.name()),
            V::B(tree().get_node(rid).map(|x| x as *const dyn Node as *const u8 == here).unwrap_or(false))]);
    }
    f
}
fn shape() {
    let _a = crate::alloc::aside();
    let mut l = vec![];
    fn go(rid: RID, d: u64, l: &mut Vec<V>) {
        if l.len() > 3000 { return; }
        l.push(V::L(vec![V::N(Some(rid)), V::U(d)]));
        for k in kids(rid) { go(k, d + 1, l); }
    }
    if let Some(r) = root() { go(r, 0, &mut l); }
    ev("tree", vec![V::L(l)]);
}
fn status_of(n: &dyn Node) -> V {
    match n.status() {
        NodeStatus::Normal => V::L(vec![V::U(0)]),
        NodeStatus::JustWarned(m) => V::L(vec![V::U(1), V::S(m)]),
        NodeStatus::JustPanicked(m) => V::L(vec![V::U(2), V::S(m)]),
    }
}
fn tree_status(st: TreeStatus) -> V {
    s(match st {
        TreeStatus::Process(TreeProcess::Running) => "running",
        TreeStatus::Process(TreeProcess::Paused) => "paused",
        TreeStatus::QueuedTermination(TreeProcess::Running) => "queued",
        TreeStatus::QueuedTermination(TreeProcess::Paused) => "queued paused",
        TreeStatus::Terminating => "terminating",
        TreeStatus::Terminated => "terminated",
    })
}
fn fields(n: &mut dyn Sim) -> Vec<V> {
    let num = **n.num_ref();
    let deft = **n.deft_ref();
    let plain = if n.plain_ref().is_void() { None } else { Some(**n.plain_ref()) };
    let uniq = if n.uniq_ref().is_void() { None } else { Some(**n.uniq_ref()) };
    vec![V::I(num), V::U(deft), opt(plain), opt(uniq)]
}
fn snapshot() {
    shape();
    for rid in bfs() {
        let n = node(rid);
        let mut f = look(n);
        let identity = match tree().get_node_identity(rid) { Some(NodeIdentity::UniqueName(n)) => s(&n), Some(NodeIdentity::NodePath) => s(""), None => s("<none>") };
        f.extend([status_of(n), V::B(n.has_just_loaded()), V::S(n.get_absolute_path().to_string()), identity,
            V::B(n.is_root()), V::B(n.is_owner()), V::U(n.num_children() as u64), s(&n.name_as_type())]);
        let sm = st(n);
        f.extend([V::U(sm.ident().tag)]);
        f.extend(fields(sm));
        ev("node", f);
    }
    let mut f = vec![];
    for i in 0..6 { f.push(V::N(tree().get_node_rid(single(i), None))); }
    ev("singles", f);
}

/* ---------------------------------------------------------------- callbacks */

pub fn callback(n: &mut dyn Sim, cb: Cb) {
    let Some(w0) = wo() else { return };
    let ptr: *mut dyn Node = n.as_dyn_raw_mut();
    if w0.tp.is_none() { w0.tp = n.tree_mut().map(|t| t as *mut dyn NodeTree).map(|t| unsafe { std::mem::transmute(t) }); }
    let (kind, extra) = match cb {
        Cb::Loaded => ("loaded", V::U(0)),
        Cb::Ready => ("ready", V::U(0)),
        Cb::Process(d) => ("process", V::F(d)),
        Cb::Terminal(r) => ("terminal", s(&format!("{r:?}"))),
        Cb::Heard(c, v) => ("heard", V::L(vec![V::U(c), V::U(v)])),
    };
    let mut f = vec![s(kind), extra];
    f.extend(look(n.as_dyn()));
    ev("cb", f);
    let me = Me { rid: n.rid(), ptr };
    triggers(Some(me));
    ev("end", vec![]);
}
/// Something that a listener owns: it has to be there for as long as the listener runs.
pub struct Kept(u64);
impl Kept {
    const THERE: u64 = 0x6b65_7074_6b65_7074;
    pub fn new() -> Self { Kept(Self::THERE) }
    pub fn check(&self, conn: u64) {
        if unsafe { std::ptr::read_volatile(&self.0) } != Self::THERE { ev("freed", vec![V::U(conn)]); }
    }
}
impl Drop for Kept {
    fn drop(&mut self) { unsafe { std::ptr::write_volatile(&mut self.0, 0) } }
}
/// A listener that is not a node.
fn bare(conn: u64, v: u64) {
    ev("cb", vec![s("bare"), V::L(vec![V::U(conn), V::U(v)])]);
    triggers(None);
    ev("end", vec![]);
}
fn triggers(me: Option<Me>) {
    let at = w().cb;
    w().cb += 1;
    if w().in_drop { return; }
    w().drops = None;
    let ops: Vec<Op> = w().trig.iter().filter(|t| t.0 == at).map(|t| t.1).collect();
    for op in ops {
        exec(&op, me);
        shape();
    }
}
fn unwound(p: Box<dyn std::any::Any + Send>) {
    match p.downcast_ref::<SimPanic>() {
        Some(x) => ev("caught", vec![V::U(x.0)]),
        None => ev("caught", vec![s("library"), s(p.downcast_ref::<String>().map(|x| x.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?"))]),
    }
    std::mem::forget(p);
}

/* ---------------------------------------------------------------- operations */

fn fresh(class: u64, name: u64, tag: u64, mode: u64, num: i64) -> Box<dyn Node> {
    of_class!(class, C => {
        let mut n = C::new(num);
        dress(&mut n, name, tag, mode);
        n.to_dyn_box()
    })
}
fn dress(n: &mut dyn Sim, name: u64, tag: u64, mode: u64) {
    n.ident_mut().tag = tag;
    n.ident_mut().mode = mode;
    let name = NAMES[name as usize % NAMES.len()];
    if !name.is_empty() { n.set_name(name); }
}
fn build(sp: &Spec) -> NodeScene {
    let mut sc = NodeScene::new_dyn(fresh(sp.class, sp.name, sp.tag, sp.mode, sp.num));
    sc.is_owner = sp.owner;
    for k in &sp.kids {
        let c = build(k);
        if k.owner { sc.append_as_owner(c) } else { sc.append(c) }
    }
    sc
}
fn scene_size(s: &NodeScene) -> usize { 1 + s.children().iter().map(scene_size).sum::<usize>() }
fn scene_nodes(sc: &NodeScene, d: u64, out: &mut Vec<V>) {
    let mut n = unsafe { sc.get_node() };
    let mut f = vec![V::U(d), s(&n.name_as_type()), s(n.name()), V::B(sc.is_owner), V::U(sim(&*n).ident().serial), V::U(sim(&*n).ident().tag), V::B(n.in_tree())];
    f.extend(fields(sim_mut(&mut *n)));
    out.push(V::L(f));
    let _ = Box::into_raw(n);
    for c in sc.children() { scene_nodes(c, d + 1, out); }
}
fn err_name(e: &NodeError) -> V {
    s(match e { NodeError::IndexOutOfRange { .. } => "range", NodeError::InvalidPath(_) | NodeError::InvalidRootPath(_) => "path", NodeError::NoParent => "noparent", NodeError::TPError(e) => return tp_err(e) })
}
fn tp_err(e: &TPError) -> V { s(match e { TPError::WrongType => "type", TPError::IsNull => "null", _ => "cast" }) }
fn dyn_res(r: TreeResult<TpDyn, NodeError>) -> V { match r.to_result() { Ok(p) => V::N(Some(p.rid())), Err(e) => err_name(&e) } }
fn typ_res<T: Node>(r: TreeResult<Tp<T>, NodeError>) -> V { match r.to_result() { Ok(p) => V::N(Some(p.rid())), Err(e) => err_name(&e) } }

fn path_between(a: RID, b: RID) -> Vec<String> {
    let up = |mut r: RID| { let mut v = vec![r]; while !node(r).is_root() { r = node(r).parent_dyn().to_option().map(|p| p.rid()).unwrap_or(0); v.push(r); if v.len() > 3000 { break; } } v.reverse(); v };
    let (ua, ub) = (up(a), up(b));
    let mut c = 0;
    while c < ua.len() && c < ub.len() && ua[c] == ub[c] { c += 1; }
    let mut p: Vec<String> = vec!["..".to_string(); ua.len() - c];
    p.extend(ub[c..].iter().map(|&r| node(r).name().to_string()));
    p
}

pub fn exec(op: &Op, me: Option<Me>) {
    let a = op.a;
    crate::sup::out().ops[op.k as usize] += 1;
    // Operations on nodes need one, and so does everything that acts on a tree with a root.
    macro_rules! target { ($i:expr) => { match pick(a[$i], me) { Some(r) => r, None => { ev("op", vec![s(name_of(op.k)), V::N(None)]); return } } } }
    macro_rules! begin { ($($x:expr),*) => { ev("op", vec![s(name_of(op.k)) $(, $x)*]) } }
    let n_ = |r: RID| V::N(Some(r));
    match op.k {
        K::Nop | K::BaseTrip => begin!(),
        K::Frame => {
            sys().mono_ns += a[0] as i128;
            begin!();
            // Frames within frames are fine, but those within other callbacks are not intended.
            let nested = w().cb > 0;
            if nested && !w().framing { return; }
            if !nested { w().framing = true; w().drops = Some(0); }
            let r = tree().process();
            if !nested { w().framing = false; w().drops = None; }
            ev("ret", vec![tree_status(r), V::B(r.is_active()), V::B(r.has_terminated())]);
        }
        K::AddNode => {
            let t = target!(0);
            begin!(n_(t));
            if bfs().len() > 150 { return; }
            let (tag, mode, via) = (a[3] >> 8, (a[3] >> 4) & 15, a[3] & 3);
            of_class!(a[1], C => {
                let mut n = C::new(tag as i64);
                dress(&mut n, a[2], tag, mode);
                match via {
                    0 => node(t).add_child(n),
                    1 => node(t).add_child(NodeScene::new(n)),
                    _ => { let mut s = NodeScene::new(n); s.is_owner = false; node(t).add_child(s) }
                }
            });
        }
        K::AddScene => {
            let t = target!(0);
            begin!(n_(t));
            if bfs().len() > 150 { return; }
            let sp = &w().prog.scenes[a[1] as usize % w().prog.scenes.len()];
            let mut sc = build(sp);
            match a[2] { 1 => sc.is_owner = true, 2 => sc.is_owner = false, _ => () }
            node(t).add_child(sc);
        }
        K::AddSame => {
            let (t, src) = (target!(0), target!(1));
            begin!(n_(t), n_(src));
            let sc = node(src).save_as_branch();
            if bfs().len() > 150 || scene_size(&sc) > 30 { return; }
            node(t).add_child(sc.clone());
            if tree().get_node(t).is_some() { node(t).add_child(sc); }
        }
        K::Free => {
            let t = target!(0);
            begin!(n_(t));
            if node(t).is_root() && a[1] != 2 { return; }
            match me { Some(m) if m.rid == t => unsafe { &mut *m.ptr }.free(), _ => node(t).free() }
        }
        K::RemoveChild => {
            let t = target!(0);
            let k = kids(t);
            begin!(n_(t), V::U(k.len() as u64));
            if k.is_empty() { return; }
            let name = node(k[a[1] as usize % k.len()]).name().to_string();
            let r = node(t).remove_child(&name);
            ev("ret", vec![V::B(r)]);
        }
        K::RemoveMissing => {
            let t = target!(0);
            begin!(n_(t));
            let r = node(t).remove_child("\u{1}none");
            ev("ret", vec![V::B(r)]);
        }
        K::Rename => {
            let t = target!(0);
            let name = match a[2] {
                0 => name_at(a[1]).to_string(),
                1 => node(t).name().to_string(),
                _ => {
                    if node(t).is_root() { name_at(a[1]).to_string() } else {
                        let k = kids(node(t).parent_dyn().to_option().unwrap().rid());
                        node(k[a[3] as usize % k.len()]).name().to_string()
                    }
                }
            };
            begin!(n_(t), s(&name));
            node(t).set_name(&name);
            ev("ret", vec![s(node(t).name())]);
        }
        K::TakePtr => {
            let (o, t) = (target!(0), target!(1));
            begin!(n_(o), n_(t));
            let class = sim(node(t)).class();
            let slot = a[3] as usize % 8;
            let p: Option<Ptr> = match a[2] {
                0 => unsafe { TpDyn::new(tree_ptr(), o, t) }.to_option().map(Ptr::Dyn),
                1 => of_class!(class, C => unsafe { Tp::<C>::new(tree_ptr(), o, t) }.to_option().map(IntoPtr::into_ptr)),
                2 => of_class!(class + 1 + a[3] % 3, C => unsafe { Tp::<C>::new(tree_ptr(), o, t) }.to_option().map(IntoPtr::into_ptr)),
                3 => of_class!(class, C => { let path = node(t).get_absolute_path(); node(o).get_node::<C>(path).to_option().map(IntoPtr::into_ptr) }),
                4 => { let path = node(t).get_absolute_path(); node(o).get_node_dyn(path).to_option().map(Ptr::Dyn) }
                5 => of_class!(class, C => node(t).this_dyn().to::<C>().to_option().map(IntoPtr::into_ptr)),
                6 => of_class!(class, C => Some(node(t).this::<C>().into_ptr())),
                way => {
                    // From a node to its relatives.
                    let kids = node(o).children();
                    let i = if kids.is_empty() { 0 } else { (a[3] >> 3) as usize % kids.len() };
                    let to = match way { 10 | 11 => node(o).parent_dyn().to_option(), 12 | 13 => Some(node(o).owner_dyn()), _ => kids.get(i).copied() };
                    let class = to.map(|x| sim(node(x.rid())).class()).unwrap_or(0);
                    match way {
                        7 | 10 | 12 => to.map(Ptr::Dyn),
                        8 => of_class!(class, C => node(o).get_child::<C>(i).to_option().map(IntoPtr::into_ptr)),
                        9 => node(o).get_child_dyn(i).to_option().map(Ptr::Dyn),
                        11 => of_class!(class, C => node(o).parent::<C>().to_option().map(IntoPtr::into_ptr)),
                        13 => of_class!(class, C => node(o).owner::<C>().to_option().map(IntoPtr::into_ptr)),
                        14 => of_class!(class, C => node(o).get_child::<C>(i).to_option().and_then(|x| x.try_to_dyn().to_option()).map(Ptr::Dyn)),
                        15 => of_class!(class, C => node(o).get_child::<C>(i).to_option().map(|x| Ptr::Dyn(x.to_dyn()))),
                        _ => of_class!(class, C => node(o).get_child_dyn(i).to_option().and_then(|x| x.to::<C>().to_option()).map(IntoPtr::into_ptr)),
                    }
                }
            };
            ev("ret", vec![V::B(p.is_some())]);
            if p.is_some() { w().ptrs[slot] = p; }
        }
        K::CheckPtrs => {
            begin!();
            for i in 0..8 { if w().ptrs[i].is_some() { check_ptr(i); } }
            // Paths that need no node to start from, also when the root is gone.
            if let Some(r) = root() { w().root_path = node(r).get_absolute_path().to_string(); }
            let (abs, up) = (NodePath::from_str(&w().root_path), NodePath::from_str(".."));
            ev("ways", vec![V::N(tree().get_node_rid(abs, None)), V::N(tree().get_node_rid(up.clone(), None)), V::N(tree().get_node_rid(up, Some(0)))]);
        }
        K::UsePtr => {
            let i = a[0] as usize % 8;
            begin!(V::B(w().ptrs[i].is_some()));
            if w().ptrs[i].is_none() { return; }
            guarded(a[2] & 1 == 1, || {
                macro_rules! typed { ($p:expr) => { match a[1] {
                    0 => $p.get().ident().serial,
                    1 if a[3] == 0 => (**$p).ident().serial,
                    1 => (&mut **$p).ident_mut().serial,
                    2 => $p.get_mut().ident_mut().serial,
                    _ => sim($p.clone().to_dyn().get()).ident().serial,
                } } }
                let serial = match w().ptrs[i].as_mut().unwrap() {
                    Ptr::A(p) => typed!(p), Ptr::B(p) => typed!(p), Ptr::C(p) => typed!(p), Ptr::D(p) => typed!(p),
                    Ptr::Dyn(p) => match a[1] {
                        0 => sim(p.get()).ident().serial,
                        1 => sim(&**p).ident().serial,
                        2 => sim_mut(p.get_mut()).ident_mut().serial,
                        _ => sim_mut(&mut **p).ident_mut().serial,
                    }
                };
                ev("ret", vec![V::U(serial)]);
            });
        }
        K::Other => {
            begin!();
            let i = a[3] as usize & 1;
            let o = &mut w().others;
            let r = catch_unwind(AssertUnwindSafe(|| {
                while o.len() <= i { let n = o.len() as u64; o.push(crate::aside::Other::new((n + 1) << 16)); }
                let mut d = o[i].act(a[0], a[1], a[2]);
                for x in o.iter_mut() { if d.is_empty() { d = x.look(); } }
                d
            }));
            ev("other", vec![V::S(r.unwrap_or_else(|_| "the library panicked".into()))]);
        }
        K::RegSingle => {
            let t = target!(0);
            begin!(n_(t));
            let r = if a[2] == 0 { node(t).register_as_singleton(single(a[1])) } else { tree().register_as_singleton(t, single(a[1])).unwrap_or(false) };
            ev("ret", vec![V::B(r)]);
        }
        K::FindSingle => {
            let t = target!(0);
            begin!(n_(t));
            let n = single(a[1]);
            let r = match a[2] { 0 => node(t).get_node_dyn(n.as_str()).to_option().map(|p| p.rid()), _ => tree().get_node_rid(n, Some(t)) };
            ev("ret", vec![V::N(r)]);
        }
        K::Connect => {
            let (from, to) = (target!(0), target!(1));
            begin!(n_(from), n_(to));
            let (sig, once, flavour) = (a[2] & 1, a[3] & 1 == 1, a[3] >> 1);
            let id = w().conns.len() as u64;
            let n = sim(node(from));
            let ptr = node(from) as *const dyn Node;
            let rid = match flavour {
                3 => {
                    let kept = Kept::new();
                    Some(unsafe { if once { n.signal(sig).connect_once(move |v| { bare(id, *v); kept.check(id) }) } else { n.signal(sig).connect(move |v| { bare(id, *v); kept.check(id) }) } })
                }
                2 if n.link_same(sig, once, to) => None,
                _ => n.listen(sig, once, id, to),
            };
            w().conns.push(Conn { node: ptr, sig, rid });
            ev("ret", vec![V::U(id), opt(rid)]);
        }
        K::Disconnect => {
            let c = &w().conns;
            begin!(V::U(c.len() as u64));
            if c.is_empty() { return; }
            let c = c[a[0] as usize % c.len()];
            let Some(rid) = c.rid else { return };
            // A signal can be used for as long as its node lives.
            let Some(n) = bfs().into_iter().map(node).find(|n| *n as *const dyn Node as *const u8 == c.node as *const u8) else { ev("ret", vec![]); return };
            let r = sim(n).signal(c.sig).disconnect(rid);
            ev("ret", vec![V::B(r)]);
        }
        K::Emit => {
            let t = target!(0);
            begin!(n_(t));
            guarded(a[3] & 1 == 1, || {
                sim(node(t)).signal(a[1]).emit(a[2]);
                ev("ret", vec![]);
            });
        }
        K::Pause => { begin!(); tree().pause(); }
        K::Unpause => { begin!(); tree().unpause(); }
        K::QueueTerm => { begin!(); tree().queue_termination(); }
        K::Terminate => { begin!(); tree().terminate(); }
        K::Mono => { begin!(); sys().mono_ns += a[0] as i128; }
        K::Wall => {
            begin!();
            let d = a[0] as i128 * 1_000_000_000 + a[1] as i128;
            match a[2] { 0 => sys().wall_ns = d, 1 => sys().wall_ns += d / 1000, 2 => sys().wall_ns -= d / 1000, _ => sys().wall_ns += a[1] as i128 }
            if w().prog.prop != 18 { sys().wall_ns = sys().wall_ns.max(0); }
        }
        K::Post => {
            let t = target!(0);
            begin!(n_(t));
            let token = w().posts;
            w().posts += 1;
            let msg = message(a[2], token);
            let n = node(t);
            match (a[1], token & 3) {
                (0, 0 | 1) => n.post(Log::Debug(&msg)),
                (0, 2) => debug!(n, "{}", msg),
                (0, _) => debug!(n, "{msg}"),
                (1, 0 | 1) => n.post(Log::Info(&msg)),
                (1, 2) => info!(n, "{}", msg),
                (1, _) => info!(n, "{msg}"),
                (2, 0 | 1) => n.post(Log::Warn(&msg)),
                (2, 2) => warn!(n, "{}", msg),
                (2, _) => warn!(n, "{msg}"),
                (_, 0 | 1) => n.post(Log::Panic(&msg)),
                (_, 2) => error!(n, "{}", msg),
                (_, _) => error!(n, "{msg}"),
            }
        }
        K::Header => {
            begin!();
            if a[0] == 0 { tree().set_default_header_on_panic(header(a[1])); } else { tree().set_default_footer_on_panic(footer(a[1])); }
        }
        K::Fail => {
            let (t, t2) = (target!(0), target!(2));
            begin!(n_(t), n_(t2));
            let kill = (a[2] >> 12) & 1 == 1 && !node(t).is_root();
            guarded((a[2] >> 13) & 1 == 1, || {
                fn before(kill: bool, t: RID) { if kill && tree().get_node(t).is_some() { node(t).free(); } ev("failing", vec![]); }
                macro_rules! go { ($r:expr, $x:ident => $y:expr) => {{ let $x = $r; before(kill, t); let _ = $y; }} }
                let class = sim(node(t2)).class();
                match a[1] {
                    0 => go!(node(t).get_child_dyn(1000), x => x.unwrap().rid()),
                    1 => go!(node(t).get_child_dyn(1000), x => x.expect("expected a child").rid()),
                    2 => go!(node(t).get_node_dyn(NodePath::from_str("no/such")), x => x.unwrap().rid()),
                    3 => of_class!(class + 1, C => { let path = node(t2).get_absolute_path(); go!(node(t).get_node::<C>(path), x => x.unwrap().rid()) }),
                    4 => go!(node(t).get_child_dyn(1000).ok(), x => x.unwrap().rid()),
                    5 => go!(node(t).get_child_dyn(1000).ok(), x => x.expect("expected a child").rid()),
                    6 => go!(node(t).get_node_dyn(NodePath::from_str(".")), x => x.unwrap_err()),
                    7 => go!(node(t).get_node_dyn(NodePath::from_str(".")), x => x.expect_err("expected an error")),
                    8 => of_class!(class + 2, C => go!(unsafe { TpDyn::new(tree_ptr(), t, t2) }.to_option().unwrap().to::<C>(), x => x.unwrap().rid())),
                    10 => match node(t).children().first().map(|x| sim(node(x.rid())).class()) {
                        Some(class) => of_class!(class + 1, C => go!(node(t).get_child::<C>(0), x => x.unwrap().rid())),
                        None => of_class!(class, C => go!(node(t).get_child::<C>(0), x => x.unwrap().rid()))
                    },
                    11 => of_class!(class, C => go!(node(t).get_child::<C>(1000), x => x.expect("expected a child").rid())),
                    12 => match node(t).parent_dyn().to_option().map(|x| sim(node(x.rid())).class()) {
                        Some(class) => of_class!(class + 1, C => go!(node(t).parent::<C>(), x => x.unwrap().rid())),
                        None if a[2] & 1 == 0 => go!(node(t).parent_dyn(), x => x.unwrap().rid()),
                        None => of_class!(class, C => go!(node(t).parent::<C>(), x => x.unwrap().rid()))
                    },
                    13 => { let class = sim(node(node(t).owner_dyn().rid())).class(); of_class!(class + 1, C => go!(node(t).owner::<C>(), x => x.unwrap().rid())) }
                    14 => of_class!(class, C => go!(node(t).get_node::<C>(NodePath::from_str("no/such")), x => x.unwrap().rid())),
                    15 => of_class!(class + 3, C => go!(unsafe { Tp::<C>::new(tree_ptr(), t, t2) }, x => x.unwrap().rid())),
                    _ => {
                        let p = unsafe { TpDyn::new(tree_ptr(), t, t2) }.to_option().unwrap();
                        if !greets(class) { go!(p.cast::<dyn Greeter>(), x => x.unwrap().greet()) }
                        else if !marks(class) { go!(p.cast::<dyn Marker>(), x => x.unwrap().mark()) }
                        else { go!(p.cast::<dyn std::fmt::Display>(), x => x.unwrap().to_string()) }
                    }
                }
                ev("ret", vec![]);
            });
        }
        K::Soft => {
            let (t, t2) = (target!(0), target!(2));
            begin!(n_(t), n_(t2));
            soft(a[1], t, t2);
        }
        K::Chain => {
            let (t, t2) = (target!(0), target!(3));
            begin!(n_(t), n_(t2));
            let (cur, std, diff) = crate::chain::run(a[1], tree_ptr(), t, t2);
            let on_good = a[2] & 4 == 4 && matches!(cur, crate::chain::Cur::R(_));
            let fails = a[2] & 1 == 1 && std.good() == on_good && diff.is_none();
            ev("chain", vec![s(&diff.unwrap_or_default()), V::B(fails)]);
            if !fails { return; }
            guarded(a[2] & 16 == 16, || {
                if a[2] & 2 == 2 && !node(t).is_root() && tree().get_node(t).is_some() { node(t).free(); }
                ev("failing", vec![]);
                match (cur, on_good, a[2] & 8 == 8) {
                    (crate::chain::Cur::O(x), _, false) => { x.unwrap(); }
                    (crate::chain::Cur::O(x), _, true) => { x.expect("expected a value"); }
                    (crate::chain::Cur::R(x), false, false) => { x.unwrap(); }
                    (crate::chain::Cur::R(x), false, true) => { x.expect("expected a value"); }
                    (crate::chain::Cur::R(x), true, false) => { x.unwrap_err(); }
                    (crate::chain::Cur::R(x), true, true) => { x.expect_err("expected an error"); }
                }
                ev("ret", vec![]);
            });
        }
        K::Panic => { begin!(); panic_any(SimPanic(a[0])); }
        K::Path => {
            let (t, t2) = (target!(0), target!(1));
            let mut segs = path_between(t, t2);
            if a[3] >= 6 {
                // Not necessarily a path to anything.
                match a[2] & 3 {
                    0 => segs.push("nope".into()),
                    1 => segs.push("..".into()),
                    2 => { if !segs.is_empty() { let i = (a[2] >> 4) as usize % segs.len(); segs.insert(i, "..".into()); } }
                    _ => { if !segs.is_empty() { let i = (a[2] >> 4) as usize % segs.len(); let x = segs[i].clone(); segs[i] = match (a[2] >> 9) & 7 {
                        0 => x.to_lowercase(), 1 => x.to_uppercase(), 2 => x + " ", 3 => format!(" {x}"), 4 => { let mut c = x.chars(); c.next_back(); c.as_str().to_string() } 5 => x.chars().skip(1).collect(), 6 => x + "0", _ => x + "1" }; } }
                }
            }
            let mut p = String::new();
            for (i, x) in segs.iter().enumerate() {
                let noise = a[2] >> (i as u64 * 2 % 16);
                if i > 0 { p += if noise & 1 == 1 { "//" } else { "/" }; }
                if noise & 2 == 2 { p += "./"; }
                p += x;
            }
            if a[2] & 0x100 != 0 && !p.is_empty() { p += "/"; }
            if p.is_empty() { p = ".".into(); }
            // Absolute paths, most of which lead nowhere.
            if a[3] == 7 && a[2] >> 13 == 7 {
                let r = node(0).name().to_string();
                p = match (a[2] >> 9) & 15 {
                    0 => "/".into(), 1 => "//".into(), 2 => "/..".into(), 3 => format!("/{r}/.."), 4 => format!("/{r}/../{r}"), 5 => format!("//{r}"), 6 => format!("/{r}//"), 7 => format!("/{r}/."),
                    8 => format!("/{r}/{p}"), 9 => format!("/{r}{r}"), 10 => format!("/{p}"), 11 => String::new(), 12 => format!("/{r}/./{p}/.."), 13 => format!("/{r}/{r}"), 14 => format!("{r}/{p}"), _ => format!("/{}", r.to_lowercase())
                };
            }
            begin!(n_(t), s(&p));
            let class = sim(node(t2)).class();
            let np = NodePath::from_str(&p);
            let text = np.clone().to_string();
            let same = NodePath::from_str(&text) == np;
            let again = if a[2] & 32 == 32 { nodepath!("{}", text) } else { nodepath!("{text}") };
            ev("ret", vec![dyn_res(node(t).get_node_dyn(np.clone())), dyn_res(node(t).get_node_dyn(again)), V::N(tree().get_node_rid(np.clone(), Some(t))),
                of_class!(class, C => typ_res(node(t).get_node::<C>(np.clone()))), of_class!(class + 1 + a[3] % 3, C => typ_res(node(t).get_node::<C>(np))), s(&text), V::B(same)]);
        }
        K::AbsPath => {
            let (t, t2) = (target!(0), target!(1));
            begin!(n_(t), n_(t2));
            let p = node(t2).get_absolute_path();
            let text = p.clone().to_string();
            let mut v = vec![s(&text), dyn_res(node(t).get_node_dyn(p.clone())), dyn_res(node(t).get_node_dyn(NodePath::from_str(&text))), V::N(tree().get_node_rid(p.clone(), None)), V::B(p.is_absolute())];
            // A path built from its parts, and one that starts at another root.
            let mut parts = NodePath::new_abs();
            for x in text.split('/') { if !x.is_empty() { parts.add_node(x); } }
            v.push(dyn_res(node(t).get_node_dyn(parts)));
            v.push(dyn_res(node(t).get_node_dyn(NodePath::from_str(&format!("/x{}", &text[1..])))));
            // A way around by the parent, one with needless segments, and the parts of a relative path.
            v.push(dyn_res(node(t).get_node_dyn(NodePath::from_str(&format!("{text}/../{}", text.rsplit('/').next().unwrap())))));
            v.push(dyn_res(node(t).get_node_dyn(NodePath::from_str(&format!("/{text}/.//./")))));
            let mut parts = NodePath::new();
            for x in path_between(t, t2) { parts.add_node(&x); }
            v.push(dyn_res(node(t).get_node_dyn(parts)));
            ev("ret", v);
        }
        K::SetMode => { let t = target!(0); begin!(n_(t)); st(node(t)).ident_mut().mode = a[1]; }
        K::SetField => {
            let t = target!(0);
            begin!(n_(t));
            let n = st(node(t));
            match a[2] {
                0 => **n.num_ref() = a[1] as i64,
                1 => **n.deft_ref() = a[1],
                2 => { n.plain_ref().write_valid(a[1]); }
                3 => { n.uniq_ref().write_valid(a[1]); }
                _ => { let _ = n.uniq_ref().take(); }
            }
        }
        K::SaveBranch => {
            let t = target!(0);
            begin!(n_(t));
            if scene_size_of(t) > 60 { return; }
            let Some(sc) = fragile(a[2], || node(t).save_as_branch()) else { return };
            w().slots[a[1] as usize % 8] = Some(sc);
        }
        K::CloneSlot => {
            let i = a[0] as usize % 8;
            begin!();
            let Some(c) = fragile(a[2], || w().slots[i].clone()) else { return };
            let j = (i + 1 + a[1] as usize % 7) % 8;
            if c.is_some() { w().slots[j] = c; }
        }
        K::AppendSlot => {
            let (i, j) = (a[0] as usize % 8, a[1] as usize % 8);
            begin!();
            if i == j || w().slots[i].is_none() || w().slots[j].is_none() { return; }
            let c = if a[3] & 1 == 0 { w().slots[i].clone().unwrap() } else { w().slots[i].take().unwrap() };
            if scene_size(&c) + scene_size(w().slots[j].as_ref().unwrap()) > 60 { w().slots[i] = Some(c); return; }
            // Below the root of the other scene: children can only be reached by rebuilding.
            let d = w().slots[j].as_mut().unwrap();
            if a[2] == 0 { d.append(c) } else { d.append_as_owner(c) }
        }
        K::TextTrip | K::DiskTrip => {
            let i = a[0] as usize % 8;
            let Some(sc) = w().slots[i].as_ref() else { begin!(); return };
            begin!(V::U(sc.structural_hash()));
            let back: Result<NodeScene, String> = if op.k == K::TextTrip {
                let Some(t) = fragile(a[1], || sc.save_to_str()) else { return };
                t.and_then(|t| NodeScene::load_from_str(&t))
            } else {
                use crate::sysim::{Fault, FaultKind};
                let mut r = crate::prng::Rng::new(a[1]);
                let faults = (0..r.below(5)).map(|_| Fault { at: r.below(12), kind: if r.chance(1, 2) { FaultKind::Short } else { FaultKind::Eintr }, arg: r.below(4096) }).collect();
                sys().arm(faults, if r.chance(1, 2) { 1 + r.below(200) as usize } else { 0 }, None);
                let name = format!("x{i}");
                let res = sc.save(std::path::Path::new("/sim"), &name).and_then(|_| NodeScene::load(std::path::Path::new(&format!("/sim/{name}.scn"))));
                sys().disarm();
                res
            };
            match back {
                Err(e) => ev("ret", vec![s("error"), s(&e)]),
                Ok(b) => {
                    ev("ret", vec![V::U(sc.structural_hash()), V::U(b.structural_hash())]);
                    let mut before = vec![];
                    scene_nodes(sc, 0, &mut before);
                    ev("slot", vec![V::L(before)]);
                    w().slots[i] = Some(b);
                }
            }
        }
        K::AddSlot => {
            let t = target!(0);
            begin!(n_(t));
            let i = a[1] as usize % 8;
            let Some(sc) = w().slots[i].as_ref() else { return };
            if bfs().len() > 150 || scene_size(sc) > 60 { return; }
            let mut sc = if a[3] & 1 == 0 { sc.clone() } else { w().slots[i].take().unwrap() };
            match a[2] { 1 => sc.is_owner = true, 2 => sc.is_owner = false, _ => () }
            node(t).add_child(sc);
        }
        K::CheckSlot => {
            let i = a[0] as usize % 8;
            begin!(V::B(w().slots[i].is_some()));
            check_slot(i);
        }
        K::TopDown => {
            let t = target!(0);
            begin!(n_(t));
            let l = node(t).top_down(a[1] == 1);
            let valid = tree().get_all_valid_nodes(&l).len();
            ev("ret", vec![nodes(&l), V::U(valid as u64)]);
        }
        K::Lookup => {
            let (t, t2) = (target!(0), target!(1));
            begin!(n_(t), n_(t2));
            let i = a[2] as usize;
            let n = node(t);
            let mut v = vec![dyn_res(n.get_child_dyn(i)), V::U(n.num_children() as u64), V::B(n.childless()), V::B(n.is_root()), V::B(n.is_owner()), V::U(n.depth() as u64),
                dyn_res(n.parent_dyn()), V::N(Some(n.owner_dyn().rid())), V::N(Some(n.this_dyn().rid())), s(n.name())];
            all_classes!(C => v.push(typ_res(n.get_child::<C>(i))));
            all_classes!(C => v.push(typ_res(n.parent::<C>())));
            all_classes!(C => v.push(typ_res(n.owner::<C>())));
            let list = [t, u64::MAX, t2];
            v.push(V::L(tree().get_nodes(&list).iter().map(|x| V::N(x.map(|x| x.rid()))).collect()));
            v.push(V::L(tree().get_all_valid_nodes(&list).iter().map(|x| V::N(Some(x.rid()))).collect()));
            v.push(V::N(Some(tree().root_mut().rid())));
            v.push(V::L(tree().get_all_valid_nodes_mut(&list[..2]).iter().map(|x| V::N(Some(x.rid()))).collect()));
            if t == t2 {
                // No node may be borrowed twice.
                for all in [false, true] {
                    let r = catch_unwind(AssertUnwindSafe(|| if all { tree().get_all_valid_nodes_mut(&list); } else { tree().get_nodes_mut(&list); }));
                    v.push(V::B(r.is_err()));
                    std::mem::forget(r);
                }
            }
            if t != t2 { v.push(V::L(tree().get_nodes_mut(&list).iter().map(|x| V::N(x.as_ref().map(|x| x.rid()))).collect())); }
            ev("ret", v);
        }
        K::Churn => {
            let t = target!(0);
            begin!(n_(t));
            let _a = crate::alloc::aside();
            let n = if w().prog.verbosity == 0 { a[2].clamp(1, 6000) } else { a[2].max(1) };
            let mut r = crate::prng::Rng::new(a[3]);
            let v = match a[1] { 0 => churn_nodes(t, n, &mut r), 1 => churn_links(t, n, &mut r), 2 => churn_names(t, n.min(70), &mut r), _ => { let n = if r.chance(1, 12) { 257 + n % 64 } else { n.min(120) }; churn_depth(t, n, &mut r) } };
            ev("ret", v);
        }
        K::Orphan => {
            begin!();
            // Either a node that never was in a tree, or the one that is running, as soon as it is out of it.
            let mut new = Brief::new();
            let n: &mut dyn Node = match me {
                Some(m) if a[3] != 0 => unsafe { &mut *m.ptr },
                _ => &mut new
            };
            if a[1] == 1 && !n.is_stray() && !n.is_root() { n.free(); }
            if !n.is_stray() { return; }
            let name = name_at(a[2]);
            let r = catch_unwind(AssertUnwindSafe(|| misuse(n, a[0], name)));
            ev("ret", vec![V::B(r.is_err()), V::B(n.in_tree()), V::B(name == n.name())]);
            if let Err(p) = r { std::mem::forget(p); }
        }
        K::SelfCheck => {
            begin!();
            let Some(m) = me else { return };
            let n = unsafe { &mut *m.ptr };
            let mut v = look(n);
            v.extend([V::B(n.is_stray()), V::B(n.is_root()), V::B(n.is_owner()), s(n.name()), status_of(n), V::U(sim(n).ident().tag)]);
            v.extend(fields(sim_mut(n)));
            ev("ret", v);
        }
    }
}
/// Uses a node that is in no tree. All of this is to be refused, but for giving it another name.
fn misuse(n: &mut dyn Node, how: u64, name: &str) {
    match how {
        0 => n.add_child(Brief::new()),
        1 => n.add_child(NodeScene::new(Brief::new())),
        2 => n.free(),
        3 => { n.remove_child(name); }
        4 => { let _ = n.get_child_dyn(0); }
        5 => { let _ = n.get_child::<Brief>(1); }
        6 => { n.children(); }
        7 => { let _ = n.get_node_dyn(NodePath::from_str(".")); }
        8 => { let _ = n.get_node::<Brief>(NodePath::from_str("..")); }
        9 => n.post(Log::Info("of no tree")),
        10 => { n.register_as_singleton(name.to_string()); }
        11 => { n.get_absolute_path(); }
        12 => { n.save_as_branch(); }
        13 => { n.top_down(true); }
        14 => { n.owner_dyn(); }
        15 => { let _ = n.parent_dyn(); }
        16 => { n.this_dyn(); }
        _ => n.set_name(name)
    }
}
/// Numbers as ranges, so that many of them remain readable.
fn ranges(l: &[u64]) -> V {
    let mut v: Vec<(u64, u64)> = vec![];
    for &x in l { match v.last_mut() { Some(r) if r.1.wrapping_add(1) == x => r.1 = x, _ => v.push((x, x)) } }
    V::L(v.into_iter().map(|(a, b)| V::L(vec![V::U(a), V::U(b)])).collect())
}
/// Adds many nodes, of which only few exist at the same time. Gives their IDs, and how often something was not as it should be.
fn churn_nodes(t: RID, n: u64, r: &mut crate::prng::Rng) -> Vec<V> {
    let before = kids(t);
    let (mut ids, mut odd, mut here) = (vec![], 0u64, std::collections::VecDeque::new());
    let most = r.below(3);
    for i in 0..n {
        node(t).add_child(Brief::new());
        let now = kids(t);
        let new: Vec<RID> = now.iter().copied().filter(|x| !before.contains(x) && !here.contains(x)).collect();
        if new.len() != 1 || now.len() != before.len() + here.len() + 1 { odd += 1; break; }
        ids.push(new[0]);
        here.push_back(new[0]);
        while here.len() as u64 > if i + 1 == n { 0 } else { most } {
            let x = here.pop_front().unwrap();
            if r.chance(1, 2) { node(x).free() } else { let name = node(x).name().to_string(); odd += !node(t).remove_child(&name) as u64; }
            odd += tree().get_node(x).is_some() as u64;
        }
    }
    vec![ranges(&ids), V::U(odd)]
}
/// The same for connections.
fn churn_links(t: RID, n: u64, r: &mut crate::prng::Rng) -> Vec<V> {
    let sig = r.below(2);
    let here = node(t) as *const dyn Node as *const u8;
    let known: std::collections::HashSet<u64> = w().conns.iter().filter(|c| c.node as *const u8 == here && c.sig == sig).filter_map(|c| c.rid).collect();
    let s = sim(node(t)).signal(sig);
    let (mut ids, mut odd) = (vec![], 0u64);
    for _ in 0..n {
        let id = unsafe { if r.chance(1, 2) { s.connect(|_| ()) } else { s.connect_once(|_| ()) } };
        odd += known.contains(&id) as u64;
        ids.push(id);
        odd += !s.disconnect(id) as u64;
        odd += s.disconnect(id) as u64;
    }
    let all: std::collections::HashSet<u64> = ids.iter().copied().collect();
    odd += (all.len() != ids.len()) as u64;
    vec![V::L(vec![]), V::U(odd)]
}
/// Many siblings with names that are almost the same.
fn churn_names(t: RID, n: u64, r: &mut crate::prng::Rng) -> Vec<V> {
    let name_of_ = |x: RID| node(x).name().to_string();
    let base: Vec<String> = (0..1 + r.below(3)).map(|_| name_at(r.next() % NAMES.len() as u64).to_string()).collect();
    let mut known: Vec<(RID, String)> = kids(t).into_iter().map(|k| (k, name_of_(k))).collect();
    let old = known.len();
    let mut bad = (0u64, 0u64, 0u64);
    for _ in 0..n {
        let b = r.pick(&base).clone();
        let want = match r.below(12) {
            0 => b.to_lowercase(), 1 => b.to_uppercase(), 2 => format!("{b} "), 3 => format!("{b}{}", r.below(40)), 4 => format!(" {b}"), 5 => format!("{b}0{}", r.below(12)), 6 if !known.is_empty() => r.pick(&known).1.clone(), _ => b
        };
        let mut x = Brief::new();
        x.set_name(&want);
        node(t).add_child(x);
        let now = kids(t);
        let Some(new) = now.iter().copied().find(|k| known.iter().all(|x| x.0 != *k)) else { bad.2 += 1; break };
        let got = name_of_(new);
        let taken = known.iter().any(|x| x.1 == want);
        if known.iter().any(|x| x.1 == got) { bad.0 += 1; }
        if if taken { !crate::model::derived(&got, &want) } else { got != want } { bad.1 += 1; }
        known.push((new, got));
        if now.len() != known.len() || known.iter().any(|x| tree().get_node(x.0).map(|n| n.name() != x.1).unwrap_or(true)) { bad.2 += 1; break; }
        for (k, name) in known.iter().rev().take(3) { if node(t).get_node_dyn(NodePath::from_str(name)).to_option().map(|p| p.rid()) != Some(*k) && !name.contains("..") { bad.2 += 1; } }
    }
    let mut ids = vec![];
    for (x, _) in known.drain(old.min(known.len())..) { ids.push(x); if let Some(n) = tree().get_node_mut(x) { n.free(); } }
    vec![ranges(&ids), V::U(bad.0 << 32 | bad.1 << 16 | bad.2)]
}
/// A long line of nodes, added one by one or as a scene.
fn churn_depth(t: RID, n: u64, r: &mut crate::prng::Rng) -> Vec<V> {
    let d0 = node(t).depth();
    let above = node(t).get_absolute_path().to_string();
    let before = kids(t);
    let (mut ids, mut odd) = (vec![], 0u64);
    if r.chance(1, 2) {
        let mut at = t;
        for _ in 0..n {
            let had = kids(at);
            node(at).add_child(Brief::new());
            let Some(x) = kids(at).into_iter().find(|x| !had.contains(x)) else { odd += 1; break };
            ids.push(x);
            at = x;
        }
    } else {
        let mut sc = NodeScene::new(Brief::new());
        for _ in 1..n { let mut up = NodeScene::new(Brief::new()); up.append(sc); sc = up; }
        node(t).add_child(sc);
        let mut at = kids(t).into_iter().find(|x| !before.contains(x));
        while let Some(x) = at { ids.push(x); at = kids(x).first().copied(); if ids.len() as u64 > n { break; } }
    }
    odd += (ids.len() as u64 != n) as u64;
    if odd == 0 && n > 0 {
        let mut path = above.clone();
        let mut rel = String::new();
        for (i, &x) in ids.iter().enumerate() {
            let nd = node(x);
            path = format!("{path}/{}", nd.name());
            rel = if i == 0 { nd.name().to_string() } else { format!("{rel}/{}", nd.name()) };
            odd += (nd.depth() != d0 + 1 + i) as u64;
            odd += (nd.get_absolute_path().to_string() != path) as u64;
            odd += (node(t).get_node_dyn(NodePath::from_str(&rel)).to_option().map(|p| p.rid()) != Some(x)) as u64;
            odd += (node(t).get_node_dyn(NodePath::from_str(&path)).to_option().map(|p| p.rid()) != Some(x)) as u64;
            odd += (nd.get_node_dyn(NodePath::from_str(&vec![".."; i + 1].join("/"))).to_option().map(|p| p.rid()) != Some(t)) as u64;
            odd += (nd.parent_dyn().to_option().map(|p| p.rid()) != Some(if i == 0 { t } else { ids[i - 1] })) as u64;
        }
        let below = node(ids[0]).top_down(true);
        odd += (below != ids) as u64;
    }
    if let Some(&x) = ids.first() { if r.chance(1, 2) { node(x).free() } else { let name = node(x).name().to_string(); odd += !node(t).remove_child(&name) as u64; } }
    for &x in &ids { odd += tree().get_node(x).is_some() as u64; }
    odd += (kids(t) != before) as u64;
    vec![ranges(&ids), V::U(odd)]
}
fn guarded(catch: bool, f: impl FnOnce()) {
    if !catch { return f(); }
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) { unwound(p); }
}
fn scene_size_of(rid: RID) -> usize { 1 + kids(rid).into_iter().map(scene_size_of).sum::<usize>() }
fn check_slot(i: usize) {
    if let Some(sc) = w().slots[i].as_ref() {
        let mut l = vec![];
        scene_nodes(sc, 0, &mut l);
        ev("slot", vec![V::L(l), V::U(sc.structural_hash())]);
    }
}
fn check_ptr(i: usize) {
    let mut v = vec![V::U(i as u64)];
    macro_rules! typed { ($p:expr) => {{
        v.extend([V::B($p.is_valid()), V::B($p.is_null())]);
        v.push(match $p.try_get().to_result() { Ok(n) => V::N(Some(n.rid())), Err(e) => tp_err(&e) });
        v.push(match $p.try_get().to_result() { Ok(n) => V::U(n.ident().serial), Err(e) => tp_err(&e) });
        v.push(match $p.try_get_mut().to_result() { Ok(n) => V::N(Some(n.rid())), Err(e) => tp_err(&e) });
        let d = $p.clone().try_to_dyn();
        v.push(match d.to_result() { Ok(n) => V::N(Some(n.rid())), Err(e) => tp_err(&e) });
    }} }
    match w().ptrs[i].as_mut().unwrap() {
        Ptr::A(p) => typed!(p), Ptr::B(p) => typed!(p), Ptr::C(p) => typed!(p), Ptr::D(p) => typed!(p),
        Ptr::Dyn(p) => {
            v.extend([V::B(p.is_valid()), V::B(p.is_null())]);
            v.push(match p.try_get().to_result() { Ok(n) => V::N(Some(n.rid())), Err(e) => tp_err(&e) });
            v.push(match p.try_get().to_result() { Ok(n) => V::U(sim(n).ident().serial), Err(e) => tp_err(&e) });
            v.push(match p.try_get_mut().to_result() { Ok(n) => V::N(Some(n.rid())), Err(e) => tp_err(&e) });
            all_classes!(C => { v.push(V::B(p.is::<C>())); let q = p.to::<C>().to_result(); v.push(match q { Ok(q) => V::N(Some(q.rid())), Err(e) => tp_err(&e) }) });
            v.push(V::B(p.is_of::<dyn Greeter>()));
            v.push(V::B(p.is_of::<dyn Marker>()));
            v.push(match p.cast::<dyn Greeter>().to_result() { Ok(g) => V::U(g.greet()), Err(_) => s("cast") });
            v.push(match p.cast_mut::<dyn Marker>().to_result() { Ok(g) => V::U(g.mark()), Err(_) => s("cast") });
        }
    }
    ev("ptr", v);
}
fn soft(kind: u64, t: RID, t2: RID) {
    let n = node(t);
    let me = n.this_dyn();
    let bad = || node(t).get_child_dyn(1000);
    let good = || node(t).get_node_dyn(NodePath::from_str("."));
    let mut v: Vec<V> = vec![];
    match kind {
        0 => {
            v.extend([V::B(bad().is_ok()), V::B(bad().is_err()), V::B(bad().is_ok_and(|_| true)), V::B(bad().is_err_and(|_| true)), V::B(bad().to_option().is_some()), V::B(bad().ok().is_some()), V::B(bad().err().is_some()),
                V::U(bad().map_or(1, |_| 2)), V::U(bad().map_or_else(|_| 3, |_| 4)), V::N(Some(bad().unwrap_or(me).rid())), V::N(Some(bad().unwrap_or_else(|_| me).rid())), V::U(bad().map(|_| 9u64).unwrap_or_default()), V::B(bad().or(good()).is_ok()), V::B(bad().and(good()).is_ok())]);
            v.push(V::B(bad().unwrap_err() == NodeError::IndexOutOfRange { index: 1000, children_count: node(t).num_children() }));
            let _ = bad().expect_err("fine");
        }
        1 => {
            v.extend([V::B(good().is_ok()), V::B(good().is_err()), V::B(good().is_ok_and(|_| true)), V::B(good().is_err_and(|_| true)), V::B(good().to_option().is_some()), V::B(good().ok().is_some()), V::B(good().err().is_some()),
                V::U(good().map_or(1, |_| 2)), V::U(good().map_or_else(|_| 3, |_| 4)), V::N(Some(good().unwrap_or(me).rid())), V::N(Some(good().unwrap().rid())), V::U(good().map(|_| 9u64).unwrap_or_default()), V::N(Some(good().expect("fine").rid()))]);
        }
        2 => {
            v.push(V::B(bad().ok().to_option().is_some()));
            v.push(V::N(Some(bad().ok().unwrap_or(me).rid())));
            v.push(V::N(Some(bad().ok().unwrap_or_else(|| me).rid())));
            v.push(V::U(bad().ok().map(|_| 9u64).unwrap_or_default()));
            v.push(V::U(bad().ok().map_or(1, |_| 2)));
            v.push(V::B(bad().ok().is_some_and(|_| true)));
            v.push(V::N(Some(good().ok().unwrap().rid())));
            v.push(V::N(Some(good().ok().expect("fine").rid())));
            v.push(V::B(bad().ok().filter(|_| true).is_none()));
            v.push(V::B(bad().ok().ok_or(5u8).is_err()));
        }
        3 => all_classes!(C => {
            let p = unsafe { TpDyn::new(tree_ptr(), t, t2) }.to_option().unwrap();
            v.push(V::B(p.is::<C>()));
            v.push(match p.to::<C>().to_result() { Ok(q) => V::N(Some(q.rid())), Err(e) => tp_err(&e) });
            let q = unsafe { Tp::<C>::new(tree_ptr(), t, t2) };
            v.push(match q.to_result() { Ok(q) => { assert!(q.is_valid() && !q.is_null()); V::N(Some(q.rid())) }, Err(e) => tp_err(&e) });
        }),
        4 => all_classes!(C => {
            v.push(typ_res(n.parent::<C>()));
            v.push(typ_res(n.owner::<C>()));
            v.push(typ_res(n.get_child::<C>(0)));
        }),
        5 => {
            v.push(dyn_res(n.parent_dyn()));
            v.push(V::B(n.parent_dyn().is_ok()));
            v.push(dyn_res(n.get_node_dyn("unknown singleton")));
            v.push(dyn_res(n.get_node_dyn(NodePath::from_str("no/such"))));
            v.push(dyn_res(n.get_node_dyn(NodePath::from_str("/no/such"))));
        }
        6 => {
            // Pointers to nodes which never existed.
            let p = unsafe { TpDyn::new(tree_ptr(), t, u64::MAX) };
            v.push(match p.to_result() { Ok(_) => s("ok"), Err(e) => tp_err(&e) });
            all_classes!(C => v.push(match unsafe { Tp::<C>::new(tree_ptr(), t, u64::MAX) }.to_result() { Ok(_) => s("ok"), Err(e) => tp_err(&e) }));
        }
        _ => {
            let p = unsafe { TpDyn::new(tree_ptr(), t, t2) }.to_option().unwrap();
            v.push(V::B(p.is_of::<dyn Greeter>()));
            v.push(V::B(p.is_of::<dyn Marker>()));
            v.push(V::B(p.cast::<dyn Greeter>().is_ok()));
            v.push(V::B(p.cast::<dyn Marker>().is_ok()));
            v.push(V::U(p.cast::<dyn Greeter>().map(|g| g.greet() * 0 + 1).unwrap_or(0)));
        }
    }
    ev("ret", v);
}

/* ---------------------------------------------------------------- the driver */

pub fn start(prog: &Program) {
    unsafe {
        W = Some(World {
            prog: prog.clone(), tree: None, tp: None, trace: vec![], trig: vec![], cb: 0, drops: None, in_drop: false, framing: false, copies: 0, slots: (0..8).map(|_| None).collect(),
            ptrs: (0..8).map(|_| None).collect(), conns: vec![], posts: 0, log_at: 0, root_path: "/root".into(), over: false, others: vec![],
        });
    }
}

/// Performs one step, and returns what happened.
pub fn step(i: usize) -> Vec<Ev> {
    let (op, trig) = { let st = &w().prog.steps[i]; (st.op, st.trig.clone()) };
    w().trig = trig;
    w().cb = 0;
    w().framing = false;
    w().drops = None;
    w().in_drop = false;
    let out_at = sys().out.len();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if i == 0 {
            ev("op", vec![s("Create")]);
            let v = match w().prog.verbosity { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics };
            let t = if w().prog.root_scene {
                TreeSimple::new(build(&w().prog.scenes[0]), v)
            } else {
                let sp = w().prog.scenes[0].clone();
                of_class!(sp.class, C => { let mut n = C::new(sp.num); dress(&mut n, sp.name, sp.tag, sp.mode); TreeSimple::new(n, v) })
            };
            w().tree = Some(t);
            let p = w().tree.as_mut().unwrap().as_dyn_raw_mut();
            w().tp = Some(p);
        } else {
            exec(&op, None);
        }
    }));
    match r {
        Ok(()) => ev("done", vec![]),
        Err(p) => { unwound(p); if i == 0 { w().over = true; } }
    }
    if !w().over {
        let _a = crate::alloc::aside();
        snapshot();
        let log = tree().get_log();
        let at = w().log_at.min(log.len());
        let at = (0..=at).rev().find(|&x| log.is_char_boundary(x)).unwrap_or(0);
        let new = log[at..].to_string();
        ev("log", vec![V::S(new), V::U(log.len() as u64), V::U(crate::prng::fnv(crate::prng::FNV0, log[..at].as_bytes())), V::S(String::from_utf8_lossy(&sys().out[out_at..]).into_owned())]);
        w().log_at = log.len();
        for j in 0..8 { check_slot(j); }
    }
    std::mem::take(&mut w().trace)
}
