//! What the macros generate, at work (P25): classes that declare everything that can be declared, scenes that are put
//! together from expressions and links in every form there is, and connections of signals of every arity. What is
//! expected is written down by hand next to each of them.

#![allow(unused_braces)]
use crate::prng::{fnv, Rng, FNV0};
use crate::prog::Program;
use crate::storage::node_of;
use crate::sup;
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const STATS: &[&str] = &["scenes made with scene!", "their nodes", "links between scenes", "constructors and settings that panicked", "connections made with connect!", "signals emitted", "what listeners heard", "frames", "scenes saved and loaded", "calls of hooks"];
pub const FIRST: usize = 36;
fn count(i: usize, n: u64) { sup::out().stats[FIRST + i] += n; }

/* ---------------------------------------------------------------- values */

#[derive(Default)]
struct Values { seed: u64, panic_at: u64, used: BTreeMap<u64, u64>, heard: Vec<String>, hooks: BTreeMap<(RID, &'static str), u64> }
thread_local! { static W: RefCell<Values> = RefCell::new(Values::default()); }
fn val(i: u64) -> u64 { W.with(|w| Rng::new(w.borrow().seed ^ i.wrapping_mul(0x1_0001)).below(1 << 40)) }
fn note(i: u64) {
    let bad = W.with(|w| { let mut w = w.borrow_mut(); *w.used.entry(i).or_default() += 1; w.panic_at == i + 1 });
    if bad { count(3, 1); panic!("{PANIC}"); }
}
const PANIC: &str = "an expression panics";
fn hook(n: &dyn Node, what: &'static str) { count(9, 1); let r = n.rid(); W.with(|w| *w.borrow_mut().hooks.entry((r, what)).or_default() += 1) }
fn heard(n: &dyn Node, what: &str, args: &dyn std::fmt::Debug) { let t = format!("{what} of {} got {args:?}", n.rid()); W.with(|w| w.borrow_mut().heard.push(t)) }
/// The expressions that the scenes are made of: each is to be evaluated once.
fn p(i: u64) -> u64 { note(i); val(i) }
fn text(i: u64) -> String { note(i); tval(i) }
fn tval(i: u64) -> String { format!("t{}", val(i)) }

/* ---------------------------------------------------------------- classes */

pub trait Talks { fn talk(&self) -> u64; }
pub trait Counts { fn amount(&self) -> u64; }

trait Look: Node + Sized {
    /// How each field is declared.
    const HOW: &'static str;
    fn look(&self) -> Vec<String>;
}
macro_rules! seen { ($f:expr) => { if $f.is_void() { "void".to_string() } else { format!("{:?}", *$f) } } }

class! {
    /// A class with one of everything.
    #[allow(dead_code)]
    pub declare Rich extends Talks, Counts;

    /// Without parameters.
    pub signal on_none();
    pub signal on_one(v: u64);
    #[allow(dead_code)]
    pub signal on_two(a: u64, b: String);
    signal on_three(a: u64, b: String, c: Vec<i64>,);
    /// Never connected.
    signal on_self(v: u64);

    /// A constant.
    pub const LIMIT: u64 = 40 + 2;
    #[allow(dead_code)]
    const PREFIX: &'static str = "rich";

    /// The first field.
    #[doc(hidden)]
    pub export let mark: u64;
    pub export let label: String = format!("made of {}", 3 - 1);
    pub export default let count: i64;
    export default let all: Vec<u64>;
    pub export let list: Vec<i64> = vec![1, -2, 3];
    pub let plain: u64;
    pub let plain_init: String = "a".to_string() + "b";
    let private: u8 = 3;
    pub default let deft: String;
    default let deft_all: BTreeMap<u64, Vec<u64>>;
    pub unique let uniq: u64 = 9;
    pub unique let late: Box<u64>;

    #[allow(unused_mut)]
    hk _init(mark: u64, plain: u64, mut seed: u64) {
        if seed > 5 { seed += 1; }
        let label = String::from("not the label");
        let _ = label;
        let late = Box::new(seed);
    }
    hk loaded(&mut self) { hook(self, "loaded") }
    /// Documented as well.
    hk ready(&mut self) { hook(self, "ready") }
    hk process(&mut self, _delta: f32) { hook(self, "process") }
    hk terminal(&mut self, _reason: TerminationReason) { hook(self, "terminal") }
    #[inline]
    hk process_mode(&self) -> ProcessMode { hook(self, "mode"); ProcessMode::Always }

    pub fn of_none(&self, a: &()) { heard(self, "none", a) }
    pub fn of_one(&self, a: &u64) { heard(self, "one", a) }
    fn of_two(&self, a: &(u64, String)) { heard(self, "two", a) }
    fn of_three(&self, a: &(u64, String, Vec<i64>)) { heard(self, "three", a) }
    fn once_none(&self, a: &()) { heard(self, "once none", a) }
    fn once_one(&self, a: &u64) { heard(self, "once one", a) }
    fn once_two(&self, a: &(u64, String)) { heard(self, "once two", a) }
    fn once_three(&self, a: &(u64, String, Vec<i64>)) { heard(self, "once three", a) }

    /// Connects a signal to another node.
    pub fn link(&self, sig: u64, once: bool, to: Tp<Rich>) {
        match (sig, once) {
            (0, false) => { connect! { on_none -> to.of_none }; }
            (0, true) => { connect! { on_none ~> to.once_none }; }
            (1, false) => { connect! { on_one -> to.of_one }; }
            (1, true) => { connect! { on_one ~> to.once_one }; }
            (2, false) => { connect! { on_two -> to.of_two }; }
            (2, true) => { connect! { on_two ~> to.once_two }; }
            (_, false) => { let args = to; connect! { on_three -> args.of_three }; }
            (_, true) => { let tp_ = to; connect! { on_three ~> tp_.once_three }; }
        }
    }
    fn shout(&self, sig: u64, x: u64) {
        match sig { 0 => self.on_none.emit(()), 1 => self.on_one.emit(x), 2 => self.on_two.emit((x, format!("{x}"))), _ => self.on_three.emit((x, format!("{x}"), vec![x as i64, -1])) }
    }
    #[must_use]
    pub fn twice<T: Clone>(x: &T) -> (T, T) where T: PartialEq { (x.clone(), x.clone()) }
    fn total(&mut self, by: i64) -> i64 { *self.count += by; *self.count }
}
impl Talks for Rich { fn talk(&self) -> u64 { Self::LIMIT + Self::PREFIX.len() as u64 } }
impl Counts for Rich { fn amount(&self) -> u64 { *self.mark } }
impl Look for Rich {
    const HOW: &'static str = "eeeeerrrdduu";
    fn look(&self) -> Vec<String> {
        vec![format!("{:?}", *self.mark), format!("{:?}", *self.label), format!("{:?}", *self.count), format!("{:?}", *self.all), format!("{:?}", *self.list), seen!(self.plain), seen!(self.plain_init), seen!(self.private),
            format!("{:?}", *self.deft), format!("{:?}", *self.deft_all), seen!(self.uniq), seen!(self.late)]
    }
}

class! { pub declare Quiet; }
impl Look for Quiet { const HOW: &'static str = ""; fn look(&self) -> Vec<String> { vec![] } }

class! {
    declare Shy extends Talks;
    const FROM: [u8; 2] = [1, 2];
    pub export let r#type: u64 = Shy::FROM.len() as u64;
    pub let of: Option<Box<u64>> = None;
    pub default let flag: bool;
    hk _init() {}
    hk process(&mut self, delta: f32) { let _ = delta; hook(self, "process") }
}
impl Talks for Shy { fn talk(&self) -> u64 { *self.r#type } }
impl Look for Shy { const HOW: &'static str = "erd"; fn look(&self) -> Vec<String> { vec![format!("{:?}", *self.r#type), seen!(self.of), format!("{:?}", *self.flag)] } }

mod inner {
    use super::*;
    class! {
        /// Named as another class is.
        pub declare Quiet;
        signal on_one(v: (u64, u64));
        pub export let pair: Vec<Option<u64>> = vec![None];
        pub unique let once: fn(u64) -> u64 = |x| x + 1;
        pub let name_: &'static str;
        hk _init(first: Option<u64>, name_: &'static str,) { let _ = first; }
        hk terminal(&mut self, reason: TerminationReason) { let _ = reason; hook(self, "terminal") }
        fn count_args(&self) -> usize { self.on_one.emit((1, 2)); 0 }
    }
    impl Quiet { pub fn listeners(&self) -> usize { self.count_args() } }
    impl Look for Quiet {
        const HOW: &'static str = "eru";
        fn look(&self) -> Vec<String> { vec![format!("{:?}", *self.pair), seen!(self.name_), if self.once.is_void() { "void".into() } else { format!("{}", (*self.once)(1)) }] }
    }
}
pub fn sizes() -> Vec<usize> { vec![std::mem::size_of::<Rich>(), std::mem::size_of::<Quiet>(), std::mem::size_of::<Shy>(), std::mem::size_of::<inner::Quiet>()] }

/* ---------------------------------------------------------------- what is expected */

#[derive(Clone, PartialEq, Debug)]
struct Exp { class: u8, name: String, fields: Vec<String>, owner: bool, disk: bool, kids: Vec<Exp> }
fn how(class: u8) -> &'static [u8] { match class { 0 => Rich::HOW, 1 => Quiet::HOW, 2 => Shy::HOW, _ => inner::Quiet::HOW }.as_bytes() }
impl Exp {
    fn new(class: u8, name: &str, fields: Vec<String>) -> Exp { Exp { class, name: name.into(), fields, owner: true, disk: false, kids: vec![] } }
    fn rich(name: &str, mark: u64, plain: u64, seed: u64) -> Exp {
        Exp::new(0, name, vec![format!("{mark:?}"), "\"made of 2\"".into(), "0".into(), "[]".into(), "[1, -2, 3]".into(), format!("{plain:?}"), "\"ab\"".into(), "3".into(), "\"\"".into(), "{}".into(), "9".into(), format!("{:?}", if seed > 5 { seed + 1 } else { seed })])
    }
    fn quiet(name: &str) -> Exp { Exp::new(1, name, vec![]) }
    fn shy(name: &str) -> Exp { Exp::new(2, name, vec!["2".into(), "None".into(), "false".into()]) }
    fn inner(name: &str, n: &str) -> Exp { Exp::new(3, name, vec!["[None]".into(), format!("{n:?}"), "2".into()]) }
    fn set(mut self, i: usize, v: impl std::fmt::Debug) -> Exp { self.fields[i] = format!("{v:?}"); self }
    fn with(mut self, mut k: Exp) -> Exp { k.owner = false; self.kids.push(k); self }
    fn owning(mut self, k: Exp) -> Exp { self = self.with(k); self.kids.last_mut().unwrap().owner = true; self }
    fn size(&self) -> u64 { 1 + self.kids.iter().map(Exp::size).sum::<u64>() }
    /// A copy has none of the unique values.
    fn copy(&self) -> Exp {
        let mut e = self.clone();
        for (i, h) in how(e.class).iter().enumerate() { if *h == b'u' { e.fields[i] = "void".into(); } }
        for k in &mut e.kids { *k = k.copy(); }
        e
    }
    /// What is left after saving and loading.
    fn stored(&self) -> Exp {
        let mut e = self.clone();
        e.disk = true;
        let fresh = match e.class { 0 => Exp::rich("", 0, 0, 0), 1 => Exp::quiet(""), 2 => Exp::shy(""), _ => Exp::inner("", "") };
        for (i, h) in how(e.class).iter().enumerate() { match h { b'e' => (), b'd' => e.fields[i] = fresh.fields[i].clone(), _ => e.fields[i] = "void".into() } }
        for k in &mut e.kids { *k = k.stored(); }
        e
    }
}
fn looked(n: &dyn Node) -> (u8, Vec<String>) {
    let a = n.as_any_ref();
    if let Some(x) = a.downcast_ref::<Rich>() { return (0, x.look()); }
    if let Some(x) = a.downcast_ref::<Quiet>() { return (1, x.look()); }
    if let Some(x) = a.downcast_ref::<Shy>() { return (2, x.look()); }
    if let Some(x) = a.downcast_ref::<inner::Quiet>() { return (3, x.look()); }
    (9, vec![])
}
fn actual(s: &NodeScene) -> Exp {
    let n = node_of(s);
    let (class, fields) = looked(&**n);
    Exp { class, name: n.name().to_string(), fields, owner: s.is_owner, disk: false, kids: s.children().iter().map(actual).collect() }
}
fn differ(got: &Exp, want: &Exp) -> Option<String> {
    let at = &want.name;
    if got.class != want.class || got.name != want.name { return Some(format!("there is {:?} of class {} instead of {at:?} of class {}", got.name, got.class, want.class)); }
    for (i, (g, w)) in got.fields.iter().zip(&want.fields).enumerate() { if g != w { return Some(format!("field {i} of {at:?} is {g} instead of {w}")); } }
    if got.owner != want.owner { return Some(format!("{at:?}: whether it owns its scene is {} instead of {}", got.owner, want.owner)); }
    if got.kids.len() != want.kids.len() { return Some(format!("{at:?} has {} children instead of {}", got.kids.len(), want.kids.len())); }
    got.kids.iter().zip(&want.kids).find_map(|(g, w)| differ(g, w))
}

/* ---------------------------------------------------------------- scenes */

/// The forms of scenes. Links are called what the macro might call its own variables.
pub const FORMS: u64 = 16;
fn make(form: u64, one: &NodeScene, two: &NodeScene) -> NodeScene {
    let (scene, node, child) = (one, two, one);
    match form {
        0 => scene! { Rich(p(0), p(1), p(2)) },
        1 => scene! { Quiet },
        2 => scene! { Shy: "a shy one" },
        3 => scene! { Rich(p(0), p(1), p(2),): "Named" { plain: p(3) + 1, uniq: p(4), label: text(5) } },
        4 => scene! { Quiet [ Shy, Quiet, Shy { flag: !(p(0) % 2 == 0) }, Shy: "S" ] },
        5 => scene! { Quiet: "Root" [ $scene, Quiet: "Mid" [ $node, ], $child ] },
        6 => scene! { Shy { r#type: p(0), [ $node, Rich(p(1), p(2), 3) ] } },
        7 => scene! { Shy: "again" { r#type: p(0), r#type: p(1), of: Some(Box::new(p(2))), [ $one ] } },
        8 => scene! { Quiet [ Quiet [ Quiet [ Quiet: "deep" [ Shy { r#type: if p(0) > 9 { p(1) } else { 4 } } ] ], Quiet: "late" ] ] },
        9 => scene! { inner::Quiet(Some(p(0)), "told"): "In" { pair: vec![Some(p(1)), None], [ inner::Quiet(None, "below") ] } },
        10 => scene! { Rich(p(0), 0, 5): "L" { list: vec![-1, p(1) as i64], count: -(p(2) as i64), deft: text(3), late: Box::new(p(4)) } },
        11 => scene! { Quiet: "dup" [ Quiet: "dup", Quiet: " dup ", Shy: "dup", Shy: "\t日本\n01", Quiet: r#""q" . "# ] },
        12 => { let x = p(0); scene! { Rich(x, x + 1, { x / 2 }): "x" { plain_init: format!("{x}"), deft: tval(1) + "!", [ $two, $two, $one ] } } }
        13 => scene! { Quiet {} },
        14 => scene! { Quiet [] },
        _ => { let name = p(0); let node = name ^ 1; scene! { Quiet: "vars" [ Rich(name, node, 6) { plain: node }, Quiet [ Rich(node, name, 0): "n" { uniq: name & node } ] ] } }
    }
}
/// How many of the expressions each of them evaluates.
fn used(form: u64) -> u64 { [3, 0, 0, 6, 1, 0, 3, 3, 1, 2, 5, 0, 1, 0, 0, 1][form as usize] }
fn want(form: u64, one: &Exp, two: &Exp) -> Exp {
    let (v, t) = (val, tval);
    let q = || Exp::quiet("Quiet");
    let s = || Exp::shy("Shy");
    let (a, b) = (one.copy(), two.copy());
    match form {
        0 => Exp::rich("Rich", v(0), v(1), v(2)),
        1 | 13 | 14 => q(),
        2 => Exp::shy("a shy one"),
        3 => Exp::rich("Named", v(0), v(1), v(2)).set(5, v(3) + 1).set(10, v(4)).set(1, t(5)),
        4 => q().with(s()).with(q()).with(s().set(2, v(0) % 2 != 0)).with(Exp::shy("S")),
        5 => Exp::quiet("Root").with(a.clone()).with(Exp::quiet("Mid").with(b)).with(a),
        6 => s().set(0, v(0)).with(b).with(Exp::rich("Rich", v(1), v(2), 3)),
        7 => Exp::shy("again").set(0, v(1)).set(1, Some(v(2))).with(a),
        8 => q().with(q().with(q().with(Exp::quiet("deep").with(s().set(0, if v(0) > 9 { v(1) } else { 4 })))).with(Exp::quiet("late"))),
        9 => Exp::inner("In", "told").set(0, vec![Some(v(1)), None]).with(Exp::inner("Quiet", "below")),
        10 => Exp::rich("L", v(0), 0, 5).set(4, vec![-1, v(1) as i64]).set(2, -(v(2) as i64)).set(8, t(3)).set(11, v(4)),
        11 => Exp::quiet("dup").with(Exp::quiet("dup")).with(Exp::quiet(" dup ")).with(Exp::shy("dup")).with(Exp::shy("\t日本\n01")).with(Exp::quiet("\"q\" . ")),
        12 => Exp::rich("x", v(0), v(0) + 1, v(0) / 2).set(6, format!("{}", v(0))).set(8, t(1) + "!").with(b.clone()).with(b).with(a),
        _ => { let (n, m) = (v(0), v(0) ^ 1); Exp::quiet("vars").with(Exp::rich("Rich", n, m, 6).set(5, m)).with(q().with(Exp::rich("n", m, n, 0).set(10, n & m))) }
    }
}

/* ---------------------------------------------------------------- runs */

struct Run { hash: u64, found: Option<String>, log: Vec<String>, keep: bool, slots: Vec<Option<(NodeScene, Exp)>> }
impl Run {
    fn say(&mut self, s: String) { self.hash = fnv(self.hash, s.as_bytes()); if self.keep { self.log.push(s); } }
    fn bad(&mut self, s: String) { if self.found.is_none() { self.say(format!("VIOLATED: {s}")); self.found = Some(s); } }
    fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        sup::out().panic_len = 0;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let o = sup::out();
                let t = String::from_utf8_lossy(&o.panic[..o.panic_len as usize]).into_owned();
                if !t.starts_with(PANIC) { self.bad(format!("{what} panicked: {t}")); }
                None
            }
        }
    }
    fn slots_are_sound(&mut self) {
        for i in 0..self.slots.len() {
            let Some((s, e)) = &self.slots[i] else { continue };
            if let Some(d) = differ(&actual(s), e) { self.bad(format!("scene {i}: {d}")); }
        }
    }
}

pub fn run(prog: &Program, verbose: bool) {
    crate::sysim::sys().start(prog.seed, prog.mono0 as i128, prog.wall0 as i128 * 1_000_000_000);
    let mut r = Run { hash: FNV0, found: None, log: vec![], keep: verbose, slots: (0..4).map(|_| None).collect() };
    let mut states = vec![];
    for (i, line) in prog.blob.iter().enumerate() {
        sup::out().step = i as u64;
        let w: Vec<&str> = line.split_whitespace().collect();
        let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        let slot = |i: usize| n(i) as usize % 4;
        r.say(format!("> {line}"));
        match w.first().copied() {
            Some("make") => mk(&mut r, n(1) % FORMS, slot(2), slot(3), slot(4), n(5), n(6)),
            Some("own") => {
                let (i, j) = (slot(1), slot(2));
                if i != j && r.slots[i].is_some() && r.slots[j].as_ref().is_some_and(|s| s.1.size() < 150) {
                    let (s, e) = r.slots[i].take().unwrap();
                    if e.size() > 60 { r.slots[i] = Some((s, e)); } else {
                        let d = r.slots[j].as_mut().unwrap();
                        d.0.append_as_owner(s);
                        d.1 = d.1.clone().owning(e);
                    }
                }
            }
            Some("copy") => {
                let (i, j) = (slot(1), slot(2));
                if let Some((s, e)) = &r.slots[i] { if i != j { let c = (s.clone(), e.copy()); r.slots[j] = Some(c); } }
            }
            Some("store") => {
                let i = slot(1);
                if let Some((s, e)) = r.slots[i].take() {
                    count(8, 1);
                    let back = r.guard("saving and loading", || s.save_to_str().and_then(|t| NodeScene::load_from_str(&t)));
                    match back {
                        Some(Ok(b)) => r.slots[i] = Some((b, e.stored())),
                        Some(Err(x)) => r.bad(format!("saving and loading failed: {x}")),
                        None => ()
                    }
                }
            }
            Some("live") => live(&mut r, slot(1), n(2), n(3)),
            _ => ()
        }
        r.slots_are_sound();
        let d: String = format!("{:?}", r.slots.iter().map(|s| s.as_ref().map(|s| s.1.clone())).collect::<Vec<_>>());
        r.say(d.clone());
        states.push(fnv(FNV0, d.as_bytes()));
        if r.found.is_some() { break; }
    }
    crate::sysim::sys().active = false;
    let o = sup::out();
    o.trace_hash = r.hash;
    o.sim_ns = o.stats[FIRST + 7] * 1_000_000;
    for (i, s) in states.iter().take(o.states.len()).enumerate() { o.states[i] = *s; o.nstates = i as u64 + 1; }
    if verbose { for l in &r.log { println!("{l}"); } }
    if let Some(f) = &r.found { o.mask = 1 << prog.prop; sup::put_text(&format!("[P{:02}] {}", prog.prop, f.chars().take(1500).collect::<String>())); }
}

fn mk(r: &mut Run, form: u64, i: usize, a: usize, b: usize, seed: u64, panic_at: u64) {
    let link = |k: usize| r.slots[k].as_ref().filter(|s| s.1.size() < 25).map(|s| (s.0.clone(), s.1.copy())).unwrap_or_else(|| (NodeScene::new(Quiet::new()), Exp::quiet("Quiet")));
    let (one, two) = (link(a), link(b));
    W.with(|w| { let mut w = w.borrow_mut(); w.seed = seed; w.used.clear(); w.panic_at = panic_at; });
    let made = r.guard("scene!", || make(form, &one.0, &two.0));
    let used_now = W.with(|w| std::mem::take(&mut w.borrow_mut().used));
    W.with(|w| w.borrow_mut().panic_at = 0);
    let e = want(form, &one.1, &two.1);
    for (l, what) in [(&one, "first"), (&two, "second")] {
        if let Some(d) = differ(&actual(&l.0), &l.1) { r.bad(format!("the {what} scene that was linked: {d}")); }
    }
    for (k, n) in &used_now { if *n != 1 { r.bad(format!("expression {k} was evaluated {n} times")); } }
    let Some(s) = made else {
        if panic_at == 0 || panic_at > used(form) + 1 && r.found.is_none() { r.bad("scene! panicked".into()); }
        return;
    };
    if form != 8 && used_now.len() as u64 != used(form) { r.bad(format!("{} expressions were evaluated instead of {}", used_now.len(), used(form))); }
    if let Some(d) = differ(&actual(&s), &e) { r.bad(format!("scene of form {form}: {d}")); }
    count(0, 1);
    count(1, e.size());
    if matches!(form, 5 | 6 | 7 | 12) { count(2, 1); }
    r.slots[i] = Some((s, e));
}

/// Grows a scene into a tree, and has its nodes do what they are declared to.
fn live(r: &mut Run, i: usize, seed: u64, steps: u64) {
    let Some((s, e)) = &r.slots[i] else { return };
    let mut q = Rng::new(seed);
    let (s, e) = (s.clone(), e.copy());
    // A root with a hook for everything, so that nothing depends on it.
    let mut root = NodeScene::new(Rich::new(1, 2, 3));
    root.append(s);
    W.with(|w| { let mut w = w.borrow_mut(); w.hooks.clear(); w.heard.clear(); });
    let tree: *mut TreeSimple = Box::into_raw(TreeSimple::new(root, LoggerVerbosity::OnlyPanics));
    let t = || unsafe { &mut *tree };
    let of = |rid: RID| unsafe { TpDyn::new(tree as *mut dyn NodeTree, 0, rid) }.unwrap();
    fn all(n: &dyn Node, out: &mut Vec<RID>) { out.push(n.rid()); for c in n.children() { all(&*c, out); } }
    let mut rids = vec![];
    all(&*of(0), &mut rids);
    let classes: Vec<u8> = rids.iter().map(|x| looked(&*of(*x)).0).collect();
    // The nodes are the ones of the scene.
    fn flat<'a>(e: &'a Exp, out: &mut Vec<&'a Exp>) { out.push(e); for k in &e.kids { flat(k, out); } }
    let mut exp = vec![];
    flat(&e, &mut exp);
    if exp.len() + 1 != rids.len() { r.bad(format!("{} nodes grew out of {}", rids.len() - 1, exp.len())); return; }
    for (x, e) in rids[1..].iter().zip(&exp) {
        let (c, f) = looked(&*of(*x));
        if c != e.class || f != e.fields { r.bad(format!("{:?} grew into class {c} with {f:?}", e)); return; }
    }
    let rich: Vec<RID> = rids.iter().zip(&classes).filter(|c| *c.1 == 0).map(|c| *c.0).collect();
    let rich_of = |x: RID| unsafe { Tp::<Rich>::new(tree as *mut dyn NodeTree, 0, x) };
    let mut links: Vec<(RID, u64, bool, RID)> = vec![];
    let (mut frames, mut counts) = (0u64, BTreeMap::<RID, i64>::new());
    for x in &rich { counts.insert(*x, rich_of(*x).unwrap().look()[2].parse().unwrap_or(0)); }
    for _ in 0..steps {
        match q.below(9) {
            0..=2 => {
                let (a, sig, once, b) = (*q.pick(&rich), q.below(4), q.chance(1, 2), *q.pick(&rich));
                count(4, 1);
                rich_of(a).unwrap().link(sig, once, unsafe { Tp::<Rich>::new(tree as *mut dyn NodeTree, a, b) }.unwrap());
                links.push((a, sig, once, b));
            }
            3..=5 => {
                let (a, sig, x) = (*q.pick(&rich), q.below(4), q.below(1000));
                count(5, 1);
                rich_of(a).unwrap().shout(sig, x);
                let args = match sig { 0 => "()".to_string(), 1 => format!("{x}"), 2 => format!("{:?}", (x, format!("{x}"))), _ => format!("{:?}", (x, format!("{x}"), vec![x as i64, -1])) };
                let what = ["none", "one", "two", "three"][sig as usize];
                let mut due: Vec<String> = links.iter().filter(|l| l.0 == a && l.1 == sig).map(|l| format!("{}{what} of {} got {args}", if l.2 { "once " } else { "" }, l.3)).collect();
                links.retain(|l| !(l.0 == a && l.1 == sig && l.2));
                let mut got = W.with(|w| std::mem::take(&mut w.borrow_mut().heard));
                count(6, got.len() as u64);
                (due.sort(), got.sort());
                r.say(format!("{got:?}"));
                if got != due { r.bad(format!("an emission was heard as {got:?} instead of {due:?}")); return; }
            }
            6 => { count(7, 1); frames += 1; crate::sysim::sys().mono_ns += 1_000_000; t().process(); }
            7 => {
                let (x, by) = (*q.pick(&rich), q.below(100) as i64);
                let c = counts.get_mut(&x).unwrap();
                *c += by;
                let mut p = rich_of(x).unwrap();
                let got = (p.total(by), p.talk(), p.amount().to_string(), Rich::twice(&by), Rich::LIMIT);
                let due = (*c, 46, p.look()[0].clone(), (by, by), 42);
                if got != due { r.bad(format!("functions gave {got:?} instead of {due:?}")); return; }
            }
            _ => {
                let k = q.below(rids.len() as u64) as usize;
                let p = of(rids[k]);
                let got = (p.cast::<dyn Talks>().to_result().is_ok(), p.cast::<dyn Counts>().to_result().is_ok());
                let due = match classes[k] { 0 => (true, true), 2 => (true, false), _ => (false, false) };
                if got != due { r.bad(format!("a node of class {} extends {got:?} instead of {due:?}", classes[k])); return; }
                if classes[k] == 3 { let n = unsafe { Tp::<inner::Quiet>::new(tree as *mut dyn NodeTree, 0, rids[k]) }.unwrap().listeners(); if n != 0 { r.bad(format!("a signal that was never connected has {n} listeners")); return; } }
            }
        }
    }
    if q.chance(1, 2) && frames > 0 {
        of(0).free();
        for _ in 0..3 { t().process(); }
    } else { frames += 1000; }
    let hooks = W.with(|w| std::mem::take(&mut w.borrow_mut().hooks));
    let gone = frames < 1000;
    let disk = [false].into_iter().chain(exp.iter().map(|e| e.disk));
    for ((x, c), disk) in rids.iter().zip(&classes).zip(disk) {
        let n = |h: &'static str| hooks.get(&(*x, h)).copied().unwrap_or(0);
        let ran = frames % 1000;
        let has = |on: &[u8]| on.contains(c) as u64;
        for (h, due) in [("process", ran * has(&[0, 2])), ("terminal", gone as u64 * has(&[0, 3])), ("ready", has(&[0])), ("loaded", has(&[0]) * disk as u64)] {
            if n(h) != due { r.bad(format!("{h}() of a node of class {c} ran {} times instead of {due} in {ran} frames", n(h))); return; }
        }
        if ran > 0 && n("mode") == 0 && *c == 0 { r.bad("process_mode() was not asked".into()); return; }
    }
}

pub fn generate(prop: u32, seed: u64) -> Program {
    let mut r = Rng::new(seed.wrapping_mul(0x2000_0003).wrapping_add(prop as u64 * 0x51_7CC1_B727));
    let mut b = vec![];
    for _ in 0..r.range(3, 14) {
        b.push(match r.below(12) {
            0 => format!("own {} {}", r.below(4), r.below(4)),
            1 => format!("copy {} {}", r.below(4), r.below(4)),
            2 | 3 => format!("store {}", r.below(4)),
            4 | 5 => format!("live {} {} {}", r.below(4), r.below(1 << 40), r.range(1, 30)),
            _ => format!("make {} {} {} {} {} {}", r.below(FORMS), r.below(4), r.below(4), r.below(4), r.below(1 << 40), if r.chance(1, 4) { r.range(1, 6) } else { 0 })
        });
    }
    Program { prop, seed: r.next(), verbosity: 0, mono0: r.below(1 << 40), wall0: 1_700_000_000, root_scene: true, scenes: vec![], steps: vec![], blob: b }
}
