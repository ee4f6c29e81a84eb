//! The node classes of the tree simulations. Their callbacks do nothing but to tell the simulator, which then performs
//! the operations that the program has for that moment.

use node_tree::prelude::*;
use std::cell::Cell;

/// Makes every copy of a node distinguishable, and reports its destruction.
#[derive(Debug)]
pub struct Ident { pub serial: u64, pub tag: u64, pub mode: u64 }
thread_local! { static NEXT: Cell<u64> = const { Cell::new(1) }; }
fn fresh() -> u64 { NEXT.with(|n| { let v = n.get(); n.set(v + 1); v }) }
impl Default for Ident { fn default() -> Self { Ident { serial: fresh(), tag: 0, mode: 0 } } }
impl Clone for Ident { fn clone(&self) -> Self { crate::real::copying(); Ident { serial: fresh(), tag: self.tag, mode: self.mode } } }
impl Drop for Ident { fn drop(&mut self) { crate::real::dropped(self.serial); } }

pub trait Greeter { fn greet(&self) -> u64; fn set_greet(&mut self, v: i64); }
pub trait Marker { fn mark(&self) -> u64; }

/// What the simulator needs of every class.
pub trait Sim: Node {
    fn ident(&self) -> &Ident;
    fn ident_mut(&mut self) -> &mut Ident;
    fn class(&self) -> u64;
    fn num_ref(&mut self) -> &mut ExportableField<i64>;
    fn deft_ref(&mut self) -> &mut DefaultField<u64>;
    fn plain_ref(&mut self) -> &mut Field<u64>;
    fn uniq_ref(&mut self) -> &mut UniqueField<u64>;
    fn signal(&self, i: u64) -> &Signal<u64>;
    fn link_same(&self, sig: u64, once: bool, to: RID) -> bool;
    fn listen(&self, sig: u64, once: bool, conn: u64, to: RID) -> Option<RID>;
    fn heard(&self, conn: u64, v: &u64);
}

fn mode_of(m: u64) -> ProcessMode {
    match m { 1 => ProcessMode::Always, 2 => ProcessMode::Pausable, 3 => ProcessMode::Inverse, _ => ProcessMode::Inherit }
}

macro_rules! classes { ($($i:literal $n:ident $(extends $($t:ident),*)?;)*) => {
    $(
    class! {
        pub declare $n $(extends $($t),*)?;
        pub signal on_a(v: u64);
        pub signal on_b(v: u64);
        pub default let ident: Ident;
        pub export let num: i64;
        pub default let deft: u64;
        pub let plain: u64 = 7;
        pub unique let uniq: u64 = 5;
        hk _init(start: i64) { let num = start; }
        hk process_mode(&self) -> ProcessMode { mode_of(self.ident.mode) }
        hk loaded(&mut self) { crate::real::callback(self, crate::real::Cb::Loaded) }
        hk ready(&mut self) { crate::real::callback(self, crate::real::Cb::Ready) }
        hk process(&mut self, delta: f32) { crate::real::callback(self, crate::real::Cb::Process(delta)) }
        hk terminal(&mut self, reason: TerminationReason) { crate::real::callback(self, crate::real::Cb::Terminal(reason)) }
        fn hear(&self, v: &u64) { self.heard(u64::MAX, v) }
        fn hear_once(&self, v: &u64) { self.heard(u64::MAX - 1, v) }
        fn link(&self, sig: u64, once: bool, o: Tp<$n>) {
            match (sig, once) {
                (0, false) => { connect! { on_a -> o.hear }; }
                (0, true)  => { connect! { on_a ~> o.hear_once }; }
                (_, false) => { connect! { on_b -> o.hear }; }
                (_, true)  => { connect! { on_b ~> o.hear_once }; }
            }
        }
    }
    impl Sim for $n {
        fn ident(&self) -> &Ident { &self.ident }
        fn ident_mut(&mut self) -> &mut Ident { &mut self.ident }
        fn class(&self) -> u64 { $i }
        fn num_ref(&mut self) -> &mut ExportableField<i64> { &mut self.num }
        fn deft_ref(&mut self) -> &mut DefaultField<u64> { &mut self.deft }
        fn plain_ref(&mut self) -> &mut Field<u64> { &mut self.plain }
        fn uniq_ref(&mut self) -> &mut UniqueField<u64> { &mut self.uniq }
        fn signal(&self, i: u64) -> &Signal<u64> { if i == 0 { &self.on_a } else { &self.on_b } }
        fn link_same(&self, sig: u64, once: bool, to: RID) -> bool {
            match unsafe { Tp::<$n>::new(crate::real::tree_ptr(), self.rid(), to) }.to_option() {
                Some(tp) => { self.link(sig, once, tp); true }
                None => false
            }
        }
        fn listen(&self, sig: u64, once: bool, conn: u64, to: RID) -> Option<RID> {
            let tree = crate::real::tree_ptr();
            let s = self.signal(sig);
            let kept = crate::real::Kept::new();
            macro_rules! go { ($tp:ident) => { return Some(unsafe {
                if once { s.connect_once(move |v| { $tp.heard(conn, v); kept.check(conn) }) } else { s.connect(move |v| { $tp.heard(conn, v); kept.check(conn) }) }
            }) } }
            all_classes!(C => if let Some(tp) = unsafe { Tp::<C>::new(tree, self.rid(), to) }.to_option() { go!(tp) });
            None
        }
        fn heard(&self, conn: u64, v: &u64) {
            let me = std::hint::black_box(self as *const $n as usize) as *mut $n;
            crate::real::callback(unsafe { &mut *me }, crate::real::Cb::Heard(conn, *v))
        }
    }
    )*
    /// Makes a node of the given class.
    pub const NAMES_OF_CLASSES: &[&str] = &[$(stringify!($n)),*];
    pub fn sim(n: &dyn Node) -> &dyn Sim {
        let any = n.as_any_ref();
        $( if let Some(x) = any.downcast_ref::<$n>() { return x; } )*
        panic!("harness: unknown class");
    }
    pub fn sim_mut(n: &mut dyn Node) -> &mut dyn Sim {
        let p = n as *mut dyn Node;
        $( if let Some(x) = unsafe { &mut *p }.as_any_mut().downcast_mut::<$n>() { return x; } )*
        panic!("harness: unknown class");
    }
    pub fn type_names() -> Vec<String> { vec![$(std::any::type_name::<$n>().to_string()),*] }
    pub fn sizes() -> Vec<usize> { vec![$(std::mem::size_of::<$n>()),*] }
} }

/// Runs code for each of the classes.
#[macro_export]
macro_rules! all_classes { ($c:ident => $($b:tt)*) => { {
    { #[allow(dead_code)] type $c = $crate::classes::Alpha; $($b)* }
    { #[allow(dead_code)] type $c = $crate::classes::Beta;  $($b)* }
    { #[allow(dead_code)] type $c = $crate::classes::Gamma; $($b)* }
    { #[allow(dead_code)] type $c = $crate::classes::Delta; $($b)* }
} } }
/// Runs code for the class of the given number.
#[macro_export]
macro_rules! of_class { ($k:expr, $c:ident => $($b:tt)*) => { match $k % 4 {
    0 => { #[allow(dead_code)] type $c = $crate::classes::Alpha; $($b)* }
    1 => { #[allow(dead_code)] type $c = $crate::classes::Beta;  $($b)* }
    2 => { #[allow(dead_code)] type $c = $crate::classes::Gamma; $($b)* }
    _ => { #[allow(dead_code)] type $c = $crate::classes::Delta; $($b)* }
} } }

classes! {
    0 Alpha extends Greeter;
    1 Beta extends Greeter, Marker;
    2 Gamma;
    3 Delta extends Marker;
}
class! {
    /// Comes and goes again.
    pub declare Brief;
}
pub fn greets(class: u64) -> bool { class < 2 }
pub fn marks(class: u64) -> bool { class == 1 || class == 3 }
impl Greeter for Alpha { fn greet(&self) -> u64 { self.ident.serial } fn set_greet(&mut self, v: i64) { *self.num = v; } }
impl Greeter for Beta { fn greet(&self) -> u64 { self.ident.serial } fn set_greet(&mut self, v: i64) { *self.num = v; } }
impl Marker for Beta { fn mark(&self) -> u64 { self.ident.serial } }
impl Marker for Delta { fn mark(&self) -> u64 { self.ident.serial } }
