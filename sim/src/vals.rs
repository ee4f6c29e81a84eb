//! Values of every exportable type: how to make them up, when two are equal, and what a piece of TOML says about them.

use crate::prng::Rng;
use node_tree::prelude::*;
use node_tree::traits::exportable::Exportable;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use toml_edit::{Datetime, Value};

pub trait Val: Exportable + Sized {
    fn gen(r: &mut Rng, size: u64) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// Whether this value is what the given TOML value says, or at least could be.
    fn says(&self, v: &Value) -> bool;
    fn show(&self) -> String;
}

macro_rules! ints { ($($t:ident),*) => { $(
    impl Val for $t {
        fn gen(r: &mut Rng, size: u64) -> Self {
            if size == 0 { return 1 as $t; }
            match r.below(8) { 0 => $t::MAX, 1 => $t::MIN, 2 => 0, 3 => ($t::MAX / 2).wrapping_add(r.below(3) as $t), 4 => (1u64 << r.below(64)) as $t, 5 => ((1u64 << r.below(64)).wrapping_sub(1)) as $t, _ => r.next() as $t }
        }
        fn same(&self, o: &Self) -> bool { self == o }
        fn says(&self, v: &Value) -> bool { match v { Value::Integer(i) => if stringify!($t) == "u64" { *i.value() as u64 == *self as u64 } else { *i.value() as i128 == *self as i128 }, Value::Float(f) => *f.value() == *self as f64, _ => true } }
        fn show(&self) -> String { format!("{self}") }
    }
)* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);
macro_rules! floats { ($($t:ident $b:ident),*) => { $(
    impl Val for $t {
        fn gen(r: &mut Rng, size: u64) -> Self {
            if size == 0 { return 1.5; }
            match r.below(16) {
                0 => -0.0, 1 => 0.0, 2 => $t::INFINITY, 3 => $t::NEG_INFINITY, 4 => $t::NAN, 5 => $t::MAX, 6 => $t::MIN, 7 => $t::MIN_POSITIVE, 8 => $t::from_bits(1), 9 => $t::EPSILON,
                10 => r.below(1000) as $t, 11 => -(r.below(1 << 62) as $t), 12 => (r.below(100000) as $t) / 1000.0, _ => $t::from_bits(r.next() as $b)
            }
        }
        fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        fn says(&self, v: &Value) -> bool { match v { Value::Float(f) => self.same(&(*f.value() as $t)), _ => true } }
        fn show(&self) -> String { format!("{self:?}") }
    }
)* } }
floats!(f32 u32, f64 u64);

macro_rules! plain { ($t:ty, |$r:ident, $s:ident| $g:expr) => {
    impl Val for $t {
        fn gen($r: &mut Rng, $s: u64) -> Self { $g }
        fn same(&self, o: &Self) -> bool { self == o }
        fn says(&self, _v: &Value) -> bool { true }
        fn show(&self) -> String { format!("{self:?}") }
    }
} }
impl Val for () {
    fn gen(_r: &mut Rng, _s: u64) -> Self {}
    fn same(&self, _o: &Self) -> bool { true }
    fn says(&self, _v: &Value) -> bool { true }
    fn show(&self) -> String { "()".into() }
}
impl Val for bool {
    fn gen(r: &mut Rng, _s: u64) -> Self { r.chance(1, 2) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn says(&self, v: &Value) -> bool { match v { Value::Boolean(b) => b.value() == self, _ => true } }
    fn show(&self) -> String { format!("{self}") }
}
pub fn any_char(r: &mut Rng) -> char {
    match r.below(12) {
        0 => char::from_u32(r.below(32) as u32).unwrap(), 1 => ['"', '\'', '\\', '\n', '\r', '\t', '\0', '\u{7f}', '#', '=', '[', ']', '{', '}', ',', '.', ' '][r.below(17) as usize],
        2 => char::from_u32(0x80 + r.below(0x80) as u32).unwrap(), 3 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap_or('\u{10ffff}'),
        4 => ['\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{85}', '\u{a0}', '\u{301}', '\u{200d}'][r.below(11) as usize],
        5 => char::from_u32(r.below(0xd800) as u32).unwrap(),
        _ => char::from_u32(32 + r.below(95) as u32).unwrap(),
    }
}
pub fn any_text(r: &mut Rng, size: u64) -> String {
    if size == 0 { return "t".into(); }
    match r.below(10) {
        0 => String::new(),
        1 => ["\"\"\"", "'''", "\"", "\\", "\n", "\r\n", "\r", "\n\n\"\"\"\n'''", "a\"\"\"\"b", "\\\"", "\\u0041", "#", " ", "\t", "key = 1", "[table]", "]]", "true", "1979-05-27", "\u{0}", "nan", "'''\n\"\"\"", "\"\"\"\"\"\"", "ends with \\"][r.below(24) as usize].into(),
        2 => { let n = r.below(400); (0..n).map(|_| any_char(r)).collect() }
        _ => { let n = r.below(2 + size * 3); (0..n).map(|_| any_char(r)).collect() }
    }
}
impl Val for char {
    fn gen(r: &mut Rng, size: u64) -> Self { if size == 0 { 'c' } else { any_char(r) } }
    fn same(&self, o: &Self) -> bool { self == o }
    fn says(&self, v: &Value) -> bool { match v { Value::String(s) => s.value().chars().eq(std::iter::once(*self)), _ => true } }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Val for String {
    fn gen(r: &mut Rng, size: u64) -> Self { any_text(r, size) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn says(&self, v: &Value) -> bool { match v { Value::String(s) => s.value() == self, _ => true } }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Val for NodePath {
    fn gen(r: &mut Rng, size: u64) -> Self {
        if r.chance(1, 8) { return if r.chance(1, 2) { NodePath::new() } else { NodePath::new_abs() }; }
        let n = r.below(2 + size);
        let seg = |r: &mut Rng| match r.below(5) { 0 => ".".to_string(), 1 => "..".to_string(), 2 => "Name 1".into(), _ => any_text(r, 2).replace('/', "") };
        if r.chance(1, 2) {
            let t: Vec<String> = (0..n).map(|_| seg(r)).collect();
            NodePath::from_str(&format!("{}{}", if r.chance(1, 2) { "/" } else { "" }, t.join("/")))
        } else {
            let mut p = if r.chance(1, 2) { NodePath::new_abs() } else { NodePath::new() };
            for _ in 0..n { let s = seg(r); if !s.is_empty() { p.add_node(&s); } }
            p
        }
    }
    fn same(&self, o: &Self) -> bool { self.clone().to_string() == o.clone().to_string() && self.is_absolute() == o.is_absolute() }
    fn says(&self, _v: &Value) -> bool { true }
    fn show(&self) -> String { format!("{:?} ({})", self.clone().to_string(), self.is_absolute()) }
}
plain!(PathBuf, |r, size| { let t = any_text(r, size); if r.chance(1, 2) { PathBuf::from(t) } else { ["/", "a"].iter().collect::<PathBuf>().join(t) } });
plain!(Ipv4Addr, |r, size| if size == 0 { Ipv4Addr::LOCALHOST } else { Ipv4Addr::from(if r.chance(1, 4) { u32::MAX } else { r.next() as u32 }) });
plain!(Ipv6Addr, |r, size| if size == 0 { Ipv6Addr::LOCALHOST } else { match r.below(5) {
    0 => Ipv6Addr::UNSPECIFIED, 1 => Ipv4Addr::from(r.next() as u32).to_ipv6_mapped(), 2 => Ipv6Addr::from(r.next() as u128), 3 => Ipv6Addr::from((r.next() as u128) << 64), _ => Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128) } });
plain!(IpAddr, |r, size| if r.chance(1, 2) { IpAddr::V4(Val::gen(r, size)) } else { IpAddr::V6(Val::gen(r, size)) });
// Saved as a floating point number of seconds: nanoseconds are exact for less than some days, larger ones are not.
plain!(Duration, |r, size| if size == 0 { Duration::from_secs(1) } else { match r.below(5) { 0 => Duration::ZERO, 1 => Duration::new(r.below(1 << 53), 0), 2 => Duration::new(0, r.below(1_000_000_000) as u32), 3 => Duration::from_nanos(1), _ => Duration::new(r.below(1 << 20), r.below(1_000_000_000) as u32) } });
plain!(Datetime, |r, size| {
    use toml_edit::{Date, Offset, Time};
    if size == 0 { return Datetime { date: Some(Date { year: 2000, month: 1, day: 2 }), time: None, offset: None }; }
    let month = r.range(1, 12) as u8;
    let year = if r.chance(1, 3) { [0, 1, 1900, 2000, 2024, 9999][r.below(6) as usize] } else { r.below(10000) as u16 };
    let leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    let days = match month { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    let date = Date { year, month, day: if r.chance(1, 3) { days } else { r.range(1, days) } as u8 };
    let ns = match r.below(5) { 0 => 0, 1 => 999_999_999, 2 => r.below(1000) as u32 * 1_000_000, 3 => 1, _ => r.below(1_000_000_000) as u32 };
    let time = Time { hour: r.below(24) as u8, minute: r.below(60) as u8, second: r.below(60) as u8, nanosecond: ns };
    match r.below(4) {
        0 => Datetime { date: Some(date), time: None, offset: None },
        1 => Datetime { date: None, time: Some(time), offset: None },
        2 => Datetime { date: Some(date), time: Some(time), offset: None },
        _ => Datetime { date: Some(date), time: Some(time), offset: Some(if r.chance(1, 3) { Offset::Z } else { Offset::Custom { minutes: r.below(2 * 1439 + 1) as i16 - 1439 } }) },
    }
});

fn arr<'a>(v: &'a Value) -> Option<Vec<&'a Value>> { v.as_array().map(|a| a.iter().collect()) }
fn list<'a, T: Val + 'a>(x: impl ExactSizeIterator<Item = &'a T>, v: &Value) -> bool { match arr(v) { Some(a) => a.len() == x.len() && x.zip(a).all(|(x, v)| x.says(v)), None => true } }

impl<T: Val> Val for Option<T> {
    fn gen(r: &mut Rng, size: u64) -> Self { if size == 0 || r.chance(1, 3) { None } else { Some(T::gen(r, size - 1)) } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    fn says(&self, v: &Value) -> bool { match (v.as_inline_table().map(|t| t.get("value")), self) { (Some(Some(v)), Some(s)) => s.says(v), (Some(None), None) | (None, _) => true, _ => false } }
    fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } }
}
fn len(r: &mut Rng, size: u64) -> u64 { if size == 0 { 0 } else { match r.below(6) { 0 => 0, 1 => 1, _ => r.below(size + 2) } } }
impl<T: Val> Val for Vec<T> {
    fn gen(r: &mut Rng, size: u64) -> Self { let n = len(r, size); (0..n).map(|_| T::gen(r, size / 2)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn says(&self, v: &Value) -> bool { list(self.iter(), v) }
    fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }
}
impl<T: Val + std::hash::Hash + Eq> Val for HashSet<T> {
    fn gen(r: &mut Rng, size: u64) -> Self { let n = len(r, size); (0..n).map(|_| T::gen(r, size / 2 + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self == o }
    fn says(&self, v: &Value) -> bool { match arr(v) { Some(a) => self.iter().all(|x| a.iter().any(|v| x.says(v))) && a.iter().all(|v| self.iter().any(|x| x.says(v))), None => true } }
    fn show(&self) -> String { format!("{{{}}}", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }
}
impl<T: Val + Ord> Val for BTreeSet<T> {
    fn gen(r: &mut Rng, size: u64) -> Self { let n = len(r, size); (0..n).map(|_| T::gen(r, size / 2 + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self == o }
    fn says(&self, v: &Value) -> bool { match arr(v) { Some(a) => self.iter().all(|x| a.iter().any(|v| x.says(v))) && a.iter().all(|v| self.iter().any(|x| x.says(v))), None => true } }
    fn show(&self) -> String { format!("{{{}}}", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }
}
macro_rules! maps { ($($m:ident<$k:ident>),*) => { $(
    impl<V: Val> Val for $m<$k, V> {
        fn gen(r: &mut Rng, size: u64) -> Self { let n = len(r, size); (0..n).map(|_| ($k::gen(r, size), V::gen(r, size / 2))).collect() }
        fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map(|w| v.same(w)).unwrap_or(false)) }
        fn says(&self, v: &Value) -> bool { match v.as_inline_table() { Some(t) => t.len() == self.len() && self.iter().all(|(k, x)| t.get(&k.to_string()).map(|v| x.says(v)).unwrap_or(false)), None => true } }
        fn show(&self) -> String { let mut l: Vec<String> = self.iter().map(|(k, v)| format!("{:?}: {}", k, v.show())).collect(); l.sort(); format!("{{{}}}", l.join(", ")) }
    }
)* } }
maps!(HashMap<char>, HashMap<String>, BTreeMap<char>, BTreeMap<String>);
macro_rules! boxes { ($($b:ident),*) => { $(
    impl<T: Val> Val for $b<T> {
        fn gen(r: &mut Rng, size: u64) -> Self { $b::new(T::gen(r, size)) }
        fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
        fn says(&self, v: &Value) -> bool { (**self).says(v) }
        fn show(&self) -> String { (**self).show() }
    }
)* } }
boxes!(Box, Rc, Arc);
impl<T: Val> Val for Mutex<T> {
    fn gen(r: &mut Rng, size: u64) -> Self { Mutex::new(T::gen(r, size)) }
    fn same(&self, o: &Self) -> bool { std::ptr::eq(self, o) || self.lock().unwrap().same(&o.lock().unwrap()) }
    fn says(&self, v: &Value) -> bool { self.lock().unwrap().says(v) }
    fn show(&self) -> String { self.lock().unwrap().show() }
}
impl<const N: usize, T: Val> Val for [T; N] {
    fn gen(r: &mut Rng, size: u64) -> Self { std::array::from_fn(|_| T::gen(r, size / 2)) }
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn says(&self, v: &Value) -> bool { list(self.iter(), v) }
    fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }
}
macro_rules! tuples { ($($n:literal: $($t:ident $i:tt),*;)*) => { $(
    impl<$($t: Val),*> Val for ($($t,)*) {
        fn gen(r: &mut Rng, size: u64) -> Self { ($($t::gen(r, size / 2),)*) }
        fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        fn says(&self, v: &Value) -> bool { match arr(v) { Some(a) => a.len() == $n $(&& self.$i.says(a[$i]))*, None => true } }
        fn show(&self) -> String { format!("({})", [$(self.$i.show()),*].join(", ")) }
    }
)* } }
tuples! {
    1: A 0; 2: A 0, B 1; 3: A 0, B 1, C 2; 4: A 0, B 1, C 2, D 3; 5: A 0, B 1, C 2, D 3, E 4; 6: A 0, B 1, C 2, D 3, E 4, F 5; 7: A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    8: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7; 9: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8; 10: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
}

macro_rules! vectors { ($($t:ident $e:ident $n:literal;)*) => { $(
    impl Val for glam::$t {
        fn gen(r: &mut Rng, size: u64) -> Self { glam::$t::from_array(<[$e; $n]>::gen(r, size * 2)) }
        fn same(&self, o: &Self) -> bool { self.to_array().same(&o.to_array()) }
        fn says(&self, v: &Value) -> bool { self.to_array().says(v) }
        fn show(&self) -> String { format!("{}{:?}", stringify!($t), self.to_array()) }
    }
)* } }
vectors! {
    U8Vec2 u8 2; U8Vec3 u8 3; U8Vec4 u8 4; U16Vec2 u16 2; U16Vec3 u16 3; U16Vec4 u16 4; UVec2 u32 2; UVec3 u32 3; UVec4 u32 4; U64Vec2 u64 2; U64Vec3 u64 3; U64Vec4 u64 4;
    I8Vec2 i8 2; I8Vec3 i8 3; I8Vec4 i8 4; I16Vec2 i16 2; I16Vec3 i16 3; I16Vec4 i16 4; IVec2 i32 2; IVec3 i32 3; IVec4 i32 4; I64Vec2 i64 2; I64Vec3 i64 3; I64Vec4 i64 4;
    Vec2 f32 2; Vec3 f32 3; Vec3A f32 3; Vec4 f32 4; DVec2 f64 2; DVec3 f64 3; DVec4 f64 4; Quat f32 4; DQuat f64 4;
}
macro_rules! bools { ($($t:ident $n:literal;)*) => { $(
    impl Val for glam::$t {
        fn gen(r: &mut Rng, size: u64) -> Self { glam::$t::from_array(<[bool; $n]>::gen(r, size)) }
        fn same(&self, o: &Self) -> bool { self == o }
        fn says(&self, v: &Value) -> bool { let a: [bool; $n] = (*self).into(); a.says(v) }
        fn show(&self) -> String { format!("{self:?}") }
    }
)* } }
bools! { BVec2 2; BVec3 3; BVec4 4; }
macro_rules! mats { ($($t:ident $e:ident $n:literal;)*) => { $(
    impl Val for glam::$t {
        fn gen(r: &mut Rng, size: u64) -> Self { glam::$t::from_cols_array(&<[$e; $n]>::gen(r, size * 2)) }
        fn same(&self, o: &Self) -> bool { self.to_cols_array().same(&o.to_cols_array()) }
        fn says(&self, v: &Value) -> bool {
            // However it is laid out, as many numbers have to be these numbers.
            fn numbers(v: &Value, out: &mut Vec<f64>) { match v { Value::Array(a) => a.iter().for_each(|v| numbers(v, out)), Value::InlineTable(t) => t.iter().for_each(|(_, v)| numbers(v, out)), Value::Float(f) => out.push(*f.value()), _ => () } }
            let mut l = vec![];
            numbers(v, &mut l);
            l.len() != $n || self.to_cols_array().iter().zip(l).all(|(a, b)| a.same(&(b as $e)))
        }
        fn show(&self) -> String { format!("{}{:?}", stringify!($t), self.to_cols_array()) }
    }
)* } }
mats! { Mat2 f32 4; Mat3 f32 9; Mat3A f32 9; Mat4 f32 16; DMat2 f64 4; DMat3 f64 9; DMat4 f64 16; Affine2 f32 6; Affine3A f32 12; DAffine2 f64 6; DAffine3 f64 12; }

/* ---------------------------------------------------------------- single values */

/// What is needed of a value of any type.
trait AnyVal {
    fn value(&self) -> Value;
    fn like(&self, o: &dyn AnyVal) -> bool;
    fn fits(&self, v: &Value) -> bool;
    fn text(&self) -> String;
    fn raw(&self) -> *const ();
}
impl<T: Val> AnyVal for T {
    fn value(&self) -> Value { self.to_value() }
    // Both are of the same type, as both came from the same `Ty`.
    fn like(&self, o: &dyn AnyVal) -> bool { self.same(unsafe { &*(o.raw() as *const T) }) }
    fn fits(&self, v: &Value) -> bool { self.says(v) }
    fn text(&self) -> String { self.show() }
    fn raw(&self) -> *const () { self as *const T as *const () }
}
/// A type of values, which may be held by many others, so little is compiled per type.
#[derive(Clone, Copy)]
pub struct Ty { gen: fn(&mut Rng, u64) -> Box<dyn AnyVal>, from: fn(Value) -> Option<Box<dyn AnyVal>>, name: fn() -> &'static str }
impl Ty {
    const fn of<T: Val + 'static>() -> Ty { Ty { gen: |r, size| Box::new(T::gen(r, size)), from: |v| T::from_value(v).map(|x| Box::new(x) as Box<dyn AnyVal>), name: || std::any::type_name::<T>() } }
    fn trip(&self, v: &dyn AnyVal) -> Result<Box<dyn AnyVal>, String> {
        let mut doc = toml_edit::DocumentMut::new();
        doc["a b"] = toml_edit::Item::Table(toml_edit::Table::new());
        doc["a b"]["x"] = toml_edit::Item::Value(v.value());
        let text = doc.to_string();
        let back: toml_edit::DocumentMut = text.parse().map_err(|e| format!("what {} was saved as is not valid: {e}: {text}", v.text()))?;
        let item = back.get("a b").and_then(|t| t.as_table()).and_then(|t| t.get("x")).cloned().ok_or("a value was lost")?;
        let toml_edit::Item::Value(value) = item else { return Err("a value became something else".into()) };
        (self.from)(value).ok_or_else(|| format!("{} could not be loaded from {text}", v.text()))
    }
    /// Saves and loads a value, twice.
    pub fn both(&self, seed: u64, size: u64) -> Result<u64, String> {
        let mut r = Rng::new(seed);
        let v = (self.gen)(&mut r, size);
        let w = self.trip(&*v)?;
        if !v.like(&*w) { return Err(format!("{} of type {} became {}", v.text(), (self.name)(), w.text())); }
        let again = self.trip(&*w)?;
        if !v.like(&*again) { return Err(format!("{} became {} the second time", v.text(), again.text())); }
        Ok(crate::prng::fnv(crate::prng::FNV0, v.text().as_bytes()))
    }
    /// Loads a value from what was made of its saved form.
    pub fn hurt(&self, seed: u64, size: u64) -> Result<u64, String> {
        let mut r = Rng::new(seed);
        let v = (self.gen)(&mut r, size);
        let mut doc = toml_edit::DocumentMut::new();
        doc["x"] = toml_edit::Item::Value(v.value());
        let mut doc: toml_edit::DocumentMut = doc.to_string().parse().map_err(|e| format!("what {} was saved as is not valid: {e}", v.text()))?;
        let Some(value) = doc["x"].as_value_mut() else { return Err("a value became something else".into()) };
        for _ in 0..r.range(1, 3) { crate::damage::mutate(value, &mut r); }
        let text = doc.to_string();
        let Ok(doc) = text.parse::<toml_edit::DocumentMut>() else { return Ok(0) };
        let Some(value) = doc.get("x").and_then(|x| x.as_value()) else { return Ok(0) };
        let Some(x) = (self.from)(value.clone()) else { return Ok(1) };
        if !x.fits(value) { return Err(format!("a {} was loaded as {} although the text says {value}", (self.name)(), x.text())); }
        let again = self.trip(&*x)?;
        if !x.like(&*again) { return Err(format!("{} became {} when it was saved and loaded", x.text(), again.text())); }
        Ok(crate::prng::fnv(crate::prng::FNV0, x.text().as_bytes()) | 2)
    }
}
macro_rules! types { ($($t:ty),* $(,)?) => {
    pub const TYPES: &[(&str, [Ty; 7])] = &[$((stringify!($t), [Ty::of::<$t>(), Ty::of::<Vec<$t>>(), Ty::of::<Option<$t>>(), Ty::of::<BTreeMap<String, $t>>(), Ty::of::<($t, HashMap<char, $t>)>(), Ty::of::<[$t; 2]>(), Ty::of::<Vec<Option<Box<$t>>>>()])),*];
} }
types! {
    bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, String, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, Duration, Datetime,
    Option<u8>, Option<Option<String>>, Vec<String>, Vec<Vec<f64>>, HashSet<String>, HashSet<u8>, BTreeSet<i64>, BTreeSet<char>, HashMap<char, String>, HashMap<String, i64>, BTreeMap<char, f32>, BTreeMap<String, char>,
    Box<String>, Rc<u16>, Arc<f64>, Mutex<String>, Arc<Mutex<Vec<u8>>>, [u8; 0], [String; 1], [char; 3], [Option<f32>; 17], [[i8; 3]; 2],
    (u8,), (u8, String), (u8, u16, char), (bool, u8, String, f32), (u8, u16, u32, u64, i8), (i16, i32, i64, f32, f64, char), (u8, u8, u8, u8, u8, u8, i8), (u8, u16, u8, u16, u8, u16, u8, char),
    (i8, i8, i8, i8, i8, i8, i8, i8, String), (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64),
    HashMap<String, Vec<Option<(u8, String)>>>, BTreeMap<char, HashMap<String, [f32; 2]>>, Vec<HashMap<String, Duration>>, Option<BTreeMap<String, Option<Datetime>>>,
    glam::BVec2, glam::BVec3, glam::BVec4, glam::U8Vec2, glam::U8Vec3, glam::U8Vec4, glam::U16Vec2, glam::U16Vec3, glam::U16Vec4, glam::UVec2, glam::UVec3, glam::UVec4, glam::U64Vec2, glam::U64Vec3, glam::U64Vec4,
    glam::I8Vec2, glam::I8Vec3, glam::I8Vec4, glam::I16Vec2, glam::I16Vec3, glam::I16Vec4, glam::IVec2, glam::IVec3, glam::IVec4, glam::I64Vec2, glam::I64Vec3, glam::I64Vec4,
    glam::Vec2, glam::Vec3, glam::Vec3A, glam::Vec4, glam::DVec2, glam::DVec3, glam::DVec4, glam::Quat, glam::DQuat,
    glam::Mat2, glam::Mat3, glam::Mat3A, glam::Mat4, glam::DMat2, glam::DMat3, glam::DMat4, glam::Affine2, glam::Affine3A, glam::DAffine2, glam::DAffine3,
}

/* ---------------------------------------------------------------- classes with such fields */

pub trait Pay: Node {
    fn fill(&mut self, r: &mut Rng, size: u64);
    /// The first field that differs.
    fn differs(&mut self, o: &mut dyn Node) -> Option<String>;
    /// The first field that is not what the table says.
    fn denies(&mut self, t: &toml_edit::Table) -> Option<String>;
    fn shows(&mut self) -> String;
    fn kind(&self) -> usize;
}
macro_rules! pay_class { ($n:ident $label:ident { $($f:ident: $t:ty),* $(,)? }) => {
    class! {
        pub declare $n;
        $(pub export let $f: $t = Val::gen(&mut Rng::new(1), 0);)*
        pub let scratch: u64 = 11;
        pub default let spare: String;
        pub signal on_x(v: u64);
        hk process(&mut self, _delta: f32) {}
    }
    impl Pay for $n {
        fn fill(&mut self, r: &mut Rng, size: u64) { $( *self.$f = <$t>::gen(r, size); )* }
        fn differs(&mut self, o: &mut dyn Node) -> Option<String> {
            let Some(o) = o.as_any_mut().downcast_mut::<$n>() else { return Some("the node is of another type".into()) };
            $( if !self.$f.same(&o.$f) { return Some(format!("{}.{} is {} instead of {}", stringify!($n), stringify!($f), o.$f.show(), self.$f.show())); } )*
            None
        }
        fn denies(&mut self, t: &toml_edit::Table) -> Option<String> {
            $( if let Some(toml_edit::Item::Value(v)) = t.get(stringify!($f)) { if !self.$f.says(v) { return Some(format!("{}.{} is {} although the text says {v}", stringify!($n), stringify!($f), self.$f.show())); } } )*
            None
        }
        fn shows(&mut self) -> String { let mut s = String::new(); $( s += &self.$f.show(); s += ";"; )* s }
        fn kind(&self) -> usize { KINDS.iter().position(|k| *k == stringify!($label)).unwrap() }
    }
} }
macro_rules! payloads { ($($n:ident { $($f:tt)* })* ; $($o:ident)*) => {
    $( pay_class! { $n $n { $($f)* } } )*
    kinds! { $($n)* $($o)* }
} }
macro_rules! kinds { ($($n:ident)*) => {
    pub const KINDS: &[&str] = &[$(stringify!($n)),*];
    pub fn make(kind: usize, r: &mut Rng, size: u64) -> Box<dyn Node> {
        let mut i = 0;
        $( if kind % KINDS.len() == i { let mut n = $n::new(); n.fill(r, size); return n.to_dyn_box(); } i += 1; )*
        let _ = i;
        unreachable!()
    }
    pub fn pay(n: &mut dyn Node) -> &mut dyn Pay {
        let p = n as *mut dyn Node;
        $( if let Some(x) = unsafe { &mut *p }.as_any_mut().downcast_mut::<$n>() { return x; } )*
        panic!("harness: unknown class");
    }
    pub fn pay_type_names() -> Vec<&'static str> { vec![$(std::any::type_name::<$n>()),*] }
    pub fn pay_sizes() -> Vec<usize> { vec![$(std::mem::size_of::<$n>()),*] }
} }
payloads! {
    Plain { id: u64 }
    Scalars { a: bool, b: u8, c: u16, d: u32, e: u64, f: i8, g: i16, h: i32, i: i64, j: f32, k: f64, l: char, m: String }
    Texts { a: String, b: NodePath, c: PathBuf, d: Option<Ipv4Addr>, e: Option<Ipv6Addr>, f: Vec<IpAddr>, g: Duration, h: Option<Datetime>, i: Vec<String> }
    Many { a: Vec<u8>, b: HashSet<String>, c: HashMap<char, i16>, d: HashMap<String, String>, e: BTreeSet<u32>, f: BTreeMap<char, Vec<bool>>, g: BTreeMap<String, f64>, h: Option<Option<u8>> }
    Boxed { a: Box<i32>, b: Rc<String>, c: Arc<u8>, d: Arc<Mutex<f32>>, e: [u8; 3], f: [String; 2], g: (u8,), h: (i8, u16, u32), i: (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64), j: Option<[char; 2]> }
    Vectors { a: glam::Vec2, b: glam::DVec3, c: glam::U8Vec3, d: glam::I16Vec2, e: glam::UVec4, f: glam::I64Vec3, g: glam::BVec3, h: glam::Quat, i: glam::Vec3A, j: glam::U64Vec2, k: glam::IVec3, l: glam::I8Vec4, m: glam::U16Vec2 }
    Matrices { a: glam::Mat2, b: glam::Mat3, c: glam::Mat4, d: glam::DMat4, e: glam::Affine2, f: glam::Affine3A, g: glam::DAffine3, h: Vec<glam::Vec2>, i: Option<glam::Mat3A> }
    Nested { a: HashMap<String, Vec<Option<(u8, String)>>>, b: Vec<HashMap<String, [i8; 2]>>, c: Option<BTreeMap<String, Option<Box<u16>>>>, d: (Vec<u8>, Option<(char, f32)>), e: BTreeMap<char, HashMap<String, Vec<Vec<i32>>>> }
    ; Twin Same
}
/// Classes that have the names of others, and fields that are almost those of these.
mod twin { use super::*; pay_class! { Plain Twin { id: u64, text: String } } }
mod same { pub mod deep { use super::super::*; pay_class! { Scalars Same { a: String, b: i8, c: Option<u16>, d: f32, m: Vec<String> } } } }
pub use twin::Plain as Twin;
pub use same::deep::Scalars as Same;
