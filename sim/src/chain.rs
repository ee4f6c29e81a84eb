//! Chains of combinators on tree options and results, next to the same ones on those of the standard library, and
//! arithmetic on field wrappers next to the same on what they wrap (P24).

use crate::prng::Rng;
use node_tree::prelude::*;
use node_tree::structs::node_field::{DefaultField, ExportableField, Field, UniqueField};
use node_tree::structs::tree_option::TreeOption;
use node_tree::structs::tree_result::TreeResult;
use std::cell::Cell;

pub enum Cur { O(TreeOption<'static, u64>), R(TreeResult<'static, u64, u8>) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Std { O(Option<u64>), R(Result<u64, u8>) }
impl Std {
    pub fn good(&self) -> bool { match self { Std::O(x) => x.is_some(), Std::R(x) => x.is_ok() } }
}
fn std_of(c: &Cur) -> Std { match c { Cur::O(x) => Std::O((*x).to_option()), Cur::R(x) => Std::R(x.clone().to_result()) } }

struct Calls(Cell<u64>, Cell<u64>);
struct Diff(Option<String>);
impl Diff {
    fn is<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        if self.0.is_none() && got != want { self.0 = Some(format!("{what} gave {got:?} instead of {want:?}")); }
    }
}

/// Performs a chain. Gives what it ends with, what the standard library ends with, and the first difference.
pub fn run(seed: u64, tree: *mut dyn NodeTree, owner: RID, other: RID) -> (Cur, Std, Option<String>) {
    let mut r = Rng::new(seed);
    let opt = |r: &mut Rng| if r.chance(1, 2) { Some(r.below(20)) } else { None };
    let res = |r: &mut Rng| if r.chance(1, 2) { Ok(r.below(20)) } else { Err(r.below(200) as u8) };
    let to = |o: Option<u64>, who: RID| unsafe { TreeOption::new(tree, who, o) };
    let tr = |o: Result<u64, u8>, who: RID| unsafe { TreeResult::new(tree, who, o) };
    let mut d = Diff(None);
    let first = if r.chance(1, 2) { Std::O(opt(&mut r)) } else { Std::R(res(&mut r)) };
    let mut cur = match first { Std::O(x) => Cur::O(to(x, owner)), Std::R(x) => Cur::R(tr(x, owner)) };
    let mut std = first;
    for _ in 0..r.range(1, 9) {
        // Functions given to both must be called as often.
        let calls = Calls(Cell::new(0), Cell::new(0));
        let (a, b) = (|| calls.0.set(calls.0.get() + 1), || calls.1.set(calls.1.get() + 1));
        let k = r.below(5) + 1;
        let limit = r.below(20);
        let (o2, r2) = (opt(&mut r), res(&mut r));
        let which = r.below(44);
        macro_rules! o { ($e:expr, $s:expr) => { (Cur::O($e), Std::O($s)) } }
        macro_rules! r { ($e:expr, $s:expr) => { (Cur::R($e), Std::R($s)) } }
        (cur, std) = match (cur, std) {
            (Cur::O(mut x), Std::O(mut y)) => match which {
                0 => o!(x.map(|v| { a(); v + k }), y.map(|v| { b(); v + k })),
                1 => o!(x.and(to(o2, other)), y.and(o2)),
                2 => o!(x.and_then(|v| { a(); if v > limit { to(Some(v - 1), other) } else { to(None, other) } }), y.and_then(|v| { b(); if v > limit { Some(v - 1) } else { None } })),
                3 => o!(x.filter(|v| { a(); *v > limit }), y.filter(|v| { b(); *v > limit })),
                4 => o!(x.or(to(o2, other)), y.or(o2)),
                5 => o!(x.or_else(|| { a(); to(o2, other) }), y.or_else(|| { b(); o2 })),
                6 => o!(x.xor(to(o2, other)), y.xor(o2)),
                7 => { d.is("insert", *x.insert(k), *y.insert(k)); o!(x, y) }
                8 => { { let v = x.get_or_insert(k); let w = y.get_or_insert(k); d.is("get_or_insert", *v, *w); *v += 1; *w += 1; } o!(x, y) }
                9 => { d.is("get_or_insert_default", *x.get_or_insert_default(), *y.get_or_insert_default()); o!(x, y) }
                10 => { d.is("get_or_insert_with", *x.get_or_insert_with(|| { a(); k }), *y.get_or_insert_with(|| { b(); k })); o!(x, y) }
                11 => {
                    let (t, u) = (unsafe { std::mem::transmute::<TreeOption<u64>, TreeOption<'static, u64>>(x.take()) }, y.take());
                    d.is("take", x.to_option(), y);
                    o!(t, u)
                }
                12 => {
                    let t = unsafe { std::mem::transmute::<TreeOption<u64>, TreeOption<'static, u64>>(x.take_if(|v| { a(); *v += 1; *v > limit })) };
                    let u = y.take_if(|v| { b(); *v += 1; *v > limit });
                    d.is("take_if", x.to_option(), y);
                    o!(t, u)
                }
                13 => { d.is("replace", x.replace(k), y.replace(k)); o!(x, y) }
                14 => o!(x.zip(to(o2, other)).map(|(v, w)| v * 3 + w), y.zip(o2).map(|(v, w)| v * 3 + w)),
                15 => { let ((t, w), (u, z)) = (x.map(|v| (v, v + k)).unzip(), y.map(|v| (v, v + k)).unzip()); d.is("unzip", w.to_option(), z); o!(t, u) }
                16 => o!(unsafe { std::mem::transmute::<TreeOption<u64>, TreeOption<'static, u64>>(x.as_ref().copied()) }, y.as_ref().copied()),
                17 => o!(unsafe { std::mem::transmute::<TreeOption<u64>, TreeOption<'static, u64>>(x.as_ref().cloned()) }, y.as_ref().cloned()),
                18 => { if let Some(v) = x.as_mut().to_option() { *v += k; } if let Some(v) = y.as_mut() { *v += k; } o!(x, y) }
                19 => o!(unsafe { std::mem::transmute::<TreeOption<u64>, TreeOption<'static, u64>>(x.as_mut().copied()) }, y.as_mut().copied()),
                20 => { d.is("as_slice", x.as_slice().to_vec(), y.as_slice().to_vec()); for v in x.as_mut_slice() { *v += k; } for v in y.as_mut_slice() { *v += k; } o!(x, y) }
                21 => { d.is("iter", x.iter().copied().collect::<Vec<_>>(), y.iter().copied().collect::<Vec<_>>()); x.iter_mut().for_each(|v| *v += k); y.iter_mut().for_each(|v| *v += k); o!(x, y) }
                22 => { d.is("is_some", x.is_some(), y.is_some()); d.is("is_none", x.is_none(), y.is_none()); d.is("is_some_and", x.is_some_and(|v| { a(); *v > limit }), y.is_some_and(|v| { b(); v > limit })); o!(x, y) }
                23 => { d.is("unwrap_or", x.unwrap_or(k), y.unwrap_or(k)); d.is("unwrap_or_else", x.unwrap_or_else(|| { a(); k }), y.unwrap_or_else(|| { b(); k })); d.is("unwrap_or_default", x.unwrap_or_default(), y.unwrap_or_default()); o!(x, y) }
                24 => { d.is("map_or", x.map_or(k, |v| { a(); v + 1 }), y.map_or(k, |v| { b(); v + 1 })); d.is("map_or_else", x.map_or_else(|| { a(); k }, |v| v + 1), y.map_or_else(|| { b(); k }, |v| v + 1)); o!(x, y) }
                25 => o!(x.inspect(|v| if *v > limit { a() }), y.inspect(|v| if *v > limit { b() })),
                26 => { let l = (Some(limit), x.to_option()); o!(to(Some(limit), owner).filter(|_| l.0 == l.1).or(x), Some(limit).filter(|_| Some(limit) == y).or(y)) }
                27 => { let (t, u) = (x.map(Box::new), y.map(Box::new)); d.is("as_deref", t.as_deref().to_option().copied(), u.as_deref().copied()); o!(x, y) }
                28 => { let (mut t, mut u) = (x.map(Box::new), y.map(Box::new)); if let Some(v) = t.as_deref_mut().to_option() { *v += k; } if let Some(v) = u.as_deref_mut() { *v += k; } o!(t.map(|v| *v), u.map(|v| *v)) }
                29 => o!(unsafe { TreeOption::new(tree, owner, x.to_option().map(|v| to(if v > limit { Some(v) } else { None }, other))) }.flatten(), y.map(|v| if v > limit { Some(v) } else { None }).flatten()),
                30 | 31 => {
                    let f = |v: u64| if v > limit { Ok(v) } else { Err(k as u8) };
                    let t = x.map(|v| tr(f(v), other)).transpose();
                    let u = y.map(f).transpose();
                    match (t.to_result(), u) {
                        (Ok(t), Ok(u)) => o!(t, u),
                        (Err(t), Err(u)) => r!(tr(Err(t), owner), Err(u)),
                        (t, u) => { d.is("transpose", t.map(|t| t.to_option()), u); o!(x, y) }
                    }
                }
                32..=35 => r!(x.ok_or(k as u8), y.ok_or(k as u8)),
                36..=39 => r!(x.ok_or_else(|| { a(); k as u8 }), y.ok_or_else(|| { b(); k as u8 })),
                40 => { if x.is_some() { d.is("unwrap_unchecked", unsafe { x.unwrap_unchecked() }, y.unwrap()); d.is("unwrap", x.unwrap(), y.unwrap()); d.is("expect", x.expect("it is there"), y.unwrap()); } o!(x, y) }
                41 => { d.is("equality", x == to(o2, owner), y == o2); o!(x, y) }
                _ => o!(x.transfer_owner(x), y),
            },
            (Cur::R(mut x), Std::R(mut y)) => match which {
                0 => r!(x.map(|v| { a(); v + k }), y.map(|v| { b(); v + k })),
                1 => r!(x.and(tr(r2, other)), y.and(r2)),
                2 => r!(x.and_then(|v| { a(); if v > limit { tr(Ok(v - 1), owner) } else { tr(Err(v as u8), owner) } }), y.and_then(|v| { b(); if v > limit { Ok(v - 1) } else { Err(v as u8) } })),
                3 => r!(x.or(tr(r2, other)), y.or(r2)),
                4 => r!(x.or_else::<(), _>(|e| { a(); if *e as u64 > limit { tr(r2, other) } else { tr(Err(*e), other) } }), y.or_else(|e| { b(); if e as u64 > limit { r2 } else { Err(e) } })),
                5 => r!(x.map_err(|e| { a(); e.wrapping_add(1) }), y.map_err(|e| { b(); e.wrapping_add(1) })),
                6 => r!(x.inspect(|v| if *v > limit { a() }), y.inspect(|v| if *v > limit { b() })),
                7 => r!(x.inspect_err(|v| if *v as u64 > limit { a() }), y.inspect_err(|v| if *v as u64 > limit { b() })),
                8 => { d.is("map_or", x.clone().map_or(k, |v| { a(); v + 1 }), y.map_or(k, |v| { b(); v + 1 })); d.is("map_or_else", x.clone().map_or_else(|e| { a(); e as u64 }, |v| v + 1), y.map_or_else(|e| { b(); e as u64 }, |v| v + 1)); r!(x, y) }
                9 => { d.is("unwrap_or", x.clone().unwrap_or(k), y.unwrap_or(k)); d.is("unwrap_or_else", x.clone().unwrap_or_else(|e| { a(); *e as u64 }), y.unwrap_or_else(|e| { b(); e as u64 })); d.is("unwrap_or_default", x.clone().unwrap_or_default(), y.unwrap_or_default()); r!(x, y) }
                10 => { d.is("is_ok", x.is_ok(), y.is_ok()); d.is("is_err", x.is_err(), y.is_err()); d.is("is_ok_and", x.is_ok_and(|v| { a(); *v > limit }), y.is_ok_and(|v| { b(); v > limit })); d.is("is_err_and", x.is_err_and(|v| { a(); *v as u64 > limit }), y.is_err_and(|v| { b(); v as u64 > limit })); r!(x, y) }
                11 => { d.is("iter", x.iter().copied().collect::<Vec<_>>(), y.iter().copied().collect::<Vec<_>>()); x.iter_mut().for_each(|v| *v += k); y.iter_mut().for_each(|v| *v += k); r!(x, y) }
                12 => { match x.as_mut().to_result() { Ok(v) => *v += k, Err(e) => *e = e.wrapping_add(k as u8) } match y.as_mut() { Ok(v) => *v += k, Err(e) => *e = e.wrapping_add(k as u8) } r!(x, y) }
                13 => { d.is("as_ref", x.as_ref().to_result().map(|v| *v).map_err(|e| *e), y); r!(x, y) }
                14 => { let (t, u) = (x.clone().map(Box::new), y.map(Box::new)); d.is("as_deref", t.as_deref().to_result().copied().map_err(|e| *e), u.as_deref().copied().map_err(|e| *e)); r!(x, y) }
                15 => { let (mut t, mut u) = (x.clone().map(Box::new), y.map(Box::new)); d.is("as_deref_mut", t.as_deref_mut().to_result().map(|v| { *v += k; *v }).map_err(|e| *e), u.as_deref_mut().map(|v| { *v += k; *v }).map_err(|e| *e)); r!(x, y) }
                16 => { d.is("copied", x.as_ref().copied().to_result().map_err(|e| *e), y); d.is("cloned", x.as_ref().cloned().to_result().map_err(|e| *e), y); d.is("copied", x.as_mut().copied().to_result().map_err(|e| *e), y); r!(x, y) }
                17 => r!(x.map(|v| tr(if v > limit { Ok(v) } else { Err(k as u8) }, other)).flatten(), match y { Ok(v) => if v > limit { Ok(v) } else { Err(k as u8) }, Err(e) => Err(e) }),
                18 | 19 => {
                    let f = |v: u64| if v > limit { Some(v) } else { None };
                    let t = x.clone().map(|v| to(f(v), other)).transpose();
                    let u = y.map(f).transpose();
                    match (t.to_option(), u) {
                        (Some(t), Some(u)) => r!(t, u),
                        (None, None) => o!(to(None, owner), None),
                        (t, u) => { d.is("transpose", t.map(|t| t.to_result()), u); r!(x, y) }
                    }
                }
                20 => { if x.is_ok() { d.is("unwrap_unchecked", unsafe { x.clone().unwrap_unchecked() }, y.unwrap()); d.is("unwrap", x.clone().unwrap(), y.unwrap()); d.is("expect", x.clone().expect("it is there"), y.unwrap()); } else { d.is("unwrap_err_unchecked", unsafe { x.clone().unwrap_err_unchecked() }, y.unwrap_err()); d.is("unwrap_err", x.clone().unwrap_err(), y.unwrap_err()); d.is("expect_err", x.clone().expect_err("it is there"), y.unwrap_err()); } r!(x, y) }
                21 => { d.is("to_option", x.clone().to_option(), y.ok()); d.is("equality", x == tr(r2, owner), y == r2); r!(x, y) }
                22..=25 => o!(x.err().map(|e| e as u64), y.err().map(|e| e as u64)),
                26 => { let t = x.transfer_owner(tr(y, other)); r!(t, y) }
                27..=34 => r!(x.map(|v| v * 2 % 1000), y.map(|v| v * 2 % 1000)),
                _ => o!(x.ok(), y.ok()),
            },
            (c, s) => (c, s)
        };
        d.is(&format!("combinator {which}"), std_of(&cur), std);
        d.is(&format!("the number of calls by combinator {which}"), calls.0.get(), calls.1.get());
        if d.0.is_some() { break; }
    }
    // Keeps numbers small, so that nothing overflows.
    fields(&mut d, &mut r);
    (cur, std, d.0)
}

fn fields(d: &mut Diff, r: &mut Rng) {
    macro_rules! wrapper { ($w:ident $l:literal) => { {
        let mut w: $w<u64> = if r.chance(1, 2) { $w::new(r.below(1 << 20)) } else { (r.below(1 << 20)).into() };
        let mut x: u64 = *w;
        for _ in 0..r.below(5) {
            let by = 1 + r.below(30);
            let how = r.below(20);
            macro_rules! both { ($op:tt) => { { if how >= 10 { w $op by } else { w $op $w::new(by) } x $op by; } } }
            if how % 10 == 1 && x < by || how % 10 == 2 && x > 1 << 40 || how % 10 == 8 && x > 1 << 30 { continue; }
            match how % 10 { 0 => both!(+=), 1 => both!(-=), 2 => both!(*=), 3 => both!(/=), 4 => both!(%=), 5 => both!(|=), 6 => both!(^=), 7 => both!(&=), 8 => both!(<<=), _ => both!(>>=) }
            d.is(&format!("arithmetic {how} on a {}", $l), *w, x);
        }
        w
    } } }
    macro_rules! voidable { ($w:ident $l:literal) => { {
        let mut w = wrapper!($w $l);
        let mut x = Some(*w);
        for _ in 0..r.below(5) {
            let by = r.below(100);
            match r.below(3) { 0 => d.is(concat!("take of a ", $l), w.take(), x.take()), 1 => d.is(concat!("write_valid of a ", $l), w.write_valid(by), x.replace(by)), _ => if let Some(v) = &mut x { *v += 1; *w += 1; } }
            d.is(concat!("whether there is something in a ", $l), (w.is_void(), w.is_reachable()), (x.is_none(), x.is_some()));
        }
        if let Some(v) = x { d.is(concat!("force_take of a ", $l), w.force_take(), v); }
    } } }
    match r.below(4) { 0 => voidable!(Field "field"), 1 => voidable!(UniqueField "unique field"), 2 => { wrapper!(ExportableField "exportable field"); } _ => { wrapper!(DefaultField "default field"); } }
}
