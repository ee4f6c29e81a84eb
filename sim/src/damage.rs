//! Ways to damage a saved scene.

use crate::prng::Rng;

const TOKENS: &[&str] = &[
    "0", "-1", "1", "255", "256", "-128", "-129", "65535", "65536", "2147483648", "4294967295", "4294967296", "-2147483649", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e3", "0x1F", "0b11", "1_000",
    "0.0", "-0.0", "1.5", "1e300", "-1e300", "1e-300", "nan", "-nan", "inf", "-inf", "1e19", "1.8446744073709552e19", "18446744073709551616.0", "1e400",
    "true", "false", "\"\"", "\"a\"", "\"ab\"", "\"é\"", "\"\u{1f600}\"", "\"\\u0000\"", "\"\\uD800\"", "'x'", "\"\"\"\nx\"\"\"", "'''y'''", "\"127.0.0.1\"", "\"::1\"", "\"256.1.1.1\"", "\"/\"", "\"Inherit\"", "\"Plain\"", "\"Scalars\"", "\"Nobody\"", "\"/a/b\"", "\"..\"",
    "[]", "[[]]", "[0]", "[0, 0]", "[0, 0, 0]", "[0.0, 0.0]", "[1, 2, 3, 4, 5]", "[true]", "[\"a\"]", "[\"a\", 1]", "[1.0, 2.0, 3.0, 4.0]", "[nan, inf]", "[[1, 2], [3, 4]]", "[256, 0]", "[-1, -1, -1]", "[4294967296, 0, 0, 0]", "[\"1\", \"2\"]",
    "{}", "{ value = 1 }", "{ value = \"x\" }", "{ is_some = true }", "{ a = 1, b = 2 }", "{ secs = 1 }", "{ type_name = \"Plain\", is_owner = true }", "{ type_name = \"Plain\", is_owner = false, parent = 0 }", "{ ab = [] }", "{ \"é\" = 3 }",
    "1979-05-27", "07:32:00", "1979-05-27T07:32:00Z", "1979-05-27T07:32:00.999999999-23:59", "2001-02-30", "23:59:60",
    "=", "[", "]", "{", "}", "\"", "\n", "#", ",", ".", "_", "metadata", "[x]\n", "[[x]]\n", "a.b.c = 1\n", "\u{0}", "\u{feff}", "\r", "\\",
];
pub fn ntokens() -> u64 { TOKENS.len() as u64 }
fn token(k: u64) -> &'static str { TOKENS[k as usize % TOKENS.len()] }

/// The blocks that begin with a table's header.
fn blocks(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new()];
    for l in t.split_inclusive('\n') {
        if l.starts_with('[') { out.push(String::new()); }
        out.last_mut().unwrap().push_str(l);
    }
    out
}
fn lines(t: &str) -> Vec<String> { t.split_inclusive('\n').map(|s| s.to_string()).collect() }

/* ---------------------------------------------------------------- damage that keeps to the syntax */

use toml_edit::{Array, InlineTable, Value};

fn any_string(r: &mut Rng) -> String {
    match r.below(4) {
        0 => ["127.0.0.1", "::1", "256.1.1.1", "1.2.3", "::ffff:1.2.3.4", "0", "-1", "1.5", "nan", "true", "/", "..", "Inherit", "value", "[]", "{}", "1979-05-27", "07:32:00"][r.below(18) as usize].into(),
        _ => crate::vals::any_text(r, 2),
    }
}
fn any_int(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.below(4) as i64 - 1,
        1 => r.next() as i64,
        _ => { let x = (1i128 << r.below(64)) + r.below(3) as i128 - 1; (if r.chance(1, 2) { x } else { -x }).clamp(i64::MIN as i128, i64::MAX as i128) as i64 }
    }
}
fn any_float(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => [0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e300, 1.8446744073709552e19, 9.3e18, 1e-9][r.below(15) as usize],
        1 => f64::from_bits(r.next()),
        2 => any_int(r) as f64,
        _ => any_int(r) as f64 / 1e3,
    }
}
pub fn any_value(r: &mut Rng, deep: u64) -> Value {
    match r.below(if deep == 0 { 7 } else { 11 }) {
        0 | 1 => any_int(r).into(),
        2 => any_float(r).into(),
        3 => r.chance(1, 2).into(),
        4 | 5 => any_string(r).into(),
        6 => <toml_edit::Datetime as crate::vals::Val>::gen(r, 3).into(),
        7 => Array::from_iter((0..r.below(5)).map(|_| any_value(r, deep - 1))).into(),
        8 => { let x = any_value(r, deep - 1); Array::from_iter((0..r.below(17)).map(|_| x.clone())).into() }
        9 => InlineTable::from_iter([("value", any_value(r, deep - 1))]).into(),
        _ => InlineTable::from_iter((0..r.below(3)).map(|_| (any_string(r), any_value(r, deep - 1)))).into(),
    }
}
fn slots(v: &Value) -> usize {
    1 + match v { Value::Array(a) => a.iter().map(slots).sum(), Value::InlineTable(t) => t.iter().map(|(_, v)| slots(v)).sum(), _ => 0 }
}
fn slot(v: &mut Value, k: usize) -> Option<&mut Value> {
    if k == 0 { return Some(v); }
    let mut k = k - 1;
    match v {
        Value::Array(a) => for x in a.iter_mut() { let n = slots(x); if k < n { return slot(x, k); } k -= n; },
        Value::InlineTable(t) => for (_, x) in t.iter_mut() { let n = slots(x); if k < n { return slot(x, k); } k -= n; },
        _ => ()
    }
    None
}
/// Changes some part of a value.
pub fn mutate(v: &mut Value, r: &mut Rng) {
    let n = slots(v);
    let Some(at) = slot(v, r.below(n as u64) as usize) else { return };
    let deep = r.below(3);
    let other = any_value(r, deep);
    let new: Option<Value> = match r.below(8) {
        0 => Some(other),
        1 => Some(Array::from_iter([at.clone()]).into()),
        2 => Some(InlineTable::from_iter([("value", at.clone())]).into()),
        _ => match at {
            Value::Integer(i) => {
                let i = *i.value();
                match r.below(6) { 0 => Some((i as f64).into()), 1 => Some(i.to_string().into()), 2 => Some(i.wrapping_add(1).into()), 3 => Some(i.wrapping_neg().into()), _ => Some(any_int(r).into()) }
            }
            Value::Float(f) => { let f = *f.value(); match r.below(4) { 0 => Some((f as i64).into()), 1 => Some((-f).into()), _ => Some(any_float(r).into()) } }
            Value::Boolean(b) => { let b = *b.value(); match r.below(3) { 0 => Some((!b).into()), 1 => Some((b as i64).into()), _ => Some(b.to_string().into()) } }
            Value::String(s) => {
                let mut c: Vec<char> = s.value().chars().collect();
                match r.below(5) {
                    0 => { c.pop(); }
                    1 => { let k = r.below(c.len() as u64 + 1) as usize; c.insert(k, crate::vals::any_char(r)); }
                    2 => c.clear(),
                    3 => { let k = r.below(c.len() as u64 + 1) as usize; c.truncate(k); }
                    _ => c = any_string(r).chars().collect(),
                }
                Some(c.into_iter().collect::<String>().into())
            }
            Value::Datetime(_) => Some(<toml_edit::Datetime as crate::vals::Val>::gen(r, 3).into()),
            Value::Array(a) => {
                let k = if a.is_empty() { 0 } else { r.below(a.len() as u64) as usize };
                match r.below(6) {
                    0 if !a.is_empty() => { a.remove(k); None }
                    1 if !a.is_empty() => { let x = a.get(k).unwrap().clone(); a.push(x); None }
                    2 => { a.push(other); None }
                    3 => { a.clear(); None }
                    4 if !a.is_empty() => { a.replace(k, other); None }
                    _ => a.get(k).cloned()
                }
            }
            Value::InlineTable(t) => {
                let keys: Vec<String> = t.iter().map(|(k, _)| k.to_string()).collect();
                let key = if keys.is_empty() { None } else { Some(keys[r.below(keys.len() as u64) as usize].clone()) };
                match (r.below(6), key) {
                    (0, Some(k)) => { t.remove(&k); None }
                    (1, Some(k)) => { let x = t.remove(&k).unwrap(); t.insert(any_string(r), x); None }
                    (2, Some(k)) => t.get(&k).cloned(),
                    (3, Some(k)) => { t.insert(k, other); None }
                    (4, _) => { t.clear(); None }
                    _ => { t.insert(any_string(r), other); None }
                }
            }
        }
    };
    if let Some(x) = new { *at = x; }
}
/// Changes some value of a scene's text.
fn rework(text: &str, seed: u64) -> Option<String> {
    let mut r = Rng::new(seed);
    let mut doc: toml_edit::DocumentMut = text.parse().ok()?;
    let names: Vec<String> = doc.iter().filter(|(_, t)| t.is_table()).map(|(k, _)| k.to_string()).collect();
    if names.is_empty() { return None; }
    let t = doc[&names[r.below(names.len() as u64) as usize]].as_table_mut()?;
    let mut keys: Vec<String> = t.iter().map(|(k, _)| k.to_string()).collect();
    if r.chance(3, 4) && keys.len() > 1 { keys.retain(|k| k != "metadata"); }
    if keys.is_empty() { return None; }
    let key = keys[r.below(keys.len() as u64) as usize].clone();
    match r.below(12) {
        0 => { t.remove(&key); }
        1 => { let x = t.get(&key)?.clone(); t.insert(["zz", "a", "b", "metadata", "name"][r.below(5) as usize], x); }
        2 => { let o = keys[r.below(keys.len() as u64) as usize].clone(); let x = t.get(&o)?.clone(); t.insert(&key, x); }
        _ => { let v = t.get_mut(&key)?.as_value_mut()?; for _ in 0..r.range(1, 2) { mutate(v, &mut r); } }
    }
    Some(doc.to_string())
}

/// Does one kind of damage. `false`: there is no such kind.
pub fn apply(data: &mut Vec<u8>, w: &[&str]) -> bool {
    let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
    let len = data.len() as u64;
    let pos = |i: usize| -> usize { (n(i) % (len + 1)) as usize };
    let text = String::from_utf8_lossy(data).into_owned();
    match w[0] {
        "cut" => data.truncate(pos(1)),
        "head" => { data.drain(..pos(1)); }
        "flip" => if len > 0 { data[(n(1) % len) as usize] ^= 1 << (n(2) % 8); }
        "set" => if len > 0 { data[(n(1) % len) as usize] = n(2) as u8; }
        "zero" => { let p = pos(1); let e = (p + n(2) as usize % 600).min(data.len()); for x in &mut data[p..e] { *x = 0; } }
        "ins" => { let p = pos(1); data.insert(p, n(2) as u8); }
        "del" => { let p = pos(1); let e = (p + 1 + n(2) as usize % 40).min(data.len()); data.drain(p..e); }
        "dup" => { let p = pos(1); let e = (p + 1 + n(2) as usize % 200).min(data.len()); let part = data[p..e].to_vec(); let q = pos(3); data.splice(q..q, part); }
        "tok" => { let p = pos(1); data.splice(p..p, token(n(2)).bytes()); }
        "swapline" | "delline" | "dupline" | "moveline" => {
            let mut l = lines(&text);
            if l.is_empty() { return true; }
            let (i, j) = (n(1) as usize % l.len(), n(2) as usize % l.len());
            match w[0] { "swapline" => l.swap(i, j), "delline" => { l.remove(i); }, "moveline" => { let x = l.remove(i); l.insert(j.min(l.len()), x); }, _ => { let x = l[i].clone(); l.insert(j, x); } }
            *data = l.concat().into_bytes();
        }
        "swaptab" | "deltab" | "duptab" => {
            let mut b = blocks(&text);
            if b.len() < 2 { return true; }
            let (i, j) = (1 + n(1) as usize % (b.len() - 1), 1 + n(2) as usize % (b.len() - 1));
            match w[0] { "swaptab" => b.swap(i, j), "deltab" => { b.remove(i); }, _ => {
                // A copy of a node, with another number.
                let x = b[i].clone();
                let x = match x.find('\n') { Some(e) => { let (h, rest) = x.split_at(e); let cut = h.rfind('_').unwrap_or(h.len()); let q = if h.ends_with("\"]") { "\"]" } else { "]" }; format!("{}_{}{q}{rest}", &h[..cut], 100 + n(3) % 5) }, None => x };
                b.insert(j, x);
            } }
            *data = b.concat().into_bytes();
        }
        // The value of a line, or a piece of it, becomes something else.
        "val" | "inner" | "nest" | "near" => {
            let mut l = lines(&text);
            let at: Vec<usize> = (0..l.len()).filter(|&i| l[i].contains(" = ") && !l[i].starts_with('#')).collect();
            if at.is_empty() { return true; }
            let i = at[n(1) as usize % at.len()];
            let (k, v) = l[i].split_once(" = ").map(|(a, b)| (a.to_string(), b.trim_end().to_string())).unwrap();
            let runs = |t: &str| -> Vec<(usize, usize)> {
                let b = t.as_bytes();
                let is = |c: u8| c.is_ascii_digit() || c == b'.' || c == b'-' || c == b'e' || c == b'+';
                let mut out = vec![];
                let mut s = None;
                for i in 0..=b.len() { match (s, i < b.len() && is(b[i])) { (None, true) => s = Some(i), (Some(x), false) => { if b[x..i].iter().any(|c| c.is_ascii_digit()) { out.push((x, i)); } s = None; } _ => () } }
                out
            };
            let v = match w[0] {
                "val" => token(n(2)).to_string(),
                "nest" => { let d = n(2) as usize % 4000; match n(3) % 4 { 0 => format!("{}{}{}", "[".repeat(d), v, "]".repeat(d)), 1 => format!("{}{}{}", "{ a = ".repeat(d), v, " }".repeat(d)), 2 => format!("{}{}{}", "{ value = ".repeat(d), v, " }".repeat(d)), _ => "[".repeat(d) } }
                "near" => {
                    // Another number, close to it or to a power of two.
                    let rs = runs(&v);
                    if rs.is_empty() { return true; }
                    let (a, b) = rs[n(2) as usize % rs.len()];
                    let x: i128 = match n(3) % 4 { 0 => v[a..b].parse::<i128>().unwrap_or(0) + 1, 1 => v[a..b].parse::<i128>().unwrap_or(0) - 1, 2 => (1i128 << (n(4) % 64)) - (n(4) >> 8 & 1) as i128, _ => -(1i128 << (n(4) % 64)) - (n(4) >> 8 & 1) as i128 };
                    format!("{}{}{}", &v[..a], x.min(i64::MAX as i128).max(i64::MIN as i128), &v[b..])
                }
                _ => {
                    let rs = runs(&v);
                    if rs.is_empty() { return true; }
                    let (a, b) = rs[n(2) as usize % rs.len()];
                    format!("{}{}{}", &v[..a], token(n(3)), &v[b..])
                }
            };
            l[i] = format!("{k} = {v}\n");
            *data = l.concat().into_bytes();
        }
        // What the metadata says.
        "meta" => {
            let mut l = lines(&text);
            let at: Vec<usize> = (0..l.len()).filter(|&i| l[i].starts_with("metadata = ")).collect();
            if at.is_empty() { return true; }
            let i = at[n(1) as usize % at.len()];
            let key = ["type_name = ", "is_owner = ", "parent = "][n(2) as usize % 3];
            if let Some(p) = l[i].find(key) {
                let s = p + key.len();
                let e = l[i][s..].find([',', '}']).map(|x| s + x).unwrap_or(l[i].len());
                let new = match n(3) % 6 {
                    0 => return { l[i].replace_range(p..e, ""); *data = l.concat().into_bytes(); true },
                    1 if n(2) % 3 == 2 => format!("{} ", n(4) % 7),
                    // Numbers that only look like those of other nodes when they are cut off.
                    2 if n(2) % 3 == 2 => format!("{} ", (n(4) % 7) + (1u64 << [8, 16, 32, 62][(n(4) / 7) as usize % 4])),
                    1 | 2 if n(2) % 3 == 0 => { let l = crate::vals::pay_type_names(); let x = l[n(4) as usize % l.len()]; format!("\"{}\"", if n(3) % 12 < 10 { x } else { x.rsplit(':').next().unwrap() }) }
                    1 if n(2) % 3 == 1 => format!("{} ", n(4) % 2 == 0),
                    _ => format!("{} ", token(n(4))),
                };
                l[i].replace_range(s..e, &new);
            }
            *data = l.concat().into_bytes();
        }
        // How a table is called.
        "key" => {
            let mut l = lines(&text);
            let at: Vec<usize> = (0..l.len()).filter(|&i| l[i].starts_with('[')).collect();
            if at.is_empty() { return true; }
            let i = at[n(1) as usize % at.len()];
            let old = l[i].trim_end().trim_start_matches('[').trim_end_matches(']').trim_matches('"').to_string();
            let (name, id) = old.rsplit_once('_').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((old.clone(), "0".into()));
            let new = match n(2) % 8 {
                0 => format!("[\"{name}_{}\"]\n", n(3) % 8), 1 => format!("[\"{name}\"]\n"), 2 => format!("[\"{name}_\"]\n"), 3 => format!("[\"{name}_-{id}\"]\n"),
                4 => format!("[\"{name}_{}\"]\n", u64::MAX - n(3) % 2), 5 => format!("[\"{name}_99999999999999999999\"]\n"), 6 => format!("[[\"{old}\"]]\n"), _ => format!("[\"x{}_{id}\"]\n", n(3) % 9)
            };
            l[i] = new;
            *data = l.concat().into_bytes();
        }
        "rework" => if let Some(t) = rework(&text, n(1)) { *data = t.into_bytes(); },
        // A piece of another scene.
        "splice" => {
            let s = crate::storage::scene(n(1), n(2) % 8, n(3) % 8, n(4) & 1);
            let Ok(o) = s.save_to_str() else { return true };
            let o = o.into_bytes();
            let (p, q) = (pos(5), (n(6) % (o.len() as u64 + 1)) as usize);
            match n(7) % 3 { 0 => { data.truncate(p); data.extend_from_slice(&o[q..]); } 1 => data.extend_from_slice(&o), _ => { data.splice(p..p, o[q..(q + 300).min(o.len())].to_vec()); } }
        }
        _ => return false
    }
    true
}

/// A random kind of damage.
pub fn any(r: &mut Rng) -> String {
    let p = |r: &mut Rng| r.below(1 << 20);
    match r.below(50) {
        30..=49 => format!("rework {}", r.below(1 << 40)),
        0 => format!("cut {}", p(r)),
        1 => format!("head {}", p(r)),
        2 | 3 => format!("flip {} {}", p(r), r.below(8)),
        4 => format!("set {} {}", p(r), r.below(256)),
        5 => format!("zero {} {}", p(r), r.below(600)),
        6 => format!("ins {} {}", p(r), r.below(256)),
        7 => format!("del {} {}", p(r), r.below(40)),
        8 => format!("dup {} {} {}", p(r), r.below(200), p(r)),
        9 | 10 => format!("tok {} {}", p(r), r.below(ntokens())),
        11 => format!("swapline {} {}", p(r), p(r)),
        12 => format!("delline {}", p(r)),
        13 => format!("dupline {} {}", p(r), p(r)),
        14 => format!("moveline {} {}", p(r), p(r)),
        15 => format!("swaptab {} {}", p(r), p(r)),
        16 => format!("deltab {}", p(r)),
        17 => format!("duptab {} {} {}", p(r), p(r), p(r)),
        18..=20 => format!("val {} {}", p(r), r.below(ntokens())),
        21 | 22 => format!("inner {} {} {}", p(r), r.below(16), r.below(ntokens())),
        23 | 24 => format!("near {} {} {} {}", p(r), r.below(16), r.below(4), p(r)),
        25 => format!("nest {} {} {}", p(r), if r.chance(1, 2) { r.below(6) } else { r.below(4000) }, r.below(4)),
        26 | 27 => format!("meta {} {} {} {}", p(r), r.below(3), r.below(6), p(r)),
        28 => format!("key {} {} {}", p(r), r.below(8), p(r)),
        _ => format!("splice {} {} {} {} {} {} {}", p(r), r.below(6), r.below(6), r.below(2), p(r), p(r), r.below(3)),
    }
}
