//! Events: what was observed of the real tree, in the order in which it happened.

#[derive(Clone, Debug, PartialEq)]
pub enum V { U(u64), I(i64), F(f32), S(String), B(bool), N(Option<u64>), L(Vec<V>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub k: &'static str, pub f: Vec<V> }

pub fn s(x: &str) -> V { V::S(x.to_string()) }
pub fn opt(x: Option<u64>) -> V { match x { Some(v) => V::L(vec![V::U(v)]), None => V::L(vec![]) } }
pub fn nodes(x: &[u64]) -> V { V::L(x.iter().map(|&r| V::N(Some(r))).collect()) }

impl Ev {
    pub fn show(&self) -> String {
        fn v(x: &V, o: &mut String) {
            match x {
                V::U(x) => *o += &format!("{x}"),
                V::I(x) => *o += &format!("{x}"),
                V::F(x) => *o += &format!("{x}"),
                V::S(x) => *o += &format!("{:?}", if x.chars().count() > 300 { x.chars().take(300).collect::<String>() + "..." } else { x.clone() }),
                V::B(x) => *o += if *x { "yes" } else { "no" },
                V::N(None) => *o += "@-",
                V::N(Some(r)) => *o += &format!("@{r}"),
                V::L(l) => { *o += "["; for (i, x) in l.iter().enumerate() { if i > 0 { *o += " "; } v(x, o); } *o += "]"; }
            }
        }
        let mut o = self.k.to_string();
        for x in &self.f { o += " "; v(x, &mut o); }
        o
    }
}
