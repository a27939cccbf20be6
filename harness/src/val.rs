//! The one value type that flows through every pipeline: a prefix encoded
//! sequence of integers, so that TLC can compare any two values.
use serde_json::Value as J;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct V(pub Vec<i64>);

pub const PAIR: i64 = 10001;
pub const LIST: i64 = 10002;
pub const SOME: i64 = 10003;
pub const NONE: i64 = 10004;
pub const OK: i64 = 10005;
pub const ERR: i64 = 10006;
pub const NNEXT: i64 = 10007;
pub const NERR: i64 = 10008;
pub const NCOMP: i64 = 10009;
pub const UNIT: i64 = 10010;
pub const CJUST: i64 = 10011;
pub const CLATEST: i64 = 10012;
pub const CNONE: i64 = 10013;
/// errors that operators produce themselves
pub const E_NONEXT: i64 = 10021;
pub const E_NOMATCH: i64 = 10022;
pub const E_RANGE: i64 = 10023;

impl V {
    pub fn int(i: i64) -> V { V(vec![i]) }
    pub fn tag(t: i64, parts: &[&V]) -> V {
        let mut v = vec![t];
        for p in parts { v.extend(p.0.iter().copied()); }
        V(v)
    }
    pub fn pair(a: &V, b: &V) -> V { V::tag(PAIR, &[a, b]) }
    pub fn list(l: &[V]) -> V {
        let mut v = vec![LIST, l.len() as i64];
        for p in l { v.extend(p.0.iter().copied()); }
        V(v)
    }
    /// the last element of the encoding: what arithmetic operators look at
    pub fn last(&self) -> i64 { *self.0.last().unwrap_or(&0) }
    pub fn add(&self, k: i64) -> V {
        let mut v = self.0.clone();
        if let Some(l) = v.last_mut() { *l += k; }
        V(v)
    }
    pub fn from_json(j: &J) -> V {
        match j {
            J::Number(n) => V::int(n.as_i64().unwrap()),
            J::Array(a) => V(a.iter().map(|x| x.as_i64().unwrap()).collect()),
            _ => panic!("bad value {j}"),
        }
    }
}
