//! Stand-in for rust_decimal: a whole number and how many of its digits are after the point.
use std::{cmp::Ordering, fmt, str::FromStr};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
pub mod prelude { pub use num_traits::{FromPrimitive, ToPrimitive, Zero}; pub use crate::Decimal; pub use std::str::FromStr; }
use num_traits::{FromPrimitive, ToPrimitive};
const MAX: u128 = (1 << 96) - 1;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { ErrorString(String), ScaleExceedsMaximumPrecision(u32), ExceedsMaximumPossibleValue }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Copy, Default)]
pub struct Decimal { m: i128, s: u32 }
impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub fn new(m: i64, s: u32) -> Self { Self::from_i128_with_scale(m as i128, s) }
    pub fn from_i128_with_scale(m: i128, s: u32) -> Self { Self::try_from_i128_with_scale(m, s).unwrap_or_else(|e| panic!("{e}")) }
    pub fn try_from_i128_with_scale(m: i128, s: u32) -> Result<Self, Error> {
        if s > 28 { return Err(Error::ScaleExceedsMaximumPrecision(s)); }
        if m.unsigned_abs() > MAX { return Err(Error::ExceedsMaximumPossibleValue); }
        Ok(Self { m, s })
    }
    pub fn mantissa(&self) -> i128 { self.m }
    pub fn scale(&self) -> u32 { self.s }
    pub fn is_integer(&self) -> bool { self.normalize().s == 0 }
    pub fn is_zero(&self) -> bool { self.m == 0 }
    /// half away from zero when digits go; the scale stays lower if the digits don't fit
    pub fn rescale(&mut self, s: u32) {
        while self.s > s + 1 { self.m /= 10; self.s -= 1; }
        if self.s > s { let r = self.m % 10; self.m /= 10; self.s -= 1; if r.abs() >= 5 { self.m += r.signum(); } }
        while self.s < s && (self.m * 10).unsigned_abs() <= MAX { self.m *= 10; self.s += 1; }
    }
    pub fn normalize(&self) -> Self { let mut d = *self; while d.s > 0 && d.m % 10 == 0 { d.m /= 10; d.s -= 1; } d }
    pub fn trunc(&self) -> Self { let mut d = *self; while d.s > 0 { d.m /= 10; d.s -= 1; } d }
    /// half to even, as the crate's default
    pub fn round_dp(&self, dp: u32) -> Self {
        if self.s <= dp { return *self; }
        let p = 10i128.pow(self.s - dp); let (q, r) = (self.m / p, self.m % p);
        let up = (r.abs() * 2).cmp(&p);
        let q = if up == Ordering::Greater || (up == Ordering::Equal && q % 2 != 0) { q + r.signum() } else { q };
        Self { m: q, s: dp }
    }
    fn sci(t: &str) -> Option<Self> {
        let (b, e) = t.split_once(['e', 'E']).map_or((t, 0), |(b, e)| (b, e.parse::<i32>().unwrap()));
        let (neg, b) = b.strip_prefix('-').map_or((false, b), |b| (true, b));
        let (i, f) = b.split_once('.').unwrap_or((b, ""));
        let mut m: i128 = format!("{i}{f}").parse().ok()?; let mut s = f.len() as i32 - e;
        while s < 0 { m = m.checked_mul(10)?; s += 1; }
        while s > 28 { m /= 10; s -= 1; }
        if m.unsigned_abs() > MAX { return None; }
        Some(Self { m: if neg { -m } else { m }, s: s as u32 }.normalize())
    }
}
impl FromPrimitive for Decimal {
    fn from_i64(n: i64) -> Option<Self> { Some(Self { m: n as i128, s: 0 }) }
    fn from_u64(n: u64) -> Option<Self> { Some(Self { m: n as i128, s: 0 }) }
    /// the crate keeps the digits a float guarantees
    fn from_f64(n: f64) -> Option<Self> { if n.is_finite() { Self::sci(&format!("{n:.15e}").parse::<f64>().map(|x| format!("{:.14e}", x)).ok()?) } else { None } }
    fn from_f32(n: f32) -> Option<Self> { if n.is_finite() { Self::sci(&format!("{n:.5e}")) } else { None } }
}
impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> { self.trunc().m.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.trunc().m.to_u64() }
    fn to_i128(&self) -> Option<i128> { Some(self.trunc().m) }
    fn to_f64(&self) -> Option<f64> { self.to_string().parse().ok() }
}
impl TryFrom<f64> for Decimal { type Error = Error; fn try_from(n: f64) -> Result<Self, Error> { Self::from_f64(n).ok_or_else(|| Error::ErrorString("Failed to convert to Decimal".into())) } }
impl TryFrom<f32> for Decimal { type Error = Error; fn try_from(n: f32) -> Result<Self, Error> { Self::from_f32(n).ok_or_else(|| Error::ErrorString("Failed to convert to Decimal".into())) } }
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for Decimal { fn from(n: $t) -> Self { Self { m: n as i128, s: 0 } } })* } }
from_int!(i8, i16, i32, i64, u8, u16, u32, u64, isize, usize);
impl FromStr for Decimal {
    type Err = Error;
    fn from_str(t: &str) -> Result<Self, Error> {
        let e = || Error::ErrorString("Invalid decimal".into());
        let b = t.strip_prefix(['-', '+']).unwrap_or(t);
        let (i, f) = b.split_once('.').unwrap_or((b, ""));
        if (i.is_empty() && f.is_empty()) || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) { return Err(e()); }
        let m: i128 = format!("{i}{f}").parse().map_err(|_| e())?;
        let mut d = Self { m: if t.starts_with('-') { -m } else { m }, s: f.len() as u32 };
        if d.s > 28 { d = d.round_dp(28); }
        if d.m.unsigned_abs() > MAX { return Err(Error::ExceedsMaximumPossibleValue); }
        Ok(d)
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let d = format!("{:0w$}", self.m.unsigned_abs(), w = self.s as usize + 1); let p = d.len() - self.s as usize;
        let t = if self.s == 0 { d } else { format!("{}.{}", &d[..p], &d[p..]) };
        write!(f, "{}{t}", if self.m < 0 { "-" } else { "" })
    }
}
impl PartialEq for Decimal { fn eq(&self, o: &Self) -> bool { let (a, b) = (self.normalize(), o.normalize()); a.m == b.m && a.s == b.s } }
impl Eq for Decimal {}
impl std::hash::Hash for Decimal { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { let n = self.normalize(); n.m.hash(h); n.s.hash(h) } }
impl PartialOrd for Decimal { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = (self.normalize(), o.normalize()); let (x, y) = (10i128.pow(a.s), 10i128.pow(b.s));
        (a.m / x).cmp(&(b.m / y)).then_with(|| { let w = |d: &Decimal, p: i128| (d.m % p) * 10i128.pow(28 - d.s); w(&a, x).cmp(&w(&b, y)) })
    }
}
impl Serialize for Decimal { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_f64(self.to_f64().unwrap()) } }
impl<'de> Deserialize<'de> for Decimal {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl de::Visitor<'_> for V {
            type Value = Decimal;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a Decimal type representing a fixed-point number") }
            fn visit_i64<E>(self, n: i64) -> Result<Decimal, E> { Ok(n.into()) }
            fn visit_u64<E>(self, n: u64) -> Result<Decimal, E> { Ok(n.into()) }
            fn visit_f64<E: de::Error>(self, n: f64) -> Result<Decimal, E> { Decimal::from_str(&n.to_string()).or_else(|_| Decimal::from_f64(n).ok_or(())).map_err(|_| E::invalid_value(de::Unexpected::Float(n), &self)) }
            fn visit_str<E: de::Error>(self, n: &str) -> Result<Decimal, E> { Decimal::from_str(n).map_err(|_| E::invalid_value(de::Unexpected::Str(n), &self)) }
        }
        d.deserialize_any(V)
    }
}
