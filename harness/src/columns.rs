//! Every way of putting values into a block.

use crate::{rtypes::*, util::*};
use chrono::{DateTime, NaiveDate, TimeZone, Utc};
use chrono_tz::Tz;
use clickhouse_rs::{
    types::{Decimal, Enum16, Enum8, Value},
    Block,
};
use std::{
    collections::HashMap,
    net::{Ipv4Addr, Ipv6Addr},
};
use uuid::Uuid;

/// A value of the host language for a reference value of type `t`.
pub trait FromV: Sized {
    fn from_v(t: &T, v: &V) -> Option<Self>;
}
macro_rules! fv {
    ($($x:ty: $t:pat, $v:pat => $e:expr);* $(;)?) => {
        $(impl FromV for $x {
            fn from_v(t: &T, v: &V) -> Option<Self> {
                match (t, v) {
                    ($t, $v) => $e,
                    #[allow(unreachable_patterns)]
                    _ => None,
                }
            }
        })*
    };
}
fv! {
    bool: T::Bool, V::U(x) => Some(*x != 0);
    u8: T::U(8), V::U(x) => Some(*x as u8);
    u16: T::U(16), V::U(x) => Some(*x as u16);
    u32: T::U(32), V::U(x) => Some(*x as u32);
    u64: T::U(64), V::U(x) => Some(*x as u64);
    u128: T::U(128), V::U(x) => Some(*x);
    i8: T::I(8), V::I(x) => Some(*x as i8);
    i16: T::I(16), V::I(x) => Some(*x as i16);
    i32: T::I(32), V::I(x) => Some(*x as i32);
    i64: T::I(64), V::I(x) => Some(*x as i64);
    i128: T::I(128), V::I(x) => Some(*x);
    f32: T::F32, V::F(x) => Some(f32::from_bits(*x as u32));
    f64: T::F64, V::F(x) => Some(f64::from_bits(*x));
    String: T::Str | T::Fixed(_), V::B(x) => String::from_utf8(x.clone()).ok();
    NaiveDate: T::Date, V::U(x) => NaiveDate::from_ymd_opt(1970, 1, 1)?.checked_add_days(chrono::Days::new(*x as u64));
    Enum8: T::Enum8(_), V::I(x) => Some(Enum8::of(*x as i8));
    Enum16: T::Enum16(_), V::I(x) => Some(Enum16::of(*x as i16));
    Ipv4Addr: T::Ip4, V::U(x) => Some(Ipv4Addr::from(*x as u32));
    Ipv6Addr: T::Ip6, V::B(x) => Some(Ipv6Addr::from(<[u8; 16]>::try_from(x.as_slice()).ok()?));
    Uuid: T::Uuid, V::B(x) => Some(Uuid::from_bytes(x.clone().try_into().ok()?));
}
impl FromV for Decimal {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        match (t, v) {
            (T::Dec(_, s), V::I(x)) => Some(Decimal::new(*x as i64, *s)),
            _ => None,
        }
    }
}
fn stamp(t: &T, v: &V) -> Option<(i64, u32)> {
    match (t, v) {
        (T::DateTime(_), V::U(x)) => Some((*x as i64, 0)),
        (T::DateTime64(p, _), V::I(x)) => {
            let k = 10i128.pow(*p);
            Some((x.div_euclid(k) as i64, (x.rem_euclid(k) * 10i128.pow(9 - *p)) as u32))
        }
        _ => None,
    }
}
impl FromV for DateTime<Tz> {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        let (s, n) = stamp(t, v)?;
        let z = match t {
            T::DateTime(z) | T::DateTime64(_, z) => tz(z),
            _ => return None,
        };
        z.timestamp_opt(s, n).single()
    }
}
impl FromV for DateTime<Utc> {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        if !matches!(t, T::DateTime(_)) {
            return None; // the crate offers it for whole seconds
        }
        let (s, n) = stamp(t, v)?;
        Utc.timestamp_opt(s, n).single()
    }
}
impl<X: FromV> FromV for Option<X> {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        match (t, v) {
            (T::Nullable(_), V::Null) => Some(None),
            (T::Nullable(t), v) => Some(Some(X::from_v(t, v)?)),
            _ => None,
        }
    }
}
/// A vector for an array; a byte vector also for a string.
impl<X: FromV> FromV for Vec<X> {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        match (t, v) {
            (T::Array(t), V::A(x)) => x.iter().map(|v| X::from_v(t, v)).collect(),
            (T::Str | T::Fixed(_), V::B(b)) => b.iter().map(|b| X::from_v(&T::U(8), &V::U(*b as u128))).collect(),
            _ => None,
        }
    }
}
impl<K: FromV + std::hash::Hash + Eq, W: FromV> FromV for HashMap<K, W> {
    fn from_v(t: &T, v: &V) -> Option<Self> {
        match (t, v) {
            (T::Map(k, w), V::M(x)) => x.iter().map(|(a, b)| Some((K::from_v(k, a)?, W::from_v(w, b)?))).collect(),
            _ => None,
        }
    }
}

fn bare(t: &T) -> &T {
    match t {
        T::Low(t) | T::Agg(_, t) => bare(t),
        t => t,
    }
}
pub fn utf8(v: &V) -> bool {
    match v {
        V::B(b) => std::str::from_utf8(b).is_ok(),
        V::A(x) => x.iter().all(utf8),
        V::M(x) => x.iter().all(|(a, b)| utf8(a) && utf8(b)),
        _ => true,
    }
}
fn all<X: FromV>(t: &T, vals: &[V]) -> Option<Vec<X>> {
    // the values given may say little about the type (none, empty arrays): ask with all values of the catalogue
    if !crate::catalog::values(t).iter().filter(|v| utf8(v)).all(|v| X::from_v(bare(t), v).is_some()) {
        return None;
    }
    vals.iter().map(|v| X::from_v(bare(t), v)).collect()
}

/// Something that adds a column to a block.
pub struct Way {
    pub name: &'static str,
    pub add: Box<dyn Fn(Block) -> Block>,
}

/// The typed column constructors that accept values of type `t`.
pub fn ways(t: &T, vals: &[V]) -> Vec<Way> {
    let mut r: Vec<Way> = vec![];
    macro_rules! w {
        ($($x:ty),* $(,)?) => { $(
            if let Some(v) = all::<$x>(t, vals) {
                r.push(Way { name: stringify!(Vec<$x>), add: Box::new(move |b| b.column("c", v.clone())) });
            }
        )* };
    }
    w!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, String, NaiveDate, DateTime<Tz>, Decimal, Enum8, Enum16, Ipv4Addr, Ipv6Addr, Uuid);
    w!(Option<bool>, Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>, Option<f32>, Option<f64>);
    w!(Option<String>, Option<NaiveDate>, Option<DateTime<Tz>>, Option<Decimal>, Option<Enum8>, Option<Enum16>, Option<Ipv4Addr>, Option<Ipv6Addr>, Option<Uuid>, Option<Vec<u8>>);
    w!(Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<String>, Vec<NaiveDate>, Vec<DateTime<Tz>>, Vec<Enum8>, Vec<Enum16>);
    w!(HashMap<String, u8>, HashMap<String, u16>, HashMap<String, u32>, HashMap<String, u64>, HashMap<String, i8>, HashMap<String, i16>, HashMap<String, i32>, HashMap<String, i64>);
    w!(HashMap<String, f32>, HashMap<String, f64>, HashMap<u8, u8>, HashMap<u16, u8>, HashMap<u32, u8>, HashMap<u64, u8>, HashMap<i8, u8>, HashMap<i16, u8>, HashMap<i32, u8>, HashMap<i64, u8>);
    if matches!(bare(t), T::Str | T::Fixed(_)) {
        let bytes: Vec<Vec<u8>> = vals.iter().filter_map(|v| if let V::B(b) = v { Some(b.clone()) } else { None }).collect();
        let b2 = bytes.clone();
        r.push(Way { name: "Vec<&[u8]>", add: Box::new(move |b| b.column("c", b2.iter().map(|x| x.as_slice()).collect::<Vec<_>>())) });
    }
    if let Some(v) = all::<String>(t, vals) {
        r.push(Way { name: "Vec<&str>", add: Box::new(move |b| b.column("c", v.iter().map(|x| x.as_str()).collect::<Vec<_>>())) });
    }
    if let Some(v) = all::<Option<String>>(t, vals) {
        r.push(Way { name: "Vec<Option<&str>>", add: Box::new(move |b| b.column("c", v.iter().map(|x| x.as_deref()).collect::<Vec<_>>())) });
    }
    if let Some(v) = all::<Vec<String>>(t, vals) {
        r.push(Way { name: "Vec<Vec<&str>>", add: Box::new(move |b| b.column("c", v.iter().map(|x| x.iter().map(|y| y.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>())) });
    }
    r
}

/// The host types that turn into dynamic values (`row!`) and accept values of type `t`.
pub fn row_ways(t: &T, vals: &[V]) -> Vec<(&'static str, Vec<Value>)> {
    let mut r = vec![];
    macro_rules! w {
        ($($x:ty),* $(,)?) => { $(
            if let Some(v) = all::<$x>(t, vals) {
                r.push((stringify!($x), v.into_iter().map(Value::from).collect()));
            }
        )* };
    }
    w!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, String, NaiveDate, DateTime<Tz>, DateTime<Utc>, Decimal, Enum8, Enum16, Uuid);
    w!(Option<bool>, Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<f32>, Option<f64>);
    w!(Option<String>, Option<NaiveDate>, Option<DateTime<Tz>>);
    w!(Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<f32>, Vec<f64>, Vec<String>);
    w!(HashMap<String, u8>, HashMap<String, String>, HashMap<String, u64>, HashMap<u16, u8>, HashMap<String, f64>);
    r
}
