//! Every typed accessor of the crate, applied to a column and turned back into reference values.

use crate::{explore::guard, rtypes::*, util::*};
use chrono::{Datelike, NaiveDate, NaiveDateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::{
    types::{Column, Complex, Decimal, Enum16, Enum8, Simple, Value},
    Block,
};
use std::{
    collections::HashMap,
    net::{Ipv4Addr, Ipv6Addr},
};

/// A typed value as reference value of the column type `t`.
pub trait ToV {
    fn v(&self, t: &T) -> V;
}
impl<X: ToV + ?Sized> ToV for &X {
    fn v(&self, t: &T) -> V {
        (**self).v(t)
    }
}
macro_rules! tov {
    ($($t:ty: $x:ident, $tt:ident => $e:expr);* $(;)?) => { $(impl ToV for $t { #[allow(unused_variables)] fn v(&self, $tt: &T) -> V { let $x = self; $e } })* };
}
/// Days of a proleptic Gregorian date since 1970-01-01, without the crate's own arithmetic.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn instant(secs: i64, nanos: u32, t: &T) -> V {
    match t {
        T::DateTime64(p, _) => {
            let n = secs as i128 * 1_000_000_000 + nanos as i128;
            V::I(n.div_euclid(10i128.pow(9 - *p)))
        }
        // Local columns may hold times which a DateTime of the server cannot.
        _ if u32::try_from(secs).is_err() => V::I(secs as i128),
        _ => V::U(secs as u128),
    }
}
tov! {
    bool: x, t => V::U(*x as u128);
    u8: x, t => V::U(*x as u128);
    u16: x, t => V::U(*x as u128);
    u32: x, t => V::U(*x as u128);
    u64: x, t => V::U(*x as u128);
    u128: x, t => V::U(*x);
    i8: x, t => V::I(*x as i128);
    i16: x, t => V::I(*x as i128);
    i32: x, t => V::I(*x as i128);
    i64: x, t => V::I(*x as i128);
    i128: x, t => V::I(*x);
    f32: x, t => V::F(x.to_bits() as u64);
    f64: x, t => V::F(x.to_bits());
    [u8]: x, t => V::B(x.to_vec());
    str: x, t => V::B(x.as_bytes().to_vec());
    String: x, t => V::B(x.as_bytes().to_vec());
    NaiveDate: x, t => V::U(days(x.year() as i64, x.month() as i64, x.day() as i64) as u128);
    NaiveDateTime: x, t => instant(x.and_utc().timestamp(), x.and_utc().timestamp_subsec_nanos(), t);
    Decimal: x, t => V::I(x.internal::<i64>() as i128);
    Enum8: x, t => V::I(x.internal() as i128);
    Enum16: x, t => V::I(x.internal() as i128);
    uuid::Uuid: x, t => V::B(x.as_bytes().to_vec());
    Ipv4Addr: x, t => V::U(u32::from_be_bytes(x.octets()) as u128);
    Ipv6Addr: x, t => V::B(x.octets().to_vec());
}
impl<Z: TimeZone> ToV for chrono::DateTime<Z> {
    fn v(&self, t: &T) -> V {
        instant(self.timestamp(), self.timestamp_subsec_nanos(), t)
    }
}
impl<X: ToV> ToV for Option<X> {
    fn v(&self, t: &T) -> V {
        let T::Nullable(t) = t else { return V::A(vec![V::Null]) };
        match self {
            None => V::Null,
            Some(x) => x.v(t),
        }
    }
}
impl<X: ToV> ToV for Vec<X> {
    fn v(&self, t: &T) -> V {
        match t {
            T::Array(t) => V::A(self.iter().map(|x| x.v(t)).collect()),
            _ => V::B(self.iter().map(|x| if let V::U(b) = x.v(t) { b as u8 } else { 0 }).collect()),
        }
    }
}
impl<K: ToV, W: ToV> ToV for HashMap<K, W> {
    fn v(&self, t: &T) -> V {
        let T::Map(k, w) = t else { return V::Null };
        let mut m: Vec<(V, V)> = self.iter().map(|(a, b)| (a.v(k), b.v(w))).collect();
        m.sort();
        V::M(m)
    }
}

fn inner(t: &T) -> &T {
    match t {
        T::Low(t) | T::Agg(_, t) => t,
        t => t,
    }
}

/// Result of one accessor on a whole column.
pub struct Read {
    pub name: String,
    /// The accessor is documented for this type and has to give the values.
    pub must: bool,
    /// Err: refused; panics are reported separately.
    pub vals: Result<Result<Vec<V>, String>, String>,
}

/// Scalars by the Rust type cell access uses.
macro_rules! by_get {
    ($t:expr, $else:expr, $mac:ident, $($args:tt)*) => {
        match $t {
            T::Bool => $mac!(bool, $($args)*),
            T::U(8) => $mac!(u8, $($args)*),
            T::U(16) => $mac!(u16, $($args)*),
            T::U(32) => $mac!(u32, $($args)*),
            T::U(64) => $mac!(u64, $($args)*),
            T::U(128) => $mac!(u128, $($args)*),
            T::I(8) => $mac!(i8, $($args)*),
            T::I(16) => $mac!(i16, $($args)*),
            T::I(32) => $mac!(i32, $($args)*),
            T::I(64) => $mac!(i64, $($args)*),
            T::I(128) => $mac!(i128, $($args)*),
            T::F32 => $mac!(f32, $($args)*),
            T::F64 => $mac!(f64, $($args)*),
            T::Str | T::Fixed(_) => $mac!(&[u8], $($args)*),
            T::Date => $mac!(NaiveDate, $($args)*),
            T::DateTime(_) | T::DateTime64(..) => $mac!(chrono::DateTime<Tz>, $($args)*),
            T::Dec(..) => $mac!(Decimal, $($args)*),
            T::Enum8(_) => $mac!(Enum8, $($args)*),
            T::Enum16(_) => $mac!(Enum16, $($args)*),
            T::Uuid => $mac!(uuid::Uuid, $($args)*),
            T::Ip4 => $mac!(Ipv4Addr, $($args)*),
            T::Ip6 => $mac!(Ipv6Addr, $($args)*),
            _ => $else,
        }
    };
}
/// Map keys by Rust type (hashable ones).
macro_rules! by_key {
    ($t:expr, $else:expr, $mac:ident, $($args:tt)*) => {
        match $t {
            T::U(8) => $mac!(u8, $($args)*),
            T::U(16) => $mac!(u16, $($args)*),
            T::U(32) => $mac!(u32, $($args)*),
            T::U(64) => $mac!(u64, $($args)*),
            T::U(128) => $mac!(u128, $($args)*),
            T::I(8) => $mac!(i8, $($args)*),
            T::I(16) => $mac!(i16, $($args)*),
            T::I(32) => $mac!(i32, $($args)*),
            T::I(64) => $mac!(i64, $($args)*),
            T::I(128) => $mac!(i128, $($args)*),
            T::Str | T::Fixed(_) => $mac!(&[u8], $($args)*),
            T::Date => $mac!(NaiveDate, $($args)*),
            T::DateTime(_) => $mac!(chrono::DateTime<Tz>, $($args)*),
            T::Uuid => $mac!(uuid::Uuid, $($args)*),
            T::Ip4 => $mac!(Ipv4Addr, $($args)*),
            _ => $else,
        }
    };
}
/// Scalars by the Rust type column iterators use.
macro_rules! by_iter {
    ($t:expr, $else:expr, $mac:ident, $($args:tt)*) => {
        match $t {
            T::Bool => $mac!(bool, $($args)*),
            T::U(8) => $mac!(u8, $($args)*),
            T::U(16) => $mac!(u16, $($args)*),
            T::U(32) => $mac!(u32, $($args)*),
            T::U(64) => $mac!(u64, $($args)*),
            T::U(128) => $mac!(u128, $($args)*),
            T::I(8) => $mac!(i8, $($args)*),
            T::I(16) => $mac!(i16, $($args)*),
            T::I(32) => $mac!(i32, $($args)*),
            T::I(64) => $mac!(i64, $($args)*),
            T::I(128) => $mac!(i128, $($args)*),
            T::F32 => $mac!(f32, $($args)*),
            T::F64 => $mac!(f64, $($args)*),
            T::Str | T::Fixed(_) => $mac!(&[u8], $($args)*),
            T::Date => $mac!(NaiveDate, $($args)*),
            T::DateTime(_) | T::DateTime64(..) => $mac!(chrono::DateTime<Tz>, $($args)*),
            T::Dec(..) => $mac!(Decimal, $($args)*),
            T::Uuid => $mac!(uuid::Uuid, $($args)*),
            T::Ip4 => $mac!(Ipv4Addr, $($args)*),
            T::Ip6 => $mac!(Ipv6Addr, $($args)*),
            _ => $else,
        }
    };
}

/// Cell access does not look through a wrapper inside an array.
fn offered(t: &T) -> bool {
    !matches!(t, T::Array(i) if matches!(**i, T::Low(_) | T::Agg(..)))
}

fn is_num(t: &T) -> bool {
    matches!(t, T::Bool | T::U(_) | T::I(_) | T::F32 | T::F64)
}

/// The values an iterator gives, however it is advanced.
fn walk<I: Iterator>(mk: impl Fn() -> clickhouse_rs::errors::Result<I>, t: &T) -> Result<Vec<V>, String>
where
    I::Item: ToV,
{
    let new = || mk().map_err(|e| e.to_string());
    let all: Vec<V> = new()?.map(|x| x.v(t)).collect();
    let n = all.len();
    assert_eq!(new()?.count(), n, "count()");
    let mut it = new()?;
    for i in 0..=n {
        let (lo, hi) = it.size_hint();
        assert!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "size_hint() is {:?} with {} values left", (lo, hi), n - i);
        assert_eq!(it.next().map(|x| x.v(t)), all.get(i).cloned(), "next() at {i}");
    }
    assert!(it.next().is_none(), "a value after the last");
    if n <= 40 {
        for step in 0..n + 2 {
            let (mut it, mut at) = (new()?, step);
            loop {
                let (x, want) = (it.nth(step).map(|x| x.v(t)), all.get(at).cloned());
                assert_eq!(x, want, "nth({step}) at {at}");
                if x.is_none() {
                    assert!(it.next().is_none(), "a value after nth() past the end");
                    break;
                }
                at += step + 1;
            }
        }
        let (mut it, mut left) = (new()?, n);
        if n > 0 {
            it.next();
            left -= 1;
        }
        assert_eq!(it.count(), left, "count() after next()");
    }
    Ok(all)
}

macro_rules! gen {
    ($gets:ident, $iters:ident, $k:ty) => {
        /// Cell accessors.
        pub fn $gets(b: &Block<$k>, c: usize, t: &T, out: &mut Vec<Read>) {
            let n = b.row_count();
            macro_rules! g {
                ($r:ty, $tt:expr, $must:expr) => {{
                    let tt: &T = $tt;
                    let vals = guard(|| {
                        let mut v = vec![];
                        for i in 0..n {
                            match b.get::<$r, _>(i, c) {
                                Ok(x) => v.push(x.v(tt)),
                                Err(e) => return Err(e.to_string()),
                            }
                        }
                        Ok(v)
                    });
                    out.push(Read { name: format!("get::<{}>", stringify!($r)), must: $must, vals });
                }};
            }
            macro_rules! g_opt { ($r:ty, $tt:expr) => { g!(Option<$r>, $tt, true) }; }
            macro_rules! g_vec { ($r:ty, $tt:expr) => { g!(Vec<$r>, $tt, offered($tt)) }; }
            macro_rules! g_mapk8 { ($r:ty, $tt:expr) => { g!(HashMap<$r, u8>, $tt, true) }; }
            macro_rules! g_maps { ($r:ty, $tt:expr) => { g!(HashMap<String, $r>, $tt, false) }; }
            macro_rules! g_mapso { ($r:ty, $tt:expr) => { g!(HashMap<u16, Option<$r>>, $tt, true) }; }
            // Dynamic values.
            let vals = guard(|| {
                let mut v = vec![];
                for i in 0..n {
                    match b.get::<Cell, _>(i, c) {
                        Ok(x) => v.push(norm_v(&x.0)),
                        Err(e) => return Err(e.to_string()),
                    }
                }
                Ok(v)
            });
            out.push(Read { name: "get::<ValueRef>".into(), must: true, vals });
            let vals = guard(|| {
                let mut v = vec![];
                for i in 0..n {
                    match b.get::<Dyn, _>(i, c) {
                        Ok(x) => v.push(norm_v(&from_value(&x.0))),
                        Err(e) => return Err(e.to_string()),
                    }
                }
                Ok(v)
            });
            out.push(Read { name: "Value".into(), must: true, vals });
            by_get!(inner(t), (), g, inner(t), true);
            match inner(t) {
                T::Str => {
                    g!(Vec<u8>, &T::Str, true);
                    g!(String, &T::Str, false);
                    g!(&str, &T::Str, false);
                }
                T::Fixed(_) => g!(Vec<u8>, &T::Str, true),
                tt @ T::Nullable(i) => by_get!(inner(i), (), g_opt, tt),
                tt @ T::Array(i) => match inner(i) {
                    T::Bool => g_vec!(bool, tt),
                    T::U(8) => g_vec!(u8, tt),
                    T::U(16) => g_vec!(u16, tt),
                    T::U(32) => g_vec!(u32, tt),
                    T::U(64) => g_vec!(u64, tt),
                    T::U(128) => g_vec!(u128, tt),
                    T::I(8) => g_vec!(i8, tt),
                    T::I(16) => g_vec!(i16, tt),
                    T::I(32) => g_vec!(i32, tt),
                    T::I(64) => g_vec!(i64, tt),
                    T::I(128) => g_vec!(i128, tt),
                    T::F32 => g_vec!(f32, tt),
                    T::F64 => g_vec!(f64, tt),
                    T::Str => {
                        g!(Vec<Vec<u8>>, &array(array(T::U(8))), offered(tt));
                        g_vec!(&[u8], tt);
                        g!(Vec<String>, tt, false);
                        g!(Vec<&str>, tt, false);
                    }
                    T::Date => g_vec!(NaiveDate, tt),
                    T::DateTime(_) | T::DateTime64(..) => g_vec!(chrono::DateTime<Tz>, tt),
                    T::Enum8(_) => g_vec!(Enum8, tt),
                    T::Enum16(_) => g_vec!(Enum16, tt),
                    _ => {}
                },
                tt @ T::Map(k, v) => match (inner(k), inner(v)) {
                    (k, T::U(8)) => by_key!(k, (), g_mapk8, tt),
                    (T::Str, v) => by_get!(v, (), g_maps, tt),
                    (T::U(16), T::Nullable(v)) => by_get!(&**v, (), g_mapso, tt),
                    _ => {}
                },
                _ => {}
            }
        }

        /// Column iterators.
        pub fn $iters(col: &Column<$k>, t: &T, out: &mut Vec<Read>) {
            macro_rules! it {
                ($r:ty, $tt:expr, $must:expr) => {{
                    let tt: &T = $tt;
                    let vals = guard(|| walk(|| col.iter::<$r>(), tt));
                    out.push(Read { name: format!("iter::<{}>", stringify!($r)), must: $must, vals });
                }};
            }
            macro_rules! i_opt { ($r:ty, $tt:expr) => { it!(Option<$r>, $tt, true) }; }
            macro_rules! i_vec { ($r:ty, $tt:expr) => { it!(Vec<$r>, $tt, true) }; }
            macro_rules! i_vecopt { ($r:ty, $tt:expr) => { it!(Vec<Option<$r>>, $tt, true) }; }
            macro_rules! i_vecvec { ($r:ty, $tt:expr) => { it!(Vec<Vec<$r>>, $tt, true) }; }
            macro_rules! i_mapk8 { ($r:ty, $tt:expr) => { it!(HashMap<$r, u8>, $tt, true) }; }
            macro_rules! i_maps { ($r:ty, $tt:expr) => { it!(HashMap<&[u8], $r>, $tt, true) }; }
            macro_rules! i_mapso { ($r:ty, $tt:expr) => { it!(HashMap<u16, Option<$r>>, $tt, true) }; }
            macro_rules! i_mapsa { ($r:ty, $tt:expr) => { it!(HashMap<&[u8], Vec<$r>>, $tt, true) }; }
            let must = match t {
                T::Low(t) => matches!(**t, T::Str | T::Fixed(_) | T::Date | T::DateTime(_)),
                T::Agg(_, t) => is_num(t),
                _ => true,
            };
            by_iter!(inner(t), (), it, inner(t), must);
            match inner(t) {
                tt @ (T::DateTime(_) | T::DateTime64(..)) => it!(NaiveDateTime, tt, must),
                _ => {}
            }
            match t {
                tt @ T::Nullable(i) => {
                    by_iter!(&**i, (), i_opt, tt);
                    if matches!(**i, T::DateTime(_) | T::DateTime64(..)) {
                        it!(Option<NaiveDateTime>, tt, true);
                    }
                }
                tt @ T::Array(i) => match &**i {
                    T::Nullable(j) => by_iter!(&**j, (), i_vecopt, tt),
                    T::Array(j) => match &**j {
                        T::Array(k) => match **k {
                            T::U(8) => it!(Vec<Vec<Vec<u8>>>, tt, true),
                            T::Str => it!(Vec<Vec<Vec<&[u8]>>>, tt, true),
                            T::Date => it!(Vec<Vec<Vec<NaiveDate>>>, tt, true),
                            T::Dec(..) => it!(Vec<Vec<Vec<Decimal>>>, tt, true),
                            _ => {}
                        },
                        T::Nullable(k) => match **k {
                            T::U(8) => it!(Vec<Vec<Option<u8>>>, tt, true),
                            T::Str => it!(Vec<Vec<Option<&[u8]>>>, tt, true),
                            T::Date => it!(Vec<Vec<Option<NaiveDate>>>, tt, true),
                            T::Dec(..) => it!(Vec<Vec<Option<Decimal>>>, tt, true),
                            _ => {}
                        },
                        j => by_iter!(j, (), i_vecvec, tt),
                    },
                    T::Map(k, v) if **k == T::Str => match **v {
                        T::U(8) => it!(Vec<HashMap<&[u8], u8>>, tt, true),
                        T::Str => it!(Vec<HashMap<&[u8], &[u8]>>, tt, true),
                        T::Date => it!(Vec<HashMap<&[u8], NaiveDate>>, tt, true),
                        T::Dec(..) => it!(Vec<HashMap<&[u8], Decimal>>, tt, true),
                        _ => {}
                    },
                    i => by_iter!(i, (), i_vec, tt),
                },
                tt @ T::Map(k, v) => match (&**k, &**v) {
                    (k, T::U(8)) => by_key!(k, (), i_mapk8, tt),
                    (T::U(16), T::Nullable(v)) => by_iter!(&**v, (), i_mapso, tt),
                    (T::Str, T::Array(v)) => by_iter!(&**v, (), i_mapsa, tt),
                    (T::Str, T::Map(k, v)) if **k == T::U(8) => match **v {
                        T::U(8) => it!(HashMap<&[u8], HashMap<u8, u8>>, tt, true),
                        T::Str => it!(HashMap<&[u8], HashMap<u8, &[u8]>>, tt, true),
                        T::Date => it!(HashMap<&[u8], HashMap<u8, NaiveDate>>, tt, true),
                        T::Dec(..) => it!(HashMap<&[u8], HashMap<u8, Decimal>>, tt, true),
                        _ => {}
                    },
                    (T::Str, T::Map(k, v)) if **k == T::Str => match &**v {
                        T::Map(_, v) => match **v {
                            T::U(8) => it!(HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], u8>>>, tt, true),
                            T::Str => it!(HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], &[u8]>>>, tt, true),
                            T::Date => it!(HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], NaiveDate>>>, tt, true),
                            T::Dec(..) => it!(HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], Decimal>>>, tt, true),
                            _ => {}
                        },
                        _ => {}
                    },
                    (T::U(32), T::Array(v)) => match &**v {
                        T::Nullable(v) => match **v {
                            T::U(8) => it!(HashMap<u32, Vec<Option<u8>>>, tt, true),
                            T::Str => it!(HashMap<u32, Vec<Option<&[u8]>>>, tt, true),
                            T::Date => it!(HashMap<u32, Vec<Option<NaiveDate>>>, tt, true),
                            T::Dec(..) => it!(HashMap<u32, Vec<Option<Decimal>>>, tt, true),
                            _ => {}
                        },
                        _ => {}
                    },
                    (T::I(8), T::Array(v)) => match &**v {
                        T::Map(_, v) => match &**v {
                            T::Nullable(v) => match **v {
                                T::U(8) => it!(HashMap<i8, Vec<HashMap<&[u8], Option<u8>>>>, tt, true),
                                T::Str => it!(HashMap<i8, Vec<HashMap<&[u8], Option<&[u8]>>>>, tt, true),
                                T::Date => it!(HashMap<i8, Vec<HashMap<&[u8], Option<NaiveDate>>>>, tt, true),
                                T::Dec(..) => it!(HashMap<i8, Vec<HashMap<&[u8], Option<Decimal>>>>, tt, true),
                                _ => {}
                            },
                            _ => {}
                        },
                        _ => {}
                    },
                    (T::Str, v) => by_iter!(v, (), i_maps, tt),
                    _ => {}
                },
                _ => {}
            }
        }
    };
}
gen!(gets_simple, iters_simple, Simple);
gen!(gets_complex, iters_complex, Complex);

/// A cell as an owned dynamic value.
pub struct Dyn(pub Value);
impl<'a> clickhouse_rs::types::FromSql<'a> for Dyn {
    fn from_sql(value: clickhouse_rs::types::ValueRef<'a>) -> clickhouse_rs::types::FromSqlResult<Self> {
        Ok(Dyn(Value::from(value)))
    }
}
