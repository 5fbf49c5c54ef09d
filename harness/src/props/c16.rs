//! Every column type against every Rust type: the right value or an error.

use super::{c08, Prop};
use crate::{access::*, catalog::*, columns::*, explore::*, rtypes::*, server::*, util::*};
use chrono::{NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::{
    types::{column::iter::Iterable, Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql, Simple},
    Block,
};
use futures_util::StreamExt;
use std::{
    collections::HashMap,
    net::{Ipv4Addr, Ipv6Addr},
};
use uuid::Uuid;

pub const PROP: Prop = Prop {
    id: "C16",
    bounds: "every type of the catalogue (over 300: all scalars, nullable, array, map, low-cardinality, simple-aggregate wrappers, nestings to depth 4) with its boundary values x every Rust type offered for cell access (133) and for column iteration (170), at nesting depth up to 3 x cell access through Block::get, rows().get by index and by name, and Column::iter x results in one block (Simple), in one, several or zero-row blocks (Complex), blocks built locally with every typed constructor and by rows, columns of a result put into a new block, blocks of the other column kind; columns and rows that do not exist, by index and by name",
    assumptions: &[
        "an empty map or a null tells nothing about the types inside: reading it as an optional or a map of other types may give none or an empty map for cell access",
        "a value of a nullable column that is not null may also be refused as non-optional type",
        "a timestamp column may be read as NaiveDateTime as well as DateTime<Tz>, a string as bytes or (when UTF-8) as text, Array(UInt8) as bytes",
        "the infallible From conversions of ValueRef (documented to panic on the wrong type) are not typed access",
    ],
    run,
};

/// A Rust type, as far as it says which column types it stands for.
enum H {
    Is(fn(&T) -> bool),
    Bytes,
    Text,
    Opt(Box<H>),
    Vec(Box<H>),
    Map(Box<H>, Box<H>),
}
trait Host {
    fn h() -> H;
}
macro_rules! host {
    ($($t:ty: $p:pat),* $(,)?) => { $(impl Host for $t { fn h() -> H { H::Is(|t| matches!(t, $p)) } })* };
}
host! {
    bool: T::Bool,
    u8: T::U(8), u16: T::U(16), u32: T::U(32), u64: T::U(64), u128: T::U(128),
    i8: T::I(8), i16: T::I(16), i32: T::I(32), i64: T::I(64), i128: T::I(128),
    f32: T::F32, f64: T::F64,
    NaiveDate: T::Date,
    chrono::DateTime<Tz>: T::DateTime(_) | T::DateTime64(..),
    NaiveDateTime: T::DateTime(_) | T::DateTime64(..),
    Decimal: T::Dec(..),
    Enum8: T::Enum8(_), Enum16: T::Enum16(_),
    Uuid: T::Uuid, Ipv4Addr: T::Ip4, Ipv6Addr: T::Ip6,
}
impl Host for &str {
    fn h() -> H {
        H::Text
    }
}
impl Host for String {
    fn h() -> H {
        H::Text
    }
}
impl Host for &[u8] {
    fn h() -> H {
        H::Bytes
    }
}
impl<X: Host> Host for Option<X> {
    fn h() -> H {
        H::Opt(Box::new(X::h()))
    }
}
impl<X: Host> Host for Vec<X> {
    fn h() -> H {
        H::Vec(Box::new(X::h()))
    }
}
impl<K: Host, W: Host> Host for HashMap<K, W> {
    fn h() -> H {
        H::Map(Box::new(K::h()), Box::new(W::h()))
    }
}

fn strip(t: &T) -> T {
    match t {
        T::Low(t) | T::Agg(_, t) => strip(t),
        T::Nullable(t) => nullable(strip(t)),
        T::Array(t) => array(strip(t)),
        T::Map(k, v) => map(strip(k), strip(v)),
        t => t.clone(),
    }
}
/// Whether a value of (stripped) type `t` may be read as `h`.
fn fits(h: &H, t: &T, v: &V) -> bool {
    match (h, t, v) {
        (H::Opt(h), T::Nullable(i), v) => *v == V::Null || fits(h, i, v),
        (h, T::Nullable(i), v) => *v != V::Null && fits(h, i, v),
        (H::Is(f), t, _) => f(t),
        (H::Bytes, T::Str | T::Fixed(_), _) => true,
        (H::Text, T::Str | T::Fixed(_), V::B(b)) => std::str::from_utf8(b).is_ok(),
        (H::Vec(h), T::Str | T::Fixed(_), _) => fits_type(h, &T::U(8)),
        (H::Vec(h), T::Array(i), V::A(x)) => fits_type(h, i) && x.iter().all(|v| fits(h, i, v)),
        (H::Map(k, w), T::Map(kt, wt), V::M(x)) => x.iter().all(|(a, b)| fits(k, kt, a) && fits(w, wt, b)),
        _ => false,
    }
}
/// Whether some value of (stripped) type `t` may be read as `h`.
fn fits_type(h: &H, t: &T) -> bool {
    match (h, t) {
        (H::Opt(h), T::Nullable(i)) => fits_type(h, i),
        (h, T::Nullable(i)) => fits_type(h, i),
        (H::Is(f), t) => f(t),
        (H::Bytes | H::Text, t) => matches!(t, T::Str | T::Fixed(_)),
        (H::Vec(h), T::Str | T::Fixed(_)) => fits_type(h, &T::U(8)),
        (H::Vec(h), T::Array(i)) => fits_type(h, i),
        (H::Map(k, w), T::Map(kt, wt)) => fits_type(k, kt) && fits_type(w, wt),
        _ => false,
    }
}
/// Whether a column of (stripped) type `t` may be iterated as `h`.
fn iterates(h: &H, t: &T) -> bool {
    match (h, t) {
        (H::Opt(h), T::Nullable(i)) => iterates(h, i),
        (_, T::Nullable(_)) => false,
        (H::Vec(h), T::Array(i)) => iterates(h, i),
        (H::Vec(_), _) => false,
        (H::Map(k, w), T::Map(kt, wt)) => iterates(k, kt) && iterates(w, wt),
        (h, t) => fits_type(h, t),
    }
}
/// The value read, in terms of the column type.
fn canon(x: &impl ToV, h: &H, t: &T) -> V {
    let t = match (h, t) {
        (H::Opt(_), t) => t,
        (_, T::Nullable(i)) => i,
        (_, t) => t,
    };
    norm_v(&x.v(t))
}

struct Probe<'x> {
    /// Where the column comes from.
    from: &'x str,
    full: T,
    t: T,
    vals: &'x [V],
    n: u64,
}

impl Probe<'_> {
    fn cell<'a, K: ColumnType, R: FromSql<'a> + Host + ToV>(&mut self, b: &'a Block<K>, name: &str) -> Result<(), Fail> {
        let h = R::h();
        for i in 0..self.vals.len() {
            let r = guard(|| b.get::<R, _>(i, 0usize).map(|x| self.view(&x, &h, i)).map_err(|e| e.to_string()));
            self.judge(r, fits(&h, &self.t, &self.vals[i]), i, &format!("get::<{name}>"))?;
        }
        Ok(())
    }

    fn row<'a, R: FromSql<'a> + Host + ToV>(&mut self, row: &'a clickhouse_rs::types::Row<'a, Complex>, i: usize, name: &str) -> Result<(), Fail> {
        let h = R::h();
        let r = guard(|| row.get::<R, _>("c").map(|x| self.view(&x, &h, i)).map_err(|_| String::new()));
        let s = guard(|| row.get::<R, _>(0usize).map(|x| self.view(&x, &h, i)).map_err(|_| String::new()));
        if r != s {
            return fail(format!("row access of {}", self.full.name()), format!("a cell of type {} as {name}: {r:?} by name, {s:?} by index", self.full.name()));
        }
        self.judge(r, fits(&h, &self.t, &self.vals[i]), i, &format!("Row::get::<{name}>"))
    }

    fn iter<'a, K: ColumnType, R: Iterable<'a, K> + Host>(&mut self, c: &'a Column<K>, name: &str) -> Result<(), Fail>
    where
        <R::Iter as Iterator>::Item: ToV,
    {
        let ok = iterates(&R::h(), &self.t);
        let t = self.t.clone();
        let r = guard(|| match c.iter::<R>() {
            Ok(i) => Ok(i.map(|x| norm_v(&x.v(&t))).collect::<Vec<V>>()),
            Err(e) => Err(e.to_string()),
        });
        self.n += 1;
        let key = format!("iter::<{name}> of {} ({})", self.full.name(), self.from);
        let what = || format!("iter::<{name}> over a column of type {} ({})", self.full.name(), self.from);
        match r {
            Err(p) => fail(key, format!("{} panics: {p}", what())),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(x)) if !ok => fail(key, format!("{} gives {x:?} instead of an error", what())),
            Ok(Ok(x)) if x != self.vals => fail(key, format!("{} gives {x:?}, the column holds {:?}", what(), self.vals)),
            _ => Ok(()),
        }
    }

    fn view(&self, x: &impl ToV, h: &H, i: usize) -> V {
        // a value that does not fit has no meaning in terms of the column type
        if fits(h, &self.t, &self.vals[i]) {
            canon(x, h, &self.t)
        } else {
            V::Null
        }
    }

    fn judge(&mut self, r: Result<Result<V, String>, String>, ok: bool, i: usize, what: &str) -> Result<(), Fail> {
        self.n += 1;
        let v = &self.vals[i];
        let key = format!("{what} of {} ({})", self.full.name(), self.from);
        let what = || format!("{what} of {v:?} in a column of type {} ({})", self.full.name(), self.from);
        match r {
            Err(p) => fail(key, format!("{} panics: {p}", what())),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(x)) if !ok => fail(key, format!("{} succeeds ({x:?}) instead of giving an error", what())),
            Ok(Ok(x)) if x != *v => fail(key, format!("{} gives {x:?}", what())),
            _ => Ok(()),
        }
    }
}

/// The Rust types of cell access.
macro_rules! cell_types {
    ($m:ident) => {
        $m!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, &str, String, &[u8], NaiveDate, chrono::DateTime<Tz>, Decimal, Enum8, Enum16, Uuid, Ipv4Addr, Ipv6Addr);
        $m!(Option<bool>, Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>, Option<f32>, Option<f64>);
        $m!(Option<&str>, Option<String>, Option<&[u8]>, Option<NaiveDate>, Option<chrono::DateTime<Tz>>, Option<Decimal>, Option<Enum8>, Option<Enum16>, Option<Uuid>, Option<Ipv4Addr>, Option<Ipv6Addr>);
        $m!(Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>);
        $m!(Vec<&str>, Vec<String>, Vec<&[u8]>, Vec<Vec<u8>>, Vec<NaiveDate>, Vec<chrono::DateTime<Tz>>, Vec<Enum8>, Vec<Enum16>);
        $m!(Option<Vec<u8>>, Option<Vec<u16>>, Option<Vec<String>>, Option<Option<u8>>, Option<HashMap<String, u8>>);
        $m!(HashMap<bool, u8>, HashMap<u8, u8>, HashMap<u16, u8>, HashMap<u32, u8>, HashMap<u64, u8>, HashMap<u128, u8>, HashMap<i8, u8>, HashMap<i16, u8>, HashMap<i32, u8>, HashMap<i64, u8>, HashMap<i128, u8>);
        $m!(HashMap<&str, u8>, HashMap<String, u8>, HashMap<&[u8], u8>, HashMap<NaiveDate, u8>, HashMap<chrono::DateTime<Tz>, u8>, HashMap<Uuid, u8>, HashMap<Ipv4Addr, u8>, HashMap<Vec<u8>, u8>, HashMap<Option<u8>, u8>);
        $m!(HashMap<&[u8], bool>, HashMap<&[u8], u16>, HashMap<&[u8], u32>, HashMap<&[u8], u64>, HashMap<&[u8], u128>, HashMap<&[u8], i8>, HashMap<&[u8], i16>, HashMap<&[u8], i32>, HashMap<&[u8], i64>, HashMap<&[u8], i128>, HashMap<&[u8], f32>, HashMap<&[u8], f64>);
        $m!(HashMap<&[u8], &str>, HashMap<&[u8], &[u8]>, HashMap<&[u8], NaiveDate>, HashMap<&[u8], chrono::DateTime<Tz>>, HashMap<&[u8], Decimal>, HashMap<&[u8], Enum8>, HashMap<&[u8], Enum16>, HashMap<&[u8], Uuid>, HashMap<&[u8], Ipv4Addr>, HashMap<&[u8], Ipv6Addr>);
        $m!(HashMap<u16, Option<u8>>, HashMap<u16, Option<u16>>, HashMap<u16, Option<&str>>, HashMap<u16, Option<NaiveDate>>, HashMap<u16, Option<chrono::DateTime<Tz>>>, HashMap<u16, Option<Decimal>>, HashMap<u16, Option<Ipv4Addr>>, HashMap<u16, Option<f64>>);
        $m!(HashMap<&[u8], Vec<u8>>, HashMap<&[u8], Vec<u16>>, HashMap<&[u8], Vec<i8>>, HashMap<&[u8], Vec<&[u8]>>, HashMap<&[u8], Vec<NaiveDate>>, HashMap<&[u8], Vec<chrono::DateTime<Tz>>>, HashMap<&[u8], Vec<Enum8>>, HashMap<&[u8], HashMap<u8, u8>>, HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], u8>>>);
    };
}
/// The Rust types of column iteration.
macro_rules! iter_types {
    ($m:ident) => {
        $m!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, &[u8], NaiveDate, chrono::DateTime<Tz>, NaiveDateTime, Decimal, Uuid, Ipv4Addr, Ipv6Addr);
        $m!(Option<bool>, Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>, Option<f32>, Option<f64>, Option<&[u8]>, Option<NaiveDate>, Option<chrono::DateTime<Tz>>, Option<NaiveDateTime>, Option<Decimal>, Option<Uuid>, Option<Ipv4Addr>, Option<Ipv6Addr>);
        $m!(Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<&[u8]>, Vec<NaiveDate>, Vec<chrono::DateTime<Tz>>, Vec<NaiveDateTime>, Vec<Decimal>, Vec<Uuid>, Vec<Ipv4Addr>, Vec<Ipv6Addr>);
        $m!(Vec<Option<bool>>, Vec<Option<u8>>, Vec<Option<u16>>, Vec<Option<u32>>, Vec<Option<u64>>, Vec<Option<u128>>, Vec<Option<i8>>, Vec<Option<i16>>, Vec<Option<i32>>, Vec<Option<i64>>, Vec<Option<i128>>, Vec<Option<f32>>, Vec<Option<f64>>, Vec<Option<&[u8]>>, Vec<Option<NaiveDate>>, Vec<Option<chrono::DateTime<Tz>>>, Vec<Option<NaiveDateTime>>, Vec<Option<Decimal>>, Vec<Option<Uuid>>, Vec<Option<Ipv4Addr>>, Vec<Option<Ipv6Addr>>);
        $m!(Vec<Vec<bool>>, Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<Vec<u32>>, Vec<Vec<u64>>, Vec<Vec<u128>>, Vec<Vec<i8>>, Vec<Vec<i16>>, Vec<Vec<i32>>, Vec<Vec<i64>>, Vec<Vec<i128>>, Vec<Vec<f32>>, Vec<Vec<f64>>, Vec<Vec<&[u8]>>, Vec<Vec<NaiveDate>>, Vec<Vec<chrono::DateTime<Tz>>>, Vec<Vec<NaiveDateTime>>, Vec<Vec<Decimal>>, Vec<Vec<Uuid>>, Vec<Vec<Ipv4Addr>>, Vec<Vec<Ipv6Addr>>);
        $m!(Option<Vec<u8>>, Option<Option<u8>>, Option<HashMap<u8, u8>>, Vec<Vec<Vec<u8>>>, Vec<Vec<Option<u8>>>, Vec<HashMap<&[u8], u8>>, Vec<HashMap<&[u8], NaiveDate>>);
        $m!(HashMap<u8, u8>, HashMap<u16, u8>, HashMap<u32, u8>, HashMap<u64, u8>, HashMap<u128, u8>, HashMap<i8, u8>, HashMap<i16, u8>, HashMap<i32, u8>, HashMap<i64, u8>, HashMap<i128, u8>, HashMap<bool, u8>);
        $m!(HashMap<&[u8], u8>, HashMap<NaiveDate, u8>, HashMap<chrono::DateTime<Tz>, u8>, HashMap<NaiveDateTime, u8>, HashMap<Uuid, u8>, HashMap<Ipv4Addr, u8>, HashMap<Ipv6Addr, u8>, HashMap<Option<u8>, u8>, HashMap<Vec<u8>, u8>);
        $m!(HashMap<&[u8], bool>, HashMap<&[u8], u16>, HashMap<&[u8], u32>, HashMap<&[u8], u64>, HashMap<&[u8], u128>, HashMap<&[u8], i8>, HashMap<&[u8], i16>, HashMap<&[u8], i32>, HashMap<&[u8], i64>, HashMap<&[u8], i128>, HashMap<&[u8], f32>, HashMap<&[u8], f64>, HashMap<&[u8], &[u8]>, HashMap<&[u8], NaiveDate>, HashMap<&[u8], chrono::DateTime<Tz>>, HashMap<&[u8], NaiveDateTime>, HashMap<&[u8], Decimal>, HashMap<&[u8], Uuid>, HashMap<&[u8], Ipv4Addr>, HashMap<&[u8], Ipv6Addr>);
        $m!(HashMap<u16, Option<u8>>, HashMap<u16, Option<u16>>, HashMap<u16, Option<&[u8]>>, HashMap<u16, Option<NaiveDate>>, HashMap<u16, Option<Decimal>>, HashMap<u16, Option<Uuid>>, HashMap<u16, Option<Ipv6Addr>>, HashMap<u16, Option<f64>>);
        $m!(HashMap<&[u8], Vec<u8>>, HashMap<&[u8], Vec<u16>>, HashMap<&[u8], Vec<&[u8]>>, HashMap<&[u8], Vec<NaiveDate>>, HashMap<&[u8], Vec<Decimal>>, HashMap<&[u8], Vec<Uuid>>, HashMap<&[u8], Vec<Ipv4Addr>>, HashMap<&[u8], HashMap<u8, u8>>, HashMap<&[u8], HashMap<u8, &[u8]>>, HashMap<&[u8], HashMap<&[u8], HashMap<&[u8], u8>>>);
    };
}

fn probe<K: ColumnType>(p: &mut Probe, b: &Block<K>) -> Result<(), Fail> {
    macro_rules! m { ($($r:ty),*) => { $(p.cell::<K, $r>(b, stringify!($r))?;)* }; }
    cell_types!(m);
    Ok(())
}
fn probe_rows(p: &mut Probe, b: &Block<Complex>) -> Result<(), Fail> {
    for (i, row) in b.rows().enumerate() {
        macro_rules! m { ($($r:ty),*) => { $(p.row::<$r>(&row, i, stringify!($r))?;)* }; }
        cell_types!(m);
    }
    Ok(())
}
fn iterate_simple(p: &mut Probe, c: &Column<Simple>) -> Result<(), Fail> {
    macro_rules! m { ($($r:ty),*) => { $(p.iter::<Simple, $r>(c, stringify!($r))?;)* }; }
    iter_types!(m);
    Ok(())
}
fn iterate_complex(p: &mut Probe, c: &Column<Complex>) -> Result<(), Fail> {
    macro_rules! m { ($($r:ty),*) => { $(p.iter::<Complex, $r>(c, stringify!($r))?;)* }; }
    iter_types!(m);
    Ok(())
}

fn fetch(t: &T, vals: &[V], layout: usize) -> Result<Block<Complex>, Fail> {
    let mk = |v: &[V]| RBlock::new(vec![col("c", t.clone(), v.to_vec())]);
    let blocks: Vec<RBlock> = match layout {
        0 => vec![mk(vals)],
        1 => vec![mk(&[]), mk(&vals[..vals.len() / 2]), mk(&[]), mk(&vals[vals.len() / 2..])],
        _ => vec![],
    };
    let mut st = answer(&blocks, false);
    if blocks.is_empty() {
        st = vec![Step::Send(p_data(&mk(&[]), false)), Step::Send(p_eos())];
    }
    let w = World::new(Box::new(move |_, _| st.clone()));
    w.install();
    match block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.query("SELECT").fetch_all().await.map_err(|e| e.to_string()) }) {
        Some(Ok(b)) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.err()))),
    }
}
fn stream(t: &T, vals: &[V]) -> Result<Vec<Block>, Fail> {
    let st = answer(&[RBlock::new(vec![col("c", t.clone(), vals.to_vec())])], false);
    let w = World::new(Box::new(move |_, _| st.clone()));
    w.install();
    let r = block_on(async {
        let mut h = get(&pool("")).await.map_err(|e| format!("{e:?}"))?;
        let mut s = h.query("SELECT").stream_blocks();
        let mut v = vec![];
        while let Some(b) = s.next().await {
            v.push(b.map_err(|e| e.to_string())?);
        }
        Ok::<_, String>(v)
    });
    match r {
        Some(Ok(b)) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.err()))),
    }
}

/// A column of a query result.
fn received(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let how = ch.choose(5);
    ch.note(format!("column of type {}, {}", t.name(), ["one block", "several blocks", "no rows", "streamed", "put into a new block"][how]));
    let vals: Vec<V> = values(t).iter().map(norm_v).collect();
    let mut p = Probe { from: ["one block", "several blocks", "no rows", "streamed", "put into a new block"][how], full: t.clone(), t: strip(t), vals: &vals, n: 0 };
    match how {
        0..=2 => {
            if how == 2 {
                p.vals = &[];
            }
            let b = fetch(t, p.vals, how)?;
            probe(&mut p, &b)?;
            probe_rows(&mut p, &b)?;
            iterate_complex(&mut p, &b.columns()[0])?;
        }
        3 => {
            for b in stream(t, &vals)?.iter().filter(|b| b.row_count() > 0) {
                probe(&mut p, b)?;
                iterate_simple(&mut p, &b.columns()[0])?;
            }
        }
        _ => {
            let b = fetch(t, &vals, 1)?;
            let c = b.columns()[0].clone();
            let b = Block::new().column("c", c.clone());
            probe(&mut p, &b)?;
            iterate_simple(&mut p, &b.columns()[0])?;
            let b = Block::<Complex>::default().column("c", c);
            probe(&mut p, &b)?;
            probe_rows(&mut p, &b)?;
            iterate_complex(&mut p, &b.columns()[0])?;
        }
    }
    obs_n(&(t, how), p.n)
}

/// A column built by the user.
fn built(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let vals: Vec<V> = values(t).iter().filter(|v| utf8(v)).map(norm_v).collect();
    let ws = ways(t, &vals);
    let how = ch.choose(ws.len() + 1);
    let other = ch.flag();
    let name = if how < ws.len() { ws[how].name } else { "rows" };
    // a typed constructor makes the type that goes with the values
    let b = if how < ws.len() {
        match guard(|| (ws[how].add)(Block::new())) {
            Ok(b) => b,
            Err(_) => return obs(&0), // C07
        }
    } else {
        match guard(|| make_block(&RBlock::new(vec![col("c", t.clone(), vals.clone())]))) {
            Ok(Ok(b)) => b,
            _ => return obs(&0), // C07
        }
    };
    let tn = b.columns()[0].sql_type().to_string();
    let Some(nat) = T::parse(&tn) else { return obs(&0) };
    ch.note(format!("{} built from {name}{}", t.name(), if other { ", column in a block of the other kind" } else { "" }));
    // precision and scale of locally built dates and decimals: C07, C20, C21
    let Ok(Ok(kept)) = guard(|| read_block(&b)) else { return obs(&0) };
    let vals = kept.cols[0].vals.clone();
    let mut p = Probe { from: "built locally", full: nat.clone(), t: strip(&nat), vals: &vals, n: 0 };
    if !other {
        probe(&mut p, &b)?;
        iterate_simple(&mut p, &b.columns()[0])?;
    } else {
        let b = Block::<Complex>::default().column("c", b.columns()[0].clone());
        probe(&mut p, &b)?;
        probe_rows(&mut p, &b)?;
        iterate_complex(&mut p, &b.columns()[0])?;
    }
    obs_n(&(t, how, other), p.n)
}

/// A block without columns.
fn nothing(ch: &Ch) -> Result<Obs, Fail> {
    let b = match ch.choose(3) {
        0 => Block::new(),
        1 => Block::with_capacity(0),
        _ => Block::new().column("x", Vec::<u8>::new()),
    };
    let n = b.column_count();
    for r in [0usize, 1, usize::MAX] {
        for c in [0usize, 1, usize::MAX] {
            if !matches!(guard(|| b.get::<u8, _>(r, c).is_err()), Ok(true)) {
                return fail("empty block", format!("get({r}, {c}) of a block without rows is no error"));
            }
            if !matches!(guard(|| b.get_column(c).is_err()), Ok(e) if e == (c >= n)) {
                return fail("empty block", format!("get_column({c}) of {n} columns"));
            }
        }
        for c in ["x", "", "y"] {
            if !matches!(guard(|| b.get::<u8, _>(r, c).is_err()), Ok(true)) {
                return fail("empty block", format!("get({r}, {c:?}) of a block without rows is no error"));
            }
        }
    }
    if b.rows().next().is_some() {
        return fail("empty block", "a block without rows has a row");
    }
    obs(&n)
}

fn run(cx: &mut Ctx) {
    let mut types = all_types();
    if cx.thorough {
        for t in wrapped() {
            types.push(a(&t));
            types.push(map(T::Str, t.clone()));
            types.push(map(T::U(64), a(&t)));
            types.push(a(&a(&t)));
        }
        types.dedup();
    }
    let ty = types.clone();
    cx.explore("received", move |ch| received(ch, &ty));
    cx.explore("built", move |ch| built(ch, &types));
    cx.explore("nothing", nothing);
    cx.explore("addressing", c08::addressing);
}
