//! Glue between the crate's public API and the reference model.

use crate::{rtypes::*, server::*};
use clickhouse_rs::{
    errors::{DriverError, Error},
    types::{ColumnType, DateTimeType, Decimal, Enum16, Enum8, FromSql, FromSqlResult, SimpleAggFunc, SqlType, Value, ValueRef},
    Block, ClientHandle, Options, Pool,
};
use either::Either;
use futures_util::StreamExt;
use std::{collections::HashMap, future::Future, str::FromStr, sync::Arc, time::Duration};

// ---------------------------------------------------------------- values

/// A cell read through `FromSql`, as a reference value.
pub struct Cell(pub V);

impl<'a> FromSql<'a> for Cell {
    fn from_sql(value: ValueRef<'a>) -> FromSqlResult<Self> {
        Ok(Cell(from_ref(&value)))
    }
}

pub fn from_ref(v: &ValueRef) -> V {
    match v {
        ValueRef::Bool(x) => V::U(*x as u128),
        ValueRef::UInt8(x) => V::U(*x as u128),
        ValueRef::UInt16(x) => V::U(*x as u128),
        ValueRef::UInt32(x) => V::U(*x as u128),
        ValueRef::UInt64(x) => V::U(*x as u128),
        ValueRef::UInt128(x) => V::U(*x),
        ValueRef::Int8(x) => V::I(*x as i128),
        ValueRef::Int16(x) => V::I(*x as i128),
        ValueRef::Int32(x) => V::I(*x as i128),
        ValueRef::Int64(x) => V::I(*x as i128),
        ValueRef::Int128(x) => V::I(*x),
        ValueRef::String(x) => V::B(x.to_vec()),
        ValueRef::Float32(x) => V::F(x.to_bits() as u64),
        ValueRef::Float64(x) => V::F(x.to_bits()),
        ValueRef::Date(x) => V::U(*x as u128),
        ValueRef::DateTime(x, _) => V::U(*x as u128),
        ValueRef::DateTime64(x, _) => V::I(*x as i128),
        ValueRef::Nullable(Either::Left(_)) => V::Null,
        ValueRef::Nullable(Either::Right(x)) => from_ref(x),
        ValueRef::Array(_, x) => V::A(x.iter().map(from_ref).collect()),
        ValueRef::Decimal(d) => V::I(d.internal::<i64>() as i128),
        ValueRef::Ipv4(b) => V::U(u32::from_le_bytes(*b) as u128),
        ValueRef::Ipv6(b) => V::B(b.to_vec()),
        ValueRef::Uuid(b) => V::B(swap_uuid(b)),
        ValueRef::Enum8(_, e) => V::I(e.internal() as i128),
        ValueRef::Enum16(_, e) => V::I(e.internal() as i128),
        ValueRef::Map(_, _, m) => {
            let mut v: Vec<(V, V)> = m.iter().map(|(k, v)| (from_ref(k), from_ref(v))).collect();
            v.sort();
            V::M(v)
        }
    }
}

pub fn from_value(v: &Value) -> V {
    match v {
        Value::ChronoDateTime(t) => V::I(t.timestamp() as i128),
        Value::DateTime64(x, _) => V::I(*x as i128),
        Value::Nullable(Either::Left(_)) => V::Null,
        Value::Nullable(Either::Right(x)) => from_value(x),
        Value::Array(_, x) => V::A(x.iter().map(from_value).collect()),
        Value::Map(_, _, m) => {
            let mut v: Vec<(V, V)> = m.iter().map(|(k, v)| (from_value(k), from_value(v))).collect();
            v.sort();
            V::M(v)
        }
        v => from_ref(&ValueRef::from(v)),
    }
}

pub fn tz(name: &Option<String>) -> chrono_tz::Tz {
    name.as_deref().unwrap_or("UTC").parse().expect("time zone")
}

pub fn sql_type(t: &T) -> SqlType {
    let st = |t: &T| -> &'static SqlType { sql_type(t).into() };
    match t {
        T::Bool => SqlType::Bool,
        T::U(8) => SqlType::UInt8,
        T::U(16) => SqlType::UInt16,
        T::U(32) => SqlType::UInt32,
        T::U(64) => SqlType::UInt64,
        T::U(_) => SqlType::UInt128,
        T::I(8) => SqlType::Int8,
        T::I(16) => SqlType::Int16,
        T::I(32) => SqlType::Int32,
        T::I(64) => SqlType::Int64,
        T::I(_) => SqlType::Int128,
        T::F32 => SqlType::Float32,
        T::F64 => SqlType::Float64,
        T::Str => SqlType::String,
        T::Fixed(n) => SqlType::FixedString(*n),
        T::Date => SqlType::Date,
        T::DateTime(_) => SqlType::DateTime(DateTimeType::DateTime32),
        T::DateTime64(p, z) => SqlType::DateTime(DateTimeType::DateTime64(*p, tz(z))),
        T::Dec(p, s) => SqlType::Decimal(*p, *s),
        T::Enum8(v) => SqlType::Enum8(v.iter().map(|(n, x)| (n.clone(), *x as i8)).collect()),
        T::Enum16(v) => SqlType::Enum16(v.clone()),
        T::Uuid => SqlType::Uuid,
        T::Ip4 => SqlType::Ipv4,
        T::Ip6 => SqlType::Ipv6,
        T::Nullable(t) => SqlType::Nullable(st(t)),
        T::Array(t) => SqlType::Array(st(t)),
        T::Map(k, v) => SqlType::Map(st(k), st(v)),
        T::Low(t) => SqlType::LowCardinality(st(t)),
        T::Agg(f, t) => SqlType::SimpleAggregateFunction(SimpleAggFunc::from_str(f).expect("function"), st(t)),
    }
}

/// The dynamic value a user would put into a row for this cell.
pub fn to_value(t: &T, v: &V) -> Value {
    match (t, v) {
        (T::Nullable(t), V::Null) => Value::Nullable(Either::Left(sql_type(t).into())),
        (T::Nullable(t), v) => Value::Nullable(Either::Right(Box::new(to_value(t, v)))),
        (T::Bool, V::U(x)) => Value::Bool(*x != 0),
        (T::U(8), V::U(x)) => Value::UInt8(*x as u8),
        (T::U(16), V::U(x)) => Value::UInt16(*x as u16),
        (T::U(32), V::U(x)) => Value::UInt32(*x as u32),
        (T::U(64), V::U(x)) => Value::UInt64(*x as u64),
        (T::U(_), V::U(x)) => Value::UInt128(*x),
        (T::I(8), V::I(x)) => Value::Int8(*x as i8),
        (T::I(16), V::I(x)) => Value::Int16(*x as i16),
        (T::I(32), V::I(x)) => Value::Int32(*x as i32),
        (T::I(64), V::I(x)) => Value::Int64(*x as i64),
        (T::I(_), V::I(x)) => Value::Int128(*x),
        (T::F32, V::F(x)) => Value::Float32(f32::from_bits(*x as u32)),
        (T::F64, V::F(x)) => Value::Float64(f64::from_bits(*x)),
        (T::Str, V::B(x)) | (T::Fixed(_), V::B(x)) => Value::String(Arc::new(x.clone())),
        (T::Date, V::U(x)) => Value::Date(*x as u16),
        (T::DateTime(z), V::U(x)) => Value::DateTime(*x as u32, tz(z)),
        (T::DateTime64(p, z), V::I(x)) => Value::DateTime64(*x as i64, (*p, tz(z))),
        (T::Dec(_, s), V::I(x)) => Value::Decimal(Decimal::new(*x as i64, *s)),
        (T::Enum8(e), V::I(x)) => Value::Enum8(e.iter().map(|(n, x)| (n.clone(), *x as i8)).collect(), Enum8::of(*x as i8)),
        (T::Enum16(e), V::I(x)) => Value::Enum16(e.clone(), Enum16::of(*x as i16)),
        (T::Uuid, V::B(b)) => Value::Uuid(swap_uuid(b).try_into().unwrap()),
        (T::Ip4, V::U(x)) => Value::Ipv4((*x as u32).to_le_bytes()),
        (T::Ip6, V::B(b)) => Value::Ipv6(b.clone().try_into().unwrap()),
        (T::Array(t), V::A(x)) => Value::Array(sql_type(t).into(), Arc::new(x.iter().map(|v| to_value(t, v)).collect())),
        (T::Map(k, w), V::M(x)) => Value::Map(
            sql_type(k).into(),
            sql_type(w).into(),
            Arc::new(x.iter().map(|(a, b)| (to_value(k, a), to_value(w, b))).collect::<HashMap<_, _>>()),
        ),
        (T::Low(t), v) | (T::Agg(_, t), v) => to_value(t, v),
        (t, v) => panic!("no value {v:?} of type {t:?}"),
    }
}

/// Types as far as the crate's type names can tell them apart.
pub fn norm_t(t: &T) -> T {
    match t {
        T::DateTime(_) => T::DateTime(None),
        T::DateTime64(p, _) => T::DateTime64(*p, None),
        T::Nullable(t) => nullable(norm_t(t)),
        T::Array(t) => array(norm_t(t)),
        T::Map(k, v) => map(norm_t(k), norm_t(v)),
        T::Low(t) => low(norm_t(t)),
        T::Agg(f, t) => agg(f, norm_t(t)),
        t => t.clone(),
    }
}

pub fn norm_v(v: &V) -> V {
    match v {
        V::A(x) => V::A(x.iter().map(norm_v).collect()),
        V::M(x) => {
            let mut x: Vec<(V, V)> = x.iter().map(|(a, b)| (norm_v(a), norm_v(b))).collect();
            x.sort();
            V::M(x)
        }
        v => v.clone(),
    }
}

pub fn norm_b(b: &RBlock) -> RBlock {
    RBlock { cols: b.cols.iter().map(|c| col(&c.name, norm_t(&c.ty), c.vals.iter().map(norm_v).collect())).collect() }
}

/// A library block as a normalised reference block, read cell by cell.
pub fn read_block<K: ColumnType>(b: &Block<K>) -> Result<RBlock, String> {
    let mut cols = vec![];
    for (i, c) in b.columns().iter().enumerate() {
        let tn = c.sql_type().to_string();
        let ty = T::parse(&tn).ok_or_else(|| format!("type name {tn:?}"))?;
        let mut vals = vec![];
        for r in 0..b.row_count() {
            let cell: Cell = b.get(r, i).map_err(|e| format!("get({r},{i}): {e}"))?;
            vals.push(norm_v(&cell.0));
        }
        cols.push(col(c.name(), norm_t(&ty), vals));
    }
    Ok(RBlock { cols })
}

/// A block built row by row.
pub fn make_block(b: &RBlock) -> Result<Block, String> {
    let mut r = Block::new();
    for i in 0..b.rows() {
        let row: Vec<(String, Value)> = b.cols.iter().map(|c| (c.name.clone(), to_value(&c.ty, &c.vals[i]))).collect();
        r.push(row).map_err(|e| e.to_string())?;
    }
    Ok(r)
}

pub fn concat(blocks: &[RBlock]) -> RBlock {
    let Some(f) = blocks.first() else { return RBlock::default() };
    let mut r = f.clone();
    for b in &blocks[1..] {
        for (c, d) in r.cols.iter_mut().zip(&b.cols) {
            c.vals.extend_from_slice(&d.vals);
        }
    }
    r
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Server(u32, String, String, String),
    Timeout,
    Io(String),
    Conn(String),
    Driver(String),
    FromSql(String),
    Url(String),
    Other(String),
}

pub fn err(e: &Error) -> E {
    match e {
        Error::Server(s) => E::Server(s.code, s.name.clone(), s.message.clone(), s.stack_trace.clone()),
        Error::Driver(DriverError::Timeout) => E::Timeout,
        Error::Driver(d) => E::Driver(format!("{d:?}")),
        Error::Io(e) => {
            // errors travel through io::Error in places
            if let Some(i) = e.get_ref() {
                if let Some(i) = i.downcast_ref::<Error>() {
                    return err(i);
                }
            }
            E::Io(format!("{:?}", e.kind()))
        }
        Error::Connection(c) => E::Conn(c.to_string()),
        Error::Other(o) => E::Other(o.to_string()),
        Error::Url(u) => E::Url(u.to_string()),
        Error::FromSql(f) => E::FromSql(f.to_string()),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Ping,
    Check,
    Exec(String),
    Fetch(String),
    /// Read at most so many blocks, then drop the stream.
    Blocks(String, usize),
    /// Read at most so many rows, then drop the stream.
    Rows(String, usize),
    Insert(String, RBlock),
}
pub const ALL: usize = usize::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Done,
    Block(RBlock),
    /// Blocks read (zero-row blocks included), how the stream ended: None = not read to the end.
    Blocks(Vec<RBlock>, Option<Result<(), E>>),
    Rows(Vec<Vec<(String, T, V)>>, Option<Result<(), E>>),
    Err(E),
    Hang,
}

impl Out {
    pub fn is_err(&self) -> bool {
        self.error().is_some()
    }
    pub fn error(&self) -> Option<&E> {
        match self {
            Out::Err(e) | Out::Blocks(_, Some(Err(e))) | Out::Rows(_, Some(Err(e))) => Some(e),
            _ => None,
        }
    }
    /// All rows read, as one block (header lost when there are none).
    pub fn data(&self) -> Option<RBlock> {
        match self {
            Out::Block(b) => Some(b.clone()),
            Out::Blocks(b, _) => Some(concat(&b.iter().filter(|b| b.rows() > 0).cloned().collect::<Vec<_>>())),
            Out::Rows(r, _) => {
                let Some(f) = r.first() else { return Some(RBlock::default()) };
                let mut b = RBlock { cols: f.iter().map(|(n, t, _)| col(n, t.clone(), vec![])).collect() };
                for x in r {
                    for (i, (n, t, v)) in x.iter().enumerate() {
                        if b.cols.get(i).map(|c| (&c.name, &c.ty)) != Some((n, t)) {
                            return None;
                        }
                        b.cols[i].vals.push(v.clone());
                    }
                }
                Some(b)
            }
            _ => None,
        }
    }
}

pub async fn run_op(h: &mut ClientHandle, op: &Op) -> Out {
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Out::Err(err(&e)),
            }
        };
    }
    let bad = |m: String| E::Other(format!("harness: {m}"));
    match op {
        Op::Ping => {
            t!(h.ping().await);
            Out::Done
        }
        Op::Check => {
            t!(h.check_connection().await);
            Out::Done
        }
        Op::Exec(q) => {
            t!(h.execute(q.as_str()).await);
            Out::Done
        }
        Op::Fetch(q) => {
            let b = t!(h.query(q.as_str()).fetch_all().await);
            match read_block(&b) {
                Ok(b) => Out::Block(b),
                Err(m) => Out::Err(bad(m)),
            }
        }
        Op::Blocks(q, n) => {
            let mut s = h.query(q.as_str()).stream_blocks();
            let mut r = vec![];
            while r.len() < *n {
                match s.next().await {
                    None => return Out::Blocks(r, Some(Ok(()))),
                    Some(Err(e)) => return Out::Blocks(r, Some(Err(err(&e)))),
                    Some(Ok(b)) => match read_block(&b) {
                        Ok(b) => r.push(b),
                        Err(m) => return Out::Err(bad(m)),
                    },
                }
            }
            Out::Blocks(r, None)
        }
        Op::Rows(q, n) => {
            let mut s = h.query(q.as_str()).stream();
            let mut r = vec![];
            while r.len() < *n {
                match s.next().await {
                    None => return Out::Rows(r, Some(Ok(()))),
                    Some(Err(e)) => return Out::Rows(r, Some(Err(err(&e)))),
                    Some(Ok(row)) => {
                        let mut x = vec![];
                        for i in 0..row.len() {
                            let tn = t!(row.sql_type(i)).to_string();
                            let Some(ty) = T::parse(&tn) else { return Out::Err(bad(format!("type name {tn}"))) };
                            let c: Cell = t!(row.get(i));
                            x.push((t!(row.name(i)).to_string(), norm_t(&ty), norm_v(&c.0)));
                        }
                        r.push(x);
                    }
                }
            }
            Out::Rows(r, None)
        }
        Op::Insert(t, b) => {
            let b = match make_block(b) {
                Ok(b) => b,
                Err(m) => return Out::Err(bad(m)),
            };
            t!(h.insert(t.as_str(), b).await);
            Out::Done
        }
    }
}

/// Polls a future at most `n` times, then drops it.
pub async fn poll_n<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut left = n;
    std::future::poll_fn(move |cx| {
        if left == 0 {
            return std::task::Poll::Ready(None);
        }
        left -= 1;
        match f.as_mut().poll(cx) {
            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
            std::task::Poll::Pending if left == 0 => std::task::Poll::Ready(None),
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    })
    .await
}

/// An operation that ought to end within the virtual horizon.
pub async fn bounded<F: Future<Output = Out>>(f: F) -> Out {
    tokio::time::timeout(Duration::from_secs(100_000), f).await.unwrap_or(Out::Hang)
}

pub const URL: &str = "tcp://127.0.0.1:9000";

pub fn options(params: &str) -> Options {
    let url = if params.is_empty() { URL.to_string() } else { format!("{URL}?{params}") };
    Options::from_str(&url).unwrap_or_else(|e| panic!("{url}: {e}"))
}
pub fn pool(params: &str) -> Pool {
    Pool::new(options(params))
}

pub async fn get(p: &Pool) -> Result<ClientHandle, E> {
    match tokio::time::timeout(Duration::from_secs(100_000), p.get_handle()).await {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(err(&e)),
        Err(_) => Err(E::Other("harness: hang".into())),
    }
}

pub fn ms(x: u64) -> Duration {
    Duration::from_millis(x)
}

/// Answers a query: header, one block per item, end.
pub fn answer(blocks: &[RBlock], compress: bool) -> Vec<Step> {
    let mut s = vec![];
    if let Some(b) = blocks.first() {
        s.push(Step::Send(p_data(&b.header(), compress)));
    }
    for b in blocks {
        s.push(Step::Send(p_data(b, compress)));
    }
    s.push(Step::Send(p_eos()));
    s
}

/// Answers an insert: header, receive, end.
pub fn answer_insert(header: &RBlock, compress: bool) -> Vec<Step> {
    vec![Step::Send(p_data(&header.header(), compress)), Step::Recv, Step::Send(p_eos())]
}

pub fn total(steps: &[Step]) -> usize {
    steps.iter().map(|s| if let Step::Send(b) = s { b.len() } else { 0 }).sum()
}
