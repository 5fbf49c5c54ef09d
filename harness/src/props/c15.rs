//! Histories of building steps: rows, columns, clones.

use super::Prop;
use crate::{access, catalog::*, columns::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{
    types::{Column, ColumnType, Complex, RNil, Simple, Value},
    Block,
};
use futures_util::StreamExt;
use std::borrow::Cow;

pub const PROP: Prop = Prop {
    id: "C15",
    bounds: "every type of the catalogue (over 300, nestings to depth 4) x start state (empty block, rows pushed, columns from a typed constructor, block of a streamed result, concatenation of three blocks of a result, result without rows) x every sequence of 2 building steps (3 for representative types; thorough: 3 for all, 4 for representatives) on up to three blocks: push a fitting row (as a vector or as row! builder, keys in either order), push a row with a column missing, an unknown column, a column given twice, a value of another type in either column, an ill-fitting value nested inside an array or map, an empty row, clone, take over a column into a new block, add another block's column; after every step all blocks are compared cell by cell with the model, at the end also by every typed iterator and by inserting them; every type x every other value (44 kinds, and each nested one level inside) pushed into built, streamed and concatenated columns; equality of every pair of columns up to two boundary values by four origins; low-cardinality dictionaries around 256 and 65536 entries",
    assumptions: &[
        "a value which the crate could store without loss in a column of another type (text in a FixedString it fits, a timestamp in another timestamp type, a value in a nullable column, a decimal of another scale) may be stored or refused",
        "adding a column of another length panics, which reports the error (the block is consumed)",
        "the cells of a decimal or timestamp column are compared at the column's scale",
    ],
    run,
};

/// What pushing a value into a column has to do.
#[derive(Debug, Clone)]
enum Fit {
    /// Gives this cell.
    Yes(V),
    /// Gives this cell or is refused.
    Maybe(V),
    No,
}
use Fit::*;

impl Fit {
    fn weaker(self) -> Fit {
        match self {
            Yes(v) => Maybe(v),
            f => f,
        }
    }
    fn map(self, f: impl FnOnce(V) -> V) -> Fit {
        match self {
            Yes(v) => Yes(f(v)),
            Maybe(v) => Maybe(f(v)),
            No => No,
        }
    }
}

/// A value of type `t`, pushed into a column of type `c`.
fn fit(c: &T, t: &T, v: &V) -> Fit {
    match (c, t, v) {
        (T::Low(c) | T::Agg(_, c), t, v) => fit(c, t, v),
        (c, T::Low(t) | T::Agg(_, t), v) => fit(c, t, v),
        (T::Nullable(c), T::Nullable(t), V::Null) => {
            if norm_t(&super::c07::natural(c)) == norm_t(&super::c07::natural(t)) {
                Yes(V::Null)
            } else {
                Maybe(V::Null)
            }
        }
        (T::Nullable(c), T::Nullable(t), v) => fit(c, t, v),
        (T::Nullable(c), t, v) => fit(c, t, v).weaker(),
        (_, T::Nullable(_), V::Null) => No,
        (c, T::Nullable(t), v) => fit(c, t, v).weaker(),
        (T::Array(c), T::Array(t), V::A(x)) => {
            let mut r = vec![];
            let mut weak = x.is_empty() && norm_t(c) != norm_t(t);
            for v in x {
                match fit(c, t, v) {
                    Yes(v) => r.push(v),
                    Maybe(v) => {
                        weak = true;
                        r.push(v)
                    }
                    No => return No,
                }
            }
            if weak {
                Maybe(V::A(r))
            } else {
                Yes(V::A(r))
            }
        }
        (T::Map(ck, cv), T::Map(tk, tv), V::M(x)) => {
            let mut r = vec![];
            let mut weak = x.is_empty() && (norm_t(ck) != norm_t(tk) || norm_t(cv) != norm_t(tv));
            for (k, v) in x {
                let (a, b) = (fit(ck, tk, k), fit(cv, tv, v));
                weak |= matches!(a, Maybe(_)) || matches!(b, Maybe(_));
                match (a, b) {
                    (Yes(a) | Maybe(a), Yes(b) | Maybe(b)) => r.push((a, b)),
                    _ => return No,
                }
            }
            r.sort();
            if weak {
                Maybe(V::M(r))
            } else {
                Yes(V::M(r))
            }
        }
        (T::Fixed(n), T::Fixed(m), v) if n == m => Yes(v.clone()),
        (T::Fixed(n), T::Str | T::Fixed(_), V::B(b)) => {
            if b.len() == *n {
                Yes(v.clone())
            } else if b.len() < *n {
                let mut b = b.clone();
                b.resize(*n, 0);
                Maybe(V::B(b))
            } else {
                No
            }
        }
        (T::Str, T::Fixed(_) | T::Str, v) => Yes(v.clone()),
        (T::Dec(p, s), T::Dec(_, s2), V::I(x)) => {
            let y = if s >= s2 { x * 10i128.pow((s - s2) as u32) } else { x / 10i128.pow((s2 - s) as u32) };
            let ok = if *p <= 9 { i32::try_from(y).is_ok() } else { i64::try_from(y).is_ok() };
            match ok {
                true if s == s2 => Yes(V::I(y)),
                true => Maybe(V::I(y)),
                false => No,
            }
        }
        (T::DateTime(_), T::DateTime(_), v) => Yes(v.clone()),
        (T::DateTime64(p, _), T::DateTime64(q, _), v) if p == q => Yes(v.clone()),
        (T::DateTime64(p, _), T::DateTime64(..) | T::DateTime(_), v) => {
            let (x, q) = match (t, v) {
                (T::DateTime64(q, _), V::I(x)) => (*x, *q),
                (_, V::U(x)) => (*x as i128, 0),
                _ => unreachable!(),
            };
            let y = if *p >= q { x * 10i128.pow(p - q) } else { x.div_euclid(10i128.pow(q - p)) };
            if i64::try_from(y).is_ok() {
                Maybe(V::I(y))
            } else {
                No
            }
        }
        (T::DateTime(_), T::DateTime64(q, _), V::I(x)) => {
            let y = x.div_euclid(10i128.pow(*q));
            if u32::try_from(y).is_ok() {
                Maybe(V::U(y as u128))
            } else {
                // A column of the crate's own times takes any time.
                Maybe(V::I(y))
            }
        }
        (T::Enum8(a), T::Enum8(b), v) => if a == b { Yes(v.clone()) } else { Maybe(v.clone()) },
        (T::Enum16(a), T::Enum16(b), v) => if a == b { Yes(v.clone()) } else { Maybe(v.clone()) },
        (c, t, v) if c == t => Yes(v.clone()),
        _ => No,
    }
    .map(|v| norm_v(&v))
}

/// Values of all kinds, to be pushed where they may not fit.
fn kinds() -> Vec<(T, V)> {
    let nul = |t| (nullable(t), V::Null);
    vec![
        (T::Bool, V::U(1)),
        (T::U(8), V::U(1)),
        (T::U(16), V::U(2)),
        (T::U(32), V::U(3)),
        (T::U(64), V::U(4)),
        (T::U(128), V::U(5)),
        (T::I(8), V::I(-1)),
        (T::I(16), V::I(-2)),
        (T::I(32), V::I(-3)),
        (T::I(64), V::I(-4)),
        (T::I(128), V::I(-5)),
        (T::F32, V::F(1.5f32.to_bits() as u64)),
        (T::F64, V::F(1.5f64.to_bits())),
        (T::Str, s("ab")),
        (T::Str, s("abc")),
        (T::Str, s("abcdefgh")),
        (T::Date, V::U(18000)),
        (T::DateTime(None), V::U(1_600_000_000)),
        (T::DateTime64(0, None), V::I(-1)),
        (T::DateTime64(3, None), V::I(1_600_000_000_123)),
        (T::DateTime64(3, None), V::I(16_000_000_000_123)),
        (T::DateTime64(9, None), V::I(1_600_000_000_123_456_789)),
        (T::Dec(18, 2), V::I(314)),
        (T::Dec(18, 2), V::I(10i128.pow(14) + 1)),
        (T::Dec(18, 18), V::I(10i128.pow(17) + 1)),
        (T::Enum8(vec![]), V::I(1)),
        (T::Enum16(vec![]), V::I(300)),
        (T::Uuid, V::B((1..17).collect())),
        (T::Ip4, V::U(0x0102_0304)),
        (T::Ip6, V::B((1..17).collect())),
        nul(T::U(8)),
        nul(T::Str),
        nul(array(T::U(8))),
        (nullable(T::U(8)), V::U(7)),
        (nullable(T::Str), s("n")),
        (array(T::U(8)), V::A(vec![V::U(1)])),
        (array(T::U(8)), V::A(vec![])),
        (array(T::Str), V::A(vec![s("q"), s("r")])),
        (array(array(T::Str)), V::A(vec![V::A(vec![s("q")]), V::A(vec![])])),
        (array(nullable(T::Str)), V::A(vec![V::Null])),
        (map(T::Str, T::U(8)), V::M(vec![(s("k"), V::U(1))])),
        (map(T::Str, T::U(8)), V::M(vec![])),
        (map(T::U(16), T::Str), V::M(vec![(V::U(1), s("v"))])),
        (map(T::Str, array(T::Str)), V::M(vec![(s("k"), V::A(vec![s("v")]))])),
    ]
}

/// Values offered to a column whose proper values are of type `t`: as they are, and where `t` has an inside, inside
/// of it next to proper ones. The last part says what the column (of type `c`) has to do.
fn offers(c: &T, t: &T) -> Vec<(String, Value, Fit)> {
    let mut r = vec![];
    for (kt, kv) in kinds() {
        r.push((format!("{kv:?} of {}", kt.name()), to_value(&kt, &kv), fit(c, &kt, &kv)));
    }
    let inside = |c: &T, t: &T| -> Option<(T, T)> {
        match (strip(c), strip(t)) {
            (T::Array(c), T::Array(t)) => Some((*c, *t)),
            _ => None,
        }
    };
    if let Some((ci, ti)) = inside(c, t) {
        let good = values(&ti)[1].clone();
        let (Yes(g) | Maybe(g)) = fit(&ci, &ti, &good) else { return r };
        for (kt, kv) in kinds() {
            let x = Value::Array(sql_type(&ti).into(), vec![to_value(&ti, &good), to_value(&kt, &kv)].into());
            r.push((format!("an array with {kv:?} of {}", kt.name()), x, fit(&ci, &kt, &kv).map(|v| V::A(vec![norm_v(&g), v])).weaker()));
        }
    }
    if let (T::Map(ck, cv), T::Map(tk, tv)) = (strip(c), strip(t)) {
        let (gk, gv) = (values(&tk)[1].clone(), values(&tv)[1].clone());
        let (Yes(fk) | Maybe(fk), Yes(fv) | Maybe(fv)) = (fit(&ck, &tk, &gk), fit(&cv, &tv, &gv)) else { return r };
        for (kt, kv) in kinds() {
            let mk = |k, v| Value::Map(sql_type(&tk).into(), sql_type(&tv).into(), std::sync::Arc::new([(k, v)].into()));
            r.push((format!("a map with value {kv:?} of {}", kt.name()), mk(to_value(&tk, &gk), to_value(&kt, &kv)), fit(&cv, &kt, &kv).map(|v| V::M(vec![(norm_v(&fk), v)])).weaker()));
            r.push((format!("a map with key {kv:?} of {}", kt.name()), mk(to_value(&kt, &kv), to_value(&tv, &gv)), fit(&ck, &kt, &kv).map(|k| V::M(vec![(k, norm_v(&fv))])).weaker()));
        }
    }
    r
}
fn strip(t: &T) -> T {
    match t {
        T::Low(t) | T::Agg(_, t) => strip(t),
        t => t.clone(),
    }
}

/// What a block should hold.
#[derive(Clone)]
struct Model {
    /// Types as the crate names them.
    b: RBlock,
    /// Types of the values to push.
    src: Vec<T>,
}

/// Whether the value is a time out of the range of its type.
fn unstorable(t: &T, v: &V) -> bool {
    match (t, v) {
        (T::DateTime(_), V::I(_)) => true,
        (T::Nullable(t) | T::Low(t) | T::Agg(_, t), v) => unstorable(t, v),
        (T::Array(t), V::A(x)) => x.iter().any(|v| unstorable(t, v)),
        (T::Map(k, t), V::M(x)) => x.iter().any(|(a, b)| unstorable(k, a) || unstorable(t, b)),
        _ => false,
    }
}

fn desc(b: &RBlock) -> String {
    b.cols.iter().map(|c| format!("{} {} {:?}", c.name, c.ty.name(), c.vals)).collect::<Vec<_>>().join(", ")
}

fn compare<K: ColumnType>(b: &Block<K>, m: &Model, after: &str) -> Result<(), Fail> {
    let want = norm_b(&m.b);
    let key = || format!("{after}: {}", m.src.last().map(|t| t.name()).unwrap_or_default());
    let got = match guard(|| read_block(b)) {
        Ok(Ok(g)) => g,
        e => return fail(key(), format!("after {after} a block cannot be read ({:?}); it should hold {}", e.map(|e| e.err()), desc(&want))),
    };
    if got != want || b.row_count() != want.rows() || b.column_count() != want.cols.len() {
        return fail(key(), format!("after {after} a block holds {}; it should hold {}", desc(&got), desc(&want)));
    }
    for i in 0..b.column_count() {
        if !matches!(guard(|| b.get::<Cell, _>(want.rows(), i).is_err()), Ok(true)) {
            return fail(key(), format!("after {after} column {i} has more than {} rows; the block should hold {}", want.rows(), desc(&want)));
        }
    }
    if b.rows().count() != want.rows() {
        return fail(key(), format!("after {after}: rows() gives {} rows of {}", b.rows().count(), want.rows()));
    }
    Ok(())
}

/// A row in one of its styles.
fn push<K: ColumnType>(b: &mut Block<K>, row: &[(String, Value)], builder: bool) -> Result<Result<(), String>, String> {
    let k = |i: usize| -> (Cow<'static, str>, Value) { (row[i].0.clone().into(), row[i].1.clone()) };
    guard(|| {
        let n = row.len();
        let r = match n {
            _ if !builder => b.push(row.to_vec()),
            0 => b.push(RNil),
            1 => b.push(RNil.put(k(0).0, k(0).1)),
            2 => b.push(RNil.put(k(1).0, k(1).1).put(k(0).0, k(0).1)),
            3 => b.push(RNil.put(k(2).0, k(2).1).put(k(1).0, k(1).1).put(k(0).0, k(0).1)),
            4 => b.push(RNil.put(k(3).0, k(3).1).put(k(2).0, k(2).1).put(k(1).0, k(1).1).put(k(0).0, k(0).1)),
            _ => b.push(row.to_vec()),
        };
        r.map_err(|e| e.to_string())
    })
}

fn val(t: &T, i: usize) -> V {
    let v = values(t);
    v[i % v.len()].clone()
}
/// A fitting row and the cells it gives.
fn good_row(m: &Model, i: usize) -> (Vec<(String, Value)>, Vec<V>) {
    let mut row = vec![];
    let mut cells = vec![];
    for (c, t) in m.b.cols.iter().zip(&m.src) {
        let v = val(t, i);
        row.push((c.name.clone(), to_value(t, &v)));
        cells.push(match fit(&c.ty, t, &v) {
            Yes(v) | Maybe(v) => v,
            No => panic!("{v:?} of {t:?} is no row for {:?}", c.ty),
        });
    }
    (row, cells)
}

struct State<K: ColumnType> {
    bs: Vec<(Block<K>, Model)>,
    t: T,
}

impl<K: ColumnType + Default> State<K> {
    fn check(&self, after: &str) -> Result<(), Fail> {
        for (b, m) in &self.bs {
            compare(b, m, after)?;
        }
        Ok(())
    }

    /// Takes over the types the crate gave to columns it has just made.
    fn adopt(&mut self, i: usize) -> Result<(), Fail> {
        let (b, m) = &mut self.bs[i];
        for (j, c) in b.columns().iter().enumerate().take(m.b.cols.len()) {
            let n = c.sql_type().to_string();
            match T::parse(&n) {
                Some(t) => m.b.cols[j].ty = t,
                None => return fail("type", format!("a column made of a value of type {} has type {n}", m.src[j].name())),
            }
        }
        Ok(())
    }

    fn push_good(&mut self, i: usize, v: usize, builder: bool, rev: bool) -> Result<(), Fail> {
        let what = if builder { "pushing a row!" } else { "pushing a row" };
        let fresh = self.bs[i].1.b.cols.is_empty();
        if fresh {
            let t = self.t.clone();
            let m = &mut self.bs[i].1;
            m.b.cols = vec![col("k", T::U(8), vec![]), col("x", super::c07::natural(&t), vec![])];
            m.src = vec![T::U(8), t];
            if rev {
                m.b.cols.reverse();
                m.src.reverse();
            }
        }
        let (mut row, cells) = good_row(&self.bs[i].1, v);
        if rev && !fresh {
            row.reverse();
        }
        let r = push(&mut self.bs[i].0, &row, builder);
        if !matches!(r, Ok(Ok(()))) {
            return fail(format!("{what} of {}", self.t.name()), format!("{what} {row:?} that fits the block ({}) gives {r:?}", desc(&self.bs[i].1.b)));
        }
        for (c, v) in self.bs[i].1.b.cols.iter_mut().zip(cells) {
            c.vals.push(v);
        }
        if fresh {
            self.adopt(i)?;
        }
        Ok(())
    }

    /// Pushes a row that does not fit.
    fn push_bad(&mut self, i: usize, row: &[(String, Value)], builder: bool, why: &str) -> Result<(), Fail> {
        match push(&mut self.bs[i].0, row, builder) {
            Ok(Err(_)) => Ok(()),
            r => fail(format!("row with {why}: {}", self.t.name()), format!("pushing {row:?} ({why}) to a block of {} gives {r:?} instead of an error", desc(&self.bs[i].1.b))),
        }
    }

    fn step(&mut self, ch: &Ch) -> Result<(), Fail> {
        let i = ch.choose(self.bs.len());
        let m = self.bs[i].1.clone();
        let (rows, cols) = (m.b.rows(), m.b.cols.len());
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Row(usize, bool, bool),
            Missing(bool),
            Unknown(bool),
            Twice(bool),
            Wrong(usize, bool),
            WrongInside,
            Empty(bool),
            Clone,
            Take,
            Add,
        }
        let mut ops = vec![Op::Row(1, false, false), Op::Row(2, true, true), Op::Empty(false), Op::Empty(true)];
        if cols > 0 {
            ops.extend([Op::Missing(true), Op::Missing(false), Op::Twice(true), Op::Twice(false)]);
            ops.extend([Op::Wrong(cols - 1, false), Op::Wrong(0, true)]);
            if rows > 0 {
                ops.extend([Op::Unknown(false), Op::Unknown(true)]);
            }
            if matches!(strip(&m.src[cols - 1]), T::Array(_) | T::Map(..)) {
                ops.push(Op::WrongInside);
            }
            if !m.b.cols.iter().any(|c| c.name == "y") && cols < 3 {
                ops.push(Op::Add);
            }
            if self.bs.len() < 3 {
                ops.push(Op::Take);
            }
        }
        if self.bs.len() < 3 {
            ops.push(Op::Clone);
        }
        let op = *ch.pick(&ops);
        ch.note(format!("block {i}: {op:?}"));
        let after;
        match op {
            Op::Row(v, builder, rev) => {
                after = "pushing a row";
                self.push_good(i, v, builder, rev)?;
            }
            Op::Missing(last) => {
                after = "a refused row";
                let (mut row, _) = good_row(&m, 1);
                row.remove(if last { cols - 1 } else { 0 });
                if !row.is_empty() {
                    self.push_bad(i, &row, last, "a column missing")?;
                }
            }
            Op::Unknown(first) => {
                after = "a refused row";
                let (mut row, _) = good_row(&m, 1);
                row.insert(if first { 0 } else { cols }, ("zz".into(), Value::UInt8(1)));
                self.push_bad(i, &row, first, "an unknown column")?;
            }
            Op::Twice(first) => {
                after = "a refused row";
                let (mut row, _) = good_row(&m, 1);
                let x = row[if first { 0 } else { cols - 1 }].clone();
                row.push(x);
                self.push_bad(i, &row, first, "a column given twice")?;
            }
            Op::Wrong(j, builder) => {
                after = "a refused row";
                let (mut row, _) = good_row(&m, 1);
                let o = offers(&m.b.cols[j].ty, &m.src[j]);
                let o = o.iter().find(|o| matches!(o.2, No)).unwrap();
                row[j].1 = o.1.clone();
                self.push_bad(i, &row, builder, "a value of another type")?;
            }
            Op::WrongInside => {
                after = "a refused row";
                let (mut row, _) = good_row(&m, 1);
                let o = offers(&m.b.cols[cols - 1].ty, &m.src[cols - 1]);
                if let Some(o) = o.iter().find(|o| matches!(o.2, No) && (o.0.starts_with("an array") || o.0.starts_with("a map"))) {
                    row[cols - 1].1 = o.1.clone();
                    self.push_bad(i, &row, false, "a value of another type inside")?;
                }
            }
            Op::Empty(builder) => {
                after = "pushing a row without columns";
                if let Err(p) = push(&mut self.bs[i].0, &[], builder) {
                    return fail("empty row", format!("pushing an empty row to {} panics: {p}", desc(&m.b)));
                }
            }
            Op::Clone => {
                after = "cloning";
                let b = self.bs[i].0.clone();
                self.bs.push((b, m));
            }
            Op::Take => {
                after = "taking a column";
                let j = cols - 1;
                let b = Block::<K>::default().column("x", self.bs[i].0.columns()[j].clone());
                let mut c = m.b.cols[j].clone();
                c.name = "x".into();
                self.bs.push((b, Model { b: RBlock::new(vec![c]), src: vec![m.src[j].clone()] }));
            }
            Op::Add => {
                after = "adding a column";
                let (b, m0) = &self.bs[0];
                let j = m0.b.cols.len();
                if j == 0 || m0.b.rows() != rows {
                    // lengths differ: C15 leaves the block consumed
                    let c: Column<K> = if j == 0 { return Ok(()) } else { b.columns()[j - 1].clone() };
                    let b = self.bs[i].0.clone();
                    if guard(|| b.column("y", c)).is_ok() {
                        return fail("column of another length", format!("a column of {} rows was added to a block of {rows}", m0.b.rows()));
                    }
                } else {
                    let c = b.columns()[j - 1].clone();
                    let mut r = m0.b.cols[j - 1].clone();
                    let src = m0.src[j - 1].clone();
                    r.name = "y".into();
                    let b = std::mem::take(&mut self.bs[i].0);
                    let Ok(b) = guard(|| b.column("y", c)) else { return fail("adding a column", "adding a column of the same length panics") };
                    self.bs[i].0 = b;
                    self.bs[i].1.b.cols.push(r);
                    self.bs[i].1.src.push(src);
                }
            }
        }
        self.check(after)
    }
}

/// Simple blocks made of the columns.
fn to_simple<K: ColumnType>(b: &Block<K>) -> Block {
    b.columns().iter().fold(Block::new(), |r, c| r.column(c.name(), c.clone()))
}

/// At the end: the typed iterators and the server see the same cells.
fn finale<K: ColumnType>(s: &State<K>) -> Result<(), Fail> {
    for (b, m) in &s.bs {
        let b = to_simple(b);
        for (i, c) in m.b.cols.iter().enumerate() {
            let mut out = vec![];
            access::iters_simple(&b.columns()[i], &c.ty, &mut out);
            for r in out {
                match &r.vals {
                    Err(p) => return fail(format!("{} of {}", r.name, c.ty.name()), format!("{} over {} panics: {p}", r.name, desc(&m.b))),
                    Ok(Ok(v)) => {
                        let (v, w): (Vec<V>, Vec<V>) = (v.iter().map(norm_v).collect(), c.vals.iter().map(norm_v).collect());
                        if v != w {
                            return fail(format!("{} of {}", r.name, c.ty.name()), format!("{} over a column gives {v:?}, the cells are {w:?}", r.name));
                        }
                    }
                    Ok(Err(_)) => {}
                }
            }
        }
    }
    let send: Vec<(Block, RBlock)> = s.bs.iter().filter(|(_, m)| !m.b.cols.is_empty()).map(|(b, m)| (to_simple(b), norm_b(&m.b))).collect();
    // Times which a DateTime of the server cannot store are refused.
    let refused: Vec<bool> = send.iter().map(|(_, m)| m.cols.iter().any(|c| c.vals.iter().any(|v| unstorable(&c.ty, v)))).collect();
    let heads: Vec<RBlock> = s.bs.iter().filter(|(_, m)| !m.b.cols.is_empty()).map(|(_, m)| m.b.header()).collect();
    let w = World::new(Box::new(move |_, q| {
        let i: usize = q.sql.bytes().filter(u8::is_ascii_digit).fold(0, |a, b| a * 10 + (b - b'0') as usize);
        answer_insert(&heads[i.min(heads.len() - 1)], false)
    }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let mut h = get(&pool("")).await.map_err(|e| format!("{e:?}"))?;
            for (i, (b, _)) in send.iter().enumerate() {
                let r = h.insert(format!("t{i}"), b.clone()).await;
                match (r, refused[i]) {
                    (Ok(()), true) => return Err(format!("block {i} holds times which are out of range, inserting it is an error")),
                    (Err(e), false) => return Err(e.to_string()),
                    _ => {}
                }
            }
            Ok::<_, String>(())
        })
    });
    if !matches!(r, Ok(Some(Ok(())))) {
        return fail(format!("insert of {}", s.t.name()), format!("inserting {:?}: {r:?}", send.iter().map(|x| desc(&x.1)).collect::<Vec<_>>()));
    }
    if let Some(bad) = w.bad() {
        return fail(format!("insert of {}", s.t.name()), format!("inserting {:?}: the server cannot read it: {bad}", send.iter().map(|x| desc(&x.1)).collect::<Vec<_>>()));
    }
    for (_, sql, got) in w.exchanges().iter() {
        let i: usize = sql.bytes().skip_while(|b| !b.is_ascii_digit()).take_while(u8::is_ascii_digit).fold(0, |a, b| a * 10 + (b - b'0') as usize);
        let want = &send[i].1;
        if refused[i] {
            continue;
        }
        let got = norm_b(&concat(&got.iter().filter(|b| !b.cols.is_empty()).cloned().collect::<Vec<_>>()));
        if got != *want && !(got.cols.is_empty() && want.rows() == 0) {
            return fail(format!("insert of {}", s.t.name()), format!("{sql}: the server received {}, the block holds {}", desc(&got), desc(want)));
        }
    }
    Ok(())
}

fn fetched(blocks: &[RBlock]) -> Result<Block<Complex>, Fail> {
    let st = answer(blocks, false);
    World::new(Box::new(move |_, _| st.clone())).install();
    match block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.query("S").fetch_all().await.map_err(|e| e.to_string()) }) {
        Some(Ok(b)) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.err()))),
    }
}
fn streamed(block: &RBlock) -> Result<Block, Fail> {
    let st = answer(&[block.clone()], false);
    World::new(Box::new(move |_, _| st.clone())).install();
    let r = block_on(async {
        let mut h = get(&pool("")).await.map_err(|e| format!("{e:?}"))?;
        let mut s = h.query("S").stream_blocks();
        let mut last = None;
        while let Some(b) = s.next().await {
            last = Some(b.map_err(|e| e.to_string())?);
        }
        last.ok_or_else(|| "no block".to_string())
    });
    match r {
        Some(Ok(b)) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.err()))),
    }
}

const STARTS: [&str; 6] = ["an empty block", "pushed rows", "typed columns", "a streamed block", "a result of several blocks", "a result without rows"];
enum Start {
    Simple(State<Simple>),
    Complex(State<Complex>),
}

fn rb(t: &T, vals: &[V]) -> RBlock {
    RBlock::new(vec![col("k", T::U(8), (0..vals.len()).map(|i| V::U(i as u128)).collect()), col("x", t.clone(), vals.to_vec())])
}

/// None: the start state does not exist for this type.
fn start(t: &T, how: usize) -> Result<Option<Start>, Fail> {
    let vs = values(t);
    let src = vec![T::U(8), t.clone()];
    let model = |vals: &[V]| Model { b: rb(t, vals), src: src.clone() };
    Ok(Some(match how {
        0 => Start::Simple(State { bs: vec![(Block::new(), Model { b: RBlock::default(), src: vec![] })], t: t.clone() }),
        1 => {
            let mut s = State { bs: vec![(Block::with_capacity(2), Model { b: RBlock::default(), src: vec![] })], t: t.clone() };
            s.push_good(0, 0, false, false)?;
            s.push_good(0, 1, true, false)?;
            s.check("pushing rows")?;
            Start::Simple(s)
        }
        2 => {
            let vals = vec![vs[0].clone(), vs[2 % vs.len()].clone()];
            let ws = ways(t, &vals);
            let Some(w) = ws.first() else { return Ok(None) };
            let Ok(b) = guard(|| (w.add)(Block::new())) else { return Ok(None) }; // C07
            let b = Block::new().column("k", vec![0u8, 1]).column("x", b.columns()[0].clone());
            let mut s = State { bs: vec![(b, model(&vals))], t: t.clone() };
            // Vec<Enum8>: an enum without names, which only an insert gives them (C07)
            if s.bs[0].0.columns()[1].sql_type().to_string().contains("Enum8()") || s.bs[0].0.columns()[1].sql_type().to_string().contains("Enum16()") {
                return Ok(None);
            }
            s.adopt(0)?;
            // a constructor that stands for another type: C07
            if !norm_v_eq(&s.bs[0].1.b.cols[1].ty, t) {
                return Ok(None);
            }
            s.check("adding columns")?;
            Start::Simple(s)
        }
        3 => {
            let m = model(&[vs[0].clone(), vs[1 % vs.len()].clone()]);
            Start::Simple(State { bs: vec![(streamed(&m.b)?, m)], t: t.clone() })
        }
        4 => {
            let vals: Vec<V> = (0..3).map(|i| vs[i % vs.len()].clone()).collect();
            let m = model(&vals);
            let b = fetched(&[m.b.slice(0, 2), m.b.slice(0, 0), m.b.slice(2, 3)])?;
            Start::Complex(State { bs: vec![(b, m)], t: t.clone() })
        }
        _ => {
            let m = model(&[]);
            let b = fetched(&[m.b.clone()])?;
            if b.column_count() == 0 {
                return Ok(None);
            }
            Start::Complex(State { bs: vec![(b, m)], t: t.clone() })
        }
    }))
}
fn norm_v_eq(c: &T, t: &T) -> bool {
    let f = |t: &T| match super::c07::natural(t) {
        T::Enum8(_) => T::Enum8(vec![]),
        T::Enum16(_) => T::Enum16(vec![]),
        T::Nullable(t) => match *t {
            T::Enum8(_) => nullable(T::Enum8(vec![])),
            T::Enum16(_) => nullable(T::Enum16(vec![])),
            T::Dec(_, s) => nullable(T::Dec(18, s)),
            T::Fixed(_) => nullable(T::Str),
            t => nullable(t),
        },
        t => t,
    };
    norm_t(&f(c)) == norm_t(&f(t))
}

fn history<K: ColumnType + Default>(ch: &Ch, mut s: State<K>, depth: usize) -> Result<Obs, Fail> {
    s.check("building the start state")?;
    for _ in 0..depth {
        s.step(ch)?;
    }
    finale(&s)?;
    // a last row for every block shows what they still share
    for i in 0..s.bs.len() {
        s.push_good(i, 3 + i, false, false)?;
    }
    s.check("pushing a row to each block")?;
    obs_n(&(s.t.name(), s.bs.iter().map(|(_, m)| m.b.clone()).collect::<Vec<_>>()), (depth + 3) as u64)
}

fn histories(ch: &Ch, types: &[T], depth: usize) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let how = ch.choose(STARTS.len());
    ch.note(format!("{}, starting with {}", t.name(), STARTS[how]));
    match start(t, how)? {
        None => obs(&0),
        Some(Start::Simple(s)) => history(ch, s, depth),
        Some(Start::Complex(s)) => history(ch, s, depth),
    }
}

/// Every kind of value offered to every column.
fn misfits(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    fn go<K: ColumnType + Default>(ch: &Ch, mut s: State<K>) -> Result<Obs, Fail> {
        let m = s.bs[0].1.clone();
        let os = offers(&m.b.cols[1].ty, &m.src[1]);
        let (what, v, f) = ch.pick(&os).clone();
        let copy = s.bs[0].0.clone();
        s.bs.push((copy, m.clone()));
        ch.note(format!("pushing {what}: {f:?}"));
        let (mut row, cells) = good_row(&m, 0);
        row[1].1 = v;
        let r = push(&mut s.bs[0].0, &row, false);
        let add = |s: &mut State<K>, v: V| {
            let c = &mut s.bs[0].1.b.cols;
            c[0].vals.push(cells[0].clone());
            c[1].vals.push(v);
        };
        match (r, f) {
            (Ok(Ok(())), Yes(v) | Maybe(v)) => add(&mut s, v),
            (Ok(Err(_)), No | Maybe(_)) => {}
            (r, f) => return fail(format!("pushing {what} to {}", s.t.name()), format!("pushing {what} to a column of type {} gives {r:?}, expected {f:?}", m.b.cols[1].ty.name())),
        }
        s.check("offering a value of another type")?;
        for i in 0..2 {
            s.push_good(i, 1 + i, i == 0, false)?;
        }
        s.check("pushing a row after a value of another type")?;
        finale(&s)?;
        obs_n(&(s.t.name(), what), 4)
    }
    let t = ch.pick(types);
    let how = [1, 3, 4][ch.choose(3)];
    ch.note(format!("{}, starting with {}", t.name(), STARTS[how]));
    match start(t, how)? {
        None => obs(&0),
        Some(Start::Simple(s)) => go(ch, s),
        Some(Start::Complex(s)) => go(ch, s),
    }
}

/// Blocks are equal exactly if their cells are.
fn equality(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    fn zero(v: &V, t: &T) -> V {
        match (t, v) {
            (T::F32, V::F(0x8000_0000)) | (T::F64, V::F(0x8000_0000_0000_0000)) => V::F(0),
            (T::Nullable(t) | T::Low(t) | T::Agg(_, t), v) => zero(v, t),
            (T::Array(t), V::A(x)) => V::A(x.iter().map(|v| zero(v, t)).collect()),
            (T::Map(k, w), V::M(x)) => V::M(x.iter().map(|(a, b)| (zero(a, k), zero(b, w))).collect()),
            (_, v) => v.clone(),
        }
    }
    let t = ch.pick(types);
    let vs = values(t);
    let n = vs.len().min(8);
    // a list of up to two values each
    let list = |ch: &Ch| -> Vec<V> {
        match ch.choose(3) {
            0 => vec![],
            1 => vec![vs[ch.choose(n)].clone()],
            _ => vec![vs[ch.choose(2.min(n))].clone(), vs[ch.choose(n)].clone()],
        }
    };
    let (a, b) = (list(ch), list(ch));
    ch.note(format!("{} {a:?} and {b:?}", t.name()));
    let same = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| norm_v(&zero(x, t)) == norm_v(&zero(y, t)));
    enum B {
        S(Block),
        C(Block<Complex>),
    }
    let origins = |v: &[V]| -> Result<Vec<(&'static str, B)>, Fail> {
        let m = rb(t, v);
        let mut r = vec![];
        let c = fetched(&[m.clone()])?;
        if c.column_count() > 0 {
            r.push(("a result", B::C(c.clone())));
            r.push(("a clone", B::C(c)));
        }
        if v.len() > 1 {
            r.push(("a result of several blocks", B::C(fetched(&[m.slice(0, 1), m.slice(1, v.len())])?)));
        }
        if !v.is_empty() {
            r.push(("a streamed block", B::S(streamed(&m)?)));
        }
        Ok(r)
    };
    let (x, y) = (origins(&a)?, origins(&b)?);
    let mut k = 0;
    for (na, p) in &x {
        for (nb, q) in &y {
            let r = guard(|| match (p, q) {
                (B::S(p), B::S(q)) => (p == q, q == p),
                (B::S(p), B::C(q)) => (p == q, q == p),
                (B::C(p), B::S(q)) => (p == q, q == p),
                (B::C(p), B::C(q)) => (p == q, q == p),
            });
            k += 1;
            if r != Ok((same, same)) {
                return fail(format!("equality of {}", t.name()), format!("comparing {na} with {a:?} and {nb} with {b:?} (type {}) gives {r:?}, they are {}", t.name(), if same { "equal" } else { "different" }));
            }
        }
    }
    // other columns in front and behind count as well
    let (x, y) = (fetched(&[rb(t, &a)])?, fetched(&[rb(t, &b)])?);
    if x.column_count() > 0 && y.column_count() > 0 {
        let less = Block::<Complex>::default().column("k", x.columns()[0].clone());
        if guard(|| less == y || y == less) != Ok(false) {
            return fail("equality", "blocks with one and two columns are equal");
        }
        let twice = |b: &Block<Complex>, c: &Block<Complex>| guard(|| Block::<Complex>::default().column("a", b.columns()[1].clone()).column("b", c.columns()[1].clone()));
        if let (Ok(p), Ok(q)) = (twice(&x, &x), twice(&x, &y)) {
            if guard(|| p == q) != Ok(same) {
                return fail(format!("equality of {}", t.name()), format!("blocks that differ in the second column only ({a:?}, {b:?}): == gives {:?}", guard(|| p == q)));
            }
        }
    }
    obs_n(&(t, a, b), k)
}

/// Low-cardinality dictionaries around the sizes where the index grows.
fn dictionaries(ch: &Ch, big: bool) -> Result<Obs, Fail> {
    let null = ch.flag();
    let received = ch.flag();
    let sizes: &[usize] = if big {
        &[1, 126, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537]
    } else {
        &[1, 126, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 65530, 65532, 65534, 65536]
    };
    let n = *ch.pick(sizes);
    // rows: all of the dictionary, or few
    let few = ch.flag();
    ch.note(format!("nullable={null} received={received} dictionary of {n}, few={few}"));
    let t = low(if null { nullable(T::Str) } else { T::Str });
    let name = |i: usize| s(&format!("v{i}"));
    let mut vals: Vec<V> = if few { vec![name(0), name(1)] } else { (0..n).map(name).collect() };
    if null {
        vals.insert(1, V::Null);
    }
    let b = if received {
        LOW_EXTRA.with(|e| e.set(if few { n } else { 0 }));
        let b = streamed(&RBlock::new(vec![col("x", t.clone(), vals.clone())]));
        LOW_EXTRA.with(|e| e.set(0));
        b?
    } else {
        let e = streamed(&RBlock::new(vec![col("x", t.clone(), vals[..1].to_vec())]))?;
        let mut b = e;
        for v in &vals[1..] {
            if let Err(e) = b.push(vec![("x".to_string(), to_value(&t, v))]) {
                return fail("low cardinality", format!("pushing {v:?}: {e}"));
            }
        }
        b
    };
    let m = Model { b: RBlock::new(vec![col("x", t.clone(), vals)]), src: vec![t.clone()] };
    let mut st = State { bs: vec![(b.clone(), m.clone()), (b, m)], t };
    // new values on the clone, known and new ones alternating
    for i in 0..6usize {
        let v = if null && i == 3 {
            V::Null
        } else if i % 2 == 0 {
            s(&format!("new{i}"))
        } else {
            name(0)
        };
        let x = to_value(&st.t, &v);
        let r = push(&mut st.bs[1].0, &[("x".to_string(), x)], i % 2 == 0);
        if r != Ok(Ok(())) {
            return fail("low cardinality", format!("pushing {v:?} to a dictionary of {n}: {r:?}"));
        }
        st.bs[1].1.b.cols[0].vals.push(v);
    }
    st.check("pushing to a low-cardinality column")?;
    finale(&st)?;
    obs_n(&(n, null, received, few), 3)
}

fn run(cx: &mut Ctx) {
    let all = all_types();
    let few = vec![T::U(8), T::Str, T::Fixed(3), nullable(T::Str), array(nullable(T::U(16))), map(T::Str, array(T::Str)), low(nullable(T::Str)), agg("any", low(T::Str)), T::Dec(9, 2), T::DateTime64(3, None), enum8()];
    let th = cx.thorough;
    cx.explore("misfits", |ch| misfits(ch, &all));
    cx.explore("equality", |ch| equality(ch, &all));
    cx.explore("dictionaries", |ch| dictionaries(ch, th));
    let (a, b) = cx.pick((2, 3), (3, 4));
    cx.explore("histories", |ch| histories(ch, &all, a));
    cx.explore("deep", |ch| histories(ch, &few, b));
}
