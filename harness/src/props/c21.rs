//! Decimals against arithmetic on whole numbers of 128 bits.

use super::Prop;
use crate::{explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{
    types::{Decimal, FromSql, FromSqlResult, Value, ValueRef},
    Block,
};
use futures_util::StreamExt;
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

pub const PROP: Prop = Prop {
    id: "C21",
    bounds: "underlying numbers: 0, 1, 5, 9, 10, 11, 10^k-1, 10^k, 10^k+1 for k to 18, the ends of 32 and 64 bits and of 2^24 and 2^53, what lies next to the ends after rescaling, both signs; every scale 0-18; every pair of (number, scale) compared and hashed; every integer type's and float type's boundary values at every scale; every Decimal(P, S) with P to 18, S to P read, plain, nullable, in arrays and in maps, in one or several blocks, through cells, iterators and displays; every source scale into every Decimal(P, S) by insert of vectors, options, rows, arrays and fetched columns, by push to a fetched block, and through two conversions in a row",
    assumptions: &[
        "a smaller scale cuts digits off; a value has to fit the 32 or 64 bits of the column, the server checks the number of digits",
        "a float is taken to within one unit of the last digit and the float's own precision; 10^18 itself may be taken or refused",
        "constructors report by panicking, inserts and pushes by an error; a scale of 0 may be shown with or without the point",
        "internal::<i32>() of a number wider than 32 bits, and vectors of mixed scales (documented panic), are not covered",
    ],
    run,
};

fn p10(k: u8) -> i128 {
    10i128.pow(k as u32)
}

fn numbers() -> Vec<i64> {
    let mut v: Vec<i128> = vec![0, 1, 5, 9, 11, 123_456_789, 123_456_789_012_345_678, i32::MAX as i128, i32::MAX as i128 + 1, i32::MAX as i128 + 2, i64::MAX as i128, i64::MAX as i128 - 1, 1 << 24, (1 << 24) + 1, 1 << 53, (1 << 53) + 1];
    for k in 1..=18 {
        v.extend([p10(k) - 1, p10(k), p10(k) + 1]);
    }
    let w: Vec<i128> = v.iter().map(|x| -x).collect();
    v.extend(w);
    v.push(i64::MIN as i128);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as i64).collect()
}

fn shown(u: i64, s: u8) -> String {
    let d = (u as i128).abs().to_string();
    let d = format!("{}{d}", "0".repeat((s as usize + 1).saturating_sub(d.len())));
    let (a, b) = d.split_at(d.len() - s as usize);
    format!("{}{a}{}{b}", if u < 0 { "-" } else { "" }, if s > 0 { "." } else { "" })
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// The decimal says what it should.
fn is(d: &Decimal, u: i64, s: u8, what: &str) -> Result<(), Fail> {
    if d.internal::<i64>() != u || d.scale() != s as usize {
        return fail(format!("value: {what}"), format!("{what}: {u} at scale {s} became {} at scale {}", d.internal::<i64>(), d.scale()));
    }
    if let Ok(x) = i32::try_from(u) {
        if d.internal::<i32>() != x {
            return fail(format!("value: {what}"), format!("{what}: {u} as 32 bits is {}", d.internal::<i32>()));
        }
    }
    let want = shown(u, s);
    for x in [d.to_string(), format!("{d:?}"), Value::Decimal(d.clone()).to_string(), ValueRef::Decimal(d.clone()).to_string()] {
        if x != want && !(s == 0 && x == format!("{want}.")) {
            return fail("display", format!("{what}: {u} at scale {s} is shown as {x} instead of {want}"));
        }
    }
    Ok(())
}

fn values(ch: &Ch) -> Result<Obs, Fail> {
    let s = ch.choose(20) as u8;
    let u = *ch.pick(&numbers());
    ch.note(format!("{u} at scale {s}"));
    let d = guard(|| Decimal::new(u, s));
    if s > 18 {
        if d.is_ok() {
            return fail("new", format!("Decimal::new({u}, {s}) is accepted"));
        }
        return obs(&(u, s));
    }
    let Ok(d) = d else { return fail("new", format!("Decimal::new({u}, {s}) panics")) };
    is(&d, u, s, "Decimal::new")?;
    is(&d.clone(), u, s, "clone")?;
    let exact = u as f64 / 10f64.powi(s as i32);
    let x: f64 = d.clone().into();
    if (x - exact).abs() > exact.abs() * 4.0 * f64::EPSILON {
        return fail("to float", format!("{u} at scale {s} as f64 is {x}, should be {exact}"));
    }
    let x: f32 = d.into();
    if (x as f64 - exact).abs() > exact.abs() * 4.0 * f32::EPSILON as f64 {
        return fail("to float", format!("{u} at scale {s} as f32 is {x}, should be {exact}"));
    }
    obs(&(u, s))
}

fn compare(ch: &Ch) -> Result<Obs, Fail> {
    let (s, t) = (ch.choose(19) as u8, ch.choose(19) as u8);
    let u = *ch.pick(&numbers());
    let d = Decimal::new(u, s);
    let mut n = 0;
    // numbers, the same number at the other scale and its neighbours
    let mut vs = numbers();
    let e = if t >= s { u as i128 * p10(t - s) } else { u as i128 / p10(s - t) };
    vs.extend([e - 1, e, e + 1].iter().filter_map(|x| i64::try_from(*x).ok()));
    // those that are the same if cut to 64 bits
    vs.extend([(e as i64), (e as i64).wrapping_add(1)]);
    if s > t {
        vs.push((u as i128 * p10(s - t)) as i64);
    }
    for v in vs {
        let same = u as i128 * p10(t) == v as i128 * p10(s);
        let r = guard(|| {
            let f = Decimal::new(v, t);
            let (a, b) = (Value::Decimal(d.clone()), Value::Decimal(f.clone()));
            let (c, g) = (ValueRef::Decimal(d.clone()), ValueRef::Decimal(f.clone()));
            ([d == f, f == d, !(d != f), a == b, b == a, c == g, g == c, c == ValueRef::from(&b)], hash(&d) == hash(&f), hash(&a) == hash(&b))
        });
        let Ok((eqs, h, hv)) = r else { return fail("compare", format!("comparing {u} at scale {s} and {v} at scale {t} panics")) };
        if eqs != [same; 8] {
            return fail("compare", format!("{} and {} are compared as {eqs:?}", shown(u, s), shown(v, t)));
        }
        if same && !(h && hv) {
            return fail("hash", format!("{} and {} are equal, their hashes are not ({h}, {hv})", shown(u, s), shown(v, t)));
        }
        n += 1;
    }
    obs_n(&(u, s, t), n)
}

fn of_whole(x: i128, s: u8, name: &str, r: Result<Decimal, String>) -> Result<(), Fail> {
    let e = x * p10(s.min(18));
    match r {
        Ok(d) => {
            if s > 18 || e.abs() > p10(18) {
                return fail(format!("of {name}"), format!("Decimal::of({x}{name}, {s}) gives {d} instead of refusing"));
            }
            is(&d, e as i64, s, &format!("of {name}"))
        }
        Err(p) => {
            if s <= 18 && e.abs() < p10(18) {
                return fail(format!("of {name}"), format!("Decimal::of({x}{name}, {s}) panics: {p}"));
            }
            Ok(())
        }
    }
}

fn whole(ch: &Ch) -> Result<Obs, Fail> {
    let s = *ch.pick(&(0..=20).chain([127, 128, 255]).collect::<Vec<u8>>());
    let mut xs: Vec<i128> = numbers().into_iter().map(|x| x as i128).collect();
    xs.extend([u64::MAX as i128, u64::MAX as i128 - 1, i64::MAX as i128 + 1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, -32768]);
    let x = *ch.pick(&xs);
    ch.note(format!("{x} at scale {s}"));
    macro_rules! each {
        ($($t:ident),*) => {$(
            if let Ok(y) = $t::try_from(x) {
                of_whole(x, s, stringify!($t), guard(|| Decimal::of(y, s)))?;
            }
        )*};
    }
    each!(i8, i16, i32, i64, u8, u16, u32, u64);
    obs_n(&(x, s), 8)
}

/// x * 10^s rounded down, if it is not beyond 128 bits; None: far outside.
fn scaled(x: f64, s: u8) -> Option<i128> {
    let b = x.abs().to_bits();
    let (e, m) = ((b >> 52) as i32, (b & ((1 << 52) - 1)) as i128);
    let (e, m) = if e == 0 { (-1074, m) } else { (e - 1075, m | 1 << 52) };
    let y = m * p10(s);
    let y = if e >= 0 {
        if e > 10 {
            return if m == 0 { Some(0) } else { None };
        }
        y << e
    } else if e < -126 {
        0
    } else {
        y >> -e
    };
    Some(if x < 0.0 { -y } else { y })
}

fn of_float(x: f64, s: u8, eps: f64, name: &str, r: Result<Decimal, String>) -> Result<(), Fail> {
    let e = if x.is_finite() && s <= 18 { scaled(x, s) } else { None };
    let Some(e) = e else {
        return match r {
            Ok(d) => fail(format!("of {name}"), format!("Decimal::of({x:?}{name}, {s}) gives {d} instead of refusing")),
            Err(_) => Ok(()),
        };
    };
    let slack = 1 + (e.abs() as f64 * eps) as i128;
    match r {
        Ok(d) => {
            if e.abs() - slack > p10(18) {
                return fail(format!("of {name}"), format!("Decimal::of({x:?}{name}, {s}) gives {d} instead of refusing"));
            }
            let u = d.internal::<i64>();
            if (u as i128 - e).abs() > slack || d.scale() != s as usize {
                return fail(format!("of {name}"), format!("Decimal::of({x:?}{name}, {s}) gives {d}, it is {e} / 10^{s}"));
            }
            // a whole number is exact while the float is
            if x.fract() == 0.0 && (e.abs() as f64) < 1.0 / eps && u as i128 != e {
                return fail(format!("of {name}"), format!("Decimal::of({x:?}{name}, {s}) gives {d}"));
            }
            is(&d, u, s, &format!("of {name}"))
        }
        Err(p) => {
            if e.abs() + slack < p10(18) {
                return fail(format!("of {name}"), format!("Decimal::of({x:?}{name}, {s}) panics: {p}"));
            }
            Ok(())
        }
    }
}

fn floats(ch: &Ch) -> Result<Obs, Fail> {
    let s = *ch.pick(&(0..=20).chain([255]).collect::<Vec<u8>>());
    let mut xs = vec![0.0, 0.1, 0.2, 0.29, 0.3, 0.5, 0.999999999999, 1.0, 1.005, 1.1, 1.15, 2.1, 2.5, 33.33, 4.35, 1e-9, 1e-18, 9e-19, 1e-20, 1e-300, f64::MIN_POSITIVE, 5e-324, 16777216.0, 16777217.0, 9007199254740991.0, 9007199254740993.0, f64::MAX, f64::INFINITY, f64::NAN, 9.223372036854775e18, 9.223372036854776e18, 1.8446744073709552e19];
    for k in 1..=38 {
        let p = 10f64.powi(k);
        xs.extend([p, p * 0.999, p + 0.5]);
    }
    let mut x = *ch.pick(&xs);
    if ch.flag() {
        x = -x;
    }
    ch.note(format!("{x:?} at scale {s}"));
    of_float(x, s, 2.0 * f64::EPSILON, "f64", guard(|| Decimal::of(x, s)))?;
    let y = x as f32;
    of_float(y as f64, s, 2.0 * f32::EPSILON as f64, "f32", guard(|| Decimal::of(y, s)))?;
    obs_n(&(x.to_bits(), s), 2)
}

// ---------------------------------------------------------------- columns

fn types() -> Vec<(u8, u8)> {
    (1..=18).flat_map(|p| (0..=p).map(move |s| (p, s))).collect()
}
fn fits(p: u8, x: i128) -> bool {
    if p <= 9 {
        i32::try_from(x).is_ok()
    } else {
        i64::try_from(x).is_ok()
    }
}
/// What a number at scale `s` is at scale `t`.
fn at(u: i64, s: u8, t: u8) -> i128 {
    if t >= s {
        u as i128 * p10(t - s)
    } else {
        u as i128 / p10(s - t)
    }
}
fn wrap(t: T, how: usize) -> T {
    match how {
        0 => t,
        1 => nullable(t),
        2 => array(t),
        _ => map(T::Str, t),
    }
}
fn wrapv(u: i64, how: usize) -> V {
    match how {
        0 | 1 => V::I(u as i128),
        2 => V::A(vec![V::I(u as i128), V::I(u as i128)]),
        _ => V::M(vec![(s("k"), V::I(u as i128))]),
    }
}

fn fetch(blocks: &[RBlock]) -> Result<Block<clickhouse_rs::types::Complex>, Fail> {
    let st = answer(blocks, false);
    World::new(Box::new(move |_, _| st.clone())).install();
    match guard(|| block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.query("S").fetch_all().await.map_err(|e| e.to_string()) })) {
        Ok(Some(Ok(b))) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.map(|x| x.err())))),
    }
}
fn stream(block: &RBlock) -> Result<Block, Fail> {
    let st = answer(&[block.clone()], false);
    World::new(Box::new(move |_, _| st.clone())).install();
    let r = guard(|| {
        block_on(async {
            let mut h = get(&pool("")).await.map_err(|e| format!("{e:?}"))?;
            let mut s = h.query("S").stream_blocks();
            let mut last = None;
            while let Some(b) = s.next().await {
                last = Some(b.map_err(|e| e.to_string())?);
            }
            last.ok_or_else(|| "no block".to_string())
        })
    });
    match r {
        Ok(Some(Ok(b))) => Ok(b),
        x => fail("query", format!("the query fails: {:?}", x.map(|x| x.map(|x| x.err())))),
    }
}

fn read(ch: &Ch) -> Result<Obs, Fail> {
    let (p, s) = *ch.pick(&types());
    let how = ch.choose(4);
    let cut = ch.choose(3);
    ch.note(format!("Decimal({p}, {s}), wrapped {how}, blocks cut {cut}"));
    let us: Vec<i64> = numbers().into_iter().filter(|u| fits(p, *u as i128)).collect();
    let mut vals: Vec<V> = us.iter().map(|u| wrapv(*u, how)).collect();
    if how == 1 {
        vals[1] = V::Null;
    }
    let b = RBlock::new(vec![col("x", wrap(T::Dec(p, s), how), vals)]);
    let n = us.len();
    let what = format!("reading, wrapped {how}");
    let mut seen = 0;
    let mut each = |i: usize, d: &Decimal, way: &str| -> Result<(), Fail> {
        seen += 1;
        is(d, us[i], s, &format!("{what}, {way}"))
    };
    let null = |i: usize| how == 1 && i == 1;
    macro_rules! cells {
        ($b:expr) => {
            for i in 0..n {
                let e = |e: clickhouse_rs::errors::Error| Fail { key: "get".into(), msg: format!("Decimal({p}, {s}): {e}") };
                match how {
                    0 => each(i, &$b.get::<Decimal, _>(i, 0).map_err(e)?, "get")?,
                    1 => match $b.get::<Option<Decimal>, _>(i, 0).map_err(e)? {
                        Some(d) if !null(i) => each(i, &d, "get")?,
                        None if null(i) => {}
                        x => return fail("null", format!("{what}: row {i} of Decimal({p}, {s}) is {x:?}")),
                    },
                    2 => {
                        // the cells of an array as they are
                        struct L(Vec<Decimal>);
                        impl<'a> FromSql<'a> for L {
                            fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
                                match v {
                                    ValueRef::Array(_, x) => x.iter().map(|x| Decimal::from_sql(x.clone())).collect::<FromSqlResult<_>>().map(L),
                                    _ => Ok(L(vec![])),
                                }
                            }
                        }
                        let v = $b.get::<L, _>(i, 0).map_err(e)?.0;
                        if v.len() != 2 {
                            return fail("array", format!("{what}: {v:?}"));
                        }
                        each(i, &v[0], "get")?;
                        each(i, &v[1], "get")?;
                    }
                    _ => {
                        let v = $b.get::<std::collections::HashMap<String, Decimal>, _>(i, 0).map_err(e)?;
                        match v.get("k") {
                            Some(d) if v.len() == 1 => each(i, d, "get")?,
                            _ => return fail("map", format!("{what}: {v:?}")),
                        }
                    }
                }
            }
        };
    }
    if cut > 0 {
        let x = fetch(&if cut == 1 { vec![b.slice(0, 3), b.slice(3, n)] } else { vec![b.clone()] })?;
        cells!(x);
        let c = &x.columns()[0];
        if how == 0 {
            let it = c.iter::<Decimal>().map_err(|e| Fail { key: "iter".into(), msg: e.to_string() })?;
            for (i, d) in it.enumerate() {
                each(i, &d, "iterator")?;
            }
        }
    } else {
        let x = stream(&b)?;
        cells!(x);
        let c = &x.columns()[0];
        let e = |e: clickhouse_rs::errors::Error| Fail { key: "iter".into(), msg: format!("Decimal({p}, {s}): {e}") };
        match how {
            0 => {
                for (i, d) in c.iter::<Decimal>().map_err(e)?.enumerate() {
                    each(i, &d, "iterator")?;
                }
            }
            1 => {
                for (i, d) in c.iter::<Option<Decimal>>().map_err(e)?.enumerate() {
                    match d {
                        Some(d) if !null(i) => each(i, &d, "iterator")?,
                        None if null(i) => {}
                        x => return fail("null", format!("{what}: row {i} of Decimal({p}, {s}) is {x:?}")),
                    }
                }
            }
            2 => {
                for (i, v) in c.iter::<Vec<Decimal>>().map_err(e)?.enumerate() {
                    for d in &v {
                        each(i, d, "iterator")?;
                    }
                }
            }
            _ => {}
        }
    }
    obs_n(&(p, s, how, cut), seen)
}

/// Numbers of scale `s` that are at the edges of Decimal(p, t), and others.
fn edges(s: u8, p: u8, t: u8) -> Vec<i64> {
    let (lo, hi) = if p <= 9 { (i32::MIN as i128, i32::MAX as i128) } else { (i64::MIN as i128, i64::MAX as i128) };
    let mut v: Vec<i128> = vec![0, 1, -1, 9, -9, 10, -10, 15, -15, 99, -99, 101, p10(9), -p10(9), p10(18), -p10(18), i64::MAX as i128, i64::MIN as i128];
    for m in [lo, hi, p10(p) - 1, 1 - p10(p), p10(p)] {
        let x = if t >= s { m / p10(t - s) } else { m * p10(s - t) };
        v.extend([x - 1, x, x + 1]);
        if t < s {
            v.extend([x + p10(s - t) - 1, x + p10(s - t), x - p10(s - t), x - p10(s - t) + 1]);
        }
    }
    // numbers that come round to small ones
    for k in [1i128 << 32, 1 << 33, -(1 << 32)] {
        v.extend([k, k + 1]);
    }
    let mut v: Vec<i64> = v.into_iter().filter_map(|x| i64::try_from(x).ok()).collect();
    v.sort();
    v.dedup();
    v
}

const WAYS: [&str; 7] = ["a vector", "options", "rows", "arrays", "a fetched column", "a fetched column of several blocks", "a fetched nullable column"];

fn source(way: usize, p: u8, s: u8, us: &[i64]) -> Result<Block, Fail> {
    let d = |u: &i64| Decimal::new(*u, s);
    Ok(match way {
        0 => Block::new().column("x", us.iter().map(d).collect::<Vec<_>>()),
        1 => {
            let mut v: Vec<Option<Decimal>> = us.iter().map(|u| Some(d(u))).collect();
            v.insert(0, None);
            Block::new().column("x", v)
        }
        2 => {
            let mut b = Block::new();
            for u in us {
                if let Err(e) = b.push(vec![("x".to_string(), Value::Decimal(d(u)))]) {
                    return fail("rows", format!("pushing {}: {e}", shown(*u, s)));
                }
            }
            b
        }
        3 => {
            let mut b = Block::new();
            for u in us {
                let x = Value::Array(sql_type(&T::Dec(18, s)).into(), vec![Value::Decimal(d(u)), Value::Decimal(d(u))].into());
                if let Err(e) = b.push(vec![("x".to_string(), x)]) {
                    return fail("rows", format!("pushing an array of {}: {e}", shown(*u, s)));
                }
            }
            b
        }
        w => {
            let mut vals: Vec<V> = us.iter().map(|u| V::I(*u as i128)).collect();
            let t = T::Dec(p, s);
            let t = if w == 6 {
                vals.insert(0, V::Null);
                nullable(t)
            } else {
                t
            };
            let b = RBlock::new(vec![col("x", t, vals)]);
            if w == 5 {
                let n = b.rows();
                let b = fetch(&[b.slice(0, n / 2), b.slice(n / 2, n)])?;
                let c = b.columns()[0].clone();
                Block::new().column("x", to_simple(c)?)
            } else {
                let b = stream(&b)?;
                Block::new().column("x", b.columns()[0].clone())
            }
        }
    })
}
/// A column of a result as a column of a block to insert.
fn to_simple(c: clickhouse_rs::types::Column<clickhouse_rs::types::Complex>) -> Result<clickhouse_rs::types::Column<clickhouse_rs::Simple>, Fail> {
    let b = Block::new().column("x", c);
    Ok(b.columns()[0].clone())
}

fn sent(w: &World) -> Vec<V> {
    let x = w.exchanges();
    let Some(x) = x.iter().find(|x| x.1.starts_with("INSERT")) else { return vec![] };
    let b = concat(&x.2.iter().filter(|b| !b.cols.is_empty()).cloned().collect::<Vec<_>>());
    b.cols.first().map(|c| c.vals.clone()).unwrap_or_default()
}

fn insert(b: Block, t: &T) -> (World, Result<Option<Result<(), String>>, String>) {
    let ins = answer_insert(&RBlock::new(vec![col("x", t.clone(), vec![])]), false);
    let w = World::new(Box::new(move |_, _| ins.clone()));
    w.install();
    let r = guard(|| block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.insert("t", b).await.map_err(|e| e.to_string()) }));
    (w, r)
}

/// Inserts numbers of scale `from` into Decimal(p, t).
fn conv(way: usize, p0: u8, from: u8, us: &[i64], p: u8, t: u8) -> Result<(), Fail> {
    let b = match guard(|| source(way, p0, from, us)) {
        Ok(b) => b?,
        Err(e) => return fail("building", format!("{} of scale {from}: {e}", WAYS[way])),
    };
    let how = match way {
        1 | 6 => 1,
        3 => 2,
        _ => 0,
    };
    let target = wrap(T::Dec(p, t), how);
    let what = format!("{} of scale {from} into {}", WAYS[way], target.name());
    let (w, r) = insert(b, &target);
    let all = us.iter().all(|u| fits(p, at(*u, from, t)));
    match r {
        Ok(Some(Ok(()))) => {
            let got = sent(&w);
            let mut want: Vec<V> = us.iter().map(|u| wrapv(at(*u, from, t) as i64, how)).collect();
            if how == 1 {
                want.insert(0, V::Null);
            }
            if !all {
                return fail(format!("wrapped: {}", WAYS[way]), format!("{what}: {us:?} does not fit, the server received {got:?}"));
            }
            if let Some(bad) = w.bad() {
                return fail("wire", format!("{what}: {bad}"));
            }
            if got != want {
                return fail(format!("value: {}", WAYS[way]), format!("{what}: {us:?} should be {want:?}, the server received {got:?}"));
            }
            Ok(())
        }
        Ok(Some(Err(e))) => {
            // arrays are not converted
            if !sent(&w).is_empty() {
                return fail(format!("sent: {}", WAYS[way]), format!("{what}: {us:?}: an error ({e}), but the server received {:?}", sent(&w)));
            }
            if all && way != 3 {
                return fail(format!("refused: {}", WAYS[way]), format!("{what}: {us:?}: {e}"));
            }
            Ok(())
        }
        r => fail(format!("crash: {}", WAYS[way]), format!("{what}: {us:?}: {r:?}")),
    }
}

fn convert(ch: &Ch, p0s: &[u8]) -> Result<Obs, Fail> {
    let (p, t) = *ch.pick(&types());
    let from = ch.choose(19) as u8;
    let way = ch.choose(WAYS.len());
    let p0 = if way >= 4 { *ch.pick(p0s) } else { 18 };
    if from > p0 {
        return obs(&0u8);
    }
    ch.note(format!("{} of Decimal({p0}, {from}) into Decimal({p}, {t})", WAYS[way]));
    let us = edges(from, p, t);
    let (good, bad): (Vec<i64>, Vec<i64>) = us.into_iter().filter(|u| way < 4 || fits(p0, *u as i128)).partition(|u| fits(p, at(*u, from, t)));
    conv(way, p0, from, &good, p, t)?;
    if way == 3 && (p, t) != (18, from) {
        return obs(&0u8);
    }
    for u in &bad {
        conv(way, p0, from, &[*u], p, t)?;
        conv(way, p0, from, &[1, *u, 2], p, t)?;
    }
    obs_n(&(p0, from, way, p, t), (good.len() + 2 * bad.len()) as u64)
}

/// Rows pushed to a fetched block.
fn pushed(ch: &Ch) -> Result<Obs, Fail> {
    let (p, t) = *ch.pick(&types());
    let from = ch.choose(19) as u8;
    let opt = ch.flag();
    ch.note(format!("values of scale {from} pushed to Decimal({p}, {t}), nullable {opt}"));
    let ty = if opt { nullable(T::Dec(p, t)) } else { T::Dec(p, t) };
    let mut b = stream(&RBlock::new(vec![col("x", ty.clone(), vec![V::I(7)])]))?;
    let mut want = vec![V::I(7)];
    for u in edges(from, p, t) {
        let d = Value::Decimal(Decimal::new(u, from));
        let d = if opt { Value::Nullable(either::Either::Right(Box::new(d))) } else { d };
        let e = at(u, from, t);
        match guard(|| b.push(vec![("x".to_string(), d)]).map_err(|e| e.to_string())) {
            Ok(Ok(())) if fits(p, e) => want.push(V::I(e)),
            Ok(Err(_)) if !fits(p, e) => {}
            Ok(r) => return fail("push", format!("pushing {} to {}: {r:?}", shown(u, from), ty.name())),
            Err(x) => return fail("push", format!("pushing {} to {} panics: {x}", shown(u, from), ty.name())),
        }
    }
    let cells: Vec<V> = (0..b.row_count()).map(|i| b.get::<Cell, _>(i, 0).map(|c| c.0).unwrap_or(V::Null)).collect();
    if cells != want {
        return fail("push", format!("numbers of scale {from} pushed to {}: the block holds {cells:?} instead of {want:?}", ty.name()));
    }
    let (w, r) = insert(b, &ty);
    if !matches!(r, Ok(Some(Ok(())))) || sent(&w) != want {
        return fail("push", format!("numbers of scale {from} pushed to {} and inserted: {r:?}, the server received {:?} instead of {want:?}", ty.name(), sent(&w)));
    }
    obs_n(&(p, t, from, opt), want.len() as u64)
}

/// Two conversions in a row.
fn chain(ch: &Ch, types: &[(u8, u8)]) -> Result<Obs, Fail> {
    let from = ch.choose(19) as u8;
    let (p, t) = *ch.pick(types);
    let (q, v) = *ch.pick(types);
    ch.note(format!("scale {from} to Decimal({p}, {t}) to Decimal({q}, {v})"));
    let us: Vec<i64> = edges(from, p, t).into_iter().filter(|u| fits(p, at(*u, from, t))).filter(|u| fits(q, at(at(*u, from, t) as i64, t, v))).collect();
    let (w, r) = insert(source(0, 18, from, &us)?, &T::Dec(p, t));
    if !matches!(r, Ok(Some(Ok(())))) {
        return fail("chain", format!("{us:?} of scale {from} into Decimal({p}, {t}): {r:?}"));
    }
    let got = sent(&w);
    let b = stream(&RBlock::new(vec![col("x", T::Dec(p, t), got)]))?;
    let (w, r) = insert(Block::new().column("x", b.columns()[0].clone()), &T::Dec(q, v));
    let want: Vec<V> = us.iter().map(|u| V::I(at(at(*u, from, t) as i64, t, v))).collect();
    if !matches!(r, Ok(Some(Ok(())))) || sent(&w) != want {
        return fail("chain", format!("{us:?} of scale {from} through Decimal({p}, {t}) into Decimal({q}, {v}): {r:?}, {:?} instead of {want:?}", sent(&w)));
    }
    obs_n(&(from, p, t, q, v), us.len() as u64)
}

fn run(cx: &mut Ctx) {
    cx.explore("values", values);
    cx.explore("compare", compare);
    cx.explore("integers", whole);
    cx.explore("floats", floats);
    cx.explore("read", read);
    let p0s: Vec<u8> = (1..=18).collect();
    cx.explore("convert", |ch| convert(ch, &p0s));
    cx.explore("push", pushed);
    let some: Vec<(u8, u8)> = if cx.thorough { types() } else { types().into_iter().filter(|(p, s)| [1, 9, 10, 18].contains(p) && [0, 1, 4, 9, 17, 18].contains(s)).collect() };
    cx.explore("chain", |ch| chain(ch, &some));
}
