//! Dates and times: the same day or instant everywhere, in every time zone and precision.

use super::Prop;
use crate::{access::days, explore::*, rtypes::*, server::*, util::*};
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, Offset, TimeZone, Utc};
use chrono_tz::Tz;
use clickhouse_rs::{
    types::{Column, Complex, FromSql, FromSqlResult, Simple, Value, ValueRef},
    Block,
};
use futures_util::StreamExt;
use std::collections::HashMap;

pub const PROP: Prop = Prop {
    id: "C20",
    bounds: "reading: Date, DateTime, DateTime64 of every precision 0-9, each with the server's and with an own time zone, over 10 server zones x 10 column zones (quick) or every zone chrono-tz knows (thorough), plain and inside Nullable, Array, Map, LowCardinality and SimpleAggregateFunction, values at the limits of the type, around 1970, at zone transitions, with every kind of fraction; through cells, rows, dynamic values, display, every iterator with nth/skip, single blocks, streamed rows and merged results; writing: every host constructor and row value of dates and times into every such type",
    assumptions: &[
        "zone offsets of chrono-tz are taken as given; calendar arithmetic is done independently",
        "DateTime64 beyond the years chrono can represent is only asked of cell access, which can report an error; iterators cannot",
        "instants outside the range of the column's type must be refused, days outside the range of Date are not written",
    ],
    run,
};

/// Seconds since 1970, nanoseconds, and the zone if the host value has one.
#[derive(Clone, Debug, PartialEq)]
struct At(i64, u32, Option<Tz>);

trait Inst {
    fn put(&self, out: &mut Vec<Option<At>>);
}
impl Inst for NaiveDate {
    fn put(&self, out: &mut Vec<Option<At>>) {
        out.push(Some(At(days(self.year() as i64, self.month() as i64, self.day() as i64) * 86400, 0, None)));
    }
}
impl Inst for NaiveDateTime {
    fn put(&self, out: &mut Vec<Option<At>>) {
        use chrono::Timelike;
        let d = days(self.year() as i64, self.month() as i64, self.day() as i64) * 86400;
        let s = self.hour() as i64 * 3600 + self.minute() as i64 * 60 + self.second() as i64;
        out.push(Some(At(d + s, self.nanosecond(), None)));
    }
}
impl Inst for DateTime<Tz> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        // the instant by its UTC fields, not by chrono's own timestamp
        let mut v = vec![];
        self.naive_utc().put(&mut v);
        let At(s, n, _) = v.pop().unwrap().unwrap();
        out.push(Some(At(s, n, Some(self.timezone()))));
    }
}
impl<X: Inst> Inst for Option<X> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        match self {
            None => out.push(None),
            Some(x) => x.put(out),
        }
    }
}
impl<X: Inst> Inst for Vec<X> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        self.iter().for_each(|x| x.put(out))
    }
}
impl<K, X: Inst> Inst for HashMap<K, X> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        self.values().for_each(|x| x.put(out))
    }
}

/// The cell as the dynamic value's own conversion gives it.
struct Conv<X>(X);
impl<'a, X: From<ValueRef<'a>>> FromSql<'a> for Conv<X> {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        Ok(Conv(v.into()))
    }
}
struct Owned<X>(X);
impl<'a, X: From<Value>> FromSql<'a> for Owned<X> {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        Ok(Owned(Value::from(v).into()))
    }
}
struct Shown(String);
impl<'a> FromSql<'a> for Shown {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        Ok(Shown(v.to_string()))
    }
}
impl<X: Inst> Inst for Conv<X> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        self.0.put(out)
    }
}
impl<X: Inst> Inst for Owned<X> {
    fn put(&self, out: &mut Vec<Option<At>>) {
        self.0.put(out)
    }
}

const WRAPS: [&str; 8] = ["plain", "nullable", "array", "map", "low", "low nullable", "agg", "array of nullable"];

fn wrap(t: &T, how: &str) -> T {
    match how {
        "nullable" => nullable(t.clone()),
        "array" => array(t.clone()),
        "map" => map(T::Str, t.clone()),
        "low" => low(t.clone()),
        "low nullable" => low(nullable(t.clone())),
        "agg" => agg("any", t.clone()),
        "array of nullable" => array(nullable(t.clone())),
        _ => t.clone(),
    }
}

/// Rows of the wrapped type that hold the values, and the values in reading order.
fn rows(vals: &[V], how: &str) -> (Vec<V>, Vec<Option<V>>) {
    let some = |v: &[V]| v.iter().cloned().map(Some).collect::<Vec<_>>();
    match how {
        "nullable" | "low nullable" => {
            let mut r = vec![V::Null];
            let mut e = vec![None];
            for v in vals {
                r.push(v.clone());
                e.push(Some(v.clone()));
            }
            r.push(V::Null);
            e.push(None);
            (r, e)
        }
        "array" => {
            let mut r = vec![V::A(vec![])];
            r.extend(vals.chunks(3).map(|c| V::A(c.to_vec())));
            (r, some(vals))
        }
        "array of nullable" => {
            let r = vals.chunks(2).map(|c| {
                let mut c = c.to_vec();
                c.insert(1, V::Null);
                V::A(c)
            });
            let e = vals.chunks(2).flat_map(|c| {
                let mut c = some(c);
                c.insert(1, None);
                c
            });
            (r.collect(), e.collect())
        }
        "map" => (vals.iter().map(|v| V::M(vec![(s("k"), v.clone())])).collect(), some(vals)),
        "low" => {
            let mut r = vals.to_vec();
            r.extend(vals.iter().rev().cloned());
            (r.clone(), some(&r))
        }
        _ => (vals.to_vec(), some(vals)),
    }
}

/// Seconds and nanoseconds of a wire value.
fn split(t: &T, v: &V) -> (i64, u32) {
    match (t, v) {
        (T::Date, V::U(x)) => (*x as i64 * 86400, 0),
        (T::DateTime(_), V::U(x)) => (*x as i64, 0),
        (T::DateTime64(p, _), V::I(x)) => {
            let k = 10i128.pow(*p);
            (x.div_euclid(k) as i64, (x.rem_euclid(k) * 10i128.pow(9 - *p)) as u32)
        }
        _ => unreachable!(),
    }
}

/// Instants around transitions of the zones used and the limits of the types.
const SECONDS: [i64; 22] = [
    -2_208_988_800, // 1900-01-01
    -2_177_452_801,
    -1_000_000_000,
    -86_401,
    -86_400,
    -3_600,
    -1,
    0,
    1,
    86_399,
    86_400,
    951_782_400,   // 2000-02-29
    1_615_705_199, // New York springs forward
    1_615_705_200,
    1_636_264_799, // New York falls back
    1_636_264_800,
    2_147_483_647,
    2_147_483_648,
    4_102_444_800, // 2100
    4_294_967_295,
    4_294_967_296,
    10_413_791_999, // 2299-12-31 23:59:59
];

fn wire(t: &T) -> Vec<V> {
    match t {
        T::Date => [0u128, 1, 58, 59, 60, 364, 365, 789, 10956, 11016, 11017, 18000, 24836, 47540, 49709, 49710, 65534, 65535].iter().map(|x| V::U(*x)).collect(),
        T::DateTime(_) => SECONDS.iter().filter(|x| (0..1 << 32).contains(*x)).map(|x| V::U(*x as u128)).collect(),
        T::DateTime64(p, _) => {
            let k = 10i128.pow(*p);
            let mut v = vec![];
            for x in SECONDS {
                for f in [0, 1, k / 2, k - 1] {
                    if f < k && (f > 0 || v.last() != Some(&V::I(x as i128 * k))) {
                        let y = x as i128 * k + f;
                        if i64::try_from(y).is_ok() && v.last() != Some(&V::I(y)) {
                            v.push(V::I(y));
                        }
                    }
                }
            }
            if *p >= 8 {
                v.push(V::I(i64::MAX as i128));
                v.push(V::I(i64::MIN as i128));
            }
            v
        }
        _ => unreachable!(),
    }
}

fn zone(t: &T, server: Tz) -> Option<Tz> {
    match t {
        T::DateTime(z) | T::DateTime64(_, z) => Some(z.as_ref().map(|z| z.parse().unwrap()).unwrap_or(server)),
        _ => None,
    }
}

fn civil(d: i64) -> (i64, i64, i64) {
    // inverse of `days`
    let z = d + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

/// What a plain cell prints: the local date and time.
fn printed(t: &T, z: Option<Tz>, v: &V) -> Option<String> {
    let (s, _) = split(t, v);
    let off = match z {
        None => 0,
        Some(z) => z.offset_from_utc_datetime(&DateTime::from_timestamp(s, 0)?.naive_utc()).fix().local_minus_utc() as i64,
    };
    let l = s + off;
    let (y, m, d) = civil(l.div_euclid(86400));
    if !(1..=9999).contains(&y) {
        return None;
    }
    let r = l.rem_euclid(86400);
    Some(match t {
        T::Date => format!("{y:04}-{m:02}-{d:02}"),
        _ => format!("{y:04}-{m:02}-{d:02} {:02}:{:02}:{:02}", r / 3600, r / 60 % 60, r % 60),
    })
}

struct Job<'a> {
    t: &'a T,
    how: &'a str,
    z: Option<Tz>,
    vals: Vec<Option<V>>,
    checks: std::cell::Cell<u64>,
}

impl Job<'_> {
    fn cmp(&self, name: &str, got: Result<Result<Vec<Option<At>>, String>, String>, zoned: bool, from: usize) -> Result<(), Fail> {
        let key = |m: &str| format!("{m}: {name} of {} {}", self.how, kind(self.t));
        let got = match got {
            Err(p) => return fail(key("panic"), format!("{name} of {} {} panics: {p}", self.how, self.t.name())),
            Ok(Err(e)) => return fail(key("refused"), format!("{name} of {} {}: {e}", self.how, self.t.name())),
            Ok(Ok(g)) => g,
        };
        let want: Vec<Option<At>> = self.vals[from.min(self.vals.len())..]
            .iter()
            .map(|v| {
                v.as_ref().map(|v| {
                    let (s, n) = split(self.t, v);
                    At(s, n, if zoned { self.z } else { None })
                })
            })
            .collect();
        if got != want {
            let i = (0..want.len().max(got.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
            return fail(
                key("instant"),
                format!("{name} of {} {} at {i}: wire {:?} is {:?}, read as {:?}", self.how, self.t.name(), self.vals.get(from + i), want.get(i), got.get(i)),
            );
        }
        self.checks.set(self.checks.get() + want.len() as u64);
        Ok(())
    }
}

fn kind(t: &T) -> &'static str {
    match t {
        T::Date => "Date",
        T::DateTime(_) => "DateTime",
        _ => "DateTime64",
    }
}

fn flat<X: Inst>(xs: impl Iterator<Item = X>) -> Vec<Option<At>> {
    let mut out = vec![];
    xs.for_each(|x| x.put(&mut out));
    out
}

macro_rules! readers {
    ($cells:ident, $iters:ident, $k:ty) => {
        fn $cells(b: &Block<$k>, c: usize, job: &Job) -> Result<(), Fail> {
            let n = b.row_count();
            macro_rules! g {
                ($r:ty, $zoned:expr) => {
                    job.cmp(
                        stringify!(get::<$r>),
                        guard(|| {
                            let mut out = vec![];
                            for i in 0..n {
                                b.get::<$r, _>(i, c).map_err(|e| e.to_string())?.put(&mut out);
                            }
                            Ok(out)
                        }),
                        $zoned,
                        0,
                    )?
                };
            }
            macro_rules! all {
                ($r:ty, $zoned:expr) => {
                    match job.how {
                        "plain" | "low" | "agg" => {
                            g!($r, $zoned);
                            g!(Conv<$r>, $zoned);
                            g!(Owned<$r>, $zoned);
                        }
                        "nullable" | "low nullable" => g!(Option<$r>, $zoned),
                        "array" => g!(Vec<$r>, $zoned),
                        "map" => g!(HashMap<String, $r>, $zoned),
                        _ => {}
                    }
                };
            }
            match job.t {
                T::Date => all!(NaiveDate, false),
                _ => all!(DateTime<Tz>, true),
            }
            if job.how == "plain" {
                for i in 0..n {
                    let Some(Some(v)) = job.vals.get(i) else { continue };
                    let Some(want) = printed(job.t, job.z, v) else { continue };
                    match guard(|| b.get::<Shown, _>(i, c).map(|s| s.0).map_err(|e| e.to_string())) {
                        Ok(Ok(s)) if s == want => {}
                        r => return fail(format!("display: {}", kind(job.t)), format!("{} {v:?} in zone {:?} prints as {r:?}, not {want:?}", job.t.name(), job.z)),
                    }
                }
            }
            Ok(())
        }

        fn $iters(col: &Column<$k>, job: &Job) -> Result<(), Fail> {
            macro_rules! it {
                ($r:ty, $zoned:expr) => {{
                    job.cmp(stringify!(iter::<$r>), guard(|| Ok(flat(col.iter::<$r>().map_err(|e| e.to_string())?))), $zoned, 0)?;
                    if matches!(job.how, "plain" | "low" | "nullable") {
                        for from in [1usize, 2, 5] {
                            job.cmp(
                                stringify!(nth/iter::<$r>),
                                guard(|| {
                                    let mut i = col.iter::<$r>().map_err(|e| e.to_string())?;
                                    i.nth(from - 1);
                                    Ok(flat(i))
                                }),
                                $zoned,
                                from,
                            )?;
                        }
                    }
                }};
            }
            macro_rules! all {
                ($r:ty, $zoned:expr) => {
                    match job.how {
                        "plain" | "low" => it!($r, $zoned),
                        "nullable" => it!(Option<$r>, $zoned),
                        "array" => it!(Vec<$r>, $zoned),
                        "array of nullable" => it!(Vec<Option<$r>>, $zoned),
                        "map" => it!(HashMap<&[u8], $r>, $zoned),
                        _ => {}
                    }
                };
            }
            match job.t {
                T::Date => all!(NaiveDate, false),
                _ => {
                    all!(DateTime<Tz>, true);
                    all!(NaiveDateTime, false);
                }
            }
            Ok(())
        }
    };
}
readers!(cells_s, iters_s, Simple);
readers!(cells_c, iters_c, Complex);

/// Low-cardinality timestamps with fractions do not exist in ClickHouse.
fn exists(t: &T, how: &str) -> bool {
    !(how.starts_with("low") && matches!(t, T::DateTime64(..)))
}

fn check_read(t: &T, how: &str, server: Tz, shape: usize, vals: &[V]) -> Result<u64, Fail> {
    let (r, vals) = rows(vals, how);
    let wt = wrap(t, how);
    let mk = |v: &[V]| RBlock::new(vec![col("n", T::U(8), vec![V::U(7); v.len()]), col("c", wt.clone(), v.to_vec())]);
    let blocks: Vec<RBlock> = if shape == 2 && !r.is_empty() { r.chunks(r.len().div_ceil(2).max(1)).map(mk).collect() } else { vec![mk(&r)] };
    let ans = answer(&blocks, false);
    let w = World::new(Box::new(move |_, _| ans.clone()));
    w.with(|i| i.tz = server.name().to_string());
    w.install();
    let job = Job { t, how, z: zone(t, server), vals, checks: Default::default() };
    let r: Option<Result<(), Fail>> = block_on(async {
        let bad = |m: String| fail(format!("query: {}", wt.name()), format!("{} with server zone {server}: {m}", wt.name()));
        let p = pool("");
        let mut h = match get(&p).await {
            Ok(h) => h,
            Err(e) => return bad(format!("{e:?}")),
        };
        match shape {
            0 => {
                let mut s = h.query("S").stream_blocks();
                while let Some(b) = s.next().await {
                    let b = match b {
                        Ok(b) => b,
                        Err(e) => return bad(e.to_string()),
                    };
                    cells_s(&b, 1, &job)?;
                    iters_s(&b.columns()[1], &job)?;
                }
            }
            1 => {
                // rows of a stream
                let mut s = h.query("S").stream();
                let mut out = vec![];
                while let Some(x) = s.next().await {
                    let x = match x {
                        Ok(x) => x,
                        Err(e) => return bad(e.to_string()),
                    };
                    macro_rules! g {
                        ($r:ty) => {
                            match guard(|| x.get::<$r, _>("c").map_err(|e| e.to_string())) {
                                Ok(Ok(v)) => v.put(&mut out),
                                e => return bad(format!("Row::get::<{}>: {:?}", stringify!($r), e.map(|e| e.map(|_| ())))),
                            }
                        };
                    }
                    macro_rules! all {
                        ($r:ty) => {
                            match how {
                                "plain" | "low" | "agg" => g!($r),
                                "nullable" | "low nullable" => g!(Option<$r>),
                                "array" => g!(Vec<$r>),
                                "map" => g!(HashMap<String, $r>),
                                _ => {}
                            }
                        };
                    }
                    match t {
                        T::Date => all!(NaiveDate),
                        _ => all!(DateTime<Tz>),
                    }
                }
                if how != "array of nullable" {
                    job.cmp("Row::get", Ok(Ok(out)), !matches!(t, T::Date), 0)?;
                }
            }
            _ => {
                let b = match h.query("S").fetch_all().await {
                    Ok(b) => b,
                    Err(e) => return bad(e.to_string()),
                };
                cells_c(&b, 1, &job)?;
                iters_c(&b.columns()[1], &job)?;
            }
        }
        Ok(())
    });
    match r {
        None => fail("hang", format!("reading {} hangs", wt.name())),
        Some(Err(f)) => Err(f),
        Some(Ok(())) => Ok(job.checks.get()),
    }
}

fn zones(names: &[&str]) -> Vec<Tz> {
    names.iter().map(|n| n.parse().unwrap()).collect()
}

fn some_zones() -> Vec<Tz> {
    zones(&["UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "Pacific/Niue", "Africa/Monrovia", "Australia/Lord_Howe"])
}

fn types(own: &[Option<Tz>], precisions: &[u32]) -> Vec<T> {
    let mut v = vec![T::Date];
    for z in own {
        let z = z.map(|z| z.name().to_string());
        v.push(T::DateTime(z.clone()));
        for p in precisions {
            v.push(T::DateTime64(*p, z.clone()));
        }
    }
    v
}

fn reading(ch: &Ch, servers: &[Tz], types: &[T], wraps: &[&'static str]) -> Result<Obs, Fail> {
    let server = *ch.pick(servers);
    let t = ch.pick(types);
    let how = *ch.pick(wraps);
    let shape = ch.choose(3);
    ch.note(format!("{} inside {how}, server zone {server}, {}", t.name(), ["a streamed block", "streamed rows", "a merged result"][shape]));
    if !exists(t, how) {
        return obs(&0);
    }
    let n = check_read(t, how, server, shape, &wire(t))?;
    obs_n(&(server.name(), t, how, shape), n)
}

/// Short columns: every sequence of wire values.
fn sequences(ch: &Ch, max: usize) -> Result<Obs, Fail> {
    let server = *ch.pick(&zones(&["UTC", "America/New_York", "Asia/Tokyo"]));
    let t = ch.pick(&types(&[None, Some(Tz::Europe__London)], &[0, 3, 9])).clone();
    let how = *ch.pick(&WRAPS);
    let shape = ch.choose(3);
    let all = wire(&t);
    let pickable: Vec<V> = all.iter().step_by((all.len() / 9).max(1)).cloned().collect();
    let mut vals = vec![];
    for _ in 0..max {
        let k = ch.choose(pickable.len() + 1);
        if k == 0 {
            break;
        }
        vals.push(pickable[k - 1].clone());
    }
    ch.note(format!("{} inside {how}, server zone {server}, shape {shape}: {vals:?}", t.name()));
    if !exists(&t, how) {
        return obs(&0);
    }
    let n = check_read(&t, how, server, shape, &vals)?;
    obs_n(&(server.name(), t, how, shape, vals), n)
}

/// Timestamps as far as 64 bits reach: the instant or an error.
fn extremes(ch: &Ch) -> Result<Obs, Fail> {
    let server = *ch.pick(&some_zones());
    let p = ch.choose(10) as u32;
    let own = ch.flag();
    let t = T::DateTime64(p, if own { Some("Asia/Tokyo".into()) } else { None });
    let k = 10i128.pow(p);
    let edge = [8_210_266_876_799i128, 8_210_266_876_800, -8_334_601_228_800, -8_334_601_228_801];
    let mut vals = vec![i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 - 1, i64::MIN as i128 + 1, 10_413_792_000 * k, -2_208_988_801 * k];
    vals.extend(edge.iter().map(|x| x * k));
    vals.retain(|x| i64::try_from(*x).is_ok());
    let v = V::I(*ch.pick(&vals));
    let how = *ch.pick(&["plain", "nullable", "array"]);
    ch.note(format!("{} inside {how} holding {v:?}", t.name()));
    let (r, _) = rows(&[v.clone()], how);
    let b = RBlock::new(vec![col("c", wrap(&t, how), r)]);
    let ans = answer(&[b], false);
    let w = World::new(Box::new(move |_, _| ans.clone()));
    w.with(|i| i.tz = server.name().to_string());
    w.install();
    let r = block_on(async {
        let p = pool("");
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        h.query("S").fetch_all().await.map_err(|e| e.to_string())
    });
    let b = match r {
        Some(Ok(b)) => b,
        r => return fail("query", format!("{:?}", r.map(|r| r.map(|_| ())))),
    };
    let n = b.row_count();
    let got = guard(|| {
        let mut out = vec![];
        for i in 0..n {
            match how {
                "plain" => b.get::<DateTime<Tz>, _>(i, 0).map_err(|e| e.to_string())?.put(&mut out),
                "nullable" => b.get::<Option<DateTime<Tz>>, _>(i, 0).map_err(|e| e.to_string())?.put(&mut out),
                _ => b.get::<Vec<DateTime<Tz>>, _>(i, 0).map_err(|e| e.to_string())?.put(&mut out),
            }
        }
        Ok::<_, String>(out)
    });
    let (s, f) = split(&t, &v);
    match got {
        Err(p) => fail(format!("panic: extremes {how}"), format!("get of {} holding {v:?} panics: {p}", t.name())),
        Ok(Err(e)) => {
            if (-62_167_219_200..=253_402_300_799).contains(&s) {
                return fail(format!("refused: extremes {how}"), format!("get of {} holding {v:?}: {e}", t.name()));
            }
            obs_n(&(server.name(), t, v, how, 0), 1)
        }
        Ok(Ok(g)) => {
            let want = At(s, f, zone(&t, server));
            if g.iter().flatten().collect::<Vec<_>>() != [&want] {
                return fail(format!("instant: extremes {how}"), format!("get of {} holding {v:?} gives {g:?}, not {want:?}", t.name()));
            }
            obs_n(&(server.name(), t, v, how, 1), 1)
        }
    }
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Host {
    Dates,
    OptDates,
    VecDates,
    RowDates,
    Times,
    OptTimes,
    VecTimes,
    RowTimes,
    RowOptTimes,
    RowUtc,
    Stamps,
    Stamps64,
    DynDates,
}
use Host::*;
const HOSTS: [Host; 13] = [Dates, OptDates, VecDates, RowDates, DynDates, Times, OptTimes, VecTimes, RowTimes, RowOptTimes, RowUtc, Stamps, Stamps64];

fn at(z: Tz, s: i64, n: u32) -> DateTime<Tz> {
    // from UTC fields that are computed here
    let (y, m, d) = civil(s.div_euclid(86400));
    let r = s.rem_euclid(86400) as u32;
    let naive = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap().and_hms_nano_opt(r / 3600, r / 60 % 60, r % 60, n).unwrap();
    z.from_utc_datetime(&naive)
}

fn date(d: i64) -> NaiveDate {
    let (y, m, d) = civil(d);
    NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap()
}

/// Host values that the type can hold, and what the server has to receive.
fn host_values(host: Host, t: &T, z: Tz) -> Vec<(i64, u32, V)> {
    let mut r = vec![];
    match t {
        T::Date => {
            for v in wire(t) {
                let (s, _) = split(t, &v);
                r.push((s, 0, v));
            }
        }
        T::DateTime(_) => {
            for v in wire(t) {
                let (s, _) = split(t, &v);
                let fracs: &[u32] = if matches!(host, Stamps) { &[0] } else { &[0, 1, 500_000_000, 999_999_999] };
                for n in fracs {
                    r.push((s, *n, v.clone()));
                }
            }
        }
        T::DateTime64(p, _) => {
            let k = 10i128.pow(*p);
            for s in SECONDS {
                if matches!(host, RowUtc | Stamps) && !(0..1 << 32).contains(&s) {
                    continue;
                }
                let fracs: &[u32] = if matches!(host, RowUtc | Stamps) { &[0] } else { &[0, 1, 123_456_789, 500_000_000, 999_999_999] };
                for n in fracs {
                    let v = s as i128 * k + *n as i128 / 10i128.pow(9 - *p);
                    if i64::try_from(v).is_ok() {
                        r.push((s, *n, V::I(v)));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    let _ = z;
    r
}

fn writing(ch: &Ch, servers: &[Tz], types: &[T], hosts: &[Tz]) -> Result<Obs, Fail> {
    let server = *ch.pick(servers);
    let t = ch.pick(types);
    let host = *ch.pick(&HOSTS);
    let z = if matches!(host, Dates | OptDates | VecDates | RowDates | DynDates | RowUtc) { Tz::UTC } else { *ch.pick(hosts) };
    let is_date = matches!(host, Dates | OptDates | VecDates | RowDates | DynDates);
    let how = match host {
        OptDates | OptTimes | RowOptTimes => "nullable",
        VecDates | VecTimes => "array",
        _ => *ch.pick(&["plain", "low", "agg"]),
    };
    if is_date != matches!(t, T::Date) || !exists(t, how) {
        return obs(&0);
    }
    let mut data = host_values(host, t, z);
    // in one column, or each alone
    let alone = ch.flag();
    if alone {
        let i = ch.choose(data.len());
        data = vec![data[i].clone()];
    }
    ch.note(format!("{host:?} in zone {z} into {} inside {how}, server zone {server}, {} values", t.name(), data.len()));
    let want: Vec<V> = match how {
        "nullable" => data.iter().flat_map(|x| [x.2.clone(), V::Null]).collect(),
        "array" => data.chunks(3).flat_map(|c| [V::A(c.iter().map(|x| x.2.clone()).collect()), V::A(vec![])]).collect(),
        _ => data.iter().map(|x| x.2.clone()).collect(),
    };
    let b = guard(|| {
        let ts = || data.iter().map(|x| at(z, x.0, x.1));
        let ds = || data.iter().map(|x| date(x.0 / 86400));
        let rows = |v: Vec<Value>| {
            let mut b = Block::new();
            for x in v {
                b.push(vec![("c".to_string(), x)]).map_err(|e| e.to_string())?;
            }
            Ok::<_, String>(b)
        };
        Ok::<Block, String>(match host {
            Dates => Block::new().column("c", ds().collect::<Vec<_>>()),
            OptDates => Block::new().column("c", ds().flat_map(|x| [Some(x), None]).collect::<Vec<_>>()),
            VecDates => Block::new().column("c", ds().collect::<Vec<_>>().chunks(3).flat_map(|c| [c.to_vec(), vec![]]).collect::<Vec<_>>()),
            RowDates => rows(ds().map(Value::from).collect())?,
            DynDates => rows(data.iter().map(|x| Value::Date((x.0 / 86400) as u16)).collect())?,
            Times => Block::new().column("c", ts().collect::<Vec<_>>()),
            OptTimes => Block::new().column("c", ts().flat_map(|x| [Some(x), None]).collect::<Vec<_>>()),
            VecTimes => Block::new().column("c", ts().collect::<Vec<_>>().chunks(3).flat_map(|c| [c.to_vec(), vec![]]).collect::<Vec<_>>()),
            RowTimes => rows(ts().map(Value::from).collect())?,
            RowOptTimes => rows(ts().flat_map(|x| [Value::from(Some(x)), Value::from(None::<DateTime<Tz>>)]).collect())?,
            RowUtc => rows(ts().map(|x| Value::from(x.with_timezone(&Utc))).collect())?,
            Stamps => rows(data.iter().map(|x| Value::DateTime(x.0 as u32, z)).collect())?,
            Stamps64 => {
                let p = if let T::DateTime64(p, _) = t { *p } else { 3 };
                rows(
                    data.iter()
                        .map(|x| {
                            let v = x.0 as i128 * 10i128.pow(p) + x.1 as i128 / 10i128.pow(9 - p);
                            // same zone as the column has
                            Value::DateTime64(v as i64, (p, zone(t, server).unwrap_or(z)))
                        })
                        .collect(),
                )?
            }
        })
    });
    let key = |m: &str| format!("{m}: {host:?} into {how} {}", kind(t));
    let b = match b {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return fail(key("build"), format!("{host:?} for {}: {e}", t.name())),
        Err(p) => return fail(key("build panic"), format!("{host:?} for {}: {p}", t.name())),
    };
    let wt = wrap(t, how);
    let ins = answer_insert(&RBlock::new(vec![col("c", wt.clone(), vec![])]), false);
    let w = World::new(Box::new(move |_, _| ins.clone()));
    w.with(|i| i.tz = server.name().to_string());
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("insert_timeout=100000s");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    if let Some(m) = w.bad() {
        return fail(key("malformed"), format!("{host:?} into {}: the server cannot read the request: {m}", wt.name()));
    }
    let got: Vec<RBlock> = w.exchanges().into_iter().flat_map(|x| x.2).filter(|b| !b.cols.is_empty()).collect();
    match r {
        Err(p) => fail(key("panic"), format!("inserting {host:?} into {} panics: {p}", wt.name())),
        Ok(None) => fail(key("hang"), format!("inserting {host:?} into {} hangs", wt.name())),
        Ok(Some(Err(e))) => {
            // seconds and days are what every constructor has to be able to write; an instant with a zone
            // also goes into every sub-second type
            let must = how == "plain"
                && match t {
                    T::Date => true,
                    T::DateTime(_) => !matches!(host, Stamps64),
                    _ => matches!(host, Times | RowTimes | Stamps64),
                };
            if must {
                return fail(key("refused"), format!("inserting {host:?} into {}: {e}", wt.name()));
            }
            if got.iter().any(|b| b.rows() > 0) {
                return fail(key("data"), format!("inserting {host:?} into {} fails with {e} after data was sent", wt.name()));
            }
            obs_n(&(host, t, how, server.name(), e), 1)
        }
        Ok(Some(Ok(()))) => {
            let all = concat(&got);
            let Some(c) = all.cols.first() else { return fail(key("shape"), format!("inserting {host:?} into {}: nothing received", wt.name())) };
            if norm_t(&c.ty) != norm_t(&wt) {
                return fail(key("type"), format!("inserting {host:?} into {}: announced as {}", wt.name(), c.ty.name()));
            }
            if let (T::DateTime64(_, Some(a)), T::DateTime64(_, b)) = (&c.ty, t) {
                // a zone that is announced is the column's
                if Some(a.as_str()) != b.as_deref().or(Some(server.name())) {
                    return fail(key("zone"), format!("inserting {host:?} into {}, server zone {server}: announced as {}", wt.name(), c.ty.name()));
                }
            }
            if c.vals != want {
                let i = (0..want.len().max(c.vals.len())).find(|i| c.vals.get(*i) != want.get(*i)).unwrap();
                return fail(key("values"), format!("inserting {host:?} (zone {z}) into {} at {i}: {:?} expected, the server received {:?}", wt.name(), want.get(i), c.vals.get(i)));
            }
            obs_n(&(host, t, how, server.name(), z.name(), alone, data.first().map(|x| x.0)), want.len() as u64)
        }
    }
}

/// Instants which the type of the server's column cannot hold are refused, not stored as other ones.
fn too_far(ch: &Ch, z: Tz) -> Result<Obs, Fail> {
    let hosts = [Times, OptTimes, VecTimes, RowTimes, RowOptTimes, RowUtc];
    let host = *ch.pick(&hosts);
    let t = match ch.choose(11) {
        10 => T::DateTime(None),
        p => T::DateTime64(p as u32, None),
    };
    let how = match host {
        OptTimes | RowOptTimes => "nullable",
        VecTimes => "array",
        _ => *ch.pick(&["plain", "low", "agg"]),
    };
    if !exists(&t, how) {
        return obs(&0);
    }
    let far = *ch.pick(&[-1i64, -86_400, -(1 << 31), 1 << 32, (1 << 32) + 1_600_000_000, 16_725_225_600, -11_676_096_000, -62_135_596_800, 253_402_300_799, 9_223_372_037, -9_223_372_038, -9_223_372_036]);
    let nanos = *ch.pick(&[0u32, 1, 999_999_999]);
    let good = 1_600_000_000i64;
    let data: Vec<(i64, u32)> = match ch.choose(3) {
        0 => vec![(far, nanos)],
        1 => vec![(good, 0), (far, nanos)],
        _ => vec![(far, nanos), (good, 0)],
    };
    let holds = match t {
        T::DateTime(_) => u32::try_from(far).is_ok(),
        T::DateTime64(p, _) => i64::try_from(far as i128 * 10i128.pow(p) + nanos as i128 / 10i128.pow(9 - p)).is_ok(),
        _ => unreachable!(),
    };
    ch.note(format!("{host:?} in zone {z} into {} inside {how}, {data:?}", t.name()));
    let ts = || data.iter().map(|x| at(z, x.0, x.1));
    let rows = |v: Vec<Value>| {
        let mut b = Block::new();
        for x in v {
            b.push(vec![("c".to_string(), x)]).map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(b)
    };
    let key = |m: &str| format!("too far, {m}: {host:?} into {how} {}", kind(&t));
    let b = guard(|| {
        Ok::<Block, String>(match host {
            Times => Block::new().column("c", ts().collect::<Vec<_>>()),
            OptTimes => Block::new().column("c", ts().map(Some).collect::<Vec<_>>()),
            VecTimes => Block::new().column("c", vec![ts().collect::<Vec<_>>()]),
            RowTimes => rows(ts().map(Value::from).collect())?,
            RowOptTimes => rows(ts().map(|x| Value::from(Some(x))).collect())?,
            _ => rows(ts().map(|x| Value::from(x.with_timezone(&Utc))).collect())?,
        })
    });
    let b = match b {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return obs(&e),
        Err(p) => return fail(key("build"), format!("building {host:?} of {data:?} panics: {p}")),
    };
    // What the block holds is the same instant.
    let held = guard(|| match b.columns()[0].sql_type() {
        clickhouse_rs::types::SqlType::Nullable(_) => (0..b.row_count()).map(|i| b.get::<Option<DateTime<Tz>>, _>(i, 0).map(|x| x.unwrap().timestamp())).collect::<Result<Vec<_>, _>>(),
        clickhouse_rs::types::SqlType::Array(_) => b.get::<Vec<DateTime<Tz>>, _>(0, 0).map(|v| v.iter().map(|x| x.timestamp()).collect()),
        _ => (0..b.row_count()).map(|i| b.get::<DateTime<Tz>, _>(i, 0).map(|x| x.timestamp())).collect(),
    });
    match held {
        Err(p) => return fail(key("reading"), format!("reading the block made of {data:?} panics: {p}")),
        Ok(Err(e)) => return fail(key("reading"), format!("reading the block made of {data:?}: {e}")),
        Ok(Ok(v)) if v != data.iter().map(|x| x.0).collect::<Vec<_>>() => return fail(key("reading"), format!("the block made of {data:?} holds {v:?}")),
        _ => {}
    }
    let wt = wrap(&t, how);
    let ins = answer_insert(&RBlock::new(vec![col("c", wt.clone(), vec![])]), false);
    let w = World::new(Box::new(move |_, _| ins.clone()));
    w.install();
    let r = guard(|| {
        block_on(async {
            let mut h = get(&pool("insert_timeout=100000s")).await.map_err(|e| format!("{e:?}"))?;
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    if let Some(m) = w.bad() {
        return fail(key("malformed"), format!("{host:?} into {}: the server cannot read the request: {m}", wt.name()));
    }
    let got: Vec<RBlock> = w.exchanges().into_iter().flat_map(|x| x.2).filter(|b| b.rows() > 0).collect();
    match r {
        Err(p) => fail(key("panic"), format!("inserting {data:?} into {} panics: {p}", wt.name())),
        Ok(None) => fail(key("hang"), format!("inserting {data:?} into {} hangs", wt.name())),
        Ok(Some(Ok(()))) if !holds => fail(key("stored"), format!("inserting {data:?} into {} succeeds, the server received {:?}", wt.name(), got.iter().map(|b| &b.cols[0].vals).collect::<Vec<_>>())),
        Ok(Some(Err(e))) if !got.is_empty() => fail(key("data"), format!("inserting {data:?} into {} fails with {e} after data was sent", wt.name())),
        Ok(Some(r)) => obs_n(&(host, &t, how, &data, r.is_ok()), 1),
    }
}

fn run(cx: &mut Ctx) {
    let own: Vec<Option<Tz>> = std::iter::once(None).chain(some_zones().into_iter().map(Some)).collect();
    let ps: Vec<u32> = (0..=9).collect();
    let ty = types(&own, &ps);
    let servers = some_zones();
    cx.explore("reading", move |ch| reading(ch, &servers, &ty, &WRAPS));
    let n = cx.pick(2, 3);
    cx.explore("sequences", move |ch| sequences(ch, n));
    let every: Vec<Tz> = chrono_tz::TZ_VARIANTS.to_vec();
    let ty = types(&[None, Some(Tz::America__New_York)], if cx.thorough { &[0, 3, 6, 9] } else { &[3] });
    cx.explore("every server zone", move |ch| reading(ch, &every, &ty, if ty.len() > 6 { &WRAPS } else { &WRAPS[..1] }));
    let ty = types(&chrono_tz::TZ_VARIANTS.iter().map(|z| Some(*z)).collect::<Vec<_>>(), if cx.thorough { &[0, 3, 6, 9] } else { &[3] });
    let servers = zones(&["America/St_Johns"]);
    cx.explore("every column zone", move |ch| reading(ch, &servers, &ty, &WRAPS[..1]));
    cx.explore("extremes", extremes);
    cx.explore("too far", |ch| too_far(ch, *ch.pick(&zones(&["UTC", "Asia/Kathmandu"]))));
    let own: Vec<Option<Tz>> = if cx.thorough { own } else { vec![None, Some(Tz::Asia__Kathmandu), Some(Tz::Pacific__Niue)] };
    let ty = types(&own, &ps);
    let servers = if cx.thorough { some_zones() } else { zones(&["UTC", "America/New_York"]) };
    let hosts = if cx.thorough { some_zones() } else { zones(&["UTC", "Asia/Tokyo", "America/St_Johns"]) };
    cx.explore("writing", move |ch| writing(ch, &servers, &ty, &hosts));
}
