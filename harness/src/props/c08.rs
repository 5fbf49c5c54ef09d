//! Values read from the server, through every accessor.

use super::Prop;
use crate::{access::*, catalog::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{types::Complex, Block};
use futures_util::StreamExt;

pub const PROP: Prop = Prop {
    id: "C08",
    bounds: "every type of the catalogue (all scalars; nullable, array, map, low-cardinality, simple-aggregate wrappers; nestings to depth 4): every sequence of boundary values up to length 2 (quick) or 3 (thorough), all values at once, split into blocks in 5 ways; every ordered pair of types next to each other; LowCardinality with every index width and dictionary sizes to 70000; string lengths to 2^21; every accessor of every block",
    assumptions: &[
        "typed accessors that the crate does not offer for a type (iterators over enums, over non-string low-cardinality columns, over simple aggregates of non-numbers) may refuse with an error",
        "the server's time zone is UTC (other zones: C20)",
    ],
    run,
};

/// Splits `vals` into blocks.
fn split(t: &T, vals: &[V], how: usize) -> Vec<RBlock> {
    let mk = |v: &[V]| RBlock::new(vec![col("c", t.clone(), v.to_vec())]);
    match how {
        0 => vec![mk(vals)],
        1 => vals.chunks(1).map(mk).collect(),
        2 => vals.chunks(2).map(mk).collect(),
        3 => {
            let mut v = vec![mk(&[])];
            for x in vals.chunks(3) {
                v.push(mk(x));
                v.push(mk(&[]));
            }
            v
        }
        _ => {
            let (a, b) = vals.split_at(vals.len() / 2);
            vec![mk(a), mk(b)]
        }
    }
}

enum Got {
    All(Block<Complex>),
    Parts(Vec<Block>),
}

fn fetch(w: &World, mode: usize, params: &str) -> Result<Got, Fail> {
    w.install();
    let r = block_on(async {
        let p = pool(params);
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        let f = async {
            if mode == 0 {
                h.query("SELECT").fetch_all().await.map(Got::All).map_err(|e| e.to_string())
            } else {
                let mut s = h.query("SELECT").stream_blocks();
                let mut v = vec![];
                while let Some(b) = s.next().await {
                    v.push(b.map_err(|e| e.to_string())?);
                }
                Ok(Got::Parts(v))
            }
        };
        tokio::time::timeout(ms(1_000_000), f).await.unwrap_or_else(|_| Err("hang".into()))
    });
    match r {
        None => fail("hang", "the query hangs"),
        Some(Err(e)) => fail("query", format!("the query fails: {e}")),
        Some(Ok(g)) => Ok(g),
    }
}

fn compare(t: &T, want: &[V], reads: Vec<Read>) -> Result<u64, Fail> {
    let mut n = 0;
    let want: Vec<V> = want.iter().map(norm_v).collect();
    let utf8 = |v: &V| !format!("{v:?}").is_empty() && ok_utf8(v);
    for r in reads {
        let key = format!("{} of {}", r.name, t.name());
        match r.vals {
            Err(p) => return fail(key, format!("{} on a column of type {} panics: {p}", r.name, t.name())),
            Ok(Err(e)) => {
                if r.must || (r.name.starts_with("get") && (r.name.contains("String") || r.name.contains("str")) && !matches!(t, T::Array(i) if matches!(**i, T::Low(_))) && want.iter().all(utf8)) {
                    return fail(key, format!("{} on a column of type {} fails: {e}", r.name, t.name()));
                }
            }
            Ok(Ok(got)) => {
                let got: Vec<V> = got.iter().map(norm_v).collect();
                // Vec<u8> of a string and the like
                let flat = |v: &V| flatten(v);
                if got != want && got.iter().map(flat).collect::<Vec<_>>() != want.iter().map(flat).collect::<Vec<_>>() {
                    return fail(key, format!("{} on a column of type {}: sent {want:?}, read {got:?}", r.name, t.name()));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

fn ok_utf8(v: &V) -> bool {
    match v {
        V::B(b) => std::str::from_utf8(b).is_ok(),
        V::A(x) => x.iter().all(ok_utf8),
        V::M(x) => x.iter().all(|(a, b)| ok_utf8(a) && ok_utf8(b)),
        _ => true,
    }
}

/// Byte arrays and byte strings alike.
fn flatten(v: &V) -> V {
    match v {
        V::A(x) if !x.is_empty() && x.iter().all(|x| matches!(x, V::U(b) if *b < 256)) => V::B(x.iter().map(|x| if let V::U(b) = x { *b as u8 } else { 0 }).collect()),
        V::A(x) if x.is_empty() => V::B(vec![]),
        V::A(x) => V::A(x.iter().map(flatten).collect()),
        v => v.clone(),
    }
}

fn judge(t: &T, want: &[V], c: usize, got: &Got) -> Result<u64, Fail> {
    let mut n = 0;
    match got {
        Got::All(b) => {
            if b.row_count() != want.len() {
                return fail(format!("rows of {}", t.name()), format!("{} rows of type {} read, {} sent", b.row_count(), t.name(), want.len()));
            }
            let tn = b.columns()[c].sql_type().to_string();
            if T::parse(&tn).map(|x| norm_t(&x)) != Some(norm_t(t)) {
                return fail(format!("type of {}", t.name()), format!("a column of type {} is announced as {tn}", t.name()));
            }
            let mut reads = vec![];
            gets_complex(b, c, t, &mut reads);
            iters_complex(&b.columns()[c], t, &mut reads);
            let rows = guard(|| b.rows().map(|r| r.get::<Cell, _>(c).map(|x| norm_v(&x.0)).map_err(|e| e.to_string())).collect());
            reads.push(Read { name: "rows().get".into(), must: true, vals: rows });
            let name = b.columns()[c].name().to_string();
            let rows = guard(|| b.rows().map(|r| r.get::<Cell, _>(name.as_str()).map(|x| norm_v(&x.0)).map_err(|e| e.to_string())).collect());
            reads.push(Read { name: "rows().get(name)".into(), must: true, vals: rows });
            n += compare(t, want, reads)?;
        }
        Got::Parts(bs) => {
            let mut at = 0;
            for b in bs {
                if b.column_count() == 0 {
                    continue;
                }
                let k = b.row_count();
                if at + k > want.len() {
                    return fail(format!("rows of {}", t.name()), format!("more rows of type {} read than sent", t.name()));
                }
                let mut reads = vec![];
                gets_simple(b, c, t, &mut reads);
                iters_simple(&b.columns()[c], t, &mut reads);
                let rows = guard(|| b.rows().map(|r| r.get::<Cell, _>(c).map(|x| norm_v(&x.0)).map_err(|e| e.to_string())).collect());
                reads.push(Read { name: "rows().get".into(), must: true, vals: rows });
                n += compare(t, &want[at..at + k], reads)?;
                at += k;
            }
            if at != want.len() {
                return fail(format!("rows of {}", t.name()), format!("{at} rows of type {} read, {} sent", t.name(), want.len()));
            }
        }
    }
    Ok(n)
}

fn all_values(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let how = ch.choose(5);
    let mode = ch.choose(2);
    let compress = ch.flag();
    let vals = values(t);
    ch.note(format!("{} in layout {how}, {}, compress={compress}", t.name(), ["fetch_all", "stream_blocks"][mode]));
    let blocks = split(t, &vals, how);
    let st = answer(&blocks, compress);
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, mode, if compress { "compression=lz4" } else { "" })?;
    let n = judge(t, &vals, 0, &got)?;
    obs_n(&(t, how, mode, vals), n)
}

/// Every sequence of boundary values.
fn sequences(ch: &Ch, types: &[T], max: usize) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let vs = values(t);
    let mut vals = vec![];
    for _ in 0..max {
        let k = ch.choose(vs.len() + 1);
        if k == 0 {
            break;
        }
        vals.push(vs[k - 1].clone());
    }
    let mode = ch.choose(2);
    ch.note(format!("{} {vals:?} {}", t.name(), ["fetch_all", "stream_blocks"][mode]));
    let blocks = split(t, &vals, 0);
    let st = answer(&blocks, false);
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, mode, "")?;
    let n = judge(t, &vals, 0, &got)?;
    obs_n(&(t, mode, vals), n)
}

/// Columns next to each other.
fn pairs(ch: &Ch, left: &[T], right: &[T]) -> Result<Obs, Fail> {
    let (a, b) = (ch.pick(left), ch.pick(right));
    let swap = ch.flag();
    let (a, b) = if swap { (b, a) } else { (a, b) };
    ch.note(format!("columns {} and {}", a.name(), b.name()));
    let (va, vb) = (values(a), values(b));
    let n = va.len().max(vb.len());
    let va: Vec<V> = (0..n).map(|i| va[i % va.len()].clone()).collect();
    let vb: Vec<V> = (0..n).map(|i| vb[i % vb.len()].clone()).collect();
    let mk = |r: std::ops::Range<usize>| RBlock::new(vec![col("a", a.clone(), va[r.clone()].to_vec()), col("b", b.clone(), vb[r].to_vec())]);
    let st = answer(&[mk(0..n / 2), mk(n / 2..n)], false);
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, 0, "")?;
    let x = judge(a, &va, 0, &got)? + judge(b, &vb, 1, &got)?;
    obs_n(&(a, b), x)
}

/// Index widths and dictionary sizes.
fn dictionaries(ch: &Ch) -> Result<Obs, Fail> {
    let size = *ch.pick(&[0usize, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 70000]);
    let width = ch.choose(4) as u8;
    let small = size + 1 <= 1usize << (8 * (1 << width)).min(40);
    let mode = ch.choose(2);
    let ty = ch.choose(3);
    if !small || (ty == 1 && size > 65535) {
        return obs(&0);
    }
    let t = low([T::Str, T::Date, T::U(64)][ty].clone());
    ch.note(format!("{} with {size} distinct values, index width {width}", t.name()));
    let mk = |i: usize| match ty {
        0 => s(&format!("v{i}")),
        1 => V::U(i as u128),
        _ => V::U(1 + i as u128 * 7),
    };
    let mut vals: Vec<V> = (0..size).map(mk).collect();
    vals.extend((0..size.min(300)).rev().map(mk));
    LOW_WIDTH.with(|w| w.set(Some(width)));
    let st = answer(&split(&t, &vals, 0), false);
    LOW_WIDTH.with(|w| w.set(None));
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, mode, "")?;
    let n = judge(&t, &vals, 0, &got).map_err(|f| Fail { key: f.key, msg: f.msg.chars().take(400).collect() })?;
    obs_n(&(size, width, mode), n)
}

/// Strings around the lengths at which the length prefix grows.
fn lengths(ch: &Ch) -> Result<Obs, Fail> {
    let l = *ch.pick(&[0usize, 1, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, (1 << 21) - 1, 1 << 21, (1 << 21) + 1]);
    let ty = ch.choose(6);
    let mode = ch.choose(2);
    let compress = ch.flag();
    let x = V::B((0..l).map(|i| (i * 31 % 251) as u8).collect());
    let (t, vals) = match ty {
        0 => (T::Str, vec![s("before"), x, s("after")]),
        1 => (nullable(T::Str), vec![V::Null, x, s("after")]),
        2 => (array(T::Str), vec![V::A(vec![s("b")]), V::A(vec![x, s("c")]), V::A(vec![s("after")])]),
        3 => (low(T::Str), vec![s("before"), x.clone(), s("after"), x]),
        4 => (map(T::Str, T::Str), vec![V::M(vec![(x.clone(), x)]), V::M(vec![(s("k"), s("after"))])]),
        _ => {
            if l == 0 {
                return obs(&0);
            }
            let y = V::B(vec![b'z'; l]);
            (T::Fixed(l), vec![y.clone(), x, y])
        }
    };
    ch.note(format!("{} with a string of {l} bytes", t.name()));
    let st = answer(&split(&t, &vals, 0), compress);
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, mode, if compress { "compression=lz4" } else { "" })?;
    let n = judge(&t, &vals, 0, &got).map_err(|f| Fail { key: f.key, msg: f.msg.chars().take(400).collect() })?;
    obs_n(&(l, ty, mode), n)
}

/// Cells addressed by name and by index, inside and outside the result.
pub fn addressing(ch: &Ch) -> Result<Obs, Fail> {
    let names = ["a", "b", "A", "", "ü", "a b", "`x`"];
    let n = 1 + ch.choose(3);
    let mut cols = vec![];
    for i in 0..n {
        let name = *ch.pick(&names);
        cols.push((name, i as u128 * 100));
    }
    let parts = *ch.pick(&[&[0usize][..], &[2], &[1, 2], &[1, 0, 2], &[0, 1]]);
    let mode = ch.choose(2);
    let total: usize = parts.iter().sum();
    let mut blocks = vec![];
    let mut at = 0;
    for p in parts {
        blocks.push(RBlock::new(cols.iter().map(|(nm, base)| col(nm, T::U(32), (at..at + p).map(|r| V::U(base + r as u128)).collect())).collect()));
        at += p;
    }
    ch.note(format!("columns {cols:?}, blocks of {parts:?} rows, mode {mode}"));
    let st = answer(&blocks, false);
    let w = World::new(Box::new(move |_, _| st.clone()));
    let got = fetch(&w, mode, "")?;
    let mut checks = 0;
    macro_rules! probe {
        ($b:expr, $base:expr, $rows:expr) => {{
            let (b, base, rows): (_, usize, usize) = ($b, $base, $rows);
            for r in (0..rows + 3).chain([usize::MAX, usize::MAX / 2, 1 << 32]) {
                for c in (0..n + 2).chain([usize::MAX]) {
                    let x = guard(|| b.get::<u32, _>(r, c).map_err(|_| ()));
                    let want = if r < rows && c < n { Ok((c * 100 + base + r) as u32) } else { Err(()) };
                    checks += 1;
                    match x {
                        Err(p) => return fail(if c < n { "row out of range" } else { "column out of range" }, format!("get({r}, {c}) of a {rows}x{n} result panics: {p}")),
                        Ok(x) if x != want => return fail("get by index", format!("get({r}, {c}) of a {rows}x{n} result gives {x:?}, not {want:?}")),
                        _ => {}
                    }
                }
                for nm in names.iter().copied().chain(["nope", "a "]) {
                    let first = cols.iter().position(|c| c.0 == nm);
                    let want = match first {
                        Some(c) if r < rows => Ok((c * 100 + base + r) as u32),
                        _ => Err(()),
                    };
                    let x = guard(|| b.get::<u32, _>(r, nm).map_err(|_| ()));
                    let y = guard(|| b.get_column(nm).map(|c| c.name().to_string()).map_err(|_| ()));
                    checks += 2;
                    match x {
                        Err(p) => return fail("row out of range", format!("get({r}, {nm:?}) of a {rows}x{n} result panics: {p}")),
                        Ok(x) if x != want => return fail("get by name", format!("get({r}, {nm:?}) gives {x:?}, not {want:?}")),
                        _ => {}
                    }
                    if y != Ok(first.map(|_| nm.to_string()).ok_or(())) {
                        return fail("get_column", format!("get_column({nm:?}) gives {y:?}"));
                    }
                }
            }
            for (r, row) in b.rows().enumerate() {
                if row.len() != n || row.is_empty() {
                    return fail("row length", format!("a row of {n} columns says it has {}", row.len()));
                }
                for c in (0..n + 2).chain([usize::MAX]) {
                    let x = guard(|| (row.get::<u32, _>(c).map_err(|_| ()), row.name(c).map(|x| x.to_string()).map_err(|_| ()), row.sql_type(c).map(|t| t.to_string().into_owned()).map_err(|_| ())));
                    let want = if c < n { (Ok((c * 100 + base + r) as u32), Ok(cols[c].0.to_string()), Ok("UInt32".to_string())) } else { (Err(()), Err(()), Err(())) };
                    checks += 1;
                    match x {
                        Err(p) => return fail("row access out of range", format!("cell {c} of a row of {n} columns: panics: {p}")),
                        Ok(x) if x != want => return fail("row access", format!("cell {c} of row {r}: {x:?}, not {want:?}")),
                        _ => {}
                    }
                }
                if r >= rows {
                    return fail("rows()", "more rows than the result has");
                }
            }
            for c in (0..n + 2).chain([usize::MAX]) {
                let y = guard(|| b.get_column(c).map(|c| c.name().to_string()).map_err(|_| ()));
                let want = if c < n { Ok(cols[c].0.to_string()) } else { Err(()) };
                match y {
                    Err(p) => return fail("get_column out of range", format!("get_column({c}) of {n} columns panics: {p}")),
                    Ok(y) if y != want => return fail("get_column", format!("get_column({c}) gives {y:?}")),
                    _ => {}
                }
            }
        }};
    }
    match &got {
        Got::All(b) => probe!(b, 0, total),
        Got::Parts(bs) => {
            let mut base = 0;
            for b in bs.iter().filter(|b| b.column_count() > 0) {
                let k = b.row_count();
                probe!(b, base, k);
                base += k;
            }
            if base != total {
                return fail("rows", format!("{base} rows, {total} sent"));
            }
        }
    }
    obs_n(&(cols, parts, mode), checks)
}

fn run(cx: &mut Ctx) {
    let types = all_types();
    let ty = types.clone();
    cx.explore("all values", move |ch| all_values(ch, &ty));
    let n = cx.pick(2, 3);
    let ty = types.clone();
    cx.explore("sequences", move |ch| sequences(ch, &ty, n));
    let left = if cx.thorough { types.clone() } else { scalars() };
    let right = types.clone();
    cx.explore("pairs", move |ch| pairs(ch, &left, &right));
    cx.explore("dictionaries", dictionaries);
    cx.explore("lengths", lengths);
    cx.explore("addressing", addressing);
}
