//! Values written to the server.

use super::Prop;
use crate::{catalog::*, columns::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{Block, ClientHandle};
use futures_util::StreamExt;

pub const PROP: Prop = Prop {
    id: "C07",
    bounds: "every type of the catalogue (all scalars; nullable, array, map, low-cardinality, simple-aggregate wrappers; nestings to depth 4), inserted under a header of that type: every sequence of boundary values up to length 2 (quick) or 3 (thorough) and all values at once; built by every typed column constructor and row value that fits, as dynamic rows, taken from a streamed block and from the columns of a multi-block result; every ordered pair of types next to each other (thorough), with and without compression; dictionaries to 70000 entries, strings to 2^21 bytes",
    assumptions: &[
        "a decoder for ClickHouse's native format written from its documentation stands for the server",
        "where the natural type of the built column differs from the header and the crate offers no conversion, an error without data is accepted (C06)",
    ],
    run,
};

pub enum Source {
    Way(Way),
    Rows(&'static str, Vec<clickhouse_rs::types::Value>),
    Dynamic,
    Fetched,
    Columns(usize),
}

impl Source {
    pub fn name(&self) -> String {
        match self {
            Source::Way(w) => w.name.into(),
            Source::Rows(n, _) => format!("rows of {n}"),
            Source::Dynamic => "dynamic rows".into(),
            Source::Fetched => "a fetched block".into(),
            Source::Columns(k) => format!("a column of a result of blocks of {k}"),
        }
    }
}

pub fn sources(t: &T, vals: &[V]) -> Vec<Source> {
    let mut s: Vec<Source> = ways(t, vals).into_iter().map(Source::Way).collect();
    if !vals.is_empty() {
        s.extend(row_ways(t, vals).into_iter().map(|(n, v)| Source::Rows(n, v)));
        s.push(Source::Dynamic);
        s.push(Source::Columns(1));
        if vals.len() > 1 {
            s.push(Source::Columns(2));
        }
    }
    s.push(Source::Fetched);
    s
}

/// The type of a column the crate makes of dynamic values for cells of type `t`.
pub fn natural(t: &T) -> T {
    match t {
        T::Fixed(_) => T::Str,
        T::Low(t) | T::Agg(_, t) => natural(t),
        T::Dec(_, s) => T::Dec(18, *s),
        t => t.clone(),
    }
}

/// Conversions an insert has to offer.
pub fn converts(src: &T, dst: &T) -> bool {
    if norm_t(src) == norm_t(dst) {
        return true;
    }
    match (src, dst) {
        (T::Str, T::Fixed(_) | T::Ip4 | T::Ip6) => true,
        (T::Array(a), T::Str | T::Fixed(_)) => **a == T::U(8),
        (T::Dec(..), T::Dec(..)) => true,
        (T::Enum8(_), T::Enum8(_)) | (T::Enum16(_), T::Enum16(_)) => true,
        (T::Nullable(a), T::Nullable(b)) => matches!((&**a, &**b), (T::Str, T::Fixed(_)) | (T::Dec(..), T::Dec(..)) | (T::Enum8(_), T::Enum8(_)) | (T::Enum16(_), T::Enum16(_))),
        (s, T::Agg(_, d)) => converts(s, d),
        (T::Nullable(_), T::Low(_)) => false,
        (s, T::Low(d)) => norm_t(s) == norm_t(d) || (*s == T::Str && matches!(**d, T::Fixed(_))),
        _ => false,
    }
}

/// Whether a column (or rows) of this host type must be accepted for `t`.
fn offered(host: &str, t: &T, column: bool) -> bool {
    let bare = match t {
        T::Low(t) | T::Agg(_, t) => t,
        t => t,
    };
    let mut x = t;
    while let T::Agg(_, i) = x {
        x = i;
    }
    if matches!(x, T::Low(i) if matches!(**i, T::Nullable(_))) {
        return false;
    }
    if host.contains("Vec<u8>") {
        return match t {
            T::Array(_) => column,
            T::Str | T::Fixed(_) => true,
            T::Low(_) => !column,
            _ => matches!(bare, T::Str | T::Fixed(_)),
        };
    }
    // a conversion is offered at the top level only
    match bare {
        T::Array(x) => !matches!(**x, T::Fixed(_)),
        T::Map(k, v) => !matches!(**k, T::Fixed(_)) && !matches!(**v, T::Fixed(_)),
        _ => true,
    }
}

pub fn rblock(t: &T, vals: &[V]) -> RBlock {
    RBlock::new(vec![col("c", t.clone(), vals.to_vec())])
}

pub async fn build(h: &mut ClientHandle, t: &T, vals: &[V], src: &Source) -> Result<Block, String> {
    match src {
        Source::Way(w) => Ok((w.add)(Block::new())),
        Source::Rows(_, v) => {
            let mut b = Block::new();
            for x in v {
                b.push(vec![("c".to_string(), x.clone())]).map_err(|e| e.to_string())?;
            }
            Ok(b)
        }
        Source::Dynamic => make_block(&rblock(t, vals)),
        Source::Fetched => {
            let mut s = h.query("S").stream_blocks();
            let mut last = None;
            while let Some(b) = s.next().await {
                last = Some(b.map_err(|e| e.to_string())?);
            }
            last.ok_or_else(|| "no block".into())
        }
        Source::Columns(_) => {
            let b = h.query("S").fetch_all().await.map_err(|e| e.to_string())?;
            Ok(Block::new().column("c", b.columns()[0].clone()))
        }
    }
}

/// Inserts and returns the blocks the server received, without the end marker.
pub fn insert(t: &T, vals: &[V], src: &Source, compress: bool) -> Result<(Result<(), String>, Vec<RBlock>), Fail> {
    let key = |m: &str| format!("{m}: {} from {}", t.name(), src.name());
    let k = if let Source::Columns(k) = src { *k } else { vals.len().max(1) };
    let blocks: Vec<RBlock> = if vals.is_empty() { vec![rblock(t, vals)] } else { vals.chunks(k).map(|c| rblock(t, c)).collect() };
    let sel = answer(&blocks, compress);
    let ins = answer_insert(&rblock(t, &[]), compress);
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { sel.clone() } else { ins.clone() }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool(if compress { "compression=lz4&insert_timeout=100000s" } else { "insert_timeout=100000s" });
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let b = build(&mut h, t, vals, src).await.map_err(|e| format!("building: {e}"))?;
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    let r = match r {
        Err(p) => return fail(key("panic"), format!("inserting {} from {} panics: {p}", t.name(), src.name())),
        Ok(None) => return fail(key("hang"), format!("inserting {} from {} hangs", t.name(), src.name())),
        Ok(Some(r)) => r,
    };
    if let Some(bad) = w.bad() {
        return fail(key("malformed"), format!("inserting {} from {}: the server cannot read the request: {bad}", t.name(), src.name()));
    }
    let mut got = vec![];
    for (_, sql, b) in w.exchanges() {
        if sql != "S" {
            got.extend(b.into_iter().filter(|b| !b.cols.is_empty()));
        }
    }
    Ok((r, got))
}

pub fn check(t: &T, vals: &[V], src: &Source, compress: bool) -> Result<u64, Fail> {
    let key = |m: &str| format!("{m}: {} from {}", t.name(), src.name());
    let (r, got) = insert(t, vals, src, compress)?;
    match r {
        Err(e) => {
            let must = match src {
                Source::Fetched | Source::Columns(_) => true,
                Source::Dynamic => converts(&natural(t), t),
                Source::Way(w) => offered(w.name.strip_prefix("Vec<").unwrap_or(w.name), t, true),
                Source::Rows(n, _) => offered(n, t, false),
            };
            if must {
                return fail(key("refused"), format!("inserting {} {vals:?} from {}: {e}", t.name(), src.name()));
            }
            if !got.is_empty() {
                return fail(key("data"), format!("inserting {} from {} fails with {e} after data was sent", t.name(), src.name()));
            }
            Ok(1)
        }
        Ok(()) => {
            let rows: usize = got.iter().map(|b| b.rows()).sum();
            let all = concat(&got);
            if all.cols.len() != 1 || rows != vals.len() {
                if rows == 0 && vals.is_empty() {
                    return Ok(1);
                }
                return fail(key("shape"), format!("inserting {} {vals:?} from {}: the server received {got:?}", t.name(), src.name()));
            }
            let c = &all.cols[0];
            if norm_t(&c.ty) != norm_t(t) {
                return fail(key("type"), format!("inserting {} from {}: the column is announced as {}", t.name(), src.name(), c.ty.name()));
            }
            let a: Vec<V> = c.vals.iter().map(norm_v).collect();
            let b: Vec<V> = vals.iter().map(norm_v).collect();
            if a != b || c.name != "c" {
                return fail(key("values"), format!("inserting {} from {}: put in {b:?}, the server received {a:?}", t.name(), src.name()));
            }
            Ok(2)
        }
    }
}

fn all_values(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let mut vals = values(t);
    // text constructors take text only
    if ch.flag() {
        vals.retain(utf8);
    }
    let s = sources(t, &vals);
    let src = ch.pick(&s);
    let compress = ch.flag();
    ch.note(format!("{} from {}, compress={compress}: {vals:?}", t.name(), src.name()));
    let n = check(t, &vals, src, compress)?;
    obs_n(&(t, src.name(), compress, vals), n)
}

fn sequences(ch: &Ch, types: &[T], max: usize) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let vs = values(t);
    let mut vals = vec![];
    for _ in 0..max {
        let k = ch.choose(vs.len() + 1);
        if k == 0 {
            break;
        }
        vals.push(vs[k - 1].clone());
    }
    let s = sources(t, &vals);
    let src = ch.pick(&s);
    ch.note(format!("{} from {}: {vals:?}", t.name(), src.name()));
    let n = check(t, &vals, src, false)?;
    obs_n(&(t, src.name(), vals), n)
}

/// Many distinct values, repeated, for the dictionary of a low-cardinality column.
fn dictionaries(ch: &Ch) -> Result<Obs, Fail> {
    let sizes = [1usize, 2, 127, 128, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537, 70000];
    let n = *ch.pick(&sizes);
    let repeat = 1 + ch.choose(2);
    let t = ch.pick(&[low(T::Str), low(T::U(32)), low(T::Fixed(3)), low(T::DateTime(None))]).clone();
    let mut vals = vec![];
    for r in 0..repeat {
        for i in 0..n {
            let i = if r == 1 { n - 1 - i } else { i };
            vals.push(match &t {
                T::Low(x) => match **x {
                    T::Str => V::B(format!("{i}").into_bytes()),
                    T::Fixed(_) => V::B(vec![i as u8, (i >> 8) as u8, (i >> 16) as u8]),
                    _ => V::U(i as u128),
                },
                _ => unreachable!(),
            });
        }
    }
    let s = sources(&t, &vals[..1.min(vals.len())]);
    let k = ch.choose(s.len());
    let s = sources(&t, &vals);
    let Some(src) = s.get(k) else { return obs(&0) };
    if matches!(src, Source::Columns(_)) && n > 300 {
        return obs(&1);
    }
    ch.note(format!("{} with {n} keys, {} rows from {}", t.name(), vals.len(), src.name()));
    let c = check(&t, &vals, src, false).map_err(|mut f| {
        f.msg.truncate(300);
        f
    })?;
    obs_n(&(t, n, repeat, src.name()), c)
}

fn lengths(ch: &Ch) -> Result<Obs, Fail> {
    let sizes = [0usize, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 65535, 65536, 1 << 20, (1 << 21) - 1, 1 << 21];
    let n = *ch.pick(&sizes);
    let compress = ch.flag();
    let t = ch.pick(&[T::Str, nullable(T::Str), array(T::Str), T::Fixed(n.max(1)), array(T::U(8)), low(T::Str), map(T::Str, T::Str)]).clone();
    let x = V::B((0..n).map(|i| (i % 127) as u8).collect());
    let y = V::B(vec![b'z'; n]);
    let vals = match &t {
        T::Array(e) if **e == T::U(8) => vec![V::A((0..n).map(|i| V::U((i % 251) as u128)).collect()), V::A(vec![V::U(7)]), V::A(vec![])],
        T::Array(_) => vec![V::A(vec![x.clone(), s("q")]), V::A(vec![]), V::A(vec![y])],
        T::Map(..) => vec![V::M(vec![(s("k"), x.clone()), (y, s("v"))])],
        T::Fixed(k) => vec![V::B((0..*k).map(|i| (i % 127) as u8).collect()), V::B(vec![b'z'; *k])],
        _ => vec![x, s("q"), y],
    };
    let s = sources(&t, &vals);
    let src = ch.pick(&s);
    ch.note(format!("{} of length {n} from {}, compress={compress}", t.name(), src.name()));
    let c = check(&t, &vals, src, compress).map_err(|mut f| {
        f.msg.truncate(300);
        f
    })?;
    obs_n(&(t, n, compress, src.name()), c)
}

/// Two columns next to each other.
fn pairs(ch: &Ch, left: &[T], right: &[T]) -> Result<Obs, Fail> {
    let a = ch.pick(left);
    let b = ch.pick(right);
    let (va, vb) = (values(a), values(b));
    let n = va.len().min(vb.len()).min(3);
    let block = RBlock::new(vec![col("a", a.clone(), va[va.len() - n..].to_vec()), col("b", b.clone(), vb[..n].to_vec())]);
    ch.note(format!("{} next to {}", a.name(), b.name()));
    let sel = answer(&[block.clone()], false);
    let ins = answer_insert(&block, false);
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { sel.clone() } else { ins.clone() }));
    w.install();
    let key = format!("pair {} {}", a.name(), b.name());
    let r = block_on(async {
        let p = pool("insert_timeout=100000s");
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        let b = build(&mut h, a, &[], &Source::Fetched).await?;
        h.insert("t", b).await.map_err(|e| e.to_string())
    });
    match r {
        Some(Ok(())) => {}
        r => return fail(key, format!("inserting {} next to {}: {r:?}", a.name(), b.name())),
    }
    if let Some(bad) = w.bad() {
        return fail(key, format!("{} next to {}: the server cannot read the request: {bad}", a.name(), b.name()));
    }
    let ex = w.exchanges();
    let got: Vec<RBlock> = ex[1].2.iter().filter(|b| !b.cols.is_empty()).map(norm_b).collect();
    if got != [norm_b(&block)] {
        return fail(key, format!("sent {block:?}, the server received {got:?}"));
    }
    obs(&(a, b))
}

fn run(cx: &mut Ctx) {
    let types = all_types();
    let ty = types.clone();
    cx.explore("all values", move |ch| all_values(ch, &ty));
    let n = cx.pick(2, 3);
    let ty = types.clone();
    cx.explore("sequences", move |ch| sequences(ch, &ty, n));
    let left = if cx.thorough { types.clone() } else { scalars() };
    let right = types.clone();
    cx.explore("pairs", move |ch| pairs(ch, &left, &right));
    cx.explore("dictionaries", dictionaries);
    cx.explore("lengths", lengths);
}
