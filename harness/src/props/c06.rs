//! Inserts.

use super::{c07, Prop};
use crate::{catalog::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{types::Query, verif::set_chunk_size, Block};
use futures_util::StreamExt;

pub const PROP: Prop = Prop {
    id: "C06",
    bounds: "conversions: every pair of catalogue types (given column x requested column), 3 rows, dynamic rows and fetched columns, whole and in chunks of 1 and 2; chunks: every catalogue type from every source it can be built of with 2 to 4 (thorough: 6) rows in chunks of 1 to 3; every catalogue type, every row count to 3 chunks + 1 with chunks of 1..=3 rows (test hook), and counts around 1, 2 and 3 times 1048576 rows with the real limit for 24 column kinds; statements: every sequence of up to 3 columns over 11 names, with and without query id; histories: every sequence of up to 3 (thorough: 4) operations over inserts of 0/1/2/5 rows, queries, failing inserts, on one handle or through the pool; reply noise: progress, profile and column-default packets at every position; headers with fewer, more or other columns; every confirmation that is missing, cut, or something else",
    assumptions: &[
        "the server asks for the columns in the order of the statement, as ClickHouse does",
        "String to FixedString pads with zero bytes and cuts, as the crate's adapters do",
        "where the crate offers no conversion an error before any data is accepted",
    ],
    run,
};

fn fixed(b: &[u8], n: usize) -> V {
    let mut b = b.to_vec();
    b.resize(n, 0);
    V::B(b)
}

/// What a value has to become; None: no such conversion.
fn convert(src: &T, dst: &T, v: &V) -> Option<V> {
    if norm_t(src) == norm_t(dst) {
        return Some(v.clone());
    }
    match (src, dst, v) {
        (T::Str | T::Fixed(_), T::Fixed(n), V::B(b)) => Some(fixed(b, *n)),
        (T::Fixed(_), T::Str, v) => Some(v.clone()),
        (T::Str, T::Ip4, V::B(b)) => {
            let a: std::net::Ipv4Addr = std::str::from_utf8(b).ok()?.parse().ok()?;
            Some(V::U(u32::from(a) as u128))
        }
        (T::Str, T::Ip6, V::B(b)) => {
            let a: std::net::Ipv6Addr = std::str::from_utf8(b).ok()?.parse().ok()?;
            Some(V::B(a.octets().to_vec()))
        }
        (T::Array(t), T::Str, V::A(x)) if **t == T::U(8) => Some(V::B(x.iter().map(|v| if let V::U(x) = v { *x as u8 } else { 0 }).collect())),
        (T::Array(t), T::Fixed(n), V::A(x)) if **t == T::U(8) => Some(fixed(&x.iter().map(|v| if let V::U(x) = v { *x as u8 } else { 0 }).collect::<Vec<_>>(), *n)),
        (T::Dec(_, a), T::Dec(_, b), V::I(x)) => {
            if b >= a {
                x.checked_mul(10i128.pow((b - a) as u32)).map(V::I)
            } else {
                Some(V::I(x / 10i128.pow((a - b) as u32)))
            }
        }
        (T::Enum8(_), T::Enum8(_), v) | (T::Enum16(_), T::Enum16(_), v) => Some(v.clone()),
        (T::Nullable(_), T::Nullable(_), V::Null) => Some(V::Null),
        (T::Nullable(a), T::Nullable(b), v) => convert(a, b, v),
        (T::DateTime(_), T::DateTime64(p, _), V::U(x)) => Some(V::I(*x as i128 * 10i128.pow(*p))),
        (T::Array(a), T::Array(b), V::A(x)) => x.iter().map(|v| convert(a, b, v)).collect::<Option<Vec<V>>>().map(V::A),
        (T::Map(k, w), T::Map(k2, w2), V::M(x)) => x.iter().map(|(a, b)| Some((convert(k, k2, a)?, convert(w, w2, b)?))).collect::<Option<Vec<_>>>().map(V::M),
        (T::Agg(_, a) | T::Low(a), _, v) => convert(a, dst, v),
        (_, T::Agg(_, b) | T::Low(b), v) => convert(src, b, v),
        (T::Nullable(a), _, v) if *v != V::Null => convert(a, dst, v),
        (_, T::Nullable(b), v) => convert(src, b, v),
        _ => None,
    }
}

/// Values that do not fit (decimals) may be refused.
fn fits(dst: &T, v: &V) -> bool {
    match (dst, v) {
        (T::Dec(p, _), V::I(x)) => x.unsigned_abs() < 10u128.pow(*p as u32),
        (T::Nullable(t) | T::Agg(_, t) | T::Low(t), v) => fits(t, v),
        (T::Array(t), V::A(x)) => x.iter().all(|v| fits(t, v)),
        _ => true,
    }
}

struct Given {
    ty: T,
    vals: Vec<V>,
    dynamic: bool,
    /// rows per chunk; 0: the real limit
    size: usize,
}

async fn make(h: &mut clickhouse_rs::ClientHandle, b: &RBlock, dynamic: bool) -> Result<Block, String> {
    if dynamic {
        make_block(b)
    } else {
        let mut s = h.query("S").stream_blocks();
        let mut last = None;
        while let Some(b) = s.next().await {
            last = Some(b.map_err(|e| e.to_string())?);
        }
        last.ok_or_else(|| "no block".into())
    }
}

fn conversions(ch: &Ch, types: &[T], targets: &[T]) -> Result<Obs, Fail> {
    let src = ch.pick(types).clone();
    let dynamic = ch.flag();
    let dst = ch.pick(targets).clone();
    let vals: Vec<V> = {
        let v = values(&src);
        let n = v.len();
        // short arrays of bytes keep strings comparable
        [&v[0], &v[1 % n], &v[n - 1]].into_iter().cloned().collect()
    };
    // the values also arrive when the block is cut
    let size = ch.choose(3);
    one_conversion(ch, Given { ty: src, vals, dynamic, size }, dst)
}

fn texts(ch: &Ch) -> Result<Obs, Fail> {
    let texts = ["1.2.3.4", "0.0.0.0", "255.255.255.255", "::1", "ffff::1.2.3.4", "2001:db8::ff00:42:8329", "", "1.2.3", "1.2.3.4.5", "256.1.1.1", "x", "::g", "1.2.3.4 ", "1"];
    let dst = ch.pick(&[T::Ip4, T::Ip6, T::Fixed(1), T::Fixed(4), T::Fixed(20), low(T::Fixed(4)), low(T::Str), agg("any", T::Fixed(4)), agg("any", T::Ip4)]).clone();
    let n = 1 + ch.choose(3);
    let vals = (0..n).map(|_| s(ch.pick(&texts))).collect();
    let dynamic = ch.flag();
    one_conversion(ch, Given { ty: T::Str, vals, dynamic, size: 0 }, dst)
}

fn one_conversion(ch: &Ch, g: Given, dst: T) -> Result<Obs, Fail> {
    let given = RBlock::new(vec![col("k", T::U(8), (0..g.vals.len()).map(|i| V::U(i as u128)).collect()), col("c", g.ty.clone(), g.vals.clone())]);
    let asked = RBlock::new(vec![col("k", T::U(8), vec![]), col("c", dst.clone(), vec![])]);
    let cut = if g.size > 0 { format!(" in chunks of {}", g.size) } else { String::new() };
    let what = format!("{} into {}{}{cut}", g.ty.name(), dst.name(), if g.dynamic { " from rows" } else { "" });
    ch.note(format!("{what}: {:?}", g.vals));
    let sel = answer(&[given.clone()], false);
    let ins = answer_insert(&asked, false);
    let after = answer(&[RBlock::new(vec![col("z", T::U(8), vec![V::U(77)])])], false);
    let w = World::new(Box::new(move |_, q| match q.sql.as_str() {
        "S" => sel.clone(),
        "Z" => after.clone(),
        _ => ins.clone(),
    }));
    w.install();
    set_chunk_size((g.size > 0).then_some(g.size));
    let r = guard(|| {
        block_on(async {
            let p = pool("");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let b = make(&mut h, &given, g.dynamic).await;
            let r = match b {
                Ok(b) => Some(h.insert("t", b).await.map_err(|e| e.to_string())),
                Err(_) => None,
            };
            let z = run_op(&mut h, &Op::Fetch("Z".into())).await;
            drop(h);
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let z2 = run_op(&mut h, &Op::Fetch("Z".into())).await;
            let ok = |o: &Out| o.data() == Some(norm_b(&RBlock::new(vec![col("z", T::U(8), vec![V::U(77)])])));
            if !ok(&z) || !ok(&z2) {
                return Err(format!("the next query gives {z:?}, {z2:?}"));
            }
            Ok(r)
        })
    });
    set_chunk_size(None);
    let key = |m: &str| format!("{m}: {what}");
    let r = match r {
        Err(p) => return fail(key("panic"), format!("inserting {what} panics: {p}")),
        Ok(None) => return fail(key("hang"), format!("inserting {what} hangs")),
        Ok(Some(Err(e))) => return fail(key("after"), format!("after inserting {what}: {e}")),
        Ok(Some(Ok(r))) => r,
    };
    if let Some(bad) = w.bad() {
        return fail(key("malformed"), format!("inserting {what}: the server cannot read the request: {bad}"));
    }
    let got: Vec<RBlock> = w.exchanges().into_iter().filter(|(_, q, _)| q.starts_with("INSERT")).flat_map(|x| x.2).collect();
    let conv: Option<Vec<V>> = g.vals.iter().map(|v| convert(&g.ty, &dst, v)).collect();
    match r {
        None => obs(&("unbuildable", what)),
        Some(Err(e)) => {
            let natural = if g.dynamic { c07::natural(&g.ty) } else { g.ty.clone() };
            let must = c07::converts(&natural, &dst) && conv.as_ref().is_some_and(|v| v.iter().all(|v| fits(&dst, v)));
            if must {
                return fail(key("refused"), format!("inserting {what}: {e}"));
            }
            if !got.is_empty() {
                return fail(key("data"), format!("inserting {what} fails ({e}) but sent {got:?}"));
            }
            obs(&("refused", what))
        }
        Some(Ok(())) => {
            // dynamic rows first become columns of the natural type
            let Some(conv) = conv else {
                return fail(key("accepted"), format!("inserting {what} of {:?} succeeds with {got:?}", g.vals));
            };
            let n = g.vals.len();
            let want = RBlock::new(vec![col("k", T::U(8), (0..n).map(|i| V::U(i as u128)).collect()), col("c", dst.clone(), conv)]);
            let data: Vec<RBlock> = got.iter().filter(|b| !b.cols.is_empty()).map(norm_b).collect();
            let parts = if g.size > 0 { n.div_ceil(g.size) } else { 1 };
            if data.len() != parts || norm_b(&concat(&data)) != norm_b(&want) || got.len() != 2 * parts || (g.size > 0 && data.iter().any(|b| b.rows() > g.size)) {
                return fail(key("altered"), format!("inserting {what}: expected {want:?}, the server received {got:?}"));
            }
            obs_n(&("ok", what), 2)
        }
    }
}

// ---------------------------------------------------------------- chunks

fn value_for(t: &T, i: usize) -> V {
    let v = values(t);
    let k = v.len();
    // a walk through the values that does not repeat with the chunk size
    v[(i * 7 + i / k) % k].clone()
}

/// Every type and row count with small chunks.
fn small_chunks(ch: &Ch, types: &[T], sizes: usize) -> Result<Obs, Fail> {
    let t = ch.pick(types).clone();
    let size = 1 + ch.choose(sizes);
    let n = ch.choose(3 * size + 2);
    let kind = ch.choose(3);
    let compress = ch.flag();
    let block = RBlock::new(vec![col("i", T::U(32), (0..n).map(|i| V::U(i as u128)).collect()), col("c", t.clone(), (0..n).map(|i| value_for(&t, i)).collect())]);
    ch.note(format!("{n} rows of {} in chunks of {size}, kind {kind}, compress={compress}", t.name()));
    set_chunk_size(Some(size));
    let r = chunks(&block, kind, compress, size);
    set_chunk_size(None);
    r?;
    obs(&(t, n, size, kind, compress))
}

/// Every type from every source it can be built of, cut.
fn sources_in_chunks(ch: &Ch, types: &[T], rows: usize) -> Result<Obs, Fail> {
    let t = ch.pick(types).clone();
    let n = 2 + ch.choose(rows - 1);
    let vals: Vec<V> = (0..n).map(|i| value_for(&t, i)).collect();
    let srcs = c07::sources(&t, &vals);
    let i = ch.choose(srcs.len());
    let size = 1 + ch.choose(3);
    let compress = ch.flag();
    let src = &srcs[i];
    ch.note(format!("{n} rows of {} from {} in chunks of {size}, compress={compress}", t.name(), src.name()));
    set_chunk_size(Some(size));
    let r = c07::check(&t, &vals, src, compress);
    set_chunk_size(None);
    r.map_err(|f| Fail { key: format!("{} in chunks", f.key), ..f })?;
    obs(&(t, n, i, size, compress))
}

fn chunks(block: &RBlock, kind: usize, compress: bool, size: usize) -> Result<(), Fail> {
    let n = block.rows();
    let key = |m: &str| format!("{m}: {n} rows of {} in chunks of {size}, kind {kind}", block.cols[1].ty.name());
    let parts: Vec<RBlock> = if kind == 2 && n > 1 { vec![block.slice(0, n / 2), block.slice(n / 2, n)] } else { vec![block.clone()] };
    let sel = answer(&parts, compress);
    let ins = answer_insert(block, compress);
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { sel.clone() } else { ins.clone() }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool(if compress { "compression=lz4" } else { "" });
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let b = match kind {
                0 => make_block(block)?,
                1 => make(&mut h, block, false).await?,
                _ => {
                    let x = h.query("S").fetch_all().await.map_err(|e| e.to_string())?;
                    Block::new().column("i", x.columns()[0].clone()).column("c", x.columns()[1].clone())
                }
            };
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    let r = match r {
        Err(p) => return fail(key("panic"), format!("inserting panics: {p}")),
        Ok(None) => return fail(key("hang"), "inserting hangs"),
        Ok(Some(r)) => r,
    };
    if let Some(bad) = w.bad() {
        return fail(key("malformed"), format!("the server cannot read the request: {bad}"));
    }
    let ex: Vec<_> = w.exchanges().into_iter().filter(|(_, q, _)| q.starts_with("INSERT")).collect();
    if let Err(e) = r {
        let t = &block.cols[1].ty;
        if kind == 0 && (n == 0 || !c07::converts(&c07::natural(t), t)) && ex.iter().all(|x| x.2.is_empty()) {
            return Ok(());
        }
        return fail(key("refused"), format!("inserting fails: {e}"));
    }
    let stmt = "INSERT INTO t (`i`, `c`) VALUES";
    if ex.iter().any(|x| x.1 != stmt && n > 0) {
        return fail(key("statement"), format!("statements {:?}", ex.iter().map(|x| &x.1).collect::<Vec<_>>()));
    }
    let mut all = vec![];
    for (_, _, b) in &ex {
        let Some((end, data)) = b.split_last() else { return fail(key("end"), "no end marker") };
        if !end.cols.is_empty() || data.iter().any(|b| b.cols.is_empty()) || data.len() > 1 {
            return fail(key("end"), format!("an insert sends the blocks {b:?}"));
        }
        if data.iter().any(|b| b.rows() > size) {
            return fail(key("limit"), format!("a block of {} rows", data[0].rows()));
        }
        all.extend(data.iter().cloned());
    }
    let got = concat(&all);
    if got.rows() != n || (n > 0 && norm_b(&got) != norm_b(block)) {
        return fail(key("rows"), format!("put in {:?}, the server received {:?}", norm_b(block), norm_b(&got)));
    }
    Ok(())
}

const LIMIT: usize = 1 << 20;

/// The real limit, checked row by row.
fn big_chunks(ch: &Ch, counts: &[usize], kinds: &[T]) -> Result<Obs, Fail> {
    let n = *ch.pick(counts);
    let t = ch.pick(kinds).clone();
    let pool_of: Vec<V> = values(&t);
    let k = pool_of.len();
    let at = |i: usize| &pool_of[(i * 7 + i / 3) % k];
    let few: Vec<V> = (0..k).map(|i| at(i).clone()).collect();
    let probe = c07::sources(&t, &few);
    let si = ch.choose(probe.len());
    // typed constructors and fetched blocks; the others take the same way from the column on
    if !matches!(probe[si], c07::Source::Way(_) | c07::Source::Dynamic | c07::Source::Fetched) || (n > LIMIT + 1 && !matches!(probe[si], c07::Source::Way(_))) {
        return obs(&0);
    }
    let name = probe[si].name();
    ch.note(format!("{n} rows of {} from {name}", t.name()));
    let vals: Vec<V> = (0..n).map(|i| at(i).clone()).collect();
    let srcs = c07::sources(&t, &vals);
    let Some(src) = srcs.into_iter().find(|s| s.name() == name) else { return obs(&1) };
    let key = |m: &str| format!("{m}: {n} rows of {} from {name}", t.name());
    let block = c07::rblock(&t, &vals);
    let sel = if matches!(src, c07::Source::Fetched) { answer(&[block.clone()], false) } else { vec![] };
    let ins = answer_insert(&block, false);
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { sel.clone() } else { ins.clone() }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("insert_timeout=100000s&query_timeout=100000s");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let b = c07::build(&mut h, &t, &vals, &src).await?;
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    match r {
        Err(p) => return fail(key("panic"), format!("inserting panics: {p}")),
        Ok(None) => return fail(key("hang"), "inserting hangs"),
        // no way into this column at all
        Ok(Some(Err(_))) if matches!(t, T::Low(_)) && (name.contains("u8") || t == low(nullable(T::Str))) && w.exchanges().iter().all(|x| x.2.is_empty()) => return obs(&2),
        Ok(Some(Err(e))) => return fail(key("refused"), format!("inserting fails: {e}")),
        Ok(Some(Ok(()))) => {}
    }
    if let Some(bad) = w.bad() {
        return fail(key("malformed"), format!("the server cannot read the request: {bad}"));
    }
    let ex: Vec<_> = w.exchanges().into_iter().filter(|(_, q, _)| q.starts_with("INSERT")).collect();
    let mut i = 0;
    for (_, _, b) in &ex {
        let Some((end, data)) = b.split_last() else { return fail(key("end"), "no end marker") };
        if !end.cols.is_empty() || data.len() > 1 || data.iter().any(|b| b.cols.is_empty()) {
            return fail(key("end"), format!("an insert sends {} blocks", b.len()));
        }
        for d in data {
            for v in &d.cols[0].vals {
                if i >= n || norm_v(v) != norm_v(at(i)) {
                    return fail(key("rows"), format!("row {i} is {v:?}, expected {:?}", if i < n { Some(at(i)) } else { None }));
                }
                i += 1;
            }
        }
    }
    if i != n {
        return fail(key("rows"), format!("the server received {i} of {n} rows"));
    }
    obs(&(n, t, name))
}

// ---------------------------------------------------------------- statements

/// Reads `INSERT INTO <table> (<names>) VALUES` by ClickHouse's quoting rules.
fn parse_statement(sql: &str) -> Option<(String, Vec<String>)> {
    let rest = sql.strip_prefix("INSERT INTO ")?;
    let open = rest.find(" (")?;
    let table = rest[..open].to_string();
    let rest = rest[open + 2..].trim_end();
    let body = rest.strip_suffix("VALUES")?.trim_end().strip_suffix(')')?;
    let mut names = vec![];
    let c: Vec<char> = body.chars().collect();
    let mut i = 0;
    loop {
        while i < c.len() && c[i] == ' ' {
            i += 1;
        }
        let mut name = String::new();
        if i < c.len() && c[i] == '`' {
            i += 1;
            loop {
                match c.get(i)? {
                    '`' => break,
                    '\\' => {
                        i += 1;
                        name.push(match c.get(i)? {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            '0' => '\0',
                            'b' => '\u{8}',
                            'f' => '\u{c}',
                            x => *x,
                        });
                    }
                    x => name.push(*x),
                }
                i += 1;
            }
            i += 1;
        } else {
            while i < c.len() && c[i] != ',' && c[i] != ' ' {
                if !c[i].is_alphanumeric() && c[i] != '_' {
                    return None;
                }
                name.push(c[i]);
                i += 1;
            }
        }
        names.push(name);
        while i < c.len() && c[i] == ' ' {
            i += 1;
        }
        if i >= c.len() {
            return Some((table, names));
        }
        if c[i] != ',' {
            return None;
        }
        i += 1;
    }
}

fn statements(ch: &Ch) -> Result<Obs, Fail> {
    let names = ["a", "b", "a b", "x.y", "ns:attr", "1", "42", "select", "naïve €", "a,b", "q)\"'", "back\\slash", "\\n"];
    let n = 1 + ch.choose(3);
    let mut cols = vec![];
    for i in 0..n {
        let name = *ch.pick(&names);
        if cols.iter().any(|c: &RCol| c.name == name) {
            return obs(&0);
        }
        cols.push(col(name, T::U(8), vec![V::U(i as u128), V::U(9)]));
    }
    let table = *ch.pick(&["t", "db.t", "`we ird`"]);
    let id = *ch.pick(&["", "q-1"]);
    let rows = ch.flag();
    let block = RBlock::new(cols);
    let want: Vec<String> = block.cols.iter().map(|c| c.name.clone()).collect();
    ch.note(format!("insert into {table} columns {want:?} id {id:?}, rows={rows}"));
    let header = block.header();
    let w = World::new(Box::new(move |_, _| answer_insert(&header, false)));
    w.install();
    let r = block_on(async {
        let p = pool("");
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        let b = if rows {
            make_block(&block)?
        } else {
            let mut b = Block::new();
            for c in &block.cols {
                b = b.column(&c.name, c.vals.iter().map(|v| if let V::U(x) = v { *x as u8 } else { 0 }).collect::<Vec<u8>>());
            }
            b
        };
        h.insert(Query::new(table).id(id), b).await.map_err(|e| e.to_string())
    });
    let key = format!("statement for {want:?}");
    match r {
        Some(Ok(())) => {}
        r => return fail(key, format!("inserting columns {want:?}: {r:?}")),
    }
    let qs = w.queries();
    if qs.len() != 1 || qs[0].1.id != id {
        return fail(key, format!("queries {qs:?}"));
    }
    match parse_statement(&qs[0].1.sql) {
        Some((t, names)) if t == table && names == want => {}
        x => return fail(key, format!("inserting columns {want:?} into {table} sends {:?}, which means {x:?}", qs[0].1.sql)),
    }
    let ex = w.exchanges();
    if ex[0].2.len() != 2 || norm_b(&ex[0].2[0]) != norm_b(&block) {
        return fail(key, format!("the server received {:?}", ex[0].2));
    }
    obs(&(table, id, want, rows))
}

// ---------------------------------------------------------------- histories

fn small(tag: u128, n: usize) -> RBlock {
    RBlock::new(vec![col("a", T::U(32), (0..n).map(|i| V::U(tag * 100 + i as u128)).collect()), col("s", nullable(T::Str), (0..n).map(|i| if i % 2 == 0 { s(&format!("{tag}-{i}")) } else { V::Null }).collect())])
}

/// Sequences of operations; every successful insert shows up exactly once and in order.
fn histories(ch: &Ch, len: usize) -> Result<Obs, Fail> {
    let reuse = ch.flag();
    let ping = ch.flag();
    let size = ch.pick(&[None, Some(2), Some(1)]);
    let mut ops = vec![];
    for i in 0..len {
        let k = ch.choose(7);
        if k == 6 {
            break;
        }
        ops.push((i as u128 + 1, k));
    }
    ch.note(format!("reuse={reuse} ping={ping} chunk={size:?} {ops:?}"));
    let w = World::new(Box::new(move |_, q| {
        if q.sql == "S" {
            answer(&[small(9, 1)], false)
        } else if q.sql.contains("refused") {
            answer_insert(&RBlock::new(vec![col("a", T::Uuid, vec![]), col("s", T::U(8), vec![])]), false)
        } else {
            answer_insert(&small(0, 0), false)
        }
    }));
    w.install();
    set_chunk_size(*size);
    let o2 = ops.clone();
    let r = guard(|| {
        block_on(async {
            let p = pool(if ping { "" } else { "ping_before_query=false" });
            let mut h = Some(get(&p).await.map_err(|e| format!("{e:?}"))?);
            for (tag, k) in o2 {
                let mut c = match h.take() {
                    Some(c) => c,
                    None => get(&p).await.map_err(|e| format!("{e:?}"))?,
                };
                match k {
                    0..=3 => {
                        let n = [0, 1, 2, 5][k];
                        let b = if tag % 2 == 0 && n > 0 { make_block(&small(tag, n))? } else {
                            let b = small(tag, n);
                            let a: Vec<u32> = b.cols[0].vals.iter().map(|v| if let V::U(x) = v { *x as u32 } else { 0 }).collect();
                            let s: Vec<Option<String>> = b.cols[1].vals.iter().map(|v| if let V::B(x) = v { Some(String::from_utf8(x.clone()).unwrap()) } else { None }).collect();
                            Block::new().column("a", a).column("s", s)
                        };
                        c.insert(format!("t{tag}"), b).await.map_err(|e| format!("insert {tag}: {e}"))?;
                    }
                    4 => {
                        let b = c.query("S").fetch_all().await.map_err(|e| format!("query {tag}: {e}"))?;
                        if b.row_count() != 1 {
                            return Err(format!("query {tag}: {} rows", b.row_count()));
                        }
                    }
                    _ => {
                        let b = make_block(&small(tag, 3))?;
                        if c.insert("refused", b).await.is_ok() {
                            return Err("an insert into other types succeeds".into());
                        }
                        if !ping {
                            c.check_connection().await.map_err(|e| format!("check {tag}: {e}"))?;
                        }
                    }
                }
                if reuse {
                    h = Some(c);
                }
            }
            Ok(())
        })
    });
    set_chunk_size(None);
    match r {
        Ok(Some(Ok(()))) => {}
        r => return fail("history", format!("{ops:?}: {r:?}")),
    }
    if let Some(bad) = w.bad() {
        return fail("malformed", format!("{ops:?}: the server cannot read the requests: {bad}"));
    }
    let mut got: Vec<(String, Vec<RBlock>)> = vec![];
    for (_, q, b) in w.exchanges() {
        if q == "S" {
            continue;
        }
        let Some((t, names)) = parse_statement(&q) else { return fail("statement", q) };
        if names != ["a", "s"] {
            return fail("statement", q);
        }
        if t == "refused" {
            if !b.is_empty() {
                return fail("refused", format!("a refused insert sent {b:?}"));
            }
            continue;
        }
        match b.split_last() {
            Some((e, d)) if e.cols.is_empty() && d.len() <= 1 && d.iter().all(|b| b.rows() > 0) => match got.last_mut() {
                Some(l) if l.0 == t => l.1.extend(d.iter().cloned()),
                _ => got.push((t, d.to_vec())),
            },
            _ => return fail("markers", format!("{ops:?}: an insert sends {b:?}")),
        }
    }
    let want: Vec<(String, RBlock)> = ops.iter().filter(|x| x.1 < 4).map(|(t, k)| (format!("t{t}"), norm_b(&small(*t, [0, 1, 2, 5][*k])))).collect();
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1.iter().map(|b| b.rows()).sum::<usize>() == w.1.rows() && (w.1.rows() == 0 || norm_b(&concat(&g.1)) == w.1));
    if !ok {
        return fail("rows", format!("{ops:?}: the server received {got:?}"));
    }
    obs(&(reuse, ping, size, ops))
}

/// Other packets around the header and the confirmation.
fn noise(ch: &Ch, max: usize) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let n = *ch.pick(&[1usize, 5]);
    let size = 2;
    let mut reply = vec![];
    let mut shape = vec![];
    let noise = |ch: &Ch, reply: &mut Vec<Step>, shape: &mut Vec<usize>| {
        for _ in 0..max {
            let k = ch.choose(4);
            shape.push(k);
            reply.push(Step::Send(match k {
                0 => break,
                1 => p_progress(CLIENT_REVISION, 300),
                2 => p_profile(),
                _ => p_table_columns(),
            }));
        }
    };
    noise(ch, &mut reply, &mut shape);
    reply.push(Step::Send(p_data(&small(0, 0), compress)));
    reply.push(Step::Recv);
    shape.push(9);
    noise(ch, &mut reply, &mut shape);
    reply.push(Step::Send(p_eos()));
    ch.note(format!("{n} rows, compress={compress}, reply {shape:?}"));
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { answer(&[small(9, 1)], compress) } else { reply.clone() }));
    w.install();
    set_chunk_size(Some(size));
    let b = small(3, n);
    let r = block_on(async {
        let p = pool(if compress { "compression=lz4" } else { "" });
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        let r = run_op(&mut h, &Op::Insert("t".into(), b.clone())).await;
        let z = run_op(&mut h, &Op::Fetch("S".into())).await;
        Ok::<_, String>((r, z))
    });
    set_chunk_size(None);
    let Some(Ok((r, z))) = r else { return fail("hang", format!("{r:?}")) };
    if r != Out::Done || z.data() != Some(norm_b(&small(9, 1))) || w.bad().is_some() {
        return fail(format!("noise {shape:?}"), format!("insert: {r:?}, then {z:?}, bad {:?}", w.bad()));
    }
    let got: Vec<RBlock> = w.exchanges().into_iter().filter(|x| x.1 != "S").flat_map(|x| x.2).filter(|b| !b.cols.is_empty()).collect();
    if got.iter().map(|b| b.rows()).sum::<usize>() != n || (n > 0 && norm_b(&concat(&got)) != norm_b(&b)) {
        return fail(format!("noise {shape:?}"), format!("the server received {got:?}"));
    }
    obs(&(compress, n, shape))
}

/// The header does not match the block.
fn headers(ch: &Ch) -> Result<Obs, Fail> {
    let types = [T::U(32), nullable(T::Str), T::Str, T::Uuid, T::Fixed(2), array(T::U(8)), low(T::Str), T::DateTime(None)];
    let n = ch.choose(4);
    let cols: Vec<RCol> = (0..n).map(|i| col(&format!("c{i}"), ch.pick(&types).clone(), vec![])).collect();
    let rows = ch.choose(3);
    let header = RBlock::new(cols);
    ch.note(format!("{rows} rows, header {:?}", header.cols.iter().map(|c| c.ty.name()).collect::<Vec<_>>()));
    let h2 = header.clone();
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { answer(&[small(9, 1)], false) } else { answer_insert(&h2, false) }));
    w.install();
    let b = small(3, rows);
    let r = guard(|| {
        block_on(async {
            let p = pool("");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let a: Vec<u32> = b.cols[0].vals.iter().map(|v| if let V::U(x) = v { *x as u32 } else { 0 }).collect();
            let s: Vec<Option<String>> = b.cols[1].vals.iter().map(|v| if let V::B(x) = v { Some(String::from_utf8(x.clone()).unwrap()) } else { None }).collect();
            let r = h.insert("t", Block::new().column("a", a).column("s", s)).await.map_err(|e| e.to_string());
            let z = run_op(&mut h, &Op::Fetch("S".into())).await;
            Ok::<_, String>((r, z))
        })
    });
    let key = format!("header {:?}", header.cols.iter().map(|c| c.ty.name()).collect::<Vec<_>>());
    let (r, z) = match r {
        Ok(Some(Ok(x))) => x,
        x => return fail(key, format!("{x:?}")),
    };
    if z.data() != Some(norm_b(&small(9, 1))) || w.bad().is_some() {
        return fail(key, format!("the next query gives {z:?}, bad {:?}", w.bad()));
    }
    let fits = n == 2 && header.cols[0].ty == T::U(32) && (header.cols[1].ty == nullable(T::Str));
    let got: Vec<RBlock> = w.exchanges().into_iter().filter(|x| x.1 != "S").flat_map(|x| x.2).collect();
    if fits != r.is_ok() || (!fits && !got.is_empty()) {
        return fail(key, format!("{rows} rows: {r:?}, the server received {got:?}"));
    }
    obs(&(header, rows))
}

/// Success is only reported once the server has confirmed.
fn confirmations(ch: &Ch) -> Result<Obs, Fail> {
    let rows = *ch.pick(&[0usize, 1, 3]);
    let size = *ch.pick(&[1usize, 2, 100]);
    // which of the inserts is not confirmed
    let parts = if rows == 0 { 1 } else { rows.div_ceil(size) };
    let bad = ch.choose(parts);
    let how = ch.choose(9);
    ch.note(format!("{rows} rows in chunks of {size}, insert {bad} answered in way {how}"));
    let mut seen = 0;
    let w = World::new(Box::new(move |_, q| {
        if q.sql == "S" {
            return answer(&[small(9, 1)], false);
        }
        seen += 1;
        let h = Step::Send(p_data(&small(0, 0), false));
        if seen != bad + 1 {
            return vec![h, Step::Recv, Step::Send(p_eos())];
        }
        match how {
            0 => vec![h, Step::Recv, Step::Stall],
            1 => vec![h, Step::Recv, Step::Send(p_progress(CLIENT_REVISION, 3)), Step::Stall],
            2 => vec![h, Step::Recv, Step::Send(p_data(&small(0, 0), false)), Step::Stall],
            3 => vec![h, Step::Recv, Step::Close],
            4 => vec![h, Step::Recv, Step::Send(p_pong()), Step::Send(p_eos())],
            5 => vec![Step::Send(p_eos())],
            6 => vec![h, Step::Recv, Step::Send(p_data(&small(0, 0), false)), Step::Close],
            7 => vec![h, Step::Recv, Step::Send(p_exception(1, "n", "m", "s"))],
            _ => vec![h, Step::Recv, Step::Send(vec![99])],
        }
    }));
    w.install();
    set_chunk_size(Some(size));
    let r = guard(|| {
        block_on(async {
            let p = pool("insert_timeout=5s");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let r = run_op(&mut h, &Op::Insert("t".into(), small(3, rows))).await;
            let z = run_op(&mut h, &Op::Fetch("S".into())).await;
            Ok::<_, String>((r, z))
        })
    });
    set_chunk_size(None);
    let key = format!("confirmation {how}");
    let (r, z) = match r {
        Ok(Some(Ok(x))) => x,
        x => return fail(key, format!("{x:?}")),
    };
    if !r.is_err() {
        return fail(key, format!("{rows} rows: the insert gives {r:?}"));
    }
    if z.data() != Some(norm_b(&small(9, 1))) {
        return fail(key, format!("{rows} rows: after {r:?} a query gives {z:?}"));
    }
    obs(&(rows, size, bad, how))
}

fn kinds() -> Vec<T> {
    vec![T::U(8), T::Str, array(T::U(16)), nullable(T::Str), low(T::Str), map(T::Str, T::U(8)), T::Fixed(3), T::DateTime(None), T::Dec(9, 2), enum8(), T::Uuid, T::Ip4, T::Date, T::DateTime64(3, None), T::U(128), T::F64, nullable(T::U(64)), array(T::Str), array(nullable(T::U(8))), array(array(T::U(8))), T::Bool, T::Ip6, agg("any", T::U(64)), low(nullable(T::Str))]
}

fn run(cx: &mut Ctx) {
    let types = all_types();
    let t2 = types.clone();
    let src = if cx.thorough { types.clone() } else { types.iter().filter(|t| !matches!(t, T::Map(..) | T::Array(_)) || types.len() < 50).cloned().collect::<Vec<_>>() };
    let src: Vec<T> = if cx.thorough { src } else { let mut s = src; s.extend([array(T::U(8)), array(T::Str), array(T::DateTime(None)), array(nullable(T::Dec(9, 2))), map(T::Str, T::U(8)), map(T::Str, T::DateTime(None)), array(low(T::Str))]); s };
    cx.explore("conversions", move |ch| conversions(ch, &src, &t2));
    cx.explore("texts", texts);
    let sizes = cx.pick(2, 3);
    let t2 = types.clone();
    cx.explore("small chunks", move |ch| small_chunks(ch, &t2, sizes));
    let (t2, rows) = (types.clone(), cx.pick(4, 6));
    cx.explore("sources in chunks", move |ch| sources_in_chunks(ch, &t2, rows));
    cx.explore("statements", statements);
    let len = cx.pick(3, 5);
    cx.explore("histories", move |ch| histories(ch, len));
    let max = cx.pick(2, 3);
    cx.explore("noise", move |ch| noise(ch, max));
    cx.explore("headers", headers);
    cx.explore("confirmations", confirmations);
    let (counts, k) = if cx.thorough {
        (vec![0, 1, LIMIT - 1, LIMIT, LIMIT + 1, 2 * LIMIT - 1, 2 * LIMIT, 2 * LIMIT + 1, 3 * LIMIT, 3 * LIMIT + 1], kinds())
    } else {
        (vec![LIMIT + 1, 2 * LIMIT], kinds()[..3].to_vec())
    };
    cx.explore("big chunks", move |ch| big_chunks(ch, &counts, &k));
}
