//! Requests and replies for every server revision.

use super::Prop;
use crate::{explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{types::Query, Options, Pool};
use futures_util::StreamExt;

pub const PROP: Prop = Prop {
    id: "C18",
    bounds: "15 server revisions around every change of the protocol; settings: every sequence of up to 3 (thorough: 4) of 22 settings of all types with both importances; statements: 14 texts x 7 ids x 5 operations x compression; handshake: every combination of 6 users, 6 passwords, 6 databases; replies: every sequence of up to 4 (thorough: 5) packets of 6 kinds with revision-dependent fields; server hello: 7 names x 7 display names x 9 time zones x patches; sequences of up to 4 operations on one connection",
    assumptions: &["revisions from 54032 (client info) on", "the server knows the type of a setting in the old binary form; the model derives it from the name", "a flag may be written as true/false or 1/0"],
    run,
};

pub const REVISIONS: [u64; 15] = [54032, 54057, 54058, 54059, 54060, 54371, 54372, 54400, 54401, 54419, 54420, 54428, 54429, 54430, 54460];

#[derive(Clone, Debug)]
enum S {
    U(u64),
    I32(i32),
    I64(i64),
    B(bool),
    F(f64),
    T(&'static str),
}

fn settings_table() -> Vec<(&'static str, S)> {
    vec![
        ("u_zero", S::U(0)),
        ("u_one", S::U(1)),
        ("u_max", S::U(u64::MAX)),
        ("u_mid", S::U(1 << 35)),
        ("u_i32", S::I32(127)),
        ("u_i32max", S::I32(i32::MAX)),
        ("u_i64", S::I64(i64::MAX)),
        ("s_neg", S::I32(-5)),
        ("s_negmin", S::I64(i64::MIN)),
        ("b_true", S::B(true)),
        ("b_false", S::B(false)),
        ("f_half", S::F(0.5)),
        ("f_neg", S::F(-1.25)),
        ("f_tenth", S::F(0.1)),
        ("f_huge", S::F(1e300)),
        ("f_whole", S::F(3.0)),
        ("f_tiny", S::F(f64::MIN_POSITIVE)),
        ("s_empty", S::T("")),
        ("s_word", S::T("throw")),
        ("s_odd", S::T("é'\"\\\n\0")),
        ("s_long", S::T("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345")),
        ("s_n", S::T("17")),
    ]
}

fn apply(o: Options, name: &str, s: &S, important: bool) -> Options {
    match s {
        S::U(x) => o.with_setting(name, *x, important),
        S::I32(x) => o.with_setting(name, *x, important),
        S::I64(x) => o.with_setting(name, *x, important),
        S::B(x) => o.with_setting(name, *x, important),
        S::F(x) => o.with_setting(name, *x, important),
        S::T(x) => o.with_setting(name, *x, important),
    }
}

fn same(s: &S, v: &SetVal, strings: bool) -> bool {
    match (s, v) {
        (S::U(x), SetVal::Num(y)) => !strings && x == y,
        (S::I32(x), SetVal::Num(y)) => !strings && *x as i128 == *y as i128,
        (S::I64(x), SetVal::Num(y)) => !strings && *x as i128 == *y as i128,
        (S::B(x), SetVal::Num(y)) => !strings && *x as u64 == *y,
        (S::U(x), SetVal::Str(y)) => strings && x.to_string() == *y,
        (S::I32(x), SetVal::Str(y)) => x.to_string() == *y,
        (S::I64(x), SetVal::Str(y)) => x.to_string() == *y,
        (S::B(x), SetVal::Str(y)) => strings && (x.to_string() == *y || (*x as u8).to_string() == *y),
        (S::F(x), SetVal::Str(y)) => y.parse() == Ok(*x),
        (S::T(x), SetVal::Str(y)) => x == y,
        _ => false,
    }
}

fn go(o: Options, w: &World, what: &str, ops: impl AsyncOps) -> Result<(), Fail> {
    w.install();
    let r = guard(|| block_on(ops.go(Pool::new(o))));
    let e = match r {
        Ok(Some(Ok(()))) => None,
        Ok(Some(Err(e))) => Some(e),
        Ok(None) => Some("it hangs".into()),
        Err(p) => Some(format!("panic: {p}")),
    };
    if let Some(m) = w.bad() {
        return fail("malformed", format!("{what}: the server cannot read the request: {m}"));
    }
    match e {
        None => Ok(()),
        Some(e) => fail("failed", format!("{what}: {e}")),
    }
}

trait AsyncOps {
    fn go(self, p: Pool) -> impl std::future::Future<Output = Result<(), String>>;
}
impl<F: FnOnce(Pool) -> G, G: std::future::Future<Output = Result<(), String>>> AsyncOps for F {
    fn go(self, p: Pool) -> impl std::future::Future<Output = Result<(), String>> {
        self(p)
    }
}

async fn handle(p: &Pool) -> Result<clickhouse_rs::ClientHandle, String> {
    get(p).await.map_err(|e| format!("{e:?}"))
}

/// The fields that never depend on the request.
fn fixed(q: &QueryPkt, rev: u64, hello: &HelloPkt) -> Result<(), Fail> {
    let eff = rev.min(CLIENT_REVISION);
    let ok = q.kind == 1
        && q.iface == 1
        && q.stage == 2
        && q.client == hello.client
        && (q.major, q.minor, q.revision) == (hello.major, hello.minor, hello.revision)
        && q.revision == CLIENT_REVISION
        && q.quota.is_some() == (eff >= 54060)
        && q.patch.is_some() == (eff >= 54401)
        && q.initial_addr.rsplit(':').next().is_some_and(|p| p.parse::<u16>().is_ok())
        && q.quota.as_deref().unwrap_or("") == "";
    if ok {
        Ok(())
    } else {
        fail("client info", format!("revision {rev}: {q:?} after {hello:?}"))
    }
}

fn hello_of(w: &World) -> Result<HelloPkt, Fail> {
    let h: Vec<HelloPkt> = w.packets().into_iter().filter_map(|(_, p)| if let Pkt::Hello(h) = p { Some(h) } else { None }).collect();
    if h.len() != 1 {
        return fail("hello", format!("{h:?}"));
    }
    Ok(h[0].clone())
}

fn settings(ch: &Ch, table: &[(&'static str, S)], max: usize) -> Result<Obs, Fail> {
    let rev = *ch.pick(&REVISIONS);
    let n = ch.choose(max + 1);
    let mut o = options("");
    let mut want: Vec<(&str, S, bool)> = vec![];
    let mut from = 0;
    for _ in 0..n {
        if from == table.len() {
            break;
        }
        let i = from + ch.choose(table.len() - from);
        let important = ch.flag();
        o = apply(o, table[i].0, &table[i].1, important);
        want.push((table[i].0, table[i].1.clone(), important));
        from = i + 1;
    }
    ch.note(format!("revision {rev}: {want:?}"));
    let w = World::new(Box::new(|_, _| vec![Step::Send(p_eos())]));
    w.with(|i| i.revision = rev);
    go(o, &w, &format!("revision {rev}, settings {want:?}"), |p: Pool| async move {
        let mut h = handle(&p).await?;
        h.execute("Q1").await.map_err(|e| e.to_string())?;
        h.execute("Q2").await.map_err(|e| e.to_string())
    })?;
    let hello = hello_of(&w)?;
    let qs = w.queries();
    if qs.len() != 2 {
        return fail("queries", format!("{qs:?}"));
    }
    for (_, q) in &qs {
        fixed(q, rev, &hello)?;
        let ok = q.settings.len() == want.len()
            && want.iter().all(|(n, s, imp)| q.settings.iter().any(|(m, f, v)| m == n && same(s, v, rev >= 54429) && (rev < 54429 || *f == Some(*imp as u8))));
        if !ok {
            return fail(format!("settings {want:?}"), format!("revision {rev}: configured {want:?}, sent {:?}", q.settings));
        }
    }
    obs(&(rev, format!("{want:?}")))
}

const TEXTS: [&str; 14] = ["SELECT 1", "", " ", ";", "SELECT 'é€😀'", "a\0b", "-- c\nSELECT\t1\r\n", "{x}", "'\"`\\", "INSERT INTO t VALUES", "%s%d", "\u{feff}", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456", "01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567"];

fn statements(ch: &Ch) -> Result<Obs, Fail> {
    let rev = *ch.pick(&REVISIONS);
    let sql = *ch.pick(&TEXTS);
    let id = *ch.pick(&[None, Some(""), Some("q"), Some("550e8400-e29b-41d4-a716-446655440000"), Some("é'"), Some("a b"), Some("\0")]);
    let op = ch.choose(5);
    let compress = ch.flag();
    let what = format!("revision {rev}, {sql:?}, id {id:?}, operation {op}, compress={compress}");
    ch.note(what.clone());
    let w = World::new(Box::new(move |_, _| {
        let b = RBlock::new(vec![col("x", T::U(8), vec![V::U(1)])]);
        match op {
            0 => vec![Step::Send(p_progress(rev, 300)), Step::Send(p_eos())],
            4 => answer_insert(&b, compress),
            _ => vec![Step::Send(p_data(&b.header(), compress)), Step::Send(p_progress(rev, 7)), Step::Send(p_data(&b, compress)), Step::Send(p_profile()), Step::Send(p_eos())],
        }
    }));
    w.with(|i| i.revision = rev);
    let mk = move || {
        let q = Query::new(sql);
        match id {
            Some(i) => q.id(i),
            None => q,
        }
    };
    go(options(if compress { "compression=lz4" } else { "" }), &w, &what, |p: Pool| async move {
        let mut h = handle(&p).await?;
        match op {
            0 => h.execute(mk()).await.map_err(|e| e.to_string())?,
            1 => {
                h.query(mk()).fetch_all().await.map_err(|e| e.to_string())?;
            }
            2 => {
                let mut s = h.query(mk()).stream_blocks();
                while let Some(x) = s.next().await {
                    x.map_err(|e| e.to_string())?;
                }
            }
            3 => {
                let mut s = h.query(mk()).stream();
                while let Some(x) = s.next().await {
                    x.map_err(|e| e.to_string())?;
                }
            }
            _ => h.insert(mk(), clickhouse_rs::Block::new().column("x", vec![1u8])).await.map_err(|e| e.to_string())?,
        }
        Ok(())
    })?;
    let hello = hello_of(&w)?;
    let qs = w.queries();
    if qs.len() != 1 {
        return fail("queries", format!("{what}: {qs:?}"));
    }
    let q = &qs[0].1;
    fixed(q, rev, &hello)?;
    let want = if op == 4 { format!("INSERT INTO {sql} (`x`) VALUES") } else { sql.to_string() };
    if q.sql != want {
        return fail(format!("text {sql:?}"), format!("{what}: sent {:?}", q.sql));
    }
    if q.id != id.unwrap_or("") || !(q.initial_id == q.id || q.initial_id.is_empty()) {
        return fail(format!("id {id:?}"), format!("{what}: sent id {:?}, initial id {:?}", q.id, q.initial_id));
    }
    if q.compression != compress as u64 {
        return fail("compression", format!("{what}: sent {}", q.compression));
    }
    // the query is followed by one empty block, and for inserts by the data and another one
    let blocks: Vec<RBlock> = w.packets().into_iter().filter_map(|(_, p)| if let Pkt::Data(b) = p { Some(b) } else { None }).collect();
    let rows: Vec<usize> = blocks.iter().map(|b| b.rows()).collect();
    if op == 4 && rows != [0, 1, 0] || op != 4 && rows != [0] {
        return fail("blocks", format!("{what}: data blocks of {rows:?} rows"));
    }
    obs(&what)
}

fn handshake(ch: &Ch) -> Result<Obs, Fail> {
    let texts = ["default", "", "é€", "a b", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", "x\0y"];
    let rev = *ch.pick(&REVISIONS);
    let (u, pw, db) = (*ch.pick(&texts), *ch.pick(&texts), *ch.pick(&texts));
    ch.note(format!("revision {rev}: user {u:?} password {pw:?} database {db:?}"));
    let w = World::new(Box::new(|_, _| vec![Step::Send(p_eos())]));
    w.with(|i| i.revision = rev);
    go(options("").username(u).password(pw).database(db), &w, "handshake", |p: Pool| async move {
        let mut h = handle(&p).await?;
        h.ping().await.map_err(|e| e.to_string())?;
        h.execute("Q").await.map_err(|e| e.to_string())
    })?;
    let h = hello_of(&w)?;
    if (h.user.as_str(), h.password.as_str(), h.database.as_str()) != (u, pw, db) || h.revision != CLIENT_REVISION {
        return fail("handshake", format!("user {u:?} password {pw:?} database {db:?}: sent {h:?}"));
    }
    let kinds: String = w.packets().iter().map(|(_, p)| match p {
        Pkt::Hello(_) => 'h',
        Pkt::Ping => 'p',
        Pkt::Query(_) => 'q',
        Pkt::Data(_) => 'd',
        Pkt::Cancel => 'c',
    }).collect();
    if kinds.replace('p', "") != "hqd" || !kinds.contains('p') {
        return fail("packets", format!("packets {kinds}"));
    }
    obs(&(rev, u, pw, db))
}

/// Fields of the server's hello.
fn server_hello(ch: &Ch) -> Result<Obs, Fail> {
    let names = ["ClickHouse", "", "é", "x\0y", "a b c", "0", "012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890"];
    let tzs = ["UTC", "Europe/Moscow", "America/New_York", "Asia/Kolkata", "Zulu", "Etc/GMT+5", "Africa/Abidjan", "GMT", "US/Pacific"];
    let rev = *ch.pick(&REVISIONS);
    let name = *ch.pick(&names);
    let display = *ch.pick(&names);
    let tz = *ch.pick(&tzs);
    let patch = *ch.pick(&[0u64, 7, 127, 128, 300, u32::MAX as u64]);
    ch.note(format!("revision {rev} {name:?} {display:?} {tz} {patch}"));
    // an instant that shows the zone
    let at = 1_600_000_000u128;
    let b = RBlock::new(vec![col("t", T::DateTime(None), vec![V::U(at)]), col("x", T::U(8), vec![V::U(9)])]);
    let w = World::new(Box::new(move |_, _| vec![Step::Send(p_data(&b.header(), false)), Step::Send(p_progress(rev, 500)), Step::Send(p_data(&b, false)), Step::Send(p_eos())]));
    let bytes = p_hello_full(rev, tz, name, display, patch);
    w.with(|i| {
        i.revision = rev;
        i.on_hello = Some(Box::new(move |_, _| vec![Step::Send(bytes.clone())]));
    });
    let zone: chrono_tz::Tz = if rev >= 54058 { tz.parse().unwrap() } else { chrono_tz::Tz::UTC };
    go(options(""), &w, "hello", |p: Pool| async move {
        let mut h = handle(&p).await?;
        let x = h.query("S").fetch_all().await.map_err(|e| e.to_string())?;
        let t: chrono::DateTime<chrono_tz::Tz> = x.get(0, "t").map_err(|e| e.to_string())?;
        let y: u8 = x.get(0, "x").map_err(|e| e.to_string())?;
        if t.timestamp() as u128 != at || y != 9 {
            return Err(format!("read {t} {y}"));
        }
        if t.timezone() != zone {
            return Err(format!("the server's time zone is {zone}, the values carry {}", t.timezone()));
        }
        Ok(())
    })?;
    obs(&(rev, name, display, tz, patch))
}

/// Packets around the data.
fn replies(ch: &Ch, max: usize) -> Result<Obs, Fail> {
    let rev = *ch.pick(&REVISIONS);
    let n = ch.choose(max + 1);
    let op = ch.choose(4);
    let mut steps = vec![];
    let mut names = vec![];
    let mut want: u128 = 0;
    // a result starts with a block without rows
    steps.push(Step::Send(p_data(&RBlock::new(vec![col("x", T::U(16), vec![])]), false)));
    for i in 0..n {
        let k = ch.choose(6);
        names.push(k);
        let b = RBlock::new(vec![col("x", T::U(16), vec![V::U(1 << i)])]);
        steps.push(Step::Send(match k {
            0 => p_progress(rev, 0),
            1 => p_progress(rev, 1 << 40),
            2 => p_profile(),
            3 => p_data(&b.header(), false),
            4 => {
                want += 1 << i;
                p_data(&b, false)
            }
            _ => p_progress(rev, 3),
        }));
    }
    let exc = ch.flag();
    steps.push(Step::Send(if exc { p_exception(60, "DB::Exception", "no", "st") } else { p_eos() }));
    let what = format!("revision {rev}, packets {names:?}, exception {exc}, operation {op}");
    ch.note(what.clone());
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { steps.clone() } else { vec![Step::Send(p_eos())] }));
    w.with(|i| i.revision = rev);
    let w2 = what.clone();
    go(options(""), &w, &what, |p: Pool| async move {
        let mut h = handle(&p).await?;
        let op = match op {
            0 => Op::Exec("S".into()),
            1 => Op::Fetch("S".into()),
            2 => Op::Blocks("S".into(), ALL),
            _ => Op::Rows("S".into(), ALL),
        };
        let out = run_op(&mut h, &op).await;
        if exc {
            if !matches!(out.error(), Some(E::Server(60, ..))) {
                return Err(format!("{w2}: {out:?}"));
            }
        } else if !matches!(op, Op::Exec(_)) {
            let sum: u128 = out.data().map(|b| b.cols.iter().flat_map(|c| c.vals.iter()).map(|v| if let V::U(x) = v { *x } else { 0 }).sum()).unwrap_or(0);
            if out.is_err() || sum != want {
                return Err(format!("{w2}: rows {sum:b} instead of {want:b}: {out:?}"));
            }
        } else if out != Out::Done {
            return Err(format!("{w2}: {out:?}"));
        }
        h.execute("Q").await.map_err(|e| format!("{w2}: then {e}"))
    })?;
    obs(&what)
}

/// Several operations on one connection: the order of packets.
fn sequences(ch: &Ch, max: usize) -> Result<Obs, Fail> {
    let rev = *ch.pick(&REVISIONS);
    let ping = ch.flag();
    let n = 1 + ch.choose(max);
    let ops: Vec<usize> = (0..n).map(|_| ch.choose(4)).collect();
    let what = format!("revision {rev}, ping={ping}, operations {ops:?}");
    ch.note(what.clone());
    let b = RBlock::new(vec![col("x", T::U(8), vec![V::U(1)])]);
    let b2 = b.clone();
    let w = World::new(Box::new(move |_, q| match q.sql.as_str() {
        "S" => answer(&[b2.clone()], false),
        "E" => vec![Step::Send(p_progress(rev, 5)), Step::Send(p_eos())],
        _ => answer_insert(&b2, false),
    }));
    w.with(|i| i.revision = rev);
    let o2 = ops.clone();
    go(options(if ping { "" } else { "ping_before_query=false" }), &w, &what, |p: Pool| async move {
        let mut h = handle(&p).await?;
        for o in o2 {
            let op = match o {
                0 => Op::Ping,
                1 => Op::Exec("E".into()),
                2 => Op::Fetch("S".into()),
                _ => Op::Insert("t".into(), b.clone()),
            };
            let out = run_op(&mut h, &op).await;
            if out.is_err() {
                return Err(format!("{out:?}"));
            }
        }
        Ok(())
    })?;
    let kinds: String = w.packets().iter().map(|(_, p)| match p {
        Pkt::Hello(_) => 'h',
        Pkt::Ping => 'p',
        Pkt::Query(_) => 'q',
        Pkt::Data(b) if b.cols.is_empty() => 'e',
        Pkt::Data(_) => 'd',
        Pkt::Cancel => 'c',
    }).collect();
    let mut want = String::from("h");
    for o in &ops {
        want += match (o, ping) {
            (0, _) => "p",
            (1 | 2, true) => "pqe",
            (1 | 2, false) => "qe",
            (_, true) => "pqede",
            (_, false) => "qede",
        };
    }
    if kinds != want {
        return fail("sequence", format!("{what}: packets {kinds}, should be {want}"));
    }
    obs(&what)
}

fn run(cx: &mut Ctx) {
    let t = settings_table();
    let n = cx.pick(3, 4);
    cx.explore("settings", |ch| settings(ch, &t, n));
    cx.explore("statements", statements);
    cx.explore("handshake", handshake);
    cx.explore("server hello", server_hello);
    let n = cx.pick(4, 5);
    cx.explore("replies", |ch| replies(ch, n));
    let n = cx.pick(4, 5);
    cx.explore("sequences", |ch| sequences(ch, n));
}
