//! Server exceptions reach the caller unchanged and leave the client usable.

use super::Prop;
use crate::{cases::params, explore::*, rtypes::*, server::*, util::*};
use futures_util::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C05",
    bounds: "exception in the handshake, in a ping, and at every packet position of the reply to a query (read as a whole, as blocks, as rows), an execute and an insert (before the header, instead of waiting for the data, after it) x what is done next (7 operations, same or new handle) x read segmentation x compression x ping; code, name, message and stack trace each from boundary values; sequences of 3 (quick) or 4 (thorough) operations each failing or not, on one or two handles; nested exceptions",
    assumptions: &["exception texts are valid UTF-8", "without ping_before_query the handle reports a connection error until check_connection is called"],
    run,
};

#[derive(Clone, Debug, PartialEq, Hash)]
struct X(u32, String, String, String);
impl X {
    fn bytes(&self) -> Vec<u8> {
        p_exception(self.0, &self.1, &self.2, &self.3)
    }
    fn e(&self) -> E {
        E::Server(self.0, self.1.clone(), self.2.clone(), self.3.clone())
    }
}
fn x0() -> X {
    X(241, "DB::Exception".into(), "DB::Exception: Memory limit (€)".into(), "0. a\n1. b".into())
}

fn blocks() -> Vec<RBlock> {
    let b = |r: &[u32]| RBlock::new(vec![col("x", T::U(32), r.iter().map(|r| V::U(*r as u128)).collect()), col("s", nullable(T::Str), r.iter().map(|r| s(&format!("v{r}"))).collect())]);
    vec![b(&[1]), b(&[2, 3]), b(&[4])]
}
/// The packets of a successful reply to a query.
fn packets(c: bool) -> Vec<(Vec<u8>, usize)> {
    // packet, number of blocks delivered once it has been sent
    let b = blocks();
    vec![
        (p_progress(CLIENT_REVISION, 5), 0),
        (p_data(&b[0].header(), c), 0),
        (p_data(&b[0], c), 1),
        (p_progress(CLIENT_REVISION, 5), 1),
        (p_data(&b[1], c), 2),
        (p_profile(), 2),
        (p_data(&b[2], c), 3),
        (p_eos(), 3),
    ]
}
fn good(text: &str, c: bool) -> Vec<Step> {
    if text.starts_with("INSERT") {
        answer_insert(&blocks()[0], c)
    } else {
        packets(c).into_iter().map(|p| Step::Send(p.0)).collect()
    }
}
/// The reply with the exception at position `at`; blocks before it.
fn bad(text: &str, c: bool, at: usize, x: &[u8]) -> (Vec<Step>, usize) {
    let e = Step::Send(x.to_vec());
    if text.starts_with("INSERT") {
        let head = Step::Send(p_data(&blocks()[0].header(), c));
        return (
            match at {
                0 => vec![e],
                1 => vec![Step::Send(p_table_columns()), e],
                2 => vec![head, e, Step::Recv],
                _ => vec![head, Step::Recv, e],
            },
            0,
        );
    }
    let p = packets(c);
    let n = if at == 0 { 0 } else { p[at - 1].1 };
    let mut v: Vec<Step> = p[..at].iter().map(|p| Step::Send(p.0.clone())).collect();
    v.push(e);
    (v, n)
}
fn positions(op: &Op) -> usize {
    match op {
        Op::Insert(..) => 4,
        Op::Ping | Op::Check => 1,
        _ => 8,
    }
}

fn ops() -> Vec<Op> {
    let q = || "SELECT".to_string();
    vec![Op::Fetch(q()), Op::Blocks(q(), ALL), Op::Rows(q(), ALL), Op::Exec(q()), Op::Insert("t".into(), concat(&blocks())), Op::Ping]
}
fn ok(op: &Op, out: &Out) -> bool {
    let all = norm_b(&concat(&blocks()));
    match op {
        Op::Exec(_) | Op::Insert(..) | Op::Ping | Op::Check => *out == Out::Done,
        _ => !out.is_err() && *out != Out::Hang && out.data() == Some(all),
    }
}
fn failed(op: &Op, out: &Out, nblocks: usize, e: &E) -> bool {
    let d = blocks();
    let want = norm_b(&concat(&d[..nblocks]));
    match (op, out) {
        (Op::Blocks(..), Out::Blocks(b, Some(Err(x)))) => x == e && b.len() == nblocks && out.data() == Some(want),
        (Op::Rows(..), Out::Rows(_, Some(Err(x)))) => x == e && out.data() == Some(want),
        (Op::Blocks(..) | Op::Rows(..), _) => false,
        (_, Out::Err(x)) => x == e,
        _ => false,
    }
}

/// Runs `op` until it works, as a user would; the number of connection errors must be justified.
async fn works(h: &mut clickhouse_rs::ClientHandle, op: &Op, ping: bool, lost: bool, what: &str) -> Result<(), Fail> {
    let mut out = bounded(run_op(h, op)).await;
    if lost && (!ping || *op_kind(op) == *"ping") && matches!(out.error(), Some(E::Conn(_))) {
        let c = bounded(run_op(h, &Op::Check)).await;
        if c != Out::Done {
            return fail("check_connection", format!("{what}: check_connection gave {c:?}"));
        }
        out = bounded(run_op(h, op)).await;
    }
    if !ok(op, &out) {
        return fail(format!("next {}", op_kind(op)), format!("{what}: the next {op:?} gave {out:?}"));
    }
    Ok(())
}
fn op_kind(op: &Op) -> &'static str {
    match op {
        Op::Ping => "ping",
        Op::Check => "check",
        Op::Exec(_) => "execute",
        Op::Fetch(_) => "fetch_all",
        Op::Blocks(..) => "stream_blocks",
        Op::Rows(..) => "stream",
        Op::Insert(..) => "insert",
    }
}

fn one(ch: &Ch, op: &Op, at: usize, x: &X, wire: Vec<u8>, plan: Plan, next: &Op, fresh: bool) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let ping = ch.flag();
    let what = format!("exception in {} at position {at}, compress={compress} ping={ping}", op_kind(op));
    ch.note(what.clone());
    ch.note(format!("{x:?}"));
    ch.note(format!("then {} on {} handle, plan {plan:?}", op_kind(next), if fresh { "a new" } else { "the same" }));
    let armed = Arc::new(AtomicUsize::new(0));
    let nb = Arc::new(AtomicUsize::new(0));
    let (a1, n1, w1) = (armed.clone(), nb.clone(), wire.clone());
    let w = World::new(Box::new(move |_, q| {
        if a1.swap(0, SeqCst) == 1 {
            let (st, n) = bad(&q.sql, compress, at, &w1);
            n1.store(n, SeqCst);
            st
        } else {
            good(&q.sql, compress)
        }
    }));
    let pinging = matches!(op, Op::Ping);
    let a2 = armed.clone();
    w.with(|i| {
        i.on_connect = Box::new(move |n, _| Conn::Accept(if n == 0 { plan.clone() } else { Plan::default() }));
        if pinging {
            i.on_ping = Some(Box::new(move |_| vec![Step::Send(if a2.swap(0, SeqCst) == 1 { wire.clone() } else { p_pong() })]));
        }
    });
    w.install();
    let res = block_on(async {
        let p = pool(&(params(ping, compress) + "&pool_min=1&pool_max=1"));
        let mut h = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        armed.store(1, SeqCst);
        let out = bounded(run_op(&mut h, op)).await;
        if !failed(op, &out, nb.load(SeqCst), &x.e()) {
            return fail(format!("{} at {at}", op_kind(op)), format!("{what}: got {out:?}"));
        }
        if fresh {
            drop(h);
            h = get(&p).await.map_err(|e| Fail { key: "get after".into(), msg: format!("{what}: get_handle then {e:?}") })?;
        }
        works(&mut h, next, ping, !fresh, &what).await?;
        works(&mut h, &Op::Fetch("SELECT".into()), ping, false, &what).await?;
        drop(h);
        let mut h = get(&p).await.map_err(|e| Fail { key: "get after".into(), msg: format!("{what}: get_handle then {e:?}") })?;
        works(&mut h, &Op::Exec("SELECT".into()), ping, false, &what).await?;
        Ok(out)
    });
    match res {
        None => fail("hang", format!("{what}: hang")),
        Some(Err(e)) => Err(e),
        Some(Ok(out)) => {
            if let Some(m) = w.bad() {
                return fail("request", format!("{what}: the server rejected {m}"));
            }
            if w.with(|i| i.peak) > 1 {
                return fail("pool limit", format!("{what}: more than one connection"));
            }
            obs(&(out, at, op_kind(next), fresh, w.with(|i| i.attempts)))
        }
    }
}

fn points(ch: &Ch) -> Result<Obs, Fail> {
    let ops = ops();
    let op = ch.pick(&ops).clone();
    let at = ch.choose(positions(&op));
    let plan = match ch.choose(3) {
        0 => Plan::default(),
        1 => Plan { chunk: 1, ..Plan::default() },
        _ => Plan { chunk: 7, wchunk: 5, ..Plan::default() },
    };
    let mut nexts = ops.clone();
    nexts.push(Op::Check);
    let next = ch.pick(&nexts).clone();
    let fresh = ch.flag();
    let nested = ch.flag();
    let x = x0();
    let mut wire = x.bytes();
    if nested {
        *wire.last_mut().unwrap() = 1;
        wire.extend_from_slice(&X(7, "DB::Nested".into(), "inner".into(), "trace".into()).bytes()[1..]);
    }
    one(ch, &op, at, &x, wire, plan, &next, fresh)
}

fn texts(n: usize) -> String {
    match n {
        0 => "".into(),
        1 => "x".into(),
        2 => "Ünïcode €\u{10348}\u{0}end".into(),
        3 => "a".repeat(127),
        4 => "b".repeat(128),
        5 => "line\n".repeat(60),
        6 => "c".repeat(16383),
        _ => "d".repeat(16384 + 70000),
    }
}

fn fields(ch: &Ch) -> Result<Obs, Fail> {
    let code = *ch.pick(&[0u32, 1, 62, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX]);
    let name = texts(ch.choose(6));
    let (m, s) = match ch.choose(3) {
        0 => (ch.choose(8), 1),
        1 => (1, ch.choose(8)),
        _ => {
            let k = ch.choose(8);
            (k, k)
        }
    };
    let x = X(code, name, texts(m), texts(s));
    let all = ops();
    let op = ch.pick(&all).clone();
    let at = positions(&op) - 1;
    let wire = x.bytes();
    one(ch, &op, at, &x, wire, Plan::default(), &Op::Fetch("SELECT".into()), false)
}

/// Exception instead of the server's hello.
fn hello(ch: &Ch) -> Result<Obs, Fail> {
    let n = ch.choose(3);
    let k = ch.choose(8);
    let code = *ch.pick(&[0u32, 516, 192, u32::MAX]);
    let x = X(code, texts(k.min(5)), texts(k), texts(7 - k));
    let ping = ch.flag();
    let direct = ch.flag();
    let chunk = *ch.pick(&[0usize, 1, 7]);
    let xs = x.clone();
    let w = World::new(Box::new(move |_, q| good(&q.sql, false)));
    w.with(|i| {
        i.on_connect = Box::new(move |_, _| Conn::Accept(Plan { chunk, ..Plan::default() }));
        i.on_hello = Some(Box::new(move |c, _| vec![Step::Send(if c <= n { xs.bytes() } else { p_hello(CLIENT_REVISION, "UTC") })]));
    });
    w.install();
    ch.note(format!("handshake fails {} times with {x:?}", n + 1));
    let res = block_on(async {
        let o = options(&(params(ping, false) + "&pool_min=1&pool_max=1"));
        let p = clickhouse_rs::Pool::new(o.clone());
        for _ in 0..=n {
            let r = if direct {
                #[allow(deprecated)]
                clickhouse_rs::Client::connect(o.clone()).await.map(|_| ()).map_err(|e| err(&e))
            } else {
                get(&p).await.map(|_| ())
            };
            if r != Err(x.e()) {
                return fail("hello", format!("connecting gave {r:?} instead of {:?}", x.e()));
            }
        }
        let mut h = get(&p).await.map_err(|e| Fail { key: "get after".into(), msg: format!("get_handle then {e:?}") })?;
        works(&mut h, &Op::Fetch("SELECT".into()), ping, false, "exception in the handshake").await
    });
    match res {
        None => fail("hang", "hang"),
        Some(Err(e)) => Err(e),
        Some(Ok(())) => obs(&(x, n, ping)),
    }
}

/// Exception in the ping made before an operation: the connection is replaced and the operation works.
fn implicit(ch: &Ch) -> Result<Obs, Fail> {
    let all = ops();
    let op = ch.pick(&all[..5]).clone();
    let compress = ch.flag();
    let before = ch.flag();
    let w = World::new(Box::new(move |_, q| good(&q.sql, compress)));
    let n = Arc::new(AtomicUsize::new(0));
    let n1 = n.clone();
    w.with(|i| i.on_ping = Some(Box::new(move |_| vec![Step::Send(if n1.swap(0, SeqCst) == 1 { x0().bytes() } else { p_pong() })])));
    w.install();
    let res = block_on(async {
        let p = pool(&(params(true, compress) + "&pool_min=1&pool_max=1"));
        let mut h = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        if before {
            works(&mut h, &op, true, false, "first").await?;
        }
        n.store(1, SeqCst);
        works(&mut h, &op, true, false, "exception in the ping before it").await
    });
    match res {
        None => fail("hang", "hang"),
        Some(Err(e)) => Err(e),
        Some(Ok(())) => {
            if let Some(m) = w.bad() {
                return fail("request", m);
            }
            obs(&(op_kind(&op), compress, before))
        }
    }
}

/// After the exception a stream stays ended.
fn after_end(ch: &Ch) -> Result<Obs, Fail> {
    let at = ch.choose(8);
    let rows = ch.flag();
    let ping = ch.flag();
    let more = 1 + ch.choose(3);
    let w = World::new(Box::new(move |_, q| bad(&q.sql, false, at, &x0().bytes()).0));
    w.install();
    let res = block_on(async {
        let p = pool(&params(ping, false));
        let mut h = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        let mut seen = vec![];
        if rows {
            let mut s = h.query("SELECT").stream();
            while let Some(x) = s.next().await {
                seen.push(x.is_ok());
                if !seen.last().unwrap() {
                    break;
                }
            }
            for _ in 0..more {
                if let Some(Ok(_)) = s.next().await {
                    return fail("rows after the exception", "a row was delivered after the exception");
                }
            }
        } else {
            let mut s = h.query("SELECT").stream_blocks();
            while let Some(x) = s.next().await {
                seen.push(x.is_ok());
                if !seen.last().unwrap() {
                    break;
                }
            }
            for _ in 0..more {
                if let Some(Ok(_)) = s.next().await {
                    return fail("blocks after the exception", "a block was delivered after the exception");
                }
            }
        }
        if seen.last() != Some(&false) {
            return fail("no exception", format!("the stream ended without reporting the exception at {at}"));
        }
        Ok(seen)
    });
    match res {
        None => fail("hang", "hang"),
        Some(Err(e)) => Err(e),
        Some(Ok(s)) => obs(&(s, at, rows)),
    }
}

/// Sequences of operations, each of which fails with its own exception or works.
fn sequence(ch: &Ch, len: usize) -> Result<Obs, Fail> {
    let ping = ch.flag();
    let compress = ch.flag();
    let two = ch.flag();
    let plan: Arc<std::sync::Mutex<Option<(usize, Vec<u8>)>>> = Default::default();
    let nb = Arc::new(AtomicUsize::new(0));
    let (p1, n1) = (plan.clone(), nb.clone());
    let w = World::new(Box::new(move |_, q| match p1.lock().unwrap().take() {
        Some((at, x)) => {
            let (st, n) = bad(&q.sql, compress, at, &x);
            n1.store(n, SeqCst);
            st
        }
        None => good(&q.sql, compress),
    }));
    w.install();
    let all = ops();
    let mut log = vec![];
    let res = block_on(async {
        let max = if two { 2 } else { 1 };
        let p = pool(&(params(ping, compress) + &format!("&pool_min={max}&pool_max={max}")));
        let mut hs = vec![];
        for _ in 0..max {
            hs.push((get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?, false));
        }
        for i in 0..len {
            let which = if two { ch.choose(2) } else { 0 };
            let op = match ch.choose(6) {
                0 => {
                    let (h, _) = hs.remove(which);
                    drop(h);
                    let h = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("after {log:?}: {e:?}") })?;
                    hs.insert(which, (h, false));
                    log.push("return".to_string());
                    continue;
                }
                1 => all[0].clone(),
                2 => all[1].clone(),
                3 => all[3].clone(),
                4 => all[4].clone(),
                _ => all[2].clone(),
            };
            let (h, lost) = &mut hs[which];
            if ch.flag() {
                let x = X(500 + i as u32, "N".into(), format!("op {i}"), "s".into());
                let at = *ch.pick(&[0, positions(&op) - 1]);
                *plan.lock().unwrap() = Some((at, x.bytes()));
                let mut out = bounded(run_op(h, &op)).await;
                if *lost && !ping && matches!(out.error(), Some(E::Conn(_))) {
                    let c = bounded(run_op(h, &Op::Check)).await;
                    if c != Out::Done {
                        return fail("check_connection", format!("after {log:?}: {c:?}"));
                    }
                    out = bounded(run_op(h, &op)).await;
                }
                log.push(format!("{} fails on {which}", op_kind(&op)));
                if !failed(&op, &out, nb.load(SeqCst), &x.e()) {
                    return fail(format!("sequence {}", op_kind(&op)), format!("after {log:?}: {out:?}"));
                }
                *lost = true;
            } else {
                works(h, &op, ping, *lost, &format!("after {log:?}")).await?;
                *lost = false;
                log.push(format!("{} on {which}", op_kind(&op)));
            }
        }
        Ok(())
    });
    match res {
        None => fail("hang", format!("hang after {log:?}")),
        Some(Err(e)) => Err(e),
        Some(Ok(())) => {
            if let Some(m) = w.bad() {
                return fail("request", format!("after {log:?}: {m}"));
            }
            if w.with(|i| i.peak) > 1 + two as usize {
                return fail("pool limit", format!("after {log:?}: too many connections"));
            }
            obs(&(log, w.with(|i| i.attempts)))
        }
    }
}

fn run(cx: &mut Ctx) {
    cx.explore("every position", points);
    cx.explore("every field", fields);
    cx.explore("handshake", hello);
    cx.explore("ping before an operation", implicit);
    cx.explore("end of a stream", after_end);
    let n = cx.pick(3, 4);
    cx.explore("sequences", |ch| sequence(ch, n));
}
