//! Timeouts, in virtual time.

use super::Prop;
use crate::{cases::*, explore::*, server::*, util::*};
use clickhouse_rs::{ClientHandle, Options, Pool};
use std::time::Duration;
use tokio::time::Instant;

pub const PROP: Prop = Prop {
    id: "C13",
    bounds: "12 exchanges x compression x ping x 4 settings of the timeouts (mutually distinct, in every order of size) x 0 or 2 retries: the server stops sending at every byte of its stream, or stops reading at every byte of the client's, for ever, until just before or until just after the limit; every combination of 3 delays before each packet of a reply, of connecting, of the handshake and of the ping; limits not set, by builder and connection string; afterwards the same handle and the whole pool are used again",
    assumptions: &["streams of blocks and rows have no limit of their own", "with ping_before_query off, replacing the connection of a handle takes an explicit check_connection()", "with send_retries=0 a handle whose connection is lost is not repaired", "timers have a resolution of a millisecond"],
    run,
};

#[derive(Clone, Copy, Debug)]
struct L {
    conn: u64,
    ping: u64,
    query: u64,
    insert: u64,
    exec: u64,
}
const LIMITS: [L; 4] = [
    L { conn: 3_000, ping: 5_000, query: 41_000, insert: 47_000, exec: 43_000 },
    L { conn: 7_000, ping: 500, query: 90, insert: 100, exec: 110 },
    L { conn: 10, ping: 30, query: 20_000, insert: 20, exec: 7_000_000 },
    L { conn: 600, ping: 50, query: 700, insert: 900_000, exec: 40 },
];

fn opts(l: &L, ping: bool, compress: bool, retries: usize) -> Options {
    options(&format!(
        "{}&connection_timeout={}ms&ping_timeout={}ms&query_timeout={}ms&insert_timeout={}ms&execute_timeout={}ms&send_retries={retries}&retry_timeout=1ms&pool_min=1&pool_max=2",
        params(ping, compress), l.conn, l.ping, l.query, l.insert, l.exec
    ))
}

/// Limit of the operation itself.
fn limit(op: &Op, l: &L) -> Option<u64> {
    match op {
        Op::Ping => Some(l.ping),
        Op::Exec(_) => Some(l.exec),
        Op::Fetch(_) => Some(l.query),
        Op::Insert(..) => Some(l.insert),
        _ => None,
    }
}

fn near(d: Duration, want: u64) -> bool {
    d >= ms(want) && d <= ms(want + 2)
}

#[derive(Debug, Clone, PartialEq)]
enum Expect {
    /// Fails with a timeout after so long.
    Timeout(u64),
    /// Works, after so long.
    Ok(u64),
    /// An error other than a timeout.
    Err(u64),
}

fn met(c: &Case, e: &Expect, out: &Out, d: Duration) -> bool {
    match e {
        Expect::Timeout(t) => out.error() == Some(&E::Timeout) && near(d, *t),
        Expect::Ok(t) => c.want.met(out) && near(d, *t),
        Expect::Err(t) => out.is_err() && out.error() != Some(&E::Timeout) && near(d, *t),
    }
}

async fn timed(h: &mut ClientHandle, op: &Op) -> (Out, Duration) {
    let t = Instant::now();
    let o = tokio::time::timeout(ms(1_000_000_000), run_op(h, op)).await.unwrap_or(Out::Hang);
    (o, t.elapsed())
}

async fn timed_get(p: &Pool) -> (Result<ClientHandle, E>, Duration) {
    let t = Instant::now();
    let r = tokio::time::timeout(ms(1_000_000_000), p.get_handle()).await;
    let d = t.elapsed();
    match r {
        Ok(Ok(h)) => (Ok(h), d),
        Ok(Err(e)) => (Err(err(&e)), d),
        Err(_) => (Err(E::Other("harness: hang".into())), d),
    }
}

async fn usable(h: &mut ClientHandle, what: &str, c: &Case, l: &L, check: bool) -> Result<(), Fail> {
    if check {
        let (o, _) = timed(h, &Op::Check).await;
        if o != Out::Done {
            return fail("check afterwards", format!("{}: check_connection() of {what} afterwards gives {o:?}", c.name));
        }
    }
    let (mut o, mut d) = timed(h, &c.op).await;
    if let (Out::Err(E::Timeout), Some(lim)) = (&o, limit(&c.op, l)) {
        // the stalled connection of an abandoned result is found out by a ping, which may take longer than the operation is given
        if lim < l.ping && near(d, lim) {
            (o, d) = timed(h, &c.op).await;
        }
    }
    if !c.want.met(&o) || d > ms(l.ping + 2) {
        return fail("handle afterwards", format!("{}: {what} afterwards gives {o:?} after {d:?}", c.name));
    }
    Ok(())
}

/// The handle, then all of the pool, once more.
async fn again(p: &Pool, h: Option<ClientHandle>, c: &Case, l: &L, check: bool, retries: usize) -> Result<(), Fail> {
    if let Some(mut h) = h {
        if retries > 0 {
            usable(&mut h, "the handle", c, l, check).await?;
        }
    }
    for round in 0..2 {
        let mut hs = vec![];
        for i in 0..2 {
            match timed_get(p).await {
                (Ok(h), d) if d <= ms(2) => hs.push(h),
                (r, d) => return fail("pool afterwards", format!("{}: handle {i} of the pool: {:?} after {d:?}", c.name, r.err())),
            }
        }
        let mut res = vec![];
        for h in &mut hs {
            res.push(usable(h, "a handle of the pool", c, l, check).await);
        }
        // without retries a connection that died idle is not replaced, but it does not come back either
        if retries > 0 || round > 0 {
            for r in res {
                r?;
            }
        }
    }
    Ok(())
}

fn exchange(c: &Case, l: &L, o: Options, w: &World, connects: Expect, e: Expect, check: bool, retries: usize) -> Result<(), Fail> {
    w.install();
    let r = block_on(async {
        let p = Pool::new(o);
        let (h, d) = timed_get(&p).await;
        let ok = match (&connects, &h) {
            (Expect::Ok(t), Ok(_)) => near(d, *t),
            (Expect::Timeout(t), Err(E::Timeout)) => near(d, *t),
            (Expect::Err(t), Err(x)) => *x != E::Timeout && near(d, *t),
            _ => false,
        };
        if !ok {
            return fail(format!("connect {connects:?}"), format!("connecting: expected {connects:?}, got {:?} after {d:?}", h.as_ref().err()));
        }
        let Ok(mut h) = h else { return again(&p, None, c, l, check, retries).await };
        let (out, d) = timed(&mut h, &c.op).await;
        if !met(c, &e, &out, d) {
            return fail(format!("{} {e:?}", c.name), format!("{}: expected {e:?}, got {out:?} after {d:?}", c.name));
        }
        again(&p, Some(h), c, l, check, retries).await
    });
    match r {
        None => fail("hang", format!("{}: hang", c.name)),
        Some(Err(e)) => Err(e),
        Some(Ok(())) => match w.bad() {
            Some(m) => fail("request", m),
            None => Ok(()),
        },
    }
}

/// What a stall in the ping of the operation leads to.
fn ping_stall(op: &Op, l: &L, retries: usize) -> Expect {
    let lim = limit(op, l).unwrap_or(u64::MAX);
    if lim < l.ping {
        Expect::Timeout(lim)
    } else if retries == 0 || matches!(op, Op::Ping) {
        Expect::Timeout(l.ping)
    } else {
        Expect::Ok(l.ping)
    }
}

fn setup(ch: &Ch, cs: &[Case]) -> (Case, L, bool, bool, usize) {
    let c = ch.pick(cs).clone();
    let l = *ch.pick(&LIMITS);
    let (ping, compress) = (ch.flag(), ch.flag());
    let retries = if ping && ch.flag() { 0 } else { 2 };
    ch.note(format!("{}, {l:?}, ping={ping}, compress={compress}, retries={retries}", c.name));
    (c, l, ping, compress, retries)
}

fn stall(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let (c, l, ping, compress, retries) = setup(ch, cs);
    let m = marks(&c, ping, compress);
    // the last byte of an exception (none is nested in it) need not be waited for
    let off = ch.choose(m.end - matches!(c.want, Want::Exception(_)) as usize);
    let how = ch.choose(3);
    let lim = limit(&c.op, &l);
    let stage = if off < m.hello { Some(l.conn) } else if off < m.ping { Some(l.ping.min(lim.unwrap_or(u64::MAX))) } else { lim };
    // streams without a limit: finite stalls only
    let stall_for = match (how, stage) {
        (0, Some(_)) => None,
        (0, None) => Some(100_000_000),
        (1, Some(t)) => Some(t - 3),
        (_, Some(t)) => Some(t + 3),
        (_, None) => Some(300_000),
    };
    ch.note(format!("stalls at {off} of {} (handshake {}, ping {}) for {stall_for:?}", m.end, m.hello, m.ping));
    let ends = |t: Option<u64>, e: Expect| match (t, stall_for) {
        (Some(t), Some(s)) if s < t => Expect::Ok(s),
        (None, Some(s)) => Expect::Ok(s),
        _ => e,
    };
    let (connects, e) = if off < m.hello {
        (ends(Some(l.conn), Expect::Timeout(l.conn)), Expect::Ok(0))
    } else if off < m.ping {
        (Expect::Ok(0), ends(stage, ping_stall(&c.op, &l, retries)))
    } else {
        (Expect::Ok(0), ends(lim, Expect::Timeout(lim.unwrap_or(0))))
    };
    let plan = Plan { stall_at: Some(off), stall_for: stall_for.map(ms), ..Default::default() };
    let w = world(&c, compress, vec![plan]);
    // an exception is an outcome of its own, later than without the stall
    exchange(&c, &l, opts(&l, ping, compress, retries), &w, connects.clone(), e.clone(), !ping || matches!(c.op, Op::Ping), retries)?;
    obs(&(c.name, format!("{l:?}{connects:?}{e:?}"), ping, compress, off))
}

fn wstall(ch: &Ch, cs: &[(Case, [Marks; 4])]) -> Result<Obs, Fail> {
    let (c, ms4) = ch.pick(cs);
    let l = *ch.pick(&LIMITS);
    let (ping, compress) = (ch.flag(), ch.flag());
    let retries = if ping && ch.flag() { 0 } else { 2 };
    let m = &ms4[compress as usize * 2 + ping as usize];
    let off = ch.choose(m.end);
    let lim = limit(&c.op, &l);
    ch.note(format!("{}, {l:?}, ping={ping}, compress={compress}, retries={retries}: the server stops reading at {off} of {} (handshake {}, ping {})", c.name, m.end, m.hello, m.ping));
    let (connects, e) = if off < m.hello {
        (Expect::Timeout(l.conn), Expect::Ok(0))
    } else if off < m.ping {
        (Expect::Ok(0), ping_stall(&c.op, &l, retries))
    } else {
        match lim {
            Some(t) => (Expect::Ok(0), Expect::Timeout(t)),
            None => return obs(&"stream"),
        }
    };
    let w = world(c, compress, vec![Plan { wstall: Some(off), ..Default::default() }]);
    exchange(c, &l, opts(&l, ping, compress, retries), &w, connects.clone(), e.clone(), !ping || matches!(c.op, Op::Ping), retries)?;
    obs(&(c.name, format!("{l:?}{connects:?}{e:?}"), ping, compress, off))
}

/// A delay before every packet of the reply.
fn slow(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let l = *ch.pick(&LIMITS);
    let compress = ch.flag();
    let lim = limit(&c.op, &l);
    let unit = lim.unwrap_or(l.query) / 8 * 3;
    let steps = (c.reply)(compress);
    let mut all = vec![];
    let mut sum = 0;
    for s in steps {
        if matches!(s, Step::Send(_)) {
            let d = ch.choose(3) as u64 * unit;
            sum += d;
            all.push(Step::Delay(ms(d)));
        }
        all.push(s);
    }
    ch.note(format!("{}, {l:?}, compress={compress}: delays {all:?}", c.name).chars().take(3000).collect::<String>());
    let e = match lim {
        Some(t) if sum > t => Expect::Timeout(t),
        _ => Expect::Ok(sum),
    };
    let reply = c.reply;
    let mut first = Some(all);
    let w = World::new(Box::new(move |_, _| first.take().unwrap_or_else(|| reply(compress))));
    exchange(&c, &l, opts(&l, false, compress, 2), &w, Expect::Ok(0), e.clone(), true, 2)?;
    obs(&(c.name, format!("{l:?}{e:?}"), sum))
}

/// Delays while connecting, in the handshake and in the ping.
fn slow_connect(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let l = *ch.pick(&LIMITS);
    let retries = if ch.flag() { 2 } else { 0 };
    let unit = l.conn / 8 * 3;
    let outcome = ch.choose(3);
    let (a, b) = (ch.choose(4) as u64 * unit, ch.choose(4) as u64 * unit);
    let pd = *ch.pick(&[0, 3, 5, 10]) * l.ping / 8;
    ch.note(format!("{}, {l:?}, retries={retries}: connection {} after {a} ms, handshake after {b} ms, ping after {pd} ms", c.name, ["accepted", "refused", "never"][outcome]));
    let connects = match outcome {
        0 if a + b < l.conn => Expect::Ok(a + b),
        1 if a < l.conn => Expect::Err(a),
        _ => Expect::Timeout(l.conn),
    };
    let lim = limit(&c.op, &l).unwrap_or(u64::MAX);
    let e = if pd < l.ping.min(lim) { Expect::Ok(pd) } else { ping_stall(&c.op, &l, retries) };
    let w = world(&c, false, vec![]);
    w.with(|i| {
        let mut n = 0;
        i.on_connect = Box::new(move |_, _| {
            n += 1;
            match (n, outcome) {
                (1, 0) => Conn::AcceptAfter(ms(a), Plan::default()),
                (1, 1) => Conn::RefuseAfter(ms(a)),
                (1, _) => Conn::Never,
                _ => Conn::Accept(Plan::default()),
            }
        });
        let first = outcome == 0 && a < l.conn;
        let mut k = 0;
        i.on_hello = Some(Box::new(move |_, _| {
            k += 1;
            let mut s = vec![];
            if k == 1 && first {
                s.push(Step::Delay(ms(b)));
            }
            s.push(Step::Send(p_hello(CLIENT_REVISION, "UTC")));
            s
        }));
        let mut k = 0;
        i.on_ping = Some(Box::new(move |_| {
            k += 1;
            if k == 1 && first {
                vec![Step::Delay(ms(pd)), Step::Send(p_pong())]
            } else {
                vec![Step::Send(p_pong())]
            }
        }));
    });
    exchange(&c, &l, opts(&l, true, false, retries), &w, connects.clone(), e.clone(), matches!(c.op, Op::Ping), retries)?;
    obs(&(c.name, format!("{l:?}{connects:?}{e:?}")))
}

/// Limits that are not set.
fn unset(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let how = ch.choose(2);
    let compress = ch.flag();
    let ping = ch.flag();
    let mut all = vec![];
    let mut sum = 0;
    for s in (c.reply)(compress) {
        if matches!(s, Step::Send(_)) {
            let d = *ch.pick(&[0, 1, 400_000, 50_000_000]);
            sum += d;
            all.push(Step::Delay(ms(d)));
        }
        all.push(s);
    }
    ch.note(format!("{}, limits unset by {}, compress={compress}, ping={ping}, the reply takes {sum} ms", c.name, ["builder", "connection string"][how]));
    let reply = c.reply;
    let mut first = Some(all);
    let w = World::new(Box::new(move |_, _| first.take().unwrap_or_else(|| reply(compress))));
    let base = format!("{}&pool_min=1&pool_max=2", params(ping, compress));
    let o = if how == 0 { options(&base).insert_timeout(None).execute_timeout(None) } else { options(&format!("{base}&insert_timeout=none&execute_timeout=none")) };
    let e = Expect::Ok(sum);
    exchange(&c, &LIMITS[0], o, &w, Expect::Ok(0), e, true, 3)?;
    obs(&(c.name, how, compress, ping, sum))
}

fn run(cx: &mut Ctx) {
    let cs = cases();
    let unlimited: Vec<Case> = cs.iter().filter(|c| matches!(c.op, Op::Exec(_) | Op::Insert(..))).cloned().collect();
    cx.explore("limits not set", |ch| unset(ch, &unlimited));
    cx.explore("server stops sending", |ch| stall(ch, &cs));
    let cm: Vec<(Case, [Marks; 4])> = cs
        .iter()
        .map(|c| {
            let f = |p, z| super::c03::client_marks(c, p, z);
            (c.clone(), [f(false, false), f(true, false), f(false, true), f(true, true)])
        })
        .collect();
    cx.explore("server stops reading", |ch| wstall(ch, &cm));
    let queries: Vec<Case> = cs.iter().filter(|c| !matches!(c.op, Op::Ping)).cloned().collect();
    cx.explore("slow replies", |ch| slow(ch, &queries));
    cx.explore("slow connections", |ch| slow_connect(ch, &cs));
}
