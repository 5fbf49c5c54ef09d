//! Lost connections are replaced, within the retry limits.

use super::Prop;
use crate::{cases::*, explore::*, server::*, util::*};
#[allow(deprecated)]
use clickhouse_rs::{Client, ClientHandle, Options, Pool};
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C14",
    bounds: "11 operations and check_connection x pooled and unpooled x 7 ways in which the idle connection dies; 0-4 further idle connections, each dead in one of 4 ways or alive; every sequence of up to 5 (thorough: 6) outcomes of connecting (accepted, refused at once or late, never answered, closed in the handshake, exception in the handshake, dead at the first ping) x 0-3 (thorough: 0-4) retries x 2 pauses; connection lost at every byte of a reply",
    assumptions: &["send_retries=0: a lost connection is reported and not replaced", "the first attempt to connect may or may not count as a retry", "a connection found dead by the first ping after connecting may be replaced without a pause"],
    run,
};

async fn open(p: &Option<Pool>, o: &Options) -> Result<ClientHandle, E> {
    match p {
        Some(p) => get(p).await,
        #[allow(deprecated)]
        None => match tokio::time::timeout(ms(100_000_000), Client::connect(o.clone())).await {
            Ok(r) => r.map_err(|e| err(&e)),
            Err(_) => Err(E::Other("harness: hang".into())),
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Death {
    Eof,
    Reset,
    Broken,
    Silent,
    Garbage,
    Exception,
    CloseOnPing,
}
const DEATHS: [Death; 7] = [Death::Eof, Death::Reset, Death::Broken, Death::Silent, Death::Garbage, Death::Exception, Death::CloseOnPing];

/// Makes connection `c` die now.
fn die(w: &World, c: usize, d: Death) {
    w.with(|i| {
        let (sent, received) = i.conns[c].pos();
        let p = i.conns[c].plan_mut();
        match d {
            Death::Eof => p.end = Some((sent, End::Eof)),
            Death::Reset => {
                p.end = Some((sent, End::Err));
                p.write_err_after_close = true;
            }
            Death::Broken => p.wfail = Some(received),
            Death::Silent => p.stall_at = Some(sent),
            _ => (),
        }
        if matches!(d, Death::Eof | Death::Reset | Death::Broken) {
            return;
        }
        let old = i.on_ping.take();
        let mut old = old;
        i.on_ping = Some(Box::new(move |k| {
            if k == c {
                match d {
                    Death::Garbage => vec![Step::Send(vec![0x77])],
                    Death::Exception => vec![Step::Send(exc())],
                    Death::CloseOnPing => vec![Step::Close],
                    _ => vec![],
                }
            } else {
                match &mut old {
                    Some(f) => f(k),
                    None => vec![Step::Send(p_pong())],
                }
            }
        }));
    });
}

fn queries_after(w: &World, from: usize) -> usize {
    w.queries().len() - from
}

const SECRET: &str = "ping_timeout=200ms&connection_timeout=300ms";

/// Queries the operation needs, apart from those made before it.
fn one(op: &Op) -> usize {
    if matches!(op, Op::Check | Op::Ping) {
        0
    } else {
        1
    }
}

/// The connection dies while nothing is going on.
fn idle(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let first = ch.pick(cs).clone();
    let pooled = ch.flag();
    let d = *ch.pick(&DEATHS);
    let max = if pooled { 1 + ch.choose(2) } else { 1 };
    let returned = pooled && ch.flag();
    ch.note(format!("{} after {}, pooled={pooled} (max {max}), handle returned in between={returned}, connection dies: {d:?}", c.name, first.name));
    let (r1, r2) = (first.reply, c.reply);
    let firstq = !matches!(first.op, Op::Check | Op::Ping);
    let mut n = 0;
    let w = World::new(Box::new(move |_, _| {
        n += 1;
        if n == 1 && firstq { r1(false) } else { r2(false) }
    }));
    w.install();
    let o = options(&format!("{SECRET}&pool_min=1&pool_max={max}&retry_timeout=10ms&send_retries=1"));
    let (fop, op) = (first.op.clone(), c.op.clone());
    let exception = matches!(first.want, Want::Exception(_));
    let r: Option<Result<_, String>> = block_on(async {
        let p = pooled.then(|| Pool::new(o.clone()));
        let mut h = open(&p, &o).await.map_err(|e| format!("connecting: {e:?}"))?;
        let out = bounded(run_op(&mut h, &fop)).await;
        if !first.want.met(&out) {
            return Err(format!("first operation: {out:?}"));
        }
        let mut h = Some(h);
        if returned {
            h = None;
        }
        tokio::time::sleep(ms(50)).await;
        let before = w.queries().len();
        let conns = w.with(|i| i.conns.len());
        // after an exception the connection is gone already
        die(&w, conns - 1, d);
        let mut h = match h {
            Some(h) => h,
            None => open(&p, &o).await.map_err(|e| format!("taking the handle again: {e:?}"))?,
        };
        Ok((bounded(run_op(&mut h, &op)).await, before))
    });
    let (out, before) = match r {
        None => return fail("hang", "hang"),
        Some(Err(m)) => return fail("setup", m),
        Some(Ok(x)) => x,
    };
    if !c.want.met(&out) {
        return fail(format!("{} {d:?}", c.name), format!("{}: the connection died while idle ({d:?}); on a healthy server the operation gives {out:?}", c.name));
    }
    if let Some(m) = w.bad() {
        return fail("request", m);
    }
    let n = queries_after(&w, before);
    if n != one(&c.op) {
        return fail(format!("{} sent", c.name), format!("{}: the request was sent {n} times", c.name));
    }
    let (conns, peak) = w.with(|i| (i.conns.len(), i.peak));
    if conns > 2 && !exception || conns > 3 || pooled && peak > max {
        return fail("connections", format!("{}: {conns} connections were made, {peak} at once", c.name));
    }
    obs(&(c.name, pooled, returned, format!("{d:?}"), out))
}

/// Several idle connections, some of them dead.
fn many(ch: &Ch, cs: &[Case], max: usize) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let k = 1 + ch.choose(max);
    let retries = 1 + ch.choose(3);
    let hold = ch.flag();
    let deaths: Vec<Option<Death>> = (0..k).map(|_| *ch.pick(&[None, Some(Death::Eof), Some(Death::Broken), Some(Death::Silent), Some(Death::CloseOnPing)])).collect();
    ch.note(format!("{}, retries={retries}, connections {deaths:?}, one kept={hold}", c.name));
    let reply = c.reply;
    let w = World::new(Box::new(move |_, _| reply(false)));
    w.install();
    let op = c.op.clone();
    let r: Option<Result<_, String>> = block_on(async {
        let p = pool(&format!("{SECRET}&pool_min={k}&pool_max={k}&retry_timeout=10ms&send_retries={retries}"));
        let mut hs = vec![];
        for _ in 0..k {
            hs.push(get(&p).await.map_err(|e| format!("connecting: {e:?}"))?);
        }
        let kept = hold.then(|| hs.remove(0));
        drop(hs);
        for (i, d) in deaths.iter().enumerate() {
            if let Some(d) = d {
                die(&w, i, *d);
            }
        }
        let mut h = match kept {
            Some(h) => h,
            None => get(&p).await.map_err(|e| format!("taking a handle: {e:?}"))?,
        };
        Ok((bounded(run_op(&mut h, &op)).await, h, p))
    });
    let out = match r {
        None => return fail("hang", "hang"),
        Some(Err(m)) => return fail("setup", m),
        Some(Ok((o, _, _))) => o,
    };
    if !c.want.met(&out) {
        return fail(format!("{} many", c.name), format!("{}: idle connections {deaths:?}; on a healthy server the operation gives {out:?}", c.name));
    }
    let n = w.queries().len();
    if n != one(&c.op) {
        return fail(format!("{} sent", c.name), format!("{}: the request was sent {n} times", c.name));
    }
    if w.with(|i| i.peak) > k {
        return fail("connections", format!("{} connections at once, pool_max={k}", w.with(|i| i.peak)));
    }
    obs(&(c.name, format!("{deaths:?}"), retries, hold))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Att {
    Healthy,
    Refused,
    RefusedLate,
    Never,
    ClosedInHello,
    ExceptionInHello,
    DeadAtPing,
}
const ATT: [Att; 7] = [Att::Healthy, Att::Refused, Att::RefusedLate, Att::Never, Att::ClosedInHello, Att::ExceptionInHello, Att::DeadAtPing];
impl Att {
    fn takes(self) -> u64 {
        match self {
            Att::RefusedLate => 40,
            Att::Never => 300,
            _ => 0,
        }
    }
}

/// Outcomes of the attempts to reconnect.
fn attempts(ch: &Ch, cs: &[Case], len: usize, max_retries: usize) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let pooled = ch.flag();
    let retries = ch.choose(max_retries + 1);
    let pause = *ch.pick(&[10u64, 7_000]);
    // the sequence ends with a healthy server, or with one that never recovers
    let mut seq = vec![];
    let tail = *ch.pick(&ATT);
    let n = ch.choose(len + 1);
    for _ in 0..n {
        let a = *ch.pick(&ATT);
        seq.push(a);
        if a == Att::Healthy {
            break;
        }
    }
    if n > 0 && seq.last() == Some(&Att::Healthy) && tail != Att::Healthy {
        return obs(&"covered");
    }
    ch.note(format!("{}, pooled={pooled}, retries={retries}, pause={pause} ms, attempts {seq:?} then {tail:?}", c.name));
    let (s2, reply) = (seq.clone(), c.reply);
    let at = move |k: usize| if k == 0 { Att::Healthy } else { s2.get(k - 1).copied().unwrap_or(tail) };
    let w = World::new(Box::new(move |_, _| reply(false)));
    let kinds = std::sync::Arc::new(std::sync::Mutex::new(Vec::<Att>::new()));
    w.with(|i| {
        let (at1, ks) = (at.clone(), kinds.clone());
        i.on_connect = Box::new(move |n, _| {
            let a = at1(n);
            match a {
                Att::Refused => Conn::Refuse,
                Att::RefusedLate => Conn::RefuseAfter(ms(40)),
                Att::Never => Conn::Never,
                _ => {
                    ks.lock().unwrap().push(a);
                    Conn::Accept(Plan::default())
                }
            }
        });
        let ks = kinds.clone();
        i.on_hello = Some(Box::new(move |c, _| match ks.lock().unwrap()[c] {
            Att::ClosedInHello => vec![Step::Close],
            Att::ExceptionInHello => vec![Step::Send(exc())],
            _ => vec![Step::Send(p_hello(CLIENT_REVISION, "UTC"))],
        }));
        let ks = kinds.clone();
        i.on_ping = Some(Box::new(move |c| match ks.lock().unwrap()[c] {
            Att::DeadAtPing => vec![Step::Close],
            _ => vec![Step::Send(p_pong())],
        }));
    });
    w.install();
    let o = options(&format!("{SECRET}&pool_min=1&pool_max=1&retry_timeout={pause}ms&send_retries={retries}&execute_timeout=1000s&insert_timeout=1000s&query_timeout=1000s"));
    let op = c.op.clone();
    let w2 = w.clone();
    let r: Option<Result<_, String>> = block_on(async {
        let p = pooled.then(|| Pool::new(o.clone()));
        let mut h = open(&p, &o).await.map_err(|e| format!("connecting: {e:?}"))?;
        die(&w2, 0, Death::Eof);
        let t = tokio::time::Instant::now();
        let out = bounded(run_op(&mut h, &op)).await;
        let d = t.elapsed();
        let (made, q) = (w2.with(|i| i.attempts), w2.queries().len());
        let log: Vec<Duration> = w2.log().iter().filter(|l| matches!(l.ev, Ev::Connect(_))).map(|l| l.at).collect();
        // the server recovers
        let later = if out == Out::Hang {
            Out::Hang
        } else {
            w2.with(|i| {
                let k = kinds.clone();
                i.on_connect = Box::new(move |_, _| {
                    k.lock().unwrap().push(Att::Healthy);
                    Conn::Accept(Plan::default())
                });
            });
            bounded(run_op(&mut h, &op)).await
        };
        Ok((out, d, made - 1, q, log, later))
    });
    let (out, d, made, q, log, later) = match r {
        None => return fail("hang", "hang"),
        Some(Err(m)) => return fail("setup", m),
        Some(Ok(x)) => x,
    };
    let what = format!("{}, pooled={pooled}, retries={retries}: attempts {seq:?} then {tail:?}", c.name);
    let outcome = |k: usize| seq.get(k).copied().unwrap_or(tail);
    if let Some(m) = w.bad() {
        return fail("request", format!("{what}: {m}"));
    }
    // connecting is tried at most 1 + retries times
    if made > retries + 1 {
        return fail("too many attempts", format!("{what}: {made} attempts to connect"));
    }
    let healthy = (0..=retries).find(|k| outcome(*k) == Att::Healthy);
    if out == Out::Hang {
        return fail("hang", format!("{what}: hang"));
    }
    match healthy {
        // a healthy server within the number of retries
        Some(k) if k < retries => {
            if !c.want.met(&out) || made != k + 1 {
                return fail(format!("{} not replaced", c.name), format!("{what}: {out:?} after {made} attempts"));
            }
        }
        _ => {
            if c.want.met(&out) && !matches!(c.want, Want::Exception(_)) && !(made > 0 && outcome(made - 1) == Att::Healthy) {
                return fail("wrong success", format!("{what}: {out:?}"));
            }
            if made < retries {
                return fail("too few attempts", format!("{what}: {out:?} after {made} attempts to connect"));
            }
        }
    }
    let sent = made > 0 && outcome(made - 1) == Att::Healthy;
    if q != if sent { one(&c.op) } else { 0 } {
        return fail("sent", format!("{what}: the request was sent {q} times"));
    }
    // pauses
    let mut min = 0;
    for k in 1..made {
        let prev = outcome(k - 1);
        let gap = (log[k + 1] - log[k]).as_millis() as u64;
        let busy = prev.takes();
        let (lo, hi) = if prev == Att::DeadAtPing { (0, pause + 3) } else { (busy + pause, busy + pause + 3) };
        if gap < lo || gap > hi {
            return fail("pause", format!("{what}: {gap} ms between attempts {k} and {}, {busy} of them connecting", k + 1));
        }
        min += gap;
    }
    // no more waiting than that (nothing, or one more pause, after the last attempt)
    let last = if made > 0 { outcome(made - 1).takes() } else { 0 };
    if (d.as_millis() as u64) < min + last || d.as_millis() as u64 > min + last + 3 {
        return fail("time", format!("{what}: {out:?} after {d:?}"));
    }
    // a later operation tries again
    if retries > 0 && !c.want.met(&later) {
        return fail("later", format!("{what}: {out:?}; later, on a healthy server, the handle gives {later:?}"));
    }
    obs(&(c.name, pooled, retries, made, out))
}

/// The connection is lost while the request is being answered: it is not sent again.
fn once(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let compress = ch.flag();
    let pooled = ch.flag();
    let m = marks(&c, true, compress);
    let end = if ch.flag() { End::Err } else { End::Eof };
    let off = m.ping + ch.choose(m.end - m.ping + 1);
    ch.note(format!("{}, compress={compress}, pooled={pooled}, {end:?} at {off} of {}..{}", c.name, m.ping, m.end));
    let w = world(&c, compress, vec![Plan { end: Some((off, end)), ..Default::default() }]);
    w.install();
    let o = options(&params(true, compress));
    let op = c.op.clone();
    let out: Option<Result<_, String>> = block_on(async {
        let p = pooled.then(|| Pool::new(o.clone()));
        let mut h = open(&p, &o).await.map_err(|e| format!("connecting: {e:?}"))?;
        Ok(bounded(run_op(&mut h, &op)).await)
    });
    let out = match out {
        None => return fail("hang", "hang"),
        Some(Err(m)) => return fail("setup", m),
        Some(Ok(x)) => x,
    };
    let n = w.queries().len();
    if n > 1 {
        return fail("sent twice", format!("{}: the request was sent {n} times", c.name));
    }
    obs(&(c.name, compress, pooled, out))
}

fn run(cx: &mut Ctx) {
    let mut cs: Vec<Case> = cases().into_iter().filter(|c| !matches!(c.op, Op::Ping)).collect();
    cx.explore("lost while answering", |ch| once(ch, &cs));
    cs.push(Case { name: "check_connection", op: Op::Check, reply: |_| vec![], want: Want::Done });
    cx.explore("dies idle", |ch| idle(ch, &cs));
    let some: Vec<Case> = cs.iter().filter(|c| matches!(c.want, Want::Done | Want::Data(_))).cloned().collect();
    let n = cx.pick(4, 5);
    cx.explore("many idle", |ch| many(ch, &some, n));
    let (a, b) = (cx.pick(3, 4), cx.pick(3, 4));
    let few = [some[0].clone(), some[2].clone(), some[4].clone(), some[5].clone()];
    cx.explore("attempts", |ch| attempts(ch, &few, a, b));
}
