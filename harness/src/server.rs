//! Reference ClickHouse server and the in-memory network it is reached through.

use crate::rtypes::*;
use clickhouse_rs::verif::{Connecting, Io};
use std::{
    collections::VecDeque,
    future::Future,
    io,
    net::SocketAddr,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};
use tokio::{
    io::{AsyncRead, AsyncWrite, ReadBuf},
    time::{Instant, Sleep},
};

pub const CLIENT_REVISION: u64 = 54429;

// ------------------------------------------------------------------ packets to the client

pub fn p_hello(rev: u64, tz: &str) -> Vec<u8> {
    p_hello_full(rev, tz, "ClickHouse", "display", 7)
}
pub fn p_hello_full(rev: u64, tz: &str, name: &str, display: &str, patch: u64) -> Vec<u8> {
    let mut o = vec![0];
    string(&mut o, name.as_bytes());
    uvarint(&mut o, 20);
    uvarint(&mut o, 3);
    uvarint(&mut o, rev);
    let eff = rev.min(CLIENT_REVISION);
    if eff >= 54058 {
        string(&mut o, tz.as_bytes());
    }
    if eff >= 54372 {
        string(&mut o, display.as_bytes());
    }
    if eff >= 54401 {
        uvarint(&mut o, patch);
    }
    o
}
pub fn p_pong() -> Vec<u8> {
    vec![4]
}
pub fn p_eos() -> Vec<u8> {
    vec![5]
}
pub fn p_data(b: &RBlock, compress: bool) -> Vec<u8> {
    p_block(1, b, compress)
}
pub fn p_block(kind: u8, b: &RBlock, compress: bool) -> Vec<u8> {
    let mut o = vec![kind];
    string(&mut o, b"");
    o.extend(b.encode(compress));
    o
}
pub fn p_progress(rev: u64, seed: u64) -> Vec<u8> {
    let mut o = vec![3];
    uvarint(&mut o, seed);
    uvarint(&mut o, seed * 131);
    let eff = rev.min(CLIENT_REVISION);
    if eff >= 51554 {
        uvarint(&mut o, seed * 7);
    }
    if eff >= 54420 {
        uvarint(&mut o, 1);
        uvarint(&mut o, 2);
    }
    o
}
pub fn p_profile() -> Vec<u8> {
    let mut o = vec![6];
    uvarint(&mut o, 300);
    uvarint(&mut o, 2);
    uvarint(&mut o, 99999);
    o.push(1);
    uvarint(&mut o, 5);
    o.push(0);
    o
}
pub fn p_table_columns() -> Vec<u8> {
    let mut o = vec![11];
    string(&mut o, b"t");
    string(&mut o, b"columns format version: 1");
    o
}
pub fn p_exception(code: u32, name: &str, msg: &str, stack: &str) -> Vec<u8> {
    let mut o = vec![2];
    o.extend_from_slice(&code.to_le_bytes());
    string(&mut o, name.as_bytes());
    string(&mut o, msg.as_bytes());
    string(&mut o, stack.as_bytes());
    o.push(0); // no nested exception
    o
}

// ------------------------------------------------------------------ packets from the client

#[derive(Clone, Debug, PartialEq)]
pub struct HelloPkt {
    pub client: String,
    pub major: u64,
    pub minor: u64,
    pub revision: u64,
    pub database: String,
    pub user: String,
    pub password: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SetVal {
    Str(String),
    Num(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct QueryPkt {
    pub id: String,
    pub kind: u64,
    pub initial_user: String,
    pub initial_id: String,
    pub initial_addr: String,
    pub iface: u64,
    pub os_user: String,
    pub host: String,
    pub client: String,
    pub major: u64,
    pub minor: u64,
    pub revision: u64,
    pub quota: Option<String>,
    pub patch: Option<u64>,
    /// name, importance flag (string format only), value
    pub settings: Vec<(String, Option<u8>, SetVal)>,
    pub stage: u64,
    pub compression: u64,
    pub sql: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pkt {
    Hello(HelloPkt),
    Query(Box<QueryPkt>),
    Data(RBlock),
    Cancel,
    Ping,
}

fn parse_hello(r: &mut R) -> RRes<HelloPkt> {
    Ok(HelloPkt {
        client: r.str()?,
        major: r.uvarint()?,
        minor: r.uvarint()?,
        revision: r.uvarint()?,
        database: r.str()?,
        user: r.str()?,
        password: r.str()?,
    })
}

fn parse_query(r: &mut R, rev: u64) -> RRes<QueryPkt> {
    let rev = rev.min(CLIENT_REVISION);
    let id = r.str()?;
    let kind = r.u8()? as u64;
    let initial_user = r.str()?;
    let initial_id = r.str()?;
    let initial_addr = r.str()?;
    let iface = r.u8()? as u64;
    let os_user = r.str()?;
    let host = r.str()?;
    let client = r.str()?;
    let major = r.uvarint()?;
    let minor = r.uvarint()?;
    let revision = r.uvarint()?;
    let quota = if rev >= 54060 { Some(r.str()?) } else { None };
    let patch = if rev >= 54401 { Some(r.uvarint()?) } else { None };
    let mut settings = vec![];
    loop {
        let name = r.str()?;
        if name.is_empty() {
            break;
        }
        if rev >= 54429 {
            let flags = r.u8()?;
            let v = r.str()?;
            settings.push((name, Some(flags), SetVal::Str(v)));
        } else {
            // The server knows the type of a setting; in this model the name tells it.
            let v = match name.as_bytes()[0] {
                b'u' | b'b' => SetVal::Num(r.uvarint()?),
                b's' | b'f' => SetVal::Str(r.str()?),
                _ => return Err(RErr::Bad(format!("unknown setting {name:?}"))),
            };
            settings.push((name, None, v));
        }
    }
    let stage = r.uvarint()?;
    let compression = r.uvarint()?;
    let sql = r.str()?;
    if kind != 1 || iface != 1 || stage > 2 || compression > 1 {
        return Err(RErr::Bad(format!("query fields kind={kind} iface={iface} stage={stage} compression={compression}")));
    }
    Ok(QueryPkt {
        id,
        kind,
        initial_user,
        initial_id,
        initial_addr,
        iface,
        os_user,
        host,
        client,
        major,
        minor,
        revision,
        quota,
        patch,
        settings,
        stage,
        compression,
        sql,
    })
}

// ------------------------------------------------------------------ scripts

#[derive(Clone, Debug)]
pub enum Step {
    Send(Vec<u8>),
    Delay(Duration),
    /// The query goes on for ever unless it is cancelled.
    Hold,
    /// Receive the rows of an insert, then go on.
    Recv,
    Close,
    /// The server never does anything again on this connection.
    Stall,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Offsets in the server's byte stream at which a read ends and the next one is pending once.
    pub cuts: Vec<usize>,
    /// Like `cuts`, every `n` bytes.
    pub chunk: usize,
    /// Cut without a pending read.
    pub no_pending: bool,
    /// Offset in the server's byte stream where the connection ends.
    pub end: Option<(usize, End)>,
    /// Offset in the client's byte stream where writing fails.
    pub wfail: Option<usize>,
    /// Writes accept at most so many bytes (0 = all) and every second write is pending once.
    pub wchunk: usize,
    /// Offsets in the client's byte stream at which a write ends and the next one is pending once.
    pub wcuts: Vec<usize>,
    /// Writing fails after the server has closed.
    pub write_err_after_close: bool,
    /// The server's bytes stop arriving at this offset without the connection ending.
    pub stall_at: Option<usize>,
    /// ... except that they go on after this long.
    pub stall_for: Option<Duration>,
    /// The client's bytes are not taken any more from this offset on.
    pub wstall: Option<usize>,
    /// byte substitutions in the server's stream
    pub corrupt: Vec<(usize, u8)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    Err,
}

pub enum Conn {
    Accept(Plan),
    AcceptAfter(Duration, Plan),
    Refuse,
    RefuseAfter(Duration),
    Never,
    /// Resolved by hand: pending until `World::resolve`.
    Manual,
}

pub type OnConnect = Box<dyn FnMut(usize, SocketAddr) -> Conn + Send>;
pub type OnHello = Box<dyn FnMut(usize, &HelloPkt) -> Vec<Step> + Send>;
pub type OnPing = Box<dyn FnMut(usize) -> Vec<Step> + Send>;
pub type OnQuery = Box<dyn FnMut(usize, &QueryPkt) -> Vec<Step> + Send>;

#[derive(Clone, Debug)]
pub enum Ev {
    Connect(SocketAddr),
    Accepted,
    Refused,
    Pkt(Pkt),
    /// The client closed the connection.
    Closed,
    /// The client did something a server would not accept.
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Log {
    pub conn: usize,
    pub at: Duration,
    pub ev: Ev,
}

enum Out {
    Bytes(Vec<u8>),
    Close,
}

#[derive(PartialEq, Debug)]
enum St {
    Hello,
    Idle,
    /// Query received, waiting for the end-of-external-tables block.
    Tables,
    /// Receiving insert data.
    Insert,
    /// Reply is held back.
    Held,
    Stalled,
}

pub struct ConnSt {
    plan: Plan,
    st: St,
    inbuf: Vec<u8>,
    query: Option<Box<QueryPkt>>,
    rest: VecDeque<Step>,
    compress: bool,
    out: VecDeque<(Instant, Out)>,
    out_end: Instant,
    /// bytes released to the client and not read yet
    ready: VecDeque<u8>,
    sent: usize,   // bytes delivered to the client
    queued: usize, // bytes ever put into `ready`
    received: usize,
    server_closed: bool,
    pended_at: Option<usize>,
    wpended_at: Option<usize>,
    wakers: Vec<Waker>,
    sleep: Option<Pin<Box<Sleep>>>,
    pub raw_in: Vec<u8>,
    pub raw_out: Vec<u8>,
    pub client_closed: bool,
    reading_stopped: bool,
    stalled_until: Option<Instant>,
}

/// More than any execution needs.
const MAX_OPS: usize = 3_000_000;
const MAX_BYTES: usize = 2 << 30;

pub struct Inner {
    ops: usize,
    bytes: usize,
    pub revision: u64,
    pub tz: String,
    pub on_connect: OnConnect,
    pub on_hello: Option<OnHello>,
    pub on_ping: Option<OnPing>,
    pub on_query: OnQuery,
    pub log: Vec<Log>,
    pub conns: Vec<ConnSt>,
    /// connection index of each connect attempt, in order
    pub attempts: usize,
    pub connecting: usize,
    pub open: usize,
    pub peak: usize,
    pub manual: Vec<(usize, SocketAddr, Option<bool>, Option<Waker>)>,
    /// Asked at every poll of a manual connection attempt whether it has ended by now.
    pub ask: Option<Box<dyn FnMut() -> Option<bool> + Send>>,
    start: Option<Instant>,
}

#[derive(Clone)]
pub struct World(pub Arc<Mutex<Inner>>);

impl ConnSt {
    /// Bytes delivered to the client and received from it.
    pub fn pos(&self) -> (usize, usize) {
        (self.sent, self.received)
    }
    pub fn plan_mut(&mut self) -> &mut Plan {
        &mut self.plan
    }
}

impl Inner {
    fn now(&mut self) -> Duration {
        let now = Instant::now();
        let s = *self.start.get_or_insert(now);
        now - s
    }
    fn ev(&mut self, conn: usize, ev: Ev) {
        let at = self.now();
        self.log.push(Log { conn, at, ev });
    }
    fn note_peak(&mut self) {
        self.peak = self.peak.max(self.connecting + self.open);
    }
    fn bad(&mut self, c: usize, m: String) {
        self.ev(c, Ev::Bad(m));
        self.conns[c].st = St::Stalled;
        self.push_out(c, Out::Close);
    }
    fn push_out(&mut self, c: usize, o: Out) {
        let now = Instant::now();
        let cs = &mut self.conns[c];
        let at = cs.out_end.max(now);
        cs.out_end = at;
        cs.out.push_back((at, o));
        for w in cs.wakers.drain(..) {
            w.wake();
        }
    }

    fn run_steps(&mut self, c: usize) {
        while let Some(step) = self.conns[c].rest.pop_front() {
            match step {
                Step::Send(b) => self.push_out(c, Out::Bytes(b)),
                Step::Delay(d) => {
                    let now = Instant::now();
                    let cs = &mut self.conns[c];
                    cs.out_end = cs.out_end.max(now) + d;
                }
                Step::Hold => {
                    self.conns[c].st = St::Held;
                    return;
                }
                Step::Recv => {
                    self.conns[c].st = St::Insert;
                    return;
                }
                Step::Close => {
                    self.push_out(c, Out::Close);
                    self.conns[c].st = St::Stalled;
                    self.conns[c].rest.clear();
                    return;
                }
                Step::Stall => {
                    self.conns[c].st = St::Stalled;
                    self.conns[c].rest.clear();
                    return;
                }
            }
        }
        self.conns[c].st = St::Idle;
    }

    fn start_reply(&mut self, c: usize, steps: Vec<Step>) {
        self.conns[c].rest = steps.into();
        self.run_steps(c);
    }

    /// Is part of a reply still to come?
    fn busy(&self, c: usize) -> bool {
        let cs = &self.conns[c];
        let now = Instant::now();
        cs.st == St::Held || cs.out.iter().any(|(at, _)| *at > now)
    }

    fn feed(&mut self, c: usize, bytes: &[u8]) {
        self.conns[c].received += bytes.len();
        self.conns[c].raw_in.extend_from_slice(bytes);
        if self.conns[c].server_closed || self.conns[c].reading_stopped {
            return;
        }
        self.conns[c].inbuf.extend_from_slice(bytes);
        loop {
            if self.conns[c].st == St::Stalled || self.conns[c].inbuf.is_empty() {
                return;
            }
            let buf = std::mem::take(&mut self.conns[c].inbuf);
            let mut r = R::new(&buf);
            let res = self.parse(c, &mut r);
            let used = r.i;
            match res {
                Ok(pkt) => {
                    self.conns[c].inbuf = buf[used..].to_vec();
                    self.ev(c, Ev::Pkt(pkt.clone()));
                    self.handle(c, pkt);
                }
                Err(RErr::More) => {
                    self.conns[c].inbuf = buf;
                    return;
                }
                Err(RErr::Bad(m)) => {
                    self.bad(c, m);
                    return;
                }
            }
        }
    }

    fn parse(&mut self, c: usize, r: &mut R) -> RRes<Pkt> {
        let kind = r.uvarint()?;
        let st = &self.conns[c].st;
        match kind {
            0 if *st == St::Hello => Ok(Pkt::Hello(parse_hello(r)?)),
            1 if *st != St::Hello => Ok(Pkt::Query(Box::new(parse_query(r, self.revision)?))),
            2 if *st != St::Hello => {
                let name = r.str()?;
                if !name.is_empty() {
                    return Err(RErr::Bad(format!("table name {name:?}")));
                }
                if *st != St::Tables && *st != St::Insert {
                    return Err(RErr::Bad("unexpected Data packet".into()));
                }
                let b = decode_block(r, self.conns[c].compress)?;
                Ok(Pkt::Data(b))
            }
            3 if *st != St::Hello => Ok(Pkt::Cancel),
            4 if *st != St::Hello => Ok(Pkt::Ping),
            k => Err(RErr::Bad(format!("packet {k} in state {st:?}"))),
        }
    }

    fn handle(&mut self, c: usize, pkt: Pkt) {
        let busy = self.busy(c);
        if busy && pkt != Pkt::Cancel {
            return self.bad(c, format!("packet while a query is running: {pkt:?}"));
        }
        match pkt {
            Pkt::Hello(h) => {
                let steps = match self.on_hello.take() {
                    Some(mut f) => {
                        let s = f(c, &h);
                        self.on_hello = Some(f);
                        s
                    }
                    None => vec![Step::Send(p_hello(self.revision, &self.tz))],
                };
                self.start_reply(c, steps);
            }
            Pkt::Ping => {
                if self.conns[c].st != St::Idle {
                    return self.bad(c, format!("ping in state {:?}", self.conns[c].st));
                }
                let steps = match self.on_ping.take() {
                    Some(mut f) => {
                        let s = f(c);
                        self.on_ping = Some(f);
                        s
                    }
                    None => vec![Step::Send(p_pong())],
                };
                self.start_reply(c, steps);
            }
            Pkt::Query(q) => {
                if self.conns[c].st != St::Idle {
                    return self.bad(c, format!("query in state {:?}", self.conns[c].st));
                }
                self.conns[c].compress = q.compression == 1;
                self.conns[c].query = Some(q);
                self.conns[c].st = St::Tables;
            }
            Pkt::Data(b) => match self.conns[c].st {
                St::Tables => {
                    if !b.cols.is_empty() {
                        return self.bad(c, "external table".into());
                    }
                    let q = self.conns[c].query.take().unwrap();
                    let mut f = std::mem::replace(&mut self.on_query, Box::new(|_, _| vec![]));
                    let steps = f(c, &q);
                    self.on_query = f;
                    self.conns[c].query = Some(q);
                    self.start_reply(c, steps);
                }
                St::Insert => {
                    if b.cols.is_empty() {
                        self.run_steps(c);
                    }
                }
                _ => unreachable!(),
            },
            Pkt::Cancel => {
                if busy {
                    let now = Instant::now();
                    let cs = &mut self.conns[c];
                    cs.out.retain(|(at, _)| *at <= now);
                    cs.out_end = now;
                    cs.rest.clear();
                    cs.st = St::Idle;
                    self.push_out(c, Out::Bytes(p_eos()));
                } else if self.conns[c].st != St::Idle {
                    self.bad(c, format!("cancel in state {:?}", self.conns[c].st));
                }
            }
        }
    }
}

pub struct Sock {
    w: World,
    c: usize,
}

impl Drop for Sock {
    fn drop(&mut self) {
        let mut w = self.w.0.lock().unwrap();
        w.open -= 1;
        w.conns[self.c].client_closed = true;
        w.ev(self.c, Ev::Closed);
    }
}

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut w = self.w.0.lock().unwrap();
        w.ops += 1;
        if w.ops > MAX_OPS {
            drop(w);
            panic!("livelock: the client keeps reading and writing without end");
        }
        let cs = &mut w.conns[self.c];
        let now = Instant::now();
        while let Some((at, _)) = cs.out.front() {
            if *at > now {
                break;
            }
            match cs.out.pop_front().unwrap().1 {
                Out::Bytes(b) => {
                    cs.raw_out.extend_from_slice(&b);
                    for x in b {
                        let mut x = x;
                        for (o, y) in &cs.plan.corrupt {
                            if *o == cs.queued {
                                x = *y;
                            }
                        }
                        cs.queued += 1;
                        cs.ready.push_back(x);
                    }
                }
                Out::Close => cs.server_closed = true,
            }
        }
        if let Some((off, kind)) = cs.plan.end {
            if cs.sent >= off {
                cs.server_closed = true;
                cs.reading_stopped = true;
                return match kind {
                    End::Eof => Poll::Ready(Ok(())),
                    End::Err => Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"))),
                };
            }
        }
        let mut limit = cs.ready.len();
        if let Some((off, _)) = cs.plan.end {
            limit = limit.min(off - cs.sent);
        }
        let mut stalled = false;
        if let Some(off) = cs.plan.stall_at {
            let over = match (cs.stalled_until, cs.plan.stall_for) {
                (Some(t), _) => now >= t,
                _ => false,
            };
            if !over {
                if cs.sent >= off {
                    stalled = true;
                    limit = 0;
                    if let (None, Some(d)) = (cs.stalled_until, cs.plan.stall_for) {
                        cs.stalled_until = Some(now + d);
                    }
                } else {
                    limit = limit.min(off - cs.sent);
                }
            }
        }
        if limit == 0 {
            if cs.server_closed && cs.ready.is_empty() {
                return Poll::Ready(Ok(()));
            }
            cs.wakers.push(cx.waker().clone());
            let until = if stalled { cs.stalled_until } else { cs.out.front().map(|(at, _)| *at) };
            if let Some(at) = until {
                let mut sl = Box::pin(tokio::time::sleep_until(at));
                if sl.as_mut().poll(cx).is_ready() {
                    cx.waker().wake_by_ref();
                }
                cs.sleep = Some(sl);
            }
            return Poll::Pending;
        }
        // cut points
        let next_cut = cs
            .plan
            .cuts
            .iter()
            .copied()
            .filter(|&x| x > cs.sent || (x == cs.sent && cs.pended_at != Some(x)))
            .min();
        let chunk_cut = if cs.plan.chunk > 0 {
            let n = cs.plan.chunk;
            if cs.sent % n == 0 && cs.pended_at != Some(cs.sent) {
                Some(cs.sent)
            } else {
                Some(cs.sent / n * n + n)
            }
        } else {
            None
        };
        for cut in [next_cut, chunk_cut].into_iter().flatten() {
            if cut == cs.sent {
                cs.pended_at = Some(cut);
                if !cs.plan.no_pending {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            } else {
                limit = limit.min(cut - cs.sent);
            }
        }
        let n = limit.min(buf.remaining());
        for _ in 0..n {
            buf.put_slice(&[cs.ready.pop_front().unwrap()]);
        }
        cs.sent += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.w.0.lock().unwrap();
        w.ops += 1;
        if w.ops > MAX_OPS || w.bytes > MAX_BYTES {
            drop(w);
            panic!("livelock: the client keeps reading and writing without end");
        }
        let c = self.c;
        let cs = &mut w.conns[c];
        let mut n = buf.len();
        if let Some(off) = cs.plan.wfail {
            if cs.received >= off {
                cs.server_closed = true;
                cs.reading_stopped = true;
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")));
            }
            n = n.min(off - cs.received);
        }
        if let Some(off) = cs.plan.wstall {
            if cs.received >= off {
                cs.wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            n = n.min(off - cs.received);
        }
        if cs.server_closed && cs.plan.write_err_after_close {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")));
        }
        let mut cuts = cs.plan.wcuts.clone();
        if cs.plan.wchunk > 0 {
            let k = cs.plan.wchunk;
            cuts.push(cs.received / k * k);
            cuts.push(cs.received / k * k + k);
        }
        for cut in cuts {
            if cut == cs.received && cs.wpended_at != Some(cut) {
                cs.wpended_at = Some(cut);
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            if cut > cs.received {
                n = n.min(cut - cs.received);
            }
        }
        w.bytes += n;
        w.feed(c, &buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Attempt {
    w: World,
    live: bool,
}
impl Drop for Attempt {
    fn drop(&mut self) {
        if self.live {
            let mut w = self.w.0.lock().unwrap();
            w.connecting -= 1;
        }
    }
}

impl World {
    pub fn new(on_query: OnQuery) -> World {
        World(Arc::new(Mutex::new(Inner {
            revision: CLIENT_REVISION,
            ops: 0,
            bytes: 0,
            tz: "UTC".into(),
            on_connect: Box::new(|_, _| Conn::Accept(Plan::default())),
            on_hello: None,
            on_ping: None,
            on_query,
            log: vec![],
            conns: vec![],
            attempts: 0,
            connecting: 0,
            open: 0,
            peak: 0,
            manual: vec![],
            ask: None,
            start: None,
        })))
    }

    pub fn connector(&self) -> clickhouse_rs::verif::Connector {
        let w = self.clone();
        Arc::new(move |addr| w.clone().connect(addr))
    }

    pub fn install(&self) {
        clickhouse_rs::verif::set_connector(Some(self.connector()));
    }

    pub fn with<X>(&self, f: impl FnOnce(&mut Inner) -> X) -> X {
        f(&mut self.0.lock().unwrap())
    }

    pub fn log(&self) -> Vec<Log> {
        self.with(|w| w.log.clone())
    }

    pub fn bad(&self) -> Option<String> {
        self.with(|w| w.log.iter().find_map(|l| if let Ev::Bad(m) = &l.ev { Some(m.clone()) } else { None }))
    }

    /// All packets received, in order, with the connection they came on.
    pub fn packets(&self) -> Vec<(usize, Pkt)> {
        self.with(|w| {
            w.log
                .iter()
                .filter_map(|l| if let Ev::Pkt(p) = &l.ev { Some((l.conn, p.clone())) } else { None })
                .collect()
        })
    }

    pub fn queries(&self) -> Vec<(usize, QueryPkt)> {
        self.packets()
            .into_iter()
            .filter_map(|(c, p)| if let Pkt::Query(q) = p { Some((c, *q)) } else { None })
            .collect()
    }

    /// For every query: connection, statement, and the data blocks that followed the end of external tables.
    pub fn exchanges(&self) -> Vec<(usize, String, Vec<RBlock>)> {
        let mut r: Vec<(usize, String, Vec<RBlock>, bool)> = vec![];
        for (c, p) in self.packets() {
            match p {
                Pkt::Query(q) => r.push((c, q.sql.clone(), vec![], false)),
                Pkt::Data(b) => {
                    if let Some(x) = r.iter_mut().rev().find(|x| x.0 == c) {
                        if x.3 {
                            x.2.push(b);
                        } else {
                            x.3 = true;
                        }
                    }
                }
                _ => {}
            }
        }
        r.into_iter().map(|(c, s, b, _)| (c, s, b)).collect()
    }

    /// The server closes the given connection now.
    pub fn kill(&self, c: usize) {
        self.with(|w| {
            w.conns[c].st = St::Stalled;
            w.push_out(c, Out::Close)
        });
    }

    fn accept(&self, plan: Plan) -> Box<dyn Io> {
        let mut w = self.0.lock().unwrap();
        let c = w.conns.len();
        w.conns.push(ConnSt {
            plan,
            st: St::Hello,
            inbuf: vec![],
            query: None,
            rest: VecDeque::new(),
            compress: false,
            out: VecDeque::new(),
            out_end: Instant::now(),
            ready: VecDeque::new(),
            sent: 0,
            queued: 0,
            received: 0,
            server_closed: false,
            pended_at: None,
            wpended_at: None,
            wakers: vec![],
            sleep: None,
            raw_in: vec![],
            raw_out: vec![],
            client_closed: false,
            reading_stopped: false,
            stalled_until: None,
        });
        w.open += 1;
        w.connecting -= 1;
        w.ev(c, Ev::Accepted);
        w.note_peak();
        drop(w);
        Box::new(Sock { w: self.clone(), c })
    }

    fn connect(self, addr: SocketAddr) -> Connecting {
        Box::pin(async move {
            let (n, plan) = {
                let mut w = self.0.lock().unwrap();
                let n = w.attempts;
                w.attempts += 1;
                w.connecting += 1;
                w.note_peak();
                w.ev(n, Ev::Connect(addr));
                let mut f = std::mem::replace(&mut w.on_connect, Box::new(|_, _| Conn::Never));
                drop(w);
                let p = f(n, addr);
                self.0.lock().unwrap().on_connect = f;
                (n, p)
            };
            let mut att = Attempt { w: self.clone(), live: true };
            let refuse = |w: &World| {
                w.0.lock().unwrap().ev(n, Ev::Refused);
                Err(io::Error::new(io::ErrorKind::ConnectionRefused, "refused"))
            };
            match plan {
                Conn::Accept(p) => {
                    att.live = false;
                    Ok(self.accept(p))
                }
                Conn::AcceptAfter(d, p) => {
                    tokio::time::sleep(d).await;
                    att.live = false;
                    Ok(self.accept(p))
                }
                Conn::Refuse => refuse(&self),
                Conn::RefuseAfter(d) => {
                    tokio::time::sleep(d).await;
                    refuse(&self)
                }
                Conn::Never => {
                    std::future::pending::<()>().await;
                    unreachable!()
                }
                Conn::Manual => {
                    let me = {
                        let mut w = self.0.lock().unwrap();
                        w.manual.push((n, addr, None, None));
                        w.manual.len() - 1
                    };
                    struct Dead(World, usize);
                    impl Drop for Dead {
                        fn drop(&mut self) {
                            self.0.with(|w| w.manual.get_mut(self.1).map(|m| *m.2.get_or_insert(false)));
                        }
                    }
                    let _dead = Dead(self.clone(), me);
                    let ok = std::future::poll_fn(|cx| {
                        let mut w = self.0.lock().unwrap();
                        let mut wake = None;
                        if w.manual[me].2.is_none() {
                            w.manual[me].2 = w.ask.as_mut().and_then(|f| f());
                            if w.manual[me].2.is_some() {
                                wake = w.manual[me].3.take();
                            }
                        }
                        let m = &mut w.manual[me];
                        let res = match m.2 {
                            Some(ok) => Poll::Ready(ok),
                            None => {
                                m.3 = Some(cx.waker().clone());
                                Poll::Pending
                            }
                        };
                        drop(w);
                        if let Some(wk) = wake {
                            wk.wake();
                        }
                        res
                    })
                    .await;
                    if ok {
                        att.live = false;
                        Ok(self.accept(Plan::default()))
                    } else {
                        refuse(&self)
                    }
                }
            }
        })
    }

    /// Resolves a manual connection attempt.
    pub fn resolve(&self, me: usize, ok: bool) {
        let wk = {
            let mut w = self.0.lock().unwrap();
            w.manual[me].2 = Some(ok);
            w.manual[me].3.take()
        };
        if let Some(wk) = wk {
            wk.wake();
        }
    }
}
