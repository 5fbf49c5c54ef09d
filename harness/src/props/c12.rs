//! Which connections the pool keeps, reuses and drops.

use super::Prop;
use crate::{cases::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::StreamExt;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C12",
    bounds: "every sequence of up to 5 (thorough: 6) actions of taking a handle, a getter given up, a query, a server exception, a connection lost in the middle of a reply, a stream dropped half way, a request abandoned, an idle connection closed by the server, check_connection, dropping a handle, the second hosts refusing, over up to 3 handles x 7 pairs of pool limits (with the minimum below, at and above the maximum) x 1-3 hosts x connections that are refused; afterwards everything is dropped, the pool hands out its maximum again, and at last it is dropped itself",
    assumptions: &["what happens to the connection of a failed query (kept or closed) is up to the client, as long as what is kept works"],
    run,
};

const LIMITS: [(usize, usize); 8] = [(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (0, 2), (5, 2)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Get,
    GiveUp,
    Query(usize),
    Exc(usize),
    Lost(usize),
    Half(usize),
    Abandon(usize),
    Kill(usize),
    Check(usize),
    Drop(usize),
}

fn one() -> RBlock {
    RBlock::new(vec![col("x", T::U(8), vec![V::U(1)])])
}

fn reply(sql: &str) -> Vec<Step> {
    let b = one();
    match sql {
        "E" => vec![Step::Send(p_data(&b.header(), false)), Step::Send(exc())],
        "L" => vec![Step::Send(p_data(&b.header(), false)), Step::Close],
        "A" => vec![Step::Delay(ms(5)), Step::Send(p_eos())],
        _ => answer(&[b.clone(), b.clone(), b], false),
    }
}

struct Slot {
    h: ClientHandle,
    /// has a connection
    live: bool,
    /// the server closed the connection behind its back
    killed: bool,
    /// ... or may have
    maybe: bool,
}

struct Run<'a> {
    ch: &'a Ch,
    w: World,
    p: Pool,
    min: usize,
    max: usize,
    hs: Vec<Slot>,
    idle: usize,
    attempts: usize,
    slow: bool,
    /// some of the idle connections may be dead
    dead_idle: bool,
}

fn bad<T>(key: &str, m: String) -> Result<T, Fail> {
    fail(key, m)
}

impl Run<'_> {
    fn live(&self) -> usize {
        self.hs.iter().filter(|s| s.live).count()
    }
    fn state(&self) -> (usize, usize, usize) {
        self.w.with(|i| (i.open, i.attempts, i.peak))
    }
    fn check(&self, what: &str) -> Result<(), Fail> {
        let (open, attempts, peak) = self.state();
        if open != self.live() + self.idle {
            return bad(&format!("{what}: open"), format!("after {what}: {open} connections are open, should be {} in use and {} idle (pool_min={}, pool_max={})", self.live(), self.idle, self.min, self.max));
        }
        if attempts != self.attempts {
            return bad(&format!("{what}: attempts"), format!("after {what}: {attempts} connections were opened, should be {}", self.attempts));
        }
        if peak > self.max {
            return bad("peak", format!("{peak} connections at once, pool_max={}", self.max));
        }
        match self.w.bad() {
            Some(m) => bad("request", m),
            None => Ok(()),
        }
    }
    /// After something which may or may not have cost the handle its connection.
    fn observe(&mut self, i: usize) {
        let (open, ..) = self.state();
        let others = self.live() - self.hs[i].live as usize;
        self.hs[i].live = open > others + self.idle;
    }
    async fn get(&mut self) -> Result<(), Fail> {
        let t = tokio::time::Instant::now();
        let h = match get(&self.p).await {
            Ok(h) => h,
            Err(e) => return bad("get", format!("taking a handle with {} in use and {} idle of {}: {e:?}", self.live(), self.idle, self.max)),
        };
        if t.elapsed() > ms(if self.slow { 12 } else { 1 }) {
            return bad("get slow", format!("taking a handle took {:?}", t.elapsed()));
        }
        if self.slow {
            // a connection begun for a getter that gave up may be used, or not
            let (open, attempts, _) = self.state();
            if attempts - self.attempts > (self.idle == 0) as usize {
                return bad("get attempts", format!("{} connections were opened for a handle with {} idle", attempts - self.attempts, self.idle));
            }
            self.attempts = attempts;
            self.idle = open - self.live() - 1;
            if self.idle > self.min {
                return bad("idle", format!("{} idle connections, pool_min={}", self.idle, self.min));
            }
        } else if self.idle > 0 {
            self.idle -= 1;
        } else {
            self.attempts += 1;
        }
        self.hs.push(Slot { h, live: true, killed: self.dead_idle, maybe: self.dead_idle });
        self.dead_idle &= self.idle > 0;
        self.check("taking a handle")
    }
    fn drop(&mut self, i: usize) -> Result<(), Fail> {
        let s = self.hs.remove(i);
        let (live, killed) = (s.live, s.killed);
        drop(s);
        if live && self.idle < self.min.min(self.max) {
            // a connection the server has closed may be noticed or not
            let (open, ..) = self.state();
            if !killed || open > self.live() + self.idle {
                self.idle += 1;
                self.dead_idle |= killed;
            }
        }
        self.check("dropping a handle")
    }
    async fn query(&mut self, i: usize) -> Result<(), Fail> {
        let had = self.hs[i].live && !self.hs[i].killed;
        let (before, had_idle) = (self.state().1, self.idle);
        let o = bounded(run_op(&mut self.hs[i].h, &Op::Fetch("Q".into()))).await;
        if !matches!(&o, Out::Block(b) if b.rows() == 3) {
            return bad("query", format!("a query on a healthy server: {o:?}"));
        }
        if !had {
            // replaced, by idle ones first
            let new = self.state().1 - before;
            if new > 1 {
                return bad("replaced", format!("{new} connections were opened to replace one"));
            }
            if new == 0 && had_idle == 0 && !self.slow && !self.hs[i].maybe {
                return bad("replaced", "a lost connection works".into());
            }
            if new == 1 {
                self.attempts += 1;
                // idle ones that had died are gone
                self.idle = self.state().0.saturating_sub(self.live() - self.hs[i].live as usize + 1);
            } else {
                self.idle = self.state().0 - (self.live() - self.hs[i].live as usize) - 1;
            }
            self.hs[i].live = true;
            self.hs[i].killed = false;
            self.dead_idle &= self.idle > 0;
        }
        self.check("a query")
    }
    /// Connections of which a handle or the pool may hold.
    fn open_conns(&self) -> BTreeSet<usize> {
        self.w.with(|i| (0..i.conns.len()).filter(|c| !i.conns[*c].client_closed).collect())
    }
}

async fn go(ch: &Ch, w: World, min: usize, max: usize, depth: usize, hosts: usize, slow: bool) -> Result<String, Fail> {
    let alt: Vec<String> = (1..hosts).map(|k| format!("127.0.0.{}:900{k}", k + 1)).collect();
    let alt = if hosts > 1 { format!("&alt_hosts={}", alt.join(",")) } else { String::new() };
    let o = options(&format!("pool_min={min}&pool_max={max}&retry_timeout=1ms&send_retries=3{alt}"));
    let p = Pool::new(o);
    let mut r = Run { ch, w, p, min, max, hs: vec![], idle: 0, attempts: 0, slow, dead_idle: false };
    let n = 1 + ch.choose(depth);
    let mut names = vec![];
    for _ in 0..n {
        let mut acts = vec![];
        if r.live() < r.max && r.hs.len() < 3 {
            acts.push(A::Get);
        }
        acts.push(A::GiveUp);
        for i in 0..r.hs.len() {
            acts.extend([A::Drop(i), A::Query(i)]);
            if r.hs[i].live && !r.hs[i].killed {
                acts.extend([A::Half(i), A::Lost(i), A::Abandon(i), A::Exc(i)]);
                acts.push(A::Kill(i));
            }
            if !r.hs[i].live {
                acts.push(A::Check(i));
            }
        }
        // a handle without a connection cannot get one while the others have all of them
        let full = r.live() == r.max;
        acts.retain(|a| match a {
            A::Query(i) | A::Check(i) => r.hs[*i].live || !full,
            _ => true,
        });
        let a = *ch.pick(&acts);
        names.push(a);
        ch.note(format!("{a:?}"));
        match a {
            A::Get => r.get().await?,
            A::GiveUp => {
                let before = r.state().1;
                let g = r.p.get_handle();
                if let Some(Ok(h)) = poll_n(g, 1).await {
                    // served at once
                    if slow {
                        if r.state().1 > r.attempts + (r.idle == 0) as usize {
                            return bad("given up", "several connections were opened for one getter".into());
                        }
                        r.attempts = r.state().1;
                        r.idle = r.state().0 - r.live() - 1;
                        if r.idle > min {
                            return bad("idle", format!("{} idle connections, pool_min={min}", r.idle));
                        }
                    } else if r.idle == 0 {
                        r.attempts += 1;
                    } else {
                        r.idle -= 1;
                    }
                    r.hs.push(Slot { h, live: true, killed: r.dead_idle, maybe: r.dead_idle });
                    r.dead_idle &= r.idle > 0;
                    if r.live() > r.max {
                        return bad("given up", format!("a handle too many: {}", r.live()));
                    }
                } else {
                    // a connection was begun or not, what is left of it is not in the way
                    r.attempts += r.state().1 - before;
                    if r.state().1 - before > 1 {
                        return bad("given up", "several connections were opened for one getter".into());
                    }
                }
                r.check("a getter given up")?;
                if slow && ch.flag() {
                    tokio::time::sleep(ms(600)).await;
                    r.check("a pause")?;
                }
            }
            A::Query(i) => r.query(i).await?,
            A::Check(i) => {
                let before = r.state();
                let o = bounded(run_op(&mut r.hs[i].h, &Op::Check)).await;
                if o != Out::Done {
                    return bad("check_connection", format!("check_connection: {o:?}"));
                }
                let after = r.state();
                r.attempts = after.1;
                if after.1 > before.1 + 1 {
                    return bad("check_connection", "several connections".into());
                }
                r.hs[i].live = true;
                r.hs[i].killed = false;
                r.dead_idle &= r.idle > 0;
                r.idle = after.0 - r.live();
                r.check("check_connection")?;
            }
            A::Exc(i) => {
                let o = bounded(run_op(&mut r.hs[i].h, &Op::Fetch("E".into()))).await;
                if o != Out::Err(exc_e()) {
                    return bad("exception", format!("{o:?}"));
                }
                r.observe(i);
                r.check("an exception")?;
            }
            A::Lost(i) => {
                let o = bounded(run_op(&mut r.hs[i].h, &Op::Fetch("L".into()))).await;
                if !o.is_err() {
                    return bad("lost", format!("{o:?}"));
                }
                r.hs[i].live = false;
                r.check("a connection lost")?;
            }
            A::Half(i) => {
                {
                    let mut s = r.hs[i].h.query("Q").stream_blocks();
                    if !matches!(s.next().await, Some(Ok(_))) {
                        return bad("stream", "no block".into());
                    }
                }
                r.observe(i);
                r.check("a stream dropped")?;
            }
            A::Abandon(i) => {
                if poll_n(r.hs[i].h.execute("A"), 2).await.is_some() {
                    return bad("abandoned", "the query ended at once".into());
                }
                r.observe(i);
                r.check("a request abandoned")?;
            }
            A::Kill(i) => {
                // the connection of the handle, found by a ping
                let before = r.w.log().len();
                let o = bounded(run_op(&mut r.hs[i].h, &Op::Ping)).await;
                if o != Out::Done {
                    return bad("ping", format!("{o:?}"));
                }
                let c = r.w.log()[before..].iter().find_map(|l| matches!(l.ev, Ev::Pkt(Pkt::Ping)).then_some(l.conn));
                let Some(c) = c else { return bad("ping", "no ping".into()) };
                r.w.kill(c);
                r.hs[i].killed = true;
            }
            A::Drop(i) => r.drop(i)?,
        }
    }
    // which connections are worth keeping is known by now
    while !r.hs.is_empty() {
        r.drop(r.hs.len() - 1)?;
    }
    // no capacity has leaked
    let idle = r.open_conns();
    let early = ch.flag();
    if early {
        ch.note("then the pool is dropped");
    }
    let max = if early { 0 } else { max };
    let mut hs = vec![];
    for k in 0..max {
        let before = r.state().1;
        let mut h = match get(&r.p).await {
            Ok(h) => h,
            Err(e) => return bad("capacity", format!("{names:?}: handle {k} of {max}: {e:?}")),
        };
        if r.idle > 0 && r.state().1 != before {
            return bad("reuse", format!("{names:?}: a connection was opened with {} idle", r.idle));
        }
        let o = bounded(run_op(&mut h, &Op::Fetch("Q".into()))).await;
        if !matches!(&o, Out::Block(b) if b.rows() == 3) {
            return bad("capacity", format!("{names:?}: handle {k} of {max}: {o:?}"));
        }
        hs.push(h);
        // a dead one may have been replaced by another idle one
        r.idle = r.state().0 - hs.len();
    }
    let (open, _, peak) = r.state();
    if !early && (open != max || peak > max) {
        return bad("maximum", format!("{names:?}: {open} connections open for {max} handles, at most {peak}"));
    }
    if !early && poll_n(r.p.get_handle(), 3).await.is_some() {
        return bad("maximum", format!("{names:?}: one more handle than pool_max={max}"));
    }
    drop(hs);
    let (open, ..) = r.state();
    if !early && open != min.min(max) {
        return bad("idle", format!("{names:?}: {open} connections are kept, pool_min={min}"));
    }
    let Run { p, w, .. } = r;
    drop(p);
    let left = w.with(|i| (i.open, i.connecting));
    if left != (0, 0) {
        return bad("leak", format!("{names:?}: {left:?} connections (open, connecting) are left after the pool is gone"));
    }
    // hosts in turn
    let addrs: Vec<String> = w.log().iter().filter_map(|l| if let Ev::Connect(a) = &l.ev { Some(a.to_string()) } else { None }).collect();
    for (k, a) in addrs.iter().enumerate() {
        let want = if k % hosts == 0 { "127.0.0.1:9000".to_string() } else { format!("127.0.0.{}:900{}", k % hosts + 1, k % hosts) };
        if *a != want {
            return bad("hosts", format!("{names:?}: connections were made to {addrs:?}"));
        }
    }
    // what failed is not used again
    let mut gone: BTreeSet<usize> = BTreeSet::new();
    for l in w.log() {
        match l.ev {
            Ev::Closed => {
                gone.insert(l.conn);
            }
            Ev::Pkt(_) if gone.contains(&l.conn) => return bad("used again", format!("{names:?}: connection {} used after it was closed", l.conn)),
            _ => (),
        }
    }
    Ok(format!("{names:?} {idle:?} {addrs:?}"))
}

fn histories(ch: &Ch, depth: usize) -> Result<Obs, Fail> {
    let (min, max) = *ch.pick(&LIMITS);
    let hosts = if depth > 4 { 2 } else { 1 + ch.choose(3) };
    let slow = ch.flag();
    ch.note(format!("pool_min={min} pool_max={max} hosts={hosts} connecting takes {} ms", slow as u8 * 10));
    let w = World::new(Box::new(|_, q| reply(&q.sql)));
    if slow {
        w.with(|i| {
            i.on_connect = Box::new(|_, _| Conn::AcceptAfter(ms(5), Plan::default()));
            i.on_hello = Some(Box::new(|_, _| vec![Step::Delay(ms(5)), Step::Send(p_hello(CLIENT_REVISION, "UTC"))]));
        });
    }
    w.install();
    match block_on(go(ch, w.clone(), min, max, depth, hosts, slow)) {
        None => fail("hang", "hang"),
        Some(Err(e)) => Err(e),
        Some(Ok(s)) => obs(&(min, max, hosts, s)),
    }
}

fn run(cx: &mut Ctx) {
    cx.explore("histories, hosts", |ch| histories(ch, 4));
    let d = cx.pick(5, 6);
    cx.explore("histories", |ch| histories(ch, d));
}
