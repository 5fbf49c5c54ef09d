//! Nobody waits for ever for a connection.

use super::Prop;
use crate::{cases::exc, explore::*, server::*, threads::*, util::*};
use clickhouse_rs::{ClientHandle, Pool};
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C11",
    bounds: "the schedules of C10 (threads), judged by whether every thread ends, whether the pool then hands out its maximum and whether nothing is left of it once it is dropped; and for tasks of one thread every sequence of up to 8 (thorough: 9) events among a task beginning to wait, a waiting task being cancelled, a connection attempt succeeding, being refused, closed or answered by an exception or by nothing during the hand-shake, a handle dropped, a handle's connection lost, time passing, with up to 4 tasks and 3 pairs of pool limits",
    assumptions: &["sequential consistency; threads switch at the pool's queue, atomic and mutex operations"],
    run,
};

#[derive(Clone, Copy, Debug)]
enum E {
    Wait,
    Cancel(usize),
    Connected,
    Refused,
    /// the hand-shake goes wrong: closed, an exception, silence
    Shake(usize),
    Drop(usize),
    Lose(usize),
    Time,
}

type Got = Arc<Mutex<Vec<(usize, Result<ClientHandle, String>)>>>;

struct Task {
    id: usize,
    job: tokio::task::JoinHandle<()>,
}

struct St {
    w: World,
    p: Pool,
    max: usize,
    got: Got,
    waiting: Vec<Task>,
    held: Vec<(ClientHandle, bool)>,
    next: usize,
    errors: usize,
    names: Vec<E>,
}

impl St {
    fn spawn(&mut self) {
        let (p, got, id) = (self.p.clone(), self.got.clone(), self.next);
        self.next += 1;
        let job = tokio::spawn(async move {
            let r = p.get_handle().await.map_err(|e| format!("{e:?}"));
            got.lock().unwrap().push((id, r));
        });
        self.waiting.push(Task { id, job });
    }
    async fn settle(&mut self) -> Result<(), Fail> {
        for _ in 0..30 {
            tokio::task::yield_now().await;
        }
        for (id, r) in std::mem::take(&mut *self.got.lock().unwrap()) {
            self.waiting.retain(|t| t.id != id);
            match r {
                Ok(h) => self.held.push((h, true)),
                Err(_) => self.errors += 1,
            }
        }
        let (open, connecting, peak, waits) = self.w.with(|i| (i.open, i.manual.iter().filter(|m| m.2.is_none()).count(), i.peak, i.connecting));
        let held = self.held.iter().filter(|h| h.1).count();
        let names = &self.names;
        if peak > self.max {
            return fail("peak", format!("{names:?}: {peak} connections, pool_max={}", self.max));
        }
        let _ = waits;
        if !self.waiting.is_empty() {
            let n = self.waiting.len();
            // connections in hand-shake are open ones nobody holds
            let shaking = self.shaking();
            if open > held + shaking {
                return fail("idle", format!("{names:?}: {n} tasks wait with {} idle connections", open - held - shaking));
            }
            if connecting + shaking == 0 && held < self.max {
                return fail("capacity", format!("{names:?}: {n} tasks wait with {held} of {} connections in use and none being opened", self.max));
            }
        } else if connecting > 0 {
            return fail("abandoned", format!("{names:?}: a connection is being opened for nobody"));
        }
        Ok(())
    }
    /// Connections whose hand-shake is not answered.
    fn shaking(&self) -> usize {
        self.w.with(|i| i.conns.iter().enumerate().filter(|(k, c)| !c.client_closed && i.log.iter().any(|l| l.conn == *k && matches!(l.ev, Ev::Pkt(Pkt::Hello(_)))) && c.pos().0 == 0).count())
    }
    fn pending(&self) -> Option<usize> {
        self.w.with(|i| i.manual.iter().position(|m| m.2.is_none()))
    }
}

async fn go(ch: &Ch, w: World, min: usize, max: usize, depth: usize, how: Arc<Mutex<usize>>) -> Result<String, Fail> {
    let p = Pool::new(options(&format!("pool_min={min}&pool_max={max}&connection_timeout=100ms")));
    let mut s = St { w, p, max, got: Default::default(), waiting: vec![], held: vec![], next: 0, errors: 0, names: vec![] };
    let n = 1 + ch.choose(depth);
    for _ in 0..n {
        let mut es = vec![];
        if s.next < 4 {
            es.push(E::Wait);
        }
        es.extend((0..s.waiting.len()).map(E::Cancel));
        if s.pending().is_some() {
            es.extend([E::Connected, E::Refused, E::Shake(1), E::Shake(2), E::Shake(3)]);
        }
        // handles are alike
        if let Some(i) = s.held.iter().position(|h| h.1) {
            es.extend([E::Drop(i), E::Lose(i)]);
        }
        if let Some(i) = s.held.iter().position(|h| !h.1) {
            es.push(E::Drop(i));
        }
        if s.pending().is_some() || s.shaking() > 0 {
            es.push(E::Time);
        }
        if es.is_empty() {
            break;
        }
        let e = *ch.pick(&es);
        ch.note(format!("{e:?}"));
        s.names.push(e);
        match e {
            E::Wait => s.spawn(),
            E::Cancel(i) => {
                let t = s.waiting.remove(i);
                t.job.abort();
            }
            E::Connected | E::Refused => {
                let k = s.pending().unwrap();
                *how.lock().unwrap() = 0;
                s.w.resolve(k, matches!(e, E::Connected));
            }
            E::Shake(x) => {
                let k = s.pending().unwrap();
                *how.lock().unwrap() = x;
                s.w.resolve(k, true);
            }
            E::Drop(i) => drop(s.held.remove(i)),
            E::Lose(i) => {
                let r = tokio::time::timeout(ms(1), s.held[i].0.execute("L")).await;
                if !matches!(r, Ok(Err(_))) {
                    return fail("lose", "a closed connection goes unnoticed");
                }
                s.held[i].1 = false;
            }
            E::Time => tokio::time::sleep(ms(101)).await,
        }
        s.settle().await?;
    }
    // everything that can end does
    *how.lock().unwrap() = 0;
    let ok = ch.flag();
    for _ in 0..12 {
        match s.pending() {
            Some(k) => s.w.resolve(k, ok),
            None if s.shaking() > 0 => tokio::time::sleep(ms(101)).await,
            None if !s.held.is_empty() => drop(s.held.remove(0)),
            None => break,
        }
        s.settle().await?;
    }
    if !s.waiting.is_empty() || !s.held.is_empty() {
        return fail("waits", format!("{:?}, then everything ends: {} tasks wait for ever", s.names, s.waiting.len()));
    }
    s.w.with(|i| i.on_connect = Box::new(|_, _| Conn::Accept(Plan::default())));
    let mut hs = vec![];
    for k in 0..max {
        match get(&s.p).await {
            Ok(h) => hs.push(h),
            Err(e) => return fail("afterwards", format!("{:?}: handle {k} of {max} afterwards: {e:?}", s.names)),
        }
    }
    drop(hs);
    let St { w, p, names, errors, next, .. } = s;
    drop(p);
    let left = w.with(|i| (i.open, i.connecting));
    if left != (0, 0) {
        return fail("leak", format!("{names:?}: {left:?} connections (open, connecting) are left after the pool is gone"));
    }
    Ok(format!("{names:?} {errors} {next}"))
}

fn tasks(ch: &Ch, depth: usize) -> Result<Obs, Fail> {
    let (min, max) = *ch.pick(&[(1, 1), (1, 2), (0, 2)]);
    ch.note(format!("pool_min={min} pool_max={max}"));
    let w = World::new(Box::new(|_, _| vec![Step::Close]));
    let how = Arc::new(Mutex::new(0));
    let h2 = how.clone();
    w.with(|i| {
        i.on_connect = Box::new(|_, _| Conn::Manual);
        i.on_hello = Some(Box::new(move |_, _| match *h2.lock().unwrap() {
            0 => vec![Step::Send(p_hello(CLIENT_REVISION, "UTC"))],
            1 => vec![Step::Close],
            2 => vec![Step::Send(exc())],
            _ => vec![Step::Hold],
        }));
    });
    w.install();
    match block_on(go(ch, w.clone(), min, max, depth, how)) {
        None => fail("hang", "hang".to_string()),
        Some(Err(e)) => Err(e),
        Some(Ok(s)) => obs(&(min, max, s)),
    }
}

fn run(cx: &mut Ctx) {
    let d = cx.pick(8, 9);
    cx.explore("tasks", |ch| tasks(ch, d));
    explore(cx, Judge::Progress);
}
