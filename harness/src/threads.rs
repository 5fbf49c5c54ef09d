//! Threads sharing a pool, for C10 and C11.

use crate::{explore::*, sched::*, server::*, util::*};
use clickhouse_rs::{ClientHandle, Pool};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

/// What a thread does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum S {
    /// takes a handle
    Get,
    /// a getter polled so many times and given up
    GiveUp(usize),
    /// a request
    Exec,
    /// a request abandoned half way: its connection is lost
    Abandon,
    /// a connection closed by the server in the middle of a reply
    Lost,
    /// a server exception
    Exc,
    /// check_connection
    Check,
    Drop,
}
use S::*;

pub const SCRIPTS: [&[S]; 9] = [
    &[Get, Exec, Drop],
    &[Get, Drop, Get, Drop],
    &[GiveUp(1), Get, Drop],
    &[GiveUp(1)],
    &[Get, Abandon, Drop],
    &[Get, Lost, Exec, Drop],
    &[Get, Abandon, Check, Drop],
    &[GiveUp(2), Get, Exec, Drop],
    &[Get, Exc, Drop, Get, Drop],
];

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// limits, exclusive use, no panics
    Safety,
    /// nobody waits for ever
    Progress,
}

pub struct Setup {
    pub min: usize,
    pub max: usize,
    /// idle connections to begin with
    pub warm: usize,
    /// connecting may fail
    pub fallible: bool,
    pub scripts: Vec<&'static [S]>,
    pub preemptions: u32,
    /// switches at every operation
    pub all: bool,
}

/// Set when critical sections turn out not to be all that matters.
pub static UNGUARDED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn reply(sql: &str) -> Vec<Step> {
    match sql.chars().next() {
        Some('A') => vec![Step::Hold],
        Some('L') => vec![Step::Close],
        Some('X') => vec![Step::Send(p_exception(1, "e", "e", "e"))],
        _ => vec![Step::Send(p_eos())],
    }
}

/// The server's wakers refer to the scheduler, which refers to the server.
struct Cycle(Arc<Sched>);
impl std::ops::Drop for Cycle {
    fn drop(&mut self) {
        self.0.forget_idle();
    }
}

struct Shared {
    /// which thread uses a connection
    users: Mutex<HashMap<usize, usize>>,
    faults: Mutex<Vec<(String, String)>>,
    served: Mutex<usize>,
}

fn script(t: usize, steps: &[S], p: &Pool, w: &World, sch: &Arc<Sched>, sh: &Shared, fallible: bool) {
    let mut h: Option<ClientHandle> = None;
    let mut mine: Option<usize> = None;
    let fault = |k: &str, m: String| sh.faults.lock().unwrap().push((k.to_string(), m));
    for (k, s) in steps.iter().enumerate() {
        let name = format!("T{t}-{k}");
        match s {
            Get => match sch.block_on(t, p.get_handle(), usize::MAX) {
                None => return,
                Some(Ok(x)) => {
                    *sh.served.lock().unwrap() += 1;
                    h = Some(x)
                }
                Some(Err(e)) => {
                    if !fallible {
                        fault("get", format!("get_handle: {e:?}"));
                    }
                    h = None
                }
            },
            GiveUp(n) => {
                // served after all: dropped at once
                let _ = sch.block_on(t, p.get_handle(), *n);
            }
            Drop => {
                if let Some(c) = mine.take() {
                    sh.users.lock().unwrap().remove(&c);
                }
                h = None
            }
            Exec | Check => {
                let Some(h) = &mut h else { continue };
                let r = if *s == Check { sch.block_on(t, h.check_connection(), usize::MAX) } else { sch.block_on(t, h.execute(name.as_str()), usize::MAX) };
                match r {
                    None => return,
                    Some(Err(e)) => {
                        if !fallible {
                            fault("exec", format!("{name}: {e:?}"));
                        }
                        continue;
                    }
                    Some(Ok(())) => (),
                }
                if *s == Check {
                    continue;
                }
                let on: Vec<usize> = w.queries().into_iter().filter(|(_, q)| q.sql == name).map(|x| x.0).collect();
                if on.len() != 1 {
                    fault("sent", format!("{name} was received {} times", on.len()));
                    continue;
                }
                let mut u = sh.users.lock().unwrap();
                if let Some(c) = mine.take() {
                    u.remove(&c);
                }
                if let Some(o) = u.insert(on[0], t) {
                    fault("shared", format!("threads {o} and {t} both have connection {}", on[0]));
                }
                mine = Some(on[0]);
            }
            Abandon | Lost | Exc => {
                let Some(h) = &mut h else { continue };
                if let Some(c) = mine.take() {
                    sh.users.lock().unwrap().remove(&c);
                }
                let sql = format!("{}-{name}", if *s == Abandon { 'A' } else if *s == Lost { 'L' } else { 'X' });
                let _ = sch.block_on(t, h.execute(sql.as_str()), if *s == Abandon { 1 } else { usize::MAX });
            }
        }
    }
    if let Some(c) = mine.take() {
        sh.users.lock().unwrap().remove(&c);
    }
}

/// Runs a future of which nothing external is expected.
fn simply<F: std::future::Future>(f: F) -> Option<F::Output> {
    use std::task::*;
    struct N;
    impl Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    let mut f = Box::pin(f);
    let w: Waker = Arc::new(N).into();
    for _ in 0..50 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
    }
    None
}

pub fn run(ch: &Ch, s: &Setup, judge: Judge) -> Result<Obs, Fail> {
    let n = s.scripts.len();
    ch.note(format!("pool_min={} pool_max={} idle={} connecting={} scripts {:?}", s.min, s.max, s.warm, ["succeeds", "may fail"][s.fallible as usize], s.scripts));
    let what = format!("pool_min={} pool_max={} idle={} connecting may fail: {} scripts {:?}", s.min, s.max, s.warm, s.fallible, s.scripts);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let guard_ = rt.enter();
    let w = World::new(Box::new(|_, q| reply(&q.sql)));
    w.install();
    let p = Pool::new(options(&format!("pool_min={}&pool_max={}&send_retries=1&retry_timeout=0ms&ping_timeout=900s&connection_timeout=900s", s.min, s.max)));
    // idle connections
    let warm: Vec<_> = (0..s.warm).map(|_| simply(p.get_handle())).collect();
    if warm.iter().any(|x| !matches!(x, Some(Ok(_)))) {
        return fail("warm", "cannot fill the pool");
    }
    drop(warm);
    ch.set_budget(s.preemptions);
    let fallible = s.fallible;
    w.with(|i| {
        let ch = ch.clone();
        i.on_connect = Box::new(|_, _| Conn::Manual);
        i.ask = Some(Box::new(move || match ch.choose(if fallible { 3 } else { 2 }) {
            0 => None,
            x => Some(x == 1),
        }));
    });
    let sch = {
        // a connection attempt ends when nothing else can happen
        let (w, ch) = (w.clone(), ch.clone());
        Sched::new(
            n,
            &ch.clone(),
            s.all,
            Box::new(move || {
                let next = w.with(|i| i.manual.iter().position(|m| m.2.is_none()));
                if let Some(k) = next {
                    w.resolve(k, !fallible || ch.choose(2) == 0);
                }
                next.is_some()
            }),
        )
    };
    let _cycle = Cycle(sch.clone());
    let sh = Shared { users: Mutex::new(HashMap::new()), faults: Mutex::new(vec![]), served: Mutex::new(0) };
    let mut threads: Vec<Box<dyn FnOnce(usize) + Send + '_>> = vec![];
    for steps in &s.scripts {
        let (p, w, sch, sh, rt) = (p.clone(), w.clone(), sch.clone(), &sh, rt.handle().clone());
        threads.push(Box::new(move |t| {
            let _g = os_threads().then(|| {
                w.install();
                rt.enter()
            });
            script(t, steps, &p, &w, &sch, sh, fallible);
        }));
    }
    let end = crate::sched::run(&sch, threads);
    if !s.all && !sch.sections_ok() {
        UNGUARDED.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let served = *sh.served.lock().unwrap();
    let (peak, ..) = w.with(|i| (i.peak, i.open));
    if judge == Judge::Safety {
        if let Some((t, m)) = end.panics.first() {
            return fail(format!("panic {m}"), format!("{what}: thread {t} panics: {m}"));
        }
        if peak > s.max {
            return fail(format!("peak {what}"), format!("{what}: {peak} connections open at once, pool_max={}", s.max));
        }
        if let Some((k, m)) = sh.faults.lock().unwrap().first() {
            return fail(format!("{k} {what}"), format!("{what}: {m}"));
        }
        if let Some(m) = w.bad() {
            return fail(format!("request {what}"), format!("{what}: {m}"));
        }
        return obs(&(what, end.steps, end.switches, end.how, peak, served));
    }
    if end.how == "stuck" || end.how == "livelock" {
        return fail(format!("stuck {what}"), format!("{what}: {} ({served} handles served): a thread waits for ever", end.how));
    }
    if end.how != "done" {
        return obs(&(what, end.how));
    }
    // the pool is as good as new
    w.with(|i| {
        i.ask = None;
        i.on_connect = Box::new(|_, _| Conn::Accept(Plan::default()))
    });
    let mut hs = vec![];
    for k in 0..s.max {
        match simply(p.get_handle()) {
            Some(Ok(h)) => hs.push(h),
            r => return fail(format!("capacity {what}"), format!("{what}: afterwards, handle {k} of {}: {:?}", s.max, r.map(|x| x.err()))),
        }
    }
    drop(hs);
    drop(p);
    let left = w.with(|i| (i.open, i.connecting));
    if left != (0, 0) {
        return fail(format!("left {what}"), format!("{what}: {left:?} connections (open, connecting) are left after the pool is gone"));
    }
    drop(guard_);
    obs(&(what, end.steps, end.switches, served))
}

/// Every pair of scripts, or those of `few`.
pub fn pairs(ch: &Ch, limits: &[(usize, usize)], few: &[usize], preemptions: u32, all: bool, judge: Judge) -> Result<Obs, Fail> {
    let (min, max) = *ch.pick(limits);
    let warm = ch.choose(min + 1);
    let fallible = ch.flag();
    let a = ch.choose(few.len());
    let b = a + ch.choose(few.len() - a);
    run(ch, &Setup { min, max, warm, fallible, scripts: vec![SCRIPTS[few[a]], SCRIPTS[few[b]]], preemptions, all }, judge)
}

/// Three threads.
pub fn triples(ch: &Ch, limits: &[(usize, usize)], few: &[usize], preemptions: u32, all: bool, judge: Judge) -> Result<Obs, Fail> {
    let (min, max) = *ch.pick(limits);
    let warm = ch.choose(2);
    let fallible = ch.flag();
    let a = ch.choose(few.len());
    let b = a + ch.choose(few.len() - a);
    let c = b + ch.choose(few.len() - b);
    run(ch, &Setup { min, max, warm, fallible, scripts: vec![SCRIPTS[few[a]], SCRIPTS[few[b]], SCRIPTS[few[c]]], preemptions, all }, judge)
}

pub const EVERY: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
pub const LIMITS: [(usize, usize); 4] = [(1, 1), (1, 2), (0, 1), (2, 2)];

/// The schedules of C10 and C11.
pub fn explore(cx: &mut Ctx, judge: Judge) {
    cx.explore("two threads", |ch| pairs(ch, &LIMITS, &EVERY, 0, false, judge));
    cx.explore("two threads, one preemption", |ch| pairs(ch, &LIMITS[..2], &EVERY, 1, false, judge));
    cx.explore("three threads", |ch| triples(ch, &[(1, 1), (1, 2), (2, 2)], &[0, 1, 3, 4], 0, false, judge));
    if cx.thorough {
        cx.explore("two threads, one preemption, more limits", |ch| pairs(ch, &LIMITS[2..], &EVERY, 1, false, judge));
        cx.explore("three threads, one preemption", |ch| triples(ch, &[(1, 1), (1, 2), (2, 2)], &[0, 1, 3, 4], 1, false, judge));
        cx.explore("two threads, two preemptions", |ch| pairs(ch, &LIMITS[..2], &[0, 1, 3, 4, 5], 2, false, judge));
    }
    if UNGUARDED.load(std::sync::atomic::Ordering::Relaxed) || cx.thorough {
        cx.explore("two threads, every operation", |ch| pairs(ch, &LIMITS[..2], &[0, 1, 2, 3, 4, 5], 1, true, judge));
    }
}
