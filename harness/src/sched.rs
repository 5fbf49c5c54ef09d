//! Threads of which one runs at a time; at every point where another one may run, the choice oracle decides.
//!
//! The threads are coroutines on the worker's own OS thread. With `CHMC_OS_THREADS` they are OS threads (much slower), which
//! also copes with code that blocks on something the scheduler does not know.

use crate::explore::Ch;
use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::pin,
    sync::{Arc, Condvar, Mutex},
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waits for its waker
    Asleep,
    /// waits for a lock
    Spins,
    /// does not come back to the scheduler (waits for something it does not control)
    Away,
    Done,
}

struct S {
    st: Vec<St>,
    woken: Vec<bool>,
    current: usize,
    ch: Ch,
    steps: usize,
    switches: usize,
    /// the schedule is over, the threads run freely to their ends
    over: Option<&'static str>,
    trace: Vec<(usize, &'static str)>,
    /// locks held, and the accesses since the first of them was taken
    held: Vec<usize>,
    section: Vec<Vec<usize>>,
    sections: Vec<Vec<usize>>,
    outside: Vec<usize>,
}

pub struct Sched {
    s: Mutex<S>,
    cv: Vec<Condvar>,
    keep: bool,
    os: bool,
    /// called when nobody can go on; false: nothing is left to happen
    idle: Mutex<Box<dyn FnMut() -> bool + Send>>,
    /// threads may switch at every operation, not only outside of critical sections
    all: bool,
}

pub fn os_threads() -> bool {
    std::env::var_os("CHMC_OS_THREADS").is_some()
}

const MAX_STEPS: usize = 20_000;

struct W(Arc<Sched>, usize);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.0.wake(self.1)
    }
}

impl Sched {
    /// `n` threads; thread `first` begins. The budget of `ch` bounds the preemptions.
    pub fn new(n: usize, ch: &Ch, all: bool, idle: Box<dyn FnMut() -> bool + Send>) -> Arc<Sched> {
        Arc::new(Sched {
            s: Mutex::new(S { st: vec![St::Ready; n], woken: vec![false; n], current: usize::MAX, ch: ch.clone(), steps: 0, switches: 0, over: None, trace: vec![], held: vec![0; n], section: vec![vec![]; n], sections: vec![], outside: vec![] }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            all,
            idle: Mutex::new(idle),
            os: os_threads(),
            keep: std::env::var("CHMC_VERBOSE").is_ok(),
        })
    }

    fn choose(s: &mut S, opts: &[usize], costs: bool) -> usize {
        let ch = s.ch.clone();
        let n = opts.len();
        // a replay which does not fit (a thread was away) ends the schedule instead
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if costs { ch.dev(n) } else { ch.choose(n) }));
        match r {
            Ok(i) => opts[i],
            Err(_) => {
                s.over = Some("diverged");
                opts[0]
            }
        }
    }

    /// Decides who goes on after `t` has come to a point.
    fn settle<'a>(&'a self, mut s: std::sync::MutexGuard<'a, S>, t: usize) -> std::sync::MutexGuard<'a, S> {
        while !self.next(&mut s, t) {
            drop(s);
            let more = (self.idle.lock().unwrap())();
            s = self.s.lock().unwrap();
            if !more {
                s.over.get_or_insert("stuck");
            }
        }
        s
    }

    /// False: nobody can go on.
    fn next(&self, s: &mut S, t: usize) -> bool {
        let others: Vec<usize> = (0..s.st.len()).filter(|&i| i != t && s.st[i] == St::Ready).collect();
        let me = t < s.st.len() && s.st[t] == St::Ready;
        let next = if me {
            let mut o = vec![t];
            o.extend(others);
            if o.len() == 1 {
                t
            } else {
                Self::choose(s, &o, true)
            }
        } else if !others.is_empty() {
            if others.len() == 1 {
                others[0]
            } else {
                Self::choose(s, &others, false)
            }
        } else if s.st.iter().all(|x| *x == St::Done) {
            s.over.get_or_insert("done");
            t
        } else if s.st.contains(&St::Away) {
            // it may come back
            usize::MAX
        } else if s.over.is_some() {
            t
        } else {
            return false;
        };
        if s.over.is_some() {
            for c in &self.cv {
                c.notify_all();
            }
            return true;
        }
        if next != t {
            s.switches += 1;
        }
        s.current = next;
        if next < self.cv.len() {
            self.cv[next].notify_all();
        }
        true
    }

    fn wait(&self, mut s: std::sync::MutexGuard<S>, t: usize) {
        if !self.os {
            let go = s.current == t || s.over.is_some();
            drop(s);
            if !go {
                coro::away();
            }
            return;
        }
        while s.current != t && s.over.is_none() {
            let (before, cur) = (s.steps, s.current);
            let (g, to) = self.cv[t].wait_timeout(s, Duration::from_secs(2)).unwrap();
            s = g;
            if to.timed_out() && s.steps == before && s.current == cur && cur != t && s.over.is_none() && s.st[t] == St::Ready {
                // the running thread is blocked by something else than the scheduler
                if cur < s.st.len() {
                    s.st[cur] = St::Away;
                }
                s.current = t;
            }
        }
        if s.st[t] == St::Away {
            s.st[t] = St::Ready;
        }
    }

    /// An operation on an object shared between the threads.
    ///
    /// Unless `all`, threads do not switch within critical sections. That loses nothing if what a critical section accesses is
    /// accessed in critical sections only, but for one access: what others do in the meantime can as well be done before or
    /// after the whole section. `sections_ok` tells whether that was so.
    pub fn op(&self, t: usize, what: &'static str, object: usize, blocked: bool) {
        {
            let mut s = self.s.lock().unwrap();
            match what {
                "Mutex::locked" => {
                    s.held[t] += 1;
                    return;
                }
                "Mutex::unlocked" => {
                    s.held[t] -= 1;
                    if s.held[t] == 0 {
                        let x = std::mem::take(&mut s.section[t]);
                        s.sections.push(x);
                    }
                    return;
                }
                _ => (),
            }
            if s.held[t] > 0 && !what.starts_with("Mutex") {
                s.section[t].push(object);
                if !self.all {
                    if self.keep {
                        s.trace.push((t, what));
                    }
                    return;
                }
            } else if !what.starts_with("Mutex") {
                s.outside.push(object);
                // the flag of a connection, which one thread at a time has
                if !self.all && what.starts_with("AtomicBool") {
                    return;
                }
            }
        }
        self.point(t, what, blocked)
    }

    pub fn sections_ok(&self) -> bool {
        let s = self.s.lock().unwrap();
        s.sections.iter().all(|x| x.iter().filter(|o| s.outside.contains(o)).count() <= 1)
    }

    pub fn point(&self, t: usize, what: &'static str, blocked: bool) {
        let mut s = self.s.lock().unwrap();
        if s.over.is_some() {
            if blocked {
                drop(s);
                if self.os {
                    std::thread::yield_now();
                } else if !std::thread::panicking() {
                    coro::away();
                }
            }
            return;
        }
        if std::thread::panicking() {
            return;
        }
        s.steps += 1;
        if self.keep {
            s.trace.push((t, what));
        }
        if s.steps > MAX_STEPS {
            s.over = Some("livelock");
            for c in &self.cv {
                c.notify_all();
            }
            return;
        }
        if s.st[t] == St::Away {
            s.st[t] = St::Ready;
            if s.current != usize::MAX {
                return self.wait(s, t);
            }
        }
        for i in 0..s.st.len() {
            if i != t && s.st[i] == St::Spins {
                s.st[i] = St::Ready;
            }
        }
        s.st[t] = if blocked { St::Spins } else { St::Ready };
        let s = self.settle(s, t);
        self.wait(s, t);
        if blocked {
            let mut s = self.s.lock().unwrap();
            if s.over.is_none() {
                s.st[t] = St::Ready;
            }
        }
    }

    fn wake(&self, t: usize) {
        let mut s = self.s.lock().unwrap();
        s.woken[t] = true;
        if s.st[t] == St::Asleep {
            s.st[t] = St::Ready;
        }
    }

    /// Sleeps until woken; false: the schedule is over.
    pub fn sleep(&self, t: usize) -> bool {
        let mut s = self.s.lock().unwrap();
        if s.over.is_some() {
            return false;
        }
        if s.woken[t] {
            s.woken[t] = false;
            return true;
        }
        for i in 0..s.st.len() {
            if i != t && s.st[i] == St::Spins {
                s.st[i] = St::Ready;
            }
        }
        s.st[t] = St::Asleep;
        let s = self.settle(s, t);
        self.wait(s, t);
        let mut s = self.s.lock().unwrap();
        s.woken[t] = false;
        s.over.is_none()
    }

    /// The future's result, or nothing when it has been polled `polls` times or the schedule is over.
    pub fn block_on<F: Future>(self: &Arc<Self>, t: usize, f: F, polls: usize) -> Option<F::Output> {
        let mut f = pin!(f);
        let w: Waker = Arc::new(W(self.clone(), t)).into();
        for i in 0..polls {
            match f.as_mut().poll(&mut Context::from_waker(&w)) {
                Poll::Ready(x) => return Some(x),
                Poll::Pending => {
                    if i + 1 < polls && !self.sleep(t) {
                        return None;
                    }
                }
            }
        }
        None
    }

    pub fn forget_idle(&self) {
        *self.idle.lock().unwrap() = Box::new(|| false);
    }

    fn finish(&self, t: usize) {
        let mut s = self.s.lock().unwrap();
        s.st[t] = St::Done;
        for i in 0..s.st.len() {
            if s.st[i] == St::Spins {
                s.st[i] = St::Ready;
            }
        }
        if s.over.is_none() {
            let _s = self.settle(s, t);
        }
    }
}

pub struct End {
    pub how: &'static str,
    pub steps: usize,
    pub switches: usize,
    /// panics, per thread
    pub panics: Vec<(usize, String)>,
}

/// Runs the threads to their ends.
pub fn run(sched: &Arc<Sched>, threads: Vec<Box<dyn FnOnce(usize) + Send + '_>>) -> End {
    let panics = Mutex::new(vec![]);
    let body = |t: usize, f: Box<dyn FnOnce(usize) + Send + '_>| {
        if let Err(m) = crate::explore::guard(|| f(t)) {
            panics.lock().unwrap().push((t, m));
            let mut s = sched.s.lock().unwrap();
            s.over.get_or_insert("panic");
            drop(s);
            for c in &sched.cv {
                c.notify_all();
            }
        }
        sched.finish(t);
    };
    // who begins
    let begin = || {
        let s = sched.s.lock().unwrap();
        let n = s.st.len();
        let _s = sched.settle(s, n);
    };
    let body = &body;
    if sched.os {
        std::thread::scope(|sc| {
            for (t, f) in threads.into_iter().enumerate() {
                let sched = sched.clone();
                sc.spawn(move || {
                    {
                        let s = sched.s.lock().unwrap();
                        sched.wait(s, t);
                    }
                    let s2 = sched.clone();
                    clickhouse_rs::verif::set_scheduler(Some(Arc::new(move |what, object, blocked| s2.op(t, what, object, blocked))));
                    body(t, f);
                    clickhouse_rs::verif::set_scheduler(None);
                });
            }
            begin();
        });
    } else {
        let s2 = sched.clone();
        clickhouse_rs::verif::set_scheduler(Some(Arc::new(move |what, object, blocked| {
            if let Some(t) = coro::current() {
                s2.op(t, what, object, blocked)
            }
        })));
        let n = threads.len();
        coro::start(threads.into_iter().enumerate().map(|(t, f)| Box::new(move || body(t, f)) as Box<dyn FnOnce() + '_>).collect());
        begin();
        loop {
            let (cur, over) = {
                let s = sched.s.lock().unwrap();
                (s.current, s.over.is_some())
            };
            if over || cur >= n {
                break;
            }
            coro::resume(cur);
        }
        // whatever is left runs to its end; what waits for a lock for ever is forgotten
        for _ in 0..1000 {
            if (0..n).all(coro::finished) {
                break;
            }
            for t in 0..n {
                if !coro::finished(t) {
                    coro::resume(t);
                }
            }
        }
        coro::end();
        clickhouse_rs::verif::set_scheduler(None);
    }
    let s = sched.s.lock().unwrap();
    if sched.keep {
        for (t, w) in &s.trace {
            eprintln!("  thread {t}: {w}");
        }
    }
    let panics = panics.lock().unwrap().clone();
    End { how: s.over.unwrap_or("done"), steps: s.steps, switches: s.switches, panics }
}

/// Coroutines of the current OS thread.
mod coro {
    use super::*;
    use libc::ucontext_t;

    const STACK: usize = 1 << 20;

    struct Co {
        ctx: Box<ucontext_t>,
        stack: *mut libc::c_void,
        f: Option<Box<dyn FnOnce()>>,
        done: bool,
    }

    thread_local! {
        static COS: RefCell<Vec<Co>> = const { RefCell::new(vec![]) };
        static MAIN: RefCell<Option<Box<ucontext_t>>> = const { RefCell::new(None) };
        static CURRENT: Cell<Option<usize>> = const { Cell::new(None) };
        static STACKS: RefCell<Vec<*mut libc::c_void>> = const { RefCell::new(vec![]) };
    }

    fn stack() -> *mut libc::c_void {
        if let Some(s) = STACKS.with(|s| s.borrow_mut().pop()) {
            return s;
        }
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            libc::mprotect(p, 4096, libc::PROT_NONE);
            p
        }
    }

    extern "C" fn enter() {
        let t = CURRENT.with(|c| c.get()).unwrap();
        let f = COS.with(|c| c.borrow_mut()[t].f.take()).unwrap();
        f();
        COS.with(|c| c.borrow_mut()[t].done = true);
        away();
        unreachable!();
    }

    /// The closures are run by `resume` calls before `end`, or forgotten.
    pub fn start(fs: Vec<Box<dyn FnOnce() + '_>>) {
        MAIN.with(|m| {
            m.borrow_mut().get_or_insert_with(|| Box::new(unsafe { std::mem::zeroed() }));
        });
        for f in fs {
            // the lifetime: see above
            let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
            let stack = stack();
            let mut ctx: Box<ucontext_t> = Box::new(unsafe { std::mem::zeroed() });
            unsafe {
                libc::getcontext(&mut *ctx);
                ctx.uc_stack.ss_sp = stack;
                ctx.uc_stack.ss_size = STACK;
                ctx.uc_link = std::ptr::null_mut();
                libc::makecontext(&mut *ctx, enter, 0);
            }
            COS.with(|c| c.borrow_mut().push(Co { ctx, stack, f: Some(f), done: false }));
        }
    }

    pub fn current() -> Option<usize> {
        CURRENT.with(|c| c.get())
    }

    pub fn finished(t: usize) -> bool {
        COS.with(|c| c.borrow()[t].done)
    }

    fn main_ctx() -> *mut ucontext_t {
        MAIN.with(|m| &mut **m.borrow_mut().as_mut().unwrap() as *mut _)
    }

    fn ctx(t: usize) -> *mut ucontext_t {
        COS.with(|c| &mut *c.borrow_mut()[t].ctx as *mut _)
    }

    pub fn resume(t: usize) {
        if finished(t) {
            return;
        }
        CURRENT.with(|c| c.set(Some(t)));
        unsafe { libc::swapcontext(main_ctx(), ctx(t)) };
        CURRENT.with(|c| c.set(None));
    }

    /// Back to `resume`.
    pub fn away() {
        let t = current().unwrap();
        unsafe { libc::swapcontext(ctx(t), main_ctx()) };
    }

    pub fn end() {
        COS.with(|c| {
            for co in c.borrow_mut().drain(..) {
                if let Some(f) = co.f {
                    std::mem::forget(f);
                }
                STACKS.with(|s| s.borrow_mut().push(co.stack));
            }
        });
    }
}
