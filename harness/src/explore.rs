//! Exhaustive exploration of a program with a choice oracle.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};

#[derive(Default)]
struct ChInner {
    slot: Option<usize>,
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    budget: u32,
    notes: Vec<String>,
}

/// Choice oracle of one execution.
#[derive(Clone)]
pub struct Ch(Arc<Mutex<ChInner>>);

impl Ch {
    pub fn new(prefix: Vec<u32>) -> Ch {
        Ch(Arc::new(Mutex::new(ChInner { prefix, ..Default::default() })))
    }
    /// A number below `n`; the explorer runs the program for every one.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "choice among nothing");
        if n == 1 {
            return 0;
        }
        let mut c = self.0.lock().unwrap();
        let i = c.trace.len();
        let x = c.prefix.get(i).copied().unwrap_or(0);
        assert!((x as usize) < n, "replay diverged: choice {i} is {x} of {n}");
        c.trace.push((x, n as u32));
        if let Some(s) = c.slot {
            crate::slots::push(s, i, x);
        }
        x as usize
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, X>(&self, xs: &'a [X]) -> &'a X {
        &xs[self.choose(xs.len())]
    }
    /// Sets the number of deviations from the default still allowed.
    pub fn set_budget(&self, b: u32) {
        self.0.lock().unwrap().budget = b;
    }
    /// A choice in which everything but 0 uses up one deviation.
    pub fn dev(&self, n: usize) -> usize {
        if self.0.lock().unwrap().budget == 0 {
            return 0;
        }
        let x = self.choose(n);
        if x != 0 {
            self.0.lock().unwrap().budget -= 1;
        }
        x
    }
    pub fn budget(&self) -> u32 {
        self.0.lock().unwrap().budget
    }
    pub fn spend(&self) {
        self.0.lock().unwrap().budget -= 1;
    }
    pub fn note(&self, s: impl Into<String>) {
        let mut c = self.0.lock().unwrap();
        if c.notes.len() < 400 {
            c.notes.push(s.into());
        }
    }
    pub fn notes(&self) -> Vec<String> {
        self.0.lock().unwrap().notes.clone()
    }
    pub fn steps(&self) -> usize {
        self.0.lock().unwrap().trace.len()
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the input or history that fails.
    pub key: String,
    pub msg: String,
}
pub fn fail<X>(key: impl Into<String>, msg: impl Into<String>) -> Result<X, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

/// Observation of an execution: a digest of what was observed, and whether it exercised anything.
#[derive(Clone, Debug)]
pub struct Obs {
    pub digest: u64,
    pub checks: u64,
}
pub fn obs<X: std::hash::Hash + ?Sized>(x: &X) -> Result<Obs, Fail> {
    obs_n(x, 1)
}
pub fn obs_n<X: std::hash::Hash + ?Sized>(x: &X, checks: u64) -> Result<Obs, Fail> {
    Ok(Obs { digest: digest(x), checks })
}
pub fn digest<X: std::hash::Hash + ?Sized>(x: &X) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{msg} at {loc}"));
            }
        });
        if std::env::var("CHMC_VERBOSE").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}
/// Runs `f`; a panic becomes `Err(message at place)`.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    let _ = LAST_PANIC.try_with(|p| p.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub key: String,
    pub msg: String,
    pub choices: Vec<u32>,
    pub notes: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub choice_points: u64,
    pub checks: u64,
    pub distinct: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub wall: f64,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub known: Vec<(String, String)>, // key, text
    pub stats: Vec<(String, Stats)>,
    pub violations: Vec<Violation>,
    pub known_hits: BTreeMap<String, (u64, Violation)>,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
}

struct Shared {
    stack: Vec<Vec<u32>>,
    active: usize,
    stop: bool,
    stats: Stats,
    digests: HashSet<u64>,
    violations: Vec<Violation>,
    known_hits: BTreeMap<String, (u64, Violation)>,
}

fn run_one(f: &(dyn Fn(&Ch) -> Result<Obs, Fail> + Sync), prefix: Vec<u32>, slot: usize) -> (Ch, Result<Obs, Fail>) {
    let ch = Ch::new(prefix);
    ch.0.lock().unwrap().slot = Some(slot);
    crate::slots::begin(slot);
    let _end = crate::slots::End(slot);
    let c2 = ch.clone();
    let r = match guard(move || f(&c2)) {
        Ok(r) => r,
        Err(p) => fail(format!("panic: {p}"), format!("panic: {p}")),
    };
    (ch, r)
}

fn trace_of(ch: &Ch) -> Vec<(u32, u32)> {
    match ch.0.lock() {
        Ok(c) => c.trace.clone(),
        Err(p) => p.into_inner().trace.clone(),
    }
}

impl Ctx {
    pub fn pick<X>(&self, quick: X, thorough: X) -> X {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Runs `f` on every sequence of choices.
    pub fn explore(&mut self, scenario: &str, f: impl Fn(&Ch) -> Result<Obs, Fail> + Sync) {
        if let Some(o) = &self.only {
            if !scenario.contains(o.as_str()) {
                return;
            }
        }
        if let Some((s, choices)) = &self.replay {
            if s == scenario {
                let (ch, r) = run_one(&f, choices.clone(), 0);
                println!("scenario {scenario}");
                for n in ch.notes() {
                    println!("  {n}");
                }
                match r {
                    Ok(_) => println!("replay: property held"),
                    Err(e) => {
                        println!("replay: {}", e.msg);
                        self.violations.push(Violation {
                            scenario: scenario.into(),
                            key: e.key,
                            msg: e.msg,
                            choices: choices.clone(),
                            notes: vec![],
                        });
                    }
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        crate::slots::scenario(scenario);
        let t0 = Instant::now();
        let shared = Mutex::new(Shared {
            stack: vec![vec![]],
            active: 0,
            stop: false,
            stats: Stats::default(),
            digests: HashSet::new(),
            violations: vec![],
            known_hits: BTreeMap::new(),
        });
        let cv = Condvar::new();
        let known = &self.known;
        let deadline = self.deadline;
        let f: &(dyn Fn(&Ch) -> Result<Obs, Fail> + Sync) = &f;
        std::thread::scope(|s| {
            let shared = &shared;
            let cv = &cv;
            for slot in 0..self.threads {
                s.spawn(move || {
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut st = Stats::default();
                    let mut digs: HashSet<u64> = HashSet::new();
                    let mut n_since = 0u32;
                    loop {
                        if local.is_empty() {
                            let mut g = shared.lock().unwrap();
                            loop {
                                if g.stop {
                                    g.stack.clear();
                                }
                                if let Some(p) = g.stack.pop() {
                                    g.active += 1;
                                    local.push(p);
                                    break;
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    merge(&mut g, st, digs);
                                    return;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                        }
                        let prefix = local.pop().unwrap();
                        let plen = prefix.len();
                        let (ch, r) = run_one(f, prefix, slot);
                        let trace = trace_of(&ch);
                        st.executions += 1;
                        st.choice_points += trace.len() as u64;
                        st.max_depth = st.max_depth.max(trace.len());
                        for i in (plen..trace.len()).rev() {
                            let (x, n) = trace[i];
                            debug_assert_eq!(x, 0);
                            for alt in (x + 1..n).rev() {
                                let mut p: Vec<u32> = trace[..i].iter().map(|t| t.0).collect();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        let mut stop = false;
                        match r {
                            Ok(o) => {
                                st.checks += o.checks;
                                digs.insert(o.digest);
                                if st.samples.len() < 2 && st.executions % 97 == 3 {
                                    st.samples.push(ch.notes().join("; "));
                                }
                            }
                            Err(e) => {
                                let v = Violation {
                                    scenario: scenario.into(),
                                    key: e.key.clone(),
                                    msg: e.msg,
                                    choices: trace.iter().map(|t| t.0).collect(),
                                    notes: ch.notes(),
                                };
                                let mut g = shared.lock().unwrap();
                                if known.iter().any(|(k, _)| *k == e.key) {
                                    g.known_hits.entry(e.key).or_insert((0, v)).0 += 1;
                                } else if g.violations.len() < 20 && !g.violations.iter().any(|x| x.key == v.key) {
                                    g.violations.push(v);
                                    if std::env::var("CHMC_ALL").is_err() {
                                        g.stop = true;
                                        stop = true;
                                    }
                                }
                            }
                        }
                        n_since += 1;
                        if n_since >= 16 || local.is_empty() || stop {
                            n_since = 0;
                            let mut g = shared.lock().unwrap();
                            if Instant::now() > deadline {
                                g.stop = true;
                                g.stats.complete = false;
                                g.stats.max_depth = usize::MAX; // marker: incomplete
                            }
                            if g.stop {
                                local.clear();
                            }
                            // share work
                            if g.stack.len() < 16 && local.len() > 1 {
                                let k = local.len() / 2;
                                for p in local.drain(..k) {
                                    g.stack.push(p);
                                }
                                cv.notify_all();
                            }
                            if local.is_empty() {
                                g.active -= 1;
                                if g.active == 0 {
                                    cv.notify_all();
                                }
                            }
                        }
                    }
                });
            }
        });
        let mut g = shared.into_inner().unwrap();
        let incomplete = g.stats.max_depth == usize::MAX;
        if incomplete {
            g.stats.max_depth = 0;
        }
        g.stats.complete = !incomplete && !g.stop;
        g.stats.distinct = g.digests.len() as u64;
        g.stats.wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "[{}] {}: {} executions, {} choice points, {} distinct observations, {:.1}s{}",
            self.property,
            scenario,
            g.stats.executions,
            g.stats.choice_points,
            g.stats.distinct,
            g.stats.wall,
            if g.stats.complete { "" } else { " (not complete)" }
        );
        self.stats.push((scenario.to_string(), g.stats));
        self.violations.append(&mut g.violations);
        for (k, (n, v)) in g.known_hits {
            self.known_hits.entry(k).or_insert((0, v)).0 += n;
        }
    }
}

fn merge(g: &mut Shared, st: Stats, digs: HashSet<u64>) {
    g.stats.executions += st.executions;
    g.stats.choice_points += st.choice_points;
    g.stats.checks += st.checks;
    if g.stats.max_depth != usize::MAX {
        g.stats.max_depth = g.stats.max_depth.max(st.max_depth);
    }
    g.digests.extend(digs);
    for s in st.samples {
        if g.stats.samples.len() < 3 {
            g.stats.samples.push(s);
        }
    }
}

/// Runs a future on a fresh runtime with virtual time. `None`: it hung (virtual horizon reached).
pub fn block_on<F: std::future::Future>(f: F) -> Option<F::Output> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(1_000_000), f).await.ok() })
}
