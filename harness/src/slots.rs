//! What every worker is running, kept where a supervising process can read it: a crash of the code under test (a fault, an
//! abort, memory running out, a loop that never ends) is then reported with the execution that caused it.

use std::{
    fs::File,
    os::fd::AsRawFd,
    sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::*},
    time::{Duration, Instant},
};

const SLOTS: usize = 64;
const WORDS: usize = 8192;
const NAME: usize = 256; // words for the name of the scenario
const SIZE: usize = (NAME + SLOTS * WORDS) * 4;
const IDLE: u32 = u32::MAX;

static BASE: AtomicPtr<AtomicU32> = AtomicPtr::new(std::ptr::null_mut());
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

fn word(i: usize) -> Option<&'static AtomicU32> {
    let p = BASE.load(Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p.add(i) })
    }
}
fn now() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Maps the file; the supervised process also watches for executions that never end.
pub fn open(path: &str, watch: bool) {
    let Ok(f) = File::options().read(true).write(true).create(true).truncate(false).open(path) else { return };
    if f.set_len(SIZE as u64).is_err() {
        return;
    }
    let p = unsafe { libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p == libc::MAP_FAILED {
        return;
    }
    BASE.store(p as *mut AtomicU32, Relaxed);
    if watch {
        for s in 0..SLOTS {
            word(NAME + s * WORDS).unwrap().store(IDLE, Relaxed);
        }
        let limit: u64 = std::env::var("CHMC_HANG_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(200_000);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in 0..SLOTS {
                let t = STARTED[s].load(Relaxed);
                if t != 0 && now() > t + limit {
                    word(NAME + s * WORDS + 1).unwrap().store(1, SeqCst);
                    eprintln!("an execution does not end");
                    unsafe { libc::_exit(77) };
                }
            }
        });
    }
}
pub fn limit_memory(gb: u64) {
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

pub fn scenario(name: &str) {
    if word(0).is_none() {
        return;
    }
    let b = name.as_bytes();
    word(0).unwrap().store(b.len().min(NAME - 1) as u32, Relaxed);
    for (i, x) in b.iter().take(NAME - 1).enumerate() {
        word(1 + i).unwrap().store(*x as u32, Relaxed);
    }
}
pub fn begin(slot: usize) {
    if let Some(w) = word(NAME + slot * WORDS) {
        word(NAME + slot * WORDS + 1).unwrap().store(0, Relaxed);
        w.store(0, Release);
        STARTED[slot].store(now(), Relaxed);
    }
}
pub struct End(pub usize);
impl Drop for End {
    fn drop(&mut self) {
        STARTED[self.0].store(0, Relaxed);
        if let Some(w) = word(NAME + self.0 * WORDS) {
            w.store(IDLE, Release);
        }
    }
}
pub fn push(slot: usize, i: usize, x: u32) {
    if i + 2 >= WORDS {
        return;
    }
    if let Some(w) = word(NAME + slot * WORDS) {
        word(NAME + slot * WORDS + 2 + i).unwrap().store(x, Relaxed);
        w.store(i as u32 + 1, Release);
    }
}
/// The scenario, and the executions under way: choices, and whether it was found not to end.
pub fn read() -> (String, Vec<(Vec<u32>, bool)>) {
    let Some(n) = word(0) else { return (String::new(), vec![]) };
    let n = n.load(Relaxed) as usize;
    let name = (0..n.min(NAME - 1)).map(|i| word(1 + i).unwrap().load(Relaxed) as u8).collect::<Vec<_>>();
    let mut v = vec![];
    for s in 0..SLOTS {
        let b = NAME + s * WORDS;
        let k = word(b).unwrap().load(Acquire);
        if k != IDLE {
            v.push(((0..k as usize).map(|i| word(b + 2 + i).unwrap().load(Relaxed)).collect(), word(b + 1).unwrap().load(Relaxed) == 1));
        }
    }
    (String::from_utf8_lossy(&name).into_owned(), v)
}
