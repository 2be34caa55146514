//! A small property-based testing engine.
//!
//! Every random decision of a case is a bounded integer drawn from a *choice
//! tape*. A fresh case draws from a PRNG seeded by (VERIF_SEED, check, case
//! number) and records the tape; replaying a tape reproduces the case;
//! shrinking edits the tape (delete, zero, lower) and keeps an edit if the case
//! still fails. A case past the end of its tape draws zeros, and generators are
//! written so that zero is the simplest choice.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// Source of choices for one case.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// Human-readable rendering of the generated case.
    pub desc: String,
    labels: Vec<&'static str>,
    nontrivial: bool,
    pub thorough: bool,
    index: u64,
}

impl Src {
    fn fresh(seed: u64, thorough: bool) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), desc: String::new(), labels: vec![], nontrivial: false, thorough, index: 0 }
    }
    /// A source for a part of a case that is decided by one seed.
    pub fn seeded(seed: u64, thorough: bool) -> Src {
        Src::fresh(seed, thorough)
    }
    pub fn tape(&self) -> &[u64] {
        &self.tape
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Like `pick`, but consecutive cases take the elements in turn.
    pub fn cycle<T: Clone>(&mut self, xs: &[T]) -> T {
        if self.rng.is_some() {
            let v = self.index % xs.len() as u64;
            self.tape.push(v);
            self.pos += 1;
            return xs[v as usize].clone();
        }
        self.pick(xs)
    }
    pub fn replay(tape: Vec<u64>, thorough: bool) -> Src {
        Src { tape, pos: 0, rng: None, desc: String::new(), labels: vec![], nontrivial: false, thorough, index: 0 }
    }
    /// A choice in `0..n` (n >= 1); zero is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            }
        };
        self.pos += 1;
        v
    }
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
    /// Index chosen with the given weights; the first is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// A list of `min..=max` elements, `avg` on average; elements can be deleted by shrinking.
    pub fn list<T>(&mut self, min: usize, avg: usize, max: usize, mut f: impl FnMut(&mut Src, usize) -> T) -> Vec<T> {
        let mut v = Vec::new();
        let more = avg.saturating_sub(min).max(1) as u64;
        while v.len() < max {
            if v.len() >= min && !self.chance(more, more + 1) {
                break;
            }
            let i = v.len();
            v.push(f(self, i));
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        match self.weighted(&[3, 2, 2, 3]) {
            0 => self.below(16),
            1 => self.below(1 << 16),
            2 => u64::MAX - self.below(16),
            _ => self.below(u64::MAX),
        }
    }
    /// Deterministic filler bytes costing one choice.
    pub fn filler(&mut self, n: usize) -> Vec<u8> {
        let k = self.below(1 << 32);
        fill(k, n)
    }
    /// Bytes that shrink individually.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// Mark the case non-trivial by the check's stated rule.
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 20_000 {
            self.desc.push_str(s.as_ref());
            self.desc.push('\n');
        }
    }
}

pub fn fill(k: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(k);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

pub type Case = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub run: fn(&mut Src) -> Case,
    pub quick: u64,
    pub thorough: u64,
    /// What makes a case of this generator non-trivial.
    pub rule: &'static str,
}

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    pub subs: &'static [Sub],
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static HARNESS_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("{loc}: {msg}");
        if std::env::var_os("RK_BT").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let harness = loc.starts_with("src/");
        if harness {
            let _ = HARNESS_PANIC.try_with(|p| *p.borrow_mut() = Some(text.clone()));
            eprintln!("harness panic: {text}");
        } else {
            let _ = PANICS.try_with(|p| p.borrow_mut().push(text.clone()));
            ANY_PANICS.lock().unwrap().push(text);
        }
    }));
}

/// Panics of library code on this thread since the last call.
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
/// Panics of library code on any thread since the last call.
pub fn take_any_panics() -> Vec<String> {
    std::mem::take(&mut *ANY_PANICS.lock().unwrap())
}
pub fn no_panics() -> Case {
    let p = PANICS.with(|p| p.borrow().clone());
    if p.is_empty() {
        Ok(())
    } else {
        Err(format!("library panicked: {}", p.join(" | ")))
    }
}

pub fn thread_cpu() -> Duration {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    }
}

// ---------------------------------------------------------------- running

enum Outcome {
    Pass,
    Fail(String),
    #[allow(dead_code)]
    HarnessError(String),
}

fn exec(run: fn(&mut Src) -> Case, s: &mut Src) -> Outcome {
    take_panics();
    HARNESS_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| run(s)));
    if let Some(h) = HARNESS_PANIC.with(|p| p.borrow_mut().take()) {
        // on a correct library no oracle ever panics
        return Outcome::Fail(format!("the oracle could not digest what the library did: {h}"));
    }
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => {
            let p = take_panics();
            if p.is_empty() {
                Outcome::Fail(m)
            } else {
                Outcome::Fail(format!("{m} [library panics during the case: {}]", p.join(" | ")))
            }
        }
        Err(_) => Outcome::Fail(format!("a library call panicked: {}", take_panics().join(" | "))),
    }
}

pub struct Failure {
    pub sub: &'static str,
    pub tape: Vec<u64>,
    pub msg: String,
    pub desc: String,
    pub logged: bool,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub per_sub: Vec<(String, u64, u64)>,
}

/// Per worker thread: case number + 1 and sub-check index + 1 of the running case, 0 when idle.
/// Backed by the file RK_STATE, so that the driver can tell which case killed the process.
static STATE: std::sync::OnceLock<&'static [AtomicU64]> = std::sync::OnceLock::new();
fn state() -> &'static [AtomicU64] {
    STATE.get_or_init(|| {
        const N: usize = 128;
        unsafe {
            let mut p = libc::MAP_FAILED;
            if let Ok(f) = std::env::var("RK_STATE") {
                if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f) {
                    if f.set_len((N * 8) as u64).is_ok() {
                        use std::os::fd::AsRawFd;
                        p = libc::mmap(std::ptr::null_mut(), N * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
                    }
                }
            }
            if p == libc::MAP_FAILED {
                p = Vec::leak((0..N).map(|_| 0u64).collect()).as_mut_ptr() as *mut libc::c_void;
            }
            std::slice::from_raw_parts(p as *const AtomicU64, N)
        }
    })
}
const CPU_LIMIT: Duration = Duration::from_secs(60);

static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local!(static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// Tells the watchdog that a long case is getting on.
pub fn progress() {
    BEATS[WORKER.with(|w| w.get())].fetch_add(1, Ordering::Relaxed);
}

static BEGAN: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// Whether a quick check has used the time it may take (a very slow machine); long cases then end early.
pub fn out_of_time(thorough: bool) -> bool {
    !thorough && BEGAN.get_or_init(Instant::now).elapsed() > Duration::from_secs(std::env::var("RK_TIME").ok().and_then(|v| v.parse().ok()).unwrap_or(600))
}
/// CPU time of a worker thread.
fn cpu_of(clock: libc::clockid_t) -> Duration {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return Duration::ZERO;
        }
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    }
}

fn case_seed(check: &str, sub: &Sub, seed: u64, i: u64) -> u64 {
    let base = mix(seed ^ hash_str(check) ^ hash_str(sub.name).rotate_left(17));
    mix(base.wrapping_add(i))
}

/// The last eighth of the cases of a generator runs with every log of the library switched on.
fn logged_from(check: &str, n: u64) -> u64 {
    if check == "C20" { n } else { n - n / 8 }
}
fn case_count(sub: &Sub, thorough: bool) -> u64 {
    let n = std::env::var("RK_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { sub.thorough } else { sub.quick });
    n.min(std::env::var("RK_MAX").ok().and_then(|v| v.parse().ok()).unwrap_or(n))
}

/// The library's logs are on, and go nowhere, while this lives.
struct Logging(i32);
impl Logging {
    fn on() -> Logging {
        let _ = std::io::Write::flush(&mut std::io::stdout());
        rust_raknet::enable_raknet_log(7);
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::close(null);
            Logging(saved)
        }
    }
}
impl Drop for Logging {
    fn drop(&mut self) {
        let _ = std::io::Write::flush(&mut std::io::stdout());
        rust_raknet::enable_raknet_log(0);
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}

pub fn run_sub(check: &str, index: usize, sub: &Sub, seed: u64, thorough: bool, stats: &mut Stats, threads: usize) -> Result<Option<Failure>, String> {
    let n = case_count(sub, thorough);
    let cut = logged_from(check, n);
    if let Some(f) = run_part(check, index, sub, seed, thorough, stats, threads, 0, cut)? {
        return Ok(Some(f));
    }
    if cut == n {
        return Ok(None);
    }
    let _on = Logging::on();
    Ok(run_part(check, index, sub, seed, thorough, stats, threads, cut, n)?.map(|f| Failure { logged: true, ..f }))
}

#[allow(clippy::too_many_arguments)]
fn run_part(check: &str, index: usize, sub: &Sub, seed: u64, thorough: bool, stats: &mut Stats, threads: usize, from: u64, n: u64) -> Result<Option<Failure>, String> {
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, Vec<u64>, String, String)>> = Mutex::new(None);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let agg: Mutex<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<String>)> = Mutex::new(Default::default());
    let start = Instant::now();
    let done_threads = AtomicUsize::new(0);
    let clocks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let clock = &clocks[t];
            let (next, stop, fail, herr, agg, done) = (&next, &stop, &fail, &herr, &agg, &done_threads);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    unsafe {
                        let mut c: libc::clockid_t = 0;
                        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                            clock.store(c as u32 as u64, Ordering::Relaxed);
                        }
                    }
                    WORKER.with(|w| w.set(t));
                    out_of_time(false);
                    let mut local: (u64, HashSet<u64>, BTreeMap<String, u64>, Vec<String>) = Default::default();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let st = state();
                        st[2 * t + 1].store(index as u64 + 1, Ordering::Relaxed);
                        st[2 * t].store(i + 1, Ordering::Relaxed);
                        let mut s = Src::fresh(case_seed(check, sub, seed, i), thorough);
                        s.index = i;
                        let mut out = exec(sub.run, &mut s);
                        if matches!(&out, Outcome::Fail(m) if m.contains("of CPU time")) {
                            // the machine may have stalled
                            for _ in 0..2 {
                                if try_tape(sub.run, &s.tape, thorough).is_none() {
                                    out = Outcome::Pass;
                                    break;
                                }
                            }
                        }
                        st[2 * t].store(0, Ordering::Relaxed);
                        local.0 += 1;
                        if s.nontrivial {
                            let h = s.tape.iter().fold(hash_str(sub.name), |h, v| mix(h ^ *v));
                            if local.1.insert(h) && (i < 3) {
                                local.3.push(format!("[{} #{}] {}", sub.name, i, clip(&s.desc, 700)));
                            }
                        }
                        for l in &s.labels {
                            *local.2.entry(format!("{}:{}", sub.name, l)).or_default() += 1;
                        }
                        match out {
                            Outcome::Pass => {}
                            Outcome::Fail(m) => {
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                    *f = Some((i, s.tape, m, s.desc));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                            Outcome::HarnessError(m) => {
                                *herr.lock().unwrap() = Some(format!("case {i}: {m}"));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.0 += local.0;
                    a.1.extend(local.1);
                    for (k, v) in local.2 {
                        *a.2.entry(k).or_default() += v;
                    }
                    a.3.extend(local.3);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // Watchdog: a case that burns CPU without end is handed to the driver, which replays it alone.
        let done_threads = &done_threads;
        let clocks = &clocks;
        sc.spawn(move || {
            let mut seen = [((0u64, 0u64), Duration::ZERO, Instant::now()); 64];
            while done_threads.load(Ordering::Relaxed) < threads {
                std::thread::sleep(Duration::from_millis(50));
                for t in 0..threads {
                    let v = state()[2 * t].load(Ordering::Relaxed);
                    let c = clocks[t].load(Ordering::Relaxed);
                    if v == 0 || c == 0 {
                        seen[t].0 .0 = 0;
                        continue;
                    }
                    let cpu = cpu_of(c as u32 as libc::clockid_t);
                    let v2 = (v, BEATS[t].load(Ordering::Relaxed));
                    if seen[t].0 != v2 {
                        seen[t] = (v2, cpu, Instant::now());
                    } else if cpu.saturating_sub(seen[t].1) > CPU_LIMIT * if check == "C20" { 2 } else { 1 } || seen[t].2.elapsed() > Duration::from_secs(if check == "C20" { 3000 } else { 600 }) {
                        eprintln!("WATCHDOG: case {} of {}/{} does not end", v - 1, check, sub.name);
                        std::process::exit(3);
                    }
                }
            }
        });
    });
    let a = agg.into_inner().unwrap();
    let before = stats.nontrivial.len() as u64;
    stats.evaluations += a.0;
    stats.nontrivial.extend(a.1);
    for (k, v) in a.2 {
        *stats.labels.entry(k).or_default() += v;
    }
    let mut sm = a.3;
    sm.sort();
    stats.samples.extend(sm.into_iter().take(2));
    if from == 0 {
        stats.rules.push(format!("{}: {}", sub.name, sub.rule));
    }
    stats.per_sub.push((format!("{}{}", sub.name, if from > 0 { " with logging" } else { "" }), a.0, stats.nontrivial.len() as u64 - before));
    eprintln!(
        "  {}/{}{}: {} cases, {} non-trivial, {:.1}s",
        check, sub.name, if from > 0 { " with logging" } else { "" }, a.0, stats.nontrivial.len() as u64 - before, start.elapsed().as_secs_f64()
    );
    if let Some(m) = herr.into_inner().unwrap() {
        return Err(m);
    }
    match fail.into_inner().unwrap() {
        None => Ok(None),
        Some((i, tape, msg, desc)) => {
            eprintln!("  {}/{}: case {} fails: {}; shrinking", check, sub.name, i, clip(&msg, 300));
            let (tape, msg, desc) = shrink(&|t| try_tape(sub.run, t, thorough), Duration::from_secs(40), tape, msg, desc);
            Ok(Some(Failure { sub: sub.name, tape, msg, desc, logged: false }))
        }
    }
}

fn try_tape(run: fn(&mut Src) -> Case, tape: &[u64], thorough: bool) -> Option<(String, String, usize)> {
    let mut s = Src::replay(tape.to_vec(), thorough);
    match exec(run, &mut s) {
        Outcome::Fail(m) => Some((m, s.desc, s.pos)),
        _ => None,
    }
}

/// `run` tells how a tape fails: message, description and number of choices used.
pub fn shrink(run: &dyn Fn(&[u64]) -> Option<(String, String, usize)>, budget: Duration, tape: Vec<u64>, msg: String, desc: String) -> (Vec<u64>, String, String) {
    let start = Instant::now();
    let mut best = (tape, msg, desc);
    let mut tries = 0;
    let mut improved = true;
    if let Some((m, d, used)) = run(&best.0) {
        best.0.truncate(used);
        best.1 = m;
        best.2 = d;
    } else {
        best.1.push_str(" [did not fail again on immediate replay]");
        return best;
    }
    // cases that take long are reported as they are
    while improved && start.elapsed() < budget && tries < 4000 && (tries > 0 || start.elapsed() < budget / 4) {
        improved = false;
        // delete blocks
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.0.len() {
                if start.elapsed() > budget {
                    break;
                }
                let mut t = best.0.clone();
                t.drain(i..i + size);
                tries += 1;
                if let Some((m, d, used)) = run(&t) {
                    t.truncate(used);
                    best = (t, m, d);
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then lower single values
        for size in [8usize, 1] {
            let mut i = 0;
            while i < best.0.len() {
                if start.elapsed() > budget {
                    break;
                }
                let e = (i + size).min(best.0.len());
                if best.0[i..e].iter().any(|v| *v != 0) {
                    let mut t = best.0.clone();
                    t[i..e].iter_mut().for_each(|v| *v = 0);
                    tries += 1;
                    if let Some((m, d, used)) = run(&t) {
                        t.truncate(used);
                        best = (t, m, d);
                        improved = true;
                    } else if size == 1 {
                        let (mut lo, mut hi) = (0u64, best.0[i]);
                        let mut n = 0;
                        while lo + 1 < hi && n < 12 && start.elapsed() < budget {
                            n += 1;
                            let mid = lo + (hi - lo) / 2;
                            let mut t = best.0.clone();
                            if i >= t.len() {
                                break;
                            }
                            t[i] = mid;
                            tries += 1;
                            if let Some((m, d, used)) = run(&t) {
                                t.truncate(used);
                                best = (t, m, d);
                                hi = mid;
                                improved = true;
                            } else {
                                lo = mid;
                            }
                        }
                    }
                }
                i = e.max(i + 1);
            }
        }
    }
    eprintln!("  shrunk to {} choices in {} tries, {:.1}s", best.0.len(), tries, start.elapsed().as_secs_f64());
    best
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- command line

/// `<bin> check <id>`: run the check; prints one JSON line for the driver. Exit 0 held, 1 violated, 2 error.
/// `<bin> replay <file>`: re-run a saved tape.
pub fn main(bin: &str, checks: &[Check]) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks {
                println!("{} {}", c.id, c.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        Some("check") => {
            let id = args[2].as_str();
            let only = args.get(3).cloned();
            let out = std::env::var("RK_OUT").ok();
            let Some(c) = checks.iter().find(|c| c.id == id) else {
                eprintln!("no check {id} in {bin}");
                return 2;
            };
            let start = Instant::now();
            let mut stats = Stats::default();
            let mut failure = None;
            for (index, sub) in c.subs.iter().enumerate() {
                if only.as_ref().map(|o| o != sub.name).unwrap_or(false) {
                    continue;
                }
                match run_sub(c.id, index, sub, seed, thorough, &mut stats, threads) {
                    Err(e) => {
                        eprintln!("HARNESS-ERROR {}/{}: {}", c.id, sub.name, e);
                        return 2;
                    }
                    Ok(Some(f)) => {
                        failure = Some(f);
                        break;
                    }
                    Ok(None) => {}
                }
            }
            let mut replay = String::new();
            if let Some(f) = &failure {
                let dir = std::env::var("RK_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
                let _ = std::fs::create_dir_all(&dir);
                let h = f.tape.iter().fold(hash_str(f.sub), |h, v| mix(h ^ *v));
                replay = format!("{}/{}-{}-{:08x}.replay", dir, c.id, f.sub, h as u32);
                let tape = f.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
                let body = format!(
                    "bin {}\ncheck {}\nsub {}\ntier {}\nlogged {}\ntape {}\n# run: {} replay <this file>\n# failure: {}\n# case:\n{}\n",
                    bin, c.id, f.sub, if thorough { "thorough" } else { "quick" }, f.logged, tape, bin,
                    f.msg.replace('\n', " "),
                    f.desc.lines().map(|l| format!("#   {l}")).collect::<Vec<_>>().join("\n")
                );
                let _ = std::fs::write(&replay, body);
                println!("failure in {}/{}: {}", c.id, f.sub, clip(&f.msg, 2000));
                println!("{}", clip(&f.desc, 3000));
            }
            let j = format!(
                "{{\"id\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"labels\":{{{}}},\"per_generator\":[{}],\"wall_s\":{:.2},\"violation\":{},\"replay\":{}}}",
                json_str(c.id),
                stats.evaluations,
                stats.nontrivial.len(),
                json_str(&stats.rules.join("; ")),
                stats.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
                stats.labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
                stats.per_sub.iter().map(|(n, e, d)| format!("{{\"generator\":{},\"cases\":{},\"nontrivial\":{}}}", json_str(n), e, d)).collect::<Vec<_>>().join(","),
                start.elapsed().as_secs_f64(),
                failure.as_ref().map(|f| json_str(&f.msg)).unwrap_or("null".into()),
                json_str(&replay),
            );
            if let Some(o) = out {
                std::fs::write(o, &j).unwrap();
            }
            if failure.is_some() { 1 } else { 0 }
        }
        // `<bin> fresh <id> <sub index> <case>`: run one generated case alone.
        Some("fresh") => {
            let c = checks.iter().find(|c| c.id == args[2]).expect("check");
            let sub = &c.subs[args[3].parse::<usize>().unwrap()];
            let i = args[4].parse().unwrap();
            let mut src = Src::fresh(case_seed(c.id, sub, seed, i), thorough);
            src.index = i;
            let on = (i >= logged_from(c.id, case_count(sub, thorough))).then(Logging::on);
            let out = exec(sub.run, &mut src);
            drop(on);
            match out {
                Outcome::Pass => 0,
                Outcome::Fail(m) => {
                    println!("{}\nfails: {m}", src.desc);
                    1
                }
                Outcome::HarnessError(m) => {
                    println!("harness error: {m}");
                    2
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let (id, sub, thorough) = (get("check "), get("sub "), get("tier ") == "thorough");
            let tape: Vec<u64> = get("tape ").split_whitespace().map(|v| v.parse().unwrap()).collect();
            let s = checks.iter().find(|c| c.id == id).and_then(|c| c.subs.iter().find(|s| s.name == sub)).expect("check/sub");
            let mut src = Src::replay(tape, thorough);
            crate::sim::TRACE.store(std::env::var_os("RK_TRACE").is_some(), std::sync::atomic::Ordering::Relaxed);
            let on = (get("logged ") == "true").then(Logging::on);
            let out = exec(s.run, &mut src);
            drop(on);
            match out {
                Outcome::Pass => {
                    println!("{}", src.desc);
                    println!("replay passes");
                    0
                }
                Outcome::Fail(m) => {
                    println!("{}", src.desc);
                    println!("replay fails: {m}");
                    1
                }
                Outcome::HarnessError(m) => {
                    println!("harness error: {m}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: {bin} list | check <id> [sub] | replay <file>");
            2
        }
    }
}
