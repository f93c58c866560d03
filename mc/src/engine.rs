//! Exhaustive exploration engine: finite spaces enumerated completely in a fixed order (shortest first),
//! breadth-first search with state matching, replay, hang / crash / memory supervision, evidence.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v ^ ((c.len() as u64) << 59));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    let mut f = Fx::default();
    t.hash(&mut f);
    f.finish()
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;

// ---------------------------------------------------------------- case context

pub fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let total = s.chars().count();
    format!("{} ... ({} characters)", s.chars().take(n).collect::<String>(), total)
}
pub struct Cx {
    pub prop: &'static str,
    fails: Vec<(String, String)>,
    pub trace: Option<Vec<String>>, // Some when replaying
    pub steps: u64,
    states: FxSet,
    saturated: bool,
    outcomes: FxSet,
    alloc_single: u64,
    traces: u64,
    counted: bool,
    /// every check counts, whatever property it is labelled with (used where a caller decides what a mismatch means)
    pub any: bool,
}
const STATE_CAP: usize = 1_500_000;
impl Cx {
    pub fn new(prop: &'static str) -> Cx {
        Cx { prop, fails: vec![], trace: None, steps: 0, states: FxSet::default(), saturated: false, outcomes: FxSet::default(), alloc_single: 0, traces: 0, counted: false, any: false }
    }
    /// Is this check one of those that decide the active property?
    #[inline]
    pub fn want(&self, p: &str) -> bool {
        self.any || self.prop == p
    }
    #[inline]
    pub fn check(&mut self, props: &str, ok: bool, msg: impl FnOnce() -> String) {
        if !ok && (self.any || props.split(' ').any(|p| p == self.prop)) {
            self.fail(msg());
        }
    }
    pub fn fail(&mut self, msg: String) {
        self.fail_key(String::new(), msg)
    }
    /// `key` identifies the exact failing input class; it is what a known finding must name.
    pub fn fail_key(&mut self, key: String, msg: String) {
        let msg = clip(msg, 1500);
        if self.fails.len() < 8 {
            self.fails.push((key, msg));
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    #[inline]
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// Number of inputs this case really executed (otherwise the weight of the space is assumed).
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
        self.counted = true;
    }
    #[inline]
    pub fn state(&mut self, hash: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(hash);
        } else {
            self.saturated = true;
        }
    }
    #[inline]
    pub fn outcome(&mut self, hash: u64) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(hash);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            let s = f();
            t.push(s);
        }
    }
    /// Start measuring allocations of the code under test.
    pub fn alloc_reset(&mut self) {
        MAXREQ.with(|c| c.set(0));
    }
    /// Largest single allocation request (bytes) since `alloc_reset`.
    pub fn alloc_max(&mut self) -> u64 {
        self.alloc_single = MAXREQ.with(|c| c.get());
        self.alloc_single
    }
}

// ---------------------------------------------------------------- allocator with accounting

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub struct Alloc;
const LIMIT: i64 = 3 << 30;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        note_alloc(n);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
}
#[inline]
fn note_alloc(n: usize) {
    let _ = MAXREQ.try_with(|c| {
        if n as u64 > c.get() {
            c.set(n as u64)
        }
    });
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        if (v > LIMIT || n as i64 > LIMIT || n > isize::MAX as usize) && SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX) != usize::MAX {
            mark(SLOT.with(|s| s.get()), 3);
            std::process::abort();
        }
    });
}

// ---------------------------------------------------------------- shared slots (survive a crash of the worker process)

const SLOTS: usize = 16;
const WORDS: usize = 64;
static SHM: AtomicU64 = AtomicU64::new(0);
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slot file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * WORDS * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    SHM.store(p as u64, Ordering::SeqCst);
}
#[inline]
fn put(slot: usize, w: usize, v: u64) {
    let b = SHM.load(Ordering::Relaxed) as *mut u64;
    if !b.is_null() && slot < SLOTS {
        unsafe { std::ptr::write_volatile(b.add(slot * WORDS + w), v) }
    }
}
fn get(slot: usize, w: usize) -> u64 {
    let b = SHM.load(Ordering::Relaxed) as *mut u64;
    if b.is_null() {
        0
    } else {
        unsafe { std::ptr::read_volatile(b.add(slot * WORDS + w)) }
    }
}
fn mark(slot: usize, status: u64) {
    put(slot, 3, status)
}
// words: 0 = case counter, 1 = space ordinal + 1 (0 = idle), 2 = index, 3 = status, 4 = path length, 5.. = path (4 x u16 per word)
fn slot_begin(slot: usize, space: u64, idx: u64, path: &[u16]) {
    put(slot, 0, get(slot, 0).wrapping_add(1));
    put(slot, 2, idx);
    let n = path.len().min((WORDS - 5) * 4);
    put(slot, 4, n as u64);
    if n > 0 {
        for (i, c) in path[..n].chunks(4).enumerate() {
            let mut v = 0u64;
            for (k, x) in c.iter().enumerate() {
                v |= (*x as u64) << (16 * k);
            }
            put(slot, 5 + i, v);
        }
    }
    put(slot, 1, space + 1);
}
/// The case under way goes on (resets its time limit).
pub fn alive() {
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        put(s, 0, get(s, 0).wrapping_add(1));
    }
}
fn slot_end(slot: usize) {
    put(slot, 1, 0);
}

// ---------------------------------------------------------------- spaces

pub trait Space: Send + Sync {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn run(&self, i: u64, cx: &mut Cx);
    fn show(&self, i: u64) -> String;
    /// traces per case (blocks of inputs count each input)
    fn weight(&self) -> u64 {
        1
    }
}
pub trait Bfs: Send + Sync {
    fn name(&self) -> String;
    fn ops(&self) -> usize;
    fn depth(&self) -> usize;
    fn max_states(&self) -> usize;
    /// Executes the operations of `path` from the initial state; returns the hash of the reached model state
    /// or None if the state is terminal.
    fn run(&self, path: &[u16], cx: &mut Cx) -> Option<u64>;
    fn show(&self, path: &[u16]) -> String;
}
pub enum Work {
    S(Box<dyn Space>),
    B(Box<dyn Bfs>),
}
impl Work {
    pub fn name(&self) -> String {
        match self {
            Work::S(s) => s.name(),
            Work::B(b) => b.name(),
        }
    }
}

/// A space given by closures.
pub struct Fs<R, D>
where
    R: Fn(u64, &mut Cx) + Send + Sync,
    D: Fn(u64) -> String + Send + Sync,
{
    pub name: String,
    pub len: u64,
    pub weight: u64,
    pub run: R,
    pub show: D,
}
impl<R, D> Space for Fs<R, D>
where
    R: Fn(u64, &mut Cx) + Send + Sync,
    D: Fn(u64) -> String + Send + Sync,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn run(&self, i: u64, cx: &mut Cx) {
        (self.run)(i, cx)
    }
    fn show(&self, i: u64) -> String {
        (self.show)(i)
    }
    fn weight(&self) -> u64 {
        self.weight
    }
}
pub fn space(
    name: impl Into<String>,
    len: u64,
    run: impl Fn(u64, &mut Cx) + Send + Sync + 'static,
    show: impl Fn(u64) -> String + Send + Sync + 'static,
) -> Work {
    Work::S(Box::new(Fs { name: name.into(), len, weight: 1, run, show }))
}
/// A space whose cases are blocks of `weight` elementary inputs.
pub fn blocks(
    name: impl Into<String>,
    len: u64,
    weight: u64,
    run: impl Fn(u64, &mut Cx) + Send + Sync + 'static,
    show: impl Fn(u64) -> String + Send + Sync + 'static,
) -> Work {
    Work::S(Box::new(Fs { name: name.into(), len, weight, run, show }))
}

/// Mixed-radix digits of `i`, least significant last (so that index order is lexicographic).
pub fn digits(mut i: u64, radix: u64, n: usize) -> Vec<usize> {
    let mut d = vec![0; n];
    for k in (0..n).rev() {
        d[k] = (i % radix) as usize;
        i /= radix;
    }
    d
}
/// Splits `i` into a coordinate per radix (first coordinate slowest).
pub fn coords(mut i: u64, radix: &[u64]) -> Vec<usize> {
    let mut d = vec![0; radix.len()];
    for k in (0..radix.len()).rev() {
        d[k] = (i % radix[k]) as usize;
        i /= radix[k];
    }
    d
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub enum CaseEnd {
    Ok(Option<u64>),
    Fail(Vec<(String, String)>),
    Harness(String),
}
fn run_case(f: impl FnOnce(&mut Cx) -> Option<u64>, cx: &mut Cx) -> CaseEnd {
    cx.fails.clear();
    let live = LIVE.with(|c| c.get());
    let r = catch_unwind(AssertUnwindSafe(|| f(cx)));
    LIVE.with(|c| c.set(live.min(c.get())));
    match r {
        Ok(s) => {
            if cx.fails.is_empty() {
                CaseEnd::Ok(s)
            } else {
                CaseEnd::Fail(std::mem::take(&mut cx.fails))
            }
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                CaseEnd::Harness(format!("panic in the checker at {}: {}", loc, msg))
            } else {
                let mut v = std::mem::take(&mut cx.fails);
                v.push((String::new(), format!("code under test panicked at {}: {}", loc, msg)));
                CaseEnd::Fail(v)
            }
        }
    }
}

// ---------------------------------------------------------------- driver

pub struct Found {
    pub space: String,
    pub idx: u64,
    pub path: Option<Vec<u16>>,
    pub show: String,
    pub msg: String,
}
#[derive(Default)]
pub struct Summary {
    pub spaces: Vec<(String, u64, u64, f64)>, // name, cases, traces, secs
    pub traces: u64,
    pub steps: u64,
    pub states: u64,
    pub saturated: bool,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub capped: Vec<String>,
    pub bfs: Vec<String>,
    pub found: Option<Found>,
    pub known: Vec<String>,
    pub error: Option<String>,
}

pub fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, SLOTS)
}

struct Shared {
    next: AtomicU64,
    best: Mutex<Option<(u64, String)>>,
    best_idx: AtomicU64,
    known: Mutex<HashSet<String>>,
    error: Mutex<Option<String>>,
    stop: AtomicBool,
    capped: AtomicBool,
}

/// Runs cases 0..n in parallel; the reported failure is the one with the smallest index.
fn parallel(
    prop: &'static str,
    ord: u64,
    weight: u64,
    n: u64,
    known: &[String],
    deadline: Instant,
    cxs: &mut Vec<Cx>,
    path_of: &(dyn Fn(u64) -> Vec<u16> + Sync),
    body: &(dyn Fn(u64, &mut Cx) -> Option<u64> + Sync),
) -> (Option<(u64, String)>, Vec<String>, Option<String>, bool, Vec<(u64, u64)>) {
    let w = workers();
    let sh = Shared {
        next: AtomicU64::new(0),
        best: Mutex::new(None),
        best_idx: AtomicU64::new(u64::MAX),
        known: Mutex::new(HashSet::new()),
        error: Mutex::new(None),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
    };
    let chunk = (n / (w as u64 * 64)).clamp(1, 4096);
    while cxs.len() < w {
        cxs.push(Cx::new(prop));
    }
    let mut outs: Vec<Vec<(u64, u64)>> = (0..w).map(|_| vec![]).collect();
    std::thread::scope(|sc| {
        for (slot, (cx, out)) in cxs.iter_mut().zip(outs.iter_mut()).enumerate() {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(2 << 20) // what a thread of std gets by default
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(slot));
                    loop {
                        let a = sh.next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || sh.stop.load(Ordering::Relaxed) || a > sh.best_idx.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline {
                            sh.capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if i > sh.best_idx.load(Ordering::Relaxed) {
                                break;
                            }
                            let path = path_of(i);
                            slot_begin(slot, ord, i, &path);
                            cx.counted = false;
                            let r = run_case(|cx| body(i, cx), cx);
                            slot_end(slot);
                            if !cx.counted {
                                cx.traces += weight;
                            }
                            match r {
                                CaseEnd::Ok(Some(s)) => out.push((i, s)),
                                CaseEnd::Ok(None) => {}
                                CaseEnd::Harness(e) => {
                                    *sh.error.lock().unwrap() = Some(format!("case {}: {}", i, e));
                                    sh.stop.store(true, Ordering::Relaxed);
                                }
                                CaseEnd::Fail(fs) => {
                                    let mut bad = vec![];
                                    for (k, m) in fs {
                                        if !k.is_empty() && known.contains(&k) {
                                            sh.known.lock().unwrap().insert(k);
                                        } else {
                                            bad.push(m);
                                        }
                                    }
                                    if !bad.is_empty() {
                                        let mut b = sh.best.lock().unwrap();
                                        if b.as_ref().map_or(true, |(j, _)| i < *j) {
                                            *b = Some((i, bad.join("\n  ")));
                                            sh.best_idx.store(i, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    SLOT.with(|s| s.set(usize::MAX));
                })
                .expect("thread");
        }
    });
    let mut all: Vec<(u64, u64)> = outs.into_iter().flatten().collect();
    all.sort_unstable();
    let k: Vec<String> = sh.known.into_inner().unwrap().into_iter().collect();
    (sh.best.into_inner().unwrap(), k, sh.error.into_inner().unwrap(), sh.capped.load(Ordering::Relaxed), all)
}

fn sample_of(v: &mut Vec<String>, s: String) {
    if v.len() < 24 && !v.contains(&s) {
        v.push(if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s });
    }
}

pub fn explore(prop: &'static str, work: &[Work], known: &[String], cap: Duration) -> Summary {
    install_hook();
    let deadline = Instant::now() + cap;
    let mut sum = Summary::default();
    let mut cxs: Vec<Cx> = vec![];
    'all: for (ord, w) in work.iter().enumerate() {
        let t = Instant::now();
        if t > deadline {
            sum.capped.push(format!("{} (not started)", w.name()));
            continue;
        }
        match w {
            Work::S(s) => {
                let n = s.len();
                let (best, k, err, capped, _) =
                    parallel(prop, ord as u64, s.weight(), n, known, deadline, &mut cxs, &|_| vec![], &|i, cx| {
                        s.run(i, cx);
                        None
                    });
                sum.known.extend(k);
                if capped {
                    sum.capped.push(s.name());
                }
                let total: u64 = cxs.iter().map(|c| c.traces).sum();
                sum.spaces.push((s.name(), n, total - sum.traces, t.elapsed().as_secs_f64()));
                sum.traces = total;
                if n > 0 {
                    sample_of(&mut sum.samples, format!("{}: {}", s.name(), s.show(n / 2)));
                }
                if let Some(e) = err {
                    sum.error = Some(format!("{}: {}", s.name(), e));
                    break 'all;
                }
                if let Some((i, m)) = best {
                    sum.found = Some(Found { space: s.name(), idx: i, path: None, show: s.show(i), msg: m });
                    break 'all;
                }
            }
            Work::B(b) => {
                let mut seen = FxSet::default();
                let mut cx0 = Cx::new(prop);
                match run_case(|cx| b.run(&[], cx), &mut cx0) {
                    CaseEnd::Ok(Some(s)) => {
                        seen.insert(s);
                    }
                    CaseEnd::Ok(None) => {}
                    CaseEnd::Harness(e) => {
                        sum.error = Some(e);
                        break 'all;
                    }
                    CaseEnd::Fail(f) => {
                        sum.found = Some(Found { space: b.name(), idx: 0, path: Some(vec![]), show: b.show(&[]), msg: f[0].1.clone() });
                        break 'all;
                    }
                }
                let mut frontier: Vec<Vec<u16>> = vec![vec![]];
                let mut level = 0;
                let mut cases = 1u64;
                let mut note = String::from("complete: no new states");
                while !frontier.is_empty() {
                    if level == b.depth() {
                        note = format!("depth bound {} completed", level);
                        break;
                    }
                    if seen.len() > b.max_states() {
                        note = format!("state bound: depth {} completed", level);
                        break;
                    }
                    let ops = b.ops() as u64;
                    let n = frontier.len() as u64 * ops;
                    let path_of = |i: u64| {
                        let mut p = frontier[(i / ops) as usize].clone();
                        p.push((i % ops) as u16);
                        p
                    };
                    let (best, k, err, capped, reached) =
                        parallel(prop, ord as u64, 1, n, known, deadline, &mut cxs, &path_of, &|i, cx| b.run(&path_of(i), cx));
                    sum.known.extend(k);
                    cases += n;
                    if let Some(e) = err {
                        sum.error = Some(format!("{}: {}", b.name(), e));
                        break 'all;
                    }
                    if let Some((i, m)) = best {
                        let p = path_of(i);
                        sum.found = Some(Found { space: b.name(), idx: i, show: b.show(&p), path: Some(p), msg: m });
                        break 'all;
                    }
                    let mut nf = vec![];
                    for (i, s) in reached {
                        if seen.insert(s) {
                            nf.push(path_of(i));
                        }
                    }
                    if capped {
                        sum.capped.push(format!("{} at depth {}", b.name(), level + 1));
                        note = format!("time cap: depth {} completed", level);
                        break;
                    }
                    level += 1;
                    if let Some(p) = nf.get(nf.len() / 2) {
                        if level == 3 {
                            sample_of(&mut sum.samples, format!("{}: {}", b.name(), b.show(p)));
                        }
                    }
                    frontier = nf;
                }
                sum.bfs.push(format!("{}: {} distinct states, {}", b.name(), seen.len(), note));
                let total: u64 = cxs.iter().map(|c| c.traces).sum();
                sum.spaces.push((b.name(), cases, total - sum.traces, t.elapsed().as_secs_f64()));
                sum.traces = total;
            }
        }
    }
    let mut st = FxSet::default();
    let mut oc = FxSet::default();
    for c in &cxs {
        sum.steps += c.steps;
        st.extend(c.states.iter());
        oc.extend(c.outcomes.iter());
        sum.saturated |= c.saturated;
    }
    sum.states = st.len() as u64;
    sum.outcomes = oc.len() as u64;
    sum.known.sort();
    sum.known.dedup();
    sum
}

/// Replays one case and returns (description, failures).
pub fn replay(prop: &'static str, w: &Work, idx: u64, path: Option<&[u16]>, trace: bool) -> (String, CaseEnd, Vec<String>) {
    install_hook();
    let mut cx = Cx::new(prop);
    if trace {
        cx.trace = Some(vec![]);
    }
    let (show, end) = match (w, path) {
        (Work::S(s), _) => (
            s.show(idx),
            run_case(
                |cx| {
                    s.run(idx, cx);
                    None
                },
                &mut cx,
            ),
        ),
        (Work::B(b), Some(p)) => (b.show(p), run_case(|cx| b.run(p, cx), &mut cx)),
        (Work::B(_), None) => ("?".into(), CaseEnd::Harness("no path".into())),
    };
    (show, end, cx.trace.take().unwrap_or_default())
}

// ---------------------------------------------------------------- supervision

pub fn child_setup() {
    if let Ok(p) = std::env::var("MC_SLOTS") {
        map_slots(&p);
        std::thread::spawn(|| {
            let hang = Duration::from_secs(std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(40));
            let mut last = vec![(0u64, Instant::now()); SLOTS];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for s in 0..SLOTS {
                    let c = get(s, 0);
                    if get(s, 1) == 0 || last[s].0 != c {
                        last[s] = (c, Instant::now());
                    } else if last[s].1.elapsed() > hang {
                        mark(s, 2);
                        std::process::abort();
                    }
                }
            }
        });
    }
}
pub struct Suspect {
    pub space: u64,
    pub idx: u64,
    pub path: Vec<u16>,
    pub status: u64,
}
/// Reads the slot file after the worker process died: suspects, the marked one first.
pub fn suspects(path: &str) -> Vec<Suspect> {
    let b = std::fs::read(path).unwrap_or_default();
    let mut v = vec![];
    let w = |s: usize, k: usize| {
        let o = (s * WORDS + k) * 8;
        b.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
    };
    for s in 0..SLOTS {
        if w(s, 1) != 0 {
            let n = w(s, 4) as usize;
            let path = (0..n).map(|i| (w(s, 5 + i / 4) >> (16 * (i % 4))) as u16).collect();
            v.push(Suspect { space: w(s, 1) - 1, idx: w(s, 2), path, status: w(s, 3) });
        }
    }
    v.sort_by_key(|s| (s.status == 0, s.idx));
    v
}
pub fn slot_file_len() -> usize {
    SLOTS * WORDS * 8
}
/// Used by `one`: single-case process with a slot so that the allocator limit applies.
pub fn single_slot() {
    SLOT.with(|s| s.set(0));
}

/// Threads that do what they are told, one at a time.
pub struct Lane {
    tx: Option<std::sync::mpsc::Sender<Job>>,
    rx: std::sync::mpsc::Receiver<std::thread::Result<()>>,
    h: Option<std::thread::JoinHandle<()>>,
}
struct Job(*mut (dyn FnMut() + 'static));
unsafe impl Send for Job {}
impl Lane {
    pub fn new() -> Lane {
        let (tx, jobs) = std::sync::mpsc::channel::<Job>();
        let (done, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            for j in jobs {
                // the sender waits for the answer, so what the pointer refers to is alive and not used meanwhile
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*j.0)() }));
                if done.send(r).is_err() {
                    return;
                }
            }
        });
        Lane { tx: Some(tx), rx, h: Some(h) }
    }
    pub fn run(&self, f: &mut dyn FnMut()) {
        let p: *mut (dyn FnMut() + '_) = f;
        let j = Job(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) });
        self.tx.as_ref().unwrap().send(j).unwrap();
        if let Err(e) = self.rx.recv().unwrap() {
            std::panic::resume_unwind(e);
        }
    }
}
impl Drop for Lane {
    fn drop(&mut self) {
        self.tx = None;
        let _ = self.h.take().unwrap().join();
    }
}
/// In the thread that asks (0) or in one of its own.
pub fn on(lanes: &[Lane], k: usize, f: &mut dyn FnMut()) {
    if k == 0 {
        f()
    } else {
        lanes[k - 1].run(f)
    }
}
