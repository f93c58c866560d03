//! Controlled scheduler for two real threads of the real code. A schedule stops one thread before a given machine
//! instruction of its call, lets the other thread run (to its end, or to a stop of its own), and continues. Every
//! schedule runs in a forked process of its own, so that every one starts from the same memory image; the stop is a
//! breakpoint planted at the instruction, whose address and occurrence come from a single-stepped recording.

use crate::engine::*;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Arc, Once};
use std::time::{Duration, Instant};

extern "C" {
    fn sigaction(n: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn sched_yield() -> i32;
    fn alarm(n: u32) -> u32;
    fn gettid() -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn read(f: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn close(f: i32) -> i32;
    // (std's threads take locks of std when they start, which a fork may have caught held)
    fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
}
#[repr(C)]
struct Sa {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}

/// An operation under test: `make` prepares a thread's own objects; the result is called with `false` for the call
/// that races, then with `true` for a digest of its outcome and of the objects afterwards.
pub type Body = Box<dyn FnMut(bool) -> Vec<u8>>;
pub struct Act {
    pub name: String,
    pub make: Box<dyn Fn() -> Body + Send + Sync>,
    /// Acts of one family run the same code on different data.
    pub family: usize,
    /// Races with all other core acts, too.
    pub core: bool,
    /// Stops at the first and last times only that an instruction is executed (in first calls at the first one).
    pub long: bool,
}
/// The acts that race with each other, in families.
pub fn families(v: Vec<(bool, Vec<Act>)>) -> Arc<Vec<Act>> {
    let mut all = vec![];
    for (k, (core, f)) in v.into_iter().enumerate() {
        all.extend(f.into_iter().map(|a| Act { family: k, core, ..a }));
    }
    Arc::new(all)
}
/// The same for calls in which long loops run.
pub fn long(v: Vec<Act>) -> (bool, Vec<Act>) {
    (false, v.into_iter().map(|a| Act { long: true, ..a }).collect())
}
pub fn act(name: impl Into<String>, make: impl Fn() -> Body + Send + Sync + 'static) -> Act {
    Act { name: name.into(), make: Box::new(make), family: 0, core: false, long: false }
}

// ------------------------------------------------------------ shared memory between a schedule and its parent

const STEPS: usize = 1 << 17; // longest recorded call, in instructions (only so many stops are explored)
const DIGEST: usize = 1 << 14;
const WORDS: usize = 8;
const AREA: usize = WORDS * 8 + STEPS * 8 + 2 * DIGEST;
// words: 0 recorded steps (or STEPS if too long), 1 stops reached (bit 0: first thread, bit 1: second), 2, 3 digest
// lengths + 1, 4 panicked, 5 schedules completed as expected, 6 something was not as expected
struct Area(*mut u8);
unsafe impl Send for Area {}
unsafe impl Sync for Area {}
impl Area {
    fn new() -> Area {
        let p = unsafe { mmap(std::ptr::null_mut(), AREA, 3, 0x21, -1, 0) };
        assert!(p as isize != -1, "mmap");
        Area(p)
    }
    fn word(&self, k: usize) -> &'static AtomicU64 {
        unsafe { &*(self.0.add(8 * k) as *const AtomicU64) }
    }
    fn rip(&self, k: usize) -> *mut u64 {
        unsafe { self.0.add(8 * (WORDS + k)) as *mut u64 }
    }
    fn clear(&self) {
        for k in 0..WORDS {
            self.word(k).store(0, SeqCst);
        }
    }
    fn put(&self, who: usize, d: &[u8]) {
        let n = d.len().min(DIGEST);
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), self.0.add(8 * (WORDS + STEPS) + who * DIGEST), n) };
        self.word(2 + who).store(n as u64 + 1, SeqCst);
    }
    fn get(&self, who: usize) -> Option<Vec<u8>> {
        let n = self.word(2 + who).load(SeqCst);
        if n == 0 {
            return None;
        }
        Some(unsafe { std::slice::from_raw_parts(self.0.add(8 * (WORDS + STEPS) + who * DIGEST), n as usize - 1) }.to_vec())
    }
    fn trace(&self) -> Vec<u64> {
        let n = self.word(0).load(SeqCst) as usize;
        (0..n.min(STEPS)).map(|k| unsafe { *self.rip(k) }).collect()
    }
}
impl Drop for Area {
    fn drop(&mut self) {
        unsafe { munmap(self.0, AREA) };
    }
}

// ------------------------------------------------------------ state of the process that runs schedules

static AREA_AT: AtomicUsize = AtomicUsize::new(0);
static RECORD: AtomicBool = AtomicBool::new(false);
static LAST: AtomicU64 = AtomicU64::new(0);
static TID: [AtomicI32; 2] = [AtomicI32::new(0), AtomicI32::new(0)];
// numbers of the schedule (from 1) that each thread has reached a point of
const Z: AtomicU64 = AtomicU64::new(0);
static READY: [AtomicU64; 2] = [Z; 2]; // objects prepared
static GO: [AtomicU64; 2] = [Z; 2]; // call permitted
static DONE: [AtomicU64; 2] = [Z; 2]; // call ended
static AFTER: [AtomicU64; 2] = [Z; 2]; // outcome judged
static STOPPED: [AtomicU64; 2] = [Z; 2];
static NOW: AtomicU64 = Z; // the schedule under way
/// Where each thread stops: address and occurrence (address 0: nowhere).
static STOP: [(AtomicU64, AtomicU64); 2] = [(Z, Z), (Z, Z)];
static ARMED: AtomicU64 = Z; // address of the planted breakpoint
static OWNER: AtomicUsize = AtomicUsize::new(9);
static BYTE: AtomicU8 = AtomicU8::new(0);
static HITS: AtomicU64 = Z;
static OVER: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)]; // stepping over the breakpoint

fn poke(a: u64, b: u8) {
    unsafe { (*(a as *const AtomicU8)).store(b, SeqCst) }
}
fn arm(who: usize) {
    let a = STOP[who].0.load(SeqCst);
    if a != 0 {
        OWNER.store(who, SeqCst);
        HITS.store(0, SeqCst);
        BYTE.store(unsafe { (*(a as *const AtomicU8)).load(SeqCst) }, SeqCst);
        ARMED.store(a, SeqCst);
        poke(a, 0xcc);
    }
}
fn disarm(who: usize) {
    let a = ARMED.load(SeqCst);
    if a != 0 && OWNER.load(SeqCst) == who {
        poke(a, BYTE.load(SeqCst));
        ARMED.store(0, SeqCst);
    }
}
/// Is this thread asleep, that is, waiting for a lock? (Called in a signal handler: no allocation.)
fn asleep(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut t = tid as u32;
    for k in (16..26).rev() {
        path[k] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    // the name of the directory has no leading zeros
    let lead = path[16..26].iter().take_while(|c| **c == b'0').count();
    path.copy_within(16 + lead.., 16);
    let mut b = [0u8; 200];
    let n = unsafe {
        let f = open(path.as_ptr() as *const i8, 0);
        if f < 0 {
            return false;
        }
        let n = read(f, b.as_mut_ptr() as *mut _, b.len());
        close(f);
        n.max(0) as usize
    };
    match b[..n].iter().rposition(|c| *c == b')') {
        Some(k) => b.get(k + 2) == Some(&b'S'),
        None => false,
    }
}
/// Waits for `f`. With a thread given, gives up when this thread sleeps (it waits for a lock the stopped one holds) or
/// when it takes too long (it may be spinning for one).
fn wait(f: impl Fn() -> bool, other: Option<i32>) {
    for _ in 0..200 {
        if f() {
            return;
        }
        unsafe { sched_yield() };
    }
    let t = Instant::now();
    let mut k = 0u32;
    while !f() {
        unsafe { sched_yield() };
        k += 1;
        if let Some(o) = other {
            if t.elapsed() > patience() {
                SHORT.fetch_add(1, SeqCst);
                return;
            }
            if k % 16 == 0 && asleep(o) && !f() {
                return;
            }
        }
    }
}
/// 40 ms, but not again and again (a thread that spins for a lock the stopped one holds).
fn patience() -> Duration {
    Duration::from_millis(if SHORT.load(SeqCst) > 5 { 4 } else { 40 })
}
static SHORT: AtomicU64 = Z;

extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
    let rip = unsafe { uc.add(40 + 16 * 8) as *mut u64 };
    let efl = unsafe { uc.add(40 + 17 * 8) as *mut u64 };
    unsafe {
        if RECORD.load(SeqCst) {
            let r = *rip;
            // the repetitions of one string instruction are one place
            if LAST.swap(r, SeqCst) != r {
                let a = Area(AREA_AT.load(SeqCst) as *mut u8);
                let n = a.word(0).load(SeqCst) as usize;
                if n < STEPS {
                    *a.rip(n) = r;
                    a.word(0).store(n as u64 + 1, SeqCst);
                }
                std::mem::forget(a);
            }
            return;
        }
        let who = (gettid() == TID[1].load(SeqCst)) as usize;
        if OVER[who].load(SeqCst) {
            if *rip == ARMED.load(SeqCst) {
                return; // still inside a repeated string instruction
            }
            OVER[who].store(false, SeqCst);
            *efl &= !0x100;
            let a = ARMED.load(SeqCst);
            if a != 0 {
                poke(a, 0xcc);
            }
            return;
        }
        // the breakpoint
        *rip -= 1;
        let a = ARMED.load(SeqCst);
        if a != *rip {
            return; // taken away meanwhile
        }
        if OWNER.load(SeqCst) == who && HITS.fetch_add(1, SeqCst) == STOP[who].1.load(SeqCst) {
            disarm(who);
            let n = NOW.load(SeqCst);
            STOPPED[who].store(n, SeqCst);
            if who == 0 {
                GO[1].store(n, SeqCst);
                wait(|| DONE[1].load(SeqCst) >= n || STOPPED[1].load(SeqCst) >= n, Some(TID[1].load(SeqCst)));
            } else {
                wait(|| DONE[0].load(SeqCst) >= n, Some(TID[0].load(SeqCst)));
            }
            return;
        }
        poke(a, BYTE.load(SeqCst));
        OVER[who].store(true, SeqCst);
        *efl |= 0x100;
    }
}
static INIT: Once = Once::new();
static mut CODE: Vec<(u64, u64)> = vec![];
fn init() {
    INIT.call_once(|| unsafe {
        let a = Sa { h: trap as *const () as usize, mask: [0; 16], flags: 0x4000_0004, rest: 0 }; // SA_SIGINFO, SA_NODEFER: the handler may run into
        // the breakpoint, too, as it shares functions of libc with the calls
        assert!(sigaction(5, &a, std::ptr::null_mut()) == 0);
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut v = vec![];
        for l in maps.lines() {
            let mut w = l.split_whitespace();
            let (r, p) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            if !p.contains('x') || !l.contains('/') {
                continue;
            }
            let (x, y) = r.split_once('-').unwrap_or(("0", "0"));
            let (x, y) = (u64::from_str_radix(x, 16).unwrap_or(0), u64::from_str_radix(y, 16).unwrap_or(0));
            if mprotect(x as *mut u8, (y - x) as usize, 7) == 0 {
                v.push((x, y));
            }
        }
        CODE = v;
    });
}
fn patchable(a: u64) -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        CODE.iter().any(|(x, y)| a >= *x && a < *y)
    }
}

/// Stops (address, occurrence) of the two threads; address 0: none.
type Stops = [(u64, u64); 2];
const FREE: Stops = [(0, 0); 2];
/// What became of a process.
struct End {
    status: i32,
    /// schedules completed as expected
    good: u64,
    /// what the next one gave instead
    digests: [Option<Vec<u8>>; 2],
    stopped: u64,
    panicked: u64,
}
/// Forks a process that runs the schedules one after another, until one does not end as expected.
fn process(acts: [Option<&Act>; 2], warm: bool, record: bool, plans: &[Stops], want: &[Option<Vec<u8>>; 2], area: &Area) -> End {
    area.clear();
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            alarm(10);
            AREA_AT.store(area.0 as usize, SeqCst);
            let r = guarded(|| child(acts, warm, record, plans, want, area));
            _exit(if r.is_some() { 0 } else { 99 });
        }
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    alive();
    End { status: st, good: area.word(5).load(SeqCst), digests: [area.get(0), area.get(1)], stopped: area.word(1).load(SeqCst), panicked: area.word(4).load(SeqCst) }
}
fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn child(acts: [Option<&Act>; 2], warm: bool, record: bool, plans: &[Stops], want: &[Option<Vec<u8>>; 2], area: &Area) {
    let both = acts[1].is_some();
    let body = |who: usize, a: &Act| {
        TID[who].store(unsafe { gettid() }, SeqCst);
        if warm {
            let mut w = (a.make)();
            w(false);
            w(true);
        }
        for (j, stops) in plans.iter().enumerate() {
            let n = j as u64 + 1;
            let mut b = (a.make)();
            READY[who].store(n, SeqCst);
            if who == 0 {
                if both {
                    wait(|| READY[1].load(SeqCst) >= n, None);
                }
                for k in 0..2 {
                    STOP[k].0.store(stops[k].0, SeqCst);
                    STOP[k].1.store(stops[k].1, SeqCst);
                }
                NOW.store(n, SeqCst);
                unsafe { alarm(10) };
            } else {
                wait(|| GO[1].load(SeqCst) >= n, None);
            }
            let ok = guarded(|| {
                if record {
                    RECORD.store(true, SeqCst);
                    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
                    b(false);
                    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
                    RECORD.store(false, SeqCst);
                } else {
                    arm(who);
                    b(false);
                    disarm(who);
                }
            })
            .is_some();
            disarm(who);
            DONE[who].store(n, SeqCst);
            // the outcome and the objects afterwards, one thread after the other
            if both {
                if who == 0 {
                    GO[1].store(n, SeqCst);
                    wait(|| DONE[1].load(SeqCst) >= n, None);
                } else {
                    wait(|| AFTER[0].load(SeqCst) >= n, None);
                }
            }
            let d = if ok { guarded(|| b(true)) } else { None };
            if d.is_none() {
                area.word(4).fetch_or((if ok { 4 } else { 1 }) << who, SeqCst);
            }
            if d.is_none() || d != want[who] {
                if let Some(d) = d {
                    area.put(who, &d);
                }
                area.word(6).store(1, SeqCst);
            }
            drop(b);
            AFTER[who].store(n, SeqCst);
            if who == 0 {
                if both {
                    wait(|| AFTER[1].load(SeqCst) >= n, None);
                }
                for k in 0..2 {
                    if STOPPED[k].load(SeqCst) == n {
                        area.word(1).fetch_or(1 << k, SeqCst);
                    }
                }
            }
            // both threads see the same verdict: it was given before AFTER[1] (AFTER[0], if alone)
            if area.word(6).load(SeqCst) != 0 {
                return;
            }
            if who == 0 {
                area.word(5).store(n, SeqCst);
            }
        }
    };
    // one closure per thread, called through a pointer
    struct Job<'a>(&'a dyn Fn(usize, &Act), usize, &'a Act);
    extern "C" fn start(j: *mut u8) -> *mut u8 {
        let j = unsafe { &*(j as *const Job) };
        if guarded(|| (j.0)(j.1, j.2)).is_none() {
            unsafe { _exit(98) }
        }
        std::ptr::null_mut()
    }
    let body = &body as &dyn Fn(usize, &Act);
    let jobs: Vec<Job> = acts.iter().enumerate().filter_map(|(who, a)| a.map(|a| Job(body, who, a))).collect();
    let mut t = [0usize; 2];
    for (k, j) in jobs.iter().enumerate() {
        if unsafe { pthread_create(&mut t[k], std::ptr::null(), start, j as *const Job as *mut u8) } != 0 {
            unsafe { _exit(97) }
        }
    }
    for k in 0..jobs.len() {
        unsafe { pthread_join(t[k], std::ptr::null_mut()) };
    }
}

/// Address and occurrence of every recorded step.
fn places(trace: &[u64]) -> Vec<(u64, u64)> {
    let mut n = std::collections::HashMap::new();
    trace
        .iter()
        .map(|a| {
            let c = n.entry(*a).or_insert(0u64);
            *c += 1;
            (*a, *c - 1)
        })
        .collect()
}
/// Which pairs of acts race.
#[derive(Clone, Copy, PartialEq)]
pub enum Pairs {
    /// within a family, and between the core acts
    Related,
    /// all ordered pairs
    All,
    /// every act with itself and with the next one
    Next,
    /// the first act of each family with itself and with the next one
    First,
}
/// Pairs of `acts` on two threads; the first one stops before each instruction of its call (`two`: and the second before
/// each of its own, until the first has ended). Warm: schedules follow one another in one process. Cold: every schedule
/// is the first thing its process does.
pub fn races(name: &str, prop: &'static str, acts: Arc<Vec<Act>>, warm: bool, two: bool, which: Pairs, parts: u64) -> Work {
    let a2 = acts.clone();
    let n = acts.len();
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (&acts[i], &acts[j]);
            if match which {
                Pairs::Related => x.family == y.family || (x.core && y.core),
                Pairs::All => true,
                Pairs::First => (i == 0 || acts[i - 1].family != x.family) && (i == j || ((i + 1) % n == j && !x.long)),
                Pairs::Next => i == j || (i + 1) % n == j,
            } {
                pairs.push((i, j));
            }
        }
    }
    let pairs = Arc::new(pairs);
    let p2 = pairs.clone();
    let m = pairs.len() as u64;
    space(
        format!("two threads, {}{}: {}", if two { "every pair of stops (calls of up to 900 instructions)" } else { "the first stops before each instruction" }, if warm { "" } else { ", first calls of a process" }, name),
        parts * m,
        move |i, cx| {
            init();
            let c = coords(i, &[parts, m]);
            let (ia, ib) = pairs[c[1]];
            let (a, b) = (&acts[ia], &acts[ib]);
            let area = Area::new();
            let none = [None, None];
            let alone = |x: &Act, record: bool, area: &Area| {
                let e = process([Some(x), None], warm, record, &[FREE], &none, area);
                (e.digests[0].clone(), places(&area.trace()))
            };
            let want = [alone(a, false, &area).0, alone(b, false, &area).0];
            let pa = alone(a, true, &area).1;
            let pb = if two { alone(b, true, &area).1 } else { vec![(0, 0)] };
            if want.iter().any(|d| d.is_none()) {
                cx.check(prop, false, || format!("{} or {} alone does not come to an end", a.name, b.name));
                return;
            }
            if two && pa.len().max(pb.len()) > 900 {
                return;
            }
            assert!(!pa.is_empty(), "single-stepping does not work here");
            let mut plans: Vec<(usize, Stops)> = vec![];
            let mut times = std::collections::HashMap::new();
            for x in &pa {
                times.insert(x.0, x.1); // the last one
            }
            for (k, x) in pa.iter().enumerate() {
                if a.long && if warm { x.1 >= 4 && x.1 + 3 <= times[&x.0] } else { x.1 > 0 } {
                    continue;
                }
                if k as u64 % parts == c[0] as u64 && patchable(x.0) {
                    plans.extend(pb.iter().filter(|y| y.0 == 0 || patchable(y.0)).map(|y| (k, [*x, *y])));
                }
            }
            for group in plans.chunks(if warm { 500 } else { 1 }) {
                let stops: Vec<Stops> = group.iter().map(|p| p.1).collect();
                let mut e = process([Some(a), Some(b)], warm, false, &stops, &want, &area);
                if e.status != 0 {
                    // once more from where it died: what counts is what comes back
                    let again = process([Some(a), Some(b)], warm, false, &stops[e.good as usize..], &want, &area);
                    e = End { good: e.good + again.good, ..again };
                }
                for p in group.iter().take(e.good as usize) {
                    cx.step();
                    cx.state(h(&(ia, ib, warm, p)));
                }
                cx.outcome(e.stopped);
                if e.good as usize != group.len() {
                    if e.status >> 8 == 97 || e.status >> 8 == 99 {
                        panic!("no threads to be had");
                    }
                    let (k, _) = group[e.good as usize];
                    let what = format!(
                        "first thread: {}; second: {}; {}; the first stops before instruction {} of {} and the second runs meanwhile{}",
                        a.name,
                        b.name,
                        if warm { "after such calls before" } else { "first calls of the process" },
                        k,
                        pa.len(),
                        if two { ", up to some instruction of its own" } else { "" }
                    );
                    let t = |d: &Option<Vec<u8>>| d.as_ref().map(|d| clip(String::from_utf8_lossy(d).into_owned(), 400)).unwrap_or("(as alone, or nothing)".into());
                    cx.check(prop, false, || {
                        format!(
                            "{}: process status {:#x}, panics {:#x}\n    thread 1 gets {}\n      instead of  {}\n    thread 2 gets {}\n      instead of  {}",
                            what, e.status, e.panicked, t(&e.digests[0]), t(&want[0]), t(&e.digests[1]), t(&want[1])
                        )
                    });
                    return;
                }
            }
            cx.note(|| format!("{} schedules, {} instructions", plans.len(), pa.len()));
            cx.traces(plans.len() as u64);
        },
        move |i| {
            let c = coords(i, &[parts, m]);
            let (ia, ib) = p2[c[1]];
            format!("{} against {}, stops {} modulo {}", a2[ia].name, a2[ib].name, c[0], parts)
        },
    )
}
