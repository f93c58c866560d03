//! Independence of calls (F09) and of objects (P12): the oracle is the same call, or the same object with the same
//! word of operations, in a process in which nothing else ever happened.

use crate::engine::*;
use crate::href::hex;
use httlib_huffman as hf;
use httlib_protos as pr;
use std::io::{self, Write};
use std::sync::{Arc, Mutex, OnceLock};

/// What a word of operations acts on.
#[derive(Default)]
struct Obj {
    dec: pr::Decoder,
    buf: Vec<u8>,
    got: Vec<(u32, pr::Typ, Vec<u8>)>,
    /// inputs and outputs of Huffman calls are kept in the same buffers
    same: bool,
    out: Vec<u8>,
}
impl Obj {
    fn io(&mut self, t: &[u8], f: impl Fn(&[u8], &mut Vec<u8>) -> String) -> String {
        if self.same {
            self.buf.clear();
            self.buf.extend_from_slice(t);
            self.out.clear();
            self.out.extend([1, 2, 3]);
            f(&self.buf, &mut self.out)
        } else {
            f(t, &mut vec![1, 2, 3])
        }
    }
}
type Op = (String, Arc<dyn Fn(&mut Obj) -> String + Send + Sync>);
fn op(name: impl Into<String>, f: impl Fn(&mut Obj) -> String + Send + Sync + 'static) -> Op {
    (name.into(), Arc::new(f))
}
fn run(o: &Op, x: &mut Obj) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.1)(x))).unwrap_or_else(|_| "panic".into())
}

// ------------------------------------------------------------ the operations

fn short(v: &[u8]) -> String {
    if v.len() > 24 { format!("{} octets, hash {:016x}", v.len(), h(&v)) } else { hex(v) }
}
fn texts() -> Vec<Vec<u8>> {
    vec![b"".to_vec(), b"a".to_vec(), b"b".to_vec(), b"www.example.com".to_vec(), b"no-cache".to_vec(), vec![0xff], vec![0, 255, 10, 13, 22, 249], (0..=255).collect(), vec![b'0'; 300], b"custom-value".repeat(100)]
}
fn huff_ops() -> Vec<Op> {
    use hf::DecoderSpeed::*;
    let mut v = vec![];
    for t in texts() {
        v.push(op(format!("encode {}", short(&t)), move |x| {
            x.io(&t, |t, d| {
                let r = hf::encode(t, d);
                format!("{:?} {}", r, hex(d))
            })
        }));
    }
    let mut ins: Vec<Vec<u8>> = texts().iter().map(|t| crate::href::huff_enc(t)).collect();
    ins.extend([&[0xffu8][..], &[0xff, 0xff, 0xff, 0xff], &[0x1e], &[0xff, 0xc7], &[0], &[7], &[0xfe], &[0x1f, 0xff], &[0xff, 0xff, 0xff, 0xfc], &[0xf8], &[0x3f, 0xff, 0xff], &[0x1f, 0x1f, 0]].map(|x| x.to_vec()));
    for t in ins {
        for s in [OneBit, TwoBits, ThreeBits, FourBits, FiveBits] {
            let t = t.clone();
            v.push(op(format!("decode {} at {:?}", short(&t), s), move |x| {
                x.io(&t, |t, d| match hf::decode(t, d, s) {
                    Ok(r) => format!("{:?} {}", r, hex(d)),
                    Err(e) => format!("{:?}", e),
                })
            }));
        }
    }
    let codes: [&[(u8, u32)]; 4] = [&[(1, 0), (2, 2)], &[(1, 1), (3, 0), (4, 2)], &[(5, 1), (3, 2)], &[(2, 0), (2, 1), (2, 2), (2, 3)]];
    for c in codes {
        for s in [OneBit, TwoBits, ThreeBits, FourBits, FiveBits] {
            v.push(op(format!("flatten {:?} at {:?}", c, s), move |_| format!("{:016x}", h(&format!("{:?}", hf::flattener::flatten(c, s))))));
        }
    }
    for t in ["", "'0' ( 48)  |00000                                         0  [ 5]", "'!' ( 33)  |11111110|00                                 3f8  [10]\n'0' ( 48)  |00000                                         0  [ 5]"] {
        v.push(op(format!("parse {:?}", t), move |x| x.io(t.as_bytes(), |t, _| format!("{:?}", hf::parser::parse(std::str::from_utf8(t).unwrap())))));
    }
    v
}
/// The first few of every sort.
fn huff_few(n: usize) -> Vec<Op> {
    let all = huff_ops();
    let pick = ["encode 61", "decode 1f at FiveBits", "decode fe at FiveBits", "encode 20", "decode 1f 1f 00 at FiveBits", "decode 1f 1f 00 at ThreeBits", "decode 00 at FourBits", "encode ff", "parse \"'0'", "decode 1f at OneBit", "decode fe at TwoBits", "flatten [(1, 0)", "flatten [(5, 1)", "encode 62", "decode 15 octets", "parse \"\"", "decode ff at ThreeBits", "decode 3f ff ff at FourBits", "decode 1f ff at TwoBits", "encode 1200", "decode 300", "flatten [(2", "encode ", "decode  at"];
    let mut v: Vec<Op> = vec![];
    for p in pick {
        if let Some(o) = all.iter().find(|o| o.0.starts_with(p) && !v.iter().any(|x| x.0 == o.0)) {
            v.push(o.clone());
        }
    }
    v.extend(all.iter().step_by(7).filter(|o| !pick.iter().any(|p| o.0.starts_with(p))).cloned().collect::<Vec<_>>());
    v.truncate(n);
    v
}

fn feed(b: &[u8]) -> Op {
    let b = b.to_vec();
    op(format!("decode [{}]", if b.len() > 40 { short(&b) } else { hex(&b) }), move |x| {
        x.buf.extend_from_slice(&b);
        let n = x.got.len();
        let r = x.dec.decode(&mut x.buf, &mut x.got);
        let f: Vec<String> = x.got[n.min(x.got.len())..].iter().map(|f| format!("{} {:?} {}", f.0, f.1, short(&f.2))).collect();
        format!("{:?} {:?} rest {}", r, f, short(&x.buf))
    })
}
fn fresh() -> Op {
    op("dropped and replaced by a fresh one", |x| {
        *x = Obj::default();
        String::new()
    })
}
thread_local!(static WITHIN: std::cell::Cell<Option<Box<dyn FnMut()>>> = const { std::cell::Cell::new(None) });
struct Stops(usize, Vec<u8>);
impl Write for Stops {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Some(mut f) = WITHIN.take() {
            f();
            WITHIN.set(Some(f));
        }
        if self.0 == 0 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        self.1.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn proto_ops() -> Vec<Op> {
    let mut v: Vec<Op> = crate::proto::tokens().iter().map(|b| feed(b)).collect();
    v.push(fresh());
    macro_rules! enc {
        ($k:ident, $t:ty, $($x:expr),+) => {$(
            let x: $t = <$t>::from($x);
            for stop in [usize::MAX, 0, 1, 3] {
                let x = x.clone();
                v.push(op(format!("encode {} {} with room for {}", stringify!($k), stringify!($x), stop), move |_| {
                    let mut w = Stops(stop, vec![]);
                    let r = pr::Encoder::default().encode((&300, pr::EncoderLit::$k(&x)), &mut w);
                    format!("{:?} {}", r, short(&w.1))
                }));
            }
        )+};
    }
    enc!(Bytes, Vec<u8>, *b"abc", []);
    enc!(Bool, bool, true);
    enc!(Int32, i32, -2);
    enc!(Int64, i64, 300i64);
    enc!(UInt32, u32, 300u32);
    enc!(UInt64, u64, 300u64);
    enc!(SInt32, i32, -300);
    enc!(SInt64, i64, i64::MIN);
    enc!(Fixed32, u32, 300u32);
    enc!(Fixed64, u64, 300u64);
    enc!(SFixed32, i32, -2);
    enc!(SFixed64, i64, -2i64);
    enc!(Float, f32, 1.5f32);
    enc!(Double, f64, 1.5);
    enc!(BoolVec, Vec<bool>, [true, false]);
    enc!(Int32Vec, Vec<i32>, [1, -300]);
    enc!(Int64Vec, Vec<i64>, [1, -300]);
    enc!(UInt32Vec, Vec<u32>, [1, 300]);
    enc!(UInt64Vec, Vec<u64>, [1, 300]);
    enc!(SInt32Vec, Vec<i32>, [1, -300]);
    enc!(SInt64Vec, Vec<i64>, [1, -300]);
    enc!(Fixed32Vec, Vec<u32>, [1, 300]);
    enc!(Fixed64Vec, Vec<u64>, [1, 300]);
    enc!(SFixed32Vec, Vec<i32>, [1, -300]);
    enc!(SFixed64Vec, Vec<i64>, [1, -300]);
    enc!(FloatVec, Vec<f32>, [1.5f32, -2.0]);
    enc!(DoubleVec, Vec<f64>, [1.5, -2.0]);
    for t in [0u32, 1 << 29] {
        v.push(op(format!("encode with tag {}", t), move |_| {
            let mut o = vec![];
            format!("{:?} {}", pr::Encoder::default().encode_int32(&t, &5, &mut o), hex(&o))
        }));
    }
    macro_rules! conv {
        ($k:ident, $t:ty, $($b:expr),+) => {$(
            v.push(op(format!("convert {} {:02x?}", stringify!($k), $b), move |_| format!("{:?}", <$t>::from(pr::DecoderLit::$k($b.to_vec())))));
        )+};
    }
    conv!(Bytes, String, b"h\xc3\xa9", b"h\xc3");
    conv!(Bytes, Vec<u8>, b"abc", b"");
    conv!(Int32, i32, [0xac, 2], [0x80], [0xff; 11]);
    conv!(Bool, bool, [1], [0x80]);
    conv!(Int64, i64, [0xac, 2], [0x80]);
    conv!(UInt32, u32, [0xac, 2], [0x80]);
    conv!(UInt64, u64, [0xac, 2], [0x80]);
    conv!(SInt32, i32, [0xac, 2], [0x80]);
    conv!(SInt64, i64, [0xac, 2], [0x80]);
    conv!(Fixed32, u32, [1, 2, 3, 4], [1, 2, 3]);
    conv!(SFixed32, i32, [1, 2, 3, 4], [1, 2, 3]);
    conv!(SFixed64, i64, [1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3]);
    conv!(Float, f32, [0, 0, 0x80, 0x3f], [1]);
    conv!(Double, f64, [0, 0, 0, 0, 0, 0, 0x80, 0x3f], [1]);
    conv!(Int32Vec, Vec<i32>, [1, 0xac, 2], [1, 0x80]);
    conv!(Int64Vec, Vec<i64>, [1, 0xac, 2], [1, 0x80]);
    conv!(UInt32Vec, Vec<u32>, [1, 0xac, 2], [1, 0x80]);
    conv!(UInt64Vec, Vec<u64>, [1, 0xac, 2], [1, 0x80], [0xff; 12]);
    conv!(SInt32Vec, Vec<i32>, [1, 0xac, 2], [1, 0x80]);
    conv!(SInt64Vec, Vec<i64>, [1, 0xac, 2], [1, 0x80]);
    conv!(Fixed32Vec, Vec<u32>, [1, 0, 0, 0, 2, 0, 0, 0], [1, 0, 0, 0, 2]);
    conv!(Fixed64Vec, Vec<u64>, [1, 0, 0, 0, 2, 0, 0, 0], [1, 0, 0, 0, 2]);
    conv!(SFixed32Vec, Vec<i32>, [1, 0, 0, 0, 2, 0, 0, 0], [1, 0, 0, 0, 2]);
    conv!(SFixed64Vec, Vec<i64>, [1, 0, 0, 0, 2, 0, 0, 0], [1, 0, 0, 0, 2]);
    conv!(FloatVec, Vec<f32>, [0, 0, 0x80, 0x3f], [0, 0, 0x80, 0x3f, 1]);
    conv!(DoubleVec, Vec<f64>, [0, 0, 0, 0, 0, 0, 0x80, 0x3f], [0, 0, 0x80, 0x3f, 1]);
    conv!(Fixed64, u64, [1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3]);
    conv!(BoolVec, Vec<bool>, [1, 0, 1], [1, 0x80]);
    v
}
fn parts() -> Vec<Op> {
    let mut v: Vec<Op> = [&[0x08u8][..], &[0xac], &[0x02], &[0x12, 3, 1], &[2, 3], &[0x0f]].iter().map(|b| feed(b)).collect();
    v.push(fresh());
    v.push(feed(&[0x80]));
    v.push(feed(&[0x0d, 1, 2]));
    v
}
fn ops(kind: usize) -> Vec<Op> {
    match kind {
        0 => huff_ops(),
        1 => huff_few(30),
        2 => huff_few(11),
        3 => proto_ops(),
        4 => parts(),
        _ => parts().into_iter().take(7).collect(),
    }
}

// ------------------------------------------------------------ alone

fn end(x: &mut Obj) -> String {
    // whatever state the object is in shows when well-formed input follows
    [&[0x01u8, 0x08, 0x02, 0x41, 0x42, 0x08, 0x01][..], &[1, 2, 3, 4, 5, 6, 7, 8, 0x08, 1]].iter().map(|b| run(&feed(b), x)).collect::<Vec<_>>().join(" / ")
}
pub fn alone_main(kind: usize, word: &str) {
    let ops = ops(kind);
    let mut x = Obj::default();
    for k in word.split(',').filter(|s| !s.is_empty()) {
        println!("{}", run(&ops[k.parse::<usize>().unwrap()], &mut x));
    }
    if kind >= 3 {
        println!("{}", end(&mut x));
    }
}
fn alone(kind: usize, word: &[usize]) -> Option<Arc<Vec<String>>> {
    type Cache = Mutex<std::collections::HashMap<(usize, Vec<usize>), Option<Arc<Vec<String>>>>>;
    static CACHE: OnceLock<Cache> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let key = (kind, word.to_vec());
    if let Some(v) = cache.lock().unwrap().get(&key) {
        return v.clone();
    }
    let w = word.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let v = std::env::current_exe().ok().and_then(|exe| std::process::Command::new(exe).args(["calls", &kind.to_string(), &w]).env_remove("MC_SLOTS").output().ok());
    let v = v.filter(|o| o.status.success()).map(|o| Arc::new(String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect()));
    cache.lock().unwrap().insert(key, v.clone());
    v
}

// ------------------------------------------------------------ F09: calls

const WHERE: [&str; 4] = ["in the same thread", "the first in a thread of its own that has ended", "the second in a new thread", "both in a new thread"];
/// Every word of `n` calls, each called `times` times, in the threads given.
pub fn call_words(kind: usize, n: usize, times: &'static [usize], threads: usize) -> Work {
    let o = Arc::new(ops(kind));
    let o2 = o.clone();
    let k = o.len() as u64;
    let t = times.len() as u64;
    space(
        format!("all sequences of {} calls of {}{}{}", n, k, if t > 1 { format!(", all but the last up to {} times", times[t as usize - 1]) } else { String::new() }, if threads > 1 { ", in one thread and in several" } else { "" }),
        k.pow(n as u32) * t * threads as u64,
        move |i, cx| {
            let c = coords(i, &[threads as u64, t, k.pow(n as u32)]);
            let w = digits(c[2] as u64, k, n);
            let seen: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
            let go = |from: usize, to: usize| {
                for (j, x) in w[from..to].iter().enumerate() {
                    let last = from + j + 1 == n;
                    for _ in 0..if last { 1 } else { times[c[1]] } {
                        seen.lock().unwrap().push((*x, run(&o[*x], &mut Obj::default())));
                    }
                }
            };
            match c[0] {
                0 => go(0, n),
                1 => {
                    std::thread::scope(|s| drop(s.spawn(|| go(0, n - 1)).join()));
                    go(n - 1, n)
                }
                2 => {
                    go(0, n - 1);
                    std::thread::scope(|s| drop(s.spawn(|| go(n - 1, n)).join()))
                }
                _ => std::thread::scope(|s| drop(s.spawn(|| go(0, n)).join())),
            }
            cx.steps += n as u64;
            for (x, got) in seen.into_inner().unwrap() {
                if let Some(want) = alone(kind, &[x]) {
                    let same = want.len() == 1 && want[0] == got;
                    cx.check("F09", same, || format!("{}: {} after other calls, {:?} as the only call of a process", o[x].0, got, want));
                }
                if cx.failed() {
                    return;
                }
            }
            cx.state(h(&(kind, &w)));
        },
        move |i| {
            let c = coords(i, &[threads as u64, t, k.pow(n as u32)]);
            format!("{}{}, {}", digits(c[2] as u64, k, n).iter().map(|x| o2[*x].0.clone()).collect::<Vec<_>>().join("; then "), if times[c[1]] > 1 { format!(" (earlier ones {} times)", times[c[1]]) } else { String::new() }, WHERE[c[0]])
        },
    )
}

/// Every word of `n` calls whose inputs and outputs are always at the same places in memory.
pub fn same_buffers(kind: usize, n: usize) -> Work {
    let o = Arc::new(ops(kind));
    let o2 = o.clone();
    let k = o.len() as u64;
    space(
        format!("all sequences of {} calls of {}, all with the same buffers", n, k),
        k.pow(n as u32),
        move |i, cx| {
            let mut x = Obj { same: true, ..Obj::default() };
            x.buf.reserve(4096);
            x.out.reserve(4096);
            for w in digits(i, k, n) {
                cx.step();
                let got = run(&o[w], &mut x);
                if let Some(want) = alone(kind, &[w]) {
                    let same = want.len() == 1 && want[0] == got;
                    cx.check("F09", same, || format!("{}: {} after other calls with the same buffers, {:?} as the only call of a process", o[w].0, got, want));
                }
                if cx.failed() {
                    return;
                }
            }
            cx.state(h(&i));
        },
        move |i| digits(i, k, n).iter().map(|x| o2[*x].0.clone()).collect::<Vec<_>>().join("; then "),
    )
}

// ------------------------------------------------------------ P12: objects

/// Writers that use the library themselves: every call within every write of every other one.
pub fn within() -> Work {
    let o = Arc::new(ops(3));
    let o2 = o.clone();
    let outer: Vec<usize> = (0..o.len()).filter(|x| o[*x].0.contains("with room for")).collect();
    let u2 = outer.clone();
    let (n, m) = (o.len() as u64, outer.len() as u64);
    space(
        format!("every one of {} calls made by the writer of every one of {} encodings, in its first, second, third or every write", n, m),
        n * m * 4,
        move |i, cx| {
            let c = coords(i, &[m, n, 4]);
            let seen: Arc<Mutex<Vec<String>>> = Default::default();
            let (s, o3, mut k) = (seen.clone(), o.clone(), 0);
            let (call, when) = (c[1], c[2]);
            WITHIN.set(Some(Box::new(move || {
                if k == when || when == 3 {
                    s.lock().unwrap().push(run(&o3[call], &mut Obj::default()));
                }
                k += 1;
            })));
            cx.step();
            let got = run(&o[outer[c[0]]], &mut Obj::default());
            WITHIN.set(None);
            let first = |w: usize| alone(3, &[w]).and_then(|v| v.first().cloned());
            if let Some(want) = first(outer[c[0]]) {
                cx.check("P12", got == want, || format!("the encoding gives {}, {} when its writer makes no calls", got, want));
            }
            if let Some(want) = first(c[1]) {
                for got in seen.lock().unwrap().iter() {
                    cx.check("P12", *got == want, || format!("the call within the writer gives {}, {} otherwise", got, want));
                }
            }
            cx.state(h(&(c, got)));
        },
        move |i| {
            let c = coords(i, &[m, n, 4]);
            format!("{}; in {} write: {}", o2[u2[c[0]]].0, ["the first", "the second", "the third", "every"][c[2]], o2[c[1]].0)
        },
    )
}
/// Decoders that move between threads: every sequence of (thread, decoder, operation).
pub fn moves(m: usize, n: usize, kind: usize) -> Work {
    let o = Arc::new(ops(kind));
    let o2 = o.clone();
    const T: usize = 3;
    let k = (o.len() * m * T) as u64;
    space(
        format!("{} decoders moved between {} threads, {} steps over {} operations", m, T, n, o.len()),
        k.pow(n as u32),
        move |i, cx| {
            let w = digits(i, k, n);
            let lanes: Vec<Lane> = (1..=w.iter().map(|x| x % T).max().unwrap_or(0)).map(|_| Lane::new()).collect();
            let mut x: Vec<Obj> = (0..m).map(|_| Obj::default()).collect();
            let mut words: Vec<Vec<usize>> = vec![vec![]; m];
            let mut seen: Vec<Vec<String>> = vec![vec![]; m];
            for s in w {
                cx.step();
                let (lane, who, what) = (s % T, s / T % m, s / T / m);
                let (a, b) = (&mut x[who], &mut seen[who]);
                on(&lanes, lane, &mut || b.push(run(&o[what], a)));
                words[who].push(what);
            }
            for who in 0..m {
                let (a, b) = (&mut x[who], &mut seen[who]);
                on(&lanes, (i as usize + who) % (lanes.len() + 1), &mut || b.push(end(a)));
            }
            for who in 0..m {
                if let Some(want) = alone(kind, &words[who]) {
                    cx.check("P12", *want == seen[who], || format!("decoder {} behaves differently in one thread:\n    one thread {:?}\n    moved      {:?}", who + 1, want, seen[who]));
                }
                cx.state(h(&seen[who]));
            }
        },
        move |i| digits(i, k, n).iter().map(|x| format!("thread {}: {}: {}", x % T, (b'A' + (x / T % m) as u8) as char, o2[x / T / m].0)).collect::<Vec<_>>().join("; "),
    )
}

/// All interleavings of the operations of `m` objects, `n` steps.
pub fn interleave(m: usize, n: usize, kind: usize) -> Work {
    let o = Arc::new(ops(kind));
    let o2 = o.clone();
    let k = (o.len() * m) as u64;
    space(
        format!("interleavings of {} decoders, {} steps over {} operations", m, n, o.len()),
        k.pow(n as u32),
        move |i, cx| {
            let mut x: Vec<Obj> = (0..m).map(|_| Obj::default()).collect();
            let mut words: Vec<Vec<usize>> = vec![vec![]; m];
            let mut seen: Vec<Vec<String>> = vec![vec![]; m];
            for s in digits(i, k, n) {
                cx.step();
                let (who, what) = (s % m, s / m);
                seen[who].push(run(&o[what], &mut x[who]));
                words[who].push(what);
            }
            for who in 0..m {
                seen[who].push(end(&mut x[who]));
            }
            for who in 0..m {
                if let Some(want) = alone(kind, &words[who]) {
                    cx.check("P12", *want == seen[who], || format!("decoder {} behaves differently when alone:\n    alone       {:?}\n    interleaved {:?}", who + 1, want, seen[who]));
                }
                cx.state(h(&seen[who]));
            }
        },
        move |i| digits(i, k, n).iter().map(|x| format!("{}: {}", (b'A' + (x % m) as u8) as char, o2[x / m].0)).collect::<Vec<_>>().join("; "),
    )
}
/// B does something, then A does (and is dropped, kept or dropped before), then B again.
pub fn influence() -> Work {
    let o = Arc::new(ops(3));
    let o2 = o.clone();
    let n = o.len() as u64;
    // what may come before: nothing, or input that ends within a field
    let before: Vec<Option<usize>> = std::iter::once(None).chain(crate::proto::pending().into_iter().map(Some)).collect();
    let b2 = before.clone();
    let m = before.len() as u64;
    space(
        format!("every pair of {} operations on two objects, the second fresh or within one of {} fields", n, m - 1),
        m * n * n * 2,
        move |i, cx| {
            let c = coords(i, &[m, 2, n, n]);
            let (mut a, mut b) = (Obj::default(), Obj::default());
            let mut seen = vec![];
            let mut word = vec![];
            cx.step();
            for x in before[c[0]] {
                seen.push(run(&o[x], &mut b));
                word.push(x);
            }
            run(&o[c[2]], &mut a);
            if c[1] == 0 {
                drop(a);
            } else {
                end(&mut a);
            }
            seen.push(run(&o[c[3]], &mut b));
            word.push(c[3]);
            seen.push(end(&mut b));
            if let Some(want) = alone(3, &word) {
                cx.check("P12", *want == seen, || format!("the second object behaves differently when alone:\n    alone {:?}\n    here  {:?}", want, seen));
            }
            cx.state(h(&seen));
        },
        move |i| {
            let c = coords(i, &[m, 2, n, n]);
            format!("{}A: {}, {}; B: {}", b2[c[0]].map_or(String::new(), |x| format!("B: {}; ", o2[x].0)), o2[c[2]].0, ["dropped", "kept"][c[1]], o2[c[3]].0)
        },
    )
}
/// Many decoders alive at once, each within a field; then each gets the rest of its own field.
pub fn crowd(pow: u32, volume: u32) -> Work {
    let mut list: Vec<(usize, usize)> = vec![];
    for k in 1..=pow {
        for d in [-1i64, 0, 1] {
            for len in [0usize, 1, 3, 60, 5000, 70_000] {
                let n = ((1i64 << k) + d).max(1) as usize;
                if (n * (len + 300)) >> volume == 0 {
                    list.push((n, len));
                }
            }
        }
    }
    list.sort();
    list.dedup();
    let m = list.len() as u64;
    let l2 = list.clone();
    const BETWEEN: [&str; 4] = ["nothing", "every second dropped", "every second fails", "every second replaced by a fresh one"];
    space(
        format!("decoders alive at once, each within a field: around every power of two up to 2^{}, up to 2^{} octets held", pow, volume),
        m * 4 * 4,
        move |i, cx| {
            let c = coords(i, &[m, 4, 4]);
            let (n, len) = list[c[0]];
            // the field of decoder k, and where it is cut
            let field = |k: usize| {
                let tag = (k % 2000 + 1) as u64;
                let mut b = vec![];
                match c[2] {
                    0 => {
                        crate::pref::varint(tag << 3 | 2, &mut b);
                        crate::pref::varint(len as u64, &mut b);
                        b.extend((0..len).map(|j| (j * 3 + k) as u8));
                    }
                    1 => {
                        crate::pref::varint(tag << 3, &mut b);
                        crate::pref::varint(k as u64 * 1_000_003 + len as u64, &mut b);
                    }
                    2 => {
                        crate::pref::varint(tag << 3 | 1, &mut b);
                        b.extend((k as u64 * 77 + len as u64).to_le_bytes());
                    }
                    _ => {
                        crate::pref::varint(tag << 3 | 5, &mut b);
                        b.extend((k as u32 * 77 + len as u32).to_le_bytes());
                    }
                }
                let cut = (b.len() * (1 + k % 5) / 6).clamp(1, b.len() - 1);
                (tag as u32, b, cut)
            };
            let mut all: Vec<Option<Obj>> = vec![];
            for k in 0..n {
                let (_, b, cut) = field(k);
                let mut x = Obj::default();
                x.buf = b[..cut].to_vec();
                let r = x.dec.decode(&mut x.buf, &mut x.got);
                cx.step();
                cx.check("P12", r.is_ok() && x.got.is_empty(), || format!("decoder {} of {}: first part gives {:?}, {} fields", k, n, r, x.got.len()));
                all.push(Some(x));
                if cx.failed() {
                    return;
                }
            }
            for k in (0..n).step_by(2) {
                match c[1] {
                    1 => all[k] = None,
                    2 => {
                        let _ = pr::Decoder::default().decode(&mut vec![0x0f, 1], &mut vec![]);
                    }
                    3 => {
                        let (_, b, cut) = field(k);
                        let mut x = Obj::default();
                        x.buf = b[..cut].to_vec();
                        let _ = x.dec.decode(&mut x.buf, &mut x.got);
                        all[k] = Some(x);
                    }
                    _ => {}
                }
            }
            for (k, x) in all.iter_mut().enumerate() {
                let Some(x) = x else { continue };
                let (tag, b, cut) = field(k);
                x.buf.extend_from_slice(&b[cut..]);
                let r = x.dec.decode(&mut x.buf, &mut x.got);
                cx.step();
                let content = match c[2] {
                    0 => b[b.len() - len..].to_vec(),
                    1 => {
                        let mut v = vec![];
                        crate::pref::varint(k as u64 * 1_000_003 + len as u64, &mut v);
                        v
                    }
                    2 => b[b.len() - 8..].to_vec(),
                    _ => b[b.len() - 4..].to_vec(),
                };
                let typ = [pr::Typ::LengthDelimited, pr::Typ::Varint, pr::Typ::Bit64, pr::Typ::Bit32][c[2]];
                let ok = r.is_ok() && x.buf.is_empty() && x.got == vec![(tag, typ, content)];
                cx.check("P12", ok, || format!("decoder {} of {}: after the rest of its field {:?}, {} fields, {} octets unread", k, n, r, x.got.len(), x.buf.len()));
                if cx.failed() {
                    return;
                }
            }
            cx.state(h(&(n, len, c[1], c[2])));
        },
        move |i| {
            let c = coords(i, &[m, 4, 4]);
            let (n, len) = l2[c[0]];
            format!("{} decoders, {} of length {}; in between: {}", n, ["octets", "varint", "64 bit", "32 bit"][c[2]], len, BETWEEN[c[1]])
        },
    )
}
/// Very many decoders one after another, dropped within a field, after an error, or idle.
pub fn many_fresh(n: usize) -> Work {
    space(
        format!("{} decoders one after another, left in every state", n),
        4,
        move |i, cx| {
            let states: [&[u8]; 11] = [&[0x12, 255, 255, 255, 255, 255, 255, 255, 255, 127], &[0x12, 255, 255, 255, 127],&[], &[0x08], &[0x80], &[0x12], &[0x12, 5], &[0x12, 5, 1, 2], &[0x0d, 1], &[0x0f, 1], &[0x08, 0xff, 0xff]];
            for k in 0..n {
                let mut x = Obj::default();
                let mut b = vec![0x10, 0xac, 2];
                let r = x.dec.decode(&mut b, &mut x.got);
                cx.step();
                let ok = r == Ok(3) && b.is_empty() && x.got == vec![(2, pr::Typ::Varint, vec![0xac, 2])];
                cx.check("P12", ok, || format!("decoder {}: {:?} {:?} rest {}", k, r, x.got, hex(&b)));
                if cx.failed() {
                    return;
                }
                let s = states[(k * (i as usize + 1)) % states.len()];
                let _ = x.dec.decode(&mut s.to_vec(), &mut x.got);
            }
            cx.state(i);
        },
        move |i| format!("order {}", i),
    )
}
