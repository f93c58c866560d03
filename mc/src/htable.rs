//! Table API sequences (H03, H04, H15) and interleavings of two connections (H16).

use httlib_hpack::{Decoder, Encoder};
use crate::engine::*;
use crate::href::*;
use crate::hsession::*;
use crate::rfc::STATIC;
use httlib_hpack::table::Table;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum T {
    Ins(Val, Val),
    Max(u32),
}
impl T {
    fn show(&self) -> String {
        match self {
            T::Ins(n, v) => format!("insert({}, {})", txt(&n.v()), txt(&v.v())),
            T::Max(n) => format!("update_max_dynamic_size({})", n),
        }
    }
}
const fn s(b: &'static [u8]) -> Val {
    Val::S(b)
}
pub fn alphabet() -> Vec<T> {
    vec![
        T::Ins(s(b"a"), s(b"x")),
        T::Ins(s(b"a"), s(b"y")),
        T::Ins(s(b"b"), s(b"x")),
        T::Ins(s(b""), s(b"")),
        T::Ins(s(b"x"), s(b"a")),
        T::Ins(s(b":method"), s(b"PUT")),
        T::Ins(s(b"accept"), s(b"")),
        T::Ins(s(b"a"), Val::R(b'z', 40)),
        T::Ins(s(b":path"), s(b"")),
        T::Ins(s(b":method"), s(b"GET")),
        T::Ins(s(b"ax"), s(b"")),
        T::Max(0),
        T::Max(33),
        T::Max(34),
        T::Max(68),
        T::Max(102),
        T::Max(4096),
    ]
}
/// For the state-matching search: few entries, many limits.
pub fn small() -> Vec<T> {
    vec![T::Ins(s(b"a"), s(b"x")), T::Ins(s(b"b"), s(b"yy")), T::Ins(s(b""), s(b"")), T::Ins(s(b"c"), Val::R(b'z', 40)), T::Max(0), T::Max(35), T::Max(67), T::Max(69), T::Max(140)]
}
fn queries() -> Vec<(&'static [u8], &'static [u8])> {
    let names: [&[u8]; 12] = [b"a", b"b", b"", b"x", b":method", b"accept", b":path", b"c", b"A", b"aa", b"ax", b":status"];
    let vals: [&[u8]; 10] = [b"x", b"y", b"", b"a", b"PUT", b"GET", b"yy", b"/", b"X", b"200"];
    names.iter().flat_map(|n| vals.iter().map(move |v| (*n, *v))).collect()
}
pub fn make(size: Option<u32>) -> (Table<'static>, RefTable) {
    match size {
        Some(n) => (Table::with_dynamic_size(n), RefTable::new(n as u64)),
        None => (Table::default(), RefTable::new(4096)),
    }
}
pub fn apply(t: &mut Table, r: &mut RefTable, op: &T) {
    match op {
        T::Ins(n, v) => {
            t.insert(n.v(), v.v());
            r.insert((n.v(), v.v()));
        }
        T::Max(n) => {
            t.update_max_dynamic_size(*n);
            r.set_max(*n as u64);
        }
    }
}
pub fn compare(t: &Table, r: &RefTable, cx: &mut Cx, when: &dyn Fn() -> String) {
    cx.step();
    if cx.want("H04") {
        let sum: u64 = (62..62 + t.dynamic_len() as u32 + 1).filter_map(|i| t.get(i)).map(|e| e.0.len() as u64 + e.1.len() as u64 + 32).sum();
        let (n, z, m) = (t.dynamic_len(), t.dynamic_size() as u64, t.max_dynamic_size() as u64);
        cx.check("H04", z == sum, || format!("{}: size {} but the entries add up to {}", when(), z, sum));
        cx.check("H04", z <= m, || format!("{}: size {} exceeds the maximum {}", when(), z, m));
        cx.check("H04", m == r.max, || format!("{}: maximum {} instead of {}", when(), m, r.max));
        cx.check("H04", n == r.e.len(), || format!("{}: {} entries instead of {:?}", when(), n, r.e));
        for (k, e) in r.e.iter().enumerate() {
            let g = t.get(62 + k as u32);
            let ok = g == Some((&e.0[..], &e.1[..]));
            cx.check("H04", ok, || format!("{}: entry {} is {:?} instead of {:?}", when(), 62 + k, g, e));
        }
    }
    if cx.want("H03") || cx.want("H15") {
        // judged against the dynamic part the table itself holds: count from len(), content from the model when equal
        let n = t.len() as u64;
        cx.check("H03", n == 61 + t.dynamic_len() as u64, || format!("{}: len {} but {} dynamic entries", when(), n, t.dynamic_len()));
        cx.check("H03", t.get(0).is_none(), || format!("{}: index 0 resolves to {:?}", when(), t.get(0)));
        for i in [n + 1, n + 2, n + 61, n + 62, 256 + 1, 65_536 + 1, (1 << 31) + 1, u32::MAX as u64 - 60, u32::MAX as u64 - 1, u32::MAX as u64] {
            if i > n {
                let g = t.get(i as u32);
                cx.check("H03", g.is_none(), || format!("{}: index {} (of {}) resolves to {:?}", when(), i, n, g));
            }
        }
        for i in 1..=n.min(61 + r.e.len() as u64) {
            let e = r.get(i).unwrap();
            let g = t.get(i as u32);
            let ok = g == Some((&e.0[..], &e.1[..]));
            cx.check(if i <= 61 { "H03 H15" } else { "H03" }, ok, || format!("{}: index {} is {:?} instead of {:?}", when(), i, g, e));
        }
        cx.check("H03", n == r.len(), || format!("{}: len {} instead of {}", when(), n, r.len()));
        let it: Vec<(Vec<u8>, Vec<u8>)> = t.iter().take(n as usize + 70).map(|x| (x.0.to_vec(), x.1.to_vec())).collect();
        let by_get: Vec<(Vec<u8>, Vec<u8>)> = (1..=n as u32).filter_map(|i| t.get(i)).map(|x| (x.0.to_vec(), x.1.to_vec())).collect();
        cx.check("H03", it == by_get, || format!("{}: iteration yields {} entries {:?}.., get yields {}", when(), it.len(), it.get(61..), by_get.len()));
        cx.check("H15", it.len() >= 61 && it.iter().zip(STATIC.iter()).all(|(a, b)| a.0 == b.0.as_bytes() && a.1 == b.1.as_bytes()), || {
            format!("{}: iteration does not start with the static table", when())
        });
        let mut q = queries();
        if cx.want("H15") {
            q.extend(STATIC.iter().map(|x| (x.0.as_bytes(), x.1.as_bytes())));
        }
        for (a, b) in q {
            check_find(t, r, a, b, cx, when);
        }
        // every entry (the ends of long tables), and its name with the value of another one
        let k = r.e.len();
        let some: Vec<usize> = if k <= 24 { (0..k).collect() } else { (0..12).chain(k / 2..k / 2 + 2).chain(k - 12..k).collect() };
        for i in &some {
            check_find(t, r, &r.e[*i].0, &r.e[*i].1, cx, when);
            let j = (*i + 1) % k;
            check_find(t, r, &r.e[*i].0, &r.e[j].1, cx, when);
            if k <= 8 {
                for e in &r.e {
                    check_find(t, r, &r.e[*i].0, &e.1, cx, when);
                    check_find(t, r, &r.e[*i].1, &e.0, cx, when);
                }
            }
        }
    }
}
fn check_find(t: &Table, r: &RefTable, a: &[u8], b: &[u8], cx: &mut Cx, when: &dyn Fn() -> String) {
    let g = t.find(a, b);
    let ok = match g {
        Some((i, true)) => r.is(i as u64, a, b),
        Some((i, false)) => !r.has(a, b) && r.name_is(i as u64, a),
        None => !r.has_name(a),
    };
    cx.check("H03", ok, || format!("{}: find({}, {}) = {:?}, dynamic entries {:?}", when(), txt(a), txt(b), g, r.e));
    if let Some((i @ 1..=61, whole)) = g {
        let e = STATIC[i - 1];
        let ok = e.0.as_bytes() == a && (!whole || e.1.as_bytes() == b);
        cx.check("H15", ok, || format!("{}: find({}, {}) = {:?}, which is ({}, {})", when(), txt(a), txt(b), g, e.0, e.1));
    }
    if STATIC.iter().any(|x| x.0.as_bytes() == a && x.1.as_bytes() == b) {
        cx.check("H15", matches!(g, Some((_, true))), || format!("{}: static header ({}, {}) not found: {:?}", when(), txt(a), txt(b), g));
    }
}

/// Histories of table operations; compared after every operation.
pub fn histories(name: &str, ops: Vec<T>, depth: usize, sizes: Vec<Option<u32>>, reps: usize) -> Vec<Work> {
    let ops = Arc::new(ops);
    let sizes = Arc::new(sizes);
    (1..=depth)
        .map(|d| {
            let (o1, o2, s1, s2) = (ops.clone(), ops.clone(), sizes.clone(), sizes.clone());
            let k = sizes.len() as u64;
            space(
                format!("{} length {}{}", name, d, if reps > 1 { format!(" repeated {} times", reps) } else { String::new() }),
                (ops.len() as u64).pow(d as u32) * k,
                move |i, cx| {
                    let w = digits(i / k, o1.len() as u64, d);
                    let (mut t, mut r) = make(s1[(i % k) as usize]);
                    for rep in 0..reps {
                        for (j, x) in w.iter().enumerate() {
                            apply(&mut t, &mut r, &o1[*x]);
                            cx.state(h(&(&r.e, r.max)));
                            // prefixes of plain histories have been compared as shorter histories
                            if reps > 1 || j + 1 == w.len() {
                                let (s0, w) = (s1[(i % k) as usize], &w);
                                compare(&t, &r, cx, &|| format!("size {:?}: {} (round {}, step {})", s0, w.iter().map(|x| o1[*x].show()).collect::<Vec<_>>().join("; "), rep + 1, j + 1));
                            }
                            if cx.failed() {
                                return;
                            }
                        }
                    }
                },
                move |i| format!("size {:?}: {}", s2[(i % k) as usize], digits(i / k, o2.len() as u64, d).iter().map(|x| o2[*x].show()).collect::<Vec<_>>().join("; ")),
            )
        })
        .collect()
}
struct TableSearch {
    size: Option<u32>,
    ops: Vec<T>,
    depth: usize,
    max: usize,
}
impl Bfs for TableSearch {
    fn name(&self) -> String {
        format!("table search, size {:?}", self.size)
    }
    fn ops(&self) -> usize {
        self.ops.len()
    }
    fn depth(&self) -> usize {
        self.depth
    }
    fn max_states(&self) -> usize {
        self.max
    }
    fn run(&self, path: &[u16], cx: &mut Cx) -> Option<u64> {
        let (mut t, mut r) = make(self.size);
        for k in path {
            apply(&mut t, &mut r, &self.ops[*k as usize]);
        }
        compare(&t, &r, cx, &|| self.show(path));
        let s = h(&(&r.e, r.max));
        cx.state(s);
        Some(s)
    }
    fn show(&self, path: &[u16]) -> String {
        path.iter().map(|k| self.ops[*k as usize].show()).collect::<Vec<_>>().join("; ")
    }
}
pub fn table_search(size: Option<u32>, depth: usize, max: usize) -> Work {
    Work::B(Box::new(TableSearch { size, ops: small(), depth, max }))
}
/// Entry sizes around every limit, alone and after smaller entries.
pub fn size_grid() -> Work {
    let m: Vec<u32> = vec![0, 1, 31, 32, 33, 34, 63, 64, 65, 96, 100, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537, 65_567, 65_568, 1 << 20, 1 << 24, i32::MAX as u32, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    let n = m.len() as u64;
    let m2 = m.clone();
    space(
        "maximum x entry size x fillers x split",
        n * 7 * 5 * 3,
        move |i, cx| {
            let c = coords(i, &[n, 7, 5, 3]);
            let max = m[c[0]];
            let z = match max > 1 << 25 {
                true => [32i64, 33, 100, 4096, 65_535, 65_568, 1 << 20][c[1]],
                false => max as i64 + [-2i64, -1, 0, 1, 2, 33, -33][c[1]],
            };
            if z < 32 {
                return;
            }
            let body = (z - 32) as usize;
            let (a, b) = [(body, 0), (0, body), (body / 2, body - body / 2)][c[3]];
            let (mut t, mut r) = make(Some(max));
            for k in 0..c[2] {
                apply(&mut t, &mut r, &T::Ins(Val::S(b"f"), Val::R(b'0' + k as u8, k * 9)));
            }
            apply(&mut t, &mut r, &T::Ins(Val::R(b'n', a), Val::R(b'v', b)));
            compare(&t, &r, cx, &|| format!("maximum {}, {} fillers, entry of size {}", max, c[2], z));
            apply(&mut t, &mut r, &T::Ins(Val::S(b"g"), Val::S(b"h")));
            compare(&t, &r, cx, &|| format!("maximum {}, {} fillers, entry of size {}, then (g, h)", max, c[2], z));
            cx.state(h(&(r.e.len(), max)));
        },
        move |i| {
            let c = coords(i, &[n, 7, 5, 3]);
            format!("maximum {}, {} fillers, entry size offset {:?}", m2[c[0]], c[2], c[1])
        },
    )
}
/// Entries of every size, in tables of which they are, just are not, or easily are a part.
pub fn every_entry(to: u64) -> Work {
    const PER: u64 = 64;
    space(
        format!("entries of every size up to {} x splits x maxima", to + 32),
        to / PER + 1,
        move |i, cx| {
            for n in i * PER..((i + 1) * PER).min(to + 1) {
                let n = n as usize;
                for (a, b) in [(0, n), (n, 0), (n / 2, n - n / 2)] {
                    for max in [n as u32 + 31, n as u32 + 32, n as u32 + 66, 2 * n as u32 + 300] {
                        let (mut t, mut r) = make(Some(max));
                        apply(&mut t, &mut r, &T::Ins(Val::S(b"f"), Val::S(b"g")));
                        apply(&mut t, &mut r, &T::Ins(Val::R(b'n', a), Val::R(b'v', b)));
                        let one = |t: &Table, r: &RefTable| (t.dynamic_len(), t.dynamic_size() as u64, t.max_dynamic_size() as u64) == (r.len() as usize - 61, r.size(), r.max);
                        let x = one(&t, &r) && t.get(62).map(|x| (x.0.len(), x.1.len())) == r.get(62).map(|x| (x.0.len(), x.1.len()));
                        apply(&mut t, &mut r, &T::Ins(Val::S(b"h"), Val::S(b"i")));
                        let y = one(&t, &r);
                        apply(&mut t, &mut r, &T::Max(40));
                        let z = one(&t, &r) && t.get(62).map(|x| x.0.to_vec()) == r.get(62).map(|x| x.0);
                        apply(&mut t, &mut r, &T::Max(0));
                        let e = one(&t, &r);
                        cx.steps += 4;
                        cx.check("H02 H04", x && y && z && e, || {
                            format!("maximum {}, entry of {} + {} octets between others, then maxima 40 and 0: as expected {} {} {} {}", max, a, b, x, y, z, e)
                        });
                    }
                }
                if cx.failed() {
                    return;
                }
                cx.state(n as u64);
            }
        },
        move |i| format!("entries of {}.. octets", i * PER),
    )
}
/// Long runs: `n` insertions of distinct entries under every maximum of a list, compared at every step or stride.
pub fn long_runs() -> Work {
    let m: Vec<u32> = vec![33, 40, 70, 100, 333, 1000, 4096, 10_000, 70_000];
    let n = m.len() as u64;
    space(
        "long runs of distinct insertions",
        n * 4,
        move |i, cx| {
            let c = coords(i, &[n, 4]);
            let (mut t, mut r) = make(Some(m[c[0]]));
            for k in 0..1500usize {
                let v = Val::R(b'a' + (k % 26) as u8, [k % 3, k % 40, (k * k) % 97, 1][c[1]]);
                let name = Val::R(b'0' + (k % 10) as u8, 1 + k % 5);
                apply(&mut t, &mut r, &T::Ins(name, v));
                if c[1] == 3 && k % 100 == 99 {
                    apply(&mut t, &mut r, &T::Max(m[c[0]] / 2));
                    apply(&mut t, &mut r, &T::Max(m[c[0]]));
                }
                if k % 7 == 0 {
                    compare(&t, &r, cx, &|| format!("maximum {}, insertion {}", m[c[0]], k));
                    if cx.failed() {
                        return;
                    }
                }
                cx.state(h(&(&r.e.len(), r.size(), k)));
            }
        },
        move |i| format!("run {}", i),
    )
}

// ------------------------------------------------------------ two connections

#[derive(Clone, Debug)]
enum C {
    Do(Op),
    Garbage(Vec<u8>),
    Fresh(Option<u32>),
}
fn conn_ops(kind: usize) -> Vec<C> {
    let l = |n: &'static [u8], v: &'static [u8], f| C::Do(Op::Lit(Val::S(n), Val::S(v), f));
    if kind == 2 {
        // tables of the same shape with different contents, and lookups in them
        return vec![
            l(b"a", b"x", 4),
            l(b"b", b"y", 4),
            l(b"a", b"x", 0x10),
            l(b"b", b"y", 0x10),
            l(b"a", b"z", 0x10),
            C::Do(Op::Idx(Ix::A(62))),
            C::Fresh(None),
            C::Do(Op::Upd(0)),
        ];
    }
    if kind == 3 {
        return vec![l(b"a", b"x", 4), l(b"b", b"y", 0x17), l(b"b", b"y", 0x18), C::Do(Op::Idx(Ix::A(62))), C::Garbage(vec![0x40, 0x01]), C::Garbage(vec![0x3f, 0xff])];
    }
    if kind == 4 {
        return vec![l(b"a", b"x", 4), l(b"b", b"y", 4), l(b"b", b"y", 0x10), C::Fresh(Some(34))];
    }
    if kind == 5 {
        // strings rejected at every stage, and strings that use the same machinery
        return vec![
            C::Garbage(vec![0x00, 0x81, 0x18, 0x00]),
            C::Garbage(vec![0x40, 0x01, b'n', 0x83, 0x1f, 0x1f, 0x00]),
            C::Garbage(vec![0x00, 0x85, 0x1f, 0xff, 0xff, 0xff, 0xff, 0x00]),
            C::Garbage(vec![0x40, 0x81, 0x1f, 0x05, b'x']),
            l(b"a", b"x", 7),
            l(b"bb", b"yy", 0),
            l(b"", b"", 7),
        ];
    }
    if kind == 7 {
        // searches, and what makes them stale
        return vec![l(b"a", b"x", 0x14), l(b"b", b"y", 0x14), l(b"a", b"x", 0x10), l(b"a", b"z", 0x10), C::Do(Op::Upd(34)), C::Do(Op::Idx(Ix::A(62)))];
    }
    if kind == 6 {
        let mut v: Vec<C> = crate::hbytes::valid_tokens().into_iter().chain(crate::hbytes::bad_tokens()).filter(|t| t.len() < 300).map(C::Garbage).collect();
        for x in [0x00u8, 0x40, 0x10] {
            for y in [vec![0x81, 0x18, 0x00], vec![0x83, 0x1f, 0x1f, 0x00], vec![0x85, 0x1f, 0xff, 0xff, 0xff, 0xff, 0x00], vec![0x81, 0x1f, 0x81, 0x18], vec![0x01, b'n', 0x83, 0x1f, 0x1f, 0x00], vec![0x81, 0x1f, 0x05, b'x'], vec![0x81, 0x1f, 0x81, 0x1f], vec![0x01, b'n', 0x81, 0x1f]] {
                v.push(C::Garbage([vec![x], y].concat()));
            }
        }
        v.extend(crate::hsession::full().into_iter().filter(|o| matches!(o, Op::Lit(..) | Op::Idx(Ix::A(_)) | Op::Idx(Ix::Past) | Op::Upd(_) | Op::Limit(_))).map(C::Do));
        return v;
    }
    let rich = kind == 1;
    let mut v = vec![
        l(b"a", b"x", 4),
        l(b"bb", b"y", 0x16),
        C::Do(Op::Idx(Ix::A(62))),
        C::Do(Op::Upd(34)),
        C::Garbage(vec![0x40, 0x81, 0xff]),
        C::Fresh(None),
    ];
    if rich {
        v.extend([C::Do(Op::Idx(Ix::Past)), l(b"a", b"x", 0x18), C::Do(Op::Limit(40)), C::Fresh(Some(40)), C::Garbage(vec![0x42, 0x05, b'x']), C::Do(Op::Upd(4096))]);
    }
    v
}
/// Everything the connection shows to the outside, step by step.
struct Conn {
    r: Run,
    seen: Vec<String>,
}
impl Conn {
    fn new(size: Option<u32>) -> Conn {
        Conn { r: Run::new(Cfg { size, direct: false, mode: Mode::PerOp }), seen: vec![] }
    }
    fn step(&mut self, c: &C) {
        match c {
            C::Fresh(n) => {
                self.r = Run::new(Cfg { size: *n, direct: false, mode: Mode::PerOp });
                self.seen.push("fresh".into());
            }
            C::Garbage(b) => {
                let mut buf = b.clone();
                let mut o = vec![];
                let res = self.r.dec.decode(&mut buf, &mut o);
                self.seen.push(format!("{:?} {:?} {:?}", res, o, buf));
            }
            C::Do(Op::Limit(n)) => self.r.dec.set_max_dynamic_size(*n),
            C::Do(op) => {
                let mut out = vec![];
                let e = &mut self.r.enc;
                let n = count_enc(e, 500) as u32;
                let res = match op {
                    Op::Lit(a, b, f) => e.encode((a.v(), b.v(), *f), &mut out),
                    Op::Idx(Ix::Past) => e.encode(62 + n, &mut out),
                    Op::Idx(Ix::A(i)) => e.encode(*i, &mut out),
                    Op::Upd(n) => e.update_max_dynamic_size(*n, &mut out),
                    _ => unreachable!(),
                };
                let mut buf = out.clone();
                let mut o = vec![];
                let d = self.r.dec.decode(&mut buf, &mut o);
                self.seen.push(format!("{:?} {} {:?} {:?} {:?}", res, hex(&out), d, o, buf));
            }
        }
    }
    fn end(&mut self) {
        let t = probe_dec(&mut self.r.dec, 500);
        let n = count_enc(&self.r.enc, 500);
        self.seen.push(format!("decoder table {:?}, encoder entries {}, limits {} {}", t, n, self.r.dec.max_dynamic_size(), self.r.enc.max_dynamic_size()));
    }
}
fn alone(ops: &[C]) -> Vec<String> {
    let mut c = Conn::new(None);
    for o in ops {
        c.step(o);
    }
    c.end();
    c.seen
}
/// What a connection shows when it is the only one there has ever been: computed in a process of its own.
pub fn alone_process(word: &str, rich: usize) -> Option<Arc<Vec<String>>> {
    type Cache = std::sync::Mutex<std::collections::HashMap<String, Option<Arc<Vec<String>>>>>;
    static CACHE: std::sync::OnceLock<Cache> = std::sync::OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let key = format!("{} {}", word, rich);
    if let Some(v) = cache.lock().unwrap().get(&key) {
        return v.clone();
    }
    let v = spawn_alone(word, rich).map(Arc::new);
    cache.lock().unwrap().insert(key, v.clone());
    v
}
fn spawn_alone(word: &str, rich: usize) -> Option<Vec<String>> {
    let exe = std::env::current_exe().ok()?;
    let out = std::process::Command::new(exe).args(["alone", word, &rich.to_string()]).env_remove("MC_SLOTS").output().ok()?;
    if !out.status.success() {
        return None;
    }
    Some(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect())
}
pub fn alone_main(word: &str, rich: usize) {
    let ops = conn_ops(rich);
    let w: Vec<C> = word.split(',').filter(|s| !s.is_empty()).map(|s| ops[s.parse::<usize>().unwrap()].clone()).collect();
    for l in alone(&w) {
        println!("{}", l);
    }
}
/// All interleavings of `m` connections: every sequence of (connection, operation) of length `n`.
pub fn interleave(m: usize, n: usize, kind: usize) -> Work {
    let ops = Arc::new(conn_ops(kind));
    let o2 = ops.clone();
    let k = (ops.len() * m) as u64;
    space(
        format!("interleavings of {} connections, {} steps over {} operations each (set {})", m, n, ops.len(), kind),
        k.pow(n as u32),
        move |i, cx| {
            let w = digits(i, k, n);
            let mut c: Vec<Conn> = (0..m).map(|_| Conn::new(None)).collect();
            let mut words: Vec<Vec<usize>> = vec![vec![]; m];
            for x in &w {
                cx.step();
                let (who, what) = (x % m, x / m);
                c[who].step(&ops[what]);
                words[who].push(what);
            }
            for x in c.iter_mut() {
                x.end();
            }
            for who in 0..m {
                let word = words[who].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                match alone_process(&word, kind) {
                    Some(p) => {
                        let same = *p == c[who].seen;
                        cx.check("H16", same, || format!("connection {} behaves differently when alone:\n    alone       {:?}\n    interleaved {:?}", who + 1, p, c[who].seen));
                    }
                    None => {}
                }
                cx.state(h(&c[who].seen));
            }
        },
        move |i| {
            digits(i, k, n).iter().map(|x| format!("{}: {}", (b'A' + (x % m) as u8) as char, match &o2[x / m] {
                C::Do(o) => o.show(),
                C::Garbage(b) => format!("decode {}", hex(b)),
                C::Fresh(s) => format!("dropped and replaced by a fresh one ({:?})", s),
            })).collect::<Vec<_>>().join("; ")
        },
    )
}
/// Connections that move between threads: every sequence of (thread, connection, operation).
pub fn moves(m: usize, n: usize, kind: usize, t: usize) -> Work {
    let ops = Arc::new(conn_ops(kind));
    let o2 = ops.clone();
    let k = (ops.len() * m * t) as u64;
    space(
        format!("{} connections moved between {} threads, {} steps over {} operations each (set {})", m, t, n, ops.len(), kind),
        k.pow(n as u32),
        move |i, cx| {
            let w = digits(i, k, n);
            let lanes: Vec<Lane> = (1..=w.iter().map(|x| x % t).max().unwrap_or(0)).map(|_| Lane::new()).collect();
            let mut c: Vec<Conn> = (0..m).map(|_| Conn::new(None)).collect();
            let mut words: Vec<Vec<usize>> = vec![vec![]; m];
            for x in &w {
                cx.step();
                let (lane, who, what) = (x % t, x / t % m, x / t / m);
                let y = &mut c[who];
                on(&lanes, lane, &mut || y.step(&ops[what]));
                words[who].push(what);
            }
            for (who, y) in c.iter_mut().enumerate() {
                on(&lanes, (i as usize + who) % (lanes.len() + 1), &mut || y.end());
            }
            for who in 0..m {
                let word = words[who].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                if let Some(p) = alone_process(&word, kind) {
                    let same = *p == c[who].seen;
                    cx.check("H16", same, || format!("connection {} behaves differently in one thread:\n    one thread {:?}\n    moved      {:?}", who + 1, p, c[who].seen));
                }
                cx.state(h(&c[who].seen));
            }
        },
        move |i| {
            digits(i, k, n).iter().map(|x| format!("thread {}: {}: {}", x % t, (b'A' + (x / t % m) as u8) as char, match &o2[x / t / m] {
                C::Do(o) => o.show(),
                C::Garbage(b) => format!("decode {}", hex(b)),
                C::Fresh(s) => format!("dropped and replaced by a fresh one ({:?})", s),
            })).collect::<Vec<_>>().join("; ")
        },
    )
}

/// Tables of `n` entries with distinct names: search for every entry and every name.
pub fn find_all(n: usize, step: usize) -> Work {
    space(
        format!("search for every {} entry of tables with {} entries", step, n),
        3 * ((n + step - 1) / step) as u64,
        move |i, cx| {
            let shape = i % 3;
            let at = (i / 3) as usize * step;
            let (mut t, mut r) = make(Some(1 << 26));
            for k in 0..n {
                let (a, b) = match shape {
                    0 => (format!("n{}", k).into_bytes(), vec![]),
                    1 => (b"same".to_vec(), k.to_string().into_bytes()),
                    _ => (STATIC[k % 61].0.as_bytes().to_vec(), format!("v{}", k).into_bytes()),
                };
                t.insert(a.clone(), b.clone());
                r.e.push_front((a, b));
            }
            cx.step();
            let when = || format!("{} entries, shape {}", n, shape);
            let x = r.e[at].clone();
            let i = 62 + at as u32;
            let g = t.get(i);
            cx.check("H03 H04", g == Some((&x.0[..], &x.1[..])), || format!("{}: index {} is {:?} instead of {:?}", when(), i, g, x));
            check_find(&t, &r, &x.0, &x.1, cx, &when);
            check_find(&t, &r, &x.0, b"no such value", cx, &when);
            check_find(&t, &r, b"no such name", &x.1, cx, &when);
            let past = t.get(62 + n as u32);
            cx.check("H03", past.is_none(), || format!("{}: index {} is {:?}", when(), 62 + n, past));
            cx.state(h(&(n, i)));
        },
        move |i| format!("{} entries, shape {}, position {}", n, i % 3, i / 3 * step as u64),
    )
}

/// Tables with one entry, then with two: searches for headers which differ from an entry at one place or two.
pub fn apart(deep: bool) -> Work {
    use crate::hsweep::{apart_lens, apart_texts, APART_KINDS};
    let lens = apart_lens(deep);
    let n = lens.len() as u64;
    let l2 = lens.clone();
    space(
        "searches for headers that differ from an entry at one place or two",
        n * 9 * 2,
        move |i, cx| {
            let c = coords(i, &[n, 9, 2]);
            let (base, others) = apart_texts(lens[c[0]], c[1]);
            let mk = |x: &[u8]| if c[2] == 0 { (x.to_vec(), b"w".to_vec()) } else { (b"w".to_vec(), x.to_vec()) };
            let (mut t, mut r) = make(Some(1 << 20));
            apply(&mut t, &mut r, &T::Ins(Val::V(mk(&base).0), Val::V(mk(&base).1)));
            let when = || format!("{} of {} octets, {}", ["name", "value"][c[2]], base.len(), APART_KINDS[c[1]]);
            for (k, x) in others.iter().enumerate() {
                let x = mk(x);
                cx.step();
                check_find(&t, &r, &x.0, &x.1, cx, &when);
                if k % 50 == 0 {
                    let (mut t, mut r) = make(Some(1 << 20));
                    apply(&mut t, &mut r, &T::Ins(Val::V(mk(&base).0), Val::V(mk(&base).1)));
                    apply(&mut t, &mut r, &T::Ins(Val::V(x.0.clone()), Val::V(x.1.clone())));
                    check_find(&t, &r, &x.0, &x.1, cx, &when);
                    check_find(&t, &r, &mk(&base).0, &mk(&base).1, cx, &when);
                }
                if cx.failed() {
                    return;
                }
            }
            cx.state(i);
        },
        move |i| {
            let c = coords(i, &[n, 9, 2]);
            format!("{} of {} octets, {}", ["name", "value"][c[2]], l2[c[0]], APART_KINDS[c[1]])
        },
    )
}
/// A table of very many headers, no two alike, every one of them searched (a short fingerprint cannot tell them all apart).
pub fn search_all(n: u64, per: u64) -> Work {
    use crate::hsweep::{distinct, word};
    let m = n.div_ceil(per);
    blocks(
        format!("every search in tables of {} headers, no two alike", n),
        4 * m,
        per,
        move |i, cx| {
            let kind = (i / m) as usize;
            let mut t = Table::with_dynamic_size(1 << 30);
            for k in 1..=n {
                let x = distinct(kind, k);
                t.insert(x.0, x.1);
            }
            for k in i % m * per + 1..=n.min((i % m + 1) * per) {
                cx.step();
                let x = distinct(kind, k);
                let g = t.find(&x.0, &x.1);
                let s = STATIC.iter().position(|e| e.0.as_bytes() == x.0 && e.1.as_bytes() == x.1);
                let ok = g == Some((62 + (n - k) as usize, true)) || s.is_some_and(|s| g == Some((s + 1, true)));
                cx.check("H03", ok, || format!("{} is found at {:?}, not at {}", txt(&x.0), g, 62 + n - k));
                if cx.failed() {
                    return;
                }
            }
            let g = t.find(b"n", &word(n + 1 + i % m));
            cx.check("H03", kind == 0 || g.is_none_or(|x| !x.1), || format!("an absent header is found at {:?}", g));
            cx.state(i);
        },
        move |i| format!("kind {}, headers from {}", i / m, i % m * per + 1),
    )
}
/// Two entries out of 64 alike headers, then a search for every one of them; and single entries with odd contents.
/// Searches for the static entries with name or value changed a little, in empty tables and beside such entries.
pub fn near_misses() -> Work {
    let h = crate::hsweep::near_static();
    let n = h.len() as u64;
    let h2 = h.clone();
    space(
        "searches for static entries with name or value changed a little",
        n * 2,
        move |i, cx| {
            let (mut tb, mut r) = make(None);
            let x = &h[(i / 2) as usize];
            if i % 2 == 1 {
                tb.insert(x.0.clone(), x.1.clone());
                r.insert(x.clone());
            }
            let when = || format!("entries {:?}", r.e);
            check_find(&tb, &r, &x.0, &x.1, cx, &when);
            check_find(&tb, &r, &x.0, b"", cx, &when);
            check_find(&tb, &r, b"", &x.1, cx, &when);
            check_find(&tb, &r, &x.1, &x.0, cx, &when);
            cx.state(i);
        },
        move |i| format!("({}, {}){}", txt(&h2[(i / 2) as usize].0), txt(&h2[(i / 2) as usize].1), if i % 2 == 1 { " as an entry" } else { "" }),
    )
}
pub fn confusable() -> Work {
    let h = crate::hsweep::alike();
    let t = crate::hsweep::tricky();
    let (n, m) = (h.len() as u64, t.len() as u64);
    let show = move |i: u64, h: &[Hdr], t: &[Vec<u8>]| -> Vec<Hdr> {
        if i < n * n {
            vec![h[(i / n) as usize].clone(), h[(i % n) as usize].clone()]
        } else {
            let (k, r) = ((i - n * n) / 3, (i - n * n) % 3);
            let x = t[k as usize].clone();
            vec![[(x.clone(), b"v".to_vec()), (b"n".to_vec(), x.clone()), (x.clone(), x.clone())][r as usize].clone()]
        }
    };
    let (h2, t2) = (h.clone(), t.clone());
    space(
        "tables of two alike headers or one odd header, then every alike and related header searched",
        n * n + m * 3,
        move |i, cx| {
            let (mut tb, mut r) = make(None);
            let e = show(i, &h, &t);
            for x in &e {
                tb.insert(x.0.clone(), x.1.clone());
                r.insert(x.clone());
            }
            let when = || format!("entries {:?}", e);
            if i < n * n {
                for q in &h {
                    check_find(&tb, &r, &q.0, &q.1, cx, &when);
                }
            } else {
                compare(&tb, &r, cx, &when);
                let x = &e[0];
                let near = |a: &[u8]| -> Vec<Vec<u8>> {
                    let mut v = vec![a.to_vec(), a.to_ascii_uppercase(), a.to_ascii_lowercase(), [a, b" "].concat(), [b" ", a].concat(), [a, b"\0"].concat(), [a, a].concat()];
                    if !a.is_empty() {
                        v.push(a[1..].to_vec());
                        v.push(a[..a.len() - 1].to_vec());
                    }
                    v
                };
                for a in near(&x.0) {
                    for b in near(&x.1) {
                        check_find(&tb, &r, &a, &b, cx, &when);
                    }
                }
            }
            cx.state(h_of(&r));
        },
        move |i| format!("entries {:?}", show(i, &h2, &t2)),
    )
}
fn h_of(r: &RefTable) -> u64 {
    h(&(&r.e, r.max))
}
/// Very many connections one after another (and many at once): each starts afresh.
pub fn many_fresh(n: usize) -> Work {
    space(
        format!("{} connections created one after another, kept, dropped or failed", n),
        4,
        move |i, cx| {
            let mut keep = vec![];
            for k in 0..n {
                let mut c = Conn::new(if k % 5 == 4 { Some(64) } else { None });
                let mut out = vec![];
                let past = c.r.enc.encode(62u32, &mut out);
                let mut o = vec![];
                let dpast = c.r.dec.decode(&mut vec![0xbe], &mut o);
                cx.check("H16", past.is_err() && dpast.is_err() && o.is_empty() && out.is_empty(), || format!("connection {}: index 62 of a fresh connection gives {:?} {:?}", k, past, dpast));
                let v = k.to_string().into_bytes();
                let r = c.r.enc.encode((b"n".to_vec(), v.clone(), 4u8), &mut out);
                let r2 = c.r.dec.decode(&mut out, &mut o);
                let mut out2 = vec![];
                let r3 = c.r.enc.encode((b"n".to_vec(), v.clone(), 0x10u8), &mut out2);
                let want = (b"n".to_vec(), v, 4u8);
                cx.step();
                cx.check("H16", r.is_ok() && r2.is_ok() && r3.is_ok() && o == vec![want.clone()] && out2 == [0xbe], || format!("connection {}: {:?} {:?} {:?} [{}] {}", k, r, r2, r3, fields(&o), hex(&out2)));
                let m = (c.r.enc.max_dynamic_size(), c.r.dec.max_dynamic_size());
                cx.check("H16", m == if k % 5 == 4 { (64, 64) } else { (4096, 4096) }, || format!("connection {}: sizes {:?}", k, m));
                if i & 1 == 1 && k % 16 == 0 {
                    keep.push((c, want));
                } else if i & 2 == 2 {
                    let _ = c.r.dec.decode(&mut vec![0x80], &mut o);
                    let _ = c.r.enc.update_max_dynamic_size(0, &mut out);
                }
                if cx.failed() {
                    return;
                }
            }
            for (k, (mut c, want)) in keep.into_iter().enumerate() {
                let e = probe_dec(&mut c.r.dec, 10);
                let n = count_enc(&c.r.enc, 10);
                cx.check("H16", e == Ok(vec![(want.0, want.1)]) && n == 1, || format!("kept connection {}: {:?} {}", k, e, n));
            }
            cx.state(i);
        },
        move |i| format!("kept {}, failed {}", i & 1, i >> 1),
    )
}
/// Iterators driven by every word of `n` calls that advance them, then used up in one of several ways; a list is the oracle.
pub fn iterations(n: usize) -> Work {
    const STEPS: [usize; 9] = [0, 0, 1, 2, 7, 60, 61, 200, 1 << 32];
    const ENDS: usize = 11;
    let sizes: [usize; 5] = [0, 1, 3, 40, 300];
    let k = STEPS.len() as u64;
    let show = move |i: u64| {
        let c = coords(i, &[sizes.len() as u64, ENDS as u64, k.pow(n as u32)]);
        let w: Vec<String> = digits(c[2] as u64, k, n).iter().enumerate().map(|(_, x)| if *x == 0 { "next".into() } else { format!("nth({})", STEPS[*x]) }).collect();
        format!("{} dynamic entries: {}, then ending {}", sizes[c[0]], w.join(", "), c[1])
    };
    space(
        format!("iterators advanced by every word of {} calls of next and nth, then used up in {} ways", n, ENDS),
        sizes.len() as u64 * ENDS as u64 * k.pow(n as u32),
        move |i, cx| {
            let c = coords(i, &[sizes.len() as u64, ENDS as u64, k.pow(n as u32)]);
            let (mut t, mut r) = make(Some(1 << 20));
            for j in 0..sizes[c[0]] {
                apply(&mut t, &mut r, &T::Ins(Val::R(b'a' + (j % 26) as u8, j % 5), Val::R(b'0', j / 26)));
            }
            let all: Vec<Hdr> = (1..=r.len()).map(|j| r.get(j).unwrap()).collect();
            let mut a = t.iter();
            let mut b = all.iter();
            let own = |x: Option<(&[u8], &[u8])>| x.map(|x| (x.0.to_vec(), x.1.to_vec()));
            for x in digits(c[2] as u64, k, n) {
                cx.step();
                let (x, y) = if x == 0 { (a.next(), b.next()) } else { (a.nth(STEPS[x]), b.nth(STEPS[x])) };
                let same = own(x) == y.cloned();
                cx.check("H03", same, || format!("{}: yields {:?} instead of {:?}", show(i), x, y));
                if cx.failed() {
                    return;
                }
            }
            let v = |it: Vec<(&[u8], &[u8])>| -> Vec<Hdr> { it.into_iter().map(|x| (x.0.to_vec(), x.1.to_vec())).collect() };
            let left = b.len();
            let cap = all.len() + 70;
            let (x, y): (Vec<Hdr>, Vec<Hdr>) = match c[1] {
                0 => (v(a.take(cap).collect()), b.cloned().collect()),
                1 => {
                    let (lo, hi) = a.size_hint();
                    cx.check("H03", lo <= left && hi.map_or(true, |h| h >= left), || format!("{}: size hint {:?} with {} entries left", show(i), (lo, hi), left));
                    (v(a.skip(2).take(cap).collect()), b.skip(2).cloned().collect())
                }
                2 => (v(a.step_by(3).take(cap).collect()), b.step_by(3).cloned().collect()),
                3 => {
                    let n = a.count();
                    cx.check("H03", n == left, || format!("{}: {} entries counted, {} left", show(i), n, left));
                    (vec![], vec![])
                }
                4 => (own(a.last()).into_iter().collect(), b.last().cloned().into_iter().collect()),
                5 => {
                    let mut a2 = a;
                    let first: Vec<_> = a2.by_ref().take(2).collect();
                    let again: Vec<_> = a.take(2).collect(); // the copy is on its own
                    cx.check("H03", first == again, || format!("{}: a copy yields {:?} instead of {:?}", show(i), again, first));
                    (v(a2.take(cap).collect()), b.skip(2).cloned().collect())
                }
                6 => {
                    let mut p = a.peekable();
                    let mut o = vec![];
                    while p.peek().is_some() && o.len() < cap {
                        o.push(p.next().unwrap());
                    }
                    (v(o), b.cloned().collect())
                }
                7 => {
                    let mut o = vec![];
                    a.for_each(|x| o.push(x));
                    (v(o), b.cloned().collect())
                }
                8 => {
                    let mut a = a;
                    let p = a.position(|x| x.0 == b"via");
                    let q = b.position(|x| x.0 == b"via");
                    cx.check("H03", p == q, || format!("{}: \"via\" after {:?} entries, expected {:?}", show(i), p, q));
                    (vec![], vec![])
                }
                9 => {
                    let mut a = a;
                    let mut o = vec![];
                    while let Some(x) = a.next() {
                        o.push(x);
                        if o.len() > cap {
                            break;
                        }
                    }
                    for _ in 0..3 {
                        let x = a.next();
                        cx.check("H03", x.is_none(), || format!("{}: an exhausted iterator yields {:?}", show(i), x));
                    }
                    (v(o), b.cloned().collect())
                }
                _ => (v(a.zip(1..cap).filter(|x| x.1 % 2 == 0).map(|x| x.0).collect()), b.zip(1..cap).filter(|x| x.1 % 2 == 0).map(|x| x.0.clone()).collect()),
            };
            cx.check("H03", x == y, || {
                let d = x.iter().zip(y.iter()).position(|(a, b)| a != b);
                format!("{}: yields {} entries instead of {}, first difference at {:?}", show(i), x.len(), y.len(), d)
            });
            cx.state(h(&(c[0], c[1], left)));
        },
        show,
    )
}
/// One thing of every kind happens to one connection, then one of every kind to another one.
pub fn influence() -> Work {
    let n = conn_ops(6).len() as u64;
    let ops = Arc::new(conn_ops(6));
    let o2 = ops.clone();
    space(
        format!("every pair of {} operations and inputs, one on each of two connections, the first dropped or kept", n),
        n * n * 2,
        move |i, cx| {
            let c = coords(i, &[2, n, n]);
            let mut a = Conn::new(None);
            let mut b = Conn::new(None);
            cx.step();
            a.step(&ops[c[1]]);
            if c[0] == 0 {
                drop(a);
            } else {
                a.end();
            }
            b.step(&ops[c[2]]);
            b.end();
            if let Some(p) = alone_process(&c[2].to_string(), 6) {
                let same = *p == b.seen;
                cx.check("H16", same, || format!("the second connection behaves differently when alone:\n    alone {:?}\n    after {:?}", p, b.seen));
            }
            cx.state(h(&b.seen));
        },
        move |i| {
            let c = coords(i, &[2, n, n]);
            let s = |x: &C| match x {
                C::Do(o) => o.show(),
                C::Garbage(b) => format!("decode {}", hex(b)),
                C::Fresh(s) => format!("fresh ({:?})", s),
            };
            format!("A: {}; B: {}", s(&o2[c[1]]), s(&o2[c[2]]))
        },
    )
}
/// Many connections alive at once, filled, then each looked at again (some dropped, shrunk or failed in between).
pub fn crowd(pow: u32, volume: u32) -> Work {
    // (number alive, entries each, octets per value, table size)
    let mut list: Vec<(usize, usize, usize, u32)> = vec![];
    for k in 1..=pow {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d).max(1) as usize;
            for (e, v, s) in [(0usize, 0usize, 4096u32), (1, 1, 4096), (3, 1000, 4096), (100, 8, 8192), (2, 40_000, 100_000)] {
                if (n * (e * (v + 100) + 200)) >> volume == 0 {
                    list.push((n, e, v, s));
                }
            }
        }
    }
    list.sort();
    list.dedup();
    let m = list.len() as u64;
    let l2 = list.clone();
    const BETWEEN: [&str; 5] = ["nothing", "every second dropped", "every second shrunk to nothing", "every second fails", "every second replaced"];
    space(
        format!("connections alive at once: around every power of two up to 2^{}, up to 2^{} octets held", pow, volume),
        m * 5,
        move |i, cx| {
            let c = coords(i, &[m, 5]);
            let (n, e, v, s) = list[c[0]];
            let want = |k: usize| -> Vec<Hdr> { (0..e).rev().map(|j| (format!("{}-{}", k, j).into_bytes(), vec![b'v'; v])).collect() };
            let make = |k: usize, cx: &mut Cx| {
                let (mut enc, mut dec) = (Encoder::with_dynamic_size(s), Decoder::with_dynamic_size(s));
                let mut o = vec![];
                for (a, b) in want(k).into_iter().rev() {
                    let mut out = vec![];
                    cx.step();
                    let r = enc.encode((a, b, 4u8), &mut out);
                    let d = dec.decode(&mut out, &mut o);
                    cx.check("H16", r.is_ok() && d.is_ok(), || format!("connection {}: {:?} {:?}", k, r, d));
                }
                cx.check("H16", o.len() == e, || format!("connection {}: {} of {} fields come back", k, o.len(), e));
                (enc, dec)
            };
            let mut all: Vec<Option<(Encoder, Decoder)>> = vec![];
            for k in 0..n {
                all.push(Some(make(k, cx)));
                if cx.failed() {
                    return;
                }
            }
            for k in (0..n).step_by(2) {
                let mut o = vec![];
                match (c[1], &mut all[k]) {
                    (1, x) => *x = None,
                    (2, Some((e, d))) => {
                        let _ = e.update_max_dynamic_size(0, &mut o);
                        let _ = d.decode(&mut o, &mut vec![]);
                    }
                    (3, Some((e, d))) => {
                        let _ = e.encode(9999u32, &mut o);
                        let _ = d.decode(&mut vec![0x80], &mut vec![]);
                    }
                    (4, x) => *x = Some(make(k + n, cx)),
                    _ => {}
                }
            }
            for (k, x) in all.iter_mut().enumerate() {
                let Some((enc, dec)) = x else { continue };
                let want = match (c[1], k % 2) {
                    (2, 0) => vec![],
                    (4, 0) => want(k + n),
                    _ => want(k),
                };
                cx.step();
                let got = probe_dec(dec, 5000);
                let m = count_enc(enc, 5000);
                let ok = got.as_ref().is_ok_and(|g| *g == want) && m == want.len() as u64;
                cx.check("H16", ok, || format!("connection {} of {}: decoder holds {:?} entries, encoder {}, expected {}", k, n, got.map(|g| g.len()), m, want.len()));
                if let Some((a, b)) = want.last() {
                    let i = best_index(enc, a, b);
                    cx.check("H16", i == 61 + want.len() as u64, || format!("connection {} of {}: its oldest entry is found at {}", k, n, i));
                }
                if cx.failed() {
                    return;
                }
            }
            cx.state(h(&(n, e, v, c[1])));
        },
        move |i| {
            let c = coords(i, &[m, 5]);
            let (n, e, v, s) = l2[c[0]];
            format!("{} connections with tables of {} holding {} entries with values of {} octets; in between: {}", n, s, e, v, BETWEEN[c[1]])
        },
    )
}
