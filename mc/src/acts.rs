//! The calls that sched.rs lets race.

use crate::sched::{act, families, long, Act};
use httlib_hpack as hp;
use httlib_huffman as hf;
use httlib_protos as pr;
use std::sync::{Arc, OnceLock};

/// A racing call on owned objects: state, call, digest.
fn on<S: 'static, R: 'static>(
    name: impl Into<String>,
    make: impl Fn() -> S + Send + Sync + 'static,
    call: impl Fn(&mut S) -> R + Send + Sync + 'static,
    after: impl Fn(&mut S, R) -> String + Send + Sync + 'static,
) -> Act {
    let (call, after) = (Arc::new(call), Arc::new(after));
    act(name, move || {
        let mut s = make();
        let mut r = None;
        let (call, after) = (call.clone(), after.clone());
        Box::new(move |end| {
            if !end {
                r = Some(call(&mut s));
                return vec![];
            }
            match r.take() {
                Some(r) => after(&mut s, r).into_bytes(),
                None => b"no result".to_vec(),
            }
        })
    })
}

// ------------------------------------------------------------ Huffman

pub fn huffman() -> Arc<Vec<Act>> {
    use hf::DecoderSpeed::*;
    let enc = |t: &'static [u8]| on(format!("encode {} octets {:02x?}", t.len(), &t[..t.len().min(10)]), Vec::new, move |d: &mut Vec<u8>| hf::encode(t, d), |d, r| format!("{:?} {:?}", r, d));
    let dec = |t: &'static [u8], s: fn() -> hf::DecoderSpeed, n: &str| {
        on(
            format!("decode {} octets {:02x?} by {}", t.len(), &t[..t.len().min(10)], n),
            || Vec::with_capacity(8),
            move |d: &mut Vec<u8>| hf::decode(t, d, s()),
            move |d, r| {
                let mut e = vec![];
                let q = hf::decode(t, &mut e, s());
                format!("{:?} {:?} then {:?} {:?}", r, d, q, e)
            },
        )
    };
    // a, b; 08; EOS and padding
    let five = |s: fn() -> hf::DecoderSpeed, n: &str, more: Option<&'static [u8]>| {
        let mut v = vec![dec(&[0x1f], s, n), dec(&[0x8f], s, n), dec(&[0x18], s, n)];
        v.extend(more.map(|t| dec(t, s, n)));
        v
    };
    families(vec![
        (true, vec![enc(b"a"), enc(b"\xff"), enc(b"xy"), enc(b"0123456789")]),
        (false, five(|| OneBit, "1", None)),
        (false, five(|| TwoBits, "2", None)),
        (false, five(|| ThreeBits, "3", Some(&[0x07, 0x7f]))),
        (true, five(|| FourBits, "4", Some(&[0xff, 0xcf]))),
        (true, five(|| FiveBits, "5", Some(&[0x97, 0x7f]))),
        // what takes another way when it is long
        long(vec![enc(&TEXTS[0][..40]), enc(&TEXTS[1][..36])]),
        long(vec![enc(&TEXTS[0][..140]), enc(&TEXTS[1][..135])]),
        long(vec![enc(&TEXTS[0]), enc(&TEXTS[1])]),
        long(vec![dec(&CODES[0][..40], || FourBits, "4"), dec(&CODES[1][..35], || FourBits, "4")]),
        long(vec![dec(&CODES[0][..280], || FourBits, "4"), dec(&CODES[1][..275], || FourBits, "4")]),
        long(vec![dec(&CODES[0][..70], || FiveBits, "5"), dec(&CODES[1][..75], || ThreeBits, "3")]),
        long(vec![dec(&CODES[0][..130], || OneBit, "1"), dec(&CODES[1][..135], || OneBit, "1")]),
    ])
}
static TEXTS: [[u8; 530]; 2] = [texts(b'0', 7), texts(b'a', 11)];
const fn texts(from: u8, step: usize) -> [u8; 530] {
    let mut t = [0; 530];
    let mut k = 0;
    while k < 530 {
        t[k] = from + (k * step % 10) as u8;
        k += 1;
    }
    t
}
/// Codes of five bits, eight in five octets ("aceiost0" and others), of which any number of octets ends well at a fifth.
static CODES: [[u8; 280]; 2] = [codes([0x19, 0x0a, 0x63, 0xa1, 0x20]), codes([0x4a, 0x0e, 0x62, 0x90, 0x62])];
const fn codes(five: [u8; 5]) -> [u8; 280] {
    let mut t = [0; 280];
    let mut k = 0;
    while k < 280 {
        t[k] = five[k % 5];
        k += 1;
    }
    t
}
/// The generators of the tables (longer calls).
pub fn generators() -> Arc<Vec<Act>> {
    let fl = |c: &'static [(u8, u32)], s: fn() -> hf::DecoderSpeed, n: &str| {
        on(format!("flatten {:?} {}", c, n), || (), move |_| hf::flattener::flatten(c, s()), |_, r| format!("{:?}", r))
    };
    let pa = |t: &'static str| on(format!("parse {:?}", t), || (), move |_| hf::parser::parse(t), |_, r| format!("{:?}", r));
    families(vec![
        (true, vec![fl(&[(1, 0), (2, 2)], || hf::DecoderSpeed::OneBit, "1"), fl(&[(1, 1), (3, 0), (4, 2)], || hf::DecoderSpeed::OneBit, "1")]),
        (false, vec![fl(&[(1, 1), (3, 0), (4, 2)], || hf::DecoderSpeed::TwoBits, "2"), fl(&[(5, 1), (3, 2)], || hf::DecoderSpeed::TwoBits, "2")]),
        (false, vec![fl(&[(4, 1), (2, 2)], || hf::DecoderSpeed::ThreeBits, "3"), fl(&[(5, 1), (3, 2)], || hf::DecoderSpeed::ThreeBits, "3")]),
        (
            true,
            vec![pa("'0' ( 48)  |00000                                         0  [ 5]"), pa("'!' ( 33)  |11111110|00                                 3f8  [10]")],
        ),
    ])
}

// ------------------------------------------------------------ HPACK

fn encoder(n: usize) -> hp::Encoder<'static> {
    let mut e = hp::Encoder::with_dynamic_size(200);
    let mut o = vec![];
    for k in 0..n {
        let _ = e.encode((vec![b'k', b'0' + k as u8], vec![b'v'], 4u8), &mut o);
    }
    e
}
fn decoder(n: usize) -> hp::Decoder<'static> {
    let mut d = hp::Decoder::with_dynamic_size(200);
    for k in 0..n {
        let _ = d.decode(&mut vec![0x40, 2, b'k', b'0' + k as u8, 1, b'v'], &mut vec![]);
    }
    d
}
fn enc(name: &str, n: usize, call: impl Fn(&mut hp::Encoder<'static>, &mut Vec<u8>) -> Result<(), hp::EncoderError> + Send + Sync + 'static) -> Act {
    on(
        format!("encoder with {} entries: {}", n, name),
        move || (encoder(n), Vec::with_capacity(64)),
        move |s: &mut (hp::Encoder<'static>, Vec<u8>)| call(&mut s.0, &mut s.1),
        |s, r| {
            let mut o = vec![];
            let mut q = vec![];
            for i in 61..66u32 {
                q.push(s.0.encode(i, &mut o).is_ok());
            }
            let z = s.0.encode((b"k0".to_vec(), b"v".to_vec(), 0x10u8), &mut o);
            format!("{:?} {:02x?} {} then {:?} {:?} {:02x?}", r, s.1, s.0.max_dynamic_size(), q, z, o)
        },
    )
}
type Out = Vec<(Vec<u8>, Vec<u8>, u8)>;
fn dec(name: &str, n: usize, wire: &'static [u8], exact: bool) -> Act {
    on(
        format!("decoder with {} entries: {}", n, name),
        move || (decoder(n), wire.to_vec(), Vec::with_capacity(if exact { 1 } else { 4 })),
        move |s: &mut (hp::Decoder<'static>, Vec<u8>, Out)| if exact { s.0.decode_exact(&mut s.1, &mut s.2) } else { s.0.decode(&mut s.1, &mut s.2) },
        |s, r| {
            let mut t = format!("{:?} {:?} {:02x?} {}", r, s.2, s.1, s.0.max_dynamic_size());
            for i in 61..66u8 {
                let mut o = vec![];
                let r = s.0.decode(&mut vec![0x80 | i], &mut o);
                t += &format!(" {:?} {:?}", r, o);
            }
            t
        },
    )
}
fn table() -> hp::table::Table<'static> {
    let mut t = hp::table::Table::with_dynamic_size(200);
    for k in 0..3 {
        t.insert(vec![b'k', b'0' + k], vec![b'v']);
    }
    t
}
fn list(t: &hp::table::Table<'static>) -> String {
    format!("{:?} {} {}", (0..66).map(|i| t.get(i).map(|x| (x.0.to_vec(), x.1.to_vec()))).skip(60).collect::<Vec<_>>(), t.dynamic_len(), t.dynamic_size())
}
fn tab<R: std::fmt::Debug + 'static>(name: &str, call: impl Fn(&mut hp::table::Table<'static>) -> R + Send + Sync + 'static) -> Act {
    on(format!("table with 3 entries: {}", name), table, move |t: &mut hp::table::Table<'static>| call(t), |t, r| format!("{:?} then {}", r, list(t)))
}
fn best(n: usize, k: &'static [u8], v: &'static [u8], f: u8) -> Act {
    let show = |x: &[u8]| String::from_utf8_lossy(&x[..x.len().min(20)]).into_owned();
    enc(&format!("({}, {}) in best format, flags {:#x}", show(k), show(v), f), n, move |e, o| e.encode((k.to_vec(), v.to_vec(), f | 0x10), o))
}
fn plain(n: usize, k: &'static [u8], v: &'static [u8], f: u8) -> Act {
    enc(&format!("literal of {} and {} octets, flags {:#x}", k.len(), v.len(), f), n, move |e, o| e.encode((k.to_vec(), v.to_vec(), f), o))
}
fn named(n: usize, i: u32, v: &'static [u8], f: u8) -> Act {
    enc(&format!("name {} with a value of {} octets, flags {:#x}", i, v.len(), f), n, move |e, o| e.encode((i, v.to_vec(), f), o))
}
pub fn hpack() -> Arc<Vec<Act>> {
    static LONG: [u8; 260] = [b'l'; 260];
    static LARGE: [u8; 262] = {
        let mut w = [b'm'; 262];
        w[0] = 0;
        w[1] = 1;
        w[2] = b'x';
        w[3] = 0x7f;
        w[4] = 0x82; // 257
        w[5] = 1;
        w
    };
    fn at(i: u32) -> Act {
        enc(&format!("index {}", i), 2, move |e, o| e.encode(i, o))
    }
    fn size(i: u32) -> Act {
        enc(&format!("size {}", i), 2, move |e, o| e.update_max_dynamic_size(i, o).map(|_| ()))
    }
    families(vec![
        (true, vec![best(1, b":method", b"GET", 0), best(1, b":method", b"POST", 0)]),
        (false, vec![best(0, b":path", b"/x", 0), best(0, b"age", b"1", 0)]),
        (false, vec![best(2, b"k1", b"v", 0), best(2, b"k0", b"v", 0)]),
        (true, vec![best(2, b"k0", b"w", 7), best(2, b"k1", b"ab", 7)]),
        (true, vec![at(63), at(62), at(2)]),
        (true, vec![named(1, 62, b"x", 4), named(1, 1, b"zz", 4), named(2, 63, b"y", 0)]),
        (true, vec![plain(0, b"s", b"t", 0xb), plain(0, b"u", b"vw", 0xb), plain(0, b"qq", b"r", 7)]),
        (false, vec![plain(0, b"s", &LONG, 0), plain(0, b"t", &LONG[..140], 0)]),
        (true, vec![size(40), size(100), size(300)]),
        (true, vec![dec("static 2", 1, &[0x82], false), dec("static 3", 1, &[0x83], false)]),
        (true, vec![dec("index 62, size 33, literal", 2, &[0xbe, 0x3f, 2, 0x40, 0, 1, b'z'], false), dec("index 63, size 66", 2, &[0xbf, 0x3f, 0x23], false)]),
        (true, vec![dec("Huffman literal a, b, indexed", 1, &[0x40, 0x81, 0x1f, 0x81, 0x8f], false), dec("Huffman literal o, 1", 1, &[0, 0x81, 0x3f, 0x81, 0x0f], false)]),
        (true, vec![dec("name 63, never indexed", 2, &[0x1f, 0x30, 1, b'p', 0x82], true), dec("name 62, never indexed", 2, &[0x1f, 0x2f, 2, b'q', b'r', 0x82], true)]),
        (false, vec![dec("literal of 257 octets", 0, &LARGE, false), dec("literal of 128 octets", 0, &LARGE2, false)]),
        (false, vec![dec("name 1 cut off", 1, &[0x41, 0x05, b'x'], false), dec("Huffman refused", 1, &[0x41, 0x81, 0x18], false)]),
        (false, vec![dec("index 70", 1, &[0x82, 0xc6], false), dec("index 0", 1, &[0x80], false)]),
        // what takes another way when it is long
        long(vec![plain(0, b"s", &TEXTS[0][..60], 3), plain(0, b"t", &TEXTS[1][..70], 3)]),
        long(vec![plain(0, &TEXTS[0][..150], &TEXTS[1][..300], 3), plain(0, &TEXTS[1][..140], &TEXTS[0][..290], 3)]),
        long(vec![best(5, b"k4", &TEXTS[0][..50], 4), best(5, b"k3", &TEXTS[1][..50], 4)]),
        long(vec![best(5, b"k1", b"v", 0), best(5, b"k3", b"v", 0), best(5, b"k3", b"v", 8)]),
        long(vec![dec("Huffman literal of 40 and 120 octets", 0, &HUFF[0], false), dec("another Huffman literal of 40 and 120 octets", 0, &HUFF[1], false)]),
        long(vec![dec("many fields", 2, &MANY[0], false), dec("many fields", 2, &MANY[1], false)]),
    ])
}
static LARGE2: [u8; 133] = {
    let mut w = [b'n'; 133];
    w[0] = 0;
    w[1] = 1;
    w[2] = b'x';
    w[3] = 0x7f;
    w[4] = 1; // 128
    w
};
/// Literals whose names are 25 and whose values are 75 octets of codes of five bits.
static HUFF: [[u8; 103]; 2] = [huff(0), huff(1)];
const fn huff(n: usize) -> [u8; 103] {
    let mut t = [0; 103];
    t[0] = 0x40;
    t[1] = 0x80 | 25;
    t[27] = 0x80 | 75;
    let mut k = 0;
    while k < 100 {
        t[2 + k + (k >= 25) as usize] = CODES[n][k];
        k += 1;
    }
    t
}
/// Indexed fields, literals and names by index, one after another.
static MANY: [[u8; 48]; 2] = [many(0), many(1)];
const fn many(n: u8) -> [u8; 48] {
    let mut t = [0; 48];
    let mut k = 0;
    while k < 48 {
        t[k] = 0x82 + n;
        t[k + 1] = 0x40;
        t[k + 2] = 1;
        t[k + 3] = b'a' + n;
        t[k + 4] = 1;
        t[k + 5] = b'0' + k as u8 / 6;
        t[k + 6] = 0x0f;
        t[k + 7] = 48 + n;
        t[k + 8] = 1;
        t[k + 9] = b'x';
        t[k + 10] = 0xbe;
        t[k + 11] = 0xbf;
        k += 12;
    }
    t
}
pub fn tables() -> Arc<Vec<Act>> {
    fn find(k: &'static [u8], v: &'static [u8]) -> Act {
        tab(&format!("find ({}, {})", String::from_utf8_lossy(k), String::from_utf8_lossy(v)), move |t| t.find(k, v))
    }
    families(vec![
        (
            true,
            vec![
                tab("get 62", |t| t.get(62).map(|x| (x.0[1], x.0.len(), x.1.len()))),
                tab("get 64", |t| t.get(64).map(|x| (x.0[1], x.0.len(), x.1.len()))),
                tab("get 3", |t| t.get(3).map(|x| (x.0[1], x.0.len(), x.1.len()))),
            ],
        ),
        (true, vec![find(b":method", b"GET"), find(b":method", b"POST"), find(b":path", b"/")]),
        (false, vec![find(b":path", b"/x"), find(b":status", b"x")]),
        (true, vec![find(b"k0", b"v"), find(b"k2", b"w"), find(b"k1", b"v")]),
        (true, vec![tab("insert (a, b)", |t| t.insert(vec![b'a'], vec![b'b'])), tab("insert (cd, )", |t| t.insert(vec![b'c', b'd'], vec![]))]),
        (false, vec![tab("insert and evict", |t| t.insert(vec![b'a'; 70], vec![b'b'; 70])), tab("insert too much", |t| t.insert(vec![b'c'; 200], vec![b'd']))]),
        (true, vec![tab("size 40", |t| t.update_max_dynamic_size(40)), tab("size 70", |t| t.update_max_dynamic_size(70)), tab("size 0", |t| t.update_max_dynamic_size(0))]),
        (
            false,
            vec![tab("iterate", |t| {
                let t: &hp::table::Table<'static> = t;
                // the interface ties the iterator to the lifetime of the table
                let t: &'static hp::table::Table<'static> = unsafe { std::mem::transmute(t) };
                t.iter().skip(58).map(|x| x.0.len() + x.1.len()).sum::<usize>()
            })],
        ),
    ])
}

// ------------------------------------------------------------ protos

pub fn protos() -> Arc<Vec<Act>> {
    fn e<'a, V: Send + Sync + 'static>(name: &str, tag: u32, v: V, call: impl Fn(&pr::Encoder, &u32, &V, &mut Vec<u8>) -> Result<usize, pr::EncoderError> + Send + Sync + 'static) -> Act {
        on(
            format!("encode {} with tag {}", name, tag),
            move || (pr::Encoder::default(), Vec::with_capacity(64)),
            move |s: &mut (pr::Encoder, Vec<u8>)| call(&s.0, &tag, &v, &mut s.1),
            |s, r| {
                let mut o = vec![];
                let q = s.0.encode((&3, &5u32), &mut o);
                format!("{:?} {:02x?} then {:?} {:02x?}", r, s.1, q, o)
            },
        )
    }
    fn d(name: &str, before: &'static [u8], wire: &'static [u8]) -> Act {
        on(
            format!("decode {}", name),
            move || {
                let mut d = pr::Decoder::default();
                let (mut b, mut o) = (before.to_vec(), Vec::with_capacity(4));
                let _ = d.decode(&mut b, &mut o);
                b.extend(wire);
                (d, b, o)
            },
            |s: &mut (pr::Decoder, Vec<u8>, Vec<(u32, pr::Typ, Vec<u8>)>)| s.0.decode(&mut s.1, &mut s.2),
            |s, r| {
                let t = |o: &[(u32, pr::Typ, Vec<u8>)]| o.iter().map(|f| (f.0, f.1.clone() as u64, f.2.clone())).collect::<Vec<_>>();
                let first = t(&s.2);
                s.1.extend([0x2a, 1, 7, 0x30, 1]);
                let q = s.0.decode(&mut s.1, &mut s.2);
                format!("{:?} {:?} then {:?} {:?} {:02x?}", r, first, q, t(&s.2), s.1)
            },
        )
    }
    fn c<T: std::fmt::Debug + From<pr::DecoderLit> + 'static>(name: &str, l: fn(Vec<u8>) -> pr::DecoderLit, b: &'static [u8]) -> Act {
        on(
            format!("convert {:02x?} {}", b, name),
            move || Some(l(b.to_vec())),
            |s: &mut Option<pr::DecoderLit>| s.take().map(T::from),
            |_, r| format!("{:?}", r),
        )
    }
    let mut v = vec![];
    macro_rules! kind {
        ($core:expr, $k:ident, $t:ty, $x:expr, $y:expr, $a:expr, $b:expr) => {
            v.push(($core, vec![e(stringify!($k), 1, <$t>::from($x), |e, t, v, o| e.encode((t, pr::EncoderLit::$k(v)), o)), e(stringify!($k), 300, <$t>::from($y), |e, t, v, o| e.encode((t, pr::EncoderLit::$k(v)), o))]));
            v.push(($core, vec![c::<$t>(stringify!($k), pr::DecoderLit::$k, $a), c::<$t>(stringify!($k), pr::DecoderLit::$k, $b)]));
        };
    }
    kind!(true, Bytes, Vec<u8>, *b"abc", *b"\xffz", &[1, 2, 3], &[7]);
    kind!(false, Bool, bool, true, false, &[1], &[0]);
    kind!(false, BoolVec, Vec<bool>, [true, false], [false, true, true], &[1, 0], &[0, 0, 1]);
    kind!(true, Int32, i32, -2, i32::MIN, &[0xac, 2], &[5]);
    kind!(true, Int32Vec, Vec<i32>, [1, 300], [-7], &[1, 0xac, 2], &[9, 8]);
    kind!(false, Int64, i64, -2, i64::MAX, &[0xac, 0x92, 2], &[5]);
    kind!(false, Int64Vec, Vec<i64>, [1, 300], [-7], &[1, 0xac, 2], &[9, 8]);
    kind!(false, UInt32, u32, 300u32, 7_000_000u32, &[0xac, 0x92, 2], &[5]);
    kind!(false, UInt32Vec, Vec<u32>, [1, 300], [70_000], &[1, 0xac, 2], &[9, 8]);
    kind!(true, UInt64, u64, 300u64, 1u64 << 40, &[0xac, 0x92, 0x82, 0x92, 0x95, 2], &[0xad, 0x93, 0x83, 0x93, 0x96, 1]);
    kind!(false, UInt64Vec, Vec<u64>, [1, 300], [70_000], &[1, 0xac, 2], &[9, 8]);
    kind!(true, SInt32, i32, -2, 70_000, &[0xac, 2], &[5]);
    kind!(false, SInt32Vec, Vec<i32>, [1, 300], [-7], &[1, 0xac, 2], &[9, 8]);
    kind!(false, SInt64, i64, -2, i64::MAX, &[0xac, 0x92, 2], &[5]);
    kind!(false, SInt64Vec, Vec<i64>, [1, 300], [-7], &[1, 0xac, 2], &[9, 8]);
    kind!(true, Float, f32, 1.5f32, -0.1f32, &[0, 0, 0x80, 0x3f], &[1, 2, 3, 4]);
    kind!(false, FloatVec, Vec<f32>, [1.5], [0.25, 0.75], &[0, 0, 0x80, 0x3f], &[1, 2, 3, 4, 5, 6, 7, 8]);
    kind!(false, Double, f64, 1.5, -0.1, &[0, 0, 0, 0, 0, 0, 0xf0, 0x3f], &[1, 2, 3, 4, 5, 6, 7, 8]);
    kind!(false, DoubleVec, Vec<f64>, [1.5], [0.25, 0.75], &[0, 0, 0, 0, 0, 0, 0xf0, 0x3f], &[1, 2, 3, 4, 5, 6, 7, 8]);
    kind!(false, Fixed32, u32, 300u32, 7_000_000u32, &[1, 2, 3, 4], &[9, 8, 7, 6]);
    kind!(false, Fixed32Vec, Vec<u32>, [1, 300], [70_000], &[1, 2, 3, 4], &[1, 2, 3, 4, 5, 6, 7, 8]);
    kind!(false, Fixed64, u64, 300u64, 1u64 << 40, &[1, 2, 3, 4, 5, 6, 7, 8], &[9, 8, 7, 6, 5, 4, 3, 2]);
    kind!(false, Fixed64Vec, Vec<u64>, [1, 300], [70_000], &[1, 2, 3, 4, 5, 6, 7, 8], &[9, 8, 7, 6, 5, 4, 3, 2]);
    kind!(false, SFixed32, i32, -2, 70_000, &[1, 2, 3, 4], &[9, 8, 7, 6]);
    kind!(false, SFixed32Vec, Vec<i32>, [1, 300], [-7], &[1, 2, 3, 4], &[1, 2, 3, 4, 5, 6, 7, 8]);
    kind!(false, SFixed64, i64, -2, i64::MAX, &[1, 2, 3, 4, 5, 6, 7, 8], &[9, 8, 7, 6, 5, 4, 3, 2]);
    kind!(false, SFixed64Vec, Vec<i64>, [1, 300], [-7], &[1, 2, 3, 4, 5, 6, 7, 8], &[9, 8, 7, 6, 5, 4, 3, 2]);
    // what takes another way when it is long
    v.push(long(vec![e("Bytes of 200 octets", 1, TEXTS[0][..200].to_vec(), |e, t, v, o| e.encode((t, pr::EncoderLit::Bytes(v)), o)), e("Bytes of 300 octets", 2, TEXTS[1][..300].to_vec(), |e, t, v, o| e.encode((t, pr::EncoderLit::Bytes(v)), o))]));
    macro_rules! vectors {
        ($($k:ident $t:ty: $n:expr, $m:expr, $f:expr, $b:expr;)+) => {$(
            let f: fn(usize) -> $t = $f;
            v.push(long(vec![
                e(concat!("many ", stringify!($k)), 1, (0..$n).map(f).collect::<Vec<$t>>(), |e, t, v, o| e.encode((t, pr::EncoderLit::$k(v)), o)),
                e(concat!("many ", stringify!($k)), 900, ($n..$m).map(f).collect::<Vec<$t>>(), |e, t, v, o| e.encode((t, pr::EncoderLit::$k(v)), o)),
            ]));
            v.push(long(vec![c::<Vec<$t>>(stringify!($k), pr::DecoderLit::$k, &$b[..24]), c::<Vec<$t>>(stringify!($k), pr::DecoderLit::$k, &$b[24..])]));
        )+};
    }
    vectors!(
        BoolVec bool: 20, 60, |k| k % 3 == 0, [[0u8, 1].as_slice(); 40].concat().leak();
        Int32Vec i32: 20, 60, |k| k as i32 * 7 - 100, TEXTS[0][..100].to_vec().leak();
        UInt64Vec u64: 20, 60, |k| (k as u64) << k, TEXTS[0][..100].to_vec().leak();
        SInt64Vec i64: 20, 60, |k| (k as i64) << k, TEXTS[0][..100].to_vec().leak();
        DoubleVec f64: 20, 60, |k| k as f64 / 3.0, TEXTS[0][..104].to_vec().leak();
        Fixed32Vec u32: 20, 60, |k| k as u32 * 99, TEXTS[0][..104].to_vec().leak();
        SFixed64Vec i64: 20, 60, |k| k as i64 * -99, TEXTS[0][..104].to_vec().leak();
    );
    v.push(long(vec![d("40 octets", &[], &OCTETS[0][..42]), d("40 other octets", &[], &OCTETS[1][..42])]));
    v.push(long(vec![d("60 fields", &[], &FIELDS[0]), d("60 other fields", &[], &FIELDS[1])]));
    v.push(long(vec![c::<String>("as text", pr::DecoderLit::Bytes, &TEXTS[0][..90]), c::<String>("as text", pr::DecoderLit::Bytes, &TEXTS[1][..80])]));
    v.push((false, vec![c::<String>("as text", pr::DecoderLit::Bytes, b"h\xc3\xa9"), c::<String>("as text", pr::DecoderLit::Bytes, b"h\xc3")]));
    v.push((true, vec![d("a varint", &[], &[0x08, 0xac, 2]), d("a long varint", &[], &[0x80, 1, 0xac, 0x92, 0x82, 0x92, 0x95, 2])]));
    v.push((true, vec![d("bytes after a part", &[0x12, 3, 1], &[2, 3, 0x08, 5]), d("bytes after a key", &[0x1a], &[2, 8, 9])]));
    v.push((true, vec![d("32 and 64 bit", &[], &[0x0d, 1, 2, 3, 4, 0x11, 1, 2, 3, 4, 5, 6, 7, 8]), d("64 and 32 bit", &[], &[0x19, 9, 8, 7, 6, 5, 4, 3, 2, 0x25, 9, 8, 7, 6])]));
    v.push((true, vec![d("type 7 after a field", &[0x08], &[1, 0x0f, 0]), d("tag 0", &[], &[0, 1])]));
    if Probe::<pr::Encoder>::SHARED {
        static E: OnceLock<Any<pr::Encoder>> = OnceLock::new();
        fn one(x: i64) -> Act {
            on(
                format!("one encoder for all: int64 {}", x),
                || (&E.get_or_init(|| Any(pr::Encoder::default())).0, Vec::with_capacity(64)),
                move |s: &mut (&'static pr::Encoder, Vec<u8>)| s.0.encode((&7, &x), &mut s.1),
                |s, r| format!("{:?} {:02x?}", r, s.1),
            )
        }
        v.push((true, vec![one(-9), one(300)]));
    }
    families(v)
}

static OCTETS: [[u8; 42]; 2] = [octets(b'0'), octets(b'a')];
const fn octets(b: u8) -> [u8; 42] {
    let mut t = [b; 42];
    t[0] = 0x12;
    t[1] = 40;
    t
}
static FIELDS: [[u8; 120]; 2] = [fields(1), fields(2)];
const fn fields(n: u8) -> [u8; 120] {
    let mut t = [0; 120];
    let mut k = 0;
    while k < 120 {
        t[k] = 8 * (n + k as u8 / 10);
        t[k + 1] = k as u8;
        k += 2;
    }
    t
}

// ------------------------------------------------------------ one object for both threads

/// Tells whether a type may be shared between threads, without requiring it.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    const SHARED: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
    const SHARED: bool = true;
}
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

/// Reading one table and one encoder from two threads (as far as their types permit it).
pub fn shared() -> Arc<Vec<Act>> {
    static T: OnceLock<Any<hp::table::Table<'static>>> = OnceLock::new();
    static E: OnceLock<Any<hp::Encoder<'static>>> = OnceLock::new();
    let mut v = vec![];
    if Probe::<hp::table::Table<'static>>::SHARED {
        fn t(name: &str, call: impl Fn(&'static hp::table::Table<'static>) -> String + Send + Sync + 'static) -> Act {
            let call = Arc::new(call);
            let c2 = call.clone();
            on(format!("one table: {}", name), || &T.get_or_init(|| Any(table())).0, move |t: &mut &'static hp::table::Table<'static>| c2(t), move |t, r| format!("{} then {} {}", r, call(t), list(t)))
        }
        let kv = |x: Option<(&[u8], &[u8])>| x.map(|x| (x.0.len(), x.1.len())).map_or(0, |x| x.0 * 100 + x.1 + 1);
        let num = |n: usize| char::from_u32(n as u32 + 48).map(String::from).unwrap_or_default();
        v.push((true, vec![t("get 62", move |t| num(kv(t.get(62)))), t("get 2", move |t| num(kv(t.get(2))))]));
        let found = |x: Option<(usize, bool)>| x.map_or(0, |x| x.0 * 2 + x.1 as usize);
        v.push((true, vec![t("find (k1, v)", move |t| num(found(t.find(b"k1", b"v")))), t("find (k0, w)", move |t| num(found(t.find(b"k0", b"w"))))]));
        v.push((true, vec![t("find (:path, /index.html)", move |t| num(found(t.find(b":path", b"/index.html")))), t("find (:path, /)", move |t| num(found(t.find(b":path", b"/"))))]));
        v.push((true, vec![t("iterate", move |t| num(t.iter().skip(58).map(|x| x.0.len() + x.1.len()).sum()))]));
    }
    if Probe::<hp::Encoder<'static>>::SHARED {
        fn e(name: &str, i: u32) -> Act {
            on(
                format!("one encoder: {}", name),
                || (&E.get_or_init(|| Any(encoder(2))).0, Vec::with_capacity(64)),
                move |s: &mut (&'static hp::Encoder<'static>, Vec<u8>)| s.0.encode_indexed(i, &mut s.1),
                |s, r| format!("{:?} {:02x?}", r, s.1),
            )
        }
        v.push((true, vec![e("index 63", 63), e("index 2", 2), e("index 64", 64)]));
    }
    families(v)
}
