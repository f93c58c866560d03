//! What is kept in memory between calls (H18, F10, P13): words of operations repeated with contents that never come
//! back, the bytes alive after every power of two of rounds compared with a bound that does not grow.

use crate::engine::*;
use httlib_hpack as hp;
use httlib_huffman as hf;
use httlib_protos as pr;
use std::io::{self, Write};

type Op<T> = (&'static str, fn(&mut T, u64));
fn text(r: u64, n: usize) -> Vec<u8> {
    // never the same twice, of every octet now and then
    let mut x = r.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    (0..n)
        .map(|k| {
            if k < 8 {
                (r >> (8 * (k % 8))) as u8
            } else {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x as u8
            }
        })
        .collect()
}

// ------------------------------------------------------------ connections

struct Ends {
    enc: hp::Encoder<'static>,
    dec: hp::Decoder<'static>,
    tab: hp::table::Table<'static>,
}
impl Ends {
    fn new(limit: u32) -> Ends {
        Ends { enc: hp::Encoder::with_dynamic_size(limit), dec: hp::Decoder::with_dynamic_size(limit), tab: hp::table::Table::with_dynamic_size(limit) }
    }
    fn lit(&mut self, n: Vec<u8>, v: Vec<u8>, f: u8) {
        let mut o = vec![];
        let _ = self.enc.encode((n, v, f), &mut o);
        self.give(o);
    }
    fn give(&mut self, mut o: Vec<u8>) {
        let _ = self.dec.decode(&mut o, &mut vec![]);
    }
}
fn conn_ops() -> Vec<Op<Ends>> {
    vec![
        ("a new header is added", |x, r| x.lit(text(r, 8), text(r, 12), 4)),
        ("a new value of one name is added", |x, r| x.lit(b"same".to_vec(), text(r, 30), 7)),
        ("a new header without a value is added", |x, r| x.lit(text(r, 9), vec![], 4)),
        ("a new header is not added", |x, r| x.lit(text(r, 8), text(r, 12), 0)),
        ("a new sensitive header", |x, r| x.lit(text(r, 10), text(r, 10), 0xb)),
        ("a new header in the best format", |x, r| x.lit(text(r, 20), text(r, 20), 0x17)),
        ("a sensitive header in the best format", |x, r| x.lit(text(r, 8), text(r, 20), 0x18)),
        ("the newest entry by its index", |x, _| {
            let mut o = vec![];
            let _ = x.enc.encode(62, &mut o);
            x.give(o);
        }),
        ("its name with a new value", |x, r| {
            let mut o = vec![];
            let _ = x.enc.encode((62, text(r, 25), 4), &mut o);
            x.give(o);
        }),
        ("a table size", |x, r| {
            let mut o = vec![];
            let m = x.dec.max_dynamic_size();
            let _ = x.enc.update_max_dynamic_size((r as u32 * 7) % (m + 1), &mut o);
            x.give(o);
        }),
        ("table size 0 and back", |x, _| {
            let mut o = vec![];
            let m = x.dec.max_dynamic_size();
            let _ = x.enc.update_max_dynamic_size(0, &mut o);
            let _ = x.enc.update_max_dynamic_size(m, &mut o);
            x.give(o);
        }),
        ("a table size above the limit", |x, _| x.give(vec![0x3f, 0xff, 0xff, 0x7f])),
        ("a rejected name and value", |x, r| x.give([&[0x40, 9][..], &text(r, 9), &[0x82, 0xff, 0xff]].concat())),
        ("a rejected index", |x, r| x.give([&[0x7f, 0xff, 0x7f, 12][..], &text(r, 12)].concat())),
        ("a rejected indexed header", |x, r| {
            x.give([&[0xff, 0xff, 0x7f][..], &text(r, 9)].concat());
            x.give(vec![0x80]);
        }),
        ("rejected names in every form", |x, r| {
            for first in [0x0f, 0x1f, 0x7f] {
                x.give([&[first, 0xff, 0x7f, 9][..], &text(r, 9)].concat());
            }
        }),
        ("rejected lengths and Huffman codes", |x, r| {
            x.give([&[0x40, 9][..], &text(r, 9), &[0x7f, 255, 255, 255, 255, 255, 255, 1]].concat());
            x.give([&[0x00, 0x84, 0xff, 0xff, 0xff, 0xff][..], &text(r, 9)].concat());
            x.give([&[0x10, 0x82][..], &text(r, 1), &[0xff]].concat());
        }),
        ("an unfinished header", |x, r| x.give([&[0x40, 12][..], &text(r, 12), &[0x20], &text(r, 9)].concat())),
        ("an unfinished index", |x, _| x.give(vec![0x7f, 0x80])),
        ("an unfinished length", |x, _| x.give(vec![0x40, 0x7f, 0xff])),
        ("an invalid request", |x, r| {
            let _ = x.enc.encode((5000, text(r, 50), 4), &mut vec![]);
            let _ = x.enc.encode((5000, text(r, 50), 8), &mut vec![]);
            let _ = x.enc.encode(5000 + r as u32, &mut vec![]);
            let _ = x.enc.encode(0, &mut vec![]);
        }),
        ("a long value is added", |x, r| x.lit(b"long".to_vec(), text(r, 1000), 6)),
        ("a header larger than the table", |x, r| x.lit(text(r, 10), text(r, 6000), 4)),
        ("the limit of the decoder changes", |x, r| {
            let m = x.dec.max_dynamic_size();
            x.dec.set_max_dynamic_size(r as u32 % (m + 1));
            x.dec.set_max_dynamic_size(m);
        }),
        ("two headers decoded up to a limit", |x, r| {
            let mut b = [&[0x40, 9][..], &text(r, 9), &[9], &text(r + 1, 9), &[0, 9], &text(r, 9), &[9], &text(r + 1, 9)].concat();
            let _ = x.dec.decode_exact(&mut b, &mut vec![]);
        }),
        ("a table gets a header", |x, r| x.tab.insert(text(r, 8), text(r, 8))),
        ("a table gets a header larger than itself", |x, r| x.tab.insert(text(r, 8), text(r, 5000))),
        ("a table changes its size", |x, r| {
            let m = x.enc.max_dynamic_size();
            x.tab.update_max_dynamic_size((r as u32 * 11) % (m + 1))
        }),
        ("a search for a header", |x, r| {
            let _ = (x.tab.find(&text(r, 8), &text(r, 8)), x.tab.find(&text(r, 8), b""));
        }),
        ("the same header is added again", |x, _| x.lit(b"again".to_vec(), b"and again".to_vec(), 4)),
        ("the same header in the best format", |x, _| x.lit(b"again".to_vec(), b"and again".to_vec(), 0x14)),
        ("a static header", |x, r| x.lit(b":method".to_vec(), b"GET".to_vec(), [0x14, 0x10, 0x18][r as usize % 3])),
        ("a header of no octets", |x, _| x.lit(vec![], vec![], 4)),
        ("an iteration", |x, _| {
            let _ = x.tab.iter().take(70).count();
        }),
    ]
}
/// What may be held for tables of these limits, with a generous allowance for indices and spare room.
fn allowed(limit: u64) -> i64 {
    (65_536 + 3 * 16 * limit) as i64
}
fn grows<T>(prop: &'static str, ops: &[Op<T>], w: &[usize], x: &mut T, rounds: u64, allowed: i64, held: impl Fn(&mut T) -> i64, cx: &mut Cx) {
    let from = live();
    for r in 1..=rounds {
        for k in w {
            (ops[*k].1)(x, r);
        }
        if r.is_power_of_two() || r == rounds {
            let n = live() - from - held(x);
            cx.steps += 1;
            cx.check(prop, n <= allowed, || format!("after {} rounds {} bytes more are held than before, {} at most would do", r, n, allowed));
            if cx.failed() {
                return;
            }
        }
    }
    cx.steps += rounds * w.len() as u64;
}
fn show<T>(ops: &[Op<T>], w: &[usize]) -> String {
    w.iter().map(|k| ops[*k].0).collect::<Vec<_>>().join("; ")
}
pub fn connections(n: usize, rounds: u64) -> Work {
    let ops = conn_ops();
    let k = ops.len() as u64;
    let limits: [u32; 3] = if n == 1 { [4096, 0, 100] } else { [1200, 0, 100] };
    space(
        format!("all words of {} of {} operations, repeated {} times with new contents", n, k, rounds),
        k.pow(n as u32) * 3,
        move |i, cx| {
            let limit = limits[i as usize % 3];
            let ops = conn_ops();
            let w = digits(i / 3, k, n);
            let mut x = Ends::new(limit);
            grows("H18", &ops, &w, &mut x, rounds, allowed(limit as u64), |_| 0, cx);
            cx.state(i);
        },
        move |i| format!("limit {}: {}", limits[i as usize % 3], show(&ops, &digits(i / 3, k, n))),
    )
}
/// Connections that come and go after any word of operations.
pub fn come_and_go(n: usize, rounds: u64) -> Work {
    let ops = conn_ops();
    let k = ops.len() as u64;
    space(
        format!("{} connections one after another, each with the same word of {} of {} operations", rounds, n, k),
        k.pow(n as u32),
        move |i, cx| {
            let ops = conn_ops();
            let w = digits(i, k, n);
            let from = live();
            for r in 1..=rounds {
                let mut x = Ends::new(4096);
                for (j, y) in w.iter().enumerate() {
                    (ops[*y].1)(&mut x, r * n as u64 + j as u64);
                }
                drop(x);
                if r.is_power_of_two() || r == rounds {
                    let m = live() - from;
                    cx.check("H18", m <= 65_536, || format!("{} bytes are still held after {} connections have been dropped", m, r));
                    if cx.failed() {
                        return;
                    }
                }
            }
            cx.steps += rounds;
            cx.state(i);
        },
        move |i| show(&ops, &digits(i, k, n)),
    )
}

// ------------------------------------------------------------ Huffman

fn huff_ops() -> Vec<Op<()>> {
    fn dec(r: u64, n: usize, s: hf::DecoderSpeed) {
        let _ = hf::decode(&crate::href::huff_enc(&text(r, n)), &mut vec![], s);
    }
    vec![
        ("a short text is encoded", |_, r| hf::encode(&text(r, 10), &mut vec![]).unwrap()),
        ("a longer text is encoded", |_, r| hf::encode(&text(r, 200), &mut vec![]).unwrap()),
        ("a text is decoded by one bit", |_, r| dec(r, 12, hf::DecoderSpeed::OneBit)),
        ("a text is decoded by two bits", |_, r| dec(r, 12, hf::DecoderSpeed::TwoBits)),
        ("a text is decoded by three bits", |_, r| dec(r, 12, hf::DecoderSpeed::ThreeBits)),
        ("a text is decoded by four bits", |_, r| dec(r, 12, hf::DecoderSpeed::FourBits)),
        ("a text is decoded by five bits", |_, r| dec(r, 200, hf::DecoderSpeed::FiveBits)),
        ("an invalid text at five bits", |_, r| drop(hf::decode(&[&text(r, 8)[..], &[0xff; 8]].concat(), &mut vec![], hf::DecoderSpeed::FiveBits))),
        ("an invalid text at one bit", |_, r| drop(hf::decode(&[&text(r, 8)[..], &[0xff; 8]].concat(), &mut vec![], hf::DecoderSpeed::OneBit))),
        ("an unfinished text at four bits", |_, r| drop(hf::decode(&[&text(r, 9)[..], &[0]].concat(), &mut vec![], hf::DecoderSpeed::FourBits))),
        ("a small table is flattened", |_, r| drop(hf::flattener::flatten(&[(1, (r & 1) as u32), (3, ((r & 1) ^ 1) as u32 * 4 + (r >> 1) as u32 % 4)], if r % 2 == 0 { hf::DecoderSpeed::FiveBits } else { hf::DecoderSpeed::TwoBits }))),
        ("a line is parsed", |_, r| drop(hf::parser::parse(&crate::huff::line("'a' ( 97)", 20, r as u32 & 0xf_ffff)))),
        ("three lines are parsed", |_, r| drop(hf::parser::parse(&[0, 1, 2].map(|k| crate::huff::line("    (  0)", 24 + k, (r as u32).wrapping_mul(k + 1) & 0xff_ffff)).join("\n")))),
    ]
}
pub fn huffman(n: usize, rounds: u64) -> Work {
    let ops = huff_ops();
    let k = ops.len() as u64;
    space(
        format!("all words of {} of {} calls, repeated {} times with new contents", n, k, rounds),
        k.pow(n as u32),
        move |i, cx| {
            let ops = huff_ops();
            grows("F10", &ops, &digits(i, k, n), &mut (), rounds, 65_536, |_| 0, cx);
            cx.state(i);
        },
        move |i| show(&ops, &digits(i, k, n)),
    )
}

// ------------------------------------------------------------ protos

#[derive(Default)]
struct Coder {
    dec: pr::Decoder,
    buf: Vec<u8>,
}
impl Coder {
    fn feed(&mut self, b: &[u8]) {
        if self.buf.len() + b.len() > 4096 {
            self.buf = vec![];
            self.dec = pr::Decoder::default();
        }
        self.buf.extend_from_slice(b);
        let _ = self.dec.decode(&mut self.buf, &mut vec![]);
    }
}
fn key(r: u64, t: u64) -> Vec<u8> {
    let mut b = vec![];
    crate::pref::varint((r.wrapping_mul(0x9e37_79b1) % ((1 << 29) - 1) + 1) << 3 | t, &mut b);
    b
}
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn all_kinds(r: u64, room: usize) {
    let e = pr::Encoder::default();
    // over the whole range, none twice
    let t = (r.wrapping_mul(0x9e37_79b1) % ((1 << 29) - 1) + 1) as u32;
    macro_rules! kinds {
        ($($k:ident $v:ident $x:expr;)+) => {$(
            let x = $x;
            let _ = e.encode((&t, pr::EncoderLit::$k(&x)), &mut Full(room));
            let _ = e.encode((&t, pr::EncoderLit::$v(&vec![x; 3 + r as usize % 5])), &mut Full(room));
        )+};
    }
    kinds!(
        Bool BoolVec r % 2 == 0;
        Int32 Int32Vec r as i32;
        Int64 Int64Vec -(r as i64);
        UInt32 UInt32Vec r as u32;
        UInt64 UInt64Vec r << 20;
        SInt32 SInt32Vec r as i32;
        SInt64 SInt64Vec r as i64;
        Fixed32 Fixed32Vec r as u32;
        Fixed64 Fixed64Vec r;
        SFixed32 SFixed32Vec r as i32;
        SFixed64 SFixed64Vec r as i64;
        Float FloatVec r as f32;
        Double DoubleVec r as f64;
    );
    let _ = e.encode((&t, pr::EncoderLit::Bytes(&text(r, 40))), &mut Full(room));
}
fn all_conversions(b: &[u8]) {
    macro_rules! conv {
        ($($t:ty: $($k:ident)+;)+) => {$($(let _ = <$t>::from(pr::DecoderLit::$k(b.to_vec()));)+)+};
    }
    conv!(
        bool: Bool; Vec<bool>: BoolVec;
        i32: Int32 SInt32 SFixed32; Vec<i32>: Int32Vec SInt32Vec SFixed32Vec;
        i64: Int64 SInt64 SFixed64; Vec<i64>: Int64Vec SInt64Vec SFixed64Vec;
        u32: UInt32 Fixed32; Vec<u32>: UInt32Vec Fixed32Vec;
        u64: UInt64 Fixed64; Vec<u64>: UInt64Vec Fixed64Vec;
        f32: Float; Vec<f32>: FloatVec; f64: Double; Vec<f64>: DoubleVec;
        Vec<u8>: Bytes; String: Bytes;
    );
}
fn coder_ops() -> Vec<Op<Coder>> {
    vec![
        ("a varint", |x, r| x.feed(&[key(r, 0), vec![0x80 | r as u8, (r >> 8) as u8 & 127]].concat())),
        ("64 bits", |x, r| x.feed(&[key(r, 1), text(r, 8)].concat())),
        ("32 bits", |x, r| x.feed(&[key(r, 5), text(r, 4)].concat())),
        ("octets", |x, r| x.feed(&[key(r, 2), vec![20], text(r, 20)].concat())),
        ("no octets", |x, r| x.feed(&[key(r, 2), vec![0]].concat())),
        ("many octets", |x, r| x.feed(&[key(r, 2), vec![0xe8, 7], text(r, 1000)].concat())),
        ("a key", |x, r| x.feed(&key(r, 2))),
        ("a claim of 2^60 octets", |x, r| x.feed(&[key(r, 2), vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x10], text(r, 20)].concat())),
        ("an unfinished number", |x, _| x.feed(&[0x80])),
        ("an invalid key", |x, r| x.feed(&key(r, 7))),
        ("an invalid key that is thrown away", |x, r| drop(x.dec.decode(&mut key(r, 7 - (r & 1)), &mut vec![]))),
        ("a long number that is thrown away", |x, r| drop(x.dec.decode(&mut [&text(r, 0)[..], &[0xff; 11]].concat(), &mut vec![]))),
        ("a fresh decoder", |x, _| *x = Coder::default()),
        ("a fresh decoder after a claim", |x, r| {
            x.feed(&[key(r, 2), vec![100], text(r, 50)].concat());
            *x = Coder::default();
        }),
        ("all kinds of fields", |_, r| all_kinds(r, usize::MAX)),
        ("all kinds of fields to a full writer", |_, r| all_kinds(r, r as usize % 7)),
        ("a refused tag", |_, r| drop(pr::Encoder::default().encode((&0, pr::EncoderLit::Bytes(&text(r, 40))), &mut vec![]))),
        ("all conversions", |_, r| all_conversions(&[&r.to_le_bytes()[..], &[1]].concat())),
        ("all conversions of cut content", |_, r| all_conversions(&[&r.to_le_bytes()[..], &[0x80]].concat())),
    ]
}
pub fn coders(n: usize, rounds: u64) -> Work {
    let ops = coder_ops();
    let k = ops.len() as u64;
    space(
        format!("all words of {} of {} operations, repeated {} times with new contents", n, k, rounds),
        k.pow(n as u32),
        move |i, cx| {
            let ops = coder_ops();
            let mut x = Coder::default();
            grows("P13", &ops, &digits(i, k, n), &mut x, rounds, 65_536, |x| x.buf.capacity() as i64, cx);
            cx.state(i);
        },
        move |i| show(&ops, &digits(i, k, n)),
    )
}
