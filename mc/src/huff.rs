//! Huffman encoder, decoder, matrix generator and table parser.

use crate::engine::*;
use crate::href::*;
use crate::hsession::roomy;
use crate::rfc::HUFF;
use httlib_huffman::decoder::{table1, table2, table3, table4, table5};
use httlib_huffman::{decode, encode, flattener::flatten, parser::parse as parse_table, DecoderSpeed};
use std::sync::Arc;

pub const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];
const MARK: [u8; 3] = [0x5a, 0x00, 0xff];

fn show(b: &[u8]) -> String {
    if b.len() > 80 {
        format!("{}..{} ({} octets)", hex(&b[..40]), hex(&b[b.len() - 12..]), b.len())
    } else {
        hex(b)
    }
}
// ------------------------------------------------------------ decoder on octet strings (F03, F04, F07)

fn dec_case(b: &[u8], cx: &mut Cx, out: &mut Vec<u8>, first: &mut Vec<u8>) {
    dec_onto(&MARK, b, cx, out, first)
}
/// Decodes `b` at every speed onto output which already holds `prior`.
fn dec_onto(prior: &[u8], b: &[u8], cx: &mut Cx, out: &mut Vec<u8>, first: &mut Vec<u8>) {
    let n = prior.len();
    cx.steps += 1;
    let want = if cx.prop == "F03" { Some(huff_dec(b)) } else { None };
    let mut v1 = false;
    for (k, s) in SPEEDS.iter().enumerate() {
        out.clear();
        out.extend_from_slice(prior);
        let r = decode(b, out, *s);
        let grown = out.len() >= n && out[..n] == *prior;
        if cx.prop == "F07" {
            if !grown {
                cx.fail(format!("{} at {:?}: earlier output altered", show(b), s));
                return;
            }
            if (out.len() as u64 - n as u64) * 5 > b.len() as u64 * 8 {
                cx.fail(format!("{} at {:?}: {} octets of output", show(b), s, out.len() - n));
                return;
            }
        }
        if cx.trace.is_some() {
            cx.note(|| format!("decode {} at {:?} -> {:?} {}", show(b), s, r, txt(out.get(n..).unwrap_or(&[]))));
        }
        if let Some(w) = &want {
            let ok = match w {
                Some(w) => r.is_ok() && grown && out[n..] == w[..],
                None => r.is_err(),
            };
            if !ok {
                cx.fail(format!("{} at {:?}: {:?} {}, expected {}", show(b), s, r, txt(out.get(n..).unwrap_or(&[])), match w {
                    Some(w) => txt(w),
                    None => "rejection".into(),
                }));
                return;
            }
        }
        if cx.prop == "F04" {
            if k == 0 {
                v1 = r.is_ok();
                std::mem::swap(out, first);
            } else if v1 != r.is_ok() || (v1 && out != first) {
                cx.fail(format!("{}: {:?} gives {} {}, {:?} gives {:?} {}", show(b), SPEEDS[0], v1, txt(first.get(n..).unwrap_or(&[])), s, r, txt(out.get(n..).unwrap_or(&[]))));
                return;
            }
        }
    }
}
/// All octet strings of length `n` (blocks of 256 strings).
pub fn octets(n: usize) -> Work {
    let (len, w) = if n == 0 { (1, 1) } else { (256u64.pow(n as u32 - 1), 256) };
    let mk = move |i: u64, last: u8| -> Vec<u8> {
        if n == 0 {
            return vec![];
        }
        let mut v: Vec<u8> = digits(i, 256, n - 1).iter().map(|x| *x as u8).collect();
        v.push(last);
        v
    };
    blocks(
        format!("all strings of {} octets, five speeds", n),
        len,
        w,
        move |i, cx| {
            let (mut o, mut f) = (vec![], vec![]);
            for l in 0..w {
                dec_case(&mk(i, l as u8), cx, &mut o, &mut f);
                if cx.failed() {
                    return;
                }
            }
            if n <= 2 {
                cx.state(h(&(n, i)));
            }
        },
        move |i| format!("strings starting {}", hex(&mk(i, 0))),
    )
}
/// All strings of three octets, each followed by each of sixteen fourth octets.
pub fn octets_then() -> Work {
    const L: [u8; 16] = [0x00, 0x01, 0x07, 0x0f, 0x18, 0x1f, 0x3f, 0x55, 0x7f, 0x80, 0xaa, 0xf8, 0xfc, 0xfe, 0xff, 0x62];
    let mk = |i: u64, k: usize| -> Vec<u8> {
        let mut v: Vec<u8> = (i as u32).to_be_bytes()[1..].to_vec();
        v.push(L[k]);
        v
    };
    blocks(
        "all strings of 3 octets with each of 16 fourth octets, five speeds",
        1 << 24,
        16,
        move |i, cx| {
            let (mut o, mut f) = (vec![], vec![]);
            for k in 0..16 {
                dec_case(&mk(i, k), cx, &mut o, &mut f);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("strings starting {}", hex(&mk(i, 0)[..3])),
    )
}
struct Bits {
    v: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn new() -> Bits {
        Bits { v: vec![], acc: 0, n: 0 }
    }
    fn push(&mut self, b: u32) {
        self.acc = self.acc << 1 | b;
        self.n += 1;
        if self.n == 8 {
            self.v.push(self.acc as u8);
            self.acc = 0;
            self.n = 0;
        }
    }
    fn bits(&mut self, v: u32, n: u32) {
        for k in (0..n).rev() {
            self.push(v >> k & 1);
        }
    }
    fn len(&self) -> u32 {
        self.v.len() as u32 * 8 + self.n
    }
}
/// Symbols whose codes take exactly `bits` bits together (codes of 5 and 6 bits), bits == 0 or bits >= 20.
fn filler(bits: u32) -> Vec<u8> {
    for six in 0..5 {
        if bits >= six * 6 && (bits - six * 6) % 5 == 0 {
            let five = (bits - six * 6) / 5;
            let mut v = vec![];
            // vary the symbols so that a lost or duplicated one is noticed
            v.extend((0..five).map(|k| b"012aceiost"[k as usize % 10]));
            v.extend((0..six).map(|k| b" %-./3"[k as usize % 6]));
            return v;
        }
    }
    unreachable!()
}
/// W-method: every node of the code tree, entered at every bit phase of octets and chunks, followed by every
/// bit string that completes an octet (`least`..`least`+7 bits).
pub fn wmethod(least: u32) -> Work {
    let len = 41 * 256u64;
    let name = format!("40 bit phases x 256 code tree nodes x all completions of {}..{} bits, five speeds", least, least + 7);
    let avg: u64 = (least..least + 8).map(|k| 1u64 << k).sum::<u64>() / 8;
    let case = move |i: u64| -> (Bits, u32) {
        let (phase, node) = ((i / 256) as u32, (i % 256) as usize);
        let mut b = Bits::new();
        if phase > 0 {
            for s in filler(phase + 39) {
                let (c, l) = huff_bits(s as u16);
                b.bits(c, l);
            }
            assert_eq!(b.len(), phase + 39);
        }
        for x in &tree().access[node] {
            b.push(*x as u32);
        }
        let mut k = (8 - b.len() % 8) % 8;
        while k < least {
            k += 8;
        }
        (b, k)
    };
    blocks(
        name,
        len,
        avg,
        move |i, cx| {
            let (base, k) = case(i);
            let (mut o, mut f) = (vec![], vec![]);
            for e in 0..1u32 << k {
                let mut b = Bits { v: base.v.clone(), acc: base.acc, n: base.n };
                b.bits(e, k);
                dec_case(&b.v, cx, &mut o, &mut f);
                if cx.failed() {
                    return;
                }
            }
            cx.state(i);
        },
        move |i| {
            let (b, k) = case(i);
            format!("{} bits (phase {}, node {}), then every {}-bit completion", b.len(), i / 256, i % 256, k)
        },
    )
}
/// From every node at the eight octet phases: every symbol, then every end (padding) up to two octets.
pub fn symbol_ends() -> Work {
    blocks(
        "8 bit phases x 257 symbols x 257 symbols x every ending",
        8 * 257,
        257 * 9,
        move |i, cx| {
            let (mut o, mut f) = (vec![], vec![]);
            let (p, a) = ((i / 257) as u32, (i % 257) as u16);
            for s in 0..257u16 {
                let mut base = Bits::new();
                if p > 0 {
                    for c in filler(24 + p) {
                        let (c, l) = huff_bits(c as u16);
                        base.bits(c, l);
                    }
                }
                for x in [a, s] {
                    let (c, l) = huff_bits(x);
                    base.bits(c, l);
                }
                let k = (8 - base.len() % 8) % 8;
                for (extra, v) in [(0u32, u32::MAX), (0, 0), (0, 1), (8, u32::MAX), (8, u32::MAX << 8), (16, u32::MAX), (0, u32::MAX << 1), (24, u32::MAX), (8, u32::MAX << 1)] {
                    let mut b = Bits { v: base.v.clone(), acc: base.acc, n: base.n };
                    b.bits(v, (k + extra).min(32));
                    if b.n != 0 {
                        continue;
                    }
                    dec_case(&b.v, cx, &mut o, &mut f);
                    if cx.failed() {
                        return;
                    }
                }
            }
            cx.state(i);
        },
        move |i| format!("phase {}, first symbol {}", i / 257, i % 257),
    )
}
/// Long inputs: every octet value and every pair pattern repeated.
pub fn long_inputs(pairs: bool) -> Work {
    let lens: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4096, 65_535, 65_536];
    let l2 = lens.clone();
    let n = lens.len() as u64;
    let w = if pairs { 65_536 } else { 256 };
    let cut = move |k: usize| pairs && k > 300;
    blocks(
        if pairs { "every pair of octets repeated" } else { "every octet repeated" },
        w * n,
        1,
        move |i, cx| {
            let k = lens[(i % n) as usize];
            if cut(k) {
                return;
            }
            let x = i / n;
            let b: Vec<u8> = (0..k).map(|j| if pairs { if j % 2 == 0 { (x >> 8) as u8 } else { x as u8 } } else { x as u8 }).collect();
            dec_case(&b, cx, &mut vec![], &mut vec![]);
        },
        move |i| format!("pattern {:#x}, {} octets", i / n, l2[(i % n) as usize]),
    )
}
/// Valid text of every length followed by something invalid, and the other way round (outputs of rejected inputs).
pub fn half_way() -> Work {
    blocks(
        "valid text, a fault, more text",
        200 * 12,
        1,
        move |i, cx| {
            let (n, k) = ((i / 12) as usize, (i % 12) as usize);
            let text: Vec<u8> = (0..n).map(|j| ((j * 37 + 11) % 256) as u8).collect();
            let mut b = huff_enc(&text);
            b.extend([&[0xffu8, 0xff, 0xff, 0xff][..], &[0xff], &[0xff, 0xff], &[0], &[], &[0xff, 0xff, 0xff, 0xfc], &[0xfe], &[0x1f], &[0xff, 0xff, 0xff, 0xff, 0xff], &[0x80], &[0x7f, 0xff], &[0xff, 0xff, 0xff, 0xff, 0]][k]);
            if k % 2 == 1 {
                b.extend(huff_enc(b"tail"));
            }
            dec_case(&b, cx, &mut vec![], &mut vec![]);
        },
        move |i| format!("text of {} octets, fault {}", i / 12, i % 12),
    )
}
/// Lengths 0..=`to` and around every power of two up to 2^`pow`.
fn around(to: usize, pow: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=to).collect();
    for k in 8..=pow {
        v.extend((1usize << k) - 3..=(1 << k) + 3);
    }
    v.sort();
    v.dedup();
    v
}
/// Texts without a period: all symbols, or only short, only middle, only long ones.
fn mixed(n: usize, kind: usize) -> Vec<u8> {
    let mut by: Vec<u16> = (0..256).collect();
    by.sort_by_key(|s| (HUFF[*s as usize].1, *s));
    let (from, w) = [(0usize, 256usize), (0, 36), (60, 60), (200, 56), (0, 10), (90, 3)][kind];
    let mut x = 0x2545_F491u32 ^ (kind as u32) << 8;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            by[from + x as usize % w] as u8
        })
        .collect()
}
/// Aperiodic contents of many lengths: valid, and with a fault at the end, in the middle and at the start.
pub fn mixed_inputs(pow: u32) -> Work {
    let lens = around(700, pow);
    let l2 = lens.clone();
    let n = lens.len() as u64;
    blocks(
        format!("aperiodic contents of all lengths up to 700 and around powers of two up to 2^{}, valid and spoiled", pow),
        n * 6 * 8,
        1,
        move |i, cx| {
            let c = coords(i, &[n, 6, 8]);
            let t = mixed(lens[c[0] as usize], c[1] as usize);
            let mut b = match c[2] {
                6 => vec![0xff; 5],
                _ => vec![],
            };
            b.extend(huff_enc(&t));
            let m = b.len();
            match c[2] {
                1 => b.push(0xff),
                2 => b.extend([0xff, 0xff, 0xff, 0xff]),
                3 => b.truncate(m.saturating_sub(1)),
                4 if m > 0 => b[m - 1] &= 0xfe,
                5 if m > 0 => b.splice(m / 2..m / 2, [0xff, 0xff, 0xff, 0xff, 0xff]).for_each(drop),
                7 if m > 0 => b[m / 2] ^= 0x10,
                _ => (),
            }
            dec_case(&b, cx, &mut vec![], &mut vec![]);
        },
        move |i| {
            let c = coords(i, &[n, 6, 8]);
            format!("{} symbols of kind {}, fault {}", l2[c[0] as usize], c[1], c[2])
        },
    )
}
fn sample_inputs() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], huff_enc(b"a"), huff_enc(b"0"), huff_enc(b"www.example.com"), huff_enc(&[0, 255, 10, 13, 22]), huff_enc(&[249]), huff_enc(b"\0\0\0\0")];
    v.extend([&[0xffu8][..], &[0xff, 0xff, 0xff, 0xff], &[0x1e], &[0xff, 0xc7], &[0], &[7], &[0xfe], &[0x1f, 0xff], &[0xff, 0xff, 0xff, 0xfc], &[0xf8], &[0x3f, 0xff, 0xff]].map(|x| x.to_vec()));
    v
}
/// Output which already holds something: every length up to 300 and around powers of two, four contents.
pub fn prior_outputs() -> Work {
    let lens = around(300, 17);
    let ins = sample_inputs();
    let (n, m) = (lens.len() as u64, ins.len() as u64);
    let (l2, i2) = (lens.clone(), ins.clone());
    blocks(
        "decodings onto output which already holds up to 2^17 octets",
        n * m * 4,
        1,
        move |i, cx| {
            let c = coords(i, &[n, m, 4]);
            let prior: Vec<u8> = (0..lens[c[0] as usize]).map(|k| [k as u8, 0, 0xff, b'a'][c[2] as usize]).collect();
            dec_onto(&prior, &ins[c[1] as usize], cx, &mut vec![], &mut vec![]);
        },
        move |i| {
            let c = coords(i, &[n, m, 4]);
            format!("{} onto {} octets of kind {}", hex(&i2[c[1] as usize]), l2[c[0] as usize], c[2])
        },
    )
}
/// Output which already holds any number of octets, for either direction.
pub fn every_prior(to: u64, decoding: bool) -> Work {
    let ins: Vec<Vec<u8>> = if decoding { vec![huff_enc(b"www.example.com"), vec![0xff, 0xc7], huff_enc(&mixed(9, 1))] } else { vec![b"www.example.com".to_vec(), mixed(9, 1)] };
    let m = ins.len() as u64;
    let i2 = ins.clone();
    blocks(
        format!("{} onto output which already holds any number of octets up to {}", if decoding { "decodings" } else { "encodings" }, to),
        m * (to + 1),
        1,
        move |i, cx| {
            let (n, x) = ((i / m) as usize, &ins[(i % m) as usize]);
            let prior: Vec<u8> = (0..n).map(|k| (k * 5 + n) as u8).collect();
            if decoding {
                dec_onto(&prior, x, cx, &mut vec![], &mut vec![])
            } else {
                enc_onto(&prior, x, cx)
            }
        },
        move |i| format!("{} onto {} octets", hex(&i2[(i % m) as usize]), i / m),
    )
}
const ROOM: [usize; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16];
fn room(k: usize) -> usize {
    ROOM.get(k).copied().unwrap_or_else(|| [24, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 4096, 65_536][(k - 12) % 13])
}
/// Output with spare room (decodings and, for F01 and F02, encodings).
pub fn rooms() -> Work {
    let enc = sample_texts();
    let dec = sample_inputs();
    let lens = [0usize, 1, 2, 3, 7, 8, 63, 64, 500];
    let m = enc.len().max(dec.len()) as u64;
    blocks(
        "output vectors with spare room",
        m * 9 * 25,
        1,
        move |i, cx| {
            let c = coords(i, &[m, 9, 25]);
            let prior: Vec<u8> = (0..lens[c[1] as usize]).map(|k| k as u8 | 1).collect();
            let r = room(c[2] as usize);
            if cx.prop == "F01" || cx.prop == "F02" {
                if let Some(s) = enc.get(c[0] as usize) {
                    enc_into(roomy(&prior, r), s, cx);
                }
            } else if let Some(b) = dec.get(c[0] as usize) {
                // (dec_onto reuses one vector; its first call sees exactly this room, and so do the later ones)
                dec_onto(&prior, b, cx, &mut roomy(&[], prior.len() + r), &mut roomy(&[], prior.len() + r));
            }
        },
        move |i| {
            let c = coords(i, &[m, 9, 25]);
            format!("sample {}, output holds {} octets with room for {}", c[0], lens[c[1] as usize], room(c[2] as usize))
        },
    )
}
/// One output used for many decodings in a row, successes and failures mixed; every step is judged.
pub fn shared_output(n: usize) -> Work {
    let ins = sample_inputs();
    let m = ins.len() as u64;
    space(
        format!("one output used for {} decodings in a row", n),
        5 * m * 3,
        move |i, cx| {
            let c = coords(i, &[5, m, 3]);
            let mut all: Vec<u8> = vec![];
            for k in 0..n {
                let x = match c[2] {
                    0 => c[1] as usize,
                    1 => (c[1] as usize + k) % ins.len(),
                    _ => [c[1] as usize, k * 7 % ins.len()][k % 2],
                };
                let sp = SPEEDS[(c[0] as usize + if c[2] == 2 { k } else { 0 }) % 5];
                cx.steps += 1;
                let was = all.len();
                let r = decode(&ins[x], &mut all, sp);
                let w = huff_dec(&ins[x]);
                let kept = all.len() >= was;
                let good = kept && match (&r, &w) {
                    (Ok(()), Some(w)) => all[was..] == w[..],
                    (Err(_), None) => true,
                    _ => false,
                };
                let grown = kept && (all.len() - was) * 5 <= ins[x].len() * 8;
                if (cx.prop == "F07" && !grown) || (cx.prop != "F07" && !good) {
                    cx.fail(format!("decoding {} in a row: {} at {:?}: {:?}, output grew from {} to {} octets", k + 1, hex(&ins[x]), sp, r, was, all.len()));
                    return;
                }
                if r.is_err() {
                    all.truncate(was);
                }
            }
            if cx.prop != "F07" {
                let mut want: Vec<u8> = vec![];
                for k in 0..n {
                    let x = match c[2] {
                        0 => c[1] as usize,
                        1 => (c[1] as usize + k) % ins.len(),
                        _ => [c[1] as usize, k * 7 % ins.len()][k % 2],
                    };
                    want.extend(huff_dec(&ins[x]).unwrap_or_default());
                }
                if all != want {
                    cx.fail(format!("after {} decodings the output holds {} octets which are not the decoded texts ({} octets)", n, all.len(), want.len()));
                }
            }
            cx.state(i);
        },
        move |i| {
            let c = coords(i, &[5, m, 3]);
            format!("speed {}, input {}, order {}", c[0] + 1, c[1], c[2])
        },
    )
}
/// Every string of up to two octets over an edge alphabet decoded after every other one (at any speeds).
pub fn pair_histories() -> Work {
    let e = [0u8, 0x1f, 0x5f, 0x7f, 0xfe, 0xff];
    let mut ins: Vec<Vec<u8>> = vec![vec![]];
    for a in e {
        ins.push(vec![a]);
        for b in e {
            ins.push(vec![a, b]);
        }
    }
    ins.extend(sample_inputs());
    let m = ins.len() as u64;
    let i2 = ins.clone();
    blocks(
        "every short input after every other one, five speeds for the first",
        m * m * 5,
        1,
        move |i, cx| {
            let c = coords(i, &[m, m, 5]);
            let mut o = vec![];
            let _ = decode(&ins[c[0] as usize], &mut o, SPEEDS[c[2] as usize]);
            dec_case(&ins[c[1] as usize], cx, &mut vec![], &mut vec![]);
        },
        move |i| {
            let c = coords(i, &[m, m, 5]);
            format!("{} at {:?}, then {}", hex(&i2[c[0] as usize]), SPEEDS[c[2] as usize], hex(&i2[c[1] as usize]))
        },
    )
}
/// Histories of decodings at different speeds; the last input is judged.
pub fn speed_histories(n: usize) -> Work {
    let inputs: Vec<Vec<u8>> = vec![
        vec![],
        huff_enc(b"a"),
        huff_enc(b"www.example.com"),
        huff_enc(&[0, 255, 10, 13, 22]),
        vec![0xff],
        vec![0xff, 0xff, 0xff, 0xff],
        vec![0x1e],
        vec![0xff, 0xc7],
    ];
    let k = inputs.len() as u64 * 5;
    let i2 = inputs.clone();
    space(
        format!("histories of {} decodings", n),
        k.pow(n as u32),
        move |i, cx| {
            cx.step();
            let w = digits(i, k, n);
            for x in &w[..n - 1] {
                let mut o = vec![];
                let _ = decode(&inputs[x / 5], &mut o, SPEEDS[x % 5]);
            }
            let x = w[n - 1] / 5;
            dec_case(&inputs[x], cx, &mut vec![], &mut vec![]);
            cx.state(h(&w));
        },
        move |i| digits(i, k, n).iter().map(|x| format!("{} at {:?}", hex(&i2[x / 5]), SPEEDS[x % 5])).collect::<Vec<_>>().join(", then "),
    )
}
pub fn speeds_known() -> Work {
    space(
        "list of known speeds",
        1,
        |_, cx| {
            cx.step();
            let k = DecoderSpeed::known();
            let n: Vec<usize> = k.iter().map(|s| *s as usize).collect();
            let mut m = n.clone();
            m.sort();
            cx.check("F04", m == vec![1, 2, 3, 4, 5], || format!("known speeds are {:?}", n));
            cx.state(1);
        },
        |_| "DecoderSpeed::known()".into(),
    )
}

// ------------------------------------------------------------ encoder (F01), round trip (F02)

fn stxt(b: &[u8]) -> String {
    if b.len() > 80 {
        format!("{}.. ({} octets)", txt(&b[..40]), b.len())
    } else {
        txt(b)
    }
}
fn enc_case(s: &[u8], cx: &mut Cx) {
    enc_onto(&MARK, s, cx)
}
/// Encodes `s` onto output which already holds `prior` (and decodes it back, for F02).
fn enc_onto(prior: &[u8], s: &[u8], cx: &mut Cx) {
    enc_into(roomy(prior, 0), s, cx)
}
/// The same onto a given vector.
fn enc_into(mut o: Vec<u8>, s: &[u8], cx: &mut Cx) {
    cx.steps += 1;
    let n = o.len();
    let room = o.capacity() - n;
    let prior = &o.clone()[..];
    let r = encode(s, &mut o);
    cx.note(|| format!("encode {} -> {:?} {}", stxt(s), r, show(&o)));
    if cx.prop == "F01" {
        let kept = o.len() >= n && o[..n] == *prior;
        if r.is_err() || !kept || o[n..] != huff_enc(s)[..] {
            cx.fail(format!("encode {}: {:?} {} instead of {}{}", stxt(s), r, show(o.get(n..).unwrap_or(&[])), show(&huff_enc(s)), if kept { "" } else { ", earlier output altered" }));
        }
    } else {
        if r.is_err() || o.len() < n {
            cx.fail(format!("encode {}: {:?}", stxt(s), r));
            return;
        }
        for sp in SPEEDS {
            let mut d = roomy(prior, room);
            let r = decode(&o[n..], &mut d, sp);
            if r.is_err() || d.len() < n || d[..n] != *prior || d[n..] != *s {
                cx.fail(format!("{} encoded as {} decodes at {:?} to {:?} {}", stxt(s), show(&o[n..]), sp, r, stxt(d.get(n..).unwrap_or(&[]))));
                return;
            }
        }
    }
}
/// All byte strings of length `n` (blocks of 256).
pub fn texts(n: usize) -> Work {
    let (len, w) = if n == 0 { (1, 1) } else { (256u64.pow(n as u32 - 1), 256) };
    blocks(
        format!("all texts of {} octets", n),
        len,
        w,
        move |i, cx| {
            if n == 0 {
                return enc_case(&[], cx);
            }
            let mut v: Vec<u8> = digits(i, 256, n - 1).iter().map(|x| *x as u8).collect();
            v.push(0);
            for l in 0..=255u8 {
                v[n - 1] = l;
                enc_case(&v, cx);
                if cx.failed() {
                    return;
                }
            }
            if n <= 2 {
                cx.state(i);
            }
        },
        move |i| format!("texts starting {}", hex(&if n == 0 { vec![] } else { digits(i, 256, n - 1).iter().map(|x| *x as u8).collect() })),
    )
}
/// Every pair of octets after prefixes reaching every bit phase of the encoder's accumulator (and of the chunks).
pub fn phased_pairs() -> Work {
    blocks(
        "40 bit phases x all pairs of octets, followed by a marker",
        40 * 256,
        256,
        move |i, cx| {
            let (p, a) = ((i / 256) as u32, (i % 256) as u8);
            let mut base = filler(p + 40);
            base.push(a);
            for b in 0..=255u8 {
                let mut v = base.clone();
                v.push(b);
                enc_case(&v, cx);
                v.extend(b"\x00z");
                enc_case(&v, cx);
                if cx.failed() {
                    return;
                }
            }
            cx.state(i);
        },
        move |i| format!("phase {}, octet {}", i / 256, i % 256),
    )
}
/// One symbol per code length: all texts of `n` symbols over 20 representatives.
pub fn class_texts(n: usize) -> Work {
    let mut reps: Vec<u8> = vec![];
    for l in 5..=30 {
        for (s, x) in HUFF.iter().enumerate().take(256) {
            if x.1 as u32 == l {
                reps.push(s as u8);
                break;
            }
        }
    }
    // the last symbol of the widest classes too
    for l in [8u32, 28, 30] {
        if let Some(s) = (0..256).rev().find(|s| HUFF[*s].1 as u32 == l) {
            reps.push(s as u8);
        }
    }
    let k = reps.len() as u64;
    let r2 = reps.clone();
    blocks(
        format!("all texts of {} symbols over {} code-length representatives", n, k),
        k.pow(n as u32),
        1,
        move |i, cx| {
            let v: Vec<u8> = digits(i, k, n).iter().map(|x| reps[*x]).collect();
            enc_case(&v, cx);
        },
        move |i| txt(&digits(i, k, n).iter().map(|x| r2[*x]).collect::<Vec<_>>()),
    )
}
/// Long texts.
pub fn long_texts() -> Work {
    let lens: Vec<usize> = (3..=300).chain([511, 512, 513, 1000, 4095, 4096, 4097, 16_384, 65_535, 65_536, 65_537]).collect();
    let n = lens.len() as u64;
    let l2 = lens.clone();
    blocks(
        "every octet repeated, and running patterns",
        n * 260,
        1,
        move |i, cx| {
            let (k, x) = (lens[(i / 260) as usize], (i % 260) as usize);
            if k > 5000 && x < 256 && x % 16 != 0 {
                return;
            }
            let v: Vec<u8> = (0..k)
                .map(|j| match x {
                    256 => j as u8,
                    257 => (255 - j % 256) as u8,
                    258 => (j * 7 + j / 256) as u8,
                    259 => b"0\xff"[j % 2],
                    _ => x as u8,
                })
                .collect();
            enc_case(&v, cx);
        },
        move |i| format!("{} octets, pattern {}", l2[(i / 260) as usize], i % 260),
    )
}

/// Aperiodic texts of many lengths.
pub fn mixed_texts(pow: u32) -> Work {
    let lens = around(1200, pow);
    let l2 = lens.clone();
    let n = lens.len() as u64;
    blocks(
        format!("aperiodic texts of all lengths up to 1200 and around powers of two up to 2^{}", pow),
        n * 6,
        1,
        move |i, cx| enc_case(&mixed(lens[(i / 6) as usize], (i % 6) as usize), cx),
        move |i| format!("{} symbols of kind {}", l2[(i / 6) as usize], i % 6),
    )
}
/// Every length: one aperiodic text each.
pub fn every_text(to: u64) -> Work {
    blocks(format!("one text of every length up to {}", to), to + 1, 1, move |i, cx| enc_case(&mixed(i as usize, 0), cx), move |i| format!("{} symbols", i))
}
/// Every length: one aperiodic content each, as it is and cut by one octet.
pub fn every_input(to: u64) -> Work {
    blocks(
        format!("one content of every length up to {} symbols, whole and cut short", to),
        2 * (to + 1),
        1,
        move |i, cx| {
            let mut b = huff_enc(&mixed((i / 2) as usize, 0));
            if i % 2 == 1 {
                b.pop();
            }
            dec_case(&b, cx, &mut vec![], &mut vec![]);
        },
        move |i| format!("{} symbols{}", i / 2, if i % 2 == 1 { ", last octet missing" } else { "" }),
    )
}
/// A text, then every text that differs from it at one place or two: encoded one after another, or decoded one after another.
pub fn apart(decoding: bool) -> Work {
    use crate::hsweep::{apart_lens, apart_texts, APART_KINDS};
    let lens = apart_lens(false);
    let n = lens.len() as u64;
    let l2 = lens.clone();
    blocks(
        format!("a text and all that differ from it at one place or two, {} one after another", if decoding { "decoded" } else { "encoded" }),
        n * 9,
        1,
        move |i, cx| {
            let c = coords(i, &[n, 9]);
            let (base, others) = apart_texts(lens[c[0]], c[1]);
            let (mut o, mut f) = (vec![], vec![]);
            let mut one = |x: &[u8], cx: &mut Cx| if decoding { dec_case(&huff_enc(x), cx, &mut o, &mut f) } else { enc_case(x, cx) };
            one(&base, cx);
            for x in &others {
                one(x, cx);
                if cx.failed() {
                    return;
                }
            }
            if decoding {
                // the coded forms themselves changed a little
                let (a, b) = apart_texts(lens[c[0]], c[1]);
                let e = huff_enc(&a);
                for x in b.iter().take(50) {
                    let mut y = e.clone();
                    let k = x.iter().zip(&a).position(|(p, q)| p != q).unwrap_or(0);
                    let k = k.min(y.len() - 1);
                    y[k] ^= 1 << (x.len() + c[1]) % 8;
                    dec_case(&y, cx, &mut vec![], &mut vec![]);
                }
            }
        },
        move |i| format!("{} octets, {}", l2[(i / 9) as usize], APART_KINDS[(i % 9) as usize]),
    )
}
fn sample_texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [&b""[..], b"a", b"0", b"www.example.com", b"no-cache", b"\0", b"\xff", b"\xf9", b"&", b"00000000", b"aaaa", b"!", b"\n", b"\x16\x16"].iter().map(|x| x.to_vec()).collect();
    v.push(mixed(5, 3));
    v.push(mixed(40, 0));
    v
}
/// Output which already holds something: every length up to 300 and around powers of two, four contents.
pub fn prior_texts() -> Work {
    let lens = around(300, 17);
    let ins = sample_texts();
    let (n, m) = (lens.len() as u64, ins.len() as u64);
    let (l2, i2) = (lens.clone(), ins.clone());
    blocks(
        "encodings onto output which already holds up to 2^17 octets",
        n * m * 4,
        1,
        move |i, cx| {
            let c = coords(i, &[n, m, 4]);
            let prior: Vec<u8> = (0..lens[c[0] as usize]).map(|k| [k as u8, 0, 0xff, b'a'][c[2] as usize]).collect();
            enc_onto(&prior, &ins[c[1] as usize], cx);
        },
        move |i| {
            let c = coords(i, &[n, m, 4]);
            format!("{} onto {} octets of kind {}", txt(&i2[c[1] as usize]), l2[c[0] as usize], c[2])
        },
    )
}
/// Every text of up to two symbols over the representatives encoded (and decoded) after every other one.
pub fn text_histories() -> Work {
    let e = b"0a&X!?'|\0\xff\n\xf9";
    let mut ins: Vec<Vec<u8>> = vec![];
    for a in e {
        ins.push(vec![*a]);
        for b in e {
            ins.push(vec![*a, *b]);
        }
    }
    ins.extend(sample_texts());
    let m = ins.len() as u64;
    let i2 = ins.clone();
    blocks(
        "every short text after every other one",
        m * m,
        1,
        move |i, cx| {
            let c = coords(i, &[m, m]);
            let mut o = vec![];
            let _ = encode(&ins[c[0] as usize], &mut o);
            let _ = decode(&o, &mut vec![], SPEEDS[(i % 5) as usize]);
            enc_case(&ins[c[1] as usize], cx);
        },
        move |i| {
            let c = coords(i, &[m, m]);
            format!("{}, then {}", txt(&i2[c[0] as usize]), txt(&i2[c[1] as usize]))
        },
    )
}
/// One output used for many encodings in a row; every step is judged, then everything is decoded step by step.
pub fn shared_encodings(n: usize) -> Work {
    let ins = sample_texts();
    let m = ins.len() as u64;
    space(
        format!("one output used for {} encodings in a row", n),
        m * 3,
        move |i, cx| {
            let c = coords(i, &[m, 3]);
            let mut all: Vec<u8> = vec![];
            let mut back: Vec<u8> = vec![];
            for k in 0..n {
                let x = match c[1] {
                    0 => c[0] as usize,
                    1 => (c[0] as usize + k) % ins.len(),
                    _ => [c[0] as usize, k * 7 % ins.len()][k % 2],
                };
                cx.steps += 1;
                let (was, bwas) = (all.len(), back.len());
                let r = encode(&ins[x], &mut all);
                let ok = if cx.prop == "F01" {
                    r.is_ok() && all.len() >= was && all[was..] == huff_enc(&ins[x])[..]
                } else {
                    r.is_ok() && all.len() >= was && decode(&all[was..], &mut back, SPEEDS[k % 5]).is_ok() && back.len() >= bwas && back[bwas..] == ins[x][..]
                };
                if !ok {
                    cx.fail(format!("encoding {} in a row: {}: {:?}, output grew from {} to {} octets", k + 1, txt(&ins[x]), r, was, all.len()));
                    return;
                }
            }
            cx.state(i);
        },
        move |i| format!("text {}, order {}", i / 3, i % 3),
    )
}

// ------------------------------------------------------------ matrix generator (F05)

type Row = Vec<(Option<u8>, Option<u16>, u8)>;
/// Binary tree of a code table; -1 none, -2-k = symbol k.
struct Code {
    n: Vec<[i64; 2]>,
}
fn build(code: &[(u8, u32)]) -> Option<Code> {
    let mut n: Vec<[i64; 2]> = vec![[-1, -1]];
    for (s, (l, c)) in code.iter().enumerate() {
        let mut at = 0usize;
        for k in (0..*l as u32).rev() {
            let b = (*c >> k & 1) as usize;
            if k == 0 {
                if n[at][b] != -1 {
                    return None;
                }
                n[at][b] = -2 - s as i64;
            } else {
                match n[at][b] {
                    -1 => {
                        n.push([-1, -1]);
                        n[at][b] = n.len() as i64 - 1;
                        at = n.len() - 1;
                    }
                    x if x >= 0 => at = x as usize,
                    _ => return None,
                }
            }
        }
    }
    Some(Code { n })
}
/// Walks the matrix and the code tree together over all chunk sequences.
fn walk(m: &[Row], code: &[(u8, u32)], speed: usize) -> Result<u64, String> {
    let t = build(code).expect("prefix-free");
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(0usize, 0usize, String::new())];
    let mut hits = std::collections::HashSet::new();
    let mut edges = 0u64;
    while let Some((row, node, path)) = todo.pop() {
        if !seen.insert((row, node)) {
            continue;
        }
        if seen.len() > 5000 {
            return Err("the walk does not end".into());
        }
        let r = match m.get(row) {
            Some(r) => r,
            None => return Err(format!("after [{}]: row {} does not exist", path, row)),
        };
        if r.len() != 1 << speed {
            return Err(format!("row {} has {} transitions", row, r.len()));
        }
        for key in 0..1usize << speed {
            edges += 1;
            let got = r[key];
            let mut at = node as i64;
            let mut used = 0;
            for k in (0..speed).rev() {
                if at < 0 {
                    break;
                }
                at = t.n[at as usize][key >> k & 1];
                used += 1;
            }
            let p = format!("{}{:0w$b} ", path, key, w = speed);
            if at <= -2 {
                let s = (-2 - at) as u16;
                hits.insert(s);
                if got.1 != Some(s) || got.2 as usize != speed - used {
                    return Err(format!("chunks [{}] give {:?}, expected symbol {} with leftover {}", p, got, s, speed - used));
                }
            } else if at == -1 {
                if got.0.is_some() || got.1.is_some() {
                    return Err(format!("chunks [{}] (no code word) give {:?}", p, got));
                }
            } else {
                if got.1.is_some() || got.2 != 0 {
                    return Err(format!("chunks [{}] (inside a code word) give {:?}", p, got));
                }
                match got.0 {
                    Some(next) => todo.push((next as usize, at as usize, p)),
                    None => return Err(format!("chunks [{}] (inside a code word) lead nowhere", p)),
                }
            }
        }
    }
    if hits.len() != code.len() {
        return Err(format!("only {} of {} symbols can be reached", hits.len(), code.len()));
    }
    Ok(edges)
}
fn rows_bound(code: &[(u8, u32)], speed: usize) -> usize {
    let mut s = std::collections::HashSet::new();
    for (l, c) in code {
        let mut k = speed as u8;
        while k < *l {
            s.insert((k, *c >> (*l - k)));
            k += speed as u8;
        }
    }
    s.len() + 1
}
fn flat_case(code: &[(u8, u32)], cx: &mut Cx) {
    for (k, s) in SPEEDS.iter().enumerate() {
        if rows_bound(code, k + 1) > 256 {
            continue;
        }
        cx.step();
        let m = flatten(code, *s);
        cx.note(|| format!("flatten({:?}, {:?}) -> {} rows", code, s, m.len()));
        match walk(&m, code, k + 1) {
            Ok(e) => cx.steps += e,
            Err(e) => cx.check("F05", false, || format!("code {}: {:?}: {}", show_code(code), s, e)),
        }
        cx.outcome(h(&m.len()));
        if cx.failed() {
            return;
        }
    }
    cx.state(h(&code.to_vec()));
}
fn show_code(c: &[(u8, u32)]) -> String {
    let v: Vec<String> = c.iter().take(12).map(|(l, x)| format!("{:0w$b}", x, w = *l as usize)).collect();
    format!("{{{}{}}}", v.join(","), if c.len() > 12 { ",.." } else { "" })
}
/// Antichain number `i` of the full binary tree of depth `d` (0 = empty, a(d) = a(d-1)^2 + 1).
fn count(d: u32) -> u64 {
    if d == 0 {
        2
    } else {
        count(d - 1).pow(2) + 1
    }
}
fn antichain(d: u32, i: u64, l: u8, c: u32, out: &mut Vec<(u8, u32)>) {
    if i == count(d) - 1 {
        out.push((l, c)); // the root of this subtree itself
    } else if d > 0 {
        let a = count(d - 1);
        antichain(d - 1, i / a, l + 1, c << 1, out);
        antichain(d - 1, i % a, l + 1, c << 1 | 1, out);
    }
}
fn permute(v: &mut Vec<(u8, u32)>, mut k: u64) {
    let mut rest: Vec<(u8, u32)> = v.clone();
    v.clear();
    let mut n = rest.len() as u64;
    while n > 0 {
        v.push(rest.remove((k % n) as usize));
        k /= n;
        n -= 1;
    }
}
fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
/// Every prefix-free code of depth up to `d`; all symbol orders for up to `full` words, six orders otherwise.
pub fn codes(d: u32, full: usize) -> Work {
    let mk = move |i: u64| {
        let mut c = vec![];
        antichain(d, i, 0, 0, &mut c);
        c.retain(|x| x.0 > 0);
        c
    };
    space(
        format!("prefix-free codes of depth {} (all symbol orders up to {} words)", d, full),
        count(d) - 1,
        move |i, cx| {
            let c = mk(i);
            if c.is_empty() {
                return;
            }
            let n = c.len();
            let orders: Vec<u64> = if n <= full { (0..fact(n)).collect() } else { vec![0] };
            for k in &orders {
                let mut v = c.clone();
                permute(&mut v, *k);
                flat_case(&v, cx);
            }
            if n > full {
                let mut v = c.clone();
                v.reverse();
                flat_case(&v, cx);
                v = c.clone();
                v.rotate_left(n / 2);
                flat_case(&v, cx);
                v = c.clone();
                v.sort_by_key(|x| std::cmp::Reverse(x.0));
                flat_case(&v, cx);
            }
        },
        move |i| show_code(&mk(i)),
    )
}
/// Small codes below a common prefix of up to 27 bits, next to short words.
pub fn deep_codes(d: u32) -> Work {
    let n = count(d);
    let mk = move |i: u64| {
        let (p, i) = (i / n, i % n);
        let (p, pat) = ((p / 4) as u8, p % 4);
        let pre: u32 = match pat {
            0 => 0,
            1 => (1u32 << p) - 1,
            2 => 0x5555_5555 & ((1u32 << p) - 1),
            _ => 0x6666_6666 & ((1u32 << p) - 1),
        };
        let mut c = vec![];
        antichain(d, i, p, pre, &mut c);
        // the other child at a few places of the prefix
        for q in [1u8, 3, 8, 14] {
            if p >= q {
                c.push((q, pre >> (p - q) ^ 1));
            }
        }
        c
    };
    let mk2 = mk;
    space(
        format!("codes of depth {} below prefixes of 0..27 bits", d),
        n * 4 * 28,
        move |i, cx| {
            let c = mk(i);
            if !c.is_empty() && c.iter().all(|x| x.0 > 0 && x.0 <= 30) {
                flat_case(&c, cx);
                let mut r = c.clone();
                r.reverse();
                flat_case(&r, cx);
            }
        },
        move |i| show_code(&mk2(i)),
    )
}
/// Two (or three) long words: every pair of lengths, words of few ones, few zeros or one run.
pub fn word_pairs(wide: bool) -> Work {
    let vals = |l: u32| -> Vec<u32> {
        let m = ((1u64 << l) - 1) as u32;
        let mut v = vec![0, m];
        for p in 0..l {
            v.extend([1 << p, m ^ 1 << p, m >> p]);
            if p + 1 < l {
                v.push(3 << p);
            }
        }
        v.extend([0x5555_5555 & m, 0x3333_3333 & m, 0xAAAA_AAAA & m, 0x0F0F_0F0F & m, 0x00FF_00FF & m, 0xFFFF_0000 & m]);
        v.sort();
        v.dedup();
        v
    };
    let others = move |l: u32| -> Vec<u32> {
        let mut v: Vec<u32> = if wide { (1..=30).collect() } else { vec![l, l.max(2) - 1, (l + 1).min(30), l.div_ceil(2), 30, 4, 8, 20] };
        v.sort();
        v.dedup();
        v
    };
    space(
        "pairs of code words: lengths 1..30, words of few ones or few zeros",
        30 * 130,
        move |i, cx| {
            let (l, k) = (i as u32 / 130 + 1, (i % 130) as usize);
            let Some(x) = vals(l).get(k).copied() else { return };
            for l2 in others(l) {
                for y in vals(l2) {
                    let m = l.min(l2);
                    if x >> (l - m) == y >> (l2 - m) {
                        continue;
                    }
                    flat_case(&[(l as u8, x), (l2 as u8, y)], cx);
                    if cx.failed() {
                        return;
                    }
                }
            }
        },
        move |i| format!("first word of {} bits: {:x?}", i / 130 + 1, vals(i as u32 / 130 + 1).get((i % 130) as usize)),
    )
}
/// Combs: one word per length, with every turning pattern of a family.
pub fn combs() -> Work {
    let mk = |i: u64| {
        let c = coords(i, &[30, 8, 2, 2]);
        let depth = c[0] as u32 + 1;
        let pat = [0u32, u32::MAX, 0x5555_5555, 0xAAAA_AAAA, 0x3333_3333, 0xCCCC_CCCC, 0x0F0F_0F0F, 0x1249_2492][c[1]];
        let spine = |k: u32| pat >> (32 - k);
        let mut v: Vec<(u8, u32)> = (1..=depth).map(|k| (k as u8, spine(k) ^ 1)).collect();
        if c[2] == 1 {
            v.push((depth as u8, spine(depth)));
        }
        if c[3] == 1 {
            v.reverse();
        }
        v
    };
    space("combs of depth up to 30", 30 * 8 * 4, move |i, cx| flat_case(&mk(i), cx), move |i| show_code(&mk(i)))
}
/// The shipped code cut short, with one word missing, with two words exchanged, and reversed.
pub fn shipped_variants() -> Work {
    let mk = |i: u64| -> Vec<(u8, u32)> {
        let full: Vec<(u8, u32)> = HUFF.iter().map(|x| (x.1 as u8, x.0)).collect();
        let k = (i % 257) as usize;
        match i / 257 {
            0 => full[..=k].to_vec(),
            1 => full[k..].to_vec(),
            2 => {
                let mut v = full;
                v.remove(k);
                v
            }
            3 => {
                let mut v = full;
                v.swap(k, (k + 1) % 257);
                v
            }
            4 => {
                let mut v = full;
                v.rotate_left(k);
                v
            }
            _ => {
                let mut v = full;
                v.reverse();
                v.rotate_left(k);
                v
            }
        }
    };
    space("the shipped code: prefixes, suffixes, one word left out, exchanged words, other orders", 257 * 6, move |i, cx| flat_case(&mk(i), cx), move |i| format!("variant {}, word {}", i / 257, i % 257))
}
/// Codes with many words: all words of one length, and mixtures of two lengths.
pub fn broad_codes() -> Work {
    let mk = |i: u64| -> Vec<(u8, u32)> {
        let c = coords(i, &[10, 12, 3]);
        let (l, split, order) = (c[0] as u32 + 1, c[1] as u32, c[2]);
        // the first words stay at length l, the others are extended to two words of l + 1 bits
        let n = 1u32 << l;
        let cut = (n as u64 * split as u64 / 11) as u32;
        let mut v = vec![];
        for w in 0..n {
            if w < cut {
                v.push((l as u8, w));
            } else {
                v.push((l as u8 + 1, w << 1));
                v.push((l as u8 + 1, w << 1 | 1));
            }
        }
        match order {
            1 => v.reverse(),
            2 => {
                let h = v.len() / 2;
                v = (0..v.len()).map(|k| v[if k % 2 == 0 { k / 2 } else { h + k / 2 }.min(v.len() - 1)]).collect::<Vec<_>>();
                v.dedup();
                let mut seen = std::collections::HashSet::new();
                v.retain(|x| seen.insert(*x));
            }
            _ => (),
        }
        v
    };
    space("codes of up to 2048 words of one or two lengths", 10 * 12 * 3, move |i, cx| flat_case(&mk(i), cx), move |i| show_code(&mk(i)))
}
/// Generating for one code after generating for another.
pub fn flat_histories() -> Work {
    let mut set: Vec<Vec<(u8, u32)>> = vec![];
    for i in 0..count(3) - 1 {
        let mut c = vec![];
        antichain(3, i, 0, 0, &mut c);
        c.retain(|x| x.0 > 0);
        if !c.is_empty() {
            let mut r = c.clone();
            r.reverse();
            if r != c {
                set.push(r);
            }
            set.push(c);
        }
    }
    let n = set.len() as u64;
    let s2 = set.clone();
    space(
        "generation after generation for another code, five speeds",
        n * n * 5,
        move |i, cx| {
            let c = coords(i, &[n, n, 5]);
            let _ = flatten(&set[c[0] as usize], SPEEDS[c[2] as usize]);
            flat_case(&set[c[1] as usize], cx);
        },
        move |i| {
            let c = coords(i, &[n, n, 5]);
            format!("{} at {:?}, then {}", show_code(&s2[c[0] as usize]), SPEEDS[c[2] as usize], show_code(&s2[c[1] as usize]))
        },
    )
}
/// The shipped matrices and the matrices generated from the shipped code table, against Appendix B.
pub fn shipped() -> Work {
    fn rows<const A: usize, const B: usize>(t: [[(Option<u8>, Option<u16>, u8); A]; B]) -> Vec<Row> {
        t.iter().map(|r| r.to_vec()).collect()
    }
    space(
        "shipped matrices and matrices generated from the shipped code table",
        10,
        |i, cx| {
            cx.step();
            let k = (i % 5) as usize;
            let code: Vec<(u8, u32)> = HUFF.iter().map(|x| (x.1 as u8, x.0)).collect();
            let m = if i < 5 {
                match k {
                    0 => rows(table1::DECODE_TABLE),
                    1 => rows(table2::DECODE_TABLE),
                    2 => rows(table3::DECODE_TABLE),
                    3 => rows(table4::DECODE_TABLE),
                    _ => rows(table5::DECODE_TABLE),
                }
            } else {
                flatten(&httlib_huffman::encoder::table::ENCODE_TABLE, SPEEDS[k])
            };
            match walk(&m, &code, k + 1) {
                Ok(e) => cx.steps += e,
                Err(e) => cx.check("F05", false, || format!("{} matrix for {} bits: {}", if i < 5 { "shipped" } else { "generated" }, k + 1, e)),
            }
            cx.state(i);
        },
        |i| format!("{} matrix for {} bits", if i < 5 { "shipped" } else { "generated" }, i % 5 + 1),
    )
}

// ------------------------------------------------------------ table parser (F06)

/// A line in the layout of Appendix B: label, bits in groups of eight, right-aligned hexadecimal value, length.
pub fn line(label: &str, len: u32, v: u32) -> String {
    let mut bits = String::new();
    for k in 0..len {
        if k % 8 == 0 {
            bits.push('|');
        }
        bits.push(if v >> (len - 1 - k) & 1 == 1 { '1' } else { '0' });
    }
    format!("{:<11}{:<34}{:>14}  [{:>2}]", label, bits, format!("{:x}", v), len)
}
const LABELS: [&str; 9] = ["    (  0)", "'1' ( 49)", "'0' ( 48)", "'|' (124)", "' ' ( 32)", "'a' ( 97)", "EOS (256)", "'[' ( 91)", "    (255)"];
fn parse_case(lines: &[(usize, u32, u32)], end: bool, cx: &mut Cx) {
    cx.step();
    let mut s = lines.iter().map(|(k, l, v)| line(LABELS[*k], *l, *v)).collect::<Vec<_>>().join("\n");
    if end {
        s.push('\n');
    }
    let got = parse_table(&s);
    let want: Vec<(u16, u32)> = lines.iter().map(|(_, l, v)| (*l as u16, *v)).collect();
    cx.note(|| if lines.len() > 20 { format!("{} lines", lines.len()) } else { format!("{}\n-> {:?}", s, got) });
    cx.check("F06", got == want, || match (0..want.len().max(got.len())).find(|k| got.get(*k) != want.get(*k)) {
        Some(k) if want.len() > 6 => format!("line {} of {}: parses as {:x?}, expected {:x?}", k + 1, want.len(), got.get(k), want.get(k)),
        _ => format!("{:?} parses as {:x?}, expected {:x?}", s, got, want),
    });
    cx.state(h(&want));
}
/// Every code value of every length up to `full`; boundary values for longer ones.
pub fn parse_lines(full: u32) -> Work {
    let mut firsts = vec![];
    let mut n = 0u64;
    for l in 1..=full {
        firsts.push((n, l));
        n += (1u64 << l).div_ceil(64);
    }
    let mk = Arc::new(firsts);
    blocks(
        format!("single lines: every value of 1..{} bits", full),
        n,
        64,
        move |i, cx| {
            let (a, l) = *mk.iter().rev().find(|x| x.0 <= i).unwrap();
            let from = (i - a) * 64;
            for v in from..(from + 64).min(1 << l) {
                parse_case(&[((v % 9) as usize, l, v as u32)], v % 2 == 0, cx);
            }
        },
        |i| format!("block {}", i),
    )
}
pub fn parse_edges() -> Work {
    let mut v: Vec<(u32, u32)> = vec![];
    for l in 1..=30u32 {
        let m = (1u32 << l) - 1;
        let mut s: Vec<u32> = vec![0, m, m ^ 1, m >> 1, 0x5555_5555 & m, 0xAAAA_AAAA & m, 0x1234_5678 & m, 0x0BAD_CAFE & m, 0x9EDC_BA98 & m];
        for k in 0..l {
            s.extend([1 << k, m ^ (1 << k), (1 << k) - 1, m & !((1 << k) - 1)]);
        }
        s.sort();
        s.dedup();
        v.extend(s.iter().map(|x| (l, *x)));
    }
    let v = Arc::new(v);
    let v2 = v.clone();
    space(
        "single lines: boundary values of 1..30 bits, every label",
        v.len() as u64 * 18,
        move |i, cx| {
            let (l, x) = v[(i / 18) as usize];
            parse_case(&[((i % 9) as usize, l, x)], i % 18 < 9, cx);
        },
        move |i| {
            let (l, x) = v2[(i / 18) as usize];
            line(LABELS[(i % 9) as usize], l, x)
        },
    )
}
/// Texts of `n` lines.
pub fn parse_texts(n: usize) -> Work {
    let set: Vec<(usize, u32, u32)> = vec![
        (0, 1, 1),
        (1, 5, 0),
        (3, 8, 0xff),
        (2, 9, 0x100),
        (5, 13, 0x1ff8),
        (6, 30, 0x3fff_ffff),
        (4, 16, 0x8001),
        (7, 17, 0x1_0000),
        (8, 24, 0xff_fffe),
        (5, 25, 0),
        (0, 28, 0xfff_ffe2),
        (1, 7, 0x5d),
    ];
    let k = set.len() as u64;
    let s2 = set.clone();
    space(
        format!("texts of {} lines", n),
        k.pow(n as u32) * 2,
        move |i, cx| {
            let l: Vec<_> = digits(i / 2, k, n).iter().map(|x| set[*x]).collect();
            parse_case(&l, i % 2 == 0, cx);
        },
        move |i| digits(i / 2, k, n).iter().map(|x| line(LABELS[s2[*x].0], s2[*x].1, s2[*x].2)).collect::<Vec<_>>().join(" / "),
    )
}
/// Texts of many lines.
pub fn parse_long(pow: u32) -> Work {
    let lens = around(700, pow);
    let l2 = lens.clone();
    let n = lens.len() as u64;
    space(
        format!("texts of every number of lines up to 700 and around powers of two up to 2^{}", pow),
        n * 3,
        move |i, cx| {
            let k = lens[(i / 3) as usize] as u32;
            let l: Vec<(usize, u32, u32)> = (0..k)
                .map(|j| {
                    let w = match i % 3 {
                        0 => 1 + j % 30,
                        1 => 30 - j % 30,
                        _ => 1 + (j.wrapping_mul(2_654_435_761) >> 8) % 30,
                    };
                    (j as usize % 9, w, j.wrapping_mul(2_246_822_519) >> (32 - w))
                })
                .collect();
            parse_case(&l, k > 0 && i % 2 == 0, cx);
        },
        move |i| format!("{} lines, kind {}", l2[(i / 3) as usize], i % 3),
    )
}
pub fn parse_asset() -> Work {
    space(
        "bundled table, Appendix B generated, and long texts",
        3,
        |i, cx| {
            cx.step();
            match i {
                0 => {
                    let s = match std::fs::read_to_string("/repo/huffman/assets/hpack-huffman.txt") {
                        Ok(s) => s,
                        Err(_) => return,
                    };
                    let got = parse_table(&s);
                    let want: Vec<(u16, u32)> = HUFF.iter().map(|x| (x.1 as u16, x.0)).collect();
                    let enc: Vec<(u16, u32)> = httlib_huffman::encoder::table::ENCODE_TABLE.iter().map(|x| (x.0 as u16, x.1)).collect();
                    for k in 0..want.len().max(got.len()) {
                        cx.check("F06", got.get(k) == want.get(k), || format!("line {} of the bundled table parses as {:x?}, Appendix B has {:x?}", k + 1, got.get(k), want.get(k)));
                    }
                    cx.check("F06", got == enc, || "the bundled table differs from the table used for encoding".into());
                }
                1 => {
                    let l: Vec<(usize, u32, u32)> = HUFF.iter().enumerate().map(|(k, x)| (k % 9, x.1 as u32, x.0)).collect();
                    parse_case(&l, true, cx);
                }
                _ => {
                    let l: Vec<(usize, u32, u32)> = (0..5000u32).map(|k| (k as usize % 9, 1 + k % 30, (k.wrapping_mul(2_654_435)) & ((1u32 << (1 + k % 30)) - 1))).collect();
                    parse_case(&l, false, cx);
                }
            }
            cx.state(i);
        },
        |i| format!("text {}", i),
    )
}
