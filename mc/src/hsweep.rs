//! HPACK sweeps: string lengths, indices and table sizes through the public interface.

use crate::engine::*;
use crate::href::*;
use crate::hsession::*;
use crate::rfc::STATIC;
use httlib_hpack::{Decoder, DecoderError, Encoder};
use std::sync::Arc;

/// One-field histories over string lengths. `lens` x roles x flags.
pub fn lengths(name: &str, lens: Vec<usize>, size: u32) -> Work {
    let mut cases: Vec<(Op, Cfg)> = vec![];
    for n in lens {
        let vals = [Val::P(n), Val::R(b'0', n), Val::R(0xff, n)];
        for (k, v) in vals.iter().enumerate() {
            for f in [0u8, 2, 4, 6, 8, 0xA] {
                if n > 3000 && (k > 0 && f & 2 == 0) {
                    continue;
                }
                let cfg = Cfg { size: Some(size), direct: f & 4 != 0, mode: Mode::Whole };
                cases.push((Op::Lit(Val::S(b"n"), v.clone(), f), cfg));
                cases.push((Op::Lit(v.clone(), Val::S(b"v"), f >> 1 & 1 | f & 0xC), cfg));
                if k == 0 {
                    cases.push((Op::Name(Ix::A(32), v.clone(), f), cfg));
                    cases.push((Op::Lit(Val::S(b"cookie"), v.clone(), f | 0x10), cfg));
                }
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    space(
        format!("string lengths {}", name),
        cases.len() as u64,
        move |i, cx| {
            let (op, cfg) = &cases[i as usize];
            let mut r = Run::new(*cfg);
            if r.op(op, cx) {
                r.finish(cx);
            }
        },
        move |i| format!("{}: {}", c2[i as usize].1.show(), c2[i as usize].0.show()),
    )
}
/// Every length up to `to`, plain and Huffman coded, as the name and as the value of an entry.
pub fn every_length(to: u64) -> Work {
    let mk = |i: u64| {
        let v = Val::P((i / 4) as usize);
        match i % 4 {
            k @ (0 | 1) => Op::Lit(Val::S(b"n"), v, 4 | 2 * k as u8),
            k => Op::Lit(v, Val::S(b"v"), 4 | (k as u8 & 1)),
        }
    };
    space(
        format!("every string length up to {}", to),
        4 * (to + 1),
        move |i, cx| {
            let mut r = Run::new(Cfg { size: Some(1 << 20), direct: true, mode: Mode::Whole });
            if r.op(&mk(i), cx) {
                r.finish(cx);
            }
        },
        move |i| mk(i).show(),
    )
}
/// Every number of octets already in the encoder's output, and of fields already in the decoder's.
pub fn every_prior(to: u64) -> Work {
    type E = fn(&mut Encoder, &mut Vec<u8>);
    const HOW: [(&str, E); 5] = [
        ("indexed", |e, o| drop(e.encode(2u32, o))),
        ("name indexed, Huffman value", |e, o| drop(e.encode((32u32, b"sid=0123456789abcdef".to_vec(), 2u8), o))),
        ("literal with indexing", |e, o| drop(e.encode((b"x-name".to_vec(), b"some value".to_vec(), 4u8), o))),
        ("Huffman literal, never indexed", |e, o| drop(e.encode((b"x-name".to_vec(), b"some value".to_vec(), 11u8), o))),
        ("best format", |e, o| drop(e.encode((b":status".to_vec(), b"418".to_vec(), 0x14u8), o))),
    ];
    space(
        format!("every number of octets in the encoder's output and of fields in the decoder's up to {}", to),
        to + 1,
        move |n, cx| {
            let n = n as usize;
            let prior: Vec<u8> = (0..n).map(|k| (k * 7 + n) as u8).collect();
            for (name, f) in HOW {
                cx.step();
                let (mut fresh, mut o) = (vec![], prior.clone());
                f(&mut Encoder::default(), &mut fresh);
                f(&mut Encoder::default(), &mut o);
                let ok = o.len() == n + fresh.len() && o[..n] == prior[..] && o[n..] == fresh[..];
                cx.check("H01 H11 H14", ok, || format!("{} onto {} octets appends {}, onto none {}", name, n, hex(&o[o.len().min(n)..]), hex(&fresh)));
            }
            if cx.want("H06") || cx.want("H13") || cx.want("H01") {
                let block = [0x82, 0x40, 1, b'k', 1, b'v', 0xbe];
                let mut d = Decoder::default();
                let mut out: Vec<Field> = vec![(vec![], vec![], 0x40); n];
                let (a, b) = (d.decode(&mut block[..2].to_vec(), &mut vec![]), d.decode(&mut block.to_vec(), &mut out));
                cx.step();
                let ok = a.is_err() && b == Ok(7) && out.len() == n + 3 && out[..n].iter().all(|f| f.2 == 0x40 && f.0.is_empty() && f.1.is_empty());
                let kv = (b"k".to_vec(), b"v".to_vec());
                let ok = ok && out[n].1 == b"GET" && (out[n + 1].0.clone(), out[n + 1].1.clone()) == kv && (out[n + 2].0.clone(), out[n + 2].1.clone()) == kv;
                cx.check("H01 H06 H13", ok, || format!("decoding after {} fields gives {:?} and [{}]", n, b, fields(&out[out.len().min(n)..])));
            }
        },
        move |n| format!("{} octets or fields already there", n),
    )
}
/// Every number up to `to` as index, length and size in requests of every kind, onto outputs that are not empty.
pub fn numbers_onto(to: u32) -> Work {
    const PRIOR: [usize; 9] = [1, 2, 63, 200, 301, 1000, 4097, 17_000, 70_000];
    const STEP: u32 = 8;
    let blocks = (to / STEP + 1) as u64;
    space(
        format!("every number up to {} as index, length and size, in requests of every kind, onto outputs of 1 to 70000 octets", to),
        blocks * 9,
        move |i, cx| {
            let prior: Vec<u8> = (0..PRIOR[i as usize % 9]).map(|k| (k * 11 + 3) as u8).collect();
            let n = prior.len();
            let mut e = [Encoder::with_dynamic_size(1 << 28), Encoder::with_dynamic_size(1 << 28)];
            for e in &mut e {
                for k in 0..300 {
                    let _ = e.encode((b"name".to_vec(), short(k), 4u8), &mut vec![]);
                }
            }
            let from = (i / 9) as u32 * STEP;
            for x in from..from + STEP {
                let text: Vec<u8> = (0..x).map(|k| b"0ae~Z"[k as usize % 5]).collect();
                for k in 0..20 {
                    let (mut fresh, mut o) = (vec![], prior.clone());
                    let ask = |e: &mut Encoder, o: &mut Vec<u8>| match k {
                        0 => e.encode(x, o),
                        1..=8 => e.encode((x, text[..text.len().min(9)].to_vec(), [0u8, 1, 2, 3, 4, 6, 8, 10][k - 1]), o),
                        9..=16 => e.encode((text.clone(), b"v".to_vec(), [0u8, 1, 2, 3, 4, 7, 8, 11][k - 9]), o),
                        17 => e.encode((b"name".to_vec(), short(x), 0x10u8), o),
                        18 => e.encode((b"n".to_vec(), text.clone(), 0x18u8), o),
                        // back to the largest size at once: the entries are gone in both, in the same way
                        _ => e.update_max_dynamic_size((1 << 28) - x, o),
                    };
                    let (a, b) = (ask(&mut e[0], &mut fresh), ask(&mut e[1], &mut o));
                    cx.step();
                    let ok = a == b && o.len() == n + fresh.len() && o[..n] == prior[..] && o[n..] == fresh[..];
                    cx.check("H01 H11 H12 H14", ok, || format!("request {} with {} onto {} octets: {:?} appends {}, onto none {:?} {}", k, x, n, b, hex(&o[o.len().min(n)..]), a, hex(&fresh)));
                    if cx.failed() {
                        return;
                    }
                }
            }
            cx.state(i);
        },
        move |i| format!("numbers from {} onto {} octets", i as u32 / 9 * STEP, PRIOR[i as usize % 9]),
    )
}
pub fn len_list() -> Vec<usize> {
    (0..=700).collect()
}
pub fn len_big() -> Vec<usize> {
    let mut v = vec![];
    // 127 + 128^2 octets plain; Huffman lengths hit the same boundary at 26214 octets of '0'
    v.extend(16_505..=16_516usize);
    v.extend(26_412..=26_422);
    v.extend([1023, 1024, 2047, 2048, 4063, 4064, 4065, 4096, 5081, 5082, 8192, 16_383, 16_384, 32_768, 65_503, 65_504, 65_535, 65_536, 65_537]);
    v
}
/// Lengths whose plain or Huffman-coded form lies around a power of two (or around 127 plus one).
pub fn len_pow(from: u32, to: u32) -> Vec<usize> {
    let mut v = vec![];
    for k in from..=to {
        for base in [1usize << k, (1 << k) + 127, (1 << k) - 32] {
            for d in -1i64..=1 {
                let l = (base as i64 + d) as usize;
                v.extend([l, (8 * l).div_ceil(5), (8 * l) / 26 + 1]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn len_huge() -> Vec<usize> {
    let b = 127 + (1 << 21);
    vec![b - 2, b - 1, b, b + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]
}

/// Every index of a table with `n` dynamic entries, by indexed and name-indexed fields of every kind.
pub fn indices(n: u32, from: u32, to: u32, step: u32) -> Work {
    let cases = (to - from + step - 1) / step;
    space(
        format!("indices {}..{} of a table with {} dynamic entries", from, to - 1, n),
        cases as u64,
        move |i, cx| {
            let mut e = Encoder::with_dynamic_size(1 << 28);
            let mut d = Decoder::with_dynamic_size(1 << 28);
            let mut wire = vec![];
            for k in 0..n {
                let v = k.to_le_bytes().to_vec();
                if e.encode((b"i".to_vec(), v, 4u8), &mut wire).is_err() {
                    cx.check("H11 H12 H01", false, || format!("insertion {} failed", k));
                    return;
                }
            }
            let mut o = Vec::with_capacity(n as usize);
            // field by field from short buffers: the decoder removes consumed octets from the front
            for c in chunk_fields(&wire) {
                if d.decode(&mut c.to_vec(), &mut o).is_err() {
                    cx.check("H01 H06", false, || "insertions do not decode".into());
                    return;
                }
            }
            let total = 61 + n;
            let a = from + i as u32 * step;
            for x in a..(a + step).min(to) {
                // the indexing form changes the tables and has a sweep of its own
                for (prefix, first) in [(7u32, 0x80u8), (4, 0x10), (4, 0x00)] {
                    cx.step();
                    let mut out = vec![];
                    let res = match first {
                        0x80 => e.encode(x, &mut out),
                        f => e.encode((x, vec![], if f == 0x10 { 8u8 } else { 0 }), &mut out),
                    };
                    let mut want = int_enc(x as u64, prefix, first);
                    if first != 0x80 {
                        want.push(0);
                    }
                    if x == 0 || x > total {
                        cx.check("H14", res.is_err() && out.is_empty(), || format!("index {} of {}: {:?} {}", x, total, res, hex(&out)));
                    } else {
                        cx.check("H12", res.is_ok() && out == want, || format!("index {} prefix {}: {:?} {} instead of {}", x, prefix, res, hex(&out), hex(&want)));
                        cx.check("H11", res.is_ok() && parse(&out).map_or(false, |r| r.int == x as u64 && r.len == out.len()), || {
                            format!("index {}: {:?} {}", x, res, hex(&out))
                        });
                    }
                    let mut b = want.clone();
                    let mut o = vec![];
                    let r = d.decode(&mut b, &mut o);
                    if x == 0 && first != 0x80 {
                        continue;
                    }
                    let exp: Option<Hdr> = if x == 0 || x > total {
                        None
                    } else if x <= 61 {
                        RefTable::new(0).get(x as u64)
                    } else {
                        Some((b"i".to_vec(), (n - 1 - (x - 62)).to_le_bytes().to_vec()))
                    };
                    match exp {
                        None => cx.check("H06 H12", r == Err(DecoderError::InvalidIndex), || format!("index {} of {}: decoder says {:?}", x, total, r)),
                        Some(h) => {
                            let h = if first == 0x80 { h } else { (h.0, vec![]) };
                            let ok = r == Ok(want.len()) && o.len() == 1 && o[0].0 == h.0 && o[0].1 == h.1;
                            cx.check("H06 H12 H01", ok, || format!("{} (index {}): {:?} [{}]", hex(&want), x, r, fields(&o)));
                        }
                    }
                    if cx.failed() {
                        return;
                    }
                }
            }
            cx.state(h(&(n, a)));
        },
        move |i| format!("indices from {}", from + i as u32 * step),
    )
}
/// The k-th text in order of length.
fn short(mut k: u32) -> Vec<u8> {
    let mut l = 0u32;
    while k >= 256u32.pow(l) {
        k -= 256u32.pow(l);
        l += 1;
    }
    k.to_be_bytes()[4 - l as usize..].to_vec()
}
/// Best-format requests for every entry (and every name) of tables with up to `n` dynamic entries, through encoder and decoder.
pub fn best_indices(n: u32, step: u32) -> Work {
    let cases = n.div_ceil(step);
    space(
        format!("best-format requests for every entry and name of a table with {} dynamic entries{}", n, if step > 1 { format!(", in groups of {}", step) } else { String::new() }),
        cases as u64 * 5,
        move |i, cx| {
            let kind = i % 5;
            let from = (i / 5) as u32 * step;
            let hdr = |k: u32| -> Hdr {
                match kind {
                    0 => (format!("n{}", k).into_bytes(), b"v".to_vec()),
                    1 => (b"same".to_vec(), k.to_string().into_bytes()),
                    // the shortest names and values there are: a literal would often be no longer than the index
                    2 => (short(k), b"v".to_vec()),
                    3 => (b"s".to_vec(), short(k)),
                    _ => (b":authority".to_vec(), short(k + 1)),
                }
            };
            let rare = kind == 2 || kind == 0;
            let mut e = Encoder::with_dynamic_size(1 << 28);
            let mut d = Decoder::with_dynamic_size(1 << 28);
            let mut t = RefTable::new(1 << 28);
            let mut o = vec![];
            for k in 0..n {
                let mut wire = vec![];
                let x = hdr(k);
                let r = e.encode((x.0.clone(), x.1.clone(), 4u8), &mut wire);
                let r2 = d.decode(&mut wire, &mut o);
                t.e.push_front(x);
                o.clear();
                if r.is_err() || r2.is_err() {
                    cx.check("H01 H11", false, || format!("insertion {} failed: {:?} {:?}", k, r, r2));
                    return;
                }
            }
            for k in from..(from + step).min(n) {
                let x = hdr(k);
                let mut asked = vec![(x.1.clone(), 0x10u8), (x.1.clone(), 0x14), (x.1.clone(), 0x18), (b"other".to_vec(), 0x10), (b"other".to_vec(), 0x18), (x.1.clone(), 0x13)];
                if rare {
                    asked.extend([(vec![], 0x10), (vec![], 0x18), (b"w".to_vec(), 0x10)]);
                }
                for (v, f) in asked {
                    cx.step();
                    let mut out = vec![];
                    let r = e.encode((x.0.clone(), v.clone(), f), &mut out);
                    let what = || format!("best-format ({}, {}, {:#x}) of entry {} among {}", txt(&x.0), txt(&v), f, k, n);
                    let Some(rep) = parse(&out).ok().filter(|p| r.is_ok() && p.len == out.len()) else {
                        cx.check("H11 H12 H10 H01", false, || format!("{}: {:?} {}", what(), r, hex(&out)));
                        return;
                    };
                    cx.check("H11 H12", rep.minimal, || format!("{}: non-minimal {}", what(), hex(&out)));
                    let (kind, entry) = if f & 8 != 0 {
                        (Kind::Never, t.name_is(rep.int, &x.0))
                    } else if v == x.1 {
                        (Kind::Indexed, t.is(rep.int, &x.0, &v))
                    } else {
                        (Kind::Without, t.name_is(rep.int, &x.0))
                    };
                    cx.check("H11", rep.kind == kind && entry, || format!("{}: {} is {:?} of index {}", what(), hex(&out), rep.kind, rep.int));
                    cx.check("H10", f & 8 == 0 || rep.kind == Kind::Never, || format!("{}: {} is {:?}", what(), hex(&out), rep.kind));
                    let mut fs = vec![];
                    let r = d.decode(&mut out.clone(), &mut fs);
                    let ok = r.is_ok() && fs.len() == 1 && fs[0].0 == x.0 && fs[0].1 == v;
                    cx.check("H01", ok, || format!("{}: {} comes back as {:?} [{}]", what(), hex(&out), r, fields(&fs)));
                    cx.check("H10", r.is_err() || fs.len() != 1 || (fs[0].2 == 8) == (f & 8 != 0), || format!("{}: {} comes back as [{}]", what(), hex(&out), fields(&fs)));
                    if cx.failed() {
                        return;
                    }
                }
            }
            let c = if n <= 1000 { count_enc(&e, 2 * n as u64) } else { n as u64 };
            cx.check("H02 H10 H11", c == n as u64, || format!("{} entries became {}", n, c));
            cx.state(h(&(n, i)));
        },
        move |i| format!("table of {} {} entries, from {}", n, ["distinct", "equally named", "shortest named", "shortest valued", ":authority"][(i % 5) as usize], i / 5 * step as u64),
    )
}
/// Every static entry requested in every form, in an empty table and beside dynamic entries with the same name or value.
pub fn static_requests() -> Work {
    const F: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0xB, 0x10, 0x13, 0x14, 0x17, 0x18, 0x1B];
    let ops = |i: u64| -> Vec<Op> {
        let c = coords(i, &[61, 16, 4, 5]);
        let (n, v) = (STATIC[c[0]].0.as_bytes(), STATIC[c[0]].1.as_bytes());
        let f = F[c[1]];
        let mut o = match c[2] {
            0 => vec![],
            1 => vec![Op::Lit(Val::S(n), Val::S(b"dyn"), 4)],
            2 => vec![Op::Lit(Val::S(n), Val::S(v), 4), Op::Lit(Val::S(b"z"), Val::S(v), 4)],
            _ => vec![Op::Lit(Val::S(n), Val::S(b"dyn"), 4), Op::Upd(0), Op::Upd(100)],
        };
        o.push(match c[3] {
            0 => Op::Lit(Val::S(n), Val::S(v), f),
            1 => Op::Lit(Val::S(n), Val::S(b"dyn"), f),
            2 => Op::Lit(Val::S(n), Val::S(b""), f),
            3 => Op::Name(Ix::A(c[0] as u32 + 1), Val::S(b"dyn"), f & 0xf),
            _ => Op::Name(Ix::A(c[0] as u32 + 1), Val::S(v), f & 0xf),
        });
        o.push(Op::Idx(Ix::A(c[0] as u32 + 1)));
        o
    };
    space(
        "requests for every static entry, name and value, beside dynamic ones",
        61 * 16 * 4 * 5,
        move |i, cx| {
            let mut r = Run::new(Cfg { size: None, direct: i % 2 == 1, mode: Mode::PerOp });
            for o in ops(i) {
                if !r.op(&o, cx) {
                    break;
                }
            }
            if !cx.failed() {
                r.finish(cx);
            }
        },
        move |i| ops(i).iter().map(|o| o.show()).collect::<Vec<_>>().join("; "),
    )
}
/// Texts a comparison, a filter or a shortcut could treat specially: single octets, the static names and values and
/// their near misses, pairs of odd octets.
pub fn tricky() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    v.extend((0..=255u8).map(|b| vec![b]));
    for (n, w) in STATIC.iter() {
        for t in [n.as_bytes(), w.as_bytes()] {
            if t.is_empty() {
                continue;
            }
            v.push(t.to_vec());
            v.push(t[..t.len() - 1].to_vec());
            v.push(t[1..].to_vec());
            v.push(t.to_ascii_uppercase());
            let mut u = t.to_vec();
            u[0] = u[0].to_ascii_uppercase();
            v.push(u);
            for x in [&b"x"[..], b" ", b"\0", b"-"] {
                v.push([t, x].concat());
            }
            v.push([b" ", t].concat());
            v.push([b":", t].concat());
        }
    }
    let odd = [b'a', b' ', 0, 0xff, 0x80, b':', b'\n', b'A', b'0'];
    for a in odd {
        for b in odd {
            v.push(vec![a, b]);
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Every such text as name, as value and as both, in every kind of field.
pub fn contents(modes: &[Mode]) -> Work {
    let t = tricky();
    let n = t.len() as u64;
    let modes = modes.to_vec();
    let k = modes.len() as u64;
    let ops = move |i: u64| -> (Vec<Op>, usize) {
        let c = coords(i, &[n, 3, 4, k]);
        let x = Val::V(t[c[0]].clone());
        let (a, b) = [(x.clone(), Val::S(b"v")), (Val::S(b"n"), x.clone()), (x.clone(), x.clone())][c[1]].clone();
        let l = |a: &Val, b: &Val, f| Op::Lit(a.clone(), b.clone(), f);
        let o = match c[2] {
            0 => vec![l(&a, &b, 4), l(&a, &b, 0x10), Op::Idx(Ix::A(62)), Op::Name(Ix::A(62), b.clone(), 8), l(&a, &b, 0x18), l(&a, &Val::S(b"other"), 0x14), l(&a, &b, 0x13)],
            1 => vec![l(&a, &b, 0), l(&a, &b, 8), l(&a, &b, 0x18), l(&a, &b, 0x10), l(&a, &b, 0xB), l(&a, &b, 3)],
            2 => vec![l(&a, &b, 0x17), l(&b, &a, 0x17), l(&a, &a, 0x16), l(&b, &b, 7), l(&a, &b, 0x10), l(&b, &a, 0x1B)],
            _ => vec![l(&Val::S(b"n"), &Val::S(b"v"), 4), l(&a, &b, 0x14), Op::Idx(Ix::A(62)), Op::Name(Ix::A(32), b.clone(), 6), Op::Upd(0), l(&a, &b, 0x10), Op::Upd(100), l(&a, &b, 0x14), l(&a, &b, 0x14)],
        };
        (o, c[3])
    };
    let o2 = ops.clone();
    let m2 = modes.clone();
    space(
        "odd contents (single octets, near misses of the static table) in every kind of field",
        n * 12 * k,
        move |i, cx| {
            let (o, m) = ops(i);
            let mut r = Run::new(Cfg { size: None, direct: i % 2 == 1, mode: modes[m] });
            for x in &o {
                if !r.op(x, cx) {
                    break;
                }
            }
            if !cx.failed() {
                r.finish(cx);
            }
        },
        move |i| {
            let (o, m) = o2(i);
            format!("{:?}: {}", m2[m], o.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "))
        },
    )
}
/// The static entries with exactly one of name and value changed a little.
pub fn near_static() -> Vec<Hdr> {
    let near = |t: &[u8]| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![vec![], t.to_ascii_uppercase(), t.to_ascii_lowercase(), [t, t].concat(), t.iter().rev().copied().collect()];
        for x in [&b" "[..], b"0", b"+", b"-", b"\0", b":", b"\"", b"/", b"\t", b"x", b".", b"00"] {
            v.push([x, t].concat());
            v.push([t, x].concat());
        }
        for k in 0..t.len() {
            let mut u = t.to_vec();
            u[k] ^= 0x20;
            v.push(u.clone());
            u[k] = t[k] ^ 1;
            v.push(u.clone());
            u[k] = t[k] | 0x80;
            v.push(u.clone());
            u.remove(k);
            v.push(u);
        }
        v.push([&t[..t.len().min(1)], b" ", &t[t.len().min(1)..]].concat());
        v.retain(|u| u != t);
        v.sort();
        v.dedup();
        v
    };
    let mut v: Vec<Hdr> = vec![];
    for (n, w) in STATIC.iter() {
        let (n, w) = (n.as_bytes(), w.as_bytes());
        v.extend(near(w).into_iter().map(|w| (n.to_vec(), w)));
        v.extend(near(n).into_iter().map(|n| (n, w.to_vec())));
    }
    v.sort();
    v.dedup();
    v
}
/// Such headers requested in best format, alone, as dynamic entries, and next to the true one.
pub fn near_misses() -> Work {
    let h = near_static();
    let n = h.len() as u64;
    let h2 = h.clone();
    space(
        "static entries with name or value changed a little, in best format and as entries",
        n * 2,
        move |i, cx| {
            let x = &h[(i / 2) as usize];
            let l = |f| Op::Lit(Val::V(x.0.clone()), Val::V(x.1.clone()), f);
            let ops = if i % 2 == 0 { vec![l(0x10), l(0x18), l(0x14), l(0x10), l(0x13), Op::Idx(Ix::A(62))] } else { vec![l(4), l(0x10), l(0x1B), Op::Name(Ix::A(62), Val::V(x.1.clone()), 8), l(0x14)] };
            let mut r = Run::new(Cfg { size: None, direct: false, mode: Mode::PerOp });
            for o in &ops {
                if !r.op(o, cx) {
                    return;
                }
            }
            r.finish(cx);
        },
        move |i| format!("({}, {}) {}", txt(&h2[(i / 2) as usize].0), txt(&h2[(i / 2) as usize].1), ["requested, then inserted", "inserted, then requested"][(i % 2) as usize]),
    )
}
/// Header lists which a careless comparison takes for one another: names and values over eight texts.
pub fn alike() -> Vec<Hdr> {
    let t: [&[u8]; 8] = [b"", b"a", b"b", b"ab", b"ba", b"aa", b"A", b"abab"];
    t.iter().flat_map(|n| t.iter().map(move |v| (n.to_vec(), v.to_vec()))).collect()
}
/// Two such headers in the table, then every one of them requested in best format.
pub fn confusable() -> Work {
    let h = alike();
    let n = h.len() as u64;
    let h2 = h.clone();
    space(
        "two entries out of 64 alike headers, then every one of them in best format",
        n * n * 2,
        move |i, cx| {
            let c = coords(i, &[n, n, 2]);
            let mut r = Run::new(Cfg { size: None, direct: false, mode: Mode::PerOp });
            let lit = |x: &Hdr, f| Op::Lit(Val::V(x.0.clone()), Val::V(x.1.clone()), f);
            if !r.op(&lit(&h[c[0]], 4), cx) || !r.op(&lit(&h[c[1]], 4), cx) {
                return;
            }
            for x in &h {
                if !r.op(&lit(x, [0x10, 0x18][c[2]]), cx) {
                    return;
                }
            }
            r.finish(cx);
        },
        move |i| {
            let c = coords(i, &[n, n, 2]);
            format!("entries {:?} and {:?}", h2[c[0]], h2[c[1]])
        },
    )
}
/// A name or value in lower case stored, its spellings in other cases sent in best format, and the other way round.
pub fn cases(max: usize) -> Work {
    let firsts: Vec<u8> = (b'a'..=b'z').chain([b':', b'0', 0xe9]).collect();
    let dims = [firsts.len() as u64, max as u64, 2, 2];
    let f2 = firsts.clone();
    space(
        format!("names and values of up to {} letters, every first letter, whose spellings differ in case", max),
        dims.iter().product(),
        move |i, cx| {
            let c = coords(i, &dims);
            let base: Vec<u8> = std::iter::once(firsts[c[0]]).chain((0..c[1]).map(|k| b'a' + (k * 5 % 26) as u8)).collect();
            let n = base.len();
            let mut forms = vec![base.clone()];
            for (a, b) in [(0, 1), (n - 1, n), (0, n), (1.min(n), n)] {
                let mut x = base.clone();
                x[a..b].make_ascii_uppercase();
                forms.push(x);
            }
            if base[0] == 0xe9 {
                forms.push([&[0xc9], &base[1..]].concat());
            }
            for (k, stored) in forms.iter().enumerate() {
                let mut r = Run::new(Cfg { size: None, direct: false, mode: Mode::PerOp });
                let op = |x: &[u8], f| if c[2] == 0 { Op::Lit(Val::V(x.to_vec()), Val::S(b"v"), f) } else { Op::Lit(Val::S(b"n"), Val::V(x.to_vec()), f) };
                if !r.op(&op(stored, 4), cx) {
                    return;
                }
                for (m, x) in forms.iter().enumerate() {
                    if (k == 0 || m == 0) && !r.op(&op(x, if c[3] == 0 { 0x10 } else { 0x1b }), cx) {
                        return;
                    }
                }
                r.finish(cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &dims);
            format!("{} beginning with {:?}, {} further letters, {}", ["name", "value"][c[2]], f2[c[0]] as char, c[1], ["best format", "best format, sensitive, Huffman"][c[3]])
        },
    )
}
/// The texts which differ from a base text of `len` octets at one place, or at two places in ways that preserve sums.
pub fn apart_texts(len: usize, kind: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    if kind == 8 {
        return match crate::collide::pairs().get(len - 1) {
            Some(p) => (p.1.clone(), vec![p.2.clone()]),
            None => (vec![], vec![]),
        };
    }
    let base: Vec<u8> = (0..len).map(|k| b'a' + (k * 7 % 26) as u8).collect();
    let mut v = vec![];
    for p in 0..len {
        let mut x = base.clone();
        match kind {
            0 => x[p] ^= 1,
            1 => x[p] ^= 0x20,
            2 => x[p] ^= 0x80,
            3 if p + 1 < len => x.swap(p, p + 1),
            4 => {
                x.remove(p);
            }
            5 => x.insert(p, b'a'),
            6 | 7 if len <= 40 => {
                for q in 0..len {
                    if q != p {
                        let mut y = base.clone();
                        if kind == 6 {
                            y[p] += 1;
                            y[q] -= 1;
                        } else {
                            y.swap(p, q);
                        }
                        v.push(y);
                    }
                }
            }
            _ => {}
        }
        if kind < 6 {
            v.push(x);
        }
    }
    v.retain(|x| *x != base);
    v.sort();
    v.dedup();
    (base, v)
}
pub const APART_KINDS: [&str; 9] = ["lowest bit of one octet", "case of one octet", "highest bit of one octet", "neighbours swapped", "one octet missing", "one octet more", "one octet up and one down", "two octets swapped", "texts that coincide under a common hash function (chosen by the length)"];
/// Lengths used with `apart_texts`.
pub fn apart_lens(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if deep { 300 } else { 70 }).collect();
    v.extend([100, 127, 128, 129, 200, 255, 256, 257, 300]);
    if deep {
        v.extend([511, 512, 513, 1000, 1024, 2000]);
    }
    v.sort();
    v.dedup();
    v
}
/// One entry, then every header in best format whose name or value differs from it in one or two places.
pub fn apart(deep: bool) -> Work {
    let lens = apart_lens(deep);
    let n = lens.len() as u64;
    let l2 = lens.clone();
    space(
        "one entry, then headers in best format that differ from it at one place or two",
        n * 9 * 2,
        move |i, cx| {
            let c = coords(i, &[n, 9, 2]);
            let (base, others) = apart_texts(lens[c[0]], c[1]);
            let mut r = Run::new(Cfg { size: Some(1 << 20), direct: true, mode: Mode::PerOp });
            let lit = |x: &[u8], f| {
                let (a, b) = (Val::V(x.to_vec()), Val::S(b"w"));
                if c[2] == 0 {
                    Op::Lit(a, b, f)
                } else {
                    Op::Lit(b, a, f)
                }
            };
            if !r.op(&lit(&base, 4), cx) {
                return;
            }
            for x in &others {
                if !r.op(&lit(x, 0x10), cx) {
                    return;
                }
            }
            r.finish(cx);
        },
        move |i| {
            let c = coords(i, &[n, 9, 2]);
            format!("{} of {} octets: {}", ["name", "value"][c[2]], l2[c[0]], APART_KINDS[c[1]])
        },
    )
}
/// The `k`-th word over 26 letters.
pub fn word(mut k: u64) -> Vec<u8> {
    let mut v = vec![];
    while k > 0 {
        k -= 1;
        v.push(b'a' + (k % 26) as u8);
        k /= 26;
    }
    v
}
pub fn distinct(kind: usize, k: u64) -> Hdr {
    match kind {
        0 => (word(k), b"v".to_vec()),
        1 => (b"n".to_vec(), word(k)),
        2 => (word(k / 600), word(k % 600)),
        _ => (word(k % 600), word(k / 600)),
    }
}
/// One connection that carries very many headers, no two alike (a short fingerprint cannot tell them all apart).
pub fn all_distinct(n: u64) -> Work {
    const F: [u8; 6] = [0, 4, 0x14, 7, 0x10, 8];
    space(
        format!("connections that carry {} headers, no two alike", n),
        4 * 6,
        move |i, cx| {
            let (kind, f) = ((i / 6) as usize, F[(i % 6) as usize]);
            let (mut e, mut d) = (Encoder::default(), Decoder::default());
            let (mut o, mut got) = (vec![], vec![]);
            for k in 1..=n {
                let x = distinct(kind, k);
                let r = e.encode((x.0.clone(), x.1.clone(), f), &mut o);
                let r2 = d.decode(&mut o, &mut got);
                cx.step();
                let ok = r.is_ok() && r2.is_ok() && o.is_empty() && got.len() == 1 && got[0].0 == x.0 && got[0].1 == x.1;
                cx.check("H01 H02 H06 H11", ok, || format!("header {}: sent {} {} with flags {:#x}, received {:?} ({:?}, {:?})", k, txt(&x.0), txt(&x.1), f, got, r, r2));
                if cx.failed() {
                    return;
                }
                got.clear();
            }
            cx.state(i);
        },
        move |i| format!("kind {}, flags {:#x}", i / 6, F[(i % 6) as usize]),
    )
}
/// One block of very many fields in one delivery, and several blocks.
pub fn many_fields(pow: u32, modes: &[Mode]) -> Work {
    let mut lens: Vec<usize> = (0..=300).collect();
    for k in 9..=pow {
        lens.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    let n = lens.len() as u64;
    let l2 = lens.clone();
    let modes = modes.to_vec();
    let k = modes.len() as u64;
    let m2 = modes.clone();
    space(
        format!("blocks of every number of fields up to 300 and around powers of two up to 2^{}", pow),
        n * 4 * k,
        move |i, cx| {
            let c = coords(i, &[n, 4, k]);
            let mut r = Run::new(Cfg { size: [None, Some(70)][c[1] % 2], direct: false, mode: modes[c[2]] });
            for round in 0..2 {
                for j in 0..lens[c[0]] {
                    let op = match (c[1], j % 5) {
                        (0, _) => Op::Idx(Ix::A(1 + (j % 61) as u32)),
                        (1, 0) => Op::Lit(Val::R(b'a' + (j % 26) as u8, 1), Val::R(b'x', j % 3), 4),
                        (1, 1) => Op::Idx(Ix::A(62)),
                        (1, 2) => Op::Lit(Val::S(b"s"), Val::R(b'x', j % 4), 8),
                        (1, 3) => Op::Upd([70, 40, 0][j % 3]),
                        (2, 0) => Op::Upd([4096, 40, 100][j % 3]),
                        (3, _) => Op::Lit(Val::R(b'a' + (j % 26) as u8, j % 3), Val::R(b'x', j % 7), 7),
                        _ => Op::Lit(Val::R(b'k', 1 + j % 3), Val::R(b'0', j % 4), 0x13),
                    };
                    if !r.op(&op, cx) {
                        return;
                    }
                }
                if !r.deliver(cx) {
                    return;
                }
                if round == 0 && lens[c[0]] > 1000 {
                    break;
                }
            }
            r.finish(cx);
        },
        move |i| {
            let c = coords(i, &[n, 4, k]);
            format!("{} fields, pattern {}, {:?}", l2[c[0]], c[1], m2[c[2]])
        },
    )
}
/// One connection living for `n` operations of a periodic pattern; compared with the model all along.
pub fn long_lived(n: usize) -> Work {
    const SIZES: [Option<u32>; 3] = [None, Some(100), Some(700)];
    space(
        format!("connections living for {} operations", n),
        3 * 4 * 2,
        move |i, cx| {
            let c = coords(i, &[3, 4, 2]);
            let mode = [Mode::PerOp, Mode::Whole][c[2]];
            let mut r = Run::new(Cfg { size: SIZES[c[0]], direct: false, mode });
            let ins = |k: usize| Op::Lit(Val::R(b'a' + (k % 7) as u8, 1 + k % 3), Val::R(b'0' + (k % 10) as u8, k % 11), 0x14);
            for k in 0..n {
                let op = match (c[1], k % 8) {
                    (0, _) => ins(k),
                    (1, 3) => Op::Idx(Ix::A(62)),
                    (1, 6) => Op::Name(Ix::A(62), Val::R(b'w', k % 5), 4),
                    (1, 7) => Op::Lit(Val::S(b"k"), Val::R(0xfe, k % 9), 0x1B),
                    (2, 5) => Op::Upd([0u32, 40, 100][k / 8 % 3]),
                    (2, 7) => Op::Idx(Ix::A(2)),
                    (3, 2) => Op::Idx(Ix::Past),
                    (3, 4) => Op::Limit(4096 + (k % 3) as u32),
                    (3, 6) => Op::Lit(Val::S(b":method"), Val::S(b"GET"), 0x10),
                    _ => ins(k),
                };
                if !r.op(&op, cx) {
                    break;
                }
                // whole blocks of 50 operations
                if mode == Mode::Whole && k % 50 == 49 && !r.deliver(cx) {
                    break;
                }
            }
            if !cx.failed() {
                r.finish(cx);
            }
        },
        move |i| {
            let c = coords(i, &[3, 4, 2]);
            format!("table {:?}, pattern {}, {}", SIZES[c[0]], c[1], if c[2] == 0 { "field by field" } else { "blocks of 50 operations" })
        },
    )
}
/// Splits the literal fields written above (one-octet name, four-octet value) without parsing.
fn chunk_fields(w: &[u8]) -> Vec<&[u8]> {
    if w.len() % 8 == 0 {
        w.chunks(64).collect()
    } else {
        vec![w]
    }
}

/// The indexing form at every index: entries with distinct names are added one by one while the oldest entry, whose
/// index grows with every insertion, is referred to again and again.
pub fn index_with_insert(upto: u32) -> Work {
    space(
        format!("name index with indexing, every index up to {}", upto),
        2,
        move |i, cx| {
            let mut e = Encoder::with_dynamic_size(1 << 28);
            let mut d = Decoder::with_dynamic_size(1 << 28);
            let mut count = 0u32;
            let lit = |name: String, e: &mut Encoder, d: &mut Decoder, cx: &mut Cx| {
                let (mut out, mut o) = (vec![], vec![]);
                let r = e.encode((name.clone().into_bytes(), vec![], 4u8), &mut out);
                let r2 = d.decode(&mut out, &mut o);
                let ok = r.is_ok() && r2.is_ok() && o.len() == 1 && o[0].0 == name.as_bytes();
                cx.check("H01", ok, || format!("insertion of {} failed: {:?} {:?}", name, r, r2));
                ok
            };
            if !lit("oldest".into(), &mut e, &mut d, cx) {
                return;
            }
            count += 1;
            for k in 0..=i {
                if !lit(format!("filler{}", k), &mut e, &mut d, cx) {
                    return;
                }
                count += 1;
            }
            while 61 + count <= upto {
                let x = 61 + count;
                cx.step();
                let mut out = vec![];
                let r = e.encode((x, vec![b'v'], 4u8), &mut out);
                let mut want = int_enc(x as u64, 6, 0x40);
                want.extend([1, b'v']);
                cx.check("H12", r.is_ok() && out == want, || format!("index {} prefix 6: {:?} {} instead of {}", x, r, hex(&out), hex(&want)));
                let mut o = vec![];
                let r = d.decode(&mut want.clone(), &mut o);
                let ok = r == Ok(want.len()) && o == vec![(b"oldest".to_vec(), vec![b'v'], 4)];
                cx.check("H12 H06 H01", ok, || format!("{} (index {}): {:?} [{}]", hex(&want), x, r, fields(&o)));
                if cx.failed() || !lit(format!("n{}", x), &mut e, &mut d, cx) {
                    return;
                }
                count += 2;
            }
            cx.state(i);
        },
        move |i| format!("indices {}, {}, .. up to {}", 63 + i, 65 + i, upto),
    )
}

/// Size signals: every value of a block of 2^16, written by the encoder, accepted under a limit equal to the value
/// and refused under a smaller one (so the decoder must have read exactly this value).
pub fn sizes_block(name: &str, first: u64, blocks_n: u64, per: u64) -> Work {
    let w = per;
    blocks(
        format!("size signals {}", name),
        blocks_n,
        per,
        move |i, cx| {
            let mut e = Encoder::default();
            let mut d = Decoder::default();
            let mut out = Vec::with_capacity(16);
            let mut o = vec![];
            let mut buf = Vec::with_capacity(16);
            for v in first + i * w..first + (i + 1) * w {
                let v32 = v as u32;
                cx.steps += 1;
                out.clear();
                let r = e.update_max_dynamic_size(v32, &mut out);
                let want = int_enc(v, 5, 0x20);
                let ok = r.is_ok() && out == want && e.max_dynamic_size() == v32;
                if !ok {
                    cx.check("H12 H05", false, || format!("size {}: {:?} {} instead of {}, reported {}", v, r, hex(&out), hex(&want), e.max_dynamic_size()));
                    return;
                }
                if v > HPACK_MAX_INT5 {
                    continue;
                }
                for (lim, ok) in [(v32, true), (v32.wrapping_sub(1), false)] {
                    if v == 0 && !ok {
                        continue;
                    }
                    d.set_max_dynamic_size(lim);
                    buf.clear();
                    buf.extend_from_slice(&want);
                    let r = d.decode(&mut buf, &mut o);
                    let good = if ok { r == Ok(want.len()) && buf.is_empty() } else { r == Err(DecoderError::InvalidMaxDynamicSize) && buf == want };
                    if !good {
                        cx.check("H12 H05", false, || format!("size {} ({}) under limit {}: {:?}", v, hex(&want), lim, r));
                        return;
                    }
                }
            }
            cx.state(first + i);
        },
        move |i| format!("sizes {}..{}", first + i * w, first + (i + 1) * w - 1),
    )
}
/// The encoder alone (values whose signals need more than five octets included).
pub fn sizes_enc(name: &str, first: u64, blocks_n: u64, per: u64) -> Work {
    blocks(
        format!("size signals written, {}", name),
        blocks_n,
        per,
        move |i, cx| {
            let mut e = Encoder::default();
            let mut out = Vec::with_capacity(16);
            for v in first + i * per..first + (i + 1) * per {
                cx.steps += 1;
                out.clear();
                let r = e.update_max_dynamic_size(v as u32, &mut out);
                if r.is_err() || out != int_enc(v, 5, 0x20) {
                    cx.check("H12 H05", false, || format!("size {}: {:?} {}", v, r, hex(&out)));
                    return;
                }
            }
            cx.state(first + i);
        },
        move |i| format!("sizes {}..{}", first + i * per, first + (i + 1) * per - 1),
    )
}

/// Integer octet strings: every first octet of an integer field with continuation octets from an edge alphabet.
pub fn int_strings(n: usize) -> Work {
    const A: [u8; 16] = [0, 1, 2, 0x1f, 0x20, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xc0, 0xe1, 0xfe, 0xff];
    let firsts: Vec<u8> = vec![0x3f, 0x3e, 0x21];
    let len = firsts.len() as u64 * (A.len() as u64).pow(n as u32);
    let f2 = firsts.clone();
    let mk = move |i: u64, f: &[u8]| -> Vec<u8> {
        let k = (A.len() as u64).pow(n as u32);
        let mut b = vec![f[(i / k) as usize]];
        b.extend(digits(i % k, A.len() as u64, n).iter().map(|d| A[*d]));
        b
    };
    space(
        format!("size fields of 1+{} octets", n),
        len,
        move |i, cx| {
            let b = mk(i, &firsts);
            cx.step();
            let exp = int_dec(&b, 5);
            let try_ = |lim: u32| {
                let mut d = Decoder::with_dynamic_size(0);
                d.set_max_dynamic_size(lim);
                // one octet string, one field: what follows the integer is ignored here
                let used = match exp {
                    Ok((_, k)) => k,
                    Err(_) => b.len(),
                };
                d.decode(&mut b[..used].to_vec(), &mut vec![])
            };
            match exp {
                Ok((v, k)) => {
                    let r = try_(v as u32);
                    cx.check("H12 H05", r == Ok(k), || format!("{}: {:?} under limit {} (value {})", hex(&b), r, v, v));
                    if v > 0 {
                        let r = try_(v as u32 - 1);
                        cx.check("H12 H05", r == Err(DecoderError::InvalidMaxDynamicSize), || format!("{}: {:?} under limit {} (value {})", hex(&b), r, v - 1, v));
                    }
                    cx.outcome(v);
                }
                Err(f) => {
                    let r = try_(u32::MAX);
                    let ok = matches!(&r, Err(e) if ebit(e) & f != 0);
                    cx.check("H12", ok, || format!("{}: {:?}, expected fault {:#x}", hex(&b), r, f));
                }
            }
            cx.state(h(&exp));
        },
        move |i| hex(&mk(i, &f2)),
    )
}
/// Integers cut short and over-long, for the index and length positions of every kind of field.
pub fn int_cut() -> Work {
    let mut cases: Vec<(Vec<u8>, u8)> = vec![];
    for head in [vec![0xffu8], vec![0x7f], vec![0x0f], vec![0x1f], vec![0x3f], vec![0x40, 0x7f], vec![0x40, 0xff], vec![0x40, 0, 0x7f], vec![0x42, 0x7f], vec![0x10, 0x01, b'n', 0xff], vec![0x02, 0xff], vec![0x0f, 0x00, 0x7f]] {
        for k in 0..=4usize {
            for c in [0x80u8, 0x81, 0xff] {
                let mut b = head.clone();
                b.extend(vec![c; k]);
                cases.push((b.clone(), if k == 4 { OVER } else { UNDER }));
                if k == 4 {
                    for t in [0u8, 1, 0x7f, 0x80, 0xff] {
                        for m in 1..4 {
                            let mut b2 = b.clone();
                            b2.extend(vec![t; m]);
                            cases.push((b2, OVER));
                        }
                    }
                }
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    space(
        "integers cut short or over-long in every position",
        cases.len() as u64,
        move |i, cx| {
            cx.step();
            let (b, f) = &cases[i as usize];
            let mut d = Decoder::with_dynamic_size(u32::MAX);
            let r = d.decode(&mut b.clone(), &mut vec![]);
            let ok = matches!(&r, Err(e) if ebit(e) & f != 0);
            cx.check("H12", ok, || format!("{}: {:?}, expected fault {:#x}", hex(b), r, f));
            cx.state(h(&(b.len(), f)));
        },
        move |i| hex(&c2[i as usize].0),
    )
}

/// Sizes no five-octet integer can carry (known finding) and their neighbours, under the largest limit.
pub fn huge_sizes() -> Work {
    let mut v: Vec<u32> = vec![];
    for k in 20..32u32 {
        for d in -2i64..=2 {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    for d in -3i64..=3 {
        v.push((HPACK_MAX_INT5 as i64 + d) as u32);
    }
    v.extend([u32::MAX, u32::MAX - 1]);
    let v = Arc::new(v);
    let v2 = v.clone();
    space(
        "size signals in a connection with the largest limit",
        v.len() as u64 * 4,
        move |i, cx| {
            let n = v[(i / 4) as usize];
            let pre = i % 4;
            let mut r = Run::new(Cfg { size: None, direct: false, mode: Mode::PerOp });
            let ops = [Op::Limit(u32::MAX), Op::Lit(Val::S(b"a"), Val::S(b"x"), 4), Op::Upd(n), Op::Idx(Ix::A(62)), Op::Upd(64)];
            for (k, o) in ops.iter().enumerate() {
                if (k == 1 && pre & 1 == 0) || (k == 3 && pre & 1 == 0) || (k == 4 && pre & 2 == 0) {
                    continue;
                }
                if !r.op(o, cx) {
                    break;
                }
            }
            if !cx.failed() {
                r.finish(cx);
            }
        },
        move |i| format!("decoder limit 4294967295; {}size_update({})", if i % 2 == 1 { "one entry; " } else { "" }, v2[(i / 4) as usize]),
    )
}
/// Limits and sizes around each other, with and without entries.
pub fn limit_grid() -> Work {
    let g: Vec<u32> = vec![0, 1, 30, 31, 32, 33, 34, 35, 63, 64, 66, 67, 68, 69, 100, 127, 128, 158, 159, 160, 4095, 4096, 4097, 16_414, 16_415, 65_535, 65_536, 1 << 20, 1 << 24, 1 << 28, HPACK_MAX_INT5 as u32, 1 << 31, u32::MAX];
    let n = g.len() as u64;
    let g2 = g.clone();
    space(
        "limit x size x entries",
        n * n * 4,
        move |i, cx| {
            let c = coords(i, &[n, n, 4]);
            if g[c[1]] as u64 > HPACK_MAX_INT5 {
                return; // known finding, see `huge_sizes`
            }
            let mut r = Run::new(Cfg { size: None, direct: c[2] & 1 == 1, mode: Mode::PerOp });
            for k in 0..c[2] {
                if !r.op(&Op::Lit(Val::S([&b"a"[..], b"bb", b""][k]), Val::S(b"x"), 4), cx) {
                    return;
                }
            }
            if r.op(&Op::Limit(g[c[0]]), cx) && r.op(&Op::Upd(g[c[1]]), cx) {
                r.op(&Op::Lit(Val::S(b"c"), Val::S(b"d"), 4), cx);
            }
            if !cx.failed() {
                r.finish(cx);
            }
        },
        move |i| {
            let c = coords(i, &[n, n, 4]);
            format!("{} entries, limit {}, size {}", c[2], g2[c[0]], g2[c[1]])
        },
    )
}

/// The flag constants of the public interface, used as documented: every combination, in every form, on several tables.
pub fn public_flags() -> Work {
    const ASK: [(&[u8], &[u8]); 5] = [(b":method", b"GET"), (b"cookie", b"a=b"), (b"x-new", b"plain value 0"), (b"x-old", b"v0"), (b"", b"")];
    let named = |s: u64| -> u8 {
        [Encoder::HUFFMAN_NAME, Encoder::HUFFMAN_VALUE, Encoder::WITH_INDEXING, Encoder::NEVER_INDEXED, Encoder::BEST_FORMAT]
            .iter()
            .enumerate()
            .fold(0, |a, (k, f)| if s >> k & 1 == 1 { a | f } else { a })
    };
    space(
        "flags given by the named constants: every combination, form and field on three tables",
        32 * 5 * 3 * 3,
        move |i, cx| {
            let c = coords(i, &[32, 5, 3, 3]);
            let (s, (n, v), form, tab) = (c[0] as u64, ASK[c[1]], c[2], c[3]);
            if s & 0xC == 0xC {
                return; // sensitive and indexed at once has no defined meaning
            }
            let (mut e, mut d) = (Encoder::default(), Decoder::default());
            let mut sink = vec![];
            for k in 0..tab * 2 {
                let mut w = vec![];
                let _ = e.encode((b"x-old".to_vec(), vec![b'v', b'0' + k as u8], 0x4u8), &mut w);
                let _ = d.decode(&mut w, &mut sink);
            }
            let index = 62 + (tab as u32 * 2).saturating_sub(1);
            let mut out = vec![];
            let f = named(s);
            let name: Vec<u8>;
            let r = match form {
                0 => {
                    name = n.to_vec();
                    e.encode((n.to_vec(), v.to_vec(), f), &mut out)
                }
                1 => {
                    name = n.to_vec();
                    e.encode_literal(n.to_vec(), v.to_vec(), f, &mut out)
                }
                _ if tab == 0 => {
                    name = b"cookie".to_vec();
                    e.encode((32u32, v.to_vec(), f), &mut out)
                }
                _ => {
                    name = b"x-old".to_vec();
                    e.encode_indexed_name(index, v.to_vec(), f, &mut out)
                }
            };
            cx.step();
            let what = || format!("flags {:#04x} ({:#07b} by name), field ({}, {}), form {}, table {}", f, s, txt(&name), txt(v), form, tab);
            cx.note(|| format!("{} -> {:?} {}", what(), r, hex(&out)));
            let Some(p) = parse(&out).ok().filter(|p| r.is_ok() && p.len == out.len()) else {
                cx.check("H01 H11 H10", false, || format!("{}: {:?} {}", what(), r, hex(&out)));
                return;
            };
            let best = s & 0x10 != 0 && form == 0 && s & 8 == 0 && (c[1] == 0 || c[1] == 3 && tab > 0);
            let kind = if best { Kind::Indexed } else if s & 4 != 0 { Kind::Inc } else if s & 8 != 0 { Kind::Never } else { Kind::Without };
            cx.check("H11", p.kind == kind, || format!("{}: {} is {:?}", what(), hex(&out), p.kind));
            cx.check("H10", s & 8 == 0 || p.kind == Kind::Never, || format!("{}: {} is {:?}", what(), hex(&out), p.kind));
            if let Some(x) = &p.name {
                cx.check("H11", x.huff == (s & 1 != 0), || format!("{}: name in {}", what(), hex(&out)));
            }
            if let Some(x) = &p.value {
                cx.check("H11", x.huff == (s & 2 != 0), || format!("{}: value in {}", what(), hex(&out)));
            }
            let mut fs = vec![];
            let r = d.decode(&mut out.clone(), &mut fs);
            let good = r.is_ok() && fs.len() == 1 && fs[0].0 == name && fs[0].1 == v;
            cx.check("H01 H06", good, || format!("{}: {} comes back as {:?} [{}]", what(), hex(&out), r, fields(&fs)));
            if let Some(x) = fs.first() {
                let never = x.2 & Decoder::NEVER_INDEXED == Decoder::NEVER_INDEXED;
                let inc = x.2 & Decoder::WITH_INDEXING == Decoder::WITH_INDEXING;
                cx.check("H10 H06", never == (p.kind == Kind::Never), || format!("{}: {} comes back with marks {:#x}, the sensitive mark is {:#x}", what(), hex(&out), x.2, Decoder::NEVER_INDEXED));
                cx.check("H06", inc == (p.kind == Kind::Inc), || format!("{}: {} comes back with marks {:#x}, the indexing mark is {:#x}", what(), hex(&out), x.2, Decoder::WITH_INDEXING));
            }
            cx.state(h(&(i, &out)));
        },
        move |i| format!("case {:?}", coords(i, &[32, 5, 3, 3])),
    )
}
/// How much room the vectors given by the caller have, and what the decoder's output already holds: no effect.
pub fn rooms(modes: &[Mode], deep: bool) -> Work {
    let enc: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 64, 4096, 70_000] } else { vec![0, 1, 2, 5, 64, 4096] };
    let buf: Vec<usize> = if deep { vec![0, 1, 7, 64, 4096, 70_000] } else { vec![0, 64, 4096] };
    let dst: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 8, 64, 100] } else { vec![0, 1, 3, 64] };
    let prior: Vec<usize> = if deep { vec![0, 1, 2, 3, 7, 64] } else { vec![0, 1, 3] };
    let ops = Arc::new(full());
    let modes = modes.to_vec();
    let dims = [ops.len() as u64, 2, 2, enc.len() as u64, buf.len() as u64, dst.len() as u64, prior.len() as u64, modes.len() as u64];
    let (o2, m2, e2, b2, d2, p2) = (ops.clone(), modes.clone(), enc.clone(), buf.clone(), dst.clone(), prior.clone());
    space(
        "room in the caller's vectors and fields already delivered: every operation in a short connection",
        dims.iter().product(),
        move |i, cx| {
            let c = coords(i, &dims);
            let mut r = Run::new(Cfg { size: [None, Some(68)][c[2]], direct: c[0] % 2 == 1, mode: modes[c[7]] });
            r.room = [enc[c[3]], buf[c[4]], dst[c[5]], prior[c[6]]];
            let l = |n: &'static [u8], v: &'static [u8], f| Op::Lit(Val::S(n), Val::S(v), f);
            let mut h = vec![];
            if c[1] == 1 {
                h.push(l(b"a", b"x", 4));
            }
            h.extend([ops[c[0]].clone(), l(b"c", b"d", 0), Op::Idx(Ix::A(2)), l(b"c", b"dd", 7)]);
            for o in &h {
                if !r.op(o, cx) {
                    return;
                }
            }
            r.finish(cx);
        },
        move |i| {
            let c = coords(i, &dims);
            format!("{} after {} insertions, table {}, {:?}, spare room {} / {} / {}, {} fields delivered before", o2[c[0]].show(), c[1], ["default", "68"][c[2]], m2[c[7]], e2[c[3]], b2[c[4]], d2[c[5]], p2[c[6]])
        },
    )
}
