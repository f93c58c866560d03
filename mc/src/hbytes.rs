//! HPACK decoder on byte strings: exhaustive strings, field grammars with truncation and corruption,
//! fragmentation, bounded decoding. Oracle: href::RefDecoder.

use crate::engine::*;
use crate::href::*;
use crate::hsession::{ebit, prior_fields, probe_dec, roomy};
use httlib_hpack::{Decoder, DecoderError};
use std::sync::Arc;

// ------------------------------------------------------------ starting states

#[derive(Clone)]
pub struct Start {
    pub name: &'static str,
    pub size: u32,
    pub block: Vec<u8>,
    pub limit: Option<u32>,
}
fn lit_inc(n: &[u8], v: &[u8]) -> Vec<u8> {
    let mut b = vec![0x40];
    b.extend(int_enc(n.len() as u64, 7, 0));
    b.extend(n);
    b.extend(int_enc(v.len() as u64, 7, 0));
    b.extend(v);
    b
}
pub fn starts() -> Vec<Start> {
    let cat = |v: Vec<Vec<u8>>| v.concat();
    let many: Vec<u8> = (0..70u32).flat_map(|k| lit_inc(b"m", format!("{}", k).as_bytes())).collect();
    vec![
        Start { name: "fresh", size: 4096, block: vec![], limit: None },
        Start { name: "3 entries", size: 4096, block: cat(vec![lit_inc(b"a", b"x"), lit_inc(b"bb", b"y"), lit_inc(b":method", b"PUT")]), limit: None },
        Start { name: "size 70 full", size: 70, block: cat(vec![lit_inc(b"a", b"x"), lit_inc(b"b", b"y")]), limit: None },
        Start { name: "no table", size: 0, block: vec![], limit: None },
        Start { name: "limit below table", size: 100, block: cat(vec![lit_inc(b"a", b"x"), lit_inc(b"", b"")]), limit: Some(40) },
        Start { name: "70 entries", size: 4096, block: many, limit: None },
        Start { name: "shrunk table", size: 200, block: cat(vec![lit_inc(b"a", b"x"), lit_inc(b"b", b"y"), int_enc(50, 5, 0x20)]), limit: None },
        Start { name: "largest table", size: u32::MAX, block: cat(vec![lit_inc(b"a", b"x"), lit_inc(b"bb", b"y"), lit_inc(b"", b"")]), limit: None },
    ]
}
impl Start {
    pub fn make(&self) -> (Decoder<'static>, RefDecoder) {
        let mut d = if self.size == 4096 { Decoder::default() } else { Decoder::with_dynamic_size(self.size) };
        let mut r = RefDecoder::new(self.size as u64);
        if !self.block.is_empty() {
            let mut o = vec![];
            let _ = d.decode(&mut self.block.clone(), &mut o);
            r.block(&self.block);
        }
        if let Some(l) = self.limit {
            d.set_max_dynamic_size(l);
            r.limit = l as u64;
        }
        (d, r)
    }
}

/// Checks the exact current maximum of the decoder table (consumes the decoder's table content).
fn probe_max(d: &mut Decoder, max: u64) -> Result<(), String> {
    let lits = |n: u64| lit_inc(b"", &vec![b'p'; (n - 32) as usize]);
    let m = max.max(31);
    for (n, stored) in [(m, true), (m + 1, false)] {
        if n < 32 || n > 1 << 20 {
            continue;
        }
        let mut o = vec![];
        let r = d.decode(&mut lits(n), &mut o);
        let e = probe_dec(d, 5000)?;
        let ok = r.is_ok() && e.len() == stored as usize;
        if !ok {
            return Err(format!("after inserting an entry of size {} into a table with maximum {}: {} entries", n, max, e.len()));
        }
    }
    Ok(())
}

/// Feeds `bytes` in one call and compares everything observable with the reference.
pub fn feed(d: &mut Decoder, r: &mut RefDecoder, bytes: &[u8], cx: &mut Cx) -> u8 {
    feed_in([0; 3], d, r, bytes, cx)
}
/// The same with spare room for octets and fields, and with fields delivered before.
fn feed_in(room: [usize; 3], d: &mut Decoder, r: &mut RefDecoder, bytes: &[u8], cx: &mut Cx) -> u8 {
    cx.step();
    let mut buf = roomy(bytes, room[0]);
    let prior = prior_fields(room[2]);
    let mut out: Vec<Field> = roomy(&prior, room[1]);
    cx.alloc_reset();
    let res = d.decode(&mut buf, &mut out);
    let alloc = cx.alloc_max();
    if room[2] > 0 {
        let kept = out.len() >= prior.len() && out[..prior.len()] == prior[..];
        cx.check("H06 H08 H13", kept, || format!("{}: fields delivered earlier were altered: [{}]", hex(bytes), fields(&out)));
        if !kept {
            return 0;
        }
        out.drain(..prior.len());
    }
    let (want, used, faults) = r.block(bytes);
    cx.note(|| format!("decode {} -> {:?} [{}] rest {}", hex(bytes), res, fields(&out), hex(&buf)));
    cx.note(|| format!("   expected [{}], {} octets, faults {:#x}", fields(&want), used, faults));
    let b = || format!("{} after {:?} entries (limit {})", hex(bytes), r.t.e.len(), r.limit);
    match (&res, faults) {
        (Ok(_), 0) => {
            cx.check("H06", out == want, || format!("{}: decoded [{}] instead of [{}]", b(), fields(&out), fields(&want)));
            cx.check("H06", buf.is_empty(), || format!("{}: {} left unread after success", b(), hex(&buf)));
            cx.check("H13", res == Ok(bytes.len() - buf.len()), || format!("{}: returned {:?} for {} octets removed", b(), res, bytes.len() - buf.len()));
        }
        (Ok(_), f) => cx.check("H06", false, || format!("{}: accepted as [{}] although malformed (faults {:#x})", b(), fields(&out), f)),
        (Err(e), 0) => cx.check("H06 H07", false, || format!("{}: valid block refused with {:?}", b(), e)),
        (Err(e), f) => {
            cx.check("H06", ebit(e) & f != 0, || format!("{}: refused with {:?}, expected fault set {:#x}", b(), e, f));
            cx.check("H06 H08", out == want, || format!("{}: delivered [{}] instead of [{}] before the error", b(), fields(&out), fields(&want)));
            cx.check("H08", buf == bytes[used..], || format!("{}: unread {} instead of {}", b(), hex(&buf), hex(&bytes[used..])));
        }
    }
    if cx.want("H07") {
        let bound = 8192 + 512 * bytes.len() as u64 + 4 * r.t.max.max(r.limit).min(1 << 16);
        cx.check("H07", alloc <= bound, || format!("{}: single allocation of {} octets", b(), alloc));
    }
    cx.outcome(h(&(faults, used, want.len())));
    faults
}
/// State after the last feed; probes destructively.
pub fn settle(d: &mut Decoder, r: &RefDecoder, cx: &mut Cx, failed: bool) {
    if cx.want("H07") {
        let mut o = vec![];
        let res = d.decode(&mut vec![0x82, 0x00, 0x01, b'k', 0x01, b'v'], &mut o);
        let ok = res.is_ok() && o.len() == 2 && o[0].1 == b"GET" && o[1].0 == b"k" && o[1].1 == b"v";
        cx.check("H07", ok, || format!("decoder unusable afterwards: {:?} [{}]", res, fields(&o)));
    }
    if cx.want("H06") || (cx.want("H08") && failed) {
        match probe_dec(d, 5000) {
            Ok(e) => cx.check("H06 H08", e.iter().eq(r.t.e.iter()), || format!("table {:?} instead of {:?}", e, r.t.e)),
            Err(m) => cx.check("H06 H08", false, || m),
        }
    }
    if cx.want("H08") && failed {
        let m = d.max_dynamic_size();
        cx.check("H08", m as u64 == r.limit, || format!("reported limit {} instead of {}", m, r.limit));
        if !cx.failed() {
            let p = probe_max(d, r.t.max);
            cx.check("H08", p.is_ok(), || p.unwrap_err());
        }
    }
    cx.state(h(&(&r.t.e, r.t.max, r.limit)));
}
fn one(st: &Start, bytes: &[u8], cx: &mut Cx) {
    let (mut d, mut r) = st.make();
    let bad = feed(&mut d, &mut r, bytes, cx) != 0;
    settle(&mut d, &r, cx, bad);
}

/// All byte strings of length `n` over `alpha`.
pub fn strings(name: &str, alpha: Vec<u8>, n: usize, st: Start) -> Work {
    let len = (alpha.len() as u64).pow(n as u32);
    let alpha = Arc::new(alpha);
    let a2 = alpha.clone();
    let st2 = st.clone();
    let mk = move |i: u64, a: &[u8]| -> Vec<u8> { digits(i, a.len() as u64, n).iter().map(|k| a[*k]).collect() };
    let mk2 = mk.clone();
    space(
        format!("{} of {} octets, decoder {}", name, n, st.name),
        len,
        move |i, cx| one(&st, &mk(i, &alpha), cx),
        move |i| format!("decoder {}: decode {}", st2.name, hex(&mk2(i, &a2))),
    )
}
pub fn all_bytes() -> Vec<u8> {
    (0..=255).collect()
}
/// Octets at the boundaries of the representation, prefix and continuation encodings.
pub fn edge_bytes() -> Vec<u8> {
    vec![0x00, 0x01, 0x02, 0x03, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xbe, 0xbf, 0xc0, 0xff]
}

// ------------------------------------------------------------ field grammar

pub fn valid_tokens() -> Vec<Vec<u8>> {
    let str_h = |s: &[u8]| {
        let e = huff_enc(s);
        let mut v = int_enc(e.len() as u64, 7, 0x80);
        v.extend(e);
        v
    };
    let mut t: Vec<Vec<u8>> = vec![
        vec![0x82],
        vec![0xbd],
        lit_inc(b"a", b"x"),
        lit_inc(b"", b""),
        [vec![0x40], str_h(b"ab"), str_h(b"\xff?")].concat(),
        vec![0x42, 0x01, b'q'],                       // static name, indexing
        vec![0x7f, 0x00, 0x00],                       // name index 63
        vec![0x0f, 0x2f, 0x01, b'w'],                 // name index 62, without indexing
        vec![0x02, 0x00],
        [vec![0x00, 0x01, b'n'], str_h(b"vv")].concat(),
        vec![0x10, 0x01, b's', 0x01, b't'],
        vec![0x1f, 0x11, 0x82, 0x94, 0xe7],           // name index 32 (cookie), never indexed, Huffman "foo"
        vec![0x20],
        int_enc(33, 5, 0x20),
        int_enc(34, 5, 0x20),
        int_enc(70, 5, 0x20),
        vec![0xbe],                                   // index 62
        vec![0xbf],                                   // index 63
        vec![0xff, 0x04],                             // index 131
        vec![0x0f, 0x80, 0x00, 0x00],                 // name index 15, non-minimal
        vec![0x40, 0x7f, 0x80, 0x00].into_iter().chain(vec![b'z'; 127]).chain([0]).collect(), // length 127 non-minimal
        vec![0x3f, 0x80, 0x80, 0x00],                 // size 31 non-minimal
        vec![0x3f, 0xe1, 0x1f],                       // size 4096
        [vec![0x50], str_h(b"")].concat(),            // static name 16, empty Huffman value
    ];
    t.push(lit_inc(b"k", &[b'v'; 40]));
    t
}
pub fn bad_tokens() -> Vec<Vec<u8>> {
    vec![
        vec![0x80],                                           // index 0
        vec![0xff, 0x80, 0x01],                               // index 255
        vec![0xff, 0xff, 0xff, 0xff, 0x7f],                   // largest readable index
        vec![0xff, 0x80, 0x80, 0x80, 0x80, 0x00],             // six octets
        vec![0xff, 0xff, 0xff, 0xff, 0xff, 0x0f],
        vec![0x7f, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x00],
        vec![0x0f, 0xff, 0xff, 0xff, 0x7f, 0x00],             // name index too large
        vec![0x7f, 0x80, 0x02, 0x01, b'x'],                   // unknown name index with value
        vec![0x1f, 0xf0, 0x01, 0x00],
        vec![0x3f, 0xe2, 0x1f],                               // size 4097
        vec![0x3f, 0xff, 0xff, 0xff, 0x7f],
        vec![0x3f, 0x80, 0x80, 0x80, 0x80, 0x00],
        vec![0x40, 0x81, 0xff, 0x00],                         // name: padding of eight bits
        vec![0x40, 0x84, 0xff, 0xff, 0xff, 0xff, 0x00],       // name: explicit end of string
        vec![0x40, 0x01, b'n', 0x81, 0x18],                   // value: "a" and padding 000
        vec![0x42, 0x82, 0x1f, 0xfe],                         // value: eight bits of padding and a zero
        vec![0x42, 0x84, 0xff, 0xff, 0xff, 0xfc],
        vec![0x10, 0x81, 0xfe, 0x01, b'v'],
        vec![0x00, 0x01, b'n', 0x83, 0xff, 0xff, 0xff],
        vec![0x40, 0x7f, 0xff, 0xff, 0xff, 0x7f, b'a'],       // huge name length
        vec![0x42, 0x7f, 0xff, 0xff, 0xff, 0x7f, b'a'],       // huge value length
        vec![0x42, 0xff, 0xff, 0xff, 0xff, 0x7f, b'a'],       // huge Huffman length
        vec![0x40, 0x7f, 0x80, 0x80, 0x80, 0x80, 0x00],       // over-long length
        vec![0x42, 0xff, 0x80, 0x80, 0x80, 0x80, 0x00],
        vec![0x00, 0x01, b'n', 0x7f, 0xff, 0xff, 0xff, 0xff, 0x00],
    ]
}
fn seq_space(name: String, toks: Arc<Vec<Vec<u8>>>, n: usize, st: Start, per: impl Fn(&[u8], &Start, &mut Cx) + Send + Sync + 'static) -> Work {
    let len = (toks.len() as u64).pow(n as u32);
    let t2 = toks.clone();
    let st2 = st.clone();
    let mk = move |i: u64, t: &[Vec<u8>]| -> Vec<u8> { digits(i, t.len() as u64, n).iter().flat_map(|k| t[*k].clone()).collect() };
    let mk2 = mk.clone();
    space(
        format!("{} of {} fields, decoder {}", name, n, st.name),
        len,
        move |i, cx| per(&mk(i, &toks), &st, cx),
        move |i| format!("decoder {}: block {}", st2.name, hex(&mk2(i, &t2))),
    )
}
fn cuts(n: usize) -> Vec<usize> {
    // every position for short blocks; the ends and the middle for long runs of plain text
    if n <= 60 {
        (0..=n).collect()
    } else {
        (0..=24).chain([n / 2, n / 2 + 1]).chain(n - 12..=n).collect()
    }
}
/// Blocks of `n` tokens (valid and malformed), complete and cut off at every position.
pub fn grammar(n: usize, st: Start) -> Work {
    let toks = Arc::new([valid_tokens(), bad_tokens()].concat());
    seq_space("blocks and all truncations".into(), toks, n, st, |b, st, cx| {
        for k in cuts(b.len()) {
            one(st, &b[..k], cx);
            if cx.failed() {
                return;
            }
        }
    })
}
/// Blocks of one or two tokens with every single octet replaced by every value.
pub fn corrupt(n: usize, st: Start) -> Work {
    let toks = Arc::new(valid_tokens().into_iter().filter(|t| t.len() < 12).collect::<Vec<_>>());
    seq_space("blocks with every single-octet corruption".into(), toks, n, st, |b, st, cx| {
        for k in 0..b.len() {
            for v in 0..=255u8 {
                let mut c = b.to_vec();
                c[k] = v;
                one(st, &c, cx);
                if cx.failed() {
                    return;
                }
            }
        }
    })
}
/// Two deliveries on one decoder: first an arbitrary token (any outcome), then another one.
pub fn sequences(n: usize, st: Start) -> Work {
    let toks = Arc::new([valid_tokens(), bad_tokens()].concat());
    let t2 = toks.clone();
    let st2 = st.clone();
    let len = (toks.len() as u64).pow(n as u32);
    space(
        format!("{} separate deliveries, decoder {}", n, st.name),
        len,
        move |i, cx| {
            let (mut d, mut r) = st.make();
            let mut bad = false;
            for k in digits(i, toks.len() as u64, n) {
                let t = &toks[k];
                bad = feed(&mut d, &mut r, t, cx) != 0;
                if cx.failed() {
                    return;
                }
            }
            settle(&mut d, &r, cx, bad);
        },
        move |i| format!("decoder {}: deliveries {}", st2.name, digits(i, t2.len() as u64, n).iter().map(|k| hex(&t2[*k])).collect::<Vec<_>>().join(" then ")),
    )
}

/// A rejected or cut input of every length, then an input of every length which has nothing to do with it.
pub fn after_failure(upto: u64, st: Start) -> Work {
    let st2 = st.clone();
    let fit = |mut v: Vec<u8>, n: usize| {
        v.resize(n.max(v.len()), 0x82);
        v.truncate(n);
        v
    };
    let long = |n: usize| {
        let mut v = vec![0x40, 0x01, b'k', 0x7f, 0xff, 0x7f];
        v.resize(n.max(6), b'v');
        v.truncate(n);
        v
    };
    let first = move |k: usize, n: usize| match k {
        0 => long(n),
        1 => fit(vec![0x80], n),
        2 => [vec![0x82, 0x84, 0x86], long(n)].concat(),
        3 => fit(vec![0x00, 0x81, 0x00, 0x00], n.max(4)),
        4 => fit(vec![0x3f, 0xff, 0xff, 0xff, 0x07], n.max(5)),
        _ => fit(vec![0xff; 6], n.max(6)),
    };
    let second = move |k: usize, n: usize, a: &[u8]| match k {
        0 => vec![0x82; n],
        1 if n >= 5 && n < 120 => {
            let mut v = vec![0x40, 0x01, b'm', n as u8 - 4];
            v.resize(n, b'w');
            v
        }
        1 => fit(vec![0x00, 0x01, b'm', 0x00], n.max(4)),
        2 => {
            let mut v = vec![0x10, 0x01, b'q', 0x7f, 0xff, 0x7f];
            v.resize(n.max(6), b'z');
            v
        }
        _ => a.to_vec(),
    };
    space(
        format!("a cut or malformed input, then an unrelated one, all lengths 1..={}, decoder {}", upto, st.name),
        upto * 6 * 4,
        move |i, cx| {
            let c = coords(i, &[6, 4, upto]);
            let a = first(c[0], c[2] + 1);
            for n in 1..=upto as usize {
                let (mut d, mut r) = st.make();
                feed(&mut d, &mut r, &a, cx);
                let b = second(c[1], n, &a);
                let mut bad = feed(&mut d, &mut r, &b, cx) != 0;
                if n % 7 == 0 {
                    bad = feed(&mut d, &mut r, &vec![0x83; a.len()], cx) != 0;
                }
                if n % 5 == 0 {
                    settle(&mut d, &r, cx, bad);
                }
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &[6, 4, upto]);
            format!("decoder {}: first {}, second of kind {}", st2.name, hex(&first(c[0], c[2] + 1)), c[1])
        },
    )
}

// ------------------------------------------------------------ fragmentation (H09)

/// Delivers `parts` one after another, each appended to the unread remainder.
fn fragments(st: &Start, parts: &[&[u8]], whole: &[u8], cx: &mut Cx) {
    cx.step();
    let (mut d, mut r) = st.make();
    let (want, _, f) = r.block(whole);
    if f != 0 {
        return; // not a valid block in this state
    }
    let mut buf = vec![];
    let mut out: Vec<Field> = vec![];
    let show = || parts.iter().map(|p| hex(p)).collect::<Vec<_>>().join(" | ");
    for (k, p) in parts.iter().enumerate() {
        buf.extend_from_slice(p);
        let res = d.decode(&mut buf, &mut out);
        cx.note(|| format!("fragment {} -> {:?} [{}] rest {}", hex(p), res, fields(&out), hex(&buf)));
        let last = k + 1 == parts.len();
        let ok = match &res {
            Ok(_) => true,
            Err(DecoderError::IntegerUnderflow) => !last,
            Err(_) => false,
        };
        cx.check("H09", ok, || format!("fragments {}: attempt {} gives {:?}", show(), k + 1, res));
        if !ok {
            return;
        }
    }
    cx.check("H09", out == want, || format!("fragments {}: delivered [{}] instead of [{}]", show(), fields(&out), fields(&want)));
    cx.check("H09", buf.is_empty(), || format!("fragments {}: unread {}", show(), hex(&buf)));
    match probe_dec(&mut d, 5000) {
        Ok(e) => cx.check("H09", e.iter().eq(r.t.e.iter()), || format!("fragments {}: table {:?} instead of {:?}", show(), e, r.t.e)),
        Err(m) => cx.check("H09", false, || m),
    }
    cx.state(h(&(&r.t.e, parts.len())));
}
pub fn fragmented(n: usize, st: Start, full_cuts: bool) -> Work {
    let toks = Arc::new(valid_tokens());
    seq_space(format!("blocks in fragments{}", if full_cuts { " (every pair of cuts)" } else { "" }), toks, n, st, move |b, st, cx| {
        let c = cuts(b.len());
        for (x, i) in c.iter().enumerate() {
            if full_cuts {
                for j in &c[x..] {
                    fragments(st, &[&b[..*i], &b[*i..*j], &b[*j..]], b, cx);
                    if cx.failed() {
                        return;
                    }
                }
            } else {
                fragments(st, &[&b[..*i], &b[*i..]], b, cx);
            }
        }
        let parts: Vec<&[u8]> = b.chunks(1).collect();
        fragments(st, &parts, b, cx);
        // an empty delivery between any two octets
        let mut parts: Vec<&[u8]> = vec![&[]];
        for c in b.chunks(1) {
            parts.push(c);
            parts.push(&[]);
        }
        if parts.len() > 2 {
            parts.pop();
            fragments(st, &parts, b, cx);
        }
        for w in 2..=5 {
            let parts: Vec<&[u8]> = b.chunks(w).collect();
            fragments(st, &parts, b, cx);
        }
    })
}
/// Every subset of cut positions of short blocks.
pub fn fragmented_all(n: usize, st: Start) -> Work {
    let toks = Arc::new(valid_tokens().into_iter().filter(|t| t.len() <= 6).collect::<Vec<_>>());
    seq_space("short blocks, every set of cuts".into(), toks, n, st, |b, st, cx| {
        if b.len() < 2 || b.len() > 12 {
            return;
        }
        for m in 0..1u32 << (b.len() - 1) {
            let mut parts = vec![];
            let mut at = 0;
            for k in 1..b.len() {
                if m >> (k - 1) & 1 == 1 {
                    parts.push(&b[at..k]);
                    at = k;
                }
            }
            parts.push(&b[at..]);
            fragments(st, &parts, b, cx);
            if cx.failed() {
                return;
            }
        }
    })
}
/// Fields with long strings (length integers of two and three octets), every pair of cuts around the joints.
pub fn fragmented_long() -> Work {
    let mut t: Vec<Vec<u8>> = vec![];
    for n in [126usize, 127, 128, 254, 255, 300, 16_510, 16_511, 65_535, 65_536, 65_537, 104_858, 104_860, 131_072, 262_144, 1 << 20, (1 << 20) + 1, 1_700_000] {
        for huff in [false, true] {
            let s: Vec<u8> = (0..n).map(|i| b'0' + (i % 10) as u8).collect();
            let raw = if huff { huff_enc(&s) } else { s.clone() };
            let mut b = vec![0x40, 0x01, b'n'];
            b.extend(int_enc(raw.len() as u64, 7, if huff { 0x80 } else { 0 }));
            b.extend(raw);
            b.push(0x82);
            t.push(b);
        }
    }
    seq_space("long strings in fragments".into(), Arc::new(t), 1, starts()[0].clone(), |b, st, cx| {
        let all = b.len() < 100_000;
        let c: Vec<usize> = if all { (0..=8).chain(b.len() - 3..=b.len()).chain([b.len() / 2]).collect() } else { vec![0, 4, 5, 7, b.len() / 2, 65_543.min(b.len()), b.len() - 2, b.len() - 1] };
        for i in &c {
            for j in &c {
                if j >= i {
                    fragments(st, &[&b[..*i], &b[*i..*j], &b[*j..]], b, cx);
                }
            }
        }
    })
}

// ------------------------------------------------------------ bounded decoding (H13)

fn bounded(st: &Start, b: &[u8], caps: &[usize], cx: &mut Cx) {
    cx.step();
    let (mut d, mut r) = st.make();
    // where does each field end in the input
    let mut want: Vec<(Field, usize)> = vec![];
    let mut at = 0;
    let mut fault = 0;
    while at < b.len() {
        match r.step(&b[at..]) {
            Ok((Ev::Field(f), n)) => {
                at += n;
                want.push((f, at));
            }
            Ok((_, n)) => at += n,
            Err(f) => {
                fault = f;
                break;
            }
        }
    }
    let mut buf = b.to_vec();
    let mut k = 0; // fields delivered so far
    for c in caps {
        let mut out: Vec<Field> = Vec::with_capacity(*c);
        let cap = out.capacity();
        let l = buf.len();
        let res = d.decode_exact(&mut buf, &mut out);
        let removed = l - buf.len();
        cx.note(|| format!("capacity {} -> {:?} [{}] rest {}", cap, res, fields(&out), hex(&buf)));
        let show = || format!("block {} capacities {:?}", hex(b), caps);
        let n = cap.min(want.len() - k);
        let hit_fault = fault != 0 && n < cap;
        let ok = out.len() == n && out.iter().zip(&want[k..]).all(|(a, w)| *a == w.0);
        cx.check("H13 H06", ok, || format!("{}: capacity {} delivers [{}], expected {} of the fields after the first {}", show(), cap, fields(&out), n, k));
        cx.check("H08", res.is_ok() || ok, || format!("{}: capacity {} delivers [{}] before {:?}, expected {} of the fields after the first {}", show(), cap, fields(&out), res, n, k));
        if !ok {
            return;
        }
        match res {
            Ok(t) => {
                cx.check("H13 H06", !hit_fault, || format!("{}: malformed field not reported", show()));
                cx.check("H13", t == removed, || format!("{}: returned {} but removed {}", show(), t, removed));
                let done = b.len() - buf.len();
                if n == cap && n > 0 {
                    let end = want[k + n - 1].1;
                    cx.check("H13", done == end, || format!("{}: stopped at octet {} instead of {}", show(), done, end));
                } else if n < cap {
                    cx.check("H13", buf.is_empty(), || format!("{}: {} left unread", show(), hex(&buf)));
                }
            }
            Err(e) => {
                cx.check("H13 H06", hit_fault, || format!("{}: failed with {:?}", show(), e));
                cx.check("H06", ebit(&e) & fault != 0, || format!("{}: refused with {:?}, expected fault set {:#x}", show(), e, fault));
                cx.check("H08", buf == b[at..], || format!("{}: unread {} instead of {} after {:?}", show(), hex(&buf), hex(&b[at..]), e));
                settle(&mut d, &r, cx, true);
                return;
            }
        }
        k += n;
        if cx.failed() {
            return;
        }
    }
    // the rest in one go
    let mut out = vec![];
    let l = buf.len();
    let res = d.decode(&mut buf, &mut out);
    let ok = out.len() == want.len() - k && out.iter().zip(&want[k..]).all(|(a, w)| *a == w.0) && res.is_ok() == (fault == 0);
    cx.check("H13", ok, || format!("block {} capacities {:?}: the rest gives {:?} [{}]", hex(b), caps, res, fields(&out)));
    if let Ok(t) = res {
        cx.check("H13", t == l - buf.len(), || format!("block {}: returned {} but removed {}", hex(b), t, l - buf.len()));
    }
    if fault == 0 {
        match probe_dec(&mut d, 5000) {
            Ok(e) => cx.check("H13", e.iter().eq(r.t.e.iter()), || format!("block {} capacities {:?}: table {:?} instead of {:?}", hex(b), caps, e, r.t.e)),
            Err(m) => cx.check("H13", false, || m),
        }
    }
    cx.state(h(&(&r.t.e, k, caps.len())));
}
pub fn exact(n: usize, st: Start, errors: bool) -> Work {
    let mut t: Vec<Vec<u8>> = valid_tokens().into_iter().filter(|t| t.len() < 60).collect();
    if errors {
        t.extend(bad_tokens());
        t.extend([vec![0x40, 0x05, b'x'], vec![0x40], vec![0x7f], vec![0x42, 0x83, 0x94]]);
    }
    seq_space("blocks under every capacity sequence".into(), Arc::new(t), n, st, move |b, st, cx| {
        let top = n as u64 + 2;
        for calls in 1..=2.min(n) {
            for i in 0..top.pow(calls as u32) {
                bounded(st, b, &digits(i, top, calls), cx);
                if cx.failed() {
                    return;
                }
            }
        }
        bounded(st, b, &vec![1; n + 1], cx);
    })
}
/// Long lists of fields with large capacities.
pub fn exact_long() -> Work {
    let toks = Arc::new(vec![vec![0x82u8], vec![0x20], lit_inc(b"a", b"x"), [vec![0x21], vec![0x84]].concat(), vec![0x10, 0x01, b's', 0x00]]);
    seq_space("long lists under large capacities".into(), toks, 2, starts()[0].clone(), |w, st, cx| {
        for reps in [1usize, 2, 7, 30, 64, 130] {
            let b = w.repeat(reps);
            for c in [1usize, 2, 3, 7, 16, 59, 60, 61, 127, 128, 129, 255, 256, 257, 300] {
                bounded(st, &b, &[c, 1, c], cx);
            }
        }
    })
}

/// Every Huffman-marked string of up to `n` octets as name and as value of every kind of literal.
pub fn huffman_in_fields(n: usize) -> Work {
    let total: u64 = (0..=n as u32).map(|k| 256u64.pow(k)).sum();
    let mk = move |i: u64| -> Vec<u8> {
        let (kind, name, mut k) = (i % 3, i / 3 % 2, i / 6);
        let mut l = 0;
        while k >= 256u64.pow(l) {
            k -= 256u64.pow(l);
            l += 1;
        }
        let s: Vec<u8> = digits(k, 256, l as usize).into_iter().map(|x| x as u8).collect();
        let mut b = vec![[0x40u8, 0x00, 0x10][kind as usize]];
        if name == 0 {
            b.extend([1, b'n']);
        }
        b.push(0x80 | s.len() as u8);
        b.extend(&s);
        if name == 1 {
            b.extend([1, b'v']);
        }
        b
    };
    space(
        format!("every Huffman-marked string of up to {} octets as name and value of every kind of literal", n),
        total * 6,
        move |i, cx| one(&starts()[0], &mk(i), cx),
        move |i| format!("decode {}", hex(&mk(i))),
    )
}
/// Strings claiming any length, with little or nothing behind them, after short and long blocks.
pub fn claimed_lengths() -> Work {
    let mut lens: Vec<u64> = vec![];
    for k in 0..=28u32 {
        for d in -1i64..=1 {
            let v = (1i64 << k) + d;
            if v >= 0 && v < (127 + (1 << 28)) {
                lens.push(v as u64);
            }
        }
    }
    lens.push(126 + (1 << 28));
    let heads: Vec<Vec<u8>> = vec![vec![0x40], vec![0x00], vec![0x10], vec![0x42], vec![0x02], vec![0x1f, 0x11], vec![0x40, 1, b'n'], vec![0x10, 0x81, 0x1f], vec![0x82, 0x42]];
    let tails = [0usize, 1, 5, 300];
    let n = lens.len() as u64;
    let hn = heads.len() as u64;
    let mk = move |i: u64| -> Vec<u8> {
        let c = coords(i, &[n, hn, 4, 2]);
        let mut b = heads[c[1]].clone();
        b.extend(int_enc(lens[c[0]], 7, if c[3] == 1 { 0x80 } else { 0 }));
        b.extend(vec![0x1f; tails[c[2]]]);
        b
    };
    let mk2 = mk.clone();
    space(
        "strings claiming any length up to 2^28, with 0, 1, 5 or 300 octets behind them",
        n * hn * 8,
        move |i, cx| one(&starts()[1], &mk(i), cx),
        move |i| format!("decode {}", hex(&mk2(i))),
    )
}

/// One field repeated until the block has about `total` octets, then every other kind of ending.
pub fn repeated(total: usize) -> Work {
    let toks: Vec<Vec<u8>> = [valid_tokens().into_iter().filter(|t| t.len() < 12).collect(), vec![vec![0x21, 0x22], vec![0x20, 0x82], lit_inc(b"", b"")]].concat();
    let ends: Vec<Vec<u8>> = vec![vec![], vec![0x80], vec![0x40, 0x05, b'x'], vec![0x84]];
    let sts = [starts()[0].clone(), starts()[1].clone(), starts()[2].clone()];
    let (n, m) = (toks.len() as u64, ends.len() as u64);
    let s2 = sts.clone();
    let t2 = toks.clone();
    let e2 = ends.clone();
    space(
        format!("one field repeated up to {} octets, well and badly ended", total),
        n * m * 3,
        move |i, cx| {
            let c = coords(i, &[3, m, n]);
            let t = &toks[c[2]];
            let mut b = t.repeat(total / t.len());
            b.extend(&ends[c[1]]);
            one(&sts[c[0]], &b, cx);
        },
        move |i| {
            let c = coords(i, &[3, m, n]);
            format!("decoder {}: {} repeated up to {} octets, then {}", s2[c[0]].name, hex(&t2[c[2]]), total, hex(&e2[c[1]]))
        },
    )
}

/// Integers in every position with continuations of every length, one octet of which may differ.
pub fn endless(max: usize) -> Work {
    let heads: Vec<Vec<u8>> = [vec![0xffu8], vec![0x7f], vec![0x0f], vec![0x1f], vec![0x3f], vec![0x40, 0x7f], vec![0x40, 0xff], vec![0x40, 0, 0x7f], vec![0x40, 0, 0xff], vec![0x42, 0x7f], vec![0x42, 0xff], vec![0x10, 0x01, b'n', 0xff], vec![0x02, 0xff], vec![0x02, 0x7f], vec![0x00, 0x7f], vec![0x10, 0xff]]
        .into_iter()
        .flat_map(|h| [h.clone(), [vec![0x82], h].concat()])
        .collect();
    let fill = [0x80u8, 0x81, 0xff];
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0x0f], vec![0x10], vec![0x7f], vec![0, 0x82], vec![0, 1, b'v'], vec![0, 0, 0, 0]];
    let sts = [starts()[0].clone(), starts()[1].clone(), starts()[5].clone()];
    let dims = [3, heads.len() as u64, 3, tails.len() as u64, max as u64 + 1];
    let build = move |c: &[usize]| {
        let mut v = vec![];
        let k = c[4];
        for at in 0..=k {
            // at = k: all alike
            for other in fill {
                let mut b = heads[c[1]].clone();
                let n = b.len();
                b.extend(vec![fill[c[2]]; k]);
                if at < k {
                    if other == fill[c[2]] {
                        continue;
                    }
                    b[n + at] = other;
                } else if other != fill[0] {
                    continue;
                }
                b.extend(&tails[c[3]]);
                v.push(b);
            }
        }
        v
    };
    let s2 = sts.clone();
    let d2 = dims;
    space(
        format!("integers continued for up to {} octets in every position", max),
        dims.iter().product(),
        move |i, cx| {
            let c = coords(i, &dims);
            for b in build(&c) {
                one(&sts[c[0]], &b, cx);
                if cx.failed() {
                    cx.note(|| format!("block {}", hex(&b)));
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &d2);
            format!("decoder {}: head {}, fill {}, tail {}, {} continuations", s2[c[0]].name, c[1], c[2], c[3], c[4])
        },
    )
}

/// Field sequences (valid, truncated and malformed) decoded from and into vectors with spare room.
pub fn rooms(n: usize, deep: bool) -> Work {
    let t: Vec<Vec<u8>> = valid_tokens().into_iter().filter(|t| t.len() < 60).chain(bad_tokens()).chain([vec![0x40, 0x05, b'x'], vec![0x40], vec![0x7f]]).collect();
    let st = starts()[1].clone();
    let buf: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 7, 8, 16, 64, 4096, 70_000] } else { vec![0, 1, 64, 4096] };
    let dst: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 5, 8, 16, 64, 100] } else { vec![0, 1, 2, 3, 64] };
    let prior: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 7, 64] } else { vec![0, 1, 3] };
    seq_space("room in the caller's vectors and fields already delivered".into(), Arc::new(t), n, st, move |b, st, cx| {
        for r0 in &buf {
            for r1 in &dst {
                for r2 in &prior {
                    let (mut d, mut r) = st.make();
                    let bad = feed_in([*r0, *r1, *r2], &mut d, &mut r, b, cx) != 0;
                    settle(&mut d, &r, cx, bad);
                    if cx.failed() {
                        cx.note(|| format!("spare room {} octets, {} fields; {} fields delivered before", r0, r1, r2));
                        return;
                    }
                }
            }
        }
    })
}
