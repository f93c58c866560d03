//! Boring reference model of RFC 7541: table, integers, Huffman code, field parser, decoder.

use crate::rfc::{HUFF, STATIC};
use std::collections::VecDeque;
use std::sync::OnceLock;

pub type Hdr = (Vec<u8>, Vec<u8>);
pub type Field = (Vec<u8>, Vec<u8>, u8);

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct RefTable {
    pub e: VecDeque<Hdr>,
    pub max: u64,
}
pub fn esize(h: &Hdr) -> u64 {
    h.0.len() as u64 + h.1.len() as u64 + 32
}
impl RefTable {
    pub fn new(max: u64) -> Self {
        RefTable { e: VecDeque::new(), max }
    }
    pub fn size(&self) -> u64 {
        self.e.iter().map(esize).sum()
    }
    pub fn set_max(&mut self, max: u64) {
        self.max = max;
        while self.size() > max {
            self.e.pop_back();
        }
    }
    /// RFC 7541 section 4.4
    pub fn insert(&mut self, h: Hdr) {
        let n = esize(&h);
        let mut s = self.size();
        while !self.e.is_empty() && s + n > self.max {
            s -= esize(self.e.back().unwrap());
            self.e.pop_back();
        }
        if n <= self.max {
            self.e.push_front(h);
        }
    }
    pub fn len(&self) -> u64 {
        61 + self.e.len() as u64
    }
    pub fn get(&self, i: u64) -> Option<Hdr> {
        if i == 0 {
            None
        } else if i <= 61 {
            let (n, v) = STATIC[i as usize - 1];
            Some((n.as_bytes().to_vec(), v.as_bytes().to_vec()))
        } else {
            self.e.get((i - 62) as usize).cloned()
        }
    }
    pub fn name_is(&self, i: u64, n: &[u8]) -> bool {
        if i >= 1 && i <= 61 {
            STATIC[i as usize - 1].0.as_bytes() == n
        } else {
            i >= 62 && self.e.get((i - 62) as usize).map_or(false, |h| h.0 == n)
        }
    }
    pub fn is(&self, i: u64, n: &[u8], v: &[u8]) -> bool {
        self.name_is(i, n) && if i <= 61 { STATIC[i as usize - 1].1.as_bytes() == v } else { self.e[(i - 62) as usize].1 == v }
    }
    pub fn has_name(&self, n: &[u8]) -> bool {
        STATIC.iter().any(|x| x.0.as_bytes() == n) || self.e.iter().any(|x| x.0 == n)
    }
    pub fn has(&self, n: &[u8], v: &[u8]) -> bool {
        STATIC.iter().any(|x| x.0.as_bytes() == n && x.1.as_bytes() == v) || self.e.iter().any(|x| x.0 == n && x.1 == v)
    }
}

// ------------------------------------------------------------ integers (section 5.1)

pub fn int_enc(v: u64, prefix: u32, flags: u8) -> Vec<u8> {
    let m = (1u64 << prefix) - 1;
    if v < m {
        return vec![flags | v as u8];
    }
    let mut o = vec![flags | m as u8];
    let mut r = v - m;
    while r >= 128 {
        o.push((r % 128) as u8 | 128);
        r /= 128;
    }
    o.push(r as u8);
    o
}

pub const UNDER: u8 = 1;
pub const OVER: u8 = 2;
pub const INDEX: u8 = 4;
pub const INPUT: u8 = 8;
pub const MAXSIZE: u8 = 16;

/// Integer of at most five octets (the documented limit).
pub fn int_dec(b: &[u8], prefix: u32) -> Result<(u64, usize), u8> {
    int_dec_upto(b, prefix, 5)
}
fn int_dec_upto(b: &[u8], prefix: u32, most: usize) -> Result<(u64, usize), u8> {
    let m = (1u64 << prefix) - 1;
    let f = *b.first().ok_or(UNDER)? as u64 & m;
    if f < m {
        return Ok((f, 1));
    }
    let mut v = m;
    for k in 1..most {
        let x = *b.get(k).ok_or(UNDER)?;
        v += ((x & 127) as u64) << (7 * (k - 1));
        if x < 128 {
            return Ok((v, k + 1));
        }
    }
    Err(OVER)
}

// ------------------------------------------------------------ Huffman code (Appendix B)

pub fn huff_bits(s: u16) -> (u32, u32) {
    let (c, n) = HUFF[s as usize];
    (c, n as u32)
}
pub struct Tree {
    /// children: >=0 inner node, <0 = -(symbol+1)
    pub n: Vec<[i32; 2]>,
    /// access bit string of every inner node
    pub access: Vec<Vec<u8>>,
}
pub fn tree() -> &'static Tree {
    static T: OnceLock<Tree> = OnceLock::new();
    T.get_or_init(|| {
        let mut n = vec![[0i32; 2]];
        let mut access = vec![vec![]];
        for s in 0..257u16 {
            let (c, l) = huff_bits(s);
            let mut at = 0usize;
            for k in (0..l).rev() {
                let b = (c >> k & 1) as usize;
                if k == 0 {
                    assert!(n[at][b] == 0);
                    n[at][b] = -(s as i32 + 1);
                } else {
                    if n[at][b] == 0 {
                        n.push([0, 0]);
                        let mut a: Vec<u8> = access[at].clone();
                        a.push(b as u8);
                        access.push(a);
                        n[at][b] = n.len() as i32 - 1;
                    }
                    at = n[at][b] as usize;
                }
            }
        }
        assert_eq!(n.len(), 256);
        assert!(n.iter().all(|x| x[0] != 0 && x[1] != 0));
        Tree { n, access }
    })
}
pub fn huff_enc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut acc: u64 = 0;
    let mut n = 0;
    for &b in s {
        let (c, l) = huff_bits(b as u16);
        acc = acc << l | c as u64;
        n += l;
        while n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        o.push((acc << (8 - n)) as u8 | ((1u16 << (8 - n)) - 1) as u8);
    }
    o
}
/// Some(symbols) iff the string is a sequence of complete codes followed by fewer than eight 1-bits.
pub fn huff_dec(b: &[u8]) -> Option<Vec<u8>> {
    let t = tree();
    let mut o = vec![];
    let (mut at, mut pend, mut ones) = (0usize, 0, true);
    for &x in b {
        for k in (0..8).rev() {
            let bit = (x >> k & 1) as usize;
            ones &= bit == 1;
            pend += 1;
            let c = t.n[at][bit];
            if c < 0 {
                let s = -c - 1;
                if s == 256 {
                    return None;
                }
                o.push(s as u8);
                at = 0;
                pend = 0;
                ones = true;
            } else {
                at = c as usize;
            }
        }
    }
    if pend < 8 && ones {
        Some(o)
    } else {
        None
    }
}

// ------------------------------------------------------------ field parser

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Indexed,
    Inc,
    Without,
    Never,
    Size,
}
#[derive(Clone, Debug)]
pub struct Str {
    pub huff: bool,
    pub raw: Vec<u8>,
    pub text: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Rep {
    pub kind: Kind,
    pub int: u64,
    pub name: Option<Str>,
    pub value: Option<Str>,
    pub len: usize,
    pub minimal: bool,
}
fn parse_str(b: &[u8], minimal: &mut bool) -> Result<(Str, usize), u8> {
    let (l, n) = int_dec(b, 7)?;
    *minimal &= int_enc(l, 7, b[0] & 0x80) == b[..n];
    if (b.len() - n) as u64 <= l && (b.len() - n) as u64 != l {
        return Err(UNDER);
    }
    let raw = b[n..n + l as usize].to_vec();
    let huff = b[0] & 0x80 != 0;
    let text = if huff { huff_dec(&raw).ok_or(INPUT)? } else { raw.clone() };
    Ok((Str { huff, raw, text }, n + l as usize))
}
/// Length of a string literal ignoring Huffman validity (to find further faults behind it).
fn skip_str(b: &[u8]) -> Option<usize> {
    let (l, n) = int_dec(b, 7).ok()?;
    if (b.len() - n) as u64 >= l {
        Some(n + l as usize)
    } else {
        None
    }
}
/// Parses one field representation; on failure returns the set of faults present.
pub fn parse(b: &[u8]) -> Result<Rep, u8> {
    parse_upto(b, 5)
}
/// What the encoder wrote: size signals may be longer than what the decoder reads.
pub fn parse_sent(b: &[u8]) -> Result<Rep, u8> {
    parse_upto(b, if b.first().map_or(false, |o| o & 0xe0 == 0x20) { 6 } else { 5 })
}
fn parse_upto(b: &[u8], most: usize) -> Result<Rep, u8> {
    let o = *b.first().ok_or(UNDER)?;
    let (kind, prefix) = if o & 0x80 != 0 {
        (Kind::Indexed, 7)
    } else if o & 0x40 != 0 {
        (Kind::Inc, 6)
    } else if o & 0x20 != 0 {
        (Kind::Size, 5)
    } else if o & 0x10 != 0 {
        (Kind::Never, 4)
    } else {
        (Kind::Without, 4)
    };
    let (int, mut n) = int_dec_upto(b, prefix, most)?;
    let hi = !(((1u16 << prefix) - 1) as u8);
    let mut r = Rep { kind, int, name: None, value: None, len: n, minimal: int_enc(int, prefix, o & hi) == b[..n] };
    if matches!(kind, Kind::Indexed | Kind::Size) {
        return Ok(r);
    }
    let mut faults = 0;
    if int == 0 {
        match parse_str(&b[n..], &mut r.minimal) {
            Ok((s, k)) => {
                r.name = Some(s);
                n += k;
            }
            Err(e) => {
                faults |= e;
                match skip_str(&b[n..]) {
                    Some(k) => n += k,
                    None => return Err(faults),
                }
            }
        }
    }
    match parse_str(&b[n..], &mut r.minimal) {
        Ok((s, k)) => {
            r.value = Some(s);
            n += k;
        }
        Err(e) => faults |= e,
    }
    r.len = n;
    if faults != 0 {
        Err(faults)
    } else {
        Ok(r)
    }
}

// ------------------------------------------------------------ decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Field(Field),
    Size(u64),
}
#[derive(Clone, Debug)]
pub struct RefDecoder {
    pub t: RefTable,
    pub limit: u64,
}
impl RefDecoder {
    pub fn new(max: u64) -> Self {
        RefDecoder { t: RefTable::new(max), limit: max }
    }
    /// Decodes one representation from the front of `b`.
    pub fn step(&mut self, b: &[u8]) -> Result<(Ev, usize), u8> {
        let p = parse(b);
        // an unknown index is a fault of its own, whatever follows
        let bad_index = || -> u8 {
            let o = b[0];
            let prefix = if o & 0x80 != 0 {
                7
            } else if o & 0x40 != 0 {
                6
            } else if o & 0x20 != 0 {
                return 0;
            } else {
                4
            };
            match int_dec(b, prefix) {
                Ok((i, _)) if (prefix == 7 || i != 0) && (i == 0 || i > self.t.len()) => INDEX,
                _ => 0,
            }
        };
        let r = match p {
            Ok(r) => r,
            Err(f) => return Err(if b.is_empty() { f } else { f | bad_index() }),
        };
        if bad_index() != 0 {
            return Err(INDEX);
        }
        let n = r.len;
        match r.kind {
            Kind::Size => {
                if r.int > self.limit {
                    return Err(MAXSIZE);
                }
                self.t.set_max(r.int);
                Ok((Ev::Size(r.int), n))
            }
            Kind::Indexed => {
                let h = self.t.get(r.int).unwrap();
                Ok((Ev::Field((h.0, h.1, 0)), n))
            }
            k => {
                let name = match r.name {
                    Some(s) => s.text,
                    None => self.t.get(r.int).unwrap().0,
                };
                let value = r.value.unwrap().text;
                let fl = match k {
                    Kind::Inc => {
                        self.t.insert((name.clone(), value.clone()));
                        4
                    }
                    Kind::Never => 8,
                    _ => 0,
                };
                Ok((Ev::Field((name, value, fl)), n))
            }
        }
    }
    /// Decodes a block; returns fields, consumed octets and the fault set of the first bad field.
    pub fn block(&mut self, b: &[u8]) -> (Vec<Field>, usize, u8) {
        let mut at = 0;
        let mut out = vec![];
        while at < b.len() {
            match self.step(&b[at..]) {
                Ok((Ev::Field(f), n)) => {
                    out.push(f);
                    at += n;
                }
                Ok((Ev::Size(_), n)) => at += n,
                Err(f) => return (out, at, f),
            }
        }
        (out, at, 0)
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 64 {
            s += &format!(".. ({} octets)", b.len());
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s += &format!("{:02x}", x);
    }
    format!("[{}]", s)
}
pub fn txt(b: &[u8]) -> String {
    if b.len() > 60 {
        format!("<{} octets starting {}>", b.len(), hex(&b[..6]))
    } else {
        let mut s = String::from("\"");
        for &c in b {
            if (0x20..0x7f).contains(&c) {
                s.push(c as char)
            } else {
                s += &format!("\\x{:02x}", c)
            }
        }
        s + "\""
    }
}
pub fn fields(f: &[Field]) -> String {
    f.iter().map(|x| format!("({}, {}, {:#x})", txt(&x.0), txt(&x.1), x.2)).collect::<Vec<_>>().join(", ")
}
