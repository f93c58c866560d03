//! Reference model of the proto3 wire format, written from the specification (independent of the code under test):
//! canonical field encoding, incremental stream parsing, typed reading of field contents.

/// Scalar types of proto3. Values are carried as bit patterns in a u64 (32-bit types use the low 32 bits).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum B {
    Bool,
    I32,
    I64,
    U32,
    U64,
    S32,
    S64,
    F32,
    F64,
    X32,
    X64,
    Y32,
    Y64,
}
use B::*;
pub const BASES: [B; 13] = [Bool, I32, I64, U32, U64, S32, S64, F32, F64, X32, X64, Y32, Y64];

/// A field type: a scalar, a packed repeated scalar, or bytes.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    One(B),
    Many(B),
    Bytes,
}
pub fn types() -> Vec<Ty> {
    let mut v: Vec<Ty> = BASES.iter().map(|b| Ty::One(*b)).collect();
    v.extend(BASES.iter().map(|b| Ty::Many(*b)));
    v.push(Ty::Bytes);
    v
}
/// The value of a field.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    One(u64),
    Many(Vec<u64>),
    Bytes(Vec<u8>),
}
impl B {
    pub fn wire(self) -> u8 {
        match self {
            F32 | X32 | Y32 => 5,
            F64 | X64 | Y64 => 1,
            _ => 0,
        }
    }
    pub fn narrow(self) -> bool {
        matches!(self, I32 | U32 | S32 | F32 | X32 | Y32)
    }
    /// keeps the bits the type has
    pub fn clip(self, v: u64) -> u64 {
        match self {
            Bool => v & 1,
            _ if self.narrow() => v & 0xffff_ffff,
            _ => v,
        }
    }
}
impl Ty {
    pub fn wire(self) -> u8 {
        match self {
            Ty::One(b) => b.wire(),
            _ => 2,
        }
    }
}

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 128 {
        out.push((v % 128) as u8 | 128);
        v /= 128;
    }
    out.push(v as u8);
}
pub fn scalar(b: B, v: u64, out: &mut Vec<u8>) {
    let v = b.clip(v);
    match b {
        Bool | I64 | U32 | U64 => varint(v, out),
        I32 => {
            // sign-extended to 64 bits
            if v >= 1 << 31 {
                varint(v | 0xffff_ffff_0000_0000, out)
            } else {
                varint(v, out)
            }
        }
        S32 => {
            // zigzag: 0, -1, 1, -2 ... -> 0, 1, 2, 3 ...
            if v >= 1 << 31 {
                let mag = (1u64 << 32) - v; // |value|
                varint(2 * mag - 1, out)
            } else {
                varint(2 * v, out)
            }
        }
        S64 => {
            if v >= 1 << 63 {
                let mag = (1u128 << 64) - v as u128;
                varint((2 * mag - 1) as u64, out)
            } else {
                varint(2 * v, out)
            }
        }
        F32 | X32 | Y32 => {
            for k in 0..4 {
                out.push((v >> (8 * k)) as u8)
            }
        }
        F64 | X64 | Y64 => {
            for k in 0..8 {
                out.push((v >> (8 * k)) as u8)
            }
        }
    }
}
pub fn key(tag: u32, wire: u8, out: &mut Vec<u8>) {
    varint(tag as u64 * 8 + wire as u64, out)
}
pub fn content(ty: Ty, val: &Val, out: &mut Vec<u8>) {
    match (ty, val) {
        (Ty::One(b), Val::One(v)) => scalar(b, *v, out),
        (Ty::Many(b), Val::Many(vs)) => {
            for v in vs {
                scalar(b, *v, out)
            }
        }
        (Ty::Bytes, Val::Bytes(v)) => out.extend_from_slice(v),
        _ => unreachable!(),
    }
}
/// Canonical encoding of a field.
pub fn field(ty: Ty, tag: u32, val: &Val, out: &mut Vec<u8>) {
    key(tag, ty.wire(), out);
    if ty.wire() == 2 {
        let mut c = vec![];
        content(ty, val, &mut c);
        varint(c.len() as u64, out);
        out.extend(c);
    } else {
        content(ty, val, out);
    }
}

// ------------------------------------------------------------ reading

#[derive(Debug, PartialEq)]
pub enum V {
    Ok(u64, usize),
    More,    // ends before the terminating octet
    Ten,     // ten octets are there, all with the continuation bit
    TooLong, // an eleventh octet is there
    Wide,    // ten octets, the tenth carries bits above 2^64: not specified
}
pub fn rvar(b: &[u8]) -> V {
    let mut v: u64 = 0;
    for (i, x) in b.iter().enumerate() {
        if i == 10 {
            return V::TooLong;
        }
        if i == 9 && *x < 128 && *x > 1 {
            return V::Wide;
        }
        if i < 9 {
            v += (*x as u64 % 128) << (7 * i);
        } else if *x < 128 {
            v += (*x as u64) << 63;
        }
        if *x < 128 {
            return V::Ok(v, i + 1);
        }
    }
    if b.len() == 10 {
        V::Ten
    } else {
        V::More
    }
}

/// How the stream ends. Positions at which the unread remainder may begin are listed.
#[derive(Debug, PartialEq, Clone)]
pub enum End {
    Done,
    Pending(Vec<usize>),
    /// incomplete, but already known to be longer than any valid varint: waiting and rejecting are both right
    Ten(Vec<usize>),
    Bad(Vec<usize>),
    Open, // not specified
}
#[derive(Debug, PartialEq, Clone)]
pub struct Parsed {
    pub fields: Vec<(u32, u8, Vec<u8>)>,
    pub end: End,
}
pub fn parse(s: &[u8]) -> Parsed {
    let mut fields = vec![];
    let mut at = 0;
    loop {
        if at == s.len() {
            return Parsed { fields, end: End::Done };
        }
        let start = at;
        let (k, n) = match rvar(&s[at..]) {
            V::Ok(k, n) => (k, n),
            V::More => return Parsed { fields, end: End::Pending(vec![start]) },
            V::Ten => return Parsed { fields, end: End::Ten(vec![start]) },
            V::TooLong => return Parsed { fields, end: End::Bad(vec![start]) },
            V::Wide => return Parsed { fields, end: End::Open },
        };
        let (tag, wire) = (k / 8, (k % 8) as u8);
        if k >= 1 << 32 || tag == 0 || !matches!(wire, 0 | 1 | 2 | 5) {
            return Parsed { fields, end: End::Bad(vec![start]) };
        }
        at += n;
        let pay = at;
        let len = match wire {
            0 | 2 => match rvar(&s[at..]) {
                V::Ok(v, n) => {
                    if wire == 0 {
                        n as u64
                    } else {
                        at += n;
                        v
                    }
                }
                V::More => return Parsed { fields, end: End::Pending(vec![start, pay]) },
                V::Ten => return Parsed { fields, end: End::Ten(vec![start, pay]) },
                V::TooLong => return Parsed { fields, end: End::Bad(vec![start, pay]) },
                V::Wide => return Parsed { fields, end: End::Open },
            },
            1 => 8,
            _ => 4,
        };
        if len > (s.len() - at) as u64 {
            return Parsed { fields, end: End::Pending(vec![start, pay, at]) };
        }
        let e = at + len as usize;
        fields.push((tag as u32, wire, s[at..e].to_vec()));
        at = e;
    }
}

/// Reads one value of scalar type `b` from the front. Err(true) = malformed, Err(false) = not specified.
fn take(b: B, s: &[u8]) -> Result<(u64, usize), bool> {
    let le = |n: usize| -> Result<(u64, usize), bool> {
        if s.len() < n {
            return Err(true);
        }
        Ok(((0..n).fold(0, |a, k| a | (s[k] as u64) << (8 * k)), n))
    };
    match b.wire() {
        5 => return le(4),
        1 => return le(8),
        _ => {}
    }
    let (v, n) = match rvar(s) {
        V::Ok(v, n) => (v, n),
        V::Wide => return Err(false),
        _ => return Err(true),
    };
    let r = match b {
        Bool => (v != 0) as u64,
        I64 | U64 => v,
        I32 => {
            // the value itself, its sign-extended form, or a 32-bit pattern
            if v < 1 << 32 || v >= 0xffff_ffff_8000_0000 {
                v & 0xffff_ffff
            } else {
                return Err(false);
            }
        }
        U32 => {
            if v >= 1 << 32 {
                return Err(false);
            }
            v
        }
        S32 => {
            if v >= 1 << 32 {
                return Err(false);
            }
            if v % 2 == 0 {
                v / 2
            } else {
                (1u64 << 32) - (v / 2 + 1)
            }
        }
        S64 => {
            if v % 2 == 0 {
                v / 2
            } else {
                ((1u128 << 64) - (v as u128 / 2 + 1)) as u64
            }
        }
        _ => unreachable!(),
    };
    Ok((r, n))
}

/// Conversion targets: the seven scalar types, their vectors, raw bytes and text.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum T {
    One(B), // Bool, I32, I64, U32, U64, F32, F64
    Many(B),
    Raw,
    Text,
}
pub fn targets() -> Vec<T> {
    let b = [Bool, I32, I64, U32, U64, F32, F64];
    let mut v: Vec<T> = b.iter().map(|x| T::One(*x)).collect();
    v.extend(b.iter().map(|x| T::Many(*x)));
    v.push(T::Raw);
    v.push(T::Text);
    v
}
pub fn rust_type(b: B) -> B {
    match b {
        S32 | Y32 => I32,
        S64 | Y64 => I64,
        X32 => U32,
        X64 => U64,
        o => o,
    }
}
pub fn natural(ty: Ty) -> T {
    match ty {
        Ty::One(b) => T::One(rust_type(b)),
        Ty::Many(b) => T::Many(rust_type(b)),
        Ty::Bytes => T::Raw,
    }
}
/// What converting `bytes`, named as `ty`, to `t` must give; None = not specified.
pub fn convert(ty: Ty, t: T, bytes: &[u8]) -> Option<Val> {
    let default = match t {
        T::One(_) => Val::One(0),
        T::Many(_) => Val::Many(vec![]),
        _ => Val::Bytes(vec![]),
    };
    if ty == Ty::Bytes && t == T::Text {
        return Some(if utf8(bytes) { Val::Bytes(bytes.to_vec()) } else { default });
    }
    if natural(ty) != t {
        return Some(default);
    }
    match ty {
        Ty::Bytes => Some(Val::Bytes(bytes.to_vec())),
        Ty::One(b) => match take(b, bytes) {
            Ok((v, n)) if n == bytes.len() => Some(Val::One(v)),
            Ok(_) => None,
            Err(true) => Some(default),
            Err(false) => None,
        },
        Ty::Many(b) => {
            let mut v = vec![];
            let mut at = 0;
            while at < bytes.len() {
                match take(b, &bytes[at..]) {
                    Ok((x, n)) => {
                        v.push(x);
                        at += n;
                    }
                    Err(true) => return Some(default),
                    Err(false) => return None,
                }
            }
            Some(Val::Many(v))
        }
    }
}

/// Well-formed UTF-8 (Unicode 15, table 3-7).
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    let c = |k: usize, lo: u8, hi: u8| s.get(k).map_or(false, |x| *x >= lo && *x <= hi);
    while i < s.len() {
        let b = s[i];
        let n = if b < 0x80 {
            1
        } else if (0xc2..=0xdf).contains(&b) && c(i + 1, 0x80, 0xbf) {
            2
        } else if (b == 0xe0 && c(i + 1, 0xa0, 0xbf)
            || (0xe1..=0xec).contains(&b) && c(i + 1, 0x80, 0xbf)
            || b == 0xed && c(i + 1, 0x80, 0x9f)
            || (0xee..=0xef).contains(&b) && c(i + 1, 0x80, 0xbf))
            && c(i + 2, 0x80, 0xbf)
        {
            3
        } else if (b == 0xf0 && c(i + 1, 0x90, 0xbf)
            || (0xf1..=0xf3).contains(&b) && c(i + 1, 0x80, 0xbf)
            || b == 0xf4 && c(i + 1, 0x80, 0x8f))
            && c(i + 2, 0x80, 0xbf)
            && c(i + 3, 0x80, 0xbf)
        {
            4
        } else {
            return false;
        };
        i += n;
    }
    true
}
