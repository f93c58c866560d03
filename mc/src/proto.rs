//! P01-P10: the protocol buffers crate against the reference model in `pref`.

use crate::engine::*;
use crate::hsession::roomy;
use crate::pref::{self, convert, field, natural, parse, targets, types, varint, End, Ty, Val, B, T};
use httlib_protos::{Decoder, DecoderError, DecoderLit, Encoder, EncoderError, EncoderLit, Typ};
use std::convert::TryFrom;
use std::io::{self, Write};

// ------------------------------------------------------------ glue to the real API

type EncResult = Result<usize, EncoderError>;
macro_rules! go {
    ($e:expr, $tag:expr, $v:expr, $w:expr, $lit:ident, $f:ident, from) => {{
        let v = $v;
        Some(match $e {
            0 => Encoder.encode((&$tag, EncoderLit::$lit(&v)), $w),
            1 => Encoder.$f(&$tag, &v, $w),
            _ => Encoder.encode((&$tag, &v), $w),
        })
    }};
    ($e:expr, $tag:expr, $v:expr, $w:expr, $lit:ident, $f:ident, nofrom) => {{
        let v = $v;
        match $e {
            0 => Some(Encoder.encode((&$tag, EncoderLit::$lit(&v)), $w)),
            1 => Some(Encoder.$f(&$tag, &v, $w)),
            _ => None,
        }
    }};
}
pub const ENTRIES: [&str; 3] = ["encode(EncoderLit)", "encode_<type>", "encode(&value)"];
/// Encodes through one of the three entry points; None if the type has no such entry point.
fn enc(e: usize, ty: Ty, tag: u32, val: &Val, w: &mut dyn Write) -> Option<EncResult> {
    let one = match val {
        Val::One(v) => *v,
        _ => 0,
    };
    let many: &[u64] = match val {
        Val::Many(v) => v,
        _ => &[],
    };
    macro_rules! vec_of {
        ($f:expr) => {
            many.iter().map(|v| $f(*v)).collect::<Vec<_>>()
        };
    }
    let bl = |v: u64| v & 1 != 0;
    let i32_ = |v: u64| v as u32 as i32;
    let i64_ = |v: u64| v as i64;
    let u32_ = |v: u64| v as u32;
    let u64_ = |v: u64| v;
    let f32_ = |v: u64| f32::from_bits(v as u32);
    let f64_ = f64::from_bits;
    match ty {
        Ty::One(B::Bool) => go!(e, tag, bl(one), w, Bool, encode_bool, from),
        Ty::One(B::I32) => go!(e, tag, i32_(one), w, Int32, encode_int32, from),
        Ty::One(B::I64) => go!(e, tag, i64_(one), w, Int64, encode_int64, from),
        Ty::One(B::U32) => go!(e, tag, u32_(one), w, UInt32, encode_uint32, from),
        Ty::One(B::U64) => go!(e, tag, u64_(one), w, UInt64, encode_uint64, from),
        Ty::One(B::S32) => go!(e, tag, i32_(one), w, SInt32, encode_sint32, nofrom),
        Ty::One(B::S64) => go!(e, tag, i64_(one), w, SInt64, encode_sint64, nofrom),
        Ty::One(B::F32) => go!(e, tag, f32_(one), w, Float, encode_float, from),
        Ty::One(B::F64) => go!(e, tag, f64_(one), w, Double, encode_double, from),
        Ty::One(B::X32) => go!(e, tag, u32_(one), w, Fixed32, encode_fixed32, nofrom),
        Ty::One(B::X64) => go!(e, tag, u64_(one), w, Fixed64, encode_fixed64, nofrom),
        Ty::One(B::Y32) => go!(e, tag, i32_(one), w, SFixed32, encode_sfixed32, nofrom),
        Ty::One(B::Y64) => go!(e, tag, i64_(one), w, SFixed64, encode_sfixed64, nofrom),
        Ty::Many(B::Bool) => go!(e, tag, vec_of!(bl), w, BoolVec, encode_bool_vec, from),
        Ty::Many(B::I32) => go!(e, tag, vec_of!(i32_), w, Int32Vec, encode_int32_vec, from),
        Ty::Many(B::I64) => go!(e, tag, vec_of!(i64_), w, Int64Vec, encode_int64_vec, from),
        Ty::Many(B::U32) => go!(e, tag, vec_of!(u32_), w, UInt32Vec, encode_uint32_vec, from),
        Ty::Many(B::U64) => go!(e, tag, vec_of!(u64_), w, UInt64Vec, encode_uint64_vec, from),
        Ty::Many(B::S32) => go!(e, tag, vec_of!(i32_), w, SInt32Vec, encode_sint32_vec, nofrom),
        Ty::Many(B::S64) => go!(e, tag, vec_of!(i64_), w, SInt64Vec, encode_sint64_vec, nofrom),
        Ty::Many(B::F32) => go!(e, tag, vec_of!(f32_), w, FloatVec, encode_float_vec, from),
        Ty::Many(B::F64) => go!(e, tag, vec_of!(f64_), w, DoubleVec, encode_double_vec, from),
        Ty::Many(B::X32) => go!(e, tag, vec_of!(u32_), w, Fixed32Vec, encode_fixed32_vec, nofrom),
        Ty::Many(B::X64) => go!(e, tag, vec_of!(u64_), w, Fixed64Vec, encode_fixed64_vec, nofrom),
        Ty::Many(B::Y32) => go!(e, tag, vec_of!(i32_), w, SFixed32Vec, encode_sfixed32_vec, nofrom),
        Ty::Many(B::Y64) => go!(e, tag, vec_of!(i64_), w, SFixed64Vec, encode_sfixed64_vec, nofrom),
        Ty::Bytes => {
            let v = match val {
                Val::Bytes(b) => b.clone(),
                _ => vec![],
            };
            go!(e, tag, v, w, Bytes, encode_bytes, from)
        }
    }
}
fn lit(ty: Ty, b: Vec<u8>) -> DecoderLit {
    use DecoderLit::*;
    match ty {
        Ty::Bytes => Bytes(b),
        Ty::One(x) => match x {
            B::Bool => Bool(b),
            B::I32 => Int32(b),
            B::I64 => Int64(b),
            B::U32 => UInt32(b),
            B::U64 => UInt64(b),
            B::S32 => SInt32(b),
            B::S64 => SInt64(b),
            B::F32 => Float(b),
            B::F64 => Double(b),
            B::X32 => Fixed32(b),
            B::X64 => Fixed64(b),
            B::Y32 => SFixed32(b),
            B::Y64 => SFixed64(b),
        },
        Ty::Many(x) => match x {
            B::Bool => BoolVec(b),
            B::I32 => Int32Vec(b),
            B::I64 => Int64Vec(b),
            B::U32 => UInt32Vec(b),
            B::U64 => UInt64Vec(b),
            B::S32 => SInt32Vec(b),
            B::S64 => SInt64Vec(b),
            B::F32 => FloatVec(b),
            B::F64 => DoubleVec(b),
            B::X32 => Fixed32Vec(b),
            B::X64 => Fixed64Vec(b),
            B::Y32 => SFixed32Vec(b),
            B::Y64 => SFixed64Vec(b),
        },
    }
}
fn to(l: DecoderLit, t: T) -> Val {
    match t {
        T::One(b) => Val::One(match b {
            B::Bool => bool::from(l) as u64,
            B::I32 => i32::from(l) as u32 as u64,
            B::I64 => i64::from(l) as u64,
            B::U32 => u32::from(l) as u64,
            B::U64 => u64::from(l),
            B::F32 => f32::from(l).to_bits() as u64,
            _ => f64::from(l).to_bits(),
        }),
        T::Many(b) => Val::Many(match b {
            B::Bool => Vec::<bool>::from(l).into_iter().map(|x| x as u64).collect(),
            B::I32 => Vec::<i32>::from(l).into_iter().map(|x| x as u32 as u64).collect(),
            B::I64 => Vec::<i64>::from(l).into_iter().map(|x| x as u64).collect(),
            B::U32 => Vec::<u32>::from(l).into_iter().map(|x| x as u64).collect(),
            B::U64 => Vec::<u64>::from(l),
            B::F32 => Vec::<f32>::from(l).into_iter().map(|x| x.to_bits() as u64).collect(),
            _ => Vec::<f64>::from(l).into_iter().map(|x| x.to_bits()).collect(),
        }),
        T::Raw => Val::Bytes(Vec::<u8>::from(l)),
        T::Text => Val::Bytes(String::from(l).into_bytes()),
    }
}
fn typ_of(w: u8) -> Typ {
    match w {
        0 => Typ::Varint,
        1 => Typ::Bit64,
        2 => Typ::LengthDelimited,
        _ => Typ::Bit32,
    }
}
type Item = (u32, Typ, Vec<u8>);
fn same(a: &[Item], b: &[(u32, u8, Vec<u8>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == typ_of(y.1) && x.2 == y.2)
}
fn hx(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{:02x} ", x)).collect();
    if b.len() > 48 {
        s += &format!("... ({} octets)", b.len());
    }
    s.trim_end().to_string()
}
fn hv(v: &Val) -> String {
    match v {
        Val::One(x) => format!("{:#x}", x),
        Val::Many(x) if x.len() <= 8 => format!("{:x?}", x),
        Val::Many(x) => format!("[{:#x}, ...; {}]", x[0], x.len()),
        Val::Bytes(b) => format!("[{}]", hx(b)),
    }
}

// ------------------------------------------------------------ one field: P01 P02 P03 P06

const SENTINEL: [u8; 3] = [0xee, 0x08, 0x7f];

/// Encodes the field through every entry point and decodes it again.
fn field_case(ty: Ty, tag: u32, val: &Val, cx: &mut Cx) {
    field_in([0; 3], ty, tag, val, cx)
}
/// The same with spare room in destination, input and decoded fields.
fn field_in(room: [usize; 3], ty: Ty, tag: u32, val: &Val, cx: &mut Cx) {
    let valid = (1..1 << 29).contains(&tag);
    let mut want = vec![];
    if valid {
        field(ty, tag, val, &mut want);
    }
    let d = |e: usize| format!("{} {:?} tag {} value {}", ENTRIES[e], ty, tag, hv(val));
    for e in 0..3 {
        let mut dst: Vec<u8> = roomy(&SENTINEL, room[0]);
        let Some(r) = enc(e, ty, tag, val, &mut dst) else { continue };
        cx.step();
        cx.note(|| format!("{} -> {:?}, destination {}", d(e), r, hx(&dst)));
        if e == 1 {
            cx.state(h(&(&dst, r.is_ok(), tag, ty)));
        }
        if !valid {
            cx.check("P06", r == Err(EncoderError::InvalidTag), || format!("{}: result {:?}, expected the tag error", d(e), r));
            cx.check("P06", dst == SENTINEL, || format!("{}: wrote {} on a tag error", d(e), hx(&dst)));
            continue;
        }
        let Ok(n) = r else {
            cx.check("P01 P02 P06", false, || format!("{}: refused with {:?}", d(e), r));
            continue;
        };
        let kept = dst.len() >= 3 && dst[..3] == SENTINEL;
        cx.check("P02", kept, || format!("{}: what the destination held was changed: {}", d(e), hx(&dst)));
        if !kept {
            return;
        }
        let out = dst[3..].to_vec();
        cx.check("P03", n == out.len(), || format!("{}: returned {} but appended {} octets", d(e), n, out.len()));
        cx.check("P02", out == want, || format!("{}: appended {}, canonical is {}", d(e), hx(&out), hx(&want)));
        if e != 1 && cx.prop != "P01" && cx.prop != "P03" {
            continue;
        }
        if !cx.want("P01") && !cx.want("P03") && !cx.want("P06") {
            continue;
        }
        // back again; for the tag property from the canonical bytes
        let mut buf = roomy(if cx.want("P06") { &want } else { &out }, room[1]);
        let before = buf.len();
        let mut got: Vec<Item> = roomy(&[(7, Typ::Bit32, vec![1])], room[2]);
        let r = Decoder::default().decode(&mut buf, &mut got);
        cx.step();
        cx.note(|| format!("decoded: {:?}, {:?}, unread {}", r, got, hx(&buf)));
        if let Ok(n) = r {
            cx.check("P03", n + buf.len() == before, || format!("{}: decoding returned {} but removed {}", d(e), n, before as i64 - buf.len() as i64));
        }
        cx.check("P01 P06", r.is_ok() && got.len() == 2 && got[0] == (7, Typ::Bit32, vec![1]), || {
            format!("{}: decoding gives {:?} and {} fields", d(e), r, got.len() as i64 - 1)
        });
        if got.len() != 2 {
            continue;
        }
        let (t, w, b) = got.pop().unwrap();
        cx.check("P01 P06", t == tag, || format!("{}: came back with tag {}", d(e), t));
        if cx.want("P01") {
            cx.check("P01", w == typ_of(ty.wire()), || format!("{}: came back with type {:?}", d(e), w));
            let v = to(lit(ty, b), natural(ty));
            cx.check("P01", &v == val, || format!("{}: came back as {}", d(e), hv(&v)));
        }
    }
}

/// Distinguished bit patterns of a scalar type.
pub fn alphabet(b: B) -> Vec<u64> {
    let mut v: Vec<u64> = match b {
        B::Bool => vec![0, 1],
        B::F32 => vec![0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 1, 0x7f7f_ffff, 0x80ff_0102],
        B::F64 => vec![0, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, u64::MAX, 1, 0x7fef_ffff_ffff_ffff, 0x0102_0304_8506_0708],
        _ if b.narrow() => vec![0, 1, 63, 64, 127, 128, 300, 16383, 16384, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_ffc0, 0x0102_0380],
        _ => vec![0, 1, 127, 128, 300, 16384, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX, 0xffff_ffff_8000_0000, 0x0102_0304_8586_0708],
    };
    v.dedup();
    v
}
/// Values with interesting bit structure: powers of two and neighbours, their complements, all combinations of
/// seven-bit groups from {0, 1, 0x40, 0x7f}.
fn structured(b: B, i: u64) -> Option<u64> {
    let bits = if b.narrow() { 32u64 } else { 64 };
    if i < bits * 10 {
        let k = i / 10;
        let d = [-2i64, -1, 0, 1, 2][(i % 5) as usize];
        let v = (1u64 << k).wrapping_add(d as u64);
        return Some(if i % 10 < 5 { v } else { !v });
    }
    let g = i - bits * 10;
    let groups = (bits + 6) / 7;
    if g >= 1 << (2 * groups) {
        return None;
    }
    let mut v = 0u64;
    for k in 0..groups {
        v |= [0u64, 1, 0x40, 0x7f][(g >> (2 * k)) as usize & 3].checked_shl((7 * k) as u32).unwrap_or(0);
    }
    Some(v)
}
/// All structured values of every scalar type, tag 1.
pub fn values() -> Work {
    let per = 1024u64;
    let total = 640 + (1u64 << 20);
    let nb = (total + per - 1) / per;
    blocks(
        "scalar values: 2^k + {-2..2}, complements, all seven-bit group patterns, every scalar type",
        13 * nb,
        per,
        move |i, cx| {
            let b = pref::BASES[(i / nb) as usize];
            let mut n = 0;
            for k in 0..per {
                if let Some(v) = structured(b, (i % nb) * per + k) {
                    n += 1;
                    field_case(Ty::One(b), 1, &Val::One(b.clip(v)), cx);
                }
                if cx.failed() {
                    return;
                }
            }
            cx.traces(n);
        },
        move |i| format!("{:?}, structured values from {:#x}", pref::BASES[(i / nb) as usize], structured(pref::BASES[(i / nb) as usize], (i % nb) * per).unwrap_or(0)),
    )
}
/// Consecutive values around `from` for every scalar type.
pub fn consecutive(from: u64, n: u64) -> Work {
    let per = 1024u64;
    let nb = n / per;
    blocks(
        format!("scalar values {:#x} .. +{:#x}, every scalar type", from, n),
        13 * nb,
        per,
        move |i, cx| {
            let b = pref::BASES[(i / nb) as usize];
            for k in 0..per {
                let v = from.wrapping_add((i % nb) * per + k);
                field_case(Ty::One(b), 3, &Val::One(b.clip(v)), cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("{:?}, 1024 values from {:#x}", pref::BASES[(i / nb) as usize], from.wrapping_add((i % nb) * per)),
    )
}
/// Every 32-bit value of every 32-bit scalar type.
pub fn all32() -> Work {
    let per = 1u64 << 16;
    let bases: Vec<B> = pref::BASES.iter().copied().filter(|b| b.narrow()).collect();
    let b2 = bases.clone();
    blocks(
        "all 2^32 values of every 32-bit scalar type",
        bases.len() as u64 * 65536,
        per,
        move |i, cx| {
            let b = bases[(i >> 16) as usize];
            let mut want = vec![];
            let mut dst: Vec<u8> = vec![];
            let mut buf: Vec<u8> = vec![];
            let mut got: Vec<Item> = vec![];
            for k in 0..per {
                let v = (i & 0xffff) << 16 | k;
                want.clear();
                dst.clear();
                got.clear();
                field(Ty::One(b), 1, &Val::One(v), &mut want);
                let r = enc(1, Ty::One(b), 1, &Val::One(v), &mut dst).unwrap();
                cx.step();
                cx.check("P01 P02", r.is_ok(), || format!("{:?} {:#x}: {:?}", b, v, r));
                cx.check("P02", dst == want, || format!("{:?} {:#x}: wrote {}, canonical is {}", b, v, hx(&dst), hx(&want)));
                if let Ok(n) = r {
                    cx.check("P03", n == dst.len(), || format!("{:?} {:#x}: returned {} for {}", b, v, n, hx(&dst)));
                }
                if cx.want("P01") || cx.want("P03") {
                    buf.clear();
                    buf.extend_from_slice(&dst);
                    let r = Decoder::default().decode(&mut buf, &mut got);
                    cx.check("P03", r.is_err() || r == Ok(dst.len() - buf.len()), || format!("{:?} {:#x}: decode returned {:?}", b, v, r));
                    if cx.want("P01") {
                        let back = got.pop().map(|x| to(lit(Ty::One(b), x.2), natural(Ty::One(b))));
                        cx.check("P01", back == Some(Val::One(v)), || format!("{:?} {:#x}: came back as {:?}", b, v, back));
                    }
                }
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("{:?}, 65536 values from {:#x}", b2[(i >> 16) as usize], (i & 0xffff) << 16),
    )
}
/// Repeated fields: all sequences over the alphabet up to length n.
pub fn vectors(n: usize) -> Work {
    let mut starts = vec![0u64];
    let mut list = vec![];
    for b in pref::BASES {
        let a = alphabet(b);
        for l in 0..=n {
            let c = (a.len() as u64).pow(l as u32);
            list.push((b, l, a.clone()));
            starts.push(starts.last().unwrap() + c);
        }
    }
    let total = *starts.last().unwrap();
    let make = move |i: u64| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (b, l, a) = &list[k];
        let d = digits(i - starts[k], a.len() as u64, *l);
        (*b, d.iter().map(|x| a[*x]).collect::<Vec<u64>>())
    };
    let m2 = make.clone();
    space(
        format!("repeated fields: all sequences of distinguished values up to length {}", n),
        total,
        move |i, cx| {
            let (b, v) = make(i);
            field_case(Ty::Many(b), 5, &Val::Many(v), cx)
        },
        move |i| {
            let (b, v) = m2(i);
            format!("repeated {:?} {:x?}", b, v)
        },
    )
}
/// Repeated fields of every length up to `upto` and around the length-prefix boundaries, with one repeated value and with two alternating ones.
pub fn vector_lengths(upto: u64, big: bool) -> Work {
    let mut cases = vec![];
    for b in pref::BASES {
        let a = alphabet(b);
        let unit = |v: u64| {
            let mut o = vec![];
            pref::scalar(b, v, &mut o);
            o.len() as u64
        };
        for v in [a[0], a[a.len() - 1], a[a.len() / 2]] {
            for l in 0..=upto {
                cases.push((b, v, v, l));
                cases.push((b, v, a[1], l));
            }
            for k in 8..if big { 20u32 } else { 17 } {
                let x = 1u64 << k;
                let w = if x == 16384 { 2 } else { 1 };
                for l in (x / unit(v)).saturating_sub(w)..=x / unit(v) + w {
                    cases.push((b, v, v, l));
                }
            }
        }
        // contents of 2^21 octets: lengths of four octets
        let v = if matches!(b, B::Bool) { a[1] } else { a[a.len() - 1] };
        for d in -1i64..=1 {
            cases.push((b, v, v, ((1u64 << 21) / unit(v)).wrapping_add(d as u64)));
        }
    }
    let c2 = cases.clone();
    space(
        format!("repeated fields of every length 0..={} and of contents around powers of two up to 2^21 octets", upto),
        cases.len() as u64,
        move |i, cx| {
            let (b, v, w, l) = cases[i as usize];
            let vs = (0..l).map(|k| if k % 2 == 0 { v } else { w }).collect();
            field_case(Ty::Many(b), 2, &Val::Many(vs), cx)
        },
        move |i| {
            let (b, v, w, l) = c2[i as usize];
            format!("repeated {:?}, {} values alternating {:#x} and {:#x}", b, l, v, w)
        },
    )
}
/// Every length: byte fields, and repeated fields of one-octet, fixed and long elements.
pub fn every_length(to: u64) -> Work {
    space(
        format!("byte fields and repeated fields of every length up to {}", to),
        4 * (to + 1),
        move |i, cx| {
            let (k, n) = (i % 4, i / 4);
            let many = |b: B, v: u64, d: u64| (Ty::Many(b), Val::Many((0..d).map(|j| b.clip(v ^ j)).collect()));
            let (ty, v) = match k {
                0 => (Ty::Bytes, Val::Bytes((0..n).map(|x| (x * 37 + n) as u8).collect())),
                1 => many(B::Bool, 1, n),
                2 => many(B::F32, 0x8000_0001, n / 4),
                _ => many(B::S64, u64::MAX, n / 8),
            };
            field_case(ty, 3, &v, cx)
        },
        move |i| format!("{} of length {}", ["bytes", "repeated bool", "repeated fixed32", "repeated sint64"][(i % 4) as usize], i / 4 / [1, 1, 4, 8][(i % 4) as usize]),
    )
}
/// Every number of octets in the encoder's destination, and of fields in the decoder's.
pub fn every_prior(to: u64) -> Work {
    let all = types();
    let n = all.len() as u64;
    let a2 = all.clone();
    space(
        format!("every number of octets in the destination and of fields decoded before up to {}", to),
        to + 1,
        move |i, cx| {
            let ty = all[(i % n) as usize];
            let val = sample_value(ty);
            let mut want = vec![];
            field(ty, 5, &val, &mut want);
            let prior: Vec<u8> = (0..i).map(|k| (k * 7 + i) as u8).collect();
            for e in 0..3 {
                let mut dst = prior.clone();
                let Some(r) = enc(e, ty, 5, &val, &mut dst) else { continue };
                cx.step();
                let l = i as usize;
                let ok = dst.len() == l + want.len() && dst[..l] == prior[..] && dst[l..] == want[..];
                cx.check("P01 P02", r.is_ok() && ok, || format!("{} {:?} onto {} octets: {:?}, appended {} instead of {}", ENTRIES[e], ty, l, r, hx(dst.get(l..).unwrap_or(&[])), hx(&want)));
                cx.check("P03", r == Ok(want.len()), || format!("{} {:?} onto {} octets: returned {:?} for {}", ENTRIES[e], ty, l, r, want.len()));
            }
            let mut got: Vec<Item> = vec![(9, Typ::Varint, vec![]); i as usize];
            let mut buf = [&want[..], &want].concat();
            let r = Decoder::default().decode(&mut buf, &mut got);
            cx.step();
            let l = i as usize;
            let ok = buf.is_empty() && got.len() == l + 2 && got[l] == got[l + 1] && got[l].0 == 5 && got[..l].iter().all(|x| x.0 == 9 && x.2.is_empty());
            cx.check("P01 P05", r.is_ok() && ok, || format!("two fields {} decoded after {}: {:?}, {:?}", hx(&want), l, r, got.get(l..)));
            cx.check("P03", r == Ok(2 * want.len()), || format!("two fields {} decoded after {}: returned {:?}", hx(&want), l, r));
        },
        move |i| format!("{:?} onto {} octets, after {} fields", a2[(i % n) as usize], i, i),
    )
}
/// A byte field, then every byte field that differs from it at one place or two.
pub fn apart() -> Work {
    use crate::hsweep::{apart_lens, apart_texts, APART_KINDS};
    let lens = apart_lens(false);
    let n = lens.len() as u64;
    let l2 = lens.clone();
    space(
        "byte fields that differ at one place or two, one after another",
        n * 9,
        move |i, cx| {
            let c = coords(i, &[n, 9]);
            let (base, others) = apart_texts(lens[c[0]], c[1]);
            for x in std::iter::once(base).chain(others) {
                field_case(Ty::Bytes, 9, &Val::Bytes(x), cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("{} octets, {}", l2[(i / 9) as usize], APART_KINDS[(i % 9) as usize]),
    )
}
/// Byte fields: every string of at most two octets, then every length.
pub fn byte_fields(upto: u64, big: bool) -> Work {
    let mut lens: Vec<u64> = (0..=upto).collect();
    for k in 9..=21 {
        let x = 1u64 << k;
        lens.extend(x - 2..=x + 2);
    }
    lens.extend([3 << 20, (1 << 22) + 1]);
    if big {
        lens.extend([(1 << 28) - 1, 1 << 28]);
    }
    let l2 = lens.clone();
    let mk = |i: u64, lens: &[u64]| -> Vec<u8> {
        if i == 0 {
            vec![]
        } else if i <= 256 {
            vec![(i - 1) as u8]
        } else if i < 65793 {
            vec![((i - 257) >> 8) as u8, (i - 257) as u8]
        } else {
            let k = i - 65793;
            let l = lens[(k / 2) as usize];
            (0..l).map(|x| if k % 2 == 0 { 0xff } else { (x * 37 + l) as u8 }).collect()
        }
    };
    space(
        format!("bytes fields: all contents up to 2 octets, all lengths 0..={} and around the length boundaries", upto),
        65793 + 2 * lens.len() as u64,
        move |i, cx| field_case(Ty::Bytes, 9, &Val::Bytes(mk(i, &lens)), cx),
        move |i| format!("bytes [{}]", hx(&mk(i, &l2))),
    )
}
fn sample_value(ty: Ty) -> Val {
    match ty {
        Ty::One(B::Bool) => Val::One(1),
        Ty::One(b) => Val::One(b.clip(0x8000_0000_8000_012c)),
        Ty::Many(b) => Val::Many(alphabet(b)[..2].to_vec()),
        Ty::Bytes => Val::Bytes(b"ab".to_vec()),
    }
}
fn boundary_tags() -> Vec<u32> {
    let mut v: Vec<u32> = (0..300).collect();
    for k in 4..32u32 {
        for d in -9i64..=9 {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    for x in [1u32 << 29, 1 << 28, u32::MAX - 40, (1 << 29) - 40, 3 << 29, 5 << 29, 7 << 29, 1 << 30, 3 << 30] {
        for d in 0..40 {
            v.push(x.wrapping_add(d));
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Every type and entry point with every boundary tag.
pub fn tags() -> Work {
    let t = boundary_tags();
    let n = t.len() as u64;
    let (t2, ty) = (t.clone(), types());
    let ty2 = ty.clone();
    space(
        "tags: 0..300, 2^k +- 9, around 2^29, multiples of 2^29, up to 2^32-1; every type and entry point",
        27 * n,
        move |i, cx| {
            let y = ty[(i / n) as usize];
            field_case(y, t[(i % n) as usize], &sample_value(y), cx)
        },
        move |i| format!("{:?} tag {}", ty2[(i / n) as usize], t2[(i % n) as usize]),
    )
}
/// Every type and entry point: representative tags times distinguished values, with the value in a longer message.
pub fn tag_values() -> Work {
    let t: Vec<u32> = vec![1, 2, 15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 2047, 2048, 2049, 16383, 16384, (1 << 18) - 1, 1 << 18, (1 << 25) - 1, 1 << 25, (1 << 28) - 1, 1 << 28, (1 << 29) - 1];
    let mut cases: Vec<(Ty, Val)> = vec![];
    for ty in types() {
        match ty {
            Ty::One(b) => cases.extend(alphabet(b).into_iter().map(|v| (ty, Val::One(v)))),
            Ty::Many(b) => {
                let a = alphabet(b);
                for n in [0usize, 1, 2, 5, 20] {
                    cases.push((ty, Val::Many((0..n).map(|k| a[(k * 3 + n) % a.len()]).collect())));
                }
            }
            Ty::Bytes => cases.extend([0usize, 1, 3, 8, 127, 128, 300].into_iter().map(|n| (ty, Val::Bytes((0..n).map(|x| x as u8).collect())))),
        }
    }
    let n = t.len() as u64;
    let (t2, c2) = (t.clone(), cases.clone());
    space(
        "every type and entry point: 24 tags x distinguished values",
        n * cases.len() as u64,
        move |i, cx| {
            let (ty, v) = &cases[(i / n) as usize];
            field_case(*ty, t[(i % n) as usize], v, cx)
        },
        move |i| format!("{:?} tag {} value {}", c2[(i / n) as usize].0, t2[(i % n) as usize], hv(&c2[(i / n) as usize].1)),
    )
}
/// Consecutive tags in blocks, for a scalar, a repeated and a bytes field.
pub fn tag_sweep(from: u64, n: u64) -> Work {
    let per = 4096u64;
    let nb = n / per;
    let ty = [Ty::One(B::Bool), Ty::Bytes, Ty::Many(B::S32), Ty::One(B::F32)];
    blocks(
        format!("tags {} .. +{}, four field types", from, n),
        4 * nb,
        per,
        move |i, cx| {
            let y = ty[(i / nb) as usize];
            let v = sample_value(y);
            for k in 0..per {
                field_case(y, (from + (i % nb) * per + k) as u32, &v, cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("{:?}, 4096 tags from {}", ty[(i / nb) as usize], from + (i % nb) * per),
    )
}
/// Decoder side: every structured 64-bit value as a key, and the values around multiples of 2^32.
pub fn key_values() -> Work {
    let per = 1024u64;
    let total = 640 + (1u64 << 20);
    let around = 64 * 64; // k * 2^32 - 32 .. + 32, k < 64
    let nb = (total + around + per - 1) / per;
    blocks(
        "2^k + {-2..2}, complements, all seven-bit group patterns, values around k * 2^32 as keys",
        nb,
        per,
        move |i, cx| {
            let mut n = 0;
            for k in i * per..(i + 1) * per {
                let v = match structured(B::U64, k) {
                    Some(v) => v,
                    None if k >= total && k < total + around => ((k - total) / 64 << 32).wrapping_add((k - total) % 64).wrapping_sub(32),
                    _ => continue,
                };
                n += 1;
                let mut b = vec![];
                varint(v, &mut b);
                let content: &[u8] = match v & 7 {
                    0 => &[1],
                    1 => &[1, 2, 3, 4, 5, 6, 7, 8],
                    2 => &[0],
                    _ => &[1, 2, 3, 4],
                };
                b.extend(content);
                let mut got: Vec<Item> = vec![];
                let r = Decoder::default().decode(&mut b.clone(), &mut got);
                cx.step();
                cx.state(h(&(r.is_ok(), v & 7, b.len())));
                if v >> 32 != 0 || v < 8 || ![0, 1, 2, 5].contains(&(v & 7)) {
                    cx.check("P06", r.is_err() && got.is_empty(), || format!("key {:#x}, [{}]: {:?}, delivered {:?}", v, hx(&b), r, got));
                } else {
                    cx.check("P06", r.is_ok() && got.len() == 1 && got[0].0 == (v >> 3) as u32 && got[0].1 as i32 == (v & 7) as i32, || format!("key {:#x}, [{}]: {:?}, delivered {:?}", v, hx(&b), r, got));
                }
                if cx.failed() {
                    return;
                }
            }
            cx.traces(n);
        },
        move |i| format!("1024 keys, number {}", i * per),
    )
}
/// All 2^32 tags, one cheap field type, every entry point.
pub fn all_tags() -> Work {
    let per = 1u64 << 16;
    blocks(
        "all 2^32 tag numbers (bool field)",
        65536,
        per,
        move |i, cx| {
            let v = Val::One(1);
            let mut dst: Vec<u8> = vec![];
            let mut got: Vec<Item> = vec![];
            let mut buf = vec![];
            for k in 0..per {
                let tag = (i << 16 | k) as u32;
                dst.clear();
                let r = enc((k % 3) as usize, Ty::One(B::Bool), tag, &v, &mut dst).unwrap();
                cx.step();
                if !(1..1 << 29).contains(&tag) {
                    cx.check("P06", r == Err(EncoderError::InvalidTag) && dst.is_empty(), || format!("tag {}: {:?}, wrote {}", tag, r, hx(&dst)));
                } else {
                    cx.check("P06", r.is_ok(), || format!("tag {}: {:?}", tag, r));
                    buf.clear();
                    pref::key(tag, 0, &mut buf);
                    buf.push(1);
                    got.clear();
                    let r = Decoder::default().decode(&mut buf, &mut got);
                    cx.check("P06", r.is_ok() && got.len() == 1 && got[0].0 == tag, || format!("tag {}: decoding gives {:?} {:?}", tag, r, got));
                }
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("65536 tags from {}", i << 16),
    )
}
/// Decoder side: keys with tag 0, padded keys, and keys of every wire type.
pub fn tag_zero() -> Work {
    space(
        "keys with tag 0: every wire type, every padding, with any octet following",
        8 * 10 * 256,
        move |i, cx| {
            let c = coords(i, &[8, 10, 256]);
            let mut b = vec![];
            if c[1] == 0 {
                b.push(c[0] as u8);
            } else {
                b.push(0x80 | c[0] as u8);
                b.extend(std::iter::repeat(0x80).take(c[1] - 1));
                b.push(0);
            }
            b.push(c[2] as u8);
            let mut buf = b.clone();
            let mut got: Vec<Item> = vec![];
            let r = Decoder::default().decode(&mut buf, &mut got);
            cx.step();
            cx.check("P06", r.is_err() && got.is_empty(), || format!("[{}]: tag 0 gives {:?} {:?}", hx(&b), r, got));
        },
        move |i| format!("wire type {}, {} padding octets, followed by {:#x}", i / 2560, i / 256 % 10, i % 256),
    )
}

/// What the interface says about tags and wire types by name: the bounds and the conversion from numbers.
pub fn named() -> Work {
    space(
        "the named tag bounds and the wire types of all numbers 0..2^16 and 2^k + {-1, 0, 1}",
        2 + 65536 + 64 * 3,
        move |i, cx| {
            cx.step();
            if i < 2 {
                let (t, out) = if i == 0 { (Encoder::TAG_MIN, Encoder::TAG_MIN.wrapping_sub(1)) } else { (Encoder::TAG_MAX, Encoder::TAG_MAX.wrapping_add(1)) };
                for (x, ok) in [(t, true), (out, false)] {
                    let mut o = vec![];
                    let r = Encoder::default().encode((&x, &1u32), &mut o);
                    cx.check("P06", r.is_ok() == ok && (ok || r == Err(EncoderError::InvalidTag)), || {
                        format!("bounds {}..{}: tag {} gives {:?}", Encoder::TAG_MIN, Encoder::TAG_MAX, x, r)
                    });
                }
                return;
            }
            let n = if i < 65538 {
                i - 2
            } else {
                let k = i - 65538;
                (1u64 << (k / 3)).wrapping_add(k % 3).wrapping_sub(1)
            };
            let want = match n {
                0 => Typ::Varint,
                1 => Typ::Bit64,
                2 => Typ::LengthDelimited,
                5 => Typ::Bit32,
                _ => Typ::Unknown,
            };
            let got = Typ::try_from(n);
            cx.check("P02 P05", matches!(&got, Ok(x) if *x == want), || format!("wire type {} is {:?}, expected {:?}", n, got, want));
            let code = want as i64;
            cx.check("P02", if code >= 0 { code as u64 == n } else { code == -1 }, || format!("{:?} is number {}", want, code));
        },
        move |i| format!("case {}", i),
    )
}

// ------------------------------------------------------------ messages: P10

#[derive(Clone, Debug)]
struct Tok {
    ty: Ty,
    tag: u32,
    val: Val,
}
fn message_tokens() -> Vec<Tok> {
    let mut v = vec![];
    for (i, ty) in types().into_iter().enumerate() {
        v.push(Tok { ty, tag: [1, 15, 16, 2047, 2048, (1 << 29) - 1][i % 6], val: sample_value(ty) });
    }
    for b in [B::Bool, B::S64, B::F64, B::X32] {
        v.push(Tok { ty: Ty::Many(b), tag: 2, val: Val::Many(vec![]) });
    }
    v.push(Tok { ty: Ty::Bytes, tag: 1, val: Val::Bytes(vec![]) });
    v.push(Tok { ty: Ty::Bytes, tag: 300, val: Val::Bytes(vec![]) });
    v.push(Tok { ty: Ty::Bytes, tag: 4, val: Val::Bytes(vec![0x0a, 0x02, 0x08, 0x01]) }); // embedded message
    v.push(Tok { ty: Ty::Bytes, tag: 4, val: Val::Bytes((0..130).collect()) });
    v.push(Tok { ty: Ty::One(B::U64), tag: 1, val: Val::One(0) });
    v
}
fn show_toks(t: &[Tok]) -> String {
    if t.len() > 12 {
        return format!("{}, .. ({} fields)", show_toks(&t[..6]), t.len());
    }
    t.iter().map(|x| format!("{}:{:?}={}", x.tag, x.ty, hv(&x.val))).collect::<Vec<_>>().join(", ")
}
/// Encodes the fields into one destination; None if the encoder refuses.
fn pack(t: &[Tok], cx: &mut Cx) -> Vec<u8> {
    let mut dst = vec![];
    for (k, x) in t.iter().enumerate() {
        let r = match enc(k % 3, x.ty, x.tag, &x.val, &mut dst) {
            Some(r) => r,
            None => enc(1, x.ty, x.tag, &x.val, &mut dst).unwrap(),
        };
        cx.step();
        if r.is_err() {
            cx.check("P10", false, || format!("encoding {} fails with {:?}", show_toks(&t[k..k + 1]), r));
        }
    }
    dst
}
fn unpack(dec: &mut Decoder, bytes: &[u8], t: &[Tok], cx: &mut Cx) {
    let mut buf = bytes.to_vec();
    let mut got: Vec<Item> = vec![];
    let r = dec.decode(&mut buf, &mut got);
    cx.step();
    cx.note(|| format!("{} octets [{}] -> {:?}, {} fields, {} octets unread", bytes.len(), hx(bytes), r, got.len(), buf.len()));
    if let Ok(n) = r {
        cx.check("P03", n + buf.len() == bytes.len(), || format!("decode returned {} but removed {}", n, bytes.len() - buf.len()));
    }
    cx.check("P10", r.is_ok() && buf.is_empty(), || format!("a single call gives {:?} and leaves {} of {} octets; message {}", r, buf.len(), bytes.len(), show_toks(t)));
    cx.check("P10", got.len() == t.len(), || format!("{} fields encoded, {} decoded; message {}", t.len(), got.len(), show_toks(t)));
    for (k, (g, x)) in got.into_iter().zip(t).enumerate() {
        let ok = g.0 == x.tag && g.1 == typ_of(x.ty.wire());
        let v = to(lit(x.ty, g.2), natural(x.ty));
        cx.check("P10", ok && v == x.val, || format!("field {} came back as tag {} {:?} {}; message {}", k, g.0, g.1, hv(&v), show_toks(t)));
    }
}
pub fn messages(n: usize) -> Work {
    let toks = message_tokens();
    let a = toks.len() as u64;
    let mut starts = vec![0u64];
    for l in 0..=n {
        starts.push(starts[l] + a.pow(l as u32));
    }
    let total = *starts.last().unwrap();
    let mk = move |i: u64| {
        let l = starts.partition_point(|s| *s <= i) - 1;
        digits(i - starts[l], a, l).into_iter().map(|d| toks[d].clone()).collect::<Vec<_>>()
    };
    let mk2 = mk.clone();
    space(
        format!("messages: all sequences of {} field tokens up to length {}, two messages through one decoder", a, n),
        total,
        move |i, cx| {
            let t = mk(i);
            let m = pack(&t, cx);
            let mut d = Decoder::default();
            unpack(&mut d, &m, &t, cx);
            unpack(&mut d, &m, &t, cx);
            cx.state(h(&m));
        },
        move |i| show_toks(&mk2(i)),
    )
}
/// Long messages: every pair of tokens repeated; many messages through one decoder; deep nesting.
pub fn long_messages(reps: usize) -> Work {
    let toks = message_tokens();
    let a = toks.len() as u64;
    let t2 = toks.clone();
    space(
        format!("every pair of field tokens repeated {} times, as one message and as {} messages through one decoder", reps, reps),
        a * a,
        move |i, cx| {
            let two = vec![toks[(i / a) as usize].clone(), toks[(i % a) as usize].clone()];
            let long: Vec<Tok> = (0..reps).flat_map(|_| two.clone()).collect();
            let m = pack(&long, cx);
            unpack(&mut Decoder::default(), &m, &long, cx);
            let mut d = Decoder::default();
            let m = pack(&two, cx);
            for _ in 0..reps {
                unpack(&mut d, &m, &two, cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| show_toks(&[t2[(i / a) as usize].clone(), t2[(i % a) as usize].clone()]),
    )
}
/// Messages of very many fields, and with very large fields in the middle.
pub fn big_messages(deep: bool) -> Work {
    let toks = message_tokens();
    let a = toks.len();
    let counts = [255usize, 256, 257, 1000, 4096, if deep { 70_000 } else { 10_000 }];
    let sizes = [16383usize, 16384, 65535, 65536, 70_000, (1 << 21) - 1, 1 << 21, 3 << 20];
    let t2 = toks.clone();
    space(
        "messages of up to ten thousand fields, and with contents of up to three million octets between fields",
        (a * (counts.len() + sizes.len())) as u64,
        move |i, cx| {
            let (x, k) = (i as usize % a, i as usize / a);
            let m: Vec<Tok> = if k < counts.len() {
                (0..counts[k]).map(|j| toks[(x + j * (1 + x % 3)) % a].clone()).collect()
            } else {
                let n = sizes[k - counts.len()];
                let big = Tok { ty: Ty::Bytes, tag: 9, val: Val::Bytes((0..n).map(|j| (j * 5 + j / 256) as u8).collect()) };
                vec![toks[x].clone(), big, toks[(x + 1) % a].clone(), toks[x].clone()]
            };
            let b = pack(&m, cx);
            let mut d = Decoder::default();
            unpack(&mut d, &b, &m, cx);
            let small = vec![toks[x].clone()];
            let b = pack(&small, cx);
            unpack(&mut d, &b, &small, cx);
            cx.state(i);
        },
        move |i| format!("around {}: case {}", show_toks(&t2[i as usize % a..][..1]), i as usize / a),
    )
}
/// Messages with contents of every length, embedded ones too, and of every number of fields.
pub fn every_size(to: u64) -> Work {
    let toks = message_tokens();
    let a = toks.len();
    space(
        format!("messages with contents of every length up to {}, embedded twice, and of every number of fields up to {}", to, to / 8),
        to + 1,
        move |i, cx| {
            let n = i as usize;
            let (x, y) = (&toks[n % a], &toks[(n / 2 + 3) % a]);
            let big = |b: Vec<u8>| vec![x.clone(), Tok { ty: Ty::Bytes, tag: 9, val: Val::Bytes(b) }, y.clone()];
            let m1 = big((0..n).map(|j| (j * 5 + j / 256) as u8).collect());
            let b1 = pack(&m1, cx);
            let m2 = big(b1.clone());
            let b2 = pack(&m2, cx);
            unpack(&mut Decoder::default(), &b1, &m1, cx);
            unpack(&mut Decoder::default(), &b2, &m2, cx);
            if i <= to / 8 {
                let m: Vec<Tok> = (0..n).map(|j| toks[(n + j * (1 + n % 3)) % a].clone()).collect();
                let b = pack(&m, cx);
                let mut d = Decoder::default();
                unpack(&mut d, &b, &m, cx);
                unpack(&mut d, &b1, &m1, cx);
            }
        },
        move |i| format!("content of {} octets; {} fields", i, i),
    )
}
pub fn nesting(depth: usize) -> Work {
    let toks = message_tokens();
    let a = toks.len() as u64;
    let t2 = toks.clone();
    space(
        format!("embedded messages nested up to {} levels, with a field token before and after at every level", depth),
        a * a,
        move |i, cx| {
            let (x, y) = (toks[(i / a) as usize].clone(), toks[(i % a) as usize].clone());
            let mut inner = vec![];
            let mut levels = vec![];
            for _ in 0..depth {
                let t = vec![x.clone(), Tok { ty: Ty::Bytes, tag: 6, val: Val::Bytes(inner.clone()) }, y.clone()];
                inner = pack(&t, cx);
                levels.push((t, inner.clone()));
            }
            for (t, m) in levels.iter().rev() {
                unpack(&mut Decoder::default(), m, t, cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("around the embedded message: {} / {}", show_toks(&t2[(i / a) as usize..][..1]), show_toks(&t2[(i % a) as usize..][..1])),
    )
}

// ------------------------------------------------------------ streams: P03 P04 P05 P09

/// Well-formed, malformed and unfinished elements, as octets.
pub fn tokens() -> Vec<Vec<u8>> {
    good().into_iter().chain(bad()).chain(pend()).map(|x| x.b).collect()
}
/// Which of `tokens` are unfinished.
pub fn pending() -> Vec<usize> {
    let n = good().len() + bad().len();
    (n..n + pend().len()).collect()
}
#[derive(Clone)]
struct St {
    name: &'static str,
    b: Vec<u8>,
}
fn st(name: &'static str, b: &[u8]) -> St {
    St { name, b: b.to_vec() }
}
fn good() -> Vec<St> {
    let mut v = vec![
        st("varint 0", &[0x08, 0]),
        st("varint 300, tag 2", &[0x10, 0xac, 2]),
        st("varint 2^64-1", &[0x08, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1]),
        st("padded varint", &[0x18, 0x80, 0x80, 0]),
        st("varint padded to ten octets", &[0x18, 0x85, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0]),
        st("padded key", &[0x88, 0x80, 0, 1]),
        st("key padded to five octets", &[0x88, 0x80, 0x80, 0x80, 0, 1]),
        st("key padded to seven octets", &[0x8a, 0x80, 0x80, 0x80, 0x80, 0x80, 0, 1, 0x41]),
        st("key padded to ten octets", &[0x8d, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0, 1, 2, 3, 4]),
        st("tag 16", &[0x80, 1, 5]),
        st("tag 2^29-1", &[0xf8, 255, 255, 255, 0x0f, 1]),
        st("32 bit", &[0x0d, 1, 2, 3, 4]),
        st("32 bit, tag 2^29-1", &[0xfd, 255, 255, 255, 0x0f, 0xff, 0, 0x80, 0]),
        st("64 bit", &[0x11, 1, 2, 3, 4, 5, 6, 7, 8]),
        st("64 bit like keys", &[0x19, 0x08, 0, 0x0a, 0, 0x0d, 0, 0x09, 0]),
        st("empty bytes", &[0x0a, 0]),
        st("empty bytes, tag 16", &[0x82, 1, 0]),
        st("one octet", &[0x12, 1, 0x7f]),
        st("three octets like a field", &[0x0a, 3, 0x08, 0x80, 1]),
        st("padded length", &[0x0a, 0x82, 0, 0x41, 0x42]),
        st("empty, length padded to ten octets", &[0x0a, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0]),
        st("embedded message", &[0x22, 4, 0x0a, 2, 0x08, 1]),
    ];
    v.shrink_to_fit();
    v
}
fn long_good() -> Vec<St> {
    let ld = |name, n: usize| {
        let mut b = vec![0x0a];
        varint(n as u64, &mut b);
        b.extend((0..n).map(|x| (x * 7) as u8));
        St { name, b }
    };
    vec![ld("127 octets", 127), ld("128 octets", 128), ld("200 octets", 200), ld("300 octets", 300)]
}
fn bad() -> Vec<St> {
    let mut v = vec![
        st("tag 0 varint", &[0x00, 1]),
        st("tag 0 64 bit", &[0x01, 1, 2, 3, 4, 5, 6, 7, 8]),
        st("tag 0 bytes", &[0x02, 1, 0x41]),
        st("tag 0 32 bit", &[0x05, 1, 2, 3, 4]),
        st("padded tag 0", &[0x80, 0, 1]),
        st("type 3", &[0x0b, 1]),
        st("type 4", &[0x0c, 1]),
        st("type 6", &[0x0e, 1]),
        st("type 7", &[0x0f, 1]),
        st("type 3, tag 16", &[0x83, 1, 1]),
        st("type 7, tag 2^29-1", &[0xff, 255, 255, 255, 0x0f, 1]),
        st("tag 0 type 7", &[0x07, 0]),
        st("key 2^32", &[0x80, 0x80, 0x80, 0x80, 0x10, 1]),
        st("key 2^32+8", &[0x88, 0x80, 0x80, 0x80, 0x10, 1]),
        st("key 2^35+8", &[0x88, 0x80, 0x80, 0x80, 0x80, 1, 1]),
        st("key 2^64-8", &[0xf8, 255, 255, 255, 255, 255, 255, 255, 255, 1, 1]),
        st("eleven octet key", &[0x88, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0, 1]),
        st("eleven octet varint", &[0x08, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0]),
    ];
    let mut b = vec![0x08];
    b.extend([0xff; 14]);
    v.push(St { name: "endless varint", b });
    v.push(st("eleven octet length", &[0x0a, 0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0, 0x41]));
    v
}
fn pend() -> Vec<St> {
    vec![
        st("key only, varint", &[0x08]),
        st("key only, 64 bit", &[0x09]),
        st("key only, bytes", &[0x0a]),
        st("key only, 32 bit", &[0x0d]),
        st("partial key", &[0x80]),
        st("nine octets of a key", &[0x88, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80]),
        st("partial varint", &[0x08, 0xff, 0xff]),
        st("partial 32 bit", &[0x0d, 1, 2, 3]),
        st("partial 64 bit", &[0x09, 1, 2, 3, 4, 5, 6, 7]),
        st("partial length", &[0x0a, 0x83]),
        st("partial bytes", &[0x0a, 3, 0x41, 0x42]),
        st("huge 32-bit length", &[0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f]),
        st("huge 63-bit length", &[0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x41]),
        st("huge 64-bit length", &[0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 0x41]),
        st("nine continuation octets", &[0x08, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80]),
    ]
}

struct Sess {
    dec: Decoder,
    buf: Vec<u8>,
    fed: Vec<u8>,
    got: Vec<Item>,
    err: Option<DecoderError>,
    largest: u64,
}
/// Well-formed continuations for every state of a decoder (value, length and contents, key and value).
const REPLACE: [&[u8]; 6] = [&[0x01, 0x08, 0x02], &[0x08, 0x01], &[0x02, 0x41, 0x42, 0x08, 0x01], &[1, 2, 3, 4, 5, 6, 7, 8, 0x08, 1], &[0x0d, 1, 2, 3, 4], &[]];
impl Sess {
    fn new() -> Sess {
        Sess { dec: Decoder::default(), buf: vec![], fed: vec![], got: vec![], err: None, largest: 0 }
    }
    /// Appends `chunk` to the unread remainder, decodes, checks the byte count.
    fn call(&mut self, chunk: &[u8], cx: &mut Cx) {
        self.buf.extend_from_slice(chunk);
        self.fed.extend_from_slice(chunk);
        let before = self.buf.len();
        let fields = self.got.len();
        cx.alloc_reset();
        let r = self.dec.decode(&mut self.buf, &mut self.got);
        self.largest = self.largest.max(cx.alloc_max());
        cx.step();
        let (buf, got) = (&self.buf, &self.got);
        cx.note(|| format!("append [{}], decode -> {:?}, {} new fields {:?}, unread [{}]", hx(chunk), r, got.len() as i64 - fields as i64, &got[fields.min(got.len())..], hx(buf)));
        let shrunk = buf.len() <= before && self.fed.ends_with(buf);
        cx.check("P03 P04 P05 P09", shrunk, || format!("the buffer holds [{}], which is not the end of what was fed [{}]", hx(buf), hx(&self.fed)));
        if let Ok(n) = r {
            cx.check("P03", n + buf.len() == before, || format!("decode returned {} but removed {} octets (fed [{}])", n, before as i64 - buf.len() as i64, hx(&self.fed)));
        }
        self.err = r.err();
    }
    fn read(&self) -> usize {
        self.fed.len() - self.buf.len().min(self.fed.len())
    }
    /// P05: fields, verdict and unread remainder are those the wire format prescribes for everything fed so far.
    fn against_spec(&self, cx: &mut Cx) {
        if !cx.want("P05") && !cx.want("P10") && !cx.want("P04") {
            return;
        }
        let p = parse(&self.fed);
        let f = || hx(&self.fed);
        if let End::Pending(at) = &p.end {
            // waiting: success, no partial field, the unread octets in place
            cx.check("P04", self.err.is_none() && same(&self.got, &p.fields), || format!("[{}]: {:?}, fields {:?} while waiting for more, expected {:?}", f(), self.err, self.got, p.fields));
            cx.check("P04", at.contains(&self.read()), || format!("[{}]: {} octets consumed while waiting for more, expected one of {:?}", f(), self.read(), at));
        }
        if p.end == End::Done {
            cx.check("P10", same(&self.got, &p.fields) && self.err.is_none() && self.buf.is_empty(), || format!("[{}]: {:?}, fields {:?}, expected {:?}", f(), self.err, self.got, p.fields));
        }
        if p.end == End::Open {
            let n = p.fields.len();
            cx.check("P05", self.got.len() >= n && same(&self.got[..n], &p.fields), || format!("[{}]: fields {:?}, expected {:?}", f(), self.got, p.fields));
            return;
        }
        cx.check("P05", same(&self.got, &p.fields), || format!("[{}]: fields {:?}, expected {:?}", f(), self.got, p.fields));
        let (ok, at) = match &p.end {
            End::Done => (self.err.is_none(), vec![self.fed.len()]),
            End::Pending(a) => (self.err.is_none(), a.clone()),
            End::Ten(a) => (matches!(self.err, None | Some(DecoderError::InvalidInput)), a.clone()),
            End::Bad(a) => (self.err == Some(DecoderError::InvalidInput), a.clone()),
            End::Open => unreachable!(),
        };
        cx.check("P05", ok, || format!("[{}]: verdict {:?}, expected {:?}", f(), self.err, p.end));
        cx.check("P05", at.contains(&self.read()), || format!("[{}]: {} octets consumed, expected one of {:?}", f(), self.read(), at));
    }
    /// P09: after a failed call.
    fn after_error(&mut self, cx: &mut Cx) {
        if !cx.want("P09") || self.err.is_none() {
            return;
        }
        let p = parse(&self.fed);
        if let End::Bad(at) | End::Ten(at) = &p.end {
            let f = hx(&self.fed);
            cx.check("P09", same(&self.got, &p.fields), || format!("[{}]: fields delivered before the error {:?}, expected {:?}", f, self.got, p.fields));
            cx.check("P09", at.contains(&self.read()), || format!("[{}]: {} octets consumed, the malformed element starts at one of {:?}", f, self.read(), at));
        }
        let (b, g) = (self.buf.clone(), self.got.clone());
        let e = format!("{:?}", self.err);
        for n in 0..3 {
            self.call(&[], cx);
            let e2 = format!("{:?}", self.err);
            cx.check("P09", e2 == e, || format!("[{}]: error {} became {} when the call was repeated", hx(&self.fed), e, e2));
            cx.check("P09", self.buf == b && self.got == g, || format!("[{}]: repeating the failed call ({}) changed buffer or fields", hx(&self.fed), n));
        }
        // the failed calls left the decoder where it was: with the unread octets replaced by others it behaves like
        // one that has read the same octets and never failed
        let read = self.fed[..self.read()].to_vec();
        for c in REPLACE {
            let mut mine = Sess::new();
            let _ = mine.dec.decode(&mut self.fed.clone(), &mut mine.got);
            cx.step();
            let n = mine.got.len();
            let mut buf = c.to_vec();
            let r = mine.dec.decode(&mut buf, &mut mine.got);
            let mut buf2 = [&read[..], c].concat();
            let mut got2 = vec![];
            let r2 = Decoder::default().decode(&mut buf2, &mut got2);
            if n == self.got.len() {
                cx.check("P09", mine.got == got2 && buf == buf2 && format!("{:?}", r.as_ref().err()) == format!("{:?}", r2.as_ref().err()), || {
                    format!("[{}] refused; then [{}] in its place gives {:?} {:?}, without the error {:?} {:?}", hx(&self.fed), hx(c), r, &mine.got[n..], r2, &got2[n.min(got2.len())..])
                });
            }
        }
    }
}
/// Feeds `chunks` (empty chunks repeat a call) and checks after each call; stops at the first error.
fn feed(chunks: &[&[u8]], cx: &mut Cx) -> Sess {
    let mut s = Sess::new();
    for c in chunks {
        s.call(c, cx);
        s.against_spec(cx);
        if s.err.is_some() {
            s.after_error(cx);
            break;
        }
    }
    cx.state(h(&(&s.buf, s.got.len(), s.got.last().map(|x| (x.0, &x.2)), s.err.is_some(), s.read())));
    if cx.want("P05") {
        let (m, l) = (s.largest, s.fed.len() as u64);
        cx.check("P05", m <= 128 * l + 4096, || format!("[{}]: one allocation of {} octets", hx(&s.fed), m));
    }
    s
}
/// P04: the chunked run ends like the run at once.
fn same_end(c: &Sess, once: &Sess, total: usize, cx: &mut Cx) {
    if !cx.want("P04") {
        return;
    }
    let f = || hx(&once.fed);
    cx.check("P04", c.got == once.got, || format!("[{}]: in pieces {:?}, at once {:?}", f(), c.got, once.got));
    cx.check("P04", format!("{:?}", c.err) == format!("{:?}", once.err), || format!("[{}]: in pieces {:?}, at once {:?}", f(), c.err, once.err));
    cx.check("P04", c.read() == once.read(), || format!("[{}]: in pieces {} octets consumed, at once {} of {}", f(), c.read(), once.read(), total));
}
/// P04: intermediate call of a chunked run.
fn waiting(s: &Sess, once: &Sess, cx: &mut Cx) {
    if !cx.want("P04") {
        return;
    }
    if s.err.is_some() {
        cx.check("P04", once.err.is_some(), || format!("[{}] of [{}]: {:?} while waiting for more", hx(&s.fed), hx(&once.fed), s.err));
    }
    cx.check("P04", s.got.len() <= once.got.len() && s.got[..] == once.got[..s.got.len()], || {
        format!("[{}] of [{}]: delivered {:?}, at once {:?}", hx(&s.fed), hx(&once.fed), s.got, once.got)
    });
    cx.check("P04", s.read() <= once.read(), || format!("[{}] of [{}]: consumed {} octets, at once {}", hx(&s.fed), hx(&once.fed), s.read(), once.read()));
}
/// One chunking of `b`: cut positions ascending; a repeated position is an additional call without new data.
fn chunked(b: &[u8], cuts: &[usize], once: &Sess, cx: &mut Cx) {
    let mut s = Sess::new();
    let mut at = 0;
    for e in cuts.iter().copied().chain([b.len()]) {
        s.call(&b[at..e], cx);
        s.against_spec(cx);
        waiting(&s, once, cx);
        at = e;
        if s.err.is_some() {
            s.after_error(cx);
            if cx.want("P04") && at < b.len() {
                // the rest arrives too: the verdict must stay
                s.call(&b[at..], cx);
            }
            break;
        }
        if cx.failed() {
            return;
        }
    }
    same_end(&s, once, b.len(), cx);
}
fn concat(t: &[&St]) -> Vec<u8> {
    t.iter().flat_map(|x| x.b.iter().copied()).collect()
}
fn names(t: &[&St]) -> String {
    format!("{} [{}]", t.iter().map(|x| x.name).collect::<Vec<_>>().join(" + "), hx(&concat(t)))
}
/// Sequences over valid, malformed and incomplete fields, at once (P03 P05 P09).
pub fn streams(n: usize) -> Work {
    let t: Vec<St> = good().into_iter().chain(bad()).chain(pend()).collect();
    let t = std::sync::Arc::new(t);
    let a = t.len() as u64;
    let t2 = t.clone();
    let mut starts = vec![0u64];
    for l in 0..=n {
        starts.push(starts[l] + a.pow(l as u32));
    }
    let total = *starts.last().unwrap();
    let pick = move |i: u64| {
        let l = starts.partition_point(|s| *s <= i) - 1;
        digits(i - starts[l], a, l)
    };
    let p2 = pick.clone();
    space(
        format!("streams: all sequences of {} valid, malformed and incomplete elements up to length {}", a, n),
        total,
        move |i, cx| {
            let seq: Vec<&St> = pick(i).into_iter().map(|d| &t[d]).collect();
            let b = concat(&seq);
            let s = feed(&[&b, &[]], cx);
            cx.state(h(&(b, s.got.len())));
            // a second decoder, half way through a message, is not affected
            if cx.want("P09") {
                let mut o = Sess::new();
                o.call(&[0x0a, 3, 0x61], cx);
                feed(&[&s.fed], cx);
                o.call(&[0x62, 0x63, 0x08, 1], cx);
                cx.check("P09", o.err.is_none() && same(&o.got, &[(1, 2, b"abc".to_vec()), (1, 0, vec![1])]) && o.buf.is_empty(), || {
                    format!("[{}]: another decoder was affected: {:?} {:?}", hx(&s.fed), o.err, o.got)
                });
            }
        },
        move |i| names(&p2(i).into_iter().map(|d| &t2[d]).collect::<Vec<_>>()),
    )
}
/// Sequences of elements, delivered in pieces. `cuts` = all placements of that many cuts (positions may repeat, which
/// is a call without new data); plus octet by octet with 0 and 1 empty calls in between.
pub fn pieces(n: usize, cuts: usize) -> Work {
    let t: Vec<St> = good().into_iter().chain(bad()).chain(pend()).collect();
    pieces_of(format!("chunked streams: all sequences of {} elements up to length {}, all placements of up to {} cuts, and octet by octet", t.len(), n, cuts), t, n, cuts)
}
pub fn pieces_long(n: usize) -> Work {
    let t: Vec<St> = long_good().into_iter().chain(good().into_iter().step_by(3)).chain(pend().into_iter().step_by(2)).chain(bad().into_iter().step_by(4)).collect();
    pieces_of(format!("chunked long streams: all sequences of {} elements (payloads up to 300 octets) up to length {}, every single cut, and octet by octet", t.len(), n), t, n, 1)
}
fn pieces_of(name: String, t: Vec<St>, n: usize, cuts: usize) -> Work {
    let t = std::sync::Arc::new(t);
    let a = t.len() as u64;
    let t2 = t.clone();
    let mut starts = vec![0u64];
    for l in 0..n {
        starts.push(starts[l] + a.pow(l as u32 + 1));
    }
    let total = *starts.last().unwrap();
    let pick = move |i: u64| {
        let l = starts.partition_point(|s| *s <= i) - 1;
        digits(i - starts[l], a, l + 1)
    };
    let p2 = pick.clone();
    space(
        name,
        total,
        move |i, cx| {
            let seq: Vec<&St> = pick(i).into_iter().map(|d| &t[d]).collect();
            let b = concat(&seq);
            let mut once = Sess::new();
            once.call(&b, cx);
            cx.state(h(&b));
            let l = b.len();
            if cuts == 0 {
            } else {
                for x in 0..=l {
                    if cuts == 1 {
                        chunked(&b, &[x], &once, cx);
                        if cx.failed() {
                            cx.note(|| format!("cut at {}", x));
                            return;
                        }
                        continue;
                    }
                    for y in x..=l {
                        chunked(&b, &[x, y], &once, cx);
                        if cx.failed() {
                            cx.note(|| format!("cuts at {} and {}", x, y));
                            return;
                        }
                    }
                }
            }
            let each: Vec<usize> = (1..l).collect();
            chunked(&b, &each, &once, cx);
            let twice: Vec<usize> = (0..=l).flat_map(|x| [x, x]).collect();
            chunked(&b, &twice, &once, cx);
        },
        move |i| names(&p2(i).into_iter().map(|d| &t2[d]).collect::<Vec<_>>()),
    )
}
/// Every way of cutting a short stream (2^(L-1) chunkings).
pub fn compositions(max: usize) -> Work {
    let t: Vec<St> = good().into_iter().chain(bad()).chain(pend()).collect();
    let mut list = vec![];
    for x in &t {
        if x.b.len() <= max {
            list.push((x.name.to_string(), x.b.clone()));
        }
        for y in &t {
            if x.b.len() + y.b.len() <= max {
                list.push((format!("{} + {}", x.name, y.name), [x.b.clone(), y.b.clone()].concat()));
            }
        }
    }
    let l2 = list.clone();
    space(
        format!("every chunking of every stream of at most two elements and {} octets", max),
        list.len() as u64,
        move |i, cx| {
            let b = &list[i as usize].1;
            let mut once = Sess::new();
            once.call(b, cx);
            cx.state(h(b));
            for m in 0..1u32 << (b.len() - 1) {
                let cuts: Vec<usize> = (1..b.len()).filter(|k| m >> (k - 1) & 1 == 1).collect();
                chunked(b, &cuts, &once, cx);
                if cx.failed() {
                    cx.note(|| format!("cuts at {:?}", cuts));
                    return;
                }
            }
        },
        move |i| format!("{} [{}]", l2[i as usize].0, hx(&l2[i as usize].1)),
    )
}
/// Long runs: each pair of elements repeated, in chunks of 1..=k octets, through one decoder.
pub fn long_streams(reps: usize) -> Work {
    let t: Vec<St> = good().into_iter().chain(long_good().into_iter().take(2)).collect();
    let a = t.len() as u64;
    let t = std::sync::Arc::new(t);
    let t2 = t.clone();
    space(
        format!("every pair of valid elements repeated {} times, at once and in chunks of 1, 2, 3, 7 octets", reps),
        a * a,
        move |i, cx| {
            let (x, y) = (&t[(i / a) as usize], &t[(i % a) as usize]);
            let one = concat(&[x, y]);
            let b: Vec<u8> = (0..reps).flat_map(|_| one.clone()).collect();
            let mut once = Sess::new();
            once.call(&b, cx);
            once.against_spec(cx);
            for step in [1usize, 2, 3, 7] {
                let mut s = Sess::new();
                for (k, c) in b.chunks(step).enumerate() {
                    s.call(c, cx);
                    if k % 64 == 0 {
                        s.against_spec(cx);
                    }
                    if s.err.is_some() || cx.failed() {
                        break;
                    }
                }
                s.against_spec(cx);
                same_end(&s, &once, b.len(), cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| names(&[&t2[(i / a) as usize], &t2[(i % a) as usize]]),
    )
}
/// One decoder for very many messages, whole and in pieces, with failures of others in between.
pub fn long_lived(n: usize) -> Work {
    let t: Vec<St> = good();
    let a = t.len();
    space(
        format!("one decoder for {} messages", n),
        12,
        move |i, cx| {
            let mut s = Sess::new();
            let mut want: Vec<Item> = vec![];
            let step = [usize::MAX, 1, 3][(i % 3) as usize];
            let mul = [1usize, 3, 7, 11][(i / 3) as usize];
            for k in 0..n {
                let m = concat(&[&t[k * mul % a], &t[(k * mul + k / a) % a]]);
                let p = parse(&m);
                want.clear();
                want.extend(p.fields.iter().map(|f| (f.0, typ_of(f.1), f.2.clone())));
                s.got.clear();
                s.fed.clear();
                for c in m.chunks(step.min(m.len())) {
                    s.call(c, cx);
                }
                cx.check("P01 P03 P04 P05 P09 P10", s.err.is_none() && s.got == want && s.buf.is_empty(), || format!("message {} [{}]: {:?} {:?}, unread [{}]", k, hx(&m), s.err, s.got, hx(&s.buf)));
                if k % 1000 == 999 {
                    let _ = Decoder::default().decode(&mut vec![0], &mut vec![]);
                }
                if cx.failed() {
                    return;
                }
            }
            cx.state(i);
        },
        move |i| format!("pieces of {}, order {}", ["a message", "1 octet", "3 octets"][(i % 3) as usize], i / 3),
    )
}
/// Varints of every length and shape as key, value and length: one group repeated, one position different, every end.
pub fn varint_shapes() -> Work {
    const FILL: [u8; 3] = [0x80, 0x81, 0xff];
    const DEV: [u8; 4] = [0x80, 0x81, 0xc0, 0xff];
    const END: [u8; 6] = [0x00, 0x01, 0x02, 0x0f, 0x10, 0x7f];
    let dims = [12u64, 3, 12, 4, 6, 12];
    let mk = move |i: u64| -> Vec<u8> {
        let c = coords(i, &dims);
        let l = c[0] + 1;
        let mut v = vec![FILL[c[1]]; l];
        v[c[2].min(l - 1)] = DEV[c[3]];
        v[l - 1] = END[c[4]];
        let (mut b, tail): (Vec<u8>, Vec<u8>) = match c[5] {
            k @ 0..=7 => {
                v[0] = v[0] & 0xf8 | k as u8;
                (vec![], vec![1, 2, 3, 4, 5, 6, 7, 8, 0x08, 1])
            }
            8 => (vec![0x08], vec![0x10, 1]),
            9 => (vec![0x0a], vec![]),
            10 => (vec![0x0a], vec![0x41; 5]),
            _ => (vec![0x0a], vec![0x10; 140]),
        };
        b.extend(v);
        b.extend(tail);
        b
    };
    space(
        "varints of 1..12 octets of every shape as key, value and length",
        dims.iter().product(),
        move |i, cx| {
            let b = mk(i);
            let s = feed(&[&b, &[]], cx);
            cx.state(h(&(s.read(), s.got.len(), s.err.is_some())));
        },
        move |i| hx(&mk(i)),
    )
}
/// Announced lengths around every power of two with hardly any contents: nothing is delivered, nothing is lost.
pub fn claims(deep: bool) -> Work {
    let lens: Vec<u64> = (2..64u32).flat_map(|k| (0..6).map(move |d| (1u64 << k).wrapping_add(d).wrapping_sub(2))).chain([u64::MAX, u64::MAX - 1, u64::MAX - 7]).collect();
    let n = lens.len() as u64;
    let most = if deep { 24 } else { 9 };
    let mk = move |i: u64| -> Vec<u8> {
        let c = coords(i, &[n, most, 3, 2]);
        let mut b: Vec<u8> = [&b""[..], &[0x08, 1], &[0x12, 1, 0x41]][c[2]].to_vec();
        b.push(0x0a);
        varint(lens[c[0]], &mut b);
        let l = (c[1] as u64).min(lens[c[0]] - 1) as usize;
        b.extend((0..l).map(|x| if c[3] == 0 { 0x41 } else { [0x08, 0x01][x % 2] }));
        b
    };
    let m2 = mk.clone();
    space(
        format!("announced lengths around every power of two with up to {} octets of contents, every cut, and octet by octet", most - 1),
        n * most * 6,
        move |i, cx| {
            let b = mk(i);
            let once = feed(&[&b, &[]], cx);
            for x in 0..=b.len() {
                chunked(&b, &[x], &once, cx);
                if cx.failed() {
                    return;
                }
            }
            let each: Vec<usize> = (1..b.len()).collect();
            chunked(&b, &each, &once, cx);
        },
        move |i| hx(&m2(i)),
    )
}
/// Large contents arriving in pieces of every size class.
pub fn pieces_big(deep: bool) -> Work {
    let mut lens = vec![1000usize, 4096, 16383, 16384, 65535, 65536, 70_000, 200_000];
    if deep {
        lens.extend([(1 << 21) - 1, 1 << 21, 5_000_000]);
    }
    let steps = [1usize, 100, 255, 256, 1000, 4095, 4096, 4097, 16384, 65535, 65536, 100_000];
    let n = lens.len() as u64;
    space(
        "contents of up to some hundred thousand octets between other fields, in pieces of 1 to 100000 octets",
        n * 12 * 4,
        move |i, cx| {
            let c = coords(i, &[n, 12, 4]);
            let (l, step) = (lens[c[0]], steps[c[1]]);
            if l / step > 20_000 {
                return;
            }
            let mut b = vec![0x10, 0xac, 2];
            for _ in 0..=c[2] % 2 {
                b.push(0x0a);
                varint(l as u64, &mut b);
                b.extend((0..l).map(|x| (x * 7 + x / 256) as u8));
                b.extend([0x0d, 1, 2, 3, 4]);
            }
            if c[2] >= 2 {
                b.extend([0x07, 1]);
            }
            let mut once = Sess::new();
            once.call(&b, cx);
            let p = parse(&b);
            let ok = same(&once.got, &p.fields) && once.err.is_some() == (c[2] >= 2);
            cx.check("P04 P05", ok, || format!("content of {} octets at once: {:?}, {} fields", l, once.err, once.got.len()));
            let mut s = Sess::new();
            for c in b.chunks(step) {
                s.call(c, cx);
                if s.err.is_some() || cx.failed() {
                    break;
                }
            }
            same_end(&s, &once, b.len(), cx);
            if cx.want("P05") {
                let m = s.largest;
                cx.check("P05", same(&s.got, &p.fields), || format!("content of {} octets in pieces of {}: {} fields", l, step, s.got.len()));
                cx.check("P05", m <= 128 * b.len() as u64 + 4096, || format!("content of {} octets: one allocation of {}", l, m));
            }
            cx.state(h(&(l, step, c[2])));
        },
        move |i| format!("case {:?}", coords(i, &[n, 12, 4])),
    )
}
/// A stream of every length between other fields, well or badly ended, at once and cut at eight places.
pub fn pieces_every(to: u64) -> Work {
    space(
        format!("contents of every length up to {} between other fields, well and badly ended, cut at eight places", to),
        2 * (to + 1),
        move |i, cx| {
            let l = (i / 2) as usize;
            let mut b = vec![0x10, 0xac, 2, 0x0a];
            varint(l as u64, &mut b);
            let head = b.len();
            b.extend((0..l).map(|x| (x * 7 + x / 256) as u8));
            let end = b.len();
            b.extend([0x0d, 1, 2, 3, 4]);
            if i % 2 == 1 {
                b.extend([0x07, 1]);
            }
            let once = feed(&[&b], cx);
            let p = parse(&b);
            let ok = same(&once.got, &p.fields) && once.err.is_some() == (i % 2 == 1);
            cx.check("P04 P05 P09 P10", ok, || format!("content of {} octets at once: {:?}, {} fields", l, once.err, once.got.len()));
            if cx.failed() || cx.want("P05") {
                return;
            }
            let mut at = vec![vec![head - 1], vec![head], vec![head + l.min(1)], vec![head + l / 2], vec![end - l.min(1)], vec![end], vec![4, head, head + l / 2, end, end + 5], vec![end + 2, b.len() - 1]];
            at[7].retain(|x| *x > end + 1);
            for cuts in at {
                chunked(&b, &cuts, &once, cx);
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("content of {} octets{}", i / 2, if i % 2 == 1 { ", then a malformed key" } else { "" }),
    )
}
/// Every octet string of length n over an alphabet, after a prefix that puts the decoder in some state.
pub fn strings(n: usize, alpha: Vec<u8>, prefixes: Vec<Vec<Vec<u8>>>, name: &str) -> Work {
    let a = alpha.len() as u64;
    let inner = 2.min(n);
    let per = a.pow(inner as u32);
    let outer = a.pow((n - inner) as u32);
    let np = prefixes.len() as u64;
    let al = alpha.clone();
    let pr = prefixes.clone();
    blocks(
        format!("all octet strings of length {} over {} ({} octets), {} decoder state(s)", n, name, a, np),
        np * outer,
        per,
        move |i, cx| {
            let mut b: Vec<u8> = digits(i % outer, a, n - inner).into_iter().map(|d| alpha[d]).collect();
            let l = b.len();
            let p = &prefixes[(i / outer) as usize];
            for k in 0..per {
                b.truncate(l);
                b.extend(digits(k, a, inner).into_iter().map(|d| alpha[d]));
                let mut chunks: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
                chunks.push(&b);
                feed(&chunks, cx);
                if cx.failed() {
                    cx.note(|| format!("string [{}]", hx(&b)));
                    return;
                }
            }
        },
        move |i| format!("after {:x?}: strings beginning [{}]", pr[(i / outer) as usize], hx(&digits(i % outer, a, n - inner).into_iter().map(|d| al[d]).collect::<Vec<_>>())),
    )
}
pub fn fresh() -> Vec<Vec<Vec<u8>>> {
    vec![vec![]]
}
/// Decoder states reached by earlier calls.
pub fn decoder_states() -> Vec<Vec<Vec<u8>>> {
    vec![
        vec![vec![0x08, 1, 0x0a, 0]],       // after a complete message
        vec![vec![0x08]],                   // key of a varint read
        vec![vec![0x09]],                   // 64 bit
        vec![vec![0x0a]],                   // bytes, length missing
        vec![vec![0x0a, 2]],                // bytes, length known
        vec![vec![0x0d]],                   // 32 bit
        vec![vec![0x8a], vec![1]],          // key in two pieces
        vec![vec![0x0a, 0x80], vec![1, 7]], // length in two pieces
        vec![vec![0x08, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80]],
        vec![vec![0xff, 0xff, 0xff]],
    ]
}
pub fn every_octet() -> Vec<u8> {
    (0..=255).collect()
}
pub fn edge_octets() -> Vec<u8> {
    vec![0x00, 0x01, 0x02, 0x03, 0x05, 0x08, 0x0a, 0x0d, 0x11, 0x12, 0x7f, 0x80, 0x82, 0x8a, 0xff, 0x0f]
}

// ------------------------------------------------------------ P07: faulty writers

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dev {
    One,         // accepts one octet
    Half,        // accepts half
    AllButOne,   // accepts all but the last octet
    Interrupted, // interrupted once
    Zero,        // accepts nothing any more
    Fail(io::ErrorKind),
    Once(io::ErrorKind), // fails once, works afterwards
}
const DEVS: [Dev; 12] = [
    Dev::One,
    Dev::Half,
    Dev::AllButOne,
    Dev::Interrupted,
    Dev::Zero,
    Dev::Fail(io::ErrorKind::BrokenPipe),
    Dev::Fail(io::ErrorKind::WouldBlock),
    Dev::Fail(io::ErrorKind::WriteZero),
    Dev::Fail(io::ErrorKind::UnexpectedEof),
    Dev::Fail(io::ErrorKind::Other),
    Dev::Once(io::ErrorKind::WouldBlock),
    Dev::Once(io::ErrorKind::Other),
];
struct Faulty<'a> {
    call: usize,
    devs: &'a [(usize, Dev)],
    broken: Option<Dev>,
    accepted: Vec<u8>,
}
impl Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let c = self.call;
        self.call += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let d = self.broken.or(self.devs.iter().find(|x| x.0 == c).map(|x| x.1));
        let n = match d {
            None => b.len(),
            Some(Dev::One) => 1,
            Some(Dev::Half) => (b.len() + 1) / 2,
            Some(Dev::AllButOne) => (b.len() - 1).max(1),
            Some(Dev::Interrupted) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Dev::Zero) => {
                self.broken = d;
                return Ok(0);
            }
            Some(Dev::Fail(k)) => {
                self.broken = d;
                return Err(k.into());
            }
            Some(Dev::Once(k)) => return Err(k.into()),
        };
        self.accepted.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.broken {
            Some(Dev::Fail(k)) => Err(k.into()),
            _ => Ok(()),
        }
    }
}
fn write_fields() -> Vec<Tok> {
    let mut v = vec![];
    for ty in types() {
        v.push(Tok { ty, tag: 1, val: sample_value(ty) });
    }
    for b in [B::Bool, B::U64, B::Y64] {
        v.push(Tok { ty: Ty::Many(b), tag: 2048, val: Val::Many(vec![]) });
        v.push(Tok { ty: Ty::Many(b), tag: 16, val: Val::Many(alphabet(b)) });
    }
    v.push(Tok { ty: Ty::Bytes, tag: (1 << 29) - 1, val: Val::Bytes(vec![]) });
    v.push(Tok { ty: Ty::Bytes, tag: 16, val: Val::Bytes((0..200).collect()) });
    v.push(Tok { ty: Ty::One(B::I64), tag: (1 << 29) - 1, val: Val::One(u64::MAX) });
    v
}
fn write_case(t: &Tok, e: usize, devs: &[(usize, Dev)], cx: &mut Cx) {
    let mut want = vec![];
    field(t.ty, t.tag, &t.val, &mut want);
    let mut w = Faulty { call: 0, devs, broken: None, accepted: vec![] };
    let Some(r) = enc(e, t.ty, t.tag, &t.val, &mut w) else { return };
    cx.step();
    let (acc, broken) = (w.accepted, w.broken);
    cx.note(|| format!("{} {} with {:?}: {:?}, accepted [{}]", ENTRIES[e], show_toks(&[t.clone()]), devs, r, hx(&acc)));
    let d = || format!("{} {} through a writer with {:?}: {:?}, accepted [{}], canonical [{}]", ENTRIES[e], show_toks(&[t.clone()]), devs, r, hx(&acc), hx(&want));
    match &r {
        Ok(_) => cx.check("P07", acc == want, || format!("false success: {}", d())),
        Err(x) => {
            cx.check("P07", *x == EncoderError::Interrupted, || format!("unexpected error: {}", d()));
            cx.check("P07", want.starts_with(&acc), || format!("not a prefix: {}", d()));
            let only_short = devs.iter().all(|x| matches!(x.1, Dev::One | Dev::Half | Dev::AllButOne));
            cx.check("P07", !only_short, || format!("a writer that accepts every octet in portions was refused: {}", d()));
        }
    }
    cx.state(h(&(r.is_ok(), format!("{:?}", broken), acc)));
}
/// All placements of up to `k` deviations over the first `calls` write calls.
pub fn faulty(k: usize, calls: usize) -> Work {
    let toks = write_fields();
    let nd = (calls * DEVS.len()) as u64;
    let combos = nd.pow(k as u32 - 1);
    let nt = toks.len() as u64;
    let t2 = toks.clone();
    let dec = move |d: usize| (d / DEVS.len(), DEVS[d % DEVS.len()]);
    let pick = move |i: u64| -> Vec<(usize, Dev)> { digits(i % combos, nd, k - 1).into_iter().map(dec).collect() };
    blocks(
        format!("writers with every placement of {} deviation(s) among {} kinds over the first {} write calls, {} fields, 3 entry points", k, DEVS.len(), calls, nt),
        nt * 3 * combos,
        nd,
        move |i, cx| {
            let t = &toks[(i / combos / 3) as usize];
            let e = (i / combos % 3) as usize;
            let mut devs = pick(i);
            for w in devs.windows(2) {
                if w[0].0 >= w[1].0 {
                    cx.traces(0);
                    return; // ascending call numbers only; the others are the same sets
                }
            }
            let first = devs.last().map_or(0, |x| x.0 + 1);
            if e == 2 && enc(2, t.ty, t.tag, &t.val, &mut vec![]).is_none() {
                return cx.traces(0);
            }
            cx.traces(nd - (first * DEVS.len()) as u64);
            for d in 0..nd as usize {
                let x = dec(d);
                if x.0 < first {
                    continue;
                }
                devs.push(x);
                write_case(t, e, &devs, cx);
                devs.pop();
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("{} {} with {:?} and one more", ENTRIES[(i / combos % 3) as usize], show_toks(&t2[(i / combos / 3) as usize..][..1]), pick(i)),
    )
}
/// Writers that behave the same on every call: one octet at a time, half, one octet with an interruption before each, capacity limits.
pub fn steady() -> Work {
    let toks = write_fields();
    let nt = toks.len() as u64;
    let t2 = toks.clone();
    let cap = 230u64;
    space(
        "writers with a fixed capacity 0..230 and portion size 1..4, then failing, full or blocking",
        nt * 3 * cap * 4 * 3,
        move |i, cx| {
            let c = coords(i, &[nt, 3, cap, 4, 3]);
            let t = &toks[c[0]];
            struct Cap {
                left: usize,
                step: usize,
                mode: usize,
                acc: Vec<u8>,
                n: usize,
            }
            impl Write for Cap {
                fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                    self.n += 1;
                    if self.mode == 2 && self.n % 2 == 1 && self.left > 0 {
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    if self.left == 0 {
                        return match self.mode {
                            0 => Ok(0),
                            1 => Err(io::ErrorKind::BrokenPipe.into()),
                            _ => Err(io::ErrorKind::WouldBlock.into()),
                        };
                    }
                    let n = b.len().min(self.step).min(self.left);
                    self.left -= n;
                    self.acc.extend_from_slice(&b[..n]);
                    Ok(n)
                }
                fn flush(&mut self) -> io::Result<()> {
                    Ok(())
                }
            }
            let mut want = vec![];
            field(t.ty, t.tag, &t.val, &mut want);
            if c[2] > want.len() + 1 {
                return cx.traces(0);
            }
            let mut w = Cap { left: c[2], step: c[3] + 1, mode: c[4], acc: vec![], n: 0 };
            let Some(r) = enc(c[1], t.ty, t.tag, &t.val, &mut w) else { return };
            cx.step();
            cx.state(h(&(r.is_ok(), c[4], &w.acc)));
            let d = || format!("{} {}: capacity {}, portions of {}, mode {}: {:?}, accepted [{}]", ENTRIES[c[1]], show_toks(&[t.clone()]), c[2], c[3] + 1, c[4], r, hx(&w.acc));
            match &r {
                Ok(_) => cx.check("P07", w.acc == want, || format!("false success: {}", d())),
                Err(x) => {
                    cx.check("P07", *x == EncoderError::Interrupted, || format!("unexpected error: {}", d()));
                    cx.check("P07", want.starts_with(&w.acc), || format!("not a prefix: {}", d()));
                    cx.check("P07", w.left == 0 || c[4] == 2, || format!("refused although every octet was accepted: {}", d()));
                }
            }
        },
        move |i| {
            let c = coords(i, &[nt, 3, cap, 4, 3]);
            format!("{} {}: capacity {}, portions of {}, mode {}", ENTRIES[c[1]], show_toks(&[t2[c[0]].clone()]), c[2], c[3] + 1, c[4])
        },
    )
}

/// Large fields through writers with portions of every size class that stop at every kind of place.
/// Byte fields and repeated fields of every length through writers with eight kinds of behaviour.
pub fn every_write(to: u64) -> Work {
    const SETS: [&[(usize, Dev)]; 8] = [
        &[],
        &[(0, Dev::One)],
        &[(1, Dev::Half)],
        &[(0, Dev::AllButOne), (1, Dev::Half), (2, Dev::Half), (3, Dev::Half), (4, Dev::Half)],
        &[(1, Dev::Zero)],
        &[(0, Dev::Half), (2, Dev::Fail(io::ErrorKind::BrokenPipe))],
        &[(1, Dev::Interrupted)],
        &[(2, Dev::Half), (3, Dev::One), (4, Dev::Once(io::ErrorKind::Other))],
    ];
    let mk = |i: u64| {
        let n = i as usize / 2;
        match i % 2 {
            0 => Tok { ty: Ty::Bytes, tag: 3, val: Val::Bytes((0..n).map(|x| (x * 11 + x / 256) as u8).collect()) },
            _ => Tok { ty: Ty::Many(B::Bool), tag: 3, val: Val::Many((0..n).map(|x| (x / 3 % 2) as u64).collect()) },
        }
    };
    space(
        format!("fields of every length up to {} through writers with eight kinds of behaviour", to),
        2 * (to + 1),
        move |i, cx| {
            let t = mk(i);
            for s in SETS {
                for e in 0..3 {
                    write_case(&t, e, s, cx);
                }
            }
        },
        move |i| format!("{} of length {}", if i % 2 == 0 { "bytes" } else { "repeated bool" }, i / 2),
    )
}
pub fn big_writes() -> Work {
    let mut toks = vec![];
    for n in [5000usize, 16384, 66_000, 300_000] {
        toks.push(Tok { ty: Ty::Bytes, tag: 3, val: Val::Bytes((0..n).map(|x| (x * 11 + x / 256) as u8).collect()) });
    }
    for b in pref::BASES {
        let a = alphabet(b);
        toks.push(Tok { ty: Ty::Many(b), tag: 3, val: Val::Many((0..9000usize).map(|k| a[k % a.len()]).collect()) });
    }
    let nt = toks.len() as u64;
    let t2 = toks.clone();
    const STEP: [usize; 7] = [1, 7, 100, 4096, 8192, 65536, usize::MAX];
    space(
        "fields of thousands of octets through writers of seven portion sizes stopping at twenty places in three ways",
        nt * 3 * 7 * 20 * 3,
        move |i, cx| {
            let c = coords(i, &[nt, 3, 7, 20, 3]);
            let t = &toks[c[0]];
            let mut want = vec![];
            field(t.ty, t.tag, &t.val, &mut want);
            let l = want.len();
            let cap = [0, 1, 2, 3, 4, 5, 100, 127, 128, 1000, 4095, 4096, 4097, 8192, 65536, l / 2, l - 2, l - 1, l, l + 1][c[3]];
            struct Cap {
                left: usize,
                step: usize,
                mode: usize,
                acc: Vec<u8>,
            }
            impl Write for Cap {
                fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                    if self.left == 0 {
                        return match self.mode {
                            0 => Ok(0),
                            1 => Err(io::ErrorKind::BrokenPipe.into()),
                            _ => Err(io::ErrorKind::Other.into()),
                        };
                    }
                    let n = b.len().min(self.step).min(self.left);
                    self.left -= n;
                    self.acc.extend_from_slice(&b[..n]);
                    Ok(n)
                }
                fn flush(&mut self) -> io::Result<()> {
                    Ok(())
                }
            }
            let mut w = Cap { left: cap, step: STEP[c[2]], mode: c[4], acc: vec![] };
            let Some(r) = enc(c[1], t.ty, t.tag, &t.val, &mut w) else { return };
            cx.step();
            cx.state(h(&(r.is_ok(), c[0], c[3])));
            let d = || format!("{} {:?} of {} octets: capacity {}, portions of {}, mode {}: {:?}, accepted {} octets", ENTRIES[c[1]], t.ty, l, cap, STEP[c[2]], c[4], r, w.acc.len());
            match &r {
                Ok(_) => cx.check("P07", w.acc == want, || format!("false success: {}", d())),
                Err(x) => {
                    cx.check("P07", *x == EncoderError::Interrupted, || format!("unexpected error: {}", d()));
                    cx.check("P07", want.starts_with(&w.acc), || format!("not a prefix: {}", d()));
                    cx.check("P07", w.left == 0, || format!("refused although every octet was accepted: {}", d()));
                }
            }
        },
        move |i| {
            let c = coords(i, &[nt, 3, 7, 20, 3]);
            format!("{} {:?}: case {:?}", ENTRIES[c[1]], t2[c[0]].ty, c)
        },
    )
}

// ------------------------------------------------------------ P08: typed conversions

fn conv_case(ty: Ty, t: T, b: &[u8], cx: &mut Cx) {
    let got = to(lit(ty, b.to_vec()), t);
    cx.step();
    cx.note(|| format!("{:?} [{}] as {:?} -> {}", ty, hx(b), t, hv(&got)));
    cx.state(h(&(ty, t, &got)));
    if let Some(want) = convert(ty, t, b) {
        cx.check("P08", got == want, || format!("{:?} [{}] as {:?}: {}, expected {}", ty, hx(b), t, hv(&got), hv(&want)));
    }
}
/// Every type with every target, all octet strings up to length n (in blocks sharing all but the last octet).
pub fn conversions(n: usize) -> Work {
    let (ty, tg) = (types(), targets());
    let (y2, g2) = (ty.clone(), tg.clone());
    let per: u64 = 256;
    let outer: u64 = 1 + (0..n).map(|k| 256u64.pow(k as u32)).sum::<u64>(); // block 0: the empty string
    let pre = move |k: u64| -> Vec<u8> {
        let mut k = k - 1;
        let mut l = 0;
        while k >= 256u64.pow(l) {
            k -= 256u64.pow(l);
            l += 1;
        }
        digits(k, 256, l as usize).into_iter().map(|x| x as u8).collect()
    };
    blocks(
        format!("27 types x 16 targets, all octet strings up to length {}", n),
        27 * 16 * outer,
        per,
        move |i, cx| {
            let c = coords(i, &[27, 16, outer]);
            if c[2] == 0 {
                return conv_case(ty[c[0]], tg[c[1]], &[], cx);
            }
            let mut b = pre(c[2] as u64);
            for x in 0..=255u8 {
                b.push(x);
                conv_case(ty[c[0]], tg[c[1]], &b, cx);
                b.pop();
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &[27, 16, outer]);
            format!("{:?} as {:?}, strings beginning [{}]", y2[c[0]], g2[c[1]], if c[2] == 0 { String::from("(empty)") } else { hx(&pre(c[2] as u64)) })
        },
    )
}
/// The matching target (and text for bytes) of every type, all octet strings of length n.
pub fn natural_conversions(n: usize) -> Work {
    let mut pairs: Vec<(Ty, T)> = types().into_iter().map(|y| (y, natural(y))).filter(|x| x.0 != Ty::Bytes).collect();
    pairs.push((Ty::Bytes, T::Text));
    let np = pairs.len() as u64;
    let outer = 256u64.pow(n as u32 - 2);
    let p2 = pairs.clone();
    blocks(
        format!("every type with its own target, and text, all octet strings of length {}", n),
        np * outer * 256,
        256,
        move |i, cx| {
            let c = coords(i, &[np, outer * 256]);
            let mut b: Vec<u8> = digits(c[1] as u64, 256, n - 1).into_iter().map(|x| x as u8).collect();
            let (y, t) = pairs[c[0]];
            for x in 0..=255u8 {
                b.push(x);
                conv_case(y, t, &b, cx);
                b.pop();
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &[np, outer * 256]);
            format!("{:?} as {:?}, strings beginning {:02x?}", p2[c[0]].0, p2[c[0]].1, digits(c[1] as u64, 256, n - 1))
        },
    )
}
/// Every type with every target, all strings of length n over edge octets.
pub fn edge_conversions(n: usize) -> Work {
    let (ty, tg) = (types(), targets());
    let (y2, g2) = (ty.clone(), tg.clone());
    let al: Vec<u8> = vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0xff, 0x41, 0xc3, 0xa9];
    let a2 = al.clone();
    let a = al.len() as u64;
    let outer = a.pow(n as u32 - 1);
    blocks(
        format!("27 types x 16 targets, all strings of length {} over {} edge octets", n, a),
        27 * 16 * outer,
        a,
        move |i, cx| {
            let c = coords(i, &[27, 16, outer]);
            let mut b: Vec<u8> = digits(c[2] as u64, a, n - 1).into_iter().map(|d| al[d]).collect();
            for x in &al {
                b.push(*x);
                conv_case(ty[c[0]], tg[c[1]], &b, cx);
                b.pop();
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| {
            let c = coords(i, &[27, 16, outer]);
            format!("{:?} as {:?}, strings beginning {:02x?}", y2[c[0]], g2[c[1]], digits(c[2] as u64, a, n - 1).into_iter().map(|d| a2[d]).collect::<Vec<_>>())
        },
    )
}
/// Element pieces: canonical, padded, truncated, over-long encodings.
fn pieces_for(b: B) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for x in alphabet(b) {
        let mut o = vec![];
        pref::scalar(b, x, &mut o);
        v.push(o);
    }
    match b.wire() {
        0 => {
            v.push(vec![0x80]);
            v.push(vec![0x80, 0]);
            v.push(vec![0x81, 0x80, 0x80, 0]);
            v.push(vec![0xff, 0xff, 0xff, 0xff, 0x0f]);
            v.push(vec![0x02]);
            let mut z = vec![0x85; 9];
            z.push(0);
            v.push(z);
            v.push(vec![0xff; 9]);
            v.push(vec![0x80; 10]);
            let mut z = vec![0x80; 10];
            z.push(1);
            v.push(z);
        }
        _ => {
            v.push(vec![1]);
            v.push(vec![1, 2, 3]);
            v.push(vec![9; 7]);
            v.push(vec![0x7f, 0x80]);
        }
    }
    v
}
pub fn element_sequences(n: usize) -> Work {
    let mut list = vec![];
    let mut starts = vec![0u64];
    for b in pref::BASES {
        let p = pieces_for(b);
        for l in 0..=n {
            starts.push(starts.last().unwrap() + (p.len() as u64).pow(l as u32));
            list.push((b, l, p.clone()));
        }
    }
    let total = *starts.last().unwrap();
    let mk = move |i: u64| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (b, l, p) = &list[k];
        (*b, digits(i - starts[k], p.len() as u64, *l).into_iter().flat_map(|d| p[d].clone()).collect::<Vec<u8>>())
    };
    let mk2 = mk.clone();
    let tg = targets();
    space(
        format!("scalar and repeated contents: all sequences of valid, padded, truncated and over-long elements up to length {}, all 16 targets", n),
        total,
        move |i, cx| {
            let (b, s) = mk(i);
            cx.state(h(&(b, &s)));
            for ty in [Ty::One(b), Ty::Many(b)] {
                for t in &tg {
                    conv_case(ty, *t, &s, cx);
                }
            }
        },
        move |i| {
            let (b, s) = mk2(i);
            format!("{:?} [{}]", b, hx(&s))
        },
    )
}
/// Long repeated contents, complete and with a malformed element at every position of a short tail.
pub fn long_contents(upto: u64) -> Work {
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0x80], vec![0xff; 3], vec![0x80; 11]];
    let t2 = tails.clone();
    space(
        format!("repeated contents of 0..={} elements followed by nothing, a truncated or an over-long element", upto),
        13 * (upto + 1) * 4,
        move |i, cx| {
            let c = coords(i, &[13, upto + 1, 4]);
            let b = pref::BASES[c[0]];
            let a = alphabet(b);
            let mut s = vec![];
            for k in 0..c[1] {
                pref::scalar(b, a[k % a.len()], &mut s);
            }
            s.extend(&tails[c[2]]);
            conv_case(Ty::Many(b), natural(Ty::Many(b)), &s, cx);
        },
        move |i| {
            let c = coords(i, &[13, upto + 1, 4]);
            format!("{:?}: {} elements then [{}]", pref::BASES[c[0]], c[1], hx(&t2[c[2]]))
        },
    )
}
/// The contents of every structured 64-bit value (as written by an encoder, and padded), for every type of field.
pub fn structured_conversions() -> Work {
    let per = 1024u64;
    let total = 640 + (1u64 << 20);
    let nb = (total + per - 1) / per;
    blocks(
        "contents of 2^k + {-2..2}, complements, all seven-bit group patterns as every scalar and repeated type",
        13 * nb,
        per,
        move |i, cx| {
            let b = pref::BASES[(i / nb) as usize];
            let mut n = 0;
            for k in 0..per {
                let Some(v) = structured(B::U64, (i % nb) * per + k) else { continue };
                let mut one = vec![];
                let mut forms = 1;
                match b.wire() {
                    5 if v >> 32 != 0 => continue,
                    5 => one.extend((v as u32).to_le_bytes()),
                    1 => one.extend(v.to_le_bytes()),
                    _ => {
                        varint(v, &mut one);
                        forms = 1 + (one.len() < 10) as usize;
                    }
                }
                for _ in 0..forms {
                    n += 1;
                    conv_case(Ty::One(b), natural(Ty::One(b)), &one, cx);
                    conv_case(Ty::Many(b), natural(Ty::Many(b)), &one, cx);
                    conv_case(Ty::Many(b), natural(Ty::Many(b)), &[&one[..], &one].concat(), cx);
                    if forms == 2 {
                        // the same value in the longest form
                        let l = one.len();
                        one[l - 1] |= 0x80;
                        one.resize(9, 0x80);
                        one.push(0);
                    }
                }
                if cx.failed() {
                    return;
                }
            }
            cx.traces(n);
        },
        move |i| format!("{:?}, structured values from {:#x}", pref::BASES[(i / nb) as usize], structured(B::U64, (i % nb) * per).unwrap_or(0)),
    )
}
/// Text: every code point alone, in front of, behind and between letters, doubled, and cut short.
pub fn code_points() -> Work {
    blocks(
        "text: every code point (surrogates included) alone, among letters, doubled, cut short",
        0x11_0400 / 1024,
        1024,
        move |i, cx| {
            for k in 0..1024 {
                let c = (i * 1024 + k) as u32;
                let e: Vec<u8> = match c {
                    0..=0x7f => vec![c as u8],
                    0x80..=0x7ff => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
                    0x800..=0xffff => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
                    _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
                };
                let cut = &e[..e.len() - 1];
                for (a, z) in [(&b""[..], &b""[..]), (b"a", b""), (b"", b"a"), (b"ab", b"cd"), (&e[..], b""), (b"", cut), (b"", b" "), (b"\n", b"\0")] {
                    let b = [a, &e[..], z].concat();
                    conv_case(Ty::Bytes, T::Text, &b, cx);
                    conv_case(Ty::Bytes, T::Raw, &b, cx);
                }
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("code points from {:#x}", i * 1024),
    )
}
/// Text: all strings of length n over the octets at which UTF-8 validity changes.
pub fn texts(n: usize) -> Work {
    let al: Vec<u8> = vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    let a = al.len() as u64;
    let a2 = al.clone();
    blocks(
        format!("text: all strings of length {} over the {} octets at which UTF-8 validity changes", n, a),
        a.pow(n as u32 - 1),
        a,
        move |i, cx| {
            let mut b: Vec<u8> = digits(i, a, n - 1).into_iter().map(|d| al[d]).collect();
            for x in &al {
                b.push(*x);
                conv_case(Ty::Bytes, T::Text, &b, cx);
                conv_case(Ty::Bytes, T::Raw, &b, cx);
                b.pop();
                if cx.failed() {
                    return;
                }
            }
        },
        move |i| format!("text beginning {:02x?}", digits(i, a, n - 1).into_iter().map(|d| a2[d]).collect::<Vec<_>>()),
    )
}

/// Text and octets of every length.
pub fn every_text(to: u64) -> Work {
    space(
        format!("text, octets and repeated bool of every length up to {}", to),
        4 * (to + 1),
        move |i, cx| {
            let n = (i / 4) as usize;
            let mut b: Vec<u8> = match i % 4 {
                0 | 3 => (0..n).map(|k| b'a' + (k % 26) as u8).collect(),
                _ => "\u{e9}z\u{20ac}\u{1f600}".bytes().cycle().take(n / 10 * 10).chain((0..n % 10).map(|_| b'k')).collect(),
            };
            if i % 4 == 2 && n > 0 {
                b[n / 2] = 0xff;
            }
            if i % 4 == 3 {
                b.iter_mut().for_each(|x| *x &= 1);
                return conv_case(Ty::Many(B::Bool), natural(Ty::Many(B::Bool)), &b, cx);
            }
            conv_case(Ty::Bytes, T::Text, &b, cx);
            conv_case(Ty::Bytes, T::Raw, &b, cx);
        },
        move |i| format!("{} of length {}", ["letters", "text", "broken text", "bools"][(i % 4) as usize], i / 4),
    )
}
/// Long text with one character of several octets, or one fault, at and around every power of two and three times one.
pub fn text_boundaries(pow: u32) -> Work {
    let odd: Vec<&[u8]> = vec![b"", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xff", b"\0"];
    let fill: Vec<&[u8]> = vec![b"a", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes()];
    let mut at: Vec<usize> = (0..=80).collect();
    for k in 6..=pow {
        for b in [1usize << k, 3 << (k - 1)] {
            at.extend(b - 5..=b + 1);
        }
    }
    at.sort();
    at.dedup();
    let dims = [at.len() as u64, odd.len() as u64, fill.len() as u64, 4];
    let (a2, o2, f2) = (at.clone(), odd.clone(), fill.clone());
    const REST: [usize; 4] = [0, 1, 7, 5000];
    space(
        format!("long text with one character of several octets or one fault around every power of two up to 2^{}", pow),
        dims.iter().product(),
        move |i, cx| {
            let c = coords(i, &dims);
            let f = fill[c[2]];
            let mut b: Vec<u8> = vec![b'x'; at[c[0]] % f.len()];
            while b.len() < at[c[0]] {
                b.extend_from_slice(f);
            }
            b.extend_from_slice(odd[c[1]]);
            b.resize(b.len() + REST[c[3]], b'z');
            conv_case(Ty::Bytes, T::Text, &b, cx);
            conv_case(Ty::Bytes, T::Raw, &b, cx);
        },
        move |i| {
            let c = coords(i, &dims);
            format!("{} octets of {:02x?}, then {:02x?}, then {} octets", a2[c[0]], f2[c[2]], o2[c[1]], REST[c[3]])
        },
    )
}

// ------------------------------------------------------------ room in the caller's vectors

fn prior_items(n: usize) -> Vec<Item> {
    (0..n).map(|k| (k as u32 + 1, [Typ::Varint, Typ::Bit32, Typ::LengthDelimited][k % 3], vec![k as u8; k % 3])).collect()
}
/// Every type encoded into, and decoded from and into, vectors with spare room.
pub fn field_rooms(deep: bool) -> Work {
    let enc: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 32, 64, 100, 4096, 70_000] } else { vec![0, 1, 2, 5, 9, 10, 11, 16, 64, 4096] };
    let buf: Vec<usize> = if deep { vec![0, 1, 2, 4, 8, 10, 16, 64, 4096] } else { vec![0, 1, 8, 64] };
    let dst: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 8, 64] } else { vec![0, 1, 4] };
    let mut cases: Vec<(Ty, u32, Val)> = vec![];
    for ty in types() {
        for tag in [0, 1, 16, 2048, (1 << 29) - 1, 1 << 29] {
            cases.push((ty, tag, sample_value(ty)));
        }
        match ty {
            Ty::One(b) => cases.extend(alphabet(b).into_iter().map(|v| (ty, 1, Val::One(v)))),
            Ty::Many(b) => cases.extend([0usize, 1, 2, 40].map(|k| (ty, 2, Val::Many(alphabet(b).into_iter().cycle().take(k).collect())))),
            Ty::Bytes => cases.extend([0usize, 1, 2, 127, 128, 200].map(|k| (ty, 3, Val::Bytes(vec![0x55; k])))),
        }
    }
    let dims = [cases.len() as u64, enc.len() as u64, buf.len() as u64, dst.len() as u64];
    let cases = std::sync::Arc::new(cases);
    let (c2, e2, b2, d2) = (cases.clone(), enc.clone(), buf.clone(), dst.clone());
    space(
        "fields of every type: spare room in destination, input and decoded fields",
        dims.iter().product(),
        move |i, cx| {
            let c = coords(i, &dims);
            let (ty, tag, val) = &cases[c[0]];
            field_in([enc[c[1]], buf[c[2]], dst[c[3]]], *ty, *tag, val, cx);
        },
        move |i| {
            let c = coords(i, &dims);
            let (ty, tag, val) = &c2[c[0]];
            format!("{:?} tag {} value {}, spare room {} / {} / {}", ty, tag, hv(val), e2[c[1]], b2[c[2]], d2[c[3]])
        },
    )
}
/// Streams (valid, malformed, incomplete), at once and in two pieces, decoded from and into vectors with spare
/// room and fields delivered before: the same as into fresh vectors.
pub fn stream_rooms(n: usize, deep: bool) -> Work {
    let buf: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 8, 10, 64, 4096] } else { vec![0, 1, 8, 64] };
    let dst: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 8, 64] } else { vec![0, 1, 2, 8] };
    let prior: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 7, 64] } else { vec![0, 1, 3] };
    let t: Vec<St> = good().into_iter().chain(bad()).chain(pend()).collect();
    let a = t.len() as u64;
    let mut starts = vec![0u64];
    for l in 1..=n {
        starts.push(starts[l - 1] + a.pow(l as u32));
    }
    let total = *starts.last().unwrap();
    let t = std::sync::Arc::new(t);
    let t2 = t.clone();
    let st2 = starts.clone();
    let pick = |i: u64, starts: &[u64], a: u64| {
        let l = starts.partition_point(|s| *s <= i) - 1;
        digits(i - starts[l], a, l + 1)
    };
    space(
        format!("streams of {} fields: spare room in input and decoded fields, fields already delivered", n),
        total,
        move |i, cx| {
            let b = concat(&pick(i, &starts, a).iter().map(|k| &t[*k]).collect::<Vec<_>>());
            let cuts: Vec<usize> = if deep { (0..=b.len()).collect() } else { vec![0, b.len() / 2] };
            for cut in cuts {
                let run = |b0: usize, d0: usize, prior: &[Item]| {
                    let mut d = Decoder::default();
                    let mut buf: Vec<u8> = roomy(&[], b0);
                    let mut got: Vec<Item> = roomy(prior, d0);
                    let mut all = vec![];
                    let mut counted = true;
                    for part in [&b[..cut], &b[cut..]] {
                        buf.extend_from_slice(part);
                        let l = buf.len();
                        let r = d.decode(&mut buf, &mut got);
                        if let Ok(n) = r {
                            counted &= n + buf.len() == l;
                        }
                        all.push((r.err(), l as i64 - buf.len() as i64));
                        if all.last().unwrap().0.is_some() {
                            break;
                        }
                    }
                    (all, buf, got, counted)
                };
                let (want, rest, items, _) = run(0, 0, &[]);
                let err = want.iter().any(|x| x.0.is_some());
                // P05: whatever the room; P09: when the input is malformed; P10: when it is a whole message; P04: in pieces
                let props = ["P05", if err { " P09" } else { "" }, if !err && rest.is_empty() && cut == 0 { " P10" } else { "" }, if cut > 0 { " P04" } else { "" }].concat();
                for b0 in &buf {
                    for d0 in &dst {
                        for p in &prior {
                            let pr = prior_items(*p);
                            let (all, left, got, counted) = run(*b0, *d0, &pr);
                            cx.step();
                            cx.check("P03", counted, || format!("[{}] cut at {}: a returned count differs from the octets removed: {:?}", hx(&b), cut, all));
                            let ok = all == want && left == rest && got.len() == p + items.len() && got[..*p] == pr[..] && got[*p..] == items[..];
                            if !ok {
                                cx.note(|| format!("with room: {:?} rest [{}] {:?}", all, hx(&left), got));
                                cx.note(|| format!("expected:  {:?} rest [{}] {:?}", want, hx(&rest), items));
                                cx.check(&props, false, || {
                                    format!("[{}] cut at {}: with room for {} octets and {} fields and {} fields delivered before {:?} {:?}, otherwise {:?} {:?}", hx(&b), cut, b0, d0, p, all, got, want, items)
                                });
                                return;
                            }
                        }
                    }
                }
            }
        },
        move |i| names(&pick(i, &st2, a).iter().map(|k| &t2[*k]).collect::<Vec<_>>()),
    )
}
