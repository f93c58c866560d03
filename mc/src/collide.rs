//! Pairs of different texts of equal length which coincide under common checksums and hash functions.

use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

fn fold(init: u32, v: &[u8], f: impl Fn(u32, u32) -> u32) -> u32 {
    v.iter().fold(init, |h, b| f(h, *b as u32))
}
fn crc32(v: &[u8], poly: u32) -> u32 {
    !v.iter().fold(!0u32, |mut c, b| {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ poly } else { c >> 1 };
        }
        c
    })
}
fn pair_sums(v: &[u8], m: u32) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in v {
        a = (a + *x as u32) % m;
        b = (b + a) % m;
    }
    b << 16 | a
}
fn jenkins(v: &[u8]) -> u32 {
    let mut h = fold(0, v, |h, b| {
        let h = h.wrapping_add(b);
        let h = h.wrapping_add(h << 10);
        h ^ h >> 6
    });
    h = h.wrapping_add(h << 3);
    h ^= h >> 11;
    h.wrapping_add(h << 15)
}
fn murmur3(v: &[u8]) -> u32 {
    let mix = |k: u32| k.wrapping_mul(0xcc9e_2d51).rotate_left(15).wrapping_mul(0x1b87_3593);
    let mut h = 0u32;
    let mut c = v.chunks_exact(4);
    for k in &mut c {
        h = (h ^ mix(u32::from_le_bytes(k.try_into().unwrap()))).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    let k = c.remainder().iter().rev().fold(0, |k, b| k << 8 | *b as u32);
    h = (h ^ mix(k)) ^ v.len() as u32;
    h = (h ^ h >> 16).wrapping_mul(0x85eb_ca6b);
    h = (h ^ h >> 13).wrapping_mul(0xc2b2_ae35);
    h ^ h >> 16
}
fn fnv64(v: &[u8], a: bool) -> u64 {
    v.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| if a { (h ^ *b as u64).wrapping_mul(0x100_0000_01b3) } else { h.wrapping_mul(0x100_0000_01b3) ^ *b as u64 })
}
fn sip(v: &[u8], whole: bool) -> u64 {
    let mut s = DefaultHasher::new();
    if whole {
        v.hash(&mut s);
    } else {
        s.write(v);
    }
    s.finish()
}
type F = fn(&[u8]) -> u32;
const HASHES: [(&str, F); 22] = [
    ("FNV-1a, 32 bits", |v| fold(0x811c_9dc5, v, |h, b| (h ^ b).wrapping_mul(0x0100_0193))),
    ("FNV-1, 32 bits", |v| fold(0x811c_9dc5, v, |h, b| h.wrapping_mul(0x0100_0193) ^ b)),
    ("FNV-1a, 64 bits, low half", |v| fnv64(v, true) as u32),
    ("FNV-1a, 64 bits, high half", |v| (fnv64(v, true) >> 32) as u32),
    ("FNV-1a, 64 bits, folded", |v| (fnv64(v, true) >> 32 ^ fnv64(v, true)) as u32),
    ("FNV-1, 64 bits, low half", |v| fnv64(v, false) as u32),
    ("times 33 plus", |v| fold(5381, v, |h, b| h.wrapping_mul(33).wrapping_add(b))),
    ("times 33 exclusive or", |v| fold(5381, v, |h, b| h.wrapping_mul(33) ^ b)),
    ("times 31 plus", |v| fold(0, v, |h, b| h.wrapping_mul(31).wrapping_add(b))),
    ("sdbm", |v| fold(0, v, |h, b| b.wrapping_add(h << 6).wrapping_add(h << 16).wrapping_sub(h))),
    ("CRC-32", |v| crc32(v, 0xedb8_8320)),
    ("CRC-32C", |v| crc32(v, 0x82f6_3b78)),
    ("Adler-32", |v| pair_sums(v, 65521)),
    ("Fletcher", |v| pair_sums(v, 255)),
    ("rotate by 5 and exclusive or", |v| fold(0, v, |h, b| h.rotate_left(5) ^ b)),
    ("rotate by 7 and add", |v| fold(0, v, |h, b| h.rotate_left(7).wrapping_add(b))),
    ("Fx, 32 bits", |v| fold(0, v, |h, b| (h.rotate_left(5) ^ b).wrapping_mul(0x9e37_79b9))),
    ("one at a time", jenkins),
    ("Murmur 3", murmur3),
    ("SipHash of the slice, low half", |v| sip(v, true) as u32),
    ("SipHash of the octets, low half", |v| sip(v, false) as u32),
    ("SipHash of the slice, high half", |v| (sip(v, true) >> 32) as u32),
];
/// Three pairs for each function.
pub fn pairs() -> &'static Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    static P: OnceLock<Vec<(&'static str, Vec<u8>, Vec<u8>)>> = OnceLock::new();
    P.get_or_init(|| {
        let jobs: Vec<_> = HASHES
            .iter()
            .map(|(n, f)| {
                std::thread::spawn(move || {
                    let mut seen: HashMap<u32, Vec<u8>> = HashMap::new();
                    let mut v = vec![];
                    for k in 0u32.. {
                        let w = format!("{:08x}", k.wrapping_mul(0x9e37_79b9)).into_bytes();
                        if let Some(x) = seen.insert(f(&w), w.clone()) {
                            v.push((*n, x, w));
                            if v.len() == 3 {
                                break;
                            }
                        }
                    }
                    v
                })
            })
            .collect();
        jobs.into_iter().flat_map(|j| j.join().unwrap()).collect()
    })
}
