//! HPACK connection explorer: real encoder + real decoder against the reference tables.

use crate::engine::*;
use crate::href::*;
use crate::rfc::STATIC;
use httlib_hpack::{Decoder, DecoderError, Encoder, EncoderError};
use std::hash::Hash;

pub fn ebit(e: &DecoderError) -> u8 {
    match e {
        DecoderError::InvalidInput => INPUT,
        DecoderError::InvalidIndex => INDEX,
        DecoderError::IntegerOverflow => OVER,
        DecoderError::IntegerUnderflow => UNDER,
        DecoderError::InvalidMaxDynamicSize => MAXSIZE,
        _ => 0,
    }
}
pub const HPACK_MAX_INT5: u64 = 31 + (1 << 28) - 1; // largest size readable in five octets
pub const KEY_SIZE6: &str = "size-signal-above-268435486-refused-as-IntegerOverflow";

#[derive(Clone, Debug, Hash)]
pub enum Val {
    S(&'static [u8]),
    R(u8, usize),
    /// `n` octets running through all 256 values
    P(usize),
    V(Vec<u8>),
}
impl Val {
    pub fn v(&self) -> Vec<u8> {
        match self {
            Val::S(s) => s.to_vec(),
            Val::R(b, n) => vec![*b; *n],
            Val::V(v) => v.clone(),
            Val::P(n) => (0..*n).map(|i| (i * 7 + i / 256 + 3) as u8).collect(),
        }
    }
}
#[derive(Clone, Debug, Hash)]
pub enum Ix {
    A(u32),
    Last,
    Past,
}
impl Ix {
    fn at(&self, t: &RefTable) -> u32 {
        match self {
            Ix::A(i) => *i,
            Ix::Last => t.len() as u32,
            Ix::Past => t.len() as u32 + 1,
        }
    }
}
#[derive(Clone, Debug, Hash)]
pub enum Op {
    Lit(Val, Val, u8),
    Idx(Ix),
    Name(Ix, Val, u8),
    Upd(u32),
    Limit(u32),
}
impl Op {
    pub fn show(&self) -> String {
        let v = |x: &Val| txt(&x.v());
        match self {
            Op::Lit(n, w, f) => format!("literal({}, {}, flags {:#x})", v(n), v(w), f),
            Op::Idx(i) => format!("indexed({:?})", i),
            Op::Name(i, w, f) => format!("indexed_name({:?}, {}, flags {:#x})", i, v(w), f),
            Op::Upd(n) => format!("size_update({})", n),
            Op::Limit(n) => format!("decoder.set_limit({})", n),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    PerOp,
    Whole,
    Bytes,
    Exact,
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub size: Option<u32>, // None = default()
    pub direct: bool,      // use the specific methods instead of encode()
    pub mode: Mode,
}
impl Cfg {
    pub fn show(&self) -> String {
        format!(
            "table {}, {}, delivery {:?}",
            self.size.map_or("default".to_string(), |s| s.to_string()),
            if self.direct { "specific methods" } else { "encode()" },
            self.mode
        )
    }
}

pub struct Run {
    pub enc: Encoder<'static>,
    pub dec: Decoder<'static>,
    pub et: RefTable,
    pub dt: RefTable,
    pub limit: u64,
    wire: Vec<u8>,
    ev: Vec<Ev>,
    cfg: Cfg,
    pub dead: bool,
    /// Spare room: encoder output, unread octets, decoded fields; fields already in the decoder's output.
    pub room: [usize; 4],
}
/// A vector holding `v` whose spare capacity is exactly `room` (as far as the allocator allows).
pub fn roomy<T: Clone>(v: &[T], room: usize) -> Vec<T> {
    let mut o = Vec::with_capacity(v.len() + room);
    o.extend_from_slice(v);
    o
}
pub fn prior_fields(n: usize) -> Vec<Field> {
    (0..n).map(|k| (vec![b'p', k as u8], vec![0; k % 3], [0, 4, 8][k % 3])).collect()
}

/// Entries of the decoder's dynamic table, read through indexed fields (which change nothing).
pub fn probe_dec(d: &mut Decoder, cap: usize) -> Result<Vec<Hdr>, String> {
    let mut v = vec![];
    for i in 62u64.. {
        let mut b = int_enc(i, 7, 0x80);
        let mut out = vec![];
        match d.decode(&mut b, &mut out) {
            Ok(_) if out.len() == 1 => {
                let f = out.pop().unwrap();
                v.push((f.0, f.1));
            }
            Err(DecoderError::InvalidIndex) => break,
            r => return Err(format!("reading index {} gave {:?} and {} fields", i, r, out.len())),
        }
        if v.len() > cap {
            return Err(format!("more than {} dynamic entries", cap));
        }
    }
    Ok(v)
}
/// Number of dynamic entries of the encoder.
pub fn count_enc(e: &Encoder, cap: u64) -> u64 {
    let mut n = 0;
    let mut o = Vec::new();
    while n <= cap && e.encode_indexed(62 + n as u32, &mut o).is_ok() {
        n += 1;
    }
    n
}
/// Index the encoder uses for exactly this header in best-format mode (0 = none).
pub fn best_index(e: &mut Encoder, n: &[u8], v: &[u8]) -> u64 {
    let mut o = Vec::new();
    if e.encode((n.to_vec(), v.to_vec(), 0x10u8), &mut o).is_err() {
        return 0;
    }
    match parse(&o) {
        Ok(r) if r.kind == Kind::Indexed && r.len == o.len() => r.int,
        _ => 0,
    }
}

impl Run {
    pub fn new(cfg: Cfg) -> Run {
        let (enc, dec, n) = match cfg.size {
            Some(s) => (Encoder::with_dynamic_size(s), Decoder::with_dynamic_size(s), s as u64),
            None => (Encoder::default(), Decoder::default(), 4096),
        };
        Run { enc, dec, et: RefTable::new(n), dt: RefTable::new(n), limit: n, wire: vec![], ev: vec![], cfg, dead: false, room: [0; 4] }
    }
    pub fn hash(&self) -> u64 {
        h(&(&self.et.e, self.et.max, &self.dt.e, self.dt.max, self.limit, self.wire.len()))
    }

    /// Executes one operation on both the implementation and the model. False = stop this history.
    pub fn op(&mut self, op: &Op, cx: &mut Cx) -> bool {
        cx.step();
        cx.note(|| format!("op {}", op.show()));
        const S: [u8; 2] = [0xAA, 0x55];
        let mut out = roomy(&S, self.room[0]);
        let wants_counts = cx.want("H10") || cx.want("H14");
        let before = if wants_counts { count_enc(&self.enc, 2000) } else { 0 };
        let mut exp_kind = Kind::Size;
        let mut exp: Option<Ev> = None; // None = must be rejected
        let mut insert: Option<Hdr> = None;
        let mut flags_in = 0;
        let mut hdr: Hdr = (vec![], vec![]);
        let res: Result<(), EncoderError>;
        let kind_of = |f: u8| {
            if f & 4 != 0 {
                Kind::Inc
            } else if f & 8 != 0 {
                Kind::Never
            } else {
                Kind::Without
            }
        };
        let fl = |k: Kind| match k {
            Kind::Inc => 4,
            Kind::Never => 8,
            _ => 0,
        };
        match op {
            Op::Limit(n) => {
                if !self.deliver(cx) {
                    return false;
                }
                let before = if cx.want("H05") { probe_dec(&mut self.dec, 5000) } else { Ok(vec![]) };
                self.dec.set_max_dynamic_size(*n);
                self.limit = *n as u64;
                if cx.want("H05") {
                    let after = probe_dec(&mut self.dec, 5000);
                    cx.check("H05", before == after, || format!("setting the limit to {} changed the decoder table from {:?} to {:?}", n, before, after));
                    let m = self.dec.max_dynamic_size();
                    cx.check("H05", m == *n, || format!("decoder reports limit {} after it was set to {}", m, n));
                }
                cx.state(self.hash());
                return !cx.failed();
            }
            Op::Lit(n, v, f) => {
                hdr = (n.v(), v.v());
                flags_in = *f;
                let best = f & 0x10 != 0;
                exp_kind = if best && f & 0xC != 8 && self.et.has(&hdr.0, &hdr.1) { Kind::Indexed } else { kind_of(*f) };
                exp = Some(Ev::Field((hdr.0.clone(), hdr.1.clone(), fl(exp_kind))));
                if exp_kind == Kind::Inc {
                    insert = Some(hdr.clone());
                }
                res = if self.cfg.direct && !best {
                    self.enc.encode_literal(hdr.0.clone(), hdr.1.clone(), *f, &mut out)
                } else {
                    self.enc.encode((hdr.0.clone(), hdr.1.clone(), *f), &mut out)
                };
            }
            Op::Idx(i) => {
                let i = i.at(&self.et);
                exp_kind = Kind::Indexed;
                if let Some(x) = self.et.get(i as u64) {
                    hdr = x.clone();
                    exp = Some(Ev::Field((x.0, x.1, 0)));
                }
                res = if self.cfg.direct { self.enc.encode_indexed(i, &mut out) } else { self.enc.encode(i, &mut out) };
            }
            Op::Name(i, v, f) => {
                let i = i.at(&self.et);
                flags_in = *f;
                exp_kind = kind_of(*f);
                if let Some(x) = self.et.get(i as u64) {
                    hdr = (x.0, v.v());
                    exp = Some(Ev::Field((hdr.0.clone(), hdr.1.clone(), fl(exp_kind))));
                    if exp_kind == Kind::Inc {
                        insert = Some(hdr.clone());
                    }
                }
                res = if self.cfg.direct {
                    self.enc.encode_indexed_name(i, v.v(), *f, &mut out)
                } else {
                    self.enc.encode((i, v.v(), *f), &mut out)
                };
            }
            Op::Upd(n) => {
                exp = Some(Ev::Size(*n as u64));
                res = self.enc.update_max_dynamic_size(*n, &mut out);
            }
        }
        cx.note(|| format!("   -> {:?} {}", res, hex(out.get(2..).unwrap_or(&[]))));
        let kept = out.len() >= 2 && out[..2] == S;
        cx.check("H11 H14", kept, || format!("{}: earlier output was altered", op.show()));
        if !kept {
            return false;
        }
        let bytes = out[2..].to_vec();
        let exp = match exp {
            None => {
                cx.check("H14", res == Err(EncoderError::InvalidIndex), || format!("{}: invalid index was answered with {:?}", op.show(), res));
                cx.check("H14", bytes.is_empty(), || format!("{}: rejected request wrote {}", op.show(), hex(&bytes)));
                if cx.want("H14") {
                    self.check_enc_table("H14", cx, "after a rejected request");
                    let after = count_enc(&self.enc, 2000);
                    cx.check("H14", after == before, || format!("{}: rejected request changed the table from {} to {} entries", op.show(), before, after));
                }
                return res.is_err() && bytes.is_empty() && !cx.failed();
            }
            Some(e) => e,
        };
        if res.is_err() {
            cx.check("H01 H02 H10 H11 H05", false, || format!("{}: valid request failed with {:?}", op.show(), res));
            return false;
        }
        // ---- the bytes on the wire
        let rep = match parse_sent(&bytes) {
            Ok(r) if r.len == bytes.len() => r,
            r => {
                cx.check("H01 H10 H11 H12", false, || format!("{}: output {} is not one well-formed field ({:?})", op.show(), hex(&bytes), r.map(|r| r.len)));
                return false;
            }
        };
        cx.outcome(h(&(rep.kind, rep.int, rep.len)));
        cx.check("H11 H12", rep.minimal, || format!("{}: {} contains a non-minimal integer", op.show(), hex(&bytes)));
        if cx.want("H11") && !matches!(op, Op::Upd(_)) {
            let by_index = rep.name.is_none();
            let fail = |m: &str| format!("{}: {} {} (table {:?})", op.show(), hex(&bytes), m, self.et.e);
            cx.check("H11", rep.kind == exp_kind, || fail(&format!("is {:?}, expected {:?}", rep.kind, exp_kind)));
            if rep.kind == Kind::Indexed && exp_kind == Kind::Indexed {
                let ok = self.et.is(rep.int, &hdr.0, &hdr.1);
                cx.check("H11", ok, || fail("refers to an entry other than the header"));
            } else if rep.kind == exp_kind {
                let want_index = match op {
                    Op::Name(..) => true,
                    Op::Lit(_, _, f) => f & 0x10 != 0 && self.et.has_name(&hdr.0),
                    _ => false,
                };
                cx.check("H11", by_index == want_index, || fail(if want_index { "spells out an indexed name" } else { "does not spell out the name" }));
                if by_index {
                    cx.check("H11", self.et.name_is(rep.int, &hdr.0), || fail("refers to an entry with another name"));
                    if let Op::Name(i, _, _) = op {
                        cx.check("H11", rep.int == i.at(&self.et) as u64, || fail("does not use the requested index"));
                    }
                } else {
                    let s = rep.name.as_ref().unwrap();
                    cx.check("H11", s.huff == (flags_in & 1 != 0), || fail("name has the wrong string form"));
                    cx.check("H11", s.text == hdr.0, || fail("carries another name"));
                    cx.check("H11", !s.huff || s.raw == huff_enc(&hdr.0), || fail("name is not the canonical Huffman form"));
                }
                let s = rep.value.as_ref().unwrap();
                cx.check("H11", s.huff == (flags_in & 2 != 0), || fail("value has the wrong string form"));
                cx.check("H11", s.text == hdr.1, || fail("carries another value"));
                cx.check("H11", !s.huff || s.raw == huff_enc(&hdr.1), || fail("value is not the canonical Huffman form"));
            }
            if let (Op::Idx(i), Kind::Indexed) = (op, rep.kind) {
                cx.check("H11", rep.int == i.at(&self.et) as u64, || fail("does not use the requested index"));
            }
        }
        if let (Op::Upd(n), true) = (op, cx.want("H05") || cx.want("H11")) {
            let ok = rep.kind == Kind::Size && rep.int == *n as u64;
            cx.check("H05 H11", ok, || format!("{}: wrote {} ({:?} {})", op.show(), hex(&bytes), rep.kind, rep.int));
        }
        if flags_in & 0xC == 8 {
            cx.check("H10", rep.kind == Kind::Never, || format!("{}: sensitive header was sent as {:?} {}", op.show(), rep.kind, hex(&bytes)));
        }
        if cx.want("H10") && flags_in & 0xC != 4 && !matches!(op, Op::Upd(_)) {
            cx.check("H10", rep.kind != Kind::Inc, || format!("{}: sent with indexing {}", op.show(), hex(&bytes)));
            let after = count_enc(&self.enc, 2000);
            cx.check("H10", after <= before, || format!("{}: entered the encoder table", op.show()));
        }
        // ---- the model moves
        if let Some(x) = insert {
            self.et.insert(x);
        }
        let mut before_upd: Option<Result<(Vec<Hdr>, u64), String>> = None;
        if let Op::Upd(n) = op {
            if cx.want("H05") {
                if !self.deliver(cx) {
                    return false;
                }
                before_upd = Some(probe_dec(&mut self.dec, 5000).map(|p| (p, count_enc(&self.enc, 5000))));
            }
            self.et.set_max(*n as u64);
        }
        self.wire.extend_from_slice(&bytes);
        self.ev.push(exp);
        let m = self.enc.max_dynamic_size();
        let em = self.et.max;
        cx.check("H05 H02", m as u64 == em, || format!("{}: encoder reports maximum {} instead of {}", op.show(), m, em));
        let live = if self.cfg.mode == Mode::PerOp || self.cfg.mode == Mode::Bytes || before_upd.is_some() { self.deliver(cx) } else { true };
        if let (Op::Upd(n), Some(b)) = (op, before_upd) {
            // independent of the model: the survivors are the longest prefix of the previous entries that fits
            match (b, probe_dec(&mut self.dec, 5000)) {
                (Ok((b, _)), Ok(a)) => {
                    let mut s = 0;
                    let keep: Vec<Hdr> = b.iter().take_while(|x| { s += esize(x); s <= *n as u64 }).cloned().collect();
                    if live && !self.dead {
                        cx.check("H05", a == keep, || format!("{}: decoder keeps {:?} instead of {:?}", op.show(), a, keep));
                        let c = count_enc(&self.enc, 5000);
                        cx.check("H05", c == keep.len() as u64, || format!("{}: encoder keeps {} entries instead of {}", op.show(), c, keep.len()));
                    } else {
                        cx.check("H05", a == b, || format!("{}: rejected size change altered the table from {:?} to {:?}", op.show(), b, a));
                    }
                }
                (x, y) => cx.check("H05", false, || format!("table unreadable: {:?} {:?}", x.err(), y.err())),
            }
        }
        cx.state(self.hash());
        live && !cx.failed()
    }

    /// Hands the pending bytes to the decoder. False = the connection is finished (or a check failed).
    pub fn deliver(&mut self, cx: &mut Cx) -> bool {
        if self.wire.is_empty() {
            return !self.dead;
        }
        let block = std::mem::take(&mut self.wire);
        let evs = std::mem::take(&mut self.ev);
        let mut want: Vec<Field> = vec![];
        let mut err = 0;
        let mut over: Option<u64> = None;
        let mut good = 0usize; // octets of the block before the offending field
        for e in &evs {
            match e {
                Ev::Field(f) => {
                    if f.2 == 4 {
                        self.dt.insert((f.0.clone(), f.1.clone()));
                    }
                    want.push(f.clone());
                }
                Ev::Size(n) => {
                    if *n > self.limit {
                        err = MAXSIZE;
                        over = Some(*n);
                        break;
                    } else if *n > HPACK_MAX_INT5 {
                        over = Some(*n);
                        break;
                    }
                    self.dt.set_max(*n);
                }
            }
            good += parse(&block[good..]).map_or(0, |r| r.len);
        }
        let prior = prior_fields(if self.cfg.mode == Mode::Exact { 0 } else { self.room[3] });
        let mut got: Vec<Field> = roomy(&prior, self.room[2]);
        let mut buf: Vec<u8> = roomy(&[], self.room[1]);
        let before_entries = if cx.want("H10") && want.iter().all(|f| f.2 != 4) { probe_dec(&mut self.dec, 5000).map(|v| v.len()).unwrap_or(0) } else { usize::MAX };
        let mut res: Result<usize, DecoderError> = Ok(0);
        let mut sized = true;
        let mut total = 0;
        match self.cfg.mode {
            Mode::Bytes => {
                for (k, b) in block.iter().enumerate() {
                    buf.push(*b);
                    let l = buf.len();
                    res = self.dec.decode(&mut buf, &mut got);
                    match &res {
                        Ok(n) => {
                            sized &= *n == l - buf.len();
                        }
                        Err(DecoderError::IntegerUnderflow) if k + 1 < block.len() => {}
                        Err(_) => {
                            buf.extend_from_slice(&block[k + 1..]);
                            break;
                        }
                    }
                }
            }
            Mode::Exact => {
                buf.extend_from_slice(&block);
                let mut cap = 0;
                while !buf.is_empty() {
                    cap = cap % 3 + 1;
                    let mut o: Vec<Field> = Vec::with_capacity(cap);
                    let cap = o.capacity();
                    let l = buf.len();
                    res = self.dec.decode_exact(&mut buf, &mut o);
                    let n = o.len();
                    got.append(&mut o);
                    match &res {
                        Ok(k) => {
                            sized &= *k == l - buf.len();
                            total += k;
                            let full = n == cap || buf.is_empty();
                            cx.check("H13", full, || format!("capacity {}: {} fields delivered with {} octets unread", cap, n, buf.len()));
                            if l == buf.len() {
                                cx.check("H13 H07", false, || "bounded decoding makes no progress".into());
                                return false;
                            }
                        }
                        Err(_) => break,
                    }
                }
            }
            _ => {
                buf.extend_from_slice(&block);
                let l = buf.len();
                res = self.dec.decode(&mut buf, &mut got);
                if let Ok(k) = &res {
                    sized &= *k == l - buf.len();
                    total = *k;
                }
            }
        }
        let _ = total;
        if !prior.is_empty() {
            let kept = got.len() >= prior.len() && got[..prior.len()] == prior[..];
            cx.check("H06 H01 H13", kept, || format!("block {}: fields delivered earlier were altered: [{}]", hex(&block), fields(&got)));
            if !kept {
                return false;
            }
            got.drain(..prior.len());
        }
        cx.note(|| format!("   decoder: {:?} [{}] rest {}", res, fields(&got), hex(&buf)));
        cx.check("H13", sized, || format!("block {}: returned count differs from the octets removed", hex(&block)));
        let names = |v: &[Field]| v.iter().map(|f| (f.0.clone(), f.1.clone())).collect::<Vec<Hdr>>();
        match &res {
            Ok(_) if err == 0 => {
                cx.check("H01 H09 H13", names(&got) == names(&want), || format!("decoded [{}] instead of [{}] from {}", fields(&got), fields(&want), hex(&block)));
                cx.check("H01 H09 H13", buf.is_empty(), || format!("octets {} of {} left unread", hex(&buf), hex(&block)));
                cx.check("H10", got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a.2 == 8) == (b.2 == 8)), || {
                    format!("sensitivity marks [{}] instead of [{}]", fields(&got), fields(&want))
                });
                cx.check("H06 H11", got == want, || format!("decoded [{}] instead of [{}] from {}", fields(&got), fields(&want), hex(&block)));
                if before_entries != usize::MAX {
                    let n = probe_dec(&mut self.dec, 5000).map(|v| v.len()).unwrap_or(usize::MAX);
                    cx.check("H10", n <= before_entries, || format!("fields without indexing [{}] entered the decoder table", fields(&want)));
                }
                if let Some(n) = over {
                    // in-range size above the five-octet limit was accepted (the listed finding has been resolved)
                    self.dt.set_max(n);
                }
            }
            Err(e) if over.is_some() => {
                let n = over.unwrap();
                if n > HPACK_MAX_INT5 && *e == DecoderError::IntegerOverflow {
                    if cx.want("H05") && err == 0 {
                        cx.fail_key(KEY_SIZE6.into(), format!("size {} within the limit {} is refused with {:?}", n, self.limit, e));
                    }
                } else {
                    cx.check("H05", ebit(e) == err, || format!("size {} with limit {} gives {:?}", n, self.limit, e));
                }
                cx.check("H01 H05 H08", names(&got) == names(&want), || format!("fields before the refused size change: [{}] instead of [{}]", fields(&got), fields(&want)));
                if self.cfg.mode != Mode::Bytes {
                    cx.check("H08", buf == block[good..], || format!("unread octets {} instead of {}", hex(&buf), hex(&block[good..])));
                }
                self.dead = true;
                return false;
            }
            Ok(_) => {
                cx.check("H05", false, || format!("size {:?} above the limit {} was accepted", over, self.limit));
                return false;
            }
            Err(e) => {
                cx.check("H01 H02 H05 H06 H09 H10 H13", false, || format!("valid block {} was refused with {:?} (delivered [{}])", hex(&block), e, fields(&got)));
                return false;
            }
        }
        !cx.failed()
    }

    pub fn check_enc_table(&mut self, props: &str, cx: &mut Cx, when: &str) {
        let n = count_enc(&self.enc, 5000);
        let et = &self.et;
        cx.check(props, n == et.e.len() as u64, || format!("{}: encoder table has {} entries, expected {:?} (max {})", when, n, et.e, et.max));
        for i in 0..self.et.e.len() {
            let x = self.et.e[i].clone();
            let got = best_index(&mut self.enc, &x.0, &x.1);
            let et = &self.et;
            cx.check(props, et.is(got, &x.0, &x.1), || format!("{}: encoder resolves {:?} to index {}, expected table {:?}", when, x, got, et.e));
        }
    }

    /// Checks at the end of a history.
    pub fn finish(&mut self, cx: &mut Cx) {
        if !self.dead && !self.deliver(cx) && !self.dead {
            return;
        }
        if cx.failed() {
            return;
        }
        let need = ["H02", "H04", "H05", "H10", "H08"].iter().any(|p| cx.want(p));
        if need {
            let d = probe_dec(&mut self.dec, 20000);
            let d = match d {
                Ok(d) => d,
                Err(e) => {
                    cx.check("H02 H04 H05 H08", false, || format!("decoder table unreadable: {}", e));
                    return;
                }
            };
            if !self.dead && cx.want("H02") {
                let n = count_enc(&self.enc, 20000);
                cx.check("H02", n == d.len() as u64, || format!("encoder table has {} entries, decoder table {:?}", n, d));
                let full = RefTable { e: d.iter().cloned().collect(), max: u64::MAX };
                for x in &d {
                    let got = best_index(&mut self.enc, &x.0, &x.1);
                    cx.check("H02", full.is(got, &x.0, &x.1), || format!("encoder resolves {:?} to index {}, decoder table is {:?}", x, got, d));
                }
            }
            let dt = &self.dt;
            cx.check("H04 H08", d.iter().eq(dt.e.iter()), || format!("decoder table {:?}, expected {:?} (max {})", d, dt.e, dt.max));
            if cx.want("H04") && !self.dead {
                self.check_enc_table("H04", cx, "end");
            }
            let (m, l) = (self.dec.max_dynamic_size(), self.limit);
            cx.check("H05", m as u64 == l, || format!("decoder reports limit {} instead of {}", m, l));
        }
        if cx.want("H15") {
            check_static(&mut self.enc, &mut self.dec, cx);
        }
    }
}

pub fn check_static(enc: &mut Encoder, dec: &mut Decoder, cx: &mut Cx) {
    for (k, (n, v)) in STATIC.iter().enumerate() {
        let i = k as u32 + 1;
        let mut o = vec![];
        let r = dec.decode(&mut vec![0x80 | i as u8], &mut o);
        let ok = r == Ok(1) && o == vec![(n.as_bytes().to_vec(), v.as_bytes().to_vec(), 0)];
        cx.check("H15", ok, || format!("index {} decodes to {:?} [{}], RFC entry ({}, {})", i, r, fields(&o), n, v));
        let mut o = vec![];
        let mut b = int_enc(i as u64, 4, 0);
        b.extend([1, b'x']);
        let r = dec.decode(&mut b, &mut o);
        let ok = r.is_ok() && o == vec![(n.as_bytes().to_vec(), b"x".to_vec(), 0)];
        cx.check("H15", ok, || format!("name index {} decodes to {:?} [{}], RFC name {}", i, r, fields(&o), n));
        let mut o = vec![];
        let r = enc.encode_indexed(i, &mut o);
        cx.check("H15", r.is_ok() && o == vec![0x80 | i as u8], || format!("index {} encodes to {:?} {}", i, r, hex(&o)));
        let mut o = vec![];
        let r = enc.encode((n.as_bytes().to_vec(), v.as_bytes().to_vec(), 0x10u8), &mut o);
        cx.check("H15", r.is_ok() && o == vec![0x80 | i as u8], || format!("header ({}, {}) encodes to {:?} {}", n, v, r, hex(&o)));
        let first = STATIC.iter().position(|x| x.0 == *n).unwrap() as u64 + 1;
        let mut o = vec![];
        let r = enc.encode((n.as_bytes().to_vec(), b"\x01no such value".to_vec(), 0x10u8), &mut o);
        let p = parse(&o);
        let ok = r.is_ok() && p.as_ref().map_or(false, |p| p.name.is_none() && p.int >= first && p.int <= 61 && STATIC[p.int as usize - 1].0 == *n);
        cx.check("H15", ok, || format!("name {} encodes to {:?} {}", n, r, hex(&o)));
    }
}

// ------------------------------------------------------------ alphabets

const X40: Val = Val::R(b'v', 40);
const fn s(b: &'static [u8]) -> Val {
    Val::S(b)
}
fn l(n: &'static [u8], v: Val, f: u8) -> Op {
    Op::Lit(s(n), v, f)
}

/// Everything, for shallow exhaustive sequences.
pub fn full() -> Vec<Op> {
    let mut o = vec![];
    for f in [4u8, 0x14, 0, 8, 0x18, 0x10, 7, 0x17, 0xB, 0x1B, 3, 0x13] {
        o.push(l(b"a", s(b"x"), f));
    }
    for f in [4u8, 0x14, 6] {
        o.push(l(b"bb", s(b"y"), f));
    }
    for f in [4u8, 0x14, 0x18, 7] {
        o.push(l(b"", s(b""), f));
    }
    for f in [0x14u8, 4, 0x18, 8, 0x10] {
        o.push(l(b":method", s(b"GET"), f));
    }
    for f in [0x14u8, 0x18, 0x10, 0x13] {
        o.push(l(b":method", s(b"PUT"), f));
    }
    for f in [4u8, 0x14, 7, 0x1A] {
        o.push(l(b"a", X40, f));
    }
    o.push(l(b"cookie", s(b""), 0x14));
    o.push(l(b"cookie", s(b""), 0x18));
    o.push(l(b"www-authenticate", s(b"q"), 0x14));
    for f in [0x14u8, 0x18, 5, 2] {
        o.push(l(b"a", s(b"y"), f));
    }
    for f in [7u8, 0x17, 0xB, 4] {
        o.push(l(b"a", s(b"\x00\xff\x80"), f));
    }
    o.push(l(b"A", s(b"X"), 0x14));
    for i in [Ix::A(62), Ix::A(63), Ix::Last, Ix::Past, Ix::A(1), Ix::A(2), Ix::A(61), Ix::A(0), Ix::A(u32::MAX)] {
        o.push(Op::Idx(i));
    }
    for (i, v, f) in [
        (Ix::A(2), s(b"x"), 4u8),
        (Ix::A(62), s(b"x"), 4),
        (Ix::Last, s(b"z"), 4),
        (Ix::Last, X40, 6),
        (Ix::A(62), s(b"x"), 8),
        (Ix::A(62), s(b"x"), 0),
        (Ix::A(63), s(b"y"), 6),
        (Ix::A(2), s(b"GET"), 8),
        (Ix::A(16), s(b"z"), 0xA),
        (Ix::A(0), s(b"x"), 4),
        (Ix::Past, s(b"x"), 4),
        (Ix::Past, s(b"x"), 8),
        (Ix::A(1), s(b""), 4),
        (Ix::A(15), s(b"x"), 0),
        (Ix::A(61), s(b"x"), 5),
    ] {
        o.push(Op::Name(i, v, f));
    }
    for n in [0u32, 33, 34, 68, 100, 1 << 20] {
        o.push(Op::Upd(n));
    }
    for n in [0u32, 34, 68, 4096] {
        o.push(Op::Limit(n));
    }
    o
}
/// The operations that move entries, for deep sequences and state-matching search.
pub fn core() -> Vec<Op> {
    vec![
        l(b"a", s(b"x"), 4),
        l(b"a", s(b"y"), 0x17),
        l(b"bb", s(b"zz"), 0x14),
        l(b"a", X40, 4),
        l(b"", s(b""), 4),
        Op::Name(Ix::Last, s(b"w"), 4),
        Op::Idx(Ix::Last),
        Op::Upd(0),
        Op::Upd(34),
        Op::Upd(67),
        Op::Upd(100),
        l(b"a", s(b"x"), 0x18),
    ]
}
pub fn evict() -> Vec<Op> {
    vec![l(b"a", s(b"x"), 4), l(b"bb", s(b"yy"), 4), l(b"c", X40, 4), Op::Name(Ix::Last, s(b"w"), 4), Op::Upd(34), Op::Upd(100), Op::Idx(Ix::A(62))]
}
pub fn sens() -> Vec<Op> {
    let mut o = vec![l(b"a", s(b"x"), 4), l(b":method", s(b"GET"), 4), l(b"", s(b""), 4), l(b"k", s(b"\xf9\xff"), 6)];
    for (n, v) in [(&b"a"[..], &b"x"[..]), (b"a", b"y"), (b":method", b"GET"), (b":method", b"PUT"), (b"", b""), (b"k", b"\xf9\xff"), (b"new", b"n"), (b"authorization", b""), (b"cookie", b"c")] {
        for f in [8u8, 9, 0xA, 0xB, 0x18, 0x19, 0x1A, 0x1B, 0, 3, 0x10, 0x13] {
            o.push(Op::Lit(s(n), s(v), f));
        }
    }
    for i in [Ix::A(2), Ix::A(62), Ix::Last, Ix::A(32), Ix::A(15), Ix::A(16)] {
        for f in [8u8, 0xA, 0, 2, 0x18, 9] {
            o.push(Op::Name(i.clone(), s(b"x"), f));
            o.push(Op::Name(i.clone(), s(b"GET"), f));
        }
    }
    o
}
pub fn sizes() -> Vec<Op> {
    let mut o = vec![l(b"a", s(b"x"), 4), l(b"bb", s(b"yy"), 4), l(b"c", X40, 4), Op::Idx(Ix::A(62))];
    for n in [0u32, 31, 33, 34, 35, 67, 68, 69, 100, 128, 4096, 1 << 20] {
        o.push(Op::Upd(n));
    }
    for n in [0u32, 33, 34, 68, 100, 4096, u32::MAX] {
        o.push(Op::Limit(n));
    }
    o
}
pub fn invalid() -> Vec<Op> {
    let mut o = vec![l(b"a", s(b"x"), 4), l(b"c", X40, 4), Op::Upd(0), Op::Upd(40), Op::Upd(100)];
    for i in [Ix::A(0), Ix::Past, Ix::A(62), Ix::A(63), Ix::A(64), Ix::A(127), Ix::A(128), Ix::A(255), Ix::A(256 + 1), Ix::A(256 + 62), Ix::A(65536 + 2), Ix::A(1 << 31), Ix::A(u32::MAX - 1), Ix::A(u32::MAX)] {
        o.push(Op::Idx(i.clone()));
        for f in [0u8, 4, 6, 8, 0x14, 0x18] {
            o.push(Op::Name(i.clone(), s(b"v"), f));
        }
    }
    o
}

pub fn cfgs(sizes: &[u32], modes: &[Mode]) -> Vec<Cfg> {
    let mut v = vec![];
    for m in modes {
        for (k, n) in sizes.iter().enumerate() {
            v.push(Cfg { size: if *n == 4096 { None } else { Some(*n) }, direct: k % 2 == 1, mode: *m });
        }
    }
    v
}

// ------------------------------------------------------------ spaces

pub struct Seq {
    pub name: String,
    pub ops: Vec<Op>,
    pub depth: usize,
    pub cfgs: Vec<Cfg>,
    pub reps: usize,
}
impl Seq {
    fn split(&self, i: u64) -> (Vec<usize>, Cfg) {
        let k = self.cfgs.len() as u64;
        (digits(i / k, self.ops.len() as u64, self.depth), self.cfgs[(i % k) as usize])
    }
}
impl Space for Seq {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (self.ops.len() as u64).pow(self.depth as u32) * self.cfgs.len() as u64
    }
    fn run(&self, i: u64, cx: &mut Cx) {
        let (w, cfg) = self.split(i);
        let mut r = Run::new(cfg);
        'o: for _ in 0..self.reps {
            for k in &w {
                if !r.op(&self.ops[*k], cx) {
                    break 'o;
                }
            }
        }
        if !cx.failed() {
            r.finish(cx);
        }
    }
    fn show(&self, i: u64) -> String {
        let (w, cfg) = self.split(i);
        let o: Vec<String> = w.iter().map(|k| self.ops[*k].show()).collect();
        format!("{}: {}{}", cfg.show(), o.join("; "), if self.reps > 1 { format!(" (repeated {} times)", self.reps) } else { String::new() })
    }
}
/// All sequences of length 1..=depth (one space per length, shortest first).
pub fn seqs(name: &str, ops: &[Op], depth: usize, cfgs: &[Cfg]) -> Vec<Work> {
    (1..=depth)
        .map(|d| {
            Work::S(Box::new(Seq { name: format!("{} length {}", name, d), ops: ops.to_vec(), depth: d, cfgs: cfgs.to_vec(), reps: 1 }) as Box<dyn Space>)
        })
        .collect()
}
/// All periodic histories: words of length 1..=depth repeated `reps` times.
pub fn lasso(name: &str, ops: &[Op], depth: usize, reps: usize, cfgs: &[Cfg]) -> Vec<Work> {
    (1..=depth)
        .map(|d| {
            Work::S(Box::new(Seq { name: format!("{} word length {} x{}", name, d, reps), ops: ops.to_vec(), depth: d, cfgs: cfgs.to_vec(), reps }) as Box<dyn Space>)
        })
        .collect()
}
pub struct Search {
    pub name: String,
    pub ops: Vec<Op>,
    pub cfg: Cfg,
    pub depth: usize,
    pub max_states: usize,
}
impl Bfs for Search {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> usize {
        self.ops.len()
    }
    fn depth(&self) -> usize {
        self.depth
    }
    fn max_states(&self) -> usize {
        self.max_states
    }
    fn run(&self, path: &[u16], cx: &mut Cx) -> Option<u64> {
        let mut r = Run::new(self.cfg);
        let mut live = true;
        for k in path {
            live = r.op(&self.ops[*k as usize], cx);
            if !live {
                break;
            }
        }
        let hh = r.hash();
        if !cx.failed() {
            r.finish(cx);
        }
        if r.dead || cx.failed() {
            None
        } else {
            let _ = live;
            Some(hh)
        }
    }
    fn show(&self, path: &[u16]) -> String {
        let o: Vec<String> = path.iter().map(|k| self.ops[*k as usize].show()).collect();
        format!("{}: {}", self.cfg.show(), o.join("; "))
    }
}
pub fn search(name: &str, ops: Vec<Op>, sizes: &[u32], depth: usize, max_states: usize) -> Vec<Work> {
    cfgs(sizes, &[Mode::PerOp])
        .into_iter()
        .map(|cfg| Work::B(Box::new(Search { name: format!("{} table {}", name, cfg.size.unwrap_or(4096)), ops: ops.clone(), cfg, depth, max_states }) as Box<dyn Bfs>))
        .collect()
}
