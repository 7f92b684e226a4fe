//! prefix varints, zig-zag and deltas
use crate::{need, Res, Seen};
use encodings::{delta, prefix_varint, zigzag};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// integers at and around every bit length
pub fn wide() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
        2 => (0u32..64, any::<u64>()).prop_map(|(b, v)| v >> b),
        1 => (0u32..10, -2i64..3).prop_map(|(k, d)| (1u64 << (7 * k.min(9))).wrapping_add(d as u64)),
        1 => 0u64..300,
        1 => any::<u64>(),
        1 => Just(u64::MAX),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ints {
    v: Vec<u64>,
    junk: Vec<u8>,
}

pub fn varint_s() -> impl Strategy<Value = Ints> {
    (prop::collection::vec(wide(), 0..40), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(v, junk)| Ints { v, junk })
}

/// 7 value bits per byte up to eight bytes, then nine (the table in the crate's documentation)
fn size(v: u64) -> usize {
    let bits = (64 - v.leading_zeros()).max(1) as usize;
    if bits > 56 { 9 } else { bits.div_ceil(7) }
}

pub fn varint(c: &Ints) -> Res {
    let mut bytes = vec![];
    prefix_varint::compress_u64s_to_vec(&mut bytes, c.v.iter().copied());
    need!(bytes.len() == c.v.iter().map(|v| size(*v)).sum::<usize>(), "{:?} take {} bytes: {:?}", c.v, bytes.len(), bytes);
    let back: Vec<u64> = prefix_varint::u64_decompressor(&bytes).collect();
    need!(back == c.v, "{:?} encode as {:?}, which reads back as {:?}", c.v, bytes, back);
    let mut comp = prefix_varint::U64Compressor::new();
    need!(comp.is_empty(), "a new compressor is not empty");
    for v in &c.v {
        comp.push(*v);
    }
    need!(comp.is_empty() == c.v.is_empty(), "is_empty after {} values", c.v.len());
    need!(comp.finish() == bytes, "pushing {:?} differs from compressing them at once", c.v);
    // one after the other, each consumes exactly its bytes whatever follows
    let mut follow = bytes.clone();
    follow.extend_from_slice(&c.junk);
    let mut at = 0;
    for v in &c.v {
        let (x, len) = prefix_varint::read_from_slice(&follow[at..]);
        need!(x == *v && len == size(*v), "{v} at byte {at} of {:?} reads as {x} of {len} bytes", follow);
        at += len;
    }
    let mut s = Seen { nontrivial: c.v.len() > 1 && c.v.iter().any(|v| *v > 127), ..Seen::default() };
    s.label("nine byte value", c.v.iter().any(|v| size(*v) == 9));
    s.label("at a bit length boundary", c.v.iter().any(|v| size(*v) != size(v.wrapping_add(1)) || size(*v) != size(v.wrapping_sub(1))));
    Ok(s)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Signed {
    v: Vec<i64>,
}

pub fn signed_s() -> impl Strategy<Value = Signed> {
    let one = prop_oneof![
        4 => (wide(), any::<bool>()).prop_map(|(v, n)| if n { (v as i64).wrapping_neg() } else { v as i64 }),
        1 => Just(i64::MIN),
        1 => Just(i64::MAX),
    ];
    // single values, and series with small steps
    let steps = (wide(), prop::collection::vec(-70i64..70, 0..40)).prop_map(|(f, d)| {
        let mut x = f as i64;
        d.into_iter().map(|d| { x = x.wrapping_add(d); x }).collect::<Vec<_>>()
    });
    prop_oneof![2 => prop::collection::vec(one, 0..40), 1 => steps].prop_map(|v| Signed { v })
}

pub fn signed(c: &Signed) -> Res {
    for v in &c.v {
        let e = zigzag::encode(*v);
        need!(e as i128 == if *v < 0 { -2 * (*v as i128) - 1 } else { 2 * (*v as i128) }, "zig-zag of {v} is {e}");
        need!(zigzag::decode(e) == *v, "zig-zag of {v} decodes as {}", zigzag::decode(e));
    }
    let mut bytes = vec![];
    prefix_varint::compress_i64s_to_vec(&mut bytes, c.v.iter().copied());
    let back: Vec<i64> = prefix_varint::i64_decompressor(&bytes).collect();
    need!(back == c.v, "{:?} read back as {:?}", c.v, back);
    let mut comp = prefix_varint::I64Compressor::new();
    c.v.iter().for_each(|v| comp.push(*v));
    need!(comp.finish() == bytes, "pushing {:?} differs from compressing them at once", c.v);
    let mut comp = prefix_varint::I64Compressor::with(delta::i64_encoder());
    c.v.iter().for_each(|v| comp.push(*v));
    let d = comp.finish();
    let back: Vec<i64> = prefix_varint::i64_decompressor(&d).map(delta::i64_decoder()).collect();
    need!(back == c.v, "deltas of {:?} read back as {:?}", c.v, back);
    let mut comp = prefix_varint::U64Compressor::with(delta::u64_encoder());
    c.v.iter().for_each(|v| comp.push(*v as u64));
    let d = comp.finish();
    let back: Vec<u64> = prefix_varint::u64_decompressor(&d).map(delta::u64_decoder()).collect();
    need!(back.iter().map(|v| *v as i64).eq(c.v.iter().copied()), "unsigned deltas of {:?} read back as {:?}", c.v, back);
    let mut s = Seen { nontrivial: c.v.len() > 1 && c.v.iter().any(|v| *v < 0), ..Seen::default() };
    s.label("extreme", c.v.iter().any(|v| *v == i64::MIN || *v == i64::MAX));
    Ok(s)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Cut {
    v: Vec<u64>,
    delta: bool,
}

pub fn cut_s() -> impl Strategy<Value = Cut> {
    (prop::collection::vec(wide(), 1..12), any::<bool>()).prop_map(|(v, delta)| Cut { v, delta })
}

/// a truncated stream never yields anything but the values wholly there
pub fn cut(c: &Cut) -> Res {
    let enc: Box<dyn FnMut(u64) -> u64> = if c.delta { Box::new(delta::u64_encoder()) } else { Box::new(|x| x) };
    let mut comp = prefix_varint::U64Compressor::with(enc);
    c.v.iter().for_each(|v| comp.push(*v));
    let bytes = comp.finish();
    let (mut ends, mut at) = (vec![0], 0);
    while at < bytes.len() {
        at += prefix_varint::read_from_slice(&bytes[at..]).1;
        ends.push(at);
    }
    need!(ends.len() == c.v.len() + 1 && at == bytes.len(), "{:?} encode as {:?} with values ending at {:?}", c.v, bytes, ends);
    for n in 0..bytes.len() {
        let page = crate::flat::Page::new(&bytes[..n], false);
        let whole = ends.iter().filter(|e| **e <= n).count() - 1;
        let mut got = vec![];
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let it = prefix_varint::u64_decompressor(page.bytes());
            if c.delta { it.map(delta::u64_decoder()).for_each(|v| got.push(v)) } else { it.for_each(|v| got.push(v)) }
        }));
        need!(got[..] == c.v[..got.len().min(c.v.len())] && got.len() <= whole, "{:?} cut after {n} of {} bytes read as {:?}", c.v, bytes.len(), got);
        need!(end.is_err() || (ends.contains(&n) && got.len() == whole), "{:?} cut after {n} of {} bytes read as {:?} without an error", c.v, bytes.len(), got);
    }
    let mut s = Seen { nontrivial: bytes.len() > c.v.len(), ..Seen::default() };
    s.label("nine byte value", c.v.iter().any(|v| size(*v) == 9));
    Ok(s)
}
