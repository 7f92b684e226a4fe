//! hyperloglog sketches of chosen hashes against a plain model of their registers
use crate::{need, Res, Seen};
use encodings::{delta, prefix_varint};
use hyperloglogplusplus::{HyperLogLog, HyperLogLogStorage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};

/// hashes to itself
#[derive(Clone, Copy, Debug)]
pub struct Raw(u64);

impl Hash for Raw {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(self.0)
    }
}

#[derive(Clone, Copy, Default)]
pub struct Same(u64);

impl BuildHasher for Same {
    type Hasher = Same;
    fn build_hasher(&self) -> Same {
        Same(0)
    }
}

impl Hasher for Same {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = u64::from_ne_bytes(b.try_into().unwrap())
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}

type Hll = HyperLogLog<'static, Raw, Same>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    p: u8,
    /// the hashes each sketch holds
    leaves: Vec<Vec<u64>>,
    /// store and reload the sketch: bit 0 before merging, bit 1 after
    store: Vec<u8>,
    /// which sketch each is merged into, in order
    merges: Vec<(u8, u8)>,
}

/// hashes that share registers, share 25 bit prefixes and have long runs of zeros
fn hash() -> impl Strategy<Value = u64> {
    let low = (0u32..40, any::<u64>()).prop_map(|(z, r)| if z == 39 { 0 } else { ((1u64 << 38) | (r & ((1 << 38) - 1))) >> z });
    let idx = prop_oneof![
        3 => (0u32..26, 0u64..6).prop_map(|(s, k)| (k << s) & ((1 << 25) - 1)),
        2 => any::<u64>().prop_map(|x| x & ((1 << 25) - 1)),
        2 => (0u64..300, 0u32..22).prop_map(|(k, s)| (k << s) & ((1 << 25) - 1)),
        1 => 0u64..40,
    ];
    prop_oneof![8 => (idx, low).prop_map(|(i, l)| (i << 39) | l), 1 => any::<u64>()]
}

pub fn sketch_s() -> impl Strategy<Value = Case> {
    (
        prop_oneof![4 => 4u8..8, 2 => 8u8..12, 1 => 12u8..=18],
        prop::collection::vec(prop_oneof![4 => prop::collection::vec(hash(), 0..12), 2 => prop::collection::vec(hash(), 0..120), 1 => prop::collection::vec(hash(), 100..400)], 1..6),
        prop::collection::vec(0u8..4, 6),
        prop::collection::vec((0u8..6, 0u8..6), 0..4),
    )
        .prop_map(|(p, leaves, store, merges)| Case { p, leaves, store, merges })
}

fn reload(h: &mut Hll, p: u8) -> Hll {
    // as the extension does for what it stores
    match h.to_parts() {
        HyperLogLogStorage::Sparse(s) => {
            let bytes = s.compressed.bytes().to_vec();
            HyperLogLog::<Raw, Same>::from_sparse_parts(&bytes, s.num_compressed, s.precision, Same(0)).into_owned()
        }
        HyperLogLogStorage::Dense(d) => {
            let bytes = d.registers.bytes().to_vec();
            assert_eq!(d.precision, p);
            HyperLogLog::<Raw, Same>::from_dense_parts(&bytes, d.precision, Same(0)).into_owned()
        }
    }
}

fn bits(h: u64, from: u32, len: u32) -> u64 {
    if len == 0 { 0 } else { (h << from) >> (64 - len) }
}

/// position of the first one bit among the bits after `skip`
fn rho(h: u64, skip: u32) -> u8 {
    let rest = h << skip;
    if rest == 0 { (64 - skip) as u8 + 1 } else { rest.leading_zeros() as u8 + 1 }
}

pub fn sketch(c: &Case) -> Res {
    let p = c.p;
    let mut live: Vec<(Hll, Vec<u64>)> = vec![];
    for (k, l) in c.leaves.iter().enumerate() {
        let mut h = Hll::new(p, Same(0));
        for v in l {
            h.add(&Raw(*v));
        }
        if c.store[k % c.store.len()] & 1 == 1 {
            h = reload(&mut h, p);
        }
        live.push((h, l.clone()));
    }
    let n = live.len();
    let mut ops: Vec<(usize, usize)> = c.merges.iter().map(|(a, b)| (*a as usize % n, *b as usize % n)).collect();
    ops.extend((1..n).rev().map(|k| (0, k)));
    for (k, (a, b)) in ops.iter().enumerate() {
        let (mut other, vals) = (live[*b].0.into_owned(), live[*b].1.clone());
        other.merge_all();
        live[*a].0.merge_in(&other);
        live[*a].1.extend(vals);
        if c.store[k % c.store.len()] & 2 == 2 {
            live[*a].0 = reload(&mut live[*a].0, p);
        }
    }
    let (mut h, all) = live.swap_remove(0);
    // the model
    let mut regs = vec![0u8; 1 << p];
    let mut sparse: BTreeMap<u32, u64> = BTreeMap::new();
    for v in &all {
        let r = &mut regs[bits(*v, 0, p as u32) as usize];
        *r = (*r).max(rho(*v, p as u32));
        let idx = bits(*v, 0, 25) as u32;
        let e = if bits(*v, p as u32, 25 - p as u32) == 0 { ((idx as u64) << 7) | ((rho(*v, 25) as u64) << 1) | 1 } else { (idx as u64) << 1 };
        let s = sparse.entry(idx).or_insert(e);
        *s = (*s).max(e);
    }
    let mut comp = prefix_varint::U64Compressor::with(delta::u64_encoder());
    sparse.values().for_each(|e| comp.push(*e));
    let want = comp.finish();
    let limit = 6usize << p;
    h.merge_all(); // as the extension does before it keeps one
    let est = h.estimate_count();
    let copy = h.into_owned();
    let mut s = Seen { nontrivial: all.len() > 1, ..Seen::default() };
    match h.to_parts() {
        HyperLogLogStorage::Sparse(x) => {
            let got: Vec<u64> = prefix_varint::u64_decompressor(x.compressed.bytes()).map(delta::u64_decoder()).collect();
            need!(got.iter().eq(sparse.values()), "a sparse sketch of {:x?} holds {:x?}, expected {:x?}", all, got, sparse.values());
            need!(x.num_compressed as usize == sparse.len() && x.precision == p, "a sparse sketch of {} entries says {} (precision {})", sparse.len(), x.num_compressed, x.precision);
            need!(want.len() * 8 <= limit, "a sketch of precision {p} is sparse with {} bytes, more than the dense form's", want.len());
            let m = (1u64 << 25) as f64;
            let e = m * (m / (m - sparse.len() as f64)).ln();
            need!((est as f64 - e).abs() <= 1.0, "a sparse sketch of {} entries estimates {est}", sparse.len());
            s.label("sparse", true);
            s.label("shared prefixes", all.len() > sparse.len());
        }
        HyperLogLogStorage::Dense(x) => {
            let got: Vec<u8> = x.registers.iter().collect();
            need!(got == regs, "a dense sketch (precision {p}) of {:x?} has registers {:?}, expected {:?}", all, got, regs);
            let mut pack = vec![];
            for q in regs.chunks(4) {
                let w = q.iter().fold(0u32, |a, r| (a << 6) | *r as u32);
                pack.extend_from_slice(&w.to_be_bytes()[1..]);
            }
            pack.push(0xff);
            need!(x.registers.bytes() == pack, "dense registers {:?} are stored as {:?}", regs, x.registers.bytes());
            need!(want.len() * 8 + 64 >= limit, "a sketch of precision {p} is dense although its sparse form takes {} bytes", want.len());
            s.label("dense", true);
        }
    }
    let mut copy = reload(&mut copy.into_owned(), p);
    need!(copy.estimate_count() == est, "stored and reloaded, a sketch estimates {} instead of {est}", copy.estimate_count());
    s.label("merged", n > 1);
    Ok(s)
}
