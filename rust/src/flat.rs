//! flat_serialize: generated layouts against hand-built bytes
use crate::{need, Res, Seen};
use flat_serialize::{FlatSerializable, Slice, WrapErr};
use flat_serialize_macro::{flat_serialize, FlatSerializable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, len: usize) -> i32;
}

/// a copy of some bytes that ends where an inaccessible page begins, so that reading past it faults
pub struct Page {
    map: *mut u8,
    size: usize,
    at: *mut u8,
    len: usize,
}

impl Page {
    /// aligned: the copy starts at a multiple of 8, up to 7 bytes (not zero) further from the fault
    pub fn new(b: &[u8], aligned: bool) -> Page {
        let body = (b.len() + 8).div_ceil(4096) * 4096;
        unsafe {
            let map = mmap(std::ptr::null_mut(), body + 4096, 3, 0x22, -1, 0);
            assert!(map as isize != -1, "mmap");
            assert!(mprotect(map.add(body), 4096, 0) == 0, "mprotect");
            let mut off = body - b.len();
            if aligned {
                off &= !7;
            }
            for k in 0..body {
                *map.add(k) = 0xa5;
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), map.add(off), b.len());
            Page { map, size: body + 4096, at: map.add(off), len: b.len() }
        }
    }
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.len) }
    }
}

impl Drop for Page {
    fn drop(&mut self) {
        unsafe { munmap(self.map, self.size) };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, FlatSerializable, Serialize, Deserialize)]
#[repr(C)]
pub struct Pair {
    a: i64,
    b: u32,
    c: u32,
}

flat_serialize! {
    #[derive(Debug)]
    struct Basic<'input> {
        header: u64,
        data_len: u32,
        array: [u16; 3],
        data: [u8; self.data_len],
        data2: [[u8; 2]; self.data_len / 3],
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Points<'input> {
        n: u64,
        pairs: [Pair; self.n],
        bits: [u64; (self.n + 63) / 64],
        tail: [u8; self.n],
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Opt {
        header: u64,
        maybe: u32 if self.header != 1,
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Opts {
        a: u32,
        b: u32 if self.a % 2 == 0,
        c: u16 if self.a > 9,
        d: u8,
    }
}

flat_serialize! {
    #[derive(Debug)]
    enum Choice<'input> {
        k: u64,
        Str: 2 {
            data_len: u32,
            data: [u8; self.data_len],
        },
        Fixed: 3 {
            array: [u16; 3],
        },
        Empty: 9 {
            v: u8,
        },
    }
}

flat_serialize! {
    #[derive(Debug)]
    enum Small<'input> {
        k: u8,
        First: 2 {
            padding: [u8; 3],
            data_len: u32,
            data: [u8; self.data_len],
        },
        Fixed: 3 {
            padding: u8,
            array: [u16; 3],
        },
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Nested<'input> {
        a: u64,
        b: Basic<'input>,
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Choices<'input> {
        n: u64,
        v: [Choice<'input>; self.n],
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct Smalls<'input> {
        n: u32,
        v: [Small<'input>; self.n],
    }
}

flat_serialize! {
    #[derive(Debug)]
    struct OptList<'input> {
        n: u64,
        v: [Opt; self.n],
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ch {
    Str(Vec<u8>),
    Fixed([u16; 3]),
    Empty(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Sm {
    First([u8; 3], Vec<u8>),
    Fixed(u8, [u16; 3]),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Val {
    Basic(u64, [u16; 3], Vec<u8>),
    Points(Vec<(i64, u32, u32)>, u64),
    Opt(u64, u32),
    Opts(u32, u32, u16, u8),
    Choice(Ch),
    Small(Sm),
    Nested(u64, u64, [u16; 3], Vec<u8>),
    Choices(Vec<Ch>),
    Smalls(Vec<Sm>),
    OptList(Vec<(u64, u32)>),
    Array([u32; 5]),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    v: Val,
    extra: Vec<u8>,
}

fn ch() -> impl Strategy<Value = Ch> {
    prop_oneof![prop::collection::vec(any::<u8>(), 0..20).prop_map(Ch::Str), any::<[u16; 3]>().prop_map(Ch::Fixed), any::<u8>().prop_map(Ch::Empty)]
}

fn sm() -> impl Strategy<Value = Sm> {
    prop_oneof![(any::<[u8; 3]>(), prop::collection::vec(any::<u8>(), 0..20)).prop_map(|(a, b)| Sm::First(a, b)), (any::<u8>(), any::<[u16; 3]>()).prop_map(|(a, b)| Sm::Fixed(a, b))]
}

pub fn flat_s() -> impl Strategy<Value = Case> {
    let h = prop_oneof![0u64..3, any::<u64>()];
    let h2 = prop_oneof![0u64..3, any::<u64>()];
    let bytes = || prop::collection::vec(any::<u8>(), 0..40);
    let v = prop_oneof![
        (any::<u64>(), any::<[u16; 3]>(), bytes()).prop_map(|(a, b, c)| Val::Basic(a, b, c)),
        (prop::collection::vec((any::<i64>(), any::<u32>(), any::<u32>()), 0..70), any::<u64>()).prop_map(|(a, b)| Val::Points(a, b)),
        (h, any::<u32>()).prop_map(|(a, b)| Val::Opt(a, b)),
        (0u32..20, any::<u32>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c, d)| Val::Opts(a, b, c, d)),
        ch().prop_map(Val::Choice),
        sm().prop_map(Val::Small),
        (any::<u64>(), any::<u64>(), any::<[u16; 3]>(), bytes()).prop_map(|(z, a, b, c)| Val::Nested(z, a, b, c)),
        prop::collection::vec(ch(), 0..7).prop_map(Val::Choices),
        prop::collection::vec(sm(), 0..7).prop_map(Val::Smalls),
        prop::collection::vec((h2, any::<u32>()), 0..7).prop_map(Val::OptList),
        any::<[u32; 5]>().prop_map(Val::Array),
    ];
    (v, prop::collection::vec(any::<u8>(), 0..10)).prop_map(|(v, extra)| Case { v, extra })
}

/// the bytes laid out by hand
#[derive(Default)]
struct W(Vec<u8>);

impl W {
    fn u(mut self, b: &[u8]) -> W {
        self.0.extend_from_slice(b);
        self
    }
    fn pad(mut self, n: usize) -> W {
        while self.0.len() % n != 0 {
            self.0.push(0)
        }
        self
    }
    fn basic(self, h: u64, a: &[u16; 3], d: &[u8]) -> W {
        let mut w = self.u(&h.to_ne_bytes()).u(&(d.len() as u32).to_ne_bytes());
        for x in a {
            w = w.u(&x.to_ne_bytes())
        }
        let two: Vec<u8> = two(d).concat();
        w.u(d).u(&two)
    }
    fn ch(self, c: &Ch) -> W {
        match c {
            Ch::Str(d) => self.u(&2u64.to_ne_bytes()).u(&(d.len() as u32).to_ne_bytes()).u(d),
            Ch::Fixed(a) => a.iter().fold(self.u(&3u64.to_ne_bytes()), |w, x| w.u(&x.to_ne_bytes())),
            Ch::Empty(v) => self.u(&9u64.to_ne_bytes()).u(&[*v]),
        }
    }
    fn sm(self, c: &Sm) -> W {
        match c {
            Sm::First(p, d) => self.u(&[2]).u(p).u(&(d.len() as u32).to_ne_bytes()).u(d),
            Sm::Fixed(p, a) => a.iter().fold(self.u(&[3, *p]), |w, x| w.u(&x.to_ne_bytes())),
        }
    }
    fn opt(self, h: u64, m: u32) -> W {
        let w = self.u(&h.to_ne_bytes());
        if h != 1 { w.u(&m.to_ne_bytes()) } else { w }
    }
}

fn two(d: &[u8]) -> Vec<[u8; 2]> {
    (0..d.len() / 3).map(|k| [d[k], !d[k]]).collect()
}

fn basic(h: u64, a: &[u16; 3], d: &[u8]) -> Basic<'static> {
    Basic { header: h, data_len: d.len() as u32, array: *a, data: Slice::Owned(d.to_vec()), data2: Slice::Owned(two(d)) }
}

fn choice(c: &Ch) -> Choice<'static> {
    match c {
        Ch::Str(d) => Choice::Str { data_len: d.len() as u32, data: Slice::Owned(d.clone()) },
        Ch::Fixed(a) => Choice::Fixed { array: *a },
        Ch::Empty(v) => Choice::Empty { v: *v },
    }
}

fn small(c: &Sm) -> Small<'static> {
    match c {
        Sm::First(p, d) => Small::First { padding: *p, data_len: d.len() as u32, data: Slice::Owned(d.clone()) },
        Sm::Fixed(p, a) => Small::Fixed { padding: *p, array: *a },
    }
}

fn opt(h: u64, m: u32) -> Opt {
    Opt { header: h, maybe: if h != 1 { Some(m) } else { None } }
}

fn check<T>(v: T, want: Vec<u8>, extra: &[u8]) -> Res
where
    T: FlatSerializable<'static> + std::fmt::Debug + Clone,
    T::OWNED: std::fmt::Debug,
{
    let txt = format!("{v:?}");
    let mut out = vec![];
    v.fill_vec(&mut out);
    need!(out == want, "{txt} is stored as {out:?}, expected {want:?}");
    need!(v.num_bytes() == want.len(), "{txt} takes {} bytes but says {}", want.len(), v.num_bytes());
    let mut whole = out.clone();
    whole.extend_from_slice(extra);
    let page = Page::new(&whole, true);
    match unsafe { T::try_ref(page.bytes()) } {
        Err(e) => return Err(format!("{txt} cannot be read back: {e:?}")),
        Ok((x, rem)) => {
            need!(format!("{x:?}") == txt, "{txt} reads back as {x:?}");
            need!(rem == extra, "reading {txt} leaves {rem:?} of the {extra:?} that follow");
            let mut again = vec![];
            x.fill_vec(&mut again);
            need!(again == want && x.num_bytes() == want.len(), "{txt}, read back, is stored as {again:?}, expected {want:?}");
            let mut y = x.clone();
            y.make_owned();
            need!(format!("{y:?}") == txt, "{txt} becomes {y:?} when owned");
            let mut again = vec![];
            y.fill_vec(&mut again);
            need!(again == want, "{txt}, owned, is stored as {again:?}, expected {want:?}");
            let o = x.into_owned();
            need!(format!("{o:?}") == txt, "{txt} becomes {o:?} when turned into an owned value");
        }
    }
    for n in 0..want.len() {
        let page = Page::new(&want[..n], true);
        match unsafe { T::try_ref(page.bytes()) } {
            Err(WrapErr::NotEnoughBytes(_)) => (),
            Err(e) => return Err(format!("{txt} cut to {n} of {} bytes is refused with {e:?}", want.len())),
            Ok((x, _)) => return Err(format!("{txt} cut to {n} of {} bytes reads as {x:?}", want.len())),
        }
    }
    Ok(Seen { nontrivial: want.len() > 8, ..Seen::default() })
}

pub fn flat(c: &Case) -> Res {
    let e = &c.extra;
    let w = W::default();
    let (r, l) = match &c.v {
        Val::Basic(h, a, d) => (check(basic(*h, a, d), w.basic(*h, a, d).0, e), "struct"),
        Val::Points(p, seed) => {
            let pairs: Vec<Pair> = p.iter().map(|(a, b, c)| Pair { a: *a, b: *b, c: *c }).collect();
            let bits: Vec<u64> = (0..p.len().div_ceil(64)).map(|k| seed.rotate_left(k as u32)).collect();
            let tail: Vec<u8> = p.iter().map(|x| x.1 as u8).collect();
            let mut w = w.u(&(p.len() as u64).to_ne_bytes());
            for (a, b, c) in p {
                w = w.u(&a.to_ne_bytes()).u(&b.to_ne_bytes()).u(&c.to_ne_bytes());
            }
            for b in &bits {
                w = w.u(&b.to_ne_bytes());
            }
            w = w.u(&tail);
            (check(Points { n: p.len() as u64, pairs: Slice::Owned(pairs), bits: Slice::Owned(bits), tail: Slice::Owned(tail) }, w.0, e), "struct of arrays")
        }
        Val::Opt(h, m) => (check(opt(*h, *m), w.opt(*h, *m).0, e), "optional field"),
        Val::Opts(a, b, x, d) => {
            let mut w = w.u(&a.to_ne_bytes());
            if a % 2 == 0 {
                w = w.u(&b.to_ne_bytes())
            }
            if *a > 9 {
                w = w.u(&x.to_ne_bytes())
            }
            (check(Opts { a: *a, b: (a % 2 == 0).then_some(*b), c: (*a > 9).then_some(*x), d: *d }, w.u(&[*d]).0, e), "optional field")
        }
        Val::Choice(x) => (check(choice(x), w.ch(x).0, e), "enum"),
        Val::Small(x) => (check(small(x), w.sm(x).0, e), "enum"),
        Val::Nested(z, h, a, d) => (check(Nested { a: *z, b: basic(*h, a, d) }, w.u(&z.to_ne_bytes()).basic(*h, a, d).0, e), "nested"),
        Val::Choices(v) => {
            let w = v.iter().fold(w.u(&(v.len() as u64).to_ne_bytes()), |w, x| w.ch(x).pad(8));
            (check(Choices { n: v.len() as u64, v: Slice::Owned(v.iter().map(choice).collect()) }, w.0, e), "list of enums")
        }
        Val::Smalls(v) => {
            let w = v.iter().fold(w.u(&(v.len() as u32).to_ne_bytes()), |w, x| w.sm(x).pad(4));
            (check(Smalls { n: v.len() as u32, v: Slice::Owned(v.iter().map(small).collect()) }, w.0, e), "list of enums")
        }
        Val::OptList(v) => {
            let w = v.iter().fold(w.u(&(v.len() as u64).to_ne_bytes()), |w, (h, m)| w.opt(*h, *m).pad(8));
            (check(OptList { n: v.len() as u64, v: Slice::Owned(v.iter().map(|(h, m)| opt(*h, *m)).collect()) }, w.0, e), "list of structs")
        }
        Val::Array(a) => (check(*a, a.iter().fold(w, |w, x| w.u(&x.to_ne_bytes())).0, e), "array"),
    };
    let mut s = r?;
    s.label(l, true);
    Ok(s)
}
