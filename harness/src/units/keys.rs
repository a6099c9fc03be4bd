//! C07: splitting, joining, order and array index of every shipped key type.
use super::*;
use crate::drive::{Job, Sink};
use crate::gen::mask;
use crate::rank::RankKey;
use crate::want;
use proptest::prelude::*;
use std::collections::HashMap;
use std::fmt::Debug;
use veb_tree::key::MaybeBorrowed as MB;
use veb_tree::key::{SizedVebKey, VebKey, VebKeyRef, U2, U4};

pub trait Part: RankKey + Clone + Debug + Ord {}
impl<T: RankKey + Clone + Debug + Ord> Part for T {}

fn split_join<K>(a: u128, b: u128) -> Verdict
where
    K: Part + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Part,
    K::Lo: Part,
{
    let (ka, kb) = (K::from_rank(a), K::from_rank(b));
    let (ha, la) = ka.clone().split_val();
    let (hb, lb) = kb.clone().split_val();
    // by reference, exactly once, with the closure's answer handed through
    for (k, h, l) in [(&ka, &ha, &la), (&kb, &hb, &lb)] {
        let mut calls = 0;
        let r = k.split_ref(|x, y| {
            calls += 1;
            (x.clone(), y.clone(), 0x5eed)
        });
        want!(calls == 1 && r.2 == 0x5eed, "{k:?}: split_ref called back {calls} times");
        want!(r.0 == *h && r.1 == *l, "{k:?}: split_val gives ({h:?}, {l:?}), split_ref ({:?}, {:?})", r.0, r.1);
        let forms = [
            K::join(MB::Owned(h.clone()), MB::Owned(l.clone())),
            K::join(MB::Borrowed(h), MB::Owned(l.clone())),
            K::join(MB::Owned(h.clone()), MB::Borrowed(l)),
            K::join(MB::Borrowed(h), MB::Borrowed(l)),
        ];
        for (i, j) in forms.iter().enumerate() {
            want!(j == k && j.rank() == k.rank(), "{k:?} splits into ({h:?}, {l:?}), which join (form {i}) to {j:?}");
        }
        want!(h.rank() <= mask(<K::Hi as RankKey>::BITS) && l.rank() <= mask(<K::Lo as RankKey>::BITS), "{k:?}: part out of range ({h:?}, {l:?})");
    }
    // any two parts: from the two keys, and freshly made
    let hm = mask(<K::Hi as RankKey>::BITS);
    let lm = mask(<K::Lo as RankKey>::BITS);
    let fresh = [(K::Hi::from_rank(b & hm), K::Lo::from_rank(a & lm)), (K::Hi::from_rank((a >> 3) & hm), K::Lo::from_rank((b >> 1) & lm))];
    let cross = [(ha.clone(), lb.clone()), (hb.clone(), la.clone())];
    let mut made: Vec<(K, K::Hi, K::Lo)> = vec![(ka.clone(), ha, la), (kb.clone(), hb, lb)];
    for (i, (h, l)) in fresh.into_iter().chain(cross).enumerate() {
        let k = if i % 2 == 0 { K::join(MB::Borrowed(&h), MB::Borrowed(&l)) } else { K::join(h.clone().into(), (&l).into()) };
        let (h2, l2) = k.clone().split_val();
        want!(h2 == h && l2 == l, "({h:?}, {l:?}) join to {k:?}, which splits into ({h2:?}, {l2:?})");
        made.push((k, h, l));
    }
    for (x, xh, xl) in &made {
        for (y, yh, yl) in &made {
            let (o, p) = (x.cmp(y), (xh, xl).cmp(&(yh, yl)));
            want!(o == p, "{x:?} vs {y:?}: keys compare {o:?}, their parts {p:?}");
            want!((o == std::cmp::Ordering::Equal) == (x == y), "{x:?} vs {y:?}: order and equality disagree");
            want!(o == x.rank().cmp(&y.rank()), "{x:?} vs {y:?}: compare {o:?}");
        }
    }
    ok(a != b)
}
fn index<K: Part + SizedVebKey>(a: u128, b: u128) -> Verdict {
    use typenum_card::Card;
    let slots = <K::Cardinality as Card>::slots();
    let (ka, kb) = (K::from_rank(a), K::from_rank(b));
    let (ia, ib) = (ka.index(), kb.index());
    for (k, i) in [(&ka, ia), (&kb, ib)] {
        want!((i as u128) < slots, "{k:?} has index {i}, the type declares {slots} slots");
        want!(k.index() == i, "{k:?}: index changes between calls");
    }
    want!((a == b) == (ia == ib), "{ka:?} and {kb:?} have indices {ia} and {ib}");
    ok(a != b)
}
/// The number of slots of a type-level cardinality, whichever typenum version it comes from.
mod typenum_card {
    pub trait Card {
        fn slots() -> u128;
    }
    impl<T: typenum::Unsigned> Card for T {
        fn slots() -> u128 {
            T::U128
        }
    }
}

#[derive(Clone, Copy)]
struct Ty {
    name: &'static str,
    bits: u32,
    check: fn(u128, u128) -> Verdict,
    all_indices: Option<fn() -> Verdict>,
}
fn distinct<K: Part + SizedVebKey>() -> Verdict {
    use typenum_card::Card;
    let slots = <K::Cardinality as Card>::slots();
    let mut seen: HashMap<usize, u128> = HashMap::new();
    for r in 0..=mask(K::BITS) {
        let k = K::from_rank(r);
        let i = k.index();
        want!((i as u128) < slots, "{k:?} has index {i}, the type declares {slots} slots");
        if let Some(o) = seen.insert(i, r) {
            return Err(format!("{:?} and {k:?} share index {i}", K::from_rank(o)));
        }
    }
    ok(true)
}
fn both<K>(a: u128, b: u128) -> Verdict
where
    K: Part + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo> + SizedVebKey,
    K::Hi: Part,
    K::Lo: Part,
{
    split_join::<K>(a, b)?;
    index::<K>(a, b)
}

fn types() -> Vec<Ty> {
    macro_rules! sized { ($($n:literal $t:ty),*) => { vec![$(Ty { name: $n, bits: <$t as RankKey>::BITS, check: both::<$t>, all_indices: if <$t as RankKey>::BITS <= 16 { Some(distinct::<$t>) } else { None } }),*] } }
    macro_rules! plain { ($($n:literal $t:ty),*) => { vec![$(Ty { name: $n, bits: <$t as RankKey>::BITS, check: split_join::<$t>, all_indices: None }),*] } }
    let mut v = sized!("u2" U2, "u4" U4, "u8" u8, "i8" i8, "u16" u16, "i16" i16, "u32" u32, "i32" i32, "u64" u64, "i64" i64);
    v.extend(plain!(
        "u128" u128, "i128" i128,
        "[u8;2]" [u8; 2], "[u8;3]" [u8; 3], "[u8;4]" [u8; 4], "[u8;5]" [u8; 5], "[u8;6]" [u8; 6], "[u8;7]" [u8; 7], "[u8;8]" [u8; 8], "[u8;16]" [u8; 16],
        "[i8;2]" [i8; 2], "[i8;3]" [i8; 3], "[i8;4]" [i8; 4], "[i8;5]" [i8; 5], "[i8;6]" [i8; 6], "[i8;7]" [i8; 7], "[i8;8]" [i8; 8], "[i8;16]" [i8; 16],
        "[u16;2]" [u16; 2], "[u16;3]" [u16; 3], "[u16;5]" [u16; 5], "[u16;7]" [u16; 7], "[u16;8]" [u16; 8], "[i64;2]" [i64; 2], "[u32;3]" [u32; 3], "[i32;4]" [i32; 4],
        "[u4;2]" [U4; 2], "[u4;5]" [U4; 5], "[u4;16]" [U4; 16], "[bool;3]" [bool; 3], "[bool;8]" [bool; 8], "[bool;16]" [bool; 16],
        "[string;2]" [String; 2], "[string;3]" [String; 3], "[string;4]" [String; 4], "[string;5]" [String; 5], "[string;6]" [String; 6], "[string;7]" [String; 7], "[string;8]" [String; 8], "[string;16]" [String; 16],
        "[[u8;2];2]" [[u8; 2]; 2], "[[u8;3];3]" [[u8; 3]; 3]
    ));
    v
}
fn unit_key() -> Verdict {
    let (h, l) = ().split_val();
    <() as VebKey>::join(MB::Owned(h), MB::Borrowed(&l));
    let r = ().split_ref(|_, _| 7);
    want!(r == 7, "split_ref on () lost the answer");
    want!(().index() == 0, "the only value of () has index {}", ().index());
    ok(true)
}

fn pair(bits: u32) -> impl Strategy<Value = (u128, u128)> {
    (any::<u128>(), any::<u128>(), any::<u128>(), 0u8..9, 0u8..9).prop_map(move |(a, b, c, m, e)| {
        let mk = mask(bits);
        let edge = |x: u128| {
            let mut k = 0u128;
            for y in x.to_le_bytes() {
                k = (k << 8) | [0u8, 255, 1, 128, 127, 254, 129, 126][y as usize % 8] as u128;
            }
            k
        };
        let a = match e {
            0..=3 => a,
            4..=6 => edge(a),
            7 => 1u128 << (a as u32 % bits),
            _ => mk >> (a as u32 % bits),
        } & mk;
        let b = match m {
            0 => b,
            1 => edge(b),
            2 => a.wrapping_add(1),
            3 => a.wrapping_sub(1),
            4 => a ^ (1u128 << (b as u32 % bits)),
            5 => (a & !mask(bits / 2)) | (b & mask(bits / 2)),
            6 => (b & !mask(bits / 2)) | (a & mask(bits / 2)),
            7 => a ^ (1u128 << (b as u32 % bits)) ^ (1u128 << (c as u32 % bits)),
            _ => a.rotate_left(8),
        } & mk;
        (a, b)
    })
}
fn text(v: &(u128, u128)) -> String {
    format!("pair {:x} {:x}\n", v.0, v.1)
}

pub fn jobs(thorough: bool) -> Vec<Job> {
    let n: u32 = if thorough { 2_000_000 } else { 60_000 };
    let mut jobs = vec![Job::new("()", 0, 1, |s: &mut Sink| s.check(|| "pair 0 0\n".into(), || no_panic(unit_key)))];
    for t in types() {
        for ch in 0..if thorough { 4 } else { 1 } {
            jobs.push(Job::new(t.name, ch, n as u64, move |s: &mut Sink| {
                if ch == 0 && t.bits <= 8 {
                    // every pair
                    for a in 0..=mask(t.bits) {
                        for b in 0..=mask(t.bits) {
                            s.check(|| text(&(a, b)), || no_panic(|| (t.check)(a, b)));
                        }
                    }
                } else if ch == 0 && t.bits <= 16 {
                    // every key, against its successor
                    for a in 0..=mask(t.bits) {
                        let b = (a + 1) & mask(t.bits);
                        s.check(|| text(&(a, b)), || no_panic(|| (t.check)(a, b)));
                    }
                }
                if let (0, Some(f)) = (ch, t.all_indices) {
                    s.check(|| "all indices\n".into(), || no_panic(f));
                }
                if s.failure.is_none() && t.bits > 8 {
                    s.search(n, pair(t.bits), text, |v| no_panic(|| (t.check)(v.0, v.1)));
                }
            }));
        }
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    if unit == "()" {
        return Some(no_panic(unit_key));
    }
    let ty = types().into_iter().find(|x| x.name == unit)?;
    if t.contains("all indices") {
        return Some(no_panic(ty.all_indices?));
    }
    let p = nums(t, "pair ");
    Some(no_panic(|| (ty.check)(*p.first().unwrap_or(&0), *p.get(1).unwrap_or(&0))))
}
