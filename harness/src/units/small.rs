//! C18: the two- and four-bit integers against plain arithmetic.
use super::*;
use crate::drive::{Job, Sink};
use crate::want;
use proptest::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use veb_tree::key::MaybeBorrowed as MB;
use veb_tree::key::{VebKey, U2, U4};

fn v4(x: U4) -> u8 {
    u8::from(x)
}
fn v2(x: U2) -> u8 {
    u8::from(U4::from(x))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Every fact about two raw bytes and a shift.
fn facts(a: u8, b: u8, sh: usize) -> Verdict {
    let (x, y) = (U4::from(a), U4::from(b));
    let (n, m) = (a & 15, b & 15);
    want!(v4(x) == n, "U4::from({a}) holds {}", v4(x));
    want!(v4(x | y) == n | m, "U4 {n} | {m} = {}", v4(x | y));
    want!(v4(x << sh) == ((n as u32) << sh) as u8 & 15, "U4 {n} << {sh} = {}", v4(x << sh));
    want!(v4(x >> sh) == n >> sh, "U4 {n} >> {sh} = {}", v4(x >> sh));
    want!(x.cmp(&y) == n.cmp(&m) && x.partial_cmp(&y) == n.partial_cmp(&m), "U4 {n} vs {m} compare {:?}", x.cmp(&y));
    want!((x == y) == (n == m) && (x != y) == (n != m), "U4 {n} == {m} gives {}", x == y);
    want!(n != m || hash(&x) == hash(&y), "equal U4 {n} hash differently");
    let (p, q) = (U2::from(a), U2::from(b));
    let (i, j) = (a & 3, b & 3);
    want!(v2(p) == i, "U2::from({a}) holds {}", v2(p));
    want!(v2(p | q) == i | j, "U2 {i} | {j} = {}", v2(p | q));
    want!(v2(p << sh) == ((i as u32) << sh) as u8 & 3, "U2 {i} << {sh} = {}", v2(p << sh));
    want!(v2(p >> sh) == i >> sh, "U2 {i} >> {sh} = {}", v2(p >> sh));
    want!(p.cmp(&q) == i.cmp(&j) && p.partial_cmp(&q) == i.partial_cmp(&j), "U2 {i} vs {j} compare {:?}", p.cmp(&q));
    want!((p == q) == (i == j) && (p != q) == (i != j), "U2 {i} == {j} gives {}", p == q);
    want!(i != j || hash(&p) == hash(&q), "equal U2 {i} hash differently");
    // conversions between the two
    want!(v2(U2::from(x)) == n & 3, "U2::from(U4 {n}) holds {}", v2(U2::from(x)));
    want!(U2::from(x) == U2::from(n), "U2::from(U4 {n}) is not U2 {}", n & 3);
    want!(v4(U4::from(p)) == i && U4::from(p) == U4::from(i), "U4::from(U2 {i}) holds {}", v4(U4::from(p)));
    want!(U2::from(U4::from(p)) == p, "U2 {i} changed by widening");
    want!(bool::from(p) == (i & 1 == 1), "bool::from(U2 {i}) is {}", bool::from(p));
    // produced by splitting and joining
    let (h, l) = a.split_val();
    want!(v4(h) == a >> 4 && v4(l) == a & 15, "u8 {a} splits into {} and {}", v4(h), v4(l));
    let (h, l) = (a as i8).split_val();
    want!(v4(h) <= 15 && v4(l) <= 15, "i8 {} splits into {} and {}", a as i8, v4(h), v4(l));
    let (h, l) = x.split_val();
    want!(v2(h) == n >> 2 && v2(l) == n & 3, "U4 {n} splits into {} and {}", v2(h), v2(l));
    let u = U4::join(MB::Owned(p), MB::Borrowed(&q));
    want!(v4(u) == i << 2 | j && u == U4::from(i << 2 | j), "U2 {i} and {j} join to {}", v4(u));
    let u = U2::join(MB::Owned(a & 1 == 1), MB::Owned(b & 1 == 1));
    want!(v2(u) == (a & 1) << 1 | (b & 1), "bits {} and {} join to {}", a & 1, b & 1, v2(u));
    let u = u8::join(MB::Owned(x), MB::Owned(y));
    want!(u == n << 4 | m, "U4 {n} and {m} join to {u}");
    ok(a != b && sh > 0)
}
/// A chain of operations on one value of each width, against masked arithmetic.
fn chain(ops: &[(u8, u8)]) -> Verdict {
    let (mut x, mut n) = (U4::from(0), 0u8);
    let (mut p, mut i) = (U2::from(0u8), 0u8);
    for (step, (op, arg)) in ops.iter().enumerate() {
        let sh = (*arg % 8) as usize;
        match op % 7 {
            0 => {
                x = U4::from(*arg);
                n = arg & 15;
            }
            1 => {
                x = x | U4::from(*arg);
                n |= arg & 15;
                p = p | U2::from(*arg);
                i |= arg & 3;
            }
            2 => {
                x = x << sh;
                n = ((n as u32) << sh) as u8 & 15;
            }
            3 => {
                x = x >> sh;
                n >>= sh;
            }
            4 => {
                p = U2::from(x);
                i = n & 3;
            }
            5 => {
                p = p << sh;
                i = ((i as u32) << sh) as u8 & 3;
            }
            _ => {
                x = U4::join(MB::Owned(p), MB::Owned(U2::from(*arg)));
                n = i << 2 | (arg & 3);
            }
        }
        want!(v4(x) == n && x == U4::from(n), "step {step}: U4 holds {} for {n}", v4(x));
        want!(v2(p) == i && p == U2::from(i), "step {step}: U2 holds {} for {i}", v2(p));
        want!(x.cmp(&U4::from(p)) == n.cmp(&i), "step {step}: U4 {n} vs widened U2 {i}");
    }
    ok(ops.len() >= 3)
}
fn text(v: &Vec<(u8, u8)>) -> String {
    let w: Vec<String> = v.iter().map(|(a, b)| format!("{:x}", (*a as u16) << 8 | *b as u16)).collect();
    format!("chain {}\n", w.join(" "))
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for sh in 0..8usize {
        jobs.push(Job::new("facts", sh as u64, 100, move |s: &mut Sink| {
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    s.check(|| format!("facts {a:x} {b:x} {sh:x}\n"), || no_panic(|| facts(a, b, sh)));
                }
            }
        }));
        let n = if thorough { 2_000_000 } else { 30_000 };
        jobs.push(Job::new("chain", sh as u64, 100, move |s: &mut Sink| {
            s.search(n, proptest::collection::vec((any::<u8>(), any::<u8>()), 1..24), text, |v| no_panic(|| chain(v)));
        }));
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    Some(match unit {
        "facts" => {
            let v = nums(t, "facts ");
            no_panic(|| facts(v[0] as u8, v[1] as u8, v[2] as usize))
        }
        _ => {
            let v: Vec<(u8, u8)> = nums(t, "chain ").iter().map(|x| ((x >> 8) as u8, *x as u8)).collect();
            no_panic(|| chain(&v))
        }
    })
}
