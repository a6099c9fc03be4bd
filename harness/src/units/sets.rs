//! C15: `ByteSet` against 256 booleans.
use super::*;
use crate::drive::{Job, Sink};
use crate::want;
use proptest::prelude::*;
use veb_tree::bitset::ByteSet;
use veb_tree::VebTree;

type M = [bool; 256];
fn members(m: &M) -> Vec<u8> {
    (0..=255u8).filter(|k| m[*k as usize]).collect()
}
fn full(s: &ByteSet, m: &M) -> Result<(), String> {
    let v = members(m);
    let n = v.len();
    let d = || if n <= 12 { format!("{v:?}") } else { format!("{n} bytes from {} to {}", v[0], v[n - 1]) };
    want!(s.len().get() == n, "{}: len {}", d(), s.len());
    want!(s.len_hint() == (n, Some(n)), "{}: len_hint {:?}", d(), s.len_hint());
    want!(s.is_monad() == (n == 1), "{}: is_monad {}", d(), s.is_monad());
    want!(s.lowest() == v[0] && *s.min_val().0 == v[0], "{}: lowest {}", d(), s.lowest());
    want!(s.highest() == v[n - 1] && *s.max_val().0 == v[n - 1], "{}: highest {}", d(), s.highest());
    let mut s2 = *s;
    want!(*s2.min_val_mut().0 == v[0], "{}: min_val_mut", d());
    want!(*s2.max_val_mut().0 == v[n - 1], "{}: max_val_mut", d());
    // neighbours of every byte, from two passes over the membership table
    let mut below = [None; 256];
    let mut above = [None; 256];
    let mut last = None;
    for k in 0..256 {
        below[k] = last;
        if m[k] {
            last = Some(k as u8);
        }
    }
    last = None;
    for k in (0..256).rev() {
        above[k] = last;
        if m[k] {
            last = Some(k as u8);
        }
    }
    for k in 0..=255u8 {
        let i = k as usize;
        let f = s.find(k).map(|e| *e.0);
        want!(f == m[i].then_some(k), "{}: find({k}) = {f:?}", d());
        let f = s2.find_mut(k).map(|e| *e.0);
        want!(f == m[i].then_some(k), "{}: find_mut({k}) = {f:?}", d());
        let p = s.predecessor(k).map(|e| *e.0);
        want!(p == below[i], "{}: predecessor({k}) = {p:?}", d());
        let p = s2.predecessor_mut(k).map(|e| *e.0);
        want!(p == below[i], "{}: predecessor_mut({k}) = {p:?}", d());
        let p = s.successor(k).map(|e| *e.0);
        want!(p == above[i], "{}: successor({k}) = {p:?}", d());
        let p = s2.successor_mut(k).map(|e| *e.0);
        want!(p == above[i], "{}: successor_mut({k}) = {p:?}", d());
    }
    want!(s2 == *s, "{}: looking around changed the set", d());
    Ok(())
}
/// The same contents, inserted in ascending order.
fn rebuild(m: &M) -> Option<ByteSet> {
    let mut it = members(m).into_iter();
    let mut s = ByteSet::from_monad(it.next()?, ());
    for k in it {
        s.insert(k, ());
    }
    Some(s)
}
fn step(s: Option<ByteSet>, m: &mut M, op: u8, k: u8) -> Result<Option<ByteSet>, String> {
    let i = k as usize;
    let n = members(m).len();
    Ok(match s {
        None => {
            m[i] = true;
            Some(ByteSet::from_monad(k, ()))
        }
        Some(s) => match op {
            0..=4 => {
                let mut t = s;
                let r = t.insert(k, ());
                want!(r == m[i].then_some((k, ())), "insert({k}) answered {r:?}");
                if !m[i] {
                    want!(t != s && s != t, "sets before and after inserting {k} are equal");
                } else {
                    want!(t == s, "inserting the present {k} changed the set");
                }
                m[i] = true;
                Some(t)
            }
            5..=7 => match (s.remove(k), m[i]) {
                (Err(t), false) => {
                    want!(t == s, "removing the absent {k} changed the set");
                    Some(t)
                }
                (Ok((t, (r, ()))), true) => {
                    want!(r == k, "remove({k}) answered {r}");
                    m[i] = false;
                    want!(t.is_some() == (n > 1), "remove({k}) of {n} bytes left {t:?}");
                    t
                }
                (r, _) => return Err(format!("remove({k}), present: {}, answered {r:?}", m[i])),
            },
            8 | 9 => {
                let v = members(m);
                let e = if op == 8 { v[0] } else { v[n - 1] };
                let (t, (r, ())) = if op == 8 { s.remove_min() } else { s.remove_max() };
                want!(r == e, "removing an extreme answered {r}, not {e}");
                m[e as usize] = false;
                want!(t.is_some() == (n > 1), "removing an extreme of {n} bytes left {t:?}");
                t
            }
            _ => match s.into_monad() {
                Ok((r, ())) => {
                    want!(n == 1 && m[r as usize], "into_monad of {n} bytes answered {r}");
                    Some(s)
                }
                Err(t) => {
                    want!(n > 1, "into_monad of one byte failed");
                    want!(t == s, "into_monad changed the set");
                    Some(t)
                }
            },
        },
    })
}
#[derive(Clone, Debug)]
pub struct C {
    ops: Vec<(u8, u8, u8)>,
}
fn run(c: &C) -> Verdict {
    let mut m: M = [false; 256];
    let mut s: Option<ByteSet> = None;
    let mut frozen: Vec<(ByteSet, M)> = vec![];
    let (mut most, mut removed) = (0, 0);
    for (t, (op, k, n)) in c.ops.iter().enumerate() {
        let (reps, op) = if *op >= 12 { (*n as usize, op % 11) } else { (1, *op % 11) };
        for j in 0..reps {
            let before = members(&m).len();
            s = step(s, &mut m, op, k.wrapping_add(j as u8))?;
            let now = members(&m).len();
            removed += (now < before) as u32;
            most = most.max(now);
        }
        if let Some(x) = &s {
            if let Some(r) = rebuild(&m) {
                want!(r == *x && !(r != *x), "two sets with the same {} bytes are unequal", members(&m).len());
            }
            for (f, fm) in &frozen {
                want!((f == x) == (fm[..] == m[..]), "equality of sets with equal contents: {} answered {}", fm[..] == m[..], f == x);
            }
            full(x, &m)?;
            if t % 4 == 0 && frozen.len() < 6 {
                let copy = *x;
                frozen.push((copy, m));
            }
        }
    }
    // copies taken on the way are what they were
    for (f, fm) in &frozen {
        full(f, fm)?;
    }
    let mut st = Stats { nontrivial: most >= 3 && removed >= 1, max_len: most, ..Stats::default() };
    st.queries = 6 * 256 * c.ops.len() as u64;
    Ok(st)
}
fn two(a: u8, b: u8) -> Verdict {
    let mut m: M = [false; 256];
    m[a as usize] = true;
    m[b as usize] = true;
    let mut s = ByteSet::from_monad(a, ());
    let r = s.insert(b, ());
    want!(r.is_some() == (a == b), "insert({b}) into {{{a}}} answered {r:?}");
    full(&s, &m)?;
    let mut t = ByteSet::from_monad(b, ());
    t.insert(a, ());
    want!(s == t, "{{{a},{b}}} and {{{b},{a}}} differ");
    want!((ByteSet::from_monad(a, ()) == ByteSet::from_monad(b, ())) == (a == b), "equality of {{{a}}} and {{{b}}}");
    if a != b {
        match s.remove(a) {
            Ok((Some(x), (k, ()))) if k == a => want!(x == ByteSet::from_monad(b, ()), "{{{a},{b}}} without {a} is not {{{b}}}"),
            r => return Err(format!("removing {a} from {{{a},{b}}} answered {r:?}")),
        }
    }
    ok(a != b)
}
fn text(c: &C) -> String {
    let w: Vec<String> = c.ops.iter().map(|(a, b, n)| format!("{:x}", (*a as u32) << 16 | (*b as u32) << 8 | *n as u32)).collect();
    format!("set-ops {}\n", w.join(" "))
}
fn strategy() -> impl Strategy<Value = C> {
    let key = (0u8..4, any::<u8>()).prop_map(|(m, x)| match m {
        0 => [0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 253, 254, 255][x as usize % 16],
        1 => 120 + x % 16,
        _ => x,
    });
    proptest::collection::vec((0u8..24, key, any::<u8>()), 1..30).prop_map(|ops| C { ops })
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for ch in 0..16u64 {
        jobs.push(Job::new("pairs", ch, 50, move |s: &mut Sink| {
            for a in (ch * 16) as u16..(ch * 16 + 16) as u16 {
                for b in 0..=255u8 {
                    s.check(|| format!("two {a:x} {b:x}\n"), || no_panic(|| two(a as u8, b)));
                }
            }
        }));
        let n = if thorough { 40_000 } else { 1_300 };
        jobs.push(Job::new("ops", ch, 100, move |s: &mut Sink| s.search(n, strategy(), text, |c| no_panic(|| run(c)))));
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    if unit == "pairs" {
        let v = nums(t, "two ");
        return Some(no_panic(|| two(v[0] as u8, v[1] as u8)));
    }
    let ops = nums(t, "set-ops ").iter().map(|x| ((x >> 16) as u8, (x >> 8) as u8, *x as u8)).collect();
    Some(no_panic(|| run(&C { ops })))
}
