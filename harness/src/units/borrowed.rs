//! C17: owned and borrowed forms of a key are interchangeable.
use super::*;
use crate::configs::{Fnv, T16B, T32H, T8H};
use crate::drive::{Job, Sink};
use crate::want;
use proptest::prelude::*;
use std::borrow::Borrow;
use std::fmt::Debug;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::key::MaybeBorrowed as MB;
use veb_tree::markers::{Marker8, VebTreeType};
use veb_tree::tree::TreeMarker;
use veb_tree::{Iter, VebTree};

fn forms<'a, T: Clone>(v: &'a T) -> Vec<MB<'a, T>> {
    vec![MB::Owned(v.clone()), MB::Borrowed(v), MB::from(v.clone()), MB::from(v)]
}
fn one<T: Clone + PartialEq + Debug>(m: &MB<'_, T>, v: &T, what: &str) -> Result<(), String> {
    want!(**m == *v, "{what}: dereferences to {:?}, not {v:?}", **m);
    let b: &T = Borrow::<T>::borrow(m);
    want!(b == v, "{what}: Borrow gives {b:?}, not {v:?}");
    let r = MB::borrow(m);
    want!(*r == *v, "{what}: borrow() gives {:?}, not {v:?}", *r);
    want!(matches!(r, MB::Borrowed(_)), "{what}: borrow() copied");
    want!(std::ptr::eq::<T>(&*r, &**m), "{what}: borrow() does not refer to the key");
    let o = r.into_or_clone();
    want!(o == *v, "{what}: into_or_clone of the re-borrow gives {o:?}, not {v:?}");
    let c = m.clone();
    want!(*c == *v, "{what}: clone gives {:?}, not {v:?}", *c);
    let o = c.into_or_clone();
    want!(o == *v, "{what}: into_or_clone gives {o:?}, not {v:?}");
    Ok(())
}
fn pair<T: Clone + PartialEq + Debug>(a: T, b: T) -> Result<(), String> {
    for (i, x) in forms(&a).iter().enumerate() {
        one(x, &a, &format!("form {i} of {a:?}"))?;
        for (j, y) in forms(&b).iter().enumerate() {
            want!((x == y) == (a == b), "{a:?} (form {i}) == {b:?} (form {j}) gives {}", x == y);
            want!((x != y) == (a != b), "{a:?} (form {i}) != {b:?} (form {j}) gives {}", x != y);
            want!(MB::borrow(x) == MB::borrow(y) || a != b, "re-borrows of equal {a:?} differ");
        }
    }
    Ok(())
}
/// Equality only through `PartialEq` between different types, and only as that says.
#[derive(Clone, Debug)]
struct Meters(u64);
#[derive(Clone, Debug)]
struct Feet(u64);
impl PartialEq<Feet> for Meters {
    fn eq(&self, o: &Feet) -> bool {
        self.0 == o.0 / 3
    }
}
fn cross(a: u64, b: u64) -> Result<(), String> {
    let (m, f) = (Meters(a), Feet(b));
    for (i, x) in forms(&m).iter().enumerate() {
        for (j, y) in forms(&f).iter().enumerate() {
            want!((x == y) == (a == b / 3), "mixed types, forms {i} and {j}: {a} and {b} compare {}", x == y);
        }
    }
    let (s, t) = (a.to_string(), b.to_string());
    let u: &str = &t;
    for x in forms(&s) {
        for y in forms(&u) {
            want!((x == y) == (s == t), "String {s} and &str {t} compare {}", x == y);
        }
    }
    Ok(())
}
/// Keys handed out by trees.
fn handed_out<T: VebTree>(mk: impl Fn(u64) -> T::Key, ks: &[u64], v: impl Fn(u64) -> T::Value) -> Result<(), String>
where
    T::Key: Clone + PartialEq + Debug + Ord,
{
    let mut t = T::from_monad(mk(ks[0]), v(0));
    for k in &ks[1..] {
        t.insert(mk(*k), v(0));
    }
    // whatever the tree answers: what it hands out has to behave like the plain key
    let mut out = vec![("min_val", t.min_val().0), ("max_val", t.max_val().0)];
    out.extend(Iter::from(&t).take(2 * ks.len()).map(|e| ("iter", e.0)));
    out.extend(Iter::from(&t).rev().take(2 * ks.len()).map(|e| ("rev", e.0)));
    for k in ks {
        out.extend(t.find(mk(*k)).map(|e| ("find", e.0)));
        out.extend(t.successor(mk(*k)).map(|e| ("successor", e.0)));
        out.extend(t.predecessor(mk(*k)).map(|e| ("predecessor", e.0)));
    }
    for (i, (how, k)) in out.iter().enumerate() {
        let plain: T::Key = (**k).clone();
        one(k, &plain, how)?;
        let (_, k2) = &out[(i * 7 + 3) % out.len()];
        want!((k == k2) == (plain == **k2), "{how}: handed-out keys compare differently from the keys");
        // a key handed out may be passed back in, in any form
        macro_rules! back {
            ($($f:ident)*) => {$(
                let want = t.$f(plain.clone()).map(|e| (*e.0).clone());
                let got = [t.$f(&**k), t.$f(k.clone()), t.$f(MB::Borrowed(&plain)), t.$f(MB::Owned(plain.clone()))].map(|x| x.map(|e| (*e.0).clone()));
                want!(got.iter().all(|g| *g == want), "{} with the key handed out by {how} in four forms: {got:?}, with the plain key: {want:?}", stringify!($f));
            )*};
        }
        back!(find successor predecessor);
    }
    Ok(())
}
/// A panic inside a tree is not for this property to judge.
fn handed<T: VebTree>(mk: impl Fn(u64) -> T::Key, ks: &[u64], v: impl Fn(u64) -> T::Value) -> Result<(), String>
where
    T::Key: Clone + PartialEq + Debug + Ord,
{
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| handed_out::<T>(mk, ks, v))).unwrap_or(Ok(()))
}
type TS = TreeMarker<crate::configs::BM, HashMapMarker<crate::configs::BM, Fnv>>;
fn run(vs: &[u64]) -> Verdict {
    let at = |i: usize| vs[i % vs.len()];
    let (a, b) = (at(0), at(1));
    pair(a, b)?;
    pair(a, a)?;
    pair(a as u8, b as u8)?;
    pair(a.to_string(), b.to_string())?;
    pair([a as u8, b as u8], [b as u8, a as u8])?;
    pair(vec![a], vec![b])?;
    pair((), ())?;
    cross(a, b)?;
    cross(a % 8, b % 24)?;
    handed::<VebTreeType<u8, u64, Marker8>>(|x| x as u8, vs, |x| x)?;
    handed::<VebTreeType<u8, u64, T8H>>(|x| x as u8, vs, |x| x)?;
    handed::<VebTreeType<u16, u64, T16B>>(|x| x as u16, vs, |x| x)?;
    handed::<VebTreeType<u32, u64, T32H>>(|x| x as u32, vs, |x| x)?;
    handed::<VebTreeType<[u16; 2], u64, T32H>>(|x| [x as u16, (x >> 16) as u16], vs, |x| x)?;
    handed::<VebTreeType<[String; 2], (), TS>>(|x| [(x % 16).to_string(), (x / 16 % 256).to_string()], vs, |_| ())?;
    handed::<std::collections::BTreeMap<u64, u64>>(|x| x, vs, |x| x)?;
    ok(vs.len() >= 3)
}
fn text(v: &Vec<u64>) -> String {
    let w: Vec<String> = v.iter().map(|a| format!("{a:x}")).collect();
    format!("values {}\n", w.join(" "))
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let n = if thorough { 600_000 } else { 14_000 };
    (0..16)
        .map(|ch| {
            Job::new("forms", ch, 1, move |s: &mut Sink| {
                let v = (0u8..4, any::<u64>()).prop_map(|(m, x)| match m {
                    0 => x,
                    1 => x % 8,
                    2 => x & 0xff00ff,
                    _ => x % 300,
                });
                s.search(n, proptest::collection::vec(v, 1..14), text, |v| no_panic(|| run(v)));
            })
        })
        .collect()
}
pub fn replay(t: &str) -> Option<Verdict> {
    let v: Vec<u64> = nums(t, "values ").iter().map(|x| *x as u64).collect();
    if v.is_empty() {
        return None;
    }
    Some(no_panic(|| run(&v)))
}
