//! Object-safe view of a `VebTree`: keys as ranks, values as ids.
use crate::rank::RankKey;
use crate::val::Val;
use std::cell::Cell;
use veb_tree::iter::Iter;
use veb_tree::key::MaybeBorrowed;
use veb_tree::VebTree;

pub type KV = (u128, u64);
/// More items than any history stores.
pub const CAP: usize = 500_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum L {
    None,
    Start,
    Insert,
    Remove,
    RemoveMin,
    RemoveMax,
    IntoMonad,
    IsMonad,
    LenHint,
    ExactLen,
    Min,
    Max,
    Find,
    Pred,
    Succ,
    MinMut,
    MaxMut,
    FindMut,
    PredMut,
    SuccMut,
    Iter,
    IterBack,
    SizeHint,
    Clone,
    Drop,
}
thread_local! {
    static LABEL: Cell<L> = const { Cell::new(L::None) };
}
#[inline]
pub fn set_label(l: L) {
    LABEL.with(|c| c.set(l))
}
#[inline]
pub fn label() -> L {
    LABEL.with(|c| c.get())
}

pub const VIAS: u8 = 15;
pub const SIZES_VIAS: u8 = 9;
/// The same for `advance`.
pub fn sizes_via(how: u8) -> (u8, usize, usize) {
    (how % SIZES_VIAS, (how / SIZES_VIAS % 3) as usize, (how / SIZES_VIAS / 3 % 3) as usize)
}
/// Takes some steps without using the iterator up.
pub fn advance<I: DoubleEndedIterator>(it: &mut I, how: u8, n: usize) {
    let mut left = n;
    match how {
        0 => drop(it.nth(n)),
        1 => drop(it.nth_back(n)),
        2 => drop(it.by_ref().take(n).count()),
        3 => it.by_ref().rev().take(n).for_each(drop),
        4 => drop(it.try_for_each(|_| {
            left = left.wrapping_sub(1);
            if left == usize::MAX { None } else { Some(()) }
        })),
        5 => drop(it.by_ref().skip(n).next()),
        6 => drop(it.position(|_| {
            left = left.wrapping_sub(1);
            left == usize::MAX
        })),
        7 => drop(it.by_ref().step_by(1 + n % 3).nth(n / 4)),
        _ => drop(it.rfind(|_| {
            left = left.wrapping_sub(1);
            left == usize::MAX
        })),
    }
}
/// Adaptor, and how many steps are taken from the front and the back before it.
pub fn via(how: u8) -> (u8, usize, usize) {
    (how % VIAS, (how / VIAS % 3) as usize, (how / VIAS / 3 % 3) as usize)
}

pub struct StepObs {
    pub item: Option<KV>,
    pub hint: (usize, Option<usize>),
    pub len: Option<usize>,
}

pub trait DynTree {
    fn is_some(&self) -> bool;
    fn clear(&mut self);
    fn start(&mut self, k: u128, v: u64);
    fn insert(&mut self, k: u128, v: u64) -> Option<KV>;
    /// `None`: the tree handed itself back
    fn remove(&mut self, k: u128) -> Option<KV>;
    fn remove_min(&mut self) -> KV;
    fn remove_max(&mut self) -> KV;
    fn into_monad(&mut self) -> Option<KV>;
    fn is_monad(&self) -> bool;
    fn len_hint(&self) -> (usize, Option<usize>);
    fn exact_len(&self) -> Option<usize>;
    fn min(&self) -> KV;
    fn max(&self) -> KV;
    fn find(&self, k: u128) -> Option<KV>;
    fn pred(&self, k: u128) -> Option<KV>;
    fn succ(&self, k: u128) -> Option<KV>;
    fn min_mut(&mut self, w: Option<u64>) -> KV;
    fn max_mut(&mut self, w: Option<u64>) -> KV;
    fn find_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV>;
    fn pred_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV>;
    fn succ_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV>;
    /// Drives an iterator. The callback sees the state before any step (item None, first call)
    /// and after each step, and answers the next direction (true = back) or `None` to stop.
    fn iter(&self, cb: &mut dyn FnMut(StepObs) -> Option<bool>);
    /// Iterator adaptors that an implementation may specialise.
    fn iter_via(&self, how: u8, n: usize) -> Vec<Option<KV>>;
    /// Size bounds and exact length after `advance` and after one more step from each end.
    fn sizes_via(&self, how: u8, n: usize) -> Vec<Bounds>;
    fn try_clone(&self) -> Option<Box<dyn DynTree>>;
    /// `clone_from` onto a tree of the same type, when both hold something.
    fn try_clone_onto(&self, dst: &mut dyn DynTree) -> bool;
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

pub type Bounds = ((usize, Option<usize>), Option<usize>);
/// Optional capabilities of a tree type.
pub struct Caps<T: VebTree> {
    pub len: Option<fn(&T) -> usize>,
    pub iter_len: Option<for<'a> fn(&Iter<'a, T>) -> usize>,
    pub clone: Option<fn(&T) -> T>,
    pub clone_from: Option<fn(&mut T, &T)>,
}
impl<T: VebTree> Clone for Caps<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: VebTree> Copy for Caps<T> {}
impl<T: VebTree> Caps<T> {
    pub const NONE: Caps<T> = Caps { len: None, iter_len: None, clone: None, clone_from: None };
}

pub struct W<T: VebTree> {
    t: Option<T>,
    caps: Caps<T>,
}
impl<T> W<T>
where
    T: VebTree + 'static,
    T::Key: RankKey + Clone,
    T::Value: Val,
{
    pub fn boxed(caps: Caps<T>) -> Box<dyn DynTree> {
        Box::new(W { t: None, caps })
    }
    fn r(&self) -> &T {
        self.t.as_ref().expect("harness: empty tree")
    }
    fn m(&mut self) -> &mut T {
        self.t.as_mut().expect("harness: empty tree")
    }
    fn take(&mut self) -> T {
        self.t.take().expect("harness: empty tree")
    }
}
fn kv<K: RankKey, V: Val>((k, v): (K, V)) -> KV {
    (k.rank(), v.id())
}
fn rv<K: RankKey, V: Val>((k, v): (MaybeBorrowed<'_, K>, &V)) -> KV {
    (k.rank(), v.id())
}
fn wv<K: RankKey, V: Val>((k, v): (MaybeBorrowed<'_, K>, &mut V), w: Option<u64>) -> KV {
    let r = (k.rank(), v.id());
    if let Some(w) = w {
        *v = V::mk(w);
    }
    r
}

impl<T> DynTree for W<T>
where
    T: VebTree + 'static,
    T::Key: RankKey + Clone,
    T::Value: Val,
{
    fn is_some(&self) -> bool {
        self.t.is_some()
    }
    fn clear(&mut self) {
        set_label(L::Drop);
        self.t = None;
    }
    fn start(&mut self, k: u128, v: u64) {
        let (k, v) = (T::Key::from_rank(k), T::Value::mk(v));
        set_label(L::Start);
        self.t = Some(T::from_monad(k, v));
    }
    fn insert(&mut self, k: u128, v: u64) -> Option<KV> {
        let (k, v) = (T::Key::from_rank(k), T::Value::mk(v));
        let t = self.m();
        set_label(L::Insert);
        t.insert(k, v).map(kv)
    }
    fn remove(&mut self, k: u128) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        let t = self.take();
        set_label(L::Remove);
        let r = match form {
            0 => t.remove(k),
            1 => t.remove(&k),
            2 => t.remove(MaybeBorrowed::Borrowed(&k)),
            _ => t.remove(MaybeBorrowed::Owned(k)),
        };
        match r {
            Ok((t, r)) => {
                self.t = t;
                Some(kv(r))
            }
            Err(t) => {
                self.t = Some(t);
                None
            }
        }
    }
    fn remove_min(&mut self) -> KV {
        let t = self.take();
        set_label(L::RemoveMin);
        let (t, r) = t.remove_min();
        self.t = t;
        kv(r)
    }
    fn remove_max(&mut self) -> KV {
        let t = self.take();
        set_label(L::RemoveMax);
        let (t, r) = t.remove_max();
        self.t = t;
        kv(r)
    }
    fn into_monad(&mut self) -> Option<KV> {
        let t = self.take();
        set_label(L::IntoMonad);
        match t.into_monad() {
            Ok(r) => Some(kv(r)),
            Err(t) => {
                self.t = Some(t);
                None
            }
        }
    }
    fn is_monad(&self) -> bool {
        set_label(L::IsMonad);
        self.r().is_monad()
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        set_label(L::LenHint);
        self.r().len_hint()
    }
    fn exact_len(&self) -> Option<usize> {
        let f = self.caps.len?;
        set_label(L::ExactLen);
        Some(f(self.r()))
    }
    fn min(&self) -> KV {
        set_label(L::Min);
        rv(self.r().min_val())
    }
    fn max(&self) -> KV {
        set_label(L::Max);
        rv(self.r().max_val())
    }
    fn find(&self, k: u128) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::Find);
        let t = self.r();
        match form {
            0 => t.find(k),
            1 => t.find(&k),
            2 => t.find(MaybeBorrowed::Borrowed(&k)),
            _ => t.find(MaybeBorrowed::Owned(k)),
        }
        .map(rv)
    }
    fn pred(&self, k: u128) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::Pred);
        let t = self.r();
        match form {
            0 => t.predecessor(k),
            1 => t.predecessor(&k),
            2 => t.predecessor(MaybeBorrowed::Borrowed(&k)),
            _ => t.predecessor(MaybeBorrowed::Owned(k)),
        }
        .map(rv)
    }
    fn succ(&self, k: u128) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::Succ);
        let t = self.r();
        match form {
            0 => t.successor(k),
            1 => t.successor(&k),
            2 => t.successor(MaybeBorrowed::Borrowed(&k)),
            _ => t.successor(MaybeBorrowed::Owned(k)),
        }
        .map(rv)
    }
    fn min_mut(&mut self, w: Option<u64>) -> KV {
        set_label(L::MinMut);
        wv(self.m().min_val_mut(), w)
    }
    fn max_mut(&mut self, w: Option<u64>) -> KV {
        set_label(L::MaxMut);
        wv(self.m().max_val_mut(), w)
    }
    fn find_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::FindMut);
        let t = self.m();
        match form {
            0 => t.find_mut(k),
            1 => t.find_mut(&k),
            2 => t.find_mut(MaybeBorrowed::Borrowed(&k)),
            _ => t.find_mut(MaybeBorrowed::Owned(k)),
        }
        .map(|x| wv(x, w))
    }
    fn pred_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::PredMut);
        let t = self.m();
        match form {
            0 => t.predecessor_mut(k),
            1 => t.predecessor_mut(&k),
            2 => t.predecessor_mut(MaybeBorrowed::Borrowed(&k)),
            _ => t.predecessor_mut(MaybeBorrowed::Owned(k)),
        }
        .map(|x| wv(x, w))
    }
    fn succ_mut(&mut self, k: u128, w: Option<u64>) -> Option<KV> {
        let form = (k ^ k >> 7) & 3;
        let k = T::Key::from_rank(k);
        set_label(L::SuccMut);
        let t = self.m();
        match form {
            0 => t.successor_mut(k),
            1 => t.successor_mut(&k),
            2 => t.successor_mut(MaybeBorrowed::Borrowed(&k)),
            _ => t.successor_mut(MaybeBorrowed::Owned(k)),
        }
        .map(|x| wv(x, w))
    }
    fn iter(&self, cb: &mut dyn FnMut(StepObs) -> Option<bool>) {
        let t = self.r();
        set_label(L::Iter);
        let mut it = Iter::from(t);
        let mut item = None;
        loop {
            set_label(L::SizeHint);
            let hint = it.size_hint();
            let len = self.caps.iter_len.map(|f| f(&it));
            match cb(StepObs { item, hint, len }) {
                None => break,
                Some(false) => {
                    set_label(L::Iter);
                    item = it.next().map(rv);
                }
                Some(true) => {
                    set_label(L::IterBack);
                    item = it.next_back().map(rv);
                }
            }
        }
    }
    fn iter_via(&self, how: u8, n: usize) -> Vec<Option<KV>> {
        let t = self.r();
        set_label(L::Iter);
        let (how, front, back) = via(how);
        let ready = || {
            let mut it = Iter::from(t);
            for _ in 0..front {
                it.next();
            }
            for _ in 0..back {
                it.next_back();
            }
            it
        };
        let mut out = vec![];
        // an adaptor cannot be stopped, so see first that plain steps come to an end
        for reverse in [false, true] {
            let mut it = ready();
            let mut steps = 0;
            while if reverse { it.next_back() } else { it.next() }.is_some() {
                steps += 1;
                if steps > CAP {
                    return vec![None];
                }
            }
        }
        let mut it = ready();
        match how {
            0 => out.extend(it.by_ref().map(|e| Some(rv(e)))),
            1 => out.extend(it.by_ref().rev().map(|e| Some(rv(e)))),
            2 => out.push(it.nth(n).map(rv)),
            3 => out.push(it.nth_back(n).map(rv)),
            4 => return vec![it.last().map(rv)],
            5 => return vec![Some((it.count() as u128, 0))],
            6 => {
                it.for_each(|e| out.push(Some(rv(e))));
                return out;
            }
            7 => {
                return it.fold(out, |mut o, e| {
                    o.push(Some(rv(e)));
                    o
                })
            }
            8 => {
                return it.rfold(out, |mut o, e| {
                    o.push(Some(rv(e)));
                    o
                })
            }
            9 => return it.rev().collect::<Vec<_>>().into_iter().map(|e| Some(rv(e))).collect(),
            10 => {
                let mut left = n;
                let r = it.try_for_each(|e| {
                    out.push(Some(rv(e)));
                    if left == 0 {
                        return Err(());
                    }
                    left -= 1;
                    Ok(())
                });
                out.push(r.is_err().then_some((0, 0)));
            }
            11 => {
                let mut left = n;
                out.push(
                    it.rfind(|_| {
                        let r = left == 0;
                        left = left.saturating_sub(1);
                        r
                    })
                    .map(rv),
                );
            }
            12 => out.extend(it.by_ref().step_by(1 + n % 4).map(|e| Some(rv(e)))),
            13 => out.extend(it.by_ref().skip(n).map(|e| Some(rv(e)))),
            _ => {
                // two iterators at once, with other questions in between
                let mut jt = Iter::from(t);
                loop {
                    let (a, b) = (it.next(), jt.next_back());
                    if a.is_none() && b.is_none() || out.len() > CAP {
                        break;
                    }
                    match out.len() / 2 % 4 {
                        0 => drop(b.as_ref().map(|e| t.find(&*e.0))),
                        1 => drop(b.as_ref().map(|e| t.predecessor(&*e.0))),
                        2 => drop(a.as_ref().map(|e| t.successor(&*e.0))),
                        _ => drop((t.min_val(), t.max_val(), t.len_hint(), t.is_monad())),
                    }
                    out.push(a.map(rv));
                    out.push(b.map(rv));
                }
            }
        }
        out.push(it.next().map(rv));
        out.push(it.next_back().map(rv));
        out
    }
    fn sizes_via(&self, how: u8, n: usize) -> Vec<Bounds> {
        let t = self.r();
        set_label(L::Iter);
        let (how, front, back) = sizes_via(how);
        let ready = || {
            let mut it = Iter::from(t);
            for _ in 0..front {
                it.next();
            }
            for _ in 0..back {
                it.next_back();
            }
            it
        };
        for reverse in [false, true] {
            let mut it = ready();
            let mut steps = 0;
            while if reverse { it.next_back() } else { it.next() }.is_some() {
                steps += 1;
                if steps > CAP {
                    return vec![];
                }
            }
        }
        let mut it = ready();
        advance(&mut it, how, n);
        let mut out = vec![];
        let mut note = |it: &Iter<'_, T>| {
            set_label(L::SizeHint);
            out.push((it.size_hint(), self.caps.iter_len.map(|f| f(it))));
            set_label(L::Iter);
        };
        note(&it);
        it.next();
        note(&it);
        it.next_back();
        note(&it);
        out
    }
    fn try_clone(&self) -> Option<Box<dyn DynTree>> {
        let f = self.caps.clone?;
        set_label(L::Clone);
        let t = self.t.as_ref().map(f);
        Some(Box::new(W { t, caps: self.caps }))
    }
    fn try_clone_onto(&self, dst: &mut dyn DynTree) -> bool {
        let Some(d) = dst.as_any().downcast_mut::<W<T>>() else { return false };
        match (self.caps.clone_from, &self.t, &mut d.t) {
            (Some(f), Some(s), Some(d)) => {
                set_label(L::Clone);
                f(d, s);
                true
            }
            _ => false,
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
