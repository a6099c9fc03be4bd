//! Concrete actions, what a tree answers, and what the reference model answers.
use crate::dyntree::{advance, sizes_via, via, label, set_label, DynTree, StepObs, KV, L};
use crate::gen::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Start(u128, u64),
    Insert(u128, u64),
    Remove(u128),
    RemoveMin,
    RemoveMax,
    IntoMonad,
    IsMonad,
    LenHint,
    ExactLen,
    Min,
    Max,
    Find(u128),
    Pred(u128),
    Succ(u128),
    MinMut(Option<u64>),
    MaxMut(Option<u64>),
    FindMut(u128, Option<u64>),
    PredMut(u128, Option<u64>),
    SuccMut(u128, Option<u64>),
    /// Full iteration; bit t of the (repeated) pattern: step t is taken from the back.
    Iter(u64),
    IterSizes(u64),
    /// Iteration through an iterator adaptor.
    IterVia(u8, usize),
    /// Size bounds after steps taken through an iterator adaptor.
    SizesVia(u8, usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Unit,
    /// An optional entry.
    E(Option<KV>),
    /// The entry taken out, and whether a tree remains.
    Out(Option<KV>, bool),
    Bool(bool),
    Len(Option<usize>),
    Hint(usize, Option<usize>),
    Seq(Vec<Option<KV>>),
    /// Number of entries still to come and the reported bounds, per step.
    Sizes(Vec<(usize, usize, Option<usize>, Option<usize>)>),
    Panic(L, String),
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Silences panics on worker threads and remembers their message.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} ({at})"));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Runs an action; a panic becomes an observation.
pub fn guard(f: impl FnOnce() -> Obs) -> Obs {
    set_label(L::None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => Obs::Panic(label(), last_panic()),
    }
}

pub fn act_label(a: &Act) -> L {
    match a {
        Act::Start(..) => L::Start,
        Act::Insert(..) => L::Insert,
        Act::Remove(..) => L::Remove,
        Act::RemoveMin => L::RemoveMin,
        Act::RemoveMax => L::RemoveMax,
        Act::IntoMonad => L::IntoMonad,
        Act::IsMonad => L::IsMonad,
        Act::LenHint => L::LenHint,
        Act::ExactLen => L::ExactLen,
        Act::Min => L::Min,
        Act::Max => L::Max,
        Act::Find(..) => L::Find,
        Act::Pred(..) => L::Pred,
        Act::Succ(..) => L::Succ,
        Act::MinMut(..) => L::MinMut,
        Act::MaxMut(..) => L::MaxMut,
        Act::FindMut(..) => L::FindMut,
        Act::PredMut(..) => L::PredMut,
        Act::SuccMut(..) => L::SuccMut,
        Act::Iter(..) | Act::IterVia(..) => L::Iter,
        Act::IterSizes(..) | Act::SizesVia(..) => L::SizeHint,
    }
}
/// Does the action consume or restructure the tree?
pub fn mutates(a: &Act) -> bool {
    matches!(a, Act::Start(..) | Act::Insert(..) | Act::Remove(..) | Act::RemoveMin | Act::RemoveMax | Act::IntoMonad)
}

const AFTER_END: usize = 4;

pub fn apply(t: &mut dyn DynTree, a: &Act) -> Obs {
    guard(|| apply_raw(t, a))
}
pub fn apply_raw(t: &mut dyn DynTree, a: &Act) -> Obs {
    match *a {
        Act::Start(k, v) => {
            t.start(k, v);
            Obs::Unit
        }
        Act::Insert(k, v) => Obs::E(t.insert(k, v)),
        Act::Remove(k) => {
            let r = t.remove(k);
            Obs::Out(r, t.is_some())
        }
        Act::RemoveMin => {
            let r = t.remove_min();
            Obs::Out(Some(r), t.is_some())
        }
        Act::RemoveMax => {
            let r = t.remove_max();
            Obs::Out(Some(r), t.is_some())
        }
        Act::IntoMonad => {
            let r = t.into_monad();
            Obs::Out(r, t.is_some())
        }
        Act::IsMonad => Obs::Bool(t.is_monad()),
        Act::LenHint => {
            let (a, b) = t.len_hint();
            Obs::Hint(a, b)
        }
        Act::ExactLen => Obs::Len(t.exact_len()),
        Act::Min => Obs::E(Some(t.min())),
        Act::Max => Obs::E(Some(t.max())),
        Act::Find(k) => Obs::E(t.find(k)),
        Act::Pred(k) => Obs::E(t.pred(k)),
        Act::Succ(k) => Obs::E(t.succ(k)),
        Act::MinMut(w) => Obs::E(Some(t.min_mut(w))),
        Act::MaxMut(w) => Obs::E(Some(t.max_mut(w))),
        Act::FindMut(k, w) => Obs::E(t.find_mut(k, w)),
        Act::PredMut(k, w) => Obs::E(t.pred_mut(k, w)),
        Act::SuccMut(k, w) => Obs::E(t.succ_mut(k, w)),
        Act::IterVia(h, n) => Obs::Seq(t.iter_via(h, n)),
        Act::SizesVia(h, n) => Obs::Sizes(t.sizes_via(h, n).into_iter().map(|((a, b), l)| (0, a, b, l)).collect()),
        Act::Iter(p) | Act::IterSizes(p) => {
            let mut items = vec![];
            let mut hints = vec![];
            let mut left_after_end = AFTER_END;
            let sizes = matches!(a, Act::IterSizes(_));
            let mut step = 0usize;
            t.iter(&mut |o: StepObs| {
                if sizes {
                    hints.push((0, o.hint.0, o.hint.1, o.len));
                }
                if step > 0 {
                    items.push(o.item);
                    if o.item.is_none() {
                        left_after_end -= 1;
                        if left_after_end == 0 {
                            return None;
                        }
                    }
                    if items.len() > 500_000 {
                        return None;
                    }
                }
                let back = p >> (step % 61) & 1 == 1;
                step += 1;
                Some(back)
            });
            if sizes {
                Obs::Sizes(hints)
            } else {
                Obs::Seq(items)
            }
        }
    }
}

/// The reference: an ordered map of ranks to value ids.
#[derive(Clone, Default)]
pub struct Model {
    pub m: BTreeMap<u128, u64>,
    /// Values carry an identity.
    pub has: bool,
}
impl Model {
    pub fn new(has: bool) -> Model {
        Model { m: BTreeMap::new(), has }
    }
    fn id(&self, v: u64) -> u64 {
        if self.has {
            v
        } else {
            0
        }
    }
    pub fn min(&self) -> Option<KV> {
        self.m.iter().next().map(|(k, v)| (*k, *v))
    }
    pub fn max(&self) -> Option<KV> {
        self.m.iter().next_back().map(|(k, v)| (*k, *v))
    }
    pub fn pred(&self, k: u128) -> Option<KV> {
        self.m.range(..k).next_back().map(|(k, v)| (*k, *v))
    }
    pub fn succ(&self, k: u128) -> Option<KV> {
        use std::ops::Bound::*;
        self.m.range((Excluded(k), Unbounded)).next().map(|(k, v)| (*k, *v))
    }
    pub fn find(&self, k: u128) -> Option<KV> {
        self.m.get(&k).map(|v| (k, *v))
    }
    fn wr(&mut self, e: Option<KV>, w: Option<u64>) -> Obs {
        if let (Some((k, _)), Some(w)) = (e, w) {
            let id = self.id(w);
            self.m.insert(k, id);
        }
        Obs::E(e)
    }
    /// The correct answer (for `LenHint`/`Sizes`: the true numbers).
    pub fn apply(&mut self, a: &Act) -> Obs {
        match *a {
            Act::Start(k, v) => {
                let id = self.id(v);
                self.m.clear();
                self.m.insert(k, id);
                Obs::Unit
            }
            Act::Insert(k, v) => {
                let id = self.id(v);
                Obs::E(self.m.insert(k, id).map(|o| (k, o)))
            }
            Act::Remove(k) => {
                let r = self.m.remove(&k).map(|v| (k, v));
                Obs::Out(r, !self.m.is_empty())
            }
            Act::RemoveMin => {
                let r = self.m.pop_first();
                Obs::Out(r, !self.m.is_empty())
            }
            Act::RemoveMax => {
                let r = self.m.pop_last();
                Obs::Out(r, !self.m.is_empty())
            }
            Act::IntoMonad => {
                if self.m.len() == 1 {
                    Obs::Out(self.m.pop_first(), false)
                } else {
                    Obs::Out(None, true)
                }
            }
            Act::IsMonad => Obs::Bool(self.m.len() == 1),
            Act::LenHint => Obs::Hint(self.m.len(), Some(self.m.len())),
            Act::ExactLen => Obs::Len(Some(self.m.len())),
            Act::Min => Obs::E(self.min()),
            Act::Max => Obs::E(self.max()),
            Act::Find(k) => Obs::E(self.find(k)),
            Act::Pred(k) => Obs::E(self.pred(k)),
            Act::Succ(k) => Obs::E(self.succ(k)),
            Act::MinMut(w) => {
                let e = self.min();
                self.wr(e, w)
            }
            Act::MaxMut(w) => {
                let e = self.max();
                self.wr(e, w)
            }
            Act::FindMut(k, w) => {
                let e = self.find(k);
                self.wr(e, w)
            }
            Act::PredMut(k, w) => {
                let e = self.pred(k);
                self.wr(e, w)
            }
            Act::SuccMut(k, w) => {
                let e = self.succ(k);
                self.wr(e, w)
            }
            Act::Iter(p) => {
                let mut it = self.m.iter();
                let mut out = vec![];
                for step in 0..self.m.len() + AFTER_END {
                    let back = p >> (step % 61) & 1 == 1;
                    let e = if back { it.next_back() } else { it.next() };
                    out.push(e.map(|(k, v)| (*k, *v)));
                }
                Obs::Seq(out)
            }
            Act::IterVia(how, n) => {
                let (how, front, back) = via(how);
                let mut it = self.m.iter().map(|(k, v)| (*k, *v));
                for _ in 0..front {
                    it.next();
                }
                for _ in 0..back {
                    it.next_back();
                }
                let mut out: Vec<Option<KV>> = vec![];
                match how {
                    1 => out.extend(it.by_ref().rev().map(Some)),
                    2 => out.push(it.nth(n)),
                    3 | 11 => out.push(it.nth_back(n)),
                    4 => return Obs::Seq(vec![it.last()]),
                    5 => return Obs::Seq(vec![Some((it.count() as u128, 0))]),
                    6 | 7 => return Obs::Seq(it.map(Some).collect()),
                    8 | 9 => return Obs::Seq(it.rev().map(Some).collect()),
                    10 => {
                        let all = it.len();
                        out.extend(it.by_ref().take(n + 1).map(Some));
                        out.push((n < all).then_some((0, 0)));
                    }
                    12 => out.extend(it.by_ref().step_by(1 + n % 4).map(Some)),
                    13 => out.extend(it.by_ref().skip(n).map(Some)),
                    14 => {
                        let mut jt = self.m.iter().map(|(k, v)| (*k, *v));
                        loop {
                            let (a, b) = (it.next(), jt.next_back());
                            if a.is_none() && b.is_none() {
                                break;
                            }
                            out.extend([a, b]);
                        }
                    }
                    _ => out.extend(it.by_ref().map(Some)),
                }
                out.push(it.next());
                out.push(it.next_back());
                Obs::Seq(out)
            }
            Act::SizesVia(how, n) => {
                let (how, front, back) = sizes_via(how);
                let mut it = self.m.iter();
                for _ in 0..front {
                    it.next();
                }
                for _ in 0..back {
                    it.next_back();
                }
                advance(&mut it, how, n);
                let mut left = vec![it.len()];
                it.next();
                left.push(it.len());
                it.next_back();
                left.push(it.len());
                Obs::Sizes(left.into_iter().map(|n| (n, 0, None, None)).collect())
            }
            Act::IterSizes(_) => {
                let n = self.m.len();
                Obs::Sizes((0..n + AFTER_END).map(|s| (n.saturating_sub(s), 0, None, None)).collect())
            }
        }
    }
}

/// Does what the tree said agree with the truth?
pub fn agree(got: &Obs, want: &Obs, sized: bool) -> bool {
    match (got, want) {
        (Obs::Hint(a, b), Obs::Hint(n, _)) => *a <= *n && b.map_or(true, |b| *n <= b) && (!sized || (*a == *n && *b == Some(*n))),
        (Obs::Len(None), Obs::Len(_)) => true,
        (Obs::Sizes(g), Obs::Sizes(w)) => {
            g.len() >= w.len()
                && g.iter().zip(w).all(|((_, a, b, l), (n, ..))| {
                    *a <= *n
                        && b.map_or(true, |b| *n <= b)
                        && l.map_or(true, |l| l == *n)
                        && (!sized || (*a == *n && *b == Some(*n)))
                })
        }
        (a, b) => a == b,
    }
}

/// Size-bound precision aside, are two answers the same?
pub fn same(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::Hint(..), Obs::Hint(..)) | (Obs::Sizes(..), Obs::Sizes(..)) | (Obs::Len(..), Obs::Len(..)) => true,
        (Obs::Panic(l, _), Obs::Panic(m, _)) => l == m,
        _ => a == b,
    }
}

pub const MAX_LIVE: usize = 3000;

/// Resolves a symbolic operation against the current content.
pub fn key(sel: &Sel, case: &Case, m: &Model) -> u128 {
    let mk = mask(case.bits);
    let half = case.bits / 2;
    let p = |i: u16| case.pool[i as usize % case.pool.len()];
    let live = |i: u16| {
        if m.m.is_empty() {
            p(i)
        } else if m.m.len() <= 600 {
            *m.m.keys().nth(i as usize % m.m.len()).unwrap()
        } else {
            m.m.range(p(i)..).next().map_or(p(i), |x| *x.0)
        }
    };
    let off = |k: u128, j: u16| {
        let d: u128 = match j % 10 {
            0..=3 => 1,
            4 => 2,
            5 => 1 << half,
            6 => (1 << half) - 1,
            7 => (1 << half) + 1,
            8 => 1 << (case.bits / 4),
            _ => 1 + (j as u128 >> 5),
        };
        let r = if j & 16 == 0 { k.wrapping_add(d) } else { k.wrapping_sub(d) };
        r & mk
    };
    let lo = mask(half);
    match sel.kind % 32 {
        0..=7 => p(sel.i),
        8..=10 => off(p(sel.i), sel.j),
        11..=18 => live(sel.i),
        19..=21 => off(live(sel.i), sel.j),
        22..=23 => (p(sel.i) & !lo) | (p(sel.j) & lo),
        24 => (live(sel.i) & !lo) | (p(sel.j) & lo),
        25 => (p(sel.j) & !lo) | (live(sel.i) & lo),
        26 => m.min().map_or(0, |e| e.0),
        27 => m.max().map_or(mk, |e| e.0),
        28 => off(m.min().map_or(0, |e| e.0), sel.j),
        29 => off(m.max().map_or(mk, |e| e.0), sel.j),
        30 => {
            if sel.j & 1 == 0 {
                0
            } else {
                mk
            }
        }
        // halfway between two live keys
        _ => {
            let (a, b) = (live(sel.i), live(sel.i.wrapping_add(1)));
            a.min(b) + (a.max(b) - a.min(b)) / 2
        }
    }
}

pub struct Ids(pub u64);
impl Ids {
    pub fn fresh(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}

fn run_keys(op: &Op, k: u128, bits: u32) -> Vec<u128> {
    let mk = mask(bits);
    let half = bits / 2;
    let step: u128 = match op.sel.j % 8 {
        0 | 1 => 1,
        2 => 2,
        3 => 1 << half,
        4 => (1 << half) + 1,
        5 => (1u128 << half) - 1,
        6 => 1 << (bits / 4),
        _ => 3 + (op.sel.j as u128 >> 8),
    };
    let mut ks = vec![];
    let mut x = k;
    for _ in 0..op.n {
        ks.push(x);
        x = x.wrapping_add(step) & mk;
    }
    match (op.sel.j >> 3) & 7 {
        0..=2 => {}
        3 | 4 => ks.reverse(),
        5 => {
            // outside in
            let mut o = vec![];
            let (mut a, mut b) = (0, ks.len());
            while a < b {
                o.push(ks[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    o.push(ks[b]);
                }
            }
            o.reverse();
            ks = o;
        }
        _ => {
            let n = ks.len();
            let g = [7, 11, 13, 17, 19].into_iter().find(|g| n % g != 0).unwrap_or(1);
            ks = (0..n).map(|i| ks[i * g % n]).collect();
        }
    }
    ks
}

/// Expands an operation into concrete actions (without `fork`/`pick`, which runners interpret).
pub fn resolve(op: &Op, case: &Case, m: &Model, ids: &mut Ids, out: &mut Vec<Act>) {
    out.clear();
    let k = key(&op.sel, case, m);
    match op.code {
        INS => {
            if m.m.len() < MAX_LIVE {
                out.push(Act::Insert(k, ids.fresh()))
            }
        }
        REM => out.push(Act::Remove(k)),
        RMIN => out.push(Act::RemoveMin),
        RMAX => out.push(Act::RemoveMax),
        MONAD => out.push(Act::IntoMonad),
        INSRUN => {
            if m.m.len() < MAX_LIVE || (op.n > 1000 && m.m.len() < 70_000) {
                for k in run_keys(op, k, case.bits) {
                    out.push(Act::Insert(k, ids.fresh()));
                }
            }
        }
        REMRUN => {
            // half of the runs walk over stored keys, so that they actually remove something
            if op.sel.j & 1 == 0 && !m.m.is_empty() {
                let ks: Vec<u128> = m.m.range(k..).map(|x| *x.0).step_by(1 + (op.sel.j as usize >> 6) % 3).take(op.n as usize).collect();
                if op.sel.j & 32 == 0 {
                    out.extend(ks.into_iter().map(Act::Remove));
                } else {
                    out.extend(ks.into_iter().rev().map(Act::Remove));
                }
            } else {
                out.extend(run_keys(op, k, case.bits).into_iter().map(Act::Remove));
            }
        }
        DMIN | DMAX => {
            let a = if op.code == DMIN { Act::RemoveMin } else { Act::RemoveMax };
            for _ in 0..op.n {
                out.push(a);
            }
        }
        WRITE => {
            let w = Some(ids.fresh());
            out.push(match op.n % 5 {
                0 => Act::FindMut(k, w),
                1 => Act::PredMut(k, w),
                2 => Act::SuccMut(k, w),
                3 => Act::MinMut(w),
                _ => Act::MaxMut(w),
            })
        }
        ITER => out.push(Act::Iter(pattern(op))),
        _ => {}
    }
}
pub fn pattern(op: &Op) -> u64 {
    match op.n % 6 {
        0 => 0,
        1 => u64::MAX,
        2 => 0xaaaa_aaaa_aaaa_aaaa,
        3 => (op.sel.i as u64) | (op.sel.j as u64) << 16 | (op.n as u64) << 32 | (op.sel.i as u64) << 48,
        4 => 1 << (op.n / 6 % 61),
        _ => !(1 << (op.n / 6 % 61)),
    }
}
/// The action that may run on the present content: starts a tree where there is none, and
/// skips what needs one.
pub fn adapt(a: Act, m: &Model) -> Option<Act> {
    if m.m.is_empty() {
        match a {
            Act::Insert(k, v) => Some(Act::Start(k, v)),
            Act::Start(..) => Some(a),
            _ => None,
        }
    } else {
        Some(a)
    }
}

pub fn show(a: &Act) -> String {
    match a {
        Act::Start(k, v) => format!("from_monad({k:#x}, v{v})"),
        Act::Insert(k, v) => format!("insert({k:#x}, v{v})"),
        Act::Remove(k) => format!("remove({k:#x})"),
        Act::RemoveMin => "remove_min()".into(),
        Act::RemoveMax => "remove_max()".into(),
        Act::Find(k) => format!("find({k:#x})"),
        Act::Pred(k) => format!("predecessor({k:#x})"),
        Act::Succ(k) => format!("successor({k:#x})"),
        Act::FindMut(k, w) => format!("find_mut({k:#x}, write {w:?})"),
        Act::PredMut(k, w) => format!("predecessor_mut({k:#x}, write {w:?})"),
        Act::SuccMut(k, w) => format!("successor_mut({k:#x}, write {w:?})"),
        Act::Iter(p) => format!("iterate(pattern {p:#x})"),
        Act::IterVia(h, n) => {
            let (h, f, b) = via(*h);
            let names = [
                "collect", "rev", "nth", "nth_back", "last", "count", "for_each", "fold", "rfold", "rev().collect", "try_for_each", "rfind", "step_by", "skip",
                "zip(an iterator from the back, with queries in between)",
            ];
            format!("iterator after {f} front and {b} back steps .{}({n})", names[h as usize])
        }
        Act::SizesVia(h, n) => {
            let (h, f, b) = sizes_via(*h);
            let names = ["nth", "nth_back", "take", "rev().take", "try_for_each", "skip", "position", "step_by", "rfind"];
            format!("size hints of an iterator after {f} front and {b} back steps and .{}({n})", names[h as usize])
        }
        Act::IterSizes(p) => format!("iterate with size hints(pattern {p:#x})"),
        a => format!("{a:?}"),
    }
}
