//! Runners: one generated history against one (or several) trees and the model.
use crate::act::*;
use crate::alloc;
use crate::configs::{Config, Vk};
use crate::dyntree::{DynTree, L, SIZES_VIAS, VIAS};
use crate::gen::*;
use crate::rank;
use crate::spy;
use crate::val;
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub nontrivial: bool,
    /// A divergence outside the property under test ended the case early.
    pub abandoned: bool,
    pub acts: u64,
    pub queries: u64,
    pub max_len: usize,
    /// Named class counters, summed over the run.
    pub classes: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn hit(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn add(&mut self, c: &'static str, n: u64) {
        *self.classes.entry(c).or_insert(0) += n;
    }
    pub fn n(&self, c: &'static str) -> u64 {
        self.classes.get(c).copied().unwrap_or(0)
    }
}
pub type Verdict = Result<Stats, String>;

/// The part of the behaviour a property speaks about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    Map,
    Extremes,
    Neighbours,
    Mutable,
    Iteration,
    Sizes,
    /// How the tree uses the parts it is assembled from, and every answer it draws from them.
    Parts,
}
impl Focus {
    fn owns(self, l: L) -> bool {
        match self {
            Focus::Map => matches!(
                l,
                L::Start | L::Insert | L::Remove | L::RemoveMin | L::RemoveMax | L::Find | L::Drop | L::IntoMonad
            ),
            Focus::Extremes => matches!(l, L::Min | L::Max | L::MinMut | L::MaxMut | L::RemoveMin | L::RemoveMax),
            Focus::Neighbours => matches!(l, L::Pred | L::Succ | L::PredMut | L::SuccMut),
            Focus::Mutable => matches!(l, L::FindMut | L::MinMut | L::MaxMut | L::PredMut | L::SuccMut),
            Focus::Iteration => matches!(l, L::Iter | L::IterBack),
            Focus::Sizes => matches!(l, L::IsMonad | L::LenHint | L::ExactLen | L::IntoMonad | L::SizeHint),
            Focus::Parts => true,
        }
    }
}

fn strip(o: &Obs) -> Option<Vec<(u128, u64)>> {
    match o {
        Obs::E(e) | Obs::Out(e, _) => Some(e.iter().copied().collect()),
        Obs::Seq(s) => Some(s.iter().flatten().copied().collect()),
        _ => None,
    }
}
/// Both answers designate the same keys but different values.
fn value_differs(got: &Obs, want: &Obs) -> bool {
    match (strip(got), strip(want)) {
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0) && a != b,
        _ => false,
    }
}

pub struct Ctx<'a> {
    pub cfg: &'a Config,
    pub case: &'a Case,
    pub tree: Box<dyn DynTree>,
    pub model: Model,
    pub st: Stats,
    pub log: Vec<Act>,
    written: bool,
}
pub enum Stop {
    Violation(String),
    Abandon,
}

impl<'a> Ctx<'a> {
    pub fn new(cfg: &'a Config, case: &'a Case) -> Self {
        Ctx {
            cfg,
            case,
            tree: (cfg.make)(),
            model: Model::new(cfg.vals != Vk::Set),
            st: Stats::default(),
            log: vec![],
            written: false,
        }
    }
    pub fn fail(&self, a: &Act, got: &Obs, want: &Obs) -> String {
        let n = self.log.len();
        let tail: Vec<String> = self.log[n.saturating_sub(40)..].iter().map(show).collect();
        format!(
            "{}: {} answered {} where the model says {} ({} entries stored)\nlast {} of {} changes before it: {}",
            self.cfg.name,
            show(a),
            clip(format!("{got:?}")),
            clip(format!("{want:?}")),
            self.model.m.len(),
            tail.len(),
            n,
            tail.join("; ")
        )
    }
    fn classify(&mut self, a: &Act, want: &Obs, before: usize, min: Option<u128>, max: Option<u128>) {
        let s = &mut self.st;
        match (a, want) {
            (Act::Insert(_, _), Obs::E(Some(_))) if before >= 3 => s.hit("replace_in_3plus"),
            (Act::Insert(k, _), Obs::E(None)) if before >= 2 => {
                if Some(*k) < min {
                    s.hit("insert_below_min")
                } else if Some(*k) > max {
                    s.hit("insert_above_max")
                } else {
                    s.hit("insert_between")
                }
            }
            (Act::Remove(k), Obs::Out(Some(_), _)) if before >= 3 => {
                if Some(*k) == min {
                    s.hit("remove_the_min")
                } else if Some(*k) == max {
                    s.hit("remove_the_max")
                } else {
                    s.hit("remove_inner")
                }
            }
            (Act::Remove(_), Obs::Out(None, _)) if before >= 3 => s.hit("remove_absent"),
            (Act::RemoveMin | Act::RemoveMax, _) if before >= 3 => s.hit("pop_extreme"),
            (_, Obs::Out(Some(_), false)) => s.hit("emptied"),
            (Act::FindMut(k, Some(_)) | Act::PredMut(k, Some(_)) | Act::SuccMut(k, Some(_)), Obs::E(Some(e)))
                if before >= 3 && Some(e.0) != min && Some(e.0) != max =>
            {
                let _ = k;
                s.hit("write_inner")
            }
            _ => {}
        }
    }
    /// Runs one action on the tree and the model and judges it under the focus.
    pub fn step(&mut self, a: Act, focus: Focus) -> Result<(), Stop> {
        let before = self.model.m.len();
        let (min, max) = (self.model.min().map(|e| e.0), self.model.max().map(|e| e.0));
        let got = apply(&mut *self.tree, &a);
        let want = self.model.apply(&a);
        self.classify(&a, &want, before, min, max);
        if mutates(&a) {
            self.st.acts += 1;
            self.st.max_len = self.st.max_len.max(self.model.m.len());
            self.log.push(a);
        } else {
            self.st.queries += 1;
            if matches!(a, Act::FindMut(_, Some(_)) | Act::PredMut(_, Some(_)) | Act::SuccMut(_, Some(_)) | Act::MinMut(Some(_)) | Act::MaxMut(Some(_)))
            {
                self.written = true;
                self.log.push(a);
            }
        }
        if focus == Focus::Parts && (mutates(&a) || spy::misused()) {
            if let Some(m) = spy::check(self.model.m.len()) {
                return Err(Stop::Violation(self.fail(&a, &got, &want) + "\n" + &m));
            }
        }
        if agree(&got, &want, self.cfg.sized) {
            return Ok(());
        }
        let owned = match &got {
            Obs::Panic(l, _) => focus.owns(*l),
            _ => focus.owns(act_label(&a)) || (focus == Focus::Mutable && self.written && value_differs(&got, &want)),
        };
        if owned {
            return Err(Stop::Violation(self.fail(&a, &got, &want)));
        }
        // Outside the property: go on when tree and model can still be compared.
        let writes = matches!(
            a,
            Act::FindMut(_, Some(_)) | Act::PredMut(_, Some(_)) | Act::SuccMut(_, Some(_)) | Act::MinMut(Some(_)) | Act::MaxMut(Some(_))
        );
        if writes || (mutates(&a) && (matches!(got, Obs::Panic(..)) || self.tree.is_some() == self.model.m.is_empty())) {
            return Err(Stop::Abandon);
        }
        self.st.hit("divergence_outside_property");
        Ok(())
    }
    pub fn probe_keys(&self, hot: u128, turn: usize) -> Vec<u128> {
        let mk = mask(self.case.bits);
        let half = self.case.bits / 2;
        let p = &self.case.pool;
        let mut v = vec![
            hot,
            hot.wrapping_add(1) & mk,
            hot.wrapping_sub(1) & mk,
            hot.wrapping_add(1 << half) & mk,
            hot.wrapping_sub(1 << half) & mk,
            hot | mask(half),
            hot & !mask(half),
            p[turn % p.len()],
            p[(turn * 7 + 3) % p.len()],
            0,
            mk,
        ];
        for e in [self.model.min(), self.model.max()].into_iter().flatten() {
            v.extend([e.0, e.0.wrapping_add(1) & mk, e.0.wrapping_sub(1) & mk]);
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    /// Every stored key, its two neighbours, and the pool (bounded).
    pub fn sweep_keys(&self, cap: usize) -> Vec<u128> {
        let mk = mask(self.case.bits);
        let by = (self.model.m.len() / cap.max(1)).max(1);
        let mut v: Vec<u128> = self.model.m.keys().step_by(by).flat_map(|k| [*k, k.wrapping_add(1) & mk, k.wrapping_sub(1) & mk]).collect();
        v.extend(&self.case.pool);
        v.extend([0, mk]);
        if self.case.bits <= 8 {
            v.extend(0..=mk);
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    fn probe(&mut self, focus: Focus, keys: &[u128], deep: bool, turn: usize) -> Result<(), Stop> {
        if self.model.m.is_empty() {
            return Ok(());
        }
        let f = focus;
        match f {
            Focus::Map => {
                for k in keys {
                    self.step(Act::Find(*k), f)?;
                }
            }
            Focus::Extremes => {
                for a in [Act::Min, Act::Max, Act::MinMut(None), Act::MaxMut(None)] {
                    self.step(a, f)?;
                }
            }
            Focus::Neighbours => {
                for k in keys {
                    self.step(Act::Pred(*k), f)?;
                    self.step(Act::Succ(*k), f)?;
                    self.step(Act::PredMut(*k, None), f)?;
                    self.step(Act::SuccMut(*k, None), f)?;
                }
            }
            Focus::Mutable => {
                for k in keys {
                    self.step(Act::FindMut(*k, None), f)?;
                    self.step(Act::PredMut(*k, None), f)?;
                    self.step(Act::SuccMut(*k, None), f)?;
                    if self.written {
                        self.step(Act::Find(*k), f)?;
                        if deep {
                            self.step(Act::Pred(*k), f)?;
                            self.step(Act::Succ(*k), f)?;
                        }
                    }
                }
                for a in [Act::MinMut(None), Act::MaxMut(None)] {
                    self.step(a, f)?;
                }
                if self.written && deep {
                    for a in [Act::Min, Act::Max, Act::Iter(0)] {
                        self.step(a, f)?;
                    }
                }
            }
            Focus::Iteration => {
                let pats = [0, u64::MAX, 0xaaaa_aaaa_aaaa_aaaa, 0x9249_2492_4924_9249, 1, !1];
                if deep {
                    for p in pats {
                        self.step(Act::Iter(p), f)?;
                    }
                    for h in 0..VIAS {
                        let start = ((turn + h as usize * 5) % 9) as u8 * VIAS;
                        self.step(Act::IterVia(start + h, (turn * 3 + h as usize) % (self.model.m.len() + 2)), f)?;
                    }
                } else if self.model.m.len() <= 40 || turn % 8 == 0 {
                    self.step(Act::Iter(pats[turn % 6].rotate_left(turn as u32 / 6)), f)?;
                }
            }
            Focus::Sizes => {
                for a in [Act::IsMonad, Act::LenHint, Act::ExactLen] {
                    self.step(a, f)?;
                }
                if deep || self.model.m.len() <= 16 || turn % 16 == 0 {
                    self.step(Act::IterSizes(0x9249_2492_4924_9249u64.rotate_left(turn as u32)), f)?;
                    let h = (turn * 7 + self.case.flavor as usize) % (SIZES_VIAS as usize * 9);
                    self.step(Act::SizesVia(h as u8, turn * 5 % (self.model.m.len() + 2)), f)?;
                }
            }
            Focus::Parts => {
                for (x, k) in keys.iter().enumerate() {
                    if !deep && x % 3 != turn % 3 {
                        continue;
                    }
                    let w = self.cfg.vals != Vk::Set && (turn + x) % 7 == 0;
                    let w = w.then_some(1 << 40 | (turn as u64) << 16 | x as u64);
                    self.step(Act::Find(*k), f)?;
                    self.step(Act::Pred(*k), f)?;
                    self.step(Act::Succ(*k), f)?;
                    self.step(Act::FindMut(*k, w), f)?;
                    self.step(Act::PredMut(*k, w), f)?;
                    self.step(Act::SuccMut(*k, w), f)?;
                }
                for a in [Act::Min, Act::Max, Act::MinMut(None), Act::MaxMut(None), Act::IsMonad, Act::LenHint] {
                    self.step(a, f)?;
                }
                if deep || self.model.m.len() <= 16 || turn % 16 == 0 {
                    self.step(Act::Iter(0x9249_2492_4924_9249u64.rotate_left(turn as u32)), f)?;
                }
            }
        }
        Ok(())
    }
    fn drain(&mut self, focus: Focus) -> Result<(), Stop> {
        let fl = self.case.flavor;
        let mut turn = 0usize;
        let total = self.model.m.len();
        while !self.model.m.is_empty() {
            let t = fl.rotate_left(turn as u32 % 16);
            let (min, max) = (self.model.min().unwrap().0, self.model.max().unwrap().0);
            let a = match fl % 5 {
                0 => Act::RemoveMin,
                1 => Act::RemoveMax,
                2 if t & 1 == 0 => Act::RemoveMin,
                2 => Act::RemoveMax,
                _ => {
                    let k = match t & 7 {
                        0 => min,
                        1 => max,
                        _ => {
                            let x = self.case.pool[turn % self.case.pool.len()];
                            self.model.m.range(x..).nth((t >> 3) as usize & 3).map_or(min, |e| *e.0)
                        }
                    };
                    Act::Remove(k)
                }
            };
            if focus == Focus::Sizes && self.model.m.len() <= 3 {
                self.step(Act::IntoMonad, focus)?;
                if self.model.m.is_empty() {
                    break;
                }
            }
            self.step(a, focus)?;
            if total <= 64 || turn % 16 == 0 || self.model.m.len() < 8 {
                let keys = self.probe_keys(min, turn);
                self.probe(focus, &keys, false, turn)?;
            }
            turn += 1;
        }
        Ok(())
    }
    fn history(&mut self, focus: Focus) -> Result<(), Stop> {
        let mut ids = Ids(0);
        let mut acts = vec![];
        let mk = mask(self.case.bits);
        for (turn, op) in self.case.ops.iter().enumerate() {
            resolve(op, self.case, &self.model, &mut ids, &mut acts);
            let many = acts.len() > 1;
            let mut hot = 0;
            for (x, a) in acts.iter().enumerate() {
                let Some(a) = adapt(*a, &self.model) else { continue };
                hot = match a {
                    Act::Start(k, _) | Act::Insert(k, _) | Act::Remove(k) | Act::FindMut(k, _) | Act::PredMut(k, _) | Act::SuccMut(k, _) => k,
                    Act::RemoveMin => self.model.min().map_or(0, |e| e.0),
                    _ => self.model.max().map_or(mk, |e| e.0),
                };
                self.step(a, focus)?;
                if many && (x % 16 == 5) {
                    let keys = self.probe_keys(hot, turn + x);
                    self.probe(focus, &keys, false, turn + x)?;
                }
            }
            let keys = self.probe_keys(hot, turn);
            self.probe(focus, &keys, false, turn)?;
            if turn % 24 == 23 || (many && self.model.m.len() < 100) {
                let keys = self.sweep_keys(64);
                self.probe(focus, &keys, true, turn)?;
            }
        }
        let keys = self.sweep_keys(400);
        self.probe(focus, &keys, true, 0)?;
        self.drain(focus)
    }
}
impl Ctx<'_> {
    /// A history of long runs over tens of thousands of entries, observed where it matters:
    /// around 2^8 and 2^16 entries, now and then, and after every run.
    fn large(&mut self, focus: Focus) -> Result<(), Stop> {
        let mut ids = Ids(0);
        let mut acts = vec![];
        for (turn, op) in self.case.ops.iter().enumerate() {
            resolve(op, self.case, &self.model, &mut ids, &mut acts);
            let mut hot = 0;
            for (x, a) in acts.iter().enumerate() {
                let Some(a) = adapt(*a, &self.model) else { continue };
                if let Act::Start(k, _) | Act::Insert(k, _) | Act::Remove(k) = a {
                    hot = k;
                }
                self.step(a, focus)?;
                let n = self.model.m.len();
                if n.is_power_of_two() || (n + 1).is_power_of_two() || x % 8192 == 77 {
                    let keys = self.probe_keys(hot, turn + x);
                    self.few(focus, &keys)?;
                }
            }
            let keys = self.sweep_keys(50);
            self.few(focus, &keys)?;
            // whole iterations after every other run
            if !self.model.m.is_empty() && turn % 2 == 0 {
                let pat = [0, u64::MAX, 0xaaaa_aaaa_aaaa_aaaa, 0x9249_2492_4924_9249][(turn / 2 + self.case.flavor as usize) % 4];
                match focus {
                    Focus::Iteration => {
                        self.step(Act::Iter(pat), focus)?;
                        let n = self.model.m.len();
                        for h in [turn * 3, turn * 3 + 5] {
                            let h = (h + self.case.flavor as usize) as u8 % VIAS;
                            self.step(Act::IterVia(h + (turn % 9) as u8 * VIAS, n / 3), focus)?;
                        }
                    }
                    Focus::Sizes => {
                        self.step(Act::IterSizes(pat), focus)?;
                        let h = (turn * 7 + self.case.flavor as usize) % (SIZES_VIAS as usize * 9);
                        self.step(Act::SizesVia(h as u8, self.model.m.len() / 3), focus)?;
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }
    /// `probe` without whole iterations.
    fn few(&mut self, focus: Focus, keys: &[u128]) -> Result<(), Stop> {
        if self.model.m.is_empty() {
            return Ok(());
        }
        match focus {
            Focus::Iteration => Ok(()),
            Focus::Sizes => {
                for a in [Act::IsMonad, Act::LenHint, Act::ExactLen] {
                    self.step(a, focus)?;
                }
                Ok(())
            }
            f => self.probe(f, keys, false, 1),
        }
    }
}
fn clip(s: String) -> String {
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}

/// C01–C06: the model decides every answer in the focus.
pub fn model_case(focus: Focus, cfg: &Config, case: &Case) -> Verdict {
    spy::reset();
    let mut c = Ctx::new(cfg, case);
    let r = if case.ops.iter().any(|o| o.n > LARGE && o.code == INSRUN) { c.large(focus) } else { c.history(focus) };
    // Dropping what is left must not panic either.
    let d = guard(|| {
        c.tree.clear();
        Obs::Unit
    });
    let mut st = std::mem::take(&mut c.st);
    let s = &st;
    let taken = s.n("remove_the_min") + s.n("remove_the_max") + s.n("remove_inner") + s.n("pop_extreme") + s.n("replace_in_3plus");
    st.nontrivial = s.max_len >= 3
        && taken >= 1
        && match focus {
            Focus::Mutable => s.n("write_inner") >= 1,
            _ => true,
        };
    match r {
        Err(Stop::Violation(m)) => Err(m),
        Err(Stop::Abandon) => {
            st.abandoned = true;
            Ok(st)
        }
        Ok(()) => match d {
            Obs::Panic(l, m) if focus.owns(l) => Err(format!("{}: dropping the tree panicked: {m}", cfg.name)),
            _ if focus == Focus::Parts => match spy::left() {
                Some(m) => Err(format!("{}: {m}", cfg.name)),
                None => Ok(st),
            },
            _ => Ok(st),
        },
    }
}

/// The queries that together describe a tree's observable state.
pub fn snapshot_acts(keys: &[u128], pat: u64) -> Vec<Act> {
    let mut v = vec![Act::IsMonad, Act::LenHint, Act::ExactLen, Act::Min, Act::Max, Act::MinMut(None), Act::MaxMut(None), Act::Iter(pat)];
    for k in keys {
        v.extend([Act::Find(*k), Act::Pred(*k), Act::Succ(*k)]);
    }
    v
}
pub fn snapshot_full(keys: &[u128], pat: u64) -> Vec<Act> {
    let mut v = snapshot_acts(keys, pat);
    v.extend([Act::Iter(0), Act::Iter(u64::MAX), Act::IterSizes(pat)]);
    for k in keys {
        v.extend([Act::FindMut(*k, None), Act::PredMut(*k, None), Act::SuccMut(*k, None)]);
    }
    v
}
pub fn observe(t: &mut dyn DynTree, acts: &[Act]) -> Vec<Obs> {
    if !t.is_some() {
        return vec![];
    }
    acts.iter().map(|a| apply(t, a)).collect()
}
/// First difference between two observations of the same acts. Panic messages are not compared.
pub fn differ(acts: &[Act], a: &[Obs], b: &[Obs]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("one tree is gone, the other is not ({} vs {} answers)", a.len(), b.len()));
    }
    let eq = |x: &Obs, y: &Obs| match (x, y) {
        (Obs::Panic(l, _), Obs::Panic(m, _)) => l == m,
        _ => x == y,
    };
    acts.iter()
        .zip(a.iter().zip(b))
        .find(|(_, (x, y))| !eq(x, y))
        .map(|(a, (x, y))| format!("{} answered {} and {}", show(a), clip(format!("{x:?}")), clip(format!("{y:?}"))))
}
fn tail(log: &[Act]) -> String {
    let n = log.len();
    let t: Vec<String> = log[n.saturating_sub(40)..].iter().map(show).collect();
    format!("last {} of {} changes: {}", t.len(), n, t.join("; "))
}

/// C12: clones against the original and against each other.
pub fn clone_case(cfg: &Config, case: &Case) -> Verdict {
    struct Slot {
        tree: Box<dyn DynTree>,
        model: Model,
        log: Vec<Act>,
    }
    let mut st = Stats::default();
    let mut ids = Ids(0);
    let mut acts = vec![];
    let mut slots = vec![Slot { tree: (cfg.make)(), model: Model::new(cfg.vals != Vk::Set), log: vec![] }];
    let mut cur = 0usize;
    let mut mutated_after_fork = false;
    for (turn, op) in case.ops.iter().enumerate() {
        match op.code {
            FORK if slots[cur].tree.is_some() => {
                let keys: Vec<u128> = sweep(&slots[cur].model, case, 24);
                let q = snapshot_full(&keys, pattern(op));
                let a = observe(&mut *slots[cur].tree, &q);
                let mut cl = None;
                let o = guard(|| {
                    cl = slots[cur].tree.try_clone();
                    Obs::Unit
                });
                if let Obs::Panic(_, m) = o {
                    return Err(format!("{}: cloning panicked: {m}; {}", cfg.name, tail(&slots[cur].log)));
                }
                let mut cl = cl.expect("cloneable configuration");
                // cloning onto another tree must amount to the same
                if slots.len() >= 2 && op.n & 6 == 2 {
                    let at = (cur + 1 + turn % (slots.len() - 1)) % slots.len();
                    let (src, dst) = two(&mut slots, cur, at);
                    let mut done = false;
                    let o = guard(|| {
                        done = src.tree.try_clone_onto(&mut *dst.tree);
                        Obs::Unit
                    });
                    if let Obs::Panic(_, m) = o {
                        return Err(format!("{}: clone_from panicked: {m}; {}", cfg.name, tail(&src.log)));
                    }
                    if done {
                        let had = std::mem::replace(&mut dst.log, src.log.clone());
                        dst.model = src.model.clone();
                        let b = observe(&mut *dst.tree, &q);
                        if let Some(d) = differ(&q, &a, &b) {
                            return Err(format!("{}: original and a tree cloned onto with clone_from: {d}; original {}; the other before {}", cfg.name, tail(&slots[cur].log), tail(&had)));
                        }
                        st.hit("clone_from");
                        cur = at;
                        continue;
                    }
                }
                let b = observe(&mut *cl, &q);
                if let Some(d) = differ(&q, &a, &b) {
                    return Err(format!("{}: original and fresh clone: {d}; {}", cfg.name, tail(&slots[cur].log)));
                }
                let a2 = observe(&mut *slots[cur].tree, &q);
                if let Some(d) = differ(&q, &a, &a2) {
                    return Err(format!("{}: original before and after cloning: {d}; {}", cfg.name, tail(&slots[cur].log)));
                }
                st.queries += 3 * q.len() as u64;
                st.hit("clones");
                if slots[cur].model.m.len() >= 3 {
                    st.hit("clones_of_3plus");
                }
                let s = Slot { tree: cl, model: slots[cur].model.clone(), log: slots[cur].log.clone() };
                if slots.len() < 3 {
                    slots.push(s);
                } else {
                    let at = (0..3).find(|x| *x != cur && (*x + turn) % 2 == 0).unwrap_or((cur + 1) % 3);
                    slots[at] = s;
                }
                if op.n % 2 == 0 {
                    cur = slots.len() - 1;
                }
            }
            FORK => {}
            PICK => cur = op.n as usize % slots.len(),
            _ => {
                resolve(op, case, &slots[cur].model, &mut ids, &mut acts);
                if acts.is_empty() {
                    continue;
                }
                // What the others say before …
                let others: Vec<usize> = (0..slots.len()).filter(|x| *x != cur).collect();
                let mut keys: Vec<u128> = sweep(&slots[cur].model, case, 8);
                for a in acts.iter().take(20) {
                    if let Act::Insert(k, _) | Act::Remove(k) | Act::FindMut(k, _) | Act::PredMut(k, _) | Act::SuccMut(k, _) = a {
                        keys.push(*k);
                    }
                }
                keys.sort_unstable();
                keys.dedup();
                let q = snapshot_acts(&keys, pattern(op));
                let before: Vec<_> = others.iter().map(|x| observe(&mut *slots[*x].tree, &q)).collect();
                let s = &mut slots[cur];
                for a in &acts {
                    let Some(a) = adapt(*a, &s.model) else { continue };
                    let got = apply(&mut *s.tree, &a);
                    let _ = s.model.apply(&a);
                    s.log.push(a);
                    st.acts += 1;
                    if mutates(&a) && (matches!(got, Obs::Panic(..)) || s.tree.is_some() == s.model.m.is_empty()) {
                        st.abandoned = true;
                        return Ok(st);
                    }
                    if !others.is_empty() && s.model.m.len() >= 2 {
                        mutated_after_fork = true;
                    }
                }
                st.max_len = st.max_len.max(slots[cur].model.m.len());
                // … and after
                for (x, b) in others.iter().zip(before) {
                    let after = observe(&mut *slots[*x].tree, &q);
                    st.queries += 2 * q.len() as u64;
                    if let Some(d) = differ(&q, &b, &after) {
                        return Err(format!(
                            "{}: a change to one tree showed in its clone (before, after): {d}; {}",
                            cfg.name,
                            tail(&slots[cur].log)
                        ));
                    }
                }
            }
        }
    }
    // The independent histories of all clones end as their own models say they should, as far
    // as the same history without any cloning does.
    for s in &mut slots {
        let mut t = (cfg.make)();
        let mut bad = false;
        for a in &s.log {
            if let Obs::Panic(..) = apply(&mut *t, a) {
                bad = true;
                break;
            }
        }
        if bad {
            st.abandoned = true;
            continue;
        }
        let keys: Vec<u128> = sweep(&s.model, case, 40);
        let q = snapshot_full(&keys, case.flavor as u64);
        let a = observe(&mut *s.tree, &q);
        let b = observe(&mut *t, &q);
        st.queries += 2 * q.len() as u64;
        if let Some(d) = differ(&q, &a, &b) {
            return Err(format!("{}: a tree with clones and the same history without cloning: {d}; {}", cfg.name, tail(&s.log)));
        }
    }
    st.nontrivial = st.n("clones_of_3plus") >= 1 && mutated_after_fork;
    Ok(st)
}
fn two<T>(v: &mut [T], a: usize, b: usize) -> (&mut T, &mut T) {
    let (lo, hi) = v.split_at_mut(a.max(b));
    if a < b {
        (&mut lo[a], &mut hi[0])
    } else {
        (&mut hi[0], &mut lo[b])
    }
}
fn sweep(m: &Model, case: &Case, cap: usize) -> Vec<u128> {
    let mk = mask(case.bits);
    let by = (m.m.len() / cap.max(1)).max(1);
    let mut v: Vec<u128> = m.m.keys().step_by(by).flat_map(|k| [*k, k.wrapping_add(1) & mk, k.wrapping_sub(1) & mk]).collect();
    v.extend(case.pool.iter().take(4));
    v.extend([0, mk]);
    v.sort_unstable();
    v.dedup();
    v
}

/// C13: declined operations and replacements change nothing else.
pub fn decline_case(cfg: &Config, case: &Case) -> Verdict {
    let mut st = Stats::default();
    let mut ids = Ids(0);
    let mut acts = vec![];
    let has = cfg.vals != Vk::Set;
    let mut model = Model::new(has);
    let mut t = (cfg.make)();
    // Sees the same history without the declined operations.
    let mut twin = (cfg.make)();
    let mut log: Vec<Act> = vec![];
    for (turn, op) in case.ops.iter().enumerate() {
        resolve(op, case, &model, &mut ids, &mut acts);
        // Queries that find nothing are declined operations too.
        if op.sel.j % 4 == 0 {
            let k = key(&op.sel, case, &model);
            acts.extend([Act::Find(k), Act::FindMut(k, Some(ids.fresh())), Act::Pred(k), Act::PredMut(k, None), Act::Succ(k), Act::SuccMut(k, None)]);
            if let (Some(a), Some(b)) = (model.min(), model.max()) {
                acts.extend([Act::PredMut(a.0, Some(ids.fresh())), Act::SuccMut(b.0, Some(ids.fresh()))]);
            }
        }
        let many = acts.len();
        for (x, a) in acts.iter().enumerate() {
            let Some(a) = adapt(*a, &model) else { continue };
            let declined = match a {
                Act::Remove(k) | Act::Find(k) | Act::FindMut(k, _) => model.find(k).is_none(),
                Act::Pred(k) | Act::PredMut(k, _) => model.pred(k).is_none(),
                Act::Succ(k) | Act::SuccMut(k, _) => model.succ(k).is_none(),
                Act::IntoMonad => model.m.len() > 1,
                _ => false,
            };
            let replaced = match a {
                Act::Insert(k, _) if model.find(k).is_some() => Some(k),
                _ => None,
            };
            let judge = (declined || replaced.is_some()) && (many <= 4 || x % 8 == 0 || model.m.len() < 12);
            let mut q = vec![];
            let mut before = vec![];
            if judge {
                let mut keys = sweep(&model, case, 16);
                if let Act::Remove(k) | Act::Insert(k, _) | Act::Find(k) | Act::FindMut(k, _) = a {
                    let mk = mask(case.bits);
                    keys.extend([k, k.wrapping_add(1) & mk, k.wrapping_sub(1) & mk]);
                }
                keys.sort_unstable();
                keys.dedup();
                q = snapshot_full(&keys, 0x5a5a_a5a5_3c3c_c3c3u64.rotate_left(turn as u32));
                before = observe(&mut *t, &q);
            }
            let got = apply(&mut *t, &a);
            let want = model.apply(&a);
            st.acts += 1;
            if mutates(&a) {
                log.push(a);
            }
            st.max_len = st.max_len.max(model.m.len());
            if declined || replaced.is_some() {
                if declined && got != want {
                    return Err(format!("{}: {} should report failure but answered {}; {}", cfg.name, show(&a), clip(format!("{got:?}")), tail(&log)));
                }
                if model.m.len() >= 3 {
                    st.hit(match (a, declined) {
                        (Act::Remove(_), true) => "declined_remove_in_3plus",
                        (Act::IntoMonad, true) => "declined_into_monad_in_3plus",
                        (_, true) => "declined_query_in_3plus",
                        _ => "replacement_in_3plus",
                    });
                }
            }
            // Divergences elsewhere are other properties' business.
            if mutates(&a) && (matches!(got, Obs::Panic(..)) || t.is_some() == model.m.is_empty()) {
                st.abandoned = true;
                return Ok(st);
            }
            if judge {
                let now = observe(&mut *t, &q);
                st.queries += 2 * q.len() as u64;
                let d = match replaced {
                    None => differ(&q, &before, &now),
                    Some(k) => {
                        // exactly the value under k may change
                        let Act::Insert(_, id) = a else { unreachable!() };
                        let id = if has { id } else { 0 };
                        let sub: Vec<Obs> = before.iter().map(|o| revalue(o, k, id)).collect();
                        differ(&q, &sub, &now)
                    }
                };
                if let Some(d) = d {
                    return Err(format!("{}: {} {} (expected, seen): {d}; {}", cfg.name, show(&a), if declined { "declined but changed the tree" } else { "changed more than one value" }, tail(&log)));
                }
            }
            if !declined {
                let tw = apply(&mut *twin, &a);
                if let Obs::Panic(..) = tw {
                    st.abandoned = true;
                    return Ok(st);
                }
                if got != tw {
                    return Err(format!(
                        "{}: {} answered {} and, on a tree that did not see the declined operations, {}; {}",
                        cfg.name,
                        show(&a),
                        clip(format!("{got:?}")),
                        clip(format!("{tw:?}")),
                        tail(&log)
                    ));
                }
            }
        }
        if turn % 6 == 5 || turn + 1 == case.ops.len() {
            let keys = sweep(&model, case, 40);
            let q = snapshot_full(&keys, 0x3c);
            let a = observe(&mut *t, &q);
            let b = observe(&mut *twin, &q);
            st.queries += 2 * q.len() as u64;
            if let Some(d) = differ(&q, &a, &b) {
                return Err(format!("{}: after a history with and without its declined operations: {d}; {}", cfg.name, tail(&log)));
            }
        }
    }
    st.nontrivial = st.n("declined_remove_in_3plus") + st.n("declined_into_monad_in_3plus") >= 1 && st.n("replacement_in_3plus") + st.n("declined_query_in_3plus") >= 1;
    Ok(st)
}
fn revalue(o: &Obs, k: u128, id: u64) -> Obs {
    let f = |e: &Option<(u128, u64)>| e.map(|(x, v)| if x == k { (x, id) } else { (x, v) });
    match o {
        Obs::E(e) => Obs::E(f(e)),
        Obs::Seq(s) => Obs::Seq(s.iter().map(f).collect()),
        o => o.clone(),
    }
}

/// C14: the same contents by another route behave the same now and later.
pub fn history_case(cfg: &Config, case: &Case) -> Verdict {
    let mut st = Stats::default();
    let mut ids = Ids(0);
    let mut acts = vec![];
    let mut model = Model::new(cfg.vals != Vk::Set);
    let mut a = (cfg.make)();
    let mut log = vec![];
    // B exists from the first fork on
    let mut b: Option<Box<dyn DynTree>> = None;
    let mut blog: Vec<Act> = vec![];
    let rebuild_at = (case.ops.len() * (1 + case.flavor as usize % 7)) / 8;
    for (turn, op) in case.ops.iter().enumerate() {
        if (turn == rebuild_at || op.code == FORK) && !model.m.is_empty() && a.is_some() {
            let mut t = (cfg.make)();
            blog.clear();
            match route(&mut *t, case, op, &model, &mut blog) {
                Ok(()) => {
                    st.hit("rebuilds");
                    if model.m.len() >= 3 {
                        st.hit("rebuilds_of_3plus");
                    }
                    b = Some(t);
                    if let Some(m) = compare(&mut a, b.as_mut().unwrap(), case, &model, op, true, &mut st) {
                        return Err(format!("{}: same contents by two routes: {m}; first: {}; second: {}", cfg.name, tail(&log), tail(&blog)));
                    }
                }
                Err(()) => st.hit("route_failed"),
            }
            if op.code == FORK {
                continue;
            }
        }
        resolve(op, case, &model, &mut ids, &mut acts);
        for act in acts.iter() {
            let Some(act) = adapt(*act, &model) else { continue };
            let ga = apply(&mut *a, &act);
            let _ = model.apply(&act);
            st.acts += 1;
            st.max_len = st.max_len.max(model.m.len());
            if let Some(b) = b.as_mut() {
                let gb = apply(&mut **b, &act);
                st.hit("common_suffix_changes");
                let eq = match (&ga, &gb) {
                    (Obs::Panic(l, _), Obs::Panic(m, _)) => l == m,
                    _ => ga == gb,
                };
                if !eq {
                    return Err(format!(
                        "{}: {} on two trees with the same contents answered {} and {}; first: {}; second: {}",
                        cfg.name,
                        show(&act),
                        clip(format!("{ga:?}")),
                        clip(format!("{gb:?}")),
                        tail(&log),
                        tail(&blog)
                    ));
                }
                blog.push(act);
            }
            log.push(act);
            if mutates(&act) && (matches!(ga, Obs::Panic(..)) || a.is_some() == model.m.is_empty()) {
                st.abandoned = true;
                return Ok(st);
            }
        }
        if let Some(b) = b.as_mut() {
            let deep = turn % 8 == 7 || turn + 1 == case.ops.len();
            if let Some(m) = compare(&mut a, b, case, &model, op, deep, &mut st) {
                return Err(format!("{}: two trees with the same contents: {m}; first: {}; second: {}", cfg.name, tail(&log), tail(&blog)));
            }
        }
    }
    st.nontrivial = st.n("rebuilds_of_3plus") >= 1 && st.n("common_suffix_changes") >= 1;
    Ok(st)
}
fn compare(a: &mut Box<dyn DynTree>, b: &mut Box<dyn DynTree>, case: &Case, model: &Model, op: &Op, deep: bool, st: &mut Stats) -> Option<String> {
    let keys = sweep(model, case, if deep { 40 } else { 8 });
    let q = if deep { snapshot_full(&keys, pattern(op)) } else { snapshot_acts(&keys, pattern(op)) };
    let x = observe(&mut **a, &q);
    let y = observe(&mut **b, &q);
    st.queries += 2 * q.len() as u64;
    differ(&q, &x, &y)
}
/// Builds the model's contents in another order, with a detour through other keys.
fn route(t: &mut dyn DynTree, case: &Case, op: &Op, model: &Model, log: &mut Vec<Act>) -> Result<(), ()> {
    let mut ks: Vec<(u128, u64)> = model.m.iter().map(|(k, v)| (*k, *v)).collect();
    match op.sel.j % 5 {
        0 => {}
        1 => ks.reverse(),
        2 => {
            let n = ks.len();
            let g = [7, 11, 13, 17, 19].into_iter().find(|g| n % g != 0).unwrap_or(1);
            ks = (0..n).map(|i| ks[i * g % n]).collect();
        }
        3 => {
            let n = ks.len();
            ks.rotate_left(n / 2);
        }
        _ => {
            let h = ks.split_off(ks.len() / 2);
            let mut o = vec![];
            for x in h.into_iter().rev() {
                if let Some(y) = ks.pop() {
                    o.push(y);
                }
                o.push(x);
            }
            o.extend(ks);
            ks = o;
        }
    }
    let mk = mask(case.bits);
    let extra: Vec<u128> = match op.n % 3 {
        0 => vec![],
        1 => case.pool.iter().copied().filter(|k| !model.m.contains_key(k)).collect(),
        _ => {
            let mut e: Vec<u128> = ks.iter().take(40).flat_map(|k| [k.0.wrapping_add(1) & mk, k.0.wrapping_sub(1) & mk]).filter(|k| !model.m.contains_key(k)).collect();
            e.extend([0, mk].into_iter().filter(|k| !model.m.contains_key(k)));
            e
        }
    };
    let mut todo: Vec<Act> = vec![];
    let half = ks.len() / 2;
    let late = op.sel.i % 2 == 0;
    for (x, (k, v)) in ks.iter().enumerate() {
        if x == if late { half } else { 0 } {
            todo.extend(extra.iter().map(|k| Act::Insert(*k, 0)));
        }
        // some keys go in twice
        if (x as u16 ^ op.sel.i) % 4 == 1 {
            todo.push(Act::Insert(*k, 0));
        }
        todo.push(Act::Insert(*k, *v));
        if x + 1 == if late { ks.len() } else { half.max(1) } {
            let mut e = extra.clone();
            if op.sel.i & 2 == 0 {
                e.reverse();
            }
            todo.extend(e.into_iter().map(Act::Remove));
        }
    }
    for a in todo {
        let a = match (a, t.is_some()) {
            (Act::Insert(k, v), false) => Act::Start(k, v),
            (Act::Remove(_), false) => continue,
            (a, _) => a,
        };
        log.push(a);
        if let Obs::Panic(..) = apply(t, &a) {
            return Err(());
        }
    }
    if t.is_some() {
        Ok(())
    } else {
        Err(())
    }
}

/// C10: one history on several assemblies; all answers must agree.
pub fn assemblies_case(cfgs: &[Config], case: &Case) -> Verdict {
    let mut st = Stats::default();
    let mut ids = Ids(0);
    // The script is fixed by the model; it does not depend on any tree.
    let mut model = Model::new(true);
    let mut script: Vec<Act> = vec![];
    let mut acts = vec![];
    let c0 = cfgs[0];
    let mut ctx = Ctx::new(&c0, case);
    for (turn, op) in case.ops.iter().enumerate() {
        resolve(op, case, &model, &mut ids, &mut acts);
        let mut hot = case.pool[0];
        for a in &acts {
            let Some(a) = adapt(*a, &model) else { continue };
            if let Act::Insert(k, _) | Act::Remove(k) = a {
                hot = k;
            }
            model.apply(&a);
            script.push(a);
            st.acts += 1;
        }
        st.max_len = st.max_len.max(model.m.len());
        if model.m.is_empty() {
            continue;
        }
        ctx.model = std::mem::take(&mut model);
        let mut keys = ctx.probe_keys(hot, turn);
        if turn % 16 == 15 || turn + 1 == case.ops.len() {
            keys.extend(ctx.sweep_keys(32));
        }
        model = std::mem::take(&mut ctx.model);
        let full = turn % 5 == 4 || turn + 1 == case.ops.len();
        script.extend(if full { snapshot_full(&keys, pattern(op)) } else { snapshot_acts(&keys, pattern(op)) });
    }
    let mut first: Option<(usize, Vec<Obs>)> = None;
    for (x, cfg) in cfgs.iter().enumerate() {
        let mut t = (cfg.make)();
        let set = cfg.vals == Vk::Set;
        let mut out: Vec<Obs> = Vec::with_capacity(script.len());
        for a in &script {
            if !t.is_some() && !matches!(a, Act::Start(..)) {
                // a tree that vanished early answers nothing
                out.push(Obs::Unit);
                continue;
            }
            let o = apply(&mut *t, a);
            st.queries += 1;
            let stop = mutates(a) && matches!(o, Obs::Panic(..));
            out.push(o);
            if stop {
                break;
            }
        }
        match &first {
            None => first = Some((x, out)),
            Some((r, want)) => {
                let refset = cfgs[*r].vals == Vk::Set;
                let n = want.len().max(out.len());
                for i in 0..n {
                    let (w, o) = (want.get(i), out.get(i));
                    let ok = match (w, o) {
                        (Some(w), Some(o)) => {
                            if set || refset {
                                same(&unvalue(w), &unvalue(o))
                            } else {
                                same(w, o)
                            }
                        }
                        // both stopped at the same panic: compared already
                        _ => false,
                    };
                    if !ok {
                        let log: Vec<Act> = script[..i].iter().filter(|a| mutates(a)).copied().collect();
                        return Err(format!(
                            "{} answers {} with {} but {} with {}; {}",
                            cfgs[*r].name,
                            show(&script[i]),
                            clip(format!("{w:?}")),
                            cfg.name,
                            clip(format!("{o:?}")),
                            tail(&log)
                        ));
                    }
                }
                st.hit("assemblies_compared");
            }
        }
    }
    st.nontrivial = st.max_len >= 3 && cfgs.len() >= 2;
    Ok(st)
}
fn unvalue(o: &Obs) -> Obs {
    let f = |e: &Option<(u128, u64)>| e.map(|(x, _)| (x, 0));
    match o {
        Obs::E(e) => Obs::E(f(e)),
        Obs::Out(e, b) => Obs::Out(f(e), *b),
        Obs::Seq(s) => Obs::Seq(s.iter().map(f).collect()),
        o => o.clone(),
    }
}

/// C09: ownership accounting over a history, optionally with an injected key fault.
pub fn ownership_case(cfg: &Config, case: &Case) -> Verdict {
    // A first run warms up anything allocated once per thread.
    let r = ownership_once(cfg, case);
    match r {
        Err(m) if m.contains("heap bytes") => ownership_once(cfg, case).map_err(|_| m),
        r => r,
    }
}
fn ownership_once(cfg: &Config, case: &Case) -> Verdict {
    val::ledger_reset();
    let _ = last_panic();
    let base = alloc::live();
    let keys0 = rank::TK_LIVE.with(|l| l.get());
    let r = ownership_inner(cfg, case);
    rank::FUSE.with(|f| f.set(0));
    let left: Vec<u64> = val::LEDGER.with(|l| {
        let l = l.borrow();
        let mut v: Vec<u64> = l.live_ids.iter().copied().collect();
        v.sort_unstable();
        v
    });
    let errs = val::LEDGER.with(|l| l.borrow().errors.clone());
    val::ledger_reset();
    let mut st = r?;
    if let Some(e) = errs.first() {
        return Err(format!("{}: {e}", cfg.name));
    }
    if !left.is_empty() {
        return Err(format!("{}: values {left:?} were never dropped", cfg.name));
    }
    let keys = rank::TK_LIVE.with(|l| l.get()) - keys0;
    if keys != 0 {
        rank::TK_LIVE.with(|l| l.set(keys0));
        return Err(format!("{}: {keys} keys left after everything is gone", cfg.name));
    }
    drop(errs);
    drop(left);
    let classes = std::mem::take(&mut st.classes);
    let names: Vec<(&'static str, u64)> = classes.into_iter().collect();
    let held = (names.capacity() * std::mem::size_of::<(&'static str, u64)>()) as i64;
    let leak = alloc::live() - base - held;
    st.classes = names.into_iter().collect();
    if leak != 0 {
        return Err(format!("{}: {leak} heap bytes not released after everything is gone", cfg.name));
    }
    Ok(st)
}
fn ownership_inner(cfg: &Config, case: &Case) -> Verdict {
    let mut st = Stats::default();
    let mut ids = Ids(0);
    let mut acts = vec![];
    let mut model = Model::new(true);
    let mut t = (cfg.make)();
    let mut log: Vec<Act> = vec![];
    let fallible = cfg.name.starts_with("tk");
    // Where the fault goes: after this many operations, at this many callbacks into key code.
    let fault = fallible && case.flavor % 3 != 0;
    let at = (case.flavor as usize / 3) % case.ops.len().max(1);
    let fuse = 1 + (case.flavor as u64 / 7) % 37;
    let mut faulted = false;
    for (turn, op) in case.ops.iter().enumerate() {
        resolve(op, case, &model, &mut ids, &mut acts);
        if op.sel.j % 5 == 0 {
            let k = key(&op.sel, case, &model);
            acts.extend([Act::FindMut(k, Some(ids.fresh())), Act::SuccMut(k, Some(ids.fresh()))]);
        }
        for a in &acts {
            let a = if faulted {
                // after a fault the contents are unspecified: keep going on ownership alone
                match (*a, t.is_some()) {
                    (Act::Insert(k, v), false) => Act::Start(k, v),
                    (_, false) => continue,
                    (a, true) => a,
                }
            } else {
                let Some(a) = adapt(*a, &model) else { continue };
                a
            };
            let arm = fault && turn >= at && !faulted;
            if arm {
                rank::FUSE.with(|f| f.set(fuse));
            }
            let got = apply(&mut *t, &a);
            if arm {
                rank::FUSE.with(|f| f.set(0));
            }
            log.push(a);
            st.acts += 1;
            let err = val::LEDGER.with(|l| l.borrow().errors.first().cloned());
            if let Some(e) = err {
                return Err(format!("{}: after {}: {e}; {}", cfg.name, show(&a), tail(&log)));
            }
            if let Obs::Panic(_, m) = &got {
                if m.contains(rank::FUSE_MSG) {
                    faulted = true;
                    st.hit("key_faults_injected");
                    if mutates(&a) {
                        st.hit("key_faults_in_changes");
                    }
                    continue;
                }
                if faulted {
                    continue;
                }
                if mutates(&a) {
                    st.abandoned = true;
                    return Ok(st);
                }
                continue;
            }
            if faulted {
                continue;
            }
            let want = model.apply(&a);
            st.max_len = st.max_len.max(model.m.len());
            // A value handed back must be the one that was stored: exactly one transfer.
            let diverged = t.is_some() == model.m.is_empty() || (mutates(&a) && got != want);
            if diverged && !mutates(&a) {
                st.hit("divergence_outside_property");
            }
            match (&a, &want) {
                (Act::Insert(..), Obs::E(Some(_))) => st.hit("values_replaced"),
                (Act::Remove(_) | Act::RemoveMin | Act::RemoveMax | Act::IntoMonad, Obs::Out(Some(_), _)) => st.hit("values_handed_over"),
                (_, Obs::E(Some(_))) if !mutates(&a) => st.hit("values_overwritten"),
                _ => {}
            }
            if let Some(m) = ledger_vs(&model, turn, log.len(), acts.len() > 1) {
                return Err(format!("{}: after {} (answer {}): {m}; {}", cfg.name, show(&a), clip(format!("{got:?}")), tail(&log)));
            }
            if t.is_some() == model.m.is_empty() {
                st.abandoned = true;
                return Ok(st);
            }
        }
    }
    st.nontrivial = st.max_len >= 3 && (st.n("values_replaced") + st.n("values_handed_over") >= 2 || st.n("key_faults_in_changes") >= 1);
    // Consuming the rest through removals, or dropping the tree as it is.
    if case.flavor & 0x100 == 0 && !faulted {
        while t.is_some() && !model.m.is_empty() {
            let a = if case.flavor & 0x200 == 0 { Act::RemoveMin } else { Act::RemoveMax };
            if matches!(apply(&mut *t, &a), Obs::Panic(..)) {
                break;
            }
            model.apply(&a);
            if let Some(m) = ledger_vs(&model, 0, 0, model.m.len() > 32) {
                return Err(format!("{}: while emptying the tree: {m}; {}", cfg.name, tail(&log)));
            }
        }
    }
    let d = guard(|| {
        t.clear();
        Obs::Unit
    });
    if let Obs::Panic(_, m) = d {
        return Err(format!("{}: dropping the tree panicked: {m}; {}", cfg.name, tail(&log)));
    }
    Ok(st)
}
fn ledger_vs(model: &Model, turn: usize, n: usize, light: bool) -> Option<String> {
    val::LEDGER.with(|l| {
        let l = l.borrow();
        if l.live.len() == model.m.len() && (light || model.m.len() > 48) && (turn + n) % 16 != 0 {
            return None;
        }
        let want: std::collections::HashSet<u64> = model.m.values().copied().collect();
        let mut lost: Vec<u64> = want.difference(&l.live_ids).copied().collect();
        let mut kept: Vec<u64> = l.live_ids.difference(&want).copied().collect();
        lost.sort_unstable();
        kept.sort_unstable();
        if lost.is_empty() && kept.is_empty() {
            return None;
        }
        Some(format!("values stored but already dropped: {lost:?}; values gone but still alive: {kept:?}"))
    })
}
