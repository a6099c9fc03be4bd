//! Value types stored in the trees under test.
use std::cell::RefCell;
use std::collections::HashSet;

pub trait Val: Sized + 'static {
    /// Does the value carry an identity (false for sets)?
    const HAS: bool;
    const TRACKED: bool = false;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
}
impl Val for () {
    const HAS: bool = false;
    fn mk(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}
impl Val for u64 {
    const HAS: bool = true;
    fn mk(id: u64) -> u64 {
        id
    }
    fn id(&self) -> u64 {
        *self
    }
}
/// Owns heap memory; clones deeply.
impl Val for String {
    const HAS: bool = true;
    fn mk(id: u64) -> String {
        id.to_string()
    }
    fn id(&self) -> u64 {
        self.parse().expect("harness string value")
    }
}

/// A value much larger than its key, every part of which depends on its identity.
#[derive(Clone)]
pub struct Wide([u64; 37]);
impl Val for Wide {
    const HAS: bool = true;
    fn mk(id: u64) -> Wide {
        let mut w = [0; 37];
        for (i, x) in w.iter_mut().enumerate() {
            *x = id ^ (i as u64) << 40;
        }
        Wide(w)
    }
    fn id(&self) -> u64 {
        let id = self.0[0];
        if self.0.iter().enumerate().all(|(i, x)| *x == id ^ (i as u64) << 40) {
            id
        } else {
            u64::MAX
        }
    }
}

/// A value whose creation and destruction is recorded in a per-thread ledger.
pub struct Tracked {
    id: u64,
    serial: u64,
    _heap: Box<u64>,
}
#[derive(Default)]
pub struct Ledger {
    next: u64,
    pub live: HashSet<u64>,
    pub live_ids: HashSet<u64>,
    pub errors: Vec<String>,
}
thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}
pub fn ledger_reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}
impl Val for Tracked {
    const HAS: bool = true;
    const TRACKED: bool = true;
    fn mk(id: u64) -> Self {
        let serial = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            let s = l.next;
            l.live.insert(s);
            if !l.live_ids.insert(id) {
                l.errors.push(format!("harness: id {id} created twice"));
            }
            s
        });
        Tracked { id, serial, _heap: Box::new(id) }
    }
    fn id(&self) -> u64 {
        self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if !l.live.remove(&self.serial) {
                let id = self.id;
                l.errors.push(format!("value {id} dropped twice"));
            }
            l.live_ids.remove(&self.id);
        })
    }
}

/// The same in a large value.
pub struct TrackedWide(Tracked, [u64; 40]);
impl Val for TrackedWide {
    const HAS: bool = true;
    const TRACKED: bool = true;
    fn mk(id: u64) -> Self {
        TrackedWide(Tracked::mk(id), [id; 40])
    }
    fn id(&self) -> u64 {
        if self.1.iter().all(|x| *x == self.0.id) {
            self.0.id
        } else {
            u64::MAX
        }
    }
}
