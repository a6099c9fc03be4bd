//! Order-preserving numbering of key types: `from_rank` maps 0..2^BITS onto the key type in
//! ascending key order. Written without using any of the crate's own key code.
use std::cell::Cell;
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef, U2, U4};

pub trait RankKey: Sized {
    const BITS: u32;
    fn from_rank(r: u128) -> Self;
    fn rank(&self) -> u128;
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl RankKey for $t {
            const BITS: u32 = <$t>::BITS;
            fn from_rank(r: u128) -> Self { r as $t }
            fn rank(&self) -> u128 { *self as u128 }
        }
    )*};
}
uint!(u8, u16, u32, u64, u128);

macro_rules! sint {
    ($($t:ty, $u:ty);*) => {$(
        impl RankKey for $t {
            const BITS: u32 = <$t>::BITS;
            fn from_rank(r: u128) -> Self { (r as $u ^ (1 << (<$t>::BITS - 1))) as $t }
            fn rank(&self) -> u128 { (*self as $u ^ (1 << (<$t>::BITS - 1))) as u128 }
        }
    )*};
}
sint!(i8, u8; i16, u16; i32, u32; i64, u64; i128, u128);

impl RankKey for U4 {
    const BITS: u32 = 4;
    fn from_rank(r: u128) -> Self {
        U4::from((r & 15) as u8)
    }
    fn rank(&self) -> u128 {
        u8::from(*self) as u128
    }
}
impl RankKey for U2 {
    const BITS: u32 = 2;
    fn from_rank(r: u128) -> Self {
        U2::from((r & 3) as u8)
    }
    fn rank(&self) -> u128 {
        u8::from(U4::from(*self)) as u128
    }
}
impl RankKey for bool {
    const BITS: u32 = 1;
    fn from_rank(r: u128) -> Self {
        r & 1 == 1
    }
    fn rank(&self) -> u128 {
        *self as u128
    }
}

/// 256 strings of zero to seven letters, many of them prefixes of each other.
fn words() -> &'static [String] {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut v = vec!["c".to_string()];
        for len in 0..8 {
            for x in 0..1u32 << len {
                v.push((0..len).map(|i| if x >> i & 1 == 1 { 'b' } else { 'a' }).collect());
            }
        }
        v.sort();
        assert_eq!(v.len(), 256);
        v
    })
}
impl RankKey for String {
    const BITS: u32 = 8;
    fn from_rank(r: u128) -> Self {
        words()[r as u8 as usize].clone()
    }
    fn rank(&self) -> u128 {
        words().binary_search(self).expect("harness string key") as u128
    }
}

/// A 64-bit word of which 32 bits are in use, so that keys of four words fit a 128-bit number.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Word(u64);
impl RankKey for Word {
    const BITS: u32 = 32;
    fn from_rank(r: u128) -> Self {
        let r = r as u32 as u64;
        Word(r << 32 | r)
    }
    fn rank(&self) -> u128 {
        (self.0 >> 32) as u128
    }
}

impl<T: RankKey, const N: usize> RankKey for [T; N] {
    const BITS: u32 = T::BITS * N as u32;
    fn from_rank(r: u128) -> Self {
        std::array::from_fn(|i| {
            let sh = T::BITS * (N - 1 - i) as u32;
            let m = if T::BITS == 128 { u128::MAX } else { (1u128 << T::BITS) - 1 };
            T::from_rank((r >> sh) & m)
        })
    }
    fn rank(&self) -> u128 {
        let mut r = 0u128;
        for x in self {
            r = if T::BITS == 128 { 0 } else { r << T::BITS } | x.rank();
        }
        r
    }
}

impl RankKey for () {
    const BITS: u32 = 0;
    fn from_rank(_: u128) -> Self {}
    fn rank(&self) -> u128 {
        0
    }
}

/// A user's key type with halves of any two types, down to an empty half.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pair<H, L>(pub H, pub L);
impl<H: Ord + Clone, L: Ord + Clone> VebKey for Pair<H, L> {
    type Hi = H;
    type Lo = L;
    fn split_val(self) -> (H, L) {
        (self.0, self.1)
    }
    fn join(h: MaybeBorrowed<'_, H>, l: MaybeBorrowed<'_, L>) -> Self {
        Pair(h.into_or_clone(), l.into_or_clone())
    }
}
impl<H: Ord, L: Ord> VebKeyRef<H, L> for Pair<H, L> {
    fn split_ref<F, R>(&self, f: F) -> R
    where
        F: FnOnce(&H, &L) -> R,
    {
        f(&self.0, &self.1)
    }
}
impl<H: RankKey, L: RankKey> RankKey for Pair<H, L> {
    const BITS: u32 = H::BITS + L::BITS;
    fn from_rank(r: u128) -> Self {
        Pair(H::from_rank(r >> L::BITS), L::from_rank(r & ((1 << L::BITS) - 1)))
    }
    fn rank(&self) -> u128 {
        self.0.rank() << L::BITS | self.1.rank()
    }
}

/// A heap-owning byte-sized key whose clones and drops are counted, and whose
/// comparisons, clones and hashes can be made to panic at a chosen point.
#[derive(Debug)]
pub struct TK(Box<u8>);

thread_local! {
    pub static TK_LIVE: Cell<i64> = const { Cell::new(0) };
    /// Panic when this many more hooks have run (0 = never).
    pub static FUSE: Cell<u64> = const { Cell::new(0) };
    pub static HOOKS: Cell<u64> = const { Cell::new(0) };
}
pub const FUSE_MSG: &str = "injected key fault";
#[inline]
pub fn hook() {
    HOOKS.with(|h| h.set(h.get() + 1));
    FUSE.with(|f| match f.get() {
        0 => {}
        1 => {
            f.set(0);
            panic!("{}", FUSE_MSG)
        }
        n => f.set(n - 1),
    })
}
impl TK {
    pub fn new(v: u8) -> Self {
        TK_LIVE.with(|l| l.set(l.get() + 1));
        TK(Box::new(v))
    }
}
impl Drop for TK {
    fn drop(&mut self) {
        TK_LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        hook();
        TK::new(*self.0)
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        hook();
        self.0 == o.0
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        hook();
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for TK {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        hook();
        self.0.hash(h)
    }
}
impl RankKey for TK {
    const BITS: u32 = 8;
    fn from_rank(r: u128) -> Self {
        TK::new(r as u8)
    }
    fn rank(&self) -> u128 {
        *self.0 as u128
    }
}

/// A pair whose comparisons, splits and joins are callbacks that can be made to panic.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TPair<H, L>(pub H, pub L);
impl<H: Ord, L: Ord> PartialOrd for TPair<H, L> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<H: Ord, L: Ord> Ord for TPair<H, L> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        hook();
        self.0.cmp(&o.0).then_with(|| self.1.cmp(&o.1))
    }
}
impl<H: Ord + Clone, L: Ord + Clone> VebKey for TPair<H, L> {
    type Hi = H;
    type Lo = L;
    fn split_val(self) -> (H, L) {
        hook();
        (self.0, self.1)
    }
    fn join(h: MaybeBorrowed<'_, H>, l: MaybeBorrowed<'_, L>) -> Self {
        hook();
        TPair(h.into_or_clone(), l.into_or_clone())
    }
}
impl<H: Ord, L: Ord> VebKeyRef<H, L> for TPair<H, L> {
    fn split_ref<F, R>(&self, f: F) -> R
    where
        F: FnOnce(&H, &L) -> R,
    {
        hook();
        f(&self.0, &self.1)
    }
}
impl<H: RankKey, L: RankKey> RankKey for TPair<H, L> {
    const BITS: u32 = H::BITS + L::BITS;
    fn from_rank(r: u128) -> Self {
        TPair(H::from_rank(r >> L::BITS), L::from_rank(r & ((1 << L::BITS) - 1)))
    }
    fn rank(&self) -> u128 {
        self.0.rank() << L::BITS | self.1.rank()
    }
}
