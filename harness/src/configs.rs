//! The catalogue of tree types under test.
#![allow(dead_code, unused_imports, unused_macros)]
use crate::dyntree::{Caps, DynTree, W};
use crate::rank::{Pair, RankKey, TPair, Word, TK};
use crate::spy::{Spy, SpyA, SpyC, SpyL};
use crate::val::{Tracked, TrackedWide, Wide};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};
use veb_tree::bitset::{ByteCollectionMarker, ByteSet, ByteTreeMarker, VecDequeMarker};
use veb_tree::collection::array::{ArrayMarker, ArrayTreeCollectionMarker, GenericArrayMarker};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{SuperTreeCollection, VebTreeCollectionMarker};
use veb_tree::key::{SizedVebKey, VebKey, U2, U4};
use veb_tree::markers::*;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{SizedVebTree, VebTree};

/// The standard B-tree map as a leaf or summary of any key type.
pub struct BM;
impl<K: Ord, V> VebTreeMarker<K, V> for BM {
    type Tree = BTreeMap<K, V>;
}
/// The size-tracking wrapper used as a child or summary.
pub struct SizedMarker<T>(std::marker::PhantomData<T>);
impl<K, V, T: VebTreeMarker<K, V>> VebTreeMarker<K, V> for SizedMarker<T> {
    type Tree = SizedVebTree<T::Tree>;
}
/// Boxes a collection.
pub struct BoxedColl<C>(std::marker::PhantomData<C>);
impl<K: VebKey, V, C> VebTreeCollectionMarker<K, V> for BoxedColl<C>
where
    C: VebTreeCollectionMarker<K, V>,
    Box<C::TreeCollection>: SuperTreeCollection<K, V>,
{
    type TreeCollection = Box<C::TreeCollection>;
}

/// An array of children whose keys are of another type than the array's index.
pub struct Low<L, T>(std::marker::PhantomData<(L, T)>);
impl<K: SizedVebKey, L, V, T: VebTreeMarker<L, V>> ArrayMarker<K, V> for Low<L, T> {
    type Array = Box<[Option<T::Tree>]>;
}
pub struct LowInline<L, T>(std::marker::PhantomData<(L, T)>);
impl<K: SizedVebKey, L, V, T: VebTreeMarker<L, V>> ArrayMarker<K, V> for LowInline<L, T>
where
    K::Cardinality: generic_array::ArrayLength,
{
    type Array = generic_array::GenericArray<Option<T::Tree>, K::Cardinality>;
}

/// A hasher with only two distinct hashes.
#[derive(Clone, Copy, Default)]
pub struct Collide;
pub struct CollideHasher(u64);
impl BuildHasher for Collide {
    type Hasher = CollideHasher;
    fn build_hasher(&self) -> CollideHasher {
        CollideHasher(0)
    }
}
impl Hasher for CollideHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64) & 1;
        }
    }
}

/// A hasher that is a plain mix, deterministic across runs.
#[derive(Clone, Copy, Default)]
pub struct Fnv;
#[derive(Default)]
pub struct FnvHasher(u64);
impl BuildHasher for Fnv {
    type Hasher = FnvHasher;
    fn build_hasher(&self) -> FnvHasher {
        FnvHasher(0xcbf29ce484222325)
    }
}
impl Hasher for FnvHasher {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

/// A hasher that adds up the words of a key: reordered keys collide in all 64 bits.
#[derive(Clone, Copy, Default)]
pub struct Sum;
#[derive(Default)]
pub struct SumHasher(u64);
impl BuildHasher for Sum {
    type Hasher = SumHasher;
    fn build_hasher(&self) -> SumHasher {
        SumHasher(0)
    }
}
impl Hasher for SumHasher {
    fn finish(&self) -> u64 {
        self.0.wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = self.0.wrapping_add(u64::from_le_bytes(w));
        }
    }
}

type Arr<T> = ArrayTreeCollectionMarker<BoxMarker<T>>;
type Gen<T> = ArrayTreeCollectionMarker<GenericArrayMarker<T>>;
type Hm<T> = HashMapMarker<T>;
type Bc<T> = ByteCollectionMarker<VecDequeMarker, T>;

// 2, 4 and 8 bits
pub type T2H = TreeMarker<BM, Hm<BM>>;
pub type T4A = TreeMarker<BM, Arr<BM>>;
pub type T4G = TreeMarker<T2H, Gen<T2H>>;
pub type T4H = TreeMarker<T2H, Hm<T2H>>;
pub type T8A = TreeMarker<BM, Arr<BM>>;
pub type T8Deep = TreeMarker<T4H, Arr<T4A>>;
pub type T8G = TreeMarker<T4A, Gen<T4A>>;
pub type T8H = TreeMarker<T4A, Hm<T4H>>;
// 16 bits
pub type T16B = TreeMarker<Marker8Empty, Bc<Marker8>>;
pub type T16BE = TreeMarker<Marker8Empty, Bc<Marker8Empty>>;
pub type T16BBox = TreeMarker<BoxMarker<Marker8Empty>, Bc<BoxMarker<Marker8>>>;
pub type T16H = TreeMarker<Marker8Empty, Hm<Marker8>>;
pub type T16HE = TreeMarker<Marker8Empty, Hm<Marker8Empty>>;
pub type T16C = TreeMarker<Marker8Empty, HashMapMarker<Marker8, Collide>>;
pub type T16F = TreeMarker<Marker8Empty, HashMapMarker<BM, Fnv>>;
pub type T16G = TreeMarker<Marker8Empty, BoxedColl<Gen<Marker8>>>;
pub type T16BtH = TreeMarker<BM, Hm<BM>>;
pub type T16Deep = TreeMarker<T8H, Hm<T8Deep>>;
pub type T16Sz = TreeMarker<SizedMarker<Marker8Empty>, Hm<SizedMarker<Marker8>>>;
pub type T16BxC = TreeMarker<Marker8Empty, BoxedColl<Bc<Marker8>>>;
pub type TI16A = TreeMarker<BM, Arr<BM>>; // [i8; 2]
pub type TStr = TreeMarker<BM, Hm<BM>>; // [String; 2]
// 24 / 32 bits
pub type T24B = TreeMarker<Marker8Empty, Bc<T16B>>;
pub type T24H = TreeMarker<Marker8Empty, Hm<T16H>>;
pub type T32H = TreeMarker<T16HE, Hm<T16H>>;
pub type T32HE = TreeMarker<T16HE, Hm<T16HE>>;
pub type T32B = TreeMarker<T16BE, Hm<T16B>>;
pub type T32Mix = TreeMarker<Marker16Empty, Hm<Marker16>>;
// 40 .. 128 bits, array keys: [T;5] = (2,3), 6 = (3,3), 7 = (3,4), 8 = (4,4), 16 = (8,8)
pub type T24BE = TreeMarker<Marker8Empty, Bc<T16BE>>;
pub type T40 = TreeMarker<T16BE, Hm<T24B>>;
pub type T48 = TreeMarker<T24BE, Hm<T24B>>;
pub type T56 = TreeMarker<T24BE, Hm<T32B>>;
pub type T32BE = TreeMarker<T16BE, Hm<T16BE>>;
pub type T64H = TreeMarker<T32HE, Hm<T32H>>;
pub type T64HE = TreeMarker<T32HE, Hm<T32HE>>;
pub type T64B = TreeMarker<T32BE, HashMapMarker<T32B, Fnv>>;
pub type T64BE = TreeMarker<T32BE, HashMapMarker<T32BE, Fnv>>;
pub type T128H = TreeMarker<T64HE, Hm<T64H>>;
pub type T128B = TreeMarker<T64BE, HashMapMarker<T64B, Fnv>>;
pub type T128Bt = TreeMarker<BM, HashMapMarker<BM, Fnv>>;

pub type TSum2 = TreeMarker<BM, HashMapMarker<BM, Sum>>;
pub type TSum4 = TreeMarker<TSum2, HashMapMarker<TSum2, Sum>>;
pub type TCol64 = TreeMarker<T32HE, HashMapMarker<T32H, Collide>>;

// keys with unequal halves
type ArrL<L, T> = ArrayTreeCollectionMarker<Low<L, T>>;
type GenL<L, T> = ArrayTreeCollectionMarker<LowInline<L, T>>;
pub type P0_8 = TreeMarker<BM, GenL<u8, Marker8>>;
pub type P8_0 = TreeMarker<Marker8Empty, Bc<BM>>;
pub type P8_0A = TreeMarker<BM, ArrL<(), BM>>;
pub type P4_12 = TreeMarker<T4H, ArrL<Pair<U4, u8>, TreeMarker<T4A, GenL<u8, Marker8>>>>;
pub type P12_4 = TreeMarker<TreeMarker<T4H, Hm<Marker8Empty>>, Hm<T4A>>;
pub type Ps8 = TreeMarker<BM, HashMapMarker<Marker8, Collide>>;
pub type P16_8 = TreeMarker<T16HE, Hm<Marker8>>;
pub type P8_24 = TreeMarker<Marker8Empty, ArrL<[u8; 3], T24B>>;
pub type P24_8 = TreeMarker<T24BE, Hm<T8A>>;

// parts as a user might supply them, under watch
pub type Y16C = TreeMarker<Spy<1>, SpyC<Spy<0>, 1>>;
pub type Y16CM = TreeMarker<Spy<1>, SpyC<Marker8, 1>>;
pub type Y16L = TreeMarker<Spy<11>, ByteCollectionMarker<SpyL<11>, Spy<0>>>;
pub type Y16LM = TreeMarker<Spy<11>, ByteCollectionMarker<SpyL<11>, ByteTreeMarker<SpyL<0>>>>;
pub type Y16A = TreeMarker<Spy<0>, ArrayTreeCollectionMarker<SpyA<u8, Spy<0>>>>;
pub type YI16A = TreeMarker<Spy<0>, ArrayTreeCollectionMarker<SpyA<u8, BoxMarker<Spy<0>>>>>;
pub type Y16H = TreeMarker<Spy<0>, Hm<Spy<0>>>;
pub type Y16X = TreeMarker<BoxMarker<Spy<1>>, BoxedColl<SpyC<SizedMarker<Spy<0>>, 1>>>;
pub type Y4 = TreeMarker<Spy<1>, SpyC<Spy<0>, 1>>;
pub type Y8A = TreeMarker<Spy<0>, ArrayTreeCollectionMarker<SpyA<U4, Spy<0>>>>;
pub type Y32 = TreeMarker<Spy<2>, SpyC<Y16C, 2>>;
pub type Y32S = TreeMarker<Y16C, SpyC<TreeMarker<Spy<3>, SpyC<Spy<0>, 3>>, 0>>;
pub type Y32A = TreeMarker<Y16C, ArrayTreeCollectionMarker<SpyA<u16, Y16L>>>;
pub type Y64 = TreeMarker<Spy<4>, SpyC<Y32, 4>>;

type TKPE = TreeMarker<BM, ArrL<TK, BM>>;
type TKPB = TreeMarker<Marker8Empty, Bc<BM>>;

pub type Ty<M, K, V> = VebTreeType<K, V, M>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vk {
    Set,
    Num,
    Str,
    Tracked,
}

#[derive(Clone, Copy)]
pub struct Config {
    pub name: &'static str,
    pub bits: u32,
    pub vals: Vk,
    /// Relative cost of one case (1 = cheap).
    pub cost: u32,
    pub clone: bool,
    pub sized: bool,
    pub make: fn() -> Box<dyn DynTree>,
}

fn bits<T: VebTree>() -> u32
where
    T::Key: RankKey,
{
    <T::Key as RankKey>::BITS
}
fn sized_len<T: VebTree>(t: &SizedVebTree<T>) -> usize {
    t.len().get()
}
fn iter_len<T: VebTree>(t: &veb_tree::Iter<'_, SizedVebTree<T>>) -> usize
where
    T::Key: Clone,
{
    ExactSizeIterator::len(t)
}
fn set_len(t: &ByteSet) -> usize {
    t.len().get()
}

macro_rules! cfg {
    ($v:ident; $name:expr, $cost:expr, $vk:ident, $t:ty) => {{
        type T = $t;
        fn make() -> Box<dyn DynTree> {
            W::<T>::boxed(Caps::NONE)
        }
        $v.push(Config { name: $name, bits: bits::<T>(), vals: Vk::$vk, cost: $cost, clone: false, sized: false, make });
    }};
}
macro_rules! cfg_sized {
    ($v:ident; $name:expr, $cost:expr, $vk:ident, $t:ty) => {{
        type T = SizedVebTree<$t>;
        fn make() -> Box<dyn DynTree> {
            W::<T>::boxed(Caps { len: Some(sized_len::<$t>), iter_len: Some(iter_len::<$t>), clone: None, clone_from: None })
        }
        $v.push(Config { name: $name, bits: bits::<T>(), vals: Vk::$vk, cost: $cost, clone: false, sized: true, make });
    }};
}
macro_rules! cfg_clone {
    ($v:ident; $name:expr, $cost:expr, $vk:ident, $t:ty) => {{
        type T = $t;
        fn make() -> Box<dyn DynTree> {
            W::<T>::boxed(Caps { len: None, iter_len: None, clone: Some(<T as Clone>::clone), clone_from: Some(<T as Clone>::clone_from) })
        }
        $v.push(Config { name: $name, bits: bits::<T>(), vals: Vk::$vk, cost: $cost, clone: true, sized: false, make });
    }};
}

#[cfg(not(feature = "cat"))]
pub fn all() -> Vec<Config> {
    vec![]
}
#[cfg(not(feature = "trk"))]
pub fn tracked() -> Vec<Config> {
    vec![]
}
/// Every tree type, by name. Names are stable: replay files refer to them.
#[cfg(feature = "cat")]
pub fn all() -> Vec<Config> {
    let mut v = Vec::new();
    // ---- tiny key spaces
    cfg_clone!(v; "u2.hash.set", 1, Set, Ty<T2H, U2, ()>);
    cfg_clone!(v; "u2.hash.num", 1, Num, Ty<T2H, U2, u64>);
    cfg!(v; "u4.array.num", 1, Num, Ty<T4A, U4, u64>);
    cfg!(v; "u4.generic.num", 1, Num, Ty<T4G, U4, u64>);
    cfg_clone!(v; "u4.hash.num", 1, Num, Ty<T4H, U4, u64>);
    cfg!(v; "u2x2.generic.num", 1, Num, Ty<TreeMarker<T2H, Gen<T2H>>, [U2; 2], u64>);
    cfg_clone!(v; "u4.btree.num", 1, Num, BTreeMap<U4, u64>);
    // ---- 8 bits
    v.push(Config {
        name: "u8.byteset.set",
        bits: 8,
        vals: Vk::Set,
        cost: 1,
        clone: true,
        sized: false,
        make: || W::<ByteSet>::boxed(Caps { len: Some(set_len), iter_len: None, clone: Some(<ByteSet as Clone>::clone), clone_from: Some(<ByteSet as Clone>::clone_from) }),
    });
    cfg!(v; "u8.m8.num", 1, Num, Ty<Marker8, u8, u64>);
    cfg!(v; "u8.m8.str", 1, Str, Ty<Marker8, u8, String>);
    cfg!(v; "u8.array.num", 1, Num, Ty<T8A, u8, u64>);
    cfg!(v; "u8.deep.num", 1, Num, Ty<T8Deep, u8, u64>);
    cfg!(v; "u8.generic.num", 2, Num, Ty<T8G, u8, u64>);
    cfg!(v; "u8.hash.set", 1, Set, Ty<T8H, u8, ()>);
    cfg!(v; "i8.array.num", 1, Num, Ty<T8A, i8, u64>);
    cfg!(v; "i8.deep.set", 1, Set, Ty<T8Deep, i8, ()>);
    cfg!(v; "u4x2.array.num", 1, Num, Ty<T8A, [U4; 2], u64>);
    cfg!(v; "pair0+8.array.num", 1, Num, Ty<P0_8, Pair<(), u8>, u64>);
    cfg!(v; "pair8+0.bytes.num", 1, Num, Ty<P8_0, Pair<u8, ()>, u64>);
    cfg!(v; "pair8+0.array.num", 1, Num, Ty<P8_0A, Pair<i8, ()>, u64>);
    cfg_clone!(v; "u8.btree.num", 1, Num, BTreeMap<u8, u64>);
    cfg_sized!(v; "u8.sized-byteset.set", 1, Set, ByteSet);
    cfg_sized!(v; "u8.sized-m8.num", 1, Num, Ty<Marker8, u8, u64>);
    cfg!(v; "u8.box-m8.num", 1, Num, Box<Ty<Marker8, u8, u64>>);
    // ---- 16 bits
    cfg!(v; "u16.m16.num", 2, Num, Ty<Marker16, u16, u64>);
    cfg!(v; "u16.m16e.set", 2, Set, Ty<Marker16Empty, u16, ()>);
    cfg!(v; "i16.m16.str", 3, Str, Ty<Marker16, i16, String>);
    cfg!(v; "u16.bytes.num", 1, Num, Ty<T16B, u16, u64>);
    cfg!(v; "u16.bytes.set", 1, Set, Ty<T16BE, u16, ()>);
    cfg!(v; "i16.bytes-box.num", 1, Num, Ty<T16BBox, i16, u64>);
    cfg!(v; "u16.boxcoll-bytes.num", 1, Num, Ty<T16BxC, u16, u64>);
    cfg!(v; "u16.hash.num", 1, Num, Ty<T16H, u16, u64>);
    cfg_clone!(v; "u16.hash.set", 1, Set, Ty<T16HE, u16, ()>);
    cfg!(v; "u16.collide.num", 1, Num, Ty<T16C, u16, u64>);
    cfg_clone!(v; "u16.fnv-btree.str", 1, Str, Ty<T16F, u16, String>);
    cfg!(v; "u16.boxcoll-generic.num", 3, Num, Ty<T16G, u16, u64>);
    cfg!(v; "u16.deep.num", 2, Num, Ty<T16Deep, u16, u64>);
    cfg!(v; "u16.sizedparts.num", 1, Num, Ty<T16Sz, u16, u64>);
    cfg!(v; "u8x2.bytes.num", 1, Num, Ty<T16B, [u8; 2], u64>);
    cfg!(v; "u8x2.array.num", 2, Num, Ty<Marker16, [u8; 2], u64>);
    cfg!(v; "i8x2.array.num", 2, Num, Ty<TI16A, [i8; 2], u64>);
    cfg_clone!(v; "strx2.hash.str", 2, Str, Ty<TStr, [String; 2], String>);
    cfg_clone!(v; "strx2.sum.num", 1, Num, Ty<TSum2, [String; 2], u64>);
    cfg_clone!(v; "strx4.sum.num", 1, Num, Ty<TSum4, [String; 4], u64>);
    cfg_clone!(v; "tkx2.hash.num", 2, Num, Ty<TStr, [TK; 2], u64>);
    cfg!(v; "pair4+12.array.num", 1, Num, Ty<P4_12, Pair<U4, Pair<U4, u8>>, u64>);
    cfg!(v; "pair12+4.hash.num", 1, Num, Ty<P12_4, Pair<Pair<U4, u8>, U4>, u64>);
    cfg!(v; "pairstr+8.collide.str", 1, Str, Ty<Ps8, Pair<String, u8>, String>);
    cfg_clone!(v; "u16.btree.num", 1, Num, BTreeMap<u16, u64>);
    cfg_sized!(v; "u16.sized-m16.num", 2, Num, Ty<Marker16, u16, u64>);
    cfg_sized!(v; "u16.sized-box-hash.num", 1, Num, Box<Ty<T16H, u16, u64>>);
    cfg_sized!(v; "i16.sized-btree.num", 1, Num, BTreeMap<i16, u64>);
    cfg!(v; "u16.box-sized-bytes.num", 1, Num, Box<SizedVebTree<Ty<T16B, u16, u64>>>);
    // ---- 24 and 32 bits
    cfg!(v; "u8x3.bytes.num", 1, Num, Ty<T24B, [u8; 3], u64>);
    cfg!(v; "u8x3.hash.num", 1, Num, Ty<T24H, [u8; 3], u64>);
    cfg!(v; "pair16+8.hash.num", 1, Num, Ty<P16_8, Pair<u16, u8>, u64>);
    cfg!(v; "pair8+24.array.num", 1, Num, Ty<P8_24, Pair<u8, [u8; 3]>, u64>);
    cfg!(v; "pair24+8.hash.num", 1, Num, Ty<P24_8, Pair<[u8; 3], i8>, u64>);
    cfg!(v; "u32.m32.num", 120, Num, Ty<Marker32, u32, u64>);
    cfg!(v; "u32.m32e.set", 100, Set, Ty<Marker32Empty, u32, ()>);
    cfg!(v; "i32.m32.num", 120, Num, Ty<Marker32, i32, u64>);
    cfg!(v; "u32.hash.num", 1, Num, Ty<T32H, u32, u64>);
    cfg_clone!(v; "u32.hash.set", 1, Set, Ty<T32HE, u32, ()>);
    cfg!(v; "i32.bytes.num", 1, Num, Ty<T32B, i32, u64>);
    cfg!(v; "u32.m16parts.num", 4, Num, Ty<T32Mix, u32, u64>);
    cfg!(v; "u8x4.hash.num", 1, Num, Ty<T32B, [u8; 4], u64>);
    cfg!(v; "u16x2.hash.str", 1, Str, Ty<T32H, [u16; 2], String>);
    cfg_clone!(v; "u32.btree.num", 1, Num, BTreeMap<u32, u64>);
    cfg_sized!(v; "u32.sized-hash.num", 1, Num, Ty<T32H, u32, u64>);
    cfg!(v; "i32.box-bytes.num", 1, Num, Box<Ty<T32B, i32, u64>>);
    // ---- 40 to 56 bits
    cfg!(v; "u8x5.hash.num", 1, Num, Ty<T40, [u8; 5], u64>);
    cfg!(v; "u8x6.hash.num", 1, Num, Ty<T48, [u8; 6], u64>);
    cfg!(v; "u8x7.hash.num", 1, Num, Ty<T56, [u8; 7], u64>);
    // ---- 64 bits
    cfg!(v; "u64.m64.num", 120, Num, Ty<Marker64, u64, u64>);
    cfg!(v; "i64.m64e.set", 120, Set, Ty<Marker64Empty, i64, ()>);
    cfg!(v; "u64.hash.num", 1, Num, Ty<T64H, u64, u64>);
    cfg_clone!(v; "u64.hash.set", 1, Set, Ty<T64HE, u64, ()>);
    cfg!(v; "i64.bytes.num", 1, Num, Ty<T64B, i64, u64>);
    cfg!(v; "u8x8.bytes.num", 1, Num, Ty<T64B, [u8; 8], u64>);
    cfg!(v; "u16x4.hash.num", 1, Num, Ty<T64H, [u16; 4], u64>);
    cfg!(v; "u32x2.hash.num", 1, Num, Ty<T64H, [u32; 2], u64>);
    cfg_clone!(v; "u64.btree.num", 1, Num, BTreeMap<u64, u64>);
    cfg!(v; "u64.collide.num", 1, Num, Ty<TCol64, u64, u64>);
    cfg_sized!(v; "u64.sized-bytes.num", 1, Num, Ty<T64B, u64, u64>);
    // ---- 128 bits
    cfg!(v; "u128.hash.num", 2, Num, Ty<T128H, u128, u64>);
    cfg!(v; "i128.bytes.num", 2, Num, Ty<T128B, i128, u64>);
    cfg!(v; "u8x16.bytes.num", 2, Num, Ty<T128B, [u8; 16], u64>);
    cfg_clone!(v; "u64x2.btree.num", 1, Num, Ty<T128Bt, [u64; 2], u64>);
    cfg!(v; "i64x2.hash.num", 1, Num, Ty<T128Bt, [i64; 2], u64>);
    cfg_clone!(v; "i128.fnv-btree.str", 1, Str, Ty<T128Bt, i128, String>);
    cfg_clone!(v; "wordx4.sum.num", 1, Num, Ty<TSum4, [Word; 4], u64>);
    cfg_clone!(v; "wordx4.sum-btree.num", 1, Num, Ty<TSum2, [Word; 4], u64>);
    cfg_clone!(v; "u128.btree.num", 1, Num, BTreeMap<u128, u64>);
    // values larger than a cache line
    cfg!(v; "u8.m8.wide", 1, Num, Ty<Marker8, u8, Wide>);
    cfg!(v; "u4.generic.wide", 1, Num, Ty<T4G, U4, Wide>);
    cfg!(v; "u16.bytes.wide", 1, Num, Ty<T16B, u16, Wide>);
    cfg!(v; "u16.m16.wide", 2, Num, Ty<Marker16, u16, Wide>);
    cfg_clone!(v; "strx2.hash.wide", 2, Num, Ty<TStr, [String; 2], Wide>);
    cfg_sized!(v; "i32.sized-hash.wide", 1, Num, Ty<T32H, i32, Wide>);
    cfg_clone!(v; "u64x2.btree.wide", 1, Num, Ty<T128Bt, [u64; 2], Wide>);
    cfg!(v; "u8.spy-list.num", 1, Num, Ty<ByteTreeMarker<SpyL<21>>, u8, u64>);
    cfg!(v; "u8.spy-array.num", 1, Num, Ty<Y8A, u8, u64>);
    cfg!(v; "u4.spy-coll.set", 1, Set, Ty<Y4, U4, ()>);
    cfg!(v; "u16.spy-coll.num", 1, Num, Ty<Y16C, u16, u64>);
    cfg!(v; "i16.spy-coll-m8.str", 1, Str, Ty<Y16CM, i16, String>);
    cfg!(v; "u16.spy-list.num", 1, Num, Ty<Y16L, u16, u64>);
    cfg!(v; "u16.spy-list.set", 1, Set, Ty<Y16L, u16, ()>);
    cfg!(v; "u16.spy-lists.str", 1, Str, Ty<Y16LM, u16, String>);
    cfg!(v; "u16.spy-array.num", 1, Num, Ty<Y16A, u16, u64>);
    cfg!(v; "i16.spy-array-box.num", 1, Num, Ty<YI16A, i16, u64>);
    cfg!(v; "i16.spy-hash.num", 1, Num, Ty<Y16H, i16, u64>);
    cfg!(v; "u16.spy-boxes.num", 1, Num, Ty<Y16X, u16, u64>);
    cfg_sized!(v; "strx2.spy-sized.num", 1, Num, Ty<Y16C, [String; 2], u64>);
    cfg!(v; "u32.spy-nested.num", 1, Num, Ty<Y32, u32, u64>);
    cfg!(v; "i32.spy-summary.num", 1, Num, Ty<Y32S, i32, u64>);
    cfg!(v; "u32.spy-array.num", 1, Num, Ty<Y32A, u32, u64>);
    cfg_sized!(v; "u64.spy-deep.num", 1, Num, Ty<Y64, u64, u64>);
    v
}

/// Types with drop-tracked values (and, for tk*, tracked fallible keys).
#[cfg(feature = "trk")]
pub fn tracked() -> Vec<Config> {
    let mut v = Vec::new();
    cfg!(v; "u2.hash.trk", 1, Tracked, Ty<T2H, U2, Tracked>);
    cfg!(v; "u4.array.trk", 1, Tracked, Ty<T4A, U4, Tracked>);
    cfg!(v; "u4.generic.trk", 1, Tracked, Ty<T4G, U4, Tracked>);
    cfg!(v; "u8.m8.trk", 1, Tracked, Ty<Marker8, u8, Tracked>);
    cfg!(v; "i8.deep.trk", 1, Tracked, Ty<T8Deep, i8, Tracked>);
    cfg!(v; "u8.btree.trk", 1, Tracked, BTreeMap<u8, Tracked>);
    cfg_sized!(v; "u8.sized-m8.trk", 1, Tracked, Ty<Marker8, u8, Tracked>);
    cfg!(v; "u16.m16.trk", 3, Tracked, Ty<Marker16, u16, Tracked>);
    cfg!(v; "i16.bytes-box.trk", 1, Tracked, Ty<T16BBox, i16, Tracked>);
    cfg!(v; "u16.bytes.trk", 1, Tracked, Ty<T16B, u16, Tracked>);
    cfg!(v; "u16.collide.trk", 1, Tracked, Ty<T16C, u16, Tracked>);
    cfg!(v; "u16.boxcoll-bytes.trk", 1, Tracked, Ty<T16BxC, u16, Tracked>);
    cfg_sized!(v; "u16.sized-box-hash.trk", 1, Tracked, Box<Ty<T16H, u16, Tracked>>);
    cfg!(v; "tkx2.hash.trk", 2, Tracked, Ty<TStr, [TK; 2], Tracked>);
    cfg!(v; "tkx2.collide.trk", 2, Tracked, Ty<TreeMarker<BM, HashMapMarker<BM, Collide>>, [TK; 2], Tracked>);
    cfg!(v; "tkx2.boxcoll.trk", 2, Tracked, Ty<TreeMarker<BoxMarker<BM>, BoxedColl<Hm<BoxMarker<BM>>>>, [TK; 2], Tracked>);
    cfg!(v; "tkx3.hash.trk", 2, Tracked, Ty<TreeMarker<BM, Hm<TStr>>, [TK; 3], Tracked>);
    cfg!(v; "tkx4.hash.trk", 2, Tracked, Ty<TreeMarker<TStr, Hm<TStr>>, [TK; 4], Tracked>);
    cfg_sized!(v; "tkx4.sized.trk", 2, Tracked, Ty<TreeMarker<TStr, Hm<TStr>>, [TK; 4], Tracked>);
    cfg!(v; "tkp8.bytes.trk", 1, Tracked, Ty<TreeMarker<Marker8Empty, Bc<BM>>, TPair<u8, TK>, Tracked>);
    cfg!(v; "tkp8.array.trk", 1, Tracked, Ty<TreeMarker<Marker8Empty, ArrL<TK, BM>>, TPair<u8, TK>, Tracked>);
    cfg!(v; "tkp8.inline.trk", 1, Tracked, Ty<TreeMarker<BM, GenL<TK, BoxMarker<BM>>>, TPair<u8, TK>, Tracked>);
    cfg!(v; "tkp4.boxarray.trk", 1, Tracked, Ty<TreeMarker<T4H, BoxedColl<ArrL<TK, SizedMarker<BM>>>>, TPair<U4, TK>, Tracked>);
    cfg!(v; "tkpx2.hash-bytes.trk", 2, Tracked, Ty<TreeMarker<TKPE, Hm<TKPB>>, TPair<TPair<u8, TK>, TPair<u8, TK>>, Tracked>);
    cfg!(v; "tkp8p.bytes-array.trk", 2, Tracked, Ty<TreeMarker<Marker8Empty, Bc<TreeMarker<T4H, ArrL<TK, BM>>>>, TPair<u8, TPair<U4, TK>>, Tracked>);
    cfg!(v; "tkp8.leaf.trk", 1, Tracked, BTreeMap<TK, Tracked>);
    cfg!(v; "u8.m8.trkwide", 1, Tracked, Ty<Marker8, u8, TrackedWide>);
    cfg!(v; "u4.generic.trkwide", 1, Tracked, Ty<T4G, U4, TrackedWide>);
    cfg!(v; "u16.boxcoll-bytes.trkwide", 1, Tracked, Ty<T16BxC, u16, TrackedWide>);
    cfg_sized!(v; "u32.sized-box-hash.trkwide", 1, Tracked, Box<Ty<T32H, u32, TrackedWide>>);
    cfg!(v; "tkx2.hash.trkwide", 1, Tracked, Ty<TStr, [TK; 2], TrackedWide>);
    cfg!(v; "u8x3.bytes.trk", 1, Tracked, Ty<T24B, [u8; 3], Tracked>);
    cfg!(v; "u32.hash.trk", 1, Tracked, Ty<T32H, u32, Tracked>);
    cfg!(v; "u32.m32.trk", 150, Tracked, Ty<Marker32, u32, Tracked>);
    cfg!(v; "i64.bytes.trk", 1, Tracked, Ty<T64B, i64, Tracked>);
    cfg!(v; "u128.hash.trk", 2, Tracked, Ty<T128H, u128, Tracked>);
    v
}

/// Types whose own operations call back into fallible user key code.
pub fn faulty() -> Vec<Config> {
    tracked().into_iter().filter(|c| c.name.starts_with("tk")).collect()
}

/// Types assembled from the harness's own parts.
pub fn spies() -> Vec<Config> {
    all().into_iter().filter(|c| c.name.contains(".spy-")).collect()
}

pub fn by_name(n: &str) -> Option<Config> {
    all().into_iter().chain(tracked()).find(|c| c.name == n)
}
