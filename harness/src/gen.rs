//! Histories: symbolic operation sequences, their generators, and their text form.
use proptest::collection::vec;
use proptest::prelude::*;
use std::fmt::Write as _;

/// How an operation picks its key: resolved against the model at execution time.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sel {
    pub kind: u8,
    pub i: u16,
    pub j: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub code: u8,
    pub sel: Sel,
    pub n: u16,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Case {
    pub bits: u32,
    pub pool: Vec<u128>,
    pub ops: Vec<Op>,
    /// How the tree is emptied at the end, and similar secondary choices.
    pub flavor: u16,
}

pub const OPS: [&str; 13] = [
    "ins", "rem", "rmin", "rmax", "monad", "insrun", "remrun", "dmin", "dmax", "write", "iter", "fork", "pick",
];
pub const INS: u8 = 0;
pub const REM: u8 = 1;
pub const RMIN: u8 = 2;
pub const RMAX: u8 = 3;
pub const MONAD: u8 = 4;
pub const INSRUN: u8 = 5;
pub const REMRUN: u8 = 6;
pub const DMIN: u8 = 7;
pub const DMAX: u8 = 8;
pub const WRITE: u8 = 9;
pub const ITER: u8 = 10;
pub const FORK: u8 = 11;
pub const PICK: u8 = 12;

/// Relative frequency of each operation, in the order of `OPS`.
pub type Weights = [u16; 13];
pub const BASIC: Weights = [40, 26, 6, 6, 2, 4, 2, 2, 2, 2, 2, 0, 0];

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1 << bits) - 1
    }
}

const EDGE: [u8; 16] = [0, 255, 1, 254, 128, 127, 2, 64, 63, 129, 15, 16, 240, 31, 200, 100];

fn key_of(bits: u32, mode: u8, raw: u128, fix: u128) -> u128 {
    let m = mask(bits);
    let half = bits / 2;
    let lo_m = mask(half);
    let edge = |r: u128, width: usize| {
        let mut k = 0u128;
        for b in r.to_le_bytes() {
            k = (k << 8) | EDGE[(b as usize) % width] as u128;
        }
        k
    };
    let k = match mode {
        0..=1 => raw,
        2..=4 => edge(raw, 16),
        5 => edge(raw, 4),
        6 => raw & 0x1ff,
        7 => m.wrapping_sub(raw & 0x1ff),
        // shared high half, random or edge low half
        8 => (fix & !lo_m) | (raw & lo_m),
        9 => (fix & !lo_m) | (edge(raw, 8) & lo_m),
        // random high half, shared low half
        10 => (raw & !lo_m) | (fix & lo_m),
        11 => (edge(raw, 8) & !lo_m) | (fix & lo_m),
        // both halves alike
        14..=15 if raw >> 12 & 3 == 0 => {
            let h = lo_m & if mode == 15 { edge(raw >> 64, 8) } else if raw >> 14 & 1 == 0 { fix } else { fix >> half };
            h << half | h
        }
        // the same quarters in another order, or with the same change in two of them
        14..=15 => {
            let q = bits / 4;
            let get = |i: u128| if q == 0 { 0 } else { (fix >> (q * (i & 3) as u32)) & mask(q) };
            let x = if mode == 15 { edge(raw >> 64, 8) & mask(q) } else { 0 };
            let (a, b) = (raw >> 8 & 3, raw >> 10 & 3);
            (0..4u128).fold(0, |k, i| {
                let src = if i == a { b } else if i == b { a } else { i };
                let w = get(src) ^ if i == a || i == b { x } else { 0 };
                (k << q) | w
            })
        }
        // around a power of two
        _ => {
            let p = 1u128 << ((raw >> 8) as u32 % bits.max(1));
            match raw & 3 {
                0 => p,
                1 => p.wrapping_sub(1),
                2 => p.wrapping_add(1),
                _ => m - (p & m),
            }
        }
    };
    k & m
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub bits: u32,
    pub weights: Weights,
    /// Upper bound for the operation count of the largest class.
    pub max_ops: usize,
    /// Upper bound for run lengths.
    pub max_run: u16,
}

fn op_strategy(w: Weights, max_run: u16) -> impl Strategy<Value = Op> {
    let total: u32 = w.iter().map(|x| *x as u32).sum();
    (0..total, 0u8..32, any::<u16>(), any::<u16>(), any::<u16>()).prop_map(move |(mut p, kind, i, j, n)| {
        let mut code = 0;
        for (c, x) in w.iter().enumerate() {
            if p < *x as u32 {
                code = c as u8;
                break;
            }
            p -= *x as u32;
        }
        let n = match code {
            // mostly short runs, sometimes long ones
            INSRUN | REMRUN | DMIN | DMAX => {
                let cap = [6, 20, 70, max_run][(n % 4) as usize].min(max_run);
                1 + (n / 4) % cap
            }
            _ => n,
        };
        Op { code, sel: Sel { kind, i, j }, n }
    })
}

pub fn case_strategy(sh: Shape) -> impl Strategy<Value = Case> {
    let bits = sh.bits;
    let ops = move |r: std::ops::Range<usize>| vec(op_strategy(sh.weights, sh.max_run), r);
    let big = sh.max_ops.max(3);
    let (s, m) = ((big / 8).max(2), (big / 3).max(3));
    let ops = prop_oneof![3 => ops(1..s.max(8)), 4 => ops(1..m), 2 => ops(1..big)];
    (vec((0u8..16, any::<u128>()), 1..20), any::<u128>(), ops, any::<u16>()).prop_map(move |(pool, fix, ops, flavor)| Case {
        bits,
        pool: pool.into_iter().map(|(m, r)| key_of(bits, m, r, fix)).collect(),
        ops,
        flavor,
    })
}

/// Insertion runs longer than this make a history a large one (see `Ctx::large`).
pub const LARGE: u16 = 16_500;
/// Few long runs: trees of tens of thousands of entries.
pub fn large_strategy(bits: u32, writes: bool) -> impl Strategy<Value = Case> {
    let run = (0u8..32, any::<u16>(), any::<u16>(), 0usize..20).prop_map(move |(kind, i, j, c)| {
        let (code, n) = match c {
            0..=4 => (INSRUN, 65_535),
            5 => (INSRUN, 33_000),
            6 => (INSRUN, 300),
            7 => (REMRUN, 300),
            8 => (REMRUN, 40_000),
            9 => (DMIN, 30_000),
            10 => (DMAX, 30_000),
            11 => (DMIN, 65_300),
            12 => (DMAX, 65_300),
            13 => (INS, i),
            14 | 15 => (REM, i),
            16 if writes => (WRITE, i ^ j),
            _ => (RMIN, i),
        };
        Op { code, sel: Sel { kind, i, j }, n }
    });
    let first = (0u8..32, any::<u16>(), 0u16..64, 0usize..8).prop_map(move |(kind, i, j, c)| Op {
        code: INSRUN,
        // mostly neighbouring keys, which fill small key types, or one key per high half, which fills the top level
        sel: Sel { kind, i, j: if c < 4 { j & !7 } else if c < 6 { j & !7 | 3 } else { j } },
        n: 65_535,
    });
    (vec((0u8..16, any::<u128>()), 1..6), any::<u128>(), first, vec(run, 1..6), any::<u16>()).prop_map(move |(pool, fix, first, ops, flavor)| Case {
        bits,
        pool: pool.into_iter().map(|(m, r)| key_of(bits, m, r, fix)).collect(),
        ops: std::iter::once(first).chain(ops).collect(),
        flavor,
    })
}

impl Case {
    pub fn encode(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "bits {}\nflavor {}\npool", self.bits, self.flavor);
        for k in &self.pool {
            let _ = write!(s, " {k:x}");
        }
        s.push('\n');
        for o in &self.ops {
            let _ = writeln!(s, "op {} {} {} {} {}", OPS[o.code as usize], o.sel.kind, o.sel.i, o.sel.j, o.n);
        }
        s
    }
    pub fn decode(text: &str) -> Option<Case> {
        let mut c = Case { bits: 0, pool: vec![], ops: vec![], flavor: 0 };
        for l in text.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("bits") => c.bits = w.next()?.parse().ok()?,
                Some("flavor") => c.flavor = w.next()?.parse().ok()?,
                Some("pool") => {
                    for k in w {
                        c.pool.push(u128::from_str_radix(k, 16).ok()?);
                    }
                }
                Some("op") => {
                    let n = w.next()?;
                    let code = OPS.iter().position(|x| *x == n)? as u8;
                    let kind = w.next()?.parse().ok()?;
                    let i = w.next()?.parse().ok()?;
                    let j = w.next()?.parse().ok()?;
                    let n = w.next()?.parse().ok()?;
                    c.ops.push(Op { code, sel: Sel { kind, i, j }, n });
                }
                _ => {}
            }
        }
        if c.bits == 0 || c.pool.is_empty() {
            return None;
        }
        Some(c)
    }
}
