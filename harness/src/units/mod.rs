//! Checks that do not need the catalogue of trees.
pub mod borrowed;
pub mod colls;
pub mod keys;
pub mod lists;
pub mod sets;
pub mod small;
pub mod work;

use crate::act::last_panic;
use crate::run::{Stats, Verdict};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs the body of a check; a panic of the code under test is a failure.
pub fn no_panic(f: impl FnOnce() -> Verdict) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}
pub fn ok(nontrivial: bool) -> Verdict {
    Ok(Stats { nontrivial, ..Stats::default() })
}
#[macro_export]
macro_rules! want {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
/// "a b c" of hexadecimal numbers after a tag.
pub fn nums(text: &str, tag: &str) -> Vec<u128> {
    text.lines()
        .find_map(|l| l.strip_prefix(tag))
        .map(|l| l.split_whitespace().filter_map(|x| u128::from_str_radix(x, 16).ok()).collect())
        .unwrap_or_default()
}
