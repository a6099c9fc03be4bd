//! Coverage-guided search for one property ($VEB_PROP): the first two bytes of an input choose the
//! unit, the rest are the random bits of that unit's generator. A failure is shrunk like in the
//! random search, written to $VEB_FAILURE, and the process aborts.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;
use vebcheck::drive::{self, Job};

static JOBS: OnceLock<Vec<Job>> = OnceLock::new();
static RUNS: AtomicU64 = AtomicU64::new(0);
static GOOD: AtomicU64 = AtomicU64::new(0);

fn setup() {
    vebcheck::act::install_hook();
    let prop = std::env::var("VEB_PROP").expect("VEB_PROP");
    let jobs = vebcheck::jobs(&prop, false)
        .into_iter()
        // trees of megabytes per node are left to the random search
        .filter(|j| !j.unit.ends_with(".heavy") && vebcheck::configs::by_name(&j.unit).map_or(true, |c| c.cost < 20))
        // and so are trees of tens of thousands of entries
        .filter(|j| j.salt < 90)
        .filter(|j| drive::fuzz_one(j, &[0; 64], 0).is_some())
        .collect::<Vec<_>>();
    assert!(!jobs.is_empty(), "nothing to fuzz");
    let _ = JOBS.set(jobs);
}

fuzz_target!(init: setup(), |data: &[u8]| {
    if data.len() < 8 {
        return;
    }
    let jobs = JOBS.get().expect("setup");
    let j = &jobs[u16::from_le_bytes([data[0], data[1]]) as usize % jobs.len()];
    let Some(rep) = drive::fuzz_one(j, &data[2..], 2500) else { return };
    GOOD.fetch_add(rep.distinct, Relaxed);
    let n = RUNS.fetch_add(1, Relaxed) + 1;
    if n % 256 == 0 || rep.failure.is_some() {
        if let Ok(p) = std::env::var("VEB_COUNT") {
            let _ = std::fs::write(p, format!("{n} {}", GOOD.load(Relaxed)));
        }
    }
    if rep.failure.is_some() {
        if let Ok(p) = std::env::var("VEB_FAILURE") {
            let _ = std::fs::write(p, rep.json());
        }
        std::process::abort();
    }
});
