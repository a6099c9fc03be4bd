//! Jobs of the history properties (C01–C06, C09, C10, C12–C14, C19).
use crate::configs::{self, Config};
use crate::drive::{Job, Sink};
use crate::gen::*;
use crate::run::*;

//                    ins rem rmi rma mon irun rrun dmi dma wr it fork pick
const W_MAP: Weights = [40, 28, 4, 4, 2, 5, 3, 1, 1, 1, 0, 0, 0];
const W_EXT: Weights = [40, 16, 14, 14, 1, 4, 2, 3, 3, 1, 0, 0, 0];
const W_NBR: Weights = [40, 26, 4, 4, 1, 5, 3, 1, 1, 0, 0, 0, 0];
const W_MUT: Weights = [36, 18, 4, 4, 1, 4, 2, 1, 1, 30, 0, 0, 0];
const W_ITER: Weights = [40, 22, 4, 4, 1, 6, 3, 1, 1, 1, 14, 0, 0];
const W_SIZE: Weights = [38, 28, 6, 6, 10, 5, 3, 2, 2, 1, 0, 0, 0];
const W_OWN: Weights = [40, 26, 6, 6, 4, 4, 3, 1, 1, 10, 2, 0, 0];
const W_ALL: Weights = [40, 26, 5, 5, 3, 5, 3, 1, 1, 4, 2, 0, 0];
const W_CLONE: Weights = [36, 22, 4, 4, 2, 4, 2, 1, 1, 10, 0, 12, 12];
const W_DECL: Weights = [36, 40, 3, 3, 14, 4, 4, 1, 1, 4, 0, 0, 0];
const W_HIST: Weights = [40, 26, 4, 4, 2, 5, 3, 1, 1, 4, 0, 5, 0];

pub fn focus(prop: &str) -> Option<(Focus, Weights)> {
    Some(match prop {
        "C01" => (Focus::Map, W_MAP),
        "C02" => (Focus::Extremes, W_EXT),
        "C03" => (Focus::Neighbours, W_NBR),
        "C04" => (Focus::Mutable, W_MUT),
        "C05" => (Focus::Iteration, W_ITER),
        "C06" => (Focus::Sizes, W_SIZE),
        "C19" => (Focus::Parts, W_ALL),
        _ => return None,
    })
}

/// Runs one encoded case again.
pub fn replay(prop: &str, unit: &str, case: &Case) -> Option<Verdict> {
    if prop == "C10" {
        let g = group(unit)?;
        return Some(assemblies_case(&g, case));
    }
    let c = configs::by_name(unit)?;
    Some(one(prop, &c, case))
}
pub fn one(prop: &str, c: &Config, case: &Case) -> Verdict {
    match prop {
        "C09" => ownership_case(c, case),
        "C12" => clone_case(c, case),
        "C13" => decline_case(c, case),
        "C14" => history_case(c, case),
        p => model_case(focus(p).expect("history property").0, c, case),
    }
}

/// Assemblies with the same key order. `heavy` adds the ones with megabyte-sized arrays.
pub fn group(unit: &str) -> Option<Vec<Config>> {
    let (b, heavy) = unit.strip_prefix("bits")?.split_once('.')?;
    let bits: u32 = b.parse().ok()?;
    let mut v: Vec<Config> = configs::all().into_iter().filter(|c| c.bits == bits && (c.cost < 20 || heavy == "heavy")).collect();
    // the standard map, where there is one, is the reference
    v.sort_by_key(|c| !c.name.contains(".btree."));
    Some(v)
}

pub fn jobs(prop: &str, thorough: bool) -> Vec<Job> {
    let scale: u32 = if thorough { 30 } else { 1 };
    let mut jobs = vec![];
    if prop == "C10" {
        for bits in [2u32, 4, 8, 16, 24, 32, 64, 128] {
            for heavy in [false, true] {
                let unit = format!("bits{bits}.{}", if heavy { "heavy" } else { "light" });
                let g = group(&unit).unwrap();
                if heavy && !g.iter().any(|c| c.cost >= 20) {
                    continue;
                }
                let total = match (bits, heavy) {
                    (_, true) => 24,
                    (2 | 4, _) => 4000,
                    _ => 4500,
                } * scale;
                let chunks = if heavy { 4 } else { 12 } * if thorough { 4 } else { 1 };
                for c in 0..chunks {
                    let g = g.clone();
                    let (n, ch) = (total / chunks, c);
                    jobs.push(Job::new(unit.clone(), ch as u64, if heavy { 100 } else { 10 } * n as u64, move |s: &mut Sink| {
                        let sh = Shape { bits, weights: W_ALL, max_ops: if heavy { 30 } else { 100 }, max_run: if heavy { 30 } else { 300 } };
                        s.search(n, case_strategy(sh), |c| c.encode(), |c| assemblies_case(&g, c));
                    }));
                }
            }
        }
        return jobs;
    }
    let (cfgs, w, base, max_ops): (Vec<Config>, Weights, u32, usize) = match prop {
        "C09" => (configs::tracked(), W_OWN, 9_000, 140),
        "C12" => (configs::all().into_iter().filter(|c| c.clone).collect(), W_CLONE, 5_000, 140),
        "C13" => (configs::all(), W_DECL, 1_200, 100),
        "C14" => (configs::all(), W_HIST, 2_000, 100),
        "C04" => (configs::all().into_iter().filter(|c| c.vals != configs::Vk::Set).collect(), W_MUT, 2_000, 140),
        "C01" => (configs::all(), W_MAP, 4_000, 160),
        "C02" => (configs::all(), W_EXT, 7_000, 160),
        "C03" => (configs::all(), W_NBR, 1_300, 160),
        "C05" => (configs::all(), W_ITER, 1_800, 160),
        "C06" => (configs::all(), W_SIZE, 4_500, 160),
        "C19" => (configs::spies(), W_ALL, 8_000, 140),
        _ => unreachable!("history property"),
    };
    let prop: &'static str = Box::leak(prop.to_string().into_boxed_str());
    for c in cfgs {
        // array-backed 32- and 64-bit trees allocate megabytes per node
        let heavy = c.cost >= 20;
        let base = if prop == "C09" && c.name.starts_with("tk") { base * 3 } else { base };
        let total = if heavy { 16 } else { base / c.cost.max(1).min(3) } * scale;
        let chunks = if thorough { 8 } else { 2 };
        for ch in 0..chunks {
            let n = (total / chunks).max(1);
            jobs.push(Job::new(c.name, ch as u64, (n * c.cost) as u64, move |s: &mut Sink| {
                let tiny = c.bits <= 4;
                let sh = Shape {
                    bits: c.bits,
                    weights: w,
                    max_ops: if heavy { 40 } else if tiny { max_ops / 2 } else { max_ops },
                    max_run: if heavy { 24 } else { 300 },
                };
                s.search(n, case_strategy(sh), |c| c.encode(), |k| one(prop, &c, k));
            }));
        }
        // a table of colliding keys is a list, and so are the harness's own parts
        let slow = heavy || c.name.contains("collide") || c.name.contains(".spy-");
        if focus(prop).is_some() && c.bits >= 16 && !slow {
            // trees of tens of thousands of entries
            let (n, writes) = (if thorough { 12 } else { 1 }, prop == "C04");
            jobs.push(Job::new(c.name, 98, 4000 * c.cost as u64, move |s: &mut Sink| {
                s.max_shrink = s.max_shrink.min(40);
                s.search(n, large_strategy(c.bits, writes), |c| c.encode(), |k| one(prop, &c, k));
            }));
        }
        if thorough && c.bits == 16 && !heavy {
            // a few trees that hold a good part of the key space
            jobs.push(Job::new(c.name, 99, 1000 * c.cost as u64, move |s: &mut Sink| {
                let sh = Shape { bits: 16, weights: w, max_ops: 8, max_run: 16383 };
                s.search(12, case_strategy(sh), |c| c.encode(), |k| one(prop, &c, k));
            }));
        }
    }
    jobs
}
