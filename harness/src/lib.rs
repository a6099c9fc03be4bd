pub mod act;
pub mod alloc;
pub mod configs;
pub mod drive;
pub mod dyntree;
pub mod gen;
pub mod histories;
pub mod rank;
pub mod run;
pub mod spy;
#[cfg(feature = "units")]
pub mod units;
pub mod val;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// All jobs of a property.
pub fn jobs(prop: &str, thorough: bool) -> Vec<drive::Job> {
    match prop {
        #[cfg(feature = "units")]
        "C07" => units::keys::jobs(thorough),
        #[cfg(feature = "units")]
        "C08" => units::colls::jobs(thorough),
        #[cfg(feature = "units")]
        "C11" => units::work::jobs(thorough),
        #[cfg(feature = "units")]
        "C15" => units::sets::jobs(thorough),
        #[cfg(feature = "units")]
        "C16" => units::lists::jobs(thorough),
        #[cfg(feature = "units")]
        "C17" => units::borrowed::jobs(thorough),
        #[cfg(feature = "units")]
        "C18" => units::small::jobs(thorough),
        p => histories::jobs(p, thorough),
    }
}
/// Re-runs one recorded case.
pub fn replay(prop: &str, unit: &str, text: &str) -> Option<run::Verdict> {
    match prop {
        #[cfg(feature = "units")]
        "C07" => units::keys::replay(unit, text),
        #[cfg(feature = "units")]
        "C08" => units::colls::replay(unit, text),
        #[cfg(feature = "units")]
        "C11" => units::work::replay(unit, text),
        #[cfg(feature = "units")]
        "C15" => units::sets::replay(unit, text),
        #[cfg(feature = "units")]
        "C16" => units::lists::replay(unit, text),
        #[cfg(feature = "units")]
        "C17" => units::borrowed::replay(text),
        #[cfg(feature = "units")]
        "C18" => units::small::replay(unit, text),
        p => histories::replay(p, unit, &gen::Case::decode(text)?),
    }
}
