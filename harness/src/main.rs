//! vebcheck run PROP TIER SEED TAG OUT.json [TRACE_DIR]
//! vebcheck replay FILE
use vebcheck::drive;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    vebcheck::act::install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (prop, thorough, seed) = (&a[2], a[3] == "thorough", a[4].parse().expect("seed"));
            let threads = std::env::var("VEB_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
            let mut jobs = vebcheck::jobs(prop, thorough);
            if let Ok(only) = std::env::var("VEB_ONLY") {
                jobs.retain(|j| j.unit.contains(&only)); // debugging
            }
            let rep = drive::run_jobs(jobs, seed, &format!("{prop}/{}", a[5]), threads, 2500, a.get(7).map(|s| s.as_str()), &|rep| {
                let found = rep.failure.is_some();
                std::fs::write(&a[6], rep.json()).expect("write report");
                std::process::exit(if found { 0 } else { drive::STUCK });
            });
            if std::env::var_os("VEB_SLOW").is_some() {
                eprintln!("slowest case: {} ms", drive::SLOW.load(std::sync::atomic::Ordering::Relaxed));
            }
            #[cfg(feature = "units")]
            if std::env::var_os("VEB_WORK_DEBUG").is_some() {
                eprint!("{}", vebcheck::units::work::seen());
            }
            std::fs::write(&a[6], rep.json()).expect("write report");
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let field = |n: &str| text.lines().find_map(|l| l.strip_prefix(n)).map(|s| s.trim().to_string());
            let (p, u) = (field("property ").expect("property"), field("unit ").expect("unit"));
            match vebcheck::replay(&p, &u, &text) {
                None => {
                    println!("cannot decode {}", a[2]);
                    std::process::exit(2)
                }
                Some(Ok(_)) => println!("replay: property {p} holds on this case"),
                Some(Err(m)) => {
                    println!("replay: property {p} fails: {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: vebcheck run PROP TIER SEED TAG OUT [TRACE] | replay FILE");
            std::process::exit(2)
        }
    }
}
