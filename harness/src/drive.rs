//! Runs jobs (units of generated cases) over threads, shrinks the first failure, reports.
use crate::act::last_panic;
use crate::run::{Stats, Verdict};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config as PtConfig, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Failure {
    pub unit: String,
    pub case: String,
    pub message: String,
    /// Not a property failure but a defect of the harness.
    pub harness: bool,
}

pub struct Sink<'a> {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(String, String)>,
    pub failure: Option<Failure>,
    pub max_shrink: u32,
    pub unit: String,
    seed: [u8; 32],
    stop: &'a AtomicBool,
    trace: Option<std::path::PathBuf>,
    /// Fuzzing: the generator's random bits, for one case.
    bytes: Option<Vec<u8>>,
    watch: &'a Watch,
}

/// What the watchdog knows of one thread.
struct Watch {
    t0: Instant,
    /// When the running case started, in milliseconds since the start of the run, plus one.
    since: AtomicU64,
    /// Unit and text of the running case.
    case: Mutex<(String, String)>,
    /// The smallest failing case so far.
    best: Mutex<Option<Failure>>,
    stuck: AtomicBool,
}
impl Watch {
    fn new(t0: Instant) -> Watch {
        Watch { t0, since: AtomicU64::new(0), case: Mutex::default(), best: Mutex::new(None), stuck: AtomicBool::new(false) }
    }
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }
    fn begin(&self, unit: &str, text: String) {
        let mut c = self.case.lock().unwrap();
        if c.0 != unit {
            c.0 = unit.to_string();
        }
        c.1 = text;
        self.since.store(self.now(), Ordering::Relaxed);
    }
    fn end(&self) {
        SLOW.fetch_max(self.now() - self.since.swap(0, Ordering::Relaxed), Ordering::Relaxed);
    }
}

/// A case that takes longer than this does not terminate, as far as we can tell.
pub const CASE_LIMIT_MS: u64 = 60_000;
/// Exit status of a run that was stuck in one case.
pub const STUCK: i32 = 77;

fn h64(x: &str, salt: u64) -> u64 {
    // FNV-1a with a final mix: stable across runs and toolchains
    let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9e3779b97f4a7c15);
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

impl Sink<'_> {
    fn rng(&self) -> TestRunner {
        let rng = match &self.bytes {
            Some(b) => TestRng::from_seed(RngAlgorithm::PassThrough, b),
            None => TestRng::from_seed(RngAlgorithm::ChaCha, &self.seed),
        };
        TestRunner::new_with_rng(PtConfig { failure_persistence: None, ..PtConfig::default() }, rng)
    }
    pub fn absorb(&mut self, st: &Stats, text: impl FnOnce() -> String) {
        self.evaluations += 1;
        for (k, v) in &st.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        *self.classes.entry("changes").or_insert(0) += st.acts;
        *self.classes.entry("queries_compared").or_insert(0) += st.queries;
        if st.abandoned {
            *self.classes.entry("cases_abandoned").or_insert(0) += 1;
        }
        if st.max_len > 0 {
            let c = match st.max_len {
                0..=2 => "cases_with_1_2_entries",
                3..=16 => "cases_with_3_16_entries",
                17..=100 => "cases_with_17_100_entries",
                101..=256 => "cases_with_101_256_entries",
                _ => "cases_with_over_256_entries",
            };
            *self.classes.entry(c).or_insert(0) += 1;
        }
        if st.nontrivial {
            let t = text();
            self.nontrivial.insert(h64(&t, h64(&self.unit, 1)));
            if self.samples.is_empty() {
                let mut t = t;
                if t.len() > 700 {
                    t.truncate(700);
                    t.push('…');
                }
                self.samples.push((self.unit.clone(), t));
            }
        }
    }
    /// Checks `cases` generated values; stops at (and shrinks) the first failure.
    pub fn search<S: Strategy>(&mut self, cases: u32, strat: S, text: impl Fn(&S::Value) -> String, exec: impl Fn(&S::Value) -> Verdict) {
        let mut rng = self.rng();
        let unit = self.unit.clone();
        let trace = self.trace.clone();
        let watch = self.watch;
        let run = |v: &S::Value| -> Result<Verdict, String> {
            if let Some(p) = &trace {
                let _ = std::fs::write(p, format!("unit {unit}\n{}", text(v)));
            }
            watch.begin(&unit, text(v));
            let r = catch_unwind(AssertUnwindSafe(|| exec(v))).map_err(|_| last_panic());
            watch.end();
            r
        };
        let cases = if self.bytes.is_some() { 1 } else { cases };
        for _ in 0..cases {
            if self.stop.load(Ordering::Relaxed) {
                return;
            }
            let mut tree = strat.new_tree(&mut rng).expect("generator");
            let v = tree.current();
            match run(&v) {
                Ok(Ok(st)) => self.absorb(&st, || text(&v)),
                Err(m) => {
                    self.failure = Some(Failure { unit: unit.clone(), case: text(&v), message: format!("harness panic: {m}"), harness: true });
                    return;
                }
                Ok(Err(m)) => {
                    self.evaluations += 1;
                    let mut best = (text(&v), m);
                    let note = |b: &(String, String)| {
                        *watch.best.lock().unwrap() = Some(Failure { unit: unit.clone(), case: b.0.clone(), message: b.1.clone(), harness: false })
                    };
                    note(&best);
                    let mut left = self.max_shrink;
                    if tree.simplify() {
                        while left > 0 {
                            left -= 1;
                            let v = tree.current();
                            match run(&v) {
                                Ok(Err(m)) => {
                                    best = (text(&v), m);
                                    note(&best);
                                    if !tree.simplify() {
                                        break;
                                    }
                                }
                                _ => {
                                    if !tree.complicate() {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    self.failure = Some(Failure { unit: unit.clone(), case: best.0, message: best.1, harness: false });
                    return;
                }
            }
        }
    }
    /// Checks one explicitly enumerated case.
    pub fn check(&mut self, text: impl Fn() -> String, exec: impl FnOnce() -> Verdict) {
        if self.failure.is_some() || self.bytes.is_some() {
            return;
        }
        if let Some(p) = &self.trace {
            let _ = std::fs::write(p, format!("unit {}\n{}", self.unit, text()));
        }
        self.watch.begin(&self.unit, text());
        let r = catch_unwind(AssertUnwindSafe(exec));
        self.watch.end();
        match r {
            Ok(Ok(st)) => self.absorb(&st, text),
            Ok(Err(m)) => {
                self.evaluations += 1;
                self.failure = Some(Failure { unit: self.unit.clone(), case: text(), message: m, harness: false })
            }
            Err(_) => {
                self.failure =
                    Some(Failure { unit: self.unit.clone(), case: text(), message: format!("harness panic: {}", last_panic()), harness: true })
            }
        }
    }
}

pub struct Job {
    pub unit: String,
    pub salt: u64,
    pub weight: u64,
    pub body: Box<dyn Fn(&mut Sink) + Send + Sync>,
}
impl Job {
    pub fn new(unit: impl Into<String>, salt: u64, weight: u64, body: impl Fn(&mut Sink) + Send + Sync + 'static) -> Job {
        Job { unit: unit.into(), salt, weight, body: Box::new(body) }
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(String, String)>,
    pub failure: Option<Failure>,
    /// Unit and text of a case that did not end.
    pub stuck: Option<(String, String)>,
    pub units: u64,
    pub jobs: u64,
}

/// The longest any case has taken, in milliseconds.
pub static SLOW: AtomicU64 = AtomicU64::new(0);

struct Dec<'a>(&'a AtomicUsize);
impl Drop for Dec<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }
}

/// When no case can go on any more, `stuck` is called with what there is; it must end the process.
pub fn run_jobs(mut jobs: Vec<Job>, seed: u64, tag: &str, threads: usize, max_shrink: u32, trace: Option<&str>, stuck: &(dyn Fn(Report) + Sync)) -> Report {
    jobs.sort_by_key(|j| std::cmp::Reverse(j.weight));
    let units: HashSet<&str> = jobs.iter().map(|j| j.unit.as_str()).collect();
    let mut rep = Report { units: units.len() as u64, jobs: jobs.len() as u64, ..Report::default() };
    let (units_n, jobs_n) = (rep.units, rep.jobs);
    drop(units);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Vec::new());
    let t0 = Instant::now();
    let watches: Vec<Watch> = (0..threads).map(|_| Watch::new(t0)).collect();
    let live = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        let (watches, live) = (&watches, &live);
        s.spawn(move || {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let mut n = 0;
                for w in watches {
                    let since = w.since.load(Ordering::Relaxed);
                    let over = since > 0 && w.now() > since + CASE_LIMIT_MS;
                    w.stuck.store(over, Ordering::Relaxed);
                    n += over as usize;
                }
                // the other threads finish their search first
                if n > 0 && n >= live.load(Ordering::Relaxed) {
                    let mut rep = Report { units: units_n, jobs: jobs_n, ..Report::default() };
                    rep.failure = watches.iter().find_map(|w| w.best.lock().unwrap().clone());
                    rep.stuck = watches.iter().find(|w| w.stuck.load(Ordering::Relaxed)).map(|w| w.case.lock().unwrap().clone());
                    stuck(rep);
                    std::process::exit(STUCK);
                }
            }
        });
        for th in 0..threads {
            let (jobs, next, stop, out) = (&jobs, &next, &stop, &out);
            let trace = trace.map(|t| std::path::Path::new(t).join(format!("t{th}")));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let _live = Dec(live);
                    loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let j = &jobs[i];
                    let mut sd = [0u8; 32];
                    for (x, c) in sd.chunks_mut(8).enumerate() {
                        c.copy_from_slice(&h64(&format!("{seed}/{tag}/{}/{}/{x}", j.unit, j.salt), x as u64).to_le_bytes());
                    }
                    let mut sink = Sink {
                        evaluations: 0,
                        nontrivial: HashSet::new(),
                        classes: BTreeMap::new(),
                        samples: vec![],
                        failure: None,
                        max_shrink,
                        unit: j.unit.clone(),
                        seed: sd,
                        stop,
                        trace: trace.clone(),
                        bytes: None,
                        watch: &watches[th],
                    };
                    (j.body)(&mut sink);
                    if sink.failure.is_some() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    out.lock().unwrap().push((i, sink.evaluations, sink.nontrivial, sink.classes, sink.samples, sink.failure));
                    }
                })
                .unwrap();
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|x| x.0);
    let mut all = HashSet::new();
    let mut seen_units = HashSet::new();
    for (_, e, n, c, s, f) in out {
        rep.evaluations += e;
        all.extend(n);
        for (k, v) in c {
            *rep.classes.entry(k).or_insert(0) += v;
        }
        for (u, t) in s {
            if rep.samples.len() < 6 && seen_units.insert(u.clone()) {
                rep.samples.push((u, t));
            }
        }
        if let Some(f) = f {
            if rep.failure.as_ref().map_or(true, |g| g.harness && !f.harness) {
                rep.failure = Some(f);
            }
        }
    }
    rep.distinct = all.len() as u64;
    rep
}

/// One case of a job, generated from fuzzer bytes: `None` if the job generates nothing.
pub fn fuzz_one(job: &Job, data: &[u8], max_shrink: u32) -> Option<Report> {
    // the generators reject some words, so the bits must not run out
    static TAIL: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let tail = TAIL.get_or_init(|| (0..32_768u64).flat_map(|i| h64("tail", i).to_le_bytes()).collect());
    let bytes = [data, tail].concat();
    let stop = AtomicBool::new(false);
    let watch = Watch::new(Instant::now());
    let mut sink = Sink {
        evaluations: 0,
        nontrivial: HashSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
        failure: None,
        max_shrink,
        unit: job.unit.clone(),
        seed: [0; 32],
        stop: &stop,
        trace: None,
        bytes: Some(bytes),
        watch: &watch,
    };
    (job.body)(&mut sink);
    if sink.evaluations == 0 && sink.failure.is_none() {
        return None;
    }
    Some(Report { evaluations: 1, distinct: sink.nontrivial.len() as u64, samples: sink.samples, failure: sink.failure, ..Report::default() })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn json(&self) -> String {
        let cl: Vec<String> = self.classes.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        let sm: Vec<String> = self.samples.iter().map(|(u, t)| json_str(&format!("{u}: {}", t.replace('\n', " | ")))).collect();
        let f = match &self.failure {
            None => "null".to_string(),
            Some(f) => format!(
                "{{\"unit\":{},\"case\":{},\"message\":{},\"harness\":{}}}",
                json_str(&f.unit),
                json_str(&f.case),
                json_str(&f.message),
                f.harness
            ),
        };
        let st = match &self.stuck {
            None => "null".to_string(),
            Some((u, c)) => format!("{{\"unit\":{},\"case\":{}}}", json_str(u), json_str(c)),
        };
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"units\":{},\"jobs\":{},\"classes\":{{{}}},\"samples\":[{}],\"failure\":{},\"stuck\":{}}}",
            self.evaluations,
            self.distinct,
            self.units,
            self.jobs,
            cl.join(","),
            sm.join(","),
            f,
            st
        )
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = crate::configs::FnvHasher::default();
    t.hash(&mut h);
    h.finish()
}
