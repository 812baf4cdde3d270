//! Case driver: runs numbered cases derived from the seed, turns panics of the code under test into
//! violations, counts what was observed and prints one result line for check.py.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A refutation: what was observed.
#[derive(Debug, Clone)]
pub struct Viol(pub String);

pub type Case = Result<(), Viol>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::driver::Viol(format!($($t)*))); } };
}

/// Panic payload used by monitors when a logical step budget is exhausted.
pub struct BudgetExceeded(pub &'static str);
/// Panic payload of injected callback panics.
pub struct Injected;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(b) = info.payload().downcast_ref::<BudgetExceeded>() {
            format!("logical step budget exceeded: {}", b.0)
        } else if info.payload().is::<Injected>() {
            "injected panic".into()
        } else {
            "panic with unknown payload".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// how long a single case (normally milliseconds) may take
const HANG_MS: u64 = 90_000;

pub enum Caught {
    /// panic of the code under test (or a monitor budget): message
    Code(String),
    /// panic raised in harness code: an error of the check
    Harness(String),
    Injected,
}

/// run f, classifying a panic by where it was raised
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                return Err(Caught::Injected);
            }
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            let text = format!("panic `{msg}` at {loc}");
            if p.is::<BudgetExceeded>() || !loc.starts_with("src/") {
                Err(Caught::Code(text))
            } else {
                Err(Caught::Harness(text))
            }
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// record a distinct non-trivial case
    pub fn distinct(&mut self, h: impl Hash) -> bool {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.distinct.insert(s.finish())
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.len() < 3
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                self.max(&k, v)
            } else {
                self.add(&k, v)
            }
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    /// multiplies case counts: quick = 1
    pub scale: f64,
    pub threads: usize,
    /// a tiny run for interpreters
    pub mini: bool,
    /// replay only this case seed
    pub only: Option<u64>,
    pub max_secs: u64,
    pub part: String,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            prop: String::new(),
            seed: 1,
            scale: 1.0,
            threads: 6,
            mini: false,
            only: None,
            max_secs: 400,
            part: String::new(),
        };
        let mut it = std::env::args().skip(1);
        while let Some(x) = it.next() {
            let mut val = || it.next().unwrap_or_default();
            match x.as_str() {
                "--seed" => a.seed = val().parse().unwrap(),
                "--scale" => a.scale = val().parse().unwrap(),
                "--threads" => a.threads = val().parse().unwrap(),
                "--only" => a.only = Some(val().parse().unwrap()),
                "--max-secs" => a.max_secs = val().parse().unwrap(),
                "--part" => a.part = val(),
                "--mini" => a.mini = true,
                _ => a.prop = x,
            }
        }
        if a.mini {
            a.threads = 1;
        }
        a
    }
    pub fn cases(&self, quick: u64, mini: u64) -> u64 {
        if self.mini {
            (mini as f64 * self.scale).max(1.0) as u64
        } else {
            (quick as f64 * self.scale).max(1.0) as u64
        }
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub viol: Option<(u64, String)>,
    pub harness_error: Option<String>,
    pub timed_out: bool,
}

/// run `n` cases over the configured threads; stops at the first violation
pub fn run_cases(
    args: &Args,
    label: &str,
    n: u64,
    case: impl Fn(&mut Rng, &mut Stats) -> Case + Sync,
) -> Outcome {
    install_panic_hook();
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let timed_out = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let viol: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let start = Instant::now();
    let limit = Duration::from_secs(args.max_secs);
    let lab = {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        label.hash(&mut s);
        s.finish()
    };
    // (milliseconds since start + 1 of the running case or 0, case seed) per worker
    let running: Vec<(AtomicU64, AtomicU64)> = (0..args.threads.max(1))
        .map(|_| Default::default())
        .collect();
    let finished = AtomicU64::new(0);
    let worker = |w: usize| {
        let mut st = Stats::default();
        loop {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n {
                break;
            }
            if i % 16 == 0 && !args.mini && start.elapsed() > limit {
                timed_out.store(true, Ordering::Relaxed);
                break;
            }
            let cs = args
                .only
                .unwrap_or_else(|| mix(mix(args.seed) ^ lab ^ i.wrapping_mul(0xD1342543DE82EF95)));
            if !args.mini {
                running[w].1.store(cs, Ordering::Relaxed);
                running[w].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
            }
            let r = guarded(|| {
                let mut rng = Rng::new(cs);
                case(&mut rng, &mut st)
            });
            running[w].0.store(0, Ordering::Relaxed);
            st.evaluations += 1;
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => {
                    viol.lock().unwrap().get_or_insert((cs, v.0));
                    stop.store(true, Ordering::Relaxed);
                }
                Err(Caught::Code(m)) => {
                    viol.lock().unwrap().get_or_insert((cs, m));
                    stop.store(true, Ordering::Relaxed);
                }
                Err(Caught::Harness(m)) => {
                    // an assumption of the monitor about the code under test was broken
                    viol.lock()
                        .unwrap()
                        .get_or_insert((cs, format!("monitor assertion: {m}")));
                    stop.store(true, Ordering::Relaxed);
                }
                Err(Caught::Injected) => {
                    herr.lock()
                        .unwrap()
                        .get_or_insert("uncaught injected panic".into());
                    stop.store(true, Ordering::Relaxed);
                }
            }
            if args.only.is_some() {
                break;
            }
        }
        total.lock().unwrap().merge(st);
        finished.fetch_add(1, Ordering::SeqCst);
    };
    if args.mini {
        worker(0);
    } else {
        std::thread::scope(|s| {
            for w in 0..args.threads {
                let worker = &worker;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || worker(w))
                    .unwrap();
            }
            // watchdog: a case of milliseconds that runs for minutes never ends
            while finished.load(Ordering::SeqCst) < args.threads as u64 {
                std::thread::sleep(Duration::from_millis(5));
                let now = start.elapsed().as_millis() as u64;
                for r in &running {
                    let t = r.0.load(Ordering::Relaxed);
                    if t != 0 && now > t + HANG_MS {
                        println!(
                            "@@VIOLATION {{\"part\":{},\"case_seed\":{},\"what\":\"the operation does not end: no result after {} s\"}}",
                            json_str(label),
                            r.1.load(Ordering::Relaxed),
                            HANG_MS / 1000
                        );
                        println!("@@RESULT {{\"evaluations\":{i},\"distinct\":0,\"timed_out\":false,\"counters\":{{}},\"samples\":[]}}", i = next.load(Ordering::Relaxed));
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    Outcome {
        stats: total.into_inner().unwrap(),
        viol: viol.into_inner().unwrap(),
        harness_error: herr.into_inner().unwrap(),
        timed_out: timed_out.into_inner(),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Collects the parts of one check and ends the process.
pub struct Report {
    args: Args,
    stats: Stats,
    viol: Option<(String, u64, String)>,
    herr: Option<String>,
    timed_out: bool,
}

impl Report {
    pub fn new(args: &Args) -> Self {
        Report {
            args: args.clone(),
            stats: Stats::default(),
            viol: None,
            herr: None,
            timed_out: false,
        }
    }
    pub fn part(
        &mut self,
        name: &str,
        n: u64,
        case: impl Fn(&mut Rng, &mut Stats) -> Case + Sync,
    ) {
        if self.viol.is_some() || self.herr.is_some() {
            return;
        }
        if !self.args.part.is_empty() && self.args.part != name {
            return;
        }
        let o = run_cases(&self.args, name, n, case);
        self.stats.add(&format!("cases_{name}"), o.stats.evaluations);
        self.stats.merge(o.stats);
        if let Some((cs, m)) = o.viol {
            self.viol = Some((name.to_string(), cs, m));
        }
        if o.harness_error.is_some() {
            self.herr = o.harness_error;
        }
        self.timed_out |= o.timed_out;
    }
    /// a part whose cases follow each other on one thread
    pub fn part_in_order(
        &mut self,
        name: &str,
        n: u64,
        case: impl Fn(&mut Rng, &mut Stats) -> Case + Sync,
    ) {
        let threads = std::mem::replace(&mut self.args.threads, 1);
        self.part(name, n, case);
        self.args.threads = threads;
    }
    /// `min_distinct`: fewer observed distinct non-trivial cases make the run inconclusive
    pub fn finish(self, min_distinct: u64, required: &[&str]) -> ! {
        if let Some((part, cs, m)) = &self.viol {
            println!(
                "@@VIOLATION {{\"part\":{},\"case_seed\":{},\"what\":{}}}",
                json_str(part),
                cs,
                json_str(&m.chars().take(6000).collect::<String>())
            );
        }
        let counters: Vec<String> = self
            .stats
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect();
        let samples: Vec<String> = self.stats.samples.iter().map(|s| json_str(s)).collect();
        println!(
            "@@RESULT {{\"evaluations\":{},\"distinct\":{},\"timed_out\":{},\"counters\":{{{}}},\"samples\":[{}]}}",
            self.stats.evaluations,
            self.stats.distinct.len(),
            self.timed_out,
            counters.join(","),
            samples.join(",")
        );
        if let Some(h) = self.herr {
            println!("@@HARNESS {}", json_str(&h));
            std::process::exit(2);
        }
        if self.viol.is_some() {
            std::process::exit(1);
        }
        if self.args.only.is_none() && !self.args.mini && self.args.part.is_empty() {
            let min_distinct = (min_distinct as f64 * self.args.scale.min(1.0) * 0.7) as u64;
            if (self.stats.distinct.len() as u64) < min_distinct {
                println!(
                    "@@HARNESS \"too few distinct non-trivial cases: {} < {}\"",
                    self.stats.distinct.len(),
                    min_distinct
                );
                std::process::exit(2);
            }
            for r in required {
                if self.stats.counters.get(*r).copied().unwrap_or(0) == 0 {
                    println!("@@HARNESS \"never observed: {r}\"");
                    std::process::exit(2);
                }
            }
        }
        std::process::exit(0);
    }
}
