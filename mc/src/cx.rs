//! Check context: runs enumerated cases on worker threads, collects coverage, reports violations.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case recorder
#[derive(Default)]
pub struct Rec {
    pub states: Vec<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub sample: Option<String>,
    pub vacuous: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    /// extra violations found inside the case, with their own key suffix
    pub viols: Vec<(String, String)>,
    /// violations of a recognised kind: (kind, message), reported under the key kind@case
    pub kinds: Vec<(&'static str, String)>,
}

impl Rec {
    /// a violation recognised as an instance of a recorded defect (the known-findings file decides whether it counts)
    pub fn kind(&mut self, k: &'static str, m: String) {
        if !self.kinds.iter().any(|(n, _)| *n == k) {
            self.kinds.push((k, m));
        }
    }
    pub fn state<T: std::hash::Hash>(&mut self, t: T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.states.push(h.finish());
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    /// record the largest observed value of an error measure (to see how far tolerances are)
    pub fn max(&mut self, k: &'static str, v: f64) {
        let e = self.maxima.entry(k).or_insert(0.);
        if v > *e || v.is_nan() {
            *e = v;
        }
    }
}

pub type CaseFn<'a> = Box<dyn Fn(&mut Rec) -> R + Send + Sync + 'a>;
pub struct Case<'a> {
    pub key: String,
    pub f: CaseFn<'a>,
}

pub fn case<'a>(key: impl Into<String>, f: impl Fn(&mut Rec) -> R + Send + Sync + 'a) -> Case<'a> {
    Case {
        key: key.into(),
        f: Box::new(f),
    }
}

#[derive(Default)]
struct Stats {
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    cases: u64,
    nontrivial: u64,
    samples: Vec<String>,
    viols: Vec<(usize, String, String)>,
    harness_errors: Vec<(String, String)>,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    skipped: u64,
}

pub struct Cx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub root: PathBuf,
    pub start: Instant,
    pub hang_s: u64,
    pub cap_s: u64,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    base: AtomicUsize,
    st: Mutex<Stats>,
    known: Vec<(String, String)>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if verbose {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Caught {
    Panic(String),
    Harness(String),
}

fn last_panic() -> Caught {
    let (msg, loc) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("panic".into(), "?".into()));
    let s = format!("panic '{}' at {}", msg.chars().take(300).collect::<String>(), loc);
    if loc.starts_with("src/") && !msg.starts_with("LIVELOCK") {
        Caught::Harness(s)
    } else {
        Caught::Panic(s)
    }
}

/// Run code under test; a panic becomes Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => match last_panic() {
            Caught::Panic(s) => Err(s),
            Caught::Harness(s) => {
                LAST_PANIC.with(|p| {
                    *p.borrow_mut() = Some((s, "src/ (harness)".into()));
                });
                std::panic::resume_unwind(e)
            }
        },
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// default control: every join on the calling thread in source order
pub struct DefaultCtl;
impl rayon_core::mc::Control for DefaultCtl {
    fn decide(&mut self, _i: usize) -> rayon_core::mc::Decision {
        rayon_core::mc::Decision::default()
    }
}

impl Cx {
    pub fn new(id: &str, tier: Tier, seed: u64, only: Option<String>, root: PathBuf) -> Cx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
                    let mut it = r.splitn(3, ' ');
                    let (p, k, w) = (
                        it.next().unwrap_or(""),
                        it.next().unwrap_or(""),
                        it.next().unwrap_or(""),
                    );
                    if p == id
                        && let Some(k) = k.strip_prefix("key=")
                    {
                        known.push((k.to_string(), w.to_string()));
                    }
                }
            }
        }
        Cx {
            id: id.to_string(),
            tier,
            seed,
            only,
            root,
            start: Instant::now(),
            hang_s: 200,
            cap_s: 600,
            level: "model_checking",
            rule: String::new(),
            assumptions: vec![],
            exhaustive: true,
            base: AtomicUsize::new(0),
            st: Mutex::new(Stats::default()),
            known,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    fn is_known(&self, key: &str) -> Option<&(String, String)> {
        self.known.iter().find(|(k, _)| {
            if let Some(p) = k.strip_suffix('*') {
                key.starts_with(p)
            } else {
                key == k
            }
        })
    }

    pub fn run(&self, cases: Vec<Case<'_>>) {
        let nthreads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(8usize);
        self.run_on(cases, nthreads)
    }

    pub fn run_on(&self, cases: Vec<Case<'_>>, nthreads: usize) {
        let base = self.base.fetch_add(cases.len(), Ordering::SeqCst);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let slots: Vec<Mutex<Option<(String, Instant)>>> =
            (0..nthreads).map(|_| Mutex::new(None)).collect();
        // duplicate keys would make replay ambiguous
        let mut seen = HashSet::new();
        for c in &cases {
            if !seen.insert(c.key.as_str()) {
                eprintln!("harness error: duplicate case key {}", c.key);
                std::process::exit(3);
            }
        }
        let slow = std::env::var("MC_SLOW").is_ok();
        // workers caught in a case which never ends and is a known finding; workers still at work
        let hung: Vec<AtomicBool> = (0..nthreads).map(|_| AtomicBool::new(false)).collect();
        let active = AtomicUsize::new(nthreads);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..nthreads {
                let (cases, next, stop, slots, hung, active) = (&cases, &next, &stop, &slots, &hung, &active);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= cases.len() {
                                    active.fetch_sub(1, Ordering::SeqCst);
                                    break;
                                }
                                let c = &cases[i];
                                if let Some(o) = &self.only
                                    && !(c.key == *o || o.starts_with(&format!("{}::", c.key)) || o.ends_with(&format!("@{}", c.key)))
                                {
                                    continue;
                                }
                                if stop.load(Ordering::SeqCst)
                                    || self.start.elapsed().as_secs() > self.cap_s
                                {
                                    self.st.lock().unwrap().skipped += 1;
                                    continue;
                                }
                                *slots[w].lock().unwrap() = Some((c.key.clone(), Instant::now()));
                                let mut rec = Rec::default();
                                rayon_core::mc::install(4, Box::new(DefaultCtl));
                                let r = catch_unwind(AssertUnwindSafe(|| (c.f)(&mut rec)));
                                rayon_core::mc::uninstall();
                                if slow {
                                    let el = slots[w].lock().unwrap().as_ref().unwrap().1.elapsed();
                                    if el.as_secs_f64() > 0.5 {
                                        eprintln!("slow {:.1}s {}", el.as_secs_f64(), c.key);
                                    }
                                }
                                *slots[w].lock().unwrap() = None;
                                hung[w].store(false, Ordering::SeqCst);
                                let mut st = self.st.lock().unwrap();
                                st.cases += 1;
                                if !rec.vacuous {
                                    st.nontrivial += 1;
                                }
                                st.states.extend(rec.states);
                                st.transitions += rec.transitions;
                                st.traces += rec.traces;
                                for (k, v) in rec.counters {
                                    *st.counters.entry(k).or_default() += v;
                                }
                                for (k, v) in rec.maxima {
                                    let e = st.maxima.entry(k).or_insert(0.);
                                    if v > *e || v.is_nan() {
                                        *e = v;
                                    }
                                }
                                if let Some(sm) = rec.sample
                                    && st.samples.len() < 6
                                {
                                    st.samples.push(format!("{}: {}", c.key, sm));
                                }
                                let mut n_unknown = 0;
                                for (kind, m) in rec.kinds {
                                    let k = format!("{}@{}", kind, c.key);
                                    if self.is_known(&k).is_none() {
                                        n_unknown += 1;
                                    }
                                    st.viols.push((base + i, k, m));
                                }
                                for (suf, m) in rec.viols {
                                    let k = format!("{}::{}", c.key, suf);
                                    if self.is_known(&k).is_none() {
                                        n_unknown += 1;
                                    }
                                    st.viols.push((base + i, k, m));
                                }
                                let err = match r {
                                    Ok(Ok(())) => None,
                                    Ok(Err(m)) => Some(m),
                                    Err(_) => match last_panic() {
                                        Caught::Panic(m) => Some(m),
                                        Caught::Harness(m) => {
                                            st.harness_errors.push((c.key.clone(), m));
                                            stop.store(true, Ordering::SeqCst);
                                            None
                                        }
                                    },
                                };
                                if let Some(m) = err {
                                    if self.is_known(&c.key).is_none() {
                                        n_unknown += 1;
                                    }
                                    st.viols.push((base + i, c.key.clone(), m));
                                }
                                let tot = st.viols.len();
                                drop(st);
                                if n_unknown > 0 && tot > 200 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        })
                        .unwrap(),
                );
            }
            let (slots, done, hung, active) = (&slots, &done, &hung, &active);
            let wd = s.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let nh = hung.iter().filter(|h| h.load(Ordering::SeqCst)).count();
                    if nh > 0 && nh == active.load(Ordering::SeqCst) {
                        // only these are left
                        let code = self.finish();
                        std::process::exit(code);
                    }
                    for (w, sl) in slots.iter().enumerate() {
                        let g = sl.lock().unwrap();
                        if let Some((k, t)) = g.as_ref()
                            && t.elapsed().as_secs() > self.hang_s
                            && !hung[w].load(Ordering::SeqCst)
                        {
                            let k = format!("hang@{k}");
                            let m = format!("did not terminate within {} s", self.hang_s);
                            drop(g);
                            let mut st = self.st.lock().unwrap();
                            let known = self.is_known(&k).is_some();
                            st.viols.push((0, k, m));
                            drop(st);
                            if known {
                                hung[w].store(true, Ordering::SeqCst);
                            } else {
                                let code = self.finish();
                                std::process::exit(code);
                            }
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Ordering::SeqCst);
            wd.join().unwrap();
        });
    }

    /// Direct accounting for checks that drive their own loop
    pub fn add_sample(&self, s: String) {
        self.st.lock().unwrap().samples.push(s);
    }

    pub fn finish(&self) -> i32 {
        let mut st = self.st.lock().unwrap();
        st.viols.sort();
        let mut unknown = vec![];
        let mut known_hit: BTreeMap<String, (String, u64)> = BTreeMap::new();
        for (_, k, m) in &st.viols {
            match self.is_known(k) {
                Some((kk, w)) => {
                    known_hit.entry(kk.clone()).or_insert((w.clone(), 0)).1 += 1;
                }
                None => unknown.push((k.clone(), m.clone())),
            }
        }
        for (k, (w, n)) in &known_hit {
            println!("KNOWN-FINDING: property={} {} (key={} seen {} times)", self.id, w, k, n);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = serde_json::Map::new();
        let samples: Vec<serde_json::Value> =
            st.samples.iter().map(|s| serde_json::Value::String(s.chars().take(600).collect())).collect();
        if self.level == "model_checking" {
            cov.insert("states".into(), (st.states.len() as u64).into());
            cov.insert("transitions".into(), st.transitions.into());
            cov.insert("traces_validated_against_impl".into(), st.traces.into());
            cov.insert("cases".into(), st.cases.into());
        } else {
            cov.insert("evaluations".into(), st.traces.into());
            cov.insert("distinct_nontrivial".into(), (st.states.len() as u64).into());
            cov.insert("cases".into(), st.cases.into());
        }
        cov.insert("rule".into(), self.rule.clone().into());
        cov.insert("samples".into(), serde_json::Value::Array(samples));
        cov.insert(
            "exhaustive".into(),
            (self.exhaustive && st.skipped == 0 && self.only.is_none()).into(),
        );
        cov.insert("skipped_by_time_cap".into(), st.skipped.into());
        for (k, v) in &st.counters {
            cov.insert(format!("n_{k}"), (*v).into());
        }
        for (k, v) in &st.maxima {
            cov.insert(format!("max_{k}"), serde_json::json!(format!("{v:.3e}")));
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (wall*1000.).round()/1000.,
            "violations": unknown.len(),
        });
        if self.only.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}.json", self.id));
            if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
                eprintln!("cannot write evidence: {e}");
                return 3;
            }
        }
        println!(
            "{} {:?}: cases={} states={} transitions={} traces={} skipped={} violations={} wall={:.1}s",
            self.id, self.tier, st.cases, st.states.len(), st.transitions, st.traces, st.skipped,
            unknown.len(), wall
        );
        for (k, v) in &st.counters {
            println!("  {k}: {v}");
        }
        for (k, v) in &st.maxima {
            println!("  max {k}: {v:.3e}");
        }
        if !unknown.is_empty() {
            let dir = self.root.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            for (n, (k, m)) in unknown.iter().take(std::env::var("MC_MAXV").ok().and_then(|v| v.parse().ok()).unwrap_or(10)).enumerate() {
                let p = dir.join(format!("{}-{}.json", self.id, n));
                let j = serde_json::json!({"property": self.id, "tier": if self.thorough() {"thorough"} else {"quick"}, "seed": self.seed, "case": k, "what": m,
                    "replay": format!("/verif/run.sh --replay {}", p.display())});
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n");
                println!("  case {k}: {m}");
                println!("VIOLATION property={} replay={}", self.id, p.display());
            }
            return 1;
        }
        if !st.harness_errors.is_empty() {
            for (k, m) in &st.harness_errors {
                eprintln!("harness error in case {k}: {m}");
            }
            return 3;
        }
        if st.cases == 0 {
            eprintln!("no case ran");
            return 3;
        }
        0
    }
}
