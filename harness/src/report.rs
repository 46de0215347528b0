//! Case runner, verdicts, evidence.
use crate::rng::{Rng, mix};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Exact signature, matched against the known findings.
    pub sig: String,
    pub detail: Value,
    pub case: u64,
    pub part: String,
}

/// What one run of a case has seen.
pub struct Case {
    pub seed: u64,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<Value>,
    pub viol: Vec<(String, Value)>,
}

impl Case {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            match self.counters.get_mut(k) {
                Some(x) => *x += n,
                None => {
                    self.counters.insert(k.to_string(), n);
                }
            }
        }
    }
    /// Marks something distinct and non trivial as observed.
    pub fn seen(&mut self, h: u64) {
        self.hashes.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: Value) {
        let sig = sig.into();
        if self.viol.len() < 8 && self.viol.iter().filter(|v| v.0 == sig).count() < 2 {
            self.viol.push((sig, detail));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
}

thread_local! {
    static PANIC_AT: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

static STDOUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// The code under test prints, that goes nowhere while the cases run.
pub fn mute_stdout() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            STDOUT.store(saved, Ordering::SeqCst);
            libc::dup2(null, 1);
            libc::close(null);
        }
    }
}
pub fn unmute_stdout() {
    let saved = STDOUT.swap(-1, Ordering::SeqCst);
    if saved >= 0 {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(saved, 1);
            libc::close(saved);
        }
    }
}

static RECENT: Mutex<std::collections::VecDeque<(String, String)>> = Mutex::new(std::collections::VecDeque::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut recent) = RECENT.lock() {
            recent.push_back((loc.clone(), msg.clone()));
            if recent.len() > 256 {
                recent.pop_front();
            }
        }
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Runs `f`, a panic becomes Err((location, message)).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|payload| match PANIC_AT.with(|p| p.borrow_mut().take()) {
        Some(at) => at,
        // raised by a worker thread of the code under test and handed on to this one
        None => {
            let msg = match (payload.downcast_ref::<&str>(), payload.downcast_ref::<String>()) {
                (Some(s), _) => s.to_string(),
                (_, Some(s)) => s.clone(),
                _ => String::from("?"),
            };
            let recent = RECENT.lock().unwrap();
            recent.iter().rev().find(|(_, m)| *m == msg).cloned().unwrap_or((String::from("unknown"), msg))
        }
    })
}

/// A panic raised by the harness itself (not by the code under test).
pub fn is_harness_panic(loc: &str, msg: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/") || msg.starts_with("harness:")
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Violation>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub errors: Vec<String>,
    /// (counter, minimum): a run that observed less than this is no verdict
    pub needs: Vec<(String, u64)>,
    /// replay a single case of a single part
    pub only: Option<(String, u64)>,
    pub extra: BTreeMap<String, Value>,
    pub scale: f64,
}

pub static CURRENT_ID: Mutex<String> = Mutex::new(String::new());

impl Run {
    pub fn new(id: &str, thorough: bool, seed: u64) -> Self {
        *CURRENT_ID.lock().unwrap() = id.to_string();
        Self {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            evals: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            rule: String::new(),
            assumptions: vec![],
            errors: vec![],
            needs: vec![],
            only: None,
            extra: BTreeMap::new(),
            scale: 1.0,
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.split_whitespace().collect::<Vec<_>>().join(" ");
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.split_whitespace().collect::<Vec<_>>().join(" "));
    }
    pub fn need(&mut self, counter: &str, min: u64) {
        self.needs.push((counter.to_string(), min));
    }

    /// Runs cases of one part of the check on several threads until `n` are done or the time is up.
    pub fn part<F>(&mut self, name: &str, n: u64, secs: f64, f: F)
    where
        F: Fn(&mut Case, &mut Rng) + Sync,
    {
        self.part_threads(name, n, secs, 7, f)
    }

    pub fn part_threads<F>(&mut self, name: &str, n: u64, secs: f64, threads: usize, f: F)
    where
        F: Fn(&mut Case, &mut Rng) + Sync,
    {
        let part_seed = mix(self.seed ^ crate::rng::fnv(format!("{}/{}", self.id, name).as_bytes()));
        if let Some((p, case)) = &self.only {
            if p == name {
                let mut c = Case {
                    seed: *case,
                    thorough: self.thorough,
                    counters: BTreeMap::new(),
                    hashes: vec![],
                    samples: vec![],
                    viol: vec![],
                };
                let res = guard(|| f(&mut c, &mut Rng::new(*case)));
                let case = *case;
                self.absorb(name, vec![(case, c, res)]);
            }
            return;
        }
        let mult = if self.thorough { 20.0 } else { 1.0 } * self.scale;
        let secs = Duration::from_secs_f64(secs * if self.thorough { 12.0 } else { 5.0 } * self.scale.max(0.2));
        let n = (n as f64 * mult).max(1.0) as u64;
        let known = load_known(&self.id);
        let known_kept: Mutex<BTreeMap<String, u32>> = Mutex::new(BTreeMap::new());
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let start = Instant::now();
        let out: Mutex<Vec<(u64, Case, Result<(), (String, String)>)>> = Mutex::new(vec![]);
        let slots: Vec<Arc<watch::Slot>> = (0..threads).map(|i| watch::slot(&format!("{}-{name}-{i}", self.id))).collect();
        std::thread::scope(|s| {
            for slot in &slots {
                let slot = slot.clone();
                let (next, stop, out, f) = (&next, &stop, &out, &f);
                let (known, known_kept) = (&known, &known_kept);
                let thorough = self.thorough;
                let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    slot.enter_thread();
                    // one accumulator per thread
                    let mut acc = Case {
                        seed: 0,
                        thorough,
                        counters: BTreeMap::new(),
                        hashes: vec![],
                        samples: vec![],
                        viol: vec![],
                    };
                    let mut done = 0u64;
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || stop.load(Ordering::Relaxed) || start.elapsed() > secs {
                            break;
                        }
                        let seed = mix(part_seed ^ mix(i));
                        slot.begin(name, seed);
                        acc.seed = seed;
                        let res = guard(|| f(&mut acc, &mut Rng::new(seed)));
                        slot.end();
                        done += 1;
                        acc.viol.retain(|v| {
                            !known.contains_key(&v.0) || {
                                let mut k = known_kept.lock().unwrap();
                                let n: &mut u32 = k.entry(v.0.clone()).or_default();
                                *n += 1;
                                *n <= 20
                            }
                        });
                        if res.is_err() || !acc.viol.is_empty() {
                            let fresh = Case {
                                seed: 0,
                                thorough,
                                counters: BTreeMap::new(),
                                hashes: vec![],
                                samples: vec![],
                                viol: vec![],
                            };
                            let c = std::mem::replace(&mut acc, fresh);
                            let mut o = out.lock().unwrap();
                            let fresh = res.is_err() || c.viol.iter().any(|v| !known.contains_key(&v.0));
                            o.push((seed, c, res));
                            if fresh && o.len() > 40 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    acc.count("__evals", done);
                    out.lock().unwrap().push((0, acc, Ok(())));
                });
            }
        });
        let out = out.into_inner().unwrap();
        self.absorb(name, out);
    }

    fn absorb(&mut self, part: &str, out: Vec<(u64, Case, Result<(), (String, String)>)>) {
        for (seed, c, res) in out {
            for (k, v) in c.counters {
                if k == "__evals" {
                    self.evals += v;
                    *self.counters.entry(format!("cases.{part}")).or_default() += v;
                } else {
                    *self.counters.entry(k).or_default() += v;
                }
            }
            self.distinct.extend(c.hashes);
            if self.samples.len() < 6 {
                for s in c.samples.into_iter().take(1) {
                    self.samples.push(json!({"part": part, "case": s}));
                }
            }
            for (sig, detail) in c.viol {
                self.viols.push(Violation { sig, detail, case: seed, part: part.to_string() });
            }
            if let Err((loc, msg)) = res {
                if is_harness_panic(&loc, &msg) {
                    self.errors.push(format!("harness panic in {part} case {seed}: {loc}: {msg}"));
                } else {
                    self.viols.push(Violation {
                        sig: format!("panic {}", strip_line(&loc)),
                        detail: json!({"panic": msg, "at": loc}),
                        case: seed,
                        part: part.to_string(),
                    });
                }
            }
        }
    }

    pub fn finish(mut self) -> i32 {
        unmute_stdout();
        let known = load_known(&self.id);
        let mut printed = HashSet::new();
        let mut fresh: Vec<Violation> = vec![];
        let mut known_hits = BTreeMap::new();
        for v in std::mem::take(&mut self.viols) {
            if let Some(what) = known.get(&v.sig) {
                *known_hits.entry(v.sig.clone()).or_insert(0u64) += 1;
                if printed.insert(v.sig.clone()) {
                    println!("KNOWN-FINDING: property={} {}", self.id, what);
                }
            } else {
                fresh.push(v);
            }
        }
        let mut inconclusive = self.errors.clone();
        if self.only.is_none() && fresh.is_empty() {
            for (k, min) in &self.needs {
                let got = self.counters.get(k).copied().unwrap_or(0);
                if got < *min {
                    inconclusive.push(format!("observed only {got} of {k}, expected at least {min}"));
                }
            }
        }
        let mut seen_sigs = HashSet::new();
        let mut n = 0;
        for v in &fresh {
            if !seen_sigs.insert(v.sig.clone()) || n >= 5 {
                continue;
            }
            n += 1;
            let path = write_replay(&self.id, n, self.thorough, self.seed, v);
            println!("violated: [{}] {}", v.sig, crate::schema::trunc(&v.detail.to_string(), 1500));
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), Value::Array(self.samples.clone()));
        cov.insert("observed".into(), json!(self.counters));
        if !known_hits.is_empty() {
            cov.insert("known_findings_seen".into(), json!(known_hits));
        }
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        if self.only.is_none() {
            let dir = verif_dir().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
                inconclusive.push(format!("evidence not written: {e}"));
            }
        }
        println!(
            "{}: {} cases, {} distinct, {} violations in {:.1} s",
            self.id,
            self.evals,
            self.distinct.len(),
            fresh.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &self.counters {
            println!("  {k} = {v}");
        }
        let _ = std::io::stdout().flush();
        if !fresh.is_empty() {
            return 1;
        }
        if !inconclusive.is_empty() {
            for e in inconclusive {
                println!("ERROR (no verdict): {e}");
            }
            return 2;
        }
        0
    }
}

fn strip_line(loc: &str) -> String {
    loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or_else(|| loc.to_string())
}

pub fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn repo_dir() -> std::path::PathBuf {
    std::path::PathBuf::from("/repo")
}

pub fn write_replay(id: &str, n: usize, thorough: bool, seed: u64, v: &Violation) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{n}.json"));
    let j = json!({"property": id, "part": v.part, "case": v.case.to_string(), "sig": v.sig, "detail": v.detail,
        "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "rerun": format!("/verif/check.sh {id} quick --replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap());
    path.display().to_string()
}

/// Lines `KNOWN property=<id> sig=<exact signature> | <what fails>`
fn load_known(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("KNOWN property={id} sig="))
                && let Some((sig, what)) = rest.split_once(" | ")
            {
                m.insert(sig.trim().to_string(), what.trim().to_string());
            }
        }
    }
    m
}

/// Supervision of the running cases: CPU time per case and memory per case.
pub mod watch {
    use super::*;
    use std::sync::atomic::{AtomicI32, AtomicUsize};

    pub struct Slot {
        pub name: String,
        pub part: Mutex<String>,
        pub case: AtomicU64,
        pub busy: AtomicBool,
        /// clock id of the thread's CPU clock
        pub clock: AtomicI32,
        pub cpu_start_ms: AtomicU64,
        pub dead: AtomicBool,
    }

    static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
    /// CPU milliseconds a single case may take. 0 = no verdict about it.
    pub static CPU_LIMIT_MS: AtomicU64 = AtomicU64::new(120_000);

    pub fn slot(name: &str) -> Arc<Slot> {
        let s = Arc::new(Slot {
            name: name.to_string(),
            part: Mutex::new(String::new()),
            case: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            clock: AtomicI32::new(0),
            cpu_start_ms: AtomicU64::new(0),
            dead: AtomicBool::new(false),
        });
        SLOTS.lock().unwrap().push(s.clone());
        s
    }

    fn cpu_ms(clock: i32) -> Option<u64> {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        let rc = unsafe { libc::clock_gettime(clock, &mut ts) };
        if rc == 0 { Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000) } else { None }
    }

    thread_local! {
        pub static CUR: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    }

    impl Slot {
        pub fn enter_thread(self: &Arc<Self>) {
            let mut clk: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
            self.clock.store(clk, Ordering::SeqCst);
            CUR.with(|c| *c.borrow_mut() = Some(self.clone()));
        }
        pub fn begin(&self, part: &str, case: u64) {
            {
                let mut p = self.part.lock().unwrap();
                if *p != part {
                    *p = part.to_string();
                }
            }
            self.case.store(case, Ordering::SeqCst);
            self.cpu_start_ms.store(cpu_ms(self.clock.load(Ordering::SeqCst)).unwrap_or(0), Ordering::SeqCst);
            crate::alloc::reset();
            self.busy.store(true, Ordering::SeqCst);
        }
        pub fn end(&self) {
            self.busy.store(false, Ordering::SeqCst);
        }
    }

    /// Reports a fatal observation (runaway) from wherever it was noticed and ends the process.
    pub fn fatal(slot_part: &str, case: u64, sig: &str, detail: Value) -> ! {
        unmute_stdout();
        let id = CURRENT_ID.lock().map(|s| s.clone()).unwrap_or_default();
        let v = Violation { sig: sig.to_string(), detail, case, part: slot_part.to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let path = write_replay(&id, 1, false, seed, &v);
        println!("violated: [{sig}] {}", v.detail);
        println!("VIOLATION property={id} replay={path}");
        let ev = json!({"property": id, "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()), "seed": 0,
            "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended at the first runaway case", "samples": [v.detail]},
            "assumptions": [], "wall_s": 0.0, "violations": 1});
        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{id}.json")), ev.to_string());
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(1) }
    }

    pub static TICKS: AtomicUsize = AtomicUsize::new(0);

    pub fn start() {
        std::thread::spawn(|| {
            loop {
                std::thread::sleep(Duration::from_millis(200));
                TICKS.fetch_add(1, Ordering::Relaxed);
                let limit = CPU_LIMIT_MS.load(Ordering::Relaxed);
                if limit == 0 {
                    continue;
                }
                let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
                for s in slots {
                    if !s.busy.load(Ordering::SeqCst) {
                        continue;
                    }
                    let case = s.case.load(Ordering::SeqCst);
                    let start = s.cpu_start_ms.load(Ordering::SeqCst);
                    if let Some(now) = cpu_ms(s.clock.load(Ordering::SeqCst)) {
                        if now.saturating_sub(start) > limit
                            && s.busy.load(Ordering::SeqCst)
                            && s.case.load(Ordering::SeqCst) == case
                        {
                            let part = s.part.lock().unwrap().clone();
                            fatal(&part, case, "no termination", json!({"cpu_ms": now - start, "part": part, "limit_ms": limit}));
                        }
                    }
                }
            }
        });
    }
}
