//! Shared machinery of every check: exhaustive enumeration in parallel, counting, panic capture,
//! hang detection, known findings, replay files and evidence.
use serde_json::{json, Map, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub cases: AtomicU64,
    pub skipped: AtomicU64,
    pub incomplete: AtomicBool,
    pub extra: Mutex<Map<String, J>>,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<J>>,
    pub violations: Mutex<Vec<(String, String)>>,
    pub known_hit: Mutex<Vec<String>>,
    pub known: BTreeMap<String, String>,
    pub assumptions: Mutex<Vec<String>>,
    pub start: Instant,
    pub deadline: Duration,
    pub stop: AtomicBool,
    running: Vec<Mutex<Option<(Instant, String)>>>,
    pub case_limit: Mutex<Duration>,
}

thread_local! {
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const THREADS: usize = 8;
pub const MAX_VIOLATIONS: usize = 20;

impl Ctx {
    pub fn new(id: &str, thorough: bool, only: Option<String>) -> Ctx {
        std::panic::set_hook(Box::new(|i| {
            let s = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{s} @ {loc}"));
        }));
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", root())) {
            let v: J = serde_json::from_str(&t).expect("known_findings.json");
            for f in v["findings"].as_array().unwrap_or(&vec![]) {
                if f["property"] == id {
                    for k in f["cases"].as_array().unwrap() {
                        known.insert(
                            k.as_str().unwrap().to_string(),
                            f["what"].as_str().unwrap().to_string(),
                        );
                    }
                }
            }
        }
        Ctx {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            only,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            cases: 0.into(),
            skipped: 0.into(),
            incomplete: false.into(),
            extra: Default::default(),
            counters: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            known_hit: Default::default(),
            known,
            assumptions: Default::default(),
            start: Instant::now(),
            deadline: Duration::from_secs(
                std::env::var("TKMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
                    780
                } else {
                    500
                }),
            ),
            stop: false.into(),
            running: (0..THREADS + 1).map(|_| Mutex::new(None)).collect(),
            case_limit: Mutex::new(Duration::from_secs(120)),
        }
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn bound(&self, k: &str, v: impl Into<J>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn only(&self) -> Option<&str> {
        self.only.as_deref()
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.start.elapsed() > self.deadline {
            self.incomplete.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }
    pub fn fail(&self, key: &str, msg: &str) {
        if self.known.contains_key(key) {
            let mut k = self.known_hit.lock().unwrap();
            if !k.contains(&key.to_string()) {
                k.push(key.into());
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|(k, _)| k == key) {
            return;
        }
        if std::env::var_os("TKMC_ALL").is_some() {
            v.push((key.into(), msg.into()));
            return;
        }
        if v.len() < MAX_VIOLATIONS {
            v.push((key.into(), msg.into()));
        }
        if v.len() >= MAX_VIOLATIONS || std::env::var_os("TKMC_FAST").is_some() {
            self.stop.store(true, Relaxed);
        }
    }
    /// Run one case. A panic or an Err of the body is a violation identified by `key`.
    pub fn case(&self, key: &str, body: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != key {
                return;
            }
        }
        if self.stopped() {
            return;
        }
        self.cases.fetch_add(1, Relaxed);
        let slot = SLOT.with(|s| *s.borrow());
        *self.running[slot].lock().unwrap() = Some((Instant::now(), key.to_string()));
        let r = catch_unwind(AssertUnwindSafe(body));
        *self.running[slot].lock().unwrap() = None;
        match r {
            Ok(Ok(())) => {
                let mut s = self.samples.lock().unwrap();
                if s.len() < 5 {
                    s.push(json!(key));
                }
            }
            Ok(Err(e)) => {
                if let Some(rest) = e.strip_prefix("SKIP") {
                    self.skipped.fetch_add(1, Relaxed);
                    self.count(&format!("skipped:{}", rest.trim()), 1);
                } else {
                    self.fail(key, &e)
                }
            }
            Err(_) => {
                let p = PANIC.with(|p| p.borrow().clone());
                self.fail(key, &format!("panic: {p}"))
            }
        }
    }
    /// Process items 0..n on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let done = AtomicBool::new(false);
        let left = AtomicUsize::new(THREADS);
        std::thread::scope(|s| {
            for t in 0..THREADS {
                let (next, f, left, done) = (&next, &f, &left, &done);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|x| *x.borrow_mut() = t + 1);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            if catch_unwind(AssertUnwindSafe(|| f(i))).is_err() {
                                let p = PANIC.with(|p| p.borrow().clone());
                                self.fail(&format!("item {i}"), &format!("panic: {p}"));
                            }
                        }
                        if left.fetch_sub(1, Relaxed) == 1 {
                            done.store(true, Relaxed);
                        }
                    })
                    .unwrap();
            }
            s.spawn(|| {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let lim = *self.case_limit.lock().unwrap();
                    for r in &self.running {
                        let hung = {
                            let g = r.lock().unwrap();
                            g.as_ref().filter(|(t, _)| t.elapsed() > lim).map(|x| x.1.clone())
                        };
                        if let Some(k) = hung {
                            self.fail(&k, &format!("no answer after {} s (hang)", lim.as_secs()));
                            if !self.known.contains_key(&k) {
                                let rc = self.finish();
                                std::process::exit(rc);
                            }
                        }
                    }
                }
            });
        });
    }
    /// Print the verdict, write replay files and evidence; returns the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let out = format!("{}/out/{}", root(), self.id);
        let _ = std::fs::create_dir_all(&out);
        if std::env::var_os("TKMC_ALL").is_some() {
            // development aid: the smallest case of every kind of message
            let mut g: BTreeMap<String, (usize, &str, &str)> = BTreeMap::new();
            for (k, m) in v.iter() {
                let h: String = m.chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
                let e = g.entry(h).or_insert((0, k, m));
                e.0 += 1;
                if k.len() < e.1.len() {
                    (e.1, e.2) = (k, m);
                }
            }
            for (_, (n, k, m)) in g {
                println!("[{n}] {k}\n      {}", m.chars().take(500).collect::<String>());
            }
            println!("{}: {} violations of {} cases", self.id, v.len(), self.cases.load(Relaxed));
            return 1;
        }
        for (i, (k, m)) in v.iter().enumerate() {
            let path = format!("{out}/violation-{i}.json");
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.id, "case": k, "what": m,
                    "replay": format!("bash /verif/check.sh {} {} --case '{}'", self.id,
                        if self.thorough {"thorough"} else {"quick"}, k)}))
                .unwrap(),
            );
            let m1: String = m.chars().take(600).collect();
            println!("  case {k}\n    {}", m1.replace('\n', "\n    "));
            println!("VIOLATION property={} replay={path}", self.id);
        }
        let kh = self.known_hit.lock().unwrap();
        for k in kh.iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, k, self.known[k]);
        }
        let inc = self.incomplete.load(Relaxed);
        let mut cov = Map::new();
        cov.insert("states".into(), json!(self.states.load(Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Relaxed)));
        cov.insert("cases".into(), json!(self.cases.load(Relaxed)));
        cov.insert("cases_out_of_scope".into(), json!(self.skipped.load(Relaxed)));
        cov.insert("exhaustive".into(), json!(!inc && v.is_empty()));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("known_findings_hit".into(), json!(*kh));
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.insert(k.clone(), json!(v));
        }
        cov.insert("bounds".into(), J::Object(self.extra.lock().unwrap().clone()));
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": v.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        let _ = std::fs::write(
            format!("{}/evidence/{}.json", root(), self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {k}: {v}");
        }
        println!(
            "{} {}: {} cases ({} out of scope), {} states, {} transitions, {} traces, {:.1}s{}",
            self.id,
            if v.is_empty() { "held" } else { "VIOLATED" },
            self.cases.load(Relaxed),
            self.skipped.load(Relaxed),
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.start.elapsed().as_secs_f64(),
            if inc { " [time budget reached: NOT exhaustive]" } else { "" }
        );
        (!v.is_empty()) as i32
    }
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}

/// All sequences over 0..k of length exactly n, as odometer.
pub fn seqs(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let mut cur = Some(vec![0; n]);
    if k == 0 && n > 0 {
        cur = None;
    }
    std::iter::from_fn(move || {
        let r = cur.clone()?;
        let c = cur.as_mut().unwrap();
        let mut i = n;
        loop {
            if i == 0 {
                cur = None;
                break;
            }
            i -= 1;
            c[i] += 1;
            if c[i] < k {
                break;
            }
            c[i] = 0;
        }
        Some(r)
    })
}
