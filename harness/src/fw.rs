//! Framework: cases, verdicts, known findings, evidence.
use ndarray_rand::rand::{Rng, SeedableRng};
use rand_xoshiro::Xoshiro256Plus;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R64 = Xoshiro256Plus;

/// A refutation: a stable signature (for known findings) and a message.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) {
            return $crate::fw::fail($sig, format!($($arg)*));
        }
    };
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash64(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/crates/").next().unwrap_or(f);
                let f = f.rsplit("/registry/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let m = format!("panicked at {loc}: {msg}");
        if std::env::var_os("VP_TRACE").is_some() {
            eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC.lock().unwrap() = Some(m.clone());
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// Run `f`, turning a panic into an Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    *LAST_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let here = PANIC.with(|p| p.borrow_mut().take());
            let msg = here
                .or_else(|| LAST_PANIC.lock().unwrap().take())
                .unwrap_or_else(|| {
                    e.downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| e.downcast_ref::<String>().cloned())
                        .unwrap_or_default()
                });
            Err(msg)
        }
    }
}

/// Panics of valid use are refutations.
pub fn must<T>(sig: &str, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|m| Fail {
        sig: format!("{sig}-panic"),
        msg: format!("{what}: {m}"),
    })
}
/// Errors and panics of valid use are refutations.
pub fn must_ok<T, E: std::fmt::Display>(
    sig: &str,
    what: &str,
    f: impl FnOnce() -> Result<T, E>,
) -> Result<T, Fail> {
    match must(sig, what, f)? {
        Ok(v) => Ok(v),
        Err(e) => fail(format!("{sig}-error"), format!("{what}: error {e}")),
    }
}

pub struct Case {
    pub idx: u64,
    pub rng: R64,
    pub desc: String,
    /// identity of the case for distinct counting (0: trivial)
    pub key: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub known: Vec<Fail>,
    pub sub: Vec<u64>,
}
impl Case {
    pub fn describe(&mut self, d: impl Into<String>) {
        self.desc = d.into();
        self.key = hash_str(&self.desc);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    /// A refutation that does not end the case (so that a listed finding does not mask others).
    pub fn soft(&mut self, r: Res) {
        if let Err(f) = r {
            self.known.push(f);
        }
    }
    pub fn u(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.rng.gen::<f64>()
    }
    pub fn i(&mut self, lo: usize, hi: usize) -> usize {
        self.rng.gen_range(lo..=hi)
    }
    pub fn b(&mut self, p: f64) -> bool {
        self.rng.gen::<f64>() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.rng.gen_range(0..v.len());
        &v[i]
    }
    pub fn normal(&mut self) -> f64 {
        let u1: f64 = 1.0 - self.rng.gen::<f64>();
        let u2: f64 = self.rng.gen();
        (-2.0 * u1.ln()).sqrt() * (2.0 * std::f64::consts::PI * u2).cos()
    }
}

#[derive(Clone, Debug)]
struct KnownF {
    property: String,
    sig: String,
    what: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub verif: std::path::PathBuf,
    start: Instant,
    only_case: Option<(String, u64)>,
    inner: Mutex<Inner>,
    known: Vec<KnownF>,
    rules: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
}
#[derive(Default)]
struct Inner {
    evals: u64,
    keys: HashSet<u64>,
    samples: BTreeMap<String, Vec<String>>,
    counts: BTreeMap<String, u64>,
    violations: Vec<(String, u64, Fail, String)>,
    known_seen: BTreeMap<String, (String, u64)>,
    inconclusive: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &str, only_case: Option<(String, u64)>) -> Self {
        let verif = std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into());
        let verif = std::path::PathBuf::from(verif);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("").trim_start_matches("property=");
                    let g = it.next().unwrap_or("").trim_start_matches("sig=");
                    known.push(KnownF {
                        property: p.into(),
                        sig: g.into(),
                        what: it.next().unwrap_or("").into(),
                    });
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            verif,
            start: Instant::now(),
            only_case,
            inner: Mutex::new(Inner::default()),
            known,
            rules: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn rule(&self, s: &str) {
        self.rules.lock().unwrap().push(s.into());
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn count(&self, k: &str, n: u64) {
        *self
            .inner
            .lock()
            .unwrap()
            .counts
            .entry(k.into())
            .or_default() += n;
    }
    pub fn inconclusive(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().inconclusive.push(s.into());
    }
    pub fn has_violation(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    fn known_for(&self, sig: &str) -> Option<&KnownF> {
        self.known
            .iter()
            .find(|k| k.property == self.prop && k.sig == sig)
    }
    pub fn case_seed(&self, group: &str, idx: u64) -> u64 {
        hash64(&[hash_str(&self.prop), hash_str(group), self.seed, idx])
    }

    /// Run cases 0..n of `group` on `threads` threads within `secs` seconds.
    /// At least `min` cases always run.
    pub fn cases(
        &self,
        group: &str,
        n: u64,
        secs: f64,
        threads: usize,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        if let Some((g, _)) = &self.only_case {
            if g != group {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let body = || loop {
            let idx = next.fetch_add(1, Ordering::SeqCst) as u64;
            if idx >= n || (t0.elapsed().as_secs_f64() > secs) || self.n_violations(group) >= 3 {
                break;
            }
            if let Some((_, only)) = &self.only_case {
                if *only != idx {
                    continue;
                }
            }
            self.one(group, idx, &f);
        };
        std::thread::scope(|s| {
            for _ in 0..threads.max(1) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, body)
                    .unwrap();
            }
        });
        let done = (next.load(Ordering::SeqCst) as u64).min(n);
        eprintln!(
            "[{}] {group}: {done} cases in {:.1}s",
            self.prop,
            t0.elapsed().as_secs_f64()
        );
    }
    fn n_violations(&self, group: &str) -> usize {
        self.inner
            .lock()
            .unwrap()
            .violations
            .iter()
            .filter(|v| v.0 == group)
            .count()
    }

    pub fn one(&self, group: &str, idx: u64, f: &(impl Fn(&mut Case) -> Res + Sync)) {
        let mut c = Case {
            idx,
            rng: R64::seed_from_u64(self.case_seed(group, idx)),
            desc: String::new(),
            key: 0,
            counts: BTreeMap::new(),
            known: vec![],
            sub: vec![],
        };
        let t0 = std::time::Instant::now();
        let r = guard(|| f(&mut c));
        if std::env::var("VP_SLOW").is_ok() && t0.elapsed().as_secs() >= 5 {
            eprintln!("slow case {group}#{idx}: {:?} {}", t0.elapsed(), c.desc);
        }
        let r = match r {
            Ok(r) => r,
            Err(m) => Err(Fail {
                sig: "panic".into(),
                msg: m,
            }),
        };
        let mut inner = self.inner.lock().unwrap();
        inner.evals += 1;
        if c.key != 0 {
            inner.keys.insert(hash64(&[hash_str(group), c.key]));
        }
        for s in &c.sub {
            inner.keys.insert(hash64(&[hash_str(group), *s]));
        }
        *inner.counts.entry(format!("cases:{group}")).or_default() += 1;
        for (k, v) in &c.counts {
            *inner.counts.entry(k.to_string()).or_default() += v;
        }
        let sm = inner.samples.entry(group.to_string()).or_default();
        if sm.len() < 2 && !c.desc.is_empty() {
            sm.push(format!("{group}#{idx}: {}", c.desc));
        }
        let mut fails = c.known.clone();
        if let Err(f) = r {
            fails.push(f);
        }
        for f in fails {
            if let Some(k) = self.known_for(&f.sig) {
                let e = inner
                    .known_seen
                    .entry(f.sig.clone())
                    .or_insert((k.what.clone(), 0));
                e.1 += 1;
            } else {
                inner
                    .violations
                    .push((group.to_string(), idx, f, c.desc.clone()));
            }
        }
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(self) -> i32 {
        let inner = self.inner.into_inner().unwrap();
        let mut samples: Vec<String> = inner.samples.values().flatten().cloned().collect();
        samples.truncate(40);
        let rule = self.rules.lock().unwrap().join(" ");
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == "thorough" {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": if self.prop == "C21" {"fault_enumeration"} else {"exploration"},
            "coverage": {
                "evaluations": inner.evals,
                "distinct_nontrivial": inner.keys.len(),
                "rule": format!("{rule} A case is counted as distinct by the hash of its full description; trivial cases carry none."),
                "samples": samples,
                "observed": inner.counts,
                "known_findings_seen": inner.known_seen.iter().map(|(k,(w,n))| format!("{k} x{n}: {w}")).collect::<Vec<_>>(),
                "inconclusive": inner.inconclusive,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": inner.violations.len(),
        });
        if self.only_case.is_none() {
            let d = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&d);
            std::fs::write(
                d.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .unwrap();
        }
        for (sig, (what, n)) in &inner.known_seen {
            println!(
                "KNOWN-FINDING: property={} {} (sig={sig}, seen {n} times)",
                self.prop, what
            );
        }
        for s in &inner.inconclusive {
            println!("INCONCLUSIVE: {s}");
        }
        if !inner.violations.is_empty() {
            let d = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&d);
            for (i, (group, idx, f, desc)) in inner.violations.iter().enumerate() {
                let p = d.join(format!("{}-{}.json", self.prop, i));
                let j = serde_json::json!({"property": self.prop, "group": group, "case": idx, "seed": self.seed, "tier": self.tier,
                    "sig": f.sig, "message": f.msg, "case_description": desc,
                    "replay": format!("VERIF_SEED={} VERIF_TIER={} ./check {} --case {} {}", self.seed, self.tier, self.prop, group, idx)});
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
                if i < 12 {
                    println!(
                        "  {group}#{idx} sig={} {} | {}",
                        f.sig,
                        f.msg.chars().take(1500).collect::<String>(),
                        desc.chars().take(600).collect::<String>()
                    );
                }
                if i == 0 {
                    println!("VIOLATION property={} replay={}", self.prop, p.display());
                }
            }
            return 1;
        }
        if !inner.inconclusive.is_empty() && inner.evals == 0 {
            return 2;
        }
        if inner.evals == 0 || inner.keys.is_empty() {
            if self.only_case.is_none() {
                println!("the run observed nothing");
                return 2;
            }
        }
        println!(
            "OK property={} evaluations={} distinct={} wall={:.1}s",
            self.prop,
            inner.evals,
            inner.keys.len(),
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

/// Runs `f` on a watched thread. None when it does not return within `secs` (generous: see DESIGN.md).
pub fn watched<T: Send + 'static>(
    secs: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> Option<Result<T, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let _ = tx.send(guard(f));
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
}
