use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Default)]
pub struct Local {
    pub programs: u64,
    pub calls: u64,
    pub steps: u64,
    pub tally: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Value>,
    pub violations: BTreeMap<String, Vec<Value>>,
    pub counts: BTreeMap<String, u64>,
    /// For each kind, a sum over the failing inputs: tells two sets of the
    /// same size apart.
    pub digests: BTreeMap<String, u64>,
}

fn digest(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3)
    })
}

/// What each worker is doing, for the watchdog: (program, since when).
type Busy = Mutex<Option<(String, Instant)>>;

/// One shard per worker thread; merged in report().
pub struct Stats(Vec<Mutex<Local>>, Vec<Busy>);

impl Stats {
    pub fn new() -> Self {
        Self(
            (0..65).map(|_| Mutex::new(Local::default())).collect(),
            (0..65).map(|_| Mutex::new(None)).collect(),
        )
    }
    pub fn begin(&self, prog: &str) {
        let i = rayon::current_thread_index().map_or(64, |i| i % 64);
        *self.1[i].lock().unwrap() = Some((prog.to_owned(), Instant::now()));
    }
    /// A program that takes longer than `secs` ends the run: every call made
    /// here is bounded by its arguments and normally takes milliseconds.
    pub fn watch(&'static self, secs: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            for busy in &self.1 {
                let Some((prog, since)) = busy.lock().unwrap().clone() else {
                    continue;
                };
                if since.elapsed().as_secs() > secs {
                    self.violate("no-answer", &prog, json!({"seconds": secs}));
                    println!("{}", self.report());
                    std::process::exit(0);
                }
            }
        });
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Local) -> T) -> T {
        let i = rayon::current_thread_index().map_or(64, |i| i % 64);
        f(&mut self.0[i].lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn count(&self, key: &str) {
        self.with(|l| *l.tally.entry(key.to_owned()).or_default() += 1);
    }
    pub fn sample(&self, key: &str, v: impl FnOnce() -> Value) {
        self.with(|l| {
            if !l.samples.contains_key(key) {
                l.samples.insert(key.to_owned(), v());
            }
        });
    }
    pub fn ran(&self, calls: u64, steps: u64) {
        let i = rayon::current_thread_index().map_or(64, |i| i % 64);
        *self.1[i].lock().unwrap() = None;
        self.with(|l| {
            l.programs += 1;
            l.calls += calls;
            l.steps += steps;
        });
    }
    pub fn violate(&self, kind: &str, prog: &str, detail: Value) {
        self.with(|l| {
            *l.counts.entry(kind.to_owned()).or_default() += 1;
            let d = l.digests.entry(kind.to_owned()).or_default();
            *d = d.wrapping_add(digest(prog));
            let v = l.violations.entry(kind.to_owned()).or_default();
            v.push(json!({"prog": prog, "detail": detail}));
            // keep the smallest programs first, and not too many
            if v.len() > 400 {
                v.sort_by_key(|x| {
                    let s = x["prog"].as_str().unwrap_or("");
                    (s.len(), s.to_owned())
                });
                v.truncate(200);
            }
        });
    }
    pub fn report(&self) -> Value {
        let mut all = Local::default();
        for shard in &self.0 {
            let l = std::mem::take(&mut *shard.lock().unwrap());
            all.programs += l.programs;
            all.calls += l.calls;
            all.steps += l.steps;
            for (k, n) in l.counts {
                *all.counts.entry(k).or_default() += n;
            }
            for (k, n) in l.digests {
                let d = all.digests.entry(k).or_default();
                *d = d.wrapping_add(n);
            }
            for (k, n) in l.tally {
                *all.tally.entry(k).or_default() += n;
            }
            for (k, v) in l.samples {
                all.samples.entry(k).or_insert(v);
            }
            for (k, v) in l.violations {
                all.violations.entry(k).or_default().extend(v);
            }
        }
        let l = &mut all;
        {
            let mut viol = serde_json::Map::new();
            for (k, v) in &mut l.violations {
                v.sort_by_key(|x| {
                    let s = x["prog"].as_str().unwrap_or("");
                    (s.len(), s.to_owned())
                });
                v.truncate(200);
                viol.insert(k.clone(), json!(v));
            }
            json!({
                "programs": l.programs, "calls": l.calls, "ref_steps": l.steps,
                "tally": l.tally, "samples": l.samples,
                "violations": viol, "counts": l.counts,
                "digests": l.digests,
            })
        }
    }
}
