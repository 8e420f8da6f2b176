//! Reporting, evidence, known findings, parallel enumeration.
use bellpepper_core::SynthesisError;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const VERIF: &str = "/verif";

/// When to stop, in milliseconds after the start; and how long one search may take.
static STOP: AtomicU64 = AtomicU64::new(u64::MAX);
static SEARCH: AtomicU64 = AtomicU64::new(u64::MAX);
static START: OnceLock<Instant> = OnceLock::new();
fn since_start() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}
/// is it time to report what has been found?
pub fn out_of_time() -> bool {
    let s = STOP.load(Ordering::Relaxed);
    s != u64::MAX && since_start() >= s
}
pub fn search_limit() -> u64 {
    SEARCH.load(Ordering::Relaxed)
}
fn stop_by(ms: u64) {
    STOP.fetch_min(ms, Ordering::Relaxed);
}

#[derive(Default)]
struct Inner {
    states: u64,
    transitions: u64,
    validated: u64,
    evaluations: u64,
    outcomes: BTreeMap<String, u64>,
    samples: BTreeMap<String, String>,
    violations: BTreeMap<String, String>,
    known_hit: BTreeMap<String, String>,
    notes: BTreeMap<String, u64>,
    capped: u64,
    stuck: u64,
    unexplored: u64,
}

pub struct Known {
    pub key: String,
    pub desc: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub only: Option<String>,
    known: Vec<Known>,
    inner: Mutex<Inner>,
    t0: Instant,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn load_known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", VERIF)) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix(&format!("property={} key=", id)) {
                let mut it = r.splitn(2, ' ');
                let key = it.next().unwrap_or("").to_string();
                let desc = it.next().unwrap_or("").to_string();
                v.push(Known { key, desc });
            }
        }
    }
    v
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, only: Option<String>) -> Self {
        // far more than is needed on a tree that holds; a changed one may make searches explode
        let limit = std::env::var("VERIF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(700);
        stop_by(since_start() + limit * 1000);
        SEARCH.store(if thorough { 60_000 } else { 15_000 }, Ordering::Relaxed);
        Ctx {
            id: id.to_string(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level: "model_checking",
            rule: "",
            assumptions: vec![],
            only,
            known: load_known(id),
            inner: Mutex::new(Inner::default()),
            t0: Instant::now(),
        }
    }
    /// `quick` or `thorough` bound
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// when replaying one case: is this another one?
    pub fn skips(&self, key: &str) -> bool {
        self.only.as_ref().map(|o| !o.starts_with(key)).unwrap_or(false)
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn stats(&self, s: &crate::explore::Stats) {
        let mut i = self.inner.lock().unwrap();
        i.states += s.states;
        i.transitions += s.transitions;
        if s.capped {
            i.capped += 1;
        }
        if s.stuck {
            i.stuck += 1;
        }
    }
    /// states/transitions of a hand-driven exploration
    pub fn visited(&self, states: u64, transitions: u64) {
        let mut i = self.inner.lock().unwrap();
        i.states += states;
        i.transitions += transitions;
    }
    pub fn validated(&self, n: u64) {
        self.inner.lock().unwrap().validated += n;
    }
    /// one execution of the implementation with outcome class `o`
    pub fn eval(&self, o: &str) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        *i.outcomes.entry(o.to_string()).or_default() += 1;
    }
    pub fn merge(&self, l: Local) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += l.outcomes.values().sum::<u64>();
        for (k, v) in l.outcomes {
            *i.outcomes.entry(k.to_string()).or_default() += v;
        }
        i.states += l.st.states;
        i.transitions += l.st.transitions;
        i.capped += l.st.capped as u64;
        i.stuck += l.st.stuck as u64;
        i.validated += l.validated;
    }
    pub fn note(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().notes.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&self, class: &str, s: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 40 && !i.samples.contains_key(class) {
            let v = s();
            i.samples.insert(class.to_string(), v);
        }
    }
    pub fn fail(&self, key: &str, desc: impl FnOnce() -> String) {
        let key: String = key.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        let mut i = self.inner.lock().unwrap();
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            i.known_hit.insert(key, k.desc.clone());
            return;
        }
        *i.notes.entry("violating_cases".into()).or_default() += 1;
        if i.violations.len() < 200 && !i.violations.contains_key(&key) {
            let d = desc();
            i.violations.insert(key, d);
            // enough is known: a minute for what else there is
            stop_by(since_start() + 60_000);
        }
    }
    pub fn failed(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }

    /// Write evidence, print the verdict, return the exit code.
    pub fn finish(self, exhaustive: bool) -> i32 {
        let i = self.inner.into_inner().unwrap();
        let nviol = i.violations.len();
        let mut o = String::new();
        o.push_str("{\n");
        o.push_str(&format!("  \"property\": {},\n", js(&self.id)));
        o.push_str(&format!("  \"tier\": {},\n", js(if self.thorough { "thorough" } else { "quick" })));
        o.push_str(&format!("  \"seed\": {},\n", self.seed));
        o.push_str(&format!("  \"level\": {},\n", js(self.level)));
        o.push_str("  \"coverage\": {\n");
        if self.level == "model_checking" {
            o.push_str(&format!(
                "    \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n",
                i.states, i.transitions, i.validated
            ));
            o.push_str(&format!("    \"implementation_runs\": {},\n", i.evaluations));
        } else {
            o.push_str(&format!("    \"evaluations\": {},\n", i.evaluations));
            let triv: u64 = i.outcomes.iter().filter(|x| x.0.starts_with("trivial")).map(|x| *x.1).sum();
            o.push_str(&format!("    \"distinct_nontrivial\": {},\n", i.evaluations - triv));
        }
        o.push_str(&format!("    \"rule\": {},\n", js(self.rule)));
        o.push_str(&format!("    \"exhaustive\": {},\n", exhaustive && i.capped == 0 && i.stuck == 0 && i.unexplored == 0));
        o.push_str(&format!("    \"searches_capped\": {}, \"searches_not_enumerable\": {}, \"jobs_unexplored\": {},\n", i.capped, i.stuck, i.unexplored));
        o.push_str("    \"outcomes\": {");
        o.push_str(&i.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n    \"detail\": {");
        o.push_str(&i.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n    \"samples\": [");
        o.push_str(
            &i.samples.iter().map(|(k, v)| format!("\n      {}", js(&format!("{}: {}", k, v)))).collect::<Vec<_>>().join(","),
        );
        o.push_str("\n    ]\n  },\n");
        o.push_str("  \"assumptions\": [");
        o.push_str(&self.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n");
        o.push_str(&format!("  \"violations\": {},\n", nviol));
        o.push_str(&format!("  \"wall_s\": {:.2}\n", self.t0.elapsed().as_secs_f64()));
        o.push_str("}\n");
        let _ = std::fs::create_dir_all(format!("{}/evidence", VERIF));
        if self.only.is_none() {
            if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", VERIF, self.id), o) {
                println!("error: cannot write evidence: {}", e);
                return 2;
            }
        }
        println!(
            "{} {}: states={} transitions={} runs={} validated={} capped={} stuck={} outcomes={:?} wall={:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            i.states,
            i.transitions,
            i.evaluations,
            i.validated,
            i.capped,
            i.stuck,
            i.outcomes,
            self.t0.elapsed().as_secs_f64()
        );
        for (k, d) in &i.known_hit {
            println!("KNOWN-FINDING: property={} key={} {}", self.id, k, d);
        }
        if i.capped + i.unexplored > 0 {
            println!("INCOMPLETE: {} searches stopped short, {} jobs not begun", i.capped, i.unexplored);
        }
        if nviol == 0 {
            return 0;
        }
        let dir = format!("{}/out", VERIF);
        let _ = std::fs::create_dir_all(&dir);
        for (n, (k, d)) in i.violations.iter().enumerate() {
            let path = format!("{}/{}-{:03}.txt", dir, self.id, n);
            let _ = std::fs::write(
                &path,
                format!(
                    "property={}\nkey={}\n\n{}\n\nreplay: cd /verif && ./check.sh {} {} --only '{}'\n",
                    self.id,
                    k,
                    d,
                    self.id,
                    if self.thorough { "thorough" } else { "quick" },
                    k
                ),
            );
            if n < 12 {
                println!("VIOLATION property={} replay={}", self.id, path);
                let dd: String = d.chars().take(600).collect();
                println!("  key={}\n  {}", k, dd.replace('\n', "\n  "));
            }
        }
        if nviol > 12 {
            println!("  ... {} more (see {})", nviol - 12, dir);
        }
        1
    }
}

/// Thread-local accumulation, to keep the lock out of hot loops.
#[derive(Default)]
pub struct Local {
    pub outcomes: BTreeMap<&'static str, u64>,
    pub st: crate::explore::Stats,
    pub validated: u64,
}
impl Local {
    pub fn eval(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_default() += 1;
    }
}

#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn why(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error: {}", e),
            Out::Panic(e) => format!("panic: {}", e),
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run library code; panics and errors become values.
pub fn guard<T>(f: impl FnOnce() -> Result<T, SynthesisError>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(format!("{}", e)),
        Err(e) => Out::Panic(panic_text(&*e)),
    }
}
pub fn guardp<T>(f: impl FnOnce() -> T) -> Out<T> {
    guard(|| Ok(f()))
}

pub fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
}

/// Run `f` on every item, on all cores.  A panic that reaches here comes from library code that a
/// case did not expect to fail: it is reported as a violation of that case.
pub fn par_for<T: Sync>(ctx: &Ctx, items: &[T], key: impl Fn(&T) -> String + Sync, f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        return;
                    }
                    if out_of_time() {
                        ctx.inner.lock().unwrap().unexplored += 1;
                        continue;
                    }
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&items[i]))) {
                        let t = panic_text(&*e);
                        if t.starts_with("HARNESS") {
                            println!("internal error in case {}: {}", key(&items[i]), t);
                            std::process::exit(2);
                        }
                        ctx.fail(&format!("{}/panic", key(&items[i])), || format!("unexpected panic: {}", t));
                    }
                })
                .expect("spawn");
        }
    });
}

/// All vectors of length `n` over `alphabet`.
pub fn product<T: Clone>(alphabet: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = Vec::with_capacity(out.len() * alphabet.len());
        for o in &out {
            for a in alphabet {
                let mut x = o.clone();
                x.push(a.clone());
                nx.push(x);
            }
        }
        out = nx;
    }
    out
}
