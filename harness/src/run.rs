//! Worker side of the supervision protocol: runs numbered cases, records what
//! was observed, writes the current case number to a journal before each case
//! so that the supervisor can attribute crashes and hangs.
use crate::rng::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub idx: u64,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    /// set by replay: print details
    pub verbose: bool,
    /// which build of the worker this is (chk, rel, asan, ...)
    pub stage: String,
}

/// Set while the harness itself panics on purpose.
pub static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static LAST_PANIC: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

impl Ctx {
    pub fn rng(&self) -> Rng {
        Rng::new(mix(self.seed) ^ hash_str(&self.prop) ^ mix(self.idx.wrapping_mul(77)))
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{k}");
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One execution observed; `h` identifies it, `nontrivial` by the check's rule.
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.evals += 1;
        // bounded memory: beyond this the distinct count is a lower bound
        if nontrivial && self.nontrivial.len() < 200_000 {
            self.nontrivial.insert(h);
        }
    }
    pub fn seen(&mut self, set: &str, h: u64) {
        if !self.sets.contains_key(set) {
            self.sets.insert(set.to_string(), HashSet::new());
        }
        let s = self.sets.get_mut(set).unwrap();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let (sig, msg) = (sig.into(), msg.into());
        if self.violations.len() < 50 {
            self.violations.push(Violation { sig, msg, idx: self.idx });
        }
    }
    pub fn inconclusive(&mut self, msg: impl Into<String>) {
        self.inconclusive.push(msg.into());
    }
}

/// Reports ThreadSanitizer wrote to its log, judged by the innermost frame that
/// is neither std nor the sanitizer's: only accesses made by rtbvh (or, on
/// memory of rtbvh, by this harness) count; the thread pool's own deliberate
/// speculative reads and fence-based protocols, which ThreadSanitizer does not
/// understand, do not.
struct SanLog {
    path: Option<String>,
    at: usize,
}

enum Access {
    Ours,
    Other,
    Unknown,
}

fn judge(stack: &[&str]) -> Access {
    for l in stack {
        if l.contains("rustlib/src/") || l.contains("compiler-rt") || l.contains("/glam-") {
            continue;
        }
        if l.contains("registry/src/") {
            return Access::Other;
        }
        if l.contains("/repo/") || l.contains("/harness/src/") || l.contains(" src/") {
            return Access::Ours;
        }
    }
    Access::Unknown
}

impl SanLog {
    fn new() -> SanLog {
        let path = std::env::var("VH_SANLOG").ok().map(|p| format!("{p}.{}", std::process::id()));
        SanLog { path, at: 0 }
    }
    /// (text of the first report that counts, reports that do not, unjudgeable ones)
    fn news(&mut self) -> (Option<String>, u64, u64) {
        let Some(p) = &self.path else { return (None, 0, 0) };
        let Ok(t) = std::fs::read(p) else { return (None, 0, 0) };
        if t.len() <= self.at {
            return (None, 0, 0);
        }
        let text = String::from_utf8_lossy(&t[self.at..]).into_owned();
        self.at = t.len();
        let (mut ours, mut other, mut unknown) = (None, 0, 0);
        for rep in text.split("WARNING: ThreadSanitizer: ").skip(1) {
            if !(rep.starts_with("data race") || rep.starts_with("heap-use-after-free") || rep.starts_with("race on")) {
                other += 1;
                continue;
            }
            // the access stacks: paragraphs headed by "Write of size", "Previous read of size", ...
            let mut stacks: Vec<Vec<&str>> = vec![];
            let mut on = false;
            for l in rep.lines().skip(1) {
                if !l.starts_with("    ") {
                    on = l.to_lowercase().contains(" of size ") && l.contains(" by ");
                    if on {
                        stacks.push(vec![]);
                    }
                } else if on {
                    stacks.last_mut().unwrap().push(l);
                }
            }
            let v: Vec<Access> = stacks.iter().map(|s| judge(s)).collect();
            if v.iter().any(|a| matches!(a, Access::Ours)) {
                if ours.is_none() {
                    ours = Some(rep.chars().take(6000).collect::<String>());
                }
            } else if v.iter().any(|a| matches!(a, Access::Other)) {
                other += 1;
            } else {
                unknown += 1;
            }
        }
        (ours, other, unknown)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Runs cases `shard, shard + nshards, ...`: at least every index below
/// `must`, then more until the time budget is used.
pub fn run(prop: &str, must_quick: u64, must_thorough: u64, mut f: impl FnMut(&mut Ctx)) {
    if std::env::args().any(|a| a == "--noop") {
        std::process::exit(0);
    }
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if arg("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let shard: u64 = arg("--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
    let nshards: u64 = arg("--nshards").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let only: Option<u64> = arg("--only").and_then(|s| s.parse().ok());
    let must_div: u64 = arg("--must-div").and_then(|s| s.parse().ok()).unwrap_or(1);
    let journal = arg("--journal").map(|p| {
        std::fs::OpenOptions::new().create(true).write(true).open(p).expect("journal")
    });
    let out = arg("--out");
    let must = if tier == Tier::Thorough { must_thorough } else { must_quick } / must_div.max(1);

    std::panic::set_hook(Box::new(|info| {
        if QUIET.load(std::sync::atomic::Ordering::SeqCst) {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("panic: {msg} at {loc}");
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 64 {
            g.push((msg, loc));
        }
    }));

    let mut cx = Ctx {
        prop: prop.to_string(),
        tier,
        seed,
        idx: 0,
        evals: 0,
        nontrivial: HashSet::new(),
        counters: BTreeMap::new(),
        sets: BTreeMap::new(),
        samples: vec![],
        violations: vec![],
        inconclusive: vec![],
        verbose: only.is_some(),
        stage: arg("--stage").unwrap_or_default(),
    };
    let start = Instant::now();
    let mut sanlog = SanLog::new();
    let mut cases = 0u64;
    let mut harness_error = None;
    let mut idx = only.unwrap_or(shard);
    loop {
        if only.is_none() && idx >= must && start.elapsed().as_secs_f64() > budget {
            break;
        }
        cx.idx = idx;
        if let Some(j) = &journal {
            let _ = j.write_at(format!("{idx:>12}\n").as_bytes(), 0);
        }
        LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        cases += 1;
        let (ours, other, unknown) = sanlog.news();
        if other + unknown > 0 {
            cx.count("tsan_reports_inside_the_thread_pool", other);
            cx.count("tsan_reports_without_frames", unknown);
        }
        if let Some(rep) = ours {
            cx.fail("data-race", format!("ThreadSanitizer: {rep}"));
        }
        let panics: Vec<(String, String)> =
            LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if r.is_err() {
            // The first panic recorded is the cause; later ones are join errors.
            let (msg, loc) = panics.first().cloned().unwrap_or_default();
            if loc.starts_with("src/") {
                harness_error = Some(format!("harness panic in case {idx}: {msg} at {loc}"));
                break;
            }
            cx.fail("panic", format!("panicked: {msg} at {loc}"));
        }
        if !cx.violations.is_empty() {
            break;
        }
        if only.is_some() {
            break;
        }
        idx += nshards;
    }
    // Report
    let mut o = String::from("{");
    o += &format!("\"cases\":{cases},\"evals\":{},\"nontrivial\":{},", cx.evals, cx.nontrivial.len());
    o += "\"nontrivial_hashes\":[";
    let mut first = true;
    for h in cx.nontrivial.iter().take(200_000) {
        if !first {
            o.push(',');
        }
        first = false;
        o += &format!("{h}");
    }
    o += "],\"counters\":{";
    let mut first = true;
    for (k, v) in &cx.counters {
        if !first {
            o.push(',');
        }
        first = false;
        o += &format!("{}:{}", esc(k), v);
    }
    o += "},\"sets\":{";
    let mut first = true;
    for (k, v) in &cx.sets {
        if !first {
            o.push(',');
        }
        first = false;
        o += &format!("{}:[", esc(k));
        let mut f2 = true;
        for h in v.iter().take(200_000) {
            if !f2 {
                o.push(',');
            }
            f2 = false;
            o += &format!("{h}");
        }
        o.push(']');
    }
    o += "},\"samples\":[";
    o += &cx.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    o += "],\"inconclusive\":[";
    o += &cx.inconclusive.iter().take(20).map(|s| esc(s)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &cx
        .violations
        .iter()
        .map(|v| format!("{{\"sig\":{},\"msg\":{},\"idx\":{}}}", esc(&v.sig), esc(&v.msg), v.idx))
        .collect::<Vec<_>>()
        .join(",");
    o += "]";
    if let Some(e) = &harness_error {
        o += &format!(",\"harness_error\":{}", esc(e));
    }
    o += "}\n";
    if let Some(p) = out {
        std::fs::write(p, o).expect("write result");
    } else {
        let mut lock = std::io::stdout().lock();
        if only.is_some() || cx.violations.len() > 0 {
            for v in &cx.violations {
                let _ = writeln!(lock, "violation [{}] case {}: {}", v.sig, v.idx, v.msg);
            }
        }
        let _ = writeln!(lock, "cases {cases} evals {} nontrivial {} {:?} sets {:?} {:?}", cx.evals, cx.nontrivial.len(), cx.counters, cx.sets.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>(), harness_error);
        for s in &cx.samples {
            let _ = writeln!(lock, "sample {s}");
        }
    }
    std::process::exit(if harness_error.is_some() {
        3
    } else if cx.violations.is_empty() {
        0
    } else {
        1
    });
}
