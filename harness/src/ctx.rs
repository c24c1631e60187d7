//! Per-shard record of what the monitors observed.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub verbose: bool,
    nviol: u64,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        Ctx {
            prop: prop.into(),
            seed,
            idx: 0,
            thorough,
            evals: 0,
            distinct: HashSet::new(),
            stats: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            verbose: false,
            nviol: 0,
        }
    }
    pub fn stat(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.stats.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    /// One non-trivial case was decided; `key` identifies it.
    pub fn nontrivial(&mut self, key: &str) {
        self.distinct.insert(crate::rng::hash_str(key));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 4 {
            let v = v();
            self.samples.push(v);
        }
    }
    /// The monitor saw the property broken. `input` identifies the failing case exactly.
    pub fn viol(&mut self, input: &str, what: &str, detail: Value) {
        self.nviol += 1;
        if self.verbose {
            println!("VIOL input={input:?}\n  what={what}\n  detail={detail:#}");
        }
        if self.violations.len() < std::env::var("MC_KEEP").ok().and_then(|v| v.parse().ok()).unwrap_or(12) {
            self.violations.push(json!({"input": input, "what": what, "detail": detail, "idx": self.idx, "seed": self.seed}));
        }
    }
    pub fn json(&self) -> Value {
        json!({"property": self.prop, "seed": self.seed, "evaluations": self.evals,
            "distinct": self.distinct.len(), "stats": self.stats, "samples": self.samples,
            "violations": self.violations, "violation_count": self.nviol})
    }
}

/// Allocation accounting: a logical measure of the work and memory a conversion takes.
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    pub struct Counting;
    thread_local! {
        static LIVE: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
        static TOTAL: Cell<usize> = const { Cell::new(0) };
    }
    fn upd(d: isize) {
        let _ = LIVE.try_with(|l| {
            let v = l.get() + d;
            l.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
        if d > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(d as usize)));
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            upd(l.size() as isize);
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            upd(-(l.size() as isize));
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            upd(l.size() as isize);
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            upd(n as isize - l.size() as isize);
            unsafe { System.realloc(p, l, n) }
        }
    }
    /// Peak of live bytes allocated on this thread while `f` ran.
    pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
        let base = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(base));
        let t0 = TOTAL.with(|t| t.get());
        let r = f();
        let peak = PEAK.with(|p| p.get()) - base;
        let tot = TOTAL.with(|t| t.get()).wrapping_sub(t0);
        (r, peak.max(0) as usize, tot)
    }
}
