//! Property-based testing engine with integrated shrinking.
//!
//! Every random decision of a property goes through [`Gen`], which records it as a
//! number ("choice").  A case *is* its choice sequence: running a property on the same
//! sequence reproduces the same case bit for bit, and a failing case is shrunk by deleting
//! and lowering choices and re-running the property on the result (the approach used by
//! Hypothesis).  The same entry point is driven by a PRNG (quick and thorough tiers) and by
//! libFuzzer bytes (fuzz crate).

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    // FNV-1a over (seed, id, index); independent of the standard library's hasher.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut eat = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    };
    for b in seed.to_le_bytes() {
        eat(b)
    }
    for b in id.bytes() {
        eat(b)
    }
    for b in index.to_le_bytes() {
        eat(b)
    }
    let mut r = Rng::new(h);
    r.next();
    r.next()
}

enum Source<'a> {
    Random(Rng),
    Replay(&'a [u64], usize),
    Bytes(&'a [u8], usize),
}

/// Source of all choices of one case.
pub struct Gen<'a> {
    src: Source<'a>,
    rec: Vec<u64>,
    /// 0 = quick, 1 = thorough; part of the case (recorded in replay files).
    pub tier: u8,
    /// choices are also written here as they are drawn (used to isolate crashing cases)
    pub stream: Option<std::io::BufWriter<std::fs::File>>,
}

pub const MAX_CHOICES: usize = 400_000;

impl<'a> Gen<'a> {
    pub fn random(seed: u64, tier: u8) -> Gen<'static> {
        Gen { src: Source::Random(Rng::new(seed)), rec: Vec::new(), tier, stream: None }
    }
    pub fn replay(choices: &'a [u64], tier: u8) -> Gen<'a> {
        Gen { src: Source::Replay(choices, 0), rec: Vec::new(), tier, stream: None }
    }
    pub fn bytes(data: &'a [u8], tier: u8) -> Gen<'a> {
        Gen { src: Source::Bytes(data, 0), rec: Vec::new(), tier, stream: None }
    }
    pub fn recorded(&self) -> &[u64] {
        &self.rec
    }
    pub fn into_recorded(self) -> Vec<u64> {
        self.rec
    }

    /// Uniform in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = if max == 0 {
            return 0;
        } else if self.rec.len() > MAX_CHOICES {
            0
        } else {
            match &mut self.src {
                Source::Random(r) => {
                    if max == u64::MAX {
                        r.next()
                    } else {
                        // multiply-shift; the bias is irrelevant here
                        ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64
                    }
                }
                Source::Replay(c, pos) => {
                    let v = c.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                    v.min(max)
                }
                Source::Bytes(b, pos) => {
                    let nbytes = if max <= 0xff { 1 } else if max <= 0xffff { 2 } else if max <= 0xffff_ffff { 4 } else { 8 };
                    let mut v: u64 = 0;
                    for _ in 0..nbytes {
                        v = (v << 8) | b.get(*pos).copied().unwrap_or(0) as u64;
                        *pos += 1;
                    }
                    if max == u64::MAX { v } else { v % (max + 1) }
                }
            }
        };
        self.rec.push(v);
        if let Some(w) = &mut self.stream {
            use std::io::Write;
            let _ = w.write_all(&v.to_le_bytes());
            let _ = w.flush();
        }
        v
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    /// True with probability `num/den`; `false` is the simpler value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut x = self.draw(tot - 1);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// Permutation of `0..n` (identity is the simplest).
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.draw((n - 1 - i) as u64) as usize;
            p.swap(i, j);
        }
        p
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.draw((n - 1 - i) as u64) as usize;
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

/// Collects what happened in one case.
#[derive(Default)]
pub struct Cx {
    pub failures: Vec<Failure>,
    pub input: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub subchecks: u64,
}

impl Cx {
    pub fn input(&mut self, x: &impl Debug) {
        use std::fmt::Write;
        let _ = write!(self.input, "{x:?} ");
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l)
        }
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        if self.failures.len() < 50 {
            self.failures.push(Failure { sig: sig.to_string(), msg });
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, sig: &str, got: T, want: T) -> bool {
        self.subchecks += 1;
        if got != want {
            let mut g = format!("{got:?}");
            let mut w = format!("{want:?}");
            g.truncate(g.char_indices().nth(1500).map(|x| x.0).unwrap_or(g.len()));
            w.truncate(w.char_indices().nth(1500).map(|x| x.0).unwrap_or(w.len()));
            self.fail(sig, format!("got {g}, expected {w}"));
            return false;
        }
        true
    }
    pub fn ok(&mut self, sig: &str, cond: bool, msg: impl FnOnce() -> String) -> bool {
        self.subchecks += 1;
        if !cond {
            self.fail(sig, msg());
        }
        cond
    }
}

/// Where cases put their files; the supervisor removes it at the end.
pub static SCRATCH_BASE: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

/// A fresh directory for one case, removed when dropped (also while unwinding).
pub struct CaseDir(pub std::path::PathBuf);
impl CaseDir {
    pub fn new() -> CaseDir {
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let base = SCRATCH_BASE.get().cloned().unwrap_or_else(std::env::temp_dir);
        let k = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = base.join(format!("gbcase-{}-{k}", std::process::id()));
        std::fs::create_dir(&p).expect("scratch directory");
        CaseDir(p)
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for CaseDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = format!("{loc}: {msg}");
                }
            });
        } else {
            old(info)
        }
    }));
}

/// Runs `f`, returning the panic message if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub type PropFn = fn(&mut Gen, &mut Cx);

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    /// cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub struct Outcome {
    pub cx: Cx,
    pub choices: Vec<u64>,
}

/// Runs one case to the end. Panics of the code under test (or of an assertion in it) are failures.
pub fn run_case(p: &Prop, mut g: Gen) -> Outcome {
    let mut cx = Cx::default();
    if let Err(msg) = guarded(|| (p.run)(&mut g, &mut cx)) {
        cx.fail("panic", format!("panicked at {msg}"));
    }
    Outcome { cx, choices: g.into_recorded() }
}

pub fn is_violation(cx: &Cx, known: &HashSet<String>) -> bool {
    cx.failures.iter().any(|f| !known.contains(&f.sig))
}

/// Shrinks a failing choice sequence; `fails` re-runs a candidate and returns its *recorded*
/// sequence if it still fails.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    fn smaller(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    let mut best = start;
    let mut used = 0usize;
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>, used: &mut usize| -> bool {
        if *used >= budget {
            return false;
        }
        *used += 1;
        if let Some(rec) = fails(&cand) {
            if smaller(&rec, best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // 1. delete chunks, from the end
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 && used < budget {
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                if lo >= c.len() {
                    i = c.len();
                    continue;
                }
                c.drain(lo..i.min(best.len()));
                if attempt(&mut best, c, &mut used) {
                    i = lo.min(best.len());
                } else {
                    i = if size > 4 { lo } else { i - 1 };
                }
            }
            if size == 1 || used >= budget {
                break;
            }
            size /= 2;
        }
        // 2. zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && used < budget {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut best, c, &mut used);
                }
                i = hi;
            }
            if size == 1 || used >= budget {
                break;
            }
            size /= 2;
        }
        // 3. lower single values; also lower a value and delete a later one (length prefixes)
        let mut i = 0;
        while i < best.len() && used < budget {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                while lo < hi && used < budget && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt(&mut best, c, &mut used) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 && best.len() <= 400 {
                    for j in (i + 1)..best.len().min(i + 40) {
                        if j >= best.len() || i >= best.len() || best[i] == 0 || used >= budget {
                            break;
                        }
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(j);
                        attempt(&mut best, c, &mut used);
                    }
                }
            }
            i += 1;
        }
        if best == before || used >= budget {
            return best;
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub subchecks: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    /// (hash, text), the smallest hashes are kept
    pub samples: BTreeMap<u64, String>,
    /// signature -> (count, first message)
    pub known_hits: BTreeMap<String, (u64, String)>,
}

impl Stats {
    pub fn add(&mut self, cx: &Cx, known: &HashSet<String>) {
        self.evaluations += 1;
        self.subchecks += cx.subchecks;
        for l in &cx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        for f in &cx.failures {
            if known.contains(&f.sig) {
                let e = self.known_hits.entry(f.sig.clone()).or_insert_with(|| (0, f.msg.clone()));
                e.0 += 1;
            }
        }
        if cx.nontrivial {
            self.nontrivial += 1;
            let h = hash_str(&cx.input);
            self.distinct.insert(h);
            if cx.input.len() < 1200 {
                self.samples.insert(h, cx.input.trim().to_string());
                if self.samples.len() > 6 {
                    self.samples.pop_last();
                }
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.subchecks += o.subchecks;
        self.distinct.extend(o.distinct);
        for (l, c) in o.labels {
            *self.labels.entry(l).or_insert(0) += c;
        }
        for (h, s) in o.samples {
            self.samples.insert(h, s);
        }
        while self.samples.len() > 6 {
            self.samples.pop_last();
        }
        for (s, (c, m)) in o.known_hits {
            let e = self.known_hits.entry(s).or_insert((0, m));
            e.0 += c;
        }
    }
}
