//! The driver: generation, oracle calls, shrinking, crash isolation, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Sizes: `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<X>(self, q: X, t: X) -> X {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What one case reports about itself, for the evidence.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Ctx {
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
        }
    };
}

/// A part of a property: one generator with one oracle.
pub trait Part: Sync {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static;
    const NAME: &'static str;
    /// Number of generated cases per tier.
    fn cases(tier: Tier) -> u64;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, cx: &mut Ctx) -> Check;
}

/// Object-safe view of a `Part`.
pub trait DynPart: Sync {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn run_range(&self, run: &RunArgs, thread: u64, shared: &Shared) -> ThreadStats;
    fn run_index(&self, run: &RunArgs, index: u64) -> Result<(), Failure>;
    fn shrink_index(&self, run: &RunArgs, index: u64) -> Option<Failure>;
    fn shrink_external(&self, run: &RunArgs, index: u64, budget: usize, limit: std::time::Instant, eval: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value;
    fn run_json(&self, v: &serde_json::Value) -> Result<(), String>;
}

pub struct P<T>(pub core::marker::PhantomData<fn() -> T>);
pub fn part<T: Part + 'static>() -> Box<dyn DynPart> {
    Box::new(P::<T>(core::marker::PhantomData))
}

#[derive(Clone)]
pub struct RunArgs {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub threads: u64,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub index: u64,
    pub case: serde_json::Value,
    pub msg: String,
}

/// Shared between worker threads of one part.
pub struct Shared {
    pub stop: AtomicBool,
    /// one slot per thread: index of the case in flight + 1 (memory shared with the parent)
    pub slots: &'static [AtomicU64],
    pub failure: Mutex<Option<Failure>>,
}

#[derive(Default)]
pub struct ThreadStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, serde_json::Value)>,
    pub rejected: u64,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string panic)".to_string()
    }
}

/// Calls `f`; a panic becomes `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_check<T: Part>(case: &T::Case, cx: &mut Ctx) -> Check {
    match catch(|| T::check(case, cx)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn runner_for(run: &RunArgs, part: &str, index: u64) -> TestRunner {
    let mut seed = [0u8; 32];
    seed[0..8].copy_from_slice(&run.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&fnv(run.id.as_bytes()).to_le_bytes());
    seed[16..24].copy_from_slice(&fnv(part.as_bytes()).to_le_bytes());
    seed[24..32].copy_from_slice(&index.to_le_bytes());
    let config = Config { failure_persistence: None, max_global_rejects: u32::MAX, max_local_rejects: 1_000_000, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

const MAX_SHRINK: usize = 4000;

impl<T: Part> DynPart for P<T> {
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn cases(&self, tier: Tier) -> u64 {
        T::cases(tier)
    }

    fn run_range(&self, run: &RunArgs, thread: u64, shared: &Shared) -> ThreadStats {
        let strat = T::strategy(run.tier);
        let n = T::cases(run.tier);
        let mut st = ThreadStats::default();
        let mut i = thread;
        while i < n {
            if shared.stop.load(Ordering::Relaxed) {
                break;
            }
            shared.slots[thread as usize].store(i + 1, Ordering::SeqCst);
            let mut runner = runner_for(run, T::NAME, i);
            let tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(_) => {
                    st.rejected += 1;
                    i += run.threads;
                    continue;
                }
            };
            let case = tree.current();
            let mut cx = Ctx::default();
            let r = run_check::<T>(&case, &mut cx);
            st.evaluations += 1;
            for l in cx.labels.iter() {
                *st.labels.entry(l).or_insert(0) += 1;
            }
            if cx.nontrivial {
                st.nontrivial += 1;
                let bytes = serde_json::to_vec(&case).unwrap();
                st.hashes.insert(fnv(&bytes));
                if st.samples.len() < 2 && bytes.len() < 3000 {
                    st.samples.push((i, serde_json::from_slice(&bytes).unwrap()));
                }
            }
            if let Err(msg) = r {
                let f = Failure { index: i, case: serde_json::to_value(&case).unwrap(), msg };
                let mut slot = shared.failure.lock().unwrap();
                if slot.as_ref().map(|o| o.index > i).unwrap_or(true) {
                    *slot = Some(f);
                }
                shared.stop.store(true, Ordering::Relaxed);
                break;
            }
            i += run.threads;
        }
        shared.slots[thread as usize].store(0, Ordering::SeqCst);
        st
    }

    fn run_index(&self, run: &RunArgs, index: u64) -> Result<(), Failure> {
        let strat = T::strategy(run.tier);
        let mut runner = runner_for(run, T::NAME, index);
        let case = match strat.new_tree(&mut runner) {
            Ok(t) => t.current(),
            Err(_) => return Ok(()),
        };
        run_check::<T>(&case, &mut Ctx::default())
            .map_err(|msg| Failure { index, case: serde_json::to_value(&case).unwrap(), msg })
    }

    fn shrink_index(&self, run: &RunArgs, index: u64) -> Option<Failure> {
        let strat = T::strategy(run.tier);
        let mut runner = runner_for(run, T::NAME, index);
        let mut tree = strat.new_tree(&mut runner).ok()?;
        let mut case = tree.current();
        let mut msg = run_check::<T>(&case, &mut Ctx::default()).err()?;
        let mut steps = 0;
        let t0 = std::time::Instant::now();
        if tree.simplify() {
            loop {
                steps += 1;
                if steps > MAX_SHRINK || t0.elapsed().as_secs() > 30 {
                    break;
                }
                let c = tree.current();
                match run_check::<T>(&c, &mut Ctx::default()) {
                    Err(m) => {
                        case = c;
                        msg = m;
                        if !tree.simplify() {
                            break;
                        }
                    }
                    Ok(()) => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        Some(Failure { index, case: serde_json::to_value(&case).unwrap(), msg })
    }

    fn shrink_external(&self, run: &RunArgs, index: u64, budget: usize, limit: std::time::Instant, eval: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value {
        let strat = T::strategy(run.tier);
        let mut runner = runner_for(run, T::NAME, index);
        let mut tree = strat.new_tree(&mut runner).ok().expect("case must generate again");
        let mut best = serde_json::to_value(tree.current()).unwrap();
        if budget > 0 && tree.simplify() {
            for _ in 0..budget {
                if std::time::Instant::now() > limit {
                    break;
                }
                let c = serde_json::to_value(tree.current()).unwrap();
                if eval(&c) {
                    best = c;
                    if !tree.simplify() {
                        break;
                    }
                } else if !tree.complicate() {
                    break;
                }
            }
        }
        best
    }

    fn run_json(&self, v: &serde_json::Value) -> Result<(), String> {
        let case: T::Case = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay case: {}", e))?;
        run_check::<T>(&case, &mut Ctx::default())
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
}

/// An iterator that may say less about its size than it knows.
pub struct Source<I> {
    it: I,
    left: usize,
    kind: u32,
}
impl<I: Iterator> Source<I> {
    /// kind 0: exact; others: bounds that are right but not tight
    pub fn new(it: I, left: usize, kind: u32) -> Source<I> {
        Source { it, left, kind: if kind == 0 { 0 } else { 1 + kind % 4 } }
    }
}
impl<I: Iterator> Iterator for Source<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.kind {
            0 => (n, Some(n)),
            1 => (n / 2, None),
            2 => (0, Some(n * 2)),
            3 => (0, None),
            _ => (n - n / 3, Some(n + 5)),
        }
    }
}

/// Takes items from an iterator in the ways that `probe` says (one by one, skipping, all at once),
/// and compares them with the expected ones, and the size hints with what is left.
/// Gives the number of items that were taken.
pub fn drive<I: Iterator, K: PartialEq + std::fmt::Debug>(what: &str, it: &mut I, key: impl Fn(I::Item) -> K, exp: &[K], mut probe: u64) -> Result<usize, String> {
    let mut at = 0;
    loop {
        let left = exp.len() - at;
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size hint {:?} with {} items left", what, (lo, hi), left);
        let p = probe % 16;
        if probe == 0 {
            return Ok(at);
        }
        probe /= 16;
        match p {
            0..=5 => {
                ensure_eq!(it.next().map(&key).as_ref(), exp.get(at), "{}: next() at item {}", what, at);
                at = exp.len().min(at + 1);
            }
            6..=9 => {
                let k = [0, 1, 2, 5][p as usize - 6];
                ensure_eq!(it.nth(k).map(&key).as_ref(), exp.get(at + k), "{}: nth({}) at item {}", what, k, at);
                at = exp.len().min(at + k + 1);
            }
            10 => {
                let k = left / 2;
                let got: Vec<K> = it.by_ref().take(k).map(&key).collect();
                ensure_eq!(&got[..], &exp[at..at + k], "{}: take({}) at item {}", what, k, at);
                at += k;
            }
            11 => {
                let e = exp.get(at);
                ensure_eq!(it.find(|_| true).map(&key).as_ref(), e, "{}: find() at item {}", what, at);
                at = exp.len().min(at + 1);
            }
            12 if left > 0 => {
                let k = left - 1;
                ensure_eq!(it.nth(k).map(&key).as_ref(), exp.last(), "{}: nth({}) at item {}", what, k, at);
                at = exp.len();
            }
            13 => {
                ensure!(it.nth(left).is_none(), "{}: nth({}) at item {}", what, left, at);
                at = exp.len();
            }
            _ => {}
        }
    }
}

/// As `drive`, and then takes the rest in one of several ways.
pub fn drive_all<I: Iterator, K: PartialEq + std::fmt::Debug>(what: &str, mut it: I, key: impl Fn(I::Item) -> K, exp: &[K], probe: u64) -> Check {
    let at = drive(what, &mut it, &key, exp, probe / 8)?;
    let rest = &exp[at..];
    match probe % 8 {
        0 => ensure_eq!(it.count(), rest.len(), "{}: count() at item {}", what, at),
        1 => ensure_eq!(it.last().map(&key).as_ref(), rest.last(), "{}: last() at item {}", what, at),
        2 => {
            let got = it.fold(Vec::new(), |mut v, x| {
                v.push(key(x));
                v
            });
            ensure_eq!(&got[..], rest, "{}: fold() at item {}", what, at);
        }
        3 => {
            let got: Vec<K> = it.step_by(2).map(&key).collect();
            ensure_eq!(got.iter().collect::<Vec<_>>(), rest.iter().step_by(2).collect::<Vec<_>>(), "{}: step_by(2) at item {}", what, at);
        }
        4 => {
            let got: Vec<K> = it.skip(1).map(&key).collect();
            ensure_eq!(got.iter().collect::<Vec<_>>(), rest.iter().skip(1).collect::<Vec<_>>(), "{}: skip(1) at item {}", what, at);
        }
        _ => {
            let mut got: Vec<K> = Vec::new();
            while let Some(x) = it.next() {
                got.push(key(x));
                ensure!(got.len() <= rest.len(), "{}: more items than expected: {:?}", what, got);
            }
            ensure_eq!(&got[..], rest, "{}: items from {} on", what, at);
            ensure!(it.next().is_none() && it.next().is_none(), "{}: an item after the end", what);
        }
    }
    Ok(())
}

/// As `drive_all`, from both ends.
pub fn drive_both<I: DoubleEndedIterator + ExactSizeIterator, K: PartialEq + std::fmt::Debug>(what: &str, mut it: I, key: impl Fn(I::Item) -> K, exp: &[K], mut probe: u64) -> Check {
    let (mut lo, mut hi) = (0, exp.len());
    let end = probe % 8;
    probe /= 8;
    while probe != 0 {
        ensure_eq!(it.len(), hi - lo, "{}: len()", what);
        ensure_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{}: size_hint()", what);
        let k = (probe / 4 % 4) as usize;
        match probe % 4 {
            0 | 1 => {
                let left = hi - lo;
                let got = if probe % 4 == 0 { it.next() } else { it.nth(k) };
                let k = if probe % 4 == 0 { 0 } else { k };
                ensure_eq!(got.map(&key).as_ref(), exp[lo..hi].get(k), "{}: item {} of {} from the front", what, k, left);
                lo = hi.min(lo + k + 1);
            }
            2 | _ => {
                let left = hi - lo;
                let got = if probe % 4 == 2 { it.next_back() } else { it.nth_back(k) };
                let k = if probe % 4 == 2 { 0 } else { k };
                ensure_eq!(got.map(&key).as_ref(), exp[lo..hi].iter().nth_back(k), "{}: item {} of {} from the back", what, k, left);
                hi = lo.max(hi.saturating_sub(k + 1));
            }
        }
        probe /= 16;
    }
    let rest = &exp[lo..hi];
    if end == 7 {
        let got: Vec<K> = it.rev().map(&key).collect();
        ensure_eq!(got.iter().collect::<Vec<_>>(), rest.iter().rev().collect::<Vec<_>>(), "{}: rev()", what);
        return Ok(());
    }
    if end == 6 {
        let got = it.rfold(Vec::new(), |mut v, x| {
            v.push(key(x));
            v
        });
        ensure_eq!(got.iter().collect::<Vec<_>>(), rest.iter().rev().collect::<Vec<_>>(), "{}: rfold()", what);
        return Ok(());
    }
    drive_all(what, it, key, rest, end)
}

/// A different value for every `n`.
pub fn mix(seed: u64, n: u64) -> u64 {
    let mut z = seed ^ n.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    // mostly few steps
    let z = z ^ (z >> 31);
    if z & 3 == 0 { z % 128 } else { z >> (z % 60) }
}
