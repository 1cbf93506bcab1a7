//! Bounded, executable counterpart of the contracts: it runs the real crate through its public
//! interface, compares every observation with an independent model, and reports the first input
//! on which they differ. It is the replay side of a failed obligation and the bounded stand-in
//! where a function is out of the verifier's reach; what it finds nothing on is not "proved".

use ordinal_map::Ordinal;
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod it;
pub mod maps;
pub mod spec;

pub use it::*;
pub use maps::*;
pub use spec::*;

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

// ---------------------------------------------------------------- running cases
pub struct Run {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    /// Very few cases: used under an interpreter.
    pub mini: bool,
    pub rng: Rng,
    trace: bool,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    labels: Vec<(String, u64)>,
    offered: std::collections::HashMap<String, u64>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Run {
    pub fn start(prop: &'static str) -> Run {
        let env = |k: &str| std::env::var(k).unwrap_or_default();
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let seed = env("VERIF_SEED").parse().unwrap_or(1);
        Run {
            prop,
            seed,
            thorough: env("VERIF_TIER") == "thorough",
            mini: env("REPLAY_MINI") == "1",
            rng: Rng::new(seed),
            trace: env("REPLAY_TRACE") == "1",
            evals: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            labels: Vec::new(),
            offered: Default::default(),
        }
    }

    /// `quick` cases on every run, `thorough` ones in the thorough tier, very few under an interpreter.
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.mini {
            quick / 60 + 1
        } else if self.thorough {
            thorough.max(quick * 10)
        } else {
            quick * 10
        }
    }

    pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        }
    }

    fn is_new(&self, label: &str) -> bool {
        let label = label.split(", occupied").next().unwrap_or(label);
        self.samples.len() < 12 && !self.labels.iter().any(|(l, _)| l == label)
    }

    fn count(&mut self, label: &str, key: u64) {
        let label = label.split(", occupied").next().unwrap_or(label);
        self.evals += 1;
        self.distinct.insert(key);
        match self.labels.iter_mut().find(|(l, _)| l == label) {
            Some((_, n)) => *n += 1,
            None => self.labels.push((label.to_owned(), 1)),
        }
    }

    /// Under an interpreter only the first few cases under a label are run, and a sample of the others.
    fn skip(&mut self, label: &str, key: u64) -> bool {
        if !self.mini {
            return false;
        }
        let n = self.offered.entry(label.to_owned()).or_insert(0);
        if *n < 12 || (*n < 60 && (key ^ self.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)) >> 7 & 15 == 0) {
            *n += 1;
            return false;
        }
        true
    }

    /// One case: `input` is the whole input, `f` compares the crate with the model on it.
    pub fn case<I: Hash + Debug>(&mut self, label: &str, input: I, f: impl FnOnce(&I) -> Result<(), String>) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        label.hash(&mut h);
        input.hash(&mut h);
        if self.skip(label, h.finish()) {
            return;
        }
        let first = self.is_new(label);
        self.count(label, h.finish());
        if self.trace {
            eprintln!("CASE {label} :: {input:?}");
        }
        if first && self.samples.len() < 12 {
            self.samples.push(clip(&format!("{label} :: {input:?}"), 300));
        }
        if let Err(e) = Self::guarded(|| f(&input)) {
            self.fail(label, &format!("{input:?}"), &e);
        }
    }

    /// One case whose input is a sequence of operations; a failing one is shrunk before it is reported.
    pub fn history<O: Hash + Debug + Clone>(&mut self, label: &str, ops: Vec<O>, f: impl Fn(&[O]) -> Result<(), String>) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        label.hash(&mut h);
        ops.hash(&mut h);
        if self.skip(label, h.finish()) {
            return;
        }
        let first = self.is_new(label);
        self.count(label, h.finish());
        if self.trace {
            eprintln!("CASE {label} :: {ops:?}");
        }
        if first && self.samples.len() < 12 {
            self.samples.push(clip(&format!("{label} :: {ops:?}"), 300));
        }
        if let Err(mut e) = Self::guarded(|| f(&ops)) {
            let mut best = ops;
            let mut changed = true;
            while changed {
                changed = false;
                let mut i = best.len();
                while i > 0 {
                    i -= 1;
                    let mut t = best.clone();
                    t.remove(i);
                    if let Err(e2) = Self::guarded(|| f(&t)) {
                        best = t;
                        e = e2;
                        changed = true;
                    }
                }
            }
            self.fail(label, &format!("{best:?}"), &e);
        }
    }

    pub fn fail(&mut self, label: &str, input: &str, why: &str) -> ! {
        println!("FAIL {}", self.prop);
        println!("where: {label}");
        println!("input: {input}");
        println!("observed: {}", why.replace('\n', " | "));
        println!("after: {} cases, seed {}", self.evals, self.seed);
        std::process::exit(1);
    }

    pub fn finish(self) {
        println!("OK {}", self.prop);
        println!("evaluations: {}", self.evals);
        println!("distinct: {}", self.distinct.len());
        for (l, n) in &self.labels {
            println!("label: {n} {l}");
        }
        for s in &self.samples {
            println!("sample: {s}");
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
        }
    }};
}

#[macro_export]
macro_rules! holds {
    ($a:expr, $($t:tt)*) => {{
        if !$a {
            return Err(format!($($t)*));
        }
    }};
}

// ---------------------------------------------------------------- user-defined lawful types of any size
/// A user's own ordinal type with `N` values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K<const N: usize>(pub usize);
impl<const N: usize> Ordinal for K<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0
    }
    fn from_ordinal(ordinal: usize) -> Option<Self> {
        (ordinal < N).then_some(K(ordinal))
    }
}

/// The same, with a representation that is neither the index nor ordered like it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rev<const N: usize>(pub u64);
impl<const N: usize> Ordinal for Rev<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        N - 1 - (self.0 as usize - 1000)
    }
    fn from_ordinal(ordinal: usize) -> Option<Self> {
        (ordinal < N).then(|| Rev((N - 1 - ordinal) as u64 + 1000))
    }
}

/// Value at an index, by the type's own laws (only used for types defined here or specified in `spec`).
pub fn at<T: Spec>(i: usize) -> T {
    T::nth(i as u128).expect("index below the count")
}

// ---------------------------------------------------------------- value types of maps
pub trait Val: Clone + PartialEq + Debug {
    fn make(x: u32) -> Self;
}
impl Val for u32 {
    fn make(x: u32) -> Self {
        x
    }
}
impl Val for u8 {
    fn make(x: u32) -> Self {
        (x % 251) as u8
    }
}
impl Val for () {
    fn make(_: u32) -> Self {}
}
impl Val for String {
    fn make(x: u32) -> Self {
        format!("v{x}")
    }
}
impl Val for Option<u8> {
    fn make(x: u32) -> Self {
        (x % 3 != 0).then_some(x as u8)
    }
}
impl Val for Box<u64> {
    fn make(x: u32) -> Self {
        Box::new(x as u64)
    }
}

/// Larger than any threshold on the size of a value one might think of.
#[derive(Clone, PartialEq)]
pub struct Big(pub [u64; 150]);
impl Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple("Big").field(&self.0[0]).finish()
    }
}
impl Default for Big {
    fn default() -> Self {
        Big([0; 150])
    }
}
impl Val for Big {
    fn make(x: u32) -> Self {
        let mut a = [7; 150];
        a[0] = x as u64;
        a[149] = !(x as u64);
        Big(a)
    }
}
/// Aligned beyond anything the allocator gives for free.
#[derive(Clone, PartialEq, Debug, Default)]
#[repr(align(128))]
pub struct Wide(pub u32);
impl Val for Wide {
    fn make(x: u32) -> Self {
        Wide(x)
    }
}
/// Of no size, but not trivial to drop.
#[derive(PartialEq, Debug, Default)]
pub struct Unit;
impl Clone for Unit {
    fn clone(&self) -> Self {
        Unit
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        std::hint::black_box(());
    }
}
impl Val for Unit {
    fn make(_: u32) -> Self {
        Unit
    }
}
/// Fat, with a niche, nothing to drop.
impl Val for &'static str {
    fn make(x: u32) -> Self {
        ["", "a", "bc", "def", "ghij"][x as usize % 5]
    }
}

/// Collects the items through an iterator with one of several size hints: exact, (0, all), (0, none),
/// (a third, none): what a collection does must not depend on them.
pub fn hinted<T, C: FromIterator<T>>(kind: usize, items: Vec<T>) -> C {
    let n = items.len();
    let mut it = items.into_iter();
    match kind % 5 {
        0 => it.collect(),
        1 => it.filter(|_| true).collect(),
        2 => std::iter::from_fn(|| it.next()).collect(),
        3 => {
            let tail = it.by_ref().take(n / 3).collect::<Vec<_>>();
            tail.into_iter().chain(std::iter::from_fn(|| it.next())).collect()
        }
        _ => it.flat_map(Some).collect(),
    }
}

/// Contents of which many implementations of a set or map would make a special case: everything, all but one,
/// exactly some whole 64-element words, all but one element of a word, every second element.
pub fn crowded(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).step_by(2).collect()];
    for out in [0, 1, 62, 63, 64, 65, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
        if out < n {
            v.push((0..n).filter(|i| *i != out).collect());
        }
    }
    for (a, b) in [(0, 63), (0, 64), (0, 65), (1, 64), (64, 128), (63, 128), (0, 128), (0, n / 2), (n / 2, n), (n.saturating_sub(64), n)] {
        if b <= n {
            v.push((a..b).collect());
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn dq<T: Clone>(v: &[T]) -> VecDeque<T> {
    v.iter().cloned().collect()
}
