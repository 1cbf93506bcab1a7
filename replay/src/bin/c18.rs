//! Every scenario is run with the fault (an error or a panic of the user's function) at each possible
//! point, and with each partial consumption; every value is registered at birth and must be dropped
//! exactly once by the end.
use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::map::{Entry, OrdinalArrayMap, OrdinalMap};
use ordinal_map::set::{OrdinalSet, OrdinalSet64};
use ordinal_map::{AtomicOrdinal, Ordinal};
use replay::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Reg {
    next: u64,
    alive: BTreeMap<u64, bool>,
    errors: Vec<String>,
    /// values of no size: made, dropped
    zero: (u64, u64),
    /// panic when this reaches zero
    fuse: Option<usize>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}
const MAGIC: u64 = 0x5eed_cafe_f00d_0001;

struct D {
    id: u64,
    heap: ManuallyDrop<Box<u64>>,
}
/// A value whose birth and death are recorded.
trait Tok: Clone + Default {
    fn new() -> Self;
}
impl Tok for D {
    fn new() -> D {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.next;
            r.next += 1;
            r.alive.insert(id, true);
            D { id: id ^ MAGIC, heap: ManuallyDrop::new(Box::new(id)) }
        })
    }
}
impl Drop for D {
    fn drop(&mut self) {
        let id = self.id ^ MAGIC;
        let ok = REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.alive.get(&id) {
                Some(true) => {
                    r.alive.insert(id, false);
                    true
                }
                Some(false) => {
                    r.errors.push(format!("value {id} dropped twice"));
                    false
                }
                None => {
                    r.errors.push("an uninitialised value was dropped".to_owned());
                    false
                }
            }
        });
        if ok {
            let mut h = unsafe { ManuallyDrop::take(&mut self.heap) };
            if *h != id {
                REG.with(|r| r.borrow_mut().errors.push(format!("value {id} is corrupted")));
            }
            *h = u64::MAX;
        }
    }
}
fn burn() {
    let boom = REG.with(|r| {
        let mut r = r.borrow_mut();
        match &mut r.fuse {
            Some(0) => true,
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    });
    if boom {
        panic!("injected");
    }
}
fn fuse(n: Option<usize>) {
    REG.with(|r| r.borrow_mut().fuse = n);
}
impl Clone for D {
    fn clone(&self) -> D {
        burn();
        D::new()
    }
}
impl Default for D {
    fn default() -> D {
        burn();
        D::new()
    }
}

/// The same, bigger than a threshold on size would allow for and aligned unusually.
#[derive(Clone)]
#[repr(align(64))]
struct BigD(D, #[allow(dead_code)] [u64; 150]);
impl Tok for BigD {
    fn new() -> Self {
        BigD(D::new(), [7; 150])
    }
}
impl Default for BigD {
    fn default() -> Self {
        BigD(D::default(), [7; 150])
    }
}
/// The same, of no size at all: only births and deaths can be counted.
struct ZeroD;
impl Tok for ZeroD {
    fn new() -> Self {
        REG.with(|r| r.borrow_mut().zero.0 += 1);
        ZeroD
    }
}
impl Clone for ZeroD {
    fn clone(&self) -> Self {
        burn();
        Tok::new()
    }
}
impl Default for ZeroD {
    fn default() -> Self {
        burn();
        Tok::new()
    }
}
impl Drop for ZeroD {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.zero.1 += 1;
            if r.zero.1 > r.zero.0 {
                r.errors.push("more values of no size were dropped than were made".to_owned());
            }
        });
    }
}

/// A key whose values are themselves owned.
struct DK<const N: usize>(usize, #[allow(dead_code)] D);
impl<const N: usize> Ordinal for DK<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0
    }
    fn from_ordinal(i: usize) -> Option<Self> {
        if i < N {
            burn();
            Some(DK(i, D::new()))
        } else {
            None
        }
    }
}
fn dk<const N: usize>(i: usize) -> DK<N> {
    DK(i, D::new())
}

/// Runs a scenario (which may panic because it was told to) and settles the accounts.
fn account(f: impl FnOnce()) -> Result<(), String> {
    REG.with(|r| *r.borrow_mut() = Reg::default());
    let res = catch_unwind(AssertUnwindSafe(f));
    fuse(None);
    if let Err(p) = res {
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
        if msg != "injected" {
            return Err(format!("panic: {msg}"));
        }
    }
    REG.with(|r| {
        let r = r.borrow();
        if let Some(e) = r.errors.first() {
            return Err(e.clone());
        }
        let leaked = r.alive.values().filter(|a| **a).count() + (r.zero.0 - r.zero.1.min(r.zero.0)) as usize;
        if leaked > 0 {
            return Err(format!("{leaked} of {} values were never dropped", r.alive.len() + r.zero.0 as usize));
        }
        Ok(())
    })
}

fn take_some<T, I: DoubleEndedIterator<Item = T>>(mut it: I, front: usize, back: usize) -> Vec<T> {
    let mut v = Vec::new();
    for _ in 0..front {
        v.extend(it.next());
    }
    for _ in 0..back {
        v.extend(it.next_back());
    }
    v
}

fn all<const N: usize, const M: usize, D: Tok>(r: &mut Run) {
    let spots = |top: usize| (0..=top).filter(move |&i| top <= 6 || i < 3 || i + 3 > top || i % 64 == 0 || i % 64 == 63 || i == top / 2).collect::<Vec<_>>();
    let chance = &mut Rng::new(r.seed ^ N as u64);
    // occupancies: all of them for few keys, otherwise everything, nothing, every second, three random ones
    let patterns: Vec<Vec<bool>> = if N <= 5 {
        (0..1usize << N).map(|o| (0..N).map(|i| o >> i & 1 == 1).collect()).collect()
    } else {
        let mut v = vec![vec![true; N], vec![false; N], (0..N).map(|i| i % 2 == 0).collect()];
        for d in 1..4 {
            v.push((0..N).map(|_| chance.chance(d, 4)).collect());
        }
        v
    };
    let some = |occ: &[bool], i: usize| occ[i];
    // ---- construction of total maps
    for at in spots(N) {
        for mode in 0..2usize {
            let go = move |count: &mut usize| -> Result<D, D> {
                let i = *count;
                *count += 1;
                if i == at {
                    if mode == 0 {
                        return Err(D::new());
                    }
                    panic!("injected");
                }
                Ok(D::new())
            };
            let what = ["an error", "a panic"][mode];
            r.case(&format!("OrdinalTotalArrayMap<_, _, {N}>::try_new with {what} at"), at, |_| {
                account(|| {
                    let mut c = 0;
                    drop(OrdinalTotalArrayMap::<DK<N>, D, N>::try_new(|_| go(&mut c)));
                })
            });
            r.case(&format!("OrdinalTotalMap<DK<{N}>, _>::try_new with {what} at"), at, |_| {
                account(|| {
                    let mut c = 0;
                    drop(OrdinalTotalMap::<DK<N>, D>::try_new(|_| go(&mut c)));
                })
            });
        }
        r.case(&format!("new, default with a panic at, {N} keys"), at, |_| {
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalArrayMap::<K<N>, D, N>::new(|_| D::default()));
            })?;
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalMap::<K<N>, D>::new(|_| D::default()));
            })?;
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalArrayMap::<K<N>, D, N>::default());
            })?;
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalMap::<K<N>, D>::default());
            })
        });
        // a panicking key constructor
        r.case(&format!("all_values of owned keys with a panic at, {N} keys"), at, |_| {
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalArrayMap::<DK<N>, D, N>::new(|_| D::new()));
            })?;
            account(|| {
                fuse(Some(at));
                drop(OrdinalTotalMap::<DK<N>, D>::new(|_| D::new()));
            })?;
            account(|| {
                fuse(Some(at));
                drop(DK::<N>::all_values().collect::<Vec<_>>());
            })
        });
        // ---- transformations
        r.case(&format!("transformations of OrdinalTotalArrayMap<_, _, {N}> with a panic at"), at, |_| {
            let make = || OrdinalTotalArrayMap::<K<N>, D, N>::new(|_| D::new());
            account(|| {
                let m = make();
                fuse(Some(at));
                drop(m.map(|_, v| {
                    burn();
                    (v, D::new())
                }));
            })?;
            account(|| {
                let m = make();
                fuse(Some(at));
                drop(m.map_values(|v| {
                    burn();
                    drop(v);
                    D::new()
                }));
            })?;
            account(|| {
                let m = OrdinalTotalArrayMap::<DK<N>, D, N>::new(|_| D::new());
                fuse(Some(at));
                drop(m.map(|k, _| k));
            })?;
            account(|| drop(make().zip(make())))?;
            account(|| drop(make().into_values()))?;
            account(|| drop(OrdinalTotalArrayMap::<K<N>, D, N>::from_array(std::array::from_fn(|_| D::new()))))?;
            account(|| {
                let mut m = make();
                for v in m.as_mut().into_values() {
                    *v = D::new();
                }
                let _ = m.as_ref().into_values();
            })
        });
        // ---- clones
        r.case(&format!("clone with a panic at, {N} keys"), at, |_| {
            account(|| {
                let m = OrdinalTotalArrayMap::<K<N>, D, N>::new(|_| D::new());
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let m = OrdinalTotalMap::<K<N>, D>::new(|_| D::new());
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let m: OrdinalMap<K<N>, D> = (0..N).map(|i| (K(i), D::new())).collect();
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let m: OrdinalArrayMap<K<N>, D, N> = (0..N).map(|i| (K(i), D::new())).collect();
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let mut m = OrdinalTotalArrayMap::<K<N>, D, N>::new(|_| D::new()).into_iter();
                drop(m.next());
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let mut m = OrdinalTotalMap::<K<N>, D>::new(|_| D::new()).into_iter();
                drop(m.next_back());
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let mut m = (0..N).map(|i| (K(i), D::new())).collect::<OrdinalMap<K<N>, D>>().into_iter();
                drop(m.next());
                fuse(Some(at));
                drop(m.clone());
            })?;
            account(|| {
                let mut m = (0..N).map(|i| (K(i), D::new())).collect::<OrdinalArrayMap<K<N>, D, N>>().into_iter();
                drop(m.next_back());
                fuse(Some(at));
                drop(m.clone());
            })
        });
        // ---- building partial maps from a panicking source, with repeated keys
        r.case(&format!("from_iter with a panic at, {N} keys"), at, |_| {
            if N == 0 {
                return Ok(());
            }
            account(|| {
                fuse(Some(at));
                drop((0..2 * N).map(|i| (dk::<N>(i * 2 % N), D::default())).collect::<OrdinalMap<DK<N>, D>>());
            })?;
            account(|| {
                fuse(Some(at));
                drop((0..2 * N).map(|i| (dk::<N>(i * 2 % N), D::default())).collect::<OrdinalArrayMap<DK<N>, D, N>>());
            })?;
            account(|| {
                fuse(Some(at));
                drop((0..2 * N).map(|i| (D::default(), dk::<N>(i % N)).1).collect::<OrdinalSet<DK<N>>>());
            })?;
            account(|| {
                fuse(Some(at));
                drop((0..2 * N).map(|i| (D::default(), dk::<16>(i % 16)).1).collect::<OrdinalSet64<DK<16>>>());
            })
        });
        // ---- arrays and tuples as ordinals
        r.case(&format!("from_ordinal of arrays and tuples with a panic at, radix {M}"), at, |&at| {
            for i in if N <= 12 { vec![0, 1, M, M * M, usize::MAX] } else { vec![] } {
                account(|| {
                    fuse(Some(at));
                    drop(<[DK<M>; N]>::from_ordinal(i));
                })?;
                account(|| {
                    fuse(Some(at));
                    drop(<(DK<M>, DK<M>, DK<2>)>::from_ordinal(i));
                })?;
                account(|| {
                    fuse(Some(at));
                    drop(<Option<Result<DK<M>, Box<DK<M>>>>>::from_ordinal(i));
                })?;
            }
            Ok(())
        });
    }
    // ---- partial consumption of every owning iterator
    for occ in &patterns {
        for front in spots(N + 1) {
            for back in spots(N + 1) {
                if front + back > N + 2 {
                    continue;
                }
                let heap = move || (0..N).filter(|&i| some(occ, i)).map(|i| (dk::<N>(i), D::new())).collect::<OrdinalMap<DK<N>, D>>();
                let arr = move || (0..N).filter(|&i| some(occ, i)).map(|i| (dk::<N>(i), D::new())).collect::<OrdinalArrayMap<DK<N>, D, N>>();
                r.case(&format!("partly consumed owning iterators, {N} keys"), (occ.clone(), front, back), |_| {
                    account(|| drop(take_some(heap().into_iter(), front, back)))?;
                    account(|| drop(take_some(arr().into_iter(), front, back)))?;
                    account(|| {
                        let mut m = heap();
                        let got = take_some(m.drain(), front, back);
                        assert!(m.is_empty());
                        drop(m);
                        drop(got);
                    })?;
                    account(|| {
                        let mut m = arr();
                        let got = take_some(m.drain(), front, back);
                        drop(got);
                        if N > 0 {
                            m.insert(dk(0), D::new());
                        }
                    })?;
                    account(|| drop(take_some(OrdinalTotalArrayMap::<DK<N>, D, N>::new(|_| D::new()).into_iter(), front, back)))?;
                    account(|| drop(take_some(OrdinalTotalMap::<DK<N>, D>::new(|_| D::new()).into_iter(), front, back)))?;
                    account(|| {
                        let m = heap();
                        drop(take_some(m.iter(), front, back));
                        drop(take_some(m.keys(), front, back));
                        let mut m = m;
                        for (_, v) in take_some(m.iter_mut(), front, back) {
                            *v = D::new();
                        }
                        m.clear();
                    })
                });
            }
        }
        // ---- retain: panic at each call, every answer pattern
        for at in spots(N) {
            for keep in &patterns {
                r.case(&format!("retain with a panic at, {N} keys"), (occ.clone(), keep.clone(), at), |_| {
                    account(|| {
                        let mut m = (0..N).filter(|&i| some(occ, i)).map(|i| (K(i), D::new())).collect::<OrdinalArrayMap<K<N>, D, N>>();
                        fuse(Some(at));
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            m.retain(|k, v| {
                                if k.0 % 2 == 0 {
                                    *v = D::new();
                                }
                                burn();
                                some(keep, k.0)
                            })
                        }));
                        fuse(None);
                        // the map stays usable whatever happened
                        for i in 0..N {
                            m.insert(K(i), D::new());
                        }
                        drop(m);
                        drop(r);
                    })
                });
            }
        }
    }
    // ---- overwriting, removing, entries
    let mut rng = Rng::new(r.seed ^ N as u64);
    for _ in 0..if N == 0 { 0 } else if N > 5 { r.scale(40, 1000) } else { r.scale(100, 5000) } {
        let ops: Vec<(usize, usize)> = (0..1 + rng.below(12)).map(|_| (rng.below(9), rng.below(N))).collect();
        r.history(&format!("overwriting and removing, {N} keys"), ops, |ops| {
            account(|| {
                let mut m = OrdinalMap::<DK<N>, D>::new();
                let mut a = OrdinalArrayMap::<DK<N>, D, N>::new();
                let mut t = OrdinalTotalMap::<DK<N>, D>::new(|_| D::new());
                let mut u = OrdinalTotalArrayMap::<DK<N>, D, N>::new(|_| D::new());
                let cell = AtomicOrdinal::new(dk::<N>(0));
                let mut s = OrdinalSet::<DK<N>>::new();
                for &(op, i) in ops {
                    match op {
                        0 | 1 => {
                            m.insert(dk(i), D::new());
                            a.insert(dk(i), D::new());
                            t.insert(dk(i), D::new());
                            u.insert(dk(i), D::new());
                            s.insert(dk(i));
                        }
                        2 => {
                            drop(m.remove(&dk(i)));
                            drop(a.remove(&dk(i)));
                        }
                        3 => {
                            *m.entry(dk(i)).or_insert(D::new()) = D::new();
                            a.entry(dk(i)).or_insert(D::new());
                        }
                        4 => {
                            if let Entry::Vacant(v) = m.entry(dk(i)) {
                                v.insert(D::new());
                            }
                            if let Entry::Occupied(mut o) = a.entry(dk(i)) {
                                *o.get_mut() = D::new();
                            }
                        }
                        5 => {
                            t[&dk(i)] = D::new();
                            *u.get_mut(&dk(i)) = D::new();
                        }
                        6 => {
                            cell.store(dk(i), std::sync::atomic::Ordering::SeqCst);
                            drop(cell.compare_exchange(dk(i), dk(0), std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst));
                            drop(cell.compare_exchange(dk(i), dk(0), std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst));
                        }
                        7 => {
                            m = m.clone_owned();
                            a.clear();
                        }
                        _ => drop(s.iter().collect::<Vec<_>>()),
                    }
                }
            })
        });
    }
}

trait CloneOwned {
    fn clone_owned(self) -> Self;
}
impl<const N: usize, D: Tok> CloneOwned for OrdinalMap<DK<N>, D> {
    fn clone_owned(self) -> Self {
        let c = self.clone();
        drop(self);
        c
    }
}

fn main() {
    let mut run = Run::start("C18");
    let r = &mut run;
    all::<0, 2, D>(r);
    all::<1, 1, D>(r);
    all::<2, 3, D>(r);
    all::<3, 2, D>(r);
    if !r.mini {
        all::<4, 3, D>(r);
        all::<5, 2, D>(r);
        all::<3, 2, BigD>(r);
        all::<3, 2, ZeroD>(r);
        all::<12, 2, BigD>(r);
        all::<20, 2, D>(r);
        all::<70, 2, D>(r);
        all::<300, 2, D>(r);
    }
    run.finish();
}
