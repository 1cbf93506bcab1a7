use ordinal_map::{AtomicOrdinal, Ordinal};
use replay::*;
use std::fmt::Debug;
use std::sync::atomic::Ordering::{self, *};
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug, Hash)]
enum AOp {
    Load(usize),
    Store(usize, usize),
    Cas(usize, usize, usize, usize),
}
const LOADS: [Ordering; 3] = [Relaxed, Acquire, SeqCst];
const STORES: [Ordering; 3] = [Relaxed, Release, SeqCst];
const CAS: [Ordering; 5] = [Relaxed, Acquire, Release, AcqRel, SeqCst];

fn sequential<K: Ordinal + Spec + Clone + PartialEq + Debug>(r: &mut Run, label: &str) {
    let n = (K::count().min(1 << 40)) as usize;
    let at = move |i: usize| if i < 8 { i % n } else { n - 1 - (i % n).min(n - 1) % 8 };
    let k = move |i: usize| K::nth(at(i) as u128).unwrap();
    let run_ops = move |ops: &[AOp]| -> Result<(), String> {
        let a = AtomicOrdinal::new(k(0));
        let mut m = at(0);
        for (step, op) in ops.iter().enumerate() {
            let when = format!("step {step} ({op:?})");
            match op {
                AOp::Load(o) => same!(a.load(LOADS[*o]), K::nth(m as u128).unwrap(), "load, {when}"),
                AOp::Store(x, o) => {
                    a.store(k(*x), STORES[*o]);
                    m = at(*x);
                }
                AOp::Cas(x, y, s, f) => {
                    let got = a.compare_exchange(k(*x), k(*y), CAS[*s], LOADS[*f]);
                    let cur = K::nth(m as u128).unwrap();
                    if at(*x) == m {
                        same!(got, Ok(cur), "compare_exchange, {when}");
                        m = at(*y);
                    } else {
                        same!(got, Err(cur), "compare_exchange, {when}");
                    }
                }
            }
            same!(a.load(SeqCst), K::nth(m as u128).unwrap(), "value after {when}");
        }
        Ok(())
    };
    for x in 0..10 {
        r.history(label, vec![AOp::Store(x, x % 3)], run_ops);
        for s in 0..5 {
            for f in 0..3 {
                r.history(label, vec![AOp::Store(x, s % 3), AOp::Cas(x, (x + 1) % 10, s, f), AOp::Load(f)], run_ops);
                r.history(label, vec![AOp::Store(x, s % 3), AOp::Cas((x + 1) % 10, x, s, f), AOp::Load(f)], run_ops);
                r.history(label, vec![AOp::Store(x, s % 3), AOp::Cas(x, x, s, f), AOp::Load(f)], run_ops);
            }
        }
    }
    let mut rng = Rng::new(r.seed ^ n as u64);
    for _ in 0..r.scale(400, 30_000) {
        let len = 1 + rng.below(14);
        let hot = 2 + rng.below(4);
        let ops = (0..len)
            .map(|_| {
                let mut v = || if rng.chance(4, 5) { rng.below(hot) } else { rng.below(16) };
                let (x, y) = (v(), v());
                match rng.below(5) {
                    0 => AOp::Load(rng.below(3)),
                    1 => AOp::Store(x, rng.below(3)),
                    _ => AOp::Cas(x, y, rng.below(5), rng.below(3)),
                }
            })
            .collect();
        r.history(label, ops, run_ops);
    }
}

/// Threads count modulo 7 with compare-exchange; each success must advance the cell by exactly one.
fn counting(r: &mut Run, threads: usize, rounds: usize) {
    r.case("counting threads", (threads, rounds), |&(threads, rounds)| {
        let a = Arc::new(AtomicOrdinal::new(K::<7>(0)));
        let b = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (a, b) = (a.clone(), b.clone());
                std::thread::spawn(move || -> Result<usize, String> {
                    b.wait();
                    let mut wins = 0;
                    for i in 0..rounds {
                        let cur = a.load([Acquire, SeqCst, Relaxed][(t + i) % 3]);
                        holds!(cur.0 < 7, "load returned {cur:?}");
                        match a.compare_exchange(cur.clone(), K((cur.0 + 1) % 7), AcqRel, Relaxed) {
                            Ok(old) => {
                                same!(old, cur, "value returned by a successful exchange");
                                wins += 1;
                            }
                            Err(now) => holds!(now != cur && now.0 < 7, "exchange of {cur:?} failed although the value was {now:?}"),
                        }
                    }
                    Ok(wins)
                })
            })
            .collect();
        let mut wins = 0;
        for h in hs {
            wins += h.join().map_err(|_| "a thread panicked".to_owned())??;
        }
        same!(a.load(SeqCst).0, wins % 7, "final value after {wins} successful exchanges");
        Ok(())
    });
}

/// Storing threads write their own values only; nobody may ever read another one.
fn storing(r: &mut Run, threads: usize, rounds: usize) {
    r.case("storing threads", (threads, rounds), |&(threads, rounds)| {
        type V = K<1000>;
        let a = Arc::new(AtomicOrdinal::new(K::<1000>(3)));
        let b = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (a, b) = (a.clone(), b.clone());
                std::thread::spawn(move || -> Result<(), String> {
                    b.wait();
                    let legal = |v: &V| v.0 == 3 || (v.0 % 100 < threads && v.0 / 100 < 10);
                    for i in 0..rounds {
                        a.store(K((i % 10) * 100 + t), [Relaxed, Release, SeqCst][i % 3]);
                        let v = a.load([Relaxed, Acquire, SeqCst][i % 3]);
                        holds!(legal(&v), "load returned {v:?}, which nobody stored");
                        let (Err(v) | Ok(v)) = a.compare_exchange(v, K(t), SeqCst, SeqCst); {
                            holds!(legal(&v), "compare_exchange returned {v:?}, which nobody stored");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| "a thread panicked".to_owned())??;
        }
        Ok(())
    });
}

/// One shared flag: of several threads exchanging the same expected value exactly one wins.
fn one_winner(r: &mut Run, threads: usize, trial: usize) {
    r.case("one winner", (threads, trial), |&(threads, _)| {
        let a = Arc::new(AtomicOrdinal::new(K::<20>(0)));
        let b = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (a, b) = (a.clone(), b.clone());
                std::thread::spawn(move || {
                    b.wait();
                    a.compare_exchange(K(0), K(t + 1), AcqRel, Acquire)
                })
            })
            .collect();
        let res: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        let mut winners = Vec::new();
        for (t, x) in res.iter().enumerate() {
            match x {
                Err(_) => return Err(format!("thread {t} panicked")),
                Ok(Ok(v)) => {
                    same!(*v, K(0), "old value returned to the winner {t}");
                    winners.push(t);
                }
                Ok(Err(_)) => {}
            }
        }
        same!(winners.len(), 1, "number of winners");
        let w = K(winners[0] + 1);
        same!(a.load(SeqCst), w, "final value");
        for x in res.into_iter().flatten() {
            if let Err(v) = x {
                same!(v, w, "value returned to a loser");
            }
        }
        Ok(())
    });
}

/// Data written before a release operation is visible after an acquire operation that saw it: every
/// operation has to be performed with the ordering it was given. (Run under an interpreter, which
/// reports the race on `data` if it is not.)
fn publishing(r: &mut Run) {
    struct Shared {
        flag: AtomicOrdinal<K<7>>,
        data: std::cell::UnsafeCell<u64>,
    }
    unsafe impl Sync for Shared {}
    for w in 0..6usize {
        for rd in 0..7usize {
            r.case(&format!("publishing threads, writer {w}"), (w, rd), |&(w, rd)| {
                let s = Arc::new(Shared { flag: AtomicOrdinal::new(K(0)), data: std::cell::UnsafeCell::new(0) });
                let t = s.clone();
                let h = std::thread::spawn(move || {
                    unsafe { *t.data.get() = 42 };
                    match w {
                        0 => t.flag.store(K(1), Release),
                        1 => t.flag.store(K(1), SeqCst),
                        _ => {
                            let _ = t.flag.compare_exchange(K(0), K(1), [Release, AcqRel, SeqCst, Release][w - 2], [Relaxed, Relaxed, SeqCst, Acquire][w - 2]);
                        }
                    }
                });
                let mut seen = false;
                for _ in 0..2_000_000 {
                    seen = match rd {
                        0 => s.flag.load(Acquire) == K(1),
                        1 => s.flag.load(SeqCst) == K(1),
                        2..=4 => s.flag.compare_exchange(K(1), K(2), [Acquire, AcqRel, SeqCst][rd - 2], Relaxed).is_ok(),
                        _ => s.flag.compare_exchange(K(5), K(6), Relaxed, [Acquire, SeqCst][rd - 5]) == Err(K(1)),
                    };
                    if seen {
                        break;
                    }
                    std::thread::yield_now();
                }
                let got = if seen { Some(unsafe { *s.data.get() }) } else { None };
                h.join().map_err(|_| "a thread panicked".to_owned())?;
                same!(got.unwrap_or(42), 42, "data published through the cell");
                Ok(())
            });
        }
    }
}

/// Sequentially consistent operations have one order: of two threads that each write their own cell
/// and then read the other's, at least one sees the other's write.
fn one_order(r: &mut Run) {
    for w in 0..2usize {
        let rounds = if r.mini { 40 } else { r.scale(2000, 100_000) };
        r.case("one order of sequentially consistent operations", (w, rounds), |&(w, rounds)| {
            let cells = Arc::new([AtomicOrdinal::new(K::<3>(0)), AtomicOrdinal::new(K::<3>(0))]);
            let gate = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let wait = |g: &std::sync::atomic::AtomicUsize, n: usize| {
                g.fetch_add(1, SeqCst);
                while g.load(SeqCst) < n {
                    std::thread::yield_now();
                }
            };
            let hs: Vec<_> = (0..2usize)
                .map(|me| {
                    let (cells, gate) = (cells.clone(), gate.clone());
                    std::thread::spawn(move || {
                        let mut seen = Vec::new();
                        for i in 0..rounds {
                            wait(&gate, 6 * i + 2);
                            if w == 0 {
                                cells[me].store(K(1), SeqCst);
                            } else {
                                let _ = cells[me].compare_exchange(K(0), K(1), SeqCst, SeqCst);
                            }
                            seen.push(cells[1 - me].load(SeqCst).0);
                            wait(&gate, 6 * i + 4);
                            cells[me].store(K(0), SeqCst);
                            wait(&gate, 6 * i + 6);
                        }
                        seen
                    })
                })
                .collect();
            let seen: Vec<Vec<usize>> = hs.into_iter().map(|h| h.join().map_err(|_| "a thread panicked".to_owned())).collect::<Result<_, _>>()?;
            for i in 0..rounds {
                holds!(seen[0][i] == 1 || seen[1][i] == 1, "in round {i} neither thread saw the other's write");
            }
            Ok(())
        });
    }
}

fn main() {
    let mut run = Run::start("C19");
    let r = &mut run;
    sequential::<()>(r, "AtomicOrdinal<()>");
    sequential::<bool>(r, "AtomicOrdinal<bool>");
    sequential::<std::cmp::Ordering>(r, "AtomicOrdinal<Ordering>");
    sequential::<K<5>>(r, "AtomicOrdinal<K<5>>");
    sequential::<Rev<64>>(r, "AtomicOrdinal<Rev<64>>");
    sequential::<u8>(r, "AtomicOrdinal<u8>");
    sequential::<char>(r, "AtomicOrdinal<char>");
    sequential::<Option<u32>>(r, "AtomicOrdinal<Option<u32>>");
    sequential::<K<{ usize::MAX }>>(r, "AtomicOrdinal<K<usize::MAX>>");
    publishing(r);
    one_order(r);
    for t in 0..r.scale(6, 200) {
        counting(r, 2 + t % 3, r.scale(4000, 20_000));
        storing(r, 2 + t % 3, r.scale(1500, 20_000));
    }
    for t in 0..r.scale(60, 4000) {
        one_winner(r, 2 + t % 3, t);
    }
    run.finish();
}
