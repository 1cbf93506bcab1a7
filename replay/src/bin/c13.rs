use ordinal_map::map::{OrdinalArrayMap, OrdinalMap};
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

type Case = (Vec<bool>, Vec<Op>);

macro_rules! drains {
    ($name:ident, $map:ty, [$($g:tt)*]) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let build = move |occ: &[bool]| -> $map {
                let mut m = <$map>::new();
                for i in 0..n { if occ[i] { m.insert(k(i), V::make(i as u32 + 10)); } }
                m
            };
            let empty = move |m: &mut $map, what: &str| -> Result<(), String> {
                same!((m.len(), m.is_empty()), (0, true), "length after {what}");
                for i in 0..n { same!(m.get(&k(i)), None, "key {i} after {what}"); }
                same!(m.iter().take(2).count(), 0, "entries after {what}");
                // reusable
                for i in 0..n {
                    same!(m.insert(k(i), V::make(77)), None, "insert of key {i} after {what}");
                    same!(m.get(&k(i)), Some(&V::make(77)), "key {i} inserted after {what}");
                    if n > 50_000 && i % 9973 != 0 { continue; }
                    same!(m.len(), i + 1, "length after {what} and {} inserts", i + 1);
                }
                Ok(())
            };
            let one = move |(occ, ops): &Case| -> Result<(), String> {
                let mut m = build(occ);
                let entries: Vec<(K, V)> = (0..n).filter(|&i| occ[i]).map(|i| (k(i), V::make(i as u32 + 10))).collect();
                drive(m.drain(), &entries, ops, Size::Bracket, |x| x, None, None)?;
                empty(&mut m, "drain")?;
                // dropped by a panic
                let mut m = build(occ);
                let left = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut d = m.drain();
                    for o in ops.iter().take(2) { match o { Op::Back => { d.next_back(); } _ => { d.next(); } } }
                    std::panic::resume_unwind(Box::new(()))
                }));
                same!(left.is_err(), true, "unwinding");
                empty(&mut m, "a drain dropped while unwinding")?;
                let mut m = build(occ);
                m.clear();
                empty(&mut m, "clear")
            };
            let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
            if n <= 4 {
                for o in 0..1usize << n {
                    let occ: Vec<bool> = (0..n).map(|i| o >> i & 1 == 1).collect();
                    for len in 0..=n + 1 {
                        for bits in 0..1usize << len {
                            r.case(&format!("{label} drain"), (occ.clone(), ops_of_bits(len, bits)), one);
                        }
                    }
                    for ops in op_seqs(&mut rng, occ.iter().filter(|&&b| b).count(), 0) {
                        r.case(&format!("{label} drain"), (occ.clone(), ops), one);
                    }
                }
            }
            for _ in 0..if n > 50_000 { r.scale(2, 20) } else if n > 200 { r.scale(12, 200) } else if n > 60 { r.scale(80, 2000) } else { r.scale(400, 20_000) } {
                let d = 1 + rng.below(5);
                let occ: Vec<bool> = (0..n).map(|_| rng.chance(d, 5)).collect();
                let ops = random_ops(&mut rng, n.min(80));
                r.case(&format!("{label} drain"), (occ, ops), one);
            }
            r.case(&format!("{label} drain of a new map"), (), |_| {
                let mut m = <$map>::new();
                same!(m.drain().take(2).count(), 0, "drained items");
                empty(&mut m, "drain of a new map")?;
                let mut m = <$map>::new();
                m.clear();
                empty(&mut m, "clear of a new map")
            });
        }
    };
}
drains!(heap, OrdinalMap<K, V>, []);
drains!(array, OrdinalArrayMap<K, V, S>, [const S: usize]);

/// keep[i]: the predicate's answer; change[i]: what it writes before answering
fn retain<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val, const S: usize>(r: &mut Run, label: &str) {
    let n = K::count() as usize;
    let k = |i: usize| K::nth(i as u128).unwrap();
    let one = move |(occ, keep, change): &(Vec<bool>, Vec<bool>, Vec<bool>)| -> Result<(), String> {
        let mut m = OrdinalArrayMap::<K, V, S>::new();
        for i in 0..n {
            if occ[i] {
                m.insert(k(i), V::make(i as u32 + 10));
            }
        }
        let mut log = Vec::new();
        m.retain(|key, v| {
            log.push((key.clone(), v.clone()));
            let i = key.ordinal();
            if change[i] {
                *v = V::make(800 + i as u32);
            }
            keep[i]
        });
        let want: Vec<(K, V)> = (0..n).filter(|&i| occ[i]).map(|i| (k(i), V::make(i as u32 + 10))).collect();
        same!(log, want, "calls of the predicate");
        for i in 0..n {
            let want = (occ[i] && keep[i]).then(|| V::make(if change[i] { 800 + i as u32 } else { i as u32 + 10 }));
            same!(m.get(&k(i)).cloned(), want, "key {i} after retain");
        }
        same!(m.len(), (0..n).filter(|&i| occ[i] && keep[i]).count(), "length after retain");
        // a predicate deciding by call count
        let total = m.len();
        let mut c = 0;
        m.retain(|_, _| {
            c += 1;
            c % 2 == 1
        });
        same!((c, m.len()), (total, total.div_ceil(2)), "calls and length of a counting retain");
        Ok(())
    };
    let label = format!("{label} retain");
    if n <= 3 {
        for b in 0..1usize << (3 * n) {
            let f = |o: usize| (0..n).map(|i| b >> (o * n + i) & 1 == 1).collect::<Vec<bool>>();
            r.case(&label, (f(0), f(1), f(2)), one);
        }
    }
    let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
    for _ in 0..if n > 50_000 { r.scale(3, 30) } else if n > 200 { r.scale(30, 500) } else { r.scale(400, 20_000) } {
        let (d, e, g) = (1 + rng.below(5), rng.below(6), rng.below(6));
        let mut f = |p: usize| (0..n).map(|_| rng.chance(p, 5)).collect::<Vec<bool>>();
        let c = (f(d), f(e), f(g));
        r.case(&label, c, one);
    }
}

fn main() {
    let mut run = Run::start("C13");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        heap::<$k, $v>(r, concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">"));
        array::<$k, $v, $s>(r, concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
        retain::<$k, $v, $s>(r, concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!(K<0>, u32, 0; (), u32, 1; K<2>, String, 2; K<4>, u32, 4; Rev<3>, u32, 3; (K<3>, bool), Box<u64>, 6; Option<K<9>>, u32, 10; K<70>, u32, 70; K<3>, (), 3; Option<u8>, u32, 257; K<700>, u32, 700; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    heap::<K<70000>, u32>(r, "OrdinalMap<K<70000>, u32>");
    array::<(u16, bool), u8, 131072>(r, "OrdinalArrayMap<(u16, bool), u8>");
    retain::<(u16, bool), u8, 131072>(r, "OrdinalArrayMap<(u16, bool), u8>");
    run.finish();
}
