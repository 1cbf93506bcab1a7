use ordinal_map::set::{ordinal_array_set_s, OrdinalArraySet, OrdinalSet};
use ordinal_map::Ordinal;
use replay::*;
use std::collections::BTreeSet;
use std::fmt::Debug;

#[derive(Clone, Debug, Hash)]
enum Op {
    Insert(usize),
    CloneKeepOriginal(usize),
    CloneKeepClone(usize),
    FromIter(usize, Vec<usize>),
    Default,
}

macro_rules! sets {
    ($name:ident, $set:ty, [$($g:tt)*], $elems:expr) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let probe = move |i: usize| n < 600 || i % 97 == 0;
            let full = move |s: &$set, model: &BTreeSet<usize>, when: &str| -> Result<(), String> {
                for i in 0..n {
                    if probe(i) || model.contains(&i) || model.contains(&(i + 1)) || (i > 0 && model.contains(&(i - 1))) {
                        same!(s.contains(&k(i)), model.contains(&i), "contains of element {i} {when}");
                    }
                }
                let elems: Option<fn(&$set, usize) -> Vec<usize>> = $elems;
                if let Some(f) = elems {
                    same!(f(s, n + 2), model.iter().copied().collect::<Vec<_>>(), "elements {when}");
                }
                Ok(())
            };
            let run_ops = move |ops: &[Op]| -> Result<(), String> {
                let mut s = <$set>::new();
                let mut model = BTreeSet::new();
                full(&s, &model, "of a new set")?;
                for (step, op) in ops.iter().enumerate() {
                    let when = format!("after step {step} ({op:?})");
                    match op {
                        Op::Insert(i) => same!(s.insert(k(*i)), model.insert(*i), "result of insert, {when}"),
                        Op::CloneKeepOriginal(i) => {
                            let mut c = s.clone();
                            full(&c, &model, "of a clone")?;
                            c.insert(k(*i));
                            full(&s, &model, "of the original after changing its clone")?;
                        }
                        Op::CloneKeepClone(i) => {
                            let c = s.clone();
                            s.insert(k(*i));
                            full(&c, &model, "of a clone after changing the original")?;
                            s = c;
                        }
                        Op::FromIter(hint, xs) => {
                            s = hinted(*hint, xs.iter().map(|i| k(*i)).collect());
                            model = xs.iter().copied().collect();
                        }
                        Op::Default => { s = Default::default(); model.clear(); }
                    }
                    full(&s, &model, &when)?;
                }
                Ok(())
            };
            if n <= 140 {
                for i in 0..n {
                    r.history(label, vec![Op::Insert(i), Op::Insert(i)], run_ops);
                    r.history(label, vec![Op::FromIter(0, vec![i]), Op::Insert((i + 1) % n), Op::Insert((i + 64) % n)], run_ops);
                }
            }
            if n <= 70 && !r.mini {
                for i in 0..n { for j in 0..n { r.history(label, vec![Op::Insert(i), Op::Insert(j)], run_ops); } }
            }
            for hint in 0..5 {
                for times in 1..4 {
                    if n <= 5000 || (hint, times) == (0, 1) {
                        r.history(label, vec![Op::FromIter(hint, (0..n * times).map(|i| i % n).collect())], run_ops);
                    }
                }
            }
            r.history(label, vec![Op::FromIter(1, vec![])], run_ops);
            if n > 0 && n <= 5000 && !(r.mini && n > 200) {
                for xs in crowded(n) {
                    let spots = [0, 1, 62, 63, 64, 65, 127, 128, n / 2, n - 1];
                    for i in spots.into_iter().filter(|i| *i < n) {
                        let fill = || Op::FromIter(0, xs.clone());
                        r.history(label, vec![fill(), Op::Insert(i), Op::Insert((i + 64) % n), Op::CloneKeepClone((i + 1) % n)], run_ops);
                        r.history(label, vec![fill(), Op::CloneKeepClone(i), Op::Insert(i)], run_ops);
                        r.history(label, vec![fill(), Op::CloneKeepOriginal(i), Op::Insert(i), Op::Default, Op::Insert(i)], run_ops);
                        if n > 600 { break; }
                    }
                    if n <= 140 {
                        // the same contents built up one by one, either way round
                        r.history(label, xs.iter().map(|i| Op::Insert(*i)).chain([Op::CloneKeepClone(n / 3)]).collect(), run_ops);
                        r.history(label, xs.iter().rev().map(|i| Op::Insert(*i)).chain([Op::CloneKeepClone(n / 3)]).collect(), run_ops);
                    }
                }
            }
            let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
            for _ in 0..if n > 600 { r.scale(2, 100) } else { r.scale(150, 8000) } {
                let len = 1 + rng.below(20);
                let start = if n > 0 && n <= 600 && rng.chance(1, 6) { let c = crowded(n); Some(Op::FromIter(0, c[rng.below(c.len())].clone())) } else { None };
                let ops = start.into_iter().chain((0..len).map(|_| {
                    if n == 0 {
                        return if rng.chance(1, 2) { Op::Default } else { Op::FromIter(rng.below(5), vec![]) };
                    }
                    // elements near word boundaries are the interesting ones
                    let i = if rng.chance(1, 2) { rng.below(n) } else { (64 * rng.below(n / 64 + 1) + [0, 63, 1, 62][rng.below(4)]) % n };
                    match rng.below(14) {
                        0..=9 => Op::Insert(i),
                        10 => Op::CloneKeepOriginal(i),
                        11 => Op::CloneKeepClone(i),
                        12 => Op::FromIter(rng.below(5), (0..if rng.chance(1, 4) { 2 * n.min(100) } else { rng.below(6) }).map(|_| rng.below(n)).chain([i]).collect()),
                        _ => Op::Default,
                    }
                })).collect();
                r.history(label, ops, run_ops);
            }
        }
    };
}
sets!(general, OrdinalSet<K>, [], Some(|s, cap| s.iter().take(cap).map(|x| x.ordinal()).collect()));
sets!(array, OrdinalArraySet<K, S>, [const S: usize], None);

fn main() {
    let mut run = Run::start("C15");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $s:expr);* $(;)?) => { $(
        general::<$k>(r, concat!("OrdinalSet<", stringify!($k), ">"));
        array::<$k, $s>(r, concat!("OrdinalArraySet<", stringify!($k), ", ", stringify!($s), ">"));
        r.case(concat!("ordinal_array_set_s::<", stringify!($k), ">()"), $s, |_| {
            same!(ordinal_array_set_s::<$k>(), $s, "number of words");
            Ok(())
        });
    )* } }
    go!(K<0>, 0; (), 1; K<1>, 1; K<2>, 1; Rev<5>, 1; K<63>, 1; K<64>, 1; [bool; 6], 1; K<65>, 2; K<127>, 2; K<128>, 2; K<129>, 3; K<192>, 3; Rev<193>, 4; u8, 4; Option<u8>, 5; K<5000>, 79; K<65537>, 1025; K<70000>, 1094; (u16, bool), 2048; K<200003>, 3126; Box<K<5>>, 1; Box<K<70>>, 2;);
    run.finish();
}
