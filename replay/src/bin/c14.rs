use ordinal_map::map::{Entry, OrdinalArrayMap, OrdinalMap};
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

#[derive(Clone, Debug, Hash)]
enum EOp {
    /// only look at the entry
    Look(usize),
    /// occupied: read, write through get_mut, read again
    OccWrite(usize, u32),
    /// vacant: insert
    VacInsert(usize, u32),
    /// or_insert the first, then write the second through the returned access
    OrInsert(usize, u32, Option<u32>),
    Insert(usize, u32),
    Remove(usize),
    Clear,
}

macro_rules! entries {
    ($name:ident, $map:ty, [$($g:tt)*]) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let run_ops = move |ops: &[EOp]| -> Result<(), String> {
                let mut m = <$map>::new();
                let mut model: Vec<Option<V>> = vec![None; n];
                for (step, op) in ops.iter().enumerate() {
                    let when = format!("step {step} ({op:?})");
                    match op {
                        EOp::Insert(i, x) => { m.insert(k(*i), V::make(*x)); model[*i] = Some(V::make(*x)); }
                        EOp::Remove(i) => { m.remove(&k(*i)); model[*i] = None; }
                        EOp::Clear => { m.clear(); model = vec![None; n]; }
                        EOp::Look(i) => {
                            let e = m.entry(k(*i));
                            same!(*e.key(), k(*i), "Entry::key, {when}");
                            match &e {
                                Entry::Occupied(o) => {
                                    same!(*o.key(), k(*i), "OccupiedEntry::key, {when}");
                                    same!(Some(o.get().clone()), model[*i], "OccupiedEntry::get, {when}");
                                }
                                Entry::Vacant(v) => {
                                    same!(*v.key(), k(*i), "VacantEntry::key, {when}");
                                    same!(model[*i], None, "value of a key reported vacant, {when}");
                                }
                            }
                        }
                        EOp::OccWrite(i, x) => match m.entry(k(*i)) {
                            Entry::Occupied(mut o) => {
                                same!(Some(o.get().clone()), model[*i], "OccupiedEntry::get, {when}");
                                same!(Some(o.get_mut().clone()), model[*i], "OccupiedEntry::get_mut, {when}");
                                *o.get_mut() = V::make(*x);
                                same!(*o.get(), V::make(*x), "OccupiedEntry::get after writing, {when}");
                                same!(*o.key(), k(*i), "OccupiedEntry::key after writing, {when}");
                                model[*i] = Some(V::make(*x));
                            }
                            Entry::Vacant(v) => {
                                same!(*v.key(), k(*i), "VacantEntry::key, {when}");
                                same!(model[*i], None, "value of a key reported vacant, {when}");
                            }
                        },
                        EOp::VacInsert(i, x) => match m.entry(k(*i)) {
                            Entry::Occupied(o) => same!(Some(o.get().clone()), model[*i], "OccupiedEntry::get, {when}"),
                            Entry::Vacant(v) => {
                                same!(model[*i], None, "value of a key reported vacant, {when}");
                                v.insert(V::make(*x));
                                model[*i] = Some(V::make(*x));
                            }
                        },
                        EOp::OrInsert(i, x, w) => {
                            let a = m.entry(k(*i)).or_insert(V::make(*x));
                            let want = model[*i].clone().unwrap_or(V::make(*x));
                            same!(*a, want, "value behind or_insert, {when}");
                            model[*i] = Some(want);
                            if let Some(w) = w {
                                *a = V::make(*w);
                                model[*i] = Some(V::make(*w));
                            }
                        }
                    }
                    let present = model.iter().flatten().count();
                    same!((m.len(), m.is_empty()), (present, present == 0), "length after {when}");
                    for i in 0..n {
                        same!(m.get(&k(i)), model[i].as_ref(), "key {i} after {when}");
                    }
                }
                Ok(())
            };
            if n > 0 && n <= 3 {
                let mut ops = Vec::new();
                for i in 0..n {
                    ops.extend([EOp::Look(i), EOp::OccWrite(i, 31), EOp::VacInsert(i, 41), EOp::OrInsert(i, 51, None), EOp::OrInsert(i, 61, Some(71)), EOp::Insert(i, 81), EOp::Remove(i)]);
                }
                for a in &ops {
                    for b in &ops {
                        r.history(label, vec![a.clone(), b.clone()], run_ops);
                        for c in &ops {
                            r.history(label, vec![a.clone(), b.clone(), c.clone()], run_ops);
                        }
                    }
                }
            }
            if n == 0 { return; }
            if n <= 140 {
                for xs in crowded(n) {
                    let ins = |i: &usize| EOp::Insert(*i, *i as u32 + 11);
                    for i in [0, 1, 63, 64, n / 2, n - 1].into_iter().filter(|i| *i < n) {
                        for op in [EOp::Look(i), EOp::OccWrite(i, 31), EOp::VacInsert(i, 41), EOp::OrInsert(i, 51, None), EOp::OrInsert(i, 61, Some(71))] {
                            r.history(label, xs.iter().map(ins).chain([op, EOp::Remove(i), EOp::OrInsert(i, 81, Some(91))]).collect(), run_ops);
                        }
                    }
                    r.history(label, xs.iter().map(|i| EOp::VacInsert(*i, 5)).collect(), run_ops);
                    r.history(label, xs.iter().rev().map(|i| EOp::OrInsert(*i, 6, Some(7))).collect(), run_ops);
                }
            }
            let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
            for _ in 0..if n > 50_000 { r.scale(10, 100) } else if n > 200 { r.scale(25, 500) } else if n > 60 { r.scale(80, 2000) } else { r.scale(400, 20_000) } {
                let len = 1 + rng.below(14);
                let hot = 1 + rng.below(n.min(4));
                let high = rng.chance(1, 2);
                let ops = (0..len).map(|_| {
                    let i = if rng.chance(2, 3) { if high { n - 1 - rng.below(hot) } else { rng.below(hot) } } else { rng.below(n) };
                    let (x, y) = (rng.below(1000) as u32, rng.below(1000) as u32);
                    match rng.below(12) {
                        0 | 1 => EOp::Look(i),
                        2 | 3 => EOp::OccWrite(i, x),
                        4 | 5 => EOp::VacInsert(i, x),
                        6 => EOp::OrInsert(i, x, None),
                        7 | 8 => EOp::OrInsert(i, x, Some(y)),
                        9 => EOp::Insert(i, x),
                        10 => EOp::Remove(i),
                        _ => if rng.chance(1, 3) { EOp::Clear } else { EOp::Remove(i) },
                    }
                }).collect();
                r.history(label, ops, run_ops);
            }
        }
    };
}
entries!(heap, OrdinalMap<K, V>, []);
entries!(array, OrdinalArrayMap<K, V, S>, [const S: usize]);

fn main() {
    let mut run = Run::start("C14");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        heap::<$k, $v>(r, concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">"));
        array::<$k, $v, $s>(r, concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!((), u32, 1; K<2>, String, 2; K<3>, u32, 3; Rev<5>, u32, 5; (K<3>, bool), Box<u64>, 6; Option<K<9>>, Option<u8>, 10; K<70>, u32, 70; K<3>, (), 3; Option<u8>, u32, 257; K<700>, String, 700; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    heap::<K<70000>, u32>(r, "OrdinalMap<K<70000>, u32>");
    array::<(u16, bool), u8, 131072>(r, "OrdinalArrayMap<(u16, bool), u8>");
    run.finish();
}
