use ordinal_map::Ordinal;
use replay::*;
#[allow(unused_imports)]
use std::num::*;
use std::fmt::Debug;

#[derive(Clone, Debug, Hash)]
enum Op {
    Insert(usize, u32),
    GetMut(usize, u32),
    IndexMut(usize, u32),
    Get(usize),
    Index(usize),
    CloneKeepOriginal(usize, u32),
    CloneKeepClone(usize, u32),
    ValuesMut(u32),
    New(u32),
}

macro_rules! total {
    ($name:ident, $map:ty, [$($g:tt)*], $ctor:path) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val + Default, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let full = move |m: &$map, model: &[V], when: &str| -> Result<(), String> {
                same!(m.len(), n, "len {when}");
                same!(m.is_empty(), n == 0, "is_empty {when}");
                for i in 0..n {
                    same!(*m.get(&k(i)), model[i], "get of key {i} {when}");
                    same!(m[&k(i)], model[i], "index of key {i} {when}");
                }
                same!(m.keys().take(n + 2).collect::<Vec<_>>(), (0..n).map(k).collect::<Vec<_>>(), "keys {when}");
                same!(m.clone().into_keys().take(n + 2).collect::<Vec<_>>(), (0..n).map(k).collect::<Vec<_>>(), "into_keys {when}");
                same!(m.values().take(n + 2).cloned().collect::<Vec<_>>(), model.to_vec(), "values {when}");
                same!(m.clone().into_values().to_vec(), model.to_vec(), "into_values {when}");
                Ok(())
            };
            // failing and stateful initialisers
            for fail_at in 0..=n.min(40) {
                r.case(&format!("{label}::try_new"), fail_at, |&fail_at| {
                    let mut log = Vec::new();
                    let res: Result<$map, String> = <$map>::try_new(|key: K| {
                        let i = log.len();
                        log.push(key.clone());
                        if i == fail_at { Err(format!("stop at {i}")) } else { Ok(V::make(i as u32 * 3 + 1)) }
                    });
                    let calls = if fail_at < n { fail_at + 1 } else { n };
                    same!(log, (0..calls).map(k).collect::<Vec<_>>(), "keys passed to the initialiser");
                    match res {
                        Err(e) => same!((true, e), (fail_at < n, format!("stop at {fail_at}")), "result of a failing construction"),
                        Ok(m) => {
                            same!(fail_at >= n, true, "construction succeeded although call {fail_at} failed");
                            full(&m, &(0..n).map(|i| V::make(i as u32 * 3 + 1)).collect::<Vec<_>>(), "after try_new")?;
                        }
                    }
                    Ok(())
                });
            }
            let run_ops = move |ops: &[Op]| -> Result<(), String> {
                let mut m: $map = Default::default();
                let mut model: Vec<V> = vec![V::default(); n];
                full(&m, &model, "of the default map")?;
                for (step, op) in ops.iter().enumerate() {
                    let when = format!("after step {step} ({op:?})");
                    match op {
                        Op::Insert(i, x) => {
                            let old = m.insert(k(*i), V::make(*x));
                            same!(old, std::mem::replace(&mut model[*i], V::make(*x)), "value returned by insert, {when}");
                        }
                        Op::GetMut(i, x) => {
                            same!(*m.get_mut(&k(*i)), model[*i], "get_mut, {when}");
                            *m.get_mut(&k(*i)) = V::make(*x);
                            model[*i] = V::make(*x);
                        }
                        Op::IndexMut(i, x) => {
                            m[&k(*i)] = V::make(*x);
                            model[*i] = V::make(*x);
                        }
                        Op::Get(i) => same!(*m.get(&k(*i)), model[*i], "get, {when}"),
                        Op::Index(i) => same!(m[&k(*i)], model[*i], "index, {when}"),
                        Op::CloneKeepOriginal(i, x) => {
                            let mut c = m.clone();
                            full(&c, &model, "of a clone")?;
                            c.insert(k(*i), V::make(*x));
                            full(&m, &model, "of the original after changing its clone")?;
                        }
                        Op::CloneKeepClone(i, x) => {
                            let c = m.clone();
                            m.insert(k(*i), V::make(*x));
                            full(&c, &model, "of a clone after changing the original")?;
                            m = c;
                        }
                        Op::ValuesMut(x) => {
                            let mut c = 0;
                            for (i, v) in m.values_mut().enumerate() {
                                holds!(i < n && *v == model[i], "values_mut item {i}, {when}");
                                *v = V::make(*x + i as u32);
                                model[i] = V::make(*x + i as u32);
                                c += 1;
                            }
                            same!(c, n, "number of values_mut items, {when}");
                        }
                        Op::New(x) => {
                            let mut log = Vec::new();
                            m = <$map>::new(|key: K| { log.push(key.clone()); V::make(*x + log.len() as u32 * 7) });
                            same!(log, (0..n).map(k).collect::<Vec<_>>(), "keys passed to the initialiser, {when}");
                            model = (0..n).map(|i| V::make(*x + (i as u32 + 1) * 7)).collect();
                        }
                    }
                    full(&m, &model, &when)?;
                }
                Ok(())
            };
            let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
            for _ in 0..if n > 20_000 { r.scale(1, 40) } else if n > 600 { r.scale(2, 100) } else if n > 60 { r.scale(60, 2000) } else { r.scale(400, 20_000) } {
                let len = 1 + rng.below(12);
                let ops = (0..len).map(|_| {
                    let x = rng.next() as u32 % 1000;
                    if n == 0 {
                        return if rng.chance(1, 2) { Op::ValuesMut(x) } else { Op::New(x) };
                    }
                    let i = rng.below(n);
                    match rng.below(12) {
                        0..=3 => Op::Insert(i, x),
                        4 => Op::GetMut(i, x),
                        5 => Op::IndexMut(i, x),
                        6 => Op::Get(i),
                        7 => Op::Index(i),
                        8 => Op::CloneKeepOriginal(i, x),
                        9 => Op::CloneKeepClone(i, x),
                        10 => Op::ValuesMut(x),
                        _ => Op::New(x),
                    }
                }).collect();
                r.history(label, ops, run_ops);
            }
        }
    };
}
total!(heap, ordinal_map::map::total::OrdinalTotalMap<K, V>, [], OrdinalTotalMap);
total!(array, ordinal_map::map::total::OrdinalTotalArrayMap<K, V, S>, [const S: usize], OrdinalTotalArrayMap);

fn main() {
    let mut run = Run::start("C10");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        heap::<$k, $v>(r, concat!("OrdinalTotalMap<", stringify!($k), ", ", stringify!($v), ">"));
        array::<$k, $v, $s>(r, concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!(K<0>, u32, 0; (), u32, 1; K<1>, (), 1; bool, String, 2; K<3>, Option<u8>, 3; Rev<4>, u32, 4; K<6>, String, 6; (K<3>, bool), (), 6;
        [K<2>; 3], Box<u64>, 8; Option<K<5>>, u32, 6; u8, u32, 256; K<65>, u32, 65; K<127>, u32, 127; K<257>, u32, 257; Option<(u8, bool)>, String, 513; K<1000>, u32, 1000; K<5000>, u32, 5000; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    heap::<NonZeroU16, u32>(r, "OrdinalTotalMap<NonZeroU16, u32>");
    heap::<(u16, bool), u32>(r, "OrdinalTotalMap<(u16, bool), u32>");
    array::<(u16, bool), u8, 131072>(r, "OrdinalTotalArrayMap<(u16, bool), u8>");
    run.finish();
}
