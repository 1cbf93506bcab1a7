//! Histories of a partial map against an array of optional values.
#[derive(Clone, Debug, Hash)]
pub enum MapOp {
    Insert(usize, u32),
    Remove(usize),
    GetMut(usize, u32),
    Contains(usize),
    Get(usize),
    CloneKeepOriginal(usize, u32),
    CloneKeepClone(usize),
    FromIter(usize, Vec<(usize, u32)>),
    Clear,
    Default,
    Drain(usize),
}

pub fn random_map_ops(rng: &mut crate::Rng, n: usize, len: usize) -> Vec<MapOp> {
    let mut v = Vec::new();
    let hot = n.min(1 + rng.below(6));
    let base = if n > 0 { rng.below(n) } else { 0 };
    for _ in 0..len {
        let mut key = || if rng.chance(2, 3) { (base + rng.below(hot)) % n } else { rng.below(n) };
        if n == 0 {
            v.push(match rng.below(4) {
                0 => MapOp::CloneKeepClone(0),
                1 => MapOp::Clear,
                2 => MapOp::FromIter(rng.below(5), vec![]),
                _ => MapOp::Drain(rng.below(2)),
            });
            continue;
        }
        let k = key();
        let (k2, k3) = (key(), key());
        let x = rng.next() as u32 % 1000;
        v.push(match rng.below(24) {
            0..=8 => MapOp::Insert(k, x),
            9..=13 => MapOp::Remove(k),
            14 | 15 => MapOp::GetMut(k, x),
            16 => MapOp::Contains(k),
            17 => MapOp::Get(k),
            18 => MapOp::CloneKeepOriginal(k, x),
            19 => MapOp::CloneKeepClone(k),
            20 => {
                // up to three times as many items as there are keys, of small types
                let many = if rng.chance(1, 3) { rng.below(3 * n.min(12) + 2) } else { 0 };
                let mut items = vec![(k, x), (k2, x + 1), (k3, x + 2), (k, x + 3)];
                items.extend((0..many).map(|j| (rng.below(n), j as u32 + 5000)));
                items.truncate(if rng.chance(1, 4) { rng.below(5) } else { usize::MAX });
                MapOp::FromIter(rng.below(5), items)
            }
            21 => MapOp::Clear,
            22 => MapOp::Default,
            _ => MapOp::Drain(rng.below(3)),
        });
    }
    v
}

/// Defines `fn $name` running random and short exhaustive histories of the map type.
#[macro_export]
macro_rules! pmap_history {
    ($name:ident, $map:ty, [$($g:tt)*]) => {
        fn $name<K: ordinal_map::Ordinal + $crate::Spec + Clone + PartialEq + std::fmt::Debug, V: $crate::Val, $($g)*>(r: &mut $crate::Run, label: &str) {
            use $crate::{MapOp, same};
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let full = move |m: &$map, model: &[Option<V>], when: &str| -> Result<(), String> {
                let present = model.iter().flatten().count();
                same!(m.len(), present, "len {when}");
                same!(m.is_empty(), present == 0, "is_empty {when}");
                for i in 0..n {
                    // all keys of small types; every present key, its neighbours and a sample otherwise
                    let near = i.saturating_sub(1)..n.min(i + 2);
                    if n > 600 && i % 97 != 0 && !near.clone().any(|j| model[j].is_some()) {
                        continue;
                    }
                    same!(m.get(&k(i)), model[i].as_ref(), "get of key {i} {when}");
                    same!(m.contains_key(&k(i)), model[i].is_some(), "contains_key of key {i} {when}");
                }
                Ok(())
            };
            let run_ops = move |ops: &[MapOp]| -> Result<(), String> {
                let mut m = <$map>::new();
                let mut model: Vec<Option<V>> = vec![None; n];
                full(&m, &model, "of a new map")?;
                for (step, op) in ops.iter().enumerate() {
                    let when = format!("after step {step} ({op:?})");
                    match op {
                        MapOp::Insert(i, x) => {
                            let old = m.insert(k(*i), V::make(*x));
                            same!(old, model[*i].replace(V::make(*x)), "previous value returned by insert, {when}");
                        }
                        MapOp::Remove(i) => {
                            let old = m.remove(&k(*i));
                            same!(old, model[*i].take(), "value returned by remove, {when}");
                        }
                        MapOp::GetMut(i, x) => {
                            let mut new = V::make(*x);
                            same!(m.get_mut(&k(*i)).map(|v| v.clone()), model[*i].clone(), "get_mut, {when}");
                            if let (Some(a), Some(b)) = (m.get_mut(&k(*i)), model[*i].as_mut()) {
                                *b = new.clone();
                                std::mem::swap(a, &mut new);
                            }
                        }
                        MapOp::Contains(i) => same!(m.contains_key(&k(*i)), model[*i].is_some(), "contains_key, {when}"),
                        MapOp::Get(i) => same!(m.get(&k(*i)), model[*i].as_ref(), "get, {when}"),
                        MapOp::CloneKeepOriginal(i, x) => {
                            let mut c = m.clone();
                            full(&c, &model, "of a clone")?;
                            c.insert(k(*i), V::make(*x));
                            c.remove(&k((*i + 1) % n));
                            full(&m, &model, "of the original after changing its clone")?;
                        }
                        MapOp::CloneKeepClone(i) => {
                            let c = m.clone();
                            if n > 0 {
                                m.insert(k(*i), V::make(7777));
                                m.remove(&k((*i + 1) % n));
                            }
                            full(&c, &model, "of a clone after changing the original")?;
                            m = c;
                        }
                        MapOp::FromIter(hint, xs) => {
                            m = $crate::hinted(*hint, xs.iter().map(|(i, x)| (k(*i), V::make(*x))).collect());
                            model = vec![None; n];
                            for (i, x) in xs {
                                model[*i] = Some(V::make(*x));
                            }
                        }
                        MapOp::Clear => {
                            m.clear();
                            model = vec![None; n];
                        }
                        MapOp::Default => {
                            m = Default::default();
                            model = vec![None; n];
                        }
                        MapOp::Drain(j) => {
                            let mut d = m.drain();
                            for _ in 0..*j {
                                d.next();
                            }
                            drop(d);
                            model = vec![None; n];
                        }
                    }
                    full(&m, &model, &when)?;
                }
                Ok(())
            };
            for hint in 0..5 {
                for times in 1..4 {
                    if n <= 5000 {
                        r.history(label, vec![MapOp::FromIter(hint, (0..n * times).map(|i| (i % n, i as u32)).collect())], run_ops);
                    }
                }
            }
            if n > 5000 && !r.mini {
                // full, then all but one
                r.history(label, vec![MapOp::FromIter(0, (0..n).map(|i| (i, i as u32)).collect()), MapOp::Remove(n - 1), MapOp::CloneKeepClone(n / 2)], run_ops);
            }
            if n > 0 && n <= 700 && !(r.mini && n > 10) {
                let all = |xs: &[usize]| MapOp::FromIter(0, xs.iter().map(|i| (*i, *i as u32 + 3)).collect());
                for xs in $crate::crowded(n) {
                    let spots = [0, 1, 62, 63, 64, 65, n / 2, n - 1];
                    for i in spots.into_iter().filter(|i| *i < n) {
                        r.history(label, vec![all(&xs), MapOp::Remove(i), MapOp::GetMut((i + 1) % n, 5), MapOp::Insert(i, 6), MapOp::Insert((i + 1) % n, 7)], run_ops);
                        r.history(label, vec![all(&xs), MapOp::CloneKeepClone(i), MapOp::Insert(i, 8), MapOp::CloneKeepOriginal(i, 9), MapOp::Clear, MapOp::Insert(i, 10)], run_ops);
                        if n > 140 { break; }
                    }
                    if n <= 140 {
                        let ins = |i: &usize| MapOp::Insert(*i, *i as u32 + 11);
                        r.history(label, xs.iter().map(ins).chain([MapOp::CloneKeepClone(0), MapOp::Drain(1), MapOp::Insert(0, 4)]).collect(), run_ops);
                        r.history(label, xs.iter().rev().map(ins).chain(xs.iter().map(|i| MapOp::Remove(*i))).collect(), run_ops);
                    }
                }
            }
            // every history of two mutating operations on small key types
            let mut short: Vec<MapOp> = Vec::new();
            for i in 0..n.min(4) {
                short.extend([MapOp::Insert(i, i as u32 + 1), MapOp::Remove(i), MapOp::GetMut(i, 90), MapOp::CloneKeepOriginal(i, 5), MapOp::CloneKeepClone(i)]);
            }
            if n <= 4 {
                short.push(MapOp::Clear);
                short.push(MapOp::Drain(1));
                for a in &short {
                    for b in &short {
                        r.history(label, vec![a.clone(), b.clone()], run_ops);
                        if !r.mini {
                            for c in &short {
                                r.history(label, vec![a.clone(), b.clone(), c.clone()], run_ops);
                            }
                        }
                    }
                }
            }
            let mut rng = $crate::Rng::new(r.seed ^ (n as u64) << 8);
            let count = if n > 20_000 { r.scale(8, 150) } else if n > 600 { r.scale(40, 1500) } else if n > 100 { r.scale(120, 5000) } else { r.scale(600, 30_000) };
            for _ in 0..count {
                let len = 1 + rng.below(25);
                r.history(label, $crate::random_map_ops(&mut rng, n, len), run_ops);
            }
        }
    };
}
