use ordinal_map::map::{OrdinalArrayMap, OrdinalMap};
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

macro_rules! iters {
    ($name:ident, $map:ty, [$($g:tt)*]) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let build = move |occ: &[bool]| -> $map {
                let mut m = <$map>::new();
                for i in 0..n {
                    if occ[i] { m.insert(k(i), V::make(i as u32 + 10)); }
                }
                // leave a removed key behind now and then, so "absent" is not always "never set"
                for i in 0..n {
                    if !occ[i] && i % 2 == 0 { m.insert(k(i), V::make(1)); m.remove(&k(i)); }
                }
                m
            };
            let one = move |occ: &[bool], which: usize, ops: &[Op]| -> Result<(), String> {
                let mut m = build(occ);
                let present: Vec<usize> = (0..n).filter(|&i| occ[i]).collect();
                let entries: Vec<(K, V)> = present.iter().map(|&i| (k(i), V::make(i as u32 + 10))).collect();
                let keys: Vec<K> = present.iter().map(|&i| k(i)).collect();
                let vals: Vec<V> = entries.iter().map(|e| e.1.clone()).collect();
                let unchanged = |m: &$map| -> Result<(), String> {
                    for i in 0..n { same!(m.get(&k(i)).cloned(), occ[i].then(|| V::make(i as u32 + 10)), "key {i} after shared iteration"); }
                    Ok(())
                };
                match which {
                    0 => { drive(m.iter(), &entries, ops, Size::Bracket, |(k, v)| (k, v.clone()), None, Some(Clone::clone))?; unchanged(&m) }
                    1 => { drive((&m).into_iter(), &entries, ops, Size::Bracket, |(k, v)| (k, v.clone()), None, Some(Clone::clone))?; unchanged(&m) }
                    2 => { drive(m.keys(), &keys, ops, Size::Bracket, |k| k, None, Some(Clone::clone))?; unchanged(&m) }
                    3 => { drive(m.values(), &vals, ops, Size::Bracket, |v| v.clone(), None, Some(Clone::clone))?; unchanged(&m) }
                    4 => drive(m.into_iter(), &entries, ops, Size::Bracket, |x| x, None, Some(Clone::clone)),
                    5 => {
                        let mut wrote: Vec<Option<V>> = vec![None; n];
                        let mut c = 0;
                        drive(m.iter_mut(), &entries, ops, Size::Bracket, |(key, v)| {
                            c += 1;
                            let old = v.clone();
                            *v = V::make(500 + c);
                            wrote[key.ordinal()] = Some(v.clone());
                            (key, old)
                        }, None, None)?;
                        for i in 0..n {
                            let want = wrote[i].clone().or(occ[i].then(|| V::make(i as u32 + 10)));
                            same!(m.get(&k(i)).cloned(), want, "key {i} after writing through iter_mut");
                        }
                        Ok(())
                    }
                    _ => {
                        let mut wrote: Vec<(V, V)> = Vec::new();
                        let mut c = 0;
                        drive(m.values_mut(), &vals, ops, Size::Bracket, |v| {
                            c += 1;
                            let old = v.clone();
                            *v = V::make(500 + c);
                            wrote.push((old.clone(), v.clone()));
                            old
                        }, None, None)?;
                        // every write lands where the old value was
                        for i in 0..n {
                            let orig = V::make(i as u32 + 10);
                            let got = m.get(&k(i)).cloned();
                            if !occ[i] { same!(got, None, "key {i} after writing through values_mut"); continue; }
                            let got = got.ok_or(format!("key {i} vanished while writing through values_mut"))?;
                            holds!(got == orig || wrote.iter().any(|(o, w)| *o == orig && *w == got), "key {i} holds {got:?} after values_mut; written: {wrote:?}");
                        }
                        let landed = (0..n).filter(|&i| occ[i] && m.get(&k(i)) != Some(&V::make(i as u32 + 10))).count();
                        if V::make(500) != V::make(10) && V::make(10) != V::make(11) {
                            holds!(landed <= wrote.len(), "more keys changed than were yielded");
                        }
                        Ok(())
                    }
                }
            };
            for which in 0..7 {
                let lab = format!("{label} {}", ["iter", "&into_iter", "keys", "values", "into_iter", "iter_mut", "values_mut"][which]);
                let mut rng = Rng::new(r.seed ^ (n as u64) << 8 ^ which as u64);
                if n <= 4 {
                    // every occupancy, every front/back pattern
                    for o in 0..1usize << n {
                        let occ: Vec<bool> = (0..n).map(|i| o >> i & 1 == 1).collect();
                        let len = occ.iter().filter(|&&b| b).count();
                        for bits in 0..1usize << (n + 1) {
                            r.case(&lab, (occ.clone(), ops_of_bits(n + 1, bits)), |(occ, ops)| one(occ, which, ops));
                        }
                        for ops in op_seqs(&mut rng, len, 0) {
                            r.case(&lab, (occ.clone(), ops), |(occ, ops)| one(occ, which, ops));
                        }
                    }
                }
                for _ in 0..if n > 20_000 { if r.mini { 0 } else { r.scale(1, 10) / 3 } } else if n > 200 { r.scale(12, 200) } else if n > 60 { r.scale(40, 1000) } else { r.scale(120, 8000) } {
                    let d = 1 + rng.below(5);
                    let occ: Vec<bool> = (0..n).map(|_| rng.chance(d, if n > 200 && n % 2 == 0 { 60 } else { 5 })).collect();
                    let ops = random_ops(&mut rng, n.min(80));
                    let o2 = occ.clone();
                    r.history(&format!("{lab}, occupied {}", show(&occ)), ops, move |ops| one(&o2, which, ops));
                }
                // few keys of many, and all of them
                if n > 60 && !(r.mini && n > 200) {
                    for (occ, what) in [((0..n).collect::<Vec<_>>(), "all"), (vec![0], "first"), (vec![n - 1], "last"), (vec![n - 2, n - 1], "last two"), (vec![0, n - 1], "ends")] {
                        let mut o = vec![false; n];
                        occ.iter().for_each(|i| o[*i] = true);
                        for ops in [vec![Op::Collect], vec![Op::Rev], vec![Op::Next, Op::Back, Op::Next], vec![Op::Back, Op::CloneAll, Op::Nth(1), Op::Collect], vec![Op::Last]] {
                            r.case(&format!("{lab}, occupied: {what}"), ops, |ops| one(&o, which, ops));
                        }
                    }
                }
                // never inserted into
                let empty = vec![false; n];
                for ops in if n > 20_000 { some_op_seqs(&mut rng, 0, 9) } else { op_seqs(&mut rng, 0, 3) } {
                    r.case(&lab, ("never inserted", ops), |(_, ops)| {
                        let m = <$map>::new();
                        match which {
                            0 => drive(m.iter(), &[], ops, Size::Bracket, |(k, v)| (k, v.clone()), None, Some(Clone::clone)),
                            2 => drive(m.keys(), &[], ops, Size::Bracket, |k| k, None, Some(Clone::clone)),
                            4 => drive(m.into_iter(), &[], ops, Size::Bracket, |x| x, None, Some(Clone::clone)),
                            _ => one(&empty, which, ops),
                        }
                    });
                }
            }
        }
    };
}
/// Keys that can be compared: the provided methods that need that.
fn sorted<K: Ordinal + Spec + Clone + Ord + Debug>(r: &mut Run, label: &str) {
    let n = K::count() as usize;
    for o in 0..1usize << n {
        for (front, back) in [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (n, 0), (0, n)] {
            r.case(&format!("{label} comparisons"), (o, front, back), |&(o, front, back)| {
                let expected: Vec<K> = (0..n).filter(|i| o >> i & 1 == 1).map(|i| K::nth(i as u128).unwrap()).collect();
                let m: OrdinalMap<K, u32> = expected.iter().cloned().map(|k| (k, 5)).collect();
                ordered(m.keys(), &expected, front, back)?;
                let entries: Vec<(K, &u32)> = expected.iter().cloned().map(|k| (k, &5)).collect();
                ordered(m.iter(), &entries, front, back)?;
                let vals: Vec<&u32> = entries.iter().map(|e| e.1).collect();
                ordered(m.values(), &vals, front, back)
            });
        }
    }
}
fn show(occ: &[bool]) -> String {
    if occ.len() <= 20 {
        return occ.iter().map(|&b| if b { '1' } else { '0' }).collect();
    }
    "(random)".to_owned()
}
iters!(heap, OrdinalMap<K, V>, []);
iters!(array, OrdinalArrayMap<K, V, S>, [const S: usize]);

fn main() {
    let mut run = Run::start("C11");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        heap::<$k, $v>(r, concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">"));
        array::<$k, $v, $s>(r, concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!(K<0>, u32, 0; (), Big, 1; K<2>, Unit, 2; K<4>, u32, 4; Rev<4>, (), 4; (K<3>, bool), Box<u64>, 6; Option<K<9>>, Wide, 10; Box<K<70>>, u32, 70; Option<u8>, u32, 257; K<1000>, String, 1000;);
    heap::<K<70000>, u32>(r, "OrdinalMap<K<70000>, u32>");
    array::<(u16, bool), u8, 131072>(r, "OrdinalArrayMap<(u16, bool), u8>");
    sorted::<K<0>>(r, "OrdinalMap<K<0>, u32>");
    sorted::<()>(r, "OrdinalMap<(), u32>");
    sorted::<K<5>>(r, "OrdinalMap<K<5>, u32>");
    sorted::<(K<3>, bool)>(r, "OrdinalMap<(K<3>, bool), u32>");
    run.finish();
}
