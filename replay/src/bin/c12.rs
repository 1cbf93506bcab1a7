use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

fn len<I: ExactSizeIterator>(i: &I) -> usize {
    i.len()
}

macro_rules! iters {
    ($name:ident, $map:ty, [$($g:tt)*]) => {
        fn $name<K: Ordinal + Spec + Clone + PartialEq + Debug, V: Val, $($g)*>(r: &mut Run, label: &str) {
            let n = K::count() as usize;
            let k = |i: usize| K::nth(i as u128).unwrap();
            let one = move |which: usize, ops: &[Op]| -> Result<(), String> {
                let mut m = <$map>::new(|key: K| V::make(key.ordinal() as u32 + 10));
                let entries: Vec<(K, V)> = (0..n).map(|i| (k(i), V::make(i as u32 + 10))).collect();
                let unchanged = |m: &$map| -> Result<(), String> {
                    for i in 0..n { same!(*m.get(&k(i)), V::make(i as u32 + 10), "key {i} after shared iteration"); }
                    Ok(())
                };
                match which {
                    0 => { drive(m.iter(), &entries, ops, Size::Exact, |(k, v)| (k, v.clone()), Some(len), Some(Clone::clone))?; unchanged(&m) }
                    1 => { drive((&m).into_iter(), &entries, ops, Size::Exact, |(k, v)| (k, v.clone()), Some(len), Some(Clone::clone))?; unchanged(&m) }
                    2 => drive(m.into_iter(), &entries, ops, Size::Exact, |x| x, Some(len), Some(Clone::clone)),
                    _ => {
                        let mut wrote: Vec<Option<V>> = vec![None; n];
                        let mut c = 0;
                        drive(m.iter_mut(), &entries, ops, Size::Exact, |(key, v)| {
                            c += 1;
                            let old = v.clone();
                            *v = V::make(500 + c);
                            wrote[key.ordinal()] = Some(v.clone());
                            (key, old)
                        }, Some(len), None)?;
                        for i in 0..n {
                            let want = wrote[i].clone().unwrap_or(V::make(i as u32 + 10));
                            same!(*m.get(&k(i)), want, "key {i} after writing through iter_mut");
                        }
                        Ok(())
                    }
                }
            };
            for which in 0..4 {
                let lab = format!("{label} {}", ["iter", "&into_iter", "into_iter", "iter_mut"][which]);
                let mut rng = Rng::new(r.seed ^ (n as u64) << 8 ^ which as u64);
                for ops in if n > 20_000 { some_op_seqs(&mut rng, 80, r.scale(1, 10)) } else { op_seqs(&mut rng, n.min(80), if n > 200 { r.scale(15, 300) } else if n > 60 { r.scale(60, 2000) } else { r.scale(250, 15_000) }) } {
                    r.history(&lab, ops, move |ops| one(which, ops));
                }
            }
        }
    };
}
iters!(heap, OrdinalTotalMap<K, V>, []);
iters!(array, OrdinalTotalArrayMap<K, V, S>, [const S: usize]);

fn main() {
    let mut run = Run::start("C12");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        heap::<$k, $v>(r, concat!("OrdinalTotalMap<", stringify!($k), ", ", stringify!($v), ">"));
        array::<$k, $v, $s>(r, concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!(K<0>, u32, 0; (), Big, 1; bool, &'static str, 2; K<2>, Unit, 2; K<4>, u32, 4; Rev<5>, u32, 5; (K<3>, bool), Box<u64>, 6; Option<K<9>>, Wide, 10; Box<K<70>>, u32, 70;
        i8, u32, 256; K<3>, (), 3; Option<u8>, u32, 257; K<1000>, u32, 1000;);
    heap::<K<70000>, u32>(r, "OrdinalTotalMap<K<70000>, u32>");
    array::<(u16, bool), u8, 131072>(r, "OrdinalTotalArrayMap<(u16, bool), u8>");
    run.finish();
}
