use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

fn transforms<K: Ordinal + Spec + Clone + PartialEq + Debug + 'static, V: Val, const S: usize>(r: &mut Run, label: &str) {
    let n = K::count() as usize;
    let k = |i: usize| K::nth(i as u128).unwrap();
    let mut rng = Rng::new(r.seed ^ S as u64);
    for _ in 0..if n > 20_000 { r.scale(1, 10) / 3 } else if n > 200 { r.scale(60, 500) } else { r.scale(400, 6000) } {
        let vals: Vec<u32> = (0..n).map(|_| rng.next() as u32 % 50).collect();
        r.case(label, vals, |vals| {
            let arr = |d: u32| -> [V; S] { std::array::from_fn(|i| V::make(vals[i] + d)) };
            let make = |d: u32| OrdinalTotalArrayMap::<K, V, S>::from_array(arr(d));
            let holds = |m: &OrdinalTotalArrayMap<K, V, S>, want: &dyn Fn(usize) -> V, what: &str| -> Result<(), String> {
                for i in 0..n {
                    same!(*m.get(&k(i)), want(i), "{what}: value of key {i}");
                    same!(m[&k(i)], want(i), "{what}: indexed value of key {i}");
                }
                same!(m.values().take(n + 2).cloned().collect::<Vec<_>>(), (0..n).map(want).collect::<Vec<_>>(), "{what}: values");
                Ok(())
            };
            holds(&make(0), &|i| V::make(vals[i]), "from_array")?;
            same!(make(0).into_values().to_vec(), arr(0).to_vec(), "into_values");
            same!(make(0).values_array().to_vec(), arr(0).to_vec(), "values_array");
            let m = make(0);
            let rf = m.as_ref();
            for i in 0..n {
                same!(*rf.get(&k(i)), m.get(&k(i)), "as_ref: value of key {i}");
                same!(std::ptr::eq(*rf.get(&k(i)), m.get(&k(i))), true, "as_ref: identity of the reference under key {i}");
            }
            let mut m = make(0);
            {
                let mut mm = m.as_mut();
                for i in 0..n {
                    same!(**mm.get(&k(i)), V::make(vals[i]), "as_mut: value of key {i}");
                    if i % 2 == 0 {
                        **mm.get_mut(&k(i)) = V::make(900 + i as u32);
                    }
                }
            }
            holds(&m, &|i| V::make(if i % 2 == 0 { 900 + i as u32 } else { vals[i] }), "after writing through as_mut")?;
            let mut m = make(0);
            for (i, v) in m.values_array_mut().iter_mut().enumerate() {
                same!(*v, V::make(vals[i]), "values_array_mut item {i}");
                if i % 3 != 1 {
                    *v = V::make(700 + i as u32);
                }
            }
            holds(&m, &|i| V::make(if i % 3 != 1 { 700 + i as u32 } else { vals[i] }), "after writing through values_array_mut")?;
            let z = make(0).zip(OrdinalTotalArrayMap::<K, u64, S>::new(|key| key.ordinal() as u64 + 100));
            for i in 0..n {
                same!(*z.get(&k(i)), (V::make(vals[i]), i as u64 + 100), "zip: value of key {i}");
            }
            let z = OrdinalTotalArrayMap::<K, u64, S>::new(|key| key.ordinal() as u64 + 100).zip(make(0));
            for i in 0..n {
                same!(*z.get(&k(i)), (i as u64 + 100, V::make(vals[i])), "zip: value of key {i}");
            }
            let mut log = Vec::new();
            let mp = make(0).map(|key, v| {
                log.push((key, v.clone()));
                (v, log.len())
            });
            same!(log, (0..n).map(|i| (k(i), V::make(vals[i]))).collect::<Vec<_>>(), "calls of the function passed to map");
            for i in 0..n {
                same!(*mp.get(&k(i)), (V::make(vals[i]), i + 1), "map: value of key {i}");
            }
            let mut log = Vec::new();
            let mp = make(0).map_values(|v| {
                log.push(v.clone());
                (v, log.len())
            });
            same!(log, (0..n).map(|i| V::make(vals[i])).collect::<Vec<_>>(), "calls of the function passed to map_values");
            for i in 0..n {
                same!(*mp.get(&k(i)), (V::make(vals[i]), i + 1), "map_values: value of key {i}");
            }
            Ok(())
        });
    }
}

fn main() {
    // Arrays of many thousand elements live on the stack, several at a time.
    std::thread::Builder::new().stack_size(512 << 20).spawn(all).unwrap().join().unwrap();
}

fn all() {
    let mut run = Run::start("C20");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $(
        transforms::<$k, $v, $s>(r, concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">"));
    )* } }
    go!(K<0>, u32, 0; (), u32, 1; bool, String, 2; K<3>, u32, 3; Rev<5>, u32, 5; (K<3>, bool), Box<u64>, 6; K<17>, Option<u8>, 17; K<64>, u32, 64; K<70>, u32, 70; u8, u32, 256; K<4>, (), 4; Option<u8>, u32, 257; K<1000>, u32, 1000; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    transforms::<(u16, bool), u8, 131072>(r, "OrdinalTotalArrayMap<(u16, bool), u8>");
    run.finish();
}
