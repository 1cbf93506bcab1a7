use ordinal_map::map::total::{OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::map::{OrdinalArrayMap, OrdinalMap};
use ordinal_map::set::{ordinal_array_set_s, OrdinalArraySet, OrdinalSet, OrdinalSet64};
use ordinal_map::{AtomicOrdinal, Ordinal};
use replay::*;
use std::fmt::{self, Debug};

/// Reference renderings, through the standard builders only.
struct Map<'a, K, V>(&'a [(K, V)]);
impl<K: Debug, V: Debug> Debug for Map<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}
struct Set<'a, K>(&'a [K]);
impl<K: Debug> Debug for Set<'_, K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.0).finish()
    }
}

/// Plain and pretty, and with flags which the notations hand on to what they show.
fn text(d: &dyn Debug) -> (String, String) {
    (format!("{d:?}"), format!("{d:#?}{d:x?}{d:04?}"))
}

/// A writer which fails once `left` bytes have been written.
struct Full {
    left: usize,
}
impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.left = self.left.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}
/// Rendering to a writer that fails reports the failure and nothing else.
fn failing(d: &dyn Debug, what: &str) -> Result<(), String> {
    use fmt::Write;
    let n = format!("{d:?}").len();
    for left in (0..n.min(12)).chain(n.saturating_sub(3)..n + 1) {
        same!(write!(Full { left }, "{d:?}").is_ok(), left >= n, "{what} rendered to a writer that takes {left} of {n} bytes");
    }
    Ok(())
}

/// Maps are rendered in map notation, sets in set notation, iterators as lists of what remains.
fn one_of(got: &dyn Debug, wants: &[&dyn Debug], what: &str) -> Result<(), String> {
    let g = text(got);
    if g.0.len() < 400 {
        failing(got, what)?;
    }
    for w in wants {
        if text(*w) == g {
            return Ok(());
        }
    }
    Err(format!("{what} is rendered as {}, expected {}", g.0, text(wants[0]).0))
}

/// Steps an iterator, renders it, and checks that rendering consumed nothing.
fn steps<I, T>(mut it: I, items: &[T], ops: &[bool], eq: impl Fn(&I::Item, &T) -> bool, check: impl Fn(&I, &[T], &str) -> Result<(), String>) -> Result<(), String>
where
    I: DoubleEndedIterator,
{
    let (mut lo, mut hi) = (0, items.len());
    check(&it, &items[lo..hi], "at the start")?;
    for (i, front) in ops.iter().enumerate() {
        let got = if *front { it.next() } else { it.next_back() };
        let want = if lo < hi {
            if *front {
                lo += 1;
                Some(&items[lo - 1])
            } else {
                hi -= 1;
                Some(&items[hi])
            }
        } else {
            None
        };
        match (&got, want) {
            (None, None) => {}
            (Some(g), Some(w)) if eq(g, w) => {}
            _ => return Err(format!("step {i} after rendering yields another item than without rendering")),
        }
        check(&it, &items[lo..hi], &format!("after step {i}"))?;
        check(&it, &items[lo..hi], &format!("after step {i}, again"))?;
    }
    Ok(())
}

fn maps<K: Ordinal + Spec + Clone + PartialEq + Debug + 'static, V: Val, const S: usize, const W: usize>(r: &mut Run, label: &str) {
    let n = K::count() as usize;
    let k = |i: usize| K::nth(i as u128).unwrap();
    let mut rng = Rng::new(r.seed ^ n as u64);
    let mut cases: Vec<(Vec<bool>, Vec<bool>)> = Vec::new();
    if n <= 4 {
        for o in 0..1usize << n {
            for b in 0..1usize << (n + 1) {
                cases.push(((0..n).map(|i| o >> i & 1 == 1).collect(), (0..n + 1).map(|i| b >> i & 1 == 1).collect()));
            }
        }
    }
    for _ in 0..if n > 1000 { 1 } else if n > 100 { 3 } else { r.scale(8, 1500) } {
        let d = 1 + rng.below(4);
        cases.push(((0..n).map(|_| rng.chance(d, 4)).collect(), (0..rng.below(if n > 100 { 6 } else { n + 3 })).map(|_| rng.chance(1, 2)).collect()));
    }
    for c in cases {
        r.case(label, c, |(occ, ops)| {
            let entries: Vec<(K, V)> = (0..n).filter(|&i| occ[i]).map(|i| (k(i), V::make(i as u32 + 10))).collect();
            let keys: Vec<K> = entries.iter().map(|e| e.0.clone()).collect();
            let vals: Vec<V> = entries.iter().map(|e| e.1.clone()).collect();
            let every: Vec<(K, V)> = (0..n).map(|i| (k(i), V::make(i as u32 + 10))).collect();
            let pair = |g: &(K, V), w: &(K, V)| g == w;
            let rpair = |g: &(K, &V), w: &(K, V)| g.0 == w.0 && *g.1 == w.1;
            let mpair = |g: &(K, &mut V), w: &(K, V)| g.0 == w.0 && *g.1 == w.1;

            macro_rules! partial {
                ($m:ty) => {{
                    let mut m: $m = entries.iter().cloned().collect();
                    one_of(&m, &[&Map(&entries)], stringify!($m))?;
                    steps(m.iter(), &entries, ops, rpair, |i, rest, when| one_of(i, &[&rest], &format!("{}::iter {when}", stringify!($m))))?;
                    steps(m.iter_mut(), &entries, ops, mpair, |i, rest, when| one_of(i, &[&rest], &format!("{}::iter_mut {when}", stringify!($m))))?;
                    steps(m.values(), &vals, ops, |g, w| *g == w, |i, rest, when| one_of(i, &[&rest], &format!("{}::values {when}", stringify!($m))))?;
                    steps(m.values_mut(), &vals, ops, |g, w| *g == w, |i, rest, when| one_of(i, &[&rest], &format!("{}::values_mut {when}", stringify!($m))))?;
                    one_of(&m, &[&Map(&entries)], stringify!($m))?;
                    steps(m.into_iter(), &entries, ops, pair, |i, rest, when| one_of(i, &[&rest], &format!("{}::into_iter {when}", stringify!($m))))?;
                }};
            }
            partial!(OrdinalMap<K, V>);
            partial!(OrdinalArrayMap<K, V, S>);
            let m: OrdinalMap<K, ()> = keys.iter().map(|x| (x.clone(), ())).collect();
            steps(m.keys(), &keys, ops, |g, w| g == w, |i, rest, when| one_of(i, &[&rest], &format!("OrdinalMap::keys {when}")))?;

            macro_rules! total {
                ($m:ty) => {{
                    let mut m = <$m>::new(|key: K| V::make(key.ordinal() as u32 + 10));
                    one_of(&m, &[&Map(&every)], stringify!($m))?;
                    steps(m.iter(), &every, ops, rpair, |i, rest, when| one_of(i, &[&rest], &format!("{}::iter {when}", stringify!($m))))?;
                    steps(m.iter_mut(), &every, ops, mpair, |i, rest, when| one_of(i, &[&rest], &format!("{}::iter_mut {when}", stringify!($m))))?;
                    one_of(&m, &[&Map(&every)], stringify!($m))?;
                    steps(m.into_iter(), &every, ops, pair, |i, rest, when| one_of(i, &[&rest], &format!("{}::into_iter {when}", stringify!($m))))?;
                }};
            }
            total!(OrdinalTotalMap<K, V>);
            total!(OrdinalTotalArrayMap<K, V, S>);

            let s: OrdinalSet<K> = keys.iter().cloned().collect();
            one_of(&s, &[&Set(&keys)], "OrdinalSet")?;
            steps(s.iter(), &keys, ops, |g, w| g == w, |i, rest, when| one_of(i, &[&rest], &format!("OrdinalSet::iter {when}")))?;
            one_of(&s, &[&Set(&keys)], "OrdinalSet after rendering")?;
            let s: OrdinalArraySet<K, W> = keys.iter().cloned().collect();
            one_of(&s, &[&Set(&keys)], "OrdinalArraySet")?;
            if n <= 64 {
                small(&keys, ops)?;
            }
            // enumeration of the values
            let allv: Vec<K> = (0..n).map(k).collect();
            steps(K::all_values(), &allv, ops, |g, w| g == w, |i, rest, when| {
                let g = format!("{i:?}");
                let to_end = rest.last() == allv.last();
                let w = match rest {
                    [] => "[]".to_owned(),
                    [a, ..] if to_end => format!("[{a:?}..]"),
                    [a] => format!("[{a:?}]"),
                    [a, .., b] => format!("[{a:?}..={b:?}]"),
                };
                same!(g, w, "all_values {when}");
                Ok(())
            })?;
            for x in keys.iter().take(100).chain(keys.last()) {
                one_of(&AtomicOrdinal::new(x.clone()), &[x], "AtomicOrdinal")?;
            }
            Ok(())
        });
    }
    r.case(&format!("{label}, new"), (), |_| {
        one_of(&OrdinalMap::<K, V>::new(), &[&Map::<K, V>(&[])], "new OrdinalMap")?;
        one_of(&OrdinalMap::<K, V>::new().iter(), &[&[] as &[&dyn Debug; 0]], "iterator of a new OrdinalMap")?;
        one_of(&OrdinalArrayMap::<K, V, S>::new(), &[&Map::<K, V>(&[])], "new OrdinalArrayMap")?;
        one_of(&OrdinalSet::<K>::new(), &[&Set::<K>(&[])], "new OrdinalSet")?;
        one_of(&OrdinalSet::<K>::new().iter(), &[&[] as &[&dyn Debug; 0]], "iterator of a new OrdinalSet")?;
        one_of(&OrdinalArraySet::<K, W>::new(), &[&Set::<K>(&[])], "new OrdinalArraySet")
    });
}

macro_rules! small_impl {
    ($($t:ty),*) => {
        trait Small: Sized { fn small(keys: &[Self], ops: &[bool]) -> Result<(), String>; }
        $(impl Small for $t {
            fn small(keys: &[Self], ops: &[bool]) -> Result<(), String> {
                let s: OrdinalSet64<$t> = keys.iter().cloned().collect();
                one_of(&s, &[&Set(keys)], "OrdinalSet64")?;
                steps(s.iter(), keys, ops, |g, w| g == w, |i, rest, when| one_of(i, &[&rest], &format!("OrdinalSet64::iter {when}")))?;
                one_of(&s, &[&Set(keys)], "OrdinalSet64 after rendering")
            }
        })*
    };
}
small_impl!(K<0>, (), bool, K<4>, Rev<3>, Option<K<5>>, K<64>);
/// Only types with at most 64 values can be in the word-sized set, so dispatch by type.
fn small<X: 'static + Clone>(keys: &[X], ops: &[bool]) -> Result<(), String> {
    macro_rules! try_as {
        ($($t:ty),*) => { $(
            if std::any::TypeId::of::<X>() == std::any::TypeId::of::<$t>() {
                let v: Vec<$t> = keys.iter().map(|x| (x as &dyn std::any::Any).downcast_ref::<$t>().unwrap().clone()).collect();
                return <$t as Small>::small(&v, ops);
            }
        )* };
    }
    try_as!(K<0>, (), bool, K<4>, Rev<3>, Option<K<5>>, K<64>);
    Ok(())
}

fn main() {
    let mut run = Run::start("C21");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $( maps::<$k, $v, $s, { ordinal_array_set_s::<$k>() }>(r, concat!("Debug, keys ", stringify!($k), ", values ", stringify!($v))); )* } }
    go!(K<0>, u32, 0; (), u32, 1; bool, String, 2; Rev<3>, Option<u8>, 3; K<4>, u32, 4; Option<K<5>>, Box<u64>, 6; K<64>, u32, 64; K<65>, u32, 65; K<300>, u32, 300; K<5000>, u32, 5000; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    run.finish();
}
