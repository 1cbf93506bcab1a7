//! Independent specification of the numbering: number of values, and the i-th value.
use ordinal_map::Ordinal;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::convert::Infallible;
use std::fmt::Debug;
use std::num::*;

use crate::{same, Rev, Rng, Run, K};

pub trait Spec: Sized {
    /// Exact number of values; saturates far above the machine word.
    fn count() -> u128;
    /// The value with this index.
    fn nth(i: u128) -> Option<Self>;
}

pub const CAP: u128 = 1 << 100;
pub fn mulc(a: u128, b: u128) -> u128 {
    a.checked_mul(b).map_or(CAP, |c| c.min(CAP))
}

impl<const N: usize> Spec for K<N> {
    fn count() -> u128 {
        N as u128
    }
    fn nth(i: u128) -> Option<Self> {
        (i < N as u128).then_some(K(i as usize))
    }
}
impl<const N: usize> Spec for Rev<N> {
    fn count() -> u128 {
        N as u128
    }
    fn nth(i: u128) -> Option<Self> {
        (i < N as u128).then(|| Rev(1000 + (N as u64 - 1 - i as u64)))
    }
}
impl Spec for bool {
    fn count() -> u128 {
        2
    }
    fn nth(i: u128) -> Option<Self> {
        [false, true].get(usize::try_from(i).ok()?).copied()
    }
}
impl Spec for Ordering {
    fn count() -> u128 {
        3
    }
    fn nth(i: u128) -> Option<Self> {
        [Ordering::Less, Ordering::Equal, Ordering::Greater].get(usize::try_from(i).ok()?).copied()
    }
}
impl Spec for Infallible {
    fn count() -> u128 {
        0
    }
    fn nth(_: u128) -> Option<Self> {
        None
    }
}
impl Spec for char {
    fn count() -> u128 {
        0x110000 - 0x800
    }
    fn nth(i: u128) -> Option<Self> {
        let j = if i < 0xd800 { i } else { i + 0x800 };
        char::from_u32(u32::try_from(j).ok()?)
    }
}
macro_rules! int_spec {
    ($($t:ty),*) => {$(
        impl Spec for $t {
            fn count() -> u128 { 1u128 << <$t>::BITS }
            fn nth(i: u128) -> Option<Self> {
                if i >= Self::count() { return None; }
                <$t>::try_from(<$t>::MIN as i128 + i as i128).ok()
            }
        }
    )*};
}
int_spec!(u8, i8, u16, i16, u32, i32);
macro_rules! nz_spec {
    ($($n:ty, $t:ty);*) => {$(
        impl Spec for $n {
            fn count() -> u128 { (1u128 << <$t>::BITS) - 1 }
            fn nth(i: u128) -> Option<Self> {
                if i >= Self::count() { return None; }
                let mut v = <$t>::MIN as i128 + i as i128;
                if <$t>::MIN == 0 || v >= 0 { v += 1; }
                <$n>::new(<$t>::try_from(v).ok()?)
            }
        }
    )*};
}
nz_spec!(NonZeroU8, u8; NonZeroI8, i8; NonZeroU16, u16; NonZeroI16, i16; NonZeroU32, u32; NonZeroI32, i32;
    NonZeroU64, u64; NonZeroI64, i64; NonZeroUsize, usize; NonZeroIsize, isize);

impl<T: Spec> Spec for Option<T> {
    fn count() -> u128 {
        1 + T::count()
    }
    fn nth(i: u128) -> Option<Self> {
        if i == 0 {
            Some(None)
        } else {
            T::nth(i - 1).map(Some)
        }
    }
}
impl<T: Spec, E: Spec> Spec for Result<T, E> {
    fn count() -> u128 {
        T::count() + E::count()
    }
    fn nth(i: u128) -> Option<Self> {
        if i < T::count() {
            T::nth(i).map(Ok)
        } else {
            E::nth(i - T::count()).map(Err)
        }
    }
}
impl<T: Spec, E: Spec> Spec for either::Either<T, E> {
    fn count() -> u128 {
        T::count() + E::count()
    }
    fn nth(i: u128) -> Option<Self> {
        if i < T::count() {
            T::nth(i).map(either::Left)
        } else {
            E::nth(i - T::count()).map(either::Right)
        }
    }
}
impl<T: Spec> Spec for Box<T> {
    fn count() -> u128 {
        T::count()
    }
    fn nth(i: u128) -> Option<Self> {
        T::nth(i).map(Box::new)
    }
}
impl<T: Spec, const N: usize> Spec for [T; N] {
    fn count() -> u128 {
        (0..N).fold(1, |c, _| mulc(c, T::count()))
    }
    fn nth(i: u128) -> Option<Self> {
        if i >= Self::count() {
            return None;
        }
        let mut r = i;
        let mut v: Vec<T> = Vec::new();
        for _ in 0..N {
            v.push(T::nth(r % T::count())?);
            r /= T::count();
        }
        v.reverse();
        v.try_into().ok()
    }
}
macro_rules! tuple_spec {
    ($($t:ident)*) => {
        impl<$($t: Spec),*> Spec for ($($t,)*) {
            fn count() -> u128 {
                [$($t::count()),*].into_iter().fold(1u128, mulc)
            }
            #[allow(unused, non_snake_case)]
            fn nth(i: u128) -> Option<Self> {
                if i >= Self::count() { return None; }
                let radix: Vec<u128> = vec![$($t::count()),*];
                let mut digits = vec![0; radix.len()];
                let mut r = i;
                for k in (0..radix.len()).rev() {
                    digits[k] = r % radix[k];
                    r /= radix[k];
                }
                let mut d = digits.into_iter();
                Some(($($t::nth(d.next()?)?,)*))
            }
        }
    };
}
tuple_spec!();
tuple_spec!(A);
tuple_spec!(A B);
tuple_spec!(A B C);
tuple_spec!(A B C D);
tuple_spec!(A B C D E);
tuple_spec!(A B C D E F);
tuple_spec!(A B C D E F G);
tuple_spec!(A B C D E F G H);
tuple_spec!(A B C D E F G H I);
tuple_spec!(A B C D E F G H I J);
tuple_spec!(A B C D E F G H I J L);
tuple_spec!(A B C D E F G H I J L M);
tuple_spec!(A B C D E F G H I J L M N);
tuple_spec!(A B C D E F G H I J L M N O);
tuple_spec!(A B C D E F G H I J L M N O P);
tuple_spec!(A B C D E F G H I J L M N O P Q);

/// Indices worth trying for a type with `n` values: all of them if few, else the ends, powers of
/// two and their neighbours, multiples of `n` shifted by machine words, and random ones.
pub fn indices(n: u128, rng: &mut Rng, exhaustive: usize, random: usize) -> Vec<usize> {
    let mut s = BTreeSet::new();
    let mut add = |x: u128| {
        if x <= usize::MAX as u128 {
            s.insert(x as usize);
        }
    };
    for i in 0..(exhaustive as u128).min(n + 8) {
        add(i);
        add((usize::MAX as u128).saturating_sub(i));
    }
    for d in 0..6u128 {
        add(n.saturating_sub(d));
        add(n + d);
        add(n / 2 + d);
        add((n / 2).saturating_sub(d));
        add(usize::MAX as u128 - d);
    }
    for b in 0..64 {
        let p = 1u128 << b;
        for q in [p, p - 1, p + 1, p + n, (p + n).saturating_sub(1), p.saturating_sub(n), p * 3, p + n / 2] {
            add(q);
        }
        for m in [3u128, 5, 7] {
            add(p * m);
            add(n.saturating_mul(p * m).min(u128::MAX / 2));
        }
        add(mulc(n, p));
        add(mulc(n, p) + 1);
    }
    for _ in 0..random {
        let r = rng.next();
        add(r as u128);
        add((r >> rng.below(64)) as u128);
        if n > 0 {
            add(r as u128 % n);
        }
    }
    s.into_iter().collect()
}

/// Everything the numbering laws say about one type, on the given indices.
pub fn check_type<T: Ordinal + Spec + PartialEq + Debug>(run: &mut Run, name: &str, exhaustive: usize, random: usize) {
    check_type_by(run, name, exhaustive, random, |x: T| x)
}

/// The same for a type that is observed through `proj`.
pub fn check_type_by<T: Ordinal + Spec, O: PartialEq + Debug>(run: &mut Run, name: &str, exhaustive: usize, random: usize, proj: fn(T) -> O) {
    let n = T::count();
    let label = format!("{name} as Ordinal");
    run.case(&label, "ORDINAL_SIZE", |_| {
        same!(T::ORDINAL_SIZE as u128, n, "{name}::ORDINAL_SIZE");
        Ok(())
    });
    let mut rng = Rng::new(run.seed ^ name.len() as u64);
    for i in indices(n, &mut rng, exhaustive, random) {
        run.case(&label, i, |&i| {
            let got = Run::guarded(|| Ok(T::from_ordinal(i))).map_err(|e| format!("from_ordinal({i}): {e}"))?;
            same!(got.map(proj), T::nth(i as u128).map(proj), "{name}::from_ordinal({i})");
            if let Some(v) = T::nth(i as u128) {
                let o = v.ordinal();
                same!(o, i, "ordinal of value {:?} (the value number {i})", proj(v));
            }
            Ok(())
        });
    }
}

/// Order of the values against order of the indices, on pairs.
pub fn check_order<T: Ordinal + Spec + Ord + Debug>(run: &mut Run, name: &str, exhaustive: usize, random: usize) {
    let n = T::count();
    let label = format!("{name} order");
    let mut rng = Rng::new(run.seed ^ 77 ^ name.len() as u64);
    let mut idx: Vec<usize> = indices(n, &mut rng, exhaustive, random).into_iter().filter(|&i| (i as u128) < n).collect();
    idx.sort();
    for w in idx.windows(2) {
        run.case(&label, (w[0], w[1]), |&(i, j)| pair::<T>(name, i, j));
    }
    if idx.is_empty() {
        return;
    }
    for _ in 0..random {
        let (i, j) = (idx[rng.below(idx.len())], idx[rng.below(idx.len())]);
        run.case(&label, (i, j), |&(i, j)| pair::<T>(name, i, j));
    }
    run.case(&label, "ends", |_| {
        let (lo, hi) = (T::nth(0).unwrap(), T::nth(n - 1).unwrap());
        same!(lo.ordinal(), 0, "ordinal of the smallest value {lo:?}");
        same!(hi.ordinal() as u128, n - 1, "ordinal of the largest value {hi:?}");
        Ok(())
    });
}
fn pair<T: Ordinal + Spec + Ord + Debug>(name: &str, i: usize, j: usize) -> Result<(), String> {
    let (a, b) = (T::nth(i as u128).unwrap(), T::nth(j as u128).unwrap());
    same!(a.ordinal().cmp(&b.ordinal()), a.cmp(&b), "{name}: comparison of the indices of {a:?} and {b:?}");
    Ok(())
}
