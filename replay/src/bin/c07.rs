use ordinal_map::{Ordinal, OrdinalValues};
use replay::*;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::fmt::Debug;
use std::num::*;

fn values<T: Ordinal + Spec + Clone + PartialEq + Debug + std::hash::Hash>(r: &mut Run, name: &str) {
    let n = T::count() as usize;
    let expected: Vec<T> = (0..n).map(|i| T::nth(i as u128).unwrap()).collect();
    let label = format!("{name}::all_values()");
    let mut rng = Rng::new(r.seed ^ n as u64);
    let random = if n > 2000 { r.scale(6, 30) } else { r.scale(250, 20_000) };
    for ops in op_seqs(&mut rng, n.min(300), random) {
        r.history(&label, ops, |ops| {
            drive(T::all_values(), &expected, ops, Size::Exact, |x| x, Some(<OrdinalValues<T> as ExactSizeIterator>::len), Some(OrdinalValues::clone))
        });
    }
}

/// A type with a huge number of values can be walked from both ends only; positions are indices.
fn huge<T: Ordinal + Spec + PartialEq + Debug>(r: &mut Run, name: &str) {
    let n = T::count();
    let label = format!("{name}::all_values() ends");
    for bits in 0..64usize {
        r.case(&label, bits, |&bits| {
            let mut it = T::all_values();
            let (mut lo, mut hi) = (0u128, n);
            let mut left = n as usize;
            for b in 0..6 {
                if bits >> b & 1 == 0 {
                    same!(it.next(), T::nth(lo), "step {b} from the front");
                    lo += 1;
                } else {
                    hi -= 1;
                    same!(it.next_back(), T::nth(hi), "step {b} from the back");
                }
                left = (hi - lo) as usize;
                same!(it.len(), left, "len after step {b}");
                same!(it.size_hint(), (left, Some(left)), "size_hint after step {b}");
            }
            same!(it.clone().last(), T::nth(hi - 1), "last");
            for jump in [0, 1, 2, 255, 256, 300] {
                let j = jump as u128;
                let mut f = it.clone();
                same!(f.nth(jump), if lo + j < hi { T::nth(lo + j) } else { None }, "nth({jump}) with {left} values remaining");
                let rest = if lo + j < hi { hi - lo - j - 1 } else { 0 };
                same!(f.len(), rest as usize, "len after nth({jump})");
                same!(f.next(), if rest > 0 { T::nth(lo + j + 1) } else { None }, "value after nth({jump})");
                let mut b = it.clone();
                same!(b.nth_back(jump), if lo + j < hi { T::nth(hi - 1 - j) } else { None }, "nth_back({jump}) with {left} values remaining");
                same!(b.len(), rest as usize, "len after nth_back({jump})");
                same!(b.next(), if rest > 0 { T::nth(lo) } else { None }, "value after nth_back({jump})");
            }
            Ok(())
        });
    }
}

/// Items that can be compared: the provided methods that need that.
fn sorted<T: Ordinal + Spec + Clone + Ord + Debug>(r: &mut Run, name: &str) {
    let n = T::count() as usize;
    let expected: Vec<T> = (0..n).map(|i| T::nth(i as u128).unwrap()).collect();
    for front in 0..=n.min(4) + 1 {
        for back in 0..=n.min(4) + 1 {
            r.case(&format!("{name}::all_values() comparisons"), (front, back), |&(front, back)| ordered(T::all_values(), &expected, front, back));
        }
    }
}

fn main() {
    let mut run = Run::start("C07");
    let r = &mut run;
    values::<Infallible>(r, "Infallible");
    values::<K<0>>(r, "K<0>");
    values::<()>(r, "()");
    values::<K<1>>(r, "K<1>");
    values::<bool>(r, "bool");
    values::<Ordering>(r, "Ordering");
    values::<K<4>>(r, "K<4>");
    values::<Rev<5>>(r, "Rev<5>");
    values::<K<17>>(r, "K<17>");
    values::<(K<3>, bool)>(r, "(K<3>, bool)");
    values::<[K<3>; 3]>(r, "[K<3>; 3]");
    values::<Option<u8>>(r, "Option<u8>");
    values::<i8>(r, "i8");
    values::<NonZeroI8>(r, "NonZeroI8");
    values::<u16>(r, "u16");
    sorted::<()>(r, "()");
    sorted::<bool>(r, "bool");
    sorted::<Ordering>(r, "Ordering");
    sorted::<K<5>>(r, "K<5>");
    sorted::<i8>(r, "i8");
    sorted::<NonZeroI8>(r, "NonZeroI8");
    sorted::<(K<3>, bool)>(r, "(K<3>, bool)");
    sorted::<[bool; 3]>(r, "[bool; 3]");
    sorted::<Option<K<3>>>(r, "Option<K<3>>");
    sorted::<Result<bool, K<3>>>(r, "Result<bool, K<3>>");
    huge::<u32>(r, "u32");
    huge::<char>(r, "char");
    huge::<NonZeroUsize>(r, "NonZeroUsize");
    huge::<K<{ usize::MAX }>>(r, "K<usize::MAX>");
    run.finish();
}
