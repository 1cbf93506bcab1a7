use ordinal_map::set::{Iter64, OrdinalSet, OrdinalSet64};
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

fn occupancies<K: Ordinal + Spec>(r: &mut Run, rng: &mut Rng) -> Vec<(Vec<usize>, Vec<Op>)> {
    let n = K::count() as usize;
    let mut v = Vec::new();
    if n <= 4 {
        for o in 0..1usize << n {
            let occ: Vec<usize> = (0..n).filter(|i| o >> i & 1 == 1).collect();
            for ops in op_seqs(rng, occ.len(), 0) {
                v.push((occ.clone(), ops));
            }
        }
    }
    for i in 0..n.min(300) {
        for ops in [vec![Op::Next, Op::Next, Op::Back], vec![Op::Back, Op::Next, Op::Back], vec![Op::CloneAll, Op::Rev], vec![Op::Last], vec![Op::Nth(0), Op::Hint]] {
            v.push((vec![i], ops));
        }
    }
    for _ in 0..if n > 10_000 { r.scale(4, 60) } else if n > 1000 { r.scale(20, 200) } else { r.scale(250, 15_000) } {
        let d = rng.below(8);
        let mut occ: Vec<usize> = (0..n).filter(|_| rng.below(8) <= d).collect();
        // holes the size of a machine word, halves of words, a handful of elements
        match rng.below(5) {
            0 => occ.retain(|i| i / 64 % 3 != d % 3),
            1 => occ.retain(|i| (i % 64 < 32) == (i / 64 % 2 == d % 2)),
            2 if n > 0 => {
                occ = (0..rng.below(4)).map(|_| rng.below(n)).collect();
                occ.sort();
                occ.dedup();
            }
            3 if n > 0 => occ.retain(|i| i % 64 == 63 || i % 64 == 0 || *i + 1 == n),
            _ => {}
        }
        let ops = random_ops(rng, occ.len().min(70));
        v.push((occ, ops));
    }
    // the full set and the fullest with a gap
    if n <= 200 {
        for ops in full_seqs(rng, n) {
            v.push(((0..n).collect(), ops));
        }
        for ops in full_seqs(rng, n.saturating_sub(1)) {
            let gap = rng.below(n.max(1));
            v.push(((0..n).filter(|i| *i != gap).collect(), ops));
        }
    }
    v.push(((0..n).collect(), vec![Op::Collect]));
    v.push(((0..n).collect(), vec![Op::Rev]));
    v
}

fn general<K: Ordinal + Spec + Clone + PartialEq + Debug>(r: &mut Run, label: &str) {
    let k = |i: usize| K::nth(i as u128).unwrap();
    let mut rng = Rng::new(r.seed ^ K::count() as u64);
    for c in occupancies::<K>(r, &mut rng) {
        r.case(&format!("{label}::iter"), c, |(occ, ops)| {
            let s: OrdinalSet<K> = occ.iter().map(|&i| k(i)).collect();
            let expected: Vec<K> = occ.iter().map(|&i| k(i)).collect();
            drive(s.iter(), &expected, ops, Size::Bracket, |x| x, None, Some(Clone::clone))?;
            same!(s.iter().take(expected.len() + 2).collect::<Vec<_>>(), expected, "elements after iterating");
            Ok(())
        });
    }
    r.case(&format!("{label}::iter"), "new set", |_| {
        let s = OrdinalSet::<K>::new();
        drive(s.iter(), &[], &[Op::Next, Op::Back, Op::Hint], Size::Bracket, |x| x, None, Some(Clone::clone))
    });
}

/// Sequences for sets too large to try every occupancy of.
fn full_seqs(rng: &mut Rng, n: usize) -> Vec<Vec<Op>> {
    let mut v = op_seqs(rng, n, 40);
    for i in [0, 1, 2, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1), n, n + 1, usize::MAX - 1, usize::MAX] {
        for back in [vec![], vec![Op::Back], vec![Op::Next, Op::Back], vec![Op::Next]] {
            for op in [Op::Nth(i), Op::NthBack(i)] {
                let mut ops = back.clone();
                ops.extend([op, Op::Hint, Op::Next, Op::Back]);
                v.push(ops);
            }
        }
    }
    v
}

fn small<K: Ordinal + Spec + Clone + PartialEq + Debug>(r: &mut Run, label: &str) {
    let k = |i: usize| K::nth(i as u128).unwrap();
    let mut rng = Rng::new(r.seed ^ K::count() as u64);
    for c in occupancies::<K>(r, &mut rng) {
        r.case(&format!("{label}::iter"), c, |(occ, ops)| {
            let s: OrdinalSet64<K> = occ.iter().map(|&i| k(i)).collect();
            let expected: Vec<K> = occ.iter().map(|&i| k(i)).collect();
            drive(s.iter(), &expected, ops, Size::Exact, |x| x, Some(<Iter64<K> as ExactSizeIterator>::len), Some(Clone::clone))?;
            same!(s.iter().take(expected.len() + 2).collect::<Vec<_>>(), expected, "elements after iterating");
            Ok(())
        });
    }
    let mut seqs = full_seqs(&mut rng, K::count() as usize);
    seqs.push(vec![Op::Back, Op::Hint, Op::Next, Op::CloneRev, Op::Collect]);
    for ops in seqs { r.case(&format!("{label}::iter"), ("full set", ops), |(_, ops)| {
        let expected: Vec<K> = (0..K::count() as usize).map(k).collect();
        drive(OrdinalSet64::<K>::all().iter(), &expected, ops, Size::Exact, |x| x, Some(<Iter64<K> as ExactSizeIterator>::len), Some(Clone::clone))
    }); }
}

/// Items that can be compared: the provided methods that need that.
fn sorted<K: Ordinal + Spec + Clone + Ord + Debug>(r: &mut Run, label: &str) {
    let k = |i: usize| K::nth(i as u128).unwrap();
    let n = K::count() as usize;
    let mut rng = Rng::new(r.seed ^ K::count() as u64);
    for _ in 0..r.scale(20, 200) {
        let d = rng.below(5);
        let occ: Vec<usize> = (0..n).filter(|_| rng.below(4) < d).collect();
        for (front, back) in [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (occ.len(), 0), (0, occ.len()), (occ.len() / 2, occ.len() / 2)] {
            r.case(&format!("{label} comparisons"), (occ.clone(), front, back), |(occ, front, back)| {
                let expected: Vec<K> = occ.iter().map(|&i| k(i)).collect();
                let s: OrdinalSet<K> = expected.iter().cloned().collect();
                ordered(s.iter(), &expected, *front, *back)?;
                let s: OrdinalSet64<K> = expected.iter().cloned().collect();
                ordered(s.iter(), &expected, *front, *back)
            });
        }
    }
}

fn main() {
    let mut run = Run::start("C17");
    let r = &mut run;
    macro_rules! go { ($f:ident, $t:literal: $($k:ty),* $(,)?) => { $( $f::<$k>(r, concat!($t, "<", stringify!($k), ">")); )* } }
    go!(general, "OrdinalSet": K<0>, (), K<1>, bool, Rev<3>, K<4>, K<63>, K<64>, [bool; 6], K<65>, K<128>, K<129>, u8, Option<u8>, K<3000>, K<70000>, Box<K<5>>, Box<K<70>>);
    go!(small, "OrdinalSet64": K<0>, (), K<1>, bool, Rev<3>, K<4>, K<8>, K<32>, K<63>, K<64>, [bool; 6], Rev<64>, Box<K<5>>);
    go!(sorted, "sets of ": K<0>, (), bool, K<3>, K<32>, K<33>, K<63>, K<64>, [bool; 6]);
    run.finish();
}
