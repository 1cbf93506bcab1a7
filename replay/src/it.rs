//! Drives any double-ended iterator of the crate against a deque of the items it should yield.
use std::collections::VecDeque;
use std::fmt::Debug;

use crate::Rng;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Hint,
    CloneAll,
    CloneRev,
    CloneSwap,
    // Consuming: everything after one of these is ignored.
    Collect,
    Rev,
    Count,
    Last,
    Fold,
    Rfold,
    Skip(usize),
    StepBy(usize),
    Find,
    Rfind,
    Position,
    ForEach,
    All,
    FindMap,
    Reduce,
    MaxBy,
    MinBy,
    Partition,
    Chunk(usize),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// The hint brackets the number of remaining items.
    Bracket,
    /// The hint is the number of remaining items.
    Exact,
}

pub fn ops_of_bits(len: usize, bits: usize) -> Vec<Op> {
    (0..len).map(|i| if bits >> i & 1 == 0 { Op::Next } else { Op::Back }).collect()
}

/// How far a `nth` jumps: mostly a little, sometimes to the very end, sometimes absurdly far.
fn jump(rng: &mut Rng, n: usize) -> usize {
    match rng.below(12) {
        0 => usize::MAX,
        1 => [usize::MAX - 1, usize::MAX - n, 1 << 32, (1 << 32) + 1, 1 << 63, u32::MAX as usize][rng.below(6)],
        2 => n,
        3 => n.saturating_sub(1 + rng.below(3)),
        4 => (rng.below(n / 4 + 3)) * 9,
        _ => rng.below(n / 4 + 3),
    }
}

/// Every operation that uses an iterator up.
pub fn finals(n: usize) -> Vec<Op> {
    let mut v = vec![
        Op::Nth(usize::MAX), Op::NthBack(usize::MAX), Op::Nth(1), Op::NthBack(1), Op::Nth(n), Op::NthBack(n),
        Op::Collect, Op::Rev, Op::Count, Op::Last, Op::Fold, Op::Rfold, Op::Skip(1), Op::StepBy(2), Op::Find, Op::Rfind, Op::Position,
        Op::ForEach, Op::All, Op::FindMap, Op::Reduce, Op::MaxBy, Op::MinBy, Op::Partition, Op::Chunk(2),
    ];
    if n > 2 {
        v.extend([Op::Nth(n - 1), Op::NthBack(n - 1), Op::Nth(2), Op::NthBack(2)]);
    }
    v
}

pub fn random_ops(rng: &mut Rng, n: usize) -> Vec<Op> {
    let len = rng.below(n + 4);
    let bias = rng.below(5);
    let mut v = Vec::new();
    for _ in 0..len {
        v.push(match rng.below(18) {
            0..=10 => {
                if rng.below(4) < bias {
                    Op::Next
                } else {
                    Op::Back
                }
            }
            11 => Op::Nth(jump(rng, n)),
            12 => Op::NthBack(jump(rng, n)),
            13 | 14 => Op::Hint,
            15 => Op::CloneAll,
            16 => Op::CloneRev,
            _ => Op::CloneSwap,
        });
    }
    match rng.below(22) {
        14 => v.push(Op::ForEach),
        15 => v.push(Op::All),
        16 => v.push(Op::FindMap),
        17 => v.push(Op::Reduce),
        18 => v.push(Op::MaxBy),
        19 => v.push(Op::MinBy),
        20 => v.push(Op::Partition),
        21 => v.push(Op::Chunk(1 + rng.below(3))),
        0 | 1 => v.push(Op::Collect),
        2 | 3 => v.push(Op::Rev),
        4 => v.push(Op::Count),
        5 => v.push(Op::Last),
        6 => v.push(Op::Fold),
        7 => v.push(Op::Rfold),
        8 => v.push(Op::Skip(rng.below(n + 2))),
        9 => v.push(Op::StepBy(1 + rng.below(4))),
        10 => v.push(Op::Find),
        11 => v.push(Op::Rfind),
        12 => v.push(Op::Position),
        _ => {}
    }
    v
}

/// `proj` turns an item into something comparable (and may write through it);
/// `len`, where given, is the exact reported length; `clone`, where given, clones the iterator.
pub fn drive<I, T>(
    it: I,
    expected: &[T],
    ops: &[Op],
    size: Size,
    mut proj: impl FnMut(I::Item) -> T,
    len: Option<fn(&I) -> usize>,
    clone: Option<fn(&I) -> I>,
) -> Result<(), String>
where
    I: DoubleEndedIterator,
    T: Clone + PartialEq + Debug,
{
    let mut it = it;
    let mut m: VecDeque<T> = expected.iter().cloned().collect();
    fn hint<I: DoubleEndedIterator>(it: &I, n: usize, size: Size, len: Option<fn(&I) -> usize>, at: &str) -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        if size == Size::Exact {
            if (lo, hi) != (n, Some(n)) {
                return Err(format!("{at}: size_hint is {:?} with {n} items remaining", (lo, hi)));
            }
        } else if lo > n || hi.is_some_and(|h| h < n) {
            return Err(format!("{at}: size_hint {:?} does not bracket the {n} remaining items", (lo, hi)));
        }
        if let Some(len) = len {
            let l = len(it);
            if l != n {
                return Err(format!("{at}: len is {l} with {n} items remaining"));
            }
        }
        Ok(())
    }
    hint(&it, m.len(), size, len, "at the start")?;
    for (k, op) in ops.iter().enumerate() {
        let at = format!("step {k} ({op:?})");
        macro_rules! same_item {
            ($g:expr, $w:expr) => {{
                let (g, w): (Option<T>, Option<T>) = ($g, $w);
                if g != w {
                    return Err(format!("{at}: yielded {g:?}, expected {w:?}"));
                }
            }};
        }
        macro_rules! same_list {
            ($g:expr, $w:expr) => {{
                let (g, w): (Vec<T>, Vec<T>) = ($g, $w);
                if g != w {
                    return Err(format!("{at}: yielded {g:?}, expected {w:?}"));
                }
            }};
        }
        // A broken iterator must not hang the check.
        let cap = m.len() + 3;
        match op {
            Op::Next => same_item!(it.next().map(&mut proj), m.pop_front()),
            Op::Back => same_item!(it.next_back().map(&mut proj), m.pop_back()),
            Op::Nth(n) => {
                let g = it.nth(*n).map(&mut proj);
                m.drain(..(*n).min(m.len()));
                same_item!(g, m.pop_front());
            }
            Op::NthBack(n) => {
                let g = it.nth_back(*n).map(&mut proj);
                m.truncate(m.len().saturating_sub(*n));
                same_item!(g, m.pop_back());
            }
            Op::Hint => hint(&it, m.len(), size, len, &at)?,
            Op::CloneAll => {
                if let Some(c) = clone {
                    let c = c(&it);
                    hint(&c, m.len(), size, len, &at)?;
                    same_list!(c.take(cap).map(&mut proj).collect(), m.iter().cloned().collect());
                }
            }
            Op::CloneRev => {
                if let Some(c) = clone {
                    same_list!(c(&it).rev().take(cap).map(&mut proj).collect(), m.iter().rev().cloned().collect());
                }
            }
            Op::CloneSwap => {
                if let Some(c) = clone {
                    // Step the original, then carry on with the clone.
                    let c = c(&it);
                    let _ = it.next();
                    let _ = it.next_back();
                    it = c;
                }
            }
            Op::Collect => {
                same_list!(it.take(cap).map(&mut proj).collect(), m.into_iter().collect());
                return Ok(());
            }
            Op::Rev => {
                same_list!(it.rev().take(cap).map(&mut proj).collect(), m.into_iter().rev().collect());
                return Ok(());
            }
            Op::Count => {
                let g = it.count();
                if g != m.len() {
                    return Err(format!("{at}: count is {g} with {} items remaining", m.len()));
                }
                return Ok(());
            }
            Op::Last => {
                same_item!(it.last().map(&mut proj), m.pop_back());
                return Ok(());
            }
            Op::Fold => {
                let g = it.fold(Vec::new(), |mut a, x| {
                    a.push(proj(x));
                    a
                });
                same_list!(g, m.into_iter().collect());
                return Ok(());
            }
            Op::Rfold => {
                let g = it.rfold(Vec::new(), |mut a, x| {
                    a.push(proj(x));
                    a
                });
                same_list!(g, m.into_iter().rev().collect());
                return Ok(());
            }
            Op::Skip(n) => {
                same_list!(it.skip(*n).take(cap).map(&mut proj).collect(), m.into_iter().skip(*n).collect());
                return Ok(());
            }
            Op::StepBy(n) => {
                same_list!(it.step_by(*n).take(cap).map(&mut proj).collect(), m.into_iter().step_by(*n).collect());
                return Ok(());
            }
            Op::Find => {
                let w = m.get(m.len() / 2).cloned();
                let mut got = None;
                it.by_ref().any(|x| {
                    let p = proj(x);
                    if w.as_ref() == Some(&p) {
                        got = Some(p);
                        true
                    } else {
                        false
                    }
                });
                same_item!(got, w);
                return Ok(());
            }
            Op::Rfind => {
                let mut seen = Vec::new();
                let stop = m.len() / 2;
                it.try_rfold((), |(), x| {
                    seen.push(proj(x));
                    if seen.len() > stop {
                        Err(())
                    } else {
                        Ok(())
                    }
                })
                .ok();
                same_list!(seen, m.iter().rev().take(stop + 1).cloned().collect());
                return Ok(());
            }
            Op::ForEach => {
                let mut g = Vec::new();
                it.for_each(|x| g.push(proj(x)));
                same_list!(g, m.into_iter().collect());
                return Ok(());
            }
            Op::All => {
                let mut seen = Vec::new();
                let stop = m.len() / 2;
                it.all(|x| {
                    seen.push(proj(x));
                    seen.len() <= stop
                });
                m.drain(..(stop + 1).min(m.len()));
                same_list!(it.take(cap).map(&mut proj).collect(), m.into_iter().collect());
                return Ok(());
            }
            Op::FindMap => {
                let mut seen = 0;
                let stop = m.len() / 2;
                let g = it.find_map(|x| {
                    seen += 1;
                    let p = proj(x);
                    (seen > stop).then_some(p)
                });
                let w = m.drain(..(stop + 1).min(m.len())).nth(stop);
                same_item!(g, w);
                same_item!(it.next_back().map(&mut proj), m.pop_back());
                same_item!(it.next().map(&mut proj), m.pop_front());
                return Ok(());
            }
            Op::Reduce => {
                let mut c = 0;
                let g = it.reduce(|a, b| {
                    c += 1;
                    if c % 2 == 0 {
                        a
                    } else {
                        b
                    }
                });
                let mut d = 0;
                let w = m.into_iter().reduce(|a, b| {
                    d += 1;
                    if d % 2 == 0 {
                        a
                    } else {
                        b
                    }
                });
                same_item!(g.map(&mut proj), w);
                return Ok(());
            }
            Op::MaxBy => {
                same_item!(it.max_by(|_, _| std::cmp::Ordering::Equal).map(&mut proj), m.pop_back());
                return Ok(());
            }
            Op::MinBy => {
                same_item!(it.min_by(|_, _| std::cmp::Ordering::Equal).map(&mut proj), m.pop_front());
                return Ok(());
            }
            Op::Partition => {
                let mut c = 0;
                let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                    c += 1;
                    c % 3 == 0
                });
                let mut d = 0;
                let (x, y): (Vec<_>, Vec<_>) = m.into_iter().partition(|_| {
                    d += 1;
                    d % 3 == 0
                });
                same_list!(a.into_iter().map(&mut proj).collect(), x);
                same_list!(b.into_iter().map(&mut proj).collect(), y);
                return Ok(());
            }
            Op::Chunk(n) => {
                // Take a few through a borrowed adaptor, then the rest from both ends.
                same_list!(it.by_ref().take(*n).map(&mut proj).collect(), m.drain(..(*n).min(m.len())).collect());
                same_list!(it.by_ref().rev().take(*n).map(&mut proj).collect(), (0..*n).filter_map(|_| m.pop_back()).collect());
            }
            Op::Position => {
                let w = m.len();
                let g = it.position(|x| {
                    proj(x);
                    false
                });
                if g.is_some() {
                    return Err(format!("{at}: stopped early"));
                }
                if it.next().is_some() || it.next_back().is_some() {
                    return Err(format!("{at}: yields after exhaustion of {w} items"));
                }
                return Ok(());
            }
        }
        hint(&it, m.len(), size, len, &at)?;
    }
    // Exhausted iterators stay exhausted.
    if m.is_empty() {
        for _ in 0..2 {
            if let Some(x) = it.next_back() {
                return Err(format!("yields {:?} from the back after the end", proj(x)));
            }
            if let Some(x) = it.next() {
                return Err(format!("yields {:?} after the end", proj(x)));
            }
        }
        hint(&it, 0, size, len, "after the end")?;
    }
    Ok(())
}

/// A few of them, for iterators that are expensive to make.
pub fn some_op_seqs(rng: &mut Rng, n: usize, count: usize) -> Vec<Vec<Op>> {
    let all = op_seqs(rng, n, count);
    let step = (all.len() / count.max(1)).max(1) | 1;
    all.into_iter().step_by(step).collect()
}

/// Op sequences for a sequence of `n` items: every front/back pattern when short, plus random ones.
pub fn op_seqs(rng: &mut Rng, n: usize, random: usize) -> Vec<Vec<Op>> {
    let mut v = Vec::new();
    if n <= 5 {
        for bits in 0..1usize << (n + 1) {
            v.push(ops_of_bits(n + 1, bits));
        }
    }
    // every way of using the iterator up, from the start, from a few steps in, and after the end
    for front in 0..=2 {
        for back in 0..=2 {
            for f in finals(n) {
                let mut ops = vec![Op::Next; front];
                ops.extend(vec![Op::Back; back]);
                ops.push(f);
                v.push(ops);
            }
        }
    }
    if n <= 5 {
        for f in finals(n) {
            let mut ops = vec![Op::Next; n];
            ops.push(f.clone());
            v.push(ops);
            let mut ops = vec![Op::Back; n];
            ops.push(f);
            v.push(ops);
        }
    }
    for _ in 0..random {
        v.push(random_ops(rng, n));
    }
    v
}

/// The provided methods that need comparable items, after a few steps from either end.
pub fn ordered<I>(it: I, expected: &[I::Item], front: usize, back: usize) -> Result<(), String>
where
    I: DoubleEndedIterator + Clone,
    I::Item: Ord + Clone + Debug,
{
    let mut it = it;
    let mut m: VecDeque<I::Item> = expected.iter().cloned().collect();
    for _ in 0..front {
        crate::same!(it.next(), m.pop_front(), "step from the front");
    }
    for _ in 0..back {
        crate::same!(it.next_back(), m.pop_back(), "step from the back");
    }
    crate::same!(it.clone().max(), m.iter().cloned().max(), "max after {front} and {back} steps");
    crate::same!(it.clone().min(), m.iter().cloned().min(), "min after {front} and {back} steps");
    crate::same!(it.clone().max_by_key(|x| x.clone()), m.iter().cloned().max(), "max_by_key after {front} and {back} steps");
    crate::same!(it.clone().min_by_key(|x| x.clone()), m.iter().cloned().min(), "min_by_key after {front} and {back} steps");
    crate::same!(it.clone().is_sorted(), m.iter().is_sorted(), "is_sorted after {front} and {back} steps");
    crate::same!(it.clone().eq(m.iter().cloned()), true, "eq after {front} and {back} steps");
    crate::same!(it.clone().ne(m.iter().cloned()), false, "ne after {front} and {back} steps");
    crate::same!(it.clone().cmp(m.iter().cloned()), std::cmp::Ordering::Equal, "cmp after {front} and {back} steps");
    crate::same!(it.clone().cmp(expected.iter().cloned()), m.iter().cmp(expected.iter()), "cmp with all items after {front} and {back} steps");
    crate::same!(it.clone().eq(expected.iter().cloned()), m.iter().eq(expected.iter()), "eq with all items after {front} and {back} steps");
    crate::same!(it.clone().lt(expected.iter().cloned()), m.iter().lt(expected.iter()), "lt with all items after {front} and {back} steps");
    crate::same!(it.clone().le(expected.iter().cloned()), m.iter().le(expected.iter()), "le with all items after {front} and {back} steps");
    crate::same!(it.clone().partial_cmp(m.iter().cloned()), Some(std::cmp::Ordering::Equal), "partial_cmp after {front} and {back} steps");
    Ok(())
}
